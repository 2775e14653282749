import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks
print(vlib.java_classes())
try:
    vlib.build(checks.ALL_TARGETS)
except vlib.Broken as e:
    print(e)      # each check builds what it needs again and judges for itself
