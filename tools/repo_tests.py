"""Builds and runs the repository's own tests against the stand-ins (not a check; a development aid)."""
import sys, os, subprocess, glob
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import vlib
from vlib import *
import concurrent.futures as cf
flags = [f for f in BASE_FLAGS if f != "-DDVO_VERIF"] + ["-DNDEBUG"][:0]
tests = sorted(glob.glob(LIBDIR + "/*_test.cpp") + glob.glob(LIBDIR + "/internal/*_test.cpp"))
if len(sys.argv) > 1:
    tests = [t for t in tests if any(a in t for a in sys.argv[1:])]
os.makedirs(BUILD + "/rt", exist_ok=True)
with cf.ThreadPoolExecutor(NCPU) as ex:
    objs = dict(zip(lib_sources() + tests, ex.map(lambda s: compile_obj(s, flags), lib_sources() + tests)))
lib = [objs[s][0] for s in lib_sources()]
assert all(lib), [objs[s][1] for s in lib_sources() if not objs[s][0]]
def run(t):
    o, e = objs[t]
    if not o: return t, "COMPILE", e
    exe = BUILD + "/rt/" + os.path.basename(t)[:-4]
    a = exe + ".a"
    subprocess.run(["rm", "-f", a]); subprocess.run(["ar", "rcs", a] + lib, check=True)
    p = subprocess.run(["g++", "-fopenmp", o, "-Wl,--start-group", a, "-Wl,--end-group", "-o", exe, "-lgtest", "-lgtest_main", "-lgmock", "-lntl", "-lgmp", "-L" + SSL_LIB, "-lcrypto", "-Wl,-rpath," + SSL_LIB, "-lboost_serialization", "-lpthread"] + absl_libs(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return t, "LINK", p.stdout[-2000:]
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return t, "TIMEOUT", ""
    return t, p.returncode, "\n".join(x for x in p.stdout.splitlines() if "FAILED" in x or "PASSED" in x or "Failure" in x)
with cf.ThreadPoolExecutor(4) as ex:
    for t, rc, o in ex.map(run, tests):
        print(os.path.basename(t), rc, o[-1500:])
