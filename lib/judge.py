import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
r = vlib.tlc(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None, env={"TRACE": os.environ["TRACE"]})
n = vlib.count_lines(os.environ["TRACE"])
if r.ok and r.depth - 1 == n:
    print("accepted: all %d events" % n)
else:
    at = vlib.Check.reject_point(r, n)
    print("rejected at event %d of %d:\n%s" % (at, n, vlib.get_line(os.environ["TRACE"], at)))
vlib.cleanup()
