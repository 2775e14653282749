"""Writes /verif/seeded/<id>/ from tools/seeds/bugs.py (planted bugs used to test the checks)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools/seeds")
import bugs
out = V + "/seeded"
only = set(sys.argv[1:])
for b in bugs.BUGS:
    if only and b["id"] not in only:
        continue
    d = os.path.join(out, b["id"])
    os.makedirs(d, exist_ok=True)
    diffs = ""
    with tempfile.TemporaryDirectory() as t:
        files = []
        for f, old, new in b["edits"]:
            p = "distributed_vector_ole/" + f
            if p not in files:
                files.append(p)
                for s in "ab":
                    os.makedirs(os.path.dirname(f"{t}/{s}/{p}"), exist_ok=True)
                    with open(f"{t}/{s}/{p}", "wb") as fo:
                        fo.write(subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + p]))
            q = f"{t}/b/{p}"
            s = open(q).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(q, "w").write(s.replace(old, new))
        for p in files:
            r = subprocess.run(["diff", "-u", "a/" + p, "b/" + p], cwd=t, stdout=subprocess.PIPE, text=True)
            lines = r.stdout.splitlines(True)
            lines[0], lines[1] = f"--- a/{p}\n", f"+++ b/{p}\n"
            diffs += f"diff --git a/{p} b/{p}\n" + "".join(lines)
    open(d + "/patch.diff", "w").write(diffs)
    open(d + "/demo.cpp", "w").write("// " + b["needs"].replace("\n", "\n// ") + "\n" + b["demo"].lstrip("\n"))
    for f in ("demo.sh", "demo.h"):
        shutil.copy(V + "/tools/seeds/" + f, d)
    os.chmod(d + "/demo.sh", 0o755)
    shutil.rmtree(d + "/shim", ignore_errors=True)
    shutil.copytree(V + "/shim", d + "/shim")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(b["id"])
