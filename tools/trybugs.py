"""Tries planted bugs: demo with and without the patch, then the property's check against it.
usage: trybugs.py [--demo] [--check] [--tier T] IDS..."""
import sys, os, subprocess, json, time, shutil, concurrent.futures as cf
V = "/verif"; W = "/tmp/bugs"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(V + "/seeded"))
demo = "--demo" in sys.argv; check = "--check" in sys.argv
os.makedirs(W, exist_ok=True)
def tree(i):
    d = f"{W}/{i}"
    if os.path.exists(d): shutil.rmtree(d)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    os.makedirs(d)
    p = subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d}", shell=True)
    return d
def run(i):
    out = [i]
    d = tree(i)
    prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    if demo:
        a = subprocess.run(["bash", f"{V}/seeded/{i}/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out.append(f"clean={a.returncode}")
        if a.returncode: out.append(a.stdout[-1500:])
    subprocess.run(["git", "init", "-q"], cwd=d)
    p = subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: out.append("APPLY FAILED " + p.stdout)
    if demo:
        a = subprocess.run(["bash", f"{V}/seeded/{i}/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out.append(f"patched={a.returncode} " + a.stdout[-200:].replace("\n", " | "))
    if check:
        t = time.time()
        a = subprocess.run([f"{V}/check", prop], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=1500)
        v = [l[:200] for l in a.stdout.splitlines() if "VIOLATION" in l]
        ok = a.returncode == 1 and any(f"property={prop} " in l for l in v)
        out.append(f"{'CAUGHT' if ok else 'MISSED'} {prop} rc={a.returncode} {time.time()-t:.0f}s {v[:2]} {a.stderr[-300:] if not ok else ''}")
    shutil.rmtree(d)
    print(" ".join(out), flush=True)
if check:
    for i in ids: run(i)
else:
    with cf.ThreadPoolExecutor(2) as ex: list(ex.map(run, ids))
