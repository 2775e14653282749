"""Shared machinery of the checks: building harnesses from /repo's working tree,
running them, running TLC, judging traces, and writing evidence."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "shim")
EVID = os.path.join(VERIF, "evidence")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = os.cpu_count() or 4
LIBDIR = os.path.join(REPO, "distributed_vector_ole")
SSL_INC, SSL_LIB = "/usr/include/android", "/usr/lib/x86_64-linux-gnu/android"
BASE_FLAGS = ["-std=c++17", "-O1", "-fopenmp", "-fwrapv", "-Wno-ignored-attributes", "-DUSE_ASM", "-DDVO_VERIF",
              "-D_GLIBCXX_ASSERTIONS"]


class Broken(Exception):
    """The check itself could not give an answer."""


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


# ----------------------------------------------------------------- building
def _sha(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_header_hash = {}


def header_hash():
    if "h" not in _header_hash:
        files = []
        for d in (LIBDIR, os.path.join(LIBDIR, "internal")):
            files += sorted(glob.glob(d + "/*.h")) + sorted(glob.glob(d + "/*.hpp")) + sorted(glob.glob(d + "/*.inc"))
        for root in (SHIM, HARNESS):
            for dp, _, fs in sorted(os.walk(root)):
                files += [os.path.join(dp, f) for f in sorted(fs) if f.endswith((".h", ".hpp"))]
        _header_hash["h"] = _sha([x for f in files for x in (os.path.relpath(f, "/").encode(), _read(f))])
    return _header_hash["h"]


def lib_sources():
    r = []
    for d in (LIBDIR, os.path.join(LIBDIR, "internal")):
        for f in sorted(glob.glob(d + "/*.cpp") + glob.glob(d + "/*.cc")):
            b = os.path.basename(f)
            if re.search(r"_(test|benchmark)\.(cpp|cc)$", b):
                continue
            r.append(f)
    return r


def inc_flags():
    return ["-I", SHIM, "-I", HARNESS, "-I", REPO, "-I", SSL_INC, "-I", "/usr/include/eigen3"]


def compile_obj(src, flags):
    key = _sha([header_hash(), src, _read(src), " ".join(flags)])
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
    if os.path.exists(obj):
        return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    p = subprocess.run(["g++"] + flags + inc_flags() + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return None, p.stdout[-6000:]
    os.replace(tmp, obj)
    return obj, None


_absl = None


def absl_libs():
    global _absl
    if _absl is None:
        names = sorted({re.sub(r".*/lib(absl_[a-z0-9_]*)\..*", r"\1", f)
                        for f in glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so")})
        _absl = ["-Wl,--start-group"] + ["-l" + n for n in names] + ["-Wl,--end-group"]
    return _absl


def build(targets):
    """targets: list of dict(name, src, defs=[], lib_defs=[], flags=None, skip_lib=[regex]).
    Returns {name: path}. Everything is rebuilt from the current working tree."""
    jobs = {}
    plans = []
    for t in targets:
        fl = [f for f in (t.get("flags") or BASE_FLAGS) if f not in t.get("drop", [])]
        libfl = fl + t.get("lib_defs", [])
        objs = []
        for s in lib_sources():
            if any(re.search(x, s) for x in t.get("skip_lib", [])):
                continue
            objs.append((s, tuple(libfl)))
        own = [(os.path.join(HARNESS, x), tuple(fl + t.get("lib_defs", []) + t.get("defs", []))) for x in [t["src"]] + t.get("extra", [])]
        own.append((os.path.join(HARNESS, "vrng.cpp"), tuple(fl)))
        plans.append((t, objs, own))
        for k in own + objs:
            jobs[k] = None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(compile_obj, k[0], list(k[1])): k for k in jobs}
        for f in cf.as_completed(futs):
            jobs[futs[f]] = f.result()

    def link(plan):
        t, objs, own = plan
        for k in own:
            if jobs[k][0] is None:
                raise Broken("harness %s does not compile against the working tree:\n%s" % (k[0], jobs[k][1]))
        libo = [jobs[k][0] for k in objs if jobs[k][0]]
        bad = [k[0] + "\n" + jobs[k][1] for k in objs if not jobs[k][0]]
        owno = [jobs[k][0] for k in own]
        key = _sha(owno + libo + [" ".join(t.get("ldflags", []))])
        exe = os.path.join(BUILD, "bin", t["name"] + "." + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            # Library objects go through an archive, so that only what is needed is linked.
            ar = exe + ".%d.a" % os.getpid()
            subprocess.run(["ar", "rcs", ar] + libo, check=True)
            p = subprocess.run(["g++", "-fopenmp", "-rdynamic"] + t.get("ldflags", []) + owno +
                               ["-Wl,--start-group", ar, "-Wl,--end-group", "-o", tmp, "-lntl", "-lgmp", "-L" + SSL_LIB, "-lcrypto",
                                "-Wl,-rpath," + SSL_LIB, "-lboost_serialization", "-lpthread"] + absl_libs(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            os.unlink(ar)
            if p.returncode != 0:
                raise Broken("linking %s failed:\n%s\n%s" % (t["name"], p.stdout[-3000:], "\n".join(bad)[-3000:]))
            os.replace(tmp, exe)
        return t.get("as_name", t["name"]), exe
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return dict(ex.map(link, plans))


_java_lock = threading.Lock()


def java_classes():
    with _java_lock:
        return _java_classes()


def _java_classes():
    srcs = sorted(glob.glob(os.path.join(SPEC, "java/tlc2/module/*.java")))
    key = _sha([_read(s) for s in srcs])
    out = os.path.join(BUILD, "java", key)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        os.makedirs(tmp)
        p = subprocess.run(["javac", "-d", tmp, "-cp", TLAJAR] + srcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Broken("javac failed: " + p.stdout)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out


# --------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out):
        out = "\n".join(x for x in out.splitlines() if not x.startswith("Loading "))
        self.rc, self.out = rc, out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        self.postfail = bool(re.search(r"Postcondition \S+ .*is (false|violated)", out)) and not self.ok
        self.invfail = re.findall(r"Invariant (\S+) is violated", out) + re.findall(r"Action property (\S+) is violated", out) + \
            re.findall(r"Temporal properties were violated", out)
        self.deadlock = "Deadlock reached" in out


def tlc(module, cfg=None, env=None, workers=1, timeout=600, args=(), heap=None, cwd=SPEC):
    cp = ":".join([TLAJAR, CMJAR, java_classes()])
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir())
    cmd = ["java", "-Djava.io.tmpdir=" + workdir(), "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2"]
    cmd += ["-Xmx" + (heap or "3g")]
    cmd += ["-cp", cp, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"]
    if cfg:
        cmd += ["-config", cfg]
    cmd += list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        raise Broken("TLC timed out on %s after %ss" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out)


_work = None


def workdir():
    global _work
    if _work is None:
        os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
        _work = tempfile.mkdtemp(prefix="w-", dir=os.path.join(BUILD, "work"))
    return _work


def cleanup():
    if _work:
        shutil.rmtree(_work, ignore_errors=True)


# ---------------------------------------------------------------- harness runs
def run_harness(exe, args, out, timeout=300, env=None, threads=1):
    """Runs a harness that writes a trace to `out`. A crash, a hang or an escaping
    exception becomes a last trace line, for which no specification has an action."""
    e = dict(os.environ)
    e["OMP_NUM_THREADS"] = str(threads)
    e["OMP_DYNAMIC"] = "false"
    e["OMP_WAIT_POLICY"] = "passive"
    e.update(env or {})
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run([exe, out] + [str(a) for a in args], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
        rc, msg = p.returncode, p.stdout[-2000:]
    except subprocess.TimeoutExpired as x:
        rc, msg = "timeout", (x.stdout or b"")[-2000:] if isinstance(x.stdout, bytes) else str(x.stdout)[-2000:]
    if rc == 3:
        raise Broken("harness error: " + msg)
    if rc != 0:
        # drop a partial last line
        data = b""
        if os.path.exists(out):
            data = _read(out)
            data = data[:data.rfind(b"\n") + 1]
        what = "hang" if rc == "timeout" else ("signal %s" % signal.Signals(-rc).name if isinstance(rc, int) and rc < 0 else "exit %s" % rc)
        with open(out, "wb") as f:
            f.write(data)
            f.write((json.dumps({"ev": "crash", "what": what, "msg": re.sub(r"[^ -~]", " ", msg)[-400:]}) + "\n").encode())
    return rc


def count_lines(p):
    n = 0
    with open(p, "rb") as f:
        for _ in f:
            n += 1
    return n


def get_line(p, i):
    with open(p, "r", errors="replace") as f:
        for k, s in enumerate(f, 1):
            if k == i:
                return s.rstrip("\n")
    return ""


class Check:
    """State of one running check."""

    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = self.events = self.mc_states = 0
        self.samples, self.viol, self.known, self.notes = [], [], [], []
        self.extra = {}
        self.assumptions = []
        self.lock = threading.Lock()
        self.rej_selftests = 0
        self.t0 = time.time()

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    # -- design-level model checking ------------------------------------
    def model(self, module, cfg=None, workers=4, timeout=800, args=(), heap=None, what="", env=None, expect_states=1):
        r = tlc(module, cfg, workers=workers, timeout=timeout, args=args, heap=heap, env=env)
        if not r.ok:
            tail = r.out[-3000:]
            raise Broken("model %s/%s did not pass:\n%s" % (module, cfg, tail))
        if r.distinct < expect_states:
            raise Broken("model %s/%s explored only %d states" % (module, cfg, r.distinct))
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.mc_states += r.distinct
            self.extra.setdefault("models", []).append({"module": module, "config": cfg or module + ".cfg", "distinct": r.distinct,
                                                        "generated": r.generated, "depth": r.depth, "what": what})
        return r

    # -- trace validation ----------------------------------------------
    def validate(self, module, trace, cfg=None, rerun=None, timeout=600, label="", env=None, heap=None):
        """Validates one trace file against a trace specification. `rerun(path)` re-creates
        the trace; a rejection counts only if the re-created trace is rejected too."""
        n = count_lines(trace)
        if n == 0:
            raise Broken("empty trace for %s" % module)
        e = {"TRACE": trace, "PROP": self.pid}
        e.update(env or {})
        r = tlc(module, cfg, env=e, timeout=timeout, heap=heap)
        if r.ok and r.depth - 1 == n:
            with self.lock:
                self.traces += 1
                self.events += n
                self.states += r.distinct
                self.transitions += r.generated
                if len(self.samples) < 6:
                    import random
                    k = random.Random(SEED + n + len(self.samples)).randrange(1, n + 1)
                    self.samples.append({"module": module, "trace": label, "event": k, "of": n, "line": get_line(trace, k)[:600]})
            return True
        if not (r.postfail or r.invfail or r.ok):
            # TLC could not evaluate the specification on this trace.
            raise Broken("TLC gave no verdict on %s (%s):\n%s" % (module, label, r.out[-3000:]))
        at = self.reject_point(r, n)
        line = get_line(trace, at)
        if rerun:
            t2 = trace + ".again"
            rerun(t2)
            e2 = dict(e)
            e2["TRACE"] = t2
            r2 = tlc(module, cfg, env=e2, timeout=timeout, heap=heap)
            if r2.ok:
                raise Broken("a rejected trace was accepted when re-run (%s, event %d: %s)" % (module, at, line[:500]))
        self.violation(module, trace, at, line, label, r, cfg, env)
        return False

    @staticmethod
    def reject_point(r, n):
        m = re.findall(r"(\d+) states generated, (\d+) distinct", r.out)
        d = r.depth if r.depth else (int(m[-1][1]) if m else 1)
        if r.invfail:
            return max(1, min(n, d - 1))
        return min(n, d)

    def violation(self, module, trace, at, line, label, r, cfg, env):
        with self.lock:
            d = os.path.join(EVID, "replay", "%s-%d" % (self.pid, len(self.viol) + 1))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            shutil.copy(trace, os.path.join(d, "trace.ndjson"))
            with open(os.path.join(d, "why.txt"), "w") as f:
                f.write("property %s: trace of the implementation rejected by %s at event %d (%s)\n%s\n\n%s\n" %
                        (self.pid, module, at, label, line[:4000], r.out[-4000:] if r else ""))
            with open(os.path.join(d, "replay.sh"), "w") as f:
                f.write("#!/bin/sh\n# re-judges the recorded execution\ncd %s && %s TRACE=%s/trace.ndjson python3 %s/lib/judge.py %s %s\n" %
                        (VERIF, " ".join("%s=%s" % kv for kv in dict(env or {}, PROP=self.pid).items()), d, VERIF, module, cfg or ""))
            self.viol.append({"replay": d, "event": at, "line": line[:600], "label": label, "module": module})
            log("REJECTED %s %s at event %d: %s" % (module, label, at, line[:800]))

    def self_test(self, module, trace, mutate, cfg=None, env=None, label="", timeout=300):
        """Vacuity guard: a corrupted copy of an accepted trace must be rejected."""
        lines = open(trace).read().splitlines()
        got = mutate(lines)
        if got is None:
            return
        t = os.path.join(workdir(), "mut-%d-%s.ndjson" % (self.rej_selftests, os.path.basename(trace)))
        with open(t, "w") as f:
            f.write("\n".join(got) + "\n")
        e = {"TRACE": t, "PROP": self.pid}
        e.update(env or {})
        r = tlc(module, cfg, env=e, timeout=timeout)
        if r.ok:
            raise Broken("vacuity: %s accepted a corrupted trace (%s)" % (module, label))
        with self.lock:
            self.rej_selftests += 1

    def parallel(self, fns, n=None):
        with cf.ThreadPoolExecutor(n or max(2, NCPU - 1)) as ex:
            fs = [ex.submit(f) for f in fns]
            return [f.result() for f in fs]

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events": self.events,
               "corrupted_traces_rejected": self.rej_selftests, "samples": self.samples or [{"note": "no accepted trace"}]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for v in self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
        print("%s: %s; states=%d transitions=%d traces=%d events=%d corrupted-rejected=%d %.1fs" %
              (self.pid, "VIOLATED" if self.viol else "held", self.states, self.transitions, self.traces, self.events,
               self.rej_selftests, time.time() - self.t0))
        return 1 if self.viol else 0
