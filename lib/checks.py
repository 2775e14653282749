"""The registered checks: one function per property."""
import json
import os
import random
import re
from vlib import *

REGISTRY = {}


TECH = "TLA+ specification, TLC trace validation of the real code"
TRUST = " Trusted: TLC, the harness recording, and the in-process stand-ins for the absent mpc_utils and emp-ot libraries where a protocol needs them."


def check(pid, note, tech=TECH, level="model_checking"):
    def deco(fn):
        REGISTRY[pid] = (fn, level, tech, note + TRUST)
        return fn
    return deco


def W(name):
    return os.path.join(workdir(), name)


def corrupt_field(rng, pick, field, f):
    """Returns a mutator that changes `field` of one random line satisfying `pick`."""
    def mut(lines):
        idx = []
        for i, s in enumerate(lines):
            e = json.loads(s)
            if pick(e):
                idx.append(i)
        if not idx:
            return None
        i = rng.choice(idx)
        e = json.loads(lines[i])
        e[field] = f(e[field])
        return lines[:i] + [json.dumps(e)] + lines[i + 1:]
    return mut


def flip_hex(s):
    """A different canonical hex number."""
    return s[:-1] + ("%x" % ((int(s[-1], 16) + 1) % 16)) if len(s) > 1 else ("%x" % ((int(s, 16) + 1) % 8))


def primitives_model(c):
    c.model("SelfCheckMC", workers=1, what="accelerated operators agree with their TLA+ definitions")


# ------------------------------------------------------------------ gf128
GF_ASM = dict(name="gf_asm", src="h_gf.cpp")
GF_C = dict(name="gf_portable", src="h_gf.cpp", drop=["-DUSE_ASM"])


def gf_check(c, mode, nshard, nprog, length):
    exes = build([GF_ASM, GF_C])
    jobs = [lambda: primitives_model(c)]
    rng = random.Random(SEED)
    for k in range(nshard):
        for name, exe in exes.items():
            def job(k=k, name=name, exe=exe):
                t = W("gf-%s-%s-%d.ndjson" % (mode, name, k))
                args = [SEED * 1000 + k, nprog, length, mode]
                rr = lambda p: run_harness(exe, args, p)
                rr(t)
                ok = c.validate("T_GF128", t, rerun=rr, label="%s seed %d" % (name, SEED * 1000 + k))
                if ok and k == 0:
                    c.self_test("T_GF128", t, corrupt_field(random.Random(SEED + k), lambda e: e["ev"] == "op" and e.get("op") in ("mul", "muleq", "add"), "r", flip_hex))
            jobs.append(job)
    c.parallel(jobs)
    c.assumptions += ["gf128.cpp is exercised in both build flavours (USE_ASM and portable)",
                      "randomness is replaced by a deterministic stream"]


@check("F01", "Every operation of generated register-machine programs over gf128 (edge and random operands, aliasing, both build flavours) is checked against the field as defined in Ring.tla; bounded by the programs generated.")
def f01(c):
    gf_check(c, "arith", c.q(6, 14), c.q(250, 600), c.q(80, 100))


@check("F02", "Every conversion, serialization, hash and comparison in generated programs is checked against the specification of values; bounded by the programs generated.")
def f02(c):
    gf_check(c, "repr", c.q(6, 14), c.q(220, 500), c.q(80, 100))


# ------------------------------------------------------------------ scalars
SCALAR = dict(name="scalar", src="h_scalar.cpp")


def scalar_check(c, mode, nshard, n, mut):
    exe = build([SCALAR])["scalar"]
    jobs = [lambda: primitives_model(c)]
    if mode == "codec":
        jobs.append(lambda: c.model("ScalarCache", what="per-thread cache of the modulus size answers for the installed modulus"))
    for k in range(nshard):
        def job(k=k):
            t = W("scalar-%s-%d.ndjson" % (mode, k))
            rr = lambda p: run_harness(exe, [SEED * 1000 + k, n, mode], p)
            rr(t)
            if c.validate("T_Scalars", t, rerun=rr, label="%s seed %d" % (mode, SEED * 1000 + k)) and k == 0:
                for m in mut:
                    c.self_test("T_Scalars", t, m)
        jobs.append(job)
    c.parallel(jobs)
    c.assumptions += ["scalar types are those the repository's tests use: unsigned words, uint128, gf128, zz_p, ZZ_p"]


@check("S01", "Encodings, bits, powers of two and sizes of all scalar types are checked in generated histories of modulus changes on four threads; the per-thread size cache is model checked exhaustively for three threads.")
def s01(c):
    rng = random.Random(SEED)
    scalar_check(c, "codec", c.q(7, 14), c.q(6000, 20000),
                 [corrupt_field(rng, lambda e: e["ev"] == "size", "v", lambda v: v + 1),
                  corrupt_field(rng, lambda e: e["ev"] == "dec", "r", flip_hex)])


@check("S02", "The predicate is compared with exact integer arithmetic for generated moduli, hash widths and security levels aimed at the boundary; answers within 2^-30 of the boundary are left open (floating point).")
def s02(c):
    scalar_check(c, "can", c.q(8, 14), c.q(10000, 30000),
                 [corrupt_field(random.Random(SEED), lambda e: e["ev"] == "can" and e["b"] == 128 and e["ty"] == "gf128", "r", lambda v: not v)])


@check("S03", "Randomized spans inside larger arrays are checked for range, extent, distinctness and coverage of every bit and small residue; statistical quality beyond that is trusted to the system's randomness.")
def s03(c):
    rng = random.Random(SEED)
    scalar_check(c, "fill", c.q(7, 14), c.q(1200, 4000),
                 [corrupt_field(rng, lambda e: e["ev"] == "fill" and e["off"] > 0, "post", lambda v: [flip_hex(v[0])] + v[1:])])


# ------------------------------------------------------- random generator
AES = dict(name="aes", src="h_aes.cpp")
LIMITS = [6, 7, 33, 64]


def AES_LIM(k):
    d = "-DDVO_VERIF_RESEED_INTERVAL=%dll" % k
    return dict(name="aes_lim%d" % k, src="h_aes.cpp", lib_defs=[d])


AES_LONG = dict(name="aes_long", src="h_aes.cpp", lib_defs=["-DDVO_VERIF_RESEED_INTERVAL=(1ll<<31)+(3<<15)"])
UBSAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
AES_UB = dict(name="aes_ub", src="h_aes.cpp", lib_defs=UBSAN, ldflags=UBSAN)


@check("R01", "Draws, reseeds, refusals and copies of up to six generators are compared value by value with the AES-128 counter stream of AES.tla; buffer sizes -2..4000 and the default, seeds at unaligned addresses, counters next to both carries. The buffered implementation is model checked against the abstract stream (buffers up to 10, limit 11).")
def r01(c):
    exes = build([AES, AES_UB])
    jobs = [lambda: primitives_model(c),
            lambda: c.model("AesGenMC", what="buffered generator refines the keystream, reseed limit respected")]
    for k in range(c.q(3, 14)):
        for name in ("aes", "aes_ub"):
            def job(k=k, name=name):
                t = W("%s-%d.ndjson" % (name, k))
                rr = lambda p: run_harness(exes[name], [SEED * 1000 + k, c.q(2000, 8000), "stream"], p)
                rr(t)
                if c.validate("T_AesGen", t, rerun=rr, label="%s seed %d" % (name, SEED * 1000 + k)) and k == 0:
                    rng = random.Random(SEED)
                    c.self_test("T_AesGen", t, corrupt_field(rng, lambda e: e["ev"] == "draw", "v", lambda v: v[:-1] + [flip_hex(v[-1])]))
            jobs.append(job)
    c.parallel(jobs)
    c.assumptions += ["AES.tla is FIPS-197; its accelerated version is compared with it on every run"]


@check("R02", "With the limit scaled to 6..64 blocks by a compile-time hook, all refills, refusals and reseeds of generated histories are checked, plus one run past 2^31 blocks; the shipped constant is read from an unhooked build. The limit logic is model checked.")
def r02(c):
    ts = [AES] + [AES_LIM(k) for k in LIMITS] + [AES_LONG]
    exes = build(ts)
    jobs = [lambda: c.model("AesGenMC", what="buffered generator refines the keystream, reseed limit respected")]

    def run(name, mode, n, k):
        def job():
            t = W("%s-%d.ndjson" % (name, k))
            rr = lambda p: run_harness(exes[name], [SEED * 1000 + k, n, mode], p, timeout=600)
            rr(t)
            if c.validate("T_AesGen", t, rerun=rr, label="%s seed %d" % (name, SEED * 1000 + k)) and k == 0 and mode == "limit":
                c.self_test("T_AesGen", t, lambda ls: [x for x in ls if '"throw"' not in x] if any('"throw"' in x for x in ls[-50:]) and False else
                            (lambda i: ls[:i] + ls[i + 1:] if i else None)(next((i for i, x in enumerate(ls) if '"ev":"seed"' in x and '"OK"' in x and i > 20), 0)))
        return job
    jobs.append(run("aes_long", "long", 0, 0))
    jobs.append(run("aes", "stream", 30, 0))
    for lim in LIMITS:
        for k in range(c.q(2, 8)):
            jobs.append(run("aes_lim%d" % lim, "limit", c.q(600, 4000), k))
    c.parallel(jobs)


# -------------------------------------------------------------- seed trees
GGM = dict(name="ggm", src="h_ggm.cpp")
GGM_UB = dict(name="ggm_ub", src="h_ggm.cpp", lib_defs=UBSAN, ldflags=UBSAN)


def ggm_check(c, runs, mut):
    """runs: list of (mode, (seed offset, trees, largest number of leaves, executable))."""
    exes = build([GGM, GGM_UB])
    jobs = [lambda: primitives_model(c),
            lambda: c.model("GGMMC", c.q("GGMMC.cfg", "GGMMC_big.cfg"), what="puncturing, all shapes and positions within the bounds: rebuilt nodes are right and the path stays unknown")]
    for mode, (k, n, leaves, name) in runs:
        def job(mode=mode, k=k, n=n, leaves=leaves, name=name):
            t = W("ggm-%s-%s-%d.ndjson" % (mode, name, k))
            rr = lambda p: run_harness(exes[name], [SEED * 1000 + k, n, mode, leaves], p)
            rr(t)
            if c.validate("T_GGM", t, rerun=rr, label="%s seed %d" % (name, SEED * 1000 + k)) and k == 0:
                for m in mut:
                    c.self_test("T_GGM", t, m)
        jobs.append(job)
    c.parallel(jobs)


def ggm_runs(c):
    return [("shape", r) for r in _ggm_runs(c)] + [("large", (60 + k, c.q(5, 6), n, "ggm")) for k, n in enumerate(c.q([300000, 2200000], [300000, 2200000, 5000000] * 2))]


def _ggm_runs(c):
    return [(0, c.q(40, 60), 40, "ggm")] + [(k, c.q(110, 150), 200, "ggm") for k in range(1, c.q(5, 12))] + \
        [(k, c.q(4, 12), 4000, "ggm") for k in range(20, c.q(22, 30))] + [(k, 2, 60000, "ggm") for k in range(30, c.q(31, 36))] + [(k, c.q(60, 150), 100, "ggm_ub") for k in range(40, c.q(42, 50))]


def _last(v):
    v[-1][-1] = flip_hex(v[-1][-1])
    return v


@check("G01", "All nodes of generated trees (arity 2..61 and now and then thousands, up to 60000 leaves, next to powers of the arity) are recomputed with AES.tla; of trees with up to 2 (thorough: 5) million leaves all sizes, many nodes and the sums are; accesses inside and outside are judged.")
def g01(c):
    rng = random.Random(SEED)
    ggm_check(c, ggm_runs(c), [corrupt_field(rng, lambda e: e["ev"] == "tree", "levels", _last),
                                        corrupt_field(rng, lambda e: e["ev"] == "get" and e["code"] == "OK", "v", flip_hex)])


@check("G02", "Every position of small trees and sampled positions of large ones are punctured with two different fillings of the path; the algorithm is model checked for every shape up to the bounds with symbolic values, including that no combination of the given sums yields a path node.")
def g02(c):
    rng = random.Random(SEED)
    ggm_check(c, ggm_runs(c), [corrupt_field(rng, lambda e: e["ev"] == "punct" and len(e["a"]) > 1, "b", _last)])


@check("G03", "The sibling sums of generated trees are recomputed from their nodes.")
def g03(c):
    rng = random.Random(SEED)
    ggm_check(c, ggm_runs(c), [corrupt_field(rng, lambda e: e["ev"] == "tree" and len(e["sums"]) > 1, "sums", _last)])


@check("G04", "Generated malformed argument combinations, with exact-size arrays under address and undefined-behaviour sanitizers; one or two things wrong at a time.")
def g04(c):
    rng = random.Random(SEED)
    ggm_check(c, [("bad", r) for r in [(k, c.q(150, 400), 60, "ggm_ub") for k in range(c.q(6, 12))] + [(50, 200, 60, "ggm")]] +
              [("shape", (k, c.q(60, 150), 60, "ggm_ub")) for k in range(60, c.q(62, 70))],
              [corrupt_field(rng, lambda e: e["ev"] == "bad" and not e["valid"], "code", lambda v: "OK")])


# ------------------------------------------------------- hashing to buckets
CUCKOO = dict(name="cuckoo", src="h_cuckoo.cpp")
CUCKOO_UB = dict(name="cuckoo_ub", src="h_cuckoo.cpp", lib_defs=UBSAN, ldflags=UBSAN)


def cuckoo_check(c, runs, muts, models):
    exes = build_cuckoo([CUCKOO, CUCKOO_UB])
    jobs = [lambda: primitives_model(c)]
    for m, cfg, what in models:
        jobs.append(lambda m=m, cfg=cfg, what=what: c.model(m, cfg, what=what))
    for k, (name, mode, n) in enumerate(runs):
        def job(k=k, n=n, mode=mode, name=name):
            t = W("cuckoo-%s-%s-%d.ndjson" % (mode, name, k))
            rr = lambda p: run_harness(exes[name], [SEED * 1000 + k, n, mode], p, timeout=600)
            rr(t)
            if c.validate("T_Cuckoo", t, rerun=rr, label="%s %s seed %d" % (name, mode, SEED * 1000 + k), timeout=800) and k == 0:
                for m in muts:
                    c.self_test("T_Cuckoo", t, m)
        jobs.append(job)
    c.parallel(jobs)


def _bump(v):
    v[0]["p"][0] = flip_hex(v[0]["p"][0])
    return v


@check("H01", "All positions of generated inputs (nine element types, 1..40 functions, bucket counts up to 2^63, one to thirteen threads) are recomputed with AES.tla.")
def h01(c):
    cuckoo_check(c, [("cuckoo", "hash", c.q(900, 2500))] * c.q(4, 14) + [("cuckoo_ub", "hash", c.q(100, 800))],
                 [corrupt_field(random.Random(SEED), lambda e: e["ev"] == "hash" and len(e["r"]) > 0, "r", _bump)], [])


@check("H02", "Tables of generated inputs, with one to thirteen threads, are compared with the table of the specification; the parallel merge is model checked for all interleavings of three (thorough: four) threads.")
def h02(c):
    cuckoo_check(c, [("cuckoo", "simple", c.q(900, 2000))] * c.q(4, 14) + [("cuckoo_ub", "simple", c.q(80, 700))],
                 [corrupt_field(random.Random(SEED), lambda e: e["ev"] == "simple" and len(e["r"]) > 1 and e["r"][0] != e["r"][-1], "r", lambda v: [v[-1]] + v[1:-1] + [v[0]])],
                 [("SimpleHashMC", c.q("SimpleHashMC.cfg", "SimpleHashMC_big.cfg"), "chunked hashing and ordered merging, all interleavings")])


@check("H03", "Tables returned for generated inputs (recommended, tight and too small bucket numbers, repetitions) must be matchings; the insertion algorithm is model checked for every position assignment of small instances (never loses an input, fails only if no placement exists).")
def h03(c):
    models = [("CuckooMC", "CuckooMC.cfg", "insertion, 3 inputs, 2 functions, 4 buckets"), ("CuckooMC", "CuckooMC3.cfg", "insertion, 3 inputs, 3 functions, 3 buckets")]
    if not c.quick:
        models += [("CuckooMC", "CuckooMC_big.cfg", "insertion, 4 inputs, 2 functions, 5 buckets"), ("CuckooMC", "CuckooMC3_big.cfg", "insertion, 3 inputs, 3 functions, 4 buckets")]

    def mut(v):
        i = next(i for i, x in enumerate(v) if x == -1)
        j = next(i for i, x in enumerate(v) if x != -1)
        v[i], v[j] = v[j], v[i]
        return v
    cuckoo_check(c, [("cuckoo", "cuckoo", c.q(900, 2000))] * c.q(4, 14) + [("cuckoo_ub", "cuckoo", c.q(80, 700))],
                 [corrupt_field(random.Random(SEED), lambda e: e["ev"] == "cuckoo" and e["code"] == "OK" and len(e["in"]) == 1 and len(e["r"]) > 60, "r", mut),
                  corrupt_field(random.Random(SEED), lambda e: e["ev"] == "cuckoo" and e["code"] == "OK" and len(e["in"]) > 1 and -1 in e["r"], "r", lambda v: [-1] * len(v))], models)


@check("H04", "Recommended bucket numbers for generated sizes (up to 2^23) and security parameters are compared with the published formulas evaluated in exact fixed-point arithmetic (relative tolerance 1e-9); thousands of batches of distinct inputs are placed.")
def h04(c):
    cuckoo_check(c, [("cuckoo", "buckets", c.q(300, 800))] * c.q(3, 10) + [("cuckoo", "succeed", c.q(60, 400))] * c.q(3, 10),
                 [corrupt_field(random.Random(SEED), lambda e: e["ev"] == "buckets" and e["code"] == "OK" and e["n"] != "0", "r", flip_hex)], [])


# ---------------------------------------------------------------- protocols
VTYPES = {"u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t", "u128": "absl::uint128",
          "gf128": "distributed_vector_ole::gf128", "ZZ_p": "NTL::ZZ_p", "zz_p": "NTL::zz_p"}
ALL_T = list(VTYPES)
WIDE_T = ["u64", "u128", "gf128", "ZZ_p", "zz_p"]
NO_VOLE = [r"/distributed_vector_ole\.cpp$"]


def PROTO(t, san=False):
    d = dict(name="proto_" + t + ("_ub" if san else ""), src="h_proto.cpp", defs=["-DVT=" + VTYPES[t]], skip_lib=NO_VOLE)
    if san:
        d.update(lib_defs=UBSAN, ldflags=UBSAN)
    return d


def build_or(targets, src, define):
    """Builds; when that fails, with `define` for the harness `src`, which leaves something out."""
    try:
        return build(targets)
    except Broken as e:
        log("with %s:" % define, str(e)[:1500])
    return build([dict(t, name=t["name"] + define.replace("-D", "_").lower(), defs=t.get("defs", []) + [define], as_name=t["name"]) if t["src"] == src else t for t in targets])


def build_proto(targets):
    """Builds h_proto; without its look at the internal packing helpers when they are gone."""
    return build_or(targets, "h_proto.cpp", "-DNO_PACK")


def build_cuckoo(targets):
    """Builds h_cuckoo; without elements of gf128 when these cannot be hashed."""
    return build_or(targets, "h_cuckoo.cpp", "-DNO_GF128_HASH")


SAN_T = ["u32", "ZZ_p"]


def proto_check(c, runs, muts=(), models=(), module="T_Proto"):
    """runs: (type, sanitized, args after the seed, threads of the largest party)."""
    need = sorted({(t, s) for t, s, _, _ in runs})
    exes = build_proto([PROTO(t, s) for t, s in need])
    jobs = [lambda: primitives_model(c)]
    for m, cfg, what in models:
        jobs.append(lambda m=m, cfg=cfg, what=what: c.model(m, cfg, what=what))
    first = set()
    for k, (t, san, args, thr) in enumerate(runs):
        exe = exes[PROTO(t, san)["name"]]
        tag = "%s-%d" % (t, k)
        tested = (t, args[1]) not in first
        first.add((t, args[1]))

        def job(k=k, t=t, exe=exe, args=args, thr=thr, tag=tag, tested=tested):
            tr = W("proto-%s.ndjson" % tag)
            rr = lambda p: run_harness(exe, [SEED * 1000 + k] + list(args), p, timeout=400, threads=thr)
            rr(tr)
            if c.validate(module, tr, rerun=rr if thr == 1 else None, label="%s %s" % (t, " ".join(map(str, args))), timeout=800) and tested:
                for m in muts:
                    c.self_test(module, tr, m)
        jobs.append(job)
    c.parallel(jobs)
    c.assumptions += ["network and oblivious transfer are in-process stand-ins: reliable ordered byte streams, ideal OT",
                      "parties follow the protocol (semi-honest)"]


def lock_runs(c, mode, n_quick, n_thorough, tx="", types=ALL_T, threads=(1, 8), san=True):
    r = []
    for t in types:
        for th in threads:
            for _ in range(c.q(1, 4) if th == 1 else 1):
                a = [c.q(n_quick, n_thorough), mode, th] + ([tx] if tx else [])
                r.append((t, False, a, 1 if th == 1 else 4))
        if san and t in SAN_T:
            r.append((t, True, [c.q(n_quick, n_thorough), mode, 1] + ([tx] if tx else []), 1))
    return r


def large_runs(c, mode, types=ALL_T):
    """Few calls, with tens of thousands of elements."""
    return [(t, False, [c.q(4, 40), mode, th, "large"], 1 if th == 1 else 4) for t in types for th in ((1, 8) if t in ("u64", "ZZ_p") or not c.quick else (1,))]


def alone_runs(c, mode, n_quick, n_thorough, *extra, types=ALL_T, san=True):
    r = []
    for t in types:
        r += [(t, False, [c.q(n_quick, n_thorough), mode, 1] + list(extra), 1)] * c.q(1, 3)
        if san and t in SAN_T:
            r.append((t, True, [c.q(n_quick, n_thorough), mode, 1] + list(extra), 1))
    return r


def flip_in(v):
    """Changes one element of a vector of hex numbers or of a vector of such vectors."""
    v = list(v)
    for i, x in enumerate(v):
        if isinstance(x, list):
            if x:
                v[i] = flip_in(x)
                return v
        else:
            v[i] = flip_hex(x)
            return v
    return v


PPRF = ("PprfMC", None, "all-but-one OT: what the receiver can derive, all tree shapes and positions within the bounds")


def pprf(c):
    return ("PprfMC", c.q("PprfMC.cfg", "PprfMC_big.cfg"), "all-but-one OT: closure of what the receiver obtains is everything off the path, and only that")


def _joint(field="po", kind="rot"):
    rng = random.Random(SEED)

    def pick(e):
        if e["ev"] != kind or e.get("codes") != ["OK", "OK"]:
            return False
        v = e[field]
        return any(v) if v and isinstance(v[0], list) else bool(v)

    def f(lines):
        idx = [i for i, s in enumerate(lines) if pick(json.loads(s))]
        if not idx:
            return None
        i = rng.choice(idx)
        e = json.loads(lines[i])
        if kind == "rot":   # a position that is not the chosen one
            for q in range(len(e["n"])):
                for k in range(e["n"][q]):
                    if k != e["idx"][q]:
                        e[field][q][k] = flip_hex(e[field][q][k])
                        return lines[:i] + [json.dumps(e)] + lines[i + 1:]
            return None
        e[field] = flip_in(e[field])
        return lines[:i] + [json.dumps(e)] + lines[i + 1:]
    return f


@check("O01", "Sequences of runs on several instances and both role assignments for eight scalar types and small and large moduli; both parties' outputs are compared by the specification. Batches of up to eight outputs, lengths up to a few hundred.")
def o01(c):
    proto_check(c, lock_runs(c, "rot", 40, 120) + large_runs(c, "rot"), [_joint()], [pprf(c)])


@check("O02", "The receiver's complete view (OT outputs, keys, messages) is searched for the sums it must not know and the missing value; pairs of executions differing only in indices are compared message by message. What the receiver can derive is model checked.")
def o02(c):
    def leak(lines):
        """The receiver is also told a value it did not choose."""
        for i, s in enumerate(lines):
            e = json.loads(s)
            if e["ev"] == "rot":
                r = [o for o in e["ot"] if o["op"] == "ot_recv" and o["n"] > 0]
                w = [o for o in e["ot"] if o["op"] == "ot_send" and o["n"] > 0]
                if r:
                    r[0]["x"][0] = w[0]["x"][0] if r[0]["c"][0] == 1 else w[0]["y"][0]
                    return lines[:i] + [json.dumps(e)] + lines[i + 1:]
        return None
    proto_check(c, lock_runs(c, "rot", 28, 80, "tx", threads=(1,)) + alone_runs(c, "view", 70, 200) +
                alone_runs(c, "entropy", 6, 40, "rot", types=WIDE_T, san=False), [leak], [pprf(c)])


@check("O03", "All seeds, keys, sums and wide leaves of all runs of a history must be distinct and backed by enough fresh randomness; the sender's refusal is compared with exact arithmetic around the boundary.")
def o03(c):
    def again(lines):
        idx = [i for i, s in enumerate(lines) if (lambda e: e["ev"] in ("rot", "spfss") and any(k > 1 for k in e["n"]))(json.loads(s))]
        return lines[:idx[0] + 1] + [lines[idx[0]]] + lines[idx[0] + 1:] if idx else None
    proto_check(c, lock_runs(c, "rot", 26, 60, "tx", threads=(1,)) + lock_runs(c, "spfss", 20, 50, "tx", types=WIDE_T, threads=(1,), san=False) +
                alone_runs(c, "bias", 120, 400) + alone_runs(c, "entropy", 6, 40, types=WIDE_T, san=False), [again])


def spfss_model(c):
    return ("SpfssMC", c.q("SpfssMC.cfg", "SpfssMC_big.cfg"), "single-point sharing over small rings: correct, and the correction value is uniform given the other leaves")


@check("P01", "Sequences of runs for eight types, both role assignments, output arrays with old contents; sums judged position by position. The algebra is model checked over small rings.")
def p01(c):
    proto_check(c, lock_runs(c, "spfss", 36, 120) + large_runs(c, "spfss"), [_joint("ro", "spfss")], [spfss_model(c)])


@check("P02", "The correction value must be the value share masked by all leaves, the index provider's view is searched for what it must not know, and pairs of executions differing in indices or value shares are compared. Masking is model checked over small rings.")
def p02(c):
    def unmasked(lines):
        """The correction value of a run is changed."""
        for i, s in enumerate(lines):
            e = json.loads(s)
            if e["ev"] == "spfss" and any(e["n"]):
                for m in e["msg"]:
                    if m["p"] == e["prov"] and m["dec"] and m["el"]:
                        k = next(k for k in range(len(e["n"])) if e["n"][k])
                        m["el"][k] = flip_hex(flip_hex(m["el"][k]))
                        return lines[:i] + [json.dumps(e)] + lines[i + 1:]
        return None
    proto_check(c, lock_runs(c, "spfss", 28, 80, "tx", threads=(1,)) + alone_runs(c, "view", 70, 200) +
                alone_runs(c, "entropy", 6, 40, "spfss", types=WIDE_T, san=False), [unmasked], [spfss_model(c), pprf(c)])


def mpfss_model(c):
    return ("MpfssMC", c.q("MpfssMC.cfg", "MpfssMC_big.cfg"), "multi-point sharing over every matching of small instances: correct, every bucket used, masked vector uniform")


@check("M01", "Sequences of calls on one instance with changing sizes and index numbers, with and without prepared buckets, both roles, eight types. The reduction to single-point sharing is model checked for every matching of small instances.")
def m01(c):
    proto_check(c, lock_runs(c, "mpfss", 20, 60) + large_runs(c, "mpfss"), [_joint("ro", "mpfss")], [mpfss_model(c)])


@check("M02", "Generated malformed arguments (one thing wrong at a time) on one party alone, under sanitizers for two types, each followed by valid runs.")
def m02(c):
    proto_check(c, alone_runs(c, "bad", 28, 60, "mpfss"), [corrupt_field(random.Random(SEED), lambda e: e["ev"] == "refuse", "code", lambda v: "OK")])


@check("M03", "The masked vector must hold one entry per bucket and exactly the values masked by the given correlation; the number of OTs may depend on sizes only; pairs of executions are compared. Uniformity of the masked vector is model checked.")
def m03(c):
    def other_mask(lines):
        """Two entries of the masked vector are exchanged."""
        for i, s in enumerate(lines):
            e = json.loads(s)
            if e["ev"] == "mpfss" and int(e["R"]["m"], 16) >> 30:
                for m in e["msg"]:
                    if m["p"] != e["prov"] and m["dec"] and len(m["el"]) > 1:
                        m["el"][0], m["el"][1] = m["el"][1], m["el"][0]
                        return lines[:i] + [json.dumps(e)] + lines[i + 1:]
        return None
    proto_check(c, lock_runs(c, "mpfss", 14, 40, "tx", threads=(1,)) + alone_runs(c, "view", 110, 200), [other_mask], [mpfss_model(c)])


def gilboa_models(c):
    return [("GilboaMC", "GilboaMC.cfg", "product sharing over small rings, both OT flavours"), ("GilboaMC", "GilboaMC_pack.cfg", "packing several elements per word")]


@check("B01", "Sequences of runs of vectors of length 0 to a few hundred for eight types and moduli up to 16 bytes and beyond; products judged element by element. The algebra is model checked over small rings.")
def b01(c):
    proto_check(c, lock_runs(c, "gilboa", 40, 120) + large_runs(c, "gilboa"), [_joint("ro", "gilboa")], gilboa_models(c))


@check("B02", "All OT messages of the vector's owner are unpacked: masks are residues, of full range, never repeated, and correlated OT is chosen by both and only where its masks are near uniform; packing of every type is recomputed.")
def b02(c):
    def rep(lines):
        for i, s in enumerate(lines):
            e = json.loads(s)
            if e["ev"] == "gilboa" and int(e["R"]["m"], 16) >> 60:
                for o in e["ot"]:
                    if o["op"] == "ot_send" and o["n"] > 1:
                        o["x"][1] = o["x"][0]
                        return lines[:i] + [json.dumps(e)] + lines[i + 1:]
        return None
    proto_check(c, lock_runs(c, "gilboa", 12, 24, "tx", threads=(1,), san=False) +
                lock_runs(c, "gilboa", 26, 40, "tx", types=["zz_p", "ZZ_p"], threads=(1,), san=False) + alone_runs(c, "view", 70, 200), [rep], gilboa_models(c))


@check("E01", "Generated malformed arguments on one party alone, with outputs compared before and after and valid runs afterwards, under sanitizers for two types.")
def e01(c):
    proto_check(c, alone_runs(c, "bad", 40, 100), [corrupt_field(random.Random(SEED), lambda e: e["ev"] == "refuse", "moved", lambda v: v + 1)])


def channel_programs(c, num, seed):
    """Programs produced by TLC from Channel.tla in simulation mode."""
    r = tlc("Channel", "ChannelSim.cfg", args=["-simulate", "num=%d" % num, "-depth", "600", "-seed", str(seed)], timeout=300)
    ps = sorted(set(re.findall(r'PROGRAM (P [^"]*)"', r.out)))
    if not ps:
        raise Broken("no programs from Channel.tla:\n" + r.out[-2000:])
    return ps


# -------------------------------------------------------------- Vector-OLE
OBS = '-DDVO_VERIF_EXPANSION_OBSERVER="expansion_observer.h"'
# Scaled parameter tables: largest outputs, seed sizes, noise positions, nonzeros per column.
TABLES = {"noisy": ("400 900 1500", "20 60 120", "40 90 150", "6"), "three": ("130 300 500", "10 30 60", "4 6 10", "4"),
          "two": ("400 900", "40 150", "7 9", "5"),
          "one": ("700", "80", "12", "10"),
          "four": ("130 200 260 420", "8 12 20 50", "4 4 5 6", "3"),
          "wide": ("3000", "30", "6", "10"),
          "huge": ("9000", "300", "6", "10")}


def table_env(name):
    return dict(zip(("VOLE_OUT", "VOLE_SEED", "VOLE_NOISE", "VOLE_NZ"), TABLES[name]))


def VOLE(t, kind="scaled", san=False, observe=True):
    """kind: scaled (parameter table from the environment) or shipped (the library's)."""
    d = dict(name="vole_%s_%s%s%s" % (t, kind, "_ub" if san else "", "" if observe else "_plain"), src="h_vole.cpp",
             defs=["-DVT=" + VTYPES[t]] + ([OBS] if observe else []))
    if kind == "scaled":
        d["defs"].append("-DSCALED")
        d["skip_lib"] = [r"/distributed_vector_ole\.cpp$"]
    if san:
        d.update(lib_defs=UBSAN, ldflags=UBSAN)
    return d


def build_vole(c, keys):
    """keys: (type, kind, sanitized). If the observer or the scaled table does not fit the
    working tree any more, the check does with what can still be observed."""
    keys = sorted(set(keys))
    try:
        exes = build([VOLE(*k) for k in keys])
        return {k: exes[VOLE(*k)["name"]] for k in keys}
    except Broken as e:
        log("without the expansion observer:", str(e)[:1500])
        c.extra["expansions_observed"] = False
    try:
        exes = build([VOLE(*k, observe=False) for k in keys])
        return {k: exes[VOLE(*k, observe=False)["name"]] for k in keys}
    except Broken as e:
        if not any(k[1] == "scaled" for k in keys):
            raise
        log("without scaled parameter tables:", str(e)[:1500])
        c.extra["scaled_tables"] = False
    out = {}
    plain = sorted({(k[0], "shipped", False) for k in keys})
    exes = build([VOLE(*k, observe=False) for k in plain])
    return {k: exes[VOLE(k[0], "shipped", False, observe=False)["name"]] for k in keys}


def vole_model(c):
    return ("VoleMC", c.q("VoleMC.cfg", "VoleMC_big.cfg"), "histories of precomputations, runs and refused calls: parties in step, no element used twice, levels respected, delta stable")


SIZE_OF = {"0": ["0"], "1": ["1"], "2": ["M1", "7", "33"], "5": ["M1+", "M2"], "9": ["M2+", "M3", "M3"]}
BATCH_OF = {"1": ["1", "2"], "3": ["M1"], "4": ["M1+"], "6": ["M2"], "7": ["M2+"], "10": ["M3"], "11": ["M3+"],
            "1000": ["M3+", "9223372036854775807", "9223372036854775806"]}


def vole_histories(c, num, seed):
    """Histories produced by TLC from VoleMC.tla in simulation mode, with the model's sizes
    replaced by sizes at the same place relative to the levels; some on two generators."""
    r = tlc("VoleMC", "VoleSim.cfg", args=["-simulate", "num=%d" % num, "-depth", "20", "-seed", str(seed)], timeout=600)
    by = {}
    for h in re.findall(r'HISTORY V \d+ N ([^"]*)"', r.out):
        ops = re.findall(r"[PRB](?: \d+)+", h)
        by.setdefault(tuple(ops[:-1]), []).append(ops)
    if not by:
        raise Broken("no histories from VoleMC.tla:\n" + r.out[-2000:])
    rng = random.Random(seed)

    def mapped(ops, inst):
        o = []
        for op in ops:
            f = op.split()
            f[1] = str(inst)
            if f[0] == "P":
                f[3] = rng.choice(BATCH_OF[f[3]])
            elif f[0] == "R":
                f[3] = rng.choice(SIZE_OF[f[3]])
            o.append(" ".join(f))
        return o
    hs = [rng.choice(v) for _, v in sorted(by.items())]
    out = []
    for h in hs:
        if rng.random() < 0.4:
            h2 = rng.choice(hs)
            m, m2 = mapped(h, 0), mapped(h2, 1)
            ops = ["N", "N"]
            while m or m2:
                ops.append((m if m and (not m2 or rng.random() < .5) else m2).pop(0))
        else:
            ops = ["N"] + mapped(h, 0)
        out.append("V %d %d %s" % (rng.randrange(2), len(ops), " ".join(ops)))
    return out


def known_findings(pid):
    """The committed list: 'known: property=<id> key=<key> <what>'."""
    r = {}
    for s in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", s)
        if m and m.group(1) == pid:
            r[m.group(2)] = m.group(3)
    return r


def vole_run(c, exe, tag, args, env, muts=(), thr=1, scenario=None):
    tr = W("vole-%s.ndjson" % tag)
    a = list(args)
    if c.extra.get("scaled_tables") is False and a[2] != "shipped":
        # The table of the library is all there is: few and short histories.
        a, scenario, muts = [a[0], 1, "shipped", 4], None, ()
    if scenario is not None:
        sc = W("vole-%s.txt" % tag)
        open(sc, "w").write("\n".join(scenario) + "\n")
        a.append(sc)
    rr = lambda p: run_harness(exe, a, p, timeout=500, env=env, threads=thr)
    rr(tr)
    again = rr if thr == 1 and a[2] not in ("free", "threads", "shipped", "entropy") else None
    if c.validate("T_Vole", tr, rerun=again, label=tag, timeout=800) and muts:
        observed = '"observed":true' in open(tr).readline()
        for m, needs in muts:
            if observed or not needs:
                c.self_test("T_Vole", tr, m)
    return tr


def vole_check(c, plan, muts=(), hists=0):
    """plan: (type, kind, sanitized, table, mode, n, threads, seeds)."""
    exes = build_vole(c, [(p[0], p[1], p[2]) for p in plan])
    if c.extra.get("scaled_tables") is False:
        plan = [p for p in plan if p[4] != "refused"]
        plan = [p for i, p in enumerate(plan) if p[0] not in [q[0] for q in plan[:i]]]
    jobs = [lambda: c.model(vole_model(c)[0], vole_model(c)[1], what=vole_model(c)[2])]
    hs = vole_histories(c, hists, SEED) if hists else []
    done = set()
    for k, (t, kind, san, table, mode, n, thr, seeds) in enumerate(plan):
        for q in range(seeds):
            first = (t, mode) not in done and mode not in ("shipped", "entropy")
            done.add((t, mode))

            def job(k=k, q=q, t=t, kind=kind, san=san, table=table, mode=mode, n=n, thr=thr, first=first):
                sc = random.Random("%d %d %d" % (SEED, k, q)).sample(hs, min(n, len(hs))) if mode in ("prog", "free") else None
                vole_run(c, exes[(t, kind, san)], "%s-%s-%s-%s-%d-%d%s" % (t, kind, table, mode, k, q, "-ub" if san else ""),
                         [SEED * 1000 + 50 * k + q, n, mode, thr], table_env(table) if table else {},
                         muts if first else (), 1 if thr == 1 else 4, sc)
            jobs.append(job)
    c.parallel(jobs)
    if hs:
        c.extra["histories"] = len(hs)
    c.assumptions += ["network and oblivious transfer are in-process stand-ins: reliable ordered byte streams, ideal OT",
                      "parties follow the protocol (semi-honest)",
                      "scaled parameter tables have the shape of the shipped one; the shipped one is run for its two smallest levels"]


def vole_plan(c, n, types=ALL_T, shipped=("u32", "gf128", "zz_p"), prog=6, tables=("three", "two", "one", "four")):
    r = []
    tabs = list(tables)
    for i, t in enumerate(types):
        for j in range(c.q(2, len(tabs))):
            r.append((t, "scaled", False, tabs[(i + 2 * j) % len(tabs)], "hist", n, 1, c.q(1, 4)))
        if prog:
            r.append((t, "scaled", False, "three", "prog", prog, 1, c.q(1, 6)))
    for t in (shipped if c.quick else types):
        r.append((t, "shipped", False, None, "shipped", c.q(1, 5), 4, 1))
    return r


def _run_with(f, big=True):
    """Applies f to a random run event with delivered elements."""
    def mut(lines):
        idx = []
        for i, s in enumerate(lines):
            e = json.loads(s)
            if e["ev"] == "run" and len(e["w"]) > 1 and (not big or int(e["R"]["m"], 16) >> 54):
                idx.append(i)
        random.Random(SEED).shuffle(idx)
        for i in idx:
            e = json.loads(lines[i])
            if f(e):
                return lines[:i] + [json.dumps(e)] + lines[i + 1:]
        return None
    return mut


def _set(field, fn):
    def f(e):
        e[field] = fn(e[field])
        return True
    return f


@check("V01", "Random and TLC-generated histories (several generators, either role, both roles on one object) with scaled parameter tables of one to four levels for eight types, and with the shipped table; every delivered element is recomputed. The cache, seed and level bookkeeping is model checked for all histories of three (thorough: four) calls.")
def v01(c):
    vole_check(c, vole_plan(c, c.q(22, 60)) + [(t, "scaled", True, "three", "hist", c.q(10, 40), 1, 1) for t in SAN_T],
               [(_run_with(_set("w", flip_in)), False)], hists=c.q(60, 500))
    if c.extra.get("scaled_tables") is False:
        return
    # Both roles on one object, batches of different levels.
    known = known_findings("V01")
    exe = build_vole(c, [("u64", "scaled", False)])[("u64", "scaled", False)]
    tr = W("vole-roles.ndjson")
    sc = W("vole-roles.txt")
    open(sc, "w").write("V 0 4 N P 0 0 M1 1 P 0 1 M3 1 R 0 0 200\n")
    run_harness(exe, [SEED, 1, "prog", 1, sc], tr, env=table_env("three"))
    n = count_lines(tr)
    r = tlc("T_Vole", env={"TRACE": tr, "PROP": c.pid})
    if r.ok and r.depth - 1 == n:
        c.traces += 1
    elif not (r.postfail or r.invfail or r.ok):
        raise Broken("TLC gave no verdict on the role exchange:\n" + r.out[-2000:])
    else:
        at = c.reject_point(r, n)
        e = json.loads(get_line(tr, at))
        if "roles-of-different-levels" in known and e["ev"] == "run" and e["codes"] == ["INTERNAL", "INTERNAL"] and at == n:
            c.known.append("key=roles-of-different-levels " + known["roles-of-different-levels"])
        else:
            c.violation("T_Vole", tr, at, get_line(tr, at), "exchange of roles", r, None, None)


@check("V02", "All elements, seeds, masks and sent vectors of histories are compared by value (large rings) and counted (all rings): every expansion's inputs and every delivery are backed by earlier outputs, nothing occurs twice. Model checked for all histories of three (thorough: four) calls.")
def v02(c):
    def again(e):
        e["u"][1], e["v"][1], e["w"][1] = e["u"][0], e["v"][0], e["w"][0]
        return True

    def reuse(e):
        if len(e["exps"]) < 1 or not e["u"]:
            return False
        e["exps"][0]["mu"][0] = e["u"][0]
        return True
    vole_check(c, vole_plan(c, c.q(20, 60), shipped=("u64",)), [(_run_with(again), False), (_run_with(reuse), True)], hists=c.q(40, 400))


@check("V03", "Every expansion of the histories is taken apart: dimensions against the table, code matrix (nonzeros per column, rows covered, values varied), noise positions, and the sender's output recomputed from seed, matrix and noise; the level chosen must be the first that fits. The shipped table must not be weaker than the published one.")
def v03(c):
    def noise(e):
        for x in e["exps"]:
            if len(x["idx"]) > 1:
                x["idx"][0] = x["idx"][1]
                return True
        return False

    def code(e):
        for x in e["exps"]:
            if x["full"] and x["code"] and len(x["code"][0]):
                x["code"][0][0][1] = flip_hex(x["code"][0][0][1])
                return True
        return False
    many = [(t, "scaled", False, "noisy", "hist", c.q(24, 60), 1, 1) for t in ("u64", "zz_p")] + \
        [(t, "scaled", False, "four", "entropy", c.q(2, 8), 1, 1) for t in ("u8", "zz_p")]
    vole_check(c, vole_plan(c, c.q(14, 40), shipped=("u32", "u64", "zz_p")) + many, [(_run_with(noise), True), (_run_with(code), True)], hists=c.q(40, 400))


@check("V04", "The delta of every result, and of every seed and mask on the way, is compared with the one given to or drawn by the receiver's last precomputation. Model checked for all histories of three (thorough: four) calls.")
def v04(c):
    vole_check(c, vole_plan(c, c.q(22, 60), shipped=("u16",)), [(_run_with(_set("delta", flip_hex)), False)], hists=c.q(60, 500))


@check("V05", "Refused calls of every kind at every point of histories, made by one party alone, under sanitizers for two types; the histories must then go on as if they had not been made. Precomputations that both parties refuse midway (moduli, security) must leave nothing precomputed.")
def v05(c):
    plan = []
    for i, t in enumerate(ALL_T):
        plan += [(t, "scaled", False, ["three", "one", "two", "four"][(i + j) % 4], "bad", c.q(20, 60), 1, c.q(1, 4)) for j in range(c.q(1, 3))]
    plan += [(t, "scaled", True, "three", "bad", c.q(16, 60), 1, c.q(1, 3)) for t in SAN_T]
    for i, t in enumerate(("ZZ_p", "zz_p", "u64", "gf128") if c.quick else ALL_T):
        for j in range(c.q(1, 2)):
            plan.append((t, "scaled", False, ["wide", "noisy"][(i + j) % 2], "refused", c.q(16, 60), 1, c.q(1, 3)))
    vole_check(c, plan, [(corrupt_field(random.Random(SEED), lambda e: e["ev"] == "refuse", "moved", lambda v: v + 1), False)])


# ------------------------------------------------------------------ programs
@check("X02", "Programs of up to eight creations and runs, generated by TLC from the channel model and run by two freely interleaved parties over measured and unmeasured channels, both roles; and Vector-OLE histories likewise; the model itself is checked for every interleaving of programs of three (thorough: four) operations.")
def x02(c):
    exes = build_proto([PROTO(t) for t in ALL_T])
    progs = channel_programs(c, c.q(120, 900), SEED)
    jobs = [lambda: c.model("Channel", c.q("Channel.cfg", "Channel_big.cfg"), what="every program and interleaving: in step, no deadlock, channel empty")]
    per = c.q(24, 100)
    for k, t in enumerate(ALL_T):
        def job(k=k, t=t):
            sc = W("progs-%s" % t)
            mine = random.Random("%d %s" % (SEED, t)).sample(progs, min(per, len(progs)))
            open(sc, "w").write("\n".join(mine) + "\n")
            for th in (1, 4):
                tr = W("prog-%s-%d.ndjson" % (t, th))
                run_harness(exes["proto_" + t], [SEED * 1000 + k, 0, "prog", th, sc], tr, threads=1, timeout=400)
                if c.validate("T_Proto", tr, label="%s programs, %d threads" % (t, th), timeout=800) and th == 1:
                    c.self_test("T_Proto", tr, corrupt_field(random.Random(SEED), lambda e: e["ev"] == "end", "left", lambda v: v + 1))
        jobs.append(job)

        def mix(k=k, t=t):
            tr = W("mix-%s.ndjson" % t)
            rr = lambda p: run_harness(exes["proto_" + t], [SEED * 1000 + k, c.q(10, 60), "mix", 1], p, threads=1, timeout=400)
            rr(tr)
            c.validate("T_Proto", tr, rerun=rr, label="%s mix" % t, timeout=800)
        jobs.append(mix)
    ve = build_vole(c, [(t, "scaled", False) for t in ALL_T])
    hs = vole_histories(c, c.q(40, 300), SEED + 7)
    for k, t in enumerate(ALL_T):
        def vole(k=k, t=t):
            vole_run(c, ve[(t, "scaled", False)], "free-" + t, [SEED * 1000 + k, 0, "free", 1 + 3 * (k % 2)], table_env("three"),
                     scenario=random.Random("%d %s v" % (SEED, t)).sample(hs, min(c.q(5, 40), len(hs))))
        jobs.append(vole)
    c.parallel(jobs)
    c.extra["programs"] = len(progs)
    c.assumptions += ["the channel stand-in has the flush and stream semantics of mpc_utils' comm_channel and emp's NetIO"]


# ------------------------------------------------------------------ threads
@check("X01", "Hashing, the protocols and Vector-OLE run by parties with one to thirteen threads each, changing between calls, in fresh threads and after other moduli; results are judged as by H01-H03, O01, P01, M01 and V01. Pairs of executions with equal inputs and randomness and different thread counts are compared. The merge of simple hashing is model checked for all interleavings.")
def x01(c):
    exes = dict(build_proto([PROTO(t) for t in ALL_T]), **build_cuckoo([CUCKOO]))
    vt = ["u32", "zz_p", "ZZ_p", "gf128"] if c.quick else ALL_T
    ve = build_vole(c, [(t, "scaled", False) for t in vt])
    jobs = [lambda: c.model("SimpleHashMC", c.q("SimpleHashMC.cfg", "SimpleHashMC_big.cfg"), what="chunked hashing and ordered merging, all interleavings")]
    for k, (mode, n) in enumerate([("hash", c.q(200, 1500)), ("simple", c.q(200, 1500)), ("cuckoo", c.q(100, 800))] * c.q(1, 3)):
        def hashing(k=k, mode=mode, n=n):
            t = W("x-%s-%d.ndjson" % (mode, k))
            run_harness(exes["cuckoo"], [SEED * 1000 + 700 + k, n, mode], t, timeout=600, threads=4)
            c.validate("T_Cuckoo", t, label="%s %d" % (mode, k), timeout=800)
        jobs.append(hashing)
    for k, t in enumerate(ALL_T):
        for mode, n in [("rot", c.q(10, 50)), ("spfss", c.q(10, 50)), ("mpfss", c.q(6, 30)), ("threads", c.q(15, 80))]:
            def proto(k=k, t=t, mode=mode, n=n):
                tr = W("x-%s-%s.ndjson" % (mode, t))
                run_harness(exes["proto_" + t], [SEED * 1000 + 300 + k, n, mode, 13], tr, timeout=600, threads=8)
                if count_lines(tr) and c.validate("T_Proto", tr, label="%s %s" % (t, mode), timeout=800) and mode == "threads":
                    c.self_test("T_Proto", tr, corrupt_field(random.Random(SEED), lambda e: e["ev"] == "pair" and e["oa"] and e["oa"][0], "oa", flip_in))
            jobs.append(proto)
    for k, t in enumerate(vt):
        for table, thr in [("wide", 4), ("huge", 12), ("three", 8)]:
            def vole(k=k, t=t, table=table, thr=thr):
                vole_run(c, ve[(t, "scaled", False)], "threads-%s-%s" % (t, table), [SEED * 1000 + 800 + k, c.q(8, 30), "threads", thr], table_env(table), thr=4)
            jobs.append(vole)
    c.parallel(jobs, 4)
    c.assumptions += ["thread schedules are those the machine produces; the model covers all interleavings of the merge"]


ALL_TARGETS = [GF_ASM, GF_C, SCALAR, AES, AES_UB, AES_LONG, GGM, GGM_UB, CUCKOO, CUCKOO_UB] + [AES_LIM(k) for k in LIMITS] + [PROTO(t) for t in VTYPES] + [PROTO(t, True) for t in SAN_T] + \
    [VOLE(t) for t in VTYPES] + [VOLE(t, "shipped") for t in ("u16", "u32", "u64", "gf128", "zz_p")] + [VOLE(t, "scaled", True) for t in SAN_T]
