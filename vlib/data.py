"""D01-D03: data types: fixed-width arithmetic, serialization, inputs and witnesses."""
from .core import *
from .mpc import *

TYPES = {"bit": 1, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "u256": 256, "u320": 320, "u384": 384, "u512": 512, "u1024": 1024}
MODULI = {
    "bn254_fr": (21888242871839275222246405745257275088548364400416034343698204186575808495617, 256),
    "bn254_fq": (21888242871839275222246405745257275088696311157297823662689037894645226208583, 256),
    "bls12_377_fr": (8444461749428370424248824938781546531375899335154063827935233455917409239041, 256),
    "bls12_377_fq": (258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177, 384),
    "bls12_381_fr": (0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001, 320),
    "bls12_381_fq": (0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab, 384),
}


def check(ctx):
    globals()["check_" + ctx.prop](ctx)
    return finish(ctx, "model_checking")


def bs(v, k):
    return list(v.to_bytes((k + 7) // 8, "little"))


def operands(r, k, extra):
    m = 1 << k
    vs = {0, 1, 2, 3, m - 1, m - 2, m // 2, m // 2 - 1, m // 2 + 1, m // 3}
    for j in range(64, k + 1, 64):
        vs |= {(1 << j) - 1, (1 << j), (1 << j) + 1, (1 << (j - 1))}
    vs = sorted({v % m for v in vs})
    for _ in range(extra):
        vs.append(r.getrandbits(k))
        vs.append(r.getrandbits(r.randrange(1, k + 1)))
        vs.append((r.getrandbits(k) << r.randrange(0, k)) % m)
    return list(dict.fromkeys(v % m for v in vs))


# ---------------------------------------------------------------- D03
def check_D03(ctx):
    build(ctx, "mpc", ["ring"])
    model_check(ctx, "data/WideMC", "WideMC.cfg" if ctx.quick else "WideMC_thorough.cfg", timeout=800)
    r = ctx.rng
    jobs = [{"kind": "table", "a": a} for a in range(256)]
    X = 1 if ctx.quick else 5

    def op(ty, what, a, k, b=None, kb=None, **kw):
        jobs.append({"kind": "op", "ty": ty, "what": what, "a": bs(a, k), "b": bs(b, kb or k) if b is not None else [], **kw})
    for ty, k in TYPES.items():
        full = k <= 8
        vs = list(range(1 << k)) if full else operands(r, k, 6 * X)
        pairs = [(a, b) for a in vs for b in vs] if k == 1 else []
        if not full:
            edge = vs if k <= 64 else r.sample(vs, min(len(vs), 14 * X))
            n = {16: 250, 32: 250, 64: 200}.get(k, 90 if k < 512 else 40) * X
            allp = [(a, b) for a in edge for b in edge] + [(a, a) for a in vs]
            pairs = r.sample(allp, min(n, len(allp)))
            m = 1 << k
            pairs += [(0, 0), (m - 1, m - 1), (0, m - 1), (m - 1, 1), (m // 2, m // 2), (1 << (k // 2), 1 << (k // 2)), ((1 << (k // 2)) - 1, (1 << (k // 2)) + 1)]
        for a, b in pairs:
            op(ty, "binary", a, k, b)
        us = vs if k <= 16 else r.sample(vs, min(len(vs), 24 * X))
        for a in us:
            op(ty, "unary", a, k)
            op(ty, "as", a, k)
        for kk in sorted({1, 8, 16, 64, 128, 256, 1024, k}):
            for a in [0, 1, 2, (1 << kk) - 1, 1 << (kk - 1)] + [r.getrandbits(kk) for _ in range(4 * X)] + [1 << min(k, kk - 1), (1 << min(k, kk)) - 1]:
                op(ty, "into", a % (1 << kk), kk)
        m = 1 << k
        shv = list(range(1 << k)) if k == 1 else [m - 1, 1, m // 2, r.getrandbits(k), r.getrandbits(k) | 1 | m // 2][: 5 if k < 256 else 3]
        if k == 8:
            shv = list(range(256))
        for a in shv:
            ns = list(range(k + 2)) if k <= 64 else sorted({0, 1, 7, 8, 9, 63, 64, 65, k - 1, k, k + 1, k // 2} | {r.randrange(k) for _ in range(24 * X)})
            for n in ns + [k + 63, 2 * k, 64 * k, (1 << 32), (1 << 64) - 1]:
                op(ty, "shift", a, k, n=n)
    for ty, (p, k) in MODULI.items():
        m = (1 << k)
        vs = [0, 1, 2, p - 1, p, p + 1, p - 2, 2 * p, 2 * p - 1, m - 1, m // 2, m // p * p, (m // p * p - 1), (1 << 64) - 1, 1 << 64, 1 << 128, 1 << 192]
        vs += [r.randrange(p) for _ in range(6 * X)] + [r.getrandbits(k) for _ in range(6 * X)]
        for v in vs:
            op(ty, "field", v % m, k, p, k)
    recs = run_jobs(ctx, "ring", jobs, "ring")
    reps = judge(ctx, "data/RingTrace", recs, jobs, "ring", parts=16)
    cov = merge_cov(reps)
    ctx.notes["operations"] = {k: v for k, v in sorted(cov.items())}
    ctx.notes["types"] = len({k.split(".")[0] for k in cov})
    if len({k.split(".")[0] for k in cov}) != len(TYPES) + len(MODULI):
        raise ToolError("a type was never exercised")
    ctx.sample(f"u8: all 65536 operand pairs for 7 operations in every form; {len(recs)} events over {len(cov)} (type, operation) pairs")


# ---------------------------------------------------------------- D01
def check_D01(ctx):
    build(ctx, "circom", ["data"])
    model_check(ctx, "data/InputsMC", "InputsMC.cfg" if ctx.quick else "InputsMC_thorough.cfg", timeout=800)
    r = ctx.rng
    jobs = []
    for p in (11, 257, 12289, 40961):
        ps = generate(ctx, "data/InputGen", 45 if ctx.quick else 500, ctx.seed * 10 + p % 7, 14, {"GEN_P": str(p)}, tag="JOBS")
        for l in ps:
            for j in l:
                # fields with fewer elements than parties cannot be shared
                n = r.choice([3, 4, 5, 7, 9])
                j.update(p=p, n=n, t=r.randrange(1, (n - 1) // 2 + 1), seed=r.randrange(1 << 40))
                jobs.append(j)
    # long witnesses: compression works on whole vectors
    for p, m in ((11, 100), (40961, 300), (257, 1)):
        for np in sorted({0, 1, m // 2, m}):
            jobs.append({"kind": "witness", "vals": [r.randrange(p) for _ in range(m)], "np": np, "p": p, "n": 5, "t": 2, "seed": r.randrange(1 << 40)})
    # wide and deep arrays, every position
    num = lambda v, h=0, neg=False: {"t": "num", "neg": neg, "hex": h, "mag": v, "els": []}
    arr = lambda l: {"t": "arr", "neg": False, "hex": 0, "mag": 0, "els": l}
    gap = {"t": "none", "neg": False, "hex": 0, "mag": 0, "els": []}
    for p in (257, 40961):
        cell = lambda: gap if r.random() < 0.2 else num(r.randrange(p), r.randrange(4), r.random() < 0.3)
        for shape in ((12,), (3, 4), (2, 3, 4), (1, 1, 1), (11, 2), (2, 2, 2, 2)):
            mk = lambda s: cell() if not s else arr([mk(s[1:]) for _ in range(s[0])])
            for pub in ([], ["in"], ["a", "in"]):
                jobs.append({"kind": "split", "input": [{"name": "in", "val": mk(shape)}, {"name": "a", "val": num(5)}], "public": pub, "p": p, "n": 3, "t": 1, "seed": 0})
    recs = run_jobs(ctx, "data", jobs, "inputs")
    cov = merge_cov(judge(ctx, "data/InputTrace", recs, jobs, "inputs", parts=8))
    ctx.notes["events"] = dict(sorted(cov.items()))
    for k in ("split.ok", "merge.ok", "merge.refused", "unbatch", "witness.rep3", "witness.shamir", "witness.seeded", "witness.seededhalf-additive"):
        if not cov.get(k):
            raise ToolError(f"no {k} was exercised")
    ctx.sample(f"{len(jobs)} generated jobs over 4 fields: " + ", ".join(f"{k} {v}" for k, v in sorted(cov.items())))


# ---------------------------------------------------------------- D02
def counts(ctx):
    """Protocol runs in which one message (of some link, at some place) is replaced by one with an element more or less."""
    from . import ring3
    r = ctx.rng
    st = lambda op, d=(), a=(), b=(), c=(), f=0: {"op": op, "d": list(d), "a": list(a), "b": list(b), "c": list(c), "f": f}
    I, G, B = st("input", [1, 2, 3], c=[1, 2, 3]), st("ginput", [4, 5, 6], c=[1, 2, 3]), st("binput", [14, 15, 16], c=[1, 2, 3], f=3)
    links = lambda n: [(x, y) for x in range(n) for y in range(n) if x != y]
    sh, r3, ring = [], [], []
    ops = [st("mul", [9], [1], [2]), st("mulv", [9, 10, 11], [1, 2, 3], [2, 3, 1]), st("mull", [9, 10], [1, 2], [2, 3]), st("inv", [9], [2]), st("invv", [9, 10], [2, 3]), st("div", [9], [1], [2]),
           st("divps", [9], [1], c=[2]), st("open", a=[1]), st("openv", a=[1, 2, 3]), st("mulopenv", a=[1, 2], b=[2, 3]), st("rand", [9]), st("pair", [9, 10]), st("buffer", c=[20]),
           st("gmul", [9], [4], [1]), st("gopen", a=[4]), st("gopenv", a=[4, 5]), st("gopenhalf", a=[4], b=[1])]
    for op in ops:
        for n, t in ((3, 1), (5, 2)):
            for x, y in links(n):
                for nth, delta in ((0, -1), (0, 1), (1, r.choice((-1, 1)))):
                    sh.append({"kind": "prog", "p": 257, "n": n, "t": t, "pre": 0 if op["op"] in ("rand", "pair", "buffer") else 4, "seed": len(sh), "prog": [I, G, op],
                               "alter": {"from": x, "to": y, "nth": nth, "delta": delta}})
    ops = [st("mul", [9], [1], [2]), st("mulv", [9, 10, 11], [1, 2, 3], [2, 3, 1]), st("mull", [9, 10], [1, 2], [2, 3]), st("inv", [9], [2]), st("invv", [9, 10], [2, 3]), st("open", a=[1]),
           st("openv", a=[1, 2, 3]), st("mulopen", a=[1], b=[2]), st("mulopenv", a=[1, 2], b=[2, 3]), st("a2b", [9], [1]), st("a2bv", [9, 10], [1, 2]), st("b2a", [9], [14]), st("b2av", [9, 10], [14, 15]),
           st("bitinj", [9], [14]), st("bitinjv", [9, 10], [14, 15]), st("lt", [9], [1], [2]), st("eqv", [9, 10], [1, 2], [2, 2]), st("band", [9], [14], [15]), st("bandv", [9, 10], [14, 15], [15, 15]),
           st("axorv", [9, 10], [1, 1], [2, 1]), st("gmul", [9], [4], [1]), st("gmulv", [9, 10], [4, 4], [2, 2]), st("r23", [9, 10], [1, 2], c=[0]), st("r23", [9, 10], [1, 2], c=[1]),
           st("p2f", list(range(9, 15)), [4, 5], f=1), st("gopen", a=[4]), st("gopenv", a=[4, 5]), st("sqrt", [9], [1])]
    for op in ops:
        for x, y in links(3):
            for nth, delta in ((0, -1), (0, 1), (1, r.choice((-1, 1))), (2, r.choice((-1, 1)))):
                r3.append({"kind": "prog", "p": 257, "seed": len(r3), "prog": ([I, G] if op["a"][0] < 14 else [B]) + [op], "alter": {"from": x, "to": y, "nth": nth, "delta": delta}})
    for k in range(96 if ctx.quick else 1200):
        kind = ("sort", "sortby")[k % 2]
        P = ring3.sorting(r, 257, r.choice((3, 5)), 4, kind)
        while P.steps[-1]["op"] != kind:
            P.steps.pop()
        x, y = r.choice(links(3))
        ring.append(dict(ring3.job(ctx, 257, P, 1), alter={"from": x, "to": y, "nth": r.randrange(24), "delta": r.choice((-1, 1))}))
    return [("shamir", sh), ("rep3", r3), ("rep3ring", ring)]


def check_D02(ctx):
    build(ctx, "mpc", ["shamir", "rep3", "rep3ring"])
    build(ctx, "circom", ["data"])
    model_check(ctx, "data/CodecMC", "CodecMC.cfg" if ctx.quick else "CodecMC_thorough.cfg", timeout=800)
    r = ctx.rng
    jobs = []
    for what in ("bit", "u8", "u16", "u32", "u64", "u128", "u256", "u320", "u384", "u512", "u1024", "bn254", "bn254fq", "f257", "f11", "points", "uintshare"):
        for _ in range(1 if ctx.quick else 6):
            jobs.append({"kind": "codec", "what": what, "seed": r.randrange(1 << 40)})
    for what in ("u1024", "u64", "bit", "bn254", "shamir", "point", "uint"):
        for _ in range(1 if ctx.quick else 4):
            jobs.append({"kind": "net", "what": what, "seed": r.randrange(1 << 40)})
    recs = run_jobs(ctx, "data", jobs, "codec")
    for x in recs:
        x.pop("enc", None)
    cov = merge_cov(judge(ctx, "data/CodecTrace", recs, jobs, "codec", parts=16))
    for b, js in counts(ctx):
        rs = [x for x in run_jobs(ctx, b, js, "count-" + b) if x["ev"] == "count"]
        for x in rs:
            x["panicked"] = "panic" in x.pop("why")
        c = merge_cov(judge(ctx, "data/CodecTrace", rs, js, "count-" + b, parts=4))
        cov.update(c)
    ctx.notes["events"] = dict(sorted(cov.items()))
    if len(cov) < 70:
        raise ToolError(f"only {len(cov)} kinds of encodings were exercised")
    ctx.sample(f"{len(recs)} encodings and messages of {len(cov)} kinds")
