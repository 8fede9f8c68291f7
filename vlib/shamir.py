"""S01-S06: Shamir sharing."""
import itertools
from .core import *
from .mpc import *

NT = [(3, 1), (4, 1), (5, 2), (5, 1), (6, 2), (7, 3), (8, 3), (10, 4)]


def st(op, d=(), a=(), b=(), c=(), f=0):
    return {"op": op, "d": list(d), "a": list(a), "b": list(b), "c": list(c), "f": f}


def check(ctx):
    build(ctx, "mpc", ["shamir"])
    globals()["check_" + ctx.prop](ctx)
    return finish(ctx, "model_checking")


def model(ctx):
    model_check(ctx, "mpc/ShamirMC", "ShamirMC.cfg", timeout=300)
    model_check(ctx, "mpc/ShamirMC", "ShamirMC_n5.cfg", timeout=300)
    if not ctx.quick:
        model_check(ctx, "mpc/ShamirMC", "ShamirMC_thorough.cfg", timeout=800, heap="12g")


def prog_jobs(ctx, kind, ps, nts, num, steps, seed, pre=lambda r: r.randrange(0, 12)):
    jobs = []
    for p in ps:
        progs = generate(ctx, "mpc/ShamirGen", num, seed * 7 + p, steps + 3, {"GEN_P": str(p), "GEN_STEPS": str(steps), "GEN_KIND": kind})
        for k, g in enumerate(progs):
            opts = [x for x in nts if x[0] < p]
            n, t = opts[k % len(opts)]
            jobs.append({"kind": "prog", "p": p, "n": n, "t": t, "pre": pre(ctx.rng), "seed": seed * 100000 + k, "prog": g["prog"]})
    return jobs


def judge_progs(ctx, jobs, tag, need=(), spur_max=6):
    recs = run_jobs(ctx, "shamir", jobs, tag)
    reps = judge(ctx, "mpc/ShamirTrace", recs, jobs, tag)
    cov = merge_cov(reps)
    spur = sum(r["spur"] for r in reps)
    ctx.notes[tag] = cov
    miss = [o for o in need if o not in cov]
    if miss and not ctx.violations:
        raise ToolError(f"{tag}: operations never exercised: {miss}")
    # a masked inversion may fail when its mask is zero: about one in p draws
    if spur > spur_max:
        ctx.violate(f"{tag}:spurious", f"{ctx.prop}: inversion of a non-zero value fails far too often ({spur} times)", {"cov": cov})
    return cov


# ---------------------------------------------------------------- S01
def check_S01(ctx):
    model_check(ctx, "mpc/ShamirMC", "ShamirMC.cfg", timeout=300)
    r = ctx.rng
    jobs = []
    full = [(5, n, t) for n in range(2, 5) for t in range(1, n)] + [(11, n, t) for n in range(2, 11) for t in range(1, n)]
    big = [(257, n, t) for n, t in ((2, 1), (3, 1), (3, 2), (5, 2), (7, 3), (12, 5), (16, 7), (9, 8))] + [(40961, 5, 2), (40961, 20, 9)]
    reps = 1 if ctx.quick else 5
    for p, n, t in (full + big) * reps:
        secrets = range(p) if p == 5 else [0, 1, p - 1] + [r.randrange(p) for _ in range(2 if ctx.quick else 6)]
        subs = [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(1, n + 1), k)]
        if len(subs) > 40:
            subs = r.sample(subs, 30) + [s for s in subs if len(s) in (t, t + 1)][:8] + [list(range(1, n + 1))]
        for what in ("one", "vec", "raw", "point", "rawpoint", "interp", "zeros"):
            if p == 40961 and "point" in what:
                continue
            for v in secrets:
                tests = []
                for s in subs:
                    s = list(s)
                    r.shuffle(s)
                    tests.append({"sh": s, "co": s, "cut": []})
                for _ in range(3):
                    s = r.sample(range(1, n + 1), r.randrange(1, n + 1))
                    tests.append({"sh": s, "co": s[:-1], "cut": []})
                    if len(s) < n:
                        tests.append({"sh": s, "co": s + [x for x in range(1, n + 1) if x not in s][:1], "cut": []})
                vals = [v]
                if what == "vec":
                    vals = [v] + [r.randrange(p) for _ in range(r.randrange(0, 5))]
                    s = list(range(1, n + 1))
                    for k in range(n):
                        cut = [len(vals)] * n
                        cut[k] = len(vals) - 1
                        tests.append({"sh": s, "co": s, "cut": cut})
                jobs.append({"kind": "share", "what": what, "p": p, "n": n, "t": t, "vals": vals, "seed": r.randrange(1 << 30), "tests": tests})
    jobs += [{"kind": "share", "what": "vec", "p": 11, "n": 4, "t": 2, "vals": [], "seed": 1, "tests": [{"sh": [1, 2, 3], "co": [1, 2, 3], "cut": []}]}]
    recs = run_jobs(ctx, "shamir", jobs, "share")
    reps = judge(ctx, "mpc/ShareTrace", recs, jobs, "share", parts=8)
    ctx.notes["reconstructions"] = merge_cov(reps)


# ---------------------------------------------------------------- S02
def check_S02(ctx):
    model(ctx)
    num = 60 if ctx.quick else 500
    nts = NT + [(9, 2), (10, 1), (9, 4)]
    jobs = prog_jobs(ctx, "rand", [11, 257], nts, num, 30, ctx.seed)
    # every number of parties and threshold with a fixed history
    hist = [st("pair", [1, 2]), st("rand", [3]), st("buffer", c=[5]), st("fork", c=[2]), st("pair", [4, 5]), st("use", c=[1]), st("pair", [6, 7]),
            st("rand", [8]), st("pair", [9, 10]), st("use", c=[0]), st("pair", [11, 12]), st("buffer", c=[3]), st("fork", c=[3]), st("use", c=[2]),
            st("fork", c=[1]), st("pair", [13, 14]), st("use", c=[3]), st("pair", [15, 16]), st("pair", [17, 18]), st("input", [19, 20], c=[2, 3]),
            st("mul", [21], [19], [20]), st("use", c=[0]), st("mul", [22], [19], [20]), st("open", a=[22])]
    for n in range(3, 11):
        for t in range(1, (n - 1) // 2 + 1):
            for pre in (0, 1, 4):
                jobs.append({"kind": "prog", "p": 11, "n": n, "t": t, "pre": pre, "seed": n * 100 + t, "prog": hist})
    for n, t in ((13, 6), (16, 5)):
        jobs.append({"kind": "prog", "p": 257, "n": n, "t": t, "pre": 3, "seed": 5, "prog": hist})
    # long histories across automatic refills
    long = [st("pair", [1, 2]) for _ in range(1024 * 2 + 2048 * 2 + 10 if ctx.quick else 15000)]
    jobs.append({"kind": "prog", "p": 257, "n": 3, "t": 1, "pre": 2, "seed": 9, "prog": long})
    jobs.append({"kind": "prog", "p": 257, "n": 4, "t": 1, "pre": 1, "seed": 9, "prog": long[:2100]})
    judge_progs(ctx, jobs, "programs", need=("pair", "rand", "fork", "buffer", "use", "mul"))
    fresh = []
    for k, (n, t) in enumerate([x for x in nts for _ in range(3 if ctx.quick else 12)]):
        g = jobs[k % len(jobs[:2 * num])]["prog"]
        fresh.append({"kind": "fresh", "n": n, "t": t, "pre": ctx.rng.randrange(0, 9),
                      "prog": [s for s in g if s["op"] in ("pair", "rand", "buffer", "fork", "use")] + [y for x in hist[:16] for y in ([st("buffer", c=[8]), x] if x["op"] == "fork" else [x])]})
    fresh.append({"kind": "fresh", "n": 3, "t": 1, "pre": 5, "prog": long[:2500]})
    recs = run_jobs(ctx, "shamir", fresh, "fresh")
    reps = judge(ctx, "mpc/FreshTrace", recs, fresh, "fresh")
    ctx.notes["fresh draws"] = sum(x["draws"] for x in reps)
    # a threshold that is too large is refused
    bad = [{"kind": "prog", "p": 11, "n": n, "t": t, "pre": 1, "seed": 1, "prog": []} for n in range(2, 8) for t in range((n - 1) // 2 + 1, n)]
    for k, x in enumerate(run_jobs(ctx, "shamir", bad, "threshold")):
        if x["ev"] == "start" and not x["fatal"]:
            ctx.violate("threshold", f"S02: preprocessing accepts threshold {x['t']} for {x['n']} parties", x)


# ---------------------------------------------------------------- S03
def check_S03(ctx):
    model(ctx)
    jobs = []
    for n, t in ((3, 1), (4, 1)):
        for a in range(5):
            for b in range(5):
                jobs.append({"kind": "prog", "p": 5, "n": n, "t": t, "pre": (a * b) % 4, "seed": a * 5 + b + 1, "prog": [
                    st("input", [1, 2], c=[a, b]), st("mul", [3], [1], [2]), st("mulv", [4, 5], [1, 3], [2, 1]), st("mull", [6], [3], [2]),
                    st("open", a=[3]), st("openv", a=[4, 5, 6, 1]), st("mulopenv", a=[1, 2, 3], b=[2, 4, 5])]})
    big = 40961
    special = [0, 1, 2, big - 1, 20480]
    for n, t in NT + [(12, 5), (16, 7)]:
        for k in range(2 if ctx.quick else 8):
            x, y, z = (ctx.rng.randrange(1, big) for _ in range(3))
            jobs.append({"kind": "prog", "p": big, "n": n, "t": t, "pre": k * 7, "seed": k + 1, "prog": [
                st("input", [1, 2, 3, 4], c=[x, y, z, 0]), st("inv", [5], [1]), st("div", [6], [1], [2]), st("divps", [7], [3], c=[special[k % 5]]),
                st("invv", [8, 9, 10], [1, 2, 3]), st("inv", a=[4]), st("div", a=[1], b=[4]), st("div", [11], [4], [1]), st("divsp", [12], [1], c=[y]),
                st("divsp", a=[1], c=[0]), st("invv", a=[1, 4, 2]), st("divps", a=[4], c=[5]), st("mul", [13], [5], [1]), st("openv", a=[5, 6, 7, 8, 11, 12, 13]),
                st("mulv", [14, 15], [1, 4], [4, 4]), st("open", a=[14])]})
    for ln in (1, 2, 3, 17, 100):
        for n, t in ((3, 1), (5, 2)):
            xs = [ctx.rng.randrange(257) for _ in range(2 * ln)]
            a, b, d = list(range(1, ln + 1)), list(range(ln + 1, 2 * ln + 1)), list(range(2 * ln + 1, 3 * ln + 1))
            jobs.append({"kind": "prog", "p": 257, "n": n, "t": t, "pre": 2, "seed": ln, "prog": [
                st("input", a + b, c=xs, f=1), st("mulv", d, a, b), st("openv", a=d), st("mulopenv", a=d, b=b), st("mull", d, a, b), st("openv", a=d)]})
    ln = 2300
    xs = [ctx.rng.randrange(257) for _ in range(2 * ln)]
    a, b, d = list(range(1, ln + 1)), list(range(ln + 1, 2 * ln + 1)), list(range(2 * ln + 1, 3 * ln + 1))
    jobs.append({"kind": "prog", "p": 257, "n": 3, "t": 1, "pre": 2, "seed": 5, "prog": [st("input", a + b, c=xs, f=1), st("mull", d, a, b), st("open", a=[d[-1]])]})
    # openings of long vectors, around every power of two
    for ln in (64, 65, 129, 257, 513, 1025) if ctx.quick else (64, 65, 127, 128, 129, 256, 257, 300, 513, 1025, 2049):
        xs = [ctx.rng.randrange(257) for _ in range(ln)]
        a = list(range(1, ln + 1))
        jobs.append({"kind": "prog", "p": 257, "n": 3, "t": 1, "pre": 2, "seed": ln, "prog": [st("input", a, c=xs, f=1), st("openv", a=a), st("mulopenv", a=a, b=a[::-1])]})
    for ln in (0,):
        jobs.append({"kind": "prog", "p": 257, "n": 4, "t": 1, "pre": 2, "seed": 5, "prog": [st("mulv"), st("openv"), st("mulopenv"), st("invv")]})
    num = 50 if ctx.quick else 500
    jobs += prog_jobs(ctx, "field", [40961, 257], NT, num, 25, ctx.seed)
    judge_progs(ctx, jobs, "programs", need=("mul", "mulv", "mull", "inv", "invv", "div", "divps", "divsp", "open", "openv", "mulopenv",
                                             "inv fails", "invv fails", "div fails", "divps fails", "divsp fails"))


# ---------------------------------------------------------------- S04
def check_S04(ctx):
    model_check(ctx, "mpc/ShamirMC", "ShamirMC.cfg", timeout=300)
    jobs = []
    forms = {"add": 7, "sub": 6, "addp": 5, "mulp": 5, "neg": 3}
    for a in range(5):
        for b in range(5):
            pr = [st("input", [1, 2], c=[a, b])]
            k = 3
            for op, m in forms.items():
                for f in range(m):
                    pr.append(st(op, [k], [1], [2] if op in ("add", "sub") else [], [b] if op in ("addp", "mulp") else [], f))
                    k += 1
            pr += [st("addv", [k, k + 1], [1, 2], [2, 2]), st("subv", [k + 2, k + 3], [1, 2], [2, 2]), st("promote", [k + 4, k + 5], c=[a, b], f=0),
                   st("promote", [k + 6, k + 7], c=[a, b], f=1), st("zero", [k + 8], f=0), st("zero", [k + 9], f=1), st("divsp", [k + 10] if b else [], [1], c=[b])]
            for n, t in ((3, 1), (4, 1)):
                jobs.append({"kind": "prog", "p": 5, "n": n, "t": t, "pre": 1, "seed": a * 5 + b, "prog": pr})
    lens = (1, 2, 15, 16, 17, 31, 32, 33, 63, 65, 127, 128, 129, 130, 200, 257, 300)
    for ln in lens if ctx.quick else lens + (511, 512, 513, 600, 900, 1025):
        for n, t in ((3, 1), (5, 2)):
            xs = [ctx.rng.randrange(257) for _ in range(ln)]
            rs = list(range(1, ln + 1))
            jobs.append({"kind": "prog", "p": 257, "n": n, "t": t, "pre": 1, "seed": ln, "prog": [st("input", rs, c=xs, f=1)] +
                         [st("evalpoly", [ln + 1 + k], rs, c=[x]) for k, x in enumerate((0, 1, 256, 3, ctx.rng.randrange(257)))]})
    num = 40 if ctx.quick else 400
    jobs += prog_jobs(ctx, "local", [11, 257, 40961], NT, num, 25, ctx.seed)
    judge_progs(ctx, jobs, "programs", need=("add", "sub", "addv", "subv", "addp", "mulp", "neg", "zero", "promote", "evalpoly", "divsp", "divsp fails"))


# ---------------------------------------------------------------- S05
def check_S05(ctx):
    model(ctx)
    jobs = []
    for a in range(5):
        for b in range(5):
            pr = [st("input", [1], c=[a]), st("ginput", [2, 3], c=[b, a])]
            k = 4
            for f in range(5):
                pr += [st("gadd", [k], [2], [3], f=f), st("gsub", [k + 1], [2], [3], f=f)]
                k += 2
            for f in range(2):
                pr += [st("gaddp", [k], [2], c=[a], f=f), st("gsubp", [k + 1], [2], c=[a], f=f)]
                k += 2
            pr += [st("gmulpp", [k], [1], c=[b]), st("gmulps", [k + 1], [2], c=[a]), st("gmul", [k + 2], [2], [1]), st("gpromote", [k + 3], c=[b]),
                   st("gopen", a=[k + 2]), st("gopenv", a=[k, k + 1, k + 2, 2, 3]), st("gopenhalf", a=[2], b=[1]), st("gopenf", a=[2], b=[1]),
                   st("gopenfv", a=[2, k, k + 2], b=[1, 1, 1]), st("gopenfv", a=[2], b=[1])]
            for n, t in ((3, 1), (4, 1)):
                jobs.append({"kind": "prog", "p": 5, "n": n, "t": t, "pre": (a + b) % 3, "seed": a * 5 + b, "prog": pr})
    for ln in (1, 2, 3, 7, 31, 32, 33, 70, 200) if ctx.quick else (1, 2, 3, 7, 15, 16, 31, 32, 33, 64, 70, 200, 500):
        xs = [ctx.rng.choice([0, 1, 256, ctx.rng.randrange(257)]) for _ in range(ln)]
        cs = [ctx.rng.choice([0, 1, 256, ctx.rng.randrange(257)]) for _ in range(ln)]
        rs = list(range(1, ln + 1))
        for n, t in ((3, 1), (5, 2)):
            jobs.append({"kind": "prog", "p": 257, "n": n, "t": t, "pre": 1, "seed": ln, "prog": [st("input", rs, c=xs, f=1), st("gmsm", [ln + 1], rs, c=cs), st("gopen", a=[ln + 1])]})
    # openings of long vectors of points, alone and with field elements
    for ln in (33, 65, 129, 300) if ctx.quick else (33, 65, 129, 257, 300, 513, 1025):
        xs = [ctx.rng.choice([0, 1, 256, ctx.rng.randrange(257)]) for _ in range(ln)]
        rs, gs = list(range(1, ln + 1)), list(range(ln + 1, 2 * ln + 1))
        for n, t in ((3, 1), (5, 2)):
            jobs.append({"kind": "prog", "p": 257, "n": n, "t": t, "pre": 1, "seed": ln, "prog": [st("input", rs, c=xs, f=1), st("ginput", gs, c=xs[::-1]), st("gopenv", a=gs), st("gopenfv", a=gs, b=rs)]})
    num = 60 if ctx.quick else 500
    jobs += prog_jobs(ctx, "point", [11, 257], NT, num, 25, ctx.seed)
    judge_progs(ctx, jobs, "programs", need=("gadd", "gsub", "gaddp", "gsubp", "gmulpp", "gmulps", "gmul", "gpromote", "gmsm", "gopen", "gopenv", "gopenhalf",
                                             "gopenf", "gopenfv", "ginput"))


# ---------------------------------------------------------------- S06
def check_S06(ctx):
    model_check(ctx, "mpc/ShamirPrivacy", "ShamirPrivacy.cfg", timeout=600)
    ok, out = tlc(ctx, "mpc/ShamirPrivacy", "ShamirPrivacy_unmasked.cfg", timeout=300, count=False)
    if ok or "is violated" not in out:
        raise ToolError("the unmasked opening is not refuted by the specification\n" + out[-2000:])
    R = 6000 if ctx.quick else 60000
    jobs = []

    def hist(name, mode, p, n, t, prog, watch, proj, group=None, runs=R, pre=8, mayfail=False, coins=()):
        # spread over workers: the counts of equal jobs are merged below
        jobs.append({"kind": "hist", "name": name, "mode": mode, "group": group or name, "p": p, "n": n, "t": t, "pre": pre, "seed": ctx.seed * 1000 + len(jobs),
                     "runs": runs, "watch": list(watch), "proj": proj, "prog": prog, "mayfail": mayfail, "coins": list(coins), "coinseed": 1 + len(jobs) // 3})

    # sharing: any t shares are uniform, and shares of different values are independent
    for f in (0, 1):
        for v in ((0, 0), (1, 3)):
            hist(f"sharing {v} form {f}", "uniform", 5, 4, 1, [st("input", [1, 2], c=list(v), f=f)], [0], [[[q, 0], [q, 1]] for q in range(4)])
    for v in (0, 2):
        for f in (0, 1):
            hist(f"sharing of {v} degree 2 form {f}", "uniform", 11, 5, 2, [st("input", [1], c=[v], f=f)], [0], [[[a, 0], [b, 0]] for a in range(5) for b in range(a)])
        # the point sampler of the curve library never draws the neutral element, which shows in groups of order 5 or 11 only
        hist(f"sharing point {v}", "uniform", 257, 4, 1, [st("ginput", [1, 2], c=[v, 1])], [0], [[[q, k]] for q in range(4) for k in range(2)] + [[[q, 0], [q, 1]] for q in range(4)])
        hist(f"sharing point {v} degree 2", "uniform", 257, 5, 2, [st("ginput", [1], c=[v])], [0], [[[a, 0], [b, 0]] for a in range(5) for b in range(a)] + [[[a, 0]] for a in range(5)])
    # a long vector shared at once: the elements are masked independently, whatever their distance
    for f in (0, 1):
        hist(f"sharing of 40 values form {f}", "uniform", 5, 3, 1, [st("input", list(range(1, 41)), c=[k % 3 for k in range(40)], f=f)], [0],
             [[[q, k], [q, k + lag]] for q in range(3) for lag in (1, 2, 4, 8, 16, 32) for k in range(40 - lag)], runs=R // 3)
    # preprocessing: any t + 1 parts of the low and t further ones of the high sharing are uniform; consecutive pairs and forks are independent
    two = [st("pair", [1, 2]), st("pair", [3, 4]), st("fork", c=[2]), st("pair", [5, 6]), st("use", c=[1]), st("pair", [7, 8])]
    W = [0, 1, 3, 5]
    hist("pairs", "uniform", 5, 3, 1, two, W, [[[0, 0], [1, 0], [0, 1], [1, 1]], [[1, 0], [2, 0], [1, 1], [2, 1]], [[0, 0], [1, 0], [0, 2], [1, 2]],
         [[0, 0], [1, 0], [0, 4], [1, 4]], [[1, 0], [1, 4], [1, 6], [1, 2]], [[0, 1], [0, 3], [0, 5], [0, 7]], [[2, 2], [2, 4], [1, 4], [1, 6]], [[0, 2], [2, 2], [0, 6], [2, 6]]])
    hist("pairs of five parties", "uniform", 11, 5, 2, two, W, [[[a, k], [b, k]] for k in range(8) for a, b in ((0, 1), (1, 4), (3, 2), (0, 4))] +
         [[[a, 0], [b, 0], [c, 0]] for a, b, c in ((0, 1, 2), (2, 3, 4), (4, 0, 2))] + [[[a, 1], [b, 1], [c, 1]] for a, b, c in ((0, 1, 2), (2, 3, 4), (4, 0, 2))] +
         [[[a, 0], [a, 2], [a, 4]] for a in range(5)] + [[[a, 4], [a, 6]] for a in range(5)])
    hist("pairs without preprocessing", "uniform", 5, 3, 1, two[:2], [0, 1], [[[0, 0], [1, 0], [0, 1], [1, 1]], [[0, 0], [1, 0], [0, 2], [1, 2]]], pre=0, runs=R // 8)
    # the same given all coins of t parties (what they contribute to the preprocessing is no secret from them): the parts of an
    # honest party stay uniform over consecutive pairs, and so do the messages of products of public values
    three = [st("pair", [1, 2]), st("pair", [3, 4]), st("pair", [5, 6]), st("fork", c=[2]), st("pair", [7, 8])]
    prods = lambda a, b: [st("promote", [1, 2], c=[a, b], f=1), st("mul", [3], [1], [2]), st("mul", [4], [1], [2]), st("mul", [5], [2], [1])]
    prodv = lambda a, b: [st("promote", [1, 2], c=[a, b], f=1), st("mulv", [3, 4, 5], [1, 1, 2], [2, 2, 1])]
    for q in range(3):
        hist(f"pairs given the coins of {q}", "uniform", 5, 3, 1, three, [0, 1, 2, 4],
             [x for h in range(3) if h != q for x in ([[h, 0], [h, 1], [h, 2], [h, 3]], [[h, 0], [h, 2], [h, 4]], [[h, 1], [h, 3], [h, 5]], [[h, 0], [h, 4], [h, 6]], [[h, 2], [h, 5], [h, 7]])], coins=[q])
        # party 0 collects the masked products of 1 and 2 and sends the openings
        v = [[[0, 0], [0, 1], [0, 2], [0, 3]], [[0, 0], [0, 2], [0, 4]], [[0, 1], [0, 3], [0, 5]], [[0, 0], [0, 1], [0, 5]]] if q == 0 else [[[q, 0], [q, 1], [q, 2]]]
        hist(f"products given the coins of {q}", "uniform", 5, 3, 1, prods(1, 3), [], v, coins=[q])
        v = [[[0, 0], [0, 1], [0, 2]], [[0, 3], [0, 4], [0, 5]], [[0, 0], [0, 3], [0, 2], [0, 5]]] if q == 0 else v
        hist(f"vector of products given the coins of {q}", "uniform", 5, 3, 1, prodv(2, 4), [], v, coins=[q])
    for q1 in range(5):
        for q2 in range(q1):
            hs = [h for h in range(5) if h not in (q1, q2)]
            hist(f"pairs of five parties given the coins of {q2}, {q1}", "uniform", 11, 5, 2, three, [0, 1, 2, 4], [x for h in hs for x in ([[h, 0], [h, 2], [h, 4]], [[h, 0], [h, 2], [h, 4], [h, 6]], [[h, 1], [h, 3], [h, 5]], [[h, 0], [h, 1], [hs[0] if h != hs[0] else hs[1], 1]])],
                 coins=[q1, q2], runs=R * 2 // 3)
    # multiplication: the king's messages are uniform given its own shares, over several multiplications
    for (a, b, c) in ((0, 0, 0), (1, 2, 4), (4, 4, 1)):
        pr = [st("input", [1, 2, 3], c=[a, b, c]), st("mul", [4], [1], [2]), st("mul", [5], [1], [3])]
        # view of party 0: shares of a, b, c, product share(s), then messages of the two multiplications
        hist(f"multiplication {a}*{b}, {a}*{c}", "uniform", 5, 3, 1, pr, [0, 1, 2], [[[0, 0], [0, 1], [0, 5], [0, 6]], [[0, 0], [0, 1], [0, 3], [0, 5], [0, 6]], [[0, 5], [0, 6], [0, 7], [0, 8]], [[0, 0], [0, 2], [0, 7], [0, 8]],
             [[1, 0], [1, 1], [1, 3]], [[2, 0], [2, 1], [2, 3]], [[1, 0], [1, 3], [1, 5]]])
        pr = [st("input", [1, 2, 3], c=[a, b, c]), st("mulv", [4, 5], [1, 1], [2, 3])]
        hist(f"vector multiplication {a}*{b}, {a}*{c}", "uniform", 5, 3, 1, pr, [0, 1], [[[0, 0], [0, 5], [0, 6], [0, 7], [0, 8]], [[0, 5], [0, 6], [0, 7], [0, 8]], [[1, 0], [1, 3], [1, 4], [1, 5]]])
        pr = [st("input", [1], c=[a]), st("ginput", [2], c=[b]), st("gmul", [3], [2], [1])]
        hist(f"point multiplication {a}*{b}", "uniform", 5, 3, 1, pr, [0, 1, 2], [[[0, 0], [0, 2]], [[1, 0], [1, 2]], [[0, 0], [0, 3], [0, 4]], [[1, 0], [1, 3]], [[2, 0], [2, 2]]])
    for (a, b) in ((0, 3), (4, 2)):
        pr = [st("input", [1, 2], c=[a, b]), st("mul", [3], [1], [2])]
        hist(f"multiplication of five parties {a}*{b}", "uniform", 11, 5, 2, pr, [0, 1], [[[0, 3], [0, 4], [0, 5]], [[0, 0], [0, 1], [0, 3]], [[0, 0], [0, 5], [0, 6]], [[1, 0], [0, 0], [0, 4]], [[3, 0], [0, 4], [0, 6]], [[1, 0], [2, 0], [1, 2]], [[0, 0], [1, 2], [2, 2]]])
    # inversion, product openings: same view for all secrets with the same opened value
    for a in (1, 2, 3, 4):
        hist(f"inversion of {a}", "same", 5, 3, 1, [st("input", [1], c=[a]), st("inv", [2], [1])], [0, 1],
             [[[q, 0], [q, 1], [q, 2], [q, 3]] for q in range(3)], group="inv", mayfail=True)
        hist(f"vector inversion of {a}", "same", 5, 3, 1, [st("input", [1], c=[a]), st("invv", [2], [1])], [0, 1],
             [[[q, 0], [q, 1], [q, 2], [q, 3]] for q in range(3)], group="invv", mayfail=True)
        hist(f"opened product {a}*{(3 * pow(a, -1, 5)) % 5}", "same", 5, 3, 1, [st("input", [1, 2], c=[a, (3 * pow(a, -1, 5)) % 5]), st("mulopenv", a=[1], b=[2])], [0],
             [[[q, 0], [q, 1], [q, 2], [q, 3]] for q in range(3)], group="mulopen")
        hist(f"opened product with 0: {a}", "same", 5, 3, 1, [st("input", [1, 2], c=[a - 1, 0]), st("mulopenv", a=[1], b=[2])], [0],
             [[[q, 0], [q, 1], [q, 2], [q, 3]] for q in range(3)], group="mulopen0")
        b = (3 * pow(a, -1, 5)) % 5
        hist(f"half opened point {a}*{b}", "same", 5, 3, 1, [st("input", [1], c=[a]), st("ginput", [2], c=[b]), st("gopenhalf", a=[2], b=[1])], [0],
             [[[q, 1], [q, 2], [q, 3]] for q in range(3)], group="gopenhalf")
    parts = 8
    # split every job into parts so that all processors are used, and merge the counts
    sub = [dict(j, runs=j["runs"] // parts, seed=j["seed"] * 64 + k) for j in jobs for k in range(parts)]
    raw = run_jobs(ctx, "shamir", sub, "views", timeout=800)
    recs = []
    for k, j in enumerate(jobs):
        rs = [r for r in raw if r["job"] // parts == k]
        c = []
        for x in range(len(j["proj"])):
            m = {}
            for r in rs:
                for key, v in r["counts"][x]:
                    m[tuple(key)] = m.get(tuple(key), 0) + v
            c.append(sorted(m.items()))
        recs.append({"ev": "hist", "job": k, "bad": sum(r["bad"] for r in rs), "runs": sum(r["runs"] for r in rs), "counts": c})
    h = hist_records(jobs, recs)
    # long vectors of equal, trivially shared operands: every element has to be masked on its own
    big, sp = 40961, []
    for n, t in ((3, 1), (5, 2)):
        for ln in (33, 100, 300, 1100, 2600) if ctx.quick else (33, 65, 100, 129, 300, 700, 1100, 2600, 5000, 9000):
            a = list(range(1, ln + 1))
            d = list(range(ln + 1, 2 * ln + 1))
            for op, fin in (("mulv", st("mulv", d, a, a)), ("mull", st("mull", d, a, a)), ("mulopenv", st("mulopenv", a=a, b=a)), ("invv", st("invv", d, a))):
                if op == "invv" and ln > 1100:
                    continue
                for k in range(2):
                    sp.append({"kind": "hist", "spread": True, "p": big, "n": n, "t": t, "pre": ln * 3 if n == 5 else k * ln, "seed": ctx.seed * 77 + len(sp), "runs": 1, "watch": [], "proj": [],
                               "prog": [st("promote", a, c=[1 + k * 7] * ln, f=k), fin], "name": f"{op} of {ln} equal elements, {n} parties"})
    srecs = run_jobs(ctx, "shamir", sp, "spread", timeout=800)
    for r in srecs:
        for m in r.get("msgs", []):
            ln = len(m)
            if ln < 33:
                continue
            for lag in [0] + [x for x in (1, 2, 3, 4, 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048) if x <= ln // 2]:
                c = [0] * 32
                for i in range(ln - lag):
                    c[((m[i] - (m[i + lag] if lag else 0)) % big) * 32 // big] += 1
                h.append({"job": len(jobs) + r["job"], "mode": "uniform", "name": f"{sp[r['job']]['name']}: message elements at distance {lag}", "cells": 32, "runs": ln - lag, "counts": [x for x in c if x]})
    ctx.notes["runs observed"] = sum(r["runs"] for r in recs)
    reps = judge(ctx, "mpc/Hist", h, jobs + sp, "views")
    ctx.notes["histograms"] = len(h)
