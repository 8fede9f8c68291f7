"""R01-R09: replicated three-party sharing."""
import itertools
from .core import *
from .mpc import *
from .shamir import st

KINDS = {
    "arith": ("add", "sub", "addv", "subv", "addp", "subsp", "subps", "mulp", "dbl", "neg", "zero", "promote", "promotes", "addmulp", "evalpoly", "pow2", "divsp",
              "mul", "mulv", "mull", "open", "openv", "mulopen", "mulopenv", "cmux", "cmuxv", "addmul", "rand", "pow", "axor", "axorv", "r23", "fork", "use"),
    "cmp": ("lt", "le", "gt", "ge", "ltp", "lep", "gtp", "gep", "gebit", "lepbit", "gepbit", "eq", "eqv", "eqp", "eqpv", "eqbit", "eqbitv", "eqbitp", "eqbitpv",
            "neq", "neqp", "iszero", "bopen"),
    "bin": ("bxor", "bxorp", "bxorpv", "bor", "borp", "band", "bandv", "bandp", "bshr", "bshl", "shlps", "bopen", "bpromote", "bcmux", "bcmuxv", "bortree",
            "biszero", "biszerov"),
    "conv": ("a2b", "a2bv", "b2a", "b2av", "bitinj", "bitinjv", "a2y2a", "a2y2av", "b2y2b"),
    "gc": ("decomp", "decompo", "slice", "modp2", "divp2", "idiv", "idivp", "idivs", "slxor", "sland", "slxorf", "sort"),
    "point": ("gadd", "gsub", "gaddp", "gsubp", "gmulpp", "gmulps", "gmul", "gmulv", "gpromote", "gzero", "gmsm", "gopen", "gopenv", "gopenhalf", "gopenf",
              "gopenfv", "giszero"),
}


def check(ctx):
    build(ctx, "mpc", ["rep3"])
    globals()["check_" + ctx.prop](ctx)
    return finish(ctx, "model_checking")


def prog_jobs(ctx, kind, ps, num, steps):
    jobs = []
    for p in ps:
        progs = generate(ctx, "mpc/Rep3Gen", num, ctx.seed * 7 + p, steps + 3, {"GEN_P": str(p), "GEN_STEPS": str(steps), "GEN_KIND": kind})
        for k, g in enumerate(progs):
            jobs.append({"kind": "prog", "p": p, "a2b": ("direct", "yao")[k % 2], "seed": ctx.seed * 100000 + k, "prog": g["prog"]})
    return jobs


def judge_progs(ctx, jobs, tag, need=(), spur_max=6, parts=6):
    recs = run_jobs(ctx, "rep3", jobs, tag)
    reps = judge(ctx, "mpc/Rep3Trace", recs, jobs, tag, parts=parts)
    cov = merge_cov(reps)
    spur = sum(r["spur"] for r in reps)
    ctx.notes[tag] = cov
    miss = [o for o in need if o not in cov]
    if miss and not ctx.violations:
        raise ToolError(f"{tag}: operations never exercised: {miss}")
    # masked operations may fail when their mask is zero: about one in p draws
    if spur > spur_max:
        ctx.violate(f"{tag}:spurious", f"{ctx.prop}: operations fail far too often where they are defined ({spur} times)", {"cov": cov})
    return cov




def vec_prog(p, xs, steps, base, f=1):
    """An input of all values, followed by the steps."""
    return [st("input", range(1, len(xs) + 1), c=xs, f=f)] + steps


def refuted(ctx, module, cfg):
    """A configuration without the protection must be refuted by the specification."""
    ok, out = tlc(ctx, module, cfg, timeout=300, count=False)
    if ok or "is violated" not in out:
        raise ToolError(f"{cfg} is not refuted by the specification\n" + out[-2000:])


# ---------------------------------------------------------------- R01
FORMS = ("one", "vec", "seeded", "oneseeded", "additive", "oneadditive", "additiveseeded", "oneadditiveseeded", "maybe", "maybeadditive", "binary", "points", "point")


def check_R01(ctx):
    model(ctx)
    r = ctx.rng
    jobs = []
    for p in (5, 11, 257, 40961):
        for what in FORMS:
            if p == 40961 and "point" in what:
                continue
            single = what.startswith("one") or what == "point"
            for ln in ([1] if single else [0, 1, 2, 3, 7, 20] + ([] if ctx.quick else [64, 300])):
                for v in (range(p) if p <= 11 and ln == 1 else [0, 1, p - 1] + [r.randrange(p) for _ in range(2 if ctx.quick else 20)]):
                    vals = ([v] + [r.randrange(p) for _ in range(ln - 1)])[:ln]
                    if "maybe" in what:
                        vals = [x if r.random() < 0.7 else -1 for x in vals]
                    n = len([x for x in vals if x >= 0])
                    cuts = [[n, n, n]]
                    if n:
                        cuts += [[n - 1, n, n], [n, n - 1, n], [n, n, n - 1], [0, n, n], [n - 1] * 3, [n, 0, 0], [0, 0, n], [0, n, 0]]
                    jobs.append({"kind": "share", "what": what, "p": p, "vals": vals, "cuts": cuts, "seed": r.randrange(1 << 30)})
    recs = run_jobs(ctx, "rep3", jobs, "share")
    ctx.notes["reconstructions"] = merge_cov(judge(ctx, "mpc/Rep3ShareTrace", recs, jobs, "share", parts=8))
    # one party's components are uniform, whatever the value
    hj = []
    for f in (0, 1, 2):
        for v in (0, 1, 4):
            hj.append({"kind": "hist", "mode": "uniform", "name": f"components of {v}, form {f}", "p": 5, "runs": 3000 if ctx.quick else 20000, "seed": ctx.seed + v, "watch": [0], "listen": [],
                       "proj": [[[q, 0], [q, 1]] for q in range(3)], "prog": [st("input", [1], c=[v], f=f)]})
    hrecs = run_jobs(ctx, "rep3", hj, "components")
    judge(ctx, "mpc/Hist", hist_records(hj, hrecs), hj, "components")


def model(ctx):
    model_check(ctx, "mpc/Rep3MC", "Rep3MC.cfg", timeout=300)
    if not ctx.quick:
        model_check(ctx, "mpc/Rep3MC", "Rep3MC_thorough.cfg", timeout=600)


def circuits(ctx):
    model_check(ctx, "mpc/Rep3BitsMC", "Rep3BitsMC.cfg", timeout=300)
    if not ctx.quick:
        model_check(ctx, "mpc/Rep3BitsMC", "Rep3BitsMC_thorough.cfg", timeout=800)


# ---------------------------------------------------------------- R02
def check_R02(ctx):
    model(ctx)
    jobs = []
    for a in range(5):
        for b in range(5):
            jobs.append({"kind": "prog", "p": 5, "seed": a * 5 + b + 1, "prog": [
                st("input", [1, 2, 3], c=[a, b, (a * 2 + b) % 5], f=(a + b) % 3), st("mul", [4], [1], [2]), st("mulv", [5, 6], [1, 3], [2, 1]), st("mull", [7, 8], [4, 5], [2, 3]),
                st("mulopen", a=[1], b=[2]), st("mulopenv", a=[1, 2, 3], b=[2, 4, 5]), st("cmux", [9], [1, 2, 3]), st("cmuxv", [10, 11], [1, 2, 3], [3, 2]), st("addmul", [12], [1, 2, 3]),
                st("pow", [13], [1], c=[b]), st("axor", [14], [1], [2]), st("divsp", [15], [1], c=[b]), st("r23", [16, 17], [1, 2], c=[a % 3]), st("mul", [18], [16], [17]),
                st("open", a=[18]), st("openv", a=[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14])]})
            for op in ("gadd", "gsub"):
                jobs.append({"kind": "prog", "p": 5, "seed": a * 5 + b + 1, "prog": [
                    st("ginput", [1, 2], c=[a, b]), st("input", [3, 4], c=[b, a], f=1), st(op, [5], [1], [2], f=b), st("gmul", [6], [1], [3]), st("gmulv", [7, 8], [1, 5], [3, 4]), st("gmsm", [9], [3, 4], c=[a, b]),
                    st("gaddp", [10], [1], c=[b]), st("gsubp", [11], [1], c=[b]), st("gmulpp", [12], [3], c=[a]), st("gmulps", [13], [1], c=[b]), st("gopenhalf", a=[1], b=[3]), st("gopenfv", a=[5, 6, 7], b=[3, 4, 3]),
                    st("gopenf", a=[8], b=[4]), st("gopenv", a=[5, 6, 7, 8, 9, 10, 11, 12, 13]), st("gopen", a=[13])]})
    big = 40961
    for k in range(6 if ctx.quick else 40):
        x, y, z = (ctx.rng.randrange(1, big) for _ in range(3))
        sp = [0, 1, 2, big - 1, 20480][k % 5]
        jobs.append({"kind": "prog", "p": big, "seed": k + 1, "prog": [
            st("input", [1, 2, 3, 4], c=[x, y, z, 0]), st("inv", [5], [1]), st("div", [6], [1], [2]), st("divps", [7], [3], c=[sp]), st("invv", [8, 9, 10], [1, 2, 3]), st("divsp", [11], [1], c=[y]),
            st("div", [12], [4], [1]), st("sqrt", [13], [4]), st("mul", [14], [1], [1]), st("sqrt", [15], [14]), st("mul", [16], [15], [15]), st("open", a=[16]), st("mul", [17], [5], [1]),
            st("openv", a=[5, 6, 7, 8, 11, 12, 17]), (st("inv", a=[4]), st("div", a=[1], b=[4]), st("invv", a=[1, 4, 2]), st("divps", a=[4], c=[5]), st("divsp", a=[1], c=[0]))[k % 5]]})
    for ln in (0, 1, 2, 17, 100, 1100, 2100):
        xs = [ctx.rng.randrange(257) for _ in range(2 * ln)]
        a, b, d = list(range(1, ln + 1)), list(range(ln + 1, 2 * ln + 1)), list(range(2 * ln + 1, 3 * ln + 1))
        jobs.append({"kind": "prog", "p": 257, "seed": ln, "prog": [st("input", a + b, c=xs, f=ln % 3), st("mulv", d, a, b), st("openv", a=d), st("mull", d, a, b), st("openv", a=d)] +
                     ([st("mulopenv", a=d, b=b), st("axorv", d, a, b), st("r23", d, a, c=[ln % 3]), st("openv", a=d)] if ln < 1000 else [])})
    num = 30 if ctx.quick else 300
    jobs += prog_jobs(ctx, "arith", [257, 40961, 11], num, 25)
    jobs += prog_jobs(ctx, "point", [11, 257], num, 25)
    # sqrt: neither inverse nor root of a non-residue; excused failures happen by chance about once per p
    judge_progs(ctx, jobs, "programs", need=[o for o in KINDS["arith"] + KINDS["point"] if o != "giszero"] + ["inv fails", "div fails", "divsp fails", "sqrt"], parts=8)


# ---------------------------------------------------------------- R03
def views(lens, own, uniform):
    """Projections: received numbers alone, with each own component, and pairs of neighbours."""
    pr = []
    for q in range(3):
        idx = list(range(own, lens[q]))
        pr += [[[q, i]] for i in idx]
        pr += [[[q, i], [q, i + 1]] for i in idx[:-1]]
        if not uniform or uniform == "own":
            pr += [[[q, o], [q, i]] for i in idx for o in range(own)]
    return pr


def discover(ctx, jobs, tag):
    probe = [dict(j, runs=1 if not j.get("mayfail") else 20, proj=[]) for j in jobs]
    for k, r in enumerate(run_jobs(ctx, "rep3", probe, tag + "_probe")):
        jobs[r["job"]]["proj"] = views(r["lens"], jobs[r["job"]]["own"], jobs[r["job"]].get("u"))
    return jobs


def hist_run(ctx, jobs, tag, runs, chunks=8):
    """Splits the runs of every job so that they run in parallel."""
    split_jobs = []
    for j in jobs:
        for c in range(chunks):
            split_jobs.append(dict(j, runs=runs // chunks, seed=j["seed"] * 64 + c))
    raw = run_jobs(ctx, "rep3", split_jobs, tag, timeout=800)
    recs = []
    for k, j in enumerate(jobs):
        rs = [r for r in raw if r["job"] // chunks == k]
        cs = []
        for x in range(len(j["proj"])):
            m = {}
            for r in rs:
                for key, v in r["counts"][x]:
                    m[tuple(key)] = m.get(tuple(key), 0) + v
            cs.append(sorted(m.items()))
        recs.append({"ev": "hist", "job": k, "bad": sum(r["bad"] for r in rs), "runs": sum(r["runs"] for r in rs), "counts": cs})
    return recs


def spread_hist(sp, srecs, h, off, big, min_len=33):
    """Elements of long messages, and their differences at several distances, in 32 buckets."""
    for r in srecs:
        for m in r.get("msgs", []):
            ln = len(m)
            if ln < min_len:
                continue
            for lag in [0] + [x for x in (1, 2, 3, 4, 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048) if x <= ln // 2]:
                c = [0] * 32
                for i in range(ln - lag):
                    c[((m[i] - (m[i + lag] if lag else 0)) % big) * 32 // big] += 1
                h.append({"job": off + r["job"], "mode": "uniform", "name": f"{sp[r['job']]['name']}: message elements at distance {lag}", "cells": 32, "runs": ln - lag, "counts": [x for x in c if x]})


def check_R03(ctx):
    model(ctx)
    model_check(ctx, "mpc/Rep3Privacy", "Rep3Privacy.cfg", timeout=300)
    refuted(ctx, "mpc/Rep3Privacy", "Rep3Privacy_unmasked.cfg")
    refuted(ctx, "mpc/Rep3Privacy", "Rep3Privacy_common.cfg")
    # histories of draws and forks
    r = ctx.rng
    draws = ["maskf", "maskfv", "maske", "maskev", "maskp", "fes", "rand", "els", "ecs", "uint", "seeds", "perm", "sides", "shared", "delta", "own"]
    fresh = []
    for k in range(40 if ctx.quick else 400):
        prog, n = [], 1
        for _ in range(60):
            x = r.randrange(12)
            if x == 0 and n < 6:
                prog.append(st("fork", c=[r.randrange(5)]))
                n += 1
            elif x <= 2:
                prog.append(st("use", c=[r.randrange(n)]))
            else:
                op = draws[k % len(draws)] if x < 5 else r.choice(draws)
                c = {"maskfv": [r.choice([0, 1, 3, 600])], "maskev": [r.choice([0, 1, 5, 600])], "uint": [r.choice([250, 254, 256])], "perm": [r.choice([0, 1, 5, 40, 200])]}.get(op, [])
                prog.append(st(op, c=c))
        fresh.append({"kind": "fresh", "prog": prog})
    fr = run_jobs(ctx, "rep3", fresh, "fresh")
    cov = merge_cov(judge(ctx, "mpc/Rep3FreshTrace", fr, fresh, "fresh"))
    ctx.notes["draws"] = cov
    if [o for o in draws if o not in cov] and not ctx.violations:
        raise ToolError("draws never exercised: " + str([o for o in draws if o not in cov]))
    # what each party sees over a tiny field: uniform where the specification proves it
    jobs = []
    i2 = lambda a, b: st("input", [1, 2], c=[a, b])
    for a, b in ((0, 0), (1, 3), (4, 2)):
        U = [("mul", [i2(a, b), st("mul", [3], [1], [2])], 4), ("mulv", [i2(a, b), st("mulv", [3, 4, 5], [1, 2, 1], [2, 2, 2])], 4), ("mull", [i2(a, b), st("mull", [3, 4, 5], [1, 2, 1], [2, 2, 2])], 4),
             ("cmux", [i2(a, b), st("cmux", [3], [1, 2, 2])], 4), ("addmul", [i2(a, b), st("addmul", [3], [1, 2, 1])], 4), ("axorv", [i2(a, b), st("axorv", [3, 4], [1, 1], [2, 1])], 4),
             ("bitinj", [st("binput", [1, 2], c=[a % 2, b % 2], f=3), st("bitinj", [3], [1])], 4), ("bitinjv", [st("binput", [1, 2], c=[a % 2, b % 2], f=3), st("bitinjv", [3, 4], [1, 2])], 4),
             ("gmul", [st("ginput", [1], c=[a]), st("input", [2], c=[b]), st("gmul", [3], [1], [2])], 2), ("gmulv", [st("ginput", [1], c=[a]), st("input", [2], c=[b]), st("gmulv", [3, 4], [1, 1], [2, 2])], 2)]
        for name, prog, own in U:
            # points: the sampler of the library never draws the neutral element, so their masks are uniform on the others
            jobs.append({"kind": "hist", "p": 5, "name": f"{name} of {a}, {b}", "prog": prog, "watch": [0], "listen": [len(prog) - 1], "own": own, "seed": ctx.seed + len(jobs) * 7,
                         "points": name.startswith("g"), "mode": "same" if name.startswith("g") else "uniform", "group": name, "u": True if name.startswith("b") or name.startswith("g") else "own"})
        for c in range(3):
            jobs.append({"kind": "hist", "p": 5, "name": f"r23 without {c} of {a}, {b}", "prog": [i2(a, b), st("r23", [3, 4], [1, 2], c=[c])], "watch": [0], "listen": [1], "own": 4, "seed": ctx.seed + 900 + c + a,
                         "mode": "uniform", "u": True})
    for k, j in enumerate(jobs):
        j["seed"] = ctx.seed * 1000 + k
    discover(ctx, jobs, "views")
    # the same given all coins of the party and of the one before it, whose generator it knows: what only they contribute masks nothing
    given = []
    for j in jobs:
        if j["mode"] != "uniform" or j["name"].split()[0] not in ("mul", "mulv", "mull", "cmux", "addmul", "axorv", "bitinj", "bitinjv", "r23"):
            continue
        for i in range(3):
            pr = [x for x in j["proj"] if all(q == i for q, _ in x)]
            if pr:
                given.append(dict(j, proj=pr, coins=[i, (i + 2) % 3], coinseed=i + 1, name=f"{j['name']} given the coins of {i} and the party before", seed=ctx.seed * 3000 + len(given)))
    jobs += given
    # the coordinates of points are reshared under a mask each (elements of the base field)
    for a, b in ((1, 3), (2, 2)):
        for f in (0, 1):
            n = 2 if f else 1
            jobs.append({"kind": "hist", "p": 5, "card": 7, "name": f"coordinates of points {[a, b][:n]}", "prog": [st("ginput", [1, 2][:n], c=[a, b][:n], f=1), st("p2f", list(range(3, 3 + 3 * n)), [1, 2][:n], f=f)],
                         "watch": [0], "listen": [1], "own": 2 * n, "seed": ctx.seed * 1000 + len(jobs), "mode": "uniform", "elem": 1, "low": 3, "mayfail": True,
                         "proj": [[[q, 2 * n + x], [q, 2 * n + y]] for q in range(3) for y in range(2 * n) for x in range(y)]})
    runs = 3200 if ctx.quick else 24000
    h = hist_records(jobs, hist_run(ctx, jobs, "views", runs))
    # the same, compared between secrets, for conversions, comparisons and openings
    same = []
    one = lambda v: st("input", [1], c=[v])
    for a, b in ((0, 1), (3, 2), (4, 4)):
        two = st("input", [1, 2], c=[a, b])
        bi = st("binput", [1, 2], c=[a, b], f=1)
        nz = a if a else 2
        S = [("a2b", [one(a), st("a2b", [2], [1])]), ("a2bv", [two, st("a2bv", [3, 4], [1, 2])]), ("b2a", [bi, st("b2a", [3], [1])]), ("b2av", [bi, st("b2av", [3, 4], [1, 2])]),
             ("lt", [two, st("lt", [3], [1], [2])]), ("eq", [two, st("eq", [3], [1], [2])]), ("eqv", [two, st("eqv", [3, 4], [1, 2], [2, 2])]), ("ltp", [two, st("ltp", [3], [1], c=[2])]), ("gep", [two, st("gep", [3], [1], c=[2])]),
             ("band", [bi, st("band", [3], [1], [2])]), ("bandv", [bi, st("bandv", [3, 4], [1, 2], [2, 2])]), ("bor", [bi, st("bor", [3], [1], [2])]), ("bcmux", [bi, st("bcmux", [3], [1, 2, 1])]), ("biszero", [bi, st("biszero", [3], [1])]),
             ("bortree", [bi, st("bortree", [3], [1, 2])]), ("shlps", [bi, st("shlps", [3], [1], c=[3])]),
             ("iszero", [one(nz), st("iszero", a=[1])]), ("mulopen", [st("input", [1, 2], c=[nz, {1: 1, 2: 3, 3: 2, 4: 4}[nz]]), st("mulopen", a=[1], b=[2])]),
             ("mulopenv", [st("input", [1, 2], c=[nz, {1: 1, 2: 3, 3: 2, 4: 4}[nz]]), st("mulopenv", a=[1, 2], b=[2, 1])])]
        for name, prog in S:
            own = 2 * len(prog[0]["d"])
            same.append({"kind": "hist", "p": 5, "name": f"{name} of {a}, {b}", "prog": prog, "watch": [0], "listen": [len(prog) - 1], "own": own, "mode": "same", "group": name, "u": None,
                         "elem": 1 if name in ("mulopen", "mulopenv") else 8, "low": 3, "mayfail": False})
        for name, prog in (("inv", [one(nz), st("inv", [2], [1])]), ("invv", [st("input", [1, 2], c=[nz, 1]), st("invv", [3, 4], [1, 2])]), ("sqrt", [one(1 if a < 2 else 4), st("sqrt", [2], [1])])):
            same.append({"kind": "hist", "p": 5, "name": f"{name} of {nz}", "prog": prog, "watch": [0], "listen": [len(prog) - 1], "own": 2 * len(prog[0]["d"]), "mode": "same", "group": name, "u": None, "elem": 1, "low": 3, "mayfail": True})
    for k, j in enumerate(same):
        j["seed"] = ctx.seed * 2000 + k
    discover(ctx, same, "same")
    groups = {}
    for j in same:
        # keep the number of projections of long protocols bounded
        if len(j["proj"]) > 240:
            j["proj"] = groups.get(j["group"]) or sorted(r.sample(j["proj"], 240 if ctx.quick else min(len(j["proj"]), 1500)))
        groups[j["group"]] = j["proj"]
    h2 = hist_records(same, hist_run(ctx, same, "same", 1600 if ctx.quick else 16000))
    for x in h2:
        x["job"] += len(jobs)
    # long vectors over a larger field: element by element, and at distances
    big, sp = 40961, []
    for ln in (33, 100, 300, 1100, 2600) if ctx.quick else (33, 65, 100, 129, 300, 700, 1100, 2600, 5000, 9000):
        a, d = list(range(1, ln + 1)), list(range(ln + 1, 2 * ln + 1))
        for op, fin in (("mulv", st("mulv", d, a, a)), ("mull", st("mull", d, a, a)), ("mulopenv", st("mulopenv", a=a, b=a)), ("r23", st("r23", d, a, c=[ln % 3])), ("axorv", st("axorv", d, a, a))):
            for k in range(2):
                sp.append({"kind": "hist", "spread": True, "p": big, "seed": ctx.seed * 77 + len(sp), "runs": 1, "watch": [], "listen": [1], "proj": [], "prog": [st("promote", a, c=[1 + k * 7] * ln, f=k), fin], "name": f"{op} of {ln} equal elements"})
    # many elements pooled: biased masks show as a slight shift
    pool = {}
    lots = 4000
    a, d = list(range(1, lots + 1)), list(range(lots + 1, 2 * lots + 1))
    npool = 24 if ctx.quick else 100
    for op in ("mulv", "mull"):
        for k in range(npool):
            sp.append({"kind": "hist", "spread": True, "p": big, "seed": ctx.seed * 991 + k, "runs": 1, "watch": [], "listen": [1], "proj": [], "pool": op, "prog": [st("zero", a[:1]), st(op, d, a[:1] * lots, a[:1] * lots)], "name": op})
    srecs = run_jobs(ctx, "rep3", sp, "spread", timeout=800)
    h3 = []
    spread_hist(sp, [x for x in srecs if "pool" not in sp[x["job"]]], h3, len(jobs) + len(same), big)
    for x in srecs:
        if "pool" in sp[x["job"]]:
            c, last = pool.setdefault(sp[x["job"]]["pool"], ([0] * 16, x["job"]))
            for m in x["msgs"]:
                for v in m:
                    c[v * 16 // big] += 1
    for op, (c, k) in pool.items():
        h3.append({"job": len(jobs) + len(same) + k, "mode": "uniform", "name": f"{op}: message elements over many runs", "cells": 16, "runs": sum(c), "counts": [x for x in c if x]})
    judge(ctx, "mpc/Hist", h + h2 + h3, jobs + same + sp, "views", parts=8)
    ctx.notes["histograms"] = len(h) + len(h2) + len(h3)


# ---------------------------------------------------------------- R04
def check_R04(ctx):
    circuits(ctx)
    model(ctx)
    jobs = []
    for p in (5, 11, 257):
        vals = list(range(p))
        for lo in range(0, p, 32):
            xs = vals[lo:lo + 32]
            n = len(xs)
            a, b, d = list(range(1, n + 1)), list(range(n + 1, 2 * n + 1)), list(range(2 * n + 1, 3 * n + 1))
            for a2b in ("direct", "yao"):
                jobs.append({"kind": "prog", "p": p, "a2b": a2b, "seed": lo + 1, "prog": [st("input", a, c=xs, f=lo // 32 % 3), st("a2bv", b, a, f=0), st("b2av", d, b), st("openv", a=d), st("a2bv", b, a, f=1), st("bopen", a=[b[-1]])]})
                for f in range(4):
                    if p == 257 and ctx.quick and (lo // 32 + f) % 4:
                        continue
                    jobs.append({"kind": "prog", "p": p, "a2b": a2b, "seed": lo + f, "prog": [st("input", a, c=xs)] + [y for k in range(n) for y in (st("a2b", [b[k]], [a[k]], f=f), st("b2a", [d[k]], [b[k]], f=(f + k) % 4), st("a2y2a", [d[k]], [a[k]], f=(f + k + 1) % 4))]})
            jobs.append({"kind": "prog", "p": p, "seed": lo + 1, "prog": [st("input", a, c=xs), st("a2y2av", b, a), st("openv", a=b), st("binput", d, c=xs, f=0), st("b2y2b", a, d, f=lo % 2), st("bopen", a=[a[0]])]})
    # every bit string of the length of the modulus is accepted in binary form below the modulus; single bits with every combination of components
    for p in (5, 257):
        jobs.append({"kind": "prog", "p": p, "seed": 3, "prog": [st("binput", list(range(1, 33)), c=[k % 2 for k in range(32)], f=3), st("bitinjv", list(range(33, 65)), list(range(1, 33))), st("openv", a=list(range(33, 65)))] +
                     [st("bitinj", [100 + k], [k + 1], f=k // 2 % 2) for k in range(32)]})
    # coordinates of points; shares that are the neutral element are refused, so they are avoided
    for p, num in ((257, 3 if ctx.quick else 12), (40961, 2 if ctx.quick else 8)):
        for k in range(num):
            xs = [ctx.rng.randrange(1, p) for _ in range(10)] + [0, 1, p - 1]
            n = len(xs)
            a, b = list(range(1, n + 1)), list(range(n + 1, 4 * n + 1))
            jobs.append({"kind": "prog", "p": p, "seed": k + 1, "prog": [st("ginput", a, c=xs, f=1), st("p2f", b, a, f=1)]})
            jobs.append({"kind": "prog", "p": p, "seed": k + 1, "prog": [st("ginput", a, c=xs, f=1)] + [st("p2f", b[3 * j:3 * j + 3], [a[j]], f=0) for j in range(n)]})
    jobs += prog_jobs(ctx, "conv", [11, 257, 40961], 20 if ctx.quick else 300, 25)
    cov = judge_progs(ctx, jobs, "programs", need=KINDS["conv"] + ("p2f",), parts=8, spur_max=12)
    # empty vectors
    ctx.notes["p2f"] = cov.get("p2f", 0)


# ---------------------------------------------------------------- R05
def check_R05(ctx):
    circuits(ctx)
    jobs = []
    ops2 = ["lt", "le", "gt", "ge", "gebit", "eq", "eqbit", "neq"]
    opsp = ["ltp", "lep", "gtp", "gep", "lepbit", "gepbit", "eqp", "eqbitp", "neqp"]
    for p in (5, 11):
        for a in range(p):
            for a2b in ("direct", "yao"):
                if a2b == "yao" and ctx.quick and a % 3:
                    continue
                bs = list(range(p))
                prog = [st("input", list(range(1, p + 1)), c=bs), st("input", [50], c=[a])]
                d = 60
                for b in range(p):
                    for k, o in enumerate(ops2):
                        if a2b == "yao" and (k + a + b) % 3:
                            continue
                        prog.append(st(o, [d], [50], [b + 1]))
                        d += 1
                    for k, o in enumerate(opsp):
                        if a2b == "yao" and (k + a + b) % 3:
                            continue
                        prog.append(st(o, [d], [50], c=[b]))
                        d += 1
                prog += [st("iszero", a=[50]), st("eqv", list(range(500, 500 + p)), [50] * p, list(range(1, p + 1))), st("eqbitv", list(range(500, 500 + p)), [50] * p, list(range(1, p + 1))),
                         st("eqpv", list(range(500, 500 + p)), list(range(1, p + 1)), c=[a] * p), st("eqbitpv", list(range(500, 500 + p)), list(range(1, p + 1)), c=[a] * p)]
                jobs.append({"kind": "prog", "p": p, "a2b": a2b, "seed": a + 1, "prog": prog})
    for p in (257, 40961):
        sp = [0, 1, 2, p // 2 - 1, p // 2, p // 2 + 1, p - 2, p - 1, 128 if p == 257 else 32768, 255 if p == 257 else 32767]
        for a in sp:
            prog = [st("input", list(range(1, len(sp) + 1)), c=sp), st("input", [50], c=[a])]
            d = 60
            for b in range(len(sp)):
                for o in ops2:
                    prog.append(st(o, [d], [50], [b + 1]))
                    d += 1
                for o in opsp:
                    prog.append(st(o, [d], [50], c=[sp[b]]))
                    d += 1
            jobs.append({"kind": "prog", "p": p, "seed": a + 1, "a2b": "direct", "prog": prog})
        # bit strings: every shift amount, patterns
        W = p.bit_length()
        pats = [0, 1, 2 ** W - 1, 2 ** (W - 1), int("01" * W, 2) % 2 ** W, p - 1, p, ctx.rng.randrange(2 ** W)]
        for x in pats:
            for f in (1, 2):
                prog = [st("binput", [1, 2, 3, 4], c=[x, 2 ** W - 1 - x, 5 % 2 ** W, x], f=f)]
                d = 10
                for s in range(0, W + 2):
                    prog.append(st("bshr", [d], [1], c=[s]))
                    if s + W < 30 and s < W and f == 1:
                        prog.append(st("bshl", [d + 1], [1], c=[s]))
                    d += 2
                for o in ("bxor", "band", "bor"):
                    for y in (1, 2, 3, 4):
                        prog.append(st(o, [d], [1], [y]))
                        d += 1
                for o in ("bxorp", "bandp", "borp"):
                    for y in (0, 1, 2 ** W - 1, x):
                        prog.append(st(o, [d], [1], c=[y]))
                        d += 1
                prog += [st("bcmux", [d], [1, 2, 3]), st("bcmuxv", [d + 1, d + 2], [1, 2, 3, 4, 1, 2]), st("biszero", [d + 3], [1]), st("biszerov", [d + 4, d + 5, d + 6], [1, 2, 4]), st("bortree", [d + 7], [1, 3]), st("bortree", [d + 8], [1, 2, 3, 4, 1]),
                         st("bopen", a=[1]), st("bopen", a=[2], f=1), st("shlps", [d + 9], [1], c=[3])]
                jobs.append({"kind": "prog", "p": p, "seed": x + 1, "prog": prog})
    jobs += prog_jobs(ctx, "cmp", [257, 40961, 11], 15 if ctx.quick else 200, 25)
    jobs += prog_jobs(ctx, "bin", [257, 40961, 11], 25 if ctx.quick else 300, 25)
    judge_progs(ctx, jobs, "programs", need=[o for o in KINDS["cmp"] + KINDS["bin"]] + ["bshl fails"] * 0, parts=8)


# ---------------------------------------------------------------- R07
def check_R07(ctx):
    circuits(ctx)
    jobs = []
    # all operands and parameters over a tiny field
    p, W = 11, 4
    all_ = list(range(p))
    for t in range(1, W + 1):
        for w in range(1, t + 1):
            prog = [st("input", list(range(1, p + 1)), c=all_)]
            nd = -(-t // w)
            o = list(range(100, 100 + nd * p))
            prog += [st("decomp", o, list(range(1, p + 1)), c=[t, w], f=1), st("decomp", o[:nd], [8], c=[t, w], f=0), st("decompo", o, list(range(1, p + 1)), c=[t, w], f=1), st("decompo", o[:nd], [11], c=[t, w], f=0)]
            if not (t == W and w == W):
                o3 = list(range(100, 100 + 3 * nd * p))
                for s in ((0, 3, 7, 10) if ctx.quick else all_):
                    prog += [st("slxor", o3, list(range(1, p + 1)), [s + 1] * p, c=[w, 0, t], f=1), st("sland", o3, list(range(1, p + 1)), [s + 1] * p, c=[w, 0, t], f=1)]
                prog += [st("slxor", o3[:3 * nd], [6], [11], c=[w, 0, t], f=0), st("sland", o3[:3 * nd], [6], [11], c=[w, 0, t], f=0)]
            jobs.append({"kind": "prog", "p": p, "seed": t * 10 + w, "prog": prog})
    prog = [st("input", list(range(1, p + 1)), c=all_)]
    for t in range(1, W + 1):
        o = list(range(100, 100 + p))
        prog += [st("modp2", [100], [x + 1], c=[t]) for x in all_] + ([st("divp2", o, list(range(1, p + 1)), c=[t], f=1), st("divp2", [100], [11], c=[t], f=0)] if t < W else [])
    for hi in range(2, W + 1):
        for mid in range(1, hi):
            for lo in range(0, mid + 1):
                prog += [st("slice", list(range(100, 100 + 2 * p)), list(range(1, p + 1)), c=[lo, mid, hi], f=1), st("slice", [100, 101], [10], c=[lo, mid, hi], f=0)]
    jobs.append({"kind": "prog", "p": p, "seed": 4, "prog": prog})
    for y in range(1, p):
        o = list(range(100, 100 + p))
        a = list(range(1, p + 1))
        jobs.append({"kind": "prog", "p": p, "seed": y, "prog": [st("input", a, c=all_), st("idiv", o, a, [y + 1] * p, f=1), st("idiv", [100], [11], [y + 1], f=0), st("idivp", o, a, c=[y] * p, f=1), st("idivp", [100], [10], c=[y], f=0),
                     st("idivs", o, [y + 1] * p, c=all_, f=1), st("idivs", [100], [y + 1], c=[10], f=0)]})
    for n in range(1, 9 if ctx.quick else 17):
        for k in range(2):
            xs = [ctx.rng.randrange((4, 257)[k]) for _ in range(n)]
            jobs.append({"kind": "prog", "p": 257, "seed": n, "prog": [st("input", list(range(1, n + 1)), c=xs), st("sort", list(range(50, 50 + n)), list(range(1, n + 1)), c=[(9, 2, 5)[n % 3]])]})
    # extreme operands of larger fields
    for p in (257, 40961):
        W = p.bit_length()
        xs = [0, 1, 2, p // 2, p // 2 + 1, p - 2, p - 1, 2 ** (W - 1)]
        n = len(xs)
        a = list(range(1, n + 1))
        for k, y in enumerate(xs[1:]):
            o = list(range(100, 100 + n))
            jobs.append({"kind": "prog", "p": p, "seed": y, "prog": [st("input", a, c=xs), st("idiv", o, a, [k + 2] * n, f=1), st("idivp", o, a, c=[y] * n, f=1), st("idivs", o, [k + 2] * n, c=xs, f=1), st("modp2", [100], [k + 2], c=[W - 1 - k]),
                         st("divp2", o, a, c=[k + 1], f=1), st("decomp", list(range(200, 200 + n * -(-W // (k + 1)))), a, c=[W, k + 1], f=1), st("slice", list(range(200, 200 + 2 * n)), a, c=[k, k + 1, W], f=1)]})
    jobs += prog_jobs(ctx, "gc", [257, 40961, 11], 15 if ctx.quick else 200, 20)
    judge_progs(ctx, jobs, "programs", need=KINDS["gc"], parts=8)


# ---------------------------------------------------------------- R08
def check_R08(ctx):
    model_check(ctx, "mpc/BridgeMC", "BridgeMC.cfg", timeout=300)
    r = ctx.rng
    jobs = []
    for p in (5, 11, 257, 40961):
        for what in ("rep", "repvec", "add", "addvec", "point"):
            if p == 40961 and what == "point":
                continue
            for ln in (0, 1, 2, 3, 10) + ((4097,) if p == 257 and what in ("repvec", "addvec") else ()):
                for k in range(3 if ln < 100 else 1):
                    vals = [r.randrange(p) for _ in range(ln)]
                    if ln and k < 2:
                        vals[0] = (0, p - 1)[k]
                    jobs.append({"kind": "bridge", "what": what, "p": p, "vals": vals, "pre": r.choice([0, 1, 5, 40]), "seed": r.randrange(1 << 30), "short": ln > 100})
            if p == 5:
                for a in range(p):
                    for b in range(p):
                        jobs.append({"kind": "bridge", "what": what, "p": p, "vals": [a, b], "pre": a, "seed": a * 5 + b, "short": False})
    recs = run_jobs(ctx, "rep3", jobs, "bridge")
    ctx.notes["translated"] = merge_cov(judge(ctx, "mpc/BridgeTrace", recs, jobs, "bridge", parts=8))
    # the messages of the translation of additive shares of equal values
    big, sp = 40961, []
    for v in (0, 1, 7):
        for ln in (300, 1100, 2600) if ctx.quick else (300, 700, 1100, 2600, 5000):
            sp.append({"kind": "bridge", "what": "addvec", "spread": True, "p": big, "vals": [v] * ln, "pre": ln, "seed": ctx.seed * 31 + len(sp), "name": f"translation of {ln} times {v}"})
    srecs = run_jobs(ctx, "rep3", sp, "messages")
    h = []
    spread_hist(sp, srecs, h, 0, big)
    if not h and not ctx.violations:
        raise ToolError("no messages of the translation observed")
    judge(ctx, "mpc/Hist", h, sp, "messages")
