"""P01-P04: Groth16 and PLONK."""
from .core import *
from .mpc import *


def check(ctx):
    globals()["check_" + ctx.prop](ctx)
    return finish(ctx, "model_checking")


# ---------------------------------------------------------------- constraint systems
def coef(r, p):
    return r.choice([0, 1, 1, p - 1, 2, r.randrange(p), r.randrange(p)])


def row(r, p, nv, dense):
    k = r.choice([0, 1, 1, 2, 3, 4]) if not dense else nv
    return [[coef(r, p), r.randrange(nv)] for _ in range(k)]


def dot(p, row, z):
    return sum(c * z[v] for c, v in row) % p


def system(r, p, nc, ni, nw, sat):
    """A random system and an assignment; with sat the assignment satisfies it, otherwise exactly some rows fail."""
    nv = ni + nw
    z = [1] + [r.choice([0, 1, p - 1, r.randrange(p), r.randrange(p)]) for _ in range(nv - 1)]
    dense = r.random() < 0.15
    a = [row(r, p, nv, dense) for _ in range(nc)]
    b = [row(r, p, nv, dense) for _ in range(nc)]
    c = []
    bad = set() if sat else set(r.sample(range(nc), 1 if r.random() < 0.6 else r.randrange(1, nc + 1)))
    for k in range(nc):
        w = row(r, p, nv, False)
        miss = (dot(p, a[k], z) * dot(p, b[k], z) - dot(p, w, z)) % p
        if k in bad:
            miss = (miss + r.choice([1, p - 1, r.randrange(1, p)])) % p
        if miss:
            cand = [v for v in range(nv) if z[v]]
            v = r.choice(cand)
            w.insert(r.randrange(len(w) + 1), [miss * pow(z[v], -1, p) % p, v])
        c.append(w)
    return {"p": p, "nc": nc, "ni": ni, "nw": nw, "a": a, "b": b, "c": c, "z": z}


def modes(r, shamir=2):
    l = [{"m": "plain", "n": 1, "t": 0}, {"m": "rep3", "n": 3, "t": 1}]
    for _ in range(shamir):
        t = r.choice([1, 1, 2, 3])
        l.append({"m": "shamir", "n": 2 * t + 1 + r.choice([0, 0, 1, 2]), "t": t})
    return l


def size_of(nc, ni):
    n = 1
    while n < nc + ni:
        n *= 2
    return n


def check_P02(ctx):
    build(ctx, "circom", ["proof"])
    model_check(ctx, "proof/Groth16MC", "Groth16MC.cfg" if ctx.quick else "Groth16MC_thorough.cfg", timeout=800)
    r = ctx.rng
    jobs = []
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (4, 4), (5, 3), (6, 2), (7, 1), (7, 2), (8, 1), (3, 6), (12, 4), (15, 1), (16, 1), (9, 3)]
    for _ in range(3 if ctx.quick else 20):
        for nc, ni in shapes:
            for red in ("circom", "libsnark"):
                p = r.choice([257, 40961])
                j = system(r, p, nc, ni, r.choice([0, 1, 2, 5]) + (1 if r.random() < 0.5 else 0), r.random() < (0.5 if red == "circom" else 0.8))
                j.update(kind="qap", red=red, seed=r.randrange(1 << 30), modes=modes(r))
                jobs.append(j)
    # larger domains, and the largest one the field has; one more row is refused
    for nc, ni in [(30, 2), (60, 4)] + ([(120, 8)] if not ctx.quick else []):
        for red in ("circom", "libsnark"):
            j = system(r, r.choice([257, 40961]), nc, ni, 9, True)
            j.update(kind="qap", red=red, seed=r.randrange(1 << 30), modes=modes(r, 1))
            jobs.append(j)
    for nc, ni in [(254, 2), (255, 2), (256, 3)]:
        for red in ("circom", "libsnark"):
            if nc == 254 and red == "libsnark":
                continue        # the coset of ark's generator meets the domain only in this toy field
            j = system(r, 257, nc, ni, 3, True)
            j.update(kind="qap", red=red, seed=r.randrange(1 << 30), modes=modes(r, 1))
            jobs.append(j)
    r.shuffle(jobs)
    recs = run_jobs(ctx, "proof", jobs, "quotients")
    cov = merge_cov(judge(ctx, "proof/Groth16Trace", recs, jobs, "quotients", parts=8))
    ctx.notes["records"] = cov
    ctx.sample(f"{len(jobs)} systems: " + ", ".join(f"{k} {v}" for k, v in sorted(cov.items())))


# ---------------------------------------------------------------- Groth16
def adicity(p):
    s = 0
    while (p - 1) >> s & 1 == 0:
        s += 1
    return s


def root(p, red, pw):
    s = adicity(p)
    q = 3 if red != "circom" else next(q for q in range(2, p) if pow(q, (p - 1) // 2, p) == p - 1)
    return pow(pow(q, (p - 1) >> s, p), 1 << (s - pw), p)


def basis(p, w, n, x):
    zx = (pow(x, n, p) - 1) % p
    ws = [pow(w, k, p) for k in range(n)]
    if zx == 0:
        return [int(y == x) for y in ws]
    ni = pow(n, -1, p)
    return [zx * ni * y * pow(x - y, -1, p) % p for y in ws]


def setup(p, red, s, t):
    n = size_of(s["nc"], s["ni"])
    pw = n.bit_length() - 1
    L = basis(p, root(p, red, pw), n, t["tau"])
    nv = s["ni"] + s["nw"]

    def col(m, v):
        return sum(L[k] * c for k, rw in enumerate(m) for c, x in rw if x == v) % p
    A = [(col(s["a"], v) + (L[s["nc"] + v] if v < s["ni"] else 0)) % p for v in range(nv)]
    B = [col(s["b"], v) for v in range(nv)]
    C = [col(s["c"], v) for v in range(nv)]
    K = [(t["beta"] * A[v] + t["alpha"] * B[v] + C[v]) % p for v in range(nv)]
    gi, di = pow(t["gamma"], -1, p), pow(t["delta"], -1, p)
    if red == "circom":
        L2 = basis(p, root(p, red, pw + 1), 2 * n, t["tau"])
        hq = [L2[2 * k + 1] * di % p for k in range(n)]
    else:
        zt = pow(t["tau"], n, p) - 1
        hq = [pow(t["tau"], j, p) * zt * di % p for j in range(n - 1)]
    return {"alpha": t["alpha"], "beta1": t["beta"], "beta2": t["beta"], "gamma": t["gamma"], "delta1": t["delta"], "delta2": t["delta"],
            "ic": [k * gi % p for k in K[:s["ni"]]], "lq": [k * di % p for k in K[s["ni"]:]], "aq": A, "bq1": B, "bq2": B, "hq": hq}


def random_key(r, p, red, s):
    n = size_of(s["nc"], s["ni"])
    nv = s["ni"] + s["nw"]
    v = lambda k: [r.choice([0, 1, r.randrange(p), r.randrange(p), r.randrange(p)]) for _ in range(k)]
    nz = lambda: r.randrange(1, p)
    return {"alpha": nz(), "beta1": nz(), "beta2": nz(), "gamma": nz(), "delta1": nz(), "delta2": nz(), "ic": v(s["ni"]), "lq": v(s["nw"]),
            "aq": v(nv), "bq1": v(nv), "bq2": v(nv), "hq": v(n if red == "circom" else n - 1)}


def prove_modes(r, all_modes=True):
    l = [{"m": "plain", "n": 1, "t": 0}, {"m": "rep3", "n": 3, "t": 1}, {"m": "bridge", "n": 3, "t": 1}]
    for _ in range(2):
        t = r.choice([1, 1, 2, 3])
        l.append({"m": "shamir", "n": 2 * t + 1 + r.choice([0, 0, 1, 2]), "t": t})
    return l


def check_P01(ctx):
    build(ctx, "circom", ["proof"])
    model_check(ctx, "proof/Groth16MC", "Groth16MC.cfg" if ctx.quick else "Groth16MC_thorough.cfg", timeout=800)
    r = ctx.rng
    p = 257
    jobs = []
    shapes = [(1, 1), (1, 2), (2, 2), (3, 1), (1, 3), (4, 4), (5, 3), (7, 1), (7, 2), (8, 1), (3, 6), (12, 4)]
    for rnd in range(3 if ctx.quick else 20):
        for nc, ni in shapes:
            for red in ("circom", "libsnark"):
                for kind in ("setup", "random"):
                    nw = r.choice([0, 1, 2, 3, 6, 40])
                    s = system(r, p, nc, ni, nw, r.random() < (0.6 if red == "circom" else 0.8))
                    j = dict(s)
                    j.update(kind="groth16", red=red, seed=r.randrange(1 << 30), modes=prove_modes(r), toxic=[])
                    if kind == "setup":
                        n2 = 2 * size_of(nc, ni)
                        t = {k: r.randrange(1, p) for k in ("alpha", "beta", "gamma", "delta")}
                        t["tau"] = next(x for x in iter(lambda: r.randrange(2, p), 0) if pow(x, n2, p) != 1)
                        j.update(key=setup(p, red, s, t), toxic=[t])
                    else:
                        j.update(key=random_key(r, p, red, s))
                    for dp, dw in r.sample([(1, 0), (-1, 0), (0, 1), (0, -1), (1, -1), (-1, 1), (2, 0), (0, 3)], 3):
                        if ni + dp >= 0 and nw + dw >= 0:
                            for m in r.sample(prove_modes(r), 2):
                                j["modes"].append(dict(m, dp=dp, dw=dw))
                    jobs.append(j)
    # many runs of one statement, to see that the blinding is fresh
    g = 0
    for red in ("circom", "libsnark"):
        s = system(r, p, 2, 1, 2, True)
        j = dict(s, kind="groth16", red=red, seed=r.randrange(1 << 30), modes=[], toxic=[], key=random_key(r, p, red, s))
        for m in prove_modes(r)[:4]:
            g += 1
            j["modes"].append(dict(m, reps=40 if ctx.quick else 120, group=g))
        jobs.append(j)
    r.shuffle(jobs)
    recs = run_jobs(ctx, "proof", jobs, "proofs", timeout=800)
    cov = merge_cov(judge(ctx, "proof/Groth16Trace", recs, jobs, "proofs", parts=8))
    uns = [x for x in recs if x["ev"] == "prove" and x["toxic"] and x["nerr"] == 0 and any(dot(p, a, x["z"]) * dot(p, b, x["z"]) % p != dot(p, c, x["z"]) for a, b, c in zip(x["a"], x["b"], x["c"]))]
    acc = [x for x in uns if x["verdict"] == "accept"]
    # over F_257 the polynomials meet at tau by chance (at most degree / 257); more than that is not chance
    if len({x["job"] for x in acc}) > 3 + len({x["job"] for x in uns}) // 4:
        ctx.violate("unsat", "P01: proofs of assignments that do not satisfy the circuit verify", {"jobs": [jobs[x["job"]] for x in acc[:2]]})
    ctx.notes["records"] = cov
    ctx.notes["unsatisfied"] = {"proofs": len(uns), "accepted_by_chance": len(acc)}
    ctx.sample(f"{len(jobs)} statements, {len(recs)} proofs or refusals; {len(uns)} proofs of false statements, of which {len(acc)} meet by chance")
    ctx.sample(", ".join(f"{k} {v}" for k, v in sorted(cov.items())))


from .plonk import check_P03, check_P04, check_P05  # noqa: E402,F401
