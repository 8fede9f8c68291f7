"""G01-G03: Poseidon2, Merkle trees and Bristol circuits."""
from .core import *
from .mpc import *


def check(ctx):
    globals()["check_" + ctx.prop](ctx)
    return finish(ctx, "model_checking")


# ---------------------------------------------------------------- G03
def check_G03(ctx):
    build(ctx, "bristol")
    model_check(ctx, "gadget/BristolMC", "BristolMC.cfg" if ctx.quick else "BristolMC_thorough.cfg", timeout=800)
    r = ctx.rng
    docs = generate(ctx, "gadget/BristolGen", 150 if ctx.quick else 1500, ctx.seed * 10 + 1, 14, {}, tag="DOCS")
    jobs = [{"kind": "circuit", "lines": d} for l in docs for d in l]
    base = "/repo/mpc-core/src/protocols/rep3/yao/bristol_fashion/circuit_files/"
    for name, n in (("aes_128.txt", 256), ("sha256.txt", 768)):
        if os.path.exists(base + name):
            for _ in range(2 if ctx.quick else 6):
                jobs.append({"kind": "file", "name": name, "path": base + name, "x": [r.randrange(2) for _ in range(n)]})
    recs = run_jobs(ctx, "bristol", jobs, "bristol")
    cov = merge_cov(judge(ctx, "gadget/BristolTrace", recs, jobs, "bristol", parts=8))
    ctx.notes["events"] = cov
    if not cov.get("parse.ok") or not cov.get("parse.error") or not cov.get("eval"):
        raise ToolError(f"too little was exercised: {cov}")
    ctx.sample(f"{len(jobs)} descriptions, " + ", ".join(f"{k} {v}" for k, v in sorted(cov.items())))


# ---------------------------------------------------------------- G01, G02
WIDTHS = [2, 3, 4, 8, 12, 16, 20, 24]


def poseidon_params(r, p, t, d, rf1, rf2, rp):
    """A random parameter set; the exponent has to be coprime to p - 1 only for security, not for the definition."""
    v = lambda: r.choice([0, 1, 2, p - 1, p - 2]) if r.random() < 0.15 else r.randrange(p)
    diag = {2: [1, 2], 3: [1, 1, 2]}.get(t) or [v() for _ in range(t)]
    return {"p": p, "t": t, "d": d, "rf1": rf1, "rf2": rf2, "diag": diag, "ext": [[v() for _ in range(t)] for _ in range(rf1 + rf2)], "int": [v() for _ in range(rp)]}


def state_of(r, p, t):
    k = r.random()
    if k < 0.1:
        return [0] * t
    if k < 0.2:
        return [p - 1] * t
    if k < 0.35:
        return [r.choice([0, 1, p - 1]) for _ in range(t)]
    return [r.randrange(p) for _ in range(t)]


def check_G01(ctx):
    build(ctx, "mpc", ["gadget"])
    r = ctx.rng
    model_check(ctx, "gadget/Poseidon2MC", "Poseidon2MC.cfg" if ctx.quick else "Poseidon2MC_thorough.cfg", timeout=800)
    # the published parameter sets
    jobs = [{"kind": "published", "t": t} for t in (2, 3, 4, 16)]
    recs = run_jobs(ctx, "gadget", jobs, "published")
    judge(ctx, "gadget/GrainTrace", recs, jobs, "published", parts=4)
    # permutations
    jobs = []
    rep = 1 if ctx.quick else 5
    for _ in range(rep):
        for t in WIDTHS:
            for d in (3, 5, 7, 9, 11):
                p = r.choice([257, 40961])
                j = poseidon_params(r, p, t, d, r.randrange(0, 4), r.randrange(0, 4), r.randrange(0, 8))
                j.update(kind="perm", seed=r.randrange(1 << 30), states=[state_of(r, p, t) for _ in range(3)],
                         modes=[{"m": "plain", "f": f} for f in ("copy", "place", "rounds")])
                jobs.append(j)
            for forms in (["direct", "pre", "packed", "rounds"], ["directcopy", "precopy", "packedcopy"]):
                p = r.choice([257, 40961])
                k = r.choice([1, 2, 3] if t < 16 else [1, 2])
                j = poseidon_params(r, p, t, 5, r.randrange(1, 3), r.randrange(0, 3), r.randrange(0, 5))
                modes = []
                for f in forms:
                    deg = r.choice([1, 1, 2, 3])
                    n = 2 * deg + 1 + r.choice([0, 0, 1, 2])
                    modes.append({"m": "shamir", "f": f, "n": n, "deg": deg, "buf": r.random() < 0.5, "amount": r.choice([0, 1, 5, 40])})
                    modes.append({"m": "rep3", "f": f})
                modes += [{"m": "rep3", "f": "additive" if "direct" in forms else "additivecopy"}]
                j.update(kind="perm", seed=r.randrange(1 << 30), states=[state_of(r, p, t) for _ in range(k)], modes=modes)
                jobs.append(j)
    # many permutations at once
    for t in (2, 3, 4):
        p = r.choice([257, 40961])
        j = poseidon_params(r, p, t, 5, r.randrange(1, 3), r.randrange(1, 3), r.randrange(1, 4))
        modes = []
        for f in ("direct", "packed", "packedcopy"):
            deg = r.choice([1, 1, 2])
            modes += [{"m": "shamir", "f": f, "n": 2 * deg + 1, "deg": deg, "buf": r.random() < 0.5, "amount": r.choice([0, 1, 40])}, {"m": "rep3", "f": f}]
        modes += [{"m": "rep3", "f": "additive"}]
        j.update(kind="perm", seed=r.randrange(1 << 30), states=[state_of(r, p, t) for _ in range(r.choice([5, 8, 9, 17, 33]))], modes=modes)
        jobs.append(j)
    # the variants that record the values a Circom witness needs
    for t in (2, 3, 4, 16):
        for rr in range(1 if ctx.quick or t == 16 else 3):
            p = r.choice([257, 40961])
            k = 1 if t == 16 and ctx.quick else r.choice([2, 3])
            j = poseidon_params(r, p, t, 5, 4, 4, 57 if t == 16 else 56)
            modes = [{"m": "plaincircom", "f": ""}]
            for f in ("circom", "circompacked", "circomvec"):
                modes += [{"m": "shamir", "f": f, "n": 3, "deg": 1, "buf": True, "amount": 1}, {"m": "rep3", "f": f}]
            j.update(kind="perm", seed=r.randrange(1 << 30), states=[state_of(r, p, t) for _ in range(k)], modes=modes)
            jobs.append(j)
        if t < 16:
            p = r.choice([257, 40961])
            j = poseidon_params(r, p, t, 5, 4, 4, 56)
            modes = [{"m": "plaincircom", "f": ""}] + [{"m": "shamir", "f": "circomvec", "n": 3, "deg": 1, "buf": True, "amount": 1}, {"m": "rep3", "f": "circomvec"}]
            j.update(kind="perm", seed=r.randrange(1 << 30), states=[state_of(r, p, t) for _ in range(r.choice([5, 6, 9]))], modes=modes)
            jobs.append(j)
    r.shuffle(jobs)
    recs = run_jobs(ctx, "gadget", jobs, "permutations")
    cov = merge_cov(judge(ctx, "gadget/Poseidon2Trace", recs, jobs, "permutations", parts=8))
    ctx.notes["forms"] = cov
    ctx.sample(f"{len(jobs)} parameter sets, {len(recs)} evaluations: " + ", ".join(f"{k} {v}" for k, v in sorted(cov.items())))


EDITS = ["leaf", "leafof", "root", "other", "pos", "swap", "pop", "dup", "short", "long"]


def check_G02(ctx):
    build(ctx, "mpc", ["gadget"])
    r = ctx.rng
    model_check(ctx, "gadget/MerkleMC", "MerkleMC.cfg", timeout=600)
    model_check(ctx, "gadget/MerkleMC", "MerkleMC_thorough.cfg", timeout=600)
    jobs = []
    combos = [(t, a, m) for t in (2, 3, 4, 8, 12, 16) for a in (2, 3, 4, 8) for m in ("sponge", "compression") if (a < t or (a == t and m == "compression"))]
    for rnd in range(1 if ctx.quick else 6):
        for t, a, m in combos:
            heights = {2: [1, 2, 3, 4], 3: [1, 2, 3], 4: [1, 2], 8: [1, 2]}[a]
            for h in heights:
                if ctx.quick and t >= 12 and a ** h > 16:
                    continue
                p = r.choice([257, 40961])
                n = a ** h
                small_field = r.random() < 0.3
                leaves = [r.randrange(3) if small_field else r.randrange(p) for _ in range(n)]
                j = poseidon_params(r, p, t, 5, r.choice([1, 1, 2]), r.choice([0, 1]), r.randrange(0, 4))
                tests = []
                for e in [None] + EDITS + [r.choice(EDITS) for _ in range(2)]:
                    es = [] if e is None else [e] + ([r.choice(EDITS)] if r.random() < 0.2 else [])
                    def val():
                        return r.choice(leaves + [r.randrange(p)])
                    edits = [{"op": x, "a": r.randrange(64), "c": r.randrange(a + 1) if x == "pos" else r.randrange(64), "v": val()} for x in es]
                    if any(x in ("short", "long") for x in es):
                        # the first element fixes the arity that the verifier assumes: alter it only where a width is left
                        for x in edits:
                            if x["op"] in ("short", "long") and (h == 1 or (x["op"] == "long" and a >= t - 1)):
                                x.update(op="leaf")
                            elif x["op"] in ("short", "long"):
                                x["a"] = 1 + r.randrange(h - 1)
                    tests.append({"i": r.randrange(n), "edits": edits})
                shared = [{"m": "rep3"}]
                deg = r.choice([1, 1, 2])
                shared.append({"m": "shamir", "deg": deg, "n": 2 * deg + 1 + r.choice([0, 1])})
                if ctx.quick and n * t > 150:
                    shared = shared[1:]
                j.update(kind="merkle", tree=m, arity=a, leaves=leaves, idx=list(range(n)) if n <= 9 else sorted(r.sample(range(n), 6)), tests=tests, shared=shared, seed=r.randrange(1 << 30))
                jobs.append(j)
    # tall trees: what a level does must not depend on how many hashes it has
    for k, m in enumerate(("sponge", "compression")):
        for h in ([7] if ctx.quick else [7, 8]):
            p, n = 257, 2 ** h
            j = poseidon_params(r, p, 3 if k == 0 else 2, 5, 1, 0, 1)
            leaves = [r.randrange(p) for _ in range(n)]
            tests = [{"i": r.randrange(n), "edits": []}, {"i": r.randrange(n), "edits": [{"op": "leaf", "a": 0, "c": 0, "v": r.randrange(p)}]}]
            j.update(kind="merkle", tree=m, arity=2, leaves=leaves, idx=[0, n - 1, r.randrange(n)], tests=tests, shared=[{"m": "rep3"}, {"m": "shamir", "deg": 1, "n": 3}], seed=r.randrange(1 << 30))
            jobs.append(j)
    r.shuffle(jobs)
    recs = run_jobs(ctx, "gadget", jobs, "trees")
    cov = merge_cov(judge(ctx, "gadget/Poseidon2Trace", recs, jobs, "trees", parts=8))
    ctx.notes["forms"] = cov
    acc = sum(1 for x in recs if x["ev"] == "merkle" for y in x["tests"] if y["res"] == "yes")
    rej = sum(1 for x in recs if x["ev"] == "merkle" for y in x["tests"] if y["res"] == "no")
    if not acc or not rej:
        raise ToolError("no accepted or no rejected path")
    ctx.sample(f"{len(jobs)} trees, {acc} accepted and {rej} refused paths, " + ", ".join(f"{k} {v}" for k, v in sorted(cov.items())))
