"""PLONK circuits, keys and simulated proofs over F_40961, and the checks P03 and P04."""
from .core import *
from .mpc import *

P = 40961
# the curve y^2 = x^3 + A x + B over F_Q has P points; (1, 34306) generates it
Q, CA, G = 40739, 32838, (1, 34306)


def points():
    """coordinates of k * G for all k; the neutral element has none"""
    tab = [[]]
    x, y = G
    gx, gy = G
    tab.append([x, y])
    for k in range(2, P):
        if k == 2:
            s = (3 * x * x + CA) * pow(2 * y, -1, Q)
        else:
            s = (y - gy) * pow(x - gx, -1, Q)
        x2 = (s * s - x - gx) % Q
        y = (s * (x - x2) - y) % Q
        x = x2
        tab.append([x, y])
    return tab


RC = [0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
      0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A, 0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003,
      0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008]
ROT = [0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14]
M64 = (1 << 64) - 1


def keccak256(m):
    rot = lambda v, r: ((v << r) | (v >> (64 - r))) & M64 if r else v
    m = bytearray(m)
    k = 136 - len(m) % 136
    m += b"\x81" if k == 1 else b"\x01" + bytes(k - 2) + b"\x80"
    a = [0] * 25
    for at in range(0, len(m), 136):
        for j in range(17):
            a[j] ^= int.from_bytes(m[at + 8 * j:at + 8 * j + 8], "little")
        for rc in RC:
            c = [a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20] for x in range(5)]
            d = [c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1) for x in range(5)]
            a = [a[j] ^ d[j % 5] for j in range(25)]
            b = [0] * 25
            for x in range(5):
                for y in range(5):
                    b[y + 5 * ((2 * x + 3 * y) % 5)] = rot(a[x + 5 * y], ROT[x + 5 * y])
            a = [b[j] ^ (~b[(j % 5 + 1) % 5 + 5 * (j // 5)] & b[(j % 5 + 2) % 5 + 5 * (j // 5)] & M64) for j in range(25)]
            a[0] ^= rc
    return b"".join(x.to_bytes(8, "little") for x in a[:4])


def hsh(parts):
    return int.from_bytes(keccak256(b"".join(parts)), "big") % P


n2 = lambda v: v.to_bytes(2, "big")
pt = lambda c: n2(c[0]) + n2(c[1]) if c else bytes(4)


def qroot(pw):
    """snarkjs' root of unity of order 2^pw"""
    q = next(x for x in range(2, P) if pow(x, (P - 1) // 2, P) == P - 1)
    s = 13
    return pow(pow(q, (P - 1) >> s, P), 1 << (s - pw), P)


def signals(c, z):
    s = [0] + list(z[1:])
    for a, b, f, g in c["adds"]:
        s.append((s[a] * f + s[b] * g) % P)
    return s


def gate(c, s, r):
    at = lambda w: s[c["map"][w][r]] if r < len(c["map"][w]) else 0
    a, b, o = at(0), at(1), at(2)
    q = [c["q"][k][r] for k in range(5)]
    return (q[0] * a * b + q[1] * a + q[2] * b + q[3] * o + q[4] - (s[r + 1] if r < c["npub"] else 0)) % P


def satisfied(c):
    s = signals(c, c["z"])
    return all(gate(c, s, r) == 0 for r in range(c["N"]))


def circuit(r, n, npub, sat=True, full=False):
    priv = r.choice([0, 1, 2, 3, 5, 9]) if npub else r.choice([1, 2, 3, 5, 9])
    val = lambda: r.choice([0, 1, P - 1, r.randrange(P), r.randrange(P), r.randrange(P)])
    z = [1] + [val() for _ in range(npub + priv)]
    adds = []
    for k in range(r.choice([0, 0, 1, 2, 4])):
        have = 1 + npub + priv + k
        adds.append([r.randrange(have), r.randrange(have), val(), val()])
    nv = 1 + npub + priv + len(adds)
    rows = n if full else r.randrange(max(npub, 1), n + 1)
    mp = [[], [], []]
    q = [[0] * n for _ in range(5)]
    for k in range(rows):
        if k < npub:
            for w in range(3):
                mp[w].append(k + 1 if w == 0 else 0)
            q[1][k] = 1
        else:
            for w in range(3):
                mp[w].append(r.choice([0, r.randrange(nv), r.randrange(nv), r.randrange(nv)]))
            for i in range(4):
                q[i][k] = r.choice([0, 0, 1, P - 1, r.randrange(P)])
    c = {"N": n, "npub": npub, "nvars": nv, "adds": adds, "map": mp, "q": q, "z": z, "bad": ""}
    s = signals(c, z)
    for k in range(npub, rows):
        v = gate(c, s, k)
        o = s[mp[2][k]]
        if v and o and r.random() < 0.5:
            q[3][k] = (q[3][k] - v * pow(o, -1, P)) % P
        else:
            q[4][k] = (q[4][k] - v) % P
    if not sat:
        if rows == npub or r.random() < 0.2:
            k = r.randrange(n)
        else:
            k = r.randrange(npub, rows)
        q[4][k] = (q[4][k] + r.choice([1, P - 1, r.randrange(1, P)])) % P
    w4 = qroot(n.bit_length() + 1)
    w = pow(w4, 4, P)
    inh = lambda x: pow(x, n, P) == 1
    while True:
        k1, k2 = r.choice([2, r.randrange(2, P)]), r.choice([3, r.randrange(2, P)])
        if not inh(k1) and not inh(k2) and not inh(k1 * pow(k2, -1, P)):
            break
    tau = next(t for t in iter(lambda: r.randrange(2, P), 0) if pow(t, 4 * n, P) != 1)
    # every position is sent to the previous one with the same signal
    sig = lambda w, i: mp[w][i] if i < rows else 0
    pos = {}
    for i in range(n):
        for x in range(3):
            pos.setdefault(sig(x, i), []).append((x, i))
    sv = [[0] * n for _ in range(3)]
    ks = [1, k1, k2]
    for l in pos.values():
        for k, (x, i) in enumerate(l):
            y, m = l[k - 1]
            sv[x][i] = ks[y] * pow(w, m, P) % P
    c.update(k1=k1, k2=k2, tau=tau, s=sv, w4=w4)
    return c


def pmodes(r, shamir=1):
    l = [{"m": "plain", "n": 1, "t": 0}, {"m": "rep3", "n": 3, "t": 1}]
    for _ in range(shamir):
        t = r.choice([1, 1, 1, 2])
        l.append({"m": "shamir", "n": 2 * t + 1 + r.choice([0, 0, 1]), "t": t})
    return l


def check_P03(ctx):
    build(ctx, "circom", ["proof"])
    model_check(ctx, "proof/KeccakMC", "KeccakMC.cfg", timeout=300)
    model_check(ctx, "proof/PlonkMC", "PlonkMC.cfg" if ctx.quick else "PlonkMC_thorough.cfg", timeout=800)
    r = ctx.rng
    jobs = []

    def add(c, modes, **kw):
        jobs.append(dict(c, kind="plonk", seed=r.randrange(1 << 30), modes=modes, **kw))
    shapes = [(8, 1), (8, 2), (8, 0), (8, 8), (8, 3), (16, 1), (16, 4), (16, 0), (32, 2), (64, 5)]
    for rnd in range(2 if ctx.quick else 16):
        for n, npub in shapes:
            ms = pmodes(r)
            if n > 16 and rnd % 2:
                ms = ms[:2]
            add(circuit(r, n, npub, True, r.random() < 0.4), ms)
        for n, npub in shapes[:7]:
            add(circuit(r, n, npub, False, r.random() < 0.4), pmodes(r)[r.randrange(2):])
    # wrong lengths of public inputs or witness
    for rnd in range(2 if ctx.quick else 8):
        c = circuit(r, 8, r.choice([1, 2, 3]), True)
        nw = len(c["z"]) - 1 - c["npub"]
        ms = []
        for dp, dw in [(1, 0), (-1, 0), (0, 1), (0, -1), (1, -1), (-1, 1), (-c["npub"] - 1, 0), (0, 3)]:
            if nw + dw >= 0:
                ms.append(dict(r.choice(pmodes(r)), dp=dp, dw=dw))
        add(c, ms)
    # malformed keys
    for rnd in range(1 if ctx.quick else 4):
        for bad in ("wire index", "wire index", "addition index", "addition order", "domain 0", "domain 12", "domain large", "constraints"):
            c = circuit(r, 8, 2, True, True)
            ms = pmodes(r)
            if bad == "wire index":
                c["map"][r.randrange(3)][r.randrange(2, 8)] = c["nvars"] + r.choice([0, 0, 1, 1 << 20])
            elif bad == "addition index":
                c["adds"].append([1, c["nvars"] + r.choice([2, 5, 1 << 20]), 3, 4])
                c["nvars"] += 1
            elif bad == "addition order":
                # refers to itself or to a later one
                c["adds"] += [[c["nvars"] + r.choice([0, 1]), 1, 3, 4], [1, 2, 1, 1]]
                c["nvars"] += 2
            elif bad == "constraints":
                # more of them than rows
                for w in range(3):
                    c["map"][w] = c["map"][w] + [0] * (9 - len(c["map"][w]))
            else:
                c["domain"] = {"domain 0": 0, "domain 12": 12, "domain large": 1 << 20}[bad]
                ms = ms[:2]
            c["bad"] = bad
            add(c, ms)
    # many runs of one statement
    g = 0
    for m in pmodes(r):
        g += 1
        add(circuit(r, 8, 1, True), [dict(m, reps=30 if ctx.quick else 60, group=g)])
    r.shuffle(jobs)
    recs = run_jobs(ctx, "proof", jobs, "plonk", timeout=800)
    cov = merge_cov(judge(ctx, "proof/PlonkTrace", recs, jobs, "plonk", parts=8))
    uns = [x for x in recs if x["bad"] == "" and x["nerr"] == 0 and x["dp"] == 0 and x["dw"] == 0 and not satisfied(jobs[x["job"]])]
    acc = [x for x in uns if x["cases"][0]["verdict"] == "accept"]
    # chance: the degree of the polynomials over 40961, below 1/100
    if len(acc) > 3 + len(uns) // 10:
        ctx.violate("unsat", "P03: proofs of assignments that do not satisfy the circuit verify", {"jobs": [jobs[x["job"]] for x in acc[:2]]})
    ctx.notes["records"] = cov
    ctx.notes["unsatisfied"] = {"proofs": len(uns), "accepted_by_chance": len(acc)}
    ctx.sample(f"{len(jobs)} statements, {len(recs)} proofs or refusals; {len(uns)} proofs of false statements, {len(acc)} accepted by chance")
    ctx.sample(", ".join(f"{k} {v}" for k, v in sorted(cov.items())))


# ---------------------------------------------------------------- P04
def challenges(xy, vk, pub, prf):
    ev = b"".join(n2(v) for v in prf[9:])
    beta = hsh([pt(xy[v]) for v in vk["pts"]] + [n2(v) for v in pub] + [pt(xy[v]) for v in prf[:3]])
    gamma = hsh([n2(beta)])
    alpha = hsh([n2(beta), n2(gamma), pt(xy[prf[3]])])
    xi = hsh([n2(alpha)] + [pt(xy[v]) for v in prf[4:7]])
    v = hsh([n2(xi), ev])
    return beta, gamma, alpha, xi, v


def simulate(r, xy, vk):
    """public inputs and a proof that satisfies the verification equation, from the knowledge of tau"""
    inv = lambda x: pow(x, -1, P)
    val = lambda: r.choice([0, 1, P - 1] + [r.randrange(P)] * 7)
    tau, n = vk["x2"], 1 << vk["power"]
    w = qroot(vk["power"])
    while True:
        pub = [val() for _ in range(vk["npub"])]
        prf = [val() for _ in range(7)] + [0, 0] + [val() for _ in range(6)]
        beta, gamma, alpha, xi, v = challenges(xy, vk, pub, prf)
        xn = pow(xi, n, P)
        if xn == 1 or xi == tau or xi * w % P == tau:
            continue
        q = vk["pts"]
        a, b, c, s1, s2, zw = prf[9:]
        l = [pow(w, j, P) * (xn - 1) * inv(n * (xi - pow(w, j, P))) % P for j in range(max(1, vk["npub"]))]
        pi = -sum(x * y for x, y in zip(l, pub))
        num = (a + beta * xi + gamma) * (b + beta * vk["k1"] * xi + gamma) * (c + beta * vk["k2"] * xi + gamma)
        den = (a + beta * s1 + gamma) * (b + beta * s2 + gamma)
        rr = (q[0] * a * b + q[1] * a + q[2] * b + q[3] * c + q[4] + pi
              + alpha * (num * prf[3] - den * zw * (c + beta * q[7] + gamma)) + alpha * alpha * l[0] * (prf[3] - 1)
              - (xn - 1) * (prf[4] + xn * prf[5] + xn * xn * prf[6]))
        vals = [prf[0], prf[1], prf[2], q[5], q[6]]
        f = rr + sum(pow(v, k + 1, P) * (vals[k] - prf[9 + k]) for k in range(5))
        prf[7] = f * inv(tau - xi) % P
        prf[8] = (prf[3] - zw) * inv(tau - xi * w) % P
        return pub, prf


def muts(r, npub, k):
    l = [{"k": "proof", "i": i, "d": r.choice([1, P - 1, r.randrange(1, P)])} for i in range(15)]
    l += [{"k": "zero", "i": i, "d": 0} for i in range(15)]
    l += [{"k": "swap", "i": i, "d": j} for i in range(9) for j in range(i)] + [{"k": "swap", "i": i, "d": j} for i in range(9, 15) for j in range(9, i)]
    l += [{"k": "copy", "i": i, "d": j} for i in range(9) for j in range(9) if i != j] + [{"k": "neg", "i": i, "d": 0} for i in range(9)]
    l = r.sample(l, min(k, len(l)))
    # several components at once: all, all points, the commitments of one round, the openings, a few at random
    masks = [0x7FFF, 0x1FF, 0x7E00, 0x7, 0xF, 0x70, 0x180, 0x188, 0x1F8]
    l += [{"k": "mask", "i": 0, "d": m} for m in [0x180] + r.sample(masks, min(len(masks), 1 + k // 4)) + [r.randrange(1, 1 << 15), r.randrange(1, 1 << 9)]]
    l += [{"k": "pub", "i": i, "d": r.choice([1, P - 1, r.randrange(1, P)])} for i in range(npub)]
    l += [{"k": "longer", "d": r.choice([0, 1, r.randrange(P)])}] + ([{"k": "shorter", "d": 0}] if npub else [])
    return l


def apply_mut(m, pub, prf):
    pub, prf = list(pub), list(prf)
    i, d = m.get("i"), m["d"]
    if m["k"] == "proof":
        prf[i] = (prf[i] + d) % P
    elif m["k"] == "zero":
        prf[i] = 0
    elif m["k"] == "mask":
        prf = [0 if d >> j & 1 else x for j, x in enumerate(prf)]
    elif m["k"] == "copy":
        prf[i] = prf[d]
    elif m["k"] == "neg":
        prf[i] = -prf[i] % P
    elif m["k"] == "swap":
        prf[i], prf[d] = prf[d], prf[i]
    elif m["k"] == "pub":
        pub[i] = (pub[i] + d) % P
    elif m["k"] == "longer":
        pub.append(d)
    elif m["k"] == "shorter":
        pub.pop()
    return {"proof": prf, "pub": pub}


def groth_cases(r, p):
    v = lambda: r.choice([0, 1, p - 1] + [r.randrange(p)] * 4)
    nz = lambda: r.randrange(1, p)
    ni = r.choice([0, 1, 1, 2, 3, 6])
    key = {"alpha": v(), "beta2": v(), "gamma": v(), "delta2": nz(), "ic": [v() for _ in range(ni)]}
    key.update(beta1=key["beta2"], delta1=key["delta2"])
    cases = []
    for _ in range(6):
        pub = [v() for _ in range(max(ni - 1, 0))]
        a, b = v(), v()
        ic = sum(x * y for x, y in zip([1] + pub, key["ic"]))
        c = (a * b - key["alpha"] * key["beta2"] - ic * key["gamma"]) * pow(key["delta2"], -1, p) % p
        cases.append({"proof": [a, b, c], "pub": pub})
        for i in range(3):
            q = [a, b, c]
            q[i] = (q[i] + r.choice([1, p - 1, nz()])) % p
            cases.append({"proof": q, "pub": pub})
        cases.append({"proof": [b, a, c], "pub": pub})
        cases.append({"proof": [p - a if a else 0, p - b if b else 0, c], "pub": pub})
        cases.append({"proof": r.sample([a, b, c], 3), "pub": pub})
        for m in range(1, 8):
            cases.append({"proof": [0 if m >> k & 1 else x for k, x in enumerate([a, b, c])], "pub": pub})
        # the trivial ones: those of the key itself, c that cancels one term only
        cases.append({"proof": [key["alpha"], key["beta2"], 0], "pub": pub})
        cases.append({"proof": [key["alpha"], key["beta2"], -ic * key["gamma"] * pow(key["delta2"], -1, p) % p], "pub": pub})
        cases.append({"proof": [a, b, (a * b - key["alpha"] * key["beta2"]) * pow(key["delta2"], -1, p) % p], "pub": pub})
        cases.append({"proof": [a, b, (a * b - ic * key["gamma"]) * pow(key["delta2"], -1, p) % p], "pub": pub})
        for i in range(len(pub)):
            cases.append({"proof": [a, b, c], "pub": pub[:i] + [(pub[i] + r.choice([1, nz()])) % p] + pub[i + 1:]})
        cases.append({"proof": [a, b, c], "pub": pub + [r.choice([0, v()])]})
        cases.append({"proof": [a, b, c], "pub": pub + [0, 0]})
        # a shorter one for which the missing value is zero
        if pub:
            ic0 = sum(x * y for x, y in zip([1] + pub[:-1], key["ic"]))
            c0 = (a * b - key["alpha"] * key["beta2"] - ic0 * key["gamma"]) * pow(key["delta2"], -1, p) % p
            cases += [{"proof": [a, b, c], "pub": pub[:-1]}, {"proof": [a, b, c0], "pub": pub[:-1]}, {"proof": [a, b, c0], "pub": pub[:-1] + [0]}, {"proof": [a, b, c], "pub": []}]
    return key, cases


def check_P04(ctx):
    build(ctx, "circom", ["proof"])
    model_check(ctx, "proof/KeccakMC", "KeccakMC.cfg", timeout=300)
    model_check(ctx, "proof/VerifyMC", "VerifyMC.cfg" if ctx.quick else "VerifyMC_thorough.cfg", timeout=800)
    r = ctx.rng
    jobs = []
    for _ in range(60 if ctx.quick else 600):
        p = r.choice([257, 40961])
        key, cases = groth_cases(r, p)
        jobs.append({"kind": "verify", "p": p, "key": key, "cases": cases})
    recs = run_jobs(ctx, "proof", jobs, "groth16")
    cov = merge_cov(judge(ctx, "proof/Groth16Trace", recs, jobs, "groth16", parts=4))
    ncases = [sum(len(x["cases"]) for x in recs)]
    jobs = []
    xy = points()
    for rnd in range(24 if ctx.quick else 240):
        power = r.choice([0, 1, 2, 3, 3, 4, 5, 8, 11])
        val = lambda: r.choice([0, 1, P - 1] + [r.randrange(P)] * 7)
        npub = r.choice([0, 1, 1, 2, 3, 8])
        vk = {"pts": [val() for _ in range(8)], "k1": val(), "k2": val(), "x2": r.randrange(1, P), "power": power, "npub": npub}
        good = [simulate(r, xy, vk) for _ in range(3)]
        cases = [{"proof": prf, "pub": pub} for pub, prf in good]
        for pub, prf in good:
            cases += [apply_mut(m, pub, prf) for m in muts(r, npub, 8)]
        jobs.append({"kind": "pverify", "vk": vk, "cases": cases, "made": len(good)})
    for rnd in range(8 if ctx.quick else 80):
        n, npub = r.choice([(8, 1), (8, 2), (8, 0), (8, 5), (16, 3), (32, 1)])
        c = circuit(r, n, npub, True)
        jobs.append(dict(c, kind="plonk", seed=r.randrange(1 << 30), modes=[r.choice(pmodes(r))], muts=muts(r, npub, 20)))
    r.shuffle(jobs)
    recs = run_jobs(ctx, "proof", jobs, "plonk", timeout=800)
    recs = [x for x in recs if x["ev"] == "pverify"]
    ncases.append(sum(len(x["cases"]) for x in recs))
    for k, v in merge_cov(judge(ctx, "proof/PlonkTrace", recs, jobs, "plonk", parts=8)).items():
        cov[k] = cov.get(k, 0) + v
    acc = sum(c["verdict"] == "accept" for x in recs for c in x["cases"])
    ctx.notes["records"] = cov
    ctx.notes["verdicts"] = {"groth16": ncases[0], "plonk": ncases[1], "plonk_accepted": acc}
    ctx.sample(f"{ncases[0]} Groth16 and {ncases[1]} PLONK verdicts, {acc} of the PLONK proofs satisfy the equation")


# ---------------------------------------------------------------- P05
def views(ctx):
    """Proofs of one statement several times, and what every party sees."""
    from . import proof as g
    p, r, jobs = 40961, ctx.rng, []
    for rnd in range(1 if ctx.quick else 6):
        for red in ("circom", "libsnark"):
            for nc, ni in [(2, 1), (5, 3)]:
                s = g.system(r, p, nc, ni, r.choice([2, 3, 6]), True)
                key = g.random_key(r, p, red, s)
                for m in ("rep3", "bridge", "shamir"):
                    jobs.append(dict(s, kind="views", sys="groth16", red=red, m=m, key=key, seed=r.randrange(1 << 30)))
        for n, npub in [(8, 1), (8, 3)] + ([] if ctx.quick else [(16, 2)]):
            c = circuit(r, n, npub, True, rnd % 2 == 0)
            for m in ("rep3", "shamir"):
                jobs.append(dict(c, kind="views", sys="plonk", m=m, seed=r.randrange(1 << 30)))
    r.shuffle(jobs)
    recs = run_jobs(ctx, "proof", jobs, "views", timeout=600)
    ctx.notes["views"] = merge_cov(judge(ctx, "proof/ViewsTrace", recs, jobs, "views", parts=8))


def check_P05(ctx):
    build(ctx, "circom", ["proof"])
    model_check(ctx, "proof/GrandMC", "GrandMC.cfg" if ctx.quick else "GrandMC_thorough.cfg", timeout=800)
    ok, out = tlc(ctx, "proof/GrandMC", "GrandMC_shared.cfg", timeout=300, count=False)
    if ok or "Hidden is violated" not in out:
        raise ToolError("one mask for all positions is not refuted by the specification\n" + out[-2000:])
    p, r, jobs = 40961, ctx.rng, []

    def add(m, n, t, xs, equal, **kw):
        jobs.append(dict({"kind": "grand", "m": m, "n": n, "t": t, "equal": equal, "inv": r.random() < 0.5, "trivial": r.random() < 0.3, "seed": r.randrange(1 << 30),
                          "a1": xs[0], "a2": xs[1], "a3": xs[2]}, **kw))
    unit = lambda: r.choice([1, p - 1, r.randrange(1, p), r.randrange(1, p), r.randrange(1, p)])
    both = [("rep3", 3, 1), ("shamir", 3, 1)]
    # equal factors at all positions
    for rnd in range(1 if ctx.quick else 10):
        for m, n, t in both:
            for inv in (False, True):
                for trivial in (False, True):
                    add(m, n, t, [[unit()] * 24 for _ in range(3)], True, inv=inv, trivial=trivial)
            for k in (96, 257):
                add(m, n, t, [[unit()] * k for _ in range(3)], True)
    # any factors
    for rnd in range(2 if ctx.quick else 12):
        for m, n, t in both + [("shamir", 4, 1), ("shamir", 5, 2), ("shamir", 6, 2), ("shamir", 7, 3)]:
            for k in (1, 2, 3, 8, r.choice([5, 16, 33, 64])):
                xs = [[unit() for _ in range(k)] for _ in range(3)]
                kw = {}
                if r.random() < 0.3:
                    # the product is zero from some position on, which has no inverse
                    xs[r.randrange(3)][r.randrange(k)] = 0
                    kw["inv"] = False
                add(m, n, t, xs, False, **kw)
    r.shuffle(jobs)
    views(ctx)
    recs = run_jobs(ctx, "proof", jobs, "grand", timeout=600)
    cov = merge_cov(judge(ctx, "proof/GrandTrace", recs, jobs, "grand", parts=8))
    ctx.notes["records"] = cov
    ctx.sample(", ".join(f"{k} {v}" for k, v in sorted(cov.items())))
