"""R06, R09: replicated ring sharing; one-hot vectors, lookup tables and sorting on shared values."""
from .core import *
from .mpc import *

BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617
BNQ = 21888242871839275222246405745257275088696311157297823662689037894645226208583
FIELD = {257: 257, 40961: 40961, 0: BN}
BASE = {257: 227, 40961: 40739, 0: BNQ}
WIDTHS = (1, 8, 16, 32, 64, 128)


def nbytes(k):
    return (k + 7) // 8


def le(x, n):
    return list(x.to_bytes(n, "little"))


def rb(x, k):
    return le(x % (1 << k), nbytes(k))


def fb(x, p):
    m = FIELD[p]
    return le(x % m, nbytes(m.bit_length()))


class Prog:
    """A program under construction; remembers the values of registers only where operand preconditions need it."""

    def __init__(self, rng):
        self.rng, self.steps, self.n = rng, [], 0

    def new(self, k=1):
        r = list(range(self.n + 1, self.n + k + 1))
        self.n += k
        return r

    def do(self, op, a=(), b=(), c=(), w=(), k=8, k2=8, f=0, outs=1):
        d = self.new(outs)
        self.steps.append({"op": op, "k": k, "k2": k2, "d": d, "a": list(a), "b": list(b), "c": list(c), "w": [list(x) for x in w], "f": f})
        return list(d)

    def ring(self, k, xs, f=0):
        return self.do("rinput", w=[rb(x, k) for x in xs], k=k, f=f, outs=len(xs))

    def bits(self, k, xs, f=0):
        return self.do("xinput", w=[rb(x, k) for x in xs], k=k, f=f, outs=len(xs))

    def field(self, p, xs):
        return self.do("finput", w=[fb(x, p) for x in xs], outs=len(xs))

    def points(self, p, xs):
        return self.do("ginput", w=[fb(x, p) for x in xs], outs=len(xs))


def job(ctx, p, pr, k):
    return {"p": p, "a2b": ("direct", "yao")[k % 2], "seed": ctx.seed * 1000 + k, "prog": pr.steps}


def edge(rng, k):
    """A number of k bits, with a preference for the ends of the range."""
    m = 1 << k
    return rng.choice([0, 1, m - 1, m // 2, m // 2 - 1, m // 2 + 1, rng.randrange(m), rng.randrange(m), rng.randrange(m), 1 << rng.randrange(k), rng.randrange(m) >> rng.randrange(k)]) % m


def arith(rng, k):
    """Arithmetic, comparisons and bit operations of one ring."""
    P = Prog(rng)
    v = lambda: rb(edge(rng, k), k)
    x = P.ring(k, [edge(rng, k) for _ in range(6)], f=rng.randrange(2))
    y = P.bits(k, [edge(rng, k) for _ in range(6)], f=rng.randrange(2))
    if rng.random() < 0.5:
        x += P.ring(k, [int.from_bytes(bytes(P.steps[0]["w"][0]), "little")])
    pick, pickb = (lambda n: [rng.choice(x) for _ in range(n)]), (lambda n: [rng.choice(y) for _ in range(n)])
    zo = P.ring(k, [rng.randrange(2) for _ in range(4)])
    for op in rng.sample(["radd", "rsub", "raddp", "rsubsp", "rsubps", "rmulp", "rneg", "rdbl", "rpromote", "raddmulp", "raddmul", "rmul", "rmulv", "rmull", "rmull1", "raddv", "rsubv",
                          "rcmux", "rrand", "rpow", "rpow2", "raxor", "raxorv", "cmp", "cmp", "cmp", "riszero", "ropenv", "rmulopen", "rmulopenv",
                          "xxor", "xxorp", "xor", "xorp", "xand", "xandv", "xandp", "xshr", "xshl", "xnot", "xpromote", "xcmux", "xortree", "xiszero", "xget", "xopen",
                          "a2b", "a2bv", "b2a", "b2av", "inj", "injbit", "a2y2a", "b2y2b"], 24):
        f = rng.randrange(6)
        n = rng.choice([0, 1, 2, 3, 5])
        if op in ("radd", "rsub"):
            x += P.do(op, pick(1), pick(1), k=k, f=f)
        elif op in ("raddp", "rsubsp", "rsubps", "rmulp"):
            x += P.do(op, pick(1), w=[v()], k=k, f=f % (4 if op == "rmulp" else 2))
        elif op in ("rneg", "rdbl"):
            x += P.do(op, pick(1), k=k, f=f % 2)
        elif op == "rpromote":
            x += P.do(op, w=[v() for _ in range(n)], k=k, f=f % 2, outs=n)
        elif op == "raddmulp":
            x += P.do(op, pick(2), w=[v()], k=k)
        elif op == "raddmul":
            x += P.do(op, pick(3), k=k)
        elif op in ("rmul", "rmull1"):
            x += P.do(op, pick(1), pick(1), k=k)
        elif op in ("rmulv", "rmull", "raddv", "rsubv"):
            x += P.do(op, pick(n), pick(n), k=k, outs=n)
        elif op == "rcmux":
            x += P.do(op, [rng.choice(zo)] + pick(2), k=k)
        elif op == "rrand":
            x += P.do(op, k=k)
        elif op == "rpow":
            x += P.do(op, pick(1), w=[v()], k=k)
        elif op == "rpow2":
            x += P.do(op, pick(1), w=[rb(rng.randrange(k), k)], k=k)
        elif op == "raxor":
            zo += P.do(op, [rng.choice(zo)], [rng.choice(zo)], k=k)
        elif op == "raxorv":
            zo += P.do(op, [rng.choice(zo) for _ in range(n)], [rng.choice(zo) for _ in range(n)], k=k, outs=n)
        elif op == "cmp":
            o = rng.choice(["rlt", "rle", "rgt", "rge", "req", "rneq"])
            f = f % 2
            a = rng.choice(x)
            bit = P.do(o, [a], [a if rng.random() < 0.2 else rng.choice(x)] if f == 0 else [], w=[] if f == 0 else [v()], k=k, f=f)
            if rng.random() < 0.3:
                P.do("xopen", bit, k=1, outs=0, f=f)
        elif op in ("riszero",):
            P.do(op, pick(1), k=k, outs=0)
            P.do(op, P.ring(k, [0]), k=k, outs=0)
        elif op == "ropenv":
            P.do(op, pick(n), k=k, outs=0)
            P.do("ropen", pick(1), k=k, outs=0)
        elif op == "rmulopen":
            P.do(op, pick(1), pick(1), k=k, outs=0)
        elif op == "rmulopenv":
            P.do(op, pick(n), pick(n), k=k, outs=0)
        elif op == "xxor":
            y += P.do(op, pickb(1), pickb(1), k=k, f=f % 4)
        elif op in ("xor", "xand"):
            y += P.do(op, pickb(1), pickb(1), k=k)
        elif op in ("xxorp", "xorp", "xandp"):
            y += P.do(op, pickb(1), w=[v()], k=k, f=f % 2)
        elif op == "xandv":
            y += P.do(op, pickb(n), pickb(n), k=k, outs=n)
        elif op in ("xshr", "xshl"):
            s = rng.randrange(k)
            y += P.do(op, pickb(1), c=[s], w=[rb(s, k)], k=k, f=f % 2)
        elif op == "xnot":
            y += P.do(op, pickb(1), k=k)
        elif op == "xpromote":
            y += P.do(op, w=[v()], k=k)
        elif op == "xcmux":
            y += P.do(op, pickb(3), k=k)
        elif op == "xortree":
            y += P.do(op, pickb(rng.randrange(1, 9)), k=k)
        elif op == "xiszero":
            P.do(op, [rng.choice(y + P.bits(k, [0]))], k=k)
        elif op == "xget":
            P.do(op, pickb(1), c=[rng.randrange(k)], k=k)
        elif op == "xopen":
            P.do(op, pickb(1), k=k, f=f % 2, outs=0)
        elif op == "a2b":
            y += P.do(op, pick(1), k=k, f=f % 4)
        elif op == "a2bv":
            y += P.do(op, pick(n), k=k, outs=n)
        elif op == "b2a":
            x += P.do(op, pickb(1), k=k, f=f % 4)
        elif op == "b2av":
            x += P.do(op, pickb(n), k=k, outs=n)
        elif op == "inj":
            m = 1 if f % 2 == 0 else n
            zo += P.do(op, P.bits(k, [rng.randrange(2) for _ in range(m)], f=2), k=k, f=f % 2, outs=m)
        elif op == "injbit":
            m = 1 if f % 2 == 0 else n
            zo += P.do(op, P.bits(1, [rng.randrange(2) for _ in range(m)]), k=k, f=f % 2, outs=m)
        elif op == "a2y2a":
            x += P.do(op, pick(1), k=k, f=f % 4)
        elif op == "b2y2b":
            m = 1 if f % 2 == 0 else max(n, 1)
            y += P.do(op, pickb(m), k=k, f=f % 2, outs=m)
    P.do("ropenv", x[-12:], k=k, outs=0)
    return P


def pairs(rng, k):
    """All arithmetic on every pair of edge values of one ring."""
    P = Prog(rng)
    m = 1 << k
    vals = sorted({0, 1, m - 1, m // 2, m // 2 - 1})
    vals = [z for z in vals if 0 <= z < m]
    x = P.ring(k, vals)
    for i, a in enumerate(x):
        for j, b in enumerate(x):
            for op in ("rlt", "rle", "rgt", "rge", "req", "rneq"):
                P.do(op, [a], [b] if (i + j) % 2 else [], w=[] if (i + j) % 2 else [rb(vals[j], k)], k=k, f=1 - (i + j) % 2)
    return P


def conv(rng, p, k):
    """Conversions between rings and fields, division and decomposition."""
    P = Prog(rng)
    m, bits = FIELD[p], FIELD[p].bit_length()
    f, n = rng.randrange(4), rng.choice([1, 2, 3])
    if k < bits:
        x = P.ring(k, [edge(rng, k) for _ in range(4)])
        P.do("r2f", x[:1], k=k, f=0)
        P.do("r2f", x[1:2], k=k, f=1)
        P.do("r2f", x[:n], k=k, f=2, outs=n)
        P.do("r2f", x[1:1 + n], k=k, f=3, outs=n)
    elif k > bits:
        x = P.ring(k, [rng.choice([0, 1, m - 1, rng.randrange(m)]) for _ in range(4)])
        P.do("r2fbig", x[:1], k=k, f=0)
        P.do("r2fbig", x[1:1 + n], k=k, f=1, outs=n)
    y = P.field(p, [rng.choice([0, 1, m - 1, m // 2, rng.randrange(m), rng.randrange(m)]) for _ in range(4)])
    P.do("f2r", y[:1], k=k, f=1)
    P.do("f2r", y[:n], k=k, f=2, outs=n)
    if k <= bits:
        P.do("f2r", y[1:2], k=k, f=0)
        P.do("f2r", y[1:1 + n], k=k, f=3, outs=n)
    # pieces of a field element
    ln = rng.randrange(1, min(k, bits) + 1) if k > 1 else 1
    num = rng.randrange(1, min((bits + ln - 1) // ln, 12) + 1)
    P.do("decomp", y[:1], c=[num, ln], k=k, f=0, outs=num)
    P.do("decomp", y[:n], c=[num, ln], k=k, f=1, outs=num * n)
    b = P.bits(1, [rng.randrange(2) for _ in range(n)])
    P.do("bits2f", b, k=1, outs=n)
    return P


def division(rng, p, k):
    P = Prog(rng)
    n = rng.choice([1, 2])
    m = 1 << k
    xs = [edge(rng, k) for _ in range(n)]
    ys = [rng.choice([1, 2, 3, m - 1, m // 2, rng.randrange(1, m), rng.randrange(1, m) >> rng.randrange(k) or 1]) % m or 1 for _ in range(n)]
    x, y = P.ring(k, xs), P.ring(k, ys)
    P.do("divp2", x, c=[rng.choice([0, 1, rng.randrange(k + 1), k - 1, k, k + 3])], k=k, f=1, outs=n)
    P.do("divp2", x[:1], c=[rng.randrange(k + 1)], k=k, f=0)
    P.do("div", x, y, k=k, f=1, outs=n)
    P.do("div", x[:1], y[-1:], k=k, f=0)
    P.do("divsp", x, w=[rb(z, k) for z in ys], k=k, f=1, outs=n)
    P.do("divsp", x[:1], w=[rb(ys[-1], k)], k=k, f=0)
    P.do("divps", b=y, w=[rb(z, k) for z in xs], k=k, f=1, outs=n)
    P.do("divps", b=y[:1], w=[rb(xs[-1], k)], k=k, f=0)
    bits = FIELD[p].bit_length()
    if 8 <= k <= 64:
        ln = rng.choice([z for z in range(1, bits) if (k + z - 1) // z <= 16])
        num = (k + ln - 1) // ln
        P.do("divlimbs", x, c=[num, ln], w=[le(ys[0], 64)], k=k, f=1, outs=2 * num * n)
        if k < bits:
            P.do("divlimbs", x[:1], c=[1, k], w=[le(ys[0], 64)], k=k, f=0, outs=2)
    return P


def wide(rng, p):
    """Quotient in limbs of one field, remainder in the other."""
    P = Prog(rng)
    base, bits = BASE[p], FIELD[p].bit_length()
    k = 512 if p == 0 else rng.choice([16, 32]) if p == 257 else 32
    ln = rng.choice([64, 128, 68, 136, 250]) if p == 0 else 8 if p == 257 else rng.choice([8, 15, 16 if bits > 16 else 15])
    num = (k + ln - 1) // ln
    n = rng.choice([1, 2])
    m = 1 << k
    xs = [rng.choice([rng.randrange(m), m - 1, 0, base, base - 1, base * rng.randrange(m // base), rng.randrange(m) >> rng.randrange(k)]) for _ in range(n)]
    x = P.ring(k, xs)
    d = rng.choice([base, base, rng.randrange(1, base)])
    P.do("divfq", x, c=[num, ln], w=[le(d, 64)], k=k, f=1, outs=(num + 1) * n)
    P.do("divfq", x[:1], c=[num, ln], w=[le(d, 64)], k=k, f=0, outs=num + 1)
    if p == 0:
        P.do("divlimbsw", x, c=[num, ln], w=[le(rng.randrange(1, m) >> rng.randrange(400) or 1, 64)], k=k, f=1, outs=2 * num * n)
    return P


def casts(rng, k, k2):
    P = Prog(rng)
    x = P.ring(k, [edge(rng, k) for _ in range(3)], f=rng.randrange(2))
    for f in (0, 1, 2):
        P.do("cast", [x[f]], k=k, k2=k2, f=f)
    if k2 <= k:
        P.do("cast", x[:1], k=k, k2=k2, f=3)
    if k2 > k:
        P.do("cast", x[1:2], k=k, k2=k2, f=4)
        n = rng.choice([1, 2, 3])
        P.do("cast", x[:n], k=k, k2=k2, f=5, outs=n)
    return P


def check(ctx):
    build(ctx, "mpc", ["rep3ring"])
    globals()["check_" + ctx.prop](ctx)
    return finish(ctx, "model_checking")


def run_progs(ctx, jobs, tag, need):
    jobs.sort(key=lambda j: -len(j["prog"]))
    recs = run_jobs(ctx, "rep3ring", jobs, tag)
    cov = merge_cov(judge(ctx, "ring/Ring3Trace", recs, jobs, tag, parts=8))
    ctx.notes[tag] = cov
    miss = [o for o in need if o not in cov]
    if miss and not ctx.violations:
        raise ToolError(f"{tag}: operations never exercised: {miss}")


# ---------------------------------------------------------------- R06
def check_R06(ctx):
    r = ctx.rng
    model_check(ctx, "ring/RingMC", "RingMC.cfg", timeout=400)
    if not ctx.quick:
        model_check(ctx, "ring/RingMC", "RingMC_thorough.cfg", timeout=800)
    t = 1 if ctx.quick else 8
    jobs = []

    def add(p, P):
        jobs.append(job(ctx, p, P, len(jobs) + 1))
    for k in WIDTHS:
        add(257, pairs(r, k))
        for _ in range(8 * t):
            add(257, arith(r, k))
        for p in (257, 40961, 0):
            for _ in range((2 if p else 1) * t):
                add(p, conv(r, p, k))
        for _ in range((3 if k <= 32 else 2 if k <= 64 else 1) * t):
            add(r.choice([257, 40961]), division(r, 257, k))
        for k2 in WIDTHS:
            for _ in range(t):
                add(257, casts(r, k, k2))
    for p in (257, 40961):
        for _ in range(3 * t):
            add(p, wide(r, p))
    for _ in range(1 if ctx.quick else 4):
        add(0, wide(r, 0))
    run_progs(ctx, jobs, "programs", ["radd", "rmul", "rmulv", "rmull", "raddv", "rpow", "rpow2", "raxorv", "xortree", "xiszero", "inj", "injbit", "a2y2a", "b2y2b", "bits2f", "r2fbig", "decomp", "divp2",
                                      "div", "divsp", "divps", "divlimbs", "divlimbsw", "divfq", "riszero", "rmulopenv", "xcmux"] + [f"cast.{f}" for f in range(6)]
              + [f"r2f.{f}" for f in range(4)] + [f"f2r.{f}" for f in range(4)] + [f"{o}.{f}" for o in ("rlt", "rle", "rgt", "rge", "req", "rneq") for f in (0, 1)]
              + [f"{o}.{f}" for o in ("a2b", "b2a") for f in range(4)])


# ---------------------------------------------------------------- R09
def width_for(n, low=False):
    k = max(1, (n - 1).bit_length())
    return next(w for w in (1, 8, 16, 32) if w >= (max(2, k) if low else k))


def tables(rng, p, n):
    """Reads and writes of tables of n entries, in every form."""
    P = Prog(rng)
    m = FIELD[p]
    fe = lambda: rng.choice([0, 1, m - 1, rng.randrange(m), rng.randrange(m)])
    tab = [fb(fe(), p) for _ in range(n)]
    sh = P.do("finput", w=tab, outs=n)
    idx = lambda: rng.choice([0, n - 1, rng.randrange(n)])
    k = rng.choice([w for w in (1, 8, 16, 32) if w >= width_for(n)])
    kl = rng.choice([w for w in (8, 16, 32) if w >= width_for(n)])
    val = P.field(p, [fe()])
    P.do("tread", P.bits(k, [idx()]), w=tab, k=k)
    P.do("treadlow", P.bits(kl, [idx()]), w=tab, k=kl)
    P.do("treadsh", P.bits(k, [idx()]), sh, k=k)
    sh2 = P.do("twrite", P.bits(k, [idx()]) + val, sh, k=k, outs=n)
    lens = [n] + [rng.randrange(1, n + 1) for _ in range(rng.randrange(3))]
    rng.shuffle(lens)
    low = min(lens)
    multi = [fb(fe(), p) for _ in range(sum(lens))]
    P.do("tmulti", P.bits(kl, [rng.choice([idx(), rng.randrange(low)])]), c=lens, w=multi, k=kl, outs=len(lens))
    # providers: the index is a shared field element
    P.do("plread", P.field(p, [idx()]), w=tab)
    P.do("plread", P.field(p, [idx()]), sh2)
    sh3 = P.do("plwrite", P.field(p, [idx()]) + val, sh2, outs=n)
    sh4 = P.do("plwrite", P.field(p, [idx(), fe()]), w=tab, outs=n)
    P.do("plread", P.field(p, [idx()]), sh4)
    P.do("plmulti", P.field(p, [idx()]), c=lens, w=multi, outs=len(lens))
    P.do("plbin", P.do("uinput", w=[le(idx(), 32 if p == 0 else 8)]), w=tab, k=kl)
    for f in (0, 1):
        size = 1 << (n - 1).bit_length()
        e = P.do("plohv", P.field(p, [idx()]), c=[n], f=f, outs=size)
        sh3 = P.do("plwohv", P.field(p, [fe()]), sh3 + e, c=[n], f=f, outs=n)
    P.do("fopen", sh3, outs=0)
    if n > 1:
        k1 = (n - 1).bit_length()
        P.do("ohv", P.bits(k, [rng.randrange(1 << min(k, 8))]), c=[k1], k=k, outs=1 << k1)
        P.do("randohv", c=[k1], k=k, outs=(1 << k1) + 1)
    return P


def curve_tables(rng, p, n):
    P = Prog(rng)
    m = FIELD[p]
    fe = lambda: rng.choice([0, 1, m - 1, rng.randrange(m), rng.randrange(m)])
    tab = [fb(fe(), p) for _ in range(n)]
    sh = P.do("ginput", w=tab, outs=n)
    idx = lambda: rng.choice([0, n - 1, rng.randrange(n)])
    k = rng.choice([w for w in (1, 8, 16, 32) if w >= width_for(n)])
    val = P.points(p, [fe()])
    P.do("gtread", P.bits(k, [idx()]), w=tab, k=k)
    P.do("gtreadsh", P.bits(k, [idx()]), sh, k=k)
    sh2 = P.do("gtwrite", P.bits(k, [idx()]) + val, sh, k=k, outs=n)
    lens = [n] + [rng.randrange(1, n + 1) for _ in range(rng.randrange(3))]
    rng.shuffle(lens)
    multi = [fb(fe(), p) for _ in range(sum(lens))]
    P.do("gtmulti", P.bits(k, [idx()]), c=lens, w=multi, k=k, outs=len(lens))
    P.do("gplread", P.field(p, [idx()]), w=tab)
    P.do("gplread", P.field(p, [idx()]), sh2)
    sh3 = P.do("gplwrite", P.field(p, [idx()]) + val, sh2, outs=n)
    P.do("gplwrite", P.field(p, [idx()]) + val, w=tab, outs=n)
    P.do("gplmulti", P.field(p, [idx()]), c=lens, w=multi, outs=len(lens))
    size = 1 << (n - 1).bit_length()
    e = P.do("plohv", P.field(p, [idx()]), c=[n], f=1, outs=size)
    for f in (0, 1):
        sh3 = P.do("gplwohv", P.points(p, [fe()]), sh3 + e[:n], f=f, outs=n)
    return P


def sorting(rng, p, n, bits, kind):
    P = Prog(rng)
    m = min(1 << bits, FIELD[p])
    key = lambda: rng.choice([0, m - 1, rng.randrange(m), rng.randrange(min(m, 3)), rng.randrange(m)])
    npub = rng.choice([0, n // 2, rng.randrange(n + 1), n if kind == "sortby" else 0])
    priv = P.field(p, [key() for _ in range(n - npub)]) if n - npub else []
    pub = [fb(key(), p) for _ in range(npub)]
    if kind == "sort":
        out = P.do("sort", priv, c=[bits], w=pub, outs=n)
        P.do("fopen", out, outs=0)
    else:
        order = [1] * (n - npub) + [0] * npub
        if rng.random() < 0.7:
            rng.shuffle(order)
        cols = rng.choice([1, 2, 3])
        col = P.field(p, [rng.randrange(FIELD[p]) for _ in range(n * cols)])
        P.do("sortby", priv, col, c=[bits] + order, w=pub, outs=n * cols)
    return P


def check_R09(ctx):
    r = ctx.rng
    model_check(ctx, "ring/SortMC", "SortMC.cfg", timeout=400)
    if not ctx.quick:
        model_check(ctx, "ring/SortMC", "SortMC_thorough.cfg", timeout=800)
    t = 1 if ctx.quick else 6
    jobs = []

    def add(p, P):
        jobs.append(job(ctx, p, P, len(jobs) + 1))
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33] + ([] if ctx.quick else [64, 100, 129]):
        for p in (257, 40961, 0):
            for _ in range(t if p else 1):
                add(p, tables(r, p, n))
        for _ in range(t):
            add(257, curve_tables(r, 257, n))
            if n <= 9:
                add(40961, curve_tables(r, 40961, n))
    for n in [257] + ([] if ctx.quick else [300, 512]):
        add(40961, tables(r, 40961, n))
    for n in [1, 2, 3, 4, 5, 8, 13] + ([] if ctx.quick else [20, 33]):
        for p, bits in ((257, 1), (257, 3), (257, 9), (257, 8), (40961, 16), (40961, 5)) + (((0, 4), (0, 20)) if n <= 5 else ()):
            for kind in ("sort", "sortby"):
                for _ in range(2 if p == 257 else 1):
                    for _ in range(t if n < 20 else 1):
                        add(p, sorting(r, p, n, bits, kind))
    run_progs(ctx, jobs, "programs", ["tread", "treadlow", "treadsh", "twrite", "tmulti", "plread", "plwrite", "plmulti", "plbin", "plohv", "plwohv", "ohv", "randohv", "gtread", "gtreadsh", "gtwrite",
                                      "gtmulti", "gplread", "gplwrite", "gplmulti", "gplwohv", "sort", "sortby"])
