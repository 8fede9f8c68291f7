"""N01-N08: transports. Scenarios come from behaviours of spec/net/TransportGen and from enumerated fault
families; they run on the real transports (harness vnet); the recorded histories are judged by
spec/net/TransportTrace (and SessionTrace)."""
import json, os, itertools, random
from . import core
from .core import model_check, tlc, printed, ToolError

NETB = ["tcp", "tls", "quic", "tcps", "tcpsb"]
ALLB = ["local"] + NETB
SIZES = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 100, 255, 256, 257, 1000, 4095, 4096, 8184, 8192, 16376, 16383, 16384, 16385,
         65519, 65527, 65528, 65529, 65535, 65536, 65537, 70000, 131064, 131072, 200001, 262144]
BIG = [1 << 20, (1 << 20) + 1, 3_000_000]


def plans(ctx, n, nets, steps, out, num, seed, classes=6):
    env = {"GEN_N": str(n), "GEN_NETS": str(nets), "GEN_STEPS": str(steps), "GEN_OUT": str(out), "GEN_CLASSES": str(classes)}
    ok, o = tlc(ctx, "net/TransportGen", env=env, workers=1, timeout=300,
                extra=["-simulate", f"num={num}", "-depth", str(steps * 3 + 50), "-seed", str(seed)])
    ps = printed(o, "PLAN")
    if len(ps) < num:
        raise ToolError("TransportGen produced too few plans\n" + o[-2000:])
    return ps[:num]


def sizes_for(rng, classes, big=0.15):
    s = rng.sample(SIZES, classes)
    if rng.random() < big:
        s[rng.randrange(classes)] = rng.choice(BIG)
    return s


def lanes_of(plan, n, nets, mode, sizes, rng, jitter=0.03):
    lanes = {}
    for o in plan:
        p, q, k, x, op = o["p"], o["q"], o["k"], o["x"], o["o"]
        d = op if op in ("send", "recv") else "local"
        key = {"A": (p, k), "B": (p, k, d), "C": (p, k, d, q if d != "local" else -1)}[mode]
        L = lanes.setdefault(key, {"p": p, "k": k, "ops": []})
        if rng.random() < jitter:
            L["ops"].append(["sleep", rng.choice([1, 2, 5, 20])])
        if op == "send":
            L["ops"].append(["send", q, sizes[x]])
        elif op == "recv":
            L["ops"].append(["recv", q])
        elif op == "diff":
            L["ops"] += [["diff"]]
        else:
            L["ops"].append([op])
    return list(lanes.values())


def end_stats(s):
    """all lanes meet, then every party reports its statistics"""
    nl = len(s["lanes"])
    n, nets = s["n"], s["nets"]
    for L in s["lanes"]:
        L["ops"].append(["bar", 900001, nl + n * nets])
    for p in range(n):
        for k in range(nets):
            s["lanes"].append({"p": p, "k": k, "ops": [["bar", 900001, nl + n * nets], ["stats"], ["diff"]]})
    return s


def mk(sid, backend, n, nets, fam, lanes, cfg=None, **kw):
    c = {"connect": 20000}
    c.update(cfg or {})
    s = {"sid": sid, "backend": backend, "n": n, "nets": nets, "fam": fam, "cfg": c, "lanes": lanes, "deadline": 40000}
    s.update(kw)
    return s


# ---------------------------------------------------------------------------------------------- families
def fam_plans(ctx, per_backend, backends=ALLB, stats=False):
    rng = ctx.rng
    out = []
    shapes = [(3, 2, 120, 12), (2, 1, 150, 16), (4, 1, 120, 6), (3, 3, 150, 8), (5, 1, 100, 4), (3, 1, 150, 20)]
    jobs = []
    for b in backends:
        for j in range(per_backend):
            jobs.append((b, shapes[j % len(shapes)]))
    byshape = {}
    for b, sh in jobs:
        byshape.setdefault(sh, []).append(b)
    for sh, bs in byshape.items():
        n, nets, steps, outst = sh
        ps = plans(ctx, n, nets, steps, outst, len(bs), rng.randrange(1 << 30))
        for b, pl in zip(bs, ps):
            mode = rng.choice("ABC")
            sz = sizes_for(rng, 6, 0.25)
            cfg = {}
            if b != "local" and rng.random() < 0.5:
                cfg["maxf"] = max(sz)
            s = mk(0, b, n, nets, "plan", lanes_of(pl, n, nets, mode, sz, rng), cfg)
            s["cls"] = [mode, sz]
            out.append(end_stats(s))
    return out


def fam_burst(ctx, backends=ALLB, thorough=False):
    """more frames than all queues hold: sender blocks, receiver is late, both directions at once"""
    rng = ctx.rng
    out = []
    for b in backends:
        for (cnt, size) in [(150, 40), (100, 70000)] + ([(80, 1 << 20), (400, 1)] if thorough else []):
            lanes = []
            for p, q in [(0, 1), (1, 0)]:
                lanes.append({"p": p, "k": 0, "ops": [["send", q, size + (i % 3)] for i in range(cnt)] + [["flush"]]})
                lanes.append({"p": p, "k": 0, "ops": [["sleep", rng.choice([0, 150, 300])]] + [["recv", q]] * cnt})
            # a third party whose traffic must not be affected
            lanes.append({"p": 2, "k": 0, "ops": [x for i in range(10) for x in (["send", 0, 10 + i], ["send", 1, 20 + i], ["recv", 0], ["recv", 1])]})
            lanes.append({"p": 0, "k": 0, "ops": [x for i in range(10) for x in (["send", 2, 30 + i], ["recv", 2])]})
            lanes.append({"p": 1, "k": 0, "ops": [x for i in range(10) for x in (["send", 2, 30 + i], ["recv", 2])]})
            out.append(end_stats(mk(0, b, 3, 1, "burst", lanes)))
    return out


def fam_pieces(ctx, thorough):
    """every connection delivers its bytes in small pieces: prefixes and frames arrive split at every position"""
    rng = ctx.rng
    out = []
    for b in ["tcp", "tls", "tcps", "tcpsb"]:
        cycles = [[1], [7, 1], [8, 3], [3, 5, 1, 7, 9], [rng.randint(1, 24) for _ in range(7)], [15, 2], [9]]
        if not thorough:
            cycles = cycles[:2] + rng.sample(cycles[2:], 2)
        for cyc in cycles:
            lanes = []
            sz = [0, 1, 2, 3, 5, 8, 13, 40] + [rng.randint(0, 20) for _ in range(12)]
            for p in range(3):
                for q in range(3):
                    if p != q:
                        lanes.append({"p": p, "k": 0, "ops": [["send", q, x] for x in rng.sample(sz, len(sz))] + [["flush"]]})
                        lanes.append({"p": p, "k": 0, "ops": [["recv", q]] * len(sz)})
            prs = [list(conn_dir(b, s, r)[:2]) for s, r in [(0, 1), (0, 2), (1, 2)]]
            # a handshake of some thousand bytes must get through as well
            us = 400 if b != "tls" or min(cyc) > 2 else 150
            out.append(end_stats(mk(0, b, 3, 1, "pieces", lanes, proxy=prs, pieces=cyc, pause=us)))
    return out


def fam_fork(ctx, count):
    """QUIC forks taken while the parent is in use; forks of forks; sessions initialised while others are in use"""
    rng = ctx.rng
    out = []
    for _ in range(count):
        b = rng.choice(["quic", "quic", "tcps", "tcpsb"])
        lanes = []
        bar = 100
        for p in range(3):
            ops = []
            for rnd in range(3):
                for q in range(3):
                    if q != p:
                        ops.append(["send", q, 10 + rnd + 3 * p])
                for q in range(3):
                    if q != p:
                        ops.append(["recv", q])
            lanes.append({"p": p, "k": 0, "ops": ops + [["bar", 77, 6]]})
            # forked network: created in the same order everywhere
            o2 = [["fork", 1]] if b == "quic" else []
            lanes.append({"p": p, "k": 0, "ops": o2 + [["bar", 77, 6]]})
        for p in range(3):
            ops = [["bar", 78, 3]]
            lanes.append({"p": p, "k": 1, "ops": [["bar", 77, 9]] + [["send", q, 500 + p] for q in range(3) if q != p] + [["recv", q] for q in range(3) if q != p] + [["stats"]]})
        for L in lanes[:6]:
            for o in L["ops"]:
                if o[0] == "bar":
                    o[2] = 9
        out.append(mk(0, b, 3, 2, "fork", lanes, nets_req=1 if b == "quic" else 2))
    return out


def fam_limits(ctx, thorough):
    rng = ctx.rng
    out = []
    Ms = [1, 8, 100, 4096, 65536, 65537] + ([0, 2, 7, 9, 16384, 70000, 1 << 20, 200001] if thorough else [rng.choice([2, 7, 9, 16384, 70000])])
    for b in NETB:
        for M in Ms:
            seq = [M, M + 1, 0, M - 1 if M else 0, 2 * M + 5, M, M + 1, M, M + 1]
            lanes = []
            ok = [x for x in seq if x <= M]
            for p in range(3):
                ops = []
                q, r = (p + 1) % 3, (p + 2) % 3
                for x in seq:
                    ops += [["send", q, x], ["stats"]]
                ops += [["recv", r]] * len(ok) + [["flush"], ["stats"]]
                lanes.append({"p": p, "k": 0, "ops": ops})
            out.append(mk(0, b, 3, 1, "limit", lanes, {"maxf": M}))
        # receiver has a smaller limit than the sender
        for M, big in [(100, 101), (1000, 100000), (64, 65), (3, 8), rng.choice([(0, 1), (1, 2), (5, 7), (7, 8), (2, 6)])] + ([(0, 1), (65536, 65537), (65528, 65536 + 9)] if thorough else []):
            lanes = [{"p": 0, "k": 0, "ops": [["send", 1, M], ["send", 1, max(0, M - 1)], ["send", 1, big], ["send", 2, big], ["recv", 2], ["send", 2, 5], ["bar", 5, 3]]},
                     {"p": 1, "k": 0, "ops": [["recv", 0], ["recv", 0], ["recv", 0], ["recv", 0], ["send", 2, 10 if M >= 10 else M], ["recv", 2], ["stats"], ["bar", 5, 3]]},
                     {"p": 2, "k": 0, "ops": [["recv", 0], ["send", 0, 7], ["recv", 0], ["recv", 1], ["send", 1, min(M, 9)], ["stats"], ["bar", 5, 3]]}]
            out.append(mk(0, b, 3, 1, "limit", lanes, {"maxf": [max(big, 16), M, max(big, 16)]}))
    # forged announcements
    for b in ["tcp", "tcps", "tcpsb"]:
        for ann in [101, 0xffffffff, 1 << 63, (1 << 64) - 1, (1 << 64) - 8, 1 << 32]:
            conn, lis = (0, 1) if b == "tcp" else (1, 0)
            body = rng.choice([0, 3, 200])
            hx = ann.to_bytes(8, "big").hex() + "41" * body
            lanes = [{"p": conn, "k": 0, "ops": [["send", lis, 50], ["bar", 1, 3], ["bar", 2, 3], ["sleep", 50], ["bar", 5, 3]]},
                     {"p": lis, "k": 0, "ops": [["recv", conn], ["bar", 1, 3], ["bar", 2, 3], ["recv", conn], ["recv", conn], ["send", 2, 9], ["recv", 2], ["stats"], ["bar", 5, 3]]},
                     {"p": 2, "k": 0, "ops": [["bar", 1, 3], ["inject", conn, lis, 0, hx, ann > 1000], ["bar", 2, 3], ["recv", lis], ["send", lis, 11], ["bar", 5, 3]]}]
            out.append(mk(0, b, 3, 1, "inject", lanes, {"maxf": 100}, proxy=[[conn, lis]]))
    return out


def conn_dir(b, s, r):
    """connecting and listening party of the pair, and the proxy direction of s -> r"""
    c, l = (min(s, r), max(s, r)) if b in ("tcp", "tls") else (max(s, r), min(s, r))
    return c, l, 0 if s == c else 1


def fam_cut(ctx, fracs, lens, backends=("tcp", "tls", "tcps", "tcpsb"), modes=("fin",)):
    rng = ctx.rng
    out = []
    for b in backends:
        for mode in modes:
            for ln in lens:
                for (num, den, delta) in fracs:
                    s, r = rng.choice([(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)])
                    t = 3 - s - r
                    c, l, d = conn_dir(b, s, r)
                    pre = rng.randrange(0, 3)
                    S = [["send", r, 5], ["bar", 1, 4], ["bar", 2, 4], ["send", r, ln], ["bar", 3, 4], ["bar", 4, 4]]
                    # frames that arrived completely before the cut and are still unread
                    S += [["send", r, ln]] + [["bar", 6, 2], ["send", r, 3], ["recv", r], ["recv", r]]
                    S += [["send", t, 12], ["recv", t], ["bar", 9, 4]]
                    R = [["recv", s], ["bar", 1, 4], ["bar", 2, 4], ["recv", s], ["bar", 3, 4], ["bar", 4, 4], ["drain", s, 5], ["recv", s], ["recv", s],
                         ["send", t, 33], ["recv", t], ["bar", 9, 4]]
                    T = [["bar", 1, 4], ["bar", 2, 4], ["bar", 3, 4], ["bar", 4, 4]] + [["send", r, 7], ["recv", r], ["recv", s], ["send", s, 9]] + [["bar", 9, 4]]
                    X = [["bar", 1, 4], ["sleep", 20], ["mark", c, l, d, 0], ["bar", 2, 4], ["bar", 3, 4], ["sleep", 30], ["mark", c, l, d, 1],
                         ["cut", c, l, d, mode, 0, 1, num, den, delta], ["bar", 4, 4], ["waitcut", c, l], ["sleep", 30], ["bar", 6, 2], ["bar", 9, 4]]
                    if mode == "fin" and pre:
                        S = S[:2] + [["send", r, 11]] * 0 + S[2:]
                    lanes = [{"p": s, "k": 0, "ops": S}, {"p": r, "k": 0, "ops": R}, {"p": t, "k": 0, "ops": T}, {"p": t, "k": 0, "ops": X}]
                    out.append(mk(0, b, 3, 1, "cut", lanes, proxy=[[c, l]], bound=10000, deadline=30000))
    return out


def fam_kill(ctx, backends, reps, healthy=True):
    rng = ctx.rng
    out = []
    for b in backends:
        for _ in range(reps):
            s = rng.randrange(3)
            r, t = [x for x in range(3) if x != s]
            m1, m2 = rng.randrange(1, 6), rng.randrange(0, 5)
            szs = [rng.choice([0, 1, 100, 5000, 70000]) for _ in range(m1)]
            S = [["send", r, x] for x in szs] + [["flush"], ["bar", 1, 3]] + ([["sleep", rng.choice([0, 30])]] if rng.random() < 0.5 else [])
            S += [["send", r, rng.choice([10, 3000])] for _ in range(m2)] + [["kill"], ["bar", 2, 3], ["bar", 3, 3]]
            early = rng.randrange(0, m1 + 1)
            R = [["recv", s]] * early + [["bar", 1, 3], ["bar", 2, 3], ["drain", s, m1 + m2 + 3], ["recv", s], ["send", t, 20], ["recv", t], ["bar", 3, 3]]
            T = [["send", r, 40], ["bar", 1, 3], ["bar", 2, 3], ["recv", r], ["recv", s], ["recv", s], ["bar", 3, 3]]
            R.insert(early, ["recv", t])
            T.insert(4, ["send", r, 41])
            lanes = [{"p": s, "k": 0, "ops": S}, {"p": r, "k": 0, "ops": R}, {"p": t, "k": 0, "ops": T}]
            q = b == "quic"
            out.append(mk(0, b, 3, 1, "kill", lanes, children=[s], bound=60000 if q else 10000, deadline=110000 if q else 30000))
    return out


def fam_drop(ctx, backends, reps, fam="drop"):
    """a party drops its network normally: the peers get everything it sent, then an error"""
    rng = ctx.rng
    out = []
    for b in backends:
        for j in range(reps):
            n = rng.choice([2, 3])
            s = rng.randrange(n)
            cnt = rng.choice([0, 1, 5, 24]) if j else 24
            size = rng.choice([1, 1000, 100000, 300000])
            if b == "local" or b == "quic":
                size = rng.choice([1, 1000, 30000])
            lanes = []
            for p in range(n):
                if p == s:
                    ops = [["recv", q] for q in range(n) if q != p]
                    for i in range(cnt):
                        ops += [["send", q, size + i] for q in range(n) if q != p]
                    if rng.random() < 0.3:
                        ops.append(["flush"])
                    ops += [["bar", 1, n], ["drop"]]
                else:
                    ops = [["send", s, 17], ["bar", 1, n], ["sleep", rng.choice([0, 100, 400])], ["drain", s, cnt + 2], ["recv", s]]
                    # healthy traffic among the others
                    for q in range(n):
                        if q not in (p, s):
                            ops += [["send", q, 21], ["recv", q]]
                    ops += [["bar", 2, n - 1], ["drop"]]
                lanes.append({"p": p, "k": 0, "ops": ops})
            out.append(mk(0, b, n, 1, fam, lanes, bound=10000, deadline=30000))
    return out


def fam_flush(ctx, thorough):
    rng = ctx.rng
    out = []
    for b in ALLB:
        # flush without pending data, then flush with data and silence (the network is leaked, not dropped)
        for _ in range(2 if not thorough else 6):
            cnt, size = rng.choice([(1, 0), (3, 10), (20, 5000), (20, 100000)])
            nets = rng.choice([1, 2])
            lanes = []
            for k in range(nets):
                lanes.append({"p": 0, "k": k, "ops": [["flush"], ["flush"]] + [["send", q, size + i] for i in range(cnt) for q in (1, 2)] + [["flush"], ["flush"], ["leak"]]})
                for p in (1, 2):
                    lanes.append({"p": p, "k": k, "ops": [["flush"], ["sleep", rng.choice([0, 300])]] + [["recv", 0]] * cnt + [["flush"]]})
            out.append(mk(0, b, 3, nets, "flush", lanes))
    # flushed, then the process is killed: data is with the operating system
    for b in ["tcp", "tls", "tcps", "tcpsb"]:
        for _ in range(2 if not thorough else 6):
            cnt, size = rng.choice([(1, 1), (10, 2000), (20, 60000)])
            s = rng.randrange(3)
            lanes = [{"p": s, "k": 0, "ops": [["send", q, size + i] for i in range(cnt) for q in range(3) if q != s] + [["flush"], ["kill"], ["bar", 1, 3]]}]
            for p in range(3):
                if p != s:
                    lanes.append({"p": p, "k": 0, "ops": [["bar", 1, 3], ["drain", s, cnt + 1]]})
            out.append(mk(0, b, 3, 1, "flush", lanes, children=[s], bound=10000))
    # the peer takes nothing for a while: a flush has to wait for the frame that is being written, too
    for b in ["tcp", "tls", "tcps", "tcpsb"]:
        for s, r in [(0, 1), (2, 1)]:
            c, l, d = conn_dir(b, s, r)
            t = 3 - s - r
            size = rng.choice([16, 24]) * (1 << 20) + rng.randrange(9)
            lanes = [{"p": s, "k": 0, "ops": [["send", r, 5], ["bar", 1, 3], ["bar", 2, 3], ["send", r, size], ["sleep", 150], ["flush"], ["kill"], ["bar", 3, 2]]},
                     {"p": r, "k": 0, "ops": [["recv", s], ["bar", 1, 3], ["bar", 2, 3], ["bar", 3, 2], ["drain", s, 2]]},
                     {"p": t, "k": 0, "ops": [["bar", 1, 3], ["stall", c, l, d, 1], ["bar", 2, 3], ["sleep", 600], ["stall", c, l, d, 0]]}]
            out.append(mk(0, b, 3, 1, "flushbusy", lanes, children=[s], proxy=[[c, l]], bound=10000))
    # dropped, then the process exits
    for b in ["tcp", "tls", "tcps", "tcpsb", "quic"]:
        for _ in range(1 if not thorough else 4):
            cnt, size = rng.choice([(2, 1), (10, 2000), (20, 60000)])
            s = rng.randrange(3)
            lanes = [{"p": s, "k": 0, "ops": [["send", q, size + i] for i in range(cnt) for q in range(3) if q != s] + [["drop"], ["exit"]]}]
            for p in range(3):
                if p != s:
                    lanes.append({"p": p, "k": 0, "ops": [["sleep", 200], ["drain", s, cnt + 1], ["bar", 2, 2], ["drop"]]})
            out.append(mk(0, b, 3, 1, "drop", lanes, children=[s], bound=10000))
    # failed peer connection: flush must report it
    for b in ["tcp", "tls", "tcps", "tcpsb"]:
        for s, r in [(0, 1), (2, 1)]:
            c, l, d = conn_dir(b, s, r)
            t = 3 - s - r
            lanes = [{"p": s, "k": 0, "ops": [["send", r, 5], ["bar", 1, 3], ["bar", 2, 3], ["untilfail", r, 1000, 200]]},
                     {"p": r, "k": 0, "ops": [["recv", s], ["bar", 1, 3], ["bar", 2, 3]]},
                     {"p": t, "k": 0, "ops": [["bar", 1, 3], ["sleep", 20], ["mark", c, l, d, 0], ["mark", c, l, d, 1], ["cut", c, l, d, "rst", 0, 1, 0, 1, 0], ["bar", 2, 3]]}]
            out.append(mk(0, b, 3, 1, "flusherr", lanes, proxy=[[c, l]], deadline=30000))
            # the connection dies while data and a flush are waiting for a peer that takes nothing
            for to in [-1] + ([5000] if thorough else []):
                cfg = {} if to < 0 else {"flush": to}
                lanes = [{"p": s, "k": 0, "ops": [["send", r, 5], ["bar", 1, 3], ["bar", 2, 3]] + [["send", r, 1 << 20]] * rng.choice([12, 25, 31]) + [["bar", 3, 3], ["flush"], ["flush"], ["drop"]]},
                         {"p": r, "k": 0, "ops": [["recv", s], ["bar", 1, 3], ["bar", 2, 3], ["bar", 3, 3]]},
                         {"p": t, "k": 0, "ops": [["bar", 1, 3], ["stall", c, l, d, 1], ["bar", 2, 3], ["bar", 3, 3], ["sleep", rng.choice([30, 300])], ["mark", c, l, d, 0], ["mark", c, l, d, 1],
                                                  ["cut", c, l, d, "rst", 0, 1, 0, 1, 0]]}]
                out.append(mk(0, b, 3, 1, "flusherr", lanes, cfg, proxy=[[c, l]], deadline=15000))
    return out


def fam_timeout(ctx, thorough):
    rng = ctx.rng
    out = []
    for b in ALLB:
        for to in ([300, 700] if not thorough else [50, 300, 700, 1500, 3000]):
            # receive before anything is sent; late frames stay in order; another link is busy meanwhile
            lanes = [{"p": 0, "k": 0, "ops": [["bar", 1, 3], ["recv", 1], ["bar", 2, 3], ["bar", 3, 3], ["recv", 1], ["recv", 1], ["recv", 1], ["recv", 1], ["stats"], ["bar", 4, 3], ["bar", 5, 3]]},
                     {"p": 1, "k": 0, "ops": [["bar", 1, 3], ["recv", 2], ["bar", 2, 3], ["send", 0, 100], ["send", 0, 101], ["send", 0, 102], ["flush"], ["bar", 3, 3], ["bar", 4, 3], ["recv", 0], ["stats"], ["bar", 5, 3]]},
                     {"p": 2, "k": 0, "ops": [["bar", 1, 3], ["send", 1, 9], ["bar", 2, 3], ["bar", 3, 3], ["bar", 4, 3], ["recv", 0], ["bar", 5, 3], ["stats"]]}]
            out.append(mk(0, b, 3, 1, "timeout", lanes, {"timeout": to}))
            # a frame that arrives while the receive is waiting (well before / shortly before the timeout)
            if to >= 700:
                lanes = [{"p": 0, "k": 0, "ops": [["bar", 1, 2], ["recv", 1], ["recv", 1], ["recv", 1]]},
                         {"p": 1, "k": 0, "ops": [["bar", 1, 2], ["sleep", 150], ["send", 0, 5], ["flush"]]}]
                out.append(mk(0, b, 2, 1, "timeout", lanes, {"timeout": to}))
        # no timeout: wait as long as needed
        for w in ([2500, 12000] if not thorough else [2500, 12000, 35000, 65000]):
            lanes = [{"p": 0, "k": 0, "ops": [["recv", 1], ["send", 1, 3], ["recv", 1]]},
                     {"p": 1, "k": 0, "ops": [["sleep", w], ["send", 0, 50], ["recv", 0], ["send", 0, 4]]}]
            out.append(mk(0, b, 2, 1, "nowait", lanes, {}, deadline=w + 30000))
    # the in-memory transport also bounds a send to a party that takes nothing
    for to in (300, 800):
        lanes = [{"p": 0, "k": 0, "ops": [["send", 1, 10]] * 32 + [["send", 1, 11], ["bar", 1, 2], ["bar", 2, 2], ["send", 1, 12], ["stats"]]},
                 {"p": 1, "k": 0, "ops": [["bar", 1, 2]] + [["recv", 0]] * 32 + [["bar", 2, 2], ["recv", 0], ["stats"], ["recv", 0]]}]
        out.append(mk(0, "local", 2, 1, "timeout", lanes, {"timeout": to}))
    # flush towards a peer that takes nothing
    for b in NETB:
        for to in ([600] if not thorough else [300, 600, 2000]):
            lanes = [{"p": 0, "k": 0, "ops": [["flush"], ["stalled", 0, 1, True]] + [["send", 1, 1 << 20]] * 58 + [["flush"], ["bar", 1, 2], ["bar", 2, 2], ["stalled", 0, 1, False], ["flush"], ["send", 1, 5], ["flush"], ["bar", 3, 2]]},
                     {"p": 1, "k": 0, "ops": [["bar", 1, 2]] + [["recv", 0]] * 58 + [["bar", 2, 2], ["recv", 0], ["stats"], ["bar", 3, 2]]}]
            out.append(mk(0, b, 2, 1, "flushto", lanes, {"flush": to}))
            # the send queue itself is full
            lanes = [{"p": 0, "k": 0, "ops": [["stalled", 0, 1, True]] + [["send", 1, 1 << 20]] * 100 + [["bar", 3, 3]]},
                     {"p": 0, "k": 0, "ops": [["sleep", 1200], ["flush"], ["flush"], ["bar", 1, 2], ["bar", 3, 3]]},
                     {"p": 1, "k": 0, "ops": [["bar", 1, 2]] + [["recv", 0]] * 100 + [["bar", 3, 3]]}]
            out.append(mk(0, b, 2, 1, "flushto", lanes, {"flush": to}))
    return out


def fam_mesh(ctx, count, backends=("tcp", "tls", "quic")):
    rng = ctx.rng
    out = []
    for b in backends:
        for j in range(count):
            n = rng.choice([2, 3, 3, 4, 5])
            nets = rng.choice([0, 1, 2, 3]) if b != "quic" else rng.choice([1, 2, 4])
            if j == 0:
                n, nets = 3, (8 if b != "quic" else 4)
            delay = [rng.choice([0, 0, 50, 150, 400, 900]) for _ in range(n)]
            order = [rng.sample(range(n), n) for _ in range(n)]
            m = max(nets, 1)
            lanes = []
            for p in range(n):
                for k in range(m):
                    ops = []
                    for q in range(n):
                        if q != p:
                            ops.append(["send", q, 10 * p + k])
                    for bad in (p, n, n + 3):
                        ops.append(["send", bad, 3])
                        ops.append(["recv", bad])
                    for q in rng.sample(range(n), n):
                        if q != p:
                            ops.append(["recv", q])
                    ops += [["flush"], ["stats"]]
                    lanes.append({"p": p, "k": k, "ops": ops})
            cfg = {"connect": 20000} if rng.random() < 0.7 else {"connect": None}
            out.append(mk(0, b, n, m, "mesh", lanes, cfg, delay=delay, order=order, nets_req=nets))
    for n in (2, 3, 5):
        lanes = [{"p": p, "k": k, "ops": [["send", q, 10 * p + k] for q in range(n) if q != p] + [["send", p, 1], ["recv", p], ["send", n, 1], ["recv", n + 1]] + [["recv", q] for q in range(n) if q != p] + [["stats"]]}
                 for p in range(n) for k in range(2)]
        out.append(mk(0, "local", n, 2, "mesh", lanes))
    return out


# ---------------------------------------------------------------------------------------------- running
def execute(ctx, binp, scens, name, workers=12, timeout=840):
    for i, s in enumerate(scens):
        s["sid"] = i
    sp = os.path.join(ctx.work, name + ".scen")
    tp = os.path.join(ctx.work, name + ".trace")
    with open(sp, "w") as f:
        for s in scens:
            f.write(json.dumps(s) + "\n")
    rc, out = core.run([os.path.join(binp, "vnet"), "run", sp, tp, str(workers)], timeout)
    if rc != 0:
        raise ToolError(f"vnet failed rc={rc}: {out[-2000:]}")
    return tp


def split(tp):
    by = {}
    cur = None
    for l in open(tp):
        e = json.loads(l)
        if e["e"] == "reset":
            cur = e["sid"]
        by.setdefault(cur, []).append(e)
    return by


def validate(ctx, tp, module="net/TransportTrace", chunk=40000):
    """Validate the history with TLC, in chunks of whole scenarios."""
    lines = open(tp).read().splitlines()
    chunks, cur = [], []
    for l in lines:
        if '"e":"reset"' in l and len(cur) >= chunk:
            chunks.append(cur)
            cur = []
        cur.append(l)
    if cur:
        chunks.append(cur)
    viol, cov = [], {}
    for i, c in enumerate(chunks):
        p = f"{tp}.{i}"
        open(p, "w").write("\n".join(c) + "\n")
        rep = core.report_trace(ctx, module, p, timeout=900)
        viol += rep["viol"]
        for k, v in rep["cov"].items():
            cov[k] = cov.get(k, 0) + v
        ctx.events += rep["events"]
        os.unlink(p)
    return viol, cov


TIMING = ("too long", "overrun", "never", "forever", "healthy link", "long been sent", "setup failed", "healthy links", "blocks")


def judge(ctx, binp, scens, name, workers=12, module="net/TransportTrace", accept=()):
    tp = execute(ctx, binp, scens, name, workers)
    viol, cov = validate(ctx, tp, module)
    ctx.traces += len(scens)
    for k, v in cov.items():
        ctx.notes.setdefault("events_by_action", {})
        ctx.notes["events_by_action"][k] = ctx.notes["events_by_action"].get(k, 0) + v
    acc = {ctx.prop, *accept}
    mine = [v for v in viol if v["prop"] in acc]
    other = [v for v in viol if v["prop"] not in acc]
    if other:
        ctx.log("conditions of other properties that failed here:", sorted({(v["prop"], v["what"]) for v in other})[:5])
    by = split(tp)
    # conditions that involve waiting are confirmed by running the scenario again on its own
    confirmed = []
    seen = set()
    for v in mine:
        key = (v["sid"], v["what"])
        if key in seen:
            continue
        seen.add(key)
        confirmed.append(v)
    hard = [v for v in confirmed if not any(t in v["what"] for t in TIMING)]
    soft = [v for v in confirmed if any(t in v["what"] for t in TIMING)]
    report = list(hard)
    redo = 0
    for v in soft:
        if report or redo >= 3:
            break
        redo += 1
        s = json.loads(json.dumps(scens[v["sid"]]))
        tp2 = execute(ctx, binp, [s], name + f"-redo{redo}", 1)
        v2, _ = validate(ctx, tp2, module)
        if any(x["prop"] in acc for x in v2):
            report.append(v)
        else:
            ctx.log("not confirmed on a second run:", v["what"])
    for v in report[:6]:
        s = scens[v["sid"]]
        ev = by.get(v["sid"], [])
        key = f"{s['backend']}/{s['fam']}/{v['what']}"
        ctx.violate(key, f"{ctx.prop}: {v['what']} (backend {s['backend']}, family {s['fam']}, scenario {v['sid']})",
                    {"scenario": s, "event_index": v["at"], "history": ev[:400]})
    if scens:
        s = scens[ctx.rng.randrange(len(scens))]
        ctx.sample(f"{s['backend']} n={s['n']} nets={s['nets']} fam={s['fam']} lanes={json.dumps(s['lanes'])[:180]}")
    return mine


def check(ctx):
    binp = core.build(ctx, "net")
    q = ctx.quick
    p = ctx.prop
    ctx.assumptions += ["loopback sockets of the sandbox kernel stand for the network", "events of a call are stamped before it starts and after it returns"]
    if p in ("N01", "N02", "N03", "N04", "N05"):
        model_check(ctx, "net/TransportMC", "TransportMC.cfg" if q else "TransportMC_thorough.cfg", timeout=800)
    if p in ("N01", "N03", "N04", "N06"):
        model_check(ctx, "net/TransportImpl", "TransportImpl.cfg" if q else "TransportImpl_thorough.cfg", timeout=800)
    if p == "N01":
        judge(ctx, binp, fam_plans(ctx, 6 if q else 40) + fam_burst(ctx, thorough=not q) + fam_fork(ctx, 3 if q else 12) + fam_pieces(ctx, not q), "f1")
        if not q:
            for b in ALLB:
                lanes = [{"p": 0, "k": 0, "ops": [["send", 1, 30_000_000], ["send", 1, 1], ["recv", 1]]}, {"p": 1, "k": 0, "ops": [["recv", 0], ["recv", 0], ["send", 0, 30_000_001]]}]
                judge(ctx, binp, [mk(0, b, 2, 1, "plan", lanes)], "big-" + b)
    elif p == "N05":
        judge(ctx, binp, fam_plans(ctx, 4 if q else 25) + fam_burst(ctx) + fam_limits(ctx, not q)[::2 if q else 1] + fam_stats_fail(ctx), "f5")
    elif p == "N02":
        judge(ctx, binp, fam_limits(ctx, not q), "f2")
    elif p == "N03":
        fr = [(0, 1, 0), (0, 1, 1), (0, 1, 7), (0, 1, 8), (0, 1, 9), (1, 2, 0), (1, 1, -1), (1, 1, 0)]
        if not q:
            fr += [(i, 16, 0) for i in range(1, 16)] + [(0, 1, i) for i in (2, 3, 4, 5, 6, 10, 12, 20)] + [(1, 1, -2), (1, 1, -7), (1, 1, -8), (1, 1, -9)]
        lens = [1, 300, 70000] if q else [1, 2, 8, 20, 300, 5000, 70000, 200000]
        sc = fam_cut(ctx, fr, lens) + fam_cut(ctx, [(1, 2, 0), (1, 1, 0)], [300], modes=("rst",))
        sc += fam_kill(ctx, ["tcp", "tls", "tcps", "tcpsb"], 3 if q else 12) + fam_kill(ctx, ["quic"], 1 if q else 3)
        sc += fam_drop(ctx, ALLB, 3 if q else 10)
        judge(ctx, binp, sc, "f3", workers=16)
    elif p == "N04":
        judge(ctx, binp, fam_flush(ctx, not q) + fam_drop(ctx, ALLB, 4 if q else 15), "f4")
    elif p == "N06":
        judge(ctx, binp, fam_timeout(ctx, not q), "f6", workers=24)
    elif p == "N08":
        judge(ctx, binp, fam_mesh(ctx, 6 if q else 30), "f8", workers=8, accept=("N01", "N02", "N04", "N05"))
    elif p == "N07":
        from . import session
        session.check(ctx, binp)
    return core.finish(ctx, "model_checking")


def fam_stats_fail(ctx):
    """refused and failed operations leave the statistics alone"""
    out = []
    for b in NETB:
        lanes = [{"p": p, "k": 0, "ops": [["stats"], ["send", 1 - p, 10], ["send", 1 - p, 101], ["send", 7, 5], ["recv", 9], ["recv", 1 - p], ["stats"], ["send", 1 - p, 100], ["recv", 1 - p], ["diff"], ["stats"]]} for p in range(2)]
        out.append(mk(0, b, 2, 1, "stats", lanes, {"maxf": 100}))
    for b in ["tcp", "tls", "tcps", "tcpsb"]:
        c, l, d = conn_dir(b, 0, 1)
        lanes = [{"p": 0, "k": 0, "ops": [["send", 1, 5], ["bar", 1, 3], ["bar", 2, 3], ["untilfail", 1, 1000, 200], ["send", 1, 77], ["send", 1, 78], ["stats"], ["diff"]]},
                 {"p": 1, "k": 0, "ops": [["recv", 0], ["bar", 1, 3], ["bar", 2, 3], ["recv", 0], ["stats"]]},
                 {"p": 2, "k": 0, "ops": [["bar", 1, 3], ["sleep", 20], ["mark", c, l, d, 0], ["mark", c, l, d, 1], ["cut", c, l, d, "rst", 0, 1, 0, 1, 0], ["bar", 2, 3]]}]
        out.append(mk(0, b, 3, 1, "statsfail", lanes, proxy=[[c, l]], deadline=30000))
    for to in (200,):
        lanes = [{"p": 0, "k": 0, "ops": [["recv", 1], ["stats"]] + [["send", 1, 10]] * 33 + [["stats"], ["bar", 1, 2]]},
                 {"p": 1, "k": 0, "ops": [["bar", 1, 2]] + [["recv", 0]] * 33 + [["stats"]]}]
        out.append(mk(0, "local", 2, 1, "stats", lanes, {"timeout": to}))
    return out
