"""N07: sessions. (1) One party of the real session networks, its peers played by the harness following behaviours of
spec/session/SessionGen, judged by SessionTrace; (2) real parties with overlapping sessions, judged by TransportTrace."""
import json, os
from . import core, net
from .core import model_check, tlc, printed, ToolError


def gen(ctx, mode, steps, num, seed):
    ok, o = tlc(ctx, "session/SessionGen", env={"GEN_STEPS": str(steps), "GEN_MODE": mode}, workers=1, timeout=300,
                extra=["-simulate", f"num={num}", "-depth", str(steps + 5), "-seed", str(seed)])
    ps = printed(o, "PLAN")
    if len(ps) < num // 2:
        raise ToolError("SessionGen produced too few plans\n" + o[-2000:])
    return ps


def fixed():
    """hand-written histories around the idle sweep and the waiting period"""
    def st(o, s=0, q=0):
        return {"o": o, "s": s, "q": q}
    out = []
    for me, hi, t0 in ((0, 2, 2500), (1, 2, 2500), (0, 2, 2000), (1, 2, 1950)):
        # young unclaimed connections survive the sweeps at 2*idle = 3000 ms, old ones do not
        out.append({"me": me, "n": 3, "mode": "idle", "free": True, "steps":
                    [st("at", 0, t0)] + [st("dial", 1, hi), st("at", 0, 3600)] + ([st("dial", 1, 1)] if me == 0 else []) + [st("start", 1), st("idle")]})
        # a waiting call younger than the idle period survives the sweep
        out.append({"me": me, "n": 3, "mode": "idle", "free": True, "steps":
                    [st("at", 0, t0), st("start", 2), st("at", 0, 3600), st("dial", 2, hi)] + ([st("dial", 2, 1)] if me == 0 else []) + [st("drop", 1)]})
    return out


def real_families(ctx, count):
    """real parties: many sessions, started in different orders and at different times, some abandoned and retried"""
    rng = ctx.rng
    out = []
    for b in ("tcps", "tcpsb"):
        for j in range(count):
            n = rng.choice([2, 3, 3, 4])
            m = rng.choice([2, 3, 5])
            sids = rng.sample(range(1, 30 if j % 2 else 9), m)
            lanes = []
            cfg = {"init": 8000, "timeout": 4000}
            retry = j % 3 == 2
            for p in range(n):
                for k in range(m):
                    ops = [["sleep", rng.choice([0, 0, 30, 100, 300])]]
                    if retry and k == 0 and p != n - 1:
                        # the last party is not there yet: this one fails, then everybody retries
                        ops = [["init", sids[k], 900], ["bar", 50, n]] + ops
                    elif retry and k == 0:
                        ops = [["bar", 50, n]] + ops
                    ops += [["init", sids[k], 8000]]
                    ops += [["send", q, 100 * p + k + 10] for q in range(n) if q != p] + [["recv", q] for q in rng.sample(range(n), n) if q != p]
                    ops += [["send", q, 200 * p + k + 10] for q in range(n) if q != p] + [["recv", q] for q in rng.sample(range(n), n) if q != p]
                    ops += [["stats"], ["bar", 60 + k, n], ["drop"]]
                    lanes.append({"p": p, "k": k, "ops": ops})
            if retry:
                cfg["init"] = 900 if b == "tcpsb" else 8000
            out.append(net.mk(0, b, n, m, "session", lanes, cfg, init="lanes", deadline=30000))
    return out


def check(ctx, binp):
    q = ctx.quick
    model_check(ctx, "session/SessionMC", "SessionMC.cfg" if q else "SessionMC_thorough.cfg", timeout=800)
    plans = []
    for b in ("tcps", "tcpsb"):
        for mode, num in (("giveup", 60 if q else 400), ("idle", 20 if q else 120)):
            for p in gen(ctx, mode, 12 if mode == "giveup" else 9, num, ctx.rng.randrange(1 << 30)):
                p["backend"] = b
                plans.append(p)
        for p in fixed():
            p["backend"] = b
            plans.append(p)
    sp, tp = os.path.join(ctx.work, "s.plans"), os.path.join(ctx.work, "s.trace")
    with open(sp, "w") as f:
        for p in plans:
            f.write(json.dumps(p) + "\n")
    rc, out = core.run([os.path.join(binp, "vnet"), "session", sp, tp, "16"], 840)
    if rc != 0:
        raise ToolError(f"vnet session failed rc={rc}: {out[-2000:]}")
    viol, cov = net.validate(ctx, tp, "session/SessionTrace")
    ctx.traces += len(plans)
    ctx.notes["session_steps"] = cov
    voids = sum(1 for l in open(tp) if '"e":"void"' in l)
    ctx.notes["void_histories"] = voids
    if voids * 2 > len(plans):
        raise ToolError("too many histories were too slow to judge")
    # confirm on a second run, alone
    by = {}
    cur = None
    for l in open(tp):
        e = json.loads(l)
        if e["e"] == "sreset":
            cur = e["id"]
        by.setdefault(cur, []).append(e)
    done = 0
    for v in viol:
        if done >= 4:
            break
        done += 1
        p = plans[v["sid"]]
        open(sp + ".redo", "w").write(json.dumps(p) + "\n")
        core.run([os.path.join(binp, "vnet"), "session", sp + ".redo", tp + ".redo", "1"], 200)
        v2, _ = net.validate(ctx, tp + ".redo", "session/SessionTrace")
        if v2:
            ctx.violate(f"{p['backend']}/session-replay/{v['what']}", f"N07: {v['what']} (backend {p['backend']}, party {p['me']})",
                        {"plan": p, "history": by.get(v["sid"], []), "second": v2})
        else:
            ctx.log("not confirmed on a second run:", v["what"])
    for p in plans[:2]:
        ctx.sample(f"{p['backend']} me={p['me']} steps={[(s['o'], s['s'], s['q']) for s in p['steps']]}")
    if not ctx.violations:
        net.judge(ctx, binp, real_families(ctx, 9 if q else 45), "f7", workers=8, accept=("N01", "N02", "N03", "N04", "N05", "N06", "N08"))
