"""Common parts of the checks of the sharing engines: running jobs, judging records with TLC."""
import json, os, itertools
from concurrent.futures import ThreadPoolExecutor
from .core import *


THREADS = (None, 3, 1, 6)


def run_jobs(ctx, binary, jobs, tag, timeout=600):
    """Runs jobs on the real code, with different sizes of its thread pool; returns the records."""
    parts = len(THREADS) if len(jobs) >= 8 else 1

    def one(k):
        mine = list(range(k, len(jobs), parts))
        jf, of = os.path.join(ctx.work, f"{tag}.{k}.jobs"), os.path.join(ctx.work, f"{tag}.{k}.out")
        with open(jf, "w") as f:
            for j in mine:
                f.write(json.dumps(jobs[j]) + "\n")
        rc, out = run([os.path.join(TARGET, "debug", binary), jf, of], timeout, env={"RAYON_NUM_THREADS": str(THREADS[k])} if THREADS[k] else None)
        if rc != 0:
            raise ToolError(f"harness {binary} on {tag}: exit {rc}\n{out[-3000:]}")
        recs = [json.loads(l) for l in open(of)]
        for r in recs:
            r["job"] = mine[r["job"]]
        return recs
    with ThreadPoolExecutor(parts) as ex:
        recs = [r for l in ex.map(one, range(parts)) for r in l]
    recs.sort(key=lambda r: r["job"])
    return recs


def split(recs, parts):
    """Splits records into parts without separating those of one job."""
    groups = []
    last = None
    for r in recs:
        if r["job"] != last:
            groups.append([])
            last = r["job"]
        groups[-1].append(r)
    parts = max(1, min(parts, len(groups)))
    total = len(recs)
    res, cur = [[]], 0
    for g in groups:
        if len(res[-1]) >= total / parts and len(res) < parts:
            res.append([])
        res[-1] += g
    return [r for r in res if r]


def judge(ctx, module, recs, jobs, tag, timeout=800, parts=6, jobkey="job", env=None):
    """Replays records through a trace specification with TLC, in parallel; returns the reports."""
    def one(k_part):
        k, part = k_part
        tf = os.path.join(ctx.work, f"{tag}.{k}.ndjson")
        with open(tf, "w") as f:
            for r in part:
                f.write(json.dumps(r) + "\n")
        e = {"TRACE": tf}
        e.update(env or {})
        ok, out = tlc(ctx, module, env=e, timeout=timeout, workers=1, count=False, heap="3g")
        rep = printed(out, "REPORT")
        if not ok or not rep:
            raise ToolError(f"judging {tag} with {module} failed:\n" + out[-4000:])
        return rep[-1]
    with ThreadPoolExecutor(8) as ex:
        reps = list(ex.map(one, enumerate(split(recs, parts))))
    viol = [v for r in reps for v in r["viol"]]
    for v in viol:
        if os.environ.get("VERIF_DEBUG"):
            print("DIS", v["job"], v["what"])
        job = jobs[v["job"]] if v.get("job") is not None and v["job"] < len(jobs) else None
        ctx.violate(f"{tag}:{v['what'][:80]}", f"{ctx.prop}: {v['what']}", {"job": job, "at": v})
    n = sum(r["events"] for r in reps)
    ctx.events += n
    ctx.traces += len({r["job"] for r in recs})
    ctx.log(f"{tag}: {len(jobs)} jobs, {n} events, {len(viol)} disagreements")
    return reps


def merge_cov(reps):
    c = {}
    for r in reps:
        for k, v in (r.get("cov") or {}).items():
            c[k] = c.get(k, 0) + v
    return c


def generate(ctx, module, num, seed, depth, env, tag="PROG"):
    ok, o = tlc(ctx, module, env=env, workers=1, timeout=600,
                extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)])
    ps = printed(o, tag)
    if len(ps) < max(1, num // 2):
        raise ToolError(f"{module} produced too few programs\n" + o[-2500:])
    return ps


def hist_records(jobs, recs):
    """Turns the histograms of 'hist' jobs into records for Hist.tla: each projection against uniformity, or two
    jobs of one group against each other."""
    by = {r["job"]: r for r in recs if r["ev"] == "hist"}
    out = []
    groups = {}
    for k, j in enumerate(jobs):
        r = by[k]
        if r["bad"] * 20 > r["runs"] and not j.get("mayfail"):
            out.append({"job": k, "mode": "uniform", "name": j["name"] + ": runs fail", "cells": 2, "runs": 3, "counts": [1]})
            continue
        for x, c in enumerate(r["counts"]):
            if j["mode"] == "uniform":
                # a coordinate that no run has (9999) is something the party does not see
                gone = [y for y in range(len(j["proj"][x])) if all(key[y] == 9999 for key, _ in c)]
                if len(gone) == len(j["proj"][x]):
                    continue
                cells = j.get("card", j["p"]) ** (len(j["proj"][x]) - len(gone))
                out.append({"job": k, "mode": "uniform", "name": f"{j['name']} view {j['proj'][x]}", "cells": cells,
                            "runs": r["runs"] - r["bad"], "counts": [v for _, v in c]})
            else:
                groups.setdefault((j["group"], x), []).append((k, j, {tuple(a): b for a, b in c}, r["runs"] - r["bad"]))
    for (g, x), l in groups.items():
        k0, j0, h0, n0 = l[0]
        for k, j, h, n in l[1:]:
            m = min(n, n0)
            pairs = [[h.get(c, 0), h0.get(c, 0)] for c in sorted(set(h) | set(h0))]
            out.append({"job": k, "mode": "same", "name": f"{j['name']} view {j['proj'][x]}", "runs": m, "pairs": pairs})
    return out
