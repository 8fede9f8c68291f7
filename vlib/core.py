"""Shared machinery: building harnesses, running TLC, evidence, violations, known findings."""
import json, os, re, subprocess, sys, time, shutil, random, hashlib, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(BUILD, "target")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Ctx:
    """One check run of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}-{seed}")
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.violations = []          # (key, description, payload)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.evaluations = 0
        self.nontrivial = 0
        self.rule = ""

    @property
    def quick(self):
        return self.tier != "thorough"

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def violate(self, key, desc, payload):
        self.violations.append((key, desc, payload))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:300])


def _env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    e.pop("RUSTFLAGS", None)
    return e


def build(ctx, crate, bins=None):
    """Build a harness crate against /repo's current working tree; returns the path of its binary."""
    d = os.path.join(VERIF, "harness", crate)
    t = time.time()
    cmd = ["cargo", "build", "--offline", "--quiet"]
    if bins:
        for b in bins:
            cmd += ["--bin", b]
    lock = os.path.join(d, "Cargo.lock")
    before = open(lock, "rb").read() if os.path.exists(lock) else None
    r = subprocess.run(cmd, cwd=d, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    after = open(lock, "rb").read() if os.path.exists(lock) else None
    if before is not None and after != before:
        open(lock, "wb").write(before)
    if r.returncode != 0:
        raise ToolError(f"build of {crate} failed:\n" + r.stdout[-6000:])
    ctx.log(f"built {crate} in {time.time() - t:.1f}s")
    return os.path.join(TARGET, "debug")


def run(cmd, timeout, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, timeout=timeout, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, input=stdin, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ""
        if isinstance(out, bytes):
            out = out.decode("utf8", "replace")
        return None, out


def tlc(ctx, module, cfg=None, env=None, timeout=600, workers="auto", extra=(), heap="4g", deque=False, count=True):
    """Run TLC on spec/<module>.tla; returns (ok, output)."""
    d = os.path.join(SPEC, os.path.dirname(module))
    m = os.path.basename(module)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=ctx.work)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC"]
    if deque:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    lib = os.pathsep.join([os.path.join(SPEC, x) for x in sorted(os.listdir(SPEC)) if os.path.isdir(os.path.join(SPEC, x))])
    cmd += [f"-DTLA-Library={lib}", "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
            "-workers", str(workers), "-config", cfg or (m + ".cfg")]
    cmd += list(extra) + [m + ".tla"]
    rc, out = run(cmd, timeout, env=env, cwd=d)
    shutil.rmtree(meta, ignore_errors=True)
    if rc is None:
        raise ToolError(f"TLC {module} timed out after {timeout}s\n" + out[-2000:])
    if count:
        mt = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
        if mt:
            g, s = mt[-1]
            ctx.transitions += int(g.replace(",", ""))
            ctx.states += int(s.replace(",", ""))
        mt = re.findall(r"The number of states generated: ([\d,]+)", out)
        if mt:
            ctx.transitions += int(mt[-1].replace(",", ""))
    return rc == 0, out


def model_check(ctx, module, cfg=None, **kw):
    """Model check a specification; a failure here is a failure of the design model (tool error)."""
    t = time.time()
    s0, t0 = ctx.states, ctx.transitions
    ok, out = tlc(ctx, module, cfg, **kw)
    if not ok:
        raise ToolError(f"model checking of {module} ({cfg}) failed:\n" + out[-5000:])
    ctx.log(f"model {cfg or module}: {ctx.states - s0} states, {ctx.transitions - t0} transitions, {time.time() - t:.1f}s")
    ctx.sample(f"TLC {cfg or module}: {ctx.states - s0} distinct states, {ctx.transitions - t0} transitions, no error")
    return out


def printed(out, tag):
    """Values printed with PrintT(<<tag, ToJson(x)>>)."""
    res = []
    pat = re.compile(r'<<\s*"' + re.escape(tag) + r'",\s*("(?:[^"\\]|\\.)*")\s*>>', re.S)
    for m in pat.finditer(out):
        s = m.group(1)
        res.append(json.loads(json.loads(s.replace("\n", ""))))
    return res


def report_trace(ctx, module, trace, timeout=600, env=None, chunk=None):
    """Validate a recorded history; returns the REPORT record."""
    e = {"TRACE": trace}
    if env:
        e.update(env)
    ok, out = tlc(ctx, module, env=e, timeout=timeout, workers=1)
    rep = printed(out, "REPORT")
    if not ok or not rep:
        raise ToolError(f"trace validation {module} failed to run:\n" + out[-5000:])
    return rep[-1]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def finish(ctx, level, extra=None):
    """Write evidence, print violations and known findings, return the exit code."""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    kf = [k for k in known_findings() if k["property"] == ctx.prop]
    real = []
    hit = {}
    for key, desc, payload in ctx.violations:
        f = next((k for k in kf if k["key"] == key), None)
        if f:
            hit[f["key"]] = f
        else:
            real.append((key, desc, payload))
    for f in hit.values():
        print(f"KNOWN-FINDING: property={ctx.prop} {f['what']}")
    rd = os.path.join(VERIF, "replays")
    n = 0
    seen = set()
    for key, desc, payload in real:
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, f"{ctx.prop}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.json")
        json.dump({"property": ctx.prop, "key": key, "description": desc, "seed": ctx.seed, "payload": payload}, open(p, "w"), indent=1, default=str)
        print(f"{desc}")
        print(f"VIOLATION property={ctx.prop} replay={p}")
        n += 1
        if n >= 5:
            break
    cov = {}
    if level == "model_checking":
        cov = {"states": ctx.states, "transitions": ctx.transitions,
               "traces_validated_against_impl": ctx.traces, "samples": ctx.samples or ["none"]}
    else:
        cov = {"evaluations": max(1, ctx.evaluations), "distinct_nontrivial": ctx.nontrivial, "rule": ctx.rule, "samples": ctx.samples or ["none"]}
    cov.update({"events_validated": ctx.events})
    if extra:
        cov.update(extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 1), "violations": len(real)}
    ev["coverage"].update(ctx.notes)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1)
    ctx.log(f"done: {len(real)} violations, {ctx.traces} traces, {ctx.events} events, {ctx.states} states")
    return 1 if real else 0
