"""V01: witness extension. Programs of a circom-like language, compiled to bytecode and run on every backend of the virtual machine."""
from .core import *
from .mpc import *

CMP = ["Lt", "Le", "Gt", "Ge", "Eq", "Neq"]


class Code:
    """Layout of programs as bytecode: the mirror of CE/CS in Circom.tla, which re-checks its result."""

    def __init__(self):
        self.consts = []

    def k(self, v):
        if v not in self.consts:
            self.consts.append(v)
        return self.consts.index(v)

    def at(self, e):
        return self.e(e[3]) + [["ToIndex"], ["PushIndex", e[2]], ["MulIndex"], ["PushIndex", e[1]], ["AddIndex"]]

    def e(self, e):
        t = e[0]
        if t == "c":
            return [["PushConstant", self.k(e[1])]]
        if t in ("v", "s"):
            return [["PushIndex", e[1]], ["LoadVars" if t == "v" else "LoadSignals", 1]]
        if t in ("vi", "si"):
            return self.at(e) + [["LoadVars" if t == "vi" else "LoadSignals", 1]]
        if t == "o":
            return [["PushIndex", e[2]], ["PushIndex", e[1]], ["OutputSubComp", 0, 0, 1]]
        if t == "om":
            return [["PushIndex", e[3]], ["PushIndex", e[1]], ["OutputSubComp", 1, e[2], 1]]
        if t == "Neg":
            return self.e(e[1]) + [["Neg"]]
        if t == "EqN":
            return self.es(e[1]) + self.es(e[2]) + [["Eq", len(e[1])]]
        if t == "Eq":
            return self.e(e[1]) + self.e(e[2]) + [["Eq", 1]]
        return self.e(e[1]) + self.e(e[2]) + [[t]]

    def es(self, es):
        return [i for e in es for i in self.e(e)]

    def s(self, s):
        t = s[0]
        if t in ("sv", "ss"):
            return self.es(s[2]) + [["PushIndex", s[1]], ["StoreVars" if t == "sv" else "StoreSignals", len(s[2])]]
        if t in ("svi", "ssi"):
            return self.e(s[4]) + self.at(s) + [["StoreVars" if t == "svi" else "StoreSignals", 1]]
        if t == "if":
            c, a, b = self.e(s[1]), self.b(s[2]), self.b(s[3])
            return c + [["If", len(a) + 2]] + a + ([["EndTruthyBranch", len(b) + 2]] + b + [["EndFalsyBranch"]] if s[3] else [["EndTruthyBranch", 0]])
        if t == "while":
            c, b = self.e(s[1]), self.b(s[2])
            return c + [["JumpIfFalse", len(b) + 2]] + b + [["JumpBack", len(b) + len(c) + 1]]
        if t == "call":
            return self.es(s[2]) + [["Call", s[1], s[3]], ["PushIndex", s[4]], ["StoreVars", s[3]]]
        if t == "ret":
            return self.e(s[1]) + [["ReturnFun"]]
        if t == "retn":
            return [["PushIndex", s[1]], ["ReturnFun"]]
        if t == "as":
            return self.e(s[1]) + [["Assert", 1]]
        if t == "log":
            return self.e(s[1]) + [["Log"], ["LogString", 0], ["LogFlush", 1]]
        if t == "mk":
            return [["PushIndex", s[2]], ["PushIndex", s[3]], ["CreateCmp", s[1], s[4]]]
        if t == "in":
            return self.es(s[3]) + [["PushIndex", s[2]], ["PushIndex", s[1]], ["InputSubComp", 0, 0, len(s[3])]]
        return self.es(s[4]) + [["PushIndex", s[3]], ["PushIndex", s[1]], ["InputSubComp", 1, s[2], len(s[4])]]

    def b(self, ss):
        return [i for s in ss for i in self.s(s)]


class Scope:
    def __init__(self, kind, mode):
        self.kind, self.mode = kind, mode
        self.vars, self.arrays, self.sigs, self.outsig, self.comps = [], [], [], [], []  # vars: (offset, kind); kinds pub any bool cnt
        self.nv, self.shared, self.inner, self.loops, self.rets, self.uses_loops = 0, 0, 0, 0, 0, False
        self.counters = []

    def var(self, kind):
        self.vars.append((self.nv, kind))
        self.nv += 1
        return self.nv - 1

    def array(self, n):
        o = self.nv
        self.arrays.append((o, n))
        for k in range(n):
            self.vars.append((o + k, "any"))
        self.nv += n
        return o


class Gen:
    """Random programs that stay within what every chosen backend supports."""

    def __init__(self, rng, p, mode):
        self.rng, self.p, self.mode = rng, p, mode
        self.funs, self.templs = {}, {}
        self.budget = 60
        # operations on values that may be shared
        self.arith = {"full": ["Add", "Sub", "Mul", "Mul", "Div"], "shamir": ["Add", "Sub", "Mul", "Mul", "Div"], "batch": ["Add", "Sub", "Mul", "Mul"]}[mode]

    # ---- expressions
    def const(self):
        r = self.rng
        return ["c", r.choice([0, 1, 2, 3, r.randrange(self.p), self.p - 1, self.p // 2, self.p // 2 + 1])]

    def pub(self, sc, d=2):
        r = self.rng
        opts = [self.const]
        v = [o for o, k in sc.vars if k in ("pub", "cnt")]
        g = [o for o, k in sc.sigs if k == "pub"]
        if v:
            opts += [lambda: ["v", r.choice(v)]] * 2
        if g:
            opts += [lambda: ["s", r.choice(g)]] * 2
        if d > 0:
            ops = ["Add", "Sub", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Neq", "Lt", "Ge", "ShiftR", "Neg", "IntDiv", "Mod", "Pow"] if self.mode != "batch" else ["Add", "Sub", "Mul", "Lt", "Mod"]

            def op():
                o = r.choice(ops)
                a = self.pub(sc, d - 1)
                if o == "Neg":
                    return ["Neg", a]
                if o in ("ShiftR", "Pow"):
                    return [o, a, ["c", r.randrange(6)]]
                if o in ("IntDiv", "Mod"):
                    return [o, a, ["c", r.choice([1, 2, 3, 4, 7, 8, 100])]]
                return [o, a, self.pub(sc, d - 1)]

            opts += [op] * 3
        return r.choice(opts)()

    def pubcond(self, sc):
        r = self.rng
        if self.mode == "batch":
            return ["Lt", self.pub(sc, 1), self.pub(sc, 1)]
        return [r.choice(CMP), self.pub(sc, 1), r.choice([self.pub(sc, 1), self.const()])]

    def leaf(self, sc):
        r = self.rng
        opts = [self.const]
        if sc.vars:
            opts += [lambda: ["v", r.choice(sc.vars)[0]]] * 3
        if sc.sigs:
            opts += [lambda: ["s", r.choice(sc.sigs)[0]]] * 3
        if sc.arrays and sc.counters:
            opts += [lambda: (lambda a: ["vi", a[0], 1, self.index(sc, a[1])])(r.choice(sc.arrays))] * 2
        if sc.comps:
            opts += [lambda: self.out(sc)] * 3
        return r.choice(opts)()

    def out(self, sc):
        r = self.rng
        c, t, _ = r.choice(sc.comps)
        T = self.templs[t]
        k = r.randrange(T["outs"])
        if T["map"] and r.random() < 0.5:
            m = r.choice([j for j, o in enumerate(T["map"]) if o <= k])
            return ["om", c, m, k - T["map"][m]]
        return ["o", c, k]

    def index(self, sc, n):
        """A public index below n."""
        r = self.rng
        cs = [o for o, b in sc.counters if b <= n]
        if cs and r.random() < 0.8:
            return ["v", r.choice(cs)]
        return ["c", r.randrange(n)]

    def any(self, sc, d=2):
        r = self.rng
        if d <= 0 or r.random() < 0.25:
            return self.leaf(sc)
        x = r.random()
        if x < 0.55 or self.mode == "batch":
            o = r.choice(self.arith)
            b = self.any(sc, d - 1)
            if o == "Div":
                b = r.choice([b, self.leaf(sc), ["c", r.randrange(1, self.p)], ["Add", ["Mul", b, b], ["c", 1]]])
            return [o, self.any(sc, d - 1), b]
        if x < 0.62:
            return ["Neg", self.any(sc, d - 1)]
        if x < 0.7:
            return self.bool(sc, d - 1)
        if self.mode == "shamir":
            return self.pub(sc, d)
        o = r.choice(CMP + ["BitAnd", "BitOr", "BitXor", "IntDiv", "Mod", "Pow", "ShiftR", "ShiftL", "EqN"])
        a = self.any(sc, d - 1)
        if o in ("Pow", "ShiftR", "ShiftL"):
            return [o, a, ["c", r.randrange(9)]]
        if o in ("IntDiv", "Mod"):
            return [o, a, r.choice([["c", r.choice([1, 2, 3, 4, 7, 8, 100, self.p - 1])], ["Add", ["BitAnd", self.leaf(sc), ["c", 7]], ["c", 1]]])]
        if o == "EqN":
            n = r.choice([2, 3])
            xs = [self.leaf(sc) for _ in range(n)]
            return [o, xs, [x if r.random() < 0.7 else self.leaf(sc) for x in xs]]
        return [o, a, self.any(sc, d - 1)]

    def bool(self, sc, d=1):
        """An expression that is 0 or 1 and may be shared."""
        r = self.rng
        b = [["v", o] for o, k in sc.vars if k == "bool"] + [["s", o] for o, k in sc.sigs if k == "bool"]
        if self.mode != "full":
            opts = [lambda: r.choice(b)] * 3 if b else [lambda: ["c", r.randrange(2)]]
        else:
            opts = ([lambda: r.choice(b)] * 2 if b else []) + [lambda: [r.choice(CMP), self.leaf(sc), r.choice([self.leaf(sc), self.const()])]] * 3
        if d > 0:
            opts += [lambda: [r.choice(["BoolAnd", "BoolOr"]), self.bool(sc, d - 1), self.bool(sc, d - 1)]] * (2 if self.mode != "batch" else 0)
            opts += [lambda: ["Sub", ["c", 1], self.bool(sc, d - 1)]]
        return r.choice(opts)()

    # ---- statements
    def dest(self, sc, kind):
        v = [o for o, k in sc.vars if k == kind]
        if not v or self.rng.random() < 0.1:
            return sc.var(kind)
        return self.rng.choice(v)

    def block(self, sc, d, n):
        out = []
        for _ in range(self.rng.randrange(1, n + 1)):
            out += self.stmt(sc, d)
        return out

    def stmt(self, sc, d):
        r = self.rng
        self.budget -= 1
        opts = ["any"] * 5 + ["bool"] * 2
        if not sc.shared:
            opts += ["pub"]
        if sc.arrays:
            opts += ["arr"]
        if sc.outsig:
            opts += ["sig"] * 3
        if d > 0 and self.budget > 0:
            if self.mode != "batch":
                opts += ["if"] * 4 + ["pubif"] * 3
            if not sc.shared:
                opts += ["while"] * 2
        if sc.kind == "fun" and (sc.shared or d < 2) and d < 2:
            opts += ["ret"]
        if self.funs or (self.mode == "full" and sc.kind == "templ" and not sc.shared):
            opts += ["call"] * 2
        opts += ["log"] if r.random() < 0.3 else []
        if r.random() < 0.35:
            opts += ["as"] * 2
        if sc.kind == "templ" and not sc.shared and not sc.loops and not sc.inner and self.templs:
            opts += ["comp"] * 2
        k = r.choice(opts)
        if k == "any":
            v = [o for o, q in sc.vars if q == "any"]
            if v and r.random() < 0.15:
                o = r.choice(v)
                m = 1
                while (o + m, "any") in sc.vars and m < 3:
                    m += 1
                return [["sv", o, [self.any(sc, 1) for _ in range(m)]]]
            e = self.any(sc, 2)
            return [["sv", self.dest(sc, "any"), [e]]]
        if k == "bool":
            e = self.bool(sc)
            return [["sv", self.dest(sc, "bool"), [e]]]
        if k == "pub":
            e = self.pub(sc)
            sc.uses_loops = True  # such a store is not possible when a shared condition is active in the caller
            return [["sv", self.dest(sc, "pub"), [e]]]
        if k == "arr":
            o, n = r.choice(sc.arrays)
            return [["svi", o, 1, self.index(sc, n), self.any(sc, 2)]]
        if k == "sig":
            if len(sc.outsig) > 1 and sc.counters and r.random() < 0.5:
                n = len(sc.outsig)
                return [["ssi", sc.outsig[0], 1, self.index(sc, n), self.any(sc, 2)]]
            if len(sc.outsig) > 1 and r.random() < 0.2:
                i = r.randrange(len(sc.outsig) - 1)
                return [["ss", sc.outsig[i], [self.any(sc, 1), self.any(sc, 1)]]]
            return [["ss", r.choice(sc.outsig), [self.any(sc, 2)]]]
        if k in ("if", "pubif"):
            c = self.bool(sc) if k == "if" else self.pubcond(sc)
            sc.shared += k == "if"
            sc.inner += 1
            a = self.block(sc, d - 1, 3)
            b = self.block(sc, d - 1, 2) if r.random() < 0.55 else []
            sc.shared -= k == "if"
            sc.inner -= 1
            return [["if", c, a, b]]
        if k == "while":
            sc.uses_loops = True
            n = r.randrange(1, 4)
            cnt = sc.var("cnt")
            sc.counters.append((cnt, n))
            sc.loops += 1
            body = self.block(sc, d - 1, 3)
            sc.loops -= 1
            sc.counters.pop()
            i = [k for k, v in enumerate(sc.vars) if v[0] == cnt][0]
            sc.vars[i] = (cnt, "done")
            return [["sv", cnt, [["c", 0]]], ["while", ["Lt", ["v", cnt], ["c", n]], body + [["sv", cnt, [["Add", ["v", cnt], ["c", 1]]]]]]]
        if k == "ret":
            return [self.ret(sc)]
        if k == "call":
            if self.mode == "full" and sc.kind == "templ" and not sc.shared and (r.random() < 0.3 or not self.funs):
                x = self.leaf(sc)
                return [["call", "sqrt_0", [["Mul", x, x] if r.random() < 0.9 else x], 1, self.dest(sc, "any")]]
            fs = [f for f, F in self.funs.items() if not (F["loops"] and sc.shared)]
            if not fs:
                return []
            f = r.choice(fs)
            F = self.funs[f]
            args = [self.pub(sc, 1) if k == "pub" else self.bool(sc, 0) if k == "bool" else self.any(sc, 1) for k in F["kinds"]]
            o = self.dest(sc, "any") if F["rets"] == 1 else sc.array(F["rets"])
            sc.uses_loops = sc.uses_loops or F["loops"]
            return [["call", f, args, F["rets"], o]]
        if k == "log":
            return [["log", self.leaf(sc)]]
        if k == "as":
            if self.mode == "batch":
                return []
            if self.mode == "shamir":
                return [["as", r.choice([["c", 5], ["Eq", self.pub(sc, 0), self.pub(sc, 0)] if r.random() < 0.2 and not sc.inner and sc.kind == "templ" else ["c", 1]])]]
            a = self.any(sc, 1)
            return [["as", r.choice([["Add", ["BitAnd", a, ["c", 14]], ["c", 1]], ["BoolOr", self.bool(sc, 0), self.bool(sc, 0)], ["Eq", a, a], self.bool(sc) if sc.shared or r.random() < 0.3 else ["Le", a, a]])]]
        return self.comp(sc)

    def ret(self, sc):
        if sc.rets == 1:
            return ["ret", self.any(sc, 2)]
        return ["retn", sc.arrays[0][0] if self.rng.random() < 0.6 else self.rng.choice([o for o in range(sc.nv)]), sc.rets]

    def fun(self, name):
        r = self.rng
        sc = Scope("fun", self.mode)
        kinds = [r.choice(["any", "any", "bool", "pub"]) for _ in range(r.randrange(1, 4))]
        for k in kinds:
            sc.var(k)
        sc.rets = r.choice([1, 1, 1, 2, 3])
        if sc.rets > 1 or r.random() < 0.3:
            sc.array(max(sc.rets, 2))
        self.budget = 14
        body = self.block(sc, 2, 4)
        body = [s for s in body if s[0] not in ("ret", "retn")]
        if r.random() < 0.35 and self.mode != "batch":
            c = self.bool(sc)
            body.append(["if", c, [self.ret(sc)], [self.ret(sc)]])
        else:
            body.append(self.ret(sc))
        self.funs[name] = {"params": len(kinds), "vars": sc.nv, "body": body, "kinds": kinds, "rets": sc.rets, "loops": sc.uses_loops}

    def lib(self, name):
        r = self.rng
        if name == "Num2Bits":
            n = r.choice([self.p.bit_length(), 4, 8])
            self.templs[name] = {"name": name, "ins": 1, "outs": n, "subs": 0, "vars": 0, "map": [], "body": [], "size": n + 1, "kinds": ["small" if n < self.p.bit_length() else "any"]}
        elif name == "AddBits":
            n = r.choice([2, 3, 5])
            self.templs[name] = {"name": name, "ins": 2 * n, "outs": n, "subs": 0, "vars": 0, "map": [], "body": [], "size": 3 * n + 1, "kinds": ["bool"] * (2 * n)}
        else:
            self.templs[name] = {"name": name, "ins": 1, "outs": 1, "subs": 0, "vars": 0, "map": [], "body": [], "size": 3, "kinds": ["any"]}

    def comp(self, sc):
        """Create, feed and (later) read sub-components."""
        r = self.rng
        t = r.choice(list(self.templs))
        T = self.templs[t]
        n = r.choice([1, 1, 2])
        first, out = len(sc.made), [["mk", t, sc.size, T["size"], n]]
        order = []
        for i in range(n):
            sc.made.append(t)
            k = 0
            while k < T["ins"]:
                m = min(r.choice([1, 1, 2]), T["ins"] - k)
                order.append((first + i, k, m))
                k += m
        sc.size += n * T["size"]
        r.shuffle(order)
        for c, k, m in order:
            es = [self.arg(sc, T["kinds"][k + j]) for j in range(m)]
            if T["map"] and r.random() < 0.5:
                x = r.choice([j for j, o in enumerate(T["map"]) if o <= T["outs"] + k])
                out.append(["inm", c, x, T["outs"] + k - T["map"][x], es])
            else:
                out.append(["in", c, T["outs"] + k, es])
            if r.random() < 0.2:
                out += [["sv", self.dest(sc, "any"), [self.any(sc, 1)]]]
        for i in range(n):
            sc.comps.append((first + i, t, T))
        return out

    def arg(self, sc, kind):
        if kind == "pub":
            return self.pub(sc, 1)
        if kind == "bool":
            return self.bool(sc, 0)
        if kind == "small":
            return ["BitAnd", self.leaf(sc), ["c", 7]] if self.mode == "full" else self.bool(sc, 0)
        return self.any(sc, 1)

    def templ(self, name, main=False):
        r = self.rng
        sc = Scope("templ", self.mode)
        sc.made = []
        kinds = [r.choice(["any", "any", "bool", "pub"]) for _ in range(r.randrange(2, 6) if main else r.randrange(0 if r.random() < 0.2 else 1, 4))]
        outs, mids = r.randrange(0 if main else 1, 4), r.randrange(0, 4)
        ins = len(kinds)
        sc.sigs = [(outs + i, k) for i, k in enumerate(kinds)]
        sc.outsig = list(range(outs))
        sc.size = outs + ins + mids
        if mids and r.random() < 0.7:
            # intermediate signals are written as well
            sc.outsig = sc.outsig if outs and r.random() < 0.3 else list(range(outs + ins, outs + ins + mids))
        if r.random() < 0.5:
            sc.array(r.randrange(2, 4))
        for k in ("any", "bool", "pub"):
            sc.var(k)
        self.budget = 30 if main else 8
        body = self.block(sc, 3 if main else 2, 8 if main else 4)
        for i in range(outs):
            if r.random() < 0.8:
                body.append(["ss", i, [self.any(sc, 2)]])
        m = sorted(r.sample(range(outs + ins + mids), min(3, outs + ins + mids))) if r.random() < 0.7 else []
        if m and 0 not in m:
            m = [0] + m
        r.shuffle(m)
        self.templs[name] = {"name": name, "ins": ins, "outs": outs, "subs": len(sc.made), "vars": sc.nv, "map": m, "body": body, "size": sc.size, "kinds": kinds}


def assemble(g, main, p):
    co = Code()
    funs = {n: {"params": F["params"], "vars": F["vars"], "body": F["body"], "code": co.b(F["body"]) + [["ReturnSharedIfFun"]]} for n, F in g.funs.items()}
    templs = {n: {k: T[k] for k in ("name", "ins", "outs", "subs", "vars", "map", "body")} | {"code": co.b(T["body"]) + [["Return"]]} for n, T in g.templs.items()}
    M = g.templs[main]
    return {"main": main, "nsig": 1 + M["size"], "consts": co.consts or [0], "funs": funs, "templs": templs}


def edge(rng, p):
    return rng.choice([0, 1, 2, p - 1, p // 2, p // 2 + 1, rng.randrange(p), rng.randrange(p), rng.randrange(8)])


def value(rng, p, kind):
    return rng.randrange(2) if kind == "bool" else rng.choice([rng.randrange(4), edge(rng, p)])


def make(ctx, k, mode, p):
    rng = ctx.rng
    g = Gen(rng, p, mode)
    if mode != "batch":
        for i in range(rng.randrange(0, 3)):
            g.fun(f"f{i}")
    libs = {"full": ["Num2Bits", "AddBits", "IsZero"], "shamir": [], "batch": ["AddBits"]}[mode]
    for name in libs:
        if rng.random() < 0.4:
            g.lib(name)
    for i in range(rng.randrange(0, 3)):
        g.templ(f"t{i}")
    g.templ("main", main=True)
    M = g.templs["main"]
    prog = assemble(g, "main", p)
    ins, outs = M["ins"], M["outs"]
    rest = [1 + outs + i for i in range(ins)]
    # names of the inputs: single signals and arrays
    names, i = [], 0
    while i < ins:
        n = min(rng.choice([1, 1, 2, 3]), ins - i)
        names.append([f"in{i}", 1 + outs + i, n])
        i += n
    amount = rng.choice([0, 0, 1, ins])
    amount = min(amount, ins)
    tail = rest[amount:] + list(range(1 + outs + ins, prog["nsig"]))
    keep = [s for s in tail if rng.random() < 0.9]
    prog["w2s"] = list(range(0, 1 + outs)) + rest[:amount] + keep
    prog["inlist"] = names
    elems = rng.choice([1, 2, 3]) if mode == "batch" else 1
    pubs = [kk == "pub" or rng.random() < 0.1 for kk in M["kinds"]]
    rows = [[value(rng, p, kk) for kk in M["kinds"]] for _ in range(elems)]
    for i, kk in enumerate(M["kinds"]):
        if kk == "pub" and elems > 1:
            for row in rows:
                row[i] = rows[0][i]
    backs = {"full": ["plain", "rep3", "rep3y"][: 3 if k % 4 == 0 else 2], "shamir": ["plain", "shamir", "rep3"], "batch": ["plain", "bplain", "brep3"]}[mode]
    n, t = rng.choice([(3, 1), (3, 1), (4, 1), (5, 2)])
    return {"p": p, "prog": prog, "inputs": rows, "pubs": pubs, "amount": amount, "flat": rng.random() < 0.4, "leaky": rng.random() < 0.3, "seed": ctx.seed * 10000 + k, "backends": backs, "sh": [n, t, 200]}


def structured(ctx, k):
    """Nested branches, early returns, loops with returns: the shapes in which a branch that is not taken could be noticed."""
    r = ctx.rng
    p = r.choice([257, 12289, 40961])
    S = lambda o: ["s", o]
    conds = [S(2), S(4), ["Eq", S(3), ["c", 0]], ["Sub", ["c", 1], S(2)], ["BoolAnd", S(2), S(4)]]
    leaf = lambda: r.choice([["ss", 0, [S(3)]], ["ss", 1, [["Add", S(0), ["c", 1]]]], ["sv", 0, [["Div", ["c", 1], S(3)]]], ["as", S(3)], ["as", r.choice(conds)], ["svi", 0, 1, S(4), ["Div", S(2), S(3)]]])

    def nest(d):
        if d == 0:
            return leaf()
        return ["if", r.choice(conds), [nest(d - 1 if r.random() < 0.8 else 0) for _ in range(r.choice([1, 1, 2]))], [nest(d - 1 if r.random() < 0.6 else 0)] if r.random() < 0.6 else []]
    fc = [["Eq", ["v", 0], ["c", 0]], ["v", 1], ["v", 2]]
    ra = lambda: r.choice([["ret", ["c", r.randrange(4)]], ["ret", ["Div", ["c", 1], ["v", 0]]], ["ret", ["Add", ["v", 0], ["v", 3]]]])

    def fstmt(d):
        x = r.random()
        if d == 0 or x < 0.15:
            return r.choice([ra(), ["as", ["v", 0]], ["sv", 3, [["Div", ["c", 1], ["v", 0]]]]])
        return ["if", r.choice(fc), [fstmt(d - 1)], [fstmt(d - 1)] if r.random() < 0.4 else []]
    loop = ["while", ["Lt", ["v", 4], ["c", 3]], [["if", ["Eq", ["v", 0], ["v", 4]], [["ret", ["Add", ["v", 4], ["c", 5]]]], []], ["sv", 3, [["Add", ["v", 3], ["v", 0]]]], ["sv", 4, [["Add", ["v", 4], ["c", 1]]]]]]
    fbody = [s for s in (fstmt(2) for _ in range(r.choice([1, 2, 3]))) if s[0] != "ret"]
    looping = r.random() < 0.25
    if looping:
        fbody.insert(r.randrange(len(fbody) + 1), loop)
    if r.random() < 0.4:
        g = ["call", "g", [["v", 0]], 1, 3]
        fbody.append(["if", r.choice(fc), [g], []] if r.random() < 0.5 else g)
    fbody += [["if", r.choice(fc), [ra()], [ra()]] if r.random() < 0.3 else ra()]
    gb = [["if", ["Eq", ["v", 0], ["c", r.randrange(3)]], [["ret", ["c", 7]]], []], ["ret", ["Div", ["c", 1], ["v", 0]]]]
    call = ["call", "f", [S(3), S(4), S(2)], 1, 0]
    body = [nest(r.choice([1, 2, 3])) for _ in range(r.choice([0, 1, 2]))]
    body.append(call if looping or r.random() < 0.4 else ["if", r.choice(conds), [call], [["sv", 0, [["c", 1]]]] if r.random() < 0.4 else []])
    body += [["ss", 0, [["v", 0]]]] + [nest(r.choice([1, 2])) for _ in range(r.choice([0, 1]))] + [["ss", 1, [["Add", S(1), ["v", 1]]]]]
    co = Code()
    M = {"name": "main", "ins": 3, "outs": 2, "subs": 0, "vars": 2, "map": [], "body": body}
    M["code"] = co.b(body) + [["Return"]]
    fb, gbc = co.b(fbody) + [["ReturnSharedIfFun"]], co.b(gb) + [["ReturnSharedIfFun"]]
    prog = {"main": "main", "nsig": 6, "consts": co.consts or [0], "templs": {"main": M},
            "funs": {"f": {"params": 3, "vars": 5, "body": fbody, "code": fb}, "g": {"params": 1, "vars": 1, "body": gb, "code": gbc}},
            "w2s": list(range(6)), "inlist": [["a", 3, 1], ["b", 4, 1], ["c", 5, 1]]}
    return {"p": p, "prog": prog, "inputs": [[r.randrange(2), r.choice([0, 0, 1, 2, r.randrange(p)]), r.randrange(2)]], "pubs": [r.random() < 0.2, r.random() < 0.2, True], "amount": 0, "flat": True, "leaky": False,
            "seed": ctx.seed * 10000 + k, "backends": ["plain", "rep3", "rep3y"] if k % 5 == 0 else ["plain", "rep3"], "sh": [3, 1, 10]}


BINARY = ["Add", "Sub", "Mul", "Div", "IntDiv", "Mod", "Lt", "Le", "Gt", "Ge", "Eq", "Neq", "BitAnd", "BitOr", "BitXor", "BoolAnd", "BoolOr", "Pow", "ShiftR", "ShiftL"]


def pairs(ctx, k, op, p, a, b, sa, sb, backends):
    """One operation on every combination of public and shared operands."""
    co = Code()
    e = [op, ["s", 2], ["s", 3]] if op != "Neg" else ["Neg", ["s", 2]]
    body = [["ss", 0, [e]]]
    M = {"name": "main", "ins": 2, "outs": 1, "subs": 0, "vars": 0, "map": [], "body": body}
    M["body"] = [["ss", 0, [[op, ["s", 1], ["s", 2]] if op != "Neg" else ["Neg", ["s", 1]]]]]
    M["code"] = co.b(M["body"]) + [["Return"]]
    prog = {"main": "main", "nsig": 4, "consts": [0], "funs": {}, "templs": {"main": M}, "w2s": [0, 1, 2, 3], "inlist": [["a", 2, 1], ["b", 3, 1]]}
    return {"p": p, "prog": prog, "inputs": [[a, b]], "pubs": [not sa, not sb], "amount": 0, "flat": False, "leaky": True, "seed": ctx.seed * 10000 + k, "backends": backends, "sh": [3, 1, 10]}


def tables(ctx):
    """Every operation, with each operand public or shared, on values around its edges."""
    r = ctx.rng
    jobs = []
    for p in (257, 12289) if ctx.quick else (257, 12289, 40961):
        h = p // 2
        edges = [0, 1, 2, 3, h - 1, h, h + 1, h + 2, p - 2, p - 1]
        for op in BINARY + ["Neg"]:
            for sa, sb in ((False, False), (True, False), (False, True), (True, True)):
                if op in ("Pow", "ShiftR", "ShiftL") and sb:
                    continue
                if op == "Neg" and sb:
                    continue
                for _ in range(3 if ctx.quick else 12):
                    a, b = r.choice(edges + [r.randrange(p)] * 3), r.choice(edges + [r.randrange(p)] * 3)
                    if op in CMP and r.random() < 0.5:
                        b = r.choice([a, a, (a + 1) % p, (a - 1) % p])
                    if op in ("BitOr", "BitXor") and r.random() < 0.6:
                        a, b = r.sample([p - 1 - r.randrange(3), r.randrange(p), p // 2], 2)
                    if op in ("IntDiv", "Mod"):
                        b = r.choice([1, 1, 2, 3, 4, 8, h, p - 1, r.randrange(1, p)])
                    if op in ("BoolAnd", "BoolOr"):
                        a, b = r.randrange(2), r.randrange(2)
                    if op in ("Pow", "ShiftR", "ShiftL"):
                        b = r.choice([0, 1, 2, p.bit_length() - 1, p.bit_length() - 2, 5])
                    bk = ["plain", "rep3"]
                    if op in ("Add", "Sub", "Mul", "Div", "BoolAnd", "BoolOr", "Neg") or not (sa or sb):
                        bk.append("shamir")
                    if op in ("Add", "Sub", "Mul"):
                        bk += ["bplain", "brep3"]
                    jobs.append(pairs(ctx, len(jobs), op, p, a, b, sa, sb, bk))
    return jobs


def check(ctx):
    build(ctx, "vm", ["vm"])
    model_check(ctx, "vm/VmMC", "VmMC.cfg" if ctx.quick else "VmMC_thorough.cfg", timeout=800)

    def run(jobs, tag):
        recs = run_jobs(ctx, "vm", jobs, tag, timeout=800)
        jf = os.path.join(ctx.work, f"{tag}.programs")
        with open(jf, "w") as f:
            for j in jobs:
                f.write(json.dumps(j) + "\n")
        ctx.notes[tag] = merge_cov(judge(ctx, "vm/VmTrace", recs, jobs, tag, parts=8, env={"JOBS": jf}))
    run(tables(ctx), "operations")
    run([structured(ctx, k) for k in range(700 if ctx.quick else 6000)], "branches")
    modes = ["full", "full", "shamir", "batch"]
    run([make(ctx, k, modes[k % 4], [257, 12289, 40961][k % 3]) for k in range(900 if ctx.quick else 8000)], "programs")
    need = ["plain", "rep3", "rep3y", "shamir", "bplain", "brep3", "plain failing"]
    miss = [x for x in need if x not in ctx.notes["programs"]]
    if miss and not ctx.violations:
        raise ToolError(f"never exercised: {miss}")
    return finish(ctx, "model_checking")
