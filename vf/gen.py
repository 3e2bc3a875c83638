"""Type- and effect-directed generator of terminating programs whose meaning the
reference (ref.py) defines: no dependence on the order in which the arguments of one
call are evaluated, no unbound names, no type errors.

Types: i int, b bool, s string, y symbol, l list of ints, d printable data,
('f', argtypes, result, effect). Effects: 0 none, 1 trace/assign/read globals,
2 may also throw (only inside a try)."""
from .ref import S, Str, LIST, LISTREST, LAMBDA, LET, IF, DO, BEGIN, COND, AND, OR, MATCH, QUOTE, WHERE, ARROW, FUNC, DEFUN

NAMES = ["a", "b", "c", "x", "y", "n", "acc", "int", "co", "R", "x-y", "x_y", "f1", "_95", "while", "label"]
WORDS = ["", "a", "b", "abc", "hello world", "x\ty", "back\\slash", "per%cent", "%d%s", "quo\"te",
         "new\nline", "caf\xc3\xa9", "trail\\", "??/", "\\n", "0", "a#b"]
SYMS = ["a", "b", "foo", "x-y", "x_y", "if", "lambda", "+", "int", "a\\b", "ok", "cons", "caf\xc3\xa9", "-x"]
PAYLOAD = "i"


class Gen:
    def __init__(self, rng, size=60, feats=("throw", "deep", "match", "func", "over", "apply", "str")):
        self.r = rng
        self.left = size
        self.feats = set(feats)
        self.funcs = []        # (Sym, type)
        self.uniq = 0
        self.used = {}

    def use(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def ty(self, d=2):
        k = self.r.random()
        if k < 0.34:
            return "i"
        if k < 0.44:
            return "b"
        if k < 0.52:
            return "s"
        if k < 0.58:
            return "y"
        if k < 0.78:
            return "l"
        if k < 0.86 or d <= 0:
            return "d"
        n = self.r.randint(0, 3)
        return ("f", tuple(self.ty(d - 1) for _ in range(n)), self.ty(d - 1), self.r.choice([0, 0, 1, 1, 2]))

    def name(self):
        return S(self.r.choice(NAMES))

    # ---- effects among the arguments of one call
    def spread(self, n, eff):
        es = [0] * n
        if eff and n:
            es[self.r.randrange(n)] = eff
        return es

    def exprs(self, ts, env, d, eff):
        es = self.spread(len(ts), eff)
        return [self.expr(t, env, d, e) for t, e in zip(ts, es)]

    def vars(self, pred, env):
        seen, out = set(), []
        for n, t in reversed(env):
            if n not in seen:
                seen.add(n)
                if pred(t):
                    out.append((n, t))
        return out

    # ---- leaves
    def leaf(self, t, env):
        r = self.r
        vs = self.vars(lambda u: u == t or (t == "d" and not isinstance(u, tuple)), env)
        if vs and r.random() < 0.65:
            return r.choice(vs)[0]
        if t == "i":
            return r.choice([0, 1, 2, 3, 7, 10, -1, -5, 100, 4095, 65536, 1 << 31, 3000000000, -(1 << 40)]
                            if r.random() < 0.3 else list(range(-9, 10)))
        if t == "b":
            return r.random() < 0.5
        if t == "s":
            return Str(r.choice(WORDS if "str" in self.feats else WORDS[:5]))
        if t == "y":
            return [QUOTE, S(r.choice(SYMS))]
        if t == "l":
            k = r.randint(0, 3)
            if r.random() < 0.15:
                return [QUOTE, [r.randint(0, 9) for _ in range(k)]]
            return [LIST] + [r.randint(-3, 9) for _ in range(k)] if k else []
        if t == "d":
            if r.random() < 0.1:
                return [QUOTE, [S(r.choice(SYMS[:3])), [r.randint(0, 5)], Str("q")]]
            return self.leaf(r.choice("ibsyl"), env)
        # a function
        return self.lam(t, env, 0)

    def lam(self, t, env, d):
        _, ats, rt, eff = t
        used, ps = set(), []
        for _ in ats:
            p = self.name()
            while p in used:
                p = self.name()
            used.add(p)
            ps.append(p)
        env2 = env + list(zip(ps, ats))
        return [LAMBDA, ps, self.expr(rt, env2, d, eff)]

    # ---- expressions
    def expr(self, t, env, d, eff):
        self.left -= 1
        r = self.r
        if d <= 0 or self.left <= 0:
            if isinstance(t, tuple):
                vs = self.vars(lambda u: u == t, env)
                if vs:
                    return r.choice(vs)[0]
                if self.left < -60:
                    _, ats, rt, _e = t
                    return [LAMBDA, [S("p%d" % i) for i in range(len(ats))], self.leaf(rt, [])
                            if not isinstance(rt, tuple) else self.lam(rt, [], 0)]
            return self.leaf(t, env)
        k = r.random()
        if k < 0.16:
            return self.let(t, env, d, eff)
        if k < 0.24:
            self.use("if")
            return [IF, self.expr("b", env, d - 1, eff), self.expr(t, env, d - 1, eff), self.expr(t, env, d - 1, eff)]
        if k < 0.29:
            self.use("cond")
            cl = [[self.expr("b", env, d - 2, eff), self.expr(t, env, d - 1, eff)] for _ in range(r.randint(1, 2))]
            return [COND] + cl + [[True, self.expr(t, env, d - 1, eff)]]
        if k < 0.40 and eff:
            return self.effect(t, env, d, eff)
        if k < 0.47 and "match" in self.feats:
            return self.match(t, env, d, eff)
        if k < 0.62:
            c = self.call(t, env, d, eff)
            if c is not None:
                return c
        if k < 0.67 and "throw" in self.feats and d >= 2:
            return self.try_(t, env, d, eff)
        if k < 0.70 and eff == 2 and t == PAYLOAD:
            self.use("throw")
            return [S("throw"), self.expr(PAYLOAD, env, d - 1, eff)]
        if k < 0.75:
            return self.beta(t, env, d, eff)
        if isinstance(t, tuple):
            return self.fun(t, env, d, eff)
        return getattr(self, "x_" + t)(env, d, eff)

    def let(self, t, env, d, eff):
        self.use("let")
        r = self.r
        out = [LET]
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            bt = self.ty()
            n = self.name()
            out += [n, self.expr(bt, env, d - 1, eff)]
            env = env + [(n, bt)]
        return out + [self.expr(t, env, d - 1, eff)]

    def effect(self, t, env, d, eff):
        r = self.r
        self.use("effect")
        k = r.random()
        if k < 0.5:
            e = [S("set"), [QUOTE, S("tr")], [S("cons"), self.expr(r.choice("iiyd"), env, d - 2, 0), S("tr")]]
        elif k < 0.8:
            e = [S("set"), [QUOTE, S(r.choice(["g0", "g1"]))], self.expr("i", env, d - 1, eff)]
        elif t == "i":
            return S(r.choice(["g0", "g1"]))
        else:
            e = self.expr(self.ty(), env, d - 1, eff)
        body = self.expr(t, env, d - 1, eff)
        if r.random() < 0.3:
            return [BEGIN, e, self.expr("d", env, d - 2, eff), body]
        return [r.choice([DO, BEGIN]), e, body]

    # ---- calls
    def callables(self, t, env, eff):
        def ok(u):
            return isinstance(u, tuple) and u[3] <= eff and (u[2] == t or (isinstance(u[2], tuple) and u[2][2] == t and u[2][3] <= eff))
        vs = self.vars(ok, env)
        shadow = {n for n, _ in env}
        vs += [(n, u) for n, u in self.funcs if ok(u) and n not in shadow]
        return vs

    def call(self, t, env, d, eff):
        vs = self.callables(t, env, eff)
        if not vs:
            return None
        f, u = self.r.choice(vs)
        return self.apply(f, u, t, env, d, eff)

    def apply(self, f, u, t, env, d, eff):
        """f: expression without effects of function type u; the value has type t"""
        r = self.r
        ats = list(u[1])
        if u[2] != t:
            # over-application, or a call of the result
            ats2 = list(u[2][1])
            if r.random() < 0.6 and ats and "over" in self.feats:
                self.use("over")
                return [f] + self.exprs(ats + ats2, env, d - 1, 0 if eff < max(u[3], u[2][3]) else 0)
            es = self.exprs(ats, env, d - 1, 0)
            return [[f] + es] + self.exprs(ats2, env, d - 1, 0)
        k = r.random()
        if len(ats) >= 2 and k < 0.25:
            self.use("partial")
            cut = r.randint(1, len(ats) - 1)
            es = self.exprs(ats, env, d - 1, 0)
            if r.random() < 0.5:
                return [[f] + es[:cut]] + es[cut:]
            self.uniq += 1
            p = S("part%d" % self.uniq)
            return [LET, p, [f] + es[:cut], [p] + es[cut:]]
        if k < 0.35 and "apply" in self.feats:
            self.use("apply")
            return [S("apply"), f, [LIST] + self.exprs(ats, env, d - 1, 0)]
        if u[3] == 0:
            return [f] + self.exprs(ats, env, d - 1, eff)
        return [f] + self.exprs(ats, env, d - 1, eff if r.random() < 0.7 else 0)

    def beta(self, t, env, d, eff):
        self.use("beta")
        n = self.r.choice([0, 1, 1, 2, 3, 5])
        ats = []
        while len(ats) < n:
            ats.append(self.ty(1))
        u = ("f", tuple(ats), t, eff)
        # the operands are evaluated before the body
        return [self.lam(u, env, d - 1)] + self.exprs(ats, env, d - 1, eff)

    # ---- functions as values
    def fun(self, t, env, d, eff):
        r = self.r
        vs = self.vars(lambda u: u == t, env) + [(n, u) for n, u in self.funcs
                                                if u == t and n not in {m for m, _ in env}]
        if vs and r.random() < 0.4:
            return r.choice(vs)[0]
        _, ats, rt, e = t
        if r.random() < 0.2 and rt == "i" and ats == ("i",):
            self.use("partial")
            return [S(r.choice("+-*")), self.expr("i", env, d - 1, eff)]
        if r.random() < 0.2 and rt == "i" and ats == ("i", "i"):
            return S(r.choice("+-"))
        # partial application of a longer lambda
        if r.random() < 0.25 and len(ats) >= 1:
            self.use("partial")
            pre = [self.ty(0) for _ in range(r.randint(1, 2))]
            u = ("f", tuple(pre) + ats, rt, e)
            return [self.lam(u, env, d - 1)] + self.exprs(pre, env, d - 1, eff)
        return self.lam(t, env, d - 1)

    # ---- try / throw
    def try_(self, t, env, d, eff):
        r = self.r
        self.use("try")
        thunk = [LAMBDA, [], self.expr(t, env, d - 1, 2)]
        v, k = self.name(), self.name()
        while k is v:
            k = self.name()
        env2 = [(n, u) for n, u in env if n not in (v, k)] + [(v, PAYLOAD)]
        if eff == 0:
            eff = 0
        q = r.random()
        res = [k, self.expr(PAYLOAD, env2, d - 2, 0)]
        if q < 0.25:
            body = self.expr(t, env2, d - 1, eff)
        elif q < 0.5:
            body = res
        elif q < 0.65:
            body = [IF, self.expr("b", env2, d - 2, eff), res, self.expr(t, env2, d - 2, eff)]
        elif q < 0.8 and eff:
            body = [DO, [S("set"), [QUOTE, S("tr")], [S("cons"), v, S("tr")]], res]
        else:
            n = self.name()
            while n is k:
                n = self.name()
            body = [LET, n, res, self.expr(t, env2 + [(n, t)], d - 2, eff)]
        if 0 < eff or not self.effectful_thunk(thunk):
            pass
        return [S("try"), thunk, [LAMBDA, [v, k], body]]

    def effectful_thunk(self, thunk):
        return True

    # ---- match
    def pattern(self, t, d):
        """pattern for a value of type t -> (pattern, bindings)"""
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3 or isinstance(t, tuple):
            if r.random() < 0.3:
                return S("_"), []
            n = self.name()
            return n, [(n, t)]
        if t == "i":
            return r.randint(-1, 3), []
        if t == "b":
            return r.random() < 0.5, []
        if t == "s":
            return Str(r.choice(WORDS)), []
        if t == "y":
            return [QUOTE, S(r.choice(SYMS))], []
        if t == "l":
            if r.random() < 0.3:
                return [], []
            n = r.randint(1, 2)
            ps = [self.pattern("i", d - 1) for _ in range(n)]
            if r.random() < 0.6:
                tl, b = self.pattern("l", d - 1)
                if tl == []:
                    return [LIST] + [p for p, _ in ps], sum((x for _, x in ps), [])
                if isinstance(tl, list):
                    return [S("cons"), ps[0][0], tl], ps[0][1] + b
                return [LISTREST] + [p for p, _ in ps] + [tl], sum((x for _, x in ps), []) + b
            return [LIST] + [p for p, _ in ps], sum((x for _, x in ps), [])
        if r.random() < 0.5:
            return self.pattern(r.choice("ibsyl"), 1)[0], []        # may not match: bindings unusable
        n = self.name()
        return n, [(n, t)]

    def match(self, t, env, d, eff):
        r = self.r
        self.use("match")
        if r.random() < 0.45:
            ts = [self.ty(0) for _ in range(r.randint(1, 3))]
            val = [LIST] + self.exprs(ts, env, d - 1, eff)
            if r.random() < 0.25:
                ts.append("l")
                val = [LISTREST] + val[1:] + [self.expr("l", env, d - 2, 0)]
                rest = True
            else:
                rest = False

            def pats():
                qs = [self.pattern(u, 2) for u in ts]
                bs = sum((b for _, b in qs), [])
                ps = [p for p, _ in qs]
                if rest:
                    if ps[-1] == []:
                        return [LIST] + ps[:-1], bs
                    if isinstance(ps[-1], list):
                        out = ps[-1]
                        for p in reversed(ps[:-1]):
                            out = [S("cons"), p, out]
                        return out, bs
                    return [LISTREST] + ps, bs
                return [LIST] + ps, bs
        else:
            u = r.choice("illld")
            val = self.expr(u, env, d - 1, eff)

            def pats():
                return self.pattern(u, 3)
        out = [MATCH, val]
        for _ in range(r.randint(1, 3)):
            p, bs = pats()
            bad = {n for n in self.patnames(p)} - {n for n, _ in bs}
            env2 = [(n, u2) for n, u2 in env if n not in bad] + bs
            act = self.expr(t, env2, d - 1, eff)
            if r.random() < 0.3:
                act = [WHERE, self.expr("b", env2, d - 2, eff), act]
            out += [p, act]
        return out + [S("_"), self.expr(t, [(n, u2) for n, u2 in env], d - 1, eff)]

    def patnames(self, p):
        if isinstance(p, list):
            if p and p[0] is QUOTE:
                return []
            return sum((self.patnames(x) for x in p), [])
        return [p] if isinstance(p, type(S("a"))) else []

    # ---- by type
    def x_i(self, env, d, eff):
        r = self.r
        k = r.random()
        if k < 0.45:
            op = r.choice("++--*")
            return [S(op)] + self.exprs("ii", env, d - 1, eff)
        if k < 0.5:
            return [S("/"), self.expr("i", env, d - 1, eff), r.choice([1, 2, 3, -2, 7])]
        if k < 0.6:
            return [S("length"), self.expr(r.choice("l"), env, d - 1, eff)]
        if k < 0.75:
            return [S("car"), [S("cons")] + self.exprs("il", env, d - 1, eff)]
        if k < 0.83 and "deep" in self.feats and eff:
            self.use("deep")
            return [S("deep"), r.choice([0, 1, 5, r.randint(10, 70), r.randint(100, 140), r.randint(0, 600)]),
                    [LAMBDA, [S("u")], self.expr("i", [(n, u) for n, u in env if n.name != "u"] + [(S("u"), "i")], d - 1, eff)]]
        return self.leaf("i", env)

    def x_b(self, env, d, eff):
        r = self.r
        k = r.random()
        if k < 0.3:
            return [S(r.choice("<>"))] + self.exprs("ii", env, d - 1, eff)
        if k < 0.5:
            u = r.choice("isyld")
            return [S("=")] + self.exprs(u + r.choice([u, u, "d"]), env, d - 1, eff)
        if k < 0.6:
            return [S("not"), self.expr("b", env, d - 1, eff)]
        if k < 0.66:
            return [S(r.choice(["cons?", "null?"])), self.expr("l", env, d - 1, eff)]
        if k < 0.71:
            # what can be decided before the program runs
            self.use("fold")
            j = r.randrange(7)
            if j < 2:
                return [S(r.choice(["null?", "cons?", "atom?", "pair?"])), []]
            if j < 4:
                return [S(r.choice(["null?", "cons?", "cons?"])), [S("cons")] + self.exprs("dd", env, d - 2, eff)]
            if j < 5:
                return [S("not"), r.random() < 0.5]
            if j < 6:
                return [r.choice([AND, OR]), r.random() < 0.5, r.random() < 0.5]
            return [S("="), r.choice([True, False, 0, [], Str("")]), r.choice([True, False, 0, [], Str("")])]
        if k < 0.80:
            return [S(r.choice(["cons?", "null?", "symbol?", "string?", "number?", "boolean?", "atom?", "pair?"])),
                    self.expr("d", env, d - 1, eff)]
        n = r.randint(1, 3)
        es = [self.expr("b", env, d - 1, eff) for _ in range(n)]
        self.use("logic")
        return [r.choice([AND, OR])] + es

    def x_s(self, env, d, eff):
        r = self.r
        if r.random() < 0.5:
            return [S("string-append")] + self.exprs("ss", env, d - 1, eff)
        if r.random() < 0.5:
            return [S("symbol->string"), self.expr("y", env, d - 1, eff)]
        return self.leaf("s", env)

    def x_y(self, env, d, eff):
        return self.leaf("y", env)

    def x_l(self, env, d, eff):
        r = self.r
        k = r.random()
        if k < 0.25:
            return [S("cons")] + self.exprs("il", env, d - 1, eff)
        if k < 0.4:
            n = r.randint(1, 4)
            return [LIST] + self.exprs("i" * n, env, d - 1, eff)
        if k < 0.5:
            n = r.randint(1, 2)
            return [LISTREST] + self.exprs("i" * n + "l", env, d - 1, eff)
        if k < 0.6:
            return [S("append")] + self.exprs("ll", env, d - 1, eff)
        if k < 0.64:
            return [S("reverse"), self.expr("l", env, d - 1, eff)]
        if k < 0.69:
            return [S("cdr"), [S("cons")] + self.exprs("dl", env, d - 1, eff)]
        if k < 0.8:
            self.use("map")
            return [S("map"), self.expr(("f", ("i",), "i", eff), env, d - 1, 0), self.expr("l", env, d - 1, 0)]
        if k < 0.9:
            # filter calls its function in order
            return [S("filter"), self.expr(("f", ("i",), "b", eff), env, d - 1, 0), self.expr("l", env, d - 1, 0)]
        return self.leaf("l", env)

    def x_d(self, env, d, eff):
        r = self.r
        k = r.random()
        if k < 0.4:
            n = r.randint(1, 4)
            return [LIST] + self.exprs([r.choice("ibsyld") for _ in range(n)], env, d - 1, eff)
        if k < 0.55:
            return [S("cons")] + self.exprs("dd", env, d - 1, eff)
        if k < 0.65:
            # backquote
            self.use("backquote")
            n = r.randint(1, 3)
            es = self.exprs("d" * n, env, d - 1, eff)
            return [S("backquote"), [S(r.choice(["foo", "x", "if"]))] + [[S("unquote"), e] for e in es]]
        return self.expr(r.choice("ibsyl"), env, d - 1, eff)

    # ---- toplevel
    def defun(self, d):
        r = self.r
        self.uniq += 1
        name = S("fn%d" % self.uniq)
        k = r.random()
        if k < 0.35:
            # recursion on a counter
            self.use("recursion")
            ats = [self.ty(0) for _ in range(r.randint(1, 4))]
            rt = self.ty(0)
            eff = r.choice([0, 1, 1, 2])
            t = ("f", tuple(["i"] + ats), rt, eff)
            ps = [S("n")] + [S("q%d" % i) for i in range(len(ats))]
            env = list(zip(ps, t[1]))
            base = self.expr(rt, env, d - 1, eff)
            rec = [name, [S("-"), S("n"), 1]] + self.exprs(ats, env, 2, 0)
            if r.random() < 0.5:
                body = [DO, [S("set"), [QUOTE, S("tr")], [S("cons"), S("n"), S("tr")]], rec] if eff else rec
            else:
                v = self.name()
                env2 = [(n, u) for n, u in env if n is not v] + [(v, rt)]
                body = [LET, v, rec, self.expr(rt, env2, d - 2, eff)]
            self.funcs.append((name, ("f", ("CNT",) + tuple(ats), rt, eff)))
            return [DEFUN, name, ps, [IF, [S("<"), S("n"), 1], base, body]]
        if k < 0.65 and "func" in self.feats:
            self.use("func")
            ats = [r.choice("lli") for _ in range(r.randint(1, 3))]
            rt = self.ty(0)
            eff = r.choice([0, 1, 2])
            out = [FUNC, name]
            for i in range(r.randint(1, 3)):
                qs = [self.pattern(u, 2) for u in ats]
                bs = sum((b for _, b in qs), [])
                out += [p for p, _ in qs] + [ARROW, self.expr(rt, bs, d - 1, eff)]
                if r.random() < 0.3:
                    out += [WHERE, self.expr("b", bs, d - 2, eff)]
            out += [S("_")] * len(ats) + [ARROW, self.expr(rt, [], d - 2, eff)]
            self.funcs.append((name, ("f", tuple(ats), rt, eff)))
            return out
        n = r.randint(0, 4)
        ats = [self.ty(1) for _ in range(n)]
        rt = self.ty(1)
        eff = r.choice([0, 1, 1, 2])
        t = ("f", tuple(ats), rt, eff)
        lam = self.lam(t, [], d)
        self.funcs.append((name, t))
        return [DEFUN, name, lam[1], lam[2]]

    def program(self, ndefs=3, depth=5):
        r = self.r
        forms = [[S("set"), [QUOTE, S("tr")], []],
                 [S("set"), [QUOTE, S("g0")], 1],
                 [S("set"), [QUOTE, S("g1")], 20]]
        if "deep" in self.feats:
            forms.append([DEFUN, S("deep"), [S("n"), S("f")],
                          [IF, [S("<"), S("n"), 1], [S("f"), 0], [S("+"), 0, [S("deep"), [S("-"), S("n"), 1], S("f")]]]])
        for _ in range(ndefs):
            budget = self.left
            self.left = min(budget, 25)
            forms.append(self.defun(3))
            self.left = budget - 10
        self.left = max(self.left, 20)
        forms.append([S("set"), [QUOTE, S("res")], self.expr("d", [], depth, 1)])
        forms.append([LIST, S("res"), S("tr"), S("g0"), S("g1")])
        return forms


# counters are small literals
def _leaf(self, t, env, _old=Gen.leaf):
    if t == "CNT":
        return self.r.randint(0, 5)
    return _old(self, t, env)


def _expr(self, t, env, d, eff, _old=Gen.expr):
    if t == "CNT":
        return self.r.randint(0, 5)
    return _old(self, t, env, d, eff)


Gen.leaf, Gen.expr = _leaf, _expr
