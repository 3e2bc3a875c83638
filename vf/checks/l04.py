"""Currying: every way to pass the arguments of a function gives the same result."""
from .. import check as K
from .. import lines
from ..diff import last_value

RULE = ("a case is a program of 20 functions (chains of lambdas, closures, func rules, builtins, arities 0 to 20) each applied to its "
        "arguments in several random groupings, directly, by apply, through saved partial applications, interpreted or compiled; "
        "every result and the number of bodies entered is compared with the model")


class F:
    """a chain of stages; all arguments together give the list of them"""

    def __init__(self, r, uid):
        self.r = r
        self.name = "fn%d" % uid
        self.kind = r.choice(["chain", "chain", "chain", "closure", "func", "let", "higher"])
        k = r.choice([1, 1, 2, 3])
        self.stages = [r.choice([1, 1, 2, 2, 3, 4, 5, 7, 12, 20]) for _ in range(k)]
        if self.kind == "func":
            self.stages = self.stages[:1]
        self.total = sum(self.stages)

    def defn(self):
        r = self.r
        names, stage = [], []
        i = 0
        for n in self.stages:
            stage.append(["a%d" % (i + j) for j in range(n)])
            i += n
        names = [x for s in stage for x in s]
        order = list(names)
        r.shuffle(order)
        self.order = [int(x[1:]) for x in order]
        res = "(list 'r %s)" % " ".join(order)
        if self.kind == "closure":
            res = "(cons 'r (cons k (list %s)))" % " ".join(order)
        tick = "(do (set 'cnt (+ cnt 1)) %s)"
        body = tick % res
        for s in reversed(stage[1:]):
            body = "(lambda (%s) %s)" % (" ".join(s), body)
            how = r.choice(["plain", "tick", "let", "if", "pid"])
            if how == "let":
                body = "(let z %s z)" % body
            elif how == "if":
                body = "(if (= %s %s) %s 0)" % (stage[0][0], stage[0][0], body)
            elif how == "pid":
                body = "((lambda (q) q) %s)" % body
            body = tick % body
        ps = " ".join(stage[0])
        if self.kind == "closure":
            return "(set '%s ((lambda (k) (lambda (%s) %s)) 'cap))" % (self.name, ps, body)
        if self.kind == "func":
            return "(func %s %s => 'never where (= %s 'never) %s => %s)" % (self.name, " ".join("_" * len(stage[0])) if False else ps, stage[0][0], ps, body)
        if self.kind == "let":
            return "(set '%s (let f (lambda (%s) %s) (lambda (x) (f x))))" % (self.name, ps, body)
        if self.kind == "higher":
            return "(defun %s-of (w) (lambda (%s) %s))\n(set '%s (%s-of 1))" % (self.name, ps, body, self.name, self.name)
        return r.choice(["(defun %s (%s) %s)", "(set '%s (lambda (%s) %s))"]) % (self.name, ps, body)

    def result(self, vals):
        out = [vals[i] for i in self.order]
        return "(r " + ("cap " if self.kind == "closure" else "") + " ".join(out) + ")"


def val(r):
    return r.choice([("%d", "%d"), ("'s%d", "s%d"), ("(list %d)", "(%d)"), ("\"t%d\"", "\"t%d\"")])


def groups(r, n, maxn=None):
    out = []
    while n:
        k = min(n, r.choice([1, 1, 2, 3, n, n]))
        out.append(k)
        n -= k
    return out


def apply_in_groups(r, f, xs, sizes):
    """text of an expression, and the names it saves partial applications in"""
    i = 0
    t = f
    for k in sizes:
        g = xs[i:i + k]
        i += k
        how = r.choice(["call", "call", "call", "apply", "id", "applyrest"])
        if how == "apply":
            t = "(apply %s (list %s))" % (t, " ".join(g))
        elif how == "id":
            t = "((lambda (h) (h %s)) %s)" % (" ".join(g), t)
        elif how == "applyrest" and k > 1:
            t = "(apply (%s %s) (cons %s (list %s)))" % (t, g[0], g[1], " ".join(g[2:]))
        else:
            t = "(%s %s)" % (t, " ".join(g))
    return t


PRIMS = [("cons", ["1", "'(2)"], "(1 2)"), ("+", ["20", "22"], "42"), ("-", ["20", "22"], "-2"), ("*", ["6", "7"], "42"),
         ("=", ["'(1 2)", "(list 1 2)"], "true"), ("<", ["1", "2"], "true"), (">", ["1", "2"], "false"), ("/", ["85", "2"], "42"),
         ("string-append", ['"a"', '"b"'], '"ab"'), ("map", ["(lambda (x) (+ x 1))", "'(1 2)"], "(2 3)"),
         ("vector-ref", ["((lambda (v) (vector-set! v 1 7)) (vector 2))", "1"], "7"), ("car", ["'(5 6)"], "5"),
         ("filter", ["(lambda (x) (< x 2))", "'(1 2 0)"], "(1 0)"), ("append", ["'(1)", "'(2 3)"], "(1 2 3)"),
         ("elem?", ["2", "'(1 2)"], "true"), ("value-or", ["'no-such-name", "3"], "3"), ("try", ["(lambda () (+ 1 (throw 2)))", "(lambda (v k) (k (+ v 5)))"], "8")]


def program(r, compiled):
    """(definitions, [(expression, expected, name)])"""
    fs = [F(r, i) for i in range(8)]
    defs = ["(set 'cnt 0)"] + [f.defn() for f in fs] + ["(defun zero () 'z)", "(defun zero-then () (lambda (a b) (list a b)))"]
    out = []
    for _ in range(24):
        k = r.choice(["group", "group", "group", "group", "saved", "saved", "prim", "zero", "map", "self"])
        f = r.choice(fs)
        vals = [val(r) for _ in range(f.total)]
        ids = [r.randint(0, 99) for _ in vals]
        xs = [v[0] % i for v, i in zip(vals, ids)]
        ys = [v[1] % i for v, i in zip(vals, ids)]
        if k == "group":
            t = apply_in_groups(r, f.name, xs, groups(r, f.total))
            out.append(("(do (set 'cnt 0) ((lambda (x) (list x cnt)) %s))" % t, "(%s %d)" % (f.result(ys), len(f.stages)), k))
        elif k == "saved" and f.total > 1:
            # one partial application, completed several times
            m = r.randint(1, f.total - 1)
            p = apply_in_groups(r, f.name, xs[:m], groups(r, m))
            alts = []
            exp = []
            for _ in range(r.randint(2, 3)):
                rest = [str(r.randint(100, 199)) for _ in range(f.total - m)]
                alts.append(apply_in_groups(r, "p", rest, groups(r, len(rest))))
                exp.append(f.result(ys[:m] + rest))
            out.append(("(let p %s (list %s))" % (p, " ".join(alts)), "(%s)" % " ".join(exp), k))
        elif k == "prim":
            name, args, exp = r.choice(PRIMS)
            t = apply_in_groups(r, name, args, groups(r, len(args)))
            if name == "try" and "apply" in t:
                continue
            out.append((t, exp, k))
        elif k == "zero":
            out.append(r.choice([("(zero)", "z", k), ("((zero-then) 1 2)", "(1 2)", k), ("(((zero-then) 1) 2)", "(1 2)", k),
                                 ("((lambda () 5))", "5", k), ("(apply zero ())", "z", k)]))
        elif k == "map" and f.total > 1:
            p = apply_in_groups(r, f.name, xs[:-1], groups(r, f.total - 1))
            out.append(("(map %s '(1 2))" % p, "(%s %s)" % (f.result(ys[:-1] + ["1"]), f.result(ys[:-1] + ["2"])), k))
        elif k == "self":
            # a function passed to itself, over-applied
            out.append(("((lambda (f) (f f f 9)) (lambda (x) x))", "9", k))
    return defs, out


def run(c):
    def ejobs(n, tag):
        for i in range(n):
            r = c.rng(tag, i)
            defs, out = program(r, False)
            forms = [(x, None) for d in defs for x in d.split("\n")] + out
            yield lines.job(forms, gc=r.choice([0, 0, 2000, 300]) if tag == "asan" else 0, timeout=40)

    def ljobs(n, tag):
        for i in range(n):
            r = c.rng("L" + tag, i)
            defs, out = program(r, True)
            out = out[:10]
            body = "\n".join(defs) + "\n" + "\n".join("(set 'res%d %s)" % (k, o[0]) for k, o in enumerate(out))
            body += "\n(list %s)" % " ".join("res%d" % k for k in range(len(out)))
            for o in out:
                c.count("compiled." + o[2])
            c.case(body, True, body[-900:])
            yield {"text": body, "exp": "(" + " ".join(o[1] for o in out) + ")", "mode": "L", "timeout": 60,
                   "gc": r.choice([0, 0, 2000, 300]) if tag == "asan" else 0}

    def judge(j, res):
        got = last_value(res)
        if res.status != 0 or got != j["exp"]:
            return ("compiled", "a compiled application gave another value", "%s\nexpected: %s\ngot (status %d): %s" % (
                j["text"], j["exp"], res.status, res.out[-3000:]))

    for v, n, m in (("plain", c.n(400, 20000), c.n(100, 3000)), ("asan", c.n(100, 4000), c.n(30, 600))):
        r = c.runner(v)
        lines.run(c, r, ejobs(n, v))
        K.differential(c, r, ljobs(m, v), judge)
    for k in ("group", "saved", "prim", "map"):
        c.floor("op." + k, 200)
        c.floor("compiled." + k, 20)
    c.assumptions = ["a builtin called by name in compiled code gets at most as many arguments as it has parameters"]
