"""Derived forms and list functions: let-loop, define-record, values, the list library, state monad."""
from .. import lines
from ..lines import Pair, Sym, show

RULE = "a case is a program of loops, record types and list operations with random contents; every value is compared with the model"
Y = "cora/lib/sys#"
M = "cora/lib/monad#"


# ---- let-loop: random loops, run by a model of the loop
class Loops:
    def __init__(self, r):
        self.r = r
        self.u = 0

    def arith(self, vs, d):
        r = self.r
        if d == 0 or r.random() < 0.3:
            return r.choice(list(vs)) if r.random() < 0.7 else str(r.randint(-9, 9))
        k = r.choice(["+", "-", "if", "*", "let"])
        a, b = self.arith(vs, d - 1), self.arith(vs, d - 1)
        if k == "if":
            return ("if", a, b, self.arith(vs, d - 1))
        if k == "let":
            return ("let", r.choice(["t", "i", "f", "acc"]), a, b)
        return (k, a, b)

    def text(self, e):
        if isinstance(e, str):
            return e
        if e[0] == "if":
            return "(if (< %s 3) %s %s)" % tuple(map(self.text, e[1:]))
        if e[0] == "let":
            return "(let %s %s %s)" % (e[1], self.text(e[2]), self.text(e[3]))
        if e[0] == "loop":
            return self.looptext(e)
        return "(%s %s %s)" % (e[0], self.text(e[1]), self.text(e[2]))

    def ev(self, e, env):
        if isinstance(e, str):
            return env[e] if e in env else int(e)
        if e[0] == "if":
            return self.ev(e[2] if self.ev(e[1], env) < 3 else e[3], env)
        if e[0] == "let":
            return self.ev(e[3], dict(env, **{e[1]: self.ev(e[2], env)}))
        if e[0] == "loop":
            return self.loopev(e, env)
        a, b = self.ev(e[1], env), self.ev(e[2], env)
        v = a + b if e[0] == "+" else a - b if e[0] == "-" else a * b
        if abs(v) > 2**50:
            raise OverflowError
        return v

    def loop(self, outer, depth):
        """(loop name vars inits steps done tail extra): runs vars[0] down to 0"""
        r = self.r
        name = r.choice(["recur", "f", "loop", "go", "i"])
        vs = [v for v in ["i", "acc", "x", "meta", "t", "n"] if v != name]
        r.shuffle(vs)
        vs = vs[:r.randint(1, 4)]
        inits = [str(r.randint(0, 12))] + [self.arith(outer, 1) if outer else str(r.randint(-5, 5)) for _ in vs[1:]]
        inner = [v for v in sorted(set(outer) | set(vs)) if v != name]
        steps = []
        for v in vs[1:]:
            if depth and r.random() < 0.2:
                steps.append(self.loop(inner, depth - 1))
            else:
                steps.append(self.arith(inner, 2))
        kind = r.choice(["tail", "tail", "plus", "early"])
        return ("loop", name, vs, inits, steps, self.arith(inner, 2), kind)

    def looptext(self, e):
        _, name, vs, inits, steps, done, kind = e
        call = "(%s (- %s 1)%s)" % (name, vs[0], "".join(" " + self.text(s) for s in steps))
        if kind == "plus":
            call = "(+ 1 %s)" % call
        if kind == "early":
            call = "(if (> %s 100000) 7 %s)" % (vs[-1], call)
        return "(let-loop %s (%s) (if (= %s 0) %s %s))" % (
            name, " ".join("%s %s" % (v, self.text(i)) for v, i in zip(vs, inits)), vs[0], self.text(done), call)

    def loopev(self, e, env):
        _, name, vs, inits, steps, done, kind = e
        cur = [self.ev(i, env) for i in inits]
        extra = 0
        while True:
            env2 = dict(env, **dict(zip(vs, cur)))
            if cur[0] == 0:
                return self.ev(done, env2) + extra
            if kind == "early" and cur[-1] > 100000:
                return 7 + extra
            if max(map(abs, cur)) > 2**45:
                raise OverflowError
            if kind == "plus":
                extra += 1
            cur = [cur[0] - 1] + [self.ev(s, env2) for s in steps]


def loops(r):
    out = []
    while len(out) < 8:
        g = Loops(r)
        e = g.loop([], 1)
        try:
            v = g.loopev(e, {})
        except (OverflowError, KeyError, ValueError):
            continue
        if abs(v) > 2**50:
            continue
        out.append((g.looptext(e), str(v), "let-loop"))
    return out


# ---- define-record
def records(r, uid):
    forms = []
    types = []
    for t in range(r.randint(1, 3)):
        n = r.randint(0, 5)
        fields = ["f%d" % i for i in range(n)]
        r.shuffle(fields)
        inits = [f for f in fields if r.random() < 0.75]
        r.shuffle(inits)
        name = "rec%s_%d" % (uid, t)
        specs = []
        has = {}
        for f in fields:
            k = r.choice(["none", "get", "both", "both"])
            has[f] = k
            specs.append("(%s)" % f if k == "none" else "(%s get-%s-%s)" % (f, name, f) if k == "get" else
                         "(%s get-%s-%s set-%s-%s!)" % (f, name, f, name, f))
        pred = r.random() < 0.9
        forms.append(("(define-record %s (make-%s%s) %s %s)" % (
            name, name, "".join(" " + i for i in inits), "%s?" % name if pred else "false", " ".join(specs)), None, "define-record"))
        types.append((name, fields, inits, has, pred))
    objs = []
    for _ in range(25):
        k = r.choice(["new", "new", "get", "get", "set", "pred", "length"])
        if k == "new" or not objs:
            t = r.randrange(len(types))
            name, fields, inits, has, pred = types[t]
            vals = [r.randint(0, 999) for _ in inits]
            v = "o%s_%d" % (uid, len(objs))
            objs.append((v, t, dict(zip(inits, vals))))
            forms.append(("(do (set '%s (make-%s%s)) 'ok)" % (v, name, "".join(" %d" % x for x in vals)), "ok", "new"))
            continue
        v, t, d = r.choice(objs)
        name, fields, inits, has, pred = types[t]
        if k == "get":
            fs = [f for f in fields if has[f] != "none" and f in d]
            if fs:
                f = r.choice(fs)
                forms.append(("(get-%s-%s %s)" % (name, f, v), str(d[f]), k))
        elif k == "set":
            fs = [f for f in fields if has[f] == "both"]
            if fs:
                f = r.choice(fs)
                d[f] = r.randint(0, 999)
                gets = [g for g in fields if has[g] != "none" and g in d]
                forms.append(("(do (set-%s-%s! %s %d) (list %s))" % (name, f, v, d[f], " ".join("(get-%s-%s %s)" % (name, g, v) for g in gets)),
                              "(" + " ".join(str(d[g]) for g in gets) + ")", k))
        elif k == "pred":
            u = r.randrange(len(types))
            if types[u][4]:
                forms.append(("(list (%s? %s) (%s? 1) (%s? (list %s)) (%s? (vector %d)))" % (
                    types[u][0], v, types[u][0], types[u][0], v, types[u][0], len(types[u][1]) + 2),
                    "(%s false false false)" % ("true" if u == t else "false"), k))
        elif k == "length":
            forms.append(("(list (vector? %s) (vector-length %s))" % (v, v), "(true %d)" % (len(fields) + 1), k))
    return forms


# ---- lists
def lst(r, n=None):
    n = r.choice([0, 1, 2, 3, 5, 9]) if n is None else n
    xs = [r.choice([0, 1, 2, 3, 4, -1, 7]) for _ in range(n)]
    return "'(%s)" % " ".join(map(str, xs)) if n and r.random() < 0.5 else "(list %s)" % " ".join(map(str, xs)), xs


def lists(r):
    out = []
    sh = lambda x: show(x)
    for _ in range(25):
        k = r.choice(["assq", "foldl", "foldl2", "for-each", "member", "values", "let-values", "tls", "map", "filter", "append", "reverse",
                      "length", "elem", "nth", "apply", "state"])
        t, xs = lst(r)
        u, ys = lst(r)
        a = r.choice([0, 1, 2, 3, 9])
        if k == "assq":
            al = [(r.choice([0, 1, 2, "a", "b"]), r.randint(0, 9)) for _ in range(r.randint(0, 5))]
            x = r.choice([0, 1, 2, "a", "b"])
            q = lambda v: "'" + v if isinstance(v, str) else str(v)
            hit = next((p for p in al if p[0] == x), None)
            out.append(("(%sassq %s (list %s))" % (Y, q(x), " ".join("(cons %s %d)" % (q(p), v) for p, v in al)),
                        "()" if hit is None else "(%s . %d)" % hit, k))
        elif k == "foldl":
            out.append(("(%sfoldl (lambda (acc x) (- (* 2 acc) x)) %d %s)" % (Y, a, t), str(fold(lambda p, x: 2 * p - x, a, xs)), k))
        elif k == "foldl2":
            out.append(("(%sfoldl (lambda (acc x) (cons x acc)) () %s)" % (Y, t), sh(xs[::-1]), k))
        elif k == "for-each":
            out.append(("(do (set 'acc ()) (do (%sfor-each (lambda (x) (set 'acc (cons (+ x %d) acc))) %s) acc))" % (Y, a, t),
                        sh([x + a for x in xs][::-1]), k))
        elif k == "member":
            out.append(("(%smember %d %s)" % (Y, a, t), sh(a in xs), k))
        elif k == "values":
            out.append(("((values %d %s 'c) (lambda (p q s) (list s q p)))" % (a, t), "(c %s %d)" % (sh(xs), a), k))
        elif k == "let-values":
            out.append(("(let-values (p q) (if (< %d 2) (values %s 1) (values %s 2)) (begin (+ 1 2) (list q p)))" % (a, t, u),
                        "(1 %s)" % sh(xs) if a < 2 else "(2 %s)" % sh(ys), k))
        elif k == "tls":
            ks = [r.choice(["k1", "k2", "k3"]) for _ in range(4)]
            body = "".join("(%sthread-local-set '%s %d) " % (Y, key, i) for i, key in enumerate(ks))
            last = {key: i for i, key in enumerate(ks)}
            out.append(("(begin %s(list %s))" % (body, " ".join("(%sthread-local-get '%s)" % (Y, key) for key in sorted(last))),
                        "(" + " ".join(str(last[key]) for key in sorted(last)) + ")", k))
        elif k == "map":
            out.append(("(map (lambda (x) (list x (+ x %d))) %s)" % (a, t), sh([[x, x + a] for x in xs]), k))
        elif k == "filter":
            out.append(("(filter (lambda (x) (< x %d)) %s)" % (a, t), sh([x for x in xs if x < a]), k))
        elif k == "append":
            out.append(("(append %s (append %s %s))" % (t, u, t), sh(xs + ys + xs), k))
        elif k == "reverse":
            out.append(("(list (reverse %s) %s)" % (t, t), sh([xs[::-1], xs]), k))
        elif k == "length":
            n = r.choice([0, 1, 10, 300])
            out.append(("(length (map (lambda (x) x) (append %s '(%s))))" % (t, " ".join("7" * n)), str(len(xs) + n), k))
        elif k == "elem":
            out.append(("(elem? %d %s)" % (a, t), sh(a in xs), k))
        elif k == "nth":
            t, xs = lst(r, 6)
            out.append(("((lambda (l) (list (cadr l) (caddr l) (cadddr l) (cddr l) (cdddr l) (caar (list l)) (cdar (list l)))) %s)" % t,
                        sh([xs[1], xs[2], xs[3], xs[2:], xs[3:], xs[0], xs[1:]]), k))
        elif k == "apply":
            t, xs = lst(r, 3)
            out.append(("(apply (lambda (p q s) (list s q p)) %s)" % t, sh(xs[::-1]), k))
        elif k == "state":
            # a chain of state actions: each returns a value and changes the state
            ops = [(r.choice("+-*"), r.randint(1, 5)) for _ in range(r.randint(1, 6))]
            s, v = a, 0
            text = "(%sstate-return 0)" % M
            for o, n in ops:
                text = "(%sstate-bind %s (lambda (v) (lambda (s k) (k (%s s %d) (+ v s)))))" % (M, text, o, n)
                s, v = (s + n if o == "+" else s - n if o == "-" else s * n), v + s
            out.append(("(%s %d (lambda (s v) (list s v)))" % (text, a), sh([s, v]), k))
    return out


def fold(f, a, xs):
    for x in xs:
        a = f(a, x)
    return a


LIBS = ["cora/lib/let-loop", "cora/lib/define-record", "cora/lib/sys", "cora/lib/monad"]


def compiled(r, forms):
    """the same forms as one file to compile: the last value lists all"""
    body = "\n".join(f[0] for f in forms if f[1] is None)
    vals = [f for f in forms if f[1] is not None]
    exp = "(" + " ".join(f[1] for f in vals) + ")"
    out = '(import "cora/lib/sys")\n' + body + "\n" + "\n".join("(set 'res%d %s)" % (i, f[0]) for i, f in enumerate(vals))
    out += "\n(list %s)" % " ".join("res%d" % i for i in range(len(vals)))
    return out, exp


def run(c):
    def jobs(n, tag, mode="E"):
        for i in range(n):
            r = c.rng(tag, i)
            k = i % 3
            forms = loops(r) if k == 0 else records(r, i) if k == 1 else lists(r)
            if mode == "E":
                yield lines.job(forms, gc=r.choice([0, 0, 3000]) if tag == "asan" else 0)
            else:
                if k == 2:
                    forms = forms[:6]
                text, exp = compiled(r, forms)
                j = lines.job([(text, exp)] , mode="L", timeout=60)
                for f in forms:
                    if len(f) > 2:
                        c.count("compiled." + f[2])
                yield j

    for v, n in (("plain", c.n(600, 20000)), ("asan", c.n(90, 3000))):
        r = c.runner(v, imports=LIBS)
        lines.run(c, r, jobs(n, v))
        if v == "plain":
            from .. import check as K
            from ..diff import last_value

            def judge(j, res):
                if res.status != 0 or last_value(res) != j["forms"][0][1]:
                    return ("compiled", "a compiled file of derived forms gave another value", "%s\nexpected: %s\nstatus %d: %s" % (
                        j["text"], j["forms"][0][1], res.status, res.out[-3000:]))

            def feed():
                for j in jobs(c.n(60, 1500), "L", "L"):
                    c.case(j["text"], True, j["text"][-900:])
                    yield j
            K.differential(c, r, feed(), judge)
    for k in ("let-loop", "new", "get", "set", "pred", "foldl", "state"):
        c.floor("op." + k, 100)
    c.assumptions = ["a let-loop has at least one variable", "a field is read only after it was set"]
