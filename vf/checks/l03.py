"""Tail calls run in constant space; other calls may nest as deep as memory allows."""
from .. import check as K
from ..diff import last_value

RULE = ("a case is a pair of runs, with N and 10N iterations, of one loop through one to four mutually tail-calling functions "
        "whose calls sit in randomly nested tail contexts, or one deep non-tail recursion; every pair that gave the right value "
        "in both runs is non-trivial")

LIMIT_KB = 1800


class G:
    def __init__(self, r):
        self.r = r
        self.u = 0
        self.used = []

    def fresh(self, p):
        self.u += 1
        return "%s%d" % (p, self.u)

    def ctx(self, d, call, vs):
        """an expression that tail-calls; vs: names in scope, call: thunk giving the call form"""
        r = self.r
        if d == 0:
            return call(vs)
        k = r.choice(["if1", "if2", "cond1", "cond2", "let", "begin", "do", "match", "where", "beta", "over", "partial", "trydone",
                      "matchlist", "letfn", "beta3", "begin3"])
        self.used.append(k)
        sub = lambda more=(): self.ctx(d - 1, call, list(vs) + list(more))
        x = r.choice(vs)
        v = self.fresh(r.choice(["v", "x-", "int"]))
        if k == "if1":
            return "(if (< 0 n) %s 'no)" % sub()
        if k == "if2":
            return "(if (< n 0) 'no %s)" % sub()
        if k == "cond1":
            return "(cond ((< n 0) 'neg) (true %s))" % sub()
        if k == "cond2":
            return "(cond ((< 0 n) %s) (true 'neg))" % sub()
        if k == "let":
            return "(let %s (+ %s 0) %s)" % (v, x, sub([v]))
        if k == "begin":
            return "(begin (cons %s 1) %s)" % (x, sub())
        if k == "begin3":
            return "(begin (set 'g0 %s) (list %s) %s)" % (x, x, sub())
        if k == "do":
            return "(do (set 'g1 (list %s)) %s)" % (x, sub())
        if k == "match":
            return "(match %s -5 'no %s %s)" % (x, v, sub([v]))
        if k == "where":
            return "(match (list n %s) [a b] (where (< a 0) 'no) [%s . _] (where (= %s n) %s) _ 'none)" % (x, v, v, sub([v]))
        if k == "matchlist":
            return "(match (list %s 'k \"s\") ['k . _] 'no [%s 'k . _] %s)" % (x, v, sub([v]))
        if k == "beta":
            return "((lambda (%s) %s) (+ %s 0))" % (v, sub([v]), x)
        if k == "beta3":
            w = self.fresh("w")
            return "((lambda (%s %s z) %s) %s (list %s) 0)" % (v, w, sub([v]), x, x)
        if k == "over":
            return "((lambda (%s) (lambda (%s%s) %s)) %s 0)" % (v, v, "q", sub([v]), x)
        if k == "partial":
            p = self.fresh("p")
            return "(let %s ((lambda (%s z) %s) %s) (%s 7))" % (p, v, sub([v]), x, p)
        if k == "letfn":
            p = self.fresh("p")
            return "(let %s (lambda (%s) %s) (%s %s))" % (p, v, sub([v]), p, x)
        if k == "trydone":
            return "(begin (try (lambda () (+ 1 (throw %s))) (lambda (e k) (k e))) %s)" % (x, sub())

    def loop(self):
        r = self.r
        nf = r.choice([1, 1, 2, 3])
        names = ["f%d" % i for i in range(nf)]
        extra = [r.choice([0, 0, 1, 2, 4]) for _ in names]
        style = [r.choice(["defun", "defun", "func"]) for _ in names]
        defs = []
        for i, nm in enumerate(names):
            t = (i + 1) % nf
            how = r.choice(["call", "call", "call", "apply", "partial", "over", "name"])
            self.used.append("via-" + how)

            def call(vs, t=t, how=how):
                args = ["(- n 1)", "(+ acc 1)"] + [self.r.choice(vs) for _ in range(extra[t])]
                f = names[t]
                if how == "apply":
                    return "(apply %s (list %s))" % (f, " ".join(args))
                if how == "partial":
                    c = self.r.randint(1, len(args) - 1)
                    return "((%s %s) %s)" % (f, " ".join(args[:c]), " ".join(args[c:]))
                if how == "over":
                    return "((lambda (o) (if true %s %s)) 1 %s)" % (f, f, " ".join(args))
                if how == "name":
                    return "((value '%s) %s)" % (f, " ".join(args))
                return "(%s %s)" % (f, " ".join(args))

            params = ["n", "acc"] + ["e%d" % j for j in range(extra[i])]
            body = self.ctx(r.choice([1, 1, 2, 3]), call, ["n", "acc"])
            if style[i] == "func":
                self.used.append("func")
                defs.append("(func %s 0 acc %s => acc %s => %s)" % (nm, " ".join("_" * extra[i]), " ".join(params), body))
            else:
                defs.append("(defun %s (%s) (if (= n 0) acc %s))" % (nm, " ".join(params), body))
        call = "(f0 N 0 %s)" % " ".join("0" * extra[0])
        # functions that are not defined yet are called through the globals
        return "(set 'g0 0) (set 'g1 0)\n" + "\n".join(defs), call


DEEP = [
    ("sum", "(defun g (n) (if (= n 0) 0 (+ 1 (g (- n 1)))))", "(g N)", lambda n: n),
    ("list", "(defun g (n) (if (= n 0) () (cons n (g (- n 1)))))", "(length (g N))", lambda n: n),
    ("wide", "(defun g (n a b c d e) (if (= n 0) (+ a (+ b (+ c (+ d e)))) (+ 1 (g (- n 1) b c d e a))))", "(g N 1 2 3 4 5)", lambda n: n + 15),
    ("mutual", "(defun g (n) (if (= n 0) 0 (+ 1 (h (list n) n)))) (defun h (l n) (let r (g (- n 1)) (+ r (- (car l) n))))", "(g N)", lambda n: n),
    ("match", "(func g [] => 0 [x . y] => (let r (g y) (+ r x))) (defun mk (n a) (if (= n 0) a (mk (- n 1) (cons 1 a))))", "(g (mk N ()))", lambda n: n),
    ("thunk", "(defun g (n f) (if (= n 0) (f 0) (+ 0 (g (- n 1) (lambda (x) (+ 1 (f x)))))))", "(g N (lambda (x) x))", lambda n: n),
    ("try", "(defun g (n) (if (= n 0) 0 (+ 1 (try (lambda () (g (- n 1))) (lambda (v k) v)))))", "(g (/ N 10))", lambda n: n // 10),
    ("throwdeep", "(defun g (n) (if (= n 0) (throw 7) (+ 1 (g (- n 1)))))", "(try (lambda () (g N)) (lambda (v k) (k v)))", lambda n: n + 7),
]


def run(c):
    r = c.runner("plain")
    pend = {}

    def jobs():
        for i in range(c.n(140, 3000)):
            rng = c.rng(i)
            g = G(rng)
            defs, call = g.loop()
            for mode, n in (("L", 10000), ("E", 300)) if i % 3 else (("L", 10000), ("E", 1000)):
                pend[(i, mode)] = {}
                for k in (n, n * 10):
                    yield {"text": defs + "\n" + call.replace("N", str(k)), "mode": mode, "n": k, "exp": str(k), "id": (i, mode),
                           "used": g.used, "big": k > n, "timeout": 60}
        # interpreted, with many parameters: a frame that is left behind by each iteration shows
        for i in range(c.n(6, 40)):
            rng = c.rng("wide", i)
            k = rng.randint(24, 40)
            ps = ["e%d" % j for j in range(k)]
            rot = ps[1:] + ps[:1]
            d = rng.choice(["(set 'f (lambda (n %s) (if (= n 0) e0 (f (- n 1) %s))))" % (" ".join(ps), " ".join(rot)),
                            "(set 'f (lambda (n %s) (if (= n 0) e0 (g n %s)))) (set 'g (lambda (n %s) (do (set 'g0 n) (f (- n 1) %s))))" % (
                                " ".join(ps), " ".join(rot), " ".join(ps), " ".join(ps)),
                            "(set 'f (lambda (n %s) (if (= n 0) e0 (apply f (list (- n 1) %s)))))" % (" ".join(ps), " ".join(rot)),
                            "(set 'f (lambda (n %s) (if (= n 0) e0 (let g (f (- n 1) %s) (g %s)))))" % (
                                " ".join(ps), " ".join(rot[:-1]), rot[-1])])
            pend[(i, "W")] = {}
            for n in (500, 5000):
                yield {"text": d + "\n(f %d %s)" % (n, " ".join(map(str, range(k)))), "mode": "E", "n": n, "exp": str(n % k), "id": (i, "W"),
                       "used": ["wide"], "big": n > 500, "timeout": 120}
        for name, d, call, f in DEEP:
            for mode, n in (("L", c.n(300000, 2000000)), ("E", 10000)):
                yield {"text": d + "\n" + call.replace("N", str(n)), "mode": mode, "exp": str(f(n)), "id": ("deep", name, mode),
                       "used": ["deep-" + name], "timeout": 120}

    def judge(j, r):
        got = last_value(r)
        if r.status != 0 or got != j["exp"]:
            return ("value" if j["id"][0] != "deep" else "deep", "wrong value or end of a loop that must return %s" % j["exp"],
                    "%s\nmode %s status %d\n%s" % (j["text"], j["mode"], r.status, r.out[-1500:]))
        c.count("iterations", int(j.get("n", 0)))
        for k in j["used"]:
            c.count("ctx." + k)
        if j["id"][0] == "deep":
            c.case(j["text"], True, j["text"])
            return None
        p = pend[j["id"]]
        p[j["big"]] = r.rss
        if len(p) == 2:
            c.case(j["text"] + j["mode"], True, "%s ; %s; rss %s kB with a tenth of the iterations, %s kB" % (
                j["text"], j["mode"], p[False], p[True]))
            if p[True] is None or p[False] is None:
                return ("rss", "no memory figure", j["text"])
            # less than a tenth of a frame per iteration
            lim = LIMIT_KB if j["mode"] == "L" else 600
            if j["id"][1] == "W":
                c.count("widekb", p[True] - p[False])
            if p[True] - p[False] > lim:
                return ("space", "tail calls use space: %d kB for %d iterations, %d kB for a tenth of them" % (
                    p[True], j["n"], p[False]), "%s\nmode %s" % (j["text"], j["mode"]))
        return None

    K.differential(c, r, jobs(), judge)
    c.floor("ctx.wide", 12)
    c.floor("iterations", 100000)
    c.assumptions = ["the body of a try, and the last operand of and/or, are not tail positions",
                     "growth of less than 600 kB for 2700 interpreted or 1.8 MB for 90000 compiled iterations is not a leak"]
