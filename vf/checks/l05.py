"""Try, throw and resume: programs dense in control effects, and the classic uses of them."""
import random

from .. import check as K
from .. import diff
from ..ref import S, Trap, OutOfFuel, evaluate, src

RULE = ("a case is a program dense in try, throw, resumption (at once, later, from deep in the stack, from a closure), rethrow and "
        "nested handlers, or a generator, scheduler or state handler of random shape; its value and its log are compared with the "
        "reference evaluator")

LAM, LET, IF, DO, SET, Q = S("lambda"), S("let"), S("if"), S("do"), S("set"), S("quote")
V, KK, LOG, SAVED = S("v"), S("k"), S("log"), S("saved")


def q(x):
    return [Q, x]


def let(n, e, b):
    return [LET, n, e, b]


def lam(ps, b):
    return [LAM, list(ps), b]


def call(f, *a):
    return [S(f) if isinstance(f, str) else f] + list(a)


def parse(text):
    """a form from text (the small subset used below)"""
    toks = text.replace("(", " ( ").replace(")", " ) ").replace("'", " ' ").split()

    def one(i):
        t = toks[i]
        if t == "'":
            e, i = one(i + 1)
            return [Q, e], i
        if t == "(":
            out, i = [], i + 1
            while toks[i] != ")":
                e, i = one(i)
                out.append(e)
            return out, i + 1
        if t in ("true", "false"):
            return t == "true", i + 1
        if t.lstrip("-").isdigit():
            return int(t), i + 1
        return S(t), i + 1
    out, i = [], 0
    while i < len(toks):
        e, i = one(i)
        out.append(e)
    return out


PRE = """
(set 'log ()) (set 'saved ()) (set 'cell 0)
(set 'note (lambda (x) (do (set 'log (cons x log)) x)))
(set 'deep (lambda (n f) (if (= n 0) (f 0) (+ 1 (deep (- n 1) f)))))
(set 'wide (lambda (a b c d e f g h i j l m n f2) (+ (+ a b) (f2 n))))
(set 'call (lambda (k x) (k x)))
(set 'call1 (lambda (k x) (+ 1 (k x))))
(set 'later (lambda (d) (if (cons? saved) (let kk (car saved) (do (set 'saved (cdr saved)) (kk d))) d)))
(set 'sum (lambda (l) (if (cons? l) (+ (car l) (sum (cdr l))) 0)))
(set 'loop (lambda (n acc f) (if (= n 0) acc (loop (- n 1) (f acc) f))))
(set 'count (lambda (n f) (if (= n 0) 0 (let x (f n) (+ x (count (- n 1) f))))))
"""


class G:
    def __init__(self, r):
        self.r = r
        self.u = 0
        self.fns = []          # (name, throws)
        self.left = r.choice([25, 50, 90])

    def new(self):
        self.u += 1
        return S(self.r.choice(["x", "y", "t", "n"]) + (str(self.u) if self.r.random() < 0.7 else ""))

    def leaf(self, env):
        r = self.r
        if env and r.random() < 0.6:
            return r.choice(env)
        return r.randint(-5, 9)

    def depth(self):
        return self.r.choice([0, 1, 3, 10, 40, 150, 400])

    def e(self, env, intry, d, ks=()):
        """an int expression; intry: a throw has a handler"""
        r = self.r
        self.left -= 1
        if d <= 0 or self.left < 0:
            if intry and r.random() < 0.35:
                return call("throw", self.leaf(env))
            return self.leaf(env)
        opts = ["seq", "seq", "plus", "if", "note", "try", "try", "deep", "fn", "map", "apply", "count", "later", "clo", "wide", "cell"]
        if intry:
            opts += ["throw"] * 8
        k = r.choice(opts)
        if k == "seq":
            n = self.new()
            return let(n, self.e(env, intry, d - 1, ks), self.e(env + [n], intry, d - 1, ks))
        if k == "plus":
            return call(r.choice("+-*" if r.random() < 0.3 else "+-"), *r.sample([self.e(env, intry, d - 1, ks), self.leaf(env)], 2))
        if k == "if":
            return [IF, call("<", self.e(env, intry, d - 1, ks), self.leaf(env)), self.e(env, intry, d - 1, ks), self.e(env, intry, d - 1, ks)]
        if k == "note":
            return call("note", self.e(env, intry, d - 1, ks))
        if k == "throw":
            return call("throw", self.e(env, intry, d - 2, ks))
        if k == "try":
            b = self.e(env, True, d - 1)
            if r.random() < 0.15:
                b = call("deep", self.depth(), lam([S("u")], b))
            return call("try", lam([], b), self.handler(env, intry, d - 1))
        if k == "deep":
            return call("deep", self.depth(), lam([S("u")], self.e(env, intry, d - 1)))
        if k == "wide":
            return call("wide", *([self.leaf(env) for _ in range(13)] + [lam([S("w")], self.e(env + [S("w")], intry, d - 1))]))
        if k == "fn":
            fs = [f for f, t in self.fns if intry or not t]
            if fs:
                return [r.choice(fs), self.e(env, intry, d - 1, ks)]
            return self.leaf(env)
        if k == "map":
            x = self.new()
            return call("sum", call("map", lam([x], self.e(env + [x], intry, d - 1)), call("list", *[self.leaf(env) for _ in range(r.randint(1, 4))])))
        if k == "apply":
            a, b = self.new(), self.new()
            if a is b:
                b = S("bb")
            f = lam([a, b], self.e(env + [a, b], intry, d - 1))
            args = [self.leaf(env), self.leaf(env)]
            s = r.random()
            if s < 0.4:
                return call("apply", f, call("list", *args))
            if s < 0.7:
                return [[f, args[0]], args[1]]
            return [lam([a], lam([b], f[2])), args[0], args[1]]
        if k == "count":
            x = self.new()
            return call("count", r.randint(1, 5), lam([x], self.e(env + [x], intry, d - 1)))
        if k == "later":
            return call("later", self.e(env, intry, d - 1, ks))
        if k == "cell":
            return [DO, call("set", q(S("cell")), self.e(env, intry, d - 1, ks)), call("+", S("cell"), self.leaf(env))]
        if k == "clo":
            f = self.new()
            return let(f, lam([S("z")], self.e(env + [S("z")], intry, d - 1)), self.wrap([f, self.leaf(env)], intry))
        raise AssertionError(k)

    def wrap(self, e, intry):
        r = self.r
        if r.random() < 0.3:
            return call("+", 1, e)
        return e

    def resume(self, env, intry, d):
        """an expression that resumes k once"""
        r = self.r
        x = self.e(env, intry, d - 1)
        s = r.choice(["direct"] * 5 + ["plus", "let", "apply", "deep", "call", "call1", "clo", "partial", "list", "vec", "global", "ift", "wide"])
        if s == "direct":
            return [KK, x]
        if s == "plus":
            return call("+", [KK, x], self.leaf(env))
        if s == "let":
            n = self.new()
            return let(n, [KK, x], self.e(env + [n], intry, d - 1))
        if s == "apply":
            return call("apply", KK, call("list", x))
        if s == "deep":
            return call("deep", self.depth(), lam([S("u")], [KK, x]))
        if s == "wide":
            return call("wide", *([self.leaf(env) for _ in range(13)] + [KK]))
        if s in ("call", "call1"):
            return call(s, KK, x)
        if s == "clo":
            return let(S("go"), lam([S("z")], [KK, call("+", S("z"), self.leaf(env))]), [S("go"), x])
        if s == "partial":
            return let(S("go"), call(r.choice(["call", "call1"]), KK), [S("go"), x])
        if s == "list":
            return let(S("kl"), call("list", 1, KK), [call("cadr", S("kl")), x])
        if s == "vec":
            return let(S("kv"), call("vector", 2), [DO, call("vector-set!", S("kv"), 1, KK), [call("vector-ref", S("kv"), 1), x]])
        if s == "global" and r.random() < 0.3:
            # a second resumption of the same continuation must end the program
            return [DO, call("note", [KK, x]), [KK, self.leaf(env)]]
        if s == "global":
            return [DO, call("set", q(S("kk")), KK), [S("kk"), x]]
        return [IF, call("<", V, self.leaf(env)), [KK, x], [KK, self.leaf(env)]]

    def handler(self, env, intry, d):
        r = self.r
        henv = env + [V]
        s = r.choice(["value", "value", "resume", "resume", "resume", "resume", "cond", "store", "rethrow", "twice", "nest"])
        if s == "rethrow" and not intry:
            s = "resume"
        if s == "value":
            b = self.e(henv, intry, d - 1)
        elif s == "resume":
            b = self.resume(henv, intry, d)
        elif s == "cond":
            b = [IF, call("<", V, self.leaf(env)), self.resume(henv, intry, d), self.e(henv, intry, d - 1)]
        elif s == "store":
            b = [DO, call("set", q(SAVED), call("cons", KK, SAVED)), self.e(henv, intry, d - 1)]
        elif s == "rethrow":
            t = call("throw", V)
            b = r.choice([t, [KK, t], let(S("rx"), t, [KK, S("rx")]), call("+", 1, [KK, t]), call("deep", self.depth(), lam([S("u")], [KK, t]))])
        elif s == "twice":
            b = [DO, call("note", V), self.resume(henv, intry, d)]
        else:
            b = call("try", lam([], self.resume(henv, True, d)), self.handler2(henv, intry, d - 1))
        b = r.choice([b, b, [DO, call("note", V), b]])
        s = r.random()
        if s < 0.75:
            return lam([V, KK], b)
        if s < 0.85:
            return lam([V], lam([KK], b))
        return [lam([S("h0"), V, KK], b), self.leaf(env)]

    def handler2(self, env, intry, d):
        """the handler of a try inside a handler: k is the outer one, already used"""
        r = self.r
        env = [x for x in env if x is not V]
        return lam([S("v2"), S("k2")], r.choice([S("v2"), [S("k2"), S("v2")], call("+", 1, [S("k2"), self.leaf(env)]),
                                                 [DO, call("note", S("v2")), [S("k2"), 3]]]))

    def program(self):
        r = self.r
        out = parse(PRE)
        for i in range(r.randint(0, 3)):
            t = r.random() < 0.6
            n = S("fn%d" % i)
            p = S("p")
            out.append(call("set", q(n), lam([p], self.e([p], t, r.randint(2, 4)))))
            self.fns.append((n, t))
        self.left += 40
        b = self.e([], False, r.randint(4, 8))
        b = call("try", lam([], self.e([], True, r.randint(3, 7))), self.handler([], False, 4)) if r.random() < 0.6 else b
        n = S("res")
        out.append(call("set", q(n), b))
        m = r.choice([0, 1, 3])
        for i in range(m):
            # a stored continuation may be resumed after everything else is done
            out.append(call("set", q(S("res%d" % i)), call("try", lam([], call("later", i)), lam([V, KK], [KK, V]))))
        out.append(call("list", n, S("cell"), S("log"), *[S("res%d" % i) for i in range(m)]))
        return out


def gen(r):
    """a producer that throws its values, and a consumer that keeps the continuation"""
    depth, n = r.choice([0, 2, 60, 300]), r.choice([1, 3, 20, 60])
    tree = r.random() < 0.5

    def mk(n):
        if n == 0:
            return []
        a = r.randint(0, n - 1)
        return [call("node", mk(a), r.randint(0, 99), mk(n - 1 - a))]

    def q_tree(n):
        if n == 0:
            return "()"
        a = r.randint(0, n - 1)
        return "(%s %d %s)" % (q_tree(a), r.randint(0, 99), q_tree(n - 1 - a))
    if tree:
        prod = "(set 'walk (lambda (t) (if (cons? t) (do (walk (car t)) (do (throw (cadr t)) (walk (caddr t)))) 0)))"
        start = "(walk '%s)" % q_tree(n)
    else:
        prod = "(set 'walk (lambda (n) (if (= n 0) 0 (do (throw (* n n)) (walk (- n 1))))))"
        start = "(walk %d)" % n
    # next: (value . continuation) or ()
    h = r.choice(["(lambda (v k) (cons v k))", "(lambda (v k) (cons v (lambda (x) (k x))))"])
    text = prod + "(set 'start (lambda () (try (lambda () (do (deep %d (lambda (u) %s)) ())) %s)))" % (depth, start, h)
    text += "(set 'run (lambda (g acc) (if (cons? g) (run ((cdr g) 0) (cons (car g) acc)) (reverse acc))))"
    take = r.choice([None, 1, max(1, n // 2)])
    two = r.random() < 0.4
    if two:   # two producers in turn
        text += ("(set 'zip (lambda (a b acc) (if (cons? a) (if (cons? b) (let x ((cdr a) 0) (let y ((cdr b) 0) (zip x y (cons (+ (car a) (car b)) acc)))) (reverse acc)) (reverse acc))))"
                 "(let a (start) (let b (start) (zip a b ())))")
    elif take:
        text += "(set 'take (lambda (g n) (if (= n 0) () (if (cons? g) (cons (car g) (take ((cdr g) 0) (- n 1))) ()))))(take (start) %d)" % take
    else:
        text += "(run (start) ())"
    return parse(PRE + text)


def sched(r):
    """coroutines that yield to a scheduler; the queue is a list of continuations"""
    n = r.choice([1, 2, 3, 8])
    lim = [r.randint(0, 12) for _ in range(n)]
    dep = [r.choice([0, 0, 5, 80]) for _ in range(n)]
    push = r.choice(["(append q (cons k ()))", "(cons k q)"])
    text = "(set 'task (lambda (id n) (if (= n 0) id (do (note (+ (* id 100) n)) (do (throw id) (task id (- n 1)))))))"
    text += "(set 'q ())(set 'step (lambda (k) (try (lambda () (do (k 0) 0)) (lambda (v k) (do (set 'q %s) v)))))" % push
    # a resumed continuation brings its own handler along, so step's is for the first run only
    text += "(set 'run (lambda (c) (if (cons? q) (let k (car q) (do (set 'q (cdr q)) (do (if (number? k) 0 (k 0)) (run (+ c 1))))) c)))"
    text += "(set 'spawn (lambda (id n d) (try (lambda () (deep d (lambda (u) (task id n)))) (lambda (v k) (do (set 'q %s) v)))))" % push
    for i in range(n):
        text += "(spawn %d %d %d)" % (i, lim[i], dep[i])
    text += "(set 'total (run 0))(list total log)"
    return parse(PRE + text)


def state(r):
    """get and put as effects, in state-passing style"""
    n = r.choice([1, 5, 40])
    d = r.choice([0, 3, 100])
    text = ("(set 'get (lambda () (throw 'get)))(set 'put (lambda (x) (throw (cons 'put x))))"
            "(set 'runst (lambda (th) (try (lambda () (let x (th) (lambda (s) (cons x s)))) "
            "(lambda (op k) (if (cons? op) (lambda (s) ((k (cdr op)) (cdr op))) (lambda (s) ((k s) s)))))))"
            "(set 'tick (lambda (n) (if (= n 0) (get) (let x (get) (do (put (+ x n)) (tick (- n 1)))))))"
            "((runst (lambda () (deep %d (lambda (u) (tick %d))))) %d)" % (d, n, r.randint(0, 9)))
    return parse(PRE + text)


def layers(r):
    """several nested handlers, each takes its own operation and forwards the rest"""
    n = r.randint(2, 5)
    ops = ["o%d" % i for i in range(n)]
    body = "(deep %d (lambda (u) (prog %d)))" % (r.choice([0, 5, 120]), r.choice([1, 4, 15]))
    perform = "(throw (cons (quote %s) n))"
    text = "(set 'prog (lambda (n) (if (= n 0) 7 (let a %s (+ a (prog (- n 1)))))))" % (
        "(+ %s %s)" % (perform % r.choice(ops), "1") if r.random() < 0.5 else perform % r.choice(ops))
    for i, o in enumerate(ops):
        own = r.choice(["(k (+ (cdr op) %d))" % i, "(+ 1 (k (cdr op)))", "(let x (k 1) (+ x (cdr op)))", "(do (note (cdr op)) (k 2))"])
        fwd = r.choice(["(k (throw op))", "(let y (throw op) (k y))", "(+ 0 (k (throw op)))"]) if i < n - 1 else "(k 0)"
        text += "(set 'h%d (lambda (op k) (if (= (car op) '%s) %s %s)))" % (i, o, own, fwd)
    e = body
    for i in range(n):
        e = "(try (lambda () %s) h%d)" % (e, i)
    text += "(list %s log)" % e
    return parse(PRE + text)


def make(args):
    seed, fuel = args
    r = random.Random(seed)
    k = r.choice(["mix"] * 12 + ["gen", "sched", "state", "layers"])
    forms = G(r).program() if k == "mix" else {"gen": gen, "sched": sched, "state": state, "layers": layers}[k](r)
    j = diff.job(forms, {k: 1}, seed, fuel)
    if j.get("skip") != "trap":
        return j
    # which kind of trap: a second resumption or a throw outside any try ends the program without a value
    try:
        evaluate(forms, fuel)
    except Trap as e:
        if str(e) in ("continuation resumed twice", "uncaught throw"):
            return {"text": "\n".join(src(f) for f in forms), "exp": "an abnormal end: " + str(e), "seed": seed, "ev": {"trap." + str(e).split()[0]: 1},
                    "used": {k: 1}, "trap": True, "n": len(forms)}
    except (OutOfFuel, RecursionError):
        pass
    return j


def judge(j, r):
    if not j.get("trap"):
        return diff.judge(j, r)
    if "ERROR: AddressSanitizer" in r.out or "runtime error:" in r.out:
        return ("trap", "a memory error where a program must end", j["text"] + "\n" + r.out[-3000:])
    if r.status == 0 or r.out.count("=> ") >= j["n"]:
        return ("trap", "a value where the program has none (%s)" % j["exp"], j["text"] + "\n" + r.out[-3000:])
    if r.status == 1011:
        return ("trap", "a segmentation fault where a program must end (%s)" % j["exp"], j["text"] + "\n" + r.out[-3000:])
    return None


def long_loops(r):
    """many throws in one run, with a value known in closed form"""
    n = r.choice([20000, 60000])
    yield "(set 'f (lambda (n acc) (if (= n 0) acc (f (- n 1) (try (lambda () (+ acc (throw 1))) (lambda (v k) (k v)))))))\n(f %d 0)" % n, str(n)
    yield "(set 'f (lambda (n acc) (if (= n 0) acc (do (throw n) (f (- n 1) (+ acc 1))))))\n(try (lambda () (f %d 0)) (lambda (v k) (k v)))" % n, str(n)
    m = r.choice([2000, 5000])
    yield "(set 'f (lambda (n) (if (= n 0) 0 (+ (throw n) (f (- n 1))))))\n(try (lambda () (f %d)) (lambda (v k) (+ 1 (k v))))" % m, str(m * (m + 1) // 2 + m)
    yield ("(set 'f (lambda (n) (if (= n 0) (throw 5) (+ 1 (try (lambda () (f (- n 1))) (lambda (v k) (k (throw v))))))))\n"
           "(try (lambda () (f %d)) (lambda (v k) (k v)))" % m), str(m + 5)
    yield ("(set 'f (lambda (n) (if (= n 0) (throw 5) (+ 1 (try (lambda () (f (- n 1))) (lambda (v k) (throw (+ v 1))))))))\n"
           "(try (lambda () (f %d)) (lambda (v k) v))" % m), str(m + 5)


def loads(c, r, n):
    """throws and resumptions across the toplevel code of loaded files"""
    import os
    for i in range(n):
        d = c.dir()
        files = r.randint(1, 3)
        abort = r.choice([None, None, 0, 1, 2, 3])
        exp, forms, thrown = [], [[] for _ in range(files)], 0
        order = []
        for f in range(files):
            order += [("form", f)] * r.randint(1, 3)
        vars_, done = [], False
        # file 0 loads file 1 in its middle, and so on; forms of f before the nested load run first
        plan = []

        def walk(f):
            before, after = r.randint(0, 2), r.randint(0, 2)
            for _ in range(before):
                plan.append(f)
            if f + 1 < files:
                plan.append((f, "load"))
                walk(f + 1)
            for _ in range(after):
                plan.append(f)
        walk(0)
        for f in plan:
            if isinstance(f, tuple):
                forms[f[0]].append('(load "%s/f%d.cora")' % (d, f[0] + 1))
                continue
            v, a, b = "v%d" % len(vars_), r.randrange(100), r.randrange(1000)
            vars_.append(v)
            thr = r.random() < .7
            forms[f].append("(set '%s (+ %d %s))" % (v, a, ("(throw %d)" % b) if thr else b))
            if done:
                exp.append(0)
            elif thr and thrown == abort:
                done, exp = b, exp + [0]
                thrown += 1
            else:
                exp.append(a + b + (1 if thr else 0))
                thrown += thr
            if done is not False and not isinstance(done, list):
                done = [done]
        for f in range(files):
            with open(os.path.join(d, "f%d.cora" % f), "w") as o:
                o.write("\n".join(forms[f] + ["'end%d" % f]) + "\n")
        handler = "(do (set 'n (+ n 1)) (if (= n %d) (list 'aborted v) (k (+ v 1))))" % (-1 if abort is None else abort + 1)
        text = "(set 'n 0)\n" + "\n".join("(set '%s 0)" % v for v in vars_)
        text += "\n(set 'res (try (lambda () (do (load \"%s/f0.cora\") 'end)) (lambda (v k) %s)))\n(list res n %s)" % (d, handler, " ".join(vars_))
        e = "(%s)" % " ".join(["(aborted %d)" % done[0] if done else "end", str(thrown)] + [str(x) for x in exp])
        yield {"text": text, "exp": e, "ev": {"load-throw": thrown, "load-abort": int(bool(done))}, "used": {}, "timeout": 60,
               "seed": "files: %r" % forms}


def run(c):
    def go(variant, n, what, **kw):
        rn = c.runner(variant)
        args = (("L05/%s/%d/%d" % (what, c.seed, i), 30000) for i in range(n))
        K.differential(c, rn, diff.feed(c, c.produce(make, args), **kw), judge)
        return rn

    rn = go("plain", c.n(6000, 120000), "e")
    r = c.rng("loops")
    jobs = []
    for mode in ("E", "L"):
        for t, v in long_loops(r):
            jobs.append({"text": t, "exp": v, "ev": {"longloop": 1}, "used": {}, "mode": mode, "timeout": 60})
    K.differential(c, rn, diff.feed(c, jobs), judge)
    go("plain", c.n(350, 5000), "l", mode="L", timeout=30)
    go("asan", c.n(500, 10000), "a", gc=700, steps=3, timeout=60)
    K.differential(c, rn, diff.feed(c, loads(c, c.rng("load"), c.n(32, 600))), judge)
    c.floor("run.load-throw", 50)
    c.floor("run.throw", 3000)
    c.floor("run.resume", 1500)
    c.floor("run.trap.continuation", 10)
    c.floor("run.trap.uncaught", 3)
    c.floor("run.longloop", 10)
    c.assumptions = ["a continuation is resumed at most once; a second resumption must end the program"]
