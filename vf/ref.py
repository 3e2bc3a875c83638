"""Reference meaning of the language, independent of the C sources: a small-step
evaluator over the surface syntax (special forms and standard macros are native
here, they are macros and compiler passes in the code under test).

Expressions: int, bool, Str, Sym, list (a form). Bracket lists are forms whose head
is one of the symbols list / list-rest."""
import sys

sys.setrecursionlimit(20000)


class Sym:
    __slots__ = ("name",)
    table = {}

    def __new__(cls, name):
        s = cls.table.get(name)
        if s is None:
            s = object.__new__(cls)
            s.name = name
            cls.table[name] = s
        return s

    def __repr__(self):
        return self.name

    def __reduce__(self):
        return (Sym, (self.name,))


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return "Str(%r)" % self.s


class Nil_:
    def __repr__(self):
        return "()"


Nil = Nil_()


class Cons:
    __slots__ = ("car", "cdr")

    def __init__(self, a, d):
        self.car, self.cdr = a, d


class Closure:
    __slots__ = ("params", "body", "env")

    def __init__(self, params, body, env):
        self.params, self.body, self.env = params, body, env


class Prim:
    __slots__ = ("name", "arity", "fn")

    def __init__(self, name, arity, fn):
        self.name, self.arity, self.fn = name, arity, fn


class Partial:
    __slots__ = ("f", "args", "arity")

    def __init__(self, f, args, arity):
        self.f, self.args, self.arity = f, args, arity


class Kont:
    __slots__ = ("frames", "handler", "used")
    arity = 1

    def __init__(self, frames, handler):
        self.frames, self.handler, self.used = frames, handler, False


class GenSym:
    pass


class Vec:
    def __init__(self, n):
        self.data = [None] * n


class Trap(Exception):
    """the program has no defined meaning from here on"""


class OutOfFuel(Exception):
    pass


S = Sym


def mklist(xs, tail=Nil):
    r = tail
    for x in reversed(xs):
        r = Cons(x, r)
    return r


def pylist(v):
    out = []
    while isinstance(v, Cons):
        out.append(v.car)
        v = v.cdr
    if v is not Nil:
        raise Trap("improper list")
    return out


def equal(a, b):
    st = [(a, b)]
    while st:
        x, y = st.pop()
        if isinstance(x, Cons) and isinstance(y, Cons):
            st.append((x.cdr, y.cdr))
            st.append((x.car, y.car))
        elif isinstance(x, bool) or isinstance(y, bool):
            if x is not y:
                return False
        elif isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
        elif isinstance(x, Str) and isinstance(y, Str):
            if x.s != y.s:
                return False
        elif x is not y:
            return False
    return True


def show(v):
    """what the printer prints; strings are printed raw between quotes"""
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Sym):
        return v.name
    if isinstance(v, Str):
        return '"' + v.s + '"'
    if v is Nil:
        return "()"
    if isinstance(v, Cons):
        out = []
        while isinstance(v, Cons):
            out.append(show(v.car))
            v = v.cdr
        if v is not Nil:
            out.append(".")
            out.append(show(v))
        return "(" + " ".join(out) + ")"
    if isinstance(v, Vec):
        return "vector"
    if isinstance(v, (Closure, Prim, Partial, Kont)):
        return "native"
    raise Trap("not printable")


def src(e):
    """surface syntax of an expression"""
    if e is True:
        return "true"
    if e is False:
        return "false"
    if isinstance(e, int):
        return str(e)
    if isinstance(e, Sym):
        return e.name
    if isinstance(e, Str):
        return '"' + e.s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(e, list):
        if e:
            h = e[0]
            if h is S("list") and getattr(h, "name", "") == "list":
                return "[" + " ".join(src(x) for x in e[1:]) + "]"
            if h is S("list-rest"):
                return "[" + " ".join(src(x) for x in e[1:-1]) + " . " + src(e[-1]) + "]"
            if h is S("quote") and len(e) == 2:
                return "'" + src(e[1])
            if h is S("backquote") and len(e) == 2:
                return "`" + src(e[1])
            if h is S("unquote") and len(e) == 2:
                return "," + src(e[1])
        return "(" + " ".join(src(x) for x in e) + ")"
    raise TypeError(repr(e))


def datum(e):
    """the value of (quote e)"""
    if isinstance(e, list):
        if len(e) > 1 and e[0] is S("list-rest"):
            return mklist([S("list-rest")] + [datum(x) for x in e[1:]])
        return mklist([datum(x) for x in e])
    return e


def num(x):
    if isinstance(x, bool) or not isinstance(x, int):
        raise Trap("number expected")
    return x


def wrap(n):
    if abs(n) > 1 << 53:
        raise Trap("overflow")
    return n


def boolean(x):
    if x is not True and x is not False:
        raise Trap("boolean expected")
    return x


def car(x):
    if not isinstance(x, Cons):
        raise Trap("car")
    return x.car


def cdr(x):
    if not isinstance(x, Cons):
        raise Trap("cdr")
    return x.cdr


def div(a, b):
    if b == 0:
        raise Trap("div")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def cstr(x):
    if not isinstance(x, Str):
        raise Trap("string expected")
    return x.s


def symname(x):
    if not isinstance(x, Sym):
        raise Trap("symbol expected")
    return x.name


def vref(v, i):
    if not isinstance(v, Vec) or not 0 <= num(i) < len(v.data):
        raise Trap("vector")
    x = v.data[i]
    if x is None:
        raise Trap("unset element")
    return x


def vset(v, i, x):
    if not isinstance(v, Vec) or not 0 <= num(i) < len(v.data):
        raise Trap("vector")
    v.data[i] = x
    return v


def append(a, b):
    return mklist(pylist(a), b)


def elem(x, l):
    while isinstance(l, Cons):
        if equal(l.car, x):
            return True
        l = l.cdr
    return False


PURE = {
    "+": (2, lambda a, b: wrap(num(a) + num(b))),
    "-": (2, lambda a, b: wrap(num(a) - num(b))),
    "*": (2, lambda a, b: wrap(num(a) * num(b))),
    "/": (2, lambda a, b: div(num(a), num(b))),
    "<": (2, lambda a, b: num(a) < num(b)),
    ">": (2, lambda a, b: num(a) > num(b)),
    "=": (2, equal),
    "not": (1, lambda a: not boolean(a)),
    "car": (1, car),
    "cdr": (1, cdr),
    "cons": (2, Cons),
    "cons?": (1, lambda a: isinstance(a, Cons)),
    "pair?": (1, lambda a: isinstance(a, Cons)),
    "atom?": (1, lambda a: not isinstance(a, Cons)),
    "null?": (1, lambda a: a is Nil),
    "symbol?": (1, lambda a: isinstance(a, (Sym, GenSym))),
    "string?": (1, lambda a: isinstance(a, Str)),
    "number?": (1, lambda a: isinstance(a, int) and not isinstance(a, bool)),
    "boolean?": (1, lambda a: isinstance(a, bool)),
    "cadr": (1, lambda a: car(cdr(a))),
    "caar": (1, lambda a: car(car(a))),
    "cdar": (1, lambda a: cdr(car(a))),
    "cddr": (1, lambda a: cdr(cdr(a))),
    "caddr": (1, lambda a: car(cdr(cdr(a)))),
    "cdddr": (1, lambda a: cdr(cdr(cdr(a)))),
    "cadddr": (1, lambda a: car(cdr(cdr(cdr(a))))),
    "reverse": (1, lambda a: mklist(pylist(a)[::-1])),
    "append": (2, append),
    "length": (1, lambda a: len(pylist(a))),
    "elem?": (2, elem),
    "string-append": (2, lambda a, b: Str(cstr(a) + cstr(b))),
    "symbol->string": (1, lambda a: Str(symname(a))),
    "intern": (1, lambda a: Sym(cstr(a))),
    "vector": (1, lambda n: Vec(num(n))),
    "vector?": (1, lambda v: isinstance(v, Vec)),
    "vector-length": (1, lambda v: len(v.data)),
    "vector-ref": (2, vref),
    "vector-set!": (3, vset),
    "gensym": (0, lambda: GenSym()),
}
# map and filter as ordinary closures, so that their function argument may throw
PRELUDE = {
    "map": [S("lambda"), [S("f"), S("l")],
            [S("if"), [S("cons?"), S("l")],
             [S("let"), S("h"), [S("f"), [S("car"), S("l")]],
              [S("cons"), S("h"), [S("map"), S("f"), [S("cdr"), S("l")]]]], []]],
    "filter": [S("lambda"), [S("f"), S("l")],
               [S("if"), [S("cons?"), S("l")],
                [S("if"), [S("f"), [S("car"), S("l")]],
                 [S("cons"), [S("car"), S("l")], [S("filter"), S("f"), [S("cdr"), S("l")]]],
                 [S("filter"), S("f"), [S("cdr"), S("l")]]], []]],
}

QUOTE, IF, DO, BEGIN, LET, LAMBDA = map(S, ("quote", "if", "do", "begin", "let", "lambda"))
COND, AND, OR, MATCH, FUNC, DEFUN, DEF = map(S, ("cond", "and", "or", "match", "func", "defun", "def"))
LIST, LISTREST, BACKQUOTE, UNQUOTE, WHERE, ARROW, CONS = map(
    S, ("list", "list-rest", "backquote", "unquote", "where", "=>", "cons"))


class Machine:
    def __init__(self, fuel=200000):
        self.globals = {}
        self.fuel = fuel
        self.events = {}
        for n, (a, f) in PURE.items():
            self.globals[n] = Prim(n, a, f)
        for n in ("apply", "try", "throw", "set", "value", "value-or"):
            self.globals[n] = Prim(n, 1 if n in ("throw", "value") else 2, None)
        for n, e in PRELUDE.items():
            self.globals[n] = Closure([p for p in e[1]], e[2], None)

    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    # env: linked (name, value, next)
    def lookup(self, s, env):
        while env is not None:
            if env[0] is s:
                return env[1]
            env = env[2]
        v = self.globals.get(s.name)
        if v is None:
            raise Trap("unbound " + s.name)
        return v

    def run(self, exp, env=None):
        k = ("halt",)
        mode, x = "eval", exp
        while True:
            self.fuel -= 1
            if self.fuel <= 0:
                raise OutOfFuel()
            if mode == "eval":
                mode, x, env, k = self.step(x, env, k)
            elif mode == "ret":
                if k[0] == "halt":
                    return x
                mode, x, env, k = self.ret(x, k)
            else:       # apply: x = (f, args)
                mode, x, env, k = self.apply(x[0], x[1], k)

    def step(self, e, env, k):
        if isinstance(e, Sym):
            return "ret", self.lookup(e, env), env, k
        if not isinstance(e, list):
            return "ret", e, env, k
        if not e:
            return "ret", Nil, env, k
        h = e[0]
        if h is QUOTE:
            return "ret", datum(e[1]), env, k
        if h is IF:
            return "eval", e[1], env, ("if", e[2], e[3], env, k)
        if h is DO or h is BEGIN:
            if len(e) == 2:
                return "eval", e[1], env, k
            return "eval", e[1], env, ("seq", e, 2, env, k)
        if h is LET:
            if len(e) == 2:
                return "eval", e[1], env, k
            return "eval", e[2], env, ("let", e, 1, env, k)
        if h is LAMBDA:
            return "ret", Closure(e[1], e[2], env), env, k
        if h is COND:
            if len(e) == 1:
                raise Trap("no cond match")
            return "eval", e[1][0], env, ("cond", e, 1, env, k)
        if h is AND or h is OR:
            if len(e) == 1:
                return "ret", h is AND, env, k
            return "eval", e[1], env, ("logic", e, 1, env, k)
        if h is LIST or h is LISTREST:
            return self.args(h, e, 1, (), env, k)
        if h is BACKQUOTE:
            return "eval", self.bq(e[1]), env, k
        if h is MATCH:
            return "eval", e[1], env, ("match", e[2:], env, k)
        if h is DEFUN:
            self.globals[e[1].name] = Closure(e[2], e[3], env)
            return "ret", self.globals[e[1].name], env, k
        if h is DEF:
            return "eval", e[2], env, ("def", e[1].name, k)
        if h is FUNC:
            rules, n = parse_func(e[2:])
            ps = [Sym("%%p%d" % i) for i in range(n)]
            body = [MATCH, [LIST] + ps] + rules
            self.globals[e[1].name] = Closure(ps, body, env)
            return "ret", self.globals[e[1].name], env, k
        return self.args(None, e, 0, (), env, k)

    def bq(self, e):
        if isinstance(e, Sym):
            return [QUOTE, e]
        if isinstance(e, list) and e:
            if e[0] is UNQUOTE and len(e) == 2:
                return e[1]
            return [LIST] + [self.bq(x) for x in e]
        return e

    def args(self, head, e, i, done, env, k):
        """evaluate e[i:] left to right; done: reversed linked results"""
        if i >= len(e):
            vs = []
            while done:
                vs.append(done[0])
                done = done[1]
            vs.reverse()
            if head is LIST:
                return "ret", mklist(vs), env, k
            if head is LISTREST:
                return "ret", mklist(vs[:-1], vs[-1]), env, k
            return "apply", (vs[0], vs[1:]), env, k
        return "eval", e[i], env, ("arg", head, e, i, done, env, k)

    def ret(self, v, k):
        t = k[0]
        if t == "arg":
            _, head, e, i, done, env, k2 = k
            return self.args(head, e, i + 1, (v, done), env, k2)
        if t == "if":
            return "eval", k[1] if v is True else k[2], k[3], k[4]
        if t == "seq":
            _, e, i, env, k2 = k
            if i == len(e) - 1:
                return "eval", e[i], env, k2
            return "eval", e[i], env, ("seq", e, i + 1, env, k2)
        if t == "let":
            _, e, i, env, k2 = k
            env = (e[i], v, env)
            i += 2
            if i == len(e) - 1:
                return "eval", e[i], env, k2
            return "eval", e[i + 1], env, ("let", e, i, env, k2)
        if t == "cond":
            _, e, i, env, k2 = k
            if v is True:
                return "eval", e[i][1], env, k2
            if i + 1 >= len(e):
                raise Trap("no cond match")
            return "eval", e[i + 1][0], env, ("cond", e, i + 1, env, k2)
        if t == "logic":
            _, e, i, env, k2 = k
            stop = v is True
            if e[0] is OR and stop:
                return "ret", True, env, k2
            if e[0] is AND and not stop:
                return "ret", False, env, k2
            if i + 1 >= len(e):
                # (and .. x) and (or .. x) are booleans
                return "ret", v is True, env, k2
            return "eval", e[i + 1], env, ("logic", e, i + 1, env, k2)
        if t == "match":
            _, rules, env, k2 = k
            return self.match(v, rules, 0, env, k2)
        if t == "guard":
            _, v0, rules, i, env0, env, k2 = k
            if v is True:
                act = rules[i + 1]
                return "eval", act[2], env, k2
            return self.match(v0, rules, i + 2, env0, k2)
        if t == "def":
            self.globals[k[1]] = v
            return "ret", v, None, k[2]
        if t == "over":
            return "apply", (v, k[1]), None, k[2]
        if t == "prompt":
            return "ret", v, None, k[2]
        raise AssertionError(t)

    def match(self, v, rules, i, env, k):
        while i < len(rules):
            env1 = self.pat(rules[i], v, env)
            if env1 is not False:
                act = rules[i + 1]
                if isinstance(act, list) and act and act[0] is WHERE:
                    return "eval", act[1], env1, ("guard", v, rules, i, env, env1, k)
                return "eval", act, env1, k
            i += 2
        raise Trap("no match")

    def pat(self, p, v, env):
        if isinstance(p, Sym):
            return (p, v, env)
        if not isinstance(p, list):
            return env if equal(p, v) else False
        if not p:
            return env if v is Nil else False
        h = p[0]
        if h is QUOTE:
            return env if equal(datum(p[1]), v) else False
        if h is CONS:
            if not isinstance(v, Cons):
                return False
            env = self.pat(p[1], v.car, env)
            return env if env is False else self.pat(p[2], v.cdr, env)
        if h is LIST or h is LISTREST:
            items = p[1:] if h is LIST else p[1:-1]
            for q in items:
                if not isinstance(v, Cons):
                    return False
                env = self.pat(q, v.car, env)
                if env is False:
                    return False
                v = v.cdr
            return self.pat([] if h is LIST else p[-1], v, env)
        raise Trap("pattern")

    def apply(self, f, args, k):
        if isinstance(f, Partial):
            self.ev("partial-filled")
            f, args = f.f, f.args + args
        if isinstance(f, Closure):
            n = len(f.params)
        elif isinstance(f, (Prim, Kont)):
            n = f.arity
        else:
            raise Trap("call of a non-function")
        if len(args) < n:
            if not args:
                return "ret", f, None, k
            self.ev("partial")
            return "ret", Partial(f, args, n - len(args)), None, k
        if len(args) > n:
            self.ev("over")
            k = ("over", args[n:], k)
            args = args[:n]
        if isinstance(f, Closure):
            env = f.env
            for p, a in zip(f.params, args):
                env = (p, a, env)
            return "eval", f.body, env, k
        if isinstance(f, Kont):
            if f.used:
                raise Trap("continuation resumed twice")
            f.used = True
            self.ev("resume")
            k = ("prompt", f.handler, k)
            for fr in reversed(f.frames):
                k = fr[:-1] + (k,)
            return "ret", args[0], None, k
        if f.fn is not None:
            return "ret", f.fn(*args), None, k
        if f.name == "apply":
            return "apply", (args[0], pylist(args[1])), None, k
        if f.name == "set":
            if not isinstance(args[0], Sym):
                raise Trap("set")
            self.globals[args[0].name] = args[1]
            return "ret", args[1], None, k
        if f.name == "value":
            return "ret", self.lookup(args[0], None), None, k
        if f.name == "value-or":
            v = self.globals.get(symname(args[0]))
            return "ret", args[1] if v is None else v, None, k
        if f.name == "try":
            self.ev("try")
            return "apply", (args[0], []), None, ("prompt", args[1], k)
        if f.name == "throw":
            self.ev("throw")
            frames = []
            while k[0] not in ("prompt", "halt"):
                frames.append(k)
                k = k[-1]
            if k[0] == "halt":
                raise Trap("uncaught throw")
            return "apply", (k[1], [args[0], Kont(frames, k[1])]), None, k[2]
        raise AssertionError(f.name)


def parse_func(items):
    rules, cur, i, n = [], [], 0, None
    while i < len(items):
        if items[i] is ARROW:
            act = items[i + 1]
            i += 2
            if i < len(items) and items[i] is WHERE:
                act = [WHERE, items[i + 1], act]
                i += 2
            rules += [[LIST] + cur, act]
            n = len(cur)
            cur = []
        else:
            cur.append(items[i])
            i += 1
    return rules, n


def evaluate(forms, fuel=200000, machine=None):
    m = machine or Machine(fuel)
    out = [m.run(f) for f in forms]
    return out, m
