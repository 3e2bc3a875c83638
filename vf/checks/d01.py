"""Equality, arithmetic, comparison, predicates and symbols against a model of the values."""
import json

from .. import check as K
from .. import lines
from ..diff import last_value

RULE = ("a case is a program of 40 operations on random values (or a table of symbols), interpreted or compiled with the operands as "
        "constants or as variables; every value is compared with the model")

# a value: ("n", int) ("y", name) ("s", text) ("b", bool) ("l",) ("c", a, d) ("v", id) ("f", id) ("g", id)
NUMS = [0, 1, -1, 2, 3, 7, 10, -10, 31, 63, 127, 255, 256, 2**15, 2**16, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**40, 2**48,
        2**51, 2**52, 2**53, -2**53, 2**53 - 1, 10**15, -10**15]
LIM = 2**53


def atom(r):
    k = r.choice(["n", "n", "n", "y", "s", "b", "l", "v", "f", "g"])
    if k == "n":
        return ("n", r.choice(NUMS + [r.randint(-50, 50)]))
    if k == "y":
        return ("y", r.choice(["a", "b", "c", "aa", "a-b", "true?", "nil", "quote", "x" * 65, "+"]))
    if k == "s":
        return ("s", r.choice(["", "a", "b", "ab", "abc", "abd", "true", "()", "x" * 200, "x" * 199 + "y", "1"]))
    if k == "b":
        return ("b", r.random() < 0.5)
    if k == "l":
        return ("l",)
    return (k, r.randrange(3))


def value(r, d=3):
    if d == 0 or r.random() < 0.55:
        return atom(r)
    return ("c", value(r, d - 1), value(r, d - 1) if r.random() < 0.4 else lst(r, d - 1))


def lst(r, d):
    m = ("l",)
    for _ in range(r.randint(0, 3)):
        m = ("c", value(r, d), m)
    return m


def tweak(r, v):
    """a value that is equal, or differs in one place"""
    if v[0] == "c" and r.random() < 0.8:
        i = r.choice([1, 2])
        w = list(v)
        w[i] = tweak(r, v[i])
        return tuple(w)
    if r.random() < 0.5:
        return v
    return atom(r)


def text(v, q=False):
    """an expression that makes the value"""
    k = v[0]
    if k == "n":
        return str(v[1])
    if k == "y":
        return "'" + v[1]
    if k == "s":
        return '"%s"' % v[1]
    if k == "b":
        return "true" if v[1] else "false"
    if k == "l":
        return "()"
    if k in "vfg":
        return "%s%d" % (k + "x", v[1])
    return "(cons %s %s)" % (text(v[1]), text(v[2]))


def quotable(v):
    return v[0] not in "vfgl" and v[0] != "c" or v[0] == "l" or v[0] == "c" and quotable(v[1]) and quotable(v[2]) and tail(v)


def tail(v):
    while v[0] == "c":
        v = v[2]
    return v[0] == "l"


def show(v):
    k = v[0]
    if k == "n":
        return str(v[1])
    if k == "y":
        return v[1]
    if k == "s":
        return '"%s"' % v[1]
    if k == "b":
        return "true" if v[1] else "false"
    if k == "l":
        return "()"
    if k == "v":
        return "vector"
    if k == "f":
        return "native"
    if k == "g":
        raise ValueError
    items = []
    while v[0] == "c":
        items.append(show(v[1]))
        v = v[2]
    return "(" + " ".join(items) + (")" if v[0] == "l" else " . %s)" % show(v))


def quoted(v):
    """the text of a quoted literal"""
    k = v[0]
    if k == "c":
        items = []
        while v[0] == "c":
            items.append(quoted(v[1]))
            v = v[2]
        return "(" + " ".join(items) + ")"
    return show(v)


def has(v, k):
    return v[0] == k or v[0] == "c" and (has(v[1], k) or has(v[2], k))


PRED = {
    "number?": lambda v: v[0] == "n", "symbol?": lambda v: v[0] in "yg", "string?": lambda v: v[0] == "s",
    "cons?": lambda v: v[0] == "c", "pair?": lambda v: v[0] == "c", "atom?": lambda v: v[0] != "c",
    "null?": lambda v: v[0] == "l", "boolean?": lambda v: v[0] == "b", "vector?": lambda v: v[0] == "v",
}


def expr(r, v):
    if quotable(v) and v[0] == "c" and r.random() < 0.4:
        return "'" + quoted(v)
    return text(v)


def op(r):
    """(expression with operands {0} {1}, operand expressions, expected text, name)"""
    k = r.choice(["=", "=", "=", "pred", "pred", "arith", "arith", "arith", "cmp", "cmp", "not", "carcdr", "print", "if", "sym", "div",
                  "allpred"])
    if k == "=":
        a = value(r)
        b = tweak(r, a) if r.random() < 0.7 else value(r)
        return "(= {0} {1})", [expr(r, a), expr(r, b)], "true" if a == b else "false", "eq-" + ("same" if a == b else "different")
    if k == "pred":
        v = value(r, 1)
        p = r.choice(list(PRED))
        return "(%s {0})" % p, [expr(r, v)], "true" if PRED[p](v) else "false", p
    if k == "allpred":
        v = value(r, 1)
        return "(list %s)" % " ".join("(%s {0})" % p for p in PRED), [expr(r, v)], "(%s)" % " ".join(
            "true" if f(v) else "false" for f in PRED.values()), k
    if k == "arith":
        while True:
            o = r.choice("+-*")
            a, b = r.choice(NUMS + [r.randint(-9999, 9999)]), r.choice(NUMS + [r.randint(-9999, 9999)])
            x = a + b if o == "+" else a - b if o == "-" else a * b
            if abs(x) <= LIM:
                return "(%s {0} {1})" % o, [str(a), str(b)], str(x), "arith" + o
    if k == "div":
        a, b = r.choice(NUMS + [r.randint(-9999, 9999)]), r.choice([x for x in NUMS if x] + [r.randint(1, 99)])
        x = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return "(/ {0} {1})", [str(a), str(b)], str(x), "arith/"
    if k == "cmp":
        o = r.choice("<>=")
        a = r.choice(NUMS)
        b = r.choice([a, a + 1, a - 1, -a, r.choice(NUMS)])
        if abs(b) > LIM:
            b = a
        x = a < b if o == "<" else a > b if o == ">" else a == b
        return "(%s {0} {1})" % o, [str(a), str(b)], "true" if x else "false", "cmp" + o
    if k == "not":
        b = r.random() < 0.5
        return "(not {0})", ["true" if b else "false"], "false" if b else "true", k
    if k == "carcdr":
        a, d = value(r, 2), value(r, 2)
        if has(a, "g") or has(d, "g"):
            a, d = ("n", 1), ("l",)
        return "(cons (cdr {0}) (car {0}))", [expr(r, ("c", a, d))], show(("c", d, a)), k
    if k == "print":
        v = value(r)
        while has(v, "g"):
            v = value(r)
        return "{0}", [expr(r, v)], show(v), k
    if k == "if":
        a, b = atom(r), atom(r)
        return "(if (= {0} {1}) (if (cons? {0}) 1 2) 3)", [expr(r, a), expr(r, b)], "2" if a == b else "3", k
    s = r.choice(["a", "zz", "a#b", "x" * 65, "p/q", "<->", "1+", "caf\u00e9"])
    w = r.choice([s, s + "1", s[:-1]])
    if not w:
        w = s
    return "(= (intern {0}) (intern {1}))", ['"%s"' % s, '"%s"' % w], "true" if s == w else "false", k


PRE = "\n".join(["(set 'vx%d (vector 2))" % i for i in range(3)] + ["(set 'fx%d (lambda (a) (cons a %d)))" % (i, i) for i in range(3)] +
                ["(set 'gx%d (gensym))" % i for i in range(3)])


def call(r, o, compiled):
    t, ops, exp, name = o
    how = r.choice(["const", "var", "let", "global"] if compiled else ["const", "var"])
    if how == "const":
        return t.format(*ops)
    if how == "var":
        names = ["p%d" % i for i in range(len(ops))]
        return "((lambda (%s) %s) %s)" % (" ".join(names), t.format(*names), " ".join(ops))
    if how == "let":
        x = t.format(*["l%d" % i for i in range(len(ops))])
        for i in reversed(range(len(ops))):
            x = "(let l%d %s %s)" % (i, ops[i], x)
        return x
    names = ["gl%d" % i for i in range(len(ops))]
    return "(do (do %s) %s)" % (" ".join("(set '%s %s)" % (n, x) for n, x in zip(names, ops)) if len(ops) == 2 else
                                "(set '%s %s) 0" % (names[0], ops[0]), t.format(*names))


def symbols(r):
    """many symbols, each a variable of its own"""
    n = r.choice([50, 300])
    names = set()
    while len(names) < n:
        k = r.choice(["short", "num", "perm", "case", "long"])
        if k == "short":
            names.add("".join(r.choice("abcdef") for _ in range(r.randint(2, 4))) + "_")
        elif k == "num":
            names.add("v%d_" % r.randint(0, 999))
        elif k == "perm":
            x = list("abcdefgh")
            r.shuffle(x)
            names.add("".join(x))
        elif k == "case":
            names.add("".join(r.choice("aAbB") for _ in range(6)))
        else:
            names.add("w" * r.randint(20, 200) + str(r.randint(0, 9)))
    names = list(names)
    forms = []
    val = {}
    for i, s in enumerate(names):
        val[s] = i
        forms.append((r.choice(["(set '%s %d)" % (s, i), '(set (intern "%s") %d)' % (s, i), "(defun %s () %d)" % (s, i)]), None))
        if forms[-1][0].startswith("(defun"):
            val[s] = None
    for _ in range(40):
        s = r.choice(names)
        k = r.choice(["value", "var", "name", "same", "diff", "gensym", "value-or"])
        if val[s] is None:
            forms.append(("(%s)" % s, str(names.index(s)), "sym-fn"))
            continue
        if k == "value":
            forms.append(("(value '%s)" % s, str(val[s]), "sym-" + k))
        elif k == "var":
            forms.append((s, str(val[s]), "sym-" + k))
        elif k == "name":
            forms.append(("(symbol->string '%s)" % s, '"%s"' % s, "sym-" + k))
        elif k == "same":
            forms.append(('(= \'%s (intern (string-append "%s" "%s")))' % (s, s[:2], s[2:]), "true", "sym-" + k))
        elif k == "diff":
            t = r.choice(names)
            forms.append(("(= '%s '%s)" % (s, t), "true" if s == t else "false", "sym-" + k))
        elif k == "value-or":
            v = r.choice(["()", "false", "true", '""', "0", "none", "(())"])
            forms.append(("(do (set 'odd-%s %s) (list (value-or '%s 'none) (value-or 'unset-%s 'none) (value-or 'odd-%s 7)))" % (
                s, "'" + v if v[0] in "n(" else v, s, s, s), "(%d none %s)" % (val[s], v), "sym-" + k))
        else:
            forms.append(("((lambda (p q) (do (set p 1) (do (set q 2) (list (value p) (value q) (= p q) (= p p) (symbol? p))))) (gensym) (gensym))",
                          "(1 2 false true true)", "sym-" + k))
    return forms


def outside(r):
    """an index or a size that is out of range for a vector"""
    n = r.choice([0, 1, 2, 5, 40, 2000])
    big = r.choice([1, 2, 7, 100, 2**31, 2**32, 2**32 + r.randint(0, 5), 2**33])
    i = r.choice([n + big - 1, -big])
    bad = r.choice(["(vector-ref v %d)" % i, "(vector-set! v %d 1)" % i, "(vector-set! v %d 1)" % i, "(vector %d)" % -big, "(vector %d)" % (2**31 + big)])
    forms = [("(set 'v (vector %d))" % n, None), ("(vector-length v)", str(n))]
    if n:
        forms.append(("(do (vector-set! v %d 5) (vector-ref v %d))" % (n - 1, n - 1), "5"))
    return {"forms": forms, "bad": bad}


def run(c):
    def jobs(n, tag):
        for i in range(n):
            r = c.rng(tag, i)
            if i % 10 == 0:
                yield lines.job(symbols(r), gc=r.choice([0, 0, 3000]) if tag == "asan" else 0)
                continue
            forms = [(x, None) for x in PRE.split("\n")]
            for _ in range(40):
                o = op(r)
                forms.append((call(r, o, False), o[2].encode("utf-8").decode("latin-1"), o[3]))
            forms = [(f[0].encode("utf-8").decode("latin-1"),) + f[1:] for f in forms]
            yield lines.job(forms, gc=r.choice([0, 0, 3000]) if tag == "asan" else 0)

    for v, n in (("plain", c.n(800, 40000)), ("asan", c.n(150, 5000))):
        r = c.runner(v)
        lines.run(c, r, jobs(n, v))
        lines.refused(c, r, (outside(c.rng("outside", v, i)) for i in range(c.n(100, 3000))))
        if v != "plain":
            continue

        def feed():
            for i in range(c.n(150, 4000)):
                rr = c.rng("L", i)
                ops = [op(rr) for _ in range(30)]
                body = PRE + "\n" + "\n".join("(set 'res%d %s)" % (k, call(rr, o, True)) for k, o in enumerate(ops))
                body += "\n(list %s)" % " ".join("res%d" % k for k in range(len(ops)))
                for o in ops:
                    c.count("compiled." + o[3])
                t = body.encode("utf-8").decode("latin-1")
                exp = ("(" + " ".join(o[2] for o in ops) + ")").encode("utf-8").decode("latin-1")
                c.case(t, True, t[-900:])
                yield {"text": t, "exp": exp, "mode": "L", "timeout": 60, "ops": ops}

        def judge(j, res):
            got = last_value(res)
            if res.status != 0 or got != j["exp"]:
                return ("compiled", "a compiled operation gave another value", "%s\nexpected: %s\ngot (status %d): %s" % (
                    j["text"], j["exp"], res.status, res.out[-3000:]))
        K.differential(c, r, feed(), judge)
    for k in ("eq-same", "eq-different", "number?", "arith+", "arith*", "arith/", "cmp<", "allpred"):
        c.floor("op." + k, 100)
    c.floor("refused", 100)
    c.assumptions = ["arithmetic is exact for results up to 2^53; division truncates", "vectors and functions are equal only to themselves"]
