"""Hash tables against a model."""
from .. import lines
from ..lines import Pair, Sym, lit, show

RULE = "a case is a history of 60 operations on one to three hash tables; every lookup and count is compared with the model"
P = "cora/lib/hash#"


def key(r, d=2):
    """(expression, hashable model)"""
    k = r.choice(["num", "num", "sym", "str", "bool", "nil", "list", "pair", "nums"] if d else ["num", "sym", "str", "nil"])
    if k == "num":
        v = r.choice([0, 1, 2, 3, -1, -2, -7, 17, 37, 41, 42, 100, 2**31, 2**40 + 1, -2**33])
        return str(v), ("n", v)
    if k == "sym":
        s = r.choice(["a", "b", "ab", "ba", "true?", "x" * 70, "hash", "c/d#e"])
        return "'" + s, ("y", s)
    if k == "str":
        s = r.choice([b"", b"a", b"b", b"ab", b"ba", b"hello world", b"a\0b", b"a\0c", b"\xff\xfe", b"z" * 200])
        return lit(s), ("s", s)
    if k == "bool":
        b = r.random() < 0.5
        return "true" if b else "false", ("b", b)
    if k == "nil":
        return "()", ("l",)
    if k == "nums":
        v = r.randint(-30, 30)
        return str(v), ("n", v)
    if k == "pair":
        a, b = key(r, 0), key(r, 0)
        return "(cons %s %s)" % (a[0], b[0]), ("c", a[1], b[1])
    if k == "list":
        items = [key(r, d - 1) for _ in range(r.randint(1, 3))]
        m = ("l",)
        for x in reversed(items):
            m = ("c", x[1], m)
        return "(list %s)" % " ".join(x[0] for x in items), m


class T:
    def __init__(self):
        self.d = {}


def history(r, mode):
    caps = [r.choice([1, 1, 2, 3, 7, 16, 61]) for _ in range(r.randint(1, 3))]
    forms = []
    tabs = []
    for i, c in enumerate(caps):
        forms.append(("(do (set 'h%d (%shash-make %d)) (%shash-count h%d))" % (i, P, c, P, i), "0", "make"))
        tabs.append({})
    pool = [key(r) for _ in range(r.choice([3, 6, 12, 30]))]
    stamp = 0
    for _ in range(60):
        i = r.randrange(len(tabs))
        d = tabs[i]
        k = r.choice(["set", "set", "set", "get", "get", "del", "del", "count", "miss", "all"])
        e, m = r.choice(pool)
        if k == "set":
            stamp += 1
            v = r.choice([str(stamp), str(stamp), "(list %d)" % stamp, "()", "false"])
            d[m] = {"()": "()", "false": "false"}.get(v, "(%d)" % stamp if v[0] == "(" else v)
            forms.append(("(do (%shash-set! h%d %s %s) (%shash-count h%d))" % (P, i, e, v, P, i), str(len(d)), k))
        elif k == "get":
            forms.append(("((lambda (p) (if (cons? p) (list 'v (cdr p) (= (car p) %s)) p)) (%shash-get h%d %s))" % (e, P, i, e),
                          "(v %s true)" % d[m] if m in d else "()", k if m in d else "get-missing"))
        elif k == "del":
            was = m in d
            d.pop(m, None)
            forms.append(("(do (%shash-del! h%d %s) (list (%shash-count h%d) (%shash-get h%d %s)))" % (P, i, e, P, i, P, i, e),
                          "(%d ())" % len(d), k if was else "del-missing"))
        elif k == "count":
            forms.append(("(%shash-count h%d)" % (P, i), str(len(d)), k))
        elif k == "miss":
            e, m = key(r)
            if m not in d:
                forms.append(("(%shash-get h%d %s)" % (P, i, e), "()", "get-missing"))
        elif k == "all":
            es = list(pool)
            forms.append(("(list %s)" % " ".join("(%shash-get h%d %s)" % (P, i, e) for e, _ in es),
                          "(" + " ".join(pairtext(m, d[m]) if m in d else "()" for _, m in es) + ")", k))
    return forms


def text(m):
    k = m[0]
    if k == "n":
        return str(m[1])
    if k == "y":
        return m[1]
    if k == "b":
        return "true" if m[1] else "false"
    if k == "l":
        return "()"
    if k == "s":
        return '"%s"' % m[1].split(b"\0")[0].decode("latin-1")
    items, t = [], m
    while t[0] == "c":
        items.append(text(t[1]))
        t = t[2]
    return "(" + " ".join(items) + (")" if t == ("l",) else " . %s)" % text(t))


def pairtext(m, v):
    """(key . value), value a printed atom or list"""
    if v == "()":
        return "(%s)" % text(m)
    if v[0] == "(":
        return "(%s %s" % (text(m), v[1:])
    return "(%s . %s)" % (text(m), v)


def run(c):
    def jobs(n, tag):
        for i in range(n):
            r = c.rng(tag, i)
            yield lines.job(history(r, tag), gc=r.choice([0, 0, 3000]) if tag == "asan" else 0)

    for v, n in (("plain", c.n(500, 20000)), ("asan", c.n(100, 3000))):
        r = c.runner(v, imports=["cora/lib/hash"])
        lines.run(c, r, jobs(n, v))
    for k in ("set", "get", "del", "get-missing", "del-missing"):
        c.floor("op." + k, 500)
    c.assumptions = ["the capacity of a table is at least 1", "keys are compared with =, so vectors and functions are not used as keys"]
