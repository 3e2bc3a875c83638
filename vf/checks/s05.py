"""Parser combinators: random grammars on random inputs against a model of ordered choice with backtracking."""
from .. import lines
from ..lines import Pair, Sym, lit, show

RULE = ("a case is a program that builds one random grammar of named rules and runs it on 12 inputs, most of them near a sentence of the "
        "grammar; outcome, value and remaining input are compared with the model")
P = "cora/lib/peg#"
PRE = lines.ENC + """(set 'run (lambda (p s) (let r (p s) (if (= 'ok (car r)) (list 'ok (enc (car (cdr r))) (car (cdr (cdr r)))) (car r)))))
(set 'apply1 (lambda (f) (f ())))
"""


class Fuel(Exception):
    pass


class G:
    """terms: tuples; text in cora, parse in the model, sample of a sentence"""

    def __init__(self, r, alpha, nrules):
        self.r, self.al = r, alpha
        self.n = nrules
        self.rules = []
        for i in range(nrules):
            self.rules.append(self.term(r.randint(1, 4)))
        self.main = self.term(r.randint(1, 5))

    def char(self):
        return self.r.choice(self.al)

    def term(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            k = r.choice(["char", "char", "range", "string", "sat", "eof" if r.random() < 0.3 else "char"])
            if k == "char":
                return ("char", self.char())
            if k == "range":
                a, b = sorted((self.char(), self.char()))
                return ("range", a, b)
            if k == "string":
                return ("string", bytes(self.char() for _ in range(r.choice([0, 1, 2, 2, 3, 4]) if r.random() < 0.8 else 9)))
            if k == "sat":
                c = self.char()
                return ("sat", r.choice(["=", "<", ">", "odd"]), c)
            return ("eof",)
        k = r.choice(["seq", "seq", "seqn", "or", "or", "orn", "not", "plus", "star", "opt", "map", "bind", "rule"])
        t = lambda: self.term(d - 1)
        if k == "seq":
            return ("seq", [t(), t()])
        if k == "seqn":
            return ("seq", [t() for _ in range(r.randint(3, 5))])
        if k == "or":
            a = t()
            b = t()
            if r.random() < 0.5:
                # a common prefix: backtracking matters
                x = self.term(d - 2)
                a, b = ("seq", [x, a]), ("seq", [x, b])
            return ("or", a, b)
        if k == "orn":
            a = ("string", bytes(self.char() for _ in range(r.randint(1, 3))))
            return ("or", a, ("or", t(), t()))
        if k == "not":
            return ("seq", [("not", t()), t()]) if r.random() < 0.7 else ("not", t())
        if k in ("plus", "star"):
            x = t()
            if self.nullable(x, set()):
                x = ("seq", [("char", self.char()), x])
            return (k, x)
        if k == "opt":
            return ("opt", t())
        if k == "map":
            return ("map", t(), r.choice(["tag", "const", "false", "pair"]))
        if k == "bind":
            m = r.choice(["seq", "same", "if", "drop"])
            if m == "same":
                return ("bind", ("sat", "any", 0), m, None, None)
            if m == "if":
                return ("bind", ("sat", "any", 0), m, (self.char(), t()), t())
            return ("bind", t(), m, t(), None)
        if self.n == 0:
            return t()
        return ("seq", [("char", self.char()), ("rule", r.randrange(self.n))])

    def nullable(self, t, seen):
        k = t[0]
        if k in ("char", "range", "sat"):
            return False
        if k == "string":
            return not t[1]
        if k in ("eof", "not", "star", "opt"):
            return True
        if k == "seq":
            return all(self.nullable(x, seen) for x in t[1])
        if k == "or":
            return self.nullable(t[1], seen) or self.nullable(t[2], seen)
        if k in ("plus", "map"):
            return self.nullable(t[1], seen)
        if k == "bind":
            return self.nullable(t[1], seen)
        return True

    # ---- cora
    def text(self, t):
        k = t[0]
        T = self.text
        if k == "char":
            return "(%s<char> %d)" % (P, t[1])
        if k == "range":
            return "(%s<range> %d %d)" % (P, t[1], t[2])
        if k == "string":
            return "(%s<string> %s)" % (P, lit(t[1]))
        if k == "sat":
            b = {"=": "(= c %d)", "<": "(< c %d)", ">": "(> c %d)", "odd": "(not (= c (* 2 (/ c 2))))", "any": "true"}[t[1]]
            return "(%s<satisify> (lambda (c) %s))" % (P, b % t[2] if "%d" in b else b)
        if k == "eof":
            return "(%s<eof>)" % P
        if k == "seq":
            return "(@seq %s)" % " ".join(map(T, t[1]))
        if k == "or":
            return "(%s@or %s %s)" % (P, T(t[1]), T(t[2]))
        if k in ("not", "plus", "star", "opt"):
            return "(%s@%s %s)" % (P, {"not": "!", "plus": "+", "star": "*", "opt": "?"}[k], T(t[1]))
        if k == "map":
            return "(%s$map %s %s)" % (P, T(t[1]), {"tag": "(lambda (v) (cons 'm v))", "const": "(lambda (v) 7)",
                                                     "false": "(lambda (v) false)", "pair": "(lambda (v) (list v v))"}[t[2]])
        if k == "bind":
            m = t[2]
            f = {"same": lambda: "(lambda (v) (%s<char> v))" % P,
                 "if": lambda: "(lambda (v) (if (= v %d) %s %s))" % (t[3][0], T(t[3][1]), T(t[4])),
                 "seq": lambda: "(lambda (v) (%s$map %s (lambda (w) (list v w))))" % (P, T(t[3])),
                 "drop": lambda: "(lambda (_) %s)" % T(t[3])}[m]()
            return "(%s$bind %s %s)" % (P, T(t[1]), f)
        if k == "rule":
            return "(lambda (toks) (rule%d toks))" % t[1]

    def program(self):
        out = ["(set 'rule%d %s)" % (i, self.text(t)) for i, t in enumerate(self.rules)]
        out.append("(set 'main %s)" % self.text(self.main))
        return out

    # ---- model: returns (value, position) or None
    def parse(self, t, s, i):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = t[0]
        p = self.parse
        if k == "char":
            return (s[i], i + 1) if i < len(s) and s[i] == t[1] else None
        if k == "range":
            return (s[i], i + 1) if i < len(s) and t[1] <= s[i] <= t[2] else None
        if k == "string":
            return (t[1], i + len(t[1])) if s[i:i + len(t[1])] == t[1] else None
        if k == "sat":
            if i >= len(s):
                return None
            c = s[i]
            return (c, i + 1) if {"=": c == t[2], "<": c < t[2], ">": c > t[2], "odd": c % 2 == 1, "any": True}[t[1]] else None
        if k == "eof":
            return ([], i) if i == len(s) else None
        if k == "seq":
            vs = []
            for x in t[1]:
                q = p(x, s, i)
                if q is None:
                    return None
                vs.append(q[0])
                i = q[1]
            v = vs.pop()
            while vs:
                v = cons(vs.pop(), v)
            return v, i
        if k == "or":
            return p(t[1], s, i) or p(t[2], s, i)
        if k == "not":
            return ([], i) if p(t[1], s, i) is None else None
        if k in ("star", "plus"):
            vs = []
            while True:
                q = p(t[1], s, i)
                if q is None:
                    break
                vs.append(q[0])
                i = q[1]
            return None if k == "plus" and not vs else (vs, i)
        if k == "opt":
            return p(t[1], s, i) or ([], i)
        if k == "map":
            q = p(t[1], s, i)
            if q is None:
                return None
            v = q[0]
            return {"tag": lambda: cons(Sym("m"), v), "const": lambda: 7, "false": lambda: False, "pair": lambda: [v, v]}[t[2]](), q[1]
        if k == "bind":
            q = p(t[1], s, i)
            if q is None:
                return None
            v, i = q
            m = t[2]
            if m == "same":
                return p(("char", v), s, i)
            if m == "if":
                return p(t[3][1] if v == t[3][0] else t[4], s, i)
            q = p(t[3], s, i)
            return q if q is None or m == "drop" else ([v, q[0]], q[1])
        if k == "rule":
            return p(self.rules[t[1]], s, i)

    def run(self, s):
        self.fuel = 4000
        try:
            q = self.parse(self.main, s, 0)
        except (Fuel, RecursionError):
            return None
        return show([Sym("ok"), q[0], list(s[q[1]:])]) if q else "fail", q

    # ---- a sentence, or nearly
    def sample(self, t, d):
        r = self.r
        k = t[0]
        S = self.sample
        if k == "char":
            return bytes([t[1]])
        if k == "range":
            return bytes([r.randint(t[1], t[2])])
        if k == "string":
            return t[1]
        if k == "sat":
            c = t[2]
            return bytes([{"=": c, "<": max(0, c - 1), ">": min(255, c + 1), "odd": self.char() | 1, "any": self.char()}[t[1]]])
        if k in ("eof", "not"):
            return b""
        if k == "seq":
            return b"".join(S(x, d - 1) for x in t[1])
        if k == "or":
            return S(t[r.choice([1, 2])], d - 1)
        if k in ("star", "plus"):
            return b"".join(S(t[1], d - 1) for _ in range(r.randint(0 if k == "star" else 1, 3)))
        if k == "opt":
            return S(t[1], d - 1) if r.random() < 0.5 else b""
        if k == "map":
            return S(t[1], d - 1)
        if k == "bind":
            a = S(t[1], d - 1)
            if t[2] == "same":
                return a + a
            if t[2] == "if":
                return bytes([t[3][0]]) + S(t[3][1], d - 1) if r.random() < 0.5 else a + S(t[4], d - 1)
            return a + S(t[3], d - 1)
        return S(self.rules[t[1]], d - 1) if d > -15 else b""

    def input(self):
        r = self.r
        s = self.sample(self.main, 0)[:60]
        if r.random() < 0.5:
            for _ in range(r.randint(1, 2)):
                i = r.randint(0, len(s))
                s = r.choice([lambda: s[:i], lambda: s[:i] + bytes([self.char()]) + s[i:], lambda: s[:i] + s[i + 1:],
                              lambda: s[:i] + bytes([self.char()]) + s[i + 1:], lambda: s + s[:i]])()
        return s[:60]


def cons(a, b):
    if isinstance(b, list):
        return [a] + b
    return Pair(a, b)


def lit_list(s, r):
    if r.random() < 0.3:
        return "(cora/lib/string#string->list %s)" % lit(s)
    return "'(" + " ".join(map(str, s)) + ")" if s else "()"


def program(r, c):
    g = G(r, r.choice([b"ab", b"abc", b"a", b"01+-()", bytes([0, 1, 127, 128, 255])]), r.choice([0, 0, 1, 2, 3]))
    forms = [(f, None) for f in PRE.strip().split("\n")]
    forms += [(f, None) for f in g.program()]
    for _ in range(12):
        s = g.input()
        e = g.run(s)
        if e is None:
            c.count("skipped")
            continue
        k = "fail" if e[1] is None else "all" if e[1][1] == len(s) else "part" if e[1][1] else "nothing"
        forms.append(("(run main %s)" % lit_list(s, r), e[0], k))
    return lines.job(forms)


def depth(n):
    """deep nesting and long repetition"""
    f = [(x, None) for x in PRE.strip().split("\n")]
    f += [("(set 'rep (lambda (n x l) (if (= n 0) l (rep (- n 1) x (cons x l)))))", None),
          ("(set 'par (lambda (toks) ((%s@or ($map (@seq (<char> 40) par (<char> 41)) (lambda (v) (+ 1 (car (cdr v))))) "
           "($map (<char> 46) (lambda (v) 0))) toks)))" % P, None),
          ("(run ($map (@seq (@* (<char> 97)) (<char> 98)) (lambda (v) (length (car v)))) (rep %d 97 '(98 99)))" % n, "(ok %d (99))" % n, "long"),
          ("(run ($map (@+ (@or (<char> 98) (<char> 97))) length) (rep %d 97 ()))" % n, "(ok %d ())" % n, "long")]
    m = n // 10
    f[0:0] = []
    f += [("(run ($map (@seq par2 (<eof>)) (lambda (v) (car v))) (rep %d 40 (cons 46 (rep %d 41 ()))))" % (m, m), "(ok %d ())" % m, "deep"),
          ("(run par2 (rep %d 40 (cons 46 (rep %d 41 ()))))" % (m, m - 1), "fail", "deep")]
    d = ("(set 'par2 (lambda (toks) ((@or ($bind (<char> 40) (lambda (_) ($bind par2 (lambda (n) ($bind (<char> 41) (lambda (_) "
         "(lambda (t) ['ok (+ n 1) t]))))))) ($map (<char> 46) (lambda (v) 0))) toks)))", None)
    f = [f[0], f[1], ('(import "cora/lib/peg")', None)] + [d] + f[2:]
    return lines.job(f, timeout=60)


def run(c):
    def jobs(n, tag):
        for i in range(n):
            r = c.rng(tag, i)
            j = program(r, c)
            j["gc"] = r.choice([0, 0, 3000]) if tag == "asan" else 0
            yield j
        for m in ((20000, 100000) if tag == "plain" else (2000,)):
            yield depth(m)

    for v, n in (("plain", c.n(1500, 40000)), ("asan", c.n(200, 5000))):
        r = c.runner(v, imports=["cora/lib/string", "cora/lib/peg"])
        lines.run(c, r, jobs(n, v))
    for k in ("fail", "all", "part", "nothing"):
        c.floor("op." + k, 1000)
    c.assumptions = ["the operand of @* and @+ does not match the empty input, and no rule is left-recursive: both would not end"]
