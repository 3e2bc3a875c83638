"""The string library against a model on byte strings."""
from .. import lines
from ..lines import lit, show

RULE = "a case is a program of 30 calls of string operations on random byte strings; each value is compared with the model"
P = "cora/lib/string#"


class G:
    def __init__(self, r):
        self.r = r

    def s(self, n=None):
        """(expression, bytes)"""
        r = self.r
        n = r.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, 40, 300]) if n is None else n
        al = r.choice([b"ab", b"a", b"abc", b"aab,", b",", b"xyz \"\\;()\n", bytes(range(256)), bytes(range(128, 256)), b"\0a"])
        b = bytes(r.choice(al) for _ in range(n))
        k = r.random()
        if k < 0.6 or n == 0:
            return lit(b), b
        if k < 0.8:
            i = r.randint(0, n)
            return "(string-append %s %s)" % (lit(b[:i]), lit(b[i:])), b
        i, j = r.randint(0, 3), r.randint(0, 3)
        return "(%sstring-slice %s %d %d)" % (P, lit(b"x" * i + b + b"y" * j), i, i + n), b

    def part(self, b):
        """a piece of b, or nearly"""
        r = self.r
        if not b or r.random() < 0.2:
            return self.s(r.choice([0, 1, 2, 3]))
        i = r.randint(0, len(b))
        j = min(len(b), i + r.choice([0, 1, 1, 2, 3, 10]))
        q = b[i:j]
        if r.random() < 0.15 and q:
            q = q[:-1] + bytes([q[-1] ^ 1])
        return lit(q), q

    def op(self):
        r = self.r
        k = r.choice(["slice", "prefix", "length", "index", "compare", "number", "replace", "split", "contain", "ref", "list",
                      "append", "memcpy", "byteslength", "eq", "long", "symbol"])
        e, b = self.s()
        n = len(b)
        if k == "slice":
            i, j = r.randint(-n - 2, n + 2), r.randint(-n - 2, n + 2)
            beg, end = (i + n if i < 0 else i), (j + n if j < 0 else j)
            v = b"" if beg < 0 or end > n or end < beg else b[beg:end]
            return "(%sstring-slice %s %d %d)" % (P, e, i, j), v, k
        if k == "prefix":
            f, q = self.part(b)
            if r.random() < 0.5:
                q = b[:r.randint(0, n)] + (b"z" if r.random() < 0.3 else b"")
                f = lit(q)
            return "(%shas-prefix? %s %s)" % (P, e, f), b.startswith(q), k
        if k in ("length", "byteslength"):
            return "(%s %s)" % (P + "string-length" if k == "length" else "bytes-length", e), n, k
        if k in ("index", "ref"):
            if n == 0:
                e, b, n = '"q"', b"q", 1
            i = r.choice([0, n - 1, r.randint(0, n - 1)])
            return ("(%sstring-index %s %d)" % (P, e, i), b[i:i + 1], k) if k == "index" else (
                "(%sbyte-ref %s %d)" % (P, e, i), b[i], k)
        if k == "compare":
            f, q = self.s()
            if r.random() < 0.6:
                q = b[:r.randint(0, n)] + r.choice([b"", b"", b"a", b"b", b"z"])
                f = lit(q)
            # the sign is what callers use; bytes above 127 only have to be antisymmetric
            t = "((lambda (p q) (list (if (< p 0) -1 (if (> p 0) 1 0)) (= 0 (+ (if (< p 0) -1 (if (> p 0) 1 0)) " \
                "(if (< q 0) -1 (if (> q 0) 1 0)))))) (%scompare %s %s) (%scompare %s %s))" % (P, e, f, P, f, e)
            if max(b + q + b"\0") > 127:
                return "(cdr %s)" % t, [True], k + "-high"
            return t, [(b > q) - (b < q), True], k
        if k == "number":
            v = r.choice([0, 1, -1, 9, 10, -10, 2**31, -2**31, 2**53, -2**53, r.randint(-10**12, 10**12)])
            return "(%snumber->string %d)" % (P, v), str(v).encode(), k
        if k == "replace":
            f, q = self.part(b)
            t, w = self.s(r.choice([0, 1, 3, 30]))
            return "(%sstring-replace %s %s %s)" % (P, e, f, t), b.replace(q, w, 1), k
        if k == "split":
            f, q = self.part(b)
            if r.random() < 0.4:
                f, q = '","', b","
            return "(%sstring-split %s %s)" % (P, e, f), b.split(q) if q else [b], k
        if k == "contain":
            f, q = self.part(b)
            return "(%sstring-contain? %s %s)" % (P, e, f), q in b, k
        if k == "list":
            return "(%sstring->list %s)" % (P, e), list(b), k
        if k == "append":
            f, q = self.s()
            return "(string-append %s %s)" % (e, f), b + q, k
        if k == "memcpy":
            m = r.choice([1, 2, 5, 20, 100])
            dst = bytes(r.randint(1, 255) for _ in range(m))
            if r.random() < 0.3:
                src, g = dst, None
            else:
                g, src = self.s()
            sz = r.randint(0, min(len(src), m))
            o2 = r.randint(0, len(src) - sz)
            o1 = r.randint(0, m - sz)
            v = dst[:o1] + src[o2:o2 + sz] + dst[o1 + sz:]
            t = "((lambda (d) (do (%smemcpy d 0 %s 0 %d) (do (%smemcpy d %d %s %d %d) d))) (bytes %d))" % (
                P, lit(dst), m, P, o1, g or "d", o2, sz, m)
            return t, v, k
        if k == "eq":
            f, q = self.s()
            if r.random() < 0.6:
                q = b[:-1] + bytes([b[-1] ^ r.choice([0, 0, 1, 128])]) if b else b
                f = lit(q)
            return "(= %s %s)" % (e, f), b == q, k
        if k == "long":
            b = b or b"q"
            e = lit(b)
            m = r.randint(1, 8)
            t = e
            for _ in range(m):
                t = "((lambda (s) (string-append s s)) %s)" % t
            b = b * 2**m
            i = r.randint(0, len(b) - 1)
            return "((lambda (s) (list (bytes-length s) (%sbyte-ref s %d) (%sstring-slice s %d %d))) %s)" % (
                P, i, P, i, min(len(b), i + 9), t), [len(b), b[i], b[i:i + 9]], k
        if k == "symbol":
            b = bytes(r.choice(b"abc-*/<>=.#?!") for _ in range(r.choice([1, 2, 5, 30, 70, 300])))
            return "(symbol->string (intern %s))" % lit(b), b, k


def outside(r):
    """an index or a size that is out of range for a string of some length"""
    n = r.choice([0, 1, 2, 5, 40])
    s = lit(bytes(r.randint(97, 122) for _ in range(n)))
    m = r.choice([0, 1, 3, 30])
    big = r.choice([1, 2, 7, 100, 2**31, 2**32, 2**32 + r.randint(0, 5), 2**33])
    k = r.choice(["ref+", "ref-", "src+", "src-", "dst+", "dst-", "len-", "bytes-", "bytes+"])
    mem = "(%smemcpy (bytes %d) %%d %s %%d %%d)" % (P, m, s)
    sz = min(n, m)
    bad = {"ref+": "(%sbyte-ref %s %d)" % (P, s, n + big - 1), "ref-": "(%sbyte-ref %s %d)" % (P, s, -big),
           "src+": mem % (0, n - sz + big, sz), "src-": mem % (0, -big, sz), "dst+": mem % (m - sz + big, 0, sz),
           "dst-": mem % (-big, 0, sz), "len-": mem % (0, 0, -big), "bytes-": "(bytes %d)" % -big,
           "bytes+": "(bytes %d)" % (2**31 + big)}[k]
    return {"forms": [("(bytes-length (bytes %d))" % m, str(m))], "bad": bad}


def run(c):
    def jobs(n, tag):
        for i in range(n):
            r = c.rng(tag, i)
            g = G(r)
            forms = [(f, None) for f in lines.ENC.strip().split("\n")]
            for _ in range(30):
                t, v, k = g.op()
                forms.append(("(enc %s)" % t, show(v), k))
            if r.random() < 0.1:
                # the operations resolve through the exports too
                forms.append(('(begin (import "cora/lib/string") (list (string-length "abc") (has-prefix? "ab" "a")))', "(3 true)", "import"))
            yield lines.job(forms, gc=r.choice([0, 0, 2000]) if tag == "asan" else 0)

    for v, n in (("plain", c.n(400, 20000)), ("asan", c.n(150, 5000))):
        r = c.runner(v, imports=["cora/lib/string"])
        lines.run(c, r, jobs(n, v))
        lines.refused(c, r, (outside(c.rng("outside", v, i)) for i in range(c.n(120, 3000))))
    c.floor("refused", 100)
    for k in ("slice", "replace", "split", "contain", "memcpy", "compare"):
        c.floor("op." + k, 100)
    c.assumptions = ["an index or a size that is out of range ends the program, except that string-slice gives an empty string"]
