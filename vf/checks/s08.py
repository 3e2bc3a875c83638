"""JSON: a document read by lib/json.c is asked for everything it has; a document that is none is refused."""
import json
import os
import sys

from .. import check as K
from .. import lines
from ..lines import Sym, lit, slit

sys.setrecursionlimit(20000)
RULE = ("a case is one file, a generated document in one of several ways to write it, or bytes near one; every node reachable by keys and "
        "indices is asked for its type, size and value, and the answers are compared with Python's reading of the same bytes")
J = "cora/lib/json#"
PREDS = ["array", "object", "integer", "real", "string", "null", "true", "false"]
CHARS = ["a", "b", "Z", " ", "0", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x7f", "\x01", "\x1f", "é", "ÿ", "ā", "€", "\uffff", "日",
         "𝄞", "\U0010ffff", "'", ";", "(", "{", "]", ",", ":"]


class Bad(Exception):
    pass


def typ(x):
    if x is None:
        return "null"
    if x is True:
        return "true"
    if x is False:
        return "false"
    return {dict: "object", list: "array", str: "string", int: "integer", float: "real"}[type(x)]


# ---- documents
def string(r):
    n = r.choice([0, 0, 1, 2, 3, 5, 8, 20, 300]) if r.random() < 0.9 else r.randint(0, 1200)
    return "".join(r.choice(CHARS) if r.random() < 0.5 else r.choice("abcxyz019 ") for _ in range(n))


def integer(r):
    return r.choice([0, 1, -1, 7, 255, 256, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 48, 2 ** 53, -2 ** 53,
                     r.randint(-1000, 1000), r.randint(-2 ** 53, 2 ** 53)])


def doc(r, d):
    x = r.random()
    if d == 0 or x < 0.3:
        k = r.randint(0, 6)
        return [None, True, False, integer(r), integer(r), string(r), r.choice([0.0, 1.5, -2.25, 1e300, 1e-7, 3.0])][k]
    if x < 0.65:
        n = r.choice([0, 1, 2, 3, 5]) if r.random() < 0.97 else r.choice([100, 1000])
        return [doc(r, d - 1 if n < 50 else 0) for _ in range(n)]
    n = r.choice([0, 1, 2, 3, 5]) if r.random() < 0.97 else r.choice([17, 100, 400])
    return {string(r)[:60] or str(i): doc(r, d - 1 if n < 50 else 0) for i in range(n)}


def wstr(r, s):
    o = '"'
    for ch in s:
        c = ord(ch)
        esc = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}.get(ch)
        if esc or c < 32 or r.random() < 0.15:
            if esc and r.random() < 0.8:
                o += esc
            elif ch == "/" and r.random() < 0.5:
                o += "\\/"
            else:
                for u in ([c] if c < 0x10000 else [0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 1023)]):
                    o += "\\u" + (r.choice(["%04x", "%04X"]) % u)
        else:
            o += ch
    return o + '"'


def write(r, x, sp):
    w = lambda: "".join(r.choice(" \t\n\r") for _ in range(r.choice([0, 0, 1, 2]))) if sp else ""
    if isinstance(x, list):
        return "[" + ",".join(w() + write(r, y, sp) + w() for y in x) + ("" if x else w()) + "]"
    if isinstance(x, dict):
        return "{" + ",".join(w() + wstr(r, k) + w() + ":" + w() + write(r, y, sp) + w() for k, y in x.items()) + ("" if x else w()) + "}"
    if isinstance(x, str):
        return wstr(r, x)
    if x is None:
        return "null"
    if isinstance(x, float):
        return r.choice([repr(x), "%.17e" % x, "%.17E" % x])
    return str(x).lower()


def parse(b):
    """the document in some bytes, or Bad; None when the reading is not settled here"""
    def const(s):
        raise Bad(s)

    if b"\0" in b:
        raise Unsettled      # jansson skips one after a number
    try:
        s = b.decode("utf-8")
        if s.startswith("\ufeff"):
            raise Bad
        x = json.loads(s, parse_constant=const)
    except RecursionError:
        raise Unsettled
    except ValueError:
        raise Bad
    if not isinstance(x, (list, dict)):
        raise Bad

    def walk(y, d):
        if d > 1000:
            raise Unsettled
        if isinstance(y, str):
            if any(0xd800 <= ord(c) < 0xe000 or c == "\0" for c in y):
                raise Bad
        elif isinstance(y, float):
            if y in (float("inf"), float("-inf")):
                raise Bad
        elif isinstance(y, bool):
            pass
        elif isinstance(y, int):
            if not -2 ** 63 <= y < 2 ** 63:
                raise Bad
            if abs(y) > 2 ** 53:
                raise Unsettled
        elif isinstance(y, list):
            for z in y:
                walk(z, d + 1)
        elif isinstance(y, dict):
            for k, z in y.items():
                walk(k, d + 1)
                walk(z, d + 1)
    walk(x, 0)
    if b'"' in b and _dups(s):
        raise Unsettled      # a repeated key may hide something refused
    return x


class Unsettled(Exception):
    pass


def _dups(s):
    found = []

    def hook(ps):
        if len({k for k, _ in ps}) != len(ps):
            found.append(1)
        return dict(ps)
    json.loads(s, object_pairs_hook=hook)
    return bool(found)


# ---- questions
def shown(x):
    """(size or value) of a node"""
    return x.encode("utf-8", "surrogatepass") if isinstance(x, str) else x


def ask(r, x, e, forms, left, v=None):
    """questions about the node x that the expression e denotes"""
    if left[0] <= 0:
        return
    left[0] -= 1
    v = "n%d" % left[0]
    forms.append(("(begin (set '%s %s) (%sjson-typeof %s))" % (v, e, J, v), typ(x), "type"))
    t = typ(x)
    if r.random() < 0.5:
        ps = PREDS[:]
        r.shuffle(ps)
        forms.append(("(list %s)" % " ".join("(%sjson-is-%s? %s)" % (J, p, v) for p in ps), lines.show([p == t for p in ps]), "predicates"))
    if t == "integer":
        forms.append(("(%sjson-integer-value %s)" % (J, v), str(x), "integer"))
    elif t == "string":
        b = x.encode()
        if len(b) < 400:
            forms.append(("(enc (%sjson-string-value %s))" % (J, v), lines.show(b), "string"))
        else:
            forms.append(("(= (%sjson-string-value %s) %s)" % (J, v, slit(b)), "true", "string"))
    elif t == "array":
        forms.append(("(%sjson-array-size %s)" % (J, v), str(len(x)), "array"))
        for i in (len(x), len(x) + r.choice([1, 100, 2 ** 32 - len(x)]), -1):
            if r.random() < 0.3:
                forms.append(("(%sjson-array-get %s %d)" % (J, v, i), "()", "absent"))
        ix = list(range(len(x)))
        r.shuffle(ix)
        for i in ix[:6]:
            ask(r, x[i], "(%sjson-array-get %s %d)" % (J, v, i), forms, left)
    elif t == "object":
        forms.append(("(%sjson-object-size %s)" % (J, v), str(len(x)), "object"))
        k = string(r)[:20]
        if "\0" not in k and k not in x:
            forms.append(("(%sjson-object-get %s %s)" % (J, v, slit(k.encode())), "()", "absent"))
        ks = list(x)
        r.shuffle(ks)
        for k in ks[:6]:
            ask(r, x[k], "(%sjson-object-get %s %s)" % (J, v, slit(k.encode())), forms, left)
    if t not in ("array", "object") and r.random() < 0.3:
        forms.append(("(list (%sjson-array-size %s) (%sjson-object-size %s) (%sjson-array-get %s 0) (%sjson-object-get %s \"a\"))" % (
            J, v, J, v, J, v, J, v), "(0 0 () ())", "neither"))
    if t != "integer" and r.random() < 0.1:
        forms.append(("(%sjson-integer-value %s)" % (J, v), "0", "neither"))
    if t != "string" and r.random() < 0.1:
        forms.append(("(enc (%sjson-string-value %s))" % (J, v), "(S)", "neither"))


def near(r, b):
    """bytes near a document"""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(b) + 1)
        k = r.randint(0, 5)
        if k == 0 and b:
            del b[i % len(b)]
        elif k == 1:
            b[i:i] = r.choice([b",", b"[", b"]", b"{", b"}", b":", b'"', b"\\", b"\0", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\\u0000", b"\\ud800",
                               b"\\udc00", b"\\u12", b"1e999", b"99999999999999999999", b"NaN", b"-", b"01", b"true", b"nul", b"//", b" "])
        elif k == 2:
            b = b[:i]
        elif k == 3 and b:
            b[i % len(b)] = r.randrange(256)
        elif k == 4:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[min(i, j):max(i, j)][:40]
        else:
            b += r.choice([b"x", b"[]", b" ", b"\n", b",", b"\0"])
    return bytes(b)


def run(c):
    def jobs(n, tag):
        for i in range(n):
            r = c.rng(tag, i)
            d = doc(r, r.choice([1, 2, 3, 4]))
            k = r.random()
            if k < 0.03:
                # nesting
                for _ in range(r.choice([50, 200, 500])):
                    d = [d] if r.random() < 0.5 else {"k": d}
            if not isinstance(d, (list, dict)) and r.random() < 0.9:
                d = [d] if r.random() < 0.5 else {string(r)[:10]: d}
            b = write(r, d, r.random() < 0.6).encode()
            if r.random() < 0.4:
                b = near(r, b)
            try:
                x = parse(b)
            except Bad:
                x = Bad
            except Unsettled:
                c.count("unsettled")
                continue
            p = os.path.join(c.scratch, "%s%d.json" % (tag, i))
            if r.random() < 0.03:
                x = Bad      # no such file
            else:
                with open(p, "wb") as f:
                    f.write(b)
            if x is Bad:
                forms = [("(%sjson-load-file %s)" % (J, lit(p.encode())), "()", "refused")]
            else:
                forms = [(f, None) for f in lines.ENC.strip().split("\n")]
                ask(r, x, "(%sjson-load-file %s)" % (J, lit(p.encode())), forms, [60])
                forms.append(("(list (%sjson-typeof 1) (%sjson-is-array? 'a) (%sjson-is-string? \"s\") (%sjson-integer-value ()) (enc (%sjson-string-value 1)))" % (
                    J, J, J, J, J), "(() false false 0 (S))", "no json"))
            j = lines.job(forms, file=p, timeout=60, gc=r.choice([0, 0, 1, 3]))
            for fm in forms:
                if len(fm) > 2:
                    c.count("op." + fm[2])
            c.case(b, len(forms) > 8 or x is Bad, b[:600].decode("latin-1"))
            yield j

    inner = lines.judge(c)

    def judge(j, r):
        v = inner(j, r)
        if v:
            try:
                v = v[:2] + (v[2] + "\nfile: %r" % open(j["file"], "rb").read()[:3000],)
            except OSError:
                pass
        try:
            os.unlink(j["file"])
        except OSError:
            pass
        return v
    for v, n in (("plain", c.n(1500, 30000)), ("asan", c.n(500, 8000))):
        r = c.runner(v, imports=["cora/lib/string", "cora/lib/json"])
        K.differential(c, r, jobs(n, v), judge)
    for k in ("type", "predicates", "integer", "string", "array", "object", "absent", "refused"):
        c.floor("op." + k, 100)
    c.assumptions = ["integers up to 2^53 and at most 1000 levels", "which of two equal keys counts is left open"]
