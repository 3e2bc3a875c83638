"""Cases that are one program of many forms whose values are each judged against a model."""
from . import check as K

ENC = """(set 'enc/l (lambda (s) (cons 'S (cora/lib/string#string->list s))))
(set 'enc (lambda (x) (if (string? x) (enc/l x) (if (cons? x) (cons (enc (car x)) (enc (cdr x))) x))))
"""


def show(x):
    """how the printer shows the value that enc made of a Python value (bytes are strings)"""
    if isinstance(x, bytes):
        return show([Sym("S")] + list(x))
    if x is True:
        return "true"
    if x is False:
        return "false"
    if isinstance(x, Sym):
        return x.name
    if isinstance(x, int):
        return str(x)
    if isinstance(x, (list, tuple)):
        return "(" + " ".join(show(y) for y in x) + ")"
    if isinstance(x, Pair):
        return flat(x)
    if isinstance(x, str):
        return '"%s"' % x
    raise TypeError(x)


def flat(x):
    """a pair whose tail may be a string (encoded as a list) or another pair"""
    items = []
    while isinstance(x, Pair):
        items.append(show(x.car))
        x = x.cdr
    if isinstance(x, bytes):
        x = [Sym("S")] + list(x)
    if isinstance(x, list):
        items += [show(y) for y in x]
        return "(" + " ".join(items) + ")"
    return "(" + " ".join(items) + " . " + show(x) + ")"


class Sym:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Pair:
    def __init__(self, car, cdr):
        self.car, self.cdr = car, cdr


def lit(b):
    """a string literal of some bytes"""
    s = b.decode("latin-1")
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def slit(b):
    """an expression for a string of any length: literals have at most 1000 bytes"""
    return lit(b) if len(b) <= 400 else "(string-append %s %s)" % (lit(b[:400]), slit(b[400:]))


def job(forms, **kw):
    """forms: (text, expected or None, name)"""
    return dict(text="\n".join(f[0] for f in forms), forms=forms, **kw)


def values(r):
    """printed values, which may contain newlines"""
    o = r.out
    if "\n=rss " in o:
        o = o[:o.rindex("\n=rss ") + 1]
    return [x[:-1] if x.endswith("\n") else x for x in ("\n" + o).split("\n=> ")[1:]]


def judge(c):
    def f(j, r):
        got = values(r)
        why = K.crashed(r)
        for i, fm in enumerate(j["forms"]):
            if i >= len(got):
                return (j.get("key", fm[2] if len(fm) > 2 else "end"), "%s at a form whose value is defined" % (
                    why or "ended with status %d" % r.status), "form %d: %s\nexpected: %s\nprogram:\n%s\noutput: %s" % (
                        i, fm[0], fm[1], j["text"], r.out[-3000:]))
            if fm[1] is not None and got[i].split("\n")[0] != fm[1]:
                return (j.get("key", fm[2] if len(fm) > 2 else "value"), "wrong value of %s" % fm[0][:200],
                        "form %d: %s\nexpected: %s\ngot: %s\nprogram:\n%s" % (i, fm[0], fm[1], got[i], j["text"]))
        if r.status != 0:
            return (j.get("key", "status"), why or "ended with status %d" % r.status, j["text"] + "\n" + r.out[-3000:])
        return None
    return f


def run(c, runner, jobs, count=True):
    def feed():
        for j in jobs:
            if count:
                for fm in j["forms"]:
                    if len(fm) > 2:
                        c.count("op." + fm[2])
                c.case(j["text"], len(j["forms"]) > 3, j["text"][-900:])
            yield j
    K.differential(c, runner, feed(), judge(c))


def refused(c, runner, jobs):
    """programs whose last form must end them; forms: (text, expected or None), bad: text"""
    def judge(j, r):
        got = values(r)
        text = "program:\n%s\noutput (status %d): %s" % (j["text"], r.status, r.out[-2000:])
        if "ERROR: AddressSanitizer" in r.out or "runtime error:" in r.out:
            return ("refused", "sanitizer report at %s" % j["bad"], text)
        for i, fm in enumerate(j["forms"]):
            if i >= len(got) or (fm[1] is not None and got[i].split("\n")[0] != fm[1]):
                return ("refused", "wrong value of %s" % fm[0], text)
        if len(got) > len(j["forms"]) or r.status == 0:
            return ("refused", "%s was accepted" % j["bad"], text)
        c.count("refused")
        return None

    def feed():
        for j in jobs:
            j["text"] = "\n".join([f[0] for f in j["forms"]] + [j["bad"]])
            c.case(j["text"], True, j["text"])
            yield j
    K.differential(c, runner, feed(), judge)
