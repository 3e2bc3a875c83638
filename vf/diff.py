"""Differential runs of generated programs against the reference evaluator."""
import random

from . import check as K
from .gen import Gen, NAMES
from .ref import evaluate, show, src, Trap, OutOfFuel, Sym, LAMBDA, LIST

FUEL = 60000


FIRST = "abkxyzQZ_?!*<>=/^~&@$:\xc3\xa9"
REST = FIRST + "019-+_"


def hostile(r):
    """names that are easily taken for one another once they are spelled in another alphabet"""
    out = {}
    while len(out) < len(NAMES):
        n = r.choice(FIRST) + "".join(r.choice(REST) for _ in range(r.choice([0, 1, 2, 2, 3, 12])))
        family = [n]
        k = r.choice(["code", "code_", "hex", "double", "low", "drop", "case", "tail", "prefix"])
        odd = [c for c in n if not c.isalnum() or ord(c) > 127]
        c = r.choice(odd) if odd else n[-1]
        family.append({
            "code": n.replace(c, "_%d" % ord(c)), "code_": n.replace(c, "_%d_" % ord(c)), "hex": n.replace(c, "_%x" % ord(c)),
            "double": n.replace("_", "__") if "_" in n else n + "_", "low": n.replace(c, chr(ord(c) ^ 64)), "drop": n.replace(c, ""),
            "case": n.swapcase(), "tail": n + r.choice("01_"), "prefix": "v_" + n}[k])
        for x in family:
            if len(x) < 40 and x and "=>" not in x and all(y in REST for y in x) and x[0] in FIRST and x not in KNOWN:
                out[x] = 1
    out = list(out)
    r.shuffle(out)
    return dict(zip(NAMES, out))


# names that mean something, or that would be read as something else
KNOWN = {"_", "=>", "=", "<", ">", "*", "/", "k", "&"}


def rename(x, names):
    if isinstance(x, list):
        return [rename(y, names) for y in x]
    if isinstance(x, Sym) and x.name in names:
        return Sym(names[x.name])
    return x


def make(args):
    """(seed string, size, defs, depth, feats) -> None or a job"""
    seed, size, nd, dp, feats = args
    rng = random.Random(seed)
    g = Gen(rng, size=size, **({"feats": feats} if feats else {}))
    p = g.program(rng.randint(0, nd), rng.randint(3, dp))
    used = g.used
    if seed[:2] == "L0":
        r = random.Random(seed + "/names")
        if r.random() < 0.3:
            names = hostile(r)
            p = rename(p, names)
            # all of them in one function, and in one that keeps them
            vs = [Sym(x) for x in names.values()]
            fn = [LAMBDA, vs, r.choice([[LIST] + vs, [[LAMBDA, [], [LIST] + vs]], [LIST, [LIST] + vs[:8], [LIST] + vs[8:]]])]
            p[-1] = [LIST, p[-1], [fn] + list(range(len(vs)))]
            used = dict(used, hostile=1)
    return job(p, used, seed)


def job(forms, used=None, seed="", fuel=FUEL, **kw):
    try:
        out, m = evaluate(forms, fuel)
        exp = show(out[-1])
    except Trap as e:
        return {"skip": "trap"}
    except OutOfFuel:
        return {"skip": "fuel"}
    except RecursionError:
        return {"skip": "recursion"}
    j = {"text": "\n".join(src(f) for f in forms), "exp": exp, "seed": seed, "ev": dict(m.events),
         "used": dict(used or {}), "forms": forms}
    j.update(kw)
    return j


def last_value(r):
    o = r.out
    if "\n=rss " in o:
        o = o[:o.rindex("\n=rss ")]
    return o.rsplit("=> ", 1)[-1].rstrip("\n") if "=> " in o else None


def judge(j, r):
    got = last_value(r)
    why = K.crashed(r)
    if why is None and (r.status != 0 or got is None):
        why = "ended with status %d" % r.status
    if why is None and got == j["exp"]:
        return None
    if why is None:
        why = "a different value"
    text = "%s\n\nexpected: %s\ngot (status %d): %s\nseed: %s mode: %s gc: %s" % (
        j["text"], j["exp"], r.status, r.out[-3000:], j.get("seed"), j.get("mode", "E"), j.get("gc", 0))
    return (j.get("key") or "mismatch", "%s for a program whose meaning is defined" % why, text)


def feed(c, it, **kw):
    """count the cases of an iterator of jobs and pass them on"""
    for j in it:
        if "skip" in j:
            c.count("skipped." + j["skip"])
            continue
        for k, v in j["ev"].items():
            c.count("run." + k, v)
        for k, v in j["used"].items():
            c.count("gen." + k, v)
        j.update(kw)
        nt = len(j["text"]) > 200
        c.case(j["text"], nt, j["text"][-700:] + "  ;=> " + j["exp"])
        yield j


def run(c, runner, args, **kw):
    K.differential(c, runner, feed(c, c.produce(make, args), **kw), judge)
