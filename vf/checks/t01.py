"""Tracing: the same values, and a log of exactly the calls that were made."""
import os
import random
import struct

from .. import check as K
from .. import diff
from ..gen import Gen, S, QUOTE, LIST, DEFUN

RULE = ("a random program some of whose functions are traced, then untraced, interpreted or compiled; every value is compared with the reference evaluator's, and "
        "every record of the log is read and the calls counted; a program counts when the log has calls of a traced function")
HDR = struct.Struct("<BBHIQ")


def counted(forms, r):
    """let the functions count their calls; the names of those that do"""
    out, names = [], []
    for f in forms:
        if f[0] is DEFUN and f[1] is not S("deep"):
            n = f[1].name if hasattr(f[1], "name") else str(f[1])
            names.append(n)
            out.append([S("set"), [QUOTE, S("n-" + n)], 0])
            f = [DEFUN, f[1], f[2], [S("begin"), [S("set"), [QUOTE, S("n-" + n)], [S("+"), S("n-" + n), 1]], f[3]]]
        out.append(f)
    return out, names


def keeping(r, n):
    """functions of which each keeps values while it calls the ones before it, and calls of them"""
    out, ar = [], []
    for i in range(n):
        k = r.randint(0 if i else 1, 4)
        ps = [S("p%d" % m) for m in range(k)]
        vs = list(ps)

        def num():
            return r.choice(vs) if vs and r.random() < 0.8 else r.randint(-9, 9)
        lets = []
        for m in range(r.randint(1, 5) if i else 0):
            j = r.randrange(i)
            call = [S("keep%d" % j)] + [num() for _ in range(ar[j])]
            if r.random() < 0.3:
                call = [S("+"), num(), call]
            v = S("v%d" % m)
            lets += [v, call]
            vs.append(v)
        body = 1
        for v in vs:
            body = [r.choice([S("+"), S("-")]), body, v]
        if r.random() < 0.4 and i:
            # a tail call
            j = r.randrange(i)
            body = [S("keep%d" % j)] + [body] * min(ar[j], 1) + [num() for _ in range(ar[j] - 1)]
        out.append([DEFUN, S("keep%d" % i), ps, [S("let")] + lets + [body] if lets else body])
        ar.append(k)
    calls = [[S("keep%d" % i)] + [r.randint(-5, 50) for _ in range(ar[i])] for i in range(n)]
    return out, calls


def make(args):
    seed, size, path, mode = args
    r = random.Random(seed)
    g = Gen(r, size=size)
    p = g.program(r.randint(1, 4), r.randint(3, 6))
    kept, calls = keeping(r, r.choice([0, 2, 3, 5]))
    i = len(p) - 2
    p[i:i] = kept
    p[-2][2] = [LIST, p[-2][2]] + calls
    p, names = counted(p, r)
    if not names:
        return {"skip": "no function"}
    res, last = p[-2], p[-1]
    counts = [LIST] + [S("n-" + n) for n in names]
    ref = p[:-1] + [[LIST, S("res"), S("tr"), S("g0"), S("g1"), counts]]
    j = diff.job(ref, g.used, seed)
    if "skip" in j:
        return j
    # how often each function is traced
    times = [r.choice([0, 1, 1, 1, 2]) for _ in names]
    if not any(times):
        times[0] = 1
    defs = "\n".join(diff.src(f) for f in p[:-2])
    pre = "(import \"cora/lib/trace\")\n" + defs + "\n"
    olds = "".join("(set 'old-%s %s)\n" % (n, n) for n in names)
    on = "".join("(trace '%s)\n" % n * k for n, k in zip(names, times))
    off = "".join("(untrace '%s)\n" % n * k for n, k in zip(names, times))
    same = "(list %s)" % " ".join("(= old-%s %s)" % (n, n) for n in names)
    more = diff.src(ref[-1])
    body = pre + olds
    first = r.random() < 0.5
    if first:
        body += on + "(trace-enable \"%s\")\n" % path
    else:
        body += "(trace-enable \"%s\")\n" % path + on
    body += diff.src(res) + "\n(set 'out " + more + ")\n"
    quiet = r.random() < 0.5
    if quiet:
        # what is called after untrace leaves no call in the log
        body += off + "(set 'same " + same + ")\n"
        body += "(set 'tr ())\n(set 'g0 1)\n(set 'g1 20)\n" + diff.src(res) + "\n(trace-disable)\n"
    else:
        end = r.choice(["(trace-disable)\n", ""])
        body += end + off + "(set 'same " + same + ")\n"
    body += "(list out (value 'same))"
    # functions that know the old counts are not compared in the second run
    j["exp"] = "(%s (%s))" % (j["exp"], " ".join(["true"] * len(names)))
    j.update(text=body, times=dict(zip(names, times)), log=path, mode=mode, timeout=40)
    return j


def read(data):
    """the records, or what is wrong"""
    i, out = 0, []
    while i < len(data):
        if i + 16 > len(data):
            return None, "the log ends inside of a record"
        ph, n, tid, idn, ts = HDR.unpack_from(data, i)
        if i + 16 + n > len(data):
            return None, "the log ends inside of a name"
        if chr(ph) not in "BE":
            return None, "no record at byte %d" % i
        out.append((chr(ph), data[i + 16:i + 16 + n].decode("latin-1"), tid, idn, ts))
        i += 16 + n
    return out, None


def judge_log(c, path, calls):
    try:
        with open(path, "rb") as f:
            data = f.read()
    except OSError:
        return "there is no log"
    ev, bad = read(data)
    if bad:
        return bad
    c.count("records", len(ev))
    stack, seen, at, tid = [], {}, 0, None
    for ph, name, t, idn, ts in ev:
        if ts < at:
            return "time goes back at %r" % name
        at = ts
        if tid is None:
            tid = t
        if t != tid or idn != 0:
            return "another thread in the log of one thread"
        if ph == "B":
            stack.append(name)
            seen[name] = seen.get(name, 0) + 1
        else:
            if not stack or stack[-1] != name:
                return "the end of %r does not match the innermost begin %r" % (name, stack[-1:])
            stack.pop()
    if stack:
        return "%r has no end" % stack[-1]
    c.count("functions traced", sum(1 for n in calls if calls[n]))
    for n, k in calls.items():
        c.count("calls traced", k)
        if seen.get(n, 0) != k:
            return "%d calls of %s in the log instead of %d" % (seen.get(n, 0), n, k)
    return None


def judge(c, j, r):
    try:
        w = diff.judge(j, r)
        if w:
            return w
        got = diff.last_value(r)
        # ((res tr g0 g1 (counts)) (true ...))
        counts = [int(x) for x in got[:got.rindex(" (")].rstrip(")").rsplit("(", 1)[1].split()]
        names = list(j["times"])
        calls = {n: counts[i] * j["times"][n] for i, n in enumerate(names)}
        w = judge_log(c, j["log"], calls)
        if w:
            return ("log", w, "%s\n%s\n%s" % (w, j["text"], r.out[-2000:]))
        return None
    finally:
        try:
            os.unlink(j["log"])
        except OSError:
            pass


LONG = """(import "cora/lib/trace")
(defun loop%s (n) (if (= n 0) 'end (loop%s (- n 1))))
(trace 'loop%s)
(trace-enable "%s")
(set 'r (loop%s %d))
%s
r
"""


def run(c):
    for variant, mode, n in (("plain", "E", c.n(600, 12000)), ("plain", "L", c.n(120, 3000)), ("asan", "E", c.n(120, 3000))):
        r = c.runner(variant)
        d = c.dir()
        args = (("T01/%s/%s/%d/%d" % (variant, mode, c.seed, i), 20 + 10 * (i % 6), os.path.join(d, "log%d" % i), mode) for i in range(n))
        K.differential(c, r, diff.feed(c, c.produce(make, args)), lambda j, x: judge(c, j, x))
        # logs longer than the buffer, names of any length
        jobs = []
        rr = c.rng("long", variant, mode)
        for i in range(c.n(5, 60)):
            s = "x" * rr.choice([0, 1, 40, 200, 251, 252, 300])
            k = rr.choice([2000, 15000]) if mode == "E" else rr.choice([20000, 50000])
            p = os.path.join(d, "long%d" % i)
            end = rr.choice(["(trace-disable)", "(trace-enable \"%s\")\n(loop%s 3)" % (p + "b", s), ""])
            jobs.append(dict(text=LONG % (s, s, s, p, s, k, end), mode=mode, timeout=120, log=p, name="loop" + s, k=k, again="enable" in end))
        for j, x in r.run(jobs):
            c.case(j["text"], True)
            why = K.crashed(x)
            if why or x.status != 0 or diff.last_value(x) != "end":
                c.violation("long", "%s with a long trace" % (why or "a wrong value"), j["text"] + x.out[-1000:])
                continue
            # the name is cut to the room of a record
            w = judge_log(c, j["log"], {j["name"][:255]: j["k"] + 1})
            if not w and j["again"]:
                w = judge_log(c, j["log"] + "b", {j["name"][:255]: 4})
            if w:
                c.violation("long log", w, j["text"])
            c.count("long logs")
    c.floor("calls traced", 30000)
    c.floor("records", 200000)
    c.assumptions = ["the functions are not redefined while they are traced"]
