"""The command: sessions read from the standard input and scripts with arguments."""
import os
import random

from .. import proc
from ..gen import Gen
from ..ref import evaluate, show, src, S, Str, QUOTE, Machine, Trap, OutOfFuel
from ..lines import lit

RULE = ("a case is one run of the command: a session of forms on the standard input, whose whole output is compared with the prompts and "
        "values the reference gives, or a script with a first line and arguments, whose output is compared with what it displays")
SEP = ["\n", "\n", "\n", " ", "\n\n", "\t", "\r\n", " ; note (\n", "\n; \"\n", ""]


class Shown:
    """a form that displays a value and has a value"""

    def __init__(self, exp, val):
        self.exp, self.val = exp, val


def small(r):
    k = r.randint(0, 6)
    if k == 0:
        return r.choice([0, -1, 7, 1 << 40, 4611686018427387])
    if k == 1:
        return Str(r.choice(["", "a", "two\nlines", "per%cent %s", "quo\"te", "x" * 300, "0 #> 1"]))
    if k == 2:
        return r.choice([True, False, []])
    if k == 3:
        return [QUOTE, r.choice([S("a"), S("x-y"), [S("a"), 1, [Str("s"), []]], [1, 2, 3]])]
    if k == 4:
        return S(r.choice(["g0", "g1", "tr"]))
    if k == 5:
        return [S("+"), S("g0"), r.randint(0, 9)]
    return [S("list"), 1, [QUOTE, S("b")], Str("c")]


def forms(r, n, display):
    """(source, expected output, shown value)"""
    g = Gen(r, size=r.choice([30, 60, 100]))
    p = g.program(r.randint(0, 5), r.randint(3, 6))
    i = 3
    while i < len(p):
        if r.random() < 0.4:
            p.insert(i, small(r))
            i += 1
        i += 1
    while len(p) < n:
        p.append(small(r))
    m = Machine(60000)
    out = []
    for f in p:
        v = show(evaluate([f], machine=m)[0][0])
        t = src(f)
        if display and (r.random() < 0.3 or f is p[-1]):
            out.append(("(cora/lib/io#display %s)" % t, v, "()"))
        else:
            out.append((t, "", v))
    return out


def join(r, fs, plain=False):
    s = ""
    for i, f in enumerate(fs):
        sep = "\n" if plain else r.choice(SEP)
        if sep == "" and (s[-1:] not in "])\"" and f[0][0] not in "([" or s[-1:] == ""):
            sep = "\n"
        s += sep + f[0] if i or not plain and r.random() < 0.3 else f[0]
    return s + ("" if r.random() < 0.4 else r.choice(["\n", "\n\n", " ", "\n; end", "\n;"]))


def session(c, b, i):
    r = c.rng("session", i)
    fs = forms(r, r.choice([0, 20, 20, 60, 300 if r.random() < 0.1 else 20]), True)
    fs.insert(0, ('(import "cora/lib/io")', "", "cora/init#*imported*"))
    # the value of an import is left open
    text = join(r, fs)
    want = "".join("%d #> %s%s\n" % (k, o, v) for k, (_, o, v) in enumerate(fs)) + "%d #> " % len(fs)
    return dict(kind="session", text=text, want=want), dict(cmd=[b.cora], env=b.env(), stdin=text.encode("latin-1"), timeout=60)


def word(r):
    k = r.randint(0, 5)
    if k == 0:
        return b""
    if k == 1:
        return bytes(r.randrange(1, 256) for _ in range(r.choice([1, 3, 20])))
    if k == 2:
        return r.choice([b"-h", b"--", b"a b", b'"q"', b"\\", b"*", b"$HOME", b"-", b"\n", b"(", b"a'b"])
    if k == 3:
        return b"w" * r.choice([255, 256, 1000, 100000])
    return r.choice([b"a", b"file.txt", b"1", b"caf\xc3\xa9"])


def first(r, b):
    """the first line of a script"""
    k = r.randint(0, 6)
    if k == 0:
        return "#!" + "/" * r.randint(245, 265) + "\n"
    if k == 1:
        return "#!/bin/env " + "(x\" " * r.choice([60, 128, 200, 2000]) + "\n"
    if k == 2:
        return ""
    if k == 3:
        return r.choice(["#!\n", "#! /bin/sh -x\n", "#!/usr/bin/env cora (display 1)\n", "; just a remark\n", "#!/x\r\n", "\n", "\n\n"])
    return "#!/usr/bin/env cora\n"


def script(c, b, i):
    r = c.rng("script", i)
    fs = forms(r, r.choice([0, 0, 30]), True)
    args = [word(r) for _ in range(r.choice([0, 0, 1, 2, 5, 60]))]
    d = os.path.join(c.dir(), r.choice(["s", "with space", "deep/er"]))
    os.makedirs(d)
    p = os.path.join(d, r.choice(["a.cora", "noext", "q'.cora"]))
    run = p if r.random() < 0.5 else os.path.join(".", os.path.basename(p))
    line = first(r, b)
    if line == "" and r.random() < 0.5:
        # the first form is on the first line
        body = join(r, fs, True)
    else:
        body = join(r, [('(import "cora/lib/io")', "", "")] + fs)
    if line == "" and not body.startswith("(import"):
        body = body.lstrip("\n \t\r") if body.lstrip("\n \t\r")[:1] != ";" else body
        body = '(import "cora/lib/io") ' + body
    tail, out = "", "".join(o for _, o, _ in fs)
    if r.random() < 0.7:
        tail = "\n(cora/lib/io#display *command-line-args*)"
        out += "(" + " ".join('"%s"' % x for x in [run] + [a.decode("latin-1") for a in args]) + ")"
    text = line + body + tail
    if r.random() < 0.06:
        # a script with nothing to evaluate
        text, out = r.choice(["", "\n", "#", "#\n", "#!/usr/bin/env cora", "#!/usr/bin/env cora\n", "; only a comment", "\n\n  \t\n", "#!x\n; and this\n"]), ""
    with open(p, "w", encoding="latin-1", newline="") as f:
        f.write(text)
    cmd = [b.cora.encode(), run.encode()] + args
    env = b.env()
    if text.startswith("#!/usr/bin/env cora\n") and r.random() < 0.3:
        os.chmod(p, 0o755)
        cmd = cmd[1:]
    return (dict(kind="script", text=text, want=out, args=args),
            dict(cmd=cmd, env=env, cwd=d, stdin=b"(this is not read)", timeout=60))


def peak(c, b, n):
    """kilobytes at most resident in a session of n forms"""
    r = c.rng("long")
    p = os.path.join(c.dir(), "in")
    kinds = ["(+ %d 1)", "'(a %d)", "(cons %d ())", "((lambda (x) x) %d)", "(let x %d (if (= x 3) x 'y))", "(set 'g %d)", "(list 1 %d)", "((+ %d) 1)"]
    with open(p, "w") as f:
        for i in range(n):
            f.write(r.choice(kinds) % i + "\n")
    o = proc.run1(["/usr/bin/python3", "-c", "import resource, subprocess, sys\n"
                   "x = subprocess.run([sys.argv[1]], stdin=open(sys.argv[2]), stdout=subprocess.DEVNULL)\n"
                   "print(x.returncode, resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss)", b.cora, p], env=b.env(), timeout=300)
    w = o.out.split()
    if o.late or len(w) != 2:
        c.inconclusive += 1
        return None
    if w[0] != "0":
        c.violation("long", "a session of %d small forms ended with status %s" % (n, w[0]), o.err[-1500:])
        return None
    c.count("forms of long sessions", n)
    return int(w[1])


def run(c):
    b = c.build("plain")
    x, y = peak(c, b, 3000), peak(c, b, c.n(60000, 600000))
    if x and y and y > x + 2000:
        c.violation("memory", "memory grows with the length of a session", "%d kB after 3000 forms, %d kB after %d" % (x, y, c.n(60000, 600000)))
    def jobs(variant, n):
        b = c.build(variant)
        for i in range(n):
            for f in (session, script):
                try:
                    yield f(c, b, "%s%d" % (variant, i))
                except (Trap, OutOfFuel, RecursionError):
                    c.count("skipped")
    for variant, n in (("plain", c.n(700, 10000)), ("asan", c.n(60, 800))):
        late = []

        def results():
            for j, kw, o in proc.many(jobs(variant, n), stop=lambda: c.full() or len(late) >= 16):
                if o.late:
                    late.append((j, kw, j["text"][-3000:]))
                else:
                    yield j, kw, o
            yield from proc.settle(c, late, "a session or a script did not end")
        for j, kw, o in results():
            c.count(j["kind"] + " runs")
            c.count("output bytes", len(o.out))
            want, got = j["want"], o.out
            if j["kind"] == "session":
                # the value of the import is left open
                k = got.find("\n1 #> ")
                if got.startswith("0 #> ") and k >= 0:
                    got, want = got[k:], want[want.find("\n1 #> "):]
            c.case(j["text"], len(j["text"]) > 100, j["text"][:900])
            if o.status != 0 or got != want or "Sanitizer" in o.err or "runtime error" in o.err:
                i = next((i for i, (x, y) in enumerate(zip(got + "\0", want + "\0")) if x != y), 0)
                c.violation(j["kind"], "%s (status %d)" % ("a session printed something else" if j["kind"] == "session" else "a script did something else", o.status),
                            "%s\n--- expected ...%s\n--- got ...%s\n%s\n%s" % (j["text"][-3000:], want[max(0, i - 200):i + 300], got[max(0, i - 200):i + 300],
                                                                      j.get("args"), o.err[-1500:]))
    c.floor("session runs", 100)
    c.floor("script runs", 100)
    c.assumptions = ["no form ends in a throw that is not handled", "a script's first line is skipped when it starts with #"]
