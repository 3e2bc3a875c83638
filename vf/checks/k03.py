"""The embedding interface: histories of a host over cora.h, and the memory of a host that calls."""
import os

from .. import proc, run as R
from .. import build as B

RULE = ("a case is a random history of a host over the functions of cora.h (values made and taken apart, globals, registered natives, calls by the host, "
        "by natives and by evaluated forms, with too few and too many arguments), every value compared with a shadow, under a random interval of the collector; "
        "or one kind of call made many times, its resident memory compared")
KINDS = 12


def make(c, b):
    """the host, and the compiled part of what it calls"""
    d = c.dir()
    exe, so = os.path.join(d, "embed"), os.path.join(d, "embed.so")
    rc, out = b.cc(["-g", "-w", os.path.join(R.HARNESS, "embed.c"), "-o", exe] + b.libflags())
    if rc == 0:
        o = proc.run1([exe, "so", os.path.join(R.HARNESS, "embed.cora"), so + ".c"], env=b.env(), cwd=d, timeout=120)
        if o.status != 0:
            c.violation("compile", "a host cannot compile a file (%s build, status %d)" % (b.variant, o.status), o.out[-1500:] + o.err[-1500:])
            return None
        rc, out = b.cc(["-w", "-shared", "-fPIC", so + ".c", "-o", so] + b.libflags())
    if rc != 0:
        raise B.BuildError("embed: " + out)
    return exe, b.env(EMBED_SO=so), d


def run(c):
    for variant, n, steps in (("plain", c.n(60, 1500), 20000), ("asan", c.n(16, 300), 6000)):
        b = c.build(variant)
        h = make(c, b)
        if h is None:
            continue
        exe, env, d = h

        def jobs():
            for i in range(n):
                r = c.rng(variant, i)
                gc = r.choice([0, 2000, 10000, 20000, 60000, 300000])
                seed = r.randrange(1, 1 << 40)
                yield (seed, gc), dict(cmd=[exe, "run", str(seed), str(steps)], env=dict(env, EMBED_GC=str(gc)), cwd=d, timeout=100)
        late = []

        def results():
            for tag, kw, o in proc.many(jobs(), stop=lambda: c.full() or len(late) >= 16):
                if o.late:
                    late.append((tag, kw, "embed run %d %d with EMBED_GC=%d" % (tag[0], steps, tag[1])))
                else:
                    yield tag, kw, o
            yield from proc.settle(c, late, "a history of calls by a host did not end (%s build)" % variant)
        for (seed, gc), kw, o in results():
            c.case("%s %s %s" % (variant, seed, gc), True, "seed %d, collector every %d bytes: %s" % (seed, gc, o.out[:300]))
            if o.status != 0:
                c.violation("history", "a host got something else from the embedding interface (%s build, status %d)" % (variant, o.status),
                            "embed run %d %d with EMBED_GC=%d\n%s\n%s" % (seed, steps, gc, o.out[-1500:], o.err[-2500:]))
                continue
            w = o.out.split()
            c.count("operations", int(w[1]))
            c.count("values compared", int(w[3]))
            c.count("calls of natives", int(w[5]))
        if variant == "plain":
            def mems():
                for k in range(KINDS):
                    yield k, dict(cmd=[exe, "mem", str(k), str(c.n(80000, 1000000))], env=env, cwd=d, timeout=400)
            for k, kw, o in proc.many(mems(), stop=c.full):
                if o.late:
                    c.inconclusive += 1
                    continue
                c.count("kinds of calls repeated")
                w = o.out.split()
                if o.status != 0 or len(w) != 4:
                    c.violation("repeat", "the same call many times ended with status %d" % o.status, "embed mem %d\n%s\n%s" % (k, o.out[-500:], o.err[-1500:]))
                    continue
                c.case("mem %d" % k, True, o.out)
                if int(w[3]) - int(w[2]) > 1000:
                    c.violation("memory", "memory grows with the number of calls that a host makes", "embed mem %d: %s kB after a quarter of the calls, %s kB at the end" % (k, w[2], w[3]))
    c.floor("operations", 500000)
    c.floor("calls of natives", 50000)
    c.floor("kinds of calls repeated", KINDS)
    c.assumptions = ["a host keeps what it needs in globals across coraRun", "vectors have room for at least one element before an append"]
