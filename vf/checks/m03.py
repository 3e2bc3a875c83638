"""Random mutation of the object graph through the embedding API, with a shadow copy."""
import os
import re

from .. import build as B
from .. import proc

RULE = ("one case is one random history of allocations, stores, moves and drops over conses, vectors, strings and gensyms of "
        "0 bytes to megabytes, with polls of the collector in between; every history whose whole reachable graph was compared "
        "with the shadow at least 100 times is non-trivial")


def harness(c, variant, name, extra=()):
    b = c.build(variant)
    exe = os.path.join(b.base, name)
    src = os.path.join(B.VERIF, "harness", name + ".c")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        rc, out = b.cc(["-O1", "-w", src, "-o", exe + ".tmp"] + list(extra) + b.libflags())
        if rc != 0:
            raise B.BuildError(name + ": " + out)
        os.replace(exe + ".tmp", exe)
    return b, exe


def run(c):
    def jobs():
        rng = c.rng()
        for variant, n in (("plain", c.n(200, 4000)), ("asan", c.n(40, 800))):
            b, exe = harness(c, variant, "heap")
            for i in range(n):
                gc = rng.choice([0, 0, 200, 2000, 20000])
                steps = rng.choice([0, 1, 5, 40])
                prof = rng.choice([0, 0, 0, 1, 1, 2] if variant == "plain" else [0, 0, 0, 0, 1, 1, 2])
                rounds = {0: 3000, 1: 2000, 2: 800}[prof] // (1 if variant == "plain" else 3)
                env = b.env(CORA_VERIF_GC=str(gc), CORA_VERIF_STEPS=str(steps),
                            CORA_VERIF_STATS=os.path.join(c.scratch, "gcstats"))
                seed = rng.randrange(1 << 30)
                yield (seed, rounds, prof, gc, steps, variant), dict(cmd=[exe, str(seed), str(rounds), str(prof)], env=env, timeout=120)
            if variant == "plain":
                # more than an arena of live small objects, and large ones that fill arenas while the collector sweeps
                for i in range(c.n(5, 60)):
                    gc, steps, seed = rng.choice([0, 300000, 3000000]), rng.choice([0, 40]), rng.randrange(1 << 30)
                    env = b.env(CORA_VERIF_GC=str(gc), CORA_VERIF_STEPS=str(steps), CORA_VERIF_STATS=os.path.join(c.scratch, "gcstats"))
                    yield (seed, 1500, 3, gc, steps, variant), dict(cmd=[exe, str(seed), "1500", "3"], env=env, timeout=200)

    for tag, kw, o in proc.many(jobs(), stop=c.full):
        if o.late:
            o = proc.run1(**dict(kw, timeout=240))
            if o.late:
                c.violation("hang", "the mutator did not finish", repr(tag))
                c.hung = True
                continue
        m = re.search(r"HEAP-OK (.*)", o.out)
        what = "heap %d %d %d CORA_VERIF_GC=%d CORA_VERIF_STEPS=%d (%s)" % tag
        if o.status != 0 or not m:
            v = re.search(r"HEAP-VIOLATION.*", o.out)
            c.violation("heap", v.group(0) if v else "the mutator ended with status %d" % o.status,
                        what + "\n" + o.out[-1500:] + o.err[-3000:])
            continue
        d = {k: int(v) for k, v in (x.split("=") for x in m.group(1).split())}
        for k in ("allocs", "mutations", "polls", "verifies", "checked", "large"):
            c.count(k, d[k])
        c.case(what, d["verifies"] >= 100, what + " " + m.group(1))
    from ..run import gcstats
    for k, v in gcstats(c.scratch).items():
        c.count("gc." + k, v)
    c.floor("verifies", 10000)
    c.floor("gc.cycles", 1000)
    c.floor("gc.rset", 10)
    c.floor("gc.barrier", 100)
    c.assumptions = ["roots are globals and one long-lived vector; stacks as roots are stressed by M01"]
