"""Compiled programs against the reference evaluator."""
from .. import diff

RULE = ("random well-typed programs compiled to C by the toolchain, built with gcc and loaded; a program counts when the "
        "reference gives it a value and its text is longer than 200 characters")


def run(c):
    r = c.runner("plain")
    n = c.n(1500, 20000)
    diff.run(c, r, (("L02/%d/%d" % (c.seed, i), 20 + 5 * (i % 9), 3, 6, None) for i in range(n)), mode="L", timeout=30)
    c.floor("gen.hostile", 100)
    c.floor("run.try", 100)
    c.floor("gen.match", 200)
    c.assumptions = ["a program whose compilation takes too long is not judged",
                     "the reference evaluator (vf/ref.py) states the intended meaning"]
