"""Interpreter against the reference evaluator."""
from .. import diff

RULE = ("random well-typed programs (definitions, then one expression that assigns globals, throws, resumes, matches, "
        "curries); a program counts when the reference gives it a value and its text is longer than 200 characters")


def run(c):
    r = c.runner("plain")
    n = c.n(6000, 150000)
    diff.run(c, r, (("L01/%d/%d" % (c.seed, i), 40 + 10 * (i % 9), 4, 7, None) for i in range(n)))
    c.floor("gen.hostile", 100)
    c.floor("run.try", 500)
    c.floor("run.resume", 50)
    c.floor("gen.match", 1000)
    c.floor("gen.func", 200)
    c.assumptions = ["programs whose value depends on the order of evaluation of the operands of one call are not generated",
                     "the reference evaluator (vf/ref.py) states the intended meaning"]
