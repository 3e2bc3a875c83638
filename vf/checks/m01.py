"""Collector stress: programs in an AddressSanitizer build whose dead objects are poisoned,
with collections started all the time and marked in tiny increments."""
from .. import diff

RULE = ("random programs, and self-checking programs that rearrange a big table of objects, run under AddressSanitizer and UBSan with a collection started after every few hundred bytes of "
        "allocation and dead objects poisoned; a program counts when the reference gives it a value and its text is longer "
        "than 200 characters")


def run(c):
    r = c.runner("asan")
    rng = c.rng("gc")

    def stress(it):
        for j in it:
            j["gc"] = rng.choice([48, 100, 100, 300, 1000, 5000])
            j["steps"] = rng.choice([1, 1, 3, 20, 200])
            yield j

    from .. import check as K
    n = c.n(1000, 60000)
    it = diff.feed(c, c.produce(diff.make, (("M01/%d/%d" % (c.seed, i), 40 + 10 * (i % 9), 4, 7, None) for i in range(n))),
                   timeout=60)
    K.differential(c, r, stress(it), diff.judge)
    n = c.n(80, 3000)
    it = diff.feed(c, c.produce(diff.make, (("M01L/%d/%d" % (c.seed, i), 20 + 5 * (i % 9), 3, 6, None) for i in range(n))),
                   timeout=60, mode="L")
    K.differential(c, r, stress(it), diff.judge)
    r.close()

    from .. import mutator

    def programs(variant, n):
        for i in range(n):
            rng = c.rng("mutator", variant, i)
            small = variant == "asan"
            text, exp, kinds, ops = mutator.program(rng, small)
            for k in kinds:
                c.count("mutator.object%d" % k)
            for k in ops:
                c.count("mutator.op%d" % k)
            c.case(text, True, text[-300:])
            yield {"text": text, "exp": exp, "mode": "L", "timeout": 100, "seed": "%s/%d" % (variant, i),
                   "gc": rng.choice([48, 100, 300, 1000, 5000] if small else [0, 0, 0, 0, 30000, 200000]),
                   "steps": rng.choice([1, 3, 20, 200]) if small else rng.choice([0, 0, 0, 5])}

    for variant, n in (("plain", c.n(100, 3000)), ("asan", c.n(24, 600))):
        if c.full():
            return
        r = c.runner(variant, imports=["cora/lib/hash"])
        K.differential(c, r, programs(variant, n), diff.judge, retry_timeout=300)
        r.close()
    g = c.gcstats()
    c.count("collections", g.get("cycles", 0))
    c.count("objects-found-dead", g.get("dead", 0))
    c.floor("collections", 1000)
    c.floor("objects-found-dead", 10000)
    c.assumptions = ["an object the collector found dead is noticed when it is used through its contents; a use of its header "
                     "only is noticed when the header changed"]
