"""Unreachable objects are reclaimed: the memory of a steady workload does not depend on how long it runs."""
from .. import check as K
from ..diff import last_value

RULE = ("a case is a pair of runs, with N and 8N iterations, of a random mix of allocations whose results are dropped or replaced; "
        "also, series of phases with the same live volume in objects of different sizes; every pair that returned the right value and allocated at least 8 times the allowed growth is non-trivial")

PRE = """(import "cora/lib/hash")
(set 'keep (vector 64)) (set 'ring ()) (set 'cnt 0) (set 'old ())
(defun fill (v i n x) (if (= i n) v (begin (vector-set! v i x) (fill v (+ i 1) n x))))
(defun mk (n a) (if (= n 0) a (mk (- n 1) (cons n a))))
(fill keep 0 64 0)
(set 'tbl (cora/lib/hash#hash-make 16))
(defun rem (a b) (- a (* b (/ a b))))
(defun dbl (s k) (if (= k 0) s (dbl (string-append s s) (- k 1))))
(defun deep (n f) (if (= n 0) (f 0) (+ 0 (deep (- n 1) f))))
"""
# name, expression using i, bytes it allocates (at least)
KINDS = [
    ("cons", "(cons i i)", 40),
    ("list", "(list i i i i i i i i)", 300),
    ("longlist", "(mk 50 ())", 2000),
    ("string", "(string-append \"hello\" \"world\")", 24),
    ("bigstring", "(dbl \"0123456789abcdef\" 9)", 16000),
    ("vector", "(vector (+ 1 (rem i 70)))", 40),
    ("bigvector", "(vector (+ 500 (rem i 600)))", 4000),
    ("closure", "((lambda (x) (lambda (y) (+ x y))) i)", 40),
    ("partial", "(mk i)", 40),
    ("keep", "(vector-set! keep (rem i 64) (list i i))", 80),
    ("global", "(set 'old (mk 20 ()))", 800),
    ("sawtooth", "(set 'ring (if (= 0 (rem i 300)) () (cons (list i i) ring)))", 100),
    ("gensym", "(gensym)", 24),
    ("gensymset", "(let g (gensym) (set g (list i)))", 60),
    ("bytes", "(bytes (rem i 5000))", 2000),
    ("hash", "(cora/lib/hash#hash-set! tbl (rem i 40) (list i))", 80),
    ("hashdel", "(begin (cora/lib/hash#hash-set! tbl (rem i 20) (list i)) (cora/lib/hash#hash-del! tbl (rem i 20)))", 80),
    ("resume", "(try (lambda () (+ 1 (throw i))) (lambda (v k) (k v)))", 300),
    ("resume2", "(try (lambda () (+ (throw i) (throw 2))) (lambda (v k) (k v)))", 600),
    ("deepresume", "(try (lambda () (deep (rem i 40) (lambda (x) (throw i)))) (lambda (v k) (k v)))", 300),
    ("storedk", "(begin (try (lambda () (+ 1 (throw i))) (lambda (v k) (set 'old k))) (old 1))", 300),
    ("trynothrow", "(try (lambda () (list i)) (lambda (v k) v))", 40),
    ("deep", "(deep 500 (lambda (x) x))", 40),
    ("map", "(map (lambda (x) (list x)) (mk 10 ()))", 600),
    ("sizes", "(vector (+ 2 (* 9 (rem (/ i 60) 42))))", 1400),
    ("strsizes", "(dbl \"abc\" (rem (/ i 200) 9))", 600),
    ("append", "(append (mk 10 ()) (mk 10 ()))", 1000),
]
# one phase after the other, each with live data of the same volume in objects of another size
PHASES = PRE + """
(defun big (s n a) (if (= n 0) a (big s (- n 1) (cons (%(make)s s) a))))
(defun phase (s n) (begin (set 'ring ()) (set 'ring (big s n ()))))
(defun cyc (k) (if (= k 0) 'done (begin (let s (+ 2 (rem (+ %(add)d (* k %(mul)d)) %(mod)d)) (phase s (/ %(live)d (+ %(over)d s)))) (cyc (- k 1)))))
(cyc %(n)d)
"""
THROWAWAY = "(try (lambda () (+ 1 (throw i))) (lambda (v k) v))"
CYCLES = "(let v (vector 2) (begin (vector-set! v 0 v) (vector-set! v 1 (list v i))))"
KINDS.append(("cycle", CYCLES, 80))


def program(exprs, n):
    return PRE + "(defun loop (i) (if (= i 0) 'done (begin %s (loop (- i 1)))))\n(loop %d)" % (" ".join(exprs), n)


def run(c):
    r = c.runner("user", imports=["cora/lib/hash"])
    pend = {}

    def jobs():
        picks = [[k] for k in KINDS]
        rng = c.rng()
        for i in range(c.n(40, 600)):
            picks.append([rng.choice(KINDS) for _ in range(rng.randint(2, 5))])
        for i, ks in enumerate(picks):
            per = sum(k[2] for k in ks)
            heavy = per > 3000 or any(k[0].startswith("deep") for k in ks)
            for mode in ("L", "E") if i % 2 and i < len(KINDS) else ("L",):
                n = {"L": 3000 if heavy else 25000, "E": 15 if "deep" in [k[0] for k in ks] else 150 if heavy else 800}[mode]
                pend[(i, mode)] = {}
                for m in (n, 8 * n):
                    yield {"text": program([k[1] for k in ks], m), "mode": mode, "id": (i, mode), "n": m, "small": m == n,
                           "kinds": [k[0] for k in ks], "bytes": per * m, "timeout": 100}
        for i in range(c.n(8, 120)):
            words = rng.choice([300000, 600000, 1000000])
            if i % 2:
                d = {"make": "bytes", "mod": 300, "over": 45, "live": words * 8}
            else:
                d = {"make": "vector", "mod": 400, "over": 7, "live": words}
            d.update(n=c.n(256, 600), mul=101 if d["mod"] == 400 else 37, add=rng.randrange(1000))
            yield {"text": PHASES % d, "mode": "L", "id": ("phases", i), "n": d["n"], "kinds": ["phases"], "timeout": 100,
                   "live": words * 8 // 1024}
        for m in (5000, 40000):
            pend["throwaway"] = {}
            yield {"text": program([THROWAWAY], m), "mode": "L", "id": "throwaway", "n": m, "small": m == 5000,
                   "kinds": ["throwaway"], "bytes": 300 * m, "timeout": 100, "key": "unresumed-throw"}

    def judge(j, r):
        got = last_value(r)
        if r.status != 0 or got != "done":
            return ("value", "the workload did not finish", "%s\nmode %s status %d\n%s" % (j["text"], j["mode"], r.status, r.out[-1500:]))
        if "live" in j:
            c.count("phases", j["n"])
            c.case(j["text"], True, "phases of %d kB live: peak %d kB" % (j["live"], r.rss))
            c.events["phase-peak-percent-of-live"] = max(c.events["phase-peak-percent-of-live"], r.rss * 100 // j["live"])
            if r.rss > 28 * j["live"] + 4000:
                return ("phases", "%d kB resident although never more than %d kB are live" % (r.rss, j["live"]), j["text"])
            return None
        p = pend.setdefault(j["id"], {})
        p[j["small"]] = r.rss or 0
        c.count("iterations", j["n"])
        for k in j["kinds"]:
            c.count("kind." + k)
        if len(p) < 2:
            return None
        grow = p[False] - p[True]
        # the collector lets the heap grow to a multiple of what is live before it collects
        limit = (1200 if j["mode"] == "L" else 500) + (16000 if any("big" in k or k == "bytes" for k in j["kinds"]) else 0)
        c.case(j["text"] + j["mode"], j["bytes"] > limit * 1024 * 8 or j["mode"] == "E",
               "%s %s: %d kB at N, %d kB at 8N=%d" % (j["kinds"], j["mode"], p[True], p[False], j["n"]))
        c.events["max-growth-kb"] = max(c.events["max-growth-kb"], grow if "key" not in j else 0)
        if grow > limit:
            return (j.get("key", "growth"), "memory grows with the length of the run: %d kB after %d iterations, %d kB after %d" % (
                p[True], j["n"] // 8, p[False], j["n"]), "%s\nmode %s" % (j["text"], j["mode"]))
        return None

    K.differential(c, r, jobs(), judge)
    c.floor("iterations", 100000)
    c.assumptions = ["resident memory of the process is what is measured; symbols that were interned are never reclaimed by design"]
