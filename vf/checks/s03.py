"""Queues and vectors against models."""
from .. import lines

RULE = ("a case is a history of 60 operations on queues, vectors and bytes, or one access that is out of range; every returned "
        "value is compared with the model")
P = "cora/lib/queue#"


def queues(r):
    n = r.randint(1, 3)
    forms = [("(do (set 'q%d (%squeue-make)) (list (%squeue-empty? q%d) (%squeue-len q%d)))" % (i, P, P, i, P, i), "(true 0)", "qmake")
             for i in range(n)]
    qs = [[] for _ in range(n)]
    stamp = 0
    bias = r.choice([0.3, 0.5, 0.7])
    for _ in range(60):
        i = r.randrange(n)
        q = qs[i]
        k = r.choice(["len", "empty", "op", "op", "op", "op", "op"])
        if k == "len":
            forms.append(("(%squeue-len q%d)" % (P, i), str(len(q)), k))
        elif k == "empty":
            forms.append(("(%squeue-empty? q%d)" % (P, i), "false" if q else "true", k))
        elif r.random() < bias or not q:
            stamp += 1
            v, x = r.choice([(str(stamp), str(stamp)), ("()", "()"), ("(list %d)" % stamp, "(%d)" % stamp), ("false", "false")])
            q.append(x)
            forms.append(("(do (%senqueue q%d %s) (%squeue-len q%d))" % (P, i, v, P, i), str(len(q)), "enqueue"))
        else:
            m = r.choice([1, 1, 2, len(q)])
            m = min(m, len(q))
            out = [q.pop(0) for _ in range(m)]
            forms.append(("((lambda (n) ((value 'drain) q%d n)) %d)" % (i, m), "(" + " ".join(out) + ")", "dequeue"))
    return [("(set 'drain (lambda (q n) (if (= n 0) () ((lambda (x) (cons x (drain q (- n 1)))) (%sdequeue q)))))" % P, None)] + forms


def vectors(r):
    forms, vs = [], []
    for i in range(r.randint(1, 4)):
        n = r.choice([0, 1, 1, 2, 3, 8, 33, 200, 400])
        forms.append(("(do (set 'v%d (vector %d)) (do (fill v%d 0) (list (vector? v%d) (vector-length v%d) (bytes-length (bytes %d)))))" % (
            i, n, i, i, i, n), "(true %d %d)" % (n, n), "make"))
        vs.append(["()"] * n)
    alias = {}
    for _ in range(60):
        i = r.randrange(len(vs))
        v = vs[i]
        k = r.choice(["set", "set", "set", "ref", "ref", "len", "alias", "all", "nest"])
        if k in ("set", "ref", "nest") and not v:
            continue
        j = r.choice([0, len(v) - 1, r.randrange(max(1, len(v)))]) if v else 0
        if k == "set":
            x = r.randint(-99, 99)
            t, s = r.choice([(str(x), str(x)), ("(list %d 'a)" % x, "(%d a)" % x), ("\"s%d\"" % x, "\"s%d\"" % x), ("false", "false")])
            v[j] = s
            forms.append(("(do (vector-set! v%d %d %s) (vector-ref v%d %d))" % (i, j, t, i, j), s, k))
        elif k == "ref":
            forms.append(("(vector-ref v%d %d)" % (i, j), v[j], k))
        elif k == "len":
            forms.append(("(vector-length v%d)" % i, str(len(v)), k))
        elif k == "alias":
            h = r.randrange(len(vs))
            forms.append(("(list (= v%d v%d) (vector? (list v%d)))" % (i, h, h), "(%s false)" % ("true" if i == h else "false"), k))
        elif k == "all":
            forms.append(("(dump v%d 0)" % i, "(" + " ".join(v) + ")" if v else "()", k))
        elif k == "nest":
            # a vector that holds itself and another one
            h = r.randrange(len(vs))
            forms.append(("(do (vector-set! v%d %d (list v%d v%d)) (= (car (cdr (vector-ref v%d %d))) v%d))" % (
                i, j, i, h, i, j, h), "true", k))
            v[j] = "(vector vector)"
    pre = [("(set 'fill (lambda (v i) (if (= i (vector-length v)) v (do (vector-set! v i ()) (fill v (+ i 1))))))", None),
           ("(set 'dump (lambda (v i) (if (= i (vector-length v)) () (cons (vector-ref v i) (dump v (+ i 1))))))", None)]
    return pre + forms


S = "cora/lib/string#"


def outside(r):
    """one access that must not give a value"""
    n = r.choice([0, 1, 2, 5, 30])
    i = r.choice([-1, -2, n, n + 1, n + 7, -n - 1, 1000, -1000, 2**31, -2**31])
    k = r.choice(["ref", "set", "byte", "index", "memcpy-to", "memcpy-from", "memcpy-len", "memcpy-neg"])
    m = r.randint(1, 4)
    if k == "ref":
        t = "(vector-ref (vector %d) %d)" % (n, i)
    elif k == "set":
        t = "(vector-set! (vector %d) %d 1)" % (n, i)
    elif k == "byte":
        t = '(%sbyte-ref "%s" %d)' % (S, "a" * n, i)
    elif k == "index":
        t = '(%sstring-index "%s" %d)' % (S, "a" * n, i)
    elif k == "memcpy-to":
        t = '(%smemcpy (bytes %d) %d "abcdef" 0 %d)' % (S, n, i, m)
    elif k == "memcpy-from":
        t = '(%smemcpy (bytes 10) 0 "%s" %d %d)' % (S, "a" * n, i, m)
    elif k == "memcpy-len":
        t = '(%smemcpy (bytes 10) 0 "%s" 0 %d)' % (S, "a" * min(n, 10), min(n, 10) + m)
    else:
        t = '(%smemcpy (bytes 10) 2 "%s" 1 %d)' % (S, "a" * (n + 2), -m)
    return "(set 'before 1)\n" + t, k


def run(c):
    def jobs(n, tag):
        for i in range(n):
            r = c.rng(tag, i)
            yield lines.job((queues if i % 2 else vectors)(r), gc=r.choice([0, 0, 3000]) if tag == "asan" else 0)

    for v, n in (("plain", c.n(400, 20000)), ("asan", c.n(80, 3000))):
        r = c.runner(v, imports=["cora/lib/queue", "cora/lib/string"])
        lines.run(c, r, jobs(n, v))
        if v == "plain":
            from .. import check as K

            def bad():
                for i in range(c.n(300, 4000)):
                    t, k = outside(c.rng("out", i))
                    c.case(t, True, t)
                    c.count("outside." + k)
                    yield {"text": t, "k": k}

            def judge(j, res):
                got = lines.values(res)
                if len(got) != 1 or res.status == 0:
                    return ("outside-" + j["k"], "an access out of range went through", j["text"] + "\n" + res.out[-500:])

            K.differential(c, r, bad(), judge)
    for k in ("enqueue", "dequeue", "set", "ref"):
        c.floor("op." + k, 500)
    c.floor("outside.ref", 20)
    c.assumptions = ["a queue is only dequeued when it is not empty", "an element is only read after it was set"]
