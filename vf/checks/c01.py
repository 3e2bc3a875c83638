"""Tasks and channels: random task programs whose event logs an offline checker judges, classic workloads, and memory of long runs."""
import collections

from .. import check as K
from ..diff import last_value
from ..lines import values

RULE = ("a case is a random program of tasks that send, receive, choose, yield and spawn; the log of what every task did is checked for "
        "rendezvous, exactly-once, order, no lost wakeup and no starvation; or a workload with a known result; or a pair of long runs")

PRE = """
(set 'log ())
(set 'ev (lambda (x) (set 'log (cons x log))))
(set 'chan-make (lambda () (cora/lib/chan#chan-make)))
(defun deep (n f) (if (= n 0) (f) (let r (deep (- n 1) f) r)))
(defun rep (i n f) (if (= i n) () (begin (f i) (rep (+ i 1) n f))))
(set 'flags (vector 20))
(defun spin (k) (if (= 1 (vector-ref flags k)) 'seen (begin (cora/lib/cml#yield) (spin k))))
(defun spin2 (k n) (if (= n 0) (if (= 1 (vector-ref flags k)) 'seen (begin (cora/lib/cml#yield) (spin2 k 3))) (spin2 k (- n 1))))
(rep 0 20 (lambda (i) (vector-set! flags i 0)))
(set 'fst (lambda (x) (car x)))
"""
SPECIAL = ["false", "()", "true", "0", "'sym", '"str"']
SHOWN = {"false": "false", "()": "()", "true": "true", "0": "0", "'sym": "sym", '"str"': '"str"'}


class Prog:
    """tasks[t] = list of nodes; a node is a dict"""

    def __init__(self, r, nt, nc, special, choice):
        self.r, self.nt, self.nc = r, nt, nc
        self.special, self.choice = special, choice
        self.tasks = {}
        self.ops = {}
        self.seq = collections.Counter()
        self.flag = 0
        self.roots = list(range(nt))
        self.next = nt
        self.bias = {(t, c): r.choice("SR") for t in range(60) for c in range(nc)}
        self.setters = {}
        for t in range(nt):
            self.tasks[t] = self.body(t, r.randint(1, 7), 0)
        # some tasks wait for a flag that another sets first thing
        for _ in range(r.randint(0, 2)):
            if nt >= 2:
                a, b = r.sample(range(nt), 2)
                k = self.flag
                self.flag += 1
                self.tasks[a].insert(0, {"k": "flag", "f": k})
                at = r.randint(0, len(self.tasks[b]))
                self.tasks[b].insert(at, {"k": "spin", "f": k, "id": self.id(b), "v": "seen"})

    def id(self, t):
        self.seq[t] += 1
        return (t, self.seq[t])

    def body(self, t, n, d):
        return [self.node(t, d) for _ in range(n)]

    def node(self, t, d):
        r = self.r
        k = r.choices(["S", "R", "C", "Y", "spawn", "loop", "try"], [6, 6, 5 if self.choice else 0, 2, 1 if d < 2 else 0,
                                                                      2 if d < 2 else 0, 1])[0]
        if k in "SR":
            return self.comm(t)
        if k == "C":
            alts = []
            for _ in range(r.randint(1, 4)):
                a = self.comm(t)
                a["wrap"] = r.choice(["log", "log", "false", "nest"]) if d < 2 else "log"
                if a["wrap"] == "nest":
                    a["body"] = self.body(t, r.randint(1, 2), 2)
                alts.append(a)
            return {"k": "C", "id": self.id(t), "alts": alts, "deep": r.choice([0, 0, 1, 30])}
        if k == "Y":
            return {"k": "Y", "id": self.id(t), "v": None}
        if k == "spawn":
            if self.next >= 12:
                return self.node(t, d)
            c = self.next
            self.next += 1
            self.tasks[c] = self.body(c, r.randint(1, 4), d + 1)
            return {"k": "spawn", "id": self.id(t), "c": c}
        if k == "loop":
            return {"k": "loop", "n": r.randint(2, 5), "body": [x for x in self.body(t, r.randint(1, 3), 2)]}
        return {"k": "try", "id": self.id(t), "x": r.randint(0, 99)}

    def comm(self, t):
        r = self.r
        c = r.randrange(self.nc)
        k = self.bias[(t, c)] if r.random() < 0.8 else r.choice("SR")
        a = {"k": k, "c": c, "id": self.id(t), "wrap": r.choice([None, None, None, "log", "false", "nest2"]), "deep": r.choice([0, 0, 0, 1, 5, 40, 300])}
        if a["wrap"] == "nest2":
            a["wrap"] = "log2"
        if k == "S":
            a["msg"] = r.choice(SPECIAL) if self.special and r.random() < 0.4 else None
        return a

    # ---- text; every event is (name task seq iteration ...)
    def key(self, n, it):
        return "%d %d %s" % (n["id"][0], n["id"][1], it)

    def op(self, n, it):
        o = "(cora/lib/chan#chan-recv ch%d)" % n["c"] if n["k"] == "R" else "(cora/lib/chan#chan-send ch%d %s)" % (
            n["c"], n["msg"] or "(list %s)" % self.key(n, it))
        w = n["wrap"]
        log = "(ev (list 'W %s v))" % self.key(n, it)
        if w == "log":
            o = "(cora/lib/cml#wrap %s (lambda (v) (begin %s (list 'w v))))" % (o, log)
        if w == "log2":
            o = "(cora/lib/cml#wrap (cora/lib/cml#wrap %s (lambda (v) (begin %s (list 'w v)))) (lambda (v) (car (cdr v))))" % (o, log)
        if w == "false":
            o = "(cora/lib/cml#wrap %s (lambda (v) (begin %s false)))" % (o, log)
        if w == "nest":
            o = "(cora/lib/cml#wrap %s (lambda (v) (begin %s %s (list 'w v))))" % (o, log, self.text(n["body"], it))
        return o

    def text(self, ns, it):
        out = []
        for n in ns:
            k = n["k"]
            if k in "SRC":
                if k == "C":
                    p = "(cora/lib/cml#perform (choice %s))" % " ".join(self.op(a, it) for a in n["alts"])
                else:
                    p = "(cora/lib/cml#perform %s)" % self.op(n, it)
                if n["deep"]:
                    p = "(deep %d (lambda () %s))" % (n["deep"], p)
                out.append("(begin (ev (list '%s %s)) (let r %s (ev (list 'D %s r))))" % (k, self.key(n, it), p, self.key(n, it)))
            elif k == "Y":
                out.append("(begin (ev (list 'Y %s)) (cora/lib/cml#yield) (ev (list 'D %s ())))" % (self.key(n, it), self.key(n, it)))
            elif k == "spawn":
                c = n["c"]
                out.append("(begin (ev (list 'P %s)) (cora/lib/cml#spawn (lambda () %s)) )" % (self.key(n, it), self.tasktext(c, it)))
            elif k == "loop":
                v = "i"
                inner = "(+ %s (* 10 (+ 1 i%s)))"
                d = it.count("(")
                v = "i%d" % d
                out.append("(rep 0 %d (lambda (%s) %s))" % (n["n"], v, self.text(n["body"], "(+ %s (* 10 %s))" % (v, it))))
            elif k == "flag":
                out.append("(vector-set! flags %d 1)" % n["f"])
            elif k == "spin":
                out.append("(begin (ev (list 'Y %s)) (let r (spin%s %d) (ev (list 'D %s r))))" % (
                    self.key(n, it), self.r.choice(["", " ", "2"]).strip(), n["f"], self.key(n, it))
                    if False else "(begin (ev (list 'Y %s)) (let r (spin %d) (ev (list 'D %s r))))" % (self.key(n, it), n["f"], self.key(n, it)))
            elif k == "try":
                out.append("(ev (list 'T %s (try (lambda () (+ 1 (throw %d))) (lambda (v k) (k (+ v 1))))))" % (self.key(n, it), n["x"]))
        if len(out) == 1:
            return out[0]
        return "(begin %s)" % " ".join(out) if out else "()"

    def tasktext(self, t, it):
        return "(begin (ev (list 'B %d 0 %s)) %s (ev (list 'E %d 0 %s)))" % (t, it, self.text(self.tasks[t], it), t, it)

    def program(self):
        r = self.r
        defs = "".join("(set 'ch%d (chan-make))\n" % c for c in range(self.nc))
        for t in self.roots:
            defs += "(set 'task%d (lambda () %s))\n" % (t, self.tasktext(t, "0"))
        order = list(self.roots)
        r.shuffle(order)
        self.order = order
        main = "(lambda () (begin %s ()))" % " ".join("(cora/lib/cml#spawn task%d)" % t for t in order)
        if r.random() < 0.3:
            # the main task is one of the tasks
            main = "(lambda () (begin %s (task%d)))" % (" ".join("(cora/lib/cml#spawn task%d)" % t for t in order[:-1]), order[-1]) \
                if len(order) > 1 else "task%d" % order[0]
        return PRE + defs, "(cora/lib/cml#cml-entry %s)" % main


def parse(text):
    toks = text.replace("(", " ( ").replace(")", " ) ").split()
    st = [[]]
    for t in toks:
        if t == "(":
            st.append([])
        elif t == ")":
            x = st.pop()
            st[-1].append(x)
        else:
            st[-1].append(int(t) if t.lstrip("-").isdigit() else t)
    return st[0][0]


def sh(x):
    return "(" + " ".join(sh(y) for y in x) + ")" if isinstance(x, list) else str(x)


class Bad(Exception):
    pass


def judge_log(p, log, count):
    """log: events in order"""
    # project on tasks; an instance of a task is (t, iteration)
    inst = {}
    cur = {}
    done = []           # (position, op, it, value) of commits
    waiting = []        # (position, [ops], it, instance)
    started = {}
    ended = set()
    spawned = [(t, 0) for t in p.roots]
    per = collections.defaultdict(list)
    # split by instance: events carry task and iteration; iteration numbers of nested loops extend the instance's
    ids = {}

    def register(ns, t):
        for n in ns:
            if "id" in n:
                ids[n["id"]] = n
            for a in n.get("alts", []):
                ids[a["id"]] = a
                register(a.get("body", []), t)
            register(n.get("body", []), t)
    for t, ns in p.tasks.items():
        register(ns, t)
    for pos, e in enumerate(log):
        per[(e[1])].append((pos, e))
    # expected events of a task, consumed against its log
    pend = list(spawned)
    # several instances of one task only exist when its spawn is inside a loop
    multi = collections.Counter()

    def walk(ns, it, src):
        for n in ns:
            k = n["k"]
            if k == "flag":
                continue
            if k == "loop":
                for i in range(n["n"]):
                    walk(n["body"], i + 10 * it, src)
                continue
            if k in "SRC":
                pos, e = src.take([k, n["id"][0], n["id"][1], it])
                ops = n["alts"] if k == "C" else [n]
                src.at(pos, ops, it)
                logged = [a for a in ops if a["wrap"]]
                x = src.peek()
                if x is None:
                    raise Blocked()
                if x[1][0] == "W" or k == "C" or ops[0]["wrap"]:
                    pos2, e = src.take(None)
                    a = next((a for a in ops if list(a["id"]) == e[1:3]), None)
                    if e[0] != "W" or a is None or e[3] != it:
                        raise Bad("task %s: after %s came %s" % (n["id"][0], (k, n["id"], it), sh(e)))
                    src.commit(a, it, e[4], pos)
                    if a["wrap"] == "nest":
                        walk(a["body"], it, src)
                    want = {"log": ["w", e[4]], "nest": ["w", e[4]], "log2": e[4], "false": "false"}[a["wrap"]]
                    pos3, d = src.take(["D", n["id"][0], n["id"][1], it])
                    if d[4] != want:
                        raise Bad("perform returned %s, not %s: %s" % (sh(d[4]), sh(want), sh(d)))
                else:
                    pos3, d = src.take(["D", n["id"][0], n["id"][1], it])
                    src.commit(ops[0], it, d[4], pos)
            elif k in ("Y", "spin"):
                src.take(["Y", n["id"][0], n["id"][1], it])
                _, d = src.take(["D", n["id"][0], n["id"][1], it])
            elif k == "try":
                _, d = src.take(["T", n["id"][0], n["id"][1], it])
                if d[4] != n["x"] + 2:
                    raise Bad("a try in a task gave %s" % sh(d))
            elif k == "spawn":
                src.take(["P", n["id"][0], n["id"][1], it])
                pend.append((n["c"], it))
                multi[n["c"]] += 1

    class Src:
        def __init__(self, evs, who):
            self.e, self.i, self.w, self.who = evs, 0, None, who

        def peek(self):
            return self.e[self.i] if self.i < len(self.e) else None

        def take(self, want):
            x = self.peek()
            if x is None:
                raise Missing("task %s stopped before %s although it was not waiting for a channel" % (self.who, want))
            if want is not None and x[1][:4] != want:
                raise Bad("task %s: expected event %s, found %s" % (self.who, sh(want), sh(x[1])))
            self.i += 1
            self.w = None
            return x

        def at(self, pos, ops, it):
            self.w = (pos, ops, it, self.who)

        def commit(self, op, it, v, pos):
            done.append((pos, op, it, v))
            self.w = None

    class Blocked(Exception):
        pass

    class Missing(Exception):
        pass

    seen = set()
    while pend:
        t, it = pend.pop(0)
        if multi[t] > 1:
            continue
        evs = per.get(t, [])
        if (t, it) in seen:
            continue
        seen.add((t, it))
        s = Src(evs, t)
        try:
            s.take(["B", t, 0, it])
            walk(p.tasks[t], it, s)
            s.take(["E", t, 0, it])
            if s.peek():
                raise Bad("task %d went on after its end: %s" % (t, sh(s.peek()[1])))
            count("task.ended")
        except Blocked:
            waiting.append(s.w)
            count("task.blocked")
        except Missing as m:
            raise Bad(str(m))
    # tasks that were spawned in a loop ran several times; their events interleave and are not split
    tangled = [t for t in multi if multi[t] > 1]
    if tangled:
        count("tangled")
        return
    # exactly once
    for c in range(p.nc):
        ss = collections.Counter()
        rs = collections.Counter()
        for pos, op, it, v in done:
            if op["c"] == c and op["k"] == "S":
                ss[SHOWN[op["msg"]] if op["msg"] else sh([op["id"][0], op["id"][1], it])] += 1
                if v != [] and op["wrap"] is None:
                    raise Bad("a send returned %s" % sh(v))
            if op["c"] == c and op["k"] == "R":
                rs[sh(v) if v != [] else "()"] += 1
                count("received." + ("special" if not isinstance(v, list) or v == [] else "message"))
        if ss != rs:
            raise Bad("channel %d: sent and completed %s, received %s" % (c, dict(ss - rs), dict(rs - ss)))
    # no lost wakeup
    for i, a in enumerate(waiting):
        for b in waiting[i + 1:]:
            for x in a[1]:
                for y in b[1]:
                    if x["c"] == y["c"] and x["k"] != y["k"]:
                        raise Bad("at the end task %s still waits to %s on channel %d and task %s to %s" % (a[3], x["k"], x["c"], b[3], y["k"]))
    # order: those who came first are served first
    for c in range(p.nc):
        start = {}
        for pos, op, it, v in done:
            if op["c"] == c and op["k"] == "S" and not op["msg"]:
                start[sh([op["id"][0], op["id"][1], it])] = pos
        by = collections.defaultdict(list)
        for pos, op, it, v in sorted(done, key=lambda x: x[0]):
            if op["c"] == c and op["k"] == "R" and sh(v) in start:
                by[op["id"][0]].append((start[sh(v)], sh(v)))
        for t, xs in by.items():
            if xs != sorted(xs):
                raise Bad("task %d received from channel %d out of the order in which the senders came: %s" % (t, c, xs))
            count("ordered", len(xs))
        for k in "SR":
            fin = [pos for pos, op, it, v in done if op["c"] == c and op["k"] == k]
            for w in waiting:
                if w[1][0]["c"] == c and w[1][0]["k"] == k and len(w[1]) == 1 and fin and max(fin) > w[0]:
                    raise Bad("task %s waits on channel %d (%s) since event %d, and one that came at event %d was served" % (
                        w[3], c, k, w[0], max(fin)))


# ---- workloads with known results, and with lengths for pairs of long runs
SIEVE = """
(defun gen (c i n) (if (= i n) (perform (chan-send c 0)) (begin (perform (chan-send c i)) (gen c (+ i 1) n))))
(defun rem (a b) (- a (* b (/ a b))))
(defun filt (p in out) (let x (perform (chan-recv in)) (if (= x 0) (perform (chan-send out 0))
  (begin (if (= 0 (rem x p)) () (perform (chan-send out x))) (filt p in out)))))
(set 'res ())
(defun sieve (in) (let p (perform (chan-recv in)) (if (= p 0) 'end
  (let out (chan-make) (begin (set 'res (cons p res)) (spawn (lambda () (filt p in out))) (sieve out))))))
(cml-entry (lambda () (let c (chan-make) (begin (spawn (lambda () (gen c 2 %(n)d))) (sieve c)))))
(reverse res)
"""
FARM = """
(set 'jobs (chan-make)) (set 'outs (chan-make)) (set 'sum 0)
(defun worker (i) (let x (perform (chan-recv jobs)) (if (= x 'stop) () (begin (if (= 0 (- i (* 2 (/ i 2)))) (yield) ()) (perform (chan-send outs (* x x))) (worker i)))))
(defun feed (i) (if (= i 0) () (begin (perform (chan-send jobs i)) (feed (- i 1)))))
(defun stop (i) (if (= i 0) () (begin (perform (chan-send jobs 'stop)) (stop (- i 1)))))
(defun drain (i) (if (= i 0) () (begin (set 'sum (+ sum (perform (chan-recv outs)))) (drain (- i 1)))))
(defun start (i) (if (= i 0) () (begin (spawn (lambda () (worker i))) (start (- i 1)))))
(cml-entry (lambda () (begin (start %(w)d) (spawn (lambda () (begin (feed %(n)d) (stop %(w)d)))) (drain %(n)d))))
sum
"""
RING = """
(defun node (in out n) (if (= n 0) () (begin (perform (chan-send out (+ 1 (perform (chan-recv in))))) (node in out (- n 1)))))
(defun mkring (k first prev n) (if (= k 0) (begin (spawn (lambda () (node prev first n))) first)
   (let c (chan-make) (begin (spawn (lambda () (node prev c n))) (mkring (- k 1) first c n)))))
(set 'res ())
(defun inject (first last n x) (if (= n 0) (set 'res x) (begin (perform (chan-send first x)) (inject first last (- n 1) (perform (chan-recv last))))))
(defun build (k prev n) (if (= k 0) prev (let c (chan-make) (begin (spawn (lambda () (node prev c n))) (build (- k 1) c n)))))
(cml-entry (lambda () (let a (chan-make) (let z (build %(w)d a %(n)d) (inject a z %(n)d 0)))))
res
"""
SELECT = """
(set 'a (chan-make)) (set 'b (chan-make)) (set 'quit (chan-make)) (set 'got (vector 3))
(vector-set! got 0 0) (vector-set! got 1 0) (vector-set! got 2 0)
(defun srv () (let x (perform (choice (wrap (chan-recv a) (lambda (v) (cons 0 v))) (wrap (chan-recv b) (lambda (v) (cons 1 v)))
      (wrap (chan-recv quit) (lambda (v) (cons 2 v)))))
   (begin (vector-set! got (car x) (+ (cdr x) (vector-ref got (car x)))) (if (= (car x) 2) () (srv)))))
(defun put (c i fin) (if (= i 0) (perform (chan-send fin 1)) (begin (perform (chan-send c i)) (put c (- i 1) fin))))
(cml-entry (lambda () (let fin (chan-make) (begin (spawn srv) (spawn (lambda () (put a %(n)d fin))) (spawn (lambda () (put b (* 2 %(n)d) fin)))
   (perform (chan-recv fin)) (perform (chan-recv fin)) (perform (chan-send quit 7))))))
(list (vector-ref got 0) (vector-ref got 1) (vector-ref got 2))
"""
SELECT2 = SELECT.replace("(begin (spawn srv)", "(begin (spawn idle) (spawn srv)").replace("(defun srv", """(set 'never (chan-make))
(defun idle () (perform (choice (wrap (chan-recv never) (lambda (v) v)) (wrap (chan-recv a) (lambda (v) (perform (chan-send a v))))
   (wrap (chan-send never 1) (lambda (v) v)) (wrap (chan-recv quit) (lambda (v) (perform (chan-send quit v)))))))
(defun srv""")
# many tasks wait for ever where the choices of another leave what is stale
SELECT3 = SELECT.replace("(begin (spawn srv)", "(begin (crowd 40) (spawn srv)").replace("(wrap (chan-recv quit)", "(wrap (chan-recv never) (lambda (v) v)) (wrap (chan-recv quit)", 1).replace(
    "(defun srv", """(set 'never (chan-make))
(defun crowd (i) (if (= i 0) () (begin (spawn (lambda () (perform (chan-recv never)))) (crowd (- i 1)))))
(defun srv""")
YIELDS = """
(set 'turns ())
(defun go (t i) (if (= i 0) () (begin (set 'turns (+ 1 (if (= turns ()) 0 turns))) (yield) (go t (- i 1)))))
(cml-entry (lambda () (begin (spawn (lambda () (go 1 %(n)d))) (spawn (lambda () (go 2 %(n)d))) (go 3 %(n)d))))
turns
"""
SPAWNS = """
(set 'n 0)
(defun chain (i) (if (= i 0) () (begin (set 'n (+ n 1)) (spawn (lambda () (chain (- i 1)))))))
(cml-entry (lambda () (chain %(n)d)))
n
"""
PINGPONG = """
(set 'p (chan-make)) (set 'q (chan-make)) (set 'n 0)
(defun ping (i) (if (= i 0) () (begin (perform (chan-send p i)) (set 'n (+ n (perform (chan-recv q)))) (ping (- i 1)))))
(defun pong (i) (if (= i 0) () (begin (perform (chan-send q (+ 1 (perform (chan-recv p))))) (pong (- i 1)))))
(cml-entry (lambda () (begin (spawn (lambda () (pong %(n)d))) (ping %(n)d))))
n
"""


def primes(n):
    return [p for p in range(2, n) if all(p % q for q in range(2, p))]


LONG = {"farm": FARM, "ring": RING, "select": SELECT, "select2": SELECT2, "select3": SELECT3, "yields": YIELDS, "spawns": SPAWNS, "pingpong": PINGPONG}


def expect(name, n, w):
    return {"farm": str(sum(i * i for i in range(1, n + 1))), "ring": str(n * w),
            "select": "(%d %d 7)" % (n * (n + 1) // 2, n * (2 * n + 1)), "yields": str(3 * n), "spawns": str(n),
            "select3": "(%d %d 7)" % (n * (n + 1) // 2, n * (2 * n + 1)),
            "select2": "(%d %d 7)" % (n * (n + 1) // 2, n * (2 * n + 1)),
            "pingpong": str(sum(i + 1 for i in range(1, n + 1))),
            "sieve": "(" + " ".join(map(str, primes(n))) + ")"}[name]


IMPORTS = '(import "cora/lib/cml")\n(import "cora/lib/chan")\n'
NAMES = [("perform", "cml"), ("spawn", "cml"), ("yield", "cml"), ("wrap", "cml"), ("cml-entry", "cml"), ("chan-make", "chan"),
         ("chan-send", "chan"), ("chan-recv", "chan")]


def known(name, n, w):
    return IMPORTS + (SIEVE if name == "sieve" else LONG[name]) % {"n": n, "w": w}


def run(c):
    def jobs(n, tag):
        for i in range(n):
            r = c.rng(tag, i)
            p = Prog(r, r.randint(1, 6), r.randint(1, 4), r.random() < 0.6, r.random() < 0.6)
            pre, main = p.program()
            mode = "L" if tag == "L" else "E"
            text = pre + main + "\nlog"
            yield {"text": (IMPORTS if mode == "L" else "") + text, "mode": mode, "prog": p, "timeout": 60 if mode == "L" else 20,
                   "gc": r.choice([2000, 20000]) if tag == "asan" else 0}

    def judge(j, r):
        got = last_value(r)
        why = K.crashed(r)
        if why is None and (r.status != 0 or got is None):
            why = "ended with status %d" % r.status
        if "prog" in j:
            if why is None:
                try:
                    log = parse(got) if got != "()" else []
                    log.reverse()
                    c.count("events", len(log))
                    judge_log(j["prog"], log, c.count)
                    return None
                except Bad as b:
                    why = str(b)
                except (IndexError, KeyError, ValueError) as b:
                    why = "the log is not what a run can leave: %r" % b
            return ("tasks", why[:300], "%s\n\nmode %s gc %d status %d\n%s\n%s" % (why, j["mode"], j["gc"], r.status, j["text"], r.out[-6000:]))
        if why is None and got != j["exp"]:
            why = "a workload of tasks gave another result"
        if why:
            return ("workload", why, "%s\nmode %s expected %s\nstatus %d %s" % (j["text"], j["mode"], j["exp"], r.status, r.out[-1500:]))
        c.count("workload." + j["name"])
        if "id" in j:
            d = pend.setdefault(j["id"], {})
            d[j["n"]] = r.rss
            if len(d) == 2:
                (a, ra), (b, rb) = sorted(d.items())
                c.events["max-growth-kb"] = max(c.events["max-growth-kb"], rb - ra)
                if rb - ra > 1500:
                    return ("memory", "tasks that communicate for longer take more memory: %d kB after %d rounds, %d kB after %d" % (ra, a, rb, b),
                            j["text"])
        return None

    pend = {}

    def feed(it):
        for j in it:
            c.case(j["text"], True, j["text"][-800:])
            yield j

    def works(tag, n):
        for i in range(n):
            r = c.rng("w", tag, i)
            name = r.choice(sorted(LONG) + ["sieve"])
            m, w = (r.randint(1, 60), r.randint(1, 6)) if tag != "asan" else (r.randint(1, 25), r.randint(1, 4))
            if name == "sieve":
                m = r.randint(3, 40)
            yield {"text": known(name, m, w), "mode": "L", "name": name, "exp": expect(name, m, w), "timeout": 60,
                   "gc": r.choice([0, 3000])}

    def longs():
        for name in sorted(LONG):
            for m in (2000, 16000) if name != "ring" else (1000, 8000):
                yield {"text": known(name, m, 3), "mode": "L", "name": name, "exp": expect(name, m, 3), "timeout": 120, "id": name, "n": m}

    libs = ["cora/lib/cml", "cora/lib/chan"]
    r = c.runner("plain", imports=libs)
    K.differential(c, r, feed(jobs(c.n(1500, 40000), "E")), judge)
    K.differential(c, r, feed(jobs(c.n(60, 1500), "L")), judge)
    r = c.runner("asan", imports=libs)
    K.differential(c, r, feed(jobs(c.n(120, 3000), "asan")), judge)
    K.differential(c, r, feed(works("asan", c.n(10, 200))), judge)
    r = c.runner("user", imports=libs)
    K.differential(c, r, feed(works("user", c.n(40, 1000))), judge)
    K.differential(c, r, feed(longs()), judge)
    for k, n in (("received.message", 2000), ("received.special", 300), ("task.blocked", 1000), ("task.ended", 1000), ("ordered", 1000),
                 ("events", 20000)):
        c.floor(k, n)
    c.assumptions = ["a task does not perform an operation inside a try of its own, whose handler would get the scheduler's request",
                     "cml-entry runs once in a process"]
