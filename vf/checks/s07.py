"""Files, pipes and commands: histories of operations on several files at once; the files on disk and what is read are judged."""
import os
import re
import shutil

from .. import check as K
from .. import lines
from ..lines import slit as lit

RULE = ("a case is a history of opens, interleaved writes, closes, reads through pipes, copies and commands in a fresh directory; values "
        "and the contents of the files afterwards are compared with the model")
I, O = "cora/lib/io#", "cora/lib/os#"
SIZES = [0, 1, 2, 10, 63, 64, 65, 127, 128, 129, 191, 192, 193, 1000, 4095, 4096, 4097]


def sq(s):
    return "'" + s.replace("'", "'\\''") + "'"


class H:
    def __init__(self, r, d, c):
        self.r, self.d, self.c = r, d, c
        self.files = {}
        self.open = {}
        self.n = 0
        self.forms = [(f, None) for f in lines.ENC.strip().split("\n")]

    def add(self, text, want, k):
        self.forms.append((text, want, k))

    def data(self):
        r = self.r
        n = r.choice(SIZES) if r.random() < 0.8 else r.randint(0, 300)
        if r.random() < 0.02:
            n = r.choice([65536, 100001])
        al = r.choice([b"ab\n", bytes(range(256)), b"\0", b"\xff\xfe", b"x"])
        if n > 300:
            u = bytes(r.choice(al) for _ in range(r.randint(1, 40)))
            b = (u * (n // len(u) + 1))[:n]
            return "((value 'grow) %s %d)" % (lit(u), n), b
        b = bytes(r.choice(al) for _ in range(n))
        return lit(b), b

    def path(self, fresh=False):
        r = self.r
        if self.files and not fresh and r.random() < 0.4:
            return r.choice(sorted(self.files))
        parts = [r.choice(["d", "e", "with space", "q'uote", "dollar$x", "a" * 100, ".h", "d"]) for _ in range(r.choice([0, 0, 0, 1, 2, 3, 5]))]
        if r.random() < 0.04:
            parts = ["n" * 200] * r.choice([4, 6, 10])
        self.n += 1
        p = os.path.join(self.d, *parts, "f%d%s" % (self.n, r.choice(["", ".txt", " b", "'"])))
        if r.random() < 0.1:
            p = p.replace("/f", "//f")
        return os.path.normpath(p) if p not in self.files else p

    def var(self):
        self.n += 1
        return "h%d" % self.n

    def step(self):
        r = self.r
        k = r.choice(["open", "open", "write", "write", "write", "close", "close", "read", "read", "copy", "exec", "pipew", "bad", "full",
                      "cmd", "long", "words"])
        closed = [p for p in self.files if p not in [x[0] for x in self.open.values()]]
        if k == "open" and len(self.open) < 5:
            p = self.path()
            if p in [x[0] for x in self.open.values()]:
                return
            v = self.var()
            q = p
            if r.random() < 0.3 and p.startswith(self.d + "/"):
                q = r.choice(["./", ""]) + p[len(self.d) + 1:]
            self.add("(begin (set '%s (%sopen-output-file %s)) (null? %s))" % (v, I, lit(q.encode()), v), "false", "open")
            self.files[p] = b""
            self.open[v] = [p, b""]
        elif k == "write" and self.open:
            v = r.choice(sorted(self.open))
            t, b = self.data()
            self.add("(%swrite-bytes %s %s)" % (I, v, t), str(len(b)), "write")
            self.open[v][1] += b
        elif k == "close" and self.open:
            self.close(r.choice(sorted(self.open)))
        elif k == "read" and closed:
            p = r.choice(closed)
            b = self.files[p]
            v = self.var()
            e = "(enc %s)" if len(b) <= 400 else "(list (bytes-length %s) (cora/lib/string#byte-ref %s %d))"
            want = lines.show(b) if len(b) <= 400 else "(%d %d)" % (len(b), b[len(b) // 2])
            e = e % (("s",) if len(b) <= 400 else ("s", "s", len(b) // 2))
            self.add("(let %s (%spopen (list \"cat\" %s) 'r) (let s (%sread-all %s) (let st (%spclose %s) (list st %s))))" % (
                v, O, lit(sq(p).encode()), I, v, O, v, e), "(0 %s)" % want, "read")
        elif k == "copy" and closed:
            p = r.choice(closed)
            q = self.path(True)
            a, b = self.var(), self.var()
            pre, pres = b"", ""
            if r.random() < 0.3:
                t, pre = self.data()
                pres = "(%swrite-bytes %s %s)" % (I, b, t)
            self.add("(let %s (%spopen (list \"cat\" %s) 'r) (let %s (%sopen-output-file %s) (begin %s (%scopy %s %s) (let y (%spclose %s) "
                     "(list y (%sclose-output-file %s))))))" % (a, O, lit(sq(p).encode()), b, I, lit(q.encode()), pres, I, a, b, O, a, I, b),
                     "(0 0)", "copy")
            self.files[q] = pre + self.files[p]
        elif k == "exec":
            q = r.choice([("true", 0), ("false", 1), ("exit 3", 3), ("test -d " + sq(self.d), 0), ("test -e " + sq(self.d + "/nope"), 1),
                          ("sh -c 'exit 255'", 255)])
            ws = q[0].split(" ")
            if "'" not in q[0] and r.random() < 0.5:
                args = " ".join(lit(w.encode()) for w in ws)
            else:
                args = lit(q[0].encode())
            self.add("((lambda (s) (list (number? s) (= s 0))) (%sexec (list %s)))" % (O, args), "(true %s)" % str(q[1] == 0).lower(), "exec")
        elif k == "cmd" and closed:
            # a command that makes a file
            p = r.choice(closed)
            q = self.path(True)
            if os.path.dirname(q) != self.d or not self.safe(q):
                return
            self.add("(%sexec (list \"cp\" %s %s))" % (O, lit(sq(p).encode()), lit(sq(q).encode())), "0", "cmd")
            self.files[q] = self.files[p]
        elif k == "pipew":
            q = self.path(True)
            if os.path.dirname(q) != self.d:
                return
            st = r.choice([0, 0, 1, 7])
            v = self.var()
            ws, b = "", b""
            for _ in range(r.randint(0, 3)):
                t, x = self.data()
                if len(x) > 4097:
                    continue
                ws += "(%swrite-bytes %s %s) " % (I, v, t)
                b += x
            self.add("(let %s (%spopen (list \"cat >\" %s \";\" \"exit %d\") 'w) (begin %s (let s (%spclose %s) (list (number? s) (= 0 s) (< 0 s)))))" % (
                v, O, lit(sq(q).encode()), st, ws, O, v), "(true false true)" if st else "(true true false)", "pipew")
            self.files[q] = b
        elif k == "bad" and closed:
            # a file is where the directory should be
            p = r.choice(closed) + "/x/y"
            self.add("(%sopen-output-file %s)" % (I, lit(p.encode())), "()", "bad")
        elif k == "full":
            t, b = self.data()
            if len(b) > 20000:
                return
            m = 9000 // max(1, len(b)) + 1 if b and r.random() < 0.3 else 1
            v = self.var()
            self.add("(let %s (%sopen-output-file \"/dev/full\") (let l ((value 'times) %d (lambda () (%swrite-bytes %s %s)) 0) (let r (%sclose-output-file %s) "
                     "(list (number? r) (or (= %d 0) (or (< l 0) (< r 0)))))))" % (v, I, m, I, v, t, I, v, len(b)), "(true true)", "full")
        elif k == "words":
            # a command of many words, or of long ones
            ws = [r.choice(["a", "bc", "d e", "", "*", "$x", "%", "it's"]) * r.choice([1, 1, 1, 2, 40]) for _ in range(r.choice([1, 2, 7, 8, 9, 31, 32, 33, 64, 200]))]
            l = "(list \"printf\" \"%%s.\" %s" % " ".join(lit(sq(w).encode()) for w in ws)
            b = "".join(w + "." for w in ws).encode()
            if r.random() < 0.5:
                q = self.path(True)
                if os.path.dirname(q) != self.d:
                    return
                self.add("(%sexec %s \">\" %s))" % (O, l, lit(sq(q).encode())), "0", "words")
                self.files[q] = b
            else:
                e = "(enc s)" if len(b) <= 400 else "(bytes-length s)"
                self.add("(let p (%spopen %s) 'r) (let s (%sread-all p) (begin (%spclose p) %s)))" % (O, l, I, O, e), lines.show(b) if len(b) <= 400 else str(len(b)), "words")
        elif k == "long":
            n = r.choice([64, 640, 6400, 100000])
            m = n + r.choice([-1, 0, 1])
            self.add("(let p (%spopen (list \"head -c %d /dev/zero\") 'r) (let s (%sread-all p) (begin (%spclose p) (bytes-length s))))" % (
                O, m, I, O), str(m), "long")

    def safe(self, q):
        return True

    def close(self, v):
        p, b = self.open.pop(v)
        self.add("(%sclose-output-file %s)" % (I, v), "0", "close")
        self.files[p] = b


PRE = [("(set 'grow (lambda (u n) (if (< n (bytes-length u)) (cora/lib/string#string-slice u 0 n) "
        "(if (= n (bytes-length u)) u (grow2 u (string-append u u) n)))))", None),
       ("(set 'grow2 (lambda (u w n) (if (< (bytes-length w) n) (grow2 u (string-append w w) n) (cora/lib/string#string-slice w 0 n))))", None),
       ("(set 'times (lambda (n f r) (if (= n 0) r (times (- n 1) f (let x (f) (if (< x 0) x r))))))", None)]


PIPED = "(let p (" + O + "popen (list %s) 'r) (let s (" + I + "read-all p) (begin (" + O + "pclose p) %s)))"
FDS = PIPED % ("\"ls /proc/$PPID/fd | wc -l\"", "s")


def history(r, d, c):
    h = H(r, d, c)
    h.forms += PRE
    h.forms.append(("(set 'fds0 %s)" % FDS, None))
    for _ in range(40):
        h.step()
    for v in sorted(h.open):
        h.close(v)
    # everything was closed: no descriptor is left, but the end of a pipe that is about to be closed
    h.add(PIPED % ("\"echo $(( $(ls /proc/$PPID/fd | wc -l) <=\" fds0 \"+ 1))\"", "(cora/lib/string#string->list s)"), "(49 10)", "descriptors")
    return h


def judge(c):
    inner = lines.judge(c)

    def f(j, r):
        r.out = re.sub(r"Failed to (open|close) file[^\n]*\n|cat: write error[^\n]*\n", "", r.out)
        v = inner(j, r)
        if v is None and r.status == 0:
            found = {}
            for top, ds, fs in os.walk(j["dir"]):
                for x in fs:
                    p = os.path.join(top, x)
                    with open(p, "rb") as fh:
                        found[p] = fh.read()
            for p in set(found) | set(j["files"]):
                a, b = j["files"].get(p), found.get(p)
                if a != b:
                    v = ("contents", "the contents of a file are not what was written",
                         "%s: expected %s bytes %r..., found %s %r...\n%s" % (p, a is not None and len(a), (a or b"")[:300],
                                                                           b is not None and len(b), (b or b"")[:300], j["text"]))
                    break
            c.count("files", len(found))
            c.count("bytes", sum(map(len, found.values())))
        shutil.rmtree(j["dir"], ignore_errors=True)
        return v
    return f


def run(c):
    def jobs(n, tag):
        for i in range(n):
            r = c.rng(tag, i)
            d = c.dir()
            h = history(r, d, c)
            j = lines.job(h.forms, dir=d, files=h.files, timeout=60)
            for fm in h.forms:
                if len(fm) > 2:
                    c.count("op." + fm[2])
            c.case("\n".join(f[0] for f in h.forms).replace(d, "D"), len(h.forms) > 20, h.forms[-1][0])
            yield j
    for v, n in (("plain", c.n(300, 6000)), ("asan", c.n(80, 1500))):
        r = c.runner(v, imports=["cora/lib/string", "cora/lib/io", "cora/lib/os"])
        K.differential(c, r, jobs(n, v), judge(c))
    for k in ("open", "write", "close", "read", "copy", "exec", "pipew", "bad", "full", "long", "words", "descriptors"):
        c.floor("op." + k, 50)
    c.assumptions = ["commands are given to the shell as they are: the caller quotes"]
