"""TCP: histories of the primitives on both ends of connections, and tasks that serve and call peers that are slow, greedy or gone."""
import os
import random
import re
import socket
import struct
import subprocess
import threading
import time

from .. import check as K

RULE = ("a case is a history of listen, dial, accept, send, recv, poll and close over several connections of one process, every result and every byte judged by a "
        "model; or a program of tasks that serve or call peers outside of the process, which send in pieces, read late, or break off")
N = "cora/lib/net#"


class Ports:
    """ports below those that the kernel gives out by itself"""

    def __init__(self, r):
        self.p = r.randrange(15000, 32000)

    def next(self):
        while True:
            self.p = self.p + 1 if self.p < 32000 else 15000
            s = socket.socket()
            try:
                s.bind(("0.0.0.0", self.p))
                return self.p
            except OSError:
                pass
            finally:
                s.close()


# ------------------------------------------------------------------ primitives
PRE = """(import "cora/lib/string")
(import "cora/lib/net")
(defun got (r b pos n) (match r ['ok] (string-slice b pos n) ['block p] (string-slice b pos p) ['eof p] (string-slice b pos p) _ ""))
(set 'rd (lambda (fd n pos) (let b (make-buffer n) r (net-recv fd b pos) [r (got r b pos n)])))
(defun big (s n) (if (= n 0) s (big (string-append s s) (- n 1))))
(import "cora/lib/os")
(defun pause () (exec (list "sleep" "0.06")))
(defun place (r n) (match r ['ok] n ['block p] p ['eof p] p _ n))
(defun add (k n) (set k (+ (value k) n)))
(defun sd (fd k data pos) (let r (net-send fd data pos) (begin (if (< pos (string-length data)) (match r ['err _] () _ (add k (- (place r (string-length data)) pos))) ()) r)))
(defun more (r fd k b n tries) (if (= tries 0) r (match r ['block p] (if (and (< 0 (value k)) (and (< (value k) 60000) (< (- p 0) n))) (let left (value k) (begin (pause) (let r (net-recv fd b p) (begin (add k (- p (place r n))) (more r fd k b n (- tries 1)))))) r) _ r)))
(defun rc (fd k n pos) (let b (make-buffer n) r (net-recv fd b pos) r (begin (if (< pos n) (match r ['err _] () _ (add k (- pos (place r n)))) ()) (more r fd k b n 20)) [r (got r b pos n)]))
(net-poll-fd-init)
(set 'probe (net-dial "127.0.0.1:PORT"))
(set 'l0 (net-listen "127.0.0.1:PORT"))
(set 'p0 (net-dial "127.0.0.1:PORT"))
(begin (net-close p0) (net-close (net-accept l0)) p0)
"""


class End:
    def __init__(self, name):
        self.name = name
        self.peer = None
        self.open = True
        self.sent = ""       # what this end sent
        self.read = 0        # how much of it the peer has read
        self.full = False
        self.polled = None
        self.reset = False

    def avail(self):
        return len(self.peer.sent) - self.peer.read


class History:
    """forms, each with a function that judges the printed value and updates the model"""

    def __init__(self, r, port, dead):
        self.r, self.port, self.dead = r, port, dead
        self.forms = []
        self.n = 0
        self.conns = []
        self.polls = {}

    def build(self, steps):
        r = self.r
        names = []
        for _ in range(steps):
            k = r.random()
            live = [n for n in names if n[1]]
            if k < 0.12 or not live:
                if len(live) < 12:
                    self.n += 1
                    a, b = "a%d" % self.n, "b%d" % self.n
                    self.forms.append(("(begin (set '%s (net-dial \"127.0.0.1:%d\")) (set '%s (net-accept l0)) (set 'n%s 0) (set 'n%s 0))" % (a, self.port, b, a, b), ("connect", a, b)))
                    names.append([a, True, b])
                    names.append([b, True, a])
            elif k < 0.42:
                s, _, _ = r.choice(live)
                word = "".join(r.choice("abcdefgh") for _ in range(r.choice([1, 1, 5, 30, 200])))
                p2 = r.choice([0, 0, 0, 3, 8])
                if r.random() < 0.08:
                    word, p2 = "abcdefg" + word, 18 - r.randint(0, 3)
                data = word * (1 << p2)
                pos = r.choice([0, 0, 0, 1, len(data) - 1, len(data)])
                self.forms.append(("(sd %s 'n%s (big \"%s\" %d) %d)" % (s, s, word, p2, pos), ("send", s, data, pos)))
            elif k < 0.78:
                s, _, o = r.choice(live)
                n = r.choice([1, 1, 5, 40, 1000, 70000])
                pos = r.choice([0, 0, 0, 1, n])
                self.forms.append(("(rc %s 'n%s %d %d)" % (s, o, n, pos), ("recv", s, n, pos)))
            elif k < 0.86:
                s, _, _ = r.choice(live)
                if s in self.polls:
                    if r.random() < 0.5:
                        self.forms.append(("(net-poll-del %s)" % s, ("unpoll", s)))
                        del self.polls[s]
                    else:
                        m = r.choice([["read"], ["write"], ["read", "write"], ["write", "read"], []])
                        self.forms.append(("(net-poll-mod %s '(%s) k%s)" % (s, " ".join(m), s), ("mode", s, m)))
                        self.polls[s] = m
                else:
                    m = r.choice(["read", "write"])
                    self.forms.append(("(begin (set 'k%s '(%s 7)) (net-poll-add %s '%s k%s))" % (s, s, s, m, s), ("mode", s, [m])))
                    self.polls[s] = [m]
            elif k < 0.95:
                if r.random() < 0.3:
                    # late enough for everything that is under way
                    self.forms.append(("(begin (pause) (list (net-poll 0) (net-poll 3) (net-poll 0)))", ("poll", True)))
                else:
                    self.forms.append(("(list (net-poll %d) (net-poll 3) (net-poll 0))" % r.choice([0, 2, 10]), ("poll", False)))
            elif k < 0.98:
                x = r.choice(live)
                x[1] = False
                self.polls.pop(x[0], None)
                self.forms.append(("(net-close %s)" % x[0], ("close", x[0])))
            else:
                self.forms.append(r.choice([
                    ("(net-dial \"127.0.0.1:%d\")" % self.dead, ("nil",)), ("(net-listen \"127.0.0.1:%d\")" % self.port, ("nil",)),
                    ("(net-dial \"nowhere\")", ("nil",)), ("(net-listen \"\")", ("nil",)),
                    ("(begin (set 'z (net-dial \"127.0.0.1:%d\")) (set 'zz (net-accept l0)) (list (net-send z \"hi\" 0) (net-close z) (rd zz 5 0) (rd zz 5 1) (net-close zz)))"
                     % self.port, ("is", '((ok) () ((eof 2) "hi") ((eof 1) "") ())'))]))
        for x in names:
            if x[1]:
                self.forms.append(("(net-close %s)" % x[0], ("close", x[0])))
        # nothing is left open
        self.forms.append(("(net-close l0)", ("is", "()")))
        self.forms.append(("(= l0 (net-listen \"127.0.0.1:%d\"))" % self.dead, ("is", "true")))
        self.forms.append(("(begin (set 'p1 (net-dial \"127.0.0.1:%d\")) (= p0 p1))" % self.dead, ("is", "true")))

    def text(self):
        return PRE.replace("PORT", str(self.port)) + "\n".join(f for f, _ in self.forms)


RES = re.compile(r'^\(\((ok|block|eof|err)(?: (\d+))?\) "([^"]*)"\)$', re.S)


def judge(c, h, got):
    """None, or what is wrong"""
    e = {}
    polled = {}
    for (form, k), g in zip(h.forms, got):
        op = k[0]
        c.count("op." + op)
        bad = "%s\ngot: %s" % (form, g[:600])
        if op == "connect":
            a, b = End(k[1]), End(k[2])
            a.peer, b.peer = b, a
            e[a.name], e[b.name] = a, b
        elif op == "nil" or op == "is":
            if g != ("()" if op == "nil" else k[1]):
                return "wrong result: " + bad
        elif op == "send":
            s, data, pos = e[k[1]], k[2], k[3]
            m = re.match(r"^\((ok|block|err)(?: (\d+))?\)$", g)
            if not m:
                return "no result: " + bad
            p = len(data)
            if m.group(1) == "err":
                if s.peer.open and not s.reset:
                    return "an error while the peer is open: " + bad
                if m.group(2) not in ("32", "104"):
                    return "an error that is none of a closed connection: " + bad
                s.reset = True
                continue
            if m.group(1) == "block":
                p = int(m.group(2))
                if not pos <= p < len(data):
                    return "blocked at no position of the data: " + bad
                if len(s.sent) + p - pos - s.read < 2000 and s.peer.open:
                    return "blocked with an empty buffer: " + bad
                s.full = True
                c.count("blocked sends")
            if pos < len(data) and not s.peer.open:
                s.reset = True
            s.sent += data[pos:p]
            c.count("bytes sent", p - pos)
        elif op == "recv":
            s, n, pos = e[k[1]], k[2], k[3]
            m = RES.match(g)
            if not m:
                return "no result: " + bad
            kind, at, text = m.group(1), int(m.group(2) or -1), m.group(3)
            x = s.peer
            want = x.sent[x.read:x.read + n - pos]
            end = {"ok": n, "block": at, "eof": at, "err": pos}[kind]
            if len(text) != end - pos or not want.startswith(text):
                return "other bytes than were sent: %s\nexpected the start of: %s" % (bad, want[:600])
            x.read += len(text)
            if text:
                x.full = False
            c.count("bytes received", len(text))
            if kind == "ok":
                continue
            if end > n or end < pos:
                return "a position outside of the buffer: " + bad
            if pos >= n:
                return "nothing was asked for: " + bad
            if kind == "block":
                # what a full buffer still holds comes later
                if len(text) < len(want) and not x.sent[x.read:][100000:] and not len(x.sent) > 60000:
                    return "late: bytes that were sent did not arrive: %s\nexpected: %s" % (bad, want[:600])
                if not x.open and not s.reset and not x.reset and len(text) == len(want) and len(x.sent) < 60000:
                    return "late: blocks although the peer has closed: " + bad
                c.count("blocked receives")
            elif kind == "eof":
                if x.open:
                    return "end of input although the peer is open: " + bad
                if x.read < len(x.sent) and not s.reset and not x.reset:
                    return "end of input before all bytes: " + bad
                c.count("ends of input")
            elif kind == "err":
                if x.open or at not in (32, 104) or not (s.reset or x.reset):
                    return "an error on a connection that is no error: " + bad
        elif op == "mode":
            polled[k[1]] = k[2]
        elif op == "unpoll":
            polled.pop(k[1], None)
        elif op == "close":
            s = e[k[1]]
            s.open = False
            polled.pop(s.name, None)
            if s.avail() > 0:
                s.reset = s.peer.reset = True      # the kernel tells the peer that bytes were lost
        elif op == "poll":
            items = re.findall(r"\(\((\w+) 7\) \. (read|write)\)", g)
            c.count("events polled", len(items))
            last = re.findall(r"\(\((\w+) 7\) \. (read|write)\)", lastlist(g))
            if len(set(last)) != len(last):
                return "an event twice: " + bad
            for name, m in items:
                s = e[name]
                if m not in polled.get(name, ()):
                    return "an event that is not asked for (%s %s): %s" % (name, m, bad)
                if m == "read" and s.avail() == 0 and s.peer.open and not s.reset:
                    return "%s is reported readable with nothing to read: %s" % (name, bad)
                if m == "write" and s.full and s.peer.open and not s.reset and len(s.sent) - s.read > 3000000:
                    pass
            for name, ms in polled.items() if k[1] else ():
                s = e[name]
                if "read" in ms and (s.avail() > 0 or not s.peer.open) and not s.reset and (name, "read") not in last and len(s.peer.sent) < 60000:
                    return "late: %s is not reported readable: %s" % (name, bad)
                if "write" in ms and s.peer.open and not s.reset and not s.full and len(s.sent) < 60000 and (name, "write") not in last:
                    return "late: %s is not reported writable: %s" % (name, bad)
    return None


def lastlist(g):
    """the last of the lists in a printed list of lists"""
    depth, starts, i = 0, [], 0
    out = ""
    for j, ch in enumerate(g):
        if ch == "(":
            depth += 1
            if depth == 2:
                i = j
        elif ch == ")":
            depth -= 1
            if depth == 1:
                out = g[i:j + 1]
    return out


def values(out):
    i = out.rfind("=rss ")
    out = out[:i] if i >= 0 else out
    # messages come before the value of the form that prints them
    return [re.split(r"\n(?:netSend error|netRecv error|recv error|bind error|Could not|invalid host|getaddrinfo)", v)[0].rstrip("\n")
            for v in out.split("=> ")[1:]]


# ------------------------------------------------------------------ tasks
TASKS = """(import "cora/lib/string")
(import "cora/lib/net")
(import "cora/lib/cml")
(import "cora/lib/async")
(set 'log ())
(set 'ticks 0)
(set 'closed 0)
(defun num (b i n acc) (if (= i n) acc (num b (+ i 1) n (+ (* acc 10) (- (byte-ref b i) 48)))))
(defun finish (c id count r) (begin (conn-close c) (set 'log (cons [id count r] (value 'log))) (set 'closed (+ 1 (value 'closed))) ()))
(defun serve (c id count)
  (let h (make-buffer 12)
    (let r (recv c h)
      (match r
        ['ok] (let n (num h 3 12 0)
                (if (= n 999999999)
                    (finish c (num h 0 3 0) count 'bye)
                    (let b (make-buffer n)
                      (let r (recv c b)
                        (match r
                          ['ok] (let r (perform (cora/lib/async#send-op c (string-append h b) 0))
                                  (match r ['ok] (serve c (num h 0 3 0) (+ count 1)) _ (finish c (num h 0 3 0) count r)))
                          _ (finish c (num h 0 3 0) count r))))))
        _ (finish c id count r)))))
(defun accepting (ln n)
  (if (= n 0)
      (conn-close ln)
      (let c (accept ln)
        (begin (spawn (lambda () (serve c -1 0))) (accepting ln (- n 1))))))
(defun ticking (n) (if (= n 0) () (begin (set 'ticks (+ 1 (value 'ticks))) (yield) (ticking (- n 1)))))
(defun pad (n w) (let s (number->string n) (padding s (- w (string-length s)))))
(defun padding (s n) (if (< n 1) s (padding (string-append "0" s) (- n 1))))
(defun big (s n) (if (= n 0) s (big (string-append s s) (- n 1))))
(defun calling (c id msgs)
  (match msgs
    [] (begin (send c (string-append (pad id 3) "999999999")) (finish c id 0 'done))
    [[w k] . more] (let m (big w k)
        m (string-append (string-append (pad id 3) (pad (string-length m) 9)) m)
        (begin
          (send c m)
          (let b (make-buffer (string-length m))
            (let r (recv c b)
              (if (= r '(ok)) (if (= b m) (calling c id more) (finish c id (length msgs) 'other-bytes)) (finish c id (length msgs) r))))))))
"""


def frame(i, data):
    return b"%03d%09d" % (i, len(data)) + data


def readn(s, n, r=None):
    out = b""
    while len(out) < n:
        x = s.recv(min(n - len(out), 1 << (r.randint(0, 17) if r else 16)))
        if not x:
            return out
        out += x
    return out


class Peer(threading.Thread):
    """a client of the tasks"""

    def __init__(self, i, r, port, kind, msgs):
        super().__init__(daemon=True)
        self.i, self.r, self.port, self.kind, self.msgs = i, r, port, kind, msgs
        self.fail = None
        self.want = None
        self.bar = None
        self.idle = None
        self.done_bytes = 0

    def run(self):
        try:
            self.go()
        except (OSError, ValueError) as x:
            self.fail = "client %d (%s): %s" % (self.i, self.kind, x)

    def connect(self):
        end = time.time() + 20
        while True:
            s = socket.socket()
            s.settimeout(40)
            try:
                s.connect(("127.0.0.1", self.port))
                return s
            except OSError:
                s.close()
                if time.time() > end:
                    raise
                time.sleep(0.02)

    def pieces(self, s, data):
        r, i = self.r, 0
        while i < len(data):
            n = 1 << r.randint(0, 16)
            if len(data) > 100000:
                n = 1 << r.randint(10, 18)
            s.sendall(data[i:i + n])
            i += n
            if r.random() < 0.3 and len(data) < 100000 or r.random() < 0.05:
                time.sleep(r.choice([0, 0.001, 0.004]))

    def go(self):
        r = self.r
        if self.idle == "before":
            time.sleep(IDLE)
        s = self.connect()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if self.bar:
            try:
                self.bar.wait(20)
            except threading.BrokenBarrierError:
                pass
        if self.kind == "none":
            self.want = [(-1, 0, "(eof 0)")]
            s.close()
            return
        frames = [frame(self.i, m) for m in self.msgs]
        if self.kind == "late":
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 16384)
        if self.kind == "pipeline":
            t = threading.Thread(target=lambda: self.pieces(s, b"".join(frames)), daemon=True)
            t.start()
        for k, f in enumerate(frames):
            if k == 0 and self.idle in ("first", "within"):
                if self.idle == "within":
                    s.sendall(f[:5])
                time.sleep(IDLE)
                self.pieces(s, f[5:] if self.idle == "within" else f)
            elif self.kind != "pipeline":
                self.pieces(s, f)
            if self.kind == "late":
                time.sleep(r.choice([0.02, 0.05]))
            back = readn(s, len(f), r)
            if back != f:
                j = next((j for j, (x, y) in enumerate(zip(back, f)) if x != y), min(len(back), len(f)))
                self.fail = "client %d (%s): message %d of %d bytes came back with %d bytes, different from byte %d on" % (self.i, self.kind, k, len(f), len(back), j)
                return
            self.done_bytes += len(f)
        n = len(frames)
        if self.kind == "cut":
            # breaks off in the header or in the data
            f = frame(self.i, bytes(r.randrange(97, 122) for _ in range(50)))
            k = r.choice([1, 5, 11, 12, 13, 40, 61])
            s.sendall(f[:k])
            time.sleep(r.choice([0, 0.005]))
            self.want = [(self.i if k >= 12 or n else -1, n, "(eof %d)" % (k if k < 12 else k - 12))]
            s.close()
            return
        if self.kind == "reset":
            s.sendall(frame(self.i, b"q" * 200000))
            time.sleep(r.choice([0, 0.003, 0.02]))
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
            self.want = None
            return
        s.sendall(b"%03d999999999" % self.i)
        self.want = [(self.i, n, "bye")]
        if s.recv(1) != b"":
            self.fail = "client %d: more bytes than asked for" % self.i
        s.close()


IDLE = 2
CPU = """(import "cora/lib/os")
(import "cora/lib/io")
(defun cpu () (let p (cora/lib/os#popen (list "awk '{printf $14+$15}' /proc/$PPID/stat") 'r) (let s (cora/lib/io#read-all p) (begin (cora/lib/os#pclose p) s))))
"""


def serving(c, r, ports, k):
    n = r.choice([1, 3, 8, 20])
    crowd = k % 40 == 7
    port = ports.next()
    ticks = r.choice([0, 0, 3, 60])
    peers = []
    if crowd:
        # more connections than one poll reports, with something to do at the same time
        n = r.choice([70, 100, 140])
        bar = threading.Barrier(n)
        for i in range(n):
            peers.append(Peer(i, random.Random(r.random()), port, "plain", [random.Random(r.random()).randbytes(r.choice([1, 30, 1000])) for _ in range(r.choice([1, 2, 3]))]))
            peers[-1].bar = bar
        c.count("crowds")
    for i in range(0 if crowd else n):
        kind = r.choice(["plain"] * 4 + ["late", "pipeline", "cut", "reset", "none"])
        msgs = [bytes(random.Random(r.random()).randbytes(r.choice([1, 2, 30, 1000, 5000]))) for _ in range(r.choice([0, 1, 4, 8]))]
        if kind in ("late", "plain") and r.random() < 0.3:
            msgs.insert(r.randint(0, len(msgs)), random.Random(i).randbytes(r.choice([150000, 500000])))
            if r.random() < 0.5:
                msgs.append(random.Random(i).randbytes(400000))
        peers.append(Peer(i, random.Random(r.random()), port, kind, msgs))
    idle = not crowd and k % 40 == 3
    if idle:
        n = min(n, 3)
        del peers[n:]
        for p in peers:
            p.kind, p.idle = "plain", r.choice(["before", "first", "within"])
            p.msgs = [b"x" * r.choice([1, 1000])] + p.msgs[:2]
            p.msgs = [m for m in p.msgs if len(m) < 10000]
        c.count("idle")
    text = TASKS + "(set 'ln (listen \"127.0.0.1:%d\"))\n" % port
    text += CPU + "(cpu)\n" if idle else ""
    text += "(cml-entry (lambda () (begin (spawn (lambda () (ticking %d))) (accepting ln %d))))\n" % (ticks, n)
    text += "(cpu)\n" if idle else ""
    text += "(list 'end closed ticks)\nlog\n"
    return dict(idle=idle, kind="serve", text=text, peers=peers, want_end="(end %d %d)" % (n, ticks), timeout=90)


class Echo(threading.Thread):
    """a server for the tasks: every connection is echoed, in pieces, late, or broken off"""

    def __init__(self, r, n, cuts):
        super().__init__(daemon=True)
        self.r, self.n, self.cuts = r, n, cuts
        self.l = socket.socket()
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(100)
        self.l.settimeout(60)
        self.port = self.l.getsockname()[1]
        self.fail = None

    def run(self):
        ts = []
        try:
            for _ in range(self.n):
                s, _ = self.l.accept()
                t = threading.Thread(target=self.one, args=(s, random.Random(self.r.random())), daemon=True)
                t.start()
                ts.append(t)
            for t in ts:
                t.join(60)
        except OSError as x:
            self.fail = "the peers' server: %s" % x
        finally:
            self.l.close()

    def one(self, s, r):
        s.settimeout(40)
        slow = r.random() < 0.4
        try:
            while True:
                h = readn(s, 12)
                if len(h) < 12 or h[3:] == b"999999999":
                    break
                if slow:
                    time.sleep(0.02)
                n = int(h[3:])
                data = readn(s, n, r)
                if int(h[:3]) in self.cuts:
                    s.sendall((h + data)[:len(data) // 2])
                    break
                out = h + data
                i = 0
                while i < len(out):
                    k = 1 << r.randint(8 if n > 20000 else 0, 18)
                    s.sendall(out[i:i + k])
                    i += k
                    if r.random() < 0.1:
                        time.sleep(0.002)
        except (OSError, ValueError) as x:
            self.fail = "server: %s" % x
        finally:
            s.close()


def calling(c, r, ports, k):
    n = r.choice([1, 4, 12, 30])
    cuts = set(i for i in range(n) if r.random() < 0.1)
    srv = Echo(random.Random(r.random()), n, cuts)
    text = TASKS
    want = []
    body = []
    for i in range(n):
        msgs = []
        for _ in range(r.choice([1, 1, 3, 6])):
            w = "".join(r.choice("abcdefghijkl") for _ in range(r.choice([1, 3, 50])))
            msgs.append((w, r.choice([0, 1, 4, 10]) if r.random() > 0.15 else 15))
        if i in cuts:
            want.append((i, len(msgs), "(eof %d)" % (len(msgs[0][0]) << msgs[0][1] >> 1)))
        else:
            want.append((i, 0, "done"))
        body.append("(spawn (lambda () (calling (dial \"127.0.0.1:%d\") %d '(%s))))" % (srv.port, i, " ".join('("%s" %d)' % m for m in msgs)))
    ticks = r.choice([0, 3, 60])
    text += "(cml-entry (lambda () (begin (spawn (lambda () (ticking %d))) %s)))\n" % (ticks, " ".join(body))
    text += "(list 'end closed ticks)\nlog\n"
    return dict(kind="call", text=text, peers=[srv], want=want, want_end="(end %d %d)" % (n, ticks), timeout=90)


def both(c, r, ports, k):
    """both ends in one process"""
    n = r.choice([1, 2, 10, 25])
    port = ports.next()
    want = []
    body = []
    for i in range(n):
        msgs = [("".join(r.choice("abcdefghijkl") for _ in range(r.choice([1, 3, 50]))), r.choice([0, 1, 4, 10]) if r.random() > 0.2 else 14) for _ in range(r.choice([0, 1, 3, 6]))]
        want += [(i, 0, "done"), (i, len(msgs), "bye")]
        body.append("(spawn (lambda () (calling (dial \"127.0.0.1:%d\") %d '(%s))))" % (port, i, " ".join('("%s" %d)' % m for m in msgs)))
    if r.random() < 0.5:
        body.append("(accepting ln %d)" % n)
    else:
        body.insert(0, "(spawn (lambda () (accepting ln %d)))" % n)
    text = TASKS + "(set 'ln (listen \"127.0.0.1:%d\"))\n" % port
    text += "(cml-entry (lambda () (begin %s)))\n" % " ".join(body)
    text += "(list 'end closed ticks)\nlog\n"
    return dict(kind="both", text=text, peers=[], want=want, want_end="(end %d 0)" % (2 * n), timeout=90)


LOG = re.compile(r"\((-?\d+) (\d+) (\w[\w-]*|\(\w+ \d+\))\)")


def judge_tasks(c, j, r):
    for p in j["peers"]:
        p.join(max(0.1, 45 - r.wall) if r.status == 0 else 0.2)
    fails = [p.fail for p in j["peers"] if p.fail]
    got = values(r.out)
    if len(got) < 3:
        return "the tasks did not end (%s): %s" % (K.crashed(r) or "status %d" % r.status, " ".join(fails)[:400])
    if fails:
        return fails[0]
    if j.get("idle"):
        a, b = [int(x) for x in re.findall(r'^"?(\d+)"?$', "\n".join(got[:-2]), re.M)][-2:]
        c.events["max-idle-ticks"] = max(c.events["max-idle-ticks"], b - a)
        if b - a > 35 * IDLE:
            return "the process kept busy for %d hundredths of a second while its tasks waited for their peers" % (b - a)
    if got[-2].strip() != j["want_end"]:
        return "ended with %s instead of %s" % (got[-2].strip(), j["want_end"])
    log = sorted((int(a), int(b), x) for a, b, x in LOG.findall(got[-1]))
    want = list(j.get("want") or [])
    odd = []
    for p in j["peers"]:
        if isinstance(p, Peer):
            if p.is_alive():
                return "client %d (%s) did not end" % (p.i, p.kind)
            want += p.want or []
            if p.kind == "reset":
                odd.append((p.i, len(p.msgs)))
            c.count("bytes echoed", p.done_bytes)
    # a connection that was reset ends with an error or the end of input, wherever it was then
    for i, k in odd:
        m = [x for x in log if x[0] in (i, -1) and x[1] in (k, k + 1) and x not in want and (x[2].startswith("(eof") or x[2].startswith("(err"))]
        if not m:
            return "a connection that was reset was not reported: client %d; log %s" % (i, log)
        log.remove(m[0])
    if sorted(want) != log:
        return "the tasks saw %s instead of %s" % ([x for x in log if x not in want][:5], [x for x in want if x not in log][:5])
    c.count("connections of tasks", len(log))
    for x in log:
        if x[2].startswith("("):
            c.count("connections broken off")
    return None


def wrong(c, j, r):
    if "h" not in j:
        c.count("programs of tasks: " + j["kind"])
        return judge_tasks(c, j, r)
    h = j["h"]
    got = values(r.out)
    k = len(PRE.strip().split("\n"))
    if r.status != 0 or len(got) != k + len(h.forms):
        return "a history of connections ended early (%s)\nat: %s" % (
            K.crashed(r) or "status %d, %d of %d values" % (r.status, len(got), k + len(h.forms)), h.forms[len(got) - k][0] if k <= len(got) < k + len(h.forms) else "")
    return judge(c, h, got[k:])


# a kernel that moves less than it is asked to, and reports fewer events at a time
SHORT_C = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/epoll.h>
static unsigned long long x = 88172645463325252ull;
static unsigned long long rnd(void) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x >> 11; }
static size_t cut(size_t n) {
	if (n < 2) return n;
	switch (rnd() % 4) {
	case 0: return 1 + rnd() % n;
	case 1: { size_t k = 1 + rnd() % 8; return k < n && n < 100000 ? k : n - 1; }
	default: return n;
	}
}
ssize_t send(int fd, const void *b, size_t n, int f) {
	static ssize_t (*real)(int, const void *, size_t, int);
	if (!real) real = dlsym(RTLD_NEXT, "send");
	return real(fd, b, cut(n), f);
}
ssize_t recv(int fd, void *b, size_t n, int f) {
	static ssize_t (*real)(int, void *, size_t, int);
	if (!real) real = dlsym(RTLD_NEXT, "recv");
	return real(fd, b, cut(n), f);
}
int epoll_wait(int fd, struct epoll_event *e, int n, int t) {
	static int (*real)(int, struct epoll_event *, int, int);
	if (!real) real = dlsym(RTLD_NEXT, "epoll_wait");
	static int fewer = -1;
	if (fewer < 0) fewer = strcmp(getenv("VERIF_FEWER"), "fewer") == 0;
	return real(fd, e, fewer && n > 1 && rnd() % 2 ? 1 + (int)(rnd() % n) : n, t);
}
"""


def run(c):
    ports = Ports(random.SystemRandom())
    d = c.dir()
    shim = os.path.join(d, "short.so")
    with open(os.path.join(d, "short.c"), "w") as f:
        f.write(SHORT_C)
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", shim, os.path.join(d, "short.c"), "-ldl"], check=True)
    for variant, n, m in (("plain", c.n(350, 4000), c.n(300, 3500)), ("short", c.n(200, 2500), 0), ("fewer", 0, c.n(150, 2000)), ("asan", c.n(80, 1000), c.n(60, 800))):
        rn = c.runner("plain", env={"LD_PRELOAD": shim, "VERIF_FEWER": variant}) if variant in ("short", "fewer") else c.runner(variant)

        def history(i):
            r = c.rng("prim", variant, i)
            h = History(r, ports.next(), ports.next())
            h.build(r.choice([20, 60, 150]))
            return dict(text=h.text(), h=h, timeout=60, gc=r.choice([0, 0, 3000]), i=i)

        def tasks(i):
            r = c.rng("task", variant, i)
            j = r.choice([serving, serving, calling, both])(c, r, ports, i)
            j["gc"] = r.choice([0, 0, 20000])
            j["i"] = i
            for p in j["peers"]:
                p.start()
            return j

        def jobs():
            for i in range(max(n, m)):
                if i < n:
                    yield history(i)
                if i < m:
                    yield tasks(i)
        # what may come from a late delivery or a busy machine is run again, alone
        again, hung = [], 0
        for j, r in rn.run(jobs()):
            c.case(j["text"], True, j["text"][-700:])
            w = wrong(c, j, r)
            if w and (w.startswith("late: ") or r.status in (1009, 1014, 1024)):
                again.append(j)
                hung += not w.startswith("late: ")
                if hung >= 12:
                    break
            elif w:
                c.violation("history" if "h" in j else j["kind"], w.split("\n")[0][:300], w + "\n" + j["text"] + "\n" + r.out[-2500:])
            if c.full():
                break
        end = time.time() + (240 if c.tier == "quick" else 1200)
        for j in again[:60]:
            if c.full():
                break
            c.count("run again")
            hangs = 0
            for k in range(4):
                if k and (time.time() > end or hangs == 2):
                    break
                j2 = history(j["i"]) if "h" in j else tasks(j["i"])
                w = r = None
                for _, r in rn.run([j2]):
                    w = wrong(c, j2, r)
                if not w or not (w.startswith("late: ") or r.status in (1009, 1014, 1024)):
                    break
                hangs += not w.startswith("late: ")
            if w:
                c.hung = c.hung or hangs > 0
                c.violation("history" if "h" in j else j["kind"], w.split("\n")[0][:300], w + "\n" + j["text"] + "\n" + r.out[-2500:])
    c.floor("op.recv", 1000)
    c.floor("connections of tasks", 300)
    c.floor("blocked receives", 300)
    c.floor("ends of input", 30)
    c.floor("events polled", 200)
    c.floor("crowds", 5)
    c.floor("idle", 5)
    c.assumptions = ["the loopback delivers at once while buffers have room, in one of five runs", "nobody receives into an empty buffer", "no conn is used by two tasks at once in one direction"]
