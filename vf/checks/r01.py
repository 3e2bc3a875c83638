"""The reader and the printer on any bytes."""
import os
import queue
import subprocess
import threading

from .. import build as B
from .. import reader
from .m03 import harness

RULE = ("a case is one input of random, mutated or well-formed bytes; the forms read, or the message, are compared with a model, and "
        "printable forms are read back from their printed text")


def token(r):
    k = r.choice(["num", "num", "sym", "sym", "str", "neg", "kw"] * 4 + ["odd", "long"])
    if k == "num":
        return str(r.choice([0, 1, 7, 42, 2**31 - 1, 2**31, 2**32, 2**53 - 1, 2**53, 2**53 + 1, 10**18, 2**63 - 1, 2**63, 10**30, 9223372036854775799, 9223372036854774790, 9223372036854774789,
                             r.randint(0, 10**r.randint(1, 20))])).encode()
    if k == "neg":
        return b"-" + r.choice([b"", b"-", b"1", b"0", b"007", b"12a", b"9223372036854775807", b"9223372036854775809", b"-5", b".", b"1.5"])
    if k == "sym":
        n = r.choice([1, 1, 2, 5, 20])
        return bytes(r.choice(b"abcxyz-+*/<>=!?#%&.:_^~@$|\\{}\xc3\xa9\x80\xff0123") for _ in range(n))
    if k == "str":
        n = r.choice([0, 1, 3, 10, 60])
        al = r.choice([b"abc xyz()[];'`,.", bytes(x for x in range(1, 256)), b"\\n\"\\a", b"ab\n\t"])
        s = bytes(r.choice(al) for _ in range(n))
        if r.random() < 0.8:
            s = s.replace(b"\\", b"\\\\").replace(b'"', b'\\"')
        return b'"' + s + b'"'
    if k == "kw":
        return r.choice([b"true", b"false", b"quote", b"list", b"()", b"[]", b".", b"true.", b"falsey", b"nil", b"lambda", b"(quote a)"])
    if k == "long":
        n = r.choice([997, 998, 999, 1000, 1001, 3000])
        return r.choice([b"a" * n, b'"' + b"b" * n + b'"', b'"' + b"\\\\" * n + b'"', b"\xc3" * n, b"1" * min(n, 25), b"-" + b"0" * n])
    return r.choice([b"'", b"`", b",", b";c\n", b"; x", b"\0", b"\\", b'"', b")", b"]", b"(", b"["])


def form(r, d):
    if d == 0 or r.random() < 0.4:
        return token(r)
    k = r.choice(["(", "(", "[", "q"])
    sep = lambda: r.choice([b" ", b" ", b"\n", b"\t", b" ;c (\n", b"\f\v\r ", b""])
    if k == "q":
        return r.choice([b"'", b"`", b","]) + r.choice([b"", b" "]) + form(r, d - 1)
    items = [form(r, d - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))]
    body = b"".join(x + (sep() or b" ") for x in items)
    if k == "[":
        if r.random() < 0.4:
            body += b". " + form(r, d - 1)
        return b"[" + sep() + body + b"]"
    return b"(" + sep() + body + b")"


def text(r):
    k = r.choice(["form", "form", "form", "mutate", "mutate", "random", "deep", "longlist", "cut"])
    if k == "random":
        al = r.choice([bytes(range(256)), b"()[]'`,;\"\\ .-0a\n", b"()", b"[.] a", b"0123456789-", b"\"\\n"])
        return k, bytes(r.choice(al) for _ in range(r.choice([1, 3, 10, 50, 300])))
    if k == "deep":
        n = r.choice([10, 100, 500])
        o = r.choice([b"(", b"[", b"'", b"`(", b"(a "])
        return k, o * n + b"x" + r.choice([b")", b"]", b""]) * r.choice([n, n, n - 1])
    if k == "longlist":
        n = r.choice([100, 3000])
        return k, r.choice([b"(", b"["]) + b" ".join([token(r) for _ in range(5)] * (n // 5)) + r.choice([b")", b"]"])
    b = b"\n".join(form(r, 4) for _ in range(r.randint(1, 4)))
    if k == "mutate":
        a = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 5])):
            i = r.randint(0, len(a))
            w = r.random()
            if w < 0.4 and i < len(a):
                a[i] = r.choice(b"()[]'`,;\"\\ .-0a\n\0\xff")
            elif w < 0.7 and i < len(a):
                del a[i:i + r.choice([1, 1, 4])]
            else:
                a[i:i] = bytes([r.choice(b"()[]'`,;\"\\ .-0a\n\0\xff")])
        b = bytes(a)
    if k == "cut" and b:
        b = b[:r.randint(0, len(b))]
    return k, b


def worker(exe, env, todo, done):
    p = subprocess.Popen([exe], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    while True:
        j = todo.get()
        if j is None:
            break
        p.stdin.write((j["path"] + "\t" + j["again"] + "\n").encode())
        p.stdin.flush()
        l = p.stdout.readline()
        done.put((j, int(l) if l.strip() else None))
        if not l:
            break
    p.stdin.close()
    p.wait()


def rd(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return b""
    finally:
        try:
            os.unlink(p)
        except OSError:
            pass


def run(c):
    for variant, n in (("plain", c.n(6000, 200000)), ("asan", c.n(4000, 100000))):
        b, exe = harness(c, variant, "read")
        d = c.dir()
        nw = os.cpu_count() or 4
        todo, done = queue.Queue(64), queue.Queue()
        ts = [threading.Thread(target=worker, args=(exe, b.env(), todo, done), daemon=True) for _ in range(nw)]
        for t in ts:
            t.start()
        live = 0

        def finish(j, st):
            out, err = rd(j["path"] + ".out"), rd(j["path"] + ".err")
            rd(j["path"])
            got2 = rd(j["again"] + ".out") if j["again"] else b""
            if j["again"]:
                rd(j["again"])
            fs, msg = j["model"]
            want = b"".join(b"=> " + reader.show(x) + b"\n" for x in fs)
            info = "input: %r\nexpected: %r %r\ngot (status %s): %r %r" % (j["b"], want, msg, st, out[-2000:], err[-1500:])
            if st is None or (st >= 1000 and st != 1014) or b"Sanitizer" in err or b"runtime error" in err:
                c.violation("crash", "the reader crashed", info)
            elif st == 1014:
                c.violation("hang", "the reader did not finish", info)
            elif msg is None and st != 0 or msg is not None and (st != 1 or msg.encode() not in err):
                c.violation("status", "the reader accepted what it must reject, or the reverse", info)
            elif out != want:
                c.violation("forms", "other forms were read", info)
            elif j["again"]:
                if got2 != want:
                    c.violation("round-trip", "printed forms read back differently", info + "\nagain: %r" % got2)
                c.count("round-trips")
            c.count("rejected" if msg else "accepted")
            c.count("forms", len(fs))

        for i in range(n):
            if c.full():
                break
            r = c.rng(variant, i)
            k, t = text(r)
            c.count("kind." + k)
            c.case(t, len(t) > 4, repr(t[:600]))
            path = os.path.join(d, "i%d" % i)
            with open(path, "wb") as f:
                f.write(t)
            m = reader.forms(t)
            ok = m[1] is None and all(reader.plain(x) for x in m[0])
            todo.put({"path": path, "b": t, "model": m, "again": path + "a" if ok else ""})
            live += 1
            while not done.empty():
                finish(*done.get())
                live -= 1
        for _ in ts:
            todo.put(None)
        for t in ts:
            t.join()
        while not done.empty():
            finish(*done.get())
            live -= 1
        if live and not c.full():
            c.violation("crash", "the reader process died", "")
    c.floor("round-trips", 500)
    c.floor("rejected", 500)
    c.floor("accepted", 2000)
    c.assumptions = ["nesting of 500 levels is the deepest input", "a symbol ends at a NUL byte, a printed string too"]
