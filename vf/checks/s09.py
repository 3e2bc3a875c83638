"""Markdown: process-file against the events of the parser it is built on, and the parser against an independent reader."""
import os
import re

from .. import build as B
from .. import check as K
from .. import lines
from .. import markdown as M
from .. import proc
from ..lines import slit as lit

RULE = ("a case is one document; for the translation the value of process-file is compared with what the parser's events say, "
        "for the parser the tree of the events is compared with the tree of markdown-it")
P = "cora/lib/md4c/include#process-file"
PIECES = [b"*", b"**", b"_", b"`", b"```\n", b"[", b"](", b")", b"![", b"<", b">", b"<!--", b"&#", b"&amp;", b"\\", b"\n", b"\n\n", b"\t", b"    ",
          b"> ", b"- ", b"1. ", b"# ", b"===\n", b"|", b"~~", b"\xff", b"\xe2\x82", b"\xc3\xa9", b"\r", b"\r\n", b"[r1]: /x\n", b"]", b"x", b"(", b"\"", b"'",
          b"<![CDATA[", b"<?", b"&#x110000;", b"\xc2\xa0", b"[x] ", b"<a@b>", b"http://"]


def damage(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        i = r.randrange(len(b) + 1)
        k = r.randint(0, 5)
        if k < 3:
            b[i:i] = r.choice(PIECES) * r.choice([1, 1, 1, 2, 7])
        elif k == 3 and b:
            del b[i:i + r.choice([1, 1, 3, 10])]
        elif k == 4:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[min(i, j):max(i, j)][:60]
        elif b:
            b[i % len(b)] = r.randrange(1, 256)
    return bytes(b)


def bytes_of(r):
    """a document as bytes, possibly not a nice one"""
    k = r.random()
    if k < 0.03:
        return b""
    if k < 0.08:
        # deep nesting
        n = r.choice([10, 15, 16, 17, 31, 33, 60, 100])
        u = r.choice(["> ", "- ", "1. ", "> - "])
        return (u * n + "x\n").encode()
    if k < 0.11:
        n = r.choice([5, 16, 40, 200])
        u, e = r.choice([("*a ", "*"), ("**b ", "**"), ("[", "](u)"), ("![", "](u)"), ("_x ", "_"), ("~~", "~~"), ("`", "`"), ("<b>", "</b>")])
        return (u * n + "t" + e * n + "\n").encode()
    if k < 0.12:
        # around the sizes of the buffer the file is read into
        n = r.choice([32768, 49152, 73728]) + r.choice([-1, 0, 1])
        u = M.document(r).encode() + b"\n\n" + r.choice([b"", b"w " * 300 + b"\n\n"])
        return (u * (n // len(u) + 1))[:n]
    if k < 0.2:
        return bytes(x for p in (r.choice(PIECES) for _ in range(r.choice([3, 20, 100]))) for x in p)
    b = M.document(r).encode()
    if k < 0.3:
        b = b.replace(b"\n", r.choice([b"\r\n", b"\r"]))
    return damage(r, b) if r.random() < 0.6 else b


def driver(c, variant):
    b = c.build(variant)
    exe = os.path.join(b.base, "mdevents")
    src = os.path.join(B.VERIF, "harness", "mdevents.c")
    md = os.path.join(b.tree, "lib", "md4c")
    if not os.path.exists(exe):
        rc, out = b.cc(["-O1", "-w", "-I" + md, src, os.path.join(md, "md4c.c"), "-o", exe + ".tmp"])
        if rc != 0:
            raise B.BuildError("mdevents: " + out)
        os.replace(exe + ".tmp", exe)
    return b, exe


def parse(c, b, exe, groups):
    """the events of groups of files: yields (group, {file: (root, return code)}) ; a driver that dies is a violation"""
    def jobs():
        for g in groups:
            yield g, dict(cmd=[exe, str(M.FLAGS)], env=b.env(), stdin=("\n".join(g) + "\n").encode(), timeout=60)
    for g, kw, o in proc.many(jobs(), stop=c.full):
        got = {f: (root, rc) for f, root, rc in M.events(o.out)}
        bad = [f for f in g if got.get(f, (None, None))[0] is None]
        why = "said that %s" % got[bad[0]][1] if bad and bad[0] in got else "ended with status %s" % o.status
        if o.late or o.status != 0 or bad:
            f = bad[0] if bad else g[-1]
            c.violation("parser", "the parser %s on a document" % ("did not finish" if o.late else why),
                        "document: %r\n%s" % (open(f, "rb").read()[:4000], o.err[-2500:]))
            continue
        yield g, got


def unlink(fs):
    for f in fs:
        try:
            os.unlink(f)
        except OSError:
            pass


def conformity(c):
    b, exe = driver(c, "asan")
    other = M.Other()
    n = c.n(4000, 60000)

    def groups():
        g = []
        for i in range(n):
            r = c.rng("doc", i)
            p = os.path.join(c.scratch, "doc%d.md" % i)
            with open(p, "w") as f:
                f.write(M.document(r))
            g.append(p)
            if len(g) == 50 or i == n - 1:
                yield g
                g = []
    for g, got in parse(c, b, exe, groups()):
        for f in g:
            s = open(f, newline="").read()
            x, y = M.plain(got[f][0]), other.tree(s)
            c.case(s, len(s) > 20, s[:600])
            c.count("documents compared with markdown-it")
            for k in kinds(x, set()):
                c.count("kind." + k)
            if x != y:
                i = next((i for i, (p, q) in enumerate(zip(x + [None], y + [None])) if p != q), 0)
                c.violation("tree", "a document is read otherwise than it says",
                            "document:\n%s\nblock %d is read as\n%s\nand should be\n%s" % (s, i, x[i:i + 1], y[i:i + 1]))
        unlink(g)


def kinds(x, s):
    for y in x:
        if isinstance(y, list) and y:
            if isinstance(y[0], str):
                s.add(y[0])
            kinds(y[1:], s)
    return s


def translation(c, variant, n):
    b, exe = driver(c, "asan")
    r = c.runner(variant, imports=["cora/lib/string", "cora/lib/md4c/include"])

    def groups():
        for i in range(0, n, 20):
            g = []
            for k in range(i, min(n, i + 20)):
                p = os.path.join(c.scratch, "%s%d.md" % (variant, k))
                with open(p, "wb") as f:
                    d = bytes_of(c.rng(variant, k)).replace(b"\0", b"")
                    f.write(d)
                if len(d) > 5000:
                    yield [p]
                else:
                    g.append(p)
            yield g

    def jobs():
        for g, got in parse(c, b, exe, groups()):
            rr = c.rng(variant, "m", g[0])
            forms = [(f, None) for f in lines.ENC.strip().split("\n")]
            total = 0
            for f in g:
                root, rc = got[f]
                want = lines.show(M.sxml(root)) if rc == 0 else "()"
                forms.append(("(enc (%s %s))" % (P, lit(f.encode())), want, "document" if rc == 0 else "refused"))
                d = open(f, "rb").read()
                c.case(d, len(d) > 20, d[:600].decode("latin-1"))
                c.count("bytes", len(d))
                total += len(d)
                if rr.random() < 0.1:
                    forms.append(("(%s %s)" % (P, lit((f + ".none").encode())), "()", "no file"))
            for fm in forms[2:]:
                c.count("op." + fm[2])
            yield lines.job(forms, files=g, timeout=90, gc=rr.choice([0, 0, 0, 200, 2000]) if total < 5000 else 0)

    inner = lines.judge(c)

    def judge(j, res):
        res.out = re.sub(r"Cannot open file .*\n", "", res.out)
        v = inner(j, res)
        if v:
            got = lines.values(res)
            i = next((i for i, fm in enumerate(j["forms"]) if fm[1] is not None and (i >= len(got) or got[i] != fm[1])), len(j["forms"]) - 1)
            f = [x for x in j["files"] if x in j["forms"][i][0]]
            if f and os.path.exists(f[0]):
                v = v[:2] + ("document: %r\nexpected: %s\ngot: %s\n%s" % (
                    open(f[0], "rb").read()[:3000], j["forms"][i][1][:3000], got[i][:3000] if i < len(got) else res.out[-2000:], ""),)
        unlink(j["files"])
        return v
    K.differential(c, r, jobs(), judge)


def run(c):
    conformity(c)
    translation(c, "plain", c.n(3000, 40000))
    translation(c, "asan", c.n(600, 8000))
    c.floor("documents compared with markdown-it", 1000)
    c.floor("op.document", 1000)
    c.floor("op.no file", 10)
    for k in ("em", "strong", "a", "img", "code", "del", "br", "html", "ol", "ul", "li", "pre", "blockquote", "hr", "h1", "h6", "p"):
        c.floor("kind." + k, 50)
    c.assumptions = ["documents without NUL bytes in the translation; entities are left as they are written and HTML is left out there",
                     "for conformity, documents of the shapes the generator makes, on which markdown-it is right"]
