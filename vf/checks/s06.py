"""Serialising sxml: random trees, the output read back by a strict parser."""
from .. import check as K
from .. import lines
from ..diff import last_value
from ..lines import lit

RULE = ("a case is a random tree of elements, attributes, text and nested lists of nodes; the output is parsed by a strict parser and "
        "must be the tree again")
X = "cora/lib/sxml#"
NAMES = ["a", "p", "br", "h1", "div", "table", "x-equation", "ns:tag", "verylongelementname" * 3, "img"]
ENT = {"quot": '"', "amp": "&", "apos": "'", "lt": "<", "gt": ">"}


class Bad(Exception):
    pass


def parse(s):
    """nodes: (name, [(attr, value or None)], [nodes]) or text (adjacent text merged)"""
    pos = [0]

    def text(end):
        out = []
        while pos[0] < len(s) and s[pos[0]] not in end:
            ch = s[pos[0]]
            if ch == "&":
                j = s.find(";", pos[0])
                e = s[pos[0] + 1:j]
                if j < 0:
                    raise Bad("an & that starts no entity at %d" % pos[0])
                if e in ENT:
                    out.append(ENT[e])
                elif e[:1] == "#" and e[1:].isdigit():
                    out.append(chr(int(e[1:])))
                else:
                    raise Bad("unknown entity &%s;" % e[:20])
                pos[0] = j + 1
            elif ch in "<>":
                raise Bad("bare %s at %d" % (ch, pos[0]))
            else:
                out.append(ch)
                pos[0] += 1
        return "".join(out)

    def name():
        i = pos[0]
        while pos[0] < len(s) and s[pos[0]] not in " />=<\"'&":
            pos[0] += 1
        if i == pos[0]:
            raise Bad("no name at %d" % i)
        return s[i:pos[0]]

    def space():
        i = pos[0]
        while s[pos[0]:pos[0] + 1] == " ":
            pos[0] += 1
        return pos[0] > i

    def eat(x):
        if not s.startswith(x, pos[0]):
            raise Bad("no %r at %d" % (x, pos[0]))
        pos[0] += len(x)

    def nodes():
        out = []
        while pos[0] < len(s):
            if s.startswith("</", pos[0]):
                return out
            if s[pos[0]] == "<":
                eat("<")
                n = name()
                at = []
                while True:
                    sp = space()
                    if s[pos[0]:pos[0] + 1] in (">", "/"):
                        break
                    if not sp:
                        raise Bad("attribute without space at %d" % pos[0])
                    k = name()
                    v = None
                    if s[pos[0]:pos[0] + 1] == "=":
                        eat("=")
                        q = s[pos[0]:pos[0] + 1]
                        if q not in ("'", '"'):
                            raise Bad("no quote at %d" % pos[0])
                        eat(q)
                        v = text(q)
                        eat(q)
                    at.append((k, v))
                if s.startswith("/>", pos[0]):
                    eat("/>")
                    out.append((n, at, []))
                else:
                    eat(">")
                    ch = nodes()
                    eat("</" + n)
                    space()
                    eat(">")
                    out.append((n, at, ch))
            else:
                t = text("<")
                if out and isinstance(out[-1], str):
                    out[-1] += t
                else:
                    out.append(t)
        return out

    r = nodes()
    if pos[0] != len(s):
        raise Bad("closing tag that nothing opened at %d" % pos[0])
    return r


class G:
    def __init__(self, r, size):
        self.r = r
        self.budget = size

    def string(self):
        r = self.r
        al = r.choice(["ab c", "<>&\"'\\", "a&amp;b", "\\'", "x\n\t", "".join(map(chr, range(32, 127))), "".join(map(chr, range(128, 256)))])
        return "".join(r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 5, 9, 15, 16, 17, 40, 200]) if r.random() < .95 else r.randint(1000, 5000)))

    def lit(self, s):
        return lines.slit(s.encode("latin-1"))

    def node(self, d):
        """(text in cora, list of nodes in the model)"""
        r = self.r
        self.budget -= 1
        k = r.choice(["text", "el", "el", "el", "list"]) if d > 0 and self.budget > 0 else r.choice(["text", "text", "br"])
        if k == "text":
            s = self.string()
            return self.lit(s), [s] if s else []
        if k == "br":
            n = r.choice(NAMES)
            return "(list '%s)" % n, [(n, [], [])]
        if k == "list":
            # a list whose first element is a node, not a name
            xs = [self.node(d - 1) for _ in range(r.choice([0, 1, 1, 2, 4]))]
            return "(list %s)" % " ".join(x for x, _ in xs) if xs else "()", [y for _, ys in xs for y in ys]
        n = r.choice(NAMES)
        at = []
        out = []
        if r.random() < 0.5:
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                a = r.choice(["href", "src", "id", "class", "x-y", "a" * 40])
                q = r.random()
                if q < 0.2:
                    at.append((a, None))
                    out.append("'" + a)
                elif q < 0.4:
                    v = r.choice([0, 1, -1, 42, r.randint(-10**9, 10**9)])
                    at.append((a, str(v)))
                    out.append("(list '%s %d)" % (a, v))
                else:
                    s = self.string()
                    at.append((a, s))
                    out.append("(list '%s %s)" % (a, self.lit(s)))
            out = ["(list '@ %s)" % " ".join(out) if out else "(list '@)"]
        ch = [self.node(d - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        return "(list '%s %s)" % (n, " ".join(out + [x for x, _ in ch])), [(n, at, [y for _, ys in ch for y in ys])]


def merge(ns):
    out = []
    for n in ns:
        if isinstance(n, str):
            if out and isinstance(out[-1], str):
                out[-1] += n
            elif n:
                out.append(n)
        else:
            out.append((n[0], n[1], merge(n[2])))
    return out


def judge(c):
    def f(j, r):
        why = K.crashed(r)
        got = last_value(r)
        if why or r.status != 0 or got is None:
            return ("end", why or "ended with status %d" % r.status, j["text"] + "\n" + r.out[-3000:])
        try:
            s = "".join(map(chr, map(int, got.strip("()").split())))
            t = merge(parse(s))
        except Bad as e:
            return ("form", "the output is not well formed: %s" % e, j["text"] + "\n\noutput: " + s)
        except ValueError:
            return ("value", "the value is not a string", j["text"] + "\n\noutput: " + got[:2000])
        if t != merge(j["want"]):
            return ("tree", "the output is not the tree", "%s\n\noutput: %s\nread as: %r\nexpected: %r" % (j["text"], s, t, merge(j["want"])))
        c.count("bytes", len(s))
        return None
    return f


def run(c):
    def jobs(n, tag):
        for i in range(n):
            r = c.rng(tag, i)
            t, w = G(r, r.choice([3, 10, 30, 100])).node(r.choice([1, 2, 4, 8]))
            if i % 50 == 7:
                k = r.choice([300, 2000])
                t = "((lambda (deep) (deep deep %d %s)) (lambda (self n x) (if (= n 0) x (self self (- n 1) (list 'p x)))))" % (k, t)
                for _ in range(k):
                    w = [("p", [], w)]
                c.count("deep")
            j = {"text": "(cora/lib/string#string->list (%ssxml->xml %s))" % (X, t), "want": w, "gc": r.choice([0, 0, 2000]) if tag == "asan" else 0}
            for ch in "<>&\"'\\":
                c.count("char." + ch, j["text"].count(ch))
            c.case(j["text"], len(j["text"]) > 80, j["text"][-600:])
            yield j
    import sys
    sys.setrecursionlimit(20000)
    for v, n in (("plain", c.n(3000, 60000)), ("asan", c.n(300, 6000))):
        r = c.runner(v, imports=["cora/lib/string", "cora/lib/sxml"])
        K.differential(c, r, jobs(n, v), judge(c))
    c.floor("bytes", 100000)
    c.assumptions = ["names of elements and attributes are names of XML; nodes are strings, elements and lists of nodes"]
