"""Markdown: the tree that a sequence of parser events describes, and the tree of an independent reader (markdown-it)."""
import html.entities
import re
import sys

from .lines import Sym

FLAGS = 0x200 | 0x800
BLOCKS = ["doc", "blockquote", "ul", "ol", "li", "hr", "h", "code", "html", "p"]
SPANS = ["em", "strong", "a", "img", "code", "del"]
NORMAL, NULLCHAR, BR, SOFTBR, ENTITY, CODE, HTML = range(7)


class Node:
    def __init__(self, kind, **kw):
        self.kind, self.kw, self.kids = kind, kw, []
        self.src = None


def attr(s):
    """None, or a list of (type, bytes)"""
    if s == "-":
        return None
    return [(int(p.split(":")[0]), bytes.fromhex(p.split(":")[1])) for p in s[1:].split(",") if p]


def events(text):
    """yields (file, root node or None when the parser did not end, return code)"""
    f, root, st, rc = None, None, None, None
    for l in text.split("\n"):
        w = l.split(" ")
        if w[0] == "F":
            f, root = l[2:], Node("root")
            st = [root]
        elif w[0] == "E" and f is not None:
            if len(st) == 1 or int(w[1]) != 0:
                yield f, root, int(w[1])
            else:
                yield f, None, "something is open at the end: " + st[-1].src
            f = None
        elif w[0] == "B":
            k = BLOCKS[int(w[1])]
            n = Node(k)
            if k == "ol":
                n.kw["start"] = int(w[2])
            elif k == "h":
                n.kind = "h" + w[2]
            elif k == "li":
                n.kw["task"] = chr(int(w[3])) if w[2] != "0" else None
            elif k == "code":
                n.kind = "pre"
                n.kw["lang"], n.kw["info"] = attr(w[2]), attr(w[3])
            n.src = w[0].lower() + k
            st[-1].kids.append(n)
            st.append(n)
        elif w[0] == "S":
            k = SPANS[int(w[1])]
            n = Node(k)
            if k in ("a", "img"):
                n.kw["url"], n.kw["title"] = attr(w[2]), attr(w[3])
            n.src = w[0].lower() + k
            st[-1].kids.append(n)
            st.append(n)
        elif w[0] in "bs" and w[0]:
            k = (BLOCKS if w[0] == "b" else SPANS)[int(w[1])]
            if f is not None and (len(st) < 2 or st[-1].src != w[0] + k):
                yield f, None, "something ends that is not open: " + l
                f = None
                st = [Node("root")] * 1000
            else:
                st.pop()
        elif w[0] == "T":
            st[-1].kids.append((int(w[1]), bytes.fromhex(w[2])))
    if f is not None:
        yield f, None, None


def raw(a):
    return b"".join(x for _, x in a)


def sxml(n):
    """what process-file makes of the children of a node: a list of items"""
    out = []
    for k in n.kids:
        if isinstance(k, tuple):
            t, s = k
            if t == BR:
                out.append([Sym("br")])
            elif t != HTML:
                out.append(s)
            continue
        c = sxml(k)
        kind = k.kind
        if kind in ("doc", "html"):
            out += c
        elif kind == "hr":
            out.append([Sym("hr")])
            out += c
        elif kind == "ol":
            at = [[Sym("@"), [Sym("start"), k.kw["start"]]]] if k.kw["start"] != 1 else []
            out.append([Sym("ol")] + at + c)
        elif kind == "li" and k.kw["task"] is not None:
            box = [Sym("@"), [Sym("type"), b"checkbox"], [Sym("class"), b"task-list-item-checkbox"], Sym("disabled")]
            if k.kw["task"] in "xX":
                box.append(Sym("checked"))
            out.append([Sym("li"), [Sym("@"), [Sym("class"), b"task-list-item"]], [Sym("input"), box]] + c)
        elif kind == "pre":
            at = [[Sym("@"), [Sym("class"), b"language-" + raw(k.kw["lang"])]]] if k.kw["lang"] is not None else []
            out.append([Sym("pre"), [Sym("code")] + at + c])
        elif kind == "a":
            at = [Sym("@"), [Sym("href"), raw(k.kw["url"] or [])]]
            if k.kw["title"] is not None:
                at.append([Sym("title"), raw(k.kw["title"])])
            out.append([Sym("a"), at] + c)
        elif kind == "img":
            out.append([Sym("img"), [Sym("@"), [Sym("src"), raw(k.kw["url"] or [])]]] + c)
        else:
            out.append([Sym(kind)] + c)
    return out


# ---- the comparison with another reader: text is merged, entities are decoded
def entity(s):
    s = s.decode("latin-1")
    if s.startswith("&#"):
        n = int(s[3:-1], 16) if s[2] in "xX" else int(s[2:-1])
        return chr(n) if 0 < n < 0x110000 and not 0xd800 <= n < 0xe000 else "\ufffd"
    return html.entities.html5.get(s[1:], s)


def text(t, s):
    return entity(s) if t == ENTITY else s.decode("utf-8", "surrogateescape")


def atext(a):
    return None if a is None else "".join(text(t, s) for t, s in a)


def merge(items):
    out = []
    for x in items:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def plain(n):
    """children of a node as nested lists"""
    out = []
    for k in n.kids:
        if isinstance(k, tuple):
            t, s = k
            out.append(["br"] if t == BR else ["html", s.decode("utf-8", "surrogateescape")] if t == HTML else text(t, s))
            continue
        c = plain(k)
        kind = k.kind
        if kind == "doc":
            out += c
        elif kind == "html":
            out.append(["html", "".join(x[1] for x in c).lstrip(" ")])
        elif kind == "ol":
            out.append(["ol", k.kw["start"]] + c)
        elif kind == "li":
            t = k.kw["task"]
            if t is not None:
                if c and isinstance(c[0], str):
                    c[0] = "[%s] %s" % (t, c[0])
                elif c and c[0][0] == "p" and len(c[0]) > 1 and isinstance(c[0][1], str):
                    c[0][1] = "[%s] %s" % (t, c[0][1])
                else:
                    c.insert(0, "[%s] " % t)
            out.append(["li"] + c)
        elif kind == "pre":
            out.append(["pre", atext(k.kw["lang"]) or ""] + c)
        elif kind == "a" or kind == "img":
            out.append([kind, atext(k.kw["url"]) or "", atext(k.kw["title"]) or ""] + c)
        else:
            out.append([kind] + c)
    return joinhtml(merge(out))


def joinhtml(items):
    out = []
    for x in items:
        if isinstance(x, list) and x[0] == "html" and out and isinstance(out[-1], list) and out[-1][0] == "html":
            out[-1] = ["html", out[-1][1] + x[1]]
        else:
            out.append(x)
    return out


def unescape(s):
    return re.sub(r"\\([!-/:-@\[-`{-~])|(&(?:#[0-9]{1,7}|#[xX][0-9a-fA-F]{1,6}|[A-Za-z][A-Za-z0-9]*);)",
                  lambda m: m.group(1) or entity(m.group(2).encode()), s)


def tight(items):
    """the items without the paragraphs of list items, when it is not settled which lists are tight"""
    out = []
    for x in items:
        if isinstance(x, list):
            x = tight(x)
            if x[0] == "li":
                y = []
                for z in x[1:]:
                    y += z[1:] + ["\0"] if isinstance(z, list) and z[0] == "p" else [z]
                    if isinstance(z, list) and z[0] in ("ul", "ol", "pre", "blockquote", "hr", "html", "h1", "h2", "h3", "h4", "h5", "h6") and len(y) > 1 \
                            and isinstance(y[-2], str):
                        y[-2] = y[-2].rstrip("\0")
                y = merge(y)
                if y and isinstance(y[-1], str):
                    y[-1] = y[-1].rstrip("\0")
                x = ["li"] + merge(y)
        out.append(x)
    return out


class Other:
    """markdown-it"""

    def __init__(self):
        try:
            from markdown_it import MarkdownIt
        except ImportError:
            sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
            from markdown_it import MarkdownIt
        self.md = MarkdownIt("commonmark", {"maxNesting": 1000}).enable("strikethrough")
        self.md.normalizeLink = lambda u: u
        self.md.normalizeLinkText = lambda u: u
        self.md.validateLink = lambda u: True

    def tree(self, s):
        st = [[]]

        def walk(ts):
            for t in ts:
                if t.type == "inline":
                    walk(t.children)
                elif t.type in ("text", "text_special"):
                    st[-1].append(t.content)
                elif t.type == "softbreak":
                    st[-1].append("\n")
                elif t.type == "hardbreak":
                    st[-1].append(["br"])
                elif t.type in ("html_inline", "html_block"):
                    st[-1].append(["html", t.content.lstrip(" ") if t.type == "html_block" else t.content])
                    if t.type == "html_block" and not t.content.endswith("\n"):
                        st[-1][-1][1] += "\n"
                elif t.type == "code_inline":
                    st[-1].append(["code", t.content] if t.content else ["code"])
                elif t.type in ("fence", "code_block"):
                    lang = t.info.split()[0] if t.info.strip() else ""
                    lang = unescape(lang)
                    st[-1].append(["pre", lang] + ([t.content.rstrip("\n") + "\n" if t.content[-1] != "\n" else t.content] if t.content else []))
                elif t.type == "hr":
                    st[-1].append(["hr"])
                elif t.type == "image":
                    st.append(["img", t.attrs.get("src", ""), t.attrs.get("title", "")])
                    walk(t.children)
                    x = st.pop()
                    st[-1].append(joinhtml(merge2(x, 3)))
                elif t.nesting == 1:
                    if t.type == "paragraph_open" and t.hidden:
                        continue
                    tag = {"s": "del"}.get(t.tag, t.tag)
                    x = [tag]
                    if tag == "ol":
                        x.append(int(t.attrs.get("start", 1)))
                    if tag == "a":
                        x += [t.attrs.get("href", ""), t.attrs.get("title", "")]
                    st.append(x)
                elif t.nesting == -1:
                    if t.type == "paragraph_close" and t.hidden:
                        continue
                    x = st.pop()
                    st[-1].append(joinhtml(merge2(x, 3 if x[0] == "a" else 2 if x[0] in ("ol",) else 1)))
                else:
                    raise ValueError(t.type)
        walk(self.md.parse(s))
        return joinhtml(merge(st[0]))


def merge2(x, k):
    return x[:k] + merge(x[k:])


# ---- documents
WORDS = ["a", "word", "two words", "x1", "Straße", "日本", "end.", "semi;", "q?", "A", "foo", "bar baz", "1", "e-mail"]
ENTS = ["&amp;", "&lt;", "&copy;", "&#65;", "&#x41;", "&nbsp;", "&notanentity;", "& ", "&#0;", "&quot;"]


def word(r):
    return r.choice(WORDS)


def url(r):
    return r.choice(["/u", "http://e.org/a?b=c&d", "x.html#f", "", "/a(b)c", "a%20b", "/\\(x", "<u v>", "<>", "/é", "&amp;q", "/a_b_c", "#", "_u", "u_", "*", "**x", "x*y*", "~~", "/_", "*x*", "<_u v*>", "[x]", "![a]"])


def title(r):
    return r.choice(["", "", "", ' "t"', " 't u'", " (t)", ' "t \\" q"', ' "_t"', ' "[x]"', " '*t'", " (t* u_)", ' "a &amp; b"', ' ""'])


def inline(r, d, links=True):
    out = []
    for i in range(r.choice([1, 1, 2, 3, 5])):
        k = r.randint(0, 19)
        if d == 0 or k < 7:
            out.append(word(r))
        elif k == 7:
            out.append("*%s*" % inline(r, d - 1, links).strip())
        elif k == 8:
            out.append("**%s**" % inline(r, d - 1, links).strip())
        elif k == 9:
            out.append("_%s_" % inline(r, d - 1, links).strip())
        elif k == 10:
            out.append(r.choice(["`c`", "`` a`b ``", "`a  b`", "` x `", "`<b>`", "`&amp;`", "`a\\`", "`` ` ``", "`*x*`"]))
        elif k == 11 and links:
            out.append("[%s](%s%s)" % (inline(r, d - 1, False), url(r), title(r)))
        elif k == 12:
            out.append("![%s](%s%s)" % (inline(r, d - 1, links), url(r), title(r)))
        elif k == 13 and links:
            out.append(r.choice(["<http://e.org/x>", "<mailto:a@b.c>", "<a@b.org>"]))
        elif k == 14:
            out.append(r.choice(ENTS))
        elif k == 15:
            out.append("\\" + r.choice("!\"#$%&'()*+,-./:;<=>?@[]^_`{|}~\\ab1"))
        elif k == 16:
            out.append("~~%s~~" % word(r))
        elif k == 17 and links:
            out.append(r.choice(["[%s][r1]", "[r2]%.0s", "[R1][]%.0s", "[%s][R 3]", "[%s][none]", "[none]%.0s"]) % inline(r, 0, False))
        elif k == 18:
            out.append(r.choice(["<b>", "</b>", "<br/>", "<a href=\"x\">", "<!-- c -->", "<?p?>", "<i x='1' y>"]))
        else:
            out.append(word(r))
    s = ""
    for x in out:
        sep = r.choice([" ", " ", " ", " ", "\n", "  \n", "\\\n", ""])
        if d < 2 and "\n" in sep:
            sep = " "
        if "~~" in s[-3:] + x[:3] or s[-1:] + x[:1] == "``":
            sep = sep or " "
        if s and (s[-1] in "*_~`" or x[:1] in "*_~`"):
            sep = sep or " "
        s += (sep if s else "") + x
    return s


def lines_(s, first, rest):
    ls = s.split("\n")
    return "\n".join([first + ls[0]] + [(rest + l) if l.strip() or rest.strip() else l for l in ls[1:]])


# blocks at the edge of a rule: on one side it holds, on the other it does not
EDGES = ["#######%s x", "####### x", "#######", "######", "###### %s #######", "#x", "#", "##  ", "#\tx", "# #", "## x ##y", "## x \\##", "--", "**", "==", "-- -", "*-*", "_ _", "_  _\t_", "- - -", "%s\n-", "%s\n--", "%s\n=", "%s\n= =",
         "%s\n-- -", "%s\n  ===  ", "%s\n    ===", "%s\n===x", "    ---", "   ---", "``` a`b\nx", "~~~ a`b\nx\n~~~", "~~~~\n%s\n~~~\nb\n~~~~", "````\n%s\n```\nb\n````",
         "`````\na\n```\n````\nb\n`````", "```\n%s\n``` x\nb\n```", "```\n%s\n   ```", "```\n%s\n    ```\n```", "  ```\n   a\n  b\n c\n  ```", "~~~\n```\n~~~", "``\na\n``",
         "1234567890. x", "123456789. x", "123456789) x", "12345678) x", "1.x", "1)x", "-x", "+x", "*x", "0. x", "00. x", "-1. x", "1) x\n2. y", "- a\n* b", "- a\n+ b\n+ c", "%s\n2. b", "%s\n1. b", "%s\n1) b",
         "%s\n- b", "%s\n-", "%s\n# b", "%s\n> b", "%s\n***", "%s\n    b", "%s\n```\nb\n```", "\ta", " \ta", "   \ta", "-\ta", "-\t\ta", ">\ta", "1.\ta", "- \ta", "-   a\n\n    b",
         "-    a", "-     a", "- a\n\n  b", "- a\n\n b", "1. a\n\n   b", "1. a\n\n  b", "- a\n b", "> a\nb", "> a\n\nb", "> a\n> b", ">a\n>\n>b", "> - a\n> - b", "> - a\n- b", "> ```\n> a\n> ```",
         "- a\n\n\n  b", "- a\n  - b\n    - c", "- a\n - b\n  - c\n   - d", "* a\n\n* b", "* a\n* b\n\n* c", "* a\n  * b\n\n* c", "- - a", "- 1. a\n  2. b", "1. - a", "- # h\n- ---",
         "-\n  a", "-\n\n  a", "- a\n\n-", "- a\n-\n\n- b", "- a\n\n  -", "- a\n\n  >\n  > b", "- a\n\n  >", "- a\n  - b\n\n-", "- a\n  - b\n\n  -", "- > a\n\n  >", "- > a\n  >\n- b",
         "- ```\n\n  >\n  ```\n- b", "- a\n  ```\n  b\n\n  ```\n- c", "-\n- a", "-\n\n- a", "1.\n1. a", "- a\n\n      b", "- a\n\n  # b", "- # a\n\n  b", "- a\n\n  ---\n- b", "> -\n> - a", ">\n> a\n>", ">\n>\n> - a\n>\n> - b"]


def delimiters(r):
    """words between runs of delimiters, whichever way they lean"""
    c = r.choice(["*", "_", "*_", "*_"])
    s = ""
    for _ in range(r.randint(2, 7)):
        s += r.choice(["", "", " ", "(", ".", ")"]) + r.choice(c) * r.choice([1, 1, 2, 2, 3, 4]) + r.choice(["", "", " ", "(", ".", ")"]) + r.choice(["a", "b", "c d", "é"])
    return s + r.choice(c) * r.choice([0, 1, 2, 3])


def block(r, d, top=False):
    k = r.randint(0, 17)
    if k == 16:
        e = r.choice([x for x in EDGES if top or "\t" not in x])
        return e % word(r) if "%" in e else e
    if k == 17:
        return "x " + delimiters(r)
    if k < 5 or d == 0 and k > 10:
        return " " * r.choice([0, 0, 0, 1, 3]) + inline(r, 2)
    if k == 5:
        return "#" * r.randint(1, 6) + " " + inline(r, 1).replace("\n", " ") + r.choice(["", "", " #", " ###", " \\#"])
    if k == 6:
        return word(r) + " " + inline(r, 1).replace("\n", " ") + "\n" + r.choice(["===", "---", "=", "-----"])
    if k == 7:
        f = r.choice(["```", "~~~", "````", "~~~~~"])
        body = "\n".join(r.choice(["x = 1", "  y", "", "*a*", "<b>", "# h", "- i", "``", "&amp;", "\\*"]) for _ in range(r.randint(0, 4)))
        info = r.choice(["", "c", " go", "c++ x y", "sh&amp;", "a\\*b"])
        return f + info + "\n" + (body + "\n" if body else "") + f + r.choice(["", "`" if f[0] == "`" else "~"])
    if k == 8:
        return "\n".join("    " + r.choice(["code", "  more", "*x*", "", "#n"]) for _ in range(r.randint(1, 3))).strip("\n")
    if k == 9:
        return r.choice(["---", "***", "_ _ _", "-----", " * * *"])
    if k == 10 and top:
        return r.choice(["<div>\nx *y*\n</div>", "<!-- c\nd -->", "<p>\n", "<script>\nx\n\ny\n</script>", "<custom a='b'>\n"])
    if k == 10:
        return inline(r, 1)
    if k in (11, 12):
        return lines_(blocks(r, d - 1, 3), r.choice(["> ", ">"]), "> ")
    loose = r.random() < 0.4
    if k in (13, 14):
        m = r.choice(["-", "*", "+"])
        items = [m + " "] * r.randint(1, 4)
    else:
        n = r.choice([1, 1, 0, 7, 42, 123456789])
        e = r.choice([".", ")"])
        items = ["%d%s " % (n + i, e) for i in range(r.randint(1, 4))]
        if n == 123456789:
            items = items[:1]
    out = []
    for m in items:
        pad = r.choice([0, 0, 0, 1, 2])
        body = blocks(r, d - 1, 2, loose)
        if body.startswith("    ") and body.split("\n")[0].strip():
            pad = 0
        else:
            body = body.lstrip(" \n") or word(r)
        if r.random() < 0.1:
            body = r.choice(["[ ] ", "[x] ", "[X] "]) + "todo"
        out.append(lines_(body, m + " " * pad, " " * (len(m) + pad)))
    return ("\n\n" if loose else "\n").join(out)


def blocks(r, d, n, loose=True, top=False):
    if loose:
        return "\n\n".join(block(r, d, top) for _ in range(r.randint(1, n)))
    # nothing between the blocks: ones that end by themselves
    out = r.choice([inline(r, 1), "# " + inline(r, 1).replace("\n", " "), "```\nx\n```", word(r)])
    if d > 0 and r.random() < 0.4:
        out += "\n" + r.choice(["- ", "+ ", "1. "]) + inline(r, 0).replace("\n", " ")
    return out


def document(r, d=None):
    s = blocks(r, r.choice([0, 1, 2, 2, 3]) if d is None else d, 6, top=True)
    if r.random() < 0.4:
        s += "\n\n" + r.choice(["", "para\n\n"]) + '[r1]: /one "T1"\n[r2]: <two x>\n[r  3]:\n  /three\n  \'t3\'\n'
    return s + r.choice(["\n", "\n", "", "\n\n"])
