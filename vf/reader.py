"""Model of the reader and of the printer, on bytes."""
import sys

sys.setrecursionlimit(20000)
SPACE = b" \t\n\v\f\r"
SPECIAL = b"()\"'`,;[]"


class Bad(Exception):
    """the reader ends the program with a message"""


class Sym(bytes):
    pass


class Str(bytes):
    pass


class Reader:
    def __init__(self, b):
        self.b, self.i = b, 0
        self.err = False

    def get(self):
        if self.i >= len(self.b):
            return None
        c = self.b[self.i]
        self.i += 1
        return c

    def skip(self):
        b = self.b
        while self.i < len(b):
            if b[self.i] in SPACE:
                self.i += 1
            elif b[self.i] == 59:
                while self.i < len(b) and b[self.i] != 10:
                    self.i += 1
                self.i += 1 if self.i < len(b) else 0
            else:
                return

    def peek(self):
        self.skip()
        return self.b[self.i] if self.i < len(self.b) else None

    def num(self, digits):
        n = 0
        for d in digits:
            if n > ((1 << 63) - 1 - 1024) // 10:
                raise Bad("number too large")
            n = n * 10 + (d - 48)
        return n

    def read(self):
        self.skip()
        c = self.get()
        if c is None:
            self.err = True
            return []
        b = self.b
        if 48 <= c <= 57:
            j = self.i
            while j < len(b) and 48 <= b[j] <= 57:
                j += 1
            n = self.num(b[self.i - 1:j])
            self.i = j
            return int(float(n))
        if c in b"'`,":
            x = self.read()
            return [Sym({39: b"quote", 96: b"backquote", 44: b"unquote"}[c]), x]
        if c == 40:
            out = []
            while True:
                k = self.peek()
                if k is None:
                    self.err = True
                    return out
                if k == 41:
                    self.i += 1
                    return out
                out.append(self.read())
        if c == 91:
            out, hd = [], b"list"
            while True:
                k = self.peek()
                if k is None:
                    self.err = True
                    break
                if k == 93:
                    self.i += 1
                    break
                if k == 46:
                    hd = b"list-rest"
                    self.i += 1
                    continue
                out.append(self.read())
            return [Sym(hd)] + out
        if c == 34:
            s = bytearray()
            while True:
                c = self.get()
                if c == 34:
                    return Str(bytes(s))
                if c == 92:
                    c = self.get()
                    if c == 110:
                        c = 10
                if c is None:
                    raise Bad("non-terminated string literal")
                if len(s) >= 999:
                    raise Bad("string too long")
                s.append(c)
        if c in b")];":
            raise Bad("read illegal state")
        j = self.i - 1
        while j < len(b) and b[j] not in SPACE and b[j] not in SPECIAL:
            j += 1
        w = b[self.i - 1:j]
        if len(w) > 999:
            raise Bad("symbol too long")
        self.i = j
        z = w.split(b"\0")[0]
        if z == b"true":
            return True
        if z == b"false":
            return False
        if w[:1] == b"-" and len(w) > 1 and all(48 <= x <= 57 for x in w[1:]):
            return int(-float(self.num(w[1:])))
        return Sym(z)


def forms(b):
    """(list of forms, message or None)"""
    r = Reader(b)
    out = []
    try:
        while True:
            x = r.read()
            if r.err:
                return out, None
            out.append(x)
    except Bad as e:
        return out, str(e)


def show(x):
    if x is True:
        return b"true"
    if x is False:
        return b"false"
    if isinstance(x, Sym):
        return bytes(x)
    if isinstance(x, Str):
        return b'"' + bytes(x).split(b"\0")[0] + b'"'
    if isinstance(x, int):
        return str(x).encode()
    return b"(" + b" ".join(show(y) for y in x) + b")"


def plain(x):
    """whether printing x gives text that reads back as x"""
    if isinstance(x, bool) or isinstance(x, int):
        return True
    if isinstance(x, Sym):
        return len(x) > 0 and x not in (b"true", b"false") and not (x[:1] == b"-" and x[1:].isdigit())
    if isinstance(x, Str):
        return not any(c in x for c in (0, 34, 92)) 
    return all(plain(y) for y in x)
