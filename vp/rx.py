"""A small regular-expression automaton (NFA, state sets) over characters and placeholder symbols."""


class NFA:
    """literal characters, ( ) | * + ?, [abc], [^abc], backslash escapes, and {name} macros"""

    def __init__(self, pattern, macros=None):
        for _ in range(5):
            for k, v in (macros or {}).items():
                pattern = pattern.replace("{" + k + "}", "(" + v + ")")
        self.eps, self.arcs = {}, {}
        self.n = 0
        self.pat, self.i = pattern, 0
        s, e = self.alt()
        assert self.i == len(pattern), pattern[self.i:]
        self.end = e
        self.start = self.close({s})

    def new(self):
        self.n += 1
        return self.n

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def alt(self):
        s, e = self.new(), self.new()
        while True:
            a, b = self.seq()
            self.e(s, a)
            self.e(b, e)
            if self.i < len(self.pat) and self.pat[self.i] == "|":
                self.i += 1
                continue
            return s, e

    def seq(self):
        s = self.new()
        cur = s
        while self.i < len(self.pat) and self.pat[self.i] not in "|)":
            a, b = self.atom()
            while self.i < len(self.pat) and self.pat[self.i] in "*+?":
                op = self.pat[self.i]
                self.i += 1
                x, y = self.new(), self.new()
                self.e(x, a)
                self.e(b, y)
                if op in "*?":
                    self.e(x, y)
                if op in "*+":
                    self.e(b, a)
                a, b = x, y
            self.e(cur, a)
            cur = b
        return s, cur

    def atom(self):
        ch = self.pat[self.i]
        self.i += 1
        if ch == "(":
            r = self.alt()
            assert self.pat[self.i] == ")"
            self.i += 1
            return r
        neg, cs = False, ch
        if ch == "[":
            if self.pat[self.i] == "^":
                neg = True
                self.i += 1
            cs = []
            while self.pat[self.i] != "]":
                c = self.pat[self.i]
                if c == "\\":
                    self.i += 1
                    c = self.pat[self.i]
                self.i += 1
                if self.pat[self.i] == "-" and self.pat[self.i + 1] != "]":
                    cs += [chr(x) for x in range(ord(c), ord(self.pat[self.i + 1]) + 1)]
                    self.i += 2
                else:
                    cs.append(c)
            self.i += 1
        elif ch == "\\":
            cs = self.pat[self.i]
            self.i += 1
        a, b = self.new(), self.new()
        self.arcs.setdefault(a, []).append((neg, frozenset(cs), b))
        return a, b

    def close(self, states):
        out, todo = set(states), list(states)
        while todo:
            x = todo.pop()
            for y in self.eps.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def step(self, states, ch):
        out = set()
        for x in states:
            for neg, cs, b in self.arcs.get(x, ()):
                if (ch in cs) != neg:
                    out.add(b)
        return self.close(out)

    def ok(self, states):
        return self.end in states


def template(bs):
    """the pieces of a compiled format string: strings and None for placeholders; None if it uses options"""
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf-8", "replace"))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode("utf-8", "replace"))
            i += n
        elif b == 0xC0:
            out.append(None)
        else:
            return None
    return out


def pieces(bs):
    """the pieces of a compiled format string: strings, and the argument index of each placeholder"""
    out, i, arg = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf-8", "replace"))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode("utf-8", "replace"))
            i += n
        else:
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                arg = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(arg)
            arg += 1
    return out
