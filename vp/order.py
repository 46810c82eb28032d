"""Difference-bound reasoning over the terms and branch facts of one abstract path (a zone domain with min and max)."""
from .mir import mk, INT, last

INF = float("inf")


def strip(v):
    """the number inside one-field wrappers such as Var(LimitedU32(n)); references to plain values are looked through"""
    while True:
        if v.t == "ADT" and len(v.a[3]) == 1 and v.a[0].split("::")[-1] not in ("Option", "Result"):
            v = v.a[3][0]
        elif v.t == "OBJ":
            if len(v.a[1]) == 1:
                v = v.a[1][0][1]
            else:
                return v
        elif v.t == "FLD" and v.a[1][0] is None and v.a[1][2] in ("idx", "0") and not (v.a[0].t == "DEREF"):
            v = v.a[0]
        elif v.t == "PURE" and v.a[0] in ("clone", "copied", "from", "into", "idx32", "idx") and len(v.a[1]) == 1:
            v = v.a[1][0]
        elif v.t == "CAST":
            w = [x for x in v.a if hasattr(x, "t")]
            if len(w) != 1:
                return v
            v = w[0]
        else:
            return v


def lin(v):
    """(base term, constant); base None for a number"""
    v = strip(v)
    if v.t == "INT":
        return None, v.a[0]
    if v.t == "BIN" and v.a[0] in ("Add", "Sub"):
        b0, c0 = lin(v.a[1])
        b1, c1 = lin(v.a[2])
        if b1 is None:
            return b0, c0 + (c1 if v.a[0] == "Add" else -c1)
        if b0 is None and v.a[0] == "Add":
            return b1, c0 + c1
    if v.t == "FLD" and v.a[1][2] == 0 and v.a[0].t == "BIN" and v.a[0].a[0].endswith("WithOverflow"):
        return lin(mk("BIN", v.a[0].a[0][:-12], v.a[0].a[1], v.a[0].a[2]))
    return v, 0


def minmax(v):
    if v is not None and v.t in ("PURE", "CALL"):
        n = last(str(v.a[0] if v.t == "PURE" else v.a[1] or ""))
        args = v.a[1] if v.t == "PURE" else v.a[2:]
        if n in ("min", "max") and len(args) == 2:
            return n, args[0], args[1]
    return None


class Zone:
    """x - y <= c constraints from the facts of a state"""

    def __init__(self, facts=()):
        self.e = {}
        self.nodes = set()
        self.ne = set()
        for f, x in (facts.items() if hasattr(facts, "items") else facts):
            self.fact(f, x)
        self.close()

    def add(self, a, b, c):
        """a <= b + c"""
        (x, i), (y, j) = lin(a), lin(b)
        c = c + j - i
        if x is y:
            return
        for v in (x, y):
            self.node(v)
        if self.e.get((x, y), INF) > c:
            self.e[(x, y)] = c

    def node(self, v):
        if v in self.nodes:
            return
        self.nodes.add(v)
        m = minmax(v)
        if m:
            for w in m[1:]:
                if m[0] == "max":
                    self.add(w, v, 0)
                else:
                    self.add(v, w, 0)

    def fact(self, f, x):
        val = None
        if x[0] == "=":
            val = x[1]
        elif x[0] == "!" and f.t == "BIN" and f.a[0] in ("Lt", "Le", "Eq"):
            val = 1 if 0 in x[1] else 0 if 1 in x[1] else None
        if f.t == "NOT" and val in (0, 1):
            return self.fact(f.a[0], ("=", 1 - val))
        if f.t == "BIN" and val in (0, 1):
            op, a, b = f.a[:3]
            if op == "Lt":
                self.add(a, b, -1) if val else self.add(b, a, 0)
            elif op == "Le":
                self.add(a, b, 0) if val else self.add(b, a, -1)
            elif op == "Eq" and val:
                self.add(a, b, 0)
                self.add(b, a, 0)
            elif op == "Eq":
                self.ne.add((a, b))
        elif x[0] == "!" and 0 in x[1] and f.t not in ("BIN", "DISCR", "NOT"):
            self.add(INT(1), f, 0)
        elif x[0] == "=" and isinstance(x[1], int) and f.t not in ("BIN", "DISCR", "NOT"):
            self.add(f, INT(x[1]), 0)
            self.add(INT(x[1]), f, 0)

    def close(self):
        for _ in range(3):
            for a, b in self.ne:
                for u, v in ((a, b), (b, a)):
                    if self.le(u, v):
                        self.add(u, v, -1)
            ns = list(self.nodes)
            for k in ns:
                for i in ns:
                    d = self.e.get((i, k))
                    if d is None:
                        continue
                    for j in ns:
                        f = self.e.get((k, j))
                        if f is not None and i is not j and self.e.get((i, j), INF) > d + f:
                            self.e[(i, j)] = d + f

    def le(self, a, b, c=0, d=0):
        """a <= b + c is certain"""
        (x, i), (y, j) = lin(a), lin(b)
        if x is y:
            return i <= j + c
        if x is None and i <= j + c and y is not None and j >= 0:
            return True     # numbers are unsigned here
        if self.e.get((x, y), INF) <= c + j - i:
            return True
        if d > 4:
            return False
        m = minmax(x)
        if m:
            w = [self.le(v, b, c - i, d + 1) for v in m[1:]]
            if all(w) or (m[0] == "min" and any(w)):
                return True
        m = minmax(y)
        if m:
            w = [self.le(a, v, c + j, d + 1) for v in m[1:]]
            if all(w) or (m[0] == "max" and any(w)):
                return True
        for k in list(self.nodes):
            f = self.e.get((x, k))
            if f is not None and minmax(k) and k is not x and d < 2:
                if self.le(mk("BIN", "Add", k, INT(f)) if f > 0 else k, b, c - i - (0 if f > 0 else f), d + 1):
                    return True
        return False

    def eq(self, a, b, c=0):
        return self.le(a, b, c) and self.le(b, a, -c)

    def lt(self, a, b):
        return self.le(a, b, -1)
