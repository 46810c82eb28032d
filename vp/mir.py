"""Disjunctive (path-sensitive) abstract interpretation of MIR.

Abstract values are provenance terms (what was computed from what); the abstract state is a
store, the branch facts known on the path, and a property-specific observer state.  States that
agree are merged, loops run to a fixpoint; no solver and no concrete execution is involved.
"""
import re
import sys

sys.setrecursionlimit(20000)

MAXDEPTH = 12


class V:
    __slots__ = ("t", "a", "depth", "sites", "h", "clos")

    def __repr__(self):
        return show(self)


_tab = {}
EMPTY = frozenset()


def mk(t, *a):
    k = (t, a)
    v = _tab.get(k)
    if v is not None:
        return v
    v = V()
    v.t = t
    v.a = a
    d = 0
    s = set()
    c = set()
    if t in ("CALL", "ELEM", "HAV", "SITE", "TOP", "OLD"):
        s.add(a[0])
    if t == "CLO":
        c.add(v)
    for x in _flat(a):
        if x.depth >= d:
            d = x.depth + 1
        if x.sites:
            s |= x.sites
        if x.clos:
            c |= x.clos
    v.depth = d
    v.sites = frozenset(s) if s else EMPTY
    v.clos = frozenset(c) if c else EMPTY
    v.h = hash(k)
    _tab[k] = v
    return v


def _flat(a):
    for x in a:
        if isinstance(x, V):
            yield x
        elif isinstance(x, tuple):
            yield from _flat(x)


def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return "(" + ",".join(show(x, d) for x in v) + ")"
        return str(v)
    if d > 7:
        return "…"
    t, a = v.t, v.a
    n = d + 1
    if t == "INT":
        return str(a[0])
    if t == "STR":
        return repr(a[0])
    if t == "ADT":
        return f"{a[0].split('::')[-1]}::{a[2]}(" + ",".join(show(x, n) for x in a[3]) + ")"
    if t == "FLD":
        return f"{show(a[0], n)}.{a[1][0] + '.' if a[1][0] else ''}{a[1][2]}"
    if t == "REF":
        return "&" + show(a[0], n) + "".join("." + str(k[2] if len(k) > 2 else k) for k in a[1])
    if t == "CALL":
        return f"{short(a[1])}({','.join(show(x, n) for x in a[2:])})"
    if t == "ARG":
        return f"arg:{a[0]}"
    if t == "L":
        return f"local{a[1]}"
    if t == "M":
        return "*" + show(a[0], n)
    if t == "BIN":
        return f"({show(a[1], n)} {a[0]} {show(a[2], n)})"
    return f"{t}({','.join(show(x, n) for x in a)})"


def short(p):
    p = re.sub(r"<impl ([^>]*)>", r"\1", p)
    ps = re.split(r"::(?![^<]*>)", p)
    return "::".join(ps[-2:])


def INT(n):
    return mk("INT", int(n))


UNIT = mk("TUP", ())
TRUE = INT(1)
FALSE = INT(0)

RESULT = "core::result::Result"
OPTION = "core::option::Option"
CFLOW = "core::ops::control_flow::ControlFlow"


def ADT(key, idx, name, fields=()):
    return mk("ADT", key, idx, name, tuple(fields))


def Ok(v):
    return ADT(RESULT, 0, "Ok", (v,))


def Err(v):
    return ADT(RESULT, 1, "Err", (v,))


def Some(v):
    return ADT(OPTION, 1, "Some", (v,))


NONE = ADT(OPTION, 0, "None")


class State:
    __slots__ = ("store", "facts", "obs")

    def __init__(self, store, facts, obs):
        self.store = store
        self.facts = facts
        self.obs = obs

    def copy(self):
        return State(dict(self.store), dict(self.facts), self.obs)

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), self.obs)


class Call:
    __slots__ = ("fn", "bb", "f", "args", "argt", "dest", "dty", "sp", "key", "p", "rp", "ctx",
                 "site", "name", "fnv", "subst", "depth")

    @property
    def where(self):
        return f"{self.sp[0]}:{self.sp[1]}"

    @property
    def macros(self):
        return self.sp[2]


class Budget(Exception):
    pass


class Client:
    """Hooks of a property-specific analysis."""
    recurse = 0     # how often a function may be entered again from within itself
    max_depth = 8
    max_states = 6000
    widen_after = 24        # visits of a block in a loop before numbers that keep changing become unknown
    widen_int = 16
    gc = False
    dropped = False
    fold = False            # fold divisions and shifts of known integers

    def param(self, name):
        """the value of a constant parameter"""
        return None

    block_cap = 0           # visits of a block after which further states are dropped (bounded exploration)

    def inline(self, eng, key, fn, call, st):
        return True

    def on_call(self, eng, st, call):
        """May change st.obs and return None, or return a list of (value, State)."""
        return None

    def on_write(self, eng, st, root, path, val, where):
        pass

    def on_drop(self, eng, st, val, ty, fn, bb):
        pass

    def on_assert(self, eng, st, kind, fn, bb, vals):
        pass

    def on_diverge(self, eng, st, call):
        pass

    def on_return(self, eng, st, fn, ret, depth):
        pass

    def on_iter(self, eng, st, it, kind, call):
        """an iterator yields an element (kind elem) or is exhausted (kind end)"""

    def hav_val(self, eng, st, old, c, i):
        """the value of something modified by an opaque call, if the client has its own"""
        return None

    lists = False           # follow lists of known length concretely (lists.py)
    release = False         # analyse the code as built without debug assertions and overflow checks

    def on_agg(self, eng, st, key, ops, fn, bb):
        """a value of a watched type is put together"""

    def on_site(self, eng, st, site):
        """a call site is about to be executed (facts about its previous results go away)"""


LAZY = {"map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "map_while", "scan",
        "inspect", "chain", "zip", "enumerate", "rev", "skip", "take", "copied", "cloned", "peekable",
        "step_by", "cycle", "flatten", "into_iter", "iter", "by_ref", "fuse", "iter_mut"}
PURE = {"len", "is_empty", "is_some", "is_none", "is_ok", "is_err", "contains_key", "is_null",
        "size_hint", "n_lits", "n_clauses", "n_vars", "max_var", "weight_sum", "starts_with",
        "is_positive", "is_negative", "get", "min", "max", "contains", "unsigned_abs", "n_used"}


def last(p):
    return p.rsplit("::", 1)[-1]


class Engine:
    Budget = Budget

    def __init__(self, facts, client):
        self.F = facts
        self.watch = getattr(client, "watch", None)
        self.c = client
        self._live = {}
        self._loops = {}
        self.nstates = 0
        self.analysed = set()
        self.callsites = 0
        self.div = []
        self.unresolved = {}

    # ---------------------------------------------------------------- places
    def loc(self, st, fn, ctx, place):
        root = mk("L", ctx, place[0])
        path = ()
        var = None
        for el in place[1]:
            if el == "*":
                v = self.read(st, root, path)
                root, path = self.target(v)
                var = None
            elif el[0] == "f":
                path = path + ((var, el[1], el[2]),)
                var = None
            elif el[0] == "v":
                var = el[2] or str(el[1])
            elif el[0] == "i":
                iv = self.read(st, mk("L", ctx, el[1]), ())
                path = path + (("[]", iv, "[]"),)
            elif el[0] == "ci":
                path = path + (("[]", INT(el[1] if not el[2] else -el[1]), "[]"),)
            else:
                path = path + (("sub", 0, "sub"),)
        return root, path

    def target(self, v):
        """the location a pointer value designates"""
        if v.t == "REF":
            return v.a[0], v.a[1]
        return mk("M", v), ()

    def read(self, st, root, path):
        v = st.store.get(root)
        if v is None:
            if root.t == "M":
                v = root.a[0].a[0] if root.a[0].t == "BOXED" else mk("DEREF", root.a[0])
            else:
                v = mk("UNINIT", root.a[1] if root.t == "L" else 0)
        for k in path:
            v = self.field(st, v, k)
        return v

    def field(self, st, v, k):
        t = v.t
        if t == "ADT":
            fs = v.a[3]
            if k[0] not in (None, "[]", "sub") and v.a[2] != k[0]:
                return mk("BAD")
            if isinstance(k[1], int) and k[1] < len(fs):
                return fs[k[1]]
        elif t in ("TUP",):
            if isinstance(k[1], int) and k[1] < len(v.a[0]):
                return v.a[0][k[1]]
        elif t == "CLO":
            if isinstance(k[1], int) and k[1] < len(v.a[1]):
                return v.a[1][k[1]]
        elif t == "BOXED" and v.a[0].t == "TUP" and isinstance(k[1], int) and k[1] < len(v.a[0].a[0]):
            return mk("BOXED", v.a[0].a[0][k[1]])       # the entries of a map, visited by reference, are pairs of references
        elif t in ("ARR", "LIST"):
            if k[0] == "[]" and isinstance(k[1], V) and k[1].t == "INT" and -len(v.a[0]) <= k[1].a[0] < len(v.a[0]):
                return v.a[0][k[1].a[0]]
            if t == "LIST" and k[0] is None and k[1] == 0 and isinstance(k[2], str) and not k[2].isdigit():
                return v        # a list that was collected into a type around a vector
            return mk("IDX", v, k[1] if isinstance(k[1], V) else INT(0))
        elif t == "OBJ":
            for kk, vv in v.a[1]:
                if kk == k or (kk[1:] == k[1:] and kk[0] in (None, k[0])):
                    return vv
            return self.field(st, v.a[0], k)
        elif t == "REF":
            return v
        elif t == "BIN" and v.a[0].endswith("WithOverflow"):
            if k[1] == 0:
                return self.bin(st, v.a[0][:-12], v.a[1], v.a[2])
            return mk("OVF", v)
        if k[0] == "[]":
            return self.cap(mk("IDX", v, k[1]))
        return self.cap(mk("FLD", v, k))

    def cap(self, v):
        if v.depth > MAXDEPTH:
            return mk("DEEP", v.t, tuple(sorted(v.sites, key=id)) and None)
        return v

    def write(self, st, root, path, val, where=None):
        if not path:
            st.store[root] = val
        else:
            old = st.store.get(root)
            if old is None:
                old = mk("DEREF", root.a[0]) if root.t == "M" else mk("UNINIT", root.a[1])
            st.store[root] = self.upd(st, old, path, val)
        self.c.on_write(self, st, root, path, val, where)

    def upd(self, st, v, path, val):
        if not path:
            return val
        k = path[0]
        sub = self.upd(st, self.field(st, v, k), path[1:], val)
        if k[0] == "[]" and v.t in ("LIST", "ARR") and isinstance(k[1], V) and k[1].t == "INT" and 0 <= k[1].a[0] < len(v.a[0]):
            xs = list(v.a[0])
            xs[k[1].a[0]] = sub
            return mk(v.t, tuple(xs))
        if v.t == "LIST" and sub.t == "LIST" and k[0] is None and k[1] == 0:
            return sub
        if k[0] in ("[]", "sub"):
            return self.cap(mk("UPD", v, sub)) if v.depth < 6 else mk("UPD", mk("SOME"), sub)
        if v.t == "ADT" and isinstance(k[1], int) and k[1] < len(v.a[3]) and k[0] in (None, v.a[2]):
            fs = list(v.a[3])
            fs[k[1]] = sub
            return mk("ADT", v.a[0], v.a[1], v.a[2], tuple(fs))
        if v.t == "TUP" and k[1] < len(v.a[0]):
            fs = list(v.a[0])
            fs[k[1]] = sub
            return mk("TUP", tuple(fs))
        if v.t == "CLO" and k[1] < len(v.a[1]):
            fs = list(v.a[1])
            fs[k[1]] = sub
            return mk("CLO", v.a[0], tuple(fs))
        if v.t == "REF":
            return v
        if v.t == "OBJ":
            base = v.a[0]
            items = [(kk, vv) for kk, vv in v.a[1] if kk != k]
        else:
            base = v
            items = []
        items.append((k, sub))
        items.sort(key=lambda x: (str(x[0][0]), x[0][1]))
        return mk("OBJ", base, tuple(items))

    # ---------------------------------------------------------------- values
    def const(self, st, fn, ctx, o, subst):
        val = o[2]
        k = val[0]
        named = o[3]
        if k == "i":
            return mk("INT", val[1])
        if k == "ri":
            m = mk("M", mk("CREF", val[1]))
            st.store[m] = mk("INT", val[1])
            return mk("REF", m, ())
        if k == "ai":
            return mk("CADT", o[1] and fn["tys"][o[1]]["s"], val[1], named)
        if k == "s":
            return mk("STR", val[1])
        if k == "b":
            return mk("BYTES", tuple(val[1]))
        if k == "z":
            t = fn["tys"][o[1]]
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return mk("CLO", t["d"], ())
            if t["k"] == "adt":
                return mk("ZST", t["d"])
            return mk("ZST", t["s"])
        if k == "fn":
            f = val[1]
            return mk("FN", f.get("r") or f["d"], f["p"])
        if k == "prom":
            r = self.promoted(st, fn, ctx, val[1], subst)
            if r is not None:
                return r
        if k == "refs":
            return mk("REFS", tuple(x[1] if x[0] == "s" else tuple(x[1]) for x in val[1]), named)
        if named:
            return mk("NAMED", named)
        if k == "static":
            return mk("STATIC", val[1])
        if k == "param":
            v = self.c.param(val[1])
            if v is not None:
                return v
        return mk("CONST", fn["tys"][o[1]]["s"], str(val))

    def promoted(self, st, fn, ctx, i, subst):
        pb = fn.get("prom") or []
        if i >= len(pb):
            return None
        body = pb[i]
        pctx = mk("CTX", ctx, fn["key"], -1 - i)
        if len(body["blocks"]) > 4:
            return mk("PROM", fn["key"], i)
        f2 = {"tys": fn["tys"], "key": fn["key"] + f"#p{i}", "locals": body["locals"],
              "blocks": body["blocks"], "prom": fn.get("prom"), "crate": fn["crate"], "sp": fn["sp"]}
        bb = 0
        steps = 0
        while steps < 8:
            steps += 1
            b = body["blocks"][bb]
            for s in b["s"]:
                self.stmt(st, f2, pctx, s, subst, bb)
            t = b["t"]
            if t[0] == "return":
                return st.store.get(mk("L", pctx, 0))
            if t[0] == "goto":
                bb = t[1]
            elif t[0] == "assert":
                bb = t[4]
            elif t[0] == "call" and t[4] is not None:
                args = [self.operand(st, f2, pctx, a, subst) for a in t[2]]
                nm = t[1].get("rp") or t[1].get("p") or "?"
                root, path = self.loc(st, f2, pctx, t[3])
                self.write(st, root, path, mk("PCALL", nm, tuple(args)))
                bb = t[4]
            else:
                return mk("PROM", fn["key"], i)
        return mk("PROM", fn["key"], i)

    def operand(self, st, fn, ctx, o, subst):
        if o[0] in ("cp", "mv"):
            root, path = self.loc(st, fn, ctx, o[1])
            return self.read(st, root, path)
        if o[0] == "c":
            return self.const(st, fn, ctx, o, subst)
        return mk("RTCHECK")

    def discr(self, st, v):
        if v.t == "ADT":
            a = self.F.adts.get(v.a[0])
            if a and a["k"] == "enum":
                return INT(a["vs"][v.a[1]][1])
            if v.a[0] == "core::cmp::Ordering":
                return INT(v.a[1] - 1)
            return INT(v.a[1])
        if v.t == "OBJ":
            return mk("DISCR", v.a[0]) if v.a[0].t != "ADT" else self.discr(st, v.a[0])
        if v.t == "CADT":
            return INT(v.a[1])
        return mk("DISCR", v)

    def bin(self, st, op, a, b):
        if op.endswith("WithOverflow"):
            return mk("TUP", (self.bin(st, op[:-12], a, b), mk("OVF", op[:-12], a, b)))
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op == "Gt":
            op, a, b = "Lt", b, a
        elif op == "Ge":
            op, a, b = "Le", b, a
        elif op == "Ne":
            return self.neg(self.bin(st, "Eq", a, b))
        a = self.conc(st, a)
        b = self.conc(st, b)
        if op == "Eq":
            if a is b and a.t != "CONST":
                return TRUE
            if a.t == "INT" and b.t == "INT":
                return INT(a.a[0] == b.a[0])
            if a.t == "INT" or (b.t != "INT" and id(a) > id(b)):
                a, b = b, a
            if b.t == "INT":
                f = st.facts.get(a)
                if f and f[0] == "!" and b.a[0] in f[1]:
                    return FALSE
            return self.cap(mk("BIN", "Eq", a, b))
        if a.t == "INT" and b.t == "INT":
            x, y = a.a[0], b.a[0]
            if op == "Lt":
                return INT(x < y)
            if op == "Le":
                return INT(x <= y)
            if op == "Add":
                return INT(x + y)
            if op == "Sub" and x >= y:
                return INT(x - y)
            if op == "Mul":
                return INT(x * y)
            if op == "BitAnd":
                return INT(x & y)
            if op == "BitOr":
                return INT(x | y)
            if self.c.fold and x >= 0:
                if op == "BitXor" and y >= 0:
                    return INT(x ^ y)
                if op in ("Div", "Rem") and y > 0:
                    return INT(x // y if op == "Div" else x % y)
                if op == "Shr" and 0 <= y < 8:
                    return INT(x >> y)
                if op == "Shl" and 0 <= y < 8 and x << y < 128:
                    return INT(x << y)
        if op in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if x.t == "INT" and x.a[0] == 0:
                    return FALSE if op == "BitAnd" else y
        return self.cap(mk("BIN", op, a, b))

    def neg(self, v):
        if v.t == "INT":
            return INT(1 - v.a[0])
        if v.t == "NOT":
            return v.a[0]
        return mk("NOT", v)

    def conc(self, st, v):
        f = st.facts.get(v)
        if f and f[0] == "=":
            return INT(f[1])
        return v

    # ---------------------------------------------------------------- facts
    def assume(self, st, v, val):
        """v == val; False if contradictory"""
        if v.t == "INT":
            return v.a[0] == val
        if v.t == "NOT":
            return self.assume(st, v.a[0], 1 - val) if val in (0, 1) else False
        f = st.facts.get(v)
        if f:
            if f[0] == "=":
                return f[1] == val
            if val in f[1]:
                return False
        if v.t == "BIN" and v.a[0] == "Eq" and v.a[2].t == "INT":
            ok = self.assume(st, v.a[1], v.a[2].a[0]) if val == 1 else self.assume_not(
                st, v.a[1], {v.a[2].a[0]})
            if not ok:
                return False
        if v.t == "BIN" and v.a[0] == "BitAnd" and val == 1 and v.a[1].t != "INT" and v.a[2].t != "INT":
            if not (self.assume(st, v.a[1], 1) and self.assume(st, v.a[2], 1)):
                return False
        if v.t == "BIN" and v.a[0] == "BitOr" and val == 0:
            if not (self.assume(st, v.a[1], 0) and self.assume(st, v.a[2], 0)):
                return False
        if v.t == "BIN" and v.a[0] in ("Lt", "Le") and val in (0, 1):
            if not self.order_ok(st, v, val):
                return False
        st.facts[v] = ("=", val)
        return True

    def order_ok(self, st, v, val):
        op, a, b = v.a
        # not both a<b and b<=a
        if op == "Lt":
            o = st.facts.get(mk("BIN", "Le", b, a))
            e = st.facts.get(mk("BIN", "Lt", b, a))
        else:
            o = st.facts.get(mk("BIN", "Lt", b, a))
            e = None
        if o and o[0] == "=" and o[1] == val:
            return False
        if e and e[0] == "=" and e[1] == 1 and val == 1:
            return False
        return True

    def assume_not(self, st, v, vals):
        if v.t == "INT":
            return v.a[0] not in vals
        if v.t == "NOT":
            return self.assume_not(st, v.a[0], {1 - x for x in vals})
        f = st.facts.get(v)
        if f:
            if f[0] == "=":
                return f[1] not in vals
            vals = set(vals) | f[1]
        if v.t in ("BIN",) and v.a[0] in ("Eq", "Lt", "Le"):
            if 0 in vals and 1 not in vals:
                return self.assume(st, v, 1)
            if 1 in vals and 0 not in vals:
                return self.assume(st, v, 0)
        st.facts[v] = ("!", frozenset(vals))
        return True

    def fact(self, st, v):
        if v.t == "INT":
            return v.a[0]
        if v.t == "NOT":
            x = self.fact(st, v.a[0])
            return None if x is None else 1 - x
        f = st.facts.get(v)
        if f and f[0] == "=":
            return f[1]
        return None

    # ---------------------------------------------------------------- statements
    def stmt(self, st, fn, ctx, s, subst, bb):
        k = s[0]
        if k == "=":
            val = self.rvalue(st, fn, ctx, s[2], subst, bb, s[1])
            root, path = self.loc(st, fn, ctx, s[1])
            self.write(st, root, path, val, (fn, bb, s[3]))
        elif k == "dead":
            st.store.pop(mk("L", ctx, s[1]), None)
        elif k == "sd":
            root, path = self.loc(st, fn, ctx, s[1])
            t = fn["tys"][s[1][2]]
            a = self.F.adts.get(t.get("d"))
            nm = a["vs"][s[2]][0] if a else str(s[2])
            self.write(st, root, path, ADT(t.get("d", "?"), s[2], nm), (fn, bb, 0))

    def rvalue(self, st, fn, ctx, r, subst, bb, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fn, ctx, r[1], subst)
        if k in ("ref", "addr"):
            root, path = self.loc(st, fn, ctx, r[2])
            return self.mkref(st, root, path)
        if k == "discr":
            root, path = self.loc(st, fn, ctx, r[1])
            return self.discr(st, self.read(st, root, path))
        if k == "bin":
            return self.bin(st, r[1], self.operand(st, fn, ctx, r[2], subst),
                            self.operand(st, fn, ctx, r[3], subst))
        if k == "un":
            x = self.operand(st, fn, ctx, r[2], subst)
            if r[1] == "Not":
                dt = fn["tys"][dest[2]]
                if dt["k"] == "bool":
                    return self.neg(x)
            if r[1] == "Neg" and x.t == "INT":
                return INT(-x.a[0])
            if r[1] == "PtrMetadata":
                y = self.at(st, x)
                return INT(len(y.a[0])) if y.t == "LIST" else mk("LEN", y)
            return self.cap(mk("UN", r[1], x))
        if k == "cast":
            x = self.operand(st, fn, ctx, r[2], subst)
            ck = r[1]
            tt = fn["tys"][r[3]]
            if ck in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                if x.t == "INT":
                    return x
                return self.cap(mk("CAST", ck, x, tt["s"]))
            if ck.startswith("coerce:ClosureFnPointer") or ck.startswith("coerce:ReifyFnPointer"):
                return x
            return x
        if k == "agg":
            ops = tuple(self.operand(st, fn, ctx, o, subst) for o in r[2])
            kk = r[1]
            if kk[0] == "tuple":
                return mk("TUP", ops)
            if kk[0] == "array":
                return mk("ARR", ops)
            if kk[0] == "adt":
                if self.watch and kk[1] in self.watch:
                    self.c.on_agg(self, st, kk[1], ops, fn, bb)
                return self.cap(mk("ADT", kk[1], kk[2], kk[3], ops))
            if kk[0] == "closure":
                return mk("CLO", kk[1], ops)
            return mk("AGG", ops)
        if k == "rep":
            return mk("REP", self.operand(st, fn, ctx, r[1], subst), r[2])
        return mk("OTHER", k)

    def mkref(self, st, root, path):
        # &*p is p itself
        if root.t == "M" and not path and root.a[0].t != "REF" and root not in st.store:
            return root.a[0]
        return mk("REF", root, path)

    def at(self, st, v):
        """value behind a reference value"""
        root, path = self.target(v)
        return self.read(st, root, path)

    def strip(self, st, v):
        """follow references to the value"""
        n = 0
        while v.t == "REF" and n < 8:
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        return v

    # ---------------------------------------------------------------- liveness
    def liveness(self, fn):
        k = fn["key"]
        if k in self._live:
            return self._live[k]
        blocks = fn["blocks"]
        n = len(blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        taken = set()
        succ = [[] for _ in range(n)]

        def pu(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def ou(o, u, d):
            if o[0] in ("cp", "mv"):
                pu(o[1], u, d)

        def pd(p, u, d):
            if p[1]:
                pu(p, u, d)
            else:
                d.add(p[0])

        for i, b in enumerate(blocks):
            u, d = use[i], dfn[i]
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("ref", "addr"):
                        pu(r[2], u, d)
                        if "*" not in r[2][1]:
                            taken.add(r[2][0])
                    elif r[0] == "discr":
                        pu(r[1], u, d)
                    elif r[0] == "agg":
                        for o in r[2]:
                            ou(o, u, d)
                    else:
                        for o in r[1:]:
                            if isinstance(o, list) and o and o[0] in ("cp", "mv"):
                                ou(o, u, d)
                    pd(s[1], u, d)
                elif s[0] == "sd":
                    pu(s[1], u, d)
            t = b["t"]
            if t[0] == "switch":
                ou(t[1], u, d)
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == "goto":
                succ[i] = [t[1]]
            elif t[0] == "drop":
                pu(t[1], u, d)
                succ[i] = [t[2]]
            elif t[0] == "assert":
                ou(t[1], u, d)
                for o in t[3][1:]:
                    if isinstance(o, list):
                        ou(o, u, d)
                succ[i] = [t[4]]
            elif t[0] == "call":
                if "ptr" in t[1]:
                    ou(t[1]["ptr"], u, d)
                for o in t[2]:
                    ou(o, u, d)
                pd(t[3], u, d)
                if t[4] is not None:
                    succ[i] = [t[4]]
            elif t[0] == "return":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                x = use[i] | (o - dfn[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        self._live[k] = (live, taken)
        return self._live[k]

    def prune(self, st, fn, ctx, bb):
        live, taken = self.liveness(fn)
        lv = live[bb]
        for r in list(st.store):
            if r.t == "L" and r.a[0] is ctx and r.a[1] not in lv and r.a[1] not in taken:
                del st.store[r]
        # drop facts about call results nothing refers to any more
        sites = set()
        for r, v in st.store.items():
            sites |= v.sites
            sites |= r.sites
        sites |= obs_sites(st.obs)
        for f in list(st.facts):
            if f.sites and not f.sites <= sites:
                del st.facts[f]
                if self.c.dropped:
                    # whether this path is taken depends on something that has been forgotten
                    st.facts[mk("DROPPED")] = ("=", 1)

    # ---------------------------------------------------------------- functions
    def run(self, key, obs=(), args=None, facts=None, store=None, subst=None):
        fn = self.F.fns[key]
        ctx = mk("CTX0", key)
        st = State(dict(store or {}), dict(facts or {}), obs)
        if args is None:
            args = self.default_args(fn)
        self.nstates = 0
        return self.body(fn, ctx, args, st, subst or {}, 0, ())

    def default_args(self, fn):
        names = {}
        for n, p in fn["vars"]:
            if not p[1] and 1 <= p[0] <= fn["nargs"] and p[0] not in names:
                names[p[0]] = n
        return [mk("ARG", names.get(i, f"#{i}")) for i in range(1, fn["nargs"] + 1)]

    def body(self, fn, ctx, args, st, subst, depth, stack):
        """analyse a body; returns list of (ret, State)"""
        self.analysed.add(fn["key"])
        st = st.copy()
        for i, a in enumerate(args):
            st.store[mk("L", ctx, i + 1)] = a
        seen = {}
        work = [(0, st)]
        outs = {}
        blocks = fn["blocks"]
        visits = {}
        ints = {}
        while work:
            bb, st = work.pop()
            # straight-line execution without merging through gotos
            while True:
                self.prune(st, fn, ctx, bb)
                nv = visits[bb] = visits.get(bb, 0) + 1
                if nv > self.c.widen_after and bb in self.loopblocks(fn):
                    self.widen(st, ctx, fn, bb, ints)
                if self.c.block_cap and nv > self.c.block_cap:
                    self.capped = True
                    break
                k = (bb, st.key())
                if k in seen:
                    break
                seen[k] = 1
                self.nstates += 1
                if self.nstates > self.c.max_states:
                    raise Budget(fn["p"])
                b = blocks[bb]
                for s in b["s"]:
                    self.stmt(st, fn, ctx, s, subst, bb)
                t = b["t"]
                k = t[0]
                if k == "goto":
                    bb = t[1]
                    continue
                if k == "return":
                    ret = st.store.get(mk("L", ctx, 0), UNIT)
                    for r in [r for r in st.store if r.t == "L" and r.a[0] is ctx]:
                        del st.store[r]
                    self.c.on_return(self, st, fn, ret, depth)
                    kk = (ret, st.key())
                    if kk not in outs:
                        outs[kk] = (ret, st)
                    break
                if k == "switch":
                    v = self.operand(st, fn, ctx, t[1], subst)
                    v = self.conc(st, v)
                    if self.c.release and v.t == "INT" and t[1][0] != "c" and any("debug_assert" in m for m in b["sp"][2]) and any("cfg" in m for m in b["sp"][2]):
                        v = INT(0)
                    nxt = []
                    for val, tgt in t[2]:
                        s2 = st.copy()
                        if self.assume(s2, v, val):
                            nxt.append((tgt, s2))
                    s2 = st.copy()
                    dt = None
                    if t[1][0] in ("cp", "mv"):
                        dt = fn["tys"][t[1][1][2]]["k"]
                    if dt == "bool" and len(t[2]) == 1:
                        if self.assume(s2, v, 1 - t[2][0][0]):
                            nxt.append((t[3], s2))
                    elif self.assume_not(s2, v, {x[0] for x in t[2]}):
                        nxt.append((t[3], s2))
                    nxt = [x for x in nxt if blocks[x[0]]["t"][0] != "unreachable"]
                    for x in nxt:
                        work.append(x)
                    break
                if k == "drop":
                    root, path = self.loc(st, fn, ctx, t[1])
                    v = self.read(st, root, path)
                    res = self.c.on_drop(self, st, v, fn["tys"][t[1][2]], fn, bb)
                    if res is not None:
                        for s2 in res:
                            work.append((t[2], s2))
                        break
                    bb = t[2]
                    continue
                if k == "assert" and self.c.release and t[3][0].startswith("overflow"):
                    bb = t[4]
                    continue
                if k == "assert":
                    vals = [self.operand(st, fn, ctx, o, subst) for o in t[3][1:] if isinstance(o, list)]
                    self.c.on_assert(self, st, t[3], fn, bb, vals)
                    c = self.operand(st, fn, ctx, t[1], subst)
                    if c.t in ("INT", "NOT", "BIN"):
                        if not self.assume(st, c, t[2]):
                            break
                    bb = t[4]
                    continue
                if k == "call":
                    for tgt, s2 in self.do_call(fn, ctx, bb, b, t, st, subst, depth, stack):
                        work.append((tgt, s2))
                    break
                break
        return list(outs.values())

    def loopblocks(self, fn):
        r = self._loops.get(fn["key"])
        if r is None:
            succ = [succs(b["t"]) for b in fn["blocks"]]
            r = set()
            for i in range(len(succ)):
                seen = set()
                work = list(succ[i])
                while work:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    work += succ[x]
                if i in seen:
                    r.add(i)
            self._loops[fn["key"]] = r
        return r

    def widen(self, st, ctx, fn, bb, ints):
        """numbers that keep changing at a block become unknown"""
        for r, v in list(st.store.items()):
            if r.t != "L" or r.a[0] is not ctx or v.t not in ("INT", "BIN", "TUP", "OVF", "OBJ", "UPD"):
                continue
            s = ints.setdefault((bb, r), set())
            s.add(v)
            if len(s) > (self.c.widen_int if v.t == "INT" else 8):
                w = mk("WIDE", (ctx, fn["key"], r.a[1]))
                for f in list(st.facts):
                    if mentions(f, w):
                        del st.facts[f]
                if v.t == "TUP":
                    w = mk("TUP", tuple(mk("WIDE", (ctx, fn["key"], r.a[1]), i) for i in range(len(v.a[0]))))
                st.store[r] = w

    # ---------------------------------------------------------------- types
    def tyres(self, tys, i, subst):
        t = tys[i]
        n = 0
        while t["k"] == "param" and t["n"] in subst and n < 5:
            tys, i = subst[t["n"]]
            t = tys[i]
            n += 1
        return tys, i

    def unify(self, tys1, i1, tys2, i2, out, d=0):
        a, b = tys1[i1], tys2[i2]
        if a["k"] == "param":
            out[a["n"]] = (tys2, i2)
            return
        if d > 6 or a["k"] != b["k"]:
            return
        for x, y in zip(a.get("a", ()), b.get("a", ())):
            if isinstance(x, int) and isinstance(y, int):
                self.unify(tys1, x, tys2, y, out, d + 1)

    def resolve(self, fn, f, subst):
        """(callee key or None, substitution)"""
        tys = fn["tys"]
        d = f["d"]
        r = f.get("r")
        args = []
        for x in f["a"]:
            if isinstance(x, int):
                args.append(self.tyres(tys, x, subst))
            else:
                args.append(x)
        trdefault = r is not None and r == d and f["tr"] is not None
        if (r is None or trdefault) and f["tr"] and args and not isinstance(args[0], str):
            st, si = args[0]
            t = st[si]
            hop = 0
            while t["k"] == "ref" and hop < 3 and (f["tr"], t["s"]) not in self.F.timpl:
                si = t["a"][0]
                st, si = self.tyres(st, si, subst)
                t = st[si]
                hop += 1
            if t["k"] == "closure" and last(f["p"]) in ("call", "call_mut", "call_once"):
                return None, {}
            name = last(f["p"])
            m = self.F.timpl.get((f["tr"], t.get("d") or t["s"]), {}).get(name)
            if m:
                r = m[0]
                if len(m) > 1:
                    for k in m:
                        g = self.F.fns[k]
                        if [g["tys"][x]["s"] for x in g["targs"][1:] if isinstance(x, int)] == \
                           [a[0][a[1]]["s"] for a in args[1:1 + len(g["targs"]) - 1] if not isinstance(a, str)]:
                            r = k
                            break
            elif r is None and d in self.F.fns:
                if t["k"] != "param":
                    r = d
        if r is None or r not in self.F.fns:
            return r, {}
        g = self.F.fns[r]
        sub = {}
        names = g.get("gen") or []
        if r == d:
            for n, x in zip(names, args):
                if not isinstance(x, str):
                    sub[n] = x
        else:
            if args and not isinstance(args[0], str) and "self" in g:
                self.unify(g["tys"], g["self"], args[0][0], args[0][1], sub)
            nown = 0
            base = self.F.fns.get(d)
            for n, x in zip(reversed(names), reversed(args)):
                if n in sub:
                    break
                if isinstance(x, str):
                    break
                sub[n] = x
        return r, sub

    # ---------------------------------------------------------------- calls
    def do_call(self, fn, ctx, bb, b, t, st, subst, depth, stack):
        self.callsites += 1
        c = Call()
        c.fn, c.bb, c.f, c.ctx, c.depth, c.subst = fn, bb, t[1], ctx, depth, subst
        c.sp = b["sp"]
        site = (ctx, fn["key"], bb)
        c.site = site
        self.c.on_site(self, st, site)
        st = self.rename(st, site)
        if self.c.gc:
            self.collect(st)
        c.args = [self.operand(st, fn, ctx, a, subst) for a in t[2]]
        c.argt = [fn["tys"][a[1][2]] if a[0] in ("cp", "mv") else fn["tys"][a[1]] for a in t[2]]
        c.dest = t[3]
        c.dty = fn["tys"][t[3][2]]
        c.fnv = None
        sub = {}
        if "ptr" in t[1]:
            c.fnv = self.operand(st, fn, ctx, t[1]["ptr"], subst)
            c.key = None
            c.p = c.rp = "<fnptr>"
            if c.fnv.t == "FN":
                c.key = c.fnv.a[0]
                c.p = c.rp = c.fnv.a[1]
            elif c.fnv.t == "CLO":
                c.key = c.fnv.a[0]
        else:
            c.p = t[1]["p"]
            c.rp = t[1].get("rp") or c.p
            c.key, sub = self.resolve(fn, t[1], subst)
        c.name = last(c.p)
        res = self.call(st, c, sub, depth, stack)
        out = []
        if t[4] is None:
            for ret, s2 in res:
                self.c.on_diverge(self, s2, c)
            return out
        for ret, s2 in res:
            root, path = self.loc(s2, fn, ctx, t[3])
            self.write(s2, root, path, ret, (fn, bb, 0))
            out.append((t[4], s2))
        return out

    def call(self, st, c, sub, depth, stack):
        r = self.c.on_call(self, st, c)
        if r is not None:
            return r
        from . import models
        r = models.model(self, st, c, depth, stack)
        if r is not None:
            return r
        key = c.key
        if key in self.F.fns:
            g = self.F.fns[key]
            if stack.count(key) <= self.c.recurse and depth < self.c.max_depth and self.c.inline(self, key, g, c, st):
                return self.inline(g, c, c.args, st, sub, depth, stack)
        return self.opaque(st, c, depth, stack)

    def inline(self, g, c, args, st, sub, depth, stack):
        ctx = mk("CTX", c.ctx, c.fn["key"], c.bb)
        return self.body(g, ctx, args, st, sub, depth + 1, stack + (g["key"],))

    def apply(self, st, c, f, args, depth, stack, tag=0):
        """call a function value with a tuple of argument values"""
        f = self.strip(st, f)
        if f.t == "CLO":
            g = self.F.fns.get(f.a[0])
            if g is None or g["key"] in stack or depth >= self.c.max_depth + 4:
                return [(mk("CALL", c.site, "<closure>", *args), st)]
            ctx = mk("CTX", c.ctx, c.fn["key"] + f"@{g['key']}@{tag}", c.bb)
            st = st.copy()
            # closure env: by reference or by value according to the body's first local
            envt = g["tys"][g["locals"][1]]
            if envt["k"] == "ref":
                root = mk("M", mk("ENV", f.a[0], ctx))
                st.store[root] = f
                env = mk("REF", root, ())
            else:
                env = f
            # closures take their arguments spread
            al = [env] + list(args)
            n = g["nargs"]
            while len(al) < n:
                al.append(mk("ELEM", c.site, len(al)))
            out = self.body(g, ctx, al[:n], st, c.subst, depth + 1, stack + (g["key"],))
            if envt["k"] == "ref" and (self.c.gc or getattr(self.c, "drive", False)):
                for r, s in out:
                    if root in s.store and not mentions(r, root):
                        del s.store[root]
            return out
        if f.t == "FN" and f.a[0] in self.F.fns:
            g = self.F.fns[f.a[0]]
            if g["key"] not in stack and depth < self.c.max_depth and self.c.inline(self, g["key"], g, c, st):
                ctx = mk("CTX", c.ctx, c.fn["key"] + f"@{g['key']}@{tag}", c.bb)
                return self.body(g, ctx, list(args), st, {}, depth + 1, stack + (g["key"],))
        h = getattr(self.c, "on_fnval", None)
        if h and f.t in ("FN", "ZST"):
            h(self, st, f, args)
        if f.t == "FN":
            v = self.ctor(f, args)
            if v is not None:
                return [(v, st)]
            if len(args) == 1 and f.a[0] not in self.F.fns and re.fullmatch(r"core::convert::(From(<.*>)?::from|Into(<.*>)?::into)", f.a[1]):
                # `i64::from` handed on as a function
                return [(self.cap(mk("CONV", args[0], "?")), st)]
            if len(args) == 1 and f.a[0] not in self.F.fns and re.fullmatch(r"core::convert::(TryFrom(<.*>)?::try_from|TryInto(<.*>)?::try_into)", f.a[1]):
                return [(self.cap(mk("TRYCONV", args[0], "?")), st)]
            if re.match(r"core::(option::Option|result::Result)::<", f.a[1]):
                # a method of Option or Result handed on as a function
                from . import models
                c2 = Call()
                for x in Call.__slots__:
                    if hasattr(c, x):
                        setattr(c2, x, getattr(c, x))
                c2.p = c2.rp = f.a[1]
                c2.name = last(f.a[1])
                c2.key = f.a[0]
                c2.args = list(args)
                c2.argt = [{"s": "", "k": "?"} for _ in args]
                c2.dty = {"s": "", "k": "?"}
                try:
                    r = models.optres(self, st, c2, depth, stack)
                except (KeyError, IndexError, AttributeError):
                    r = None
                if r is not None:
                    return r
            return [(self.cap(mk("CALL", c.site, f.a[1], *args)), st)]
        if f.t == "ZST":
            return [(self.cap(mk("CALL", c.site, f.a[0], *args)), st)]
        return [(self.cap(mk("CALL", c.site, "<fnval>", f, *args)), st)]

    def ctor(self, f, args):
        """the value built by a tuple variant or struct used as a function"""
        p = re.sub(r"::<.*>$", "", f.a[1])
        p = re.sub(r"::<[^<>]*>(?=::\w+$)", "", p)
        if "<" in p or "::" not in p or f.a[0] in self.F.fns:
            return None
        own, name = p.rsplit("::", 1)
        if not name[:1].isupper():
            return None
        for k in (own, "rustsat::" + own):
            a = self.F.adts.get(k)
            if a is not None and len(a["vs"]) > 1:
                for i, v in enumerate(a["vs"]):
                    if v[0] == name and len(v[2]) == len(args):
                        return ADT(k, i, name, tuple(args))
        return None

    def run_closures(self, st, c, clos, depth, stack):
        """closures executed any number of times, in any order"""
        states = {st.key(): st}
        work = [st]
        n = 0
        while work:
            s = work.pop()
            for i, f in enumerate(sorted(clos, key=lambda x: x.a[0])):
                for ret, s2 in self.apply(self.rename(s, c.site), c, f, (), depth, stack, i):
                    k = s2.key()
                    if k not in states:
                        states[k] = s2
                        work.append(s2)
            n += 1
            if n > 200:
                raise Budget("closures at " + c.where)
        return list(states.values())

    def closures_in(self, st, vals):
        out = set()
        seen = set()

        def go(v, d):
            if d > 6 or v in seen:
                return
            seen.add(v)
            out.update(v.clos)
            for x in [v]:
                if x.t == "REF":
                    go(self.read(st, x.a[0], x.a[1]), d + 1)
                elif x.t in ("CALL", "ITER", "ADT", "TUP", "ARR"):
                    for y in _flat(x.a):
                        go(y, d + 1)

        for v in vals:
            go(v, 0)
        return out

    def opaque(self, st, c, depth, stack, pure=False):
        """a call whose body is not looked into"""
        name = c.name
        states = [st]
        if not (name in LAZY and c.p.startswith(("core::iter", "itertools", "core::slice", "alloc"))):
            cl = self.closures_in(st, c.args)
            if cl:
                states = self.run_closures(st, c, cl, depth, stack)
        out = []
        for s in states:
            s = s.copy()
            if name in PURE:
                ret = mk("PURE", name, tuple(self.strip(s, a) for a in c.args))
                ret = self.cap(ret)
            else:
                args = tuple(a if a.depth < 8 else mk("DEEP", a.t) for a in (
                    self.strip(s, a) if a.t == "REF" and a.a[0].t == "L" else a for a in c.args))
                ret = mk("CALL", c.site, c.rp, *args)
                ret = self.cap(ret)
            if not pure:
                for i, (a, t) in enumerate(zip(c.args, c.argt)):
                    if t["k"] == "ref" and t["m"] == 1:
                        self.havoc(s, a, c, i)
            out.append((ret, s))
        return out

    def opaque_plain(self, s, c, skip=None):
        """an opaque call whose closures have been run already"""
        s = s.copy()
        args = tuple(a if a.depth < 8 else mk("DEEP", a.t) for a in (
            self.strip(s, a) if a.t == "REF" and a.a[0].t == "L" else a for a in c.args))
        ret = self.cap(mk("CALL", c.site, c.rp, *args))
        for i, (a, t) in enumerate(zip(c.args, c.argt)):
            if t["k"] == "ref" and t["m"] == 1 and i != skip:
                self.havoc(s, a, c, i)
        return [(ret, s)]

    def havoc(self, st, a, c, i):
        if a.t == "REF":
            root, path = a.a
            old = self.read(st, root, path)
            # an iterator keeps its provenance, a writer stays a writer
            v = self.c.hav_val(self, st, old, c, i)
            if v is not None:
                self.forget(st, v)
            self.write(st, root, path, v or mk("HAV", c.site, i, c.rp), (c.fn, c.bb, 0))
        else:
            root = mk("M", a)
            v = self.c.hav_val(self, st, self.read(st, root, ()), c, i)
            if v is not None:
                self.forget(st, v)
            st.store[root] = v or mk("HAV", c.site, i, c.rp)

    def forget(self, st, v):
        for f in list(st.facts):
            if mentions(f, v):
                del st.facts[f]

    def collect(self, st):
        """memory behind results of earlier rounds of a loop that nothing refers to any more"""
        stale = [r for r in st.store if r.t == "M" and any(isinstance(s, tuple) and s and s[0] == "old" for s in r.sites)]
        if not stale:
            return
        live = [v for r, v in st.store.items() if r not in stale]
        for r in stale:
            if not any(mentions(v, r.a[0]) for v in live) and not any(mentions(v, r.a[0]) for v in _flat(st.obs)):
                del st.store[r]

    # ---------------------------------------------------------------- renaming
    def rename(self, st, site):
        """a call site is executed again: results of the previous execution become old"""
        hit = False
        for r, v in st.store.items():
            if site in v.sites or site in r.sites:
                hit = True
                break
        if not hit and site not in obs_sites(st.obs):
            if any(site in f.sites for f in st.facts):
                st = st.copy()
                for f in list(st.facts):
                    if site in f.sites:
                        del st.facts[f]
                return st
            return st.copy()
        memo = {}
        old = ("old",) + site

        def ren(x):
            if isinstance(x, tuple):
                if x == site:
                    return old
                return tuple(ren(y) for y in x)
            if not isinstance(x, V):
                return x
            if site not in x.sites:
                return x
            if x in memo:
                return memo[x]
            if x.t in ("CALL", "ELEM", "HAV") and x.a[0] == site:
                if x.t == "CALL":
                    r = mk("CALL", old, x.a[1], *[mk("DEEP", "old") if old in y.sites or site in y.sites else y
                                                  for y in x.a[2:]])
                else:
                    r = mk(x.t, old, *x.a[1:])
            else:
                r = mk(x.t, *[ren(y) for y in x.a])
                r = self.cap(r)
            memo[x] = r
            return r

        n = State({}, {}, ren(st.obs))
        for r, v in st.store.items():
            n.store[ren(r)] = ren(v)
        for f, x in st.facts.items():
            if site in f.sites or old in f.sites:
                continue
            n.facts[f] = x
        return n


_os = {}


def obs_sites(o):
    s = set()

    def go(x):
        if isinstance(x, V):
            s.update(x.sites)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)

    go(o)
    return s


_ment = {}


def mentions(v, w):
    if v is w:
        return True
    k = (v, w)
    r = _ment.get(k)
    if r is None:
        r = any(mentions(x, w) for x in _flat(v.a))
        _ment[k] = r
    return r


def subterms(v, seen=None):
    if seen is None:
        seen = set()
    if v in seen:
        return
    seen.add(v)
    yield v
    for x in _flat(v.a):
        yield from subterms(x, seen)


def succs(t):
    """non-unwinding successors of a terminator"""
    k = t[0]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    return []
