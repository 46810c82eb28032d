"""I04: operations on objectives keep the function they stand for."""
import itertools
import re

from .mir import Engine, Budget, mk, last, INT, Some, NONE, ADT
from . import lists
from . import c_constr as CC
from .c_atoms import Blocks, UNIT
from .regions import ev, feasible, Unknown, Underflow

MOD = "rustsat::instances::opt::"
OBJ = MOD + "Objective"
INNER = MOD + "IntObj"
CLAUSE = "rustsat::types::constraints::Clause"
ENTRY = "std::collections::hash::map::Entry"
OFF = mk("ARG", "offset")
UW = mk("ARG", "unit")
W = mk("ARG", "w")
L = mk("ARG", "lx")


SHIFT = 4       # re-indexing maps variable v to v + SHIFT


def wl(i):
    return mk("ARG", "wl%d" % i)


def wc(i):
    return mk("ARG", "wc%d" % i)


class Objs(Blocks):
    """literals are symbols whose order and equality is given by a pattern (self.code); weights and offset are symbols"""
    max_depth = 16
    recurse = 2

    def __init__(self, code):
        super().__init__()
        self.code = code

    # -------------------------------------------------------------- literals and clauses
    def key(self, eng, st, v):
        """what a literal or clause is compared by; None if it is not known"""
        v = CC.deep(eng, st, v)
        s = 0
        u = v
        while u.t == CC.NEG:
            s ^= 1
            u = u.a[0]
        if u in self.code:
            return ("l", self.code[u] ^ s)
        if u.t == "AUX":
            return ("l", 1000 + 2 * u.a[0] + s)
        xs = None
        if v.t == "ADT" and last(v.a[0]) == "Clause" and v.a[3]:
            xs = CC.deep(eng, st, v.a[3][0])
        elif v.t == "LIST":
            xs = v
        if xs is None or xs.t != "LIST":
            return None
        ks = [self.key(eng, st, x) for x in xs.a[0]]
        return None if None in ks else ("c", tuple(ks))

    def value(self, eng, st, x):
        k = self.key(eng, st, x)
        if k is None or k[0] != "l":
            return None
        out = []
        v = mk("PURE", "value", (mk("VAR", k[1] >> 1),))
        for i, nm in enumerate(("True", "False", "DontCare")):
            s = st.copy()
            if eng.assume(s, v, i if i == 2 else i ^ (k[1] & 1)):
                out.append((ADT(CC.TERN, i, nm), s))
        return out

    def table(self, eng, st, v):
        """(value, where it is stored) of a map"""
        loc = lists.place(eng, st, v)
        return (eng.read(st, *loc), loc) if loc else (None, None)

    def at(self, loc, i, f):
        return mk("REF", loc[0], loc[1] + (("[]", INT(i), "[]"), (None, f, str(f))))

    def find(self, eng, st, xs, k):
        kk = self.key(eng, st, k)
        if kk is None:
            return None
        ks = [self.key(eng, st, x.a[0][0]) if x.t == "TUP" else self.key(eng, st, x) for x in xs]
        if None in ks:
            return None
        return ks.index(kk) if kk in ks else -1

    # -------------------------------------------------------------- calls
    def on_call(self, eng, st, c):
        n = c.name or ""
        own = c.key in eng.F.fns
        t0 = c.argt[0]["s"].lstrip("&").replace("mut ", "") if c.args else ""
        if own and n in ("n_clauses", "n_vars"):
            return None
        if n in ("eq", "ne", "lt", "le", "gt", "ge", "cmp") and len(c.args) == 2:
            a, b = self.key(eng, st, c.args[0]), self.key(eng, st, c.args[1])
            if a is not None and b is not None:
                if n == "cmp":
                    i = (a > b) - (a < b)
                    return [(ADT("core::cmp::Ordering", i + 1, ("Less", "Equal", "Greater")[i + 1]), st)]
                return [(INT(int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[n])), st)]
        if n == "reindex_lit" and len(c.args) == 2:
            u, s = CC.deep(eng, st, c.args[1]), 0
            while u.t == CC.NEG:
                s, u = s ^ 1, u.a[0]
            if u not in self.code:
                return None
            new = mk("ARG", "re:%s" % u.a[0])
            self.code[new] = self.code[u] + 2 * SHIFT
            return [(CC.neg(new) if s else new, st)]
        if not own:
            r = self.maps(eng, st, c, n, t0)
            if r is not None:
                return r
            r = self.seqs(eng, st, c, n, t0)
            if r is not None:
                return r
        return super().on_call(eng, st, c)

    def seqs(self, eng, st, c, n, t0):
        if n in ("is_pos", "is_neg"):
            return None
        if re.match(r"^sort(_unstable)?$", n) and len(c.args) == 1:
            u = lists.under(eng, st, c.args[0])
            if u.t == "LIST":
                ks = [self.key(eng, st, x) for x in u.a[0]]
                if None in ks:
                    return None
                xs = tuple(u.a[0][i] for i in sorted(range(len(ks)), key=lambda i: ks[i]))
                s = st.copy()
                return [(UNIT, s)] if lists.store_at(eng, s, c.args[0], mk("LIST", xs)) else None
        if n == "dedup":
            u = lists.under(eng, st, c.args[0])
            if u.t == "LIST":
                ks = [self.key(eng, st, x) for x in u.a[0]]
                if None in ks:
                    return None
                xs = tuple(x for i, x in enumerate(u.a[0]) if i == 0 or ks[i] != ks[i - 1])
                s = st.copy()
                return [(UNIT, s)] if lists.store_at(eng, s, c.args[0], mk("LIST", xs)) else None
        if n == "retain" and len(c.args) == 2:
            u = lists.under(eng, st, c.args[0])
            return self.retain(eng, st, c, u.a[0]) if u.t == "LIST" else None
        if n == "contains" and len(c.args) == 2 and re.match(r"^(\[|alloc::vec::Vec)", t0):
            u = lists.under(eng, st, c.args[0])
            if u.t == "LIST" and u.a[0]:
                i = self.find(eng, st, u.a[0], c.args[1])
                return None if i is None else [(INT(int(i >= 0)), st)]
        if n == "swap" and len(c.args) == 3 and re.match(r"^(\[|alloc::vec::Vec)", t0):
            u = lists.under(eng, st, c.args[0])
            i, j = (eng.strip(st, x) for x in c.args[1:])
            if u.t == "LIST" and i.t == j.t == "INT":
                if not (0 <= i.a[0] < len(u.a[0]) and 0 <= j.a[0] < len(u.a[0])):
                    return []
                xs = list(u.a[0])
                xs[i.a[0]], xs[j.a[0]] = xs[j.a[0]], xs[i.a[0]]
                s = st.copy()
                return [(UNIT, s)] if lists.store_at(eng, s, c.args[0], mk("LIST", tuple(xs))) else None
        if n == "swap" and len(c.args) == 2 and (c.p or "").startswith("core::mem"):
            a, b = c.args
            x, y = CC.deep(eng, st, a), CC.deep(eng, st, b)
            s = st.copy()
            if a.t == b.t == "REF":
                eng.write(s, a.a[0], a.a[1], y)
                eng.write(s, b.a[0], b.a[1], x)
                return [(UNIT, s)]
        if n in ("take", "replace") and (c.p or "").startswith("core::mem") and c.args[0].t == "REF":
            x = CC.deep(eng, st, c.args[0])
            new = c.args[1] if n == "replace" else self.empty(c.dty["s"])
            if new is not None:
                s = st.copy()
                eng.write(s, c.args[0].a[0], c.args[0].a[1], new)
                return [(x, s)]
        if n in ("default", "new", "with_capacity", "with_hasher", "with_capacity_and_hasher") and self.empty(c.dty["s"]) is not None and t0 in ("", "usize") or \
                n in ("default", "with_hasher") and "HashMap<" in c.dty["s"][:45]:
            return [(self.empty(c.dty["s"]), st)]
        if n == "len" and len(c.args) == 1:
            u = lists.under(eng, st, c.args[0])
            if u.t == "LIST" and any(x.t == "REPEAT" for x in u.a[0]):
                k = INT(sum(x.t != "REPEAT" for x in u.a[0]))
                for x in u.a[0]:
                    if x.t == "REPEAT":
                        k = eng.bin(st, "Add", k, x.a[1])
                return [(k, st)]
        if n == "resize" and len(c.args) == 3:
            u = lists.under(eng, st, c.args[0])
            if u.t == "LIST":
                cur = INT(sum(x.t != "REPEAT" for x in u.a[0]))
                for x in u.a[0]:
                    if x.t == "REPEAT":
                        cur = eng.bin(st, "Add", cur, x.a[1])
                k = eng.bin(st, "Sub", eng.strip(st, c.args[1]), cur)
                s = st.copy()
                if k.t == "INT" and 0 <= k.a[0] < 8:
                    return [(UNIT, s)] if lists.store_at(eng, s, c.args[0], mk("LIST", u.a[0] + (CC.deep(eng, st, c.args[2]),) * k.a[0])) else None
                return [(UNIT, s)] if lists.store_at(eng, s, c.args[0], mk("LIST", u.a[0] + (mk("REPEAT", CC.deep(eng, st, c.args[2]), k),))) else None
        if n in ("repeat_n", "from_elem") and len(c.args) == 2 and eng.strip(st, c.args[1]).t != "INT":
            x = mk("REPEAT", CC.deep(eng, st, c.args[0]), eng.strip(st, c.args[1]))
            return [(lists.seq((x,)) if n == "repeat_n" else mk("LIST", (x,)), st)]
        if n == "take" and len(c.args) == 2 and c.args[0].t == "ITER" and "repeat" in repr(c.args[0])[:200].lower():
            return None
        return None

    def retain(self, eng, st, c, xs):
        """keeps what the closure says yes to"""
        todo = [((), st)]
        for x in xs:
            nxt = []
            args = tuple(lists.PTR(y) for y in x.a[0]) if x.t == "TUP" else (lists.PTR(x),)
            for kept, s in todo:
                for v, s2 in eng.apply(s, c, c.args[1], args, c.depth, ()):
                    for t in (0, 1):
                        s3 = s2.copy()
                        if eng.assume(s3, v, t):
                            nxt.append((kept + ((x,) if t else ()), s3))
            todo = nxt
        out = []
        for kept, s in todo:
            s = s.copy()
            if not lists.store_at(eng, s, c.args[0], mk("LIST", kept)):
                return None
            out.append((UNIT, s))
        return out

    def empty(self, ty):
        return mk("LIST", ()) if re.match(r"^(std::collections::(hash::map::|hash_map::)?HashMap<|alloc::vec::Vec<|alloc::collections::btree::map::BTreeMap<)", ty) else None

    def maps(self, eng, st, c, n, t0):
        a = c.args
        if not a:
            return None
        if re.search(r"(^|::)(Hash|BTree)Map<", t0[:50]):
            u = lists.under(eng, st, a[0])
            if u.t != "LIST" or any(x.t != "TUP" for x in u.a[0]):
                return None
            xs = u.a[0]
            if n == "retain":
                return self.retain(eng, st, c, xs)
            if n in ("get", "get_mut", "contains_key", "remove", "entry", "insert", "remove_entry", "get_key_value"):
                i = self.find(eng, st, xs, a[1])
                if i is None:
                    return None
                s = st.copy()
                _, loc = self.table(eng, st, a[0])
                if n == "contains_key":
                    return [(INT(int(i >= 0)), s)]
                if n == "get":
                    return [(Some(lists.PTR(xs[i].a[0][1])) if i >= 0 else NONE, s)]
                if loc is None:
                    return None
                if n == "get_mut":
                    return [(Some(self.at(loc, i, 1)) if i >= 0 else NONE, s)]
                if n == "remove":
                    if i < 0:
                        return [(NONE, s)]
                    eng.write(s, loc[0], loc[1], mk("LIST", xs[:i] + xs[i + 1:]))
                    return [(Some(xs[i].a[0][1]), s)]
                k = CC.deep(eng, st, a[1])
                if n == "insert":
                    new = mk("TUP", (k, a[2]))
                    eng.write(s, loc[0], loc[1], mk("LIST", xs[:i] + (new,) + xs[i + 1:] if i >= 0 else xs + (new,)))
                    return [(Some(xs[i].a[0][1]) if i >= 0 else NONE, s)]
                if n == "entry":
                    ref = mk("REF", loc[0], loc[1])
                    return [(ADT(ENTRY, 0, "Occupied", (mk("OCC", ref, k),)) if i >= 0 else ADT(ENTRY, 1, "Vacant", (mk("VAC", ref, k),)), s)]
                return None
            byref = c.argt[0]["k"] in ("ref", "ptr")
            if n in ("iter", "keys", "values") or n == "into_iter" and byref and "mut " not in c.argt[0]["s"][:12]:
                f = {"keys": lambda x: lists.PTR(x.a[0][0]), "values": lambda x: lists.PTR(x.a[0][1])}.get(
                    n, lambda x: mk("TUP", (lists.PTR(x.a[0][0]), lists.PTR(x.a[0][1]))))
                return [(lists.seq([f(x) for x in xs]), st)]
            if n in ("iter_mut", "values_mut") or n == "into_iter" and byref:
                _, loc = self.table(eng, st, a[0])
                if loc is None:
                    return None
                return [(lists.seq([self.at(loc, i, 1) if n == "values_mut" else mk("TUP", (lists.PTR(x.a[0][0]), self.at(loc, i, 1))) for i, x in enumerate(xs)]), st)]
            if n in ("into_keys", "into_values"):
                return [(lists.seq([x.a[0][0 if n == "into_keys" else 1] for x in xs]), st)]
            if n == "drain":
                s = st.copy()
                return [(lists.seq(xs), s)] if lists.store_at(eng, s, a[0], mk("LIST", ())) else None
            if n in ("extend",):
                it = self.items(eng, st, a[1])
                if it is None:
                    return None
                out = []
                for ys, s in lists.drain(eng, st, c, it, c.depth, ()):
                    cur = list(xs)
                    for y in ys:
                        y = eng.strip(s, y)
                        if y.t != "TUP":
                            return None
                        i = self.find(eng, s, cur, y.a[0][0])
                        if i is None:
                            return None
                        e = mk("TUP", (CC.deep(eng, s, y.a[0][0]), y.a[0][1]))
                        cur[i:i + 1 if i >= 0 else i] = [] if i < 0 else [e]
                        if i < 0:
                            cur.append(e)
                    s = s.copy()
                    if not lists.store_at(eng, s, a[0], mk("LIST", tuple(cur))):
                        return None
                    out.append((UNIT, s))
                return out
        if n in ("collect", "from_iter") and re.search(r"(^|::)(Hash|BTree)Map<", c.dty["s"][:50]):
            it = self.items(eng, st, a[-1])
            if it is None:
                return None
            out = []
            for ys, s in lists.drain(eng, st, c, it, c.depth, ()):
                cur = []
                for y in ys:
                    y = eng.strip(s, y)
                    if y.t != "TUP":
                        return None
                    i = self.find(eng, s, cur, y.a[0][0])
                    if i is None:
                        return None
                    e = mk("TUP", (CC.deep(eng, s, y.a[0][0]), y.a[0][1]))
                    if i < 0:
                        cur.append(e)
                    else:
                        cur[i] = e
                out.append((mk("LIST", tuple(cur)), s))
            return out
        e = eng.strip(st, a[0])
        if e.t == "ADT" and e.a[0] == ENTRY or e.t in ("OCC", "VAC"):
            h = e.a[3][0] if e.t == "ADT" else e
            ref, k = h.a
            u = lists.under(eng, st, ref)
            if u.t != "LIST":
                return None
            xs = u.a[0]
            i = self.find(eng, st, xs, k)
            if i is None:
                return None
            loc = (ref.a[0], tuple(ref.a[1]))
            s = st.copy()

            def put(v):
                eng.write(s, loc[0], loc[1], mk("LIST", xs + (mk("TUP", (k, v)),)))
                return self.at(loc, len(xs), 1)
            if n in ("or_default", "or_insert") and e.t == "ADT":
                if i >= 0:
                    return [(self.at(loc, i, 1), s)]
                return [(put(INT(0) if n == "or_default" else a[1]), s)]
            if n in ("or_insert_with",) and e.t == "ADT":
                if i >= 0:
                    return [(self.at(loc, i, 1), s)]
                out = []
                for v, s2 in eng.apply(s, c, a[1], (), c.depth, ()):
                    s = s2.copy()
                    out.append((put(v), s))
                return out
            if n == "and_modify" and e.t == "ADT":
                if i < 0:
                    return [(e, s)]
                return [(e, s2) for _, s2 in eng.apply(s, c, a[1], (self.at(loc, i, 1),), c.depth, ())]
            if h.t == "OCC" and i >= 0:
                if n == "get":
                    return [(lists.PTR(xs[i].a[0][1]), s)]
                if n in ("get_mut", "into_mut"):
                    return [(self.at(loc, i, 1), s)]
                if n in ("remove", "remove_entry"):
                    eng.write(s, loc[0], loc[1], mk("LIST", xs[:i] + xs[i + 1:]))
                    return [(xs[i].a[0][1] if n == "remove" else xs[i], s)]
                if n == "insert":
                    eng.write(s, *self.at(loc, i, 1).a, a[1])
                    return [(xs[i].a[0][1], s)]
            if h.t == "VAC" and n == "insert":
                return [(put(a[1]), s)]
            if n in ("key", "into_key"):
                return [(lists.PTR(k) if n == "key" else k, s)]
        return None

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            root = getattr(self, "root", None)
            self.ends.append((CC.full(eng, st, ret), st, CC.full(eng, st, eng.read(st, root, ())) if root is not None else None))


# ------------------------------------------------------------------ meaning
def lv(t, env, asg, aux=()):
    s = 0
    while t.t == CC.NEG:
        s ^= 1
        t = t.a[0]
    if t.t == "AUX":
        if t.a[0] >= len(aux):
            raise Unknown(t)
        return aux[t.a[0]] ^ s
    if t not in env:
        raise Unknown(t)
    return asg[env[t] >> 1] ^ (env[t] & 1) ^ s


def lits_of(v):
    x = CC.listed(v)
    if x is None:
        raise Unknown(v)
    return x


def cost(softs, clauses, env, asg, aux=(), unit=None):
    """cost of a list of soft literals or clauses (with weights, or of one weight each)"""
    s = 0
    if softs.t != "LIST":
        raise Unknown(softs)
    for x in softs.a[0]:
        n = 1
        if x.t == "REPEAT":
            n, x = ev(x.a[1], env), x.a[0]
        if unit is None:
            if x.t != "TUP" or len(x.a[0]) != 2:
                raise Unknown(x)
            x, w = x.a[0]
        else:
            w = unit
        if (not any(lv(t, env, asg, aux) for t in lits_of(x))) if clauses else lv(x, env, asg, aux):
            s += n * ev(w, env)
    return s


def parts(F, v):
    """{field: value} of an objective and its variant"""
    while v.t == "ADT" and len(v.a[3]) == 1 and v.a[0] != INNER:
        v = v.a[3][0]
    if v.t != "ADT" or v.a[0] != INNER:
        raise Unknown(v)
    names = [x[0] for x in F.adts[INNER]["vs"][v.a[1]][2]]
    return v.a[2], dict(zip(names, v.a[3]))


def total(F, v, env, asg, aux=(), offset=True):
    k, p = parts(F, v)
    s = ev(p["offset"], env) if offset else 0
    if k == "Weighted":
        return s + cost(p["soft_lits"], False, env, asg, aux) + cost(p["soft_clauses"], True, env, asg, aux)
    u = p["unit_weight"]
    if u.t != "ADT":
        raise Unknown(u)
    if u.a[2] == "None":
        if any(p[x].t != "LIST" for x in ("soft_lits", "soft_clauses")):
            raise Unknown(v)
        if any(p[x].a[0] for x in ("soft_lits", "soft_clauses")):
            return None
        return s
    u = u.a[3][0]
    return s + cost(p["soft_lits"], False, env, asg, aux, u) + cost(p["soft_clauses"], True, env, asg, aux, u)


# ------------------------------------------------------------------ inputs
# (weighted?, codes of the soft literals, codes of the literals of the soft clauses)
SHAPES = [
    (True, (), ()), (True, (0,), ()), (True, (0, 1, 4), ()), (True, (1,), ((0, 2),)), (True, (0, 3), ((1, 2), (2, 1))), (True, (), ((0, 0), (2, 1))),
    (True, (0,), ((0, 0),)), (True, (1, 2), ((0, 0), (3, 3))), (True, (2,), ((0, 1), (2, 4))), (True, (), ((0, 2), (2, 0))),
    (False, (), ()), (False, (0,), ()), (False, (0, 0), ()), (False, (0, 1, 2, 2), ()), (False, (2, 2, 0, 1), ()), (False, (1, 0, 4), ()),
    (False, (2,), ((0, 2),)), (False, (), ((0, 0), (1, 2))), (False, (0,), ((0, 0), (2, 2))), (False, (1,), ((2, 0), (0, 2))),
    (False, (), ((0, 1), (2, 4))), (False, (), ((2, 4), (0, 1), (4, 2, 0))), (False, (0, 1), ((2, 4), (3, 2))),
]


def build(F, shape, pat=None):
    """an objective of that shape, the codes of its symbols, and the symbols of its weights (numbers if a pattern is given)"""
    weighted, ls, cs = shape
    code, ws = {}, []
    lits, cls = [], []
    w1, w2 = (wl, wc) if pat is None else (fixed(pat), fixed(pat[::-1]))
    for i, q in enumerate(ls):
        t = mk("ARG", "l%d" % i)
        code[t] = q
        lits.append(mk("TUP", (t, w1(i))) if weighted else t)
        ws += [w1(i)] if weighted else []
    j = 0
    for i, qs in enumerate(cs):
        ts = []
        for q in qs:
            t = mk("ARG", "c%d" % j)
            j += 1
            code[t] = q
            ts.append(t)
        cl = ADT(CLAUSE, 0, "Clause", (mk("LIST", tuple(ts)),))
        cls.append(mk("TUP", (cl, w2(i))) if weighted else cl)
        ws += [w2(i)] if weighted else []
    vals = {"offset": OFF, "soft_lits": mk("LIST", tuple(lits)), "soft_clauses": mk("LIST", tuple(cls)), "unit_weight": Some(UW) if ls or cs else NONE}
    for vi, v in enumerate(F.adts[INNER]["vs"]):
        if v[0] == ("Weighted" if weighted else "Unweighted"):
            names = [x[0] for x in v[2]]
            if any(x not in vals for x in names):
                return None
            return ADT(OBJ, 0, "Objective", (ADT(INNER, vi, v[0], tuple(vals[x] for x in names)),)), code, [x for x in ws if x.t != "INT"] if weighted else [UW] if ls or cs else []
    return None


def fixed(pat):
    return lambda i: INT(pat[i % len(pat)])


def show(shape):
    def l(c):
        return ("~" if c & 1 else "") + "x%d" % ((c >> 1) + 1)
    return "%s objective with soft literals [%s] and soft clauses [%s]" % (
        "a weighted" if shape[0] else "an unweighted", ", ".join(map(l, shape[1])), ", ".join("|".join(map(l, c)) for c in shape[2]))


CLX = ADT(CLAUSE, 0, "Clause", (mk("LIST", (mk("ARG", "k0"), mk("ARG", "k1"))),))
# name -> argument kinds
OPS = {
    "unweighted_2_weighted": (), "weighted_2_unweighted": (), "normalize": (), "set_offset": ("off",), "increase_offset": ("off",),
    "add_soft_lit": ("w", "l"), "increase_soft_lit": ("w", "l"), "increase_soft_lit_int": ("iw", "l"),
    "add_soft_clause": ("w", "c"), "increase_soft_clause": ("w", "c"), "lit_weight": ("l",), "clause_weight": ("cr",),
    "into_soft_cls": (), "into_unweighted_soft_cls": (), "into_soft_lits": ("vm",), "into_unweighted_soft_lits": ("vm",), "convert_to_soft_lits": ("vm",),
    "evaluate": ("sol",), "evaluate_no_offset": ("sol",), "reindex": ("vm",), "weight_sum": (), "lit_weight_sum": (), "clause_weight_sum": (), "offset": (),
    "n_lits": (), "n_clauses": (), "n_softs": (),
}
NUMBERS = ("into_unweighted_soft_cls",)
KEEP = ("unweighted_2_weighted", "weighted_2_unweighted", "normalize")


def arguments(kinds):
    """[(codes of the literals in the arguments, number of literals of the clause)]"""
    if "l" in kinds:
        return [((q,), 0) for q in (0, 1, 2, 6)]
    if "c" in kinds or "cr" in kinds:
        return [((), 0), ((0,), 1), ((3,), 1), ((0, 2), 2), ((2, 4), 2), ((6, 1), 2)] if "c" in kinds else [((0, 2), 2), ((2, 1), 2), ((2, 4), 2)]
    return [((), 0)]


def objectives(F, r):
    for k, f in sorted(F.fns.items()):
        m = re.match(r"^(?:rustsat::)?instances::opt::Objective::(\w+)$", f["p"])
        if not m or m[1] not in OPS or f["crate"] != "rustsat.lib" or f["nargs"] != 1 + len(OPS[m[1]]):
            continue
        operation(F, r, k, f, m[1])
    r.floor("operation", 8)


def operation(F, r, k, f, name):
    kinds = OPS[name]
    label = "Objective::%s" % name
    bad = und = None
    cnt = 0
    byref = f["tys"][f["locals"][1]]["k"] in ("ref", "ptr")
    for shape, pat in [(z, q) for z in SHAPES for q in ([None] if name not in NUMBERS or not z[0] else [(1, 2), (2, 1), (3, 1)])]:
        for qs, nc in arguments(kinds):
            if bad:
                break
            b = build(F, shape, pat)
            if b is None:
                r.undec("the layout of an objective is another one")
                return
            obj, code, ws = b
            extra = [mk("ARG", "k%d" % i) for i in range(len(qs))] if nc else [L] if qs else []
            code = dict(code)
            code.update(zip(extra, qs))
            x = Objs(code)
            e = Engine(F, x)
            a = e.default_args(f)
            store = {}
            root = None
            if byref:
                root = mk("M", mk("ARG", "self"))
                store[root] = obj
                a[0] = mk("REF", root, ())
                x.root = root
            else:
                a[0] = obj
            for i, kd in enumerate(kinds):
                cl = ADT(CLAUSE, 0, "Clause", (mk("LIST", tuple(extra)),))
                a[i + 1] = {"w": W, "iw": W, "off": W, "l": L, "c": cl, "cr": mk("BOXED", cl), "sol": mk("ARG", "sol"), "vm": mk("ARG", "vm")}[kd]
            try:
                e.run(k, x.start, args=a, store=store)
            except Budget as z:
                und = "%s on %s: %s" % (label, show(shape), str(z)[:60])
                continue
            r.analysed |= set(e.analysed)
            if not x.ends:
                und = "%s: no path returns on %s" % (label, show(shape))
                continue
            try:
                res = judge(F, name, x, obj, shape, code, ws, extra, nc)
            except (Unknown, Underflow) as z:
                und = "%s on %s: %s %s" % (label, show(shape), type(z).__name__, str(z)[:80])
                continue
            if res[0] == "und":
                und = "%s: %s" % (label, res[1])
            elif res[0] == "bad":
                bad = (res[1], "%s: %s" % (show(shape), res[2]))
            else:
                cnt += res[1]
    if bad:
        r.bad("%s:%s" % (label, bad[0]), "%s goes wrong for %s" % (label, bad[1]), "%s:%s" % tuple(f["sp"][:2]))
    elif und:
        r.undec(und)
    elif cnt:
        r.ok("operation", label)


def judge(F, name, x, obj, shape, code, ws, extra, nc):
    cnt = 0
    kinds = OPS[name]
    wvals = (0, 1, 2, 3) if "w" in kinds else (-2, -1, 0, 3) if "iw" in kinds or "off" in kinds else (0,)
    nv = max([c >> 1 for c in code.values()] + [-1]) + 1
    A = list(itertools.product((0, 1), repeat=nv))
    pats = {0: [()], 1: [(1,), (2,)], 2: [(1, 1), (1, 2), (2, 1)], 3: [(1, 1, 1), (1, 2, 3), (2, 1, 1), (1, 3, 1)]}.get(
        len(ws), [(1,) * len(ws), (2, 1) * (len(ws) // 2) + (3,) * (len(ws) % 2), tuple(range(1, len(ws) + 1)), tuple(range(len(ws), 0, -1))])
    for pat in pats:
        for wv in wvals:
            for off in (0, -3):
                env = {OFF: off, W: wv, "signed": False}
                env.update(zip(ws, pat))
                if UW not in env and not shape[0] and (shape[1] or shape[2]):
                    env[UW] = 1
                env.update(code)
                env.update(x.code)
                live = 0
                for ret, st, own in x.ends:
                    y = feasible({t: v for t, v in st.facts.items() if not valued(t)}, env)
                    if y is False:
                        continue
                    live += 1
                    if not y:
                        return "und", "a path depends on something that is not followed"
                    res = one(F, name, ret, st, own, obj, env, code, A, ws, extra, nc, shape)
                    if res:
                        return ("bad",) + res
                    cnt += 1
                if not live:
                    return "bad", "panics", "cannot return"
    return "ok", cnt


def valued(t):
    return t.t == "PURE" and t.a[0] == "value" or t.t == "BIN" and any(hasattr(z, "t") and valued(z) for z in t.a[1:])


def softvalue(env, extra, nc, name, asg):
    """does the literal or clause in the arguments incur its cost"""
    if nc or "clause" in name:
        return not any(lv(t, env, asg) for t in extra)
    return bool(lv(L, env, asg))


def weight_of(F, obj, key, env, clause):
    k, p = parts(F, obj)
    s, hit = 0, False
    for x in p["soft_clauses" if clause else "soft_lits"].a[0]:
        w = p["unit_weight"].a[3][0] if k == "Unweighted" else x.a[0][1]
        y = x if k == "Unweighted" else x.a[0][0]
        c = tuple(env[t] for t in lits_of(y)) if clause else env[y]
        if c == key:
            s, hit = s + ev(w, env), True
    return s if hit else None


def one(F, name, ret, st, own, obj, env, code, A, ws, extra, nc, shape):
    w = env[W]
    if name in ("lit_weight", "clause_weight"):
        key = tuple(env[t] for t in extra) if name == "clause_weight" else env[L]
        want = weight_of(F, obj, key, env, name == "clause_weight")
        got = ev(ret.a[3][0], env) if ret.a[2] == "Some" else None
        return None if got == want else ("wrong", "says %s, which is %s" % (got, want))
    if name in ("weight_sum", "lit_weight_sum", "clause_weight_sum", "n_lits", "n_clauses", "n_softs", "offset"):
        k, p = parts(F, obj)
        vals = {}
        for q in ("soft_lits", "soft_clauses"):
            vals[q] = [ev(x.a[0][1] if k == "Weighted" else p["unit_weight"].a[3][0], env) for x in p[q].a[0]]
        g = ev(ret, env)
        both = vals["soft_lits"] + vals["soft_clauses"]
        want = {"weight_sum": sum(both), "lit_weight_sum": sum(vals["soft_lits"]), "clause_weight_sum": sum(vals["soft_clauses"]), "offset": env[OFF],
                "n_lits": len(vals["soft_lits"]), "n_clauses": len(vals["soft_clauses"]), "n_softs": len(both)}[name]
        return None if g == want else ("wrong", "gives %d instead of %d" % (g, want))
    for asg in A:
        old = total(F, obj, env, asg)
        if name in ("evaluate", "evaluate_no_offset"):
            if not all(((asg[t.a[1][0].a[0]] ^ 1) if v[0] == "=" and v[1] < 2 else None) == (v[1] ^ 0 if v[0] == "=" else None) or v[0] != "="
                       for t, v in st.facts.items() if valued(t) and t.t == "PURE"):
                # value 0 is true, 1 is false
                continue
            if any(v[0] == "=" and v[1] == 2 for t, v in st.facts.items() if valued(t)):
                continue
            got = ev(ret, env)
            want = old - (env[OFF] if name == "evaluate_no_offset" else 0)
            if got != want:
                return "value", "gives %d instead of %d" % (got, want)
            continue
        if name in ("set_offset", "increase_offset"):
            want = old + w - (env[OFF] if name == "set_offset" else 0)
            got = total(F, own, env, asg)
        elif name in ("increase_soft_lit", "increase_soft_lit_int", "increase_soft_clause"):
            want = old + w * softvalue(env, extra, nc, name, asg)
            got = total(F, own, env, asg)
        elif name in ("add_soft_lit", "add_soft_clause"):
            if name == "add_soft_clause" and not nc:
                had, want = None, old + w
            elif name == "add_soft_clause" and nc == 1:
                had = weight_of(F, obj, env[extra[0]] ^ 1, env, False)
                want = old + (w - (had or 0)) * softvalue(env, extra, nc, name, asg)
            else:
                had = weight_of(F, obj, tuple(env[t] for t in extra) if nc else env[L], env, bool(nc))
                want = old + (w - (had or 0)) * softvalue(env, extra, nc, name, asg)
            got = total(F, own, env, asg)
            g = ev(ret.a[3][0], env) if ret.t == "ADT" and ret.a[2] == "Some" else None
            if g != had:
                return "old", "returns %s as the old weight, which is %s" % (g, had)
        elif name == "reindex":
            want, got = old, total(F, ret, env, (tuple(1 - v for v in asg) + (0,) * SHIFT)[:SHIFT] + asg)
        elif name in KEEP:
            want, got = old, total(F, own if own is not None else ret, env, asg)
        elif name == "into_soft_cls":
            s, o = ret.a[0]
            want, got = old, ev(o, env) + cost(CC_items(s), True, env, asg)
        elif name == "into_unweighted_soft_cls":
            s, u, o = ret.a[0]
            want, got = old, ev(o, env) + cost(CC_items(s), True, env, asg, (), u)
        else:
            if name == "convert_to_soft_lits":
                cnf, f = ret, (lambda aux: total(F, own, env, asg, aux))
            elif name == "into_soft_lits":
                cnf = ret.a[0][0]
                s, o = ret.a[0][1].a[0]
                f = lambda aux: ev(o, env) + cost(CC_items(s), False, env, asg, aux)   # noqa: E731
            else:
                cnf, s, u, o = ret.a[0]
                f = lambda aux: ev(o, env) + cost(CC_items(s), False, env, asg, aux, u)   # noqa: E731
            cls = [lits_of(c) for c in CC_items(cnf).a[0]]
            naux = st.obs[1]
            vals = [f(aux) for aux in itertools.product((0, 1), repeat=naux) if all(any(lv(t, env, asg, aux) for t in c) for c in cls)]
            want, got = old, min(vals) if vals else None
        if got != want:
            return "value", "the cost of an assignment becomes %s instead of %s" % (got, want)
    return None


def CC_items(v):
    """the list in a CNF, vector or map"""
    while v.t == "ADT" and len(v.a[3]) == 1:
        v = v.a[3][0]
    if v.t != "LIST":
        raise Unknown(v)
    return v


def i04(F, r):
    objectives(F, r)
    r.rules += [
        "objective: for %d shapes of weighted and unweighted objectives (soft literals and clauses over at most three variables, with repetitions, conflicts, tautologies and units), every path of the operation "
        "is followed with symbolic weights and offset; the function from assignments to cost read off the resulting value (or returned number) must be the stated one, for every assignment and several orders of weights" % len(SHAPES),
        "conversion to soft literals: the least cost over the new variables that satisfies the returned clauses is compared",
    ]
    return {"level": "other", "explanation":
            "Exhaustive over the paths of each operation for the listed shapes of objectives, whose literals are symbols with a given pattern of order and equality; weights, unit weight and offset are symbols. "
            "The cost functions of the values before and after are compared on all assignments. Hash maps are modelled as lists of pairs in insertion order."}


CHECKS = {"I04": i04}
TECH = {"I04": ("symbolic execution over MIR of every operation on objectives, comparing the cost function of the result with the stated one", "objectives of up to four soft literals and three soft clauses")}
