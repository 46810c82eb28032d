"""P03: OPB operators, terms, bounds and objectives keep their meaning (reading, normalising and writing), as linear arithmetic on the paths of the code."""
import re

from . import iterx
from .mir import Client, Engine, Budget, mk, last, subterms, INT, UNIT, Ok, OPTION
from .rx import template
from .c_errors import failure
from .c_write import plain, where

W, B, S = "weight", "bound", "weight sum"


# ------------------------------------------------------------------ linear forms
def unwrapped(v):
    """conversions between integer types and references are transparent"""
    while True:
        if v.t == "FLD" and v.a[0].t == "BIN" and v.a[0].a[0].endswith("WithOverflow") and str(v.a[1][2]) == "0":
            v = v.a[0]
        elif v.t == "FLD" and str(v.a[1][0]) in ("Ok", "Some") and v.a[0].t in ("TRYCONV", "PURE", "CALL") and (v.a[0].t == "TRYCONV" or last(str(v.a[0].a[1] if v.a[0].t == "CALL" else v.a[0].a[0])).startswith(("try_", "checked_"))):
            x = v.a[0]
            if x.t == "TRYCONV":
                v = x.a[0]
            else:
                return v
        elif v.t in ("DEREF", "CAST"):
            v = v.a[0]
        elif v.t == "PURE" and last(str(v.a[0])) in ("try_from", "try_into", "from", "into", "unsigned_abs", "abs") and v.a[1]:
            if last(str(v.a[0])) in ("unsigned_abs", "abs"):
                return v
            v = v.a[1][0]
        else:
            return v


def lin(v, name, deref):
    """linear form {symbol: coefficient, 1: constant} of an integer value, or None"""
    for _ in range(12):
        v = unwrapped(v)
        if v.t == "REF":
            v = deref(v)
            continue
        break
    if v.t == "INT":
        return {1: v.a[0]}
    s = name(v)
    if s is not None:
        return dict(s) if isinstance(s, dict) else {s: 1}
    if v.t == "BIN":
        op, a, b = v.a[0], v.a[1], v.a[2]
        x, y = lin(a, name, deref), lin(b, name, deref)
        if x is None or y is None:
            return None
        if op.startswith("Add"):
            return plus(x, y)
        if op.startswith("Sub"):
            return plus(x, y, -1)
        if op.startswith("Mul"):
            for p, q in ((x, y), (y, x)):
                if set(p) <= {1}:
                    return {k: c * p.get(1, 0) for k, c in q.items()}
        return None
    if v.t == "UN" and v.a[0] == "Neg":
        x = lin(v.a[1], name, deref)
        return None if x is None else plus({}, x, -1)
    fn, args = None, ()
    if v.t == "CALL":
        fn, args = last(str(v.a[1])), v.a[2] if len(v.a) > 2 and isinstance(v.a[2], tuple) else v.a[2:]
    elif v.t == "PURE":
        fn, args = last(str(v.a[0])), v.a[1]
    elif v.t == "FLD":
        x = v.a[0]
        if x.t in ("CALL", "PURE"):
            fn, args = (last(str(x.a[1])), x.a[2:]) if x.t == "CALL" else (last(str(x.a[0])), x.a[1])
    if fn in ("add", "checked_add", "wrapping_add") and len(args) == 2:
        x, y = lin(args[0], name, deref), lin(args[1], name, deref)
        return None if x is None or y is None else plus(x, y)
    if fn in ("sub", "checked_sub", "wrapping_sub") and len(args) == 2:
        x, y = lin(args[0], name, deref), lin(args[1], name, deref)
        return None if x is None or y is None else plus(x, y, -1)
    if fn in ("neg", "checked_neg") and len(args) == 1:
        x = lin(args[0], name, deref)
        return None if x is None else plus({}, x, -1)
    return None


def plus(x, y, k=1):
    r = dict(x)
    for s, c in y.items():
        r[s] = r.get(s, 0) + k * c
    return {s: c for s, c in r.items() if c}


def form(x):
    if x is None:
        return "an unknown number"
    if not x:
        return "0"
    return " ".join(f"{'+' if c > 0 else '-'} {abs(c) if abs(c) != 1 or s == 1 else ''}{'' if s == 1 else s}".rstrip() for s, c in sorted(x.items(), key=lambda z: (z[0] == 1, str(z[0])))).lstrip("+ ")


# ------------------------------------------------------------------ literals
def litof(v, deref):
    """(the literal a value is made of, negated?) of a literal or its index"""
    neg = False
    for _ in range(20):
        if v.t in ("DEREF", "CAST"):
            v = v.a[0]
        elif v.t == "REF":
            v = deref(v)
        elif v.t == "FLD" and str(v.a[1][2]) == "lidx":
            v = v.a[0]
        elif v.t == "ADT" and len(v.a[3]) == 1 and str(v.a[2]) in ("Lit",):
            v = v.a[3][0]
        elif v.t == "BIN" and v.a[0] == "BitXor" and v.a[2].t == "INT" and v.a[2].a[0] == 1:
            neg = not neg
            v = v.a[1]
        elif v.t in ("CALL", "PURE") and last(str(v.a[1] if v.t == "CALL" else v.a[0])) == "not":
            x = v.a[2] if v.t == "CALL" else v.a[1]
            while isinstance(x, tuple):
                x = x[0]
            v, neg = x, not neg
        else:
            return v, neg
    return v, neg


def old(v):
    """the repr of a value without the marks of earlier iterations"""
    return re.sub(r"\(old,(CTX[^()]*)", r"(\1", repr(v))


class Base(Client):
    max_states = 6000
    max_depth = 10
    widen_after = 60
    widen_int = 60
    gc = True
    drive = True

    def __init__(self, F, file):
        self.F, self.file = F, file
        self.ends = []

    def inline(self, eng, key, fn, call, st):
        return fn["k"] == "closure" or fn["sp"][0] == self.file or fn["sp"][0].startswith("src/types") and len(fn["blocks"]) < 30

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((ret, st.copy()))


# ------------------------------------------------------------------ writers
class Out(Base):
    # obs: the text written so far, as characters and values (with the sign of their literal)
    terms = 2

    def inline(self, eng, key, fn, call, st):
        return Base.inline(self, eng, key, fn, call, st)

    def deref(self, eng, st):
        return lambda v: eng.at(st, v) if v.t == "REF" else v

    def sign(self, eng, st, v):
        """(repr of the literal whose variable is written, negated?, known sign of that literal) of a value computed from a variable index"""
        for x in subterms(v):
            if x.t == "BIN" and x.a[0] == "Shr":
                l, n = litof(x.a[1], self.deref(eng, st))
                break
        else:
            return None
        for f, val in st.facts.items():
            g, flip = f, False
            if g.t == "BIN" and g.a[0] in ("Eq", "Ne") and g.a[2].t == "INT" and val[0] == "=":
                truth = bool(val[1]) == (g.a[0] == "Eq")
                if not truth and g.a[2].a[0] not in (0, 1):
                    continue
                k = g.a[2].a[0] if truth else 1 - g.a[2].a[0]
                g = g.a[1]
            elif val[0] == "=":
                k = val[1]
            elif val[0] == "!" and len(val[1]) == 1 and list(val[1])[0] in (0, 1):
                k = 1 - list(val[1])[0]
            else:
                continue
            if g.t == "BIN" and g.a[0] == "BitAnd" and g.a[2].t == "INT" and g.a[2].a[0] == 1 and k in (0, 1):
                l2, n2 = litof(g.a[1], self.deref(eng, st))
                if l2 == l:
                    return (l, bool(k) != n2)       # the underlying literal, whether it is negative
        return (l, None)

    def on_call(self, eng, st, c):
        p, n = c.p, c.name
        if p.startswith("core::fmt::rt::Argument") and n.startswith("new_"):
            v = eng.strip(st, c.args[0])
            return [(mk("FARG", n, c.argt[0]["s"], v), st)]
        if "fmt::Arguments" in p and n == "from_str":
            v = eng.strip(st, c.args[0])
            return [(mk("FMTV", (v.a[0],) if v.t == "STR" else None, ()), st)]
        if "fmt::Arguments" in p and n.startswith("new"):
            b = eng.strip(st, c.args[0])
            pieces = template(b.a[0]) if b.t == "BYTES" else None
            arr = eng.strip(st, c.args[1]) if len(c.args) > 1 else None
            vals = []
            for v in (arr.a[0] if arr is not None and arr.t == "ARR" else ()):
                v = eng.strip(st, v)
                v = eng.strip(st, v.a[2]) if v.t == "FARG" else v
                vals.append(v)
            return [(mk("FMTV", tuple(pieces) if pieces is not None else None, tuple(vals)), st)]
        if n == "write_fmt" or n in ("write_all", "write_str") and "rite" in p:
            v = eng.strip(st, c.args[1])
            out = list(st.obs)
            if v.t == "FMTV" and v.a[0] is not None:
                vals = list(v.a[1])
                for x in v.a[0]:
                    if x is not None:
                        out.append(x)
                    elif not vals:
                        return []
                    else:
                        y = vals.pop(0)
                        if y.t == "STR":
                            out.append(y.a[0])
                        elif y.t == "INT":
                            out.append(str(y.a[0]))
                        else:
                            out.append((y, self.sign(eng, st, y)))
            elif v.t == "STR":
                out.append(v.a[0])
            elif v.t == "BYTES":
                out.append(bytes(v.a[0]).decode("utf-8", "replace"))
            else:
                return []
            if sum("x" in x for x in out if isinstance(x, str)) > self.terms:
                return []
            s = st.copy()
            s.obs = tuple(out)
            return [(Ok(UNIT), s)]
        if n == "fold" and len(c.args) == 3 and c.args[1].t == "INT" and c.args[1].a[0] == 0:
            r = self.total(eng, st, c)
            if r is not None:
                return [(r, st)]
        if n == "sum" and p.startswith("core::iter"):
            return [(mk("PURE", "sum of weights", (eng.strip(st, c.args[0]),)), st)]
        return None

    def total(self, eng, st, c):
        """folding an addition of the weight of each element"""
        it = eng.strip(st, c.args[0])
        acc = mk("ARG", "acc")
        got = set()
        try:
            for e, s in iterx.elems(eng, st.copy(), c, it, c.depth, ()):
                for r, s2 in eng.apply(s, c, c.args[2], (acc, e), c.depth, (), 31):
                    x = lin(r, lambda v: "acc" if v == acc else W if v.t == "FLD" and str(v.a[1][2]) == "1" else None, self.deref(eng, s2))
                    got.add(x is not None and x == {"acc": 1, W: 1})
        except Budget:
            return None
        return mk("PURE", "sum of weights", (it,)) if got == {True} else None


LINE = re.compile(r"^(?P<terms>(?:[^;\n]*? ~?x\x00 ?)*?)(?P<op>>=|<=|=|<|>) (?P<b>-?[0-9]+|\x00) ?;\n$")
TERM = re.compile(r"(?P<c>-?[0-9]+|-?\x00) (?P<n>~?)x\x00 ?")


def parts(obs):
    vals = [x for x in obs if not isinstance(x, str)]
    return "".join(x if isinstance(x, str) else "\0" for x in obs), vals


def omitted(st, want, li):
    """None if the facts say the linear form is zero, otherwise what they leave it"""
    res = set()
    neg = plus({}, want, -1)
    for t, v in st.facts.items():
        if li(t) in (want, neg) and li(t) is not None:
            if v == ("=", 0):
                return None
            res.add("not zero")
        if t.t == "BIN" and len(t.a) == 3 and v[0] == "=":
            a, b = li(t.a[1]), li(t.a[2])
            if a is None or b is None:
                continue
            d = plus(a, b, -1)
            if d not in (want, neg):
                continue
            op = str(t.a[0]).lower()
            sg = 1 if d == want else -1
            true = bool(v[1])
            if op in ("eq", "ne"):
                if (op == "eq") == true:
                    return None
                res.add("not zero")
            elif op in ("lt", "le", "gt", "ge"):
                neg_side = (op in ("lt", "le")) == true
                res.add("not above zero" if neg_side == (sg > 0) else "not below zero")
    if {"not above zero", "not below zero"} <= res:
        return None
    return sorted(res)[0] if res else "und"


def writer(F, r, f, kind):
    """kind: clause | card | pb | objective"""
    t = Out(F, f["sp"][0])
    e = Engine(F, t)
    try:
        e.run(f["key"], ())
    except Budget:
        r.undec(f"{f['p']}: budget")
        return
    for x in e.analysed:
        r.analysed.add(x)
    unit = kind in ("clause", "card")

    def name(v):
        if v.t == "FLD" and str(v.a[1][2]) == "b":
            return B
        if v.t in ("PURE", "CALL") and last(str(v.a[0] if v.t == "PURE" else v.a[1])) in ("sum of weights", "weight_sum"):
            return S
        if v.t == "FLD" and str(v.a[1][2]) == "weight_sum":
            return S
        if unit and v.t in ("PURE", "CALL") and last(str(v.a[0] if v.t == "PURE" else v.a[1])) == "len":
            return S
        if not unit and v.t == "FLD" and str(v.a[1][2]) == "1" and any(x.t in ("ELEM", "CALL") for x in subterms(v)):
            return W
        if kind == "objective" and v.t == "FLD" and v.a[0].t == "ARG" and str(v.a[1][2]) == "1":
            return "offset"
        return None

    seen = {}
    for ret, st in t.ends:
        if failure(ret):
            continue
        text, vals = parts(st.obs)
        dv = t.deref(e, st)
        what = None
        if kind == "objective":
            m = re.match(r"^min:(?P<terms>(?: -?[0-9\0]+ ~?x\0)*) ?;\n(?:\*[^\0\n]*(?P<b>\0|-?[0-9]+)\s*\n)?$", text)
        else:
            m = LINE.match(text)
        if not m:
            r.undec(f"{f['p']}: line {text[:60]!r} not understood")
            continue
        pos, a, k, bad = 0, set(), {}, None
        n = 0
        for tm in TERM.finditer(m["terms"]):
            n += 1
            c = tm["c"]
            if "\0" in c:
                cf = lin(vals[pos][0], name, dv)
                pos += 1
                if cf is not None and c.startswith("-"):
                    cf = plus({}, cf, -1)
            else:
                cf = {1: int(c)}
            l = vals[pos][1]
            pos += 1
            w = {1: 1} if unit else {W: 1}
            if cf is None:
                what = "coefficient not known"
                break
            sgn = 1 if cf == w else -1 if cf == plus({}, w, -1) else None
            if sgn is None:
                bad = f"writes a literal with coefficient {form(cf)} instead of its weight"
                break
            if l is None:
                what = "variable of a term not known"
                break
            if l[1] is None:
                bad = "writes a literal without regard to its sign"
                break
            inv = (tm["n"] == "~") != l[1]            # the written literal is the negation of the given one
            a.add(-sgn if inv else sgn)
            if inv:
                k = plus(k, w, sgn)
        if what or not n and not bad:
            if what:
                r.undec(f"{f['p']}: {what}")
            continue
        if not bad and len(a) > 1:
            bad = "writes some of the literals negated and some not"
        if not bad:
            sgn = a.pop()
            if kind == "objective":
                if sgn < 0:
                    bad = "writes the negation of the objective"
                elif m["b"] is None:
                    w0 = omitted(st, plus({"offset": 1}, k, -1), lambda x: lin(x, name, dv))
                    if w0 == "und":
                        r.undec(f"{f['p']}: it is not followed when the offset is left out")
                        continue
                    if w0:
                        bad = f"writes no offset when it is {w0}"
                else:
                    o = lin(vals[-1][0], name, dv) if m["b"] == "\0" else {1: int(m["b"])}
                    if o is None:
                        r.undec(f"{f['p']}: offset not known")
                        continue
                    if o != plus({"offset": 1}, k, -1):
                        bad = f"writes the offset {form(o)} for {n} term(s) instead of {form(plus({'offset': 1}, k, -1))}"
            else:
                b = lin(vals[-1][0], name, dv) if m["b"] == "\0" else {1: int(m["b"])}
                if b is None:
                    r.undec(f"{f['p']}: bound not known")
                    continue
                s = b.pop(S, 0)
                b = plus(plus(b, {1: n} if unit else {W: n}, s), k, -1)
                op = m["op"]
                if sgn < 0:
                    b = plus({}, b, -1)
                    op = {">=": "<=", "<=": ">=", "=": "=", "<": ">", ">": "<"}[op]
                want = "clause" if kind == "clause" else variant(F, f, st)
                if want is None:
                    r.undec(f"{f['p']}: kind of constraint not known")
                    continue
                wop, wb = {"clause": (">=", {1: 1}), "Ub": ("<=", {B: 1}), "Lb": (">=", {B: 1}), "Eq": ("=", {B: 1})}[want]
                if op in ("<", ">"):
                    b = plus(b, {1: 1 if op == ">" else -1})
                    op += "="
                if (op, b) != (wop, wb):
                    bad = f"writes {'a clause' if want == 'clause' else 'an upper bound' if want == 'Ub' else 'a lower bound' if want == 'Lb' else 'an equality'} " \
                          f"over {n} literal(s) as the constraint `sum {op} {form(b)}`"
        if bad:
            seen[bad] = seen.get(bad, 0) + 1
        else:
            r.ok("path", f["p"])
    for b in seen:
        r.bad(f"{f['p']}:{b[:60]}", f"{f['p']} {b}", where(f))
    if not seen and t.ends:
        r.ok("writer", f["p"])


def variant(F, f, st):
    for x, val in st.facts.items():
        if x.t == "DISCR" and val[0] == "=":
            y = x.a[0]
            while y.t in ("DEREF", "REF") and y.a and hasattr(y.a[0], "t"):
                y = y.a[0]
            if y.t == "ARG":
                for i in range(1, f["nargs"] + 1):
                    s = f["tys"][f["locals"][i]]
                    m = re.search(r"[\w:]*(Card|Pb)Constraint", s["s"])
                    a = m and next((z for k, z in F.adts.items() if k.endswith(m[0].split("::")[-1])), None)
                    if a:
                        return a["vs"][val[1]][0]
    return None


# ------------------------------------------------------------------ reading
class Rel(Base):
    """the parser of the operators: which text gives which operator"""

    def __init__(self, F, file):
        Base.__init__(self, F, file)
        self.pairs, self.order = {}, []

    def text(self, eng, st, v):
        v = eng.strip(st, v)
        return v.a[0] if v.t == "STR" else None

    def on_call(self, eng, st, c):
        n = c.name
        if n == "alt" and c.args:
            v = eng.strip(st, c.args[0])
            xs = [eng.strip(st, x) for x in v.a[0]] if v.t == "TUP" else list(v.a[0]) if v.t == "ARR" else []
            ts = [x.a[0] if x.t in ("STR", "OPVAL") else None for x in xs]
            if ts and None not in ts:
                self.order.append(ts)
        if n == "eq" and len(c.args) == 2:
            ts = [t for t in (self.text(eng, st, a) for a in c.args) if t is not None]
            if len(ts) == 1:
                if isinstance(st.obs, str):
                    return [(INT(int(st.obs == ts[0])), st)]
                if ts[0] in st.obs:
                    return [(INT(0), st)]
                a, b = st.copy(), st.copy()
                a.obs = ts[0]
                b.obs = st.obs + (ts[0],)
                return [(INT(1), a), (INT(0), b)]
        if n in ("value", "map", "default_value") and len(c.args) == 2:
            v = eng.strip(st, c.args[1])
            t = self.text(eng, st, c.args[0])
            if v.t == "ADT" and "Operator" in str(v.a[0]):
                self.pairs.setdefault(t if t is not None else st.obs, v.a[2])
                return [(mk("OPVAL", t), st)]
        return None

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            for x in subterms(ret):
                if x.t == "ADT" and "Operator" in str(x.a[0]):
                    self.pairs.setdefault(st.obs, x.a[2])


class Build(Base):
    """the constraint built from an operator"""

    def __init__(self, F, file):
        Base.__init__(self, F, file)
        self.made = []

    def on_call(self, eng, st, c):
        if re.match(r"new_(ub|lb|eq)", c.name) and "PbConstraint" in c.p:
            self.made.append((c.name[4:6], [eng.strip(st, a) for a in c.args], st.copy(), eng))
            return [(mk("CALL", c.site, c.p), st)]
        return None


MEANS = {"<=": ("<=", 0), ">=": (">=", 0), "=": ("=", 0), "<": ("<=", -1), ">": (">=", 1)}


def reading(F, r):
    ops = {k: f for k, f in F.fns.items() if f["sp"][0].endswith("fio/opb.rs") and not f.get("derived")}
    enum = next((a for k, a in F.adts.items() if k.split("::")[-1] == "OpbOperator"), None)
    pairs, order, site = {}, [], None
    for k, f in sorted(ops.items()):
        rt = f["tys"][f["locals"][0]]["s"]
        if not re.match(r"(core::result::Result<|core::option::Option<)?[\w:]*OpbOperator\b", rt) or any("OpbOperator" in f["tys"][f["locals"][i]]["s"] for i in range(1, f["nargs"] + 1)):
            continue
        t = Rel(F, f["sp"][0])
        e = Engine(F, t)
        try:
            e.run(k, ())
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        r.analysed |= set(e.analysed)
        pairs.update(t.pairs)
        order += t.order
        site = site or f
    table = {}
    alts = [x for o in order for x in o]
    for k, v in pairs.items():
        if isinstance(k, str):
            table[k] = v
        else:
            rest = sorted({x for x in alts if x not in k}) if k else []
            if len(rest) == 1:
                table[rest[0]] = v
    for o in order:
        for i, x in enumerate(o):
            if any(x != y and x.startswith(y) for y in o[:i]):
                r.bad(f"operator order:{x}", f"`{x}` can never be read: an alternative that is a prefix of it is tried first", where(site))
    builders = []
    for k, f in sorted(ops.items()):
        tys = [f["tys"][f["locals"][i]]["s"] for i in range(f["nargs"] + 1)]
        if "PbConstraint" in tys[0] and any("OpbOperator" in x for x in tys[1:]) and enum:
            builders.append((f, tys))
    sem = {}
    for f, tys in builders:
        i = next(j for j in range(1, len(tys)) if "OpbOperator" in tys[j])
        for vi, var in enumerate(enum["vs"]):
            vn = var[0]
            t = Build(F, f["sp"][0])
            e = Engine(F, t)
            args = e.default_args(f)
            op = mk("ADT", next(k for k in F.adts if k.split("::")[-1] == "OpbOperator"), vi, vn, ())
            bound = mk("ARG", "bound")
            if tys[i].startswith("("):
                from .c_errors import targs
                args[i - 1] = mk("TUP", tuple(op if "OpbOperator" in x else bound if x.strip() in ("isize", "i64", "i32", "i128") else mk("ARG", "sum") for x in targs("X<" + tys[i][1:-1] + ">")))
            else:
                args = [op if j == i else bound if tys[j] in ("isize", "i64") else a for j, a in enumerate(args, 1)]
            try:
                e.run(f["key"], (), args=args)
            except Budget:
                r.undec(f"{f['p']}: budget")
                continue
            r.analysed |= set(e.analysed)
            for ctor, a, st, eng in t.made:
                b = lin(a[-1], lambda v: B if v == bound else None, lambda v: eng.at(st, v))
                sem.setdefault(vn, []).append((ctor, b, f))
    n = 0
    for text, vn in sorted(table.items()):
        if text not in MEANS:
            continue
        wop, off = MEANS[text]
        for ctor, b, f in sem.get(vn, []):
            op = {"ub": "<=", "lb": ">=", "eq": "="}[ctor]
            if b is None:
                r.undec(f"bound of `{text}` not known")
            elif (op, b) != (wop, plus({B: 1}, {1: off})):
                r.bad(f"operator:{text}", f"`{text} bound` is read as `{op} {form(b)}`", where(f))
            else:
                n += 1
                r.ok("operator", text)
    r.floor("operator", 5, "relational operators read")


class Norm(Base):
    """one step of normalising a signed term: what is kept of it and what is added to a constant"""

    def __init__(self, F, file, coef):
        Base.__init__(self, F, file)
        self.coef = coef

    # obs: (kept terms, {root: change})
    def on_call(self, eng, st, c):
        if c.name in ("unsigned_abs", "abs") and len(c.args) == 1:
            return [(mk("PURE", "abs", (eng.strip(st, c.args[0]),)), st)]
        if c.name == "push" and len(c.args) == 2:
            s = st.copy()
            s.obs = (st.obs[0] + (eng.strip(st, c.args[1]),), st.obs[1])
            return [(UNIT, s)]
        return None

    def on_write(self, eng, st, root, path, val, where_):
        v = plain(val)
        if v.t == "BIN" and v.a[0][:3] in ("Add", "Sub") and (path or root.t != "L"):
            st.obs = (st.obs[0], st.obs[1] + ((val, repr(root) + repr(path)),))


def normalising(F, r):
    """functions that turn a term with a signed coefficient into one with a positive coefficient and a constant"""
    for k, f in sorted(F.fns.items()):
        if not f["sp"][0].startswith(("src/instances/fio/opb.rs", "src/types/constraints.rs")) or f.get("derived"):
            continue
        tys = [f["tys"][f["locals"][i]]["s"] for i in range(f["nargs"] + 1)]
        i = next((j for j in range(1, len(tys)) if re.fullmatch(r"\((\w+::)*Lit, isize\)", tys[j])), None)
        if i is None or not (f["name"] == "accumulate" or f["k"] == "closure" and re.fullmatch(r"\((\w+::)*Lit, usize\)", tys[0])):
            continue
        coef, lit = mk("ARG", "coef"), mk("ARG", "lit")
        t = Norm(F, f["sp"][0], coef)
        e = Engine(F, t)
        args = e.default_args(f)
        args[i - 1] = mk("TUP", (lit, coef))
        try:
            e.run(k, ((), ()), args=args)
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        r.analysed |= set(e.analysed)
        runs = []
        for ret, st in t.ends:
            sg = None
            for x, val in st.facts.items():
                if x.t == "BIN" and x.a[1] == coef and x.a[2].t == "INT" and x.a[2].a[0] == 0 and val[0] == "=":
                    yes = bool(val[1])
                    sg = {"Gt": 1 if yes else -1, "Ge": 1 if yes else -1, "Lt": -1 if yes else 1, "Le": -1 if yes else 1}.get(x.a[0], sg)
                if x.t == "BIN" and x.a[2] == coef and x.a[1].t == "INT" and x.a[1].a[0] == 0 and val[0] == "=":
                    yes = bool(val[1])
                    sg = {"Gt": -1 if yes else 1, "Ge": -1 if yes else 1, "Lt": 1 if yes else -1, "Le": 1 if yes else -1}.get(x.a[0], sg)
            if sg is None:
                r.undec(f"{f['p']}: sign of the coefficient not known")
                continue
            kept = list(st.obs[0]) + ([ret] if ret.t == "TUP" and len(ret.a[0]) == 2 else [])
            dv = lambda v: e.at(st, v)
            nm = lambda v: "coef" if v == coef else {"coef": sg} if v.t in ("PURE", "CALL") and last(str(v.a[0] if v.t == "PURE" else v.a[1])) == "abs" else "old" if v.t in ("FLD", "ARG", "DEREF", "CALL") else None
            total, ok = {}, len(kept) == 1
            for x in kept:
                if x.t != "TUP" or len(x.a[0]) != 2:
                    ok = False
                    continue
                a, b = x.a[0]
                l, neg = litof(b, dv) if litof(b, dv)[0] == lit else litof(a, dv)
                w = lin(a if litof(b, dv)[0] == lit else b, nm, dv)
                if l != lit or w is None:
                    ok = False
                    continue
                # w * (1 - lit) = w - w * lit
                total = plus(total, {"const": 1}, 0)
                total = plus(total, {("lit", s): c for s, c in w.items()}, -1 if neg else 1)
                if neg:
                    total = plus(total, {("const", s): c for s, c in w.items()})
            if not ok:
                r.undec(f"{f['p']}: kept term not known")
                continue
            coefs = {s[1]: c for s, c in total.items() if s[0] == "lit"}
            const = {s[1]: c for s, c in total.items() if s[0] == "const"}
            ds = {}
            for val, place in st.obs[1]:
                d = lin(val, nm, dv)
                ds[place] = None if d is None else plus(d, {"old": 1}, -1)
            runs.append((sg, coefs, const, ds))
        always = {p for sg, _, _, ds in runs if sg > 0 for p in ds}
        for sg, coefs, const, ds in runs:
            word = "positive" if sg > 0 else "negative"
            chg = [d for p, d in ds.items() if f["k"] != "closure" or p not in always]
            if None in ds.values():
                r.undec(f"{f['p']}: constant not known")
                continue
            # a closure collects what is to be added to the bound, an accumulator the constant of the function itself
            want = const if f["k"] == "closure" else plus({}, const, -1)
            if coefs != {"coef": 1}:
                r.bad(f"{f['p']}:term", f"{f['p']} keeps a term with a {word} coefficient as {form(coefs)} times the literal", where(f))
            elif const and chg != [want] or not const and any(chg):
                r.bad(f"{f['p']}:constant", f"{f['p']} does not keep the constant of a term with a {word} coefficient", where(f))
            else:
                r.ok("normalised", f["p"])


class Ctor(Base):
    drive = False

    def inline(self, eng, key, fn, call, st):
        return fn["k"] == "closure" or fn["sp"][0].startswith("src/types/mod") and len(fn["blocks"]) < 30

    def on_call(self, eng, st, c):
        if "convert_input_lits" in c.name:
            return [(mk("TUP", (mk("ARG", "kept"), mk("ARG", "total"), mk("ARG", "added"))), st)]
        return None


def constructors(F, r):
    for k, f in sorted(F.fns.items()):
        m = re.fullmatch(r"new_(ub|lb|eq)(_unsigned)?", f["name"] or "")
        if not m or f["sp"][0] != "src/types/constraints.rs" or "Constraint" not in f["p"]:
            continue
        t = Ctor(F, f["sp"][0])
        e = Engine(F, t)
        args = e.default_args(f)
        bound = args[-1]
        signed = any(b["t"][0] == "call" and (b["t"][1].get("p") or "").endswith("convert_input_lits") for b in f["blocks"])
        try:
            e.run(k, (), args=args)
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        r.analysed |= set(e.analysed)
        for ret, st in t.ends:
            if ret.t != "ADT" or not ret.a[3] or ret.a[3][0].t != "ADT":
                r.undec(f"{f['p']}: constraint built not known")
                continue
            a = F.adts.get(ret.a[3][0].a[0])
            names = [x[0] if isinstance(x, (list, tuple)) else x for x in a["vs"][0][2]] if a else []
            if "b" not in names:
                continue
            b = lin(ret.a[3][0].a[3][names.index("b")], lambda v: B if v == bound else "added" if v == mk("ARG", "added") else None, lambda v: e.at(st, v))
            want = plus({B: 1}, {"added": 1} if signed else {})
            if ret.a[2].lower() != m[1] or b != want and b is not None:
                r.bad(f"{f['p']}:built", f"{f['p']} builds the constraint {ret.a[2]} with the bound {form(b)}", where(f))
            elif b is None:
                r.undec(f"{f['p']}: bound not known")
            else:
                r.ok("constructor", f["p"])


def signs(F, r):
    """the marker of a negated literal"""
    for k, f in sorted(F.fns.items()):
        if f["k"] != "closure" or not f["sp"][0].endswith("fio/opb.rs") or f["nargs"] != 2:
            continue
        tys = [f["tys"][f["locals"][i]]["s"] for i in (0, 2)]
        t = Ctor(F, f["sp"][0])
        for neg in (0, 1):
            e = Engine(F, t)
            t.ends = []
            args = e.default_args(f)
            if re.fullmatch(r"(\w+::)*Lit", tys[0]) and re.fullmatch(r"\(bool, (\w+::)*Var\)", tys[1]):
                args[1] = mk("TUP", (INT(neg), mk("ARG", "var")))
            elif tys[0] == "bool" and re.fullmatch(r"core::option::Option<(char|&str)>", tys[1]):
                args[1] = mk("ADT", OPTION, neg, "Some" if neg else "None", (mk("ARG", "mark"),) if neg else ())
            else:
                continue
            try:
                e.run(k, (), args=args)
            except Budget:
                continue
            r.analysed |= set(e.analysed)
            for ret, st in t.ends:
                v = ret
                if v.t == "ADT" and v.a[3]:
                    v = plain(v.a[3][0])
                    got = v.a[2].a[0] if v.t == "BIN" and v.a[0].startswith(("Add", "BitOr", "BitXor")) and v.a[2].t == "INT" else 0 if v.t == "BIN" and v.a[0] == "Shl" else None
                else:
                    got = v.a[0] if v.t == "INT" else None
                if got is None:
                    r.undec(f"{f['p']}: sign not known")
                elif int(got) != neg:
                    r.bad(f"{f['p']}:sign", f"{f['p']} reads a {'negated' if neg else 'positive'} literal as a {'positive' if neg else 'negated'} one", where(f))
                else:
                    r.ok("sign", f["p"])


class Conv(Base):
    """converting a read objective with a sense to one that is minimised"""

    def inline(self, eng, key, fn, call, st):
        return fn["k"] == "closure" or fn["sp"][0].startswith("src/types") and len(fn["blocks"]) < 30 or \
            fn["sp"][0].startswith("src/instances") and any("ObjectiveSense" in t["s"] or "opb::Objective" in t["s"] for t in call.argt)

    # obs: (are the literals of the terms negated, changes of the offset)
    def on_call(self, eng, st, c):
        n = c.name
        if n == "sum" and c.p.startswith("core::iter"):
            return [(mk("PURE", "sum of weights", (eng.strip(st, c.args[0]),)), st)]
        if n == "increase_offset" and len(c.args) == 2:
            sense = None
            for x, val in st.facts.items():
                if x.t == "DISCR" and val[0] == "=" and any(y.t == "FLD" and str(y.a[1][2]) == "sense" for y in subterms(x)):
                    sense = val[1]
            self.seen.setdefault((sense, st.obs[-1:]), []).append((eng.strip(st, c.args[1]), st.copy(), c))
            return [(UNIT, st)]
        if n in ("collect", "from_iter", "extend") and re.search(r"\bObjective\b", c.dty["s"] + (c.argt[0]["s"] if n == "extend" else "")):
            it = eng.strip(st, c.args[-1])
            par = set()
            try:
                for e, s in iterx.elems(eng, st.copy(), c, it, c.depth, ()):
                    if getattr(e, "t", None) == "TUP":
                        for x in e.a[0]:
                            l, neg = litof(x, lambda v: eng.at(s, v))
                            if l.t == "FLD" and str(l.a[1][2]) == "1":
                                par.add(neg)
            except Budget:
                pass
            s = st.copy()
            s.obs = s.obs + ((par.pop() if len(par) == 1 else None),)
            return [(mk("CALL", c.site, c.p), s)]
        return None


def senses(F, r):
    for k, f in sorted(F.fns.items()):
        if f["k"] == "closure" or f["crate"] != "rustsat.lib" or f.get("derived") or f["sp"][0].endswith("opb.rs"):
            continue
        if not any(b["t"][0] == "call" and (b["t"][1].get("p") or "").endswith("increase_offset") for b in f["blocks"]) or not any("ObjectiveSense" in f["tys"][x]["s"] or "opb::Objective" in f["tys"][x]["s"] for x in f["locals"]):
            continue
        t = Conv(F, f["sp"][0])
        e = Engine(F, t)
        t.seen = {}
        t.block_cap, t.max_states = 6, 20000
        try:
            e.run(k, ())
        except Budget:
            r.undec(f"{f['p']}: budget")
        r.analysed |= set(e.analysed)
        for (sense, par), xs in t.seen.items():
            for v, st, c in xs:
                nm = lambda x: S if x.t in ("PURE", "CALL") and "sum of weights" in str(x.a[:2]) else "offset" if x.t == "FLD" and str(x.a[1][2]) == "offset" else None
                d = lin(v, nm, lambda x: e.at(st, x))
                p = par[0] if par else None
                if sense is None or d is None or p is None:
                    r.undec(f"{f['p']}: conversion of an objective not known ({sense}, {form(d)}, {p})")
                    continue
                want = ({"offset": 1}, False) if sense == 0 else ({"offset": -1, S: -1}, True)
                if (d, p) != want:
                    r.bad(f"{f['p']}:sense:{sense}", f"{f['p']} turns a {'minimisation' if sense == 0 else 'maximisation'} objective into one over {'negated' if p else 'its'} literals with the offset {form(d)}", c.where)
                else:
                    r.ok("sense", f["p"])


def p03(F, r):
    r.rules = ["reading: each operator text gives the constraint constructor and bound (as a linear form) it stands for, and no operator is shadowed by a prefix of it",
               "terms with signed coefficients are normalised to the same linear function: coefficient, literal and constant agree",
               "objectives to be maximised become the minimisation of their negation, including the constant",
               "writing: on every path (with up to two terms) the written terms, operator and bound state the constraint given, as linear forms in weight, weight sum and bound"]
    reading(F, r)
    normalising(F, r)
    constructors(F, r)
    signs(F, r)
    senses(F, r)
    for k, f in sorted(F.fns.items()):
        if not f["sp"][0].endswith("fio/opb.rs") or f["k"] == "closure" or f.get("derived"):
            continue
        tys = [f["tys"][f["locals"][i]]["s"] for i in range(1, f["nargs"] + 1)]
        if not tys or not tys[0].startswith("&mut "):
            continue
        kind = "card" if any(re.search(r"\bCardConstraint$", x) for x in tys) else "pb" if any(re.search(r"\bPbConstraint$", x) for x in tys) else \
            "clause" if f["name"].startswith("write_clause") else "objective" if any(re.fullmatch(r"\(\w+, isize\)", x) for x in tys) else None
        if kind:
            writer(F, r, f, kind)
    r.floor("path", 20, "written constraints")
    return {"level": "other", "explanation": "abstract interpretation of the reading, normalising and writing functions with linear arithmetic over weights, bounds and offsets; see rules"}


CHECKS = {"P03": p03}
TECH = {"P03": ("abstract interpretation of the OPB reader, term normalisation and writers; each path's operator, terms and bound are compared as linear forms with the constraint they must state",
                "paths of the writers are followed with up to two terms; the arithmetic per term is uniform")}
