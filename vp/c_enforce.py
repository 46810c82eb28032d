"""E01: the bounds an encoding reports as enforced are encoded in the direction asked for."""
import re

from . import lists, models
from .mir import Client, Engine, Budget, mk, last, subterms, succs, INT, Some, NONE, Ok, Err
from .c_opb import lin, plus

TOTALS = {"n_lits", "weight_sum"}
OUTT = re.compile(r"LitData|adder::Output")
RES = re.compile(r"Result<.*(OutOfMemory|EncodingError)")


def names(t):
    return {x.a[0] for x in subterms(t) if x.t == "ARG"}


def fields(t):
    return {x.a[1][2] for x in subterms(t) if x.t == "FLD"}


class Enforce(Client):
    """obs: (yielded literals, outputs looked at, buffers walked through)"""
    max_states = 8000
    max_depth = 8
    widen_after = 6
    widen_int = 4
    block_cap = 400
    gc = True

    def __init__(self, F, f, lower):
        self.F = F
        self.f = f
        self.lower = lower
        self.bound = None
        self.dpw = "dpw" in f["p"]
        self.ends = []

    def inline(self, eng, key, fn, call, st):
        return fn["crate"] == "rustsat.lib" and (fn["name"] or "") not in ("enforce_ub", "enforce_lb")

    def on_call(self, eng, st, c):
        n = c.name
        if not c.args:
            return None
        t0 = c.argt[0]["s"]
        if n in TOTALS:
            return [(mk("TOTAL"), st)]
        if n == "max_val" and self.dpw:
            return [(mk("TOTAL"), st)]
        if n == "index" and "totdb::Db" in t0:
            return [(mk("REF", mk("M", mk("NODE")), ()), st)]
        if n in ("index", "get") and OUTT.search(c.dty["s"]) and ("Vec<" in t0 or "[" in t0) and len(c.args) > 1:
            o = mk("OUT", c.args[1])
            r = mk("M", mk("OUTP", c.args[1]))
            st.store[r] = o
            s = self.look(st, o)
            if n == "index":
                return [(mk("REF", r, ()), s)]
            return [(NONE, st), (Some(mk("REF", r, ())), s)]
        if "Option<" in c.dty["s"] and "LitData" in c.dty["s"] and c.key in self.F.fns and len(c.args) > 1:
            o = mk("OUT", mk("BIN", "Sub", c.args[1], INT(1)))
            s = self.look(st, o)
            if "&" in c.dty["s"]:
                r = mk("M", mk("OUTP", c.args[1]))
                s.store[r] = o
                return [(NONE, st), (Some(mk("REF", r, ())), s)]
            return [(NONE, st), (Some(o), s)]
        if n in ("not", "neg") and t0.lstrip("&").endswith("types::Lit"):
            v = eng.strip(st, c.args[0])
            return [(v.a[0] if v.t == "NEGL" else mk("NEGL", v), st)]
        if n == "push" and "Vec<types::Lit" in t0:
            return [(mk("TUP", ()), self.give(eng, st, c.args[1]))]
        if n in ("rev_map_round_up", "rev_map"):
            return [(mk("PURE", n, (c.args[1],)), st)]
        if n == "vals" and "totdb" in t0:
            s = st.copy()
            s.obs = st.obs[:2] + (tuple(sorted(set(st.obs[2]) | {"from " + self.start(eng, st, c.args[1])})),)
            return [(mk("ITER", mk("VALS"), "iter"), s)]
        if n in ("digits", "pow"):
            return [(mk("POW"), st)]
        if n in ("last_key_value", "first_key_value"):
            return [(mk("PURE", n, (eng.strip(st, c.args[0]),)), st)]
        if n in ("any", "all", "collect", "extend") and not (c.key and c.key in self.F.fns):
            it = eng.strip(st, c.args[-1] if n == "extend" else c.args[0])
            if "lit_buffer" in repr(it):
                return self.outside(eng, st, c, it)
        if n in ("enforce_ub", "enforce_lb"):
            s = st.copy()
            s.obs = (st.obs[0] + (("via", True, True, True),),) + st.obs[1:]
            if "dpw" in self.f["p"] and not any("weight_queue" in fields(t) for t in st.facts):
                s.obs = s.obs[:2] + (s.obs[2] + ("noqueue",),)
            return [(mk("CALL", c.site, c.p), s)]
        return None

    def chain(self, eng, st, c, it):
        """[(an arbitrary element, state)] of a walk over the literals outside of the structure; None: not followed"""
        if it.t != "ITER" or len(it.a) < 2 or it.a[1] in models.NEUTRAL or it.a[1] in ("values", "keys", "into_keys", "into_values"):
            return [(models.elem(eng, st, c, it), st)] if it.t != "ITER" or it.a[0].t != "ITER" or it.a[1] not in ("copied", "cloned", "into_iter", "by_ref") \
                else self.chain(eng, st, c, it.a[0])
        if it.a[1] not in ("map", "filter"):
            return None
        sub = self.chain(eng, st, c, it.a[0])
        if sub is None:
            return None
        out = []
        for el, s in sub:
            for v, s2 in eng.apply(s.copy(), c, it.a[2], (el,), 2, ()):
                if it.a[1] == "map":
                    out.append((v, s2))
                else:
                    s2 = s2.copy()
                    if eng.assume(s2, v, 1):
                        out.append((el, s2))
        return out

    def mark(self, st, *ms):
        s = st.copy()
        s.obs = st.obs[:2] + (tuple(sorted(set(st.obs[2]) | set(ms))),)
        return s

    def outside(self, eng, st, c, it):
        """consumers of an iterator over the literals outside of the structure"""
        els = self.chain(eng, st, c, it)
        if els is None:
            return [(mk("CALL", c.site, c.p), self.mark(st, "buf", "bufq"))]
        out = []
        if c.name in ("any", "all"):
            stop = int(c.name == "any")
            for el, s in els:
                for v, s2 in eng.apply(s.copy(), c, c.args[1], (el,), 2, ()):
                    for truth in (0, 1):
                        s3 = s2.copy()
                        if not eng.assume(s3, v, truth):
                            continue
                        if truth == stop:
                            out.append((INT(stop), s3))
                        else:
                            out.append((INT(1 - stop), self.mark(s3, "buf", *(["heavy"] if self.above(eng, s3, None) else []))))
            out.append((INT(1 - stop), self.mark(st, "buf", "heavy")))
            return out
        for el, s in els:
            out.append((mk("CALL", c.site, c.p), self.mark(self.give(eng, s, el), "buf")))
        out.append((mk("CALL", c.site, c.p), self.mark(st, "buf")))
        return out

    def on_write(self, eng, st, root, path, val, where):
        if val.t == "ARR":
            for x in val.a[0]:
                if self.kind(eng.strip(st, x))[0] != "?":
                    st.obs = self.give(eng, st, x).obs

    def on_iter(self, eng, st, it, kind, call):
        r = repr(it)
        m = "buf" if "lit_buffer" in r else "vals" if "VALS" in r else "single" if "in_lits" in r else None
        if m is None:
            return
        if kind == "end":
            st.obs = (st.obs[0], st.obs[1], tuple(sorted(set(st.obs[2]) | {m})))
        elif m == "single" and self.dpw:
            # keeps what is known about the weight of the only input
            st.obs = (st.obs[0], st.obs[1] + (("hold", models.elem(eng, st, call, it)),), st.obs[2])
        elif m == "vals":
            # every output walked over has to be enforced before the next one
            st.obs = (st.obs[0], tuple(x for x in st.obs[1] if x != "val") + ("val",), tuple(sorted(set(st.obs[2]) | ({"skipped"} if "val" in st.obs[1] else set()))))
        elif m == "buf":
            st.obs = (st.obs[0], st.obs[1] + ("buf",), st.obs[2])

    def start(self, eng, st, v):
        """the first output asked for"""
        v = eng.strip(st, v)
        first = None
        if v.t == "ADT" and v.a[3]:
            first = v.a[3][0]
        elif v.t in ("CALL", "PURE") and last(str(v.a[1] if v.t == "CALL" else v.a[0])) == "new":
            first = (v.a[2:] if v.t == "CALL" else v.a[1])[0]
        if first is None:
            return "?"
        x = next((x for x in subterms(first) if x.t == "PURE" and x.a[0] == "rev_map_round_up"), None)
        d = self.lin(eng, st, eng.strip(st, x.a[1][0]) if x is not None else first)
        if d is None:
            return "?"
        return "next" if {k: c for k, c in d.items() if c} == {"b": 1, 1: 1} else "other"

    def look(self, st, o):
        s = st.copy()
        if "VALS" in repr(o):
            return s                    # accounted for by the element of the walk
        s.obs = (st.obs[0], tuple(x for x in st.obs[1] if x != o) + (o,), st.obs[2])
        return s

    def kind(self, v):
        neg = False
        while v.t in ("NEGL", "DEREF"):
            neg ^= v.t == "NEGL"
            v = v.a[0]
        o = next((x for x in subterms(v) if x.t == "OUT"), None)
        if o is not None:
            return "out", o, neg
        fs = fields(v)
        if "tares" in fs:
            return "tare", v, neg
        if any(x.t == "NODE" for x in subterms(v)):
            return "leaf", v, neg
        r = repr(v)
        if "lit_buffer" in r:
            return "buf", v, neg
        if "in_lits" in r:
            return "single", v, neg
        return "?", v, neg

    def give(self, eng, st, v):
        v = eng.strip(st, v)
        k, b, neg = self.kind(v)
        pol = neg != self.lower if k != "tare" else not neg
        flag = self.flagged(eng, st, b) if k == "out" else self.above(eng, st, b) if k == "buf" else True
        idx = self.index(eng, st, b) if k == "out" else True
        s = st.copy()
        s.obs = (tuple(sorted(set(st.obs[0]) | {(k, pol, flag, idx)}, key=str)), tuple(x for x in st.obs[1] if x != b and not (k == "buf" and x == "buf") and not (k in ("out", "leaf") and x == "val")), st.obs[2])
        return s

    def lin(self, eng, st, v):
        def name(t):
            if t.t == "TOTAL":
                return "total"
            if t.t == "ARG" and t.a[0] == self.bound:
                return "b"
            if t.t == "FLD" and t.a[1][2] == "offset":
                return "offset"
            if self.dpw:
                # the bound in units of the output's weight or of the precision; the weight of the only input
                if t.t == "BIN" and t.a[0] in ("Div", "Mul", "Shr") and t.a[1].t == "ARG" and t.a[1].a[0] == self.bound:
                    return "b"
                while t.t == "DEREF":
                    t = t.a[0]
                if t.t == "FLD" and t.a[1][1] == 1 and "in_lits" in repr(t):
                    return "total"
            return None
        return lin(v, name, lambda x: eng.strip(st, x))

    def index(self, eng, st, o):
        v = eng.strip(st, o.a[0])
        if self.dpw:
            return "div" if any(x.t == "BIN" and x.a[0] == "Div" and self.bound in names(x.a[1]) for x in [v]) else repr(v)[:80]
        d = self.lin(eng, st, v)
        if d is None:
            return "range" if "VALS" in repr(v) else "?"
        d.pop("offset", None)
        d = {k: n for k, n in d.items() if n}
        return d == ({"b": 1, 1: -1} if self.lower else {"b": 1})

    def flagged(self, eng, st, o):
        want = ("OnlyIf" if self.lower else "If", "IfAndOnlyIf")
        fld = "enc_only_if" if self.lower else "enc_if"
        for t, f in st.facts.items():
            if not any(x == o for x in subterms(t)):
                continue
            if t.t == "DISCR" and "semantics" in fields(t) and t.a[0].t == "FLD" and t.a[0].a[1][2] != "semantics":
                vs = self.semantics
                left = [n for n, d in vs.items() if (d == f[1] if f[0] == "=" else d not in f[1])]
                if left and all(n in want for n in left):
                    return True
            if t.t == "FLD" and t.a[1][2] == fld and f == ("=", 1):
                return True
        return False

    def above(self, eng, st, w):
        """the literal outside of the structure weighs more than the bound; None: not decided"""
        def name(t):
            while t.t == "DEREF":
                t = t.a[0]
            if t.t == "ARG" and t.a[0] == self.bound:
                return "b"
            if t.t == "CALL" and t.a[1] == "elem" and {"values", "into_values"} & set(models.source(t.a[2])[1]):
                return "w" if "lit_buffer" in repr(t) else None
            return "w" if t.t == "FLD" and t.a[1][1] == 1 and "lit_buffer" in repr(t) else None
        if "heavy" in st.obs[2]:
            return True
        for t, f in st.facts.items():
            if t.t == "BIN" and t.a[0] in ("Le", "Lt") and f[0] == "=" and "lit_buffer" in repr(t) and self.bound in names(t):
                a, b = (lin(eng.strip(st, x), name, lambda x: eng.strip(st, x)) for x in t.a[1:])
                if a is None or b is None:
                    return None
                d = {k: c for k, c in (implied(plus(b, a, -1), t.a[0], f[1] == 1) or {}).items() if c}
                if d.pop(1, 0) <= -1 and d == {"w": 1, "b": -1}:
                    return True
        return False

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((ret, st))


def enforcers(F):
    return {k: f for k, f in F.fns.items() if f["crate"] == "rustsat.lib" and f["name"] in ("enforce_ub", "enforce_lb") and f["k"] != "closure"
            and f["sp"][0].startswith("src/encodings") and "simulators" not in f["sp"][0]}


def bound_of(eng, f):
    a = eng.default_args(f)
    return next((a[i].a[0] for i in range(f["nargs"]) if f["tys"][f["locals"][i + 1]]["s"] == "usize"), None)


def implied(d, op, truth):
    """the fact as a linear form that is at least 0, given (a op b) = truth and d = b - a"""
    neg = {k: -c for k, c in d.items()}
    if op == "Eq":
        return d if truth else None
    if op == "Le":
        return d if truth else plus(neg, {1: -1})
    if op == "Lt":
        return plus(d, {1: -1}) if truth else neg
    return None


def trivial(eng, t, st):
    """True: the bound cannot be violated; False: it can; None: not decided"""
    open_ = False
    for x, f in st.facts.items():
        if not t.lower and x.t == "PURE" and (x.a[0], f) in (("len", ("=", 0)), ("is_empty", ("=", 1))) and "in_lits" in repr(x):
            return True
        if t.lower and x.t == "ARG" and x.a[0] == t.bound:
            if f == ("=", 0):
                return True
            continue
        if not (x.t == "BIN" and x.a[0] in ("Le", "Lt", "Eq") and f[0] == "="):
            open_ |= t.bound in names(x)
            continue
        a, b = (t.lin(eng, st, eng.strip(st, y)) for y in x.a[1:])
        if a is None or b is None:
            open_ |= t.bound in names(x)
            continue
        d = implied(plus(b, {k: -c for k, c in a.items()}), x.a[0], f[1] == 1)
        if d is None:
            continue
        d = {k: c for k, c in d.items() if c}
        k = d.pop(1, 0)
        off = d.pop("offset", 0)
        # bound >= total [- offset], or bound <= 0
        if k <= 0 and not t.lower and d == {"b": 1, "total": -1} and off in (0, 1):
            return True
        if k <= 0 and t.lower and d == {"b": -1} and off == 0:
            return True
    return None if open_ else False


def emptied(x, v):
    """the fact says that there are no literals outside of the structure"""
    if "lit_buffer" not in repr(x):
        return False
    if x.t == "PURE":
        return x.a[0] == "is_empty" and v == ("=", 1) or x.a[0] == "len" and v == ("=", 0)
    if x.t == "BIN":
        a, b = x.a[1:]
        if a == INT(0) and b.t == "PURE":
            return x.a[0] == "Lt" and v == ("=", 0) or x.a[0] == "Eq" and v == ("=", 1)
        if a.t == "PURE" and a.a[0] == "len":
            return (x.a[0], b, v) in (("Eq", INT(0), ("=", 1)), ("Le", INT(0), ("=", 1)), ("Lt", INT(1), ("=", 1)))
        return (x.a[0], a, v) == ("Le", INT(1), ("=", 0))
    return False


def has_field(F, f, name):
    """type the function is a method of has the field"""
    if f.get("self") is None:
        return False
    ad = F.adts.get(f["tys"][f["self"]].get("d"))
    return ad is not None and any(x[0] == name for v in ad["vs"] for x in v[2])


def judge(F, r, key, f):
    t = Enforce(F, f, f["name"].endswith("lb"))
    t.semantics = semantics(F)
    e = Engine(F, t)
    t.bound = bound_of(e, f)
    name = f["p"].replace("rustsat::", "")
    where = "%s:%s" % (f["sp"][0], f["sp"][1])
    if t.bound is None:
        r.undec("%s: no parameter for the bound" % name)
        return
    try:
        e.run(key, ((), (), ()))
    except Budget as x:
        r.undec("%s: %s" % (name, x))
        return
    r.analysed |= set(e.analysed)
    said = set()

    def bad(k, m):
        if k not in said:
            said.add(k)
            r.bad("%s:%s" % (name, k), "%s %s" % (name, m), where)
    oks = 0
    for ret, st in t.ends:
        ys, pend, marks = st.obs
        via = any(y[0] == "via" for y in ys)
        if not via:
            if ret.t != "ADT":
                r.undec("%s: result not followed" % name)
                continue
            if ret.a[1] != 0:
                continue
        oks += 1
        for k, pol, flag, idx in ys:
            if k == "?":
                r.undec("%s: a returned literal is not recognised" % name)
            elif not pol:
                bad("polarity", "returns an output literal that enforces the opposite of the bound")
            elif not flag and k == "out":
                bad("unencoded", "returns an output literal as enforcing the bound although its clauses for this direction were not encoded")
            elif flag is None:
                r.undec("%s: weight of a literal outside of the structure not followed" % name)
            elif not flag:
                bad("buffer", "passes over a literal outside of the structure that may weigh more than the bound")
            elif idx is False:
                bad("index", "enforces the output of a different bound")
            elif idx not in (True, "range", "div"):
                r.undec("%s: index of an output not followed" % name)
        if "from other" in marks:
            bad("range", "starts with the outputs of a different bound")
        if "from ?" in marks:
            r.undec("%s: first output not followed" % name)
        if "noqueue" in marks and has_field(F, f, "weight_queue"):
            bad("queue", "enforces a bound although inputs are still outside of the structure")
        if any(not isinstance(p, (str, tuple)) for p in pend) or "skipped" in marks or "val" in pend:
            bad("skipped", "returns Ok although an output that may violate the bound was looked up and not enforced")
        if via:
            continue
        if "bufq" in marks:
            r.undec("%s: walk over the literals outside of the structure not followed" % name)
            continue
        triv = trivial(e, t, st)
        if not ys and triv is not True and not set(marks) & {"vals", "buf", "single"}:
            if triv is None:
                r.undec("%s: path returning no literals not decided" % name)
            else:
                bad("nothing", "returns Ok without literals although the bound is neither trivial nor encoded")
        if triv is not True and has_field(F, f, "lit_buffer") and "buf" not in marks \
                and not any(emptied(x, v) for x, v in st.facts.items()):
            bad("buffer", "returns Ok although there may be input literals outside of the structure")
    if oks:
        r.ok("enforce", "%s: %d ends" % (name, oks))


def semantics(F):
    ad = next((a for k, a in F.adts.items() if k.endswith("Semantics") and {v[0] for v in a["vs"]} == {"If", "OnlyIf", "IfAndOnlyIf"}), None)
    return {v[0]: int(v[1]) for v in ad["vs"]} if ad else None


# ------------------------------------------------------------------ when outputs are marked as encoded
FLAGS = ("enc_if", "enc_only_if")


def scope(F):
    return {k: f for k, f in F.fns.items() if f["crate"] == "rustsat.lib" and f["sp"][0].startswith("src/encodings") and not f.get("derived")
            and "::_::<impl" not in f["p"] and "/tests" not in f["sp"][0]}


def lastfield(pl):
    fs = [x for x in pl[1] if x != "*"]
    return fs[-1][2] if fs and fs[-1][0] == "f" else None


def defs(f):
    d = {}
    for b in f["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and not s[1][1]:
                d.setdefault(s[1][0], []).append(s[2])
        t = b["t"]
        if t[0] == "call" and not t[3][1]:
            d.setdefault(t[3][0], []).append(("call", t))
    return d


def is_none(ds, op):
    """the operand is surely Option::None"""
    if op[0] == "c":
        return False
    if op[1][1]:
        return False
    for rv in ds.get(op[1][0], [("?",)]):
        if rv[0] == "use" and rv[1][0] != "c" and not rv[1][1][1] and rv[1][1][0] != op[1][0]:
            if not is_none(ds, rv[1]):
                return False
        elif not (rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("Option") and rv[1][2] == 0):
            return False
    return True


def truth(op):
    return op[0] == "c" and op[2] == ["i", 1]


def sets(F, f):
    """(block, flag) of the places that mark an output as encoded"""
    ds = defs(f)
    for bi, b in enumerate(f["blocks"]):
        for s in b["s"]:
            if s[0] != "=":
                continue
            n, rv = lastfield(s[1]), s[2]
            if s[1][1] and last(rv[1][1] if rv[0] == "agg" and rv[1][0] == "adt" else "") == "Option" and rv[1][2] == 1 \
                    and re.search(r"Option<.*totdb::Semantics>$", f["tys"][s[1][2]]["s"]):
                yield bi, "semantics"
            if n in FLAGS and rv[0] == "use" and truth(rv[1]):
                yield bi, n
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][4]:
                for fn_, op in zip(rv[1][4], rv[2]):
                    if fn_ in FLAGS and truth(op):
                        yield bi, fn_
                    if fn_ == "semantics" and not is_none(ds, op) and last(rv[1][1]) == "LitData":
                        yield bi, fn_


def calls(f):
    for bi, b in enumerate(f["blocks"]):
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], dict):
            yield bi, t


def target(t):
    return t[1].get("r") or t[1].get("d")


def adds(t):
    return re.search(r"totdb::Semantics::add$", t[1].get("rp") or t[1].get("p") or "") is not None


def fallible(f, t):
    return RES.search(f["tys"][t[3][2]]["s"]) is not None


def produces(f, t):
    """a call that may add clauses: fallible, and not a mere conversion of an error"""
    return fallible(f, t) and last(t[1].get("p") or "") not in ("branch", "from_residual", "from_output", "map_err", "from", "into", "ok", "map", "and_then")


def dominators(f):
    n = len(f["blocks"])
    pred = [[] for _ in range(n)]
    for i, b in enumerate(f["blocks"]):
        for s in succs(b["t"]):
            pred[s].append(i)
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for i in range(1, n):
            if pred[i]:
                d = set.intersection(*(dom[p] for p in pred[i])) | {i}
                if d != dom[i]:
                    dom[i] = d
                    ch = True
    return dom


def marked(F, r):
    fs = scope(F)
    direct = {k: list(sets(F, f)) for k, f in fs.items()}
    prod = {k: {bi for bi, t in calls(f) if produces(f, t)} for k, f in fs.items()}
    setters = set()
    ch = True
    while ch:
        ch = False
        for k, f in fs.items():
            if k in setters or prod[k] or f["k"] == "closure":
                continue
            if direct[k] or any(target(t) in setters or adds(t) for _, t in calls(f)):
                # a function that takes no collector only stores what it is told
                setters.add(k)
                ch = True
    for k, f in sorted(fs.items()):
        if k in setters:
            continue
        at = direct[k] + [(bi, last(t[1].get("p") or "")) for bi, t in calls(f) if target(t) in setters or adds(t)]
        if not at:
            continue
        name = f["p"].replace("rustsat::", "")
        where = "%s:%s" % (f["sp"][0], f["sp"][1])
        r.analysed.add(k)
        dom = dominators(f)
        for bi, what in sorted(set(at)):
            t = f["blocks"][bi]["t"]
            start = succs(t) if t[0] != "call" or target(t) in setters or bi not in prod[k] else None
            late = bi in prod[k] and start is None
            seen, todo = set(), list(start or [])
            while todo and not late:
                b = todo.pop()
                if b in seen or b in dom[bi]:
                    continue
                seen.add(b)
                if b in prod[k]:
                    late = True
                todo += succs(f["blocks"][b]["t"])
            before = any(bi in reach_from(f, b) for b in prod[k])
            if late:
                r.bad("%s:%s:early" % (name, what), "%s marks an output as encoded (%s) while clauses of it are still to be added: when adding "
                      "them fails, the bound is reported as encoded" % (name, what), where)
            elif not before and prod[k]:
                r.bad("%s:%s:never" % (name, what), "%s marks an output as encoded (%s) on a path that has added no clauses" % (name, what), where)
            else:
                r.ok("mark", "%s: %s" % (name, what))


def reach_from(f, b):
    seen, todo = set(), list(succs(f["blocks"][b]["t"]))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += succs(f["blocks"][x]["t"])
    return seen


# ------------------------------------------------------------------ what the operations on directions do
def operations(F, r):
    sem = semantics(F)
    if not sem:
        return
    key = next(k for k, a in F.adts.items() if k.endswith("Semantics") and {v[0] for v in a["vs"]} == set(sem))
    idx = {v[0]: i for i, v in enumerate(F.adts[key]["vs"])}
    val = lambda n: mk("ADT", key, idx[n], n, ())
    bits = {"If": 1, "OnlyIf": 2, "IfAndOnlyIf": 3}
    back = {v: k for k, v in bits.items()}
    opt = lambda b: NONE if not b else Some(val(back[b]))
    fns = {f["name"]: (k, f) for k, f in F.fns.items() if f["crate"] == "rustsat.lib" and f["p"].replace("rustsat::", "").startswith("encodings::totdb::Semantics::")
           and f["k"] != "closure"}

    class Pure(Client):
        def inline(self, eng, k, fn, call, st):
            return fn["crate"] == "rustsat.lib"

    def run(k, args, store):
        c = Pure()
        ends = []
        c.on_return = lambda eng, st, fn, ret, depth: ends.append((ret, st)) if depth == 0 else None
        e = Engine(F, c)
        try:
            e.run(k, (), args=args, store=store)
        except Budget:
            return None, e
        r.analysed.update(e.analysed)
        return ends, e
    for n, arity, want in (("has_if", 1, lambda a: a & 1 > 0), ("has_only_if", 1, lambda a: a & 2 > 0), ("missing", 2, lambda a, b: opt(b & ~a)),
                           ("remove", 2, lambda a, b: opt(a & ~b)), ("add", 2, lambda a, b: val(back[a | b]))):
        if n not in fns:
            continue
        k, f = fns[n]
        for x in bits:
            for y in bits if arity == 2 else [None]:
                args, store = [val(x)] + ([val(y)] if y else []), {}
                ref = f["tys"][f["locals"][1]]["s"].startswith("&")
                if ref:
                    m = mk("M", mk("SELFSEM"))
                    store[m] = val(x)
                    args[0] = mk("REF", m, ())
                ends, e = run(k, args, store)
                what = "%s(%s%s)" % (n, x, ", " + y if y else "")
                w = want(bits[x], *([bits[y]] if y else []))
                for ret, st in ends or []:
                    got = st.store.get(m) if n == "add" else e.strip(st, ret)
                    exp = INT(int(w)) if isinstance(w, bool) else w
                    if got == exp:
                        r.ok("direction", what)
                    elif got is not None and concrete(got):
                        r.bad("Semantics::%s" % n, "%s of the encoded directions is wrong" % what, "%s:%s" % (f["sp"][0], f["sp"][1]))
                    else:
                        r.undec("%s not evaluated" % what)
                if not ends:
                    r.undec("%s not evaluated" % what)


def concrete(v):
    return v.t == "INT" or v.t == "ADT" and all(concrete(x) for x in v.a[3])


# ------------------------------------------------------------------ building anew forgets
NEED = {"encode_ub": {"if"}, "encode_lb": {"only_if"}, "encode_both": {"if", "only_if"}}
DIRS = {"If": {"if"}, "OnlyIf": {"only_if"}, "IfAndOnlyIf": {"if", "only_if"}}


class Anew(Client):
    """obs: (what is forgotten, a walk over all nodes ended)"""
    max_states = 6000
    max_depth = 6
    widen_after = 4
    block_cap = 300
    gc = True

    def __init__(self, F, own):
        self.F = F
        self.own = own
        self.firsts = []
        self.sem = {v: k for k, v in (semantics(F) or {}).items()}

    def inline(self, eng, key, fn, call, st):
        return fn["crate"] == "rustsat.lib"

    def forget(self, st, what):
        s = st.copy()
        s.obs = (frozenset(st.obs[0] | what), st.obs[1])
        return s

    def on_call(self, eng, st, c):
        if c.name == "remove_semantics" and len(c.args) > 1:
            v = eng.strip(st, c.args[1])
            if v.t == "ADT":
                n = next((vs[0] for i, vs in enumerate(self.F.adts[v.a[0]]["vs"]) if i == v.a[1]), None)
                return [(mk("TUP", ()), self.forget(st, {("sem", d) for d in DIRS.get(n, ())}))]
            return [(mk("TUP", ()), self.forget(st, {("sem", "?")}))]
        if any(x.t == "ARG" and x.a[0] in self.cols for a in c.args for x in subterms(eng.strip(st, a))):
            m = re.match(r"^encode_(ub|lb|both)(_cert)?$", c.name)
            if m and self.F.fns.get(c.key):
                # builds anew itself
                return [(mk("CALL", c.site, c.p), self.forget(st, {(k, d) for k in ("sem", "sum", "carry", "comparator") for d in NEED["encode_" + m[1]]}))]
            self.firsts.append((st, c.name))
            return []
        return None

    def on_write(self, eng, st, root, path, val, where):
        n = path[-1][2] if path else None
        if n in FLAGS and eng.strip(st, val) == INT(0):
            r = repr(root) + repr(path)
            st.obs = (frozenset(st.obs[0] | {(k, n[4:]) for k in ("sum", "carry", "comparator") if k in r} | ({("?", n[4:])} if not any(
                k in r for k in ("sum", "carry", "comparator")) else set())), st.obs[1])

    def on_iter(self, eng, st, it, kind, call):
        if kind == "end":
            st.obs = (st.obs[0], True)


def anew(F, r):
    for k, f in sorted(scope(F).items()):
        m = re.match(r"^encode_(ub|lb|both)(_cert)?$", f["name"] or "")
        if not m or f["k"] == "closure" or "simulators" in f["sp"][0] or not re.search(r" as .*(Bound(Upper|Lower|Both)|Cert)", f["p"]) and f.get("self") is None:
            continue
        if not f["p"].startswith("<"):
            continue                    # provided methods of the traits only combine these
        flags = "adder" in f["p"] or "Adder" in f["p"]
        e = Engine(F, None)
        c = Anew(F, flags)
        args = e.default_args(f)
        c.cols = {a.a[0] for i, a in enumerate(args) if i and re.search(r"&'?\w*\s?mut (Col|C|dyn)", f["tys"][f["locals"][i + 1]]["s"]) and "ManageVars" not in f["tys"][f["locals"][i + 1]]["s"]}
        name = f["p"].replace("rustsat::", "")
        if not c.cols:
            r.undec("%s: no collector" % name)
            continue
        e = Engine(F, c)
        ends = []
        c.on_return = lambda eng, st, fn, ret, depth: ends.append((ret, st)) if depth == 0 else None
        try:
            e.run(k, (frozenset(), False))
        except Budget as x:
            r.undec("%s: %s" % (name, x))
            continue
        r.analysed |= set(e.analysed)
        need = {(s, d) for d in NEED["encode_" + m[1]] for s in (("sum", "carry", "comparator") if flags else ("sem",))}
        firsts = [st for st, _ in c.firsts] + [st for ret, st in ends if ret.t != "ADT"]
        if not firsts:
            r.undec("%s: no clauses added" % name)
            continue
        got = set().union(*(st.obs[0] for st in firsts))
        where = "%s:%s" % (f["sp"][0], f["sp"][1])
        if not need <= got:
            if any("?" in x for x in got):
                r.undec("%s: reset not followed" % name)
                continue
            r.bad("%s:kept" % name, "%s builds the encoding anew but still counts what was encoded before: %s" % (
                name, ", ".join(sorted("%s/%s" % x for x in need - got))), where)
        elif any(not need <= st.obs[0] and not st.obs[1] for st in firsts):
            r.bad("%s:sometimes kept" % name, "%s builds the encoding anew without forgetting what was encoded before on some path" % name, where)
        else:
            r.ok("anew", name)


def resetters(F, r):
    """the reset of a totalizer database covers every kind of node that has outputs"""
    for k, f in sorted(scope(F).items()):
        if f["k"] == "closure" or (f["name"] or "") != "reset_encoded" or "totdb" not in f["sp"][0]:
            continue
        have, todo, seen = set(), [k], set()
        while todo:
            x = todo.pop()
            if x in seen or x not in F.fns:
                continue
            seen.add(x)
            g = F.fns[x]
            r.analysed.add(x)
            todo += [y for y in F.fns if y.startswith(x + "::{closure")]
            for b in g["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "ref":
                        have |= {p[2] for p in s[2][2][1] if p != "*" and p[0] == "v"}
                t = b["t"]
                if t[0] == "call" and isinstance(t[1], dict) and target(t) in scope_keys(F):
                    todo.append(target(t))
        for v in ("Unit", "General"):
            if v in have:
                r.ok("reset", "%s nodes" % v)
            else:
                r.bad("reset_encoded:%s" % v, "resetting what was encoded leaves out the %s nodes" % v, "%s:%s" % (f["sp"][0], f["sp"][1]))


def scope_keys(F):
    if not hasattr(F, "_ekeys"):
        F._ekeys = set(scope(F))
    return F._ekeys


# ------------------------------------------------------------------ directions of the adder
def flagreads(f):
    out = set()
    for b in f["blocks"]:
        for s in b["s"]:
            if s[0] == "=":
                for op in ops(s[2]):
                    if op[0] in ("cp", "mv") and lastfield(op[1]) in FLAGS:
                        out.add(lastfield(op[1]))
        t = b["t"]
        if t[0] == "switch" and t[1][0] in ("cp", "mv") and lastfield(t[1][1]) in FLAGS:
            out.add(lastfield(t[1][1]))
    return out


def ops(rv):
    for x in rv[1:]:
        if isinstance(x, list):
            if x and x[0] in ("cp", "mv", "c"):
                yield x
            elif x and isinstance(x[0], list):
                for y in x:
                    if y and y[0] in ("cp", "mv", "c"):
                        yield y


def directions(F, r):
    fs = {k: f for k, f in scope(F).items() if f["sp"][0].endswith("adder.rs")}

    def body(k):
        return [k] + [x for x in fs if x.startswith(k + "::{closure")]
    reads = {k: set().union(*(flagreads(fs[x]) for x in body(k))) for k in fs}
    writes = {k: {n for x in body(k) for _, n in sets(F, fs[x]) if n in FLAGS} for k in fs}
    callee = {k: {target(t) for x in body(k) for _, t in calls(fs[x])} & set(fs) for k in fs}
    memo = {}

    def whole(k, stack=()):
        """directions a function works on"""
        if k in memo:
            return memo[k]
        if k in stack:
            return set()
        d = reads[k] or writes[k] or set().union(set(), *(whole(g, stack + (k,)) for g in callee[k]))
        if not stack:
            memo[k] = d
        return d
    for k, f in sorted(fs.items()):
        want = {"encode_ub_change": "enc_if", "enforce_ub": "enc_if", "encode_lb_change": "enc_only_if", "enforce_lb": "enc_only_if"}.get(f["name"] or "")
        if want is None or f["k"] == "closure":
            continue
        other = next(x for x in FLAGS if x != want)
        todo, seen = [k], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            g = fs[x]
            r.analysed.add(x)
            n = g["name"]
            where = "%s:%s" % (g["sp"][0], g["sp"][1])
            if reads[x] >= set(FLAGS):
                r.undec("%s handles both directions" % n)
                continue
            if other in reads[x]:
                r.bad("%s:tests %s" % (n, other), "%s tests whether the other direction is encoded" % n, where)
            if other in writes[x]:
                r.bad("%s:sets %s" % (n, other), "%s marks the other direction as encoded" % n, where)
            if other not in reads[x] | writes[x]:
                r.ok("side", "%s in %s" % (n, f["name"]))
            for y in sorted(callee[x]):
                if whole(y) == {other}:
                    r.bad("%s:calls %s" % (n, fs[y]["name"]), "%s builds on %s, which encodes the other direction" % (n, fs[y]["name"]), where)
                elif whole(y):
                    todo.append(y)


# ------------------------------------------------------------------ returning an existing output
class Define(Client):
    max_states = 8000
    max_depth = 6
    widen_after = 4
    block_cap = 400
    gc = True

    def __init__(self, F, cols):
        self.F = F
        self.cols = cols
        self.ends = []

    def inline(self, eng, key, fn, call, st):
        return fn["crate"] == "rustsat.lib" and "totdb" in fn["sp"][0] and not re.search(r"Iter|NodeCon|max_val|::vals$", fn["p"])

    def on_call(self, eng, st, c):
        if c.depth == 0 and any(x.t == "ARG" and x.a[0] in self.cols for a in c.args for x in subterms(eng.strip(st, a))):
            return []                   # clauses may be added from here on
        if c.name == "add_semantics":
            s = st.copy()
            s.obs = ("marked",)         # needs no clauses; see `marked` for the order
            return [(mk("TUP", ()), s)]
        if c.name == "index" and "totdb::Db" in c.argt[0]["s"]:
            return [(mk("REF", mk("M", mk("NODE")), ()), st)]
        if c.name == "index" and OUTT.search(c.dty["s"]) and len(c.args) > 1:
            r = mk("M", mk("OUTP", c.args[1]))
            st.store[r] = mk("OUT", c.args[1])
            return [(mk("REF", r, ()), st)]
        if "Option<" in c.dty["s"] and "LitData" in c.dty["s"] and c.key in self.F.fns and len(c.args) > 1:
            o = mk("OUT", c.args[1])
            if "&" in c.dty["s"]:
                r = mk("M", mk("OUTP", c.args[1]))
                st.store[r] = o
                return [(NONE, st), (Some(mk("REF", r, ())), st.copy())]
            return [(NONE, st), (Some(o), st.copy())]
        return None

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((ret, st))


def defines(F, r):
    sem = semantics(F)
    bits = {"If": 1, "OnlyIf": 2, "IfAndOnlyIf": 3}
    for k, f in sorted(scope(F).items()):
        if not re.match(r"^define_(un)?weighted(_cert)?$", f["name"] or "") or f["k"] == "closure" or "totdb" not in f["sp"][0]:
            continue
        name = f["p"].replace("rustsat::", "")
        e0 = Engine(F, None)
        args = e0.default_args(f)
        ty = lambda i: f["tys"][f["locals"][i + 1]]["s"]
        cols = {a.a[0] for i, a in enumerate(args) if i and re.match(r"&'?\w*\s?mut (Col|C)\b", ty(i))}
        req = next((a for i, a in enumerate(args) if ty(i).endswith("Semantics")), None)
        c = Define(F, cols)
        e = Engine(F, c)
        try:
            e.run(k, ())
        except Budget as x:
            r.undec("%s: %s" % (name, x))
            continue
        r.analysed |= set(e.analysed)
        n = 0
        for ret, st in c.ends:
            if st.obs or ret.t != "ADT" or ret.a[1] != 0:
                continue
            v = e.strip(st, ret.a[3][0])
            if v.t == "ADT" and not v.a[3]:
                continue                # no output of that value
            o = next((x for x in subterms(v) if x.t == "OUT"), None)
            if o is None:
                continue                # an input literal
            have, want, seen = set(bits), set(bits) if req is not None else {"If"}, False
            some = False
            for t, fv in st.facts.items():
                if t.t != "DISCR":
                    continue
                left = {s for s, d in sem.items() if (d == fv[1] if fv[0] == "=" else d not in fv[1])}
                if req is not None and t.a[0] == req:
                    want &= left
                elif any(x == o for x in subterms(t)) and "semantics" in fields(t):
                    if t.a[0].t == "FLD" and t.a[0].a[1][2] == "semantics":
                        some |= fv == ("=", 1)
                    else:
                        have &= left
            n += 1
            bad = not some or any(bits[w] & ~bits[h] for h in have for w in want)
            if bad and not any(x == o for t in st.facts for x in subterms(t)):
                bad = True
            if bad:
                r.bad("%s:existing" % name, "%s returns an existing output whose requested direction may not be encoded, without adding clauses" % name,
                      "%s:%s" % (f["sp"][0], f["sp"][1]))
            else:
                r.ok("existing", name)


class Pass(Client):
    """obs: directions of the connection to the only child that are encoded"""
    max_states = 4000
    gc = False
    lists = True

    def __init__(self, F, pre):
        self.F = F
        self.pre = pre
        self.ends = []

    def inline(self, eng, key, fn, call, st):
        return "totdb" in fn["sp"][0] and "Semantics" in fn["p"]

    def on_call(self, eng, st, c):
        if "PrecondOutcome" in c.dty["s"]:
            k, i, n = self.pre
            return [(mk("ADT", k, i, n, (mk("CON"),)), st)]
        if c.name.startswith("define_unweighted"):
            ok = next(k for k in self.F.adts if k.endswith("result::Result")) if any(k.endswith("result::Result") for k in self.F.adts) else "core::result::Result"
            return [(mk("ADT", ok, 0, "Ok", (mk("IL"),)), st)]
        if c.dty["s"].endswith("types::Lit") and any("ManageVars" in t["s"] for t in c.argt):
            return [(mk("OL"), st)]
        if c.name == "lit_impl_lit":
            return [(mk("PURE", "impl", tuple(eng.strip(st, a) for a in c.args)), st)]
        if c.name in ("add_clause", "extend_clauses", "add_clause_ref"):
            v = eng.strip(st, c.args[1])
            it = lists.as_iter(eng, st, v)
            out = []
            for xs, s in ((((v,), st),) if it is None else lists.drain(eng, st, c, it, 2, ())):
                s = s.copy()
                for x in xs:
                    x = eng.strip(s, x)
                    a = x.a[1] if x.t == "PURE" and x.a[0] == "impl" else ()
                    s.obs = s.obs | {"if" if a == (mk("IL"), mk("OL")) else "only_if" if a == (mk("OL"), mk("IL")) else "?"}
                out.append((mk("CALL", c.site, c.p), s))
            return out
        if c.name == "add_semantics" and len(c.args) > 1:
            s = st.copy()
            s.obs = st.obs | {"marked"}
            return [(mk("TUP", ()), s)]
        return None

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((ret, st))


def passes(F, r):
    sem = semantics(F)
    bits = {"If": 1, "OnlyIf": 2, "IfAndOnlyIf": 3}
    pre = next(((k, i, v[0]) for k, a in F.adts.items() if k.endswith("PrecondOutcome") for i, v in enumerate(a["vs"]) if v[0] == "Passthrough"), None)
    if pre is None:
        return
    for k, f in sorted(scope(F).items()):
        if not re.match(r"^define_unweighted$", f["name"] or "") or "totdb" not in f["sp"][0]:
            continue
        name = f["p"].replace("rustsat::", "")
        c = Pass(F, pre)
        e = Engine(F, c)
        try:
            e.run(k, frozenset())
        except Budget as x:
            r.undec("%s: %s" % (name, x))
            continue
        r.analysed |= set(e.analysed)
        req = next((a for i, a in enumerate(e.default_args(f)) if f["tys"][f["locals"][i + 1]]["s"].endswith("Semantics")), None)
        for ret, st in c.ends:
            if ret.t != "ADT" or ret.a[1] != 0 or "marked" not in st.obs:
                continue
            if "?" in st.obs:
                r.undec("%s: a clause of the connection to the only child was not followed" % name)
                continue
            want = set(bits)
            for t, fv in st.facts.items():
                if t.t == "DISCR" and t.a[0] == req:
                    want &= {s for s, d in sem.items() if (d == fv[1] if fv[0] == "=" else d not in fv[1])}
            need = set().union(*(DIRS[w] for w in want)) if want else set()
            if need <= st.obs:
                r.ok("pass", name)
            else:
                r.bad("%s:passthrough" % name, "%s marks an output passed on from the only child as encoded without the clause for the requested direction" % name,
                      "%s:%s" % (f["sp"][0], f["sp"][1]))


def ranges(F, r):
    """the ranges of summands an output is built from are only empty for directions that are not missing"""
    sem = semantics(F)
    bits = {"If": 1, "OnlyIf": 2, "IfAndOnlyIf": 3}
    for k, f in sorted(scope(F).items()):
        if not re.search(r"PrecondOutcome$", f["tys"][f["locals"][0]]["s"]) or f["k"] == "closure":
            continue
        name = f["p"].replace("rustsat::", "")
        c = Define(F, set())
        e = Engine(F, c)
        try:
            e.run(k, ())
        except Budget as x:
            r.undec("%s: %s" % (name, x))
            continue
        r.analysed |= set(e.analysed)
        req = next((a for i, a in enumerate(e.default_args(f)) if f["tys"][f["locals"][i + 1]]["s"].endswith("Semantics")), None)
        for ret, st in c.ends:
            if ret.t != "ADT" or ret.a[2] != "Continue" or ret.a[3][0].t != "ADT":
                continue
            want, have, some = set(bits), set(bits), None
            for t, fv in st.facts.items():
                if t.t != "DISCR":
                    continue
                left = {s for s, d in sem.items() if (d == fv[1] if fv[0] == "=" else d not in fv[1])}
                if t.a[0] == req:
                    want &= left
                elif "semantics" in fields(t):
                    if t.a[0].t == "FLD" and t.a[0].a[1][2] == "semantics":
                        some = fv == ("=", 1)
                    else:
                        have &= left
            missing = 0
            for w in want:
                for h in (have if some else [None]):
                    missing |= bits[w] & ~bits.get(h, 0)
            pre = ret.a[3][0]
            fl = [x[0] for x in F.adts[pre.a[0]]["vs"][pre.a[1]][2]]
            for n, v in zip(fl, pre.a[3]):
                b = 2 if n.endswith("only_if") else 1 if n.endswith("if") else 0
                v = e.strip(st, v)
                xs = v.a[3] if v.t == "ADT" else (v.a[1] if v.t == "PURE" else v.a[2:]) if v.t in ("PURE", "CALL") else ()
                empty = len(xs) >= 2 and all(x.t == "INT" for x in xs[:2]) and xs[0].a[0] > xs[1].a[0]
                if b & missing and empty:
                    r.bad("%s:%s" % (name, n), "%s leaves out the summands (%s) of a direction that is not encoded yet" % (name, n), "%s:%s" % (f["sp"][0], f["sp"][1]))
                elif b & missing:
                    r.ok("range", n)


class Eq(Client):
    """obs: the bounds enforced"""
    def inline(self, eng, key, fn, call, st):
        return False

    def on_call(self, eng, st, c):
        if c.name in ("enforce_ub", "enforce_lb"):
            s = st.copy()
            s.obs = st.obs | {(c.name, eng.strip(st, c.args[-1]) == self.b)}
            self.n += 1
            f = st.copy()
            f.obs = st.obs | {"failed"}
            return [(Ok(mk("AS", c.name)), s), (Err(mk("ERR")), f)]
        if c.name in ("extend", "append", "extend_from_slice", "chain", "push") and len(c.args) > 1:
            s = st.copy()
            s.obs = st.obs | {"joined"}
            return [(mk("CALL", c.site, c.p), s)]
        return None

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((ret, st))


def both(F, r):
    for k, f in sorted(scope(F).items()):
        if f["name"] != "enforce_eq" or f["k"] == "closure":
            continue
        name = f["p"].replace("rustsat::", "")
        c = Eq()
        c.ends, c.n = [], 0
        e = Engine(F, c)
        c.b = mk("ARG", bound_of(e, f))
        try:
            e.run(k, frozenset())
        except Budget as x:
            r.undec("%s: %s" % (name, x))
            continue
        r.analysed |= set(e.analysed)
        where = "%s:%s" % (f["sp"][0], f["sp"][1])
        if not c.n:
            r.undec("%s: does not combine upper and lower bounds" % name)
            continue
        for ret, st in c.ends:
            if ret.t == "ADT" and ret.a[1] == 0:
                if "failed" in st.obs:
                    r.bad("%s:failed" % name, "%s reports an equality as enforced although one of its bounds is not" % name, where)
                elif any(not ok for x in st.obs if isinstance(x, tuple) for ok in x[1:]):
                    r.bad("%s:bound" % name, "%s enforces a bound other than the requested one" % name, where)
                elif {x[0] for x in st.obs if isinstance(x, tuple)} != {"enforce_ub", "enforce_lb"}:
                    r.bad("%s:one side" % name, "%s enforces only one of the bounds of an equality" % name, where)
                else:
                    r.ok("equality", name)


def e01(F, r):
    r.rules = [
        "a path of enforce_ub/enforce_lb that returns Ok returns the (negated) output of exactly the bound asked for and has tested that output's flag of this "
        "direction, or the bound is trivially satisfied; literals outside of the structure are either absent or covered; no output looked up is dropped",
        "an output is marked as encoded only after its last fallible clause addition, and only on paths that add clauses",
        "has_if/has_only_if/add/remove/missing of the directions are evaluated for all values",
        "encode_ub/lb/both forget, before the first clause, everything the corresponding enforce relies on",
        "functions of the adder's upper bounds only test, set and build on the if-direction, those of the lower bounds on the only-if-direction",
        "an existing output is returned without adding clauses only if the requested direction is encoded for it",
        "enforce_eq enforces both bounds at the requested value",
        "enforce_* of the simulators ask the wrapped encoding in the direction and for the bound that is the image of the requested one, and hand on the assumptions",
    ]
    for k, f in sorted(enforcers(F).items()):
        judge(F, r, k, f)
    from .c_sim import enforced
    for part in (marked, operations, anew, resetters, directions, defines, passes, ranges, both, enforced):
        part(F, r)
    r.floor("enforce", 8, "enforce functions")
    r.floor("mark", 5, "places that mark an output as encoded")
    r.floor("anew", 8, "functions building an encoding anew")
    r.floor("simulated", 5, "enforce functions of simulators")
    return {"level": "other", "explanation": "path-sensitive abstract interpretation of the bound-enforcing functions (which output is returned under which tested flag) and "
                    "of the encoding functions (order of marking and adding clauses, directions, resets) on rustc MIR"}


CHECKS = {"E01": e01}
TECH = {"E01": ("path-sensitive abstract interpretation and control-flow ordering analysis on rustc MIR",
                "Ok from enforce_* only with the output of the bound asked for and its flag tested; flags only set after the clauses; resets; directions")}
