"""E04: bound ranges, bounds and constraints reach the encoding that has to honour them. E01 for simulated encodings."""
import itertools
import re

from .mir import Client, Engine, Budget, mk, last, subterms, INT, Some, NONE, ADT
from . import regions
from .regions import ev, feasible, Unknown, Underflow

BOUND = "core::ops::range::Bound"
ENC = re.compile(r"^encode_(ub|lb|both)((?:_change)?(?:_cert)?)$")
ENF = re.compile(r"^enforce_(ub|lb|eq)$")
DUAL = {"ub": "lb", "lb": "ub", "both": "both", "eq": "eq"}
NS, BS = range(0, 4), range(0, 6)
ERRS = ("NotEncoded", "Unsat")


def trivial_set(d, n):
    """the bounds of a direction that mean anything for a sum of at most n"""
    return {"ub": range(0, n), "lb": range(1, n + 1), "both": range(0, n + 1)}[d]


class Base(Client):
    max_states = 20000
    max_depth = 10
    lists = True

    def __init__(self, fn):
        self.fn = fn
        self.ends = []
        self.bad = []

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((eng.strip(st, ret), st))


def range_of(eng, st, v):
    """(start, end) of a concrete range value; end exclusive"""
    v = eng.strip(st, v)
    if v.t == "ADT" and "ops::range::Range" in str(v.a[0]):
        n = last(str(v.a[0]))
        f = [eng.strip(st, x) for x in v.a[3]]
        if n == "Range" and len(f) >= 2:
            return f[0], f[1]
        if n == "RangeInclusive" and len(f) >= 2:
            return f[0], mk("BIN", "Add", f[1], INT(1))
        if n == "RangeFrom":
            return f[0], mk("INF")
        if n == "RangeTo":
            return INT(0), f[0]
        if n == "RangeToInclusive":
            return INT(0), mk("BIN", "Add", f[0], INT(1))
        if n == "RangeFull":
            return INT(0), mk("INF")
    if v.t in ("PURE", "CALL") and "RangeInclusive" in str(v.a[0 if v.t == "PURE" else 1]):
        xs = v.a[1] if v.t == "PURE" else v.a[2:]
        if len(xs) >= 2:
            return xs[0], mk("BIN", "Add", xs[1], INT(1))
    return None


class Ranges(Base):
    """obs: (choice of start, choice of end, inner calls)"""

    def bound(self, eng, st, c):
        w = 0 if c.name == "start_bound" else 1
        v = eng.strip(st, c.args[0])
        if v.t == "ADT":
            x = range_of(eng, st, c.args[0])
            if x is None:
                return None
            t = x[w]
            if t.t == "INF":
                return [(ADT(BOUND, 2, "Unbounded"), st)]
            root = mk("M", t)
            st.store[root] = t
            return [(ADT(BOUND, w, ("Included", "Excluded")[w], (mk("REF", root, ()),)), st)]
        out = []
        for i, n in enumerate(("Included", "Excluded", "Unbounded")):
            if st.obs[w] not in (None, n):
                continue
            s = st.copy()
            s.obs = tuple(n if j == w else x for j, x in enumerate(st.obs))
            root = mk("M", mk("ARG", "se"[w]))
            s.store[root] = mk("ARG", "se"[w])
            out.append((ADT(BOUND, i, n, (mk("REF", root, ()),) if i < 2 else ()), s))
        return out

    def on_call(self, eng, st, c):
        r = regions.arith(eng, st, c)
        if r is not None:
            return r
        if c.name in ("start_bound", "end_bound"):
            return self.bound(eng, st, c)
        m = ENC.match(c.name or "")
        if m and c.key not in eng.F.fns and len(c.args) > 1:
            x = range_of(eng, st, c.args[1])
            if x is None:
                v = eng.strip(st, c.args[1])
                while v.t in ("PURE", "CALL", "DEREF") and v.a:
                    if v.t != "DEREF" and last(str(v.a[0 if v.t == "PURE" else 1])) not in ("clone", "to_owned"):
                        break
                    nx = v.a[1][0] if v.t == "PURE" else v.a[2] if v.t == "CALL" and len(v.a) > 2 else v.a[0] if v.t == "DEREF" else None
                    if nx is None:
                        break
                    v = eng.strip(st, nx)
                x = "same" if v.t == "ARG" and v.a[0] == self.rarg else None
            rcv = eng.strip(st, c.args[0])
            rcv = rcv.a[1] if rcv.t == "FLD" else None
            st.obs = st.obs[:2] + (st.obs[2] + ((m[1], m[2], x, rcv),),)
            # success; an error is passed on and not looked at
            return [(ADT("core::result::Result", 0, "Ok", (mk("TUP", ()),)), st)]
        return None


def requested(obs, s, e):
    lo = {"Included": s, "Excluded": s + 1, "Unbounded": 0, None: s}[obs[0]]
    hi = {"Included": e + 1, "Excluded": e, "Unbounded": 99, None: e + 1}[obs[1]]
    return lo, hi


def envs(nt):
    for n in NS:
        for s in BS:
            for e in BS:
                d = {mk("ARG", "s"): s, mk("ARG", "e"): e}
                for t in nt:
                    d[t] = n
                yield n, s, e, d


def simulators(F):
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not f["sp"][0].endswith("simulators.rs") or not f["sp"][0].startswith("src/encodings"):
            continue
        m = re.match(r"^<encodings::(\w+)::simulators::(\w+)<", f["p"])
        if m:
            yield k, f, m[2] == "Inverted", m[1]


def natoms(eng, fn, paths, kind):
    """the terms that stand for the number of inputs (the sum of weights)"""
    out = set()
    for st, xs in paths:
        for t in list(st.facts) + list(xs):
            for y in subterms(t):
                if y.t == "FLD" and isinstance(y.a[1], tuple) and y.a[1][-1] in ("n_lits", "weight_sum"):
                    out.add(y)
                if y.t == "PURE" and last(y.a[0]) in ("n_lits", "weight_sum"):
                    out.add(y)
    return out


def run(F, r, k, cl, obs, args=None):
    e = Engine(F, cl)
    a = e.default_args(F.fns[k]) if args is None else args(e)
    try:
        e.run(k, obs, args=a)
    except Budget as x:
        r.undec("%s: %s" % (F.fns[k]["p"], x))
        return None
    r.analysed |= set(e.analysed)
    return e


def nm(f):
    return f["p"].replace("encodings::", "")


def ranges(F, r):
    seen = 0
    todo = [(k, f, inv, True) for k, f, inv, _ in simulators(F) if ENC.match(f["name"] or "")]
    for k, f in sorted(F.fns.items()):
        if f["crate"] == "rustsat.lib" and f["k"] != "closure" and f["sp"][0].startswith("src/encodings") and not f["p"].startswith("<") \
                and re.match(r"^encode_both(_change)?(_cert)?$", f["name"] or "") and "Bound" in f["p"]:
            todo.append((k, f, False, False))
    for k, f, inv, sim in todo:
        m = ENC.match(f["name"])
        cl = Ranges(f)
        e0 = Engine(F, None)
        a = e0.default_args(f)
        cl.rarg = next((a[i].a[0] for i in range(1, f["nargs"]) if "RangeBounds" in f["tys"][f["locals"][i + 1]]["s"] or f["tys"][f["locals"][i + 1]]["k"] == "param"
                        or re.match(r"^(R|impl .*)$", f["tys"][f["locals"][i + 1]]["s"])), None)
        if cl.rarg is None:
            r.undec("%s: no range" % nm(f))
            continue
        e = run(F, r, k, cl, (None, None, ()))
        if e is None:
            continue
        seen += 1
        paths = [(st, [x for c in st.obs[2] if isinstance(c[2], tuple) for x in c[2]]) for _, st in cl.ends]
        nt = natoms(e, f, paths, f["p"])
        bad = judge(cl, f, m, inv, nt, r)
        if bad:
            r.bad("%s:%s" % (nm(f), bad[0]), "%s %s" % (nm(f), bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        elif bad is None:
            r.ok("range", nm(f))
    r.floor("range", 12)


def judge(cl, f, m, inv, nt, r):
    want = {DUAL[m[1]] if inv else m[1]}
    if not cl.ends:
        r.undec("%s: no path returns" % nm(f))
        return ()
    for ret, st in cl.ends:
        for d, suf, x, rcv in st.obs[2]:
            if x is None:
                r.undec("%s: hands on a range that is not followed" % nm(f))
                return ()
            if suf != m[2]:
                return "variant", "calls encode_%s%s of the encoding behind it" % (d, suf)
    for n, s, e, env in envs(nt):
        live = 0
        for ret, st in cl.ends:
            try:
                y = feasible(st.facts, env)
            except Underflow:
                live += 1
                return "underflow", "computes with a number below zero (%d inputs, requested %s)" % (n, rng(st.obs, s, e))
            if y is False:
                continue
            live += 1
            if ret.t == "ADT" and ret.a[2] == "Err":
                continue
            lo, hi = requested(st.obs, s, e)
            miss = {(d, x) for d in (("ub", "lb") if m[1] == "both" else (m[1],)) for x in trivial_set(d, n) if lo <= x < hi}
            for d, suf, x, rcv in st.obs[2]:
                try:
                    if x == "same":
                        a, b = lo, hi
                    else:
                        a = ev(x[0], env)
                        b = 99 if x[1].t == "INF" else ev(x[1], env)
                except Underflow:
                    return "underflow", "computes with a number below zero (%d inputs, requested %s)" % (n, rng(st.obs, s, e))
                except Unknown as z:
                    r.undec("%s: a range depends on something that is not followed (%s)" % (nm(f), str(z)[:80]))
                    return ()
                for dd, v in list(miss):
                    o, w = (DUAL[dd], n - v) if inv else (dd, v)
                    if d in (o, "both") and a <= w < b:
                        miss.discard((dd, v))
            if miss and y:
                dd, v = sorted(miss)[0]
                return "uncovered", "does not have %s bound %d encoded (%d inputs, requested %s)" % ({"ub": "upper", "lb": "lower"}[dd], v, n, rng(st.obs, s, e))
        if not live:
            return "panics", "has no way to return (%d inputs, requested %d, %d)" % (n, s, e)
    return None


def rng(obs, s, e):
    return "%s..%s" % ({"Included": s, "Excluded": "(%d)" % s, "Unbounded": ""}.get(obs[0], s),
                       {"Included": "=%d" % e, "Excluded": e, "Unbounded": ""}.get(obs[1], e))


def prepared(F, r):
    for k, f in sorted(F.fns.items()):
        m = re.match(r"^prepare_(ub|lb|both)_range$", f["name"] or "")
        if not m or f["crate"] != "rustsat.lib" or f["k"] == "closure":
            continue
        cl = Ranges(f)
        cl.rarg = "range"
        e = run(F, r, k, cl, (None, None, ()))
        if e is None:
            continue
        paths = []
        for ret, st in cl.ends:
            x = range_of(e, st, ret)
            paths.append((ret, st, x))
        if any(x is None for _, _, x in paths) or not paths:
            r.undec("%s: result is not followed" % nm(f))
            continue
        nt = natoms(e, f, [(st, list(x)) for _, st, x in paths], "")
        bad = None
        try:
            for n, s, en, env in envs(nt):
                for ret, st, x in paths:
                    if bad or not feasible(st.facts, env):
                        continue
                    lo, hi = requested(st.obs, s, en)
                    a = ev(x[0], env)
                    b = 99 if x[1].t == "INF" else ev(x[1], env)
                    for v in trivial_set(m[1], n):
                        if lo <= v < hi and not a <= v < b:
                            bad = ("uncovered", "leaves out bound %d (%d inputs, requested %s)" % (v, n, rng(st.obs, s, en)))
        except Underflow:
            bad = ("underflow", "computes with a number below zero")
        except Unknown:
            r.undec("%s: depends on something that is not followed" % nm(f))
            continue
        if bad:
            r.bad("%s:%s" % (nm(f), bad[0]), "%s %s" % (nm(f), bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        else:
            r.ok("prepare", nm(f))
    r.floor("prepare", 2)


# ------------------------------------------------------------------ enforcing (E01)
class Enforce(Base):
    """obs: inner calls ((direction, bound term, result), ...)"""

    def on_call(self, eng, st, c):
        r = regions.arith(eng, st, c)
        if r is not None:
            return r
        m = ENF.match(c.name or "")
        if m and c.key not in eng.F.fns and len(c.args) == 2:
            v = mk("CALL", c.site, c.p, *(eng.strip(st, a) for a in c.args))
            st.obs = st.obs + ((m[1], eng.strip(st, c.args[1]), v),)
            return [(v, st)]
        return None


def empty(eng, st, v):
    v = eng.strip(st, v)
    if v.t == "LIST":
        return not v.a[0]
    if v.t in ("CALL", "PURE"):
        return last(str(v.a[0 if v.t == "PURE" else 1])) in ("new", "default", "with_capacity") and "Vec" in str(v.a[0 if v.t == "PURE" else 1])
    return None


def enforced(F, r):
    for k, f, inv, _ in simulators(F):
        m = ENF.match(f["name"] or "")
        if not m:
            continue
        cl = Enforce(f)
        e = run(F, r, k, cl, ())
        if e is None:
            continue
        b = e.default_args(f)[1]
        nt = natoms(e, f, [(st, [x[1] for x in st.obs]) for _, st in cl.ends], "")
        bad = None
        und = None
        for ret, st in cl.ends:
            oks = errs = False
            if ret.t == "ADT":
                oks, errs = ret.a[2] == "Ok", ret.a[2] == "Err"
            for d, t, v in st.obs:
                if d != (DUAL[m[1]] if inv else m[1]) and not (m[1] == "eq" and d in ("ub", "lb")):
                    bad = bad or ("direction", "asks the encoding behind it for enforce_%s" % d)
            try:
                for n in NS:
                    for x in BS:
                        env = {b: x, **{t: n for t in nt}}
                        y = feasible(st.facts, env)
                        if y is False:
                            continue
                        for d, t, v in st.obs:
                            if ev(t, env) != (n - x if inv else x):
                                bad = bad or ("bound", "asks for bound %s instead of %d (%d inputs, bound %d)" % (ev(t, env), n - x if inv else x, n, x))
                        if not st.obs and inv or m[1] == "eq" and oks and not covers(st.obs):
                            if oks and not (m[1] == "ub" and x >= n or m[1] == "lb" and x == 0):
                                bad = bad or ("nothing", "returns Ok without having the bound enforced (%d inputs, bound %d)" % (n, x))
                            if errs and "Unsat" in repr(ret) and not (m[1] != "ub" and x > n):
                                bad = bad or ("unsat", "calls a bound unsatisfiable that is not (%d inputs, bound %d)" % (n, x))
            except Underflow:
                bad = bad or ("underflow", "computes with a number below zero")
            except Unknown as z:
                und = "%s: bound depends on something that is not followed" % nm(f)
            if oks and st.obs and not bad:
                for d, t, v in st.obs:
                    if not any(y == v for y in subterms(ret)) and not any(y == v for q in st.store.values() for y in subterms(q)):
                        bad = ("dropped", "does not return the assumptions of enforce_%s" % d)
        if not cl.ends:
            und = "%s: no path returns" % nm(f)
        if bad:
            r.bad("%s:%s" % (nm(f), bad[0]), "%s %s" % (nm(f), bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec(und)
        else:
            r.ok("simulated", nm(f))


def covers(obs):
    ds = {d for d, _, _ in obs}
    return "eq" in ds or {"ub", "lb"} <= ds


# ------------------------------------------------------------------ encoding whole constraints
from . import lists                                                     # noqa: E402
from . import c_constr as CC                                            # noqa: E402
from .mir import Ok                                                     # noqa: E402

UNIT = mk("TUP", ())


class OneShot(CC.Lits):
    """obs: (encodings made, ranges encoded, clauses added)"""

    def more(self, eng, st, c):
        n = c.name or ""
        made, encd, cls = st.obs
        if re.match(r"^encode_(?:(?:ub|lb|eq)_)?constr$", n) and c.args:
            # decided on its own
            st.obs = (made, encd, cls + (mk("WHOLE", CC.full(eng, st, c.args[0])),))
            return [(Ok(UNIT), st)]
        if c.key in eng.F.fns and not n.startswith("add_unit"):
            return None
        if n in ("from_iter", "from", "collect", "extend") and c.args and (c.dty["k"] == "param" or "Self" == c.dty["s"] or re.match(r"^(CE|PBE|Self)$", c.dty["s"])):
            it = lists.as_iter(eng, st, c.args[-1])
            if it is None:
                u = lists.under(eng, st, c.args[-1])
                it = lists.seq(u.a[0]) if u.t == "LIST" else None
            if it is None:
                return None
            out = []
            for xs, s in lists.drain(eng, st, c, it, c.depth, ()):
                v = mk("ENC", len(made))
                s.obs = (made + (tuple(CC.full(eng, s, x) for x in xs),), encd, cls)
                out.append((v, s))
            return out
        m = ENC.match(n)
        if m and len(c.args) > 1:
            e = CC.deep(eng, st, c.args[0])
            st.obs = (made, encd + ((e, m[1], range_of(eng, st, c.args[1])),), cls)
            return [(Ok(UNIT), st)]
        m = ENF.match(n)
        if m and len(c.args) == 2:
            e = CC.deep(eng, st, c.args[0])
            b = eng.strip(st, c.args[1])
            return [(Ok(lists.LIST(tuple(mk("ENF", e, m[1], b, i) for i in range(2)))), st)]
        if n in ("extend_clauses", "add_clause") and len(c.args) == 2:
            if n == "add_clause":
                st.obs = (made, encd, cls + (CC.full(eng, st, c.args[1]),))
                return [(Ok(UNIT), st)]
            it = lists.as_iter(eng, st, c.args[1])
            if it is None:
                u = lists.under(eng, st, c.args[1])
                it = lists.seq(u.a[0]) if u.t == "LIST" else None
            if it is None:
                return None
            out = []
            for xs, s in lists.drain(eng, st, c, it, c.depth, ()):
                s.obs = (made, encd, cls + tuple(CC.full(eng, s, x) for x in xs))
                out.append((Ok(UNIT), s))
            return out
        return None


def clause_lits(v):
    while v.t in ("CALL", "PURE") and v.a:
        v = v.a[1][0] if v.t == "PURE" else v.a[2]
    return CC.listed(v)


def oneshot(F, r):
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not re.match(r"^src/encodings/(card|pb)/mod.rs", f["sp"][0]):
            continue
        fam = "Card" if "/card/" in f["sp"][0] else "Pb"
        m = re.match(r"^encode_(?:(ub|lb|eq)_)?constr$", f["name"] or "")
        if not m and f["name"] not in ("encode_cardinality_constraint", "encode_pb_constraint"):
            continue
        kd = m[1].capitalize() if m and m[1] else ""
        label = nm(f)
        bad = und = None
        cnt = 0
        for n in (0, 1, 2, 3) if fam == "Card" else (0, 1, 2):
            for kind, ends, c in CC.runs(F, r, k, f, fam, (kd,) if kd else ("Ub", "Lb", "Eq"), n, cl=Started, wrapped=not kd):
                if not ends:
                    und = "%s: no path returns" % label
                for env, ls in CC.envs(fam, n, (1, 2, 3)):
                    if bad:
                        break
                    what = CC.desc(env, fam, kind, n)
                    try:
                        h = CC.table(c, env, ls)
                        live = list(CC.each(r, f, ends, env))
                        if not live:
                            bad = ("panics", "cannot return for %s" % what)
                        for ret, st, y in live:
                            if not y:
                                continue
                            cnt += 1
                            bad = bad or one(ret, st, env, ls, c, kind, h, what)
                    except Underflow:
                        bad = ("underflow", "computes with a number below zero for %s" % what)
                    except Unknown as z:
                        und = "%s: %s" % (label, str(z)[:80])
        if bad:
            r.bad("%s:%s" % (label, bad[0]), "%s %s" % (label, bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec(und)
        elif cnt:
            r.ok("constraint", label)
    r.floor("constraint", 4)


class Started(OneShot):
    start = ((), (), ())

    def setup(self, e, a, store):
        pass


def one(ret, st, env, ls, c, kind, h, what):
    made, encd, cls = st.obs if st.obs else ((), (), ())
    if ret.t == "ADT" and ret.a[2] == "Err":
        return ("unsat", "calls %s unsatisfiable" % what) if any(h) else None
    A = list(CC.asgs(env, ls))
    units = {}
    got = [True] * len(A)
    for cl in cls:
        if cl.t == "WHOLE":
            got = [g and CC.holds(cl.a[0], env, a) for g, a in zip(got, A)]
            continue
        xs = clause_lits(cl)
        if any(x.t == "ENF" or x.t == CC.NEG and x.a[0].t == "ENF" for x in xs):
            if len(xs) != 1 or xs[0].t != "ENF":
                return ("clause", "adds something else than one unit clause per enforcing literal for %s" % what)
            e, d, b, i = xs[0].a
            units.setdefault((e, d, b), set()).add(i)
            continue
        got = [g and any(CC.litval(x, env, a) for x in xs) for g, a in zip(got, A)]
    for (e, d, b), idx in units.items():
        if len(idx) != 2:
            return ("partial", "does not add all enforcing literals for %s" % what)
        if e.t != "ENC" or e.a[0] >= len(made):
            raise Unknown(e)
        b = ev(b, env)
        ins = made[e.a[0]]
        pairs = [x.a[0] if x.t == "TUP" else (x, INT(1)) for x in ins]
        n = sum(ev(w, env) for _, w in pairs)
        need = {(dd, b) for dd in (("ub", "lb") if d == "eq" else (d,)) if b in trivial_set(dd, n)}
        for e2, dd, x in encd:
            if e2 != e:
                continue
            if x is None:
                raise Unknown(e2)
            if ev(x[0], env) <= b < (99 if x[1].t == "INF" else ev(x[1], env)):
                need -= {("ub", b), ("lb", b)} if dd == "both" else {(dd, b)}
        if need:
            return ("range", "enforces a bound it has not encoded for %s" % what)
        for j, a in enumerate(A):
            s = sum(ev(w, env) * CC.litval(x, env, a) for x, w in pairs)
            got[j] = got[j] and {"ub": s <= b, "lb": s >= b, "eq": s == b}[d]
    if got != [bool(x) for x in h]:
        return ("meaning", "encodes something else for %s" % what)
    return None


# ------------------------------------------------------------------ inputs of simulated encodings
class Inputs(CC.Lits):
    """obs: (inputs handed to the encodings behind, in order: ((field or type parameter, elements), ...))"""
    start = ()

    def more(self, eng, st, c):
        n = c.name or ""
        if n == "collect_weighted" and c.args:
            it = lists.as_iter(eng, st, c.args[0])
            if it is None:
                u = lists.under(eng, st, c.args[0])
                it = lists.seq(u.a[0]) if u.t == "LIST" else None
            if it is None:
                return None
            return [(lists.LIST(xs), s) for xs, s in lists.drain(eng, st, c, it, c.depth, ())]
        if n == "resize" and len(c.args) == 3:
            u = lists.under(eng, st, c.args[0])
            if u.t != "LIST":
                return None
            k = CC.deep(eng, st, c.args[1])
            cnt = mk("BIN", "Sub", k, length(u))
            lists.store_at(eng, st, c.args[0], lists.LIST(u.a[0] + (mk("REP", CC.full(eng, st, c.args[2]), cnt),)))
            return [(UNIT, st)]
        if n == "len" and c.args:
            u = lists.under(eng, st, c.args[0])
            if u.t == "LIST" and any(x.t == "REP" for x in u.a[0]):
                return [(length(u), st)]
        if n in ("repeat_n", "repeat") and c.args:
            return [(lists.seq((mk("REP", CC.full(eng, st, c.args[0]), CC.deep(eng, st, c.args[1]) if n == "repeat_n" else mk("INF")),)), st)]
        if n == "take" and len(c.args) == 2:
            u = lists.under(eng, st, c.args[0])
            if u.t == "LIT" and u.a[0] == "seq" and len(u.a[1]) == 1 and u.a[1][0].t == "REP" and u.a[1][0].a[1].t == "INF":
                return [(lists.seq((mk("REP", u.a[1][0].a[0], CC.deep(eng, st, c.args[1])),)), st)]
        if c.key in eng.F.fns:
            return None
        if n in ("from_iter", "from", "collect") and c.args and c.dty["k"] == "param" or n == "extend" and len(c.args) == 2 and c.argt[0]["s"].replace("&mut ", "").replace("&", "") in self.params:
            it = lists.as_iter(eng, st, c.args[-1])
            if it is None:
                u = lists.under(eng, st, c.args[-1])
                it = lists.seq(u.a[0]) if u.t == "LIST" else None
            if it is None:
                return None
            who = c.dty["s"] if n != "extend" else c.argt[0]["s"].replace("&mut ", "").replace("&", "")
            out = []
            for xs, s in lists.drain(eng, st, c, it, c.depth, ()):
                s.obs = s.obs + ((who, tuple(CC.full(eng, s, x) for x in xs)),)
                out.append((UNIT if n == "extend" else mk("ENC", who), s))
            return out
        return None


def length(u):
    t = INT(0)
    for x in u.a[0]:
        y = x.a[1] if x.t == "REP" else INT(1)
        t = y if t == INT(0) else mk("BIN", "Add", t, y)
    return t


def bag(xs, env):
    """literal code -> total weight"""
    d = {}
    for x in xs:
        w = 1
        if x.t == "REP":
            w = ev(x.a[1], env)
            x = x.a[0]
        if x.t == "TUP":
            w *= ev(x.a[0][1], env)
            x = x.a[0][0]
        c = ev(x, env)
        d[c] = d.get(c, 0) + w
    return {k: v for k, v in d.items() if v}


def inputs(F, r):
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not f["sp"][0].endswith("simulators.rs") or not f["sp"][0].startswith("src/encodings"):
            continue
        m = re.match(r"^<encodings::(\w+)::simulators::(\w+)<([^>]*)> as (?:core|std)::(?:convert::From|iter::traits::collect::(?:FromIterator|Extend))<", f["p"])
        if not m or f["name"] not in ("from", "from_iter", "extend"):
            continue
        inv, weighted = m[2] == "Inverted", m[1] == "pb"
        label = nm(f)
        params = [x.strip() for x in m[3].split(",")]
        bad, und, cnt = handed(F, r, k, f, inv, weighted, label, params, m[1], None)
        if und and not bad and weighted:
            b2, u2, c2 = handed(F, r, k, f, inv, weighted, label, params, m[1], (2, 1))
            if b2 or not u2:
                bad, und, cnt = b2, u2, c2
        if bad:
            r.bad("%s:%s" % (label, bad[0]), "%s %s" % (label, bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec(und)
        elif cnt:
            r.ok("inputs", label)
    r.floor("inputs", 7)


def handed(F, r, k, f, inv, weighted, label, params, mod, conc):
    """(violation, undecided, cases); conc: weights if they are to be known numbers"""
    bad = und = None
    cnt = 0
    for n in (0, 1, 2):
        lst = lists.LIST(tuple(mk("TUP", (CC.lit(i), INT(conc[i]) if conc else CC.wt(i))) if weighted else CC.lit(i) for i in range(n)))
        x = Inputs()
        x.params = params
        e = Engine(F, x)
        a = e.default_args(f)
        a[-1] = lst
        try:
            e.run(k, (), args=a)
        except (Budget, lists.Unknown) as z:
            und = "%s: %s" % (label, z)
            continue
        r.analysed |= set(e.analysed)
        if not x.ends:
            und = "%s: no path returns" % label
        for env, ls in CC.envs("Pb" if weighted else "Card", n, (1, 2, 3), (0,)):
            if bad or CC.dup(env, ls) or conc and any(env[CC.wt(i)] != conc[i] for i in range(n)):
                continue
            want = {}
            for i in range(n):
                c = env[CC.lit(i)] ^ (1 if inv else 0)
                want[c] = want.get(c, 0) + (env[CC.wt(i)] if weighted else 1)
            try:
                for ret, st, y in CC.each(r, f, x.ends, env):
                    if not y:
                        continue
                    cnt += 1
                    got = {}
                    for who, xs in st.obs:
                        d = got.setdefault(who, {})
                        for c, w in bag(xs, env).items():
                            d[c] = d.get(c, 0) + w
                    miss = [p for p in params if got.get(p, {}) != want and (n or p in got)]
                    if miss:
                        bad = ("inputs", "hands other inputs to %s than it is given" % miss[0])
                        continue
                    if inv:
                        t = counted(F, e, st, ret, f, mod)
                        if t is None:
                            und = "%s: the count of the inputs is not followed" % label
                            continue
                        old = [y for y in subterms(t) if y.t == "FLD"]
                        e2 = {**env, **{y: 5 for y in old}}
                        if ev(t, e2) != sum(want.values()) + (5 if f["name"] == "extend" else 0) or f["name"] == "extend" and len(set(old)) != 1:
                            bad = ("count", "keeps a wrong count of its inputs")
            except (Underflow, Unknown) as z:
                und = "%s: %s" % (label, str(z)[:80])
    return bad, und, cnt


def counted(F, e, st, ret, f, mod):
    name = "weight_sum" if mod == "pb" else "n_lits"
    if f["name"] == "extend":
        v = st.store.get(mk("M", e.default_args(f)[0]))
        if v is None:
            return None
    else:
        v = ret
    if v.t == "ADT":
        a = F.adts.get(v.a[0])
        fs = [x[0] for x in a["vs"][0][2]] if a else []
        return CC.deep(e, st, v.a[3][fs.index(name)]) if name in fs else None
    if v.t == "OBJ":
        for kk, vv in v.a[1]:
            if kk[2] == name:
                return CC.deep(e, st, vv)
        return mk("FLD", v.a[0], (None, 1, name))
    return None


def e04(F, r):
    r.rules += ["range: per path of every encode_* function of the simulators, the range handed to the wrapped encoding contains the image of every requested non-trivial bound, in the direction that can enforce it",
                "prepare: the range normalisers keep every requested non-trivial bound",
                "constraint: per path of every one-shot encoder without proof logging, clauses and enforced bounds state the constraint; unsatisfiable verdicts are justified; no path panics",
                "inputs: per constructor and extension, every input literal ends up in the wrapped encoding once per unit of weight, negated exactly for inverted encodings"]
    ranges(F, r)
    prepared(F, r)
    oneshot(F, r)
    inputs(F, r)
    return {"level": "other",
            "explanation": "Abstract interpretation of the encoding simulators, range normalisers and one-shot encoders yields, per path, the calls made on the wrapped encoding and the clauses added as terms over the symbolic inputs (bound, range ends, number of inputs, sum of weights). "
                           "Obligations on these piecewise-linear terms are discharged region by region: every ordering of the symbols and of the constants they are compared with has a representative, and the obligation has to hold in each region that is consistent with the path condition. "
                           "Terms that are not followed leave the obligation undecided (recorded, not reported)."}


CHECKS = {"E04": e04}
TECH = {"E04": ("abstract interpretation of simulators, range normalisers and one-shot encoders, extracting the ranges, bounds and clauses passed on as piecewise-linear terms compared region by region",
                "the wrapped encoding must receive the image of every requested bound, every input exactly once, and one-shot encoders must state exactly their constraint")}
