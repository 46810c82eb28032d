"""T02: predicates, transformations and evaluation of constraints agree with what the constraint means."""
import itertools
import re

from .mir import Client, Engine, Budget, mk, last, subterms, INT, Some, NONE, ADT, Ok, Err, TRUE, FALSE
from . import regions, lists
from .regions import ev, feasible, Unknown, Underflow

NEG = "NEGLIT"
P = "rustsat::types::constraints::"
TERN = "rustsat::types::TernaryVal"
IMAX = 2 ** 63 - 1
HUGE = 2 ** 63


def lit(i):
    return mk("ARG", "l%d" % i)


def wt(i):
    return mk("ARG", "w%d" % i)


B = mk("ARG", "b")


def neg(t):
    return t.a[0] if t.t == NEG else mk(NEG, t)


def evx(t, env):
    return ev(t, env)


class Lits(Client):
    """clients over constraints whose lists of literals are explicit and whose literals, weights and bound are symbols"""
    max_states = 60000
    max_depth = 14
    dropped = True
    lists = True
    widen_after = 60
    widen_int = 60

    def __init__(self):
        self.ends = []
        self.div = []

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((full(eng, st, ret), st))

    def on_call(self, eng, st, c):
        n = c.name
        t0 = c.argt[0]["s"].lstrip("&").replace("mut ", "") if c.args else ""
        p = c.p or ""
        if t0.endswith("types::Lit"):
            x = deep(eng, st, c.args[0])
            if n in ("not", "neg"):
                return [(neg(x), st)]
            if n in ("clone", "to_owned"):
                return [(x, st)]
            if n in ("eq", "ne", "lt", "le", "gt", "ge") and len(c.args) == 2:
                y = deep(eng, st, c.args[1])
                op = {"eq": "Eq", "ne": "Eq", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[n]
                v = eng.bin(st, op, x, y)
                return [(eng.neg(v) if n == "ne" else v, st)]
            if n in ("is_pos", "is_neg"):
                return None
        if n == "lit_value" and len(c.args) == 2:
            x = deep(eng, st, c.args[1])
            return self.value(eng, st, x)
        if n == "try_from" and len(c.args) == 1 and t0 in ("usize", "isize"):
            x = eng.strip(st, c.args[0])
            out = []
            f = mk("BIN", "Le", x, INT(IMAX)) if t0 == "usize" else mk("BIN", "Le", INT(0), x)
            for tv, v in ((1, Ok(x)), (0, Err(mk("TRYFROM")))):
                s = st.copy()
                if x.t == "INT":
                    if (x.a[0] <= IMAX if t0 == "usize" else x.a[0] >= 0) != bool(tv):
                        continue
                elif not eng.assume(s, f, tv):
                    continue
                out.append((v, s))
            return out
        if n == "try_into" and len(c.args) == 1 and t0 in ("usize", "isize"):
            c.name = "try_from"
            return Lits.on_call(self, eng, st, c)
        if re.match(r"^sort(_unstable)?(_by|_by_key|_by_cached_key)?$|^reverse$|^shrink_to_fit$|^reserve$", n or "") and c.key not in eng.F.fns:
            # order does not matter for what is checked
            u = lists.under(eng, st, c.args[0])
            if u.t == "LIST":
                return [(mk("TUP", ()), st)]
        if n == "dedup" and c.key not in eng.F.fns:
            u = lists.under(eng, st, c.args[0])
            if u.t == "LIST":
                cur = [((), st)]
                for x in u.a[0]:
                    nxt = []
                    for xs, s in cur:
                        if not xs:
                            nxt.append(((x,), s))
                            continue
                        v = eng.bin(s, "Eq", xs[-1], x)
                        for tv in (1, 0):
                            s2 = s.copy()
                            if eng.assume(s2, v, tv):
                                nxt.append((xs if tv else xs + (x,), s2))
                    cur = nxt
                for xs, s in cur:
                    lists.store_at(eng, s, c.args[0], lists.LIST(xs))
                return [(mk("TUP", ()), s) for xs, s in cur]
        if c.key not in eng.F.fns and "HashSet<" in c.dty["s"] and n in ("default", "new", "with_capacity", "with_hasher"):
            return [(lists.LIST(()), st)]
        if n in ("contains", "insert", "remove", "position", "iter_position") and len(c.args) == 2 and c.key not in eng.F.fns and \
                ("HashSet<" in t0 or n == "contains" and re.match(r"^(\[|alloc::vec::Vec<)", t0)):
            u = lists.under(eng, st, c.args[0])
            if u.t != "LIST":
                return None
            y = deep(eng, st, c.args[1])
            out, rest = [], [st]
            for i, x in enumerate(u.a[0]):
                v, nxt = eng.bin(st, "Eq", deep(eng, st, x), y), []
                for s in rest:
                    s2 = s.copy()
                    if eng.assume(s2, v, 1):
                        out.append((i, s2))
                    if eng.assume(s, v, 0):
                        nxt.append(s)
                rest = nxt
            out = [(i, s) for i, s in out] + [(None, s) for s in rest]
            res = []
            for i, s in out:
                if n == "insert" and i is None:
                    lists.store_at(eng, s, c.args[0], lists.LIST(u.a[0] + (y,)))
                if n == "remove" and i is not None:
                    lists.store_at(eng, s, c.args[0], lists.LIST(u.a[0][:i] + u.a[0][i + 1:]))
                res.append((INT(int((i is None) == (n == "insert"))), s))
            return res
        if n == "contains" and len(c.args) == 2 and "Range" in c.argt[0]["s"] and c.key not in eng.F.fns:
            rv = eng.strip(st, c.args[0])
            x = eng.strip(st, c.args[1])
            if rv.t == "ADT":
                fs = [eng.strip(st, y) for y in rv.a[3]]
                k = last(str(rv.a[0]))
                if k == "Range":
                    conds = [("Le", fs[0], x), ("Lt", x, fs[1])]
                elif k == "RangeFrom":
                    conds = [("Le", fs[0], x)]
                elif k == "RangeInclusive":
                    conds = [("Le", fs[0], x), ("Le", x, fs[1])]
                elif k in ("RangeTo", "RangeToInclusive"):
                    conds = [("Lt" if k == "RangeTo" else "Le", x, fs[0])]
                else:
                    return None
                return conj(eng, st, conds)
        if n == "new" and "RangeInclusive" in p and len(c.args) == 2:
            return [(ADT("core::ops::range::RangeInclusive", 0, "RangeInclusive", tuple(eng.strip(st, a) for a in c.args)), st)]
        r = regions.arith(eng, st, c)
        if r is not None:
            return r
        return self.more(eng, st, c)

    def more(self, eng, st, c):
        return None

    def value(self, eng, st, x):
        base = x.a[0] if x.t == NEG else x
        out = []
        v = mk("PURE", "value", (base,))
        for i, nm in enumerate(("True", "False", "DontCare")):
            s = st.copy()
            j = i if x.t != NEG or i == 2 else 1 - i
            if eng.assume(s, v, j):
                out.append((ADT(TERN, i, nm), s))
        return out


def conj(eng, st, conds):
    out, cur = [], [st]
    for op, a, b in conds:
        nxt = []
        for s in cur:
            v = eng.bin(s, op, a, b)
            for tv in (1, 0):
                s2 = s.copy()
                if eng.assume(s2, v, tv):
                    if tv:
                        nxt.append(s2)
                    else:
                        out.append((FALSE, s2))
        cur = nxt
    return out + [(TRUE, s) for s in cur]


def deep(eng, st, v, d=0):
    """a value with references read"""
    for _ in range(12):
        if v.t == "REF":
            v = eng.read(st, v.a[0], v.a[1])
        elif v.t == "BOXED":
            v = v.a[0]
        else:
            break
    return v


def full(eng, st, v, d=0):
    v = deep(eng, st, v)
    if d > 8:
        return v
    if v.t == "ADT" and last(v.a[0]) == "Lit" and len(v.a[3]) == 1:
        x = v.a[3][0]
        if x.t == "BIN" and x.a[0] == "BitXor" and x.a[2] == INT(1) and x.a[1].t == "FLD":
            return neg(full(eng, st, x.a[1].a[0], d + 1))
    if v.t in ("CALL", "PURE") and last(str(v.a[0 if v.t == "PURE" else 1])) in ("from_iter", "from", "into", "collect"):
        x = full(eng, st, v.a[1][0] if v.t == "PURE" else v.a[2], d + 1) if len(v.a) > 2 or v.t == "PURE" else v
        if x.t == "LIST" or x.t == "ADT" and last(x.a[0]) in ("Clause", "Cl"):
            return x
    if v.t == "ADT":
        return mk("ADT", v.a[0], v.a[1], v.a[2], tuple(full(eng, st, x, d + 1) for x in v.a[3]))
    if v.t == "TUP":
        return mk("TUP", tuple(full(eng, st, x, d + 1) for x in v.a[0]))
    if v.t == "LIST":
        return mk("LIST", tuple(full(eng, st, x, d + 1) for x in v.a[0]))
    if v.t == "CAST":
        return full(eng, st, v.a[0], d + 1)
    return v


# ------------------------------------------------------------------ meaning
def litval(t, env, asg):
    """the value of a literal term: variables are the codes of the literals, halved"""
    s = 0
    while t.t == NEG:
        s ^= 1
        t = t.a[0]
    if t not in env:
        raise Unknown(t)
    c = env[t] ^ s
    return asg[c >> 1] ^ (c & 1)


def terms_of(lst):
    if lst.t != "LIST":
        raise Unknown(lst)
    for x in lst.a[0]:
        if x.t == "TUP" and len(x.a[0]) == 2:
            yield x.a[0]
        else:
            yield x, INT(1)


def cons(v):
    """(kind, list, bound) of a constraint value"""
    if v.t == "ADT" and last(v.a[0]) in ("CardConstraint", "PbConstraint"):
        v = v.a[3][0]
    if v.t != "ADT":
        raise Unknown(v)
    k = last(v.a[0])
    m = re.match(r"^(Card|Pb)(Ub|Lb|Eq)Constr$", k)
    if not m:
        raise Unknown(v)
    return m[2], v.a[3][0], v.a[3][-1]


def holds(v, env, asg):
    while v.t in ("CALL", "PURE") and last(str(v.a[0 if v.t == "PURE" else 1])) in ("from_iter", "from", "into", "collect"):
        v = v.a[1][0] if v.t == "PURE" else v.a[2]
    if v.t == "LIST":
        return any(litval(x, env, asg) for x in v.a[0])
    if v.t == "ADT" and last(v.a[0]) in ("Clause", "Cl"):
        return any(litval(x, env, asg) for x, _ in terms_of(v.a[3][0]))
    k, ls, b = cons(v)
    s = sum(ev(w, env) * litval(x, env, asg) for x, w in terms_of(ls))
    b = ev(b, env)
    return {"Ub": s <= b, "Lb": s >= b, "Eq": s == b}[k]


def maxed(env, lits):
    return max(env[x] >> 1 for x in lits) + 1 if lits else 0


# ------------------------------------------------------------------ inputs
def mkcons(F, fam, kind, n):
    """a constraint over n symbolic literals"""
    key = P + fam + kind + "Constr"
    if key not in F.adts:
        return None
    fields = [x[0] for x in F.adts[key]["vs"][0][2]]
    ls = mk("LIST", tuple(lit(i) if fam == "Card" else mk("TUP", (lit(i), wt(i))) for i in range(n)))
    ws = INT(0)
    for i in range(n):
        ws = wt(i) if i == 0 else mk("BIN", "Add", ws, wt(i))
    val = {"lits": ls, "b": B, "weight_sum": ws}
    if any(x not in val for x in fields) or fields[0] != "lits" or fields[-1] != "b":
        return None
    return ADT(key, 0, fam + kind + "Constr", tuple(val[x] for x in fields))


def wrap(F, fam, kind, c):
    return ADT(P + fam + "Constraint", ("Ub", "Lb", "Eq").index(kind), kind, (c,))


PATTERNS = {0: [()], 1: [(0,), (1,)], 2: [(0, 2), (2, 0), (0, 0), (0, 1), (1, 3)], 3: [(0, 2, 4), (1, 2, 5), (0, 0, 2), (0, 1, 2), (0, 2, 0)]}


def envs(fam, n, weights=(1, 2, 3), bounds=None):
    for pat in PATTERNS[n]:
        for ws in itertools.product(weights, repeat=n) if fam == "Pb" else [(1,) * n]:
            for b in bounds or (range(-2, sum(w for w in ws if w < 99) + 3) if fam == "Pb" else range(0, n + 3)):
                env = {B: b, "signed": fam == "Pb"}
                for i in range(n):
                    env[lit(i)] = pat[i]
                    env[wt(i)] = ws[i]
                yield env, [lit(i) for i in range(n)]


def asgs(env, ls):
    return itertools.product((0, 1), repeat=maxed(env, ls))


def desc(env, fam, kind, n):
    def l(c):
        return ("~" if c & 1 else "") + "x%d" % ((c >> 1) + 1)
    return "%s %s %d" % (" + ".join(("%d " % env[wt(i)] if fam == "Pb" else "") + l(env[lit(i)]) for i in range(n)) or "0",
                         {"Ub": "<=", "Lb": ">=", "Eq": "="}[kind], env[B])


def subjects(F):
    """(function, family, kind, wrapped?) for methods of constraints"""
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not f["sp"][0].startswith("src/"):
            continue
        m = re.match(r"^(?:<)?(?:rustsat::)?types::constraints::(Card|Pb)(Ub|Lb|Eq)?Constr(?:aint)?(?: as [^>]*(?:<.*>)?>)?::(\w+)$", f["p"])
        if m:
            yield k, f, m[1], m[2], m[3]


def runs(F, r, k, f, fam, kinds, n, cl=None, wrapped=True, rest=()):
    """[(kind, paths, constraint)]"""
    for kind in kinds:
        c = mkcons(F, fam, kind, n)
        if c is None:
            r.undec("%s%sConstr has another layout" % (fam, kind))
            continue
        v = wrap(F, fam, kind, c) if wrapped else c
        x = cl() if cl else Lits()
        e = Engine(F, x)
        a = e.default_args(f)
        store = {}
        if f["tys"][f["locals"][1]]["k"] in ("ref", "ptr"):
            root = mk("M", mk("ARG", "self"))
            store[root] = v
            a[0] = mk("REF", root, ())
        else:
            a[0] = v
        x.setup(e, a, store) if hasattr(x, "setup") else None
        try:
            e.run(k, getattr(x, "start", ()), args=a, store=store)
        except Budget as z:
            r.undec("%s: %s" % (f["p"], z))
            continue
        r.analysed |= set(e.analysed)
        yield kind, x.ends, c


SOUND = {
    "is_tautology": lambda h: all(h),
    "is_unsat": lambda h: not any(h),
}
PREDS = ("is_tautology", "is_unsat", "is_positive_assignment", "is_negative_assignment", "is_clause")


def meets(name, kind, c, env, ls, h):
    """what the predicate says holds of the constraint with truth table h over the assignments"""
    A = list(asgs(env, ls))
    if name == "is_tautology":
        return all(h)
    if name == "is_unsat":
        return not any(h)
    if name == "is_positive_assignment":
        return all(x == all(litval(t, env, a) for t in ls) for x, a in zip(h, A))
    if name == "is_negative_assignment":
        return all(x == (not any(litval(t, env, a) for t in ls)) for x, a in zip(h, A))
    if name == "is_clause":
        sg = (lambda t: neg(t)) if kind == "Ub" else (lambda t: t)
        return all(x == any(litval(sg(t), env, a) for t in ls) for x, a in zip(h, A))
    return None


def table(c, env, ls):
    return [holds(c, env, a) for a in asgs(env, ls)]


def boolean(ret, env):
    return ev(ret, env)


def each(r, f, ends, env):
    """the paths taken"""
    for ret, st in ends:
        y = feasible(st.facts, env)
        if y is False:
            continue
        yield ret, st, y


def dup(env, ls):
    v = [env[x] >> 1 for x in ls]
    return len(set(v)) != len(v)


def predicates(F, r):
    for k, f, fam, kd, name in subjects(F):
        if name not in PREDS or f["nargs"] != 1:
            continue
        label = "%s%s::%s" % (fam, kd + "Constr" if kd else "Constraint", name)
        bad = und = None
        cnt = 0
        for n in (1, 2, 3):
            for kind, ends, c in runs(F, r, k, f, fam, (kd,) if kd else ("Ub", "Lb", "Eq"), n, wrapped=not kd):
                if not ends:
                    und = "%s: no path returns" % label
                for env, ls in envs(fam, n, (1, 2, 3) if n < 3 else (1, 2)):
                    if bad:
                        break
                    h = None
                    try:
                        live = list(each(r, f, ends, env))
                        if not live and ends:
                            bad = ("panics", "cannot return for %s" % desc(env, fam, kind, n))
                        for ret, st, y in live:
                            v = boolean(ret, env)
                            h = h or table(c, env, ls)
                            m = meets(name, kind, c, env, ls, h)
                            cnt += 1
                            if y and v and not m:
                                bad = ("wrong", "says yes to %s" % desc(env, fam, kind, n))
                            elif y and not v and m and not dup(env, ls) and complete(fam, kind, name, env, n, h):
                                bad = ("missed", "says no to %s" % desc(env, fam, kind, n))
                    except Underflow:
                        bad = ("underflow", "computes with a number below zero for %s" % desc(env, fam, kind, n))
                    except Unknown as z:
                        und = "%s: %s" % (label, str(z)[:80])
        if bad:
            r.bad("%s:%s" % (label, bad[0]), "%s %s" % (label, bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec(und)
        elif cnt:
            r.ok("predicate", label)
    r.floor("predicate", 10)


def complete(fam, kind, name, env, n, h):
    """a 'no' is wrong as well (over distinct variables)"""
    if name in ("is_tautology", "is_unsat"):
        return kind != "Eq" or name == "is_unsat" and fam == "Card"
    if name == "is_clause" and kind == "Eq":
        return False
    return not all(h) and any(h)


def same(v, c, env, ls):
    """the value means the same as the constraint"""
    if v.t == "TUP":
        return all(all(holds(x, env, a) for x in v.a[0]) == holds(c, env, a) for a in asgs(env, ls))
    return all(holds(v, env, a) == holds(c, env, a) for a in asgs(env, ls))


TRANS = ("invert", "split", "into_clause", "into_card_constr", "extend_to_card_constr", "normalize")


def transformations(F, r):
    for k, f, fam, kd, name in subjects(F):
        if name not in TRANS or f["nargs"] != 1:
            continue
        label = "%s%s::%s" % (fam, kd + "Constr" if kd else "Constraint", name)
        transform(F, r, k, f, fam, kd, name, label)
    for k, f in sorted(F.fns.items()):
        m = re.match(r"^<(?:rustsat::)?types::constraints::(Card|Pb)Constraint as core::convert::From<types::constraints::CardConstraint>>::from$", f["p"])
        if m and f["crate"] == "rustsat.lib":
            transform(F, r, k, f, "Card", "", "from", "%sConstraint::from<CardConstraint>" % m[1])
    r.floor("transformation", 6)


def transform(F, r, k, f, fam, kd, name, label):
    bad = und = None
    cnt = 0
    conc = name == "extend_to_card_constr"
    for n in (0, 1, 2):
        for kind, ends, c in runs(F, r, k, f, fam, (kd,) if kd else ("Ub", "Lb", "Eq"), n, wrapped=not kd, cl=Concrete if conc else None):
            for env, ls in envs(fam, n, (1, 2, 3)):
                if bad:
                    break
                if conc:
                    e2 = dict(env)
                    if any(env[wt(i)] != (2, 1)[i] for i in range(n)):
                        continue
                try:
                    h = table(c, env, ls)
                    live = list(each(r, f, ends, env))
                    if not live and ends and not (name == "invert" and fam == "Card" and kind == "Lb" and env[B] > n) and not (conc and (all(h) or not any(h))):
                        bad = ("panics", "cannot return for %s" % desc(env, fam, kind, n))
                    for ret, st, y in live:
                        if not y:
                            continue
                        if ret.t == "ADT" and ret.a[2] == "Err":
                            err = repr(ret)
                            if "Tautology" in err and not all(h) or "Unsat" in err and any(h) or "NotACard" in err and len({env[wt(i)] for i in range(n)}) == 1 \
                                    or "Clausal" in err and not all(h) and any(h) and kind != "Eq" and n and not dup(env, ls) and meets("is_clause", kind, c, env, ls, h):
                                bad = ("refused", "refuses %s" % desc(env, fam, kind, n))
                            cnt += 1
                            continue
                        v = ret.a[3][0] if ret.t == "ADT" and ret.a[2] == "Ok" else ret
                        cnt += 1
                        if not same(v, c, env, ls):
                            bad = ("changed", "changes the meaning of %s" % desc(env, fam, kind, n))
                        elif not summed(F, v, env):
                            bad = ("sum", "leaves a wrong sum of weights for %s" % desc(env, fam, kind, n))
                except Underflow:
                    bad = bad or ("underflow", "computes with a number below zero for %s" % desc(env, fam, kind, n))
                except Unknown as z:
                    und = "%s: %s" % (label, str(z)[:80])
    if bad:
        r.bad("%s:%s" % (label, bad[0]), "%s %s" % (label, bad[1]), "%s:%s" % tuple(f["sp"][:2]))
    elif und:
        r.undec(und)
    elif cnt:
        r.ok("transformation", label)


class Concrete(Lits):
    """weights 2 and 1, for functions that repeat literals"""

    def setup(self, e, a, store):
        def sub(v):
            if v.t == "ARG" and v.a[0] in ("w0", "w1", "w2"):
                return INT((2, 1, 1)[int(v.a[0][1])])
            if not v.a:
                return v
            return mk(v.t, *(sub(x) if hasattr(x, "t") else tuple(sub(y) if hasattr(y, "t") else y for y in x) if isinstance(x, tuple) else x for x in v.a))
        for k in list(store):
            store[k] = sub(store[k])
        a[0] = sub(a[0]) if a[0].t != "REF" else a[0]


def summed(F, v, env):
    """the stored sum of weights is the sum of the stored weights"""
    if v.t == "TUP":
        return all(summed(F, x, env) for x in v.a[0])
    if v.t == "ADT" and last(v.a[0]) == "PbConstraint":
        v = v.a[3][0]
    if v.t == "ADT" and re.match(r"^Pb(Ub|Lb|Eq)Constr$", last(v.a[0])) and len(v.a[3]) == 3:
        return ev(v.a[3][1], env) == sum(ev(w, env) for _, w in terms_of(v.a[3][0]))
    return True


# ------------------------------------------------------------------ evaluation
def evaluation(F, r):
    for k, f, fam, kd, name in subjects(F):
        if name != "evaluate" or f["nargs"] != 2:
            continue
        label = "%s%s::%s" % (fam, kd + "Constr" if kd else "Constraint", name)
        bad = und = None
        cnt = 0
        for n in (0, 1, 2):
            for kind, ends, c in runs(F, r, k, f, fam, (kd,) if kd else ("Ub", "Lb", "Eq"), n, wrapped=not kd):
                pats = [p for p in PATTERNS[n] if len({x >> 1 for x in p}) == n]
                for env, ls in envs(fam, n, (1, 3, HUGE) if fam == "Pb" else (1,), (-2, -1, 0, 1, 2, 3, 4, 5, IMAX) if fam == "Pb" else None):
                    if bad or len({env[x] >> 1 for x in ls}) != n:
                        continue
                    if sum(env[wt(i)] for i in range(n)) >= 2 * HUGE:
                        continue
                    for vals in itertools.product((0, 1, 2), repeat=n):
                        e2 = dict(env)
                        for x, v in zip(ls, vals):
                            e2[mk("PURE", "value", (x,))] = v
                        lo = sum(env[wt(i)] for i in range(n) if vals[i] == 0)
                        hi = lo + sum(env[wt(i)] for i in range(n) if vals[i] == 2)
                        b = env[B]
                        if kind == "Ub":
                            want = {0} if hi <= b else {1} if lo > b else {2}
                        elif kind == "Lb":
                            want = {0} if lo >= b else {1} if hi < b else {2}
                        else:
                            want = {1} if lo > b or hi < b else {0} if lo == hi else {2}
                            if want == {2} and b not in reach(env, vals, n):
                                want = {1, 2}
                        what = "%s under %s" % (desc(env, fam, kind, n), ", ".join(("true", "false", "unassigned")[v] for v in vals))
                        try:
                            live = list(each(r, f, ends, e2))
                            if not live and ends:
                                bad = ("panics", "cannot return for %s" % what)
                            for ret, st, y in live:
                                got = tern(ret, e2)
                                cnt += 1
                                if y and got not in want:
                                    bad = ("wrong", "says %s of %s" % (("true", "false", "undetermined")[got], what))
                        except Underflow:
                            bad = ("underflow", "computes with a number below zero for %s" % what)
                        except Unknown as z:
                            und = "%s: %s" % (label, str(z)[:80])
        if bad:
            r.bad("%s:%s" % (label, bad[0]), "%s %s" % (label, bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec(und)
        elif cnt:
            r.ok("evaluation", label)
    r.floor("evaluation", 1)


def reach(env, vals, n):
    s = {sum(env[wt(i)] for i in range(n) if vals[i] == 0)}
    for i in range(n):
        if vals[i] == 2:
            s |= {x + env[wt(i)] for x in s}
    return s


def tern(ret, env):
    if ret.t == "ADT" and last(ret.a[0]) == "TernaryVal":
        return ret.a[1]
    if ret.t in ("PURE", "CALL"):
        xs = ret.a[1] if ret.t == "PURE" else ret.a[2:]
        if last(str(ret.a[0 if ret.t == "PURE" else 1])) in ("from", "into") and xs:
            return 0 if ev(xs[0], env) else 1
    raise Unknown(ret)


# ------------------------------------------------------------------ clauses
def clauses(F, r):
    for k, f in sorted(F.fns.items()):
        m = re.match(r"^(?:rustsat::)?types::constraints::(Clause|Cl)::(evaluate|is_tautology|normalize|sanitize|remove|remove_thorough)$", f["p"])
        if not m or f["crate"] != "rustsat.lib":
            continue
        label = "%s::%s" % (m[1], m[2])
        bad = und = None
        cnt = 0
        for n in (0, 1, 2, 3):
            v = ADT(P + m[1], 0, m[1], (mk("LIST", tuple(lit(i) for i in range(n))),))
            x = Lits()
            e = Engine(F, x)
            a = e.default_args(f)
            store = {}
            if f["tys"][f["locals"][1]]["k"] in ("ref", "ptr"):
                root = mk("M", mk("ARG", "self"))
                store[root] = v
                a[0] = mk("REF", root, ())
            else:
                a[0] = v
            gone = lit(9)
            if m[2].startswith("remove"):
                a[1] = gone
            try:
                e.run(k, getattr(x, "start", ()), args=a, store=store)
            except Budget as z:
                und = "%s: %s" % (label, z)
                continue
            r.analysed |= set(e.analysed)
            ls = [lit(i) for i in range(n)]
            for pat in itertools.product(range(6), repeat=n):
                if bad or m[2] == "normalize" and list(pat) != sorted(pat):
                    continue
                env = dict(zip(ls, pat))
                if m[2].startswith("remove"):
                    bad = bad or removed(F, r, f, x, e, m[2], env, ls, gone)
                    cnt += 1
                    continue
                A = list(itertools.product((0, 1), repeat=3))
                h = [any(litval(t, env, q) for t in ls) for q in A]
                what = " | ".join(("~" if c & 1 else "") + "x%d" % ((c >> 1) + 1) for c in pat) or "the empty clause"
                for vals in itertools.product((0, 1, 2), repeat=n if m[2] == "evaluate" else 0):
                    if m[2] == "evaluate":
                        if len({c >> 1 for c in pat}) != n:
                            continue
                        env = {**dict(zip(ls, pat)), **{mk("PURE", "value", (t,)): q for t, q in zip(ls, vals)}}
                    try:
                        live = list(each(r, f, x.ends, env))
                        if not live and x.ends:
                            bad = ("panics", "cannot return for %s" % what)
                        for ret, st, y in live:
                            cnt += 1
                            if not y:
                                continue
                            if m[2] == "evaluate":
                                got, want = tern(ret, env), 0 if 0 in vals else 2 if 2 in vals else 1
                                if got != want:
                                    bad = ("wrong", "says %s of %s under %s" % (("true", "false", "undetermined")[got], what, vals))
                            elif m[2] == "is_tautology":
                                if bool(ev(ret, env)) != all(h):
                                    bad = ("wrong", "answers wrongly for %s" % what)
                            elif ret.t == "ADT" and ret.a[2] == "None":
                                if not all(h):
                                    bad = ("wrong", "drops %s" % what)
                            elif [holds(ret.a[3][0], env, q) for q in A] != h:
                                bad = ("wrong", "changes the meaning of %s" % what)
                            elif all(h) or len(listed(ret.a[3][0])) != len(set(pat)):
                                bad = ("kept", "leaves a duplicate or a tautology in %s" % what)
                    except Underflow:
                        bad = ("underflow", "computes with a number below zero for %s" % what)
                    except Unknown as z:
                        und = "%s: %s" % (label, str(z)[:80])
        if bad:
            r.bad("%s:%s" % (label, bad[0]), "%s %s" % (label, bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec(und)
        elif cnt:
            r.ok("clause", label)
    r.floor("clause", 1)


def removed(F, r, f, x, e, name, env, ls, gone):
    """what `remove` and `remove_thorough` leave in the clause"""
    for g in range(6):
        env = {**env, gone: g}
        what = "%s from %s" % (g, [env[t] for t in ls])
        try:
            for ret, st, y in each(r, f, x.ends, env):
                v = st.store.get(mk("M", mk("ARG", "self")))
                xs = listed(v) if v is not None else None
                if not y or xs is None:
                    continue
                want = sorted(env[t] for t in ls)
                found = g in want
                if name == "remove" and found:
                    want.remove(g)
                elif name != "remove":
                    want = [w for w in want if w != g]
                if sorted(ev(t, env) for t in xs) != want:
                    return ("removal", "does not leave the right literals when removing %s" % what)
                if bool(ev(ret, env)) != found:
                    return ("found", "does not tell whether it removed %s" % what)
        except (Unknown, Underflow):
            pass
    return None


def listed(v):
    while v.t == "ADT":
        v = v.a[3][0]
    if v.t != "LIST":
        raise Unknown(v)
    return v.a[0]


def t02(F, r):
    r.rules += ["predicate: per path of is_tautology/is_unsat/is_*_assignment/is_clause/is_card, the answer agrees with the truth table of the constraint",
                "transformation: per path of invert/split/normalize/into_*/extend_to_card_constr/From, the result has the truth table of the argument and its sum of weights is that of its terms",
                "evaluation: per path of evaluate, the answer is that shared by all completions of the assignment, and undetermined if they differ",
                "clause: Clause::normalize keeps the set of literals and drops exactly the tautologies; Cl::evaluate and Cl::is_tautology agree with the literals"]
    predicates(F, r)
    transformations(F, r)
    evaluation(F, r)
    clauses(F, r)
    return {"level": "other",
            "explanation": "Abstract interpretation of the functions over constraints whose literals, weights, bound and (for evaluation) literal values are symbols yields the decision and result terms per path. "
                           "The terms are compared with the meaning of the constraint (its truth table over up to three literals) for every representative of the orderings of bound and weights consistent with the path condition. "
                           "Terms that are not followed leave the obligation undecided (recorded, not reported)."}


CHECKS = {"T02": t02}
TECH = {"T02": ("abstract interpretation of constraint predicates, transformations and evaluation over symbolic literals, weights and bounds, comparing the extracted decision and result terms with truth tables",
                "answers and results must agree with the meaning of the constraint on every path")}
