"""E05: the building blocks of encodings state what they are named after; at-most-one encodings state at-most-one."""
import itertools
import re

from .mir import Client, Engine, Budget, mk, last, subterms, INT, Some, NONE, ADT, Ok  # noqa: F401
from . import lists
from . import c_constr as CC
from .regions import ev, feasible, Unknown, Underflow

UNIT = mk("TUP", ())
P = CC.P


class Blocks(CC.Lits):
    """obs: (clauses added, number of auxiliary variables drawn)"""
    start = ((), 0)
    consts = {}
    fold = True

    def param(self, name):
        return INT(self.consts[name]) if name in self.consts else None

    def more(self, eng, st, c):
        n = c.name or ""
        cls, aux = st.obs
        if n in ("extend_clauses", "add_clause") and len(c.args) == 2 and c.key not in eng.F.fns:
            return self.added(eng, st, c, n == "add_clause")
        if n in ("mark_used", "increase_next_free") and len(c.args) == 2:
            return [(mk("PURE", "known", ()), st)]
        if n in ("new_var", "new_lit") and len(c.args) == 1:
            st.obs = (cls, aux + 1)
            v = mk("AUX", aux)
            return [(v if n == "new_lit" else mk("AUXV", aux), st)]
        if n in ("pos_lit", "neg_lit", "lit") and c.args:
            x = CC.deep(eng, st, c.args[0])
            if x.t == "AUXV":
                if n == "lit":
                    s = eng.strip(st, c.args[1])
                    if s.t == "INT":
                        return [(CC.neg(mk("AUX", x.a[0])) if s.a[0] else mk("AUX", x.a[0]), st)]
                    out = []
                    for val in (0, 1):
                        s2 = st.copy()
                        if eng.assume(s2, s, val):
                            out.append((CC.neg(mk("AUX", x.a[0])) if val else mk("AUX", x.a[0]), s2))
                    return out
                return [(mk("AUX", x.a[0]) if n == "pos_lit" else CC.neg(mk("AUX", x.a[0])), st)]
        if n in ("n_used", "n_clauses", "n_vars") and len(c.args) == 1:
            return [(mk("PURE", "count", (INT(len(cls)), INT(aux))), st)]
        if n in ("from_iter", "from", "collect") and c.args and c.dty["k"] == "param":
            it = self.items(eng, st, c.args[-1])
            if it is None:
                return None
            return [(mk("SUB", tuple(CC.full(eng, s, x) for x in xs)), s) for xs, s in lists.drain(eng, st, c, it, c.depth, ())]
        if n == "encode" and len(c.args) == 3:
            e = CC.deep(eng, st, c.args[0])
            if e.t == "SUB":
                st.obs = (cls + (e,), aux)
                return [(Ok(UNIT), st)]
        return None

    def items(self, eng, st, a):
        it = lists.as_iter(eng, st, a)
        if it is None:
            u = lists.under(eng, st, a)
            it = lists.seq(u.a[0]) if u.t == "LIST" else None
        return it

    def added(self, eng, st, c, one):
        cls, aux = st.obs
        if one:
            st.obs = (cls + (CC.full(eng, st, c.args[1]),), aux)
            return [(Ok(UNIT), st)]
        it = self.items(eng, st, c.args[1])
        if it is None:
            return None
        out = []
        for xs, s in lists.drain(eng, st, c, it, c.depth, ()):
            s.obs = (s.obs[0] + tuple(CC.full(eng, s, x) for x in xs), s.obs[1])
            out.append((Ok(UNIT), s))
        return out


def val(t, env, asg, aux):
    s = 0
    while t.t == CC.NEG:
        s ^= 1
        t = t.a[0]
    if t.t == "AUX":
        return aux[t.a[0]] ^ s
    return CC.litval(t, env, asg) ^ s


def clause_of(v):
    while v.t in ("CALL", "PURE") and v.a:
        v = v.a[1][0] if v.t == "PURE" and v.a[1] else v.a[2] if v.t == "CALL" and len(v.a) > 2 else v
        if v.t in ("CALL", "PURE") and not (v.t == "PURE" and v.a[1] or v.t == "CALL" and len(v.a) > 2):
            break
    xs = CC.listed(v)
    if xs is None:
        raise Unknown(v)
    return xs


def stated(cls, env, ls, naux):
    """the assignments of the input literals (as CC.asgs orders them) under which the clauses hold for some values of the
    auxiliary variables"""
    nv = CC.maxed(env, ls)
    total = nv + naux
    size = 1 << total
    full = (1 << size) - 1

    def column(j):
        # variable j (the first one changes slowest) as a truth table
        block = 1 << (total - 1 - j)
        pat, width = ((1 << block) - 1) << block, 2 * block
        while width < size:
            pat |= pat << width
            width *= 2
        return pat
    cols = [column(j) for j in range(total)]

    def table(t):
        s = 0
        while t.t == CC.NEG:
            s ^= 1
            t = t.a[0]
        if t.t == "AUX":
            c = cols[nv + t.a[0]]
        elif t in env:
            c, s = cols[env[t] >> 1], s ^ (env[t] & 1)
        else:
            raise Unknown(t)
        return full & ~c if s else c
    acc = full
    for c in cls:
        if c.t == "SUB":
            ts = [table(t) for t in c.a[0]]
            for a, b in itertools.combinations(ts, 2):
                acc &= full & ~(a & b)
        else:
            o = 0
            for t in clause_of(c):
                o |= table(t)
            acc &= o
    # some values of the auxiliary variables, which change fastest
    block = 1 << naux
    out = []
    for q in range(1 << nv):
        out.append(bool((acc >> (q * block)) & ((1 << block) - 1)))
    return out


# ------------------------------------------------------------------ at-most-one encodings
def am1(F, r):
    for k, f in sorted(F.fns.items()):
        m = re.match(r"^<encodings::am1::(\w+)::(\w+)(<.*>)? as (?:rustsat::)?encodings::am1::Encode>::encode$", f["p"])
        if not m or f["crate"] != "rustsat.lib":
            continue
        label = "%s::encode" % m[2]
        key = "rustsat::encodings::am1::%s::%s" % (m[1], m[2])
        if key not in F.adts:
            r.undec("%s: layout of the encoding not known" % label)
            continue
        fields = [x[0] for x in F.adts[key]["vs"][0][2]]
        bad = und = None
        cnt = 0
        for N in ((2, 3, 4) if m[3] and "N" in m[3] else (None,)):
            for n in range(0, 10):
                ls = [CC.lit(i) for i in range(n)]
                x = Blocks()
                x.consts = {"N": N} if N else {}
                e = Engine(F, x)
                a = e.default_args(f)
                root = mk("M", a[0])
                vals = tuple(mk("LIST", tuple(ls)) if g == "in_lits" else mk("ARG", "old_" + g) for g in fields)
                store = {root: ADT(key, 0, m[2], vals)}
                a[0] = mk("REF", root, ())
                try:
                    e.run(k, x.start, args=a, store=store)
                except Budget as z:
                    und = "%s with %d inputs: %s" % (label, n, str(z)[:60])
                    continue
                r.analysed |= set(e.analysed)
                env = {t: 2 * i + (i == 1) for i, t in enumerate(ls)}
                if not x.ends:
                    und = "%s: no path returns for %d inputs" % (label, n)
                for ret, st in x.ends:
                    try:
                        y = feasible(st.facts, env)
                        if y is False or not (ret.t == "ADT" and ret.a[2] == "Ok"):
                            continue
                        if not y:
                            und = "%s: a path depends on something that is not followed" % label
                            continue
                        cls, naux = st.obs
                        if naux > 9:
                            und = "%s: too many auxiliary variables" % label
                            continue
                        got = stated(cls, env, ls, naux)
                        want = [sum(CC.litval(t, env, q) for t in ls) <= 1 for q in CC.asgs(env, ls)]
                        cnt += 1
                        for g, w, q in zip(got, want, CC.asgs(env, ls)):
                            if g != w and not bad:
                                bad = ("loose" if g else "strict", "%s %d of %d inputs%s" % ("allows" if g else "forbids", sum(CC.litval(t, env, q) for t in ls), n, " with splits of %d" % N if N else ""))
                    except (Unknown, Underflow) as z:
                        und = "%s: %s" % (label, str(z)[:80])
        if bad:
            r.bad("%s:%s" % (label, bad[0]), "%s %s" % (label, bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec(und)
        elif cnt:
            r.ok("at most one", label)
    r.floor("at most one", 2)


# ------------------------------------------------------------------ implications and clauses of literals
SHAPE = re.compile(r"^(?:add_)?(lit|clause|cube)_impl_(lit|clause|cube)$")
PLAIN = {"add_unit": 1, "add_binary": 2, "add_ternary": 3}
INST = "rustsat::instances::sat::"


def filled(F, eng, st, key, depth=0):
    """an instance or CNF without any clauses or constraints: vectors of clauses are empty"""
    fs = []
    for name, ty, _ in F.adts[key]["vs"][0][2]:
        s = F.adts[key]["tys"][ty]["s"]
        if s.startswith("alloc::vec::Vec<"):
            fs.append(mk("LIST", ()))
        elif re.search(r"(^|::)Cnf$", s) and INST + "Cnf" in F.adts and depth < 2:
            fs.append(filled(F, eng, st, INST + "Cnf", depth + 1))
        else:
            fs.append(mk("ARG", "old_" + name))
    return ADT(key, 0, last(key), tuple(fs))


def clauses_in(v, out=None, top=True):
    """the clauses stored in a value"""
    out = [] if out is None else out
    if v.t == "ADT" and last(v.a[0]) in ("Clause", "Cl"):
        out.append(v)
    elif v.t == "LIST" and not top:
        out.append(v)       # a list in a list of clauses
    elif v.t == "ADT":
        for x in v.a[3]:
            clauses_in(x, out)
    elif v.t == "LIST":
        for x in v.a[0]:
            clauses_in(x, out, False)
    elif not top or v.t in ("LIT", "ITER", "UPD", "OBJ", "HAV"):
        raise Unknown(v)
    return out


class Top:
    """the caller that goes through a returned iterator"""
    site = where = name = "return"
    bb, depth, subst = 0, 0, {}

    def __init__(self, fn):
        self.fn = fn
        self.ctx = mk("CTX", mk("ROOT"), fn["key"] + "@return", 0)


class Adds(Blocks):
    def more(self, eng, st, c):
        n = c.name or ""
        if n in ("var", "vidx", "vidx32") and len(c.args) == 1 and c.argt[0]["s"].lstrip("&").endswith("types::Lit"):
            return [(mk("PURE", n, (CC.deep(eng, st, c.args[0]),)), st)]
        if n == "mark_used" and len(c.args) == 2 or n in ("increase_next_free",):
            return [(mk("PURE", "known", ()), st)]
        return super().more(eng, st, c)

    def on_return(self, eng, st, fn, ret, depth):
        if depth:
            return
        if ret.t in ("LIT",):
            for xs, s in lists.drain(eng, st, Top(fn), ret, 1, ()):
                self.ends.append((mk("LIST", tuple(CC.full(eng, s, x) for x in xs)), s))
            return
        root = getattr(self, "root", None)
        self.ends.append((CC.full(eng, st, eng.read(st, root, ()) if root is not None else ret), st))


def implications(F, r):
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure":
            continue
        m = re.match(r"^(?:rustsat::)?(encodings::atomics|instances::sat::(?:Cnf|Instance|SatInstance)(?:(?:::)?<[^>]*>)?)::(\w+)$", f["p"])
        if not m:
            continue
        q = SHAPE.match(m[2])
        if not q and m[2] not in PLAIN:
            continue
        free = m[1] == "encodings::atomics"
        label = ("" if free else last(re.sub(r"(::)?<.*", "", m[1])) + "::") + m[2]
        own = None
        if not free:
            own = INST + last(re.sub(r"(::)?<.*", "", m[1]))
            if own not in F.adts:
                r.undec("%s: layout not known" % label)
                continue
        kinds = (q[1], q[2]) if q else ("lit",) * PLAIN[m[2]]
        if f["nargs"] != len(kinds) + (0 if free else 1):
            r.undec("%s has other arguments" % label)
            continue
        bad = und = None
        cnt = 0
        for ns in itertools.product(*[(1,) if x == "lit" else (0, 1, 2, 3) for x in kinds]):
            x = Adds()
            e = Engine(F, x)
            a = e.default_args(f)
            store = {}
            off = 0
            if not free:
                root = mk("M", a[0])
                x.root = root
                store[root] = filled(F, e, None, own)
                a[0] = mk("REF", root, ())
                off = 1
            grp, i = [], 0
            for j, (kd, n) in enumerate(zip(kinds, ns)):
                g = [CC.lit(i + t) for t in range(n)]
                i += n
                grp.append(g)
                a[j + off] = g[0] if kd == "lit" else mk("BOXED", mk("LIST", tuple(g)))
            try:
                e.run(k, x.start, args=a, store=store)
            except Budget as z:
                und = "%s: %s" % (label, str(z)[:80])
                continue
            r.analysed |= set(e.analysed)
            ls = [t for g in grp for t in g]
            for pat in ([2 * j + (j % 2) for j in range(len(ls))], [0 if j % 2 else 2 for j in range(len(ls))], [j // 2 * 2 + (j % 2) for j in range(len(ls))]):
                env = dict(zip(ls, pat))
                if not x.ends:
                    und = "%s: no path returns" % label
                try:
                    for ret, st in x.ends:
                        y = feasible(st.facts, env)
                        if y is False:
                            continue
                        if not y:
                            und = "%s: a path depends on something that is not followed" % label
                            continue
                        one = free and f["tys"][f["locals"][0]]["s"].endswith("Clause")
                        cls = [clause_of(c) for c in ([ret] if one else clauses_in(ret))]
                        for asg in CC.asgs(env, ls):
                            cnt += 1
                            got = all(any(CC.litval(t, env, asg) for t in c) for c in cls)
                            vs = [[CC.litval(t, env, asg) for t in g] for g in grp]
                            if q:
                                h = [(any if kd == "clause" else all)(v) for kd, v in zip(kinds, vs)]
                                want = not h[0] or h[1]
                            else:
                                want = any(v[0] for v in vs)
                            if got != bool(want) and not bad:
                                bad = ("loose" if got else "strict", "%s an assignment that %s what it states, with %s" % (
                                    "allows" if got else "forbids", "violates" if got else "satisfies",
                                    " and ".join("%d literals on the %s" % (n, s) for n, s in zip(ns, ("left", "right"))) if q else "%d literals" % len(ls)))
                except (Unknown, Underflow) as z:
                    und = "%s: %s" % (label, str(z)[:80])
        if bad:
            r.bad("%s:%s" % (label, bad[0]), "%s %s" % (label, bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec(und)
        elif cnt:
            r.ok("implication", label)
    r.floor("implication", 6)


# ------------------------------------------------------------------ reified constraints
X = mk("ARG", "x")


def reified(F, r):
    for k, f in sorted(F.fns.items()):
        m = re.match(r"^(?:rustsat::)?encodings::atomics::(?:lit_impl_(card|pb)|(card|pb)_impl_lit)$", f["p"])
        if not m or f["crate"] != "rustsat.lib" or f["nargs"] != 2:
            continue
        fam = "Card" if "card" in f["p"].rsplit("::", 1)[1] else "Pb"
        fwd = m[1] is not None
        label = f["p"].rsplit("::", 1)[1]
        at = 1 if fwd else 0
        bad = und = None
        cnt = 0
        for n in (0, 1, 2, 3):
            for kind in ("Ub", "Lb", "Eq"):
                c = CC.mkcons(F, fam, kind, n)
                if c is None:
                    r.undec("%s%sConstr has another layout" % (fam, kind))
                    continue
                x = CC.Lits()
                e = Engine(F, x)
                a = e.default_args(f)
                root = mk("M", a[at])
                a[at] = mk("REF", root, ())
                a[1 - at] = X
                try:
                    e.run(k, (), args=a, store={root: CC.wrap(F, fam, kind, c)})
                except Budget as z:
                    und = "%s: %s" % (label, str(z)[:80])
                    continue
                r.analysed |= set(e.analysed)
                for env, ls in CC.envs(fam, n, (1, 2, 3) if n < 3 else (1, 3)):
                    for xc in (8, 9, 0):
                        if bad or xc == 0 and n > 1:
                            continue
                        env = dict(env)
                        env[X] = xc
                        ls2 = ls + [X]
                        desc = "%s %s %s" % (("x5", "->", CC.desc(env, fam, kind, n)) if fwd else (CC.desc(env, fam, kind, n), "->", "x5"))
                        try:
                            live = list(CC.each(r, f, x.ends, env))
                            h = [CC.holds(c, env, q) for q in CC.asgs(env, ls2)]
                            if not live and kind != "Eq" and any(h):
                                bad = ("panics", "cannot return for %s" % desc)
                            for ret, st, y in live:
                                if not y:
                                    und = "%s: a path depends on something that is not followed" % label
                                    continue
                                if ret.t == "ADT" and ret.a[2] in ("Ok", "Some"):
                                    ret = ret.a[3][0]
                                for q, hc in zip(CC.asgs(env, ls2), h):
                                    lx = CC.litval(X, env, q)
                                    want = (not lx or hc) if fwd else (not hc or lx)
                                    got = CC.holds(ret, env, q)
                                    cnt += 1
                                    if bool(got) != bool(want) and not bad:
                                        bad = ("loose" if got else "strict", "%s an assignment that %s %s" % (
                                            "allows" if got else "forbids", "violates" if got else "satisfies", desc))
                        except Underflow:
                            bad = bad or ("underflow", "computes with a number below zero for %s" % desc)
                        except Unknown as z:
                            und = "%s: %s" % (label, str(z)[:80])
        if bad:
            r.bad("%s:%s" % (label, bad[0]), "%s %s" % (label, bad[1]), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec(und)
        elif cnt:
            r.ok("reification", label)
    r.floor("reification", 2)


def e05(F, r):
    implications(F, r)
    reified(F, r)
    am1(F, r)
    r.rules += [
        "implication: the clauses returned, or added to an empty CNF or instance, by each <lit|clause|cube>_impl_<lit|clause|cube> (0 to 3 symbolic literals per side) and add_unit/binary/ternary hold under exactly the assignments the name states",
        "reification: the constraint returned by lit_impl_card/pb and card/pb_impl_lit has the truth table of the implication, for every ordering of weights and bound; only equalities and unsatisfiable constraints may be refused",
        "at most one: the clauses collected by each at-most-one encoder (0 to 9 symbolic literals, group sizes 2 to 4, sub-encodings taken as at-most-one constraints) are satisfiable in the auxiliary variables under exactly the assignments that make at most one input true",
    ]
    return {"level": "other", "explanation":
            "Exhaustive over the paths of each function for up to three literals per side (implications, reifications) and nine inputs (at-most-one encodings), all literals, weights and bounds symbolic; "
            "truth tables of the constraints read off the paths are compared with the named statement. Sub-encodings of Bimander, Commander and TwoProduct are taken to be at-most-one constraints, which the same rule decides for each of them."}


CHECKS = {"E05": e05}
TECH = {"E05": ("symbolic collection of the stated clauses and constraints over MIR paths, compared as truth tables with the named statement", "explicit lists of up to nine symbolic literals")}
