"""I02, I03, V01, V02: variable bookkeeping."""
import re
from .mir import Engine, Client, Budget, mk, show, last, subterms
from .c_inst import Cov, run, keyof, touched, judge, where, isbad, deep, CUR, CONV, QUIET, flat, FIRST, locate
from .report import Report

LITTY = re.compile(r"\bLit\b|\bClause\b|\bCl\b|Constraint\b|\bCnf\b")
MARK = {"mark_used", "increase_next_free"}
ADDER = re.compile(r"^(add_|extend|from$|from_iter$|collect)")


def tname(f, i):
    t = f["tys"][f["locals"][i]]
    return t["s"]


def isinst(s):
    return re.search(r"\bsat::Instance\b", s) is not None


class Mark(Cov):
    """which literals of the parameters are recorded as used"""
    max_states = 12000

    def inline(self, eng, key, fn, call, st):
        if fn["crate"] != "rustsat.lib":
            return False
        if fn["k"] == "closure":
            return True
        if fn["name"] in MARK or "ManageVars" in fn["p"]:
            return False
        for i in range(1, fn["nargs"] + 1):
            if isinst(fn["tys"][fn["locals"][i]]["s"]):
                return True
        # helpers
        return "instances/sat.rs" in fn["sp"][0] and not fn.get("pub") and "tr" not in fn and "sat::Cnf" not in fn["p"]

    def on_call(self, eng, st, c):
        CUR[:] = [st]
        n = c.name
        if n in MARK and len(c.args) == 2:
            a = c.args[1]
            self.calls[n] = self.calls.get(n, 0) + 1
            v = eng.strip(st, a) if a.t == "REF" else a
            ok = n == "mark_used" or plus1(v)
            if ok:
                ks = touched(v)
                super().use(st, ks, "mark")
                if any(x.t == "CALL" and last(x.a[1] or "").startswith("max") for x in subterms(v)):
                    self.rem(st, ("maxed",))
            return None
        if n == "combine" and len(c.args) == 2:
            for k in touched(eng.strip(st, c.args[1])):
                self.add(st, ("pass", k, "combine"))
            return None
        if n == "collect" and isinst(c.dty["s"]) or n == "from_iter" and isinst(c.dty["s"]):
            for a in c.args:
                for k in touched(eng.strip(st, a)):
                    self.add(st, ("end", k))
                    self.add(st, ("pass", k, "mark"))
        return None

    def use(self, st, keys, what):
        if what in ("mark", "iter"):
            super().use(st, keys, what)

    def on_lossy(self, eng, st, it, n, c):
        return

    def on_filtered(self, eng, st, e, c):
        # what is filtered out before it is added need not be recorded
        CUR[:] = [st]
        super().use(st, {k for k in touched(e) if "[*]" in k}, "mark")

    consumers = ("extend_clauses",)

    def on_consume(self, eng, st, c, i, e):
        if c.name.startswith("max"):
            # the greatest variable stands for all of them
            super().use(st, touched(e), "mark")
            self.add(st, ("maxed",))
        if c.dty and isinst(c.dty["s"]):
            # handed to another of the operations checked here
            super().use(st, touched(e), "mark")


def const(F, r, f):
    """constant literals put into an instance"""
    lit = mark = None
    for g in [f] + [g for g in F.fns.values() if g["k"] == "closure" and g["key"].startswith(f["key"] + "::")]:
        for b in g["blocks"]:
            t = b["t"]
            if b.get("cl") or t[0] != "call":
                continue
            n = last(t[1].get("p") or "")
            if n in MARK:
                mark = b
            if re.search(r"::(Lit|Var)::(new|positive|negative)$", t[1].get("p") or "") and t[2] and t[2][0][0] == "c":
                lit = lit or b
    if lit is not None and mark is None:
        r.bad(f"{f['p']}:const", f"{f['p']} adds literals over a fixed variable without recording it as used", f"{lit['sp'][0]}:{lit['sp'][1]}")
    elif lit is not None:
        r.ok("constant", f["p"])


def plus1(v):
    return v.t in ("BIN", "CALL", "PURE") and any(x.t == "INT" and x.a[0] >= 1 for x in flat(v.a)) or v.t == "CALL" and last(v.a[1] or "") in ("add",)


def i02(F, r):
    r.rules = ["every public operation or trait implementation that adds constraints given by its parameters to a sat::Instance calls mark_used (or increase_next_free with the "
               "variable plus one) on the instance's variable manager for every literal of every such parameter, on every path; merging instances merges their variable managers",
               "constraints made up of constant literals are recorded likewise",
               "no other function of the crate changes the constraint lists of an instance"]
    own = set()
    for f in sorted(F.fns.values(), key=lambda f: f["key"]):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not ("instances/sat.rs" in f["sp"][0]):
            continue
        tys = [tname(f, i) for i in range(0, f["nargs"] + 1)]
        if not (isinst(tys[0]) or any(isinst(t) for t in tys[1:])):
            continue
        params = []
        for i in range(1, f["nargs"] + 1):
            t = tys[i]
            if isinst(t):
                if i > 1:
                    params.append((i, "inst"))
            elif LITTY.search(t) or ADDER.match(f["name"]) and t in ("T", "Iter", "I"):
                params.append((i, "lit"))
        own.add(f["key"])
        if not (f.get("pub") or f.get("impl")):
            continue
        const(F, r, f)
        if not params:
            continue
        if f["name"] in ("eq", "ne", "fmt", "clone", "hash"):
            continue
        CONV.update(("from", "into", "bitor", "from_iter", "collect", "to_vec", "not", "into_clause", "box"))
        t = run(F, r, f, Mark)
        CONV.clear()
        if t is None:
            continue
        names = [a.a[0] for a in Engine(F, Client()).default_args(f)]
        ok, n = True, 0
        for ret, st in t.exits:
            if isbad(ret):
                continue
            n += 1
            obs = set(st.obs)
            for e in st.obs:
                if e[0] == "end" and "~" in e[1] and ("skip", e[1]) not in obs:
                    # something made from several parts was gone through
                    obs |= {("pass", k, "mark") for k in e[1].lstrip("~").split("|")}
            obs = tuple(sorted(obs))
            for i, kind in params:
                K = names[i - 1]
                if kind == "inst":
                    why = judge(obs, K + ".var_manager", False)
                    if why:
                        ok = False
                        r.bad(f"{f['p']}:{i}", f"{f['p']}: the variables of {K} are not merged into the instance's variable manager", where(f))
                    continue
                s = tys[i].lstrip("&").replace("mut ", "").strip()
                why = None
                if re.search(r"\bLit$", s):
                    if not any(e[0] in ("pass", "use") and e[1] == K for e in obs):
                        why = "it is not recorded as used"
                elif ("maxed",) in obs and not t.calls:
                    why = "its greatest variable is computed but not recorded as used"
                elif judge(obs, K, False):
                    why = judge(obs, K, False)
                elif any(e[0] == "skip" and e[1].startswith(K) for e in obs) and not any(e[0] == "pass" and e[1].startswith(K) for e in obs):
                    why = "a literal may be left out"
                if why:
                    ok = False
                    r.bad(f"{f['p']}:{i}", f"{f['p']}: the variables of {K} are not all recorded as used: {why}", where(f))
        if ok and n:
            r.ok("op", f"{f['p']}: {n} exits")
        if not n:
            r.undec(f"{f['p']}: no succeeding exit")
    r.floor("op", 20, "operations adding constraints")
    for f in F.fns.values():
        if f["crate"] != "rustsat.lib" or "instances/sat.rs" in f["sp"][0] or "/solvers/" in f["sp"][0]:
            continue
        for b in f["blocks"]:
            if b.get("cl"):
                continue
            for s in b["s"]:
                if s[0] != "=":
                    continue
                ps = [s[1]] if len(s[1][1]) else []
                if s[2][0] in ("ref", "addr") and s[2][1]:
                    ps.append(s[2][2])
                for p in ps:
                    fl = [e for e in p[1] if isinstance(e, list) and e[0] == "f"]
                    if fl and fl[-1][2] in ("cnf", "cards", "pbs") and re.search(r"\bCnf$|Vec<.*(Card|Pb)Constraint>", f["tys"][p[2]]["s"] if len(p) > 2 else ""):
                        if s[2][0] not in ("ref", "addr") and len(fl) == 1 and fl[0] is p[1][-1] and "*" not in p[1]:
                            continue
                        r.bad(f"writer:{f['p']}", f"{f['p']} changes the constraints of an instance directly", f"{f['sp'][0]}:{s[3]}")
    return {"level": "other", "explanation": "path-sensitive abstract interpretation of every adding operation; element-wise iterator chains; see rules"}


CHECKS = {"I02": i02}
TECH = {"I02": ("path-sensitive abstract interpretation of the MIR: every literal of every constraint parameter must reach mark_used/increase_next_free of the instance's variable manager "
                "on every path (typed element-wise iterator chains)", "all public adding operations and trait implementations of sat::Instance.")}


# ------------------------------------------------------------------------------------ I03
DRAW = {"into_cnf", "into_cnf_with_encoders", "convert_to_cnf", "convert_to_cnf_with_encoders", "into_soft_lits", "into_unweighted_soft_lits",
        "convert_to_soft_lits", "new_var", "new_lit"}


def draws(n):
    return n in DRAW or n.startswith("encode")


class Reserve(Cov):
    """what has been reserved when auxiliary variables are drawn"""
    max_states = 12000

    def __init__(self, F, fn, parts=()):
        super().__init__(F, fn)
        self.parts = parts
        self.bad = []
        self.ndraw = 0

    def inline(self, eng, key, fn, call, st):
        if fn["crate"] != "rustsat.lib" or draws(fn["name"]) or fn["name"] in MARK or fn["name"] in ("max_var", "from_next_free"):
            return False
        if fn["k"] == "closure":
            return True
        if not re.search(r"instances/(opt|multiopt)\.rs|algs/", fn["sp"][0]):
            return False
        return "Objective" not in fn["p"] and not fn.get("derived")

    def use(self, st, keys, what):
        if what in ("mark", "iter"):
            super().use(st, keys, what)

    def on_lossy(self, eng, st, it, n, c):
        return

    def on_filtered(self, eng, st, e, c):
        return

    def on_consume(self, eng, st, c, i, e):
        if c.name.startswith("max"):
            Cov.use(self, st, touched(e) | self.covers(st, e), "maxed")

    def on_iter(self, eng, st, it, kind, call):
        super().on_iter(eng, st, it, kind, call)
        k = keyof(it)
        if kind == "end" and k and ("end", k) in st.obs and ("skip", k) not in st.obs and not last(call.name).startswith("max"):
            # every element was looked at
            self.add(st, ("pass", k, "mark"))

    def covers(self, st, v):
        """parts whose greatest variable a value is at least"""
        ks = set()
        for x in subterms(v):
            if x.t == "MAXV":
                ks.add(x.a[0])
            elif x.t == "CALL" and last(x.a[1] or "").startswith("max") and len(x.a) > 2:
                touched(x, ks)
        return ks

    def on_call(self, eng, st, c):
        CUR[:] = [st]
        n = c.name
        if n == "max_var" and len(c.args) == 1 and c.dty.get("d") == "core::option::Option":
            v = eng.strip(st, c.args[0])
            k = keyof(v) or keyof(c.args[0])
            if k is None or not any(k == p or k.startswith((p + ".", p + "[")) for p in self.parts):
                if any((e[0] == "pass") for e in st.obs):
                    # the manager's own greatest variable, after the reservation
                    return [(mk("CALL", c.site, "max_var", v, mk("RESERVED", tuple(e[1] for e in st.obs if e[0] == "pass"))), st)]
                return None
            from .mir import Some, NONE
            s1, s2 = st.copy(), st.copy()
            Cov.use(self, s2, {k}, "mark")
            return [(Some(mk("MAXV", k)), s1), (NONE, s2)]
        if n in MARK and len(c.args) == 2:
            v = eng.strip(st, c.args[1]) if c.args[1].t == "REF" else c.args[1]
            if n == "mark_used" or plus1(v):
                Cov.use(self, st, self.covers(st, v), "mark")
                if n == "mark_used":
                    Cov.use(self, st, touched(v), "mark")
            return None
        if n == "from_next_free" and c.args:
            v = c.args[0]
            ks = self.covers(st, v) if plus1(v) else set()
            for x in subterms(v):
                if x.t == "RESERVED" and plus1(v):
                    ks |= set(x.a[0])
            for e in list(st.obs):
                if e[0] in ("pass", "end") and e[1] not in ks:
                    self.rem(st, e)
            Cov.use(self, st, ks, "mark")
            return None
        if draws(n) and (c.args or n.startswith("encode")):
            self.ndraw += 1
            for p in self.parts:
                if ("drew", p) in st.obs:
                    continue
                why = judge(st.obs, p, False)
                if why and not self.exhausted(eng, st, p):
                    self.bad.append((p, n, why, c.where))
                else:
                    # only the first draw matters
                    self.add(st, ("drew", p))
        return None

    def exhausted(self, eng, st, p):
        """the path found the maximum over the part to be missing"""
        return any(f.t == "DISCR" and f.a[0].t == "CALL" and last(f.a[0].a[1] or "").startswith("max") and any(k.split("[")[0].startswith(p) for k in self.covers(st, f.a[0]))
                   and (x == ("=", 0) or x[0] == "!" and 1 in x[1]) for f, x in st.facts.items())


def i03(F, r):
    r.rules = ["on every path through the conversions of optimisation instances and through the search algorithms, before the first call that can draw an auxiliary variable "
               "(CNF conversion, conversion of soft clauses, new_var, encoders) the variable manager has been raised beyond the greatest variable of every objective, "
               "or the objective was found to have none",
               "a variable manager created in such a function starts beyond the greatest variable of every objective"]
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f["key"]):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not re.search(r"instances/(opt|multiopt)\.rs|algs/maxsat\.rs", f["sp"][0]):
            continue
        if f["name"] in ("new_var", "new_lit") or not (f["name"] == "decompose" or calls_draw(F, f)):
            continue
        names = [a.a[0] for a in Engine(F, Client()).default_args(f)]
        parts = []
        for i in range(1, f["nargs"] + 1):
            s = tname(f, i)
            if re.search(r"opt::Instance\b", s) and "multiopt" not in s:
                parts.append(names[i - 1] + ".obj")
            elif re.search(r"MultiOptInstance", s):
                parts.append(names[i - 1] + ".objs")
            elif re.search(r"\[\(types::Lit, usize\)\]|\[\(Lit, usize\)\]", s):
                parts.append(names[i - 1])
        if not parts:
            continue
        n += 1
        t = run(F, r, f, Reserve, parts=tuple(parts))
        if t is None:
            continue
        if f["name"] == "decompose":
            for ret, st in t.exits:
                t.ndraw += 1
                for p in parts:
                    why = judge(st.obs, p, False)
                    if why and not any(e[0] == "pass" and e[1].startswith(p) and e[2] == "mark" for e in st.obs):
                        t.bad.append((p, "decompose", why, where(f)))
                    elif not any(e[0] in ("pass", "use", "end") and e[1].startswith(p) and (e[0] == "end" or e[2] == "mark") for e in st.obs):
                        t.bad.append((p, "decompose", "they are not reserved", where(f)))
        if t.bad:
            for p, d, why, w in sorted(set(t.bad)):
                r.bad(f"{f['p']}:{p}:{d}", f"{f['p']}: the variables of {p} are not all reserved in the instance handed out: {why}" if d == "decompose" else f"{f['p']}: `{d}` may draw an auxiliary variable before the variables of {p} are reserved: {why}", w)
        elif t.ndraw:
            r.ok("conversion", f"{f['p']}: {t.ndraw} drawing calls, objectives {', '.join(parts)}")
        else:
            r.undec(f"{f['p']}: no drawing call reached")
    r.floor("conversion", 5, "conversions and algorithms that draw auxiliary variables")
    return {"level": "other", "explanation": "path-sensitive abstract interpretation of every conversion that draws auxiliary variables; see rules"}


def calls_draw(F, f, d=0):
    for g in [f] + [g for g in F.fns.values() if g["k"] == "closure" and g["key"].startswith(f["key"] + "::")]:
        for b in g["blocks"]:
            t = b["t"]
            if b.get("cl") or t[0] != "call":
                continue
            p = t[1].get("p") or ""
            if draws(last(p)):
                return True
            k = t[1].get("r")
            if d < 3 and k in F.fns and re.search(r"instances/(opt|multiopt)\.rs|algs/maxsat\.rs", F.fns[k]["sp"][0]) and not F.fns[k].get("pub") and calls_draw(F, F.fns[k], d + 1):
                return True
    return False


CHECKS["I03"] = i03
TECH["I03"] = ("path-sensitive abstract interpretation of the MIR: typestate of the variable manager (reserved beyond every objective) at each call that draws variables",
               "all paths of the conversions of optimisation instances and of the MaxSAT algorithms.")
