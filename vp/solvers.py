"""Analyses of the solver wrappers (S properties).

One path-sensitive run per method; the observer records what was handed to the backend, in
which order, and under which recorded state.
"""
from .mir import Engine, Client, Budget, mk, V, INT, subterms, last, show
from .models import source, NEUTRAL

# name -> (crate, type path suffix, mutating, queries of the model, queries of the core, solve)
FAM = {
    "cadical": ("rustsat_cadical.lib", "CaDiCaL"),
    "kissat": ("rustsat_kissat.lib", "Kissat"),
    "ipasir": ("rustsat_ipasir.lib", "IpasirSolver"),
    "minisat-core": ("rustsat_minisat.lib", "core::Minisat"),
    "minisat-simp": ("rustsat_minisat.lib", "simp::Minisat"),
    "glucose-core": ("rustsat_glucose.lib", "core::Glucose"),
    "glucose-simp": ("rustsat_glucose.lib", "simp::Glucose"),
    "batsat": ("rustsat_batsat.lib", "Solver"),
}

# foreign functions by what they do to the backend's answer (from the backends' API contracts)
SOLVE = {"ccadical_solve_mem", "ccadical_solve", "kissat_solve", "ipasir_solve", "solve_limited"}
SIMPLIFY = {"ccadical_simplify_rounds", "ccadical_simplify"}
PROPAGATE = {"ccadical_propagate", "ccadical_propcheck"}
ADD = {"ccadical_add_mem", "ccadical_add", "kissat_add", "ipasir_add"}
CONSTRAIN = {"ccadical_constrain_mem", "ccadical_constrain"}
ASSUME = {"ccadical_assume_mem", "ccadical_assume", "ipasir_assume"}
ADDCL = {"add_clause_reuse", "add_clause_unchecked"}
GROW = {"ccadical_resize", "ccadical_reserve", "ccadical_declare_more_variables",
        "ccadical_declare_one_more_variable", "kissat_reserve"}
MODELQ = {"ccadical_val", "ccadical_flip", "ccadical_flippable", "kissat_value", "ipasir_val",
          "value_lit", "value_var"}
COREQ = {"ccadical_failed", "ccadical_constraint_failed", "ipasir_failed", "unsat_core",
         "unsat_core_contains_lit", "unsat_core_contains_var", "ccadical_conclude"}
for p in ("cminisat_", "cminisatsimp_", "cglucose4_", "cglucosesimp4_"):
    SOLVE.add(p + "solve")
    PROPAGATE.add(p + "propcheck")
    ADDCL.add(p + "add_clause")
    MODELQ.add(p + "val")
    COREQ.add(p + "conflict")
ASK = SOLVE | SIMPLIFY
MUT = SOLVE | SIMPLIFY | PROPAGATE | ADD | CONSTRAIN | ASSUME | ADDCL | GROW
COUNTERS = ("n_sat", "n_unsat", "n_terminated")
OOM = 50


def backend_event(F, call):
    """name of the backend operation a call performs, if it is one"""
    if call.key in F.foreign:
        return last(call.p)
    if call.p.startswith("batsat::"):
        return last(call.p)
    return None


def cls_state(eng, st, v):
    """discriminant name(s) of a recorded-state value: set of possible variant names"""
    return v


class Wrapper:
    def __init__(self, F, name):
        self.F = F
        self.name = name
        crate, suf = FAM[name]
        self.crate = crate
        c = [a for k, a in F.adts.items() if a["crate"] == crate and
             (a["p"] == suf or a["p"].endswith("::" + suf)) and not a["p"].endswith("InternalSolverState")]
        c = [a for a in c if a["k"] == "struct" and any(f[0] == "state" for f in a["vs"][0][2])]
        self.adt = c[0] if len(c) == 1 else None
        if not self.adt:
            return
        fs = self.adt["vs"][0][2]
        self.fidx = {f[0]: i for i, f in enumerate(fs)}
        ty = self.adt["tys"][[f for f in fs if f[0] == "state"][0][1]]
        self.state_adt = F.adts[ty["d"]]
        self.variants = {v[0]: int(v[1]) for v in self.state_adt["vs"]}   # name -> discriminant
        self.by_discr = {v: k for k, v in self.variants.items()}
        self.methods = {}
        for k, f in F.fns.items():
            if f["crate"] == crate and "self" in f and f["k"] != "closure":
                t = f["tys"][f["self"]]
                if t.get("d") == self.adt["key"]:
                    self.methods.setdefault(f["name"], []).append(f)

    def state_path(self):
        i = self.fidx["state"]
        return ((None, i, "state"),)

    def counter_paths(self):
        if "n_sat" in self.fidx:
            return {c: ((None, self.fidx[c], c),) for c in COUNTERS}
        i = self.fidx["stats"]
        t = self.adt["tys"][self.adt["vs"][0][2][i][1]]
        a = self.F.adts[t["d"]]
        idx = {f[0]: j for j, f in enumerate(a["vs"][0][2])}
        return {c: ((None, i, "stats"), (None, idx[c], c)) for c in COUNTERS}


class Obs:
    """immutable observer state, kept in State.obs as a tuple (name, value) frozenset"""


def oget(o, k, d=None):
    for kk, v in o:
        if kk == k:
            return v
    return d


def oset(o, **kw):
    d = dict(o)
    for k, v in kw.items():
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return tuple(sorted(d.items(), key=lambda x: x[0]))


TYPES_NOINLINE = ("types::Lit::", "types::Var::", "utils::Timer", "from_raw_parts_maybe_null")


class WClient(Client):
    max_states = 20000

    def __init__(self, w, rep, fn):
        self.w = w
        self.rep = rep
        self.fn = fn
        self.selfroot = mk("M", mk("ARG", "self"))
        self.exits = []
        self.events = []
        self.queries = []
        self.oomsites = set()

    # -------------------------------------------------------------- helpers
    def state_val(self, eng, st):
        return eng.read(st, self.selfroot, self.w.state_path())

    def possible(self, eng, st, v=None):
        """variant names the recorded state may have on this path"""
        if v is None:
            v = self.state_val(eng, st)
        d = eng.conc(st, eng.discr(st, v))
        if d.t == "INT":
            return {self.w.by_discr.get(d.a[0], "?")}
        f = st.facts.get(d)
        poss = set(self.w.by_discr)
        if f and f[0] == "!":
            poss -= f[1]
        return {self.w.by_discr[x] for x in poss}

    def inline(self, eng, key, fn, call, st):
        p = fn["p"]
        if any(x in p for x in TYPES_NOINLINE):
            return False
        if self.fn["name"] == "extend" and fn["name"].startswith("add_"):
            return False
        if fn["crate"] == self.w.crate:
            return True
        if fn.get("trait") in ("core::convert::From", "core::convert::Into", "core::ops::bit::Not",
                               "core::ops::arith::Neg"):
            return False
        return True

    # -------------------------------------------------------------- events
    def on_call(self, eng, st, c):
        ev = backend_event(eng.F, c)
        if ev is None:
            return None
        o = st.obs
        self.check_pending(eng, st)
        o = st.obs
        seq = oget(o, "seq", ())
        if ev in MUT:
            st.obs = o = oset(o, mut=ev, fresh=None)
            if ev in ADD or ev in CONSTRAIN or ev in ASSUME:
                self.lit_event(eng, st, c, ev)
                o = st.obs
            elif ev in ADDCL or ev in SOLVE or ev in PROPAGATE:
                self.ptr_event(eng, st, c, ev)
                o = st.obs
            if ev in ASK or ev in PROPAGATE:
                self.ask_event(eng, st, c, ev)
                o = st.obs
        if ev in MODELQ or ev in COREQ:
            self.query_event(eng, st, c, ev)
            if ev in MODELQ:
                v = mk("CALL", c.site, c.rp, *[eng.strip(st, a) if i else a for i, a in enumerate(c.args)])
                st.obs = oset(st.obs, mq=v)
                return [(v, st)]
            if ev.endswith("_failed"):
                v = mk("CALL", c.site, c.rp)
                if "constraint" in ev:
                    st.obs = oset(st.obs, cfq=v)
                return [(v, st)]
        if ev in self.oom:
            v = eng.cap(mk("CALL", c.site, c.rp))
            st.obs = oset(st.obs, pend=(v, ev))
            self.oomsites.add((c.fn["key"], c.bb, ev))
            if ev in ASK or ev in PROPAGATE:
                st.obs = oset(st.obs, res=v)
            return [(v, st)]
        if ev in ASK or ev in PROPAGATE:
            v = mk("CALL", c.site, c.rp)
            st.obs = oset(st.obs, res=v)
            return [(v, st)]
        return None

    def on_site(self, eng, st, site):
        p = oget(st.obs, "pend")
        if p and site in p[0].sites:
            self.check_pending(eng, st)

    def check_pending(self, eng, st):
        p = oget(st.obs, "pend")
        if not p:
            return
        v, ev = p
        f = st.facts.get(v)
        if f and ((f[0] == "=" and f[1] != OOM) or (f[0] == "!" and OOM in f[1])):
            pass
        else:
            self.oom_bad(eng, st, ev, "goes on")
        st.obs = oset(st.obs, pend=None)

    oom = frozenset()

    def oom_bad(self, eng, st, ev, what):
        pass

    def lit_event(self, eng, st, c, ev):
        pass

    def ptr_event(self, eng, st, c, ev):
        pass

    def ask_event(self, eng, st, c, ev):
        pass

    def query_event(self, eng, st, c, ev):
        pass

    def on_write(self, eng, st, root, path, val, where):
        if root is self.selfroot and (path[:1] == self.w.state_path() or not path):
            st.obs = oset(st.obs, fresh=True)

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.exits.append((ret, st.copy()))


def mentions_adt(v, name):
    return any(x.t == "ADT" and x.a[0].endswith(name) for x in subterms(v))


def variant(v):
    return v.a[2] if v.t == "ADT" else None


def describe(eng, st, ret):
    fs = []
    for f, x in list(st.facts.items())[:12]:
        fs.append(f"{show(f)[:90]} {'=' if x[0] == '=' else '≠'} {x[1] if x[0] == '=' else sorted(x[1])}")
    return [f"returns {show(ret)[:160]}"] + ["with " + x for x in fs]


# ------------------------------------------------------------------------------------ terms
def strip_lit(eng, st, v, depth=0):
    """(literal term, negated?) of an integer/literal handed to the backend, None if unknown"""
    neg = False
    for _ in range(24):
        if v.t == "REF":
            v = eng.strip(st, v)
            continue
        if v.t == "CALL":
            n = last(v.a[1])
            if n in ("to_ipasir", "into", "from", "clone", "copied", "cloned", "as_ref", "borrow", "deref") and len(v.a) > 2:
                v = v.a[2]
                continue
            if n in ("not", "neg") and len(v.a) > 2:
                neg = not neg
                v = v.a[2]
                continue
            if n == "elem":
                return v, neg
            return None
        if v.t == "CONV" or v.t == "DEREF" or v.t == "CAST":
            v = v.a[1] if v.t == "CAST" else v.a[0]
            continue
        if v.t == "UN" and v.a[0] == "Neg":
            neg = not neg
            v = v.a[1]
            continue
        if v.t == "FLD" and v.a[1][1] in (0, 1) and v.a[0].t == "CALL" and last(v.a[0].a[1]) == "elem":
            return v.a[0], neg                    # enumerate
        if v.t == "IDX":
            return v, neg
        if v.t == "BOXED":
            v = v.a[0]
            continue
        if v.t in ("ARG", "EL"):
            return v, neg
        return None
    return None


def base_of(eng, st, v):
    """the collection an expression views: strips as_ref, as_ptr, deref, len, iter"""
    for _ in range(24):
        if v.t == "REF":
            v2 = eng.strip(st, v)
            if v2 is v:
                return v
            v = v2
            continue
        if v.t in ("VIEW", "DEREF", "CONV", "LEN"):
            v = v.a[0]
            continue
        if v.t == "FLD" and v.a[1][2] == "lits":
            v = v.a[0]
            continue
        if v.t == "CAST":
            v = v.a[1]
            continue
        if v.t == "PURE" and v.a[0] in ("len", "n_lits"):
            v = v.a[1][0]
            continue
        if v.t == "ITER" and (len(v.a) == 1 or v.a[1] in NEUTRAL):
            v = v.a[0]
            continue
        if v.t == "CALL" and last(v.a[1]) in ("as_ref", "as_ptr", "as_slice", "deref", "iter", "cast", "into_iter",
                                              "borrow", "as_mut_ptr", "to_vec", "to_owned", "clone", "as_mut_slice",
                                              "deref_mut", "as_mut") and len(v.a) > 2:
            v = v.a[2]
            continue
        return v
    return v


COMPLETE = {"map", "chain"}


class Rules(WClient):
    """All S-rules in one run.  Findings are (rule, key, message)."""

    def __init__(self, w, fn, feeding=None):
        super().__init__(w, None, fn)
        self.finds = []
        self.oks = []
        self.feeding = feeding          # None: first pass (collects)
        self.collected = set()
        self.corefeeding = {}

    def bad(self, rule, what, msg, eng=None, st=None, ret=None, c=None):
        key = f"{self.w.name}:{self.fn['name']}:{what}"
        where = f"{self.fn['sp'][0]}:{self.fn['sp'][1]}"
        if c is not None:
            where = c.where
        self.finds.append((rule, key, f"{self.w.name} {self.fn['name']}: {msg}", where,
                           describe(eng, st, ret) if eng and ret is not None else []))

    def ok(self, rule, what):
        self.oks.append((rule, what))

    def lits_param(self):
        """names of parameters that are a list of literals"""
        out = []
        for n, p in self.fn["vars"]:
            if not p[1] and 1 <= p[0] <= self.fn["nargs"] and n != "self":
                t = self.fn["tys"][self.fn["locals"][p[0]]]
                s = t["s"]
                if "Lit]" in s or "Vec<" in s and "Lit" in s or s.endswith(("&C", "Clause", "Cl")) or \
                        (t["k"] == "ref" and self.fn["tys"][t["a"][0]]["k"] == "param"):
                    out.append(n)
        return out

    # S01
    def query_event(self, eng, st, c, ev):
        poss = self.possible(eng, st)
        r = oget(st.obs, "res")
        if ev in MODELQ:
            good = poss == {"Sat"}
            need = "Sat"
        else:
            good = poss == {"Unsat"} or (r is not None and st.facts.get(r, ("", 0))[0] == "=" and st.facts[r][1] == 20)
            need = "Unsat"
            st.obs = oset(st.obs, cq=True)
        if not good:
            self.bad("S01", f"query:{ev}", f"calls {ev} where the recorded state may be "
                     f"{', '.join(sorted(poss - {need}))}", c=c)
        else:
            self.ok("S01", f"{self.w.name} {self.fn['name']}: {ev} only in {need}")
        if ev in ("ccadical_failed", "ipasir_failed") and len(c.args) > 1:
            x = strip_lit(eng, st, c.args[1])
            if x is not None and x[0].t == "CALL":
                self.corefeeding[(x[0].a[0][1], x[0].a[0][2])] = ("failed",)
            pc = oget(st.obs, "pc")
            if x is not None and pc is not None and x[0] is pc[0] and pc[1] == "pend":
                st.obs = oset(st.obs, pc=(pc[0], "asked", mk("CALL", c.site, c.rp)))
                if x[1]:
                    self.bad("S07", "failed-sign", f"asks {ev} about the negation of an assumption", c=c)

    # S04 ----------------------------------------------------------------
    def on_iter(self, eng, st, it, kind, c):
        if c.fn["key"] not in eng.F.fns:
            return
        skey = (c.fn["key"], c.bb)
        src, ad = source(it)
        if self.feeding is not None and skey in self.feeding:
            s = dict(oget(st.obs, "cl", ()))
            kinds = self.feeding[skey]
            pend = s.get("pend")
            if pend is not None:
                self.bad("S04", f"skip:{kinds}", "a literal of the list is not handed to the backend on some path "
                         "through the loop", c=c)
            if kind == "elem":
                bad = [x for x in ad if x not in COMPLETE]
                b = base_of(eng, st, src)
                rng = self.range_base(eng, st, src)
                if bad:
                    self.bad("S04", f"part:{kinds}", f"hands over only part of the list (iterates through {', '.join(bad)})", c=c)
                elif b.t == "ARG" and b.a[0] in self.lits_param() or rng:
                    self.ok("S04", f"{self.w.name} {self.fn['name']}: loop over all of `{b.a[0] if b.t == 'ARG' else 'range'}`")
                elif b.t in ("IDX",) or any(x.t == "IDX" for x in subterms(b)):
                    self.bad("S04", f"part:{kinds}", "hands over only a part of the list", c=c)
                s["pend"] = c.site
                s["done"] = False
            else:
                s["pend"] = None
                s["done"] = True
            st.obs = oset(st.obs, cl=tuple(sorted(s.items(), key=lambda x: x[0])))
        # reading the core back
        if oget(st.obs, "res") is not None and ("failed" in self.colfail.get(skey, ())):
            pc = oget(st.obs, "pc")
            if pc is not None:
                self.core_step(eng, st, pc, c)
            if kind == "elem":
                el = mk("CALL", c.site, "elem", it)
                bad = [x for x in ad if x not in COMPLETE]
                if bad:
                    self.bad("S07", "core-part", f"asks only about part of the assumptions ({', '.join(bad)})", c=c)
                st.obs = oset(st.obs, pc=(el, "pend"), cdone=None)
            else:
                st.obs = oset(st.obs, pc=None, cdone=True)

    colfail = {}

    def core_step(self, eng, st, pc, c):
        """one assumption has been dealt with: asked, and in the core exactly if failed"""
        if pc[1] == "pend":
            self.bad("S07", "core-skip", "an assumption is not asked about when the core is read", c=c)
            return
        f = st.facts.get(pc[2])
        val = f[1] if f and f[0] == "=" else None
        pushed = pc[1] == "pushed"
        if val == 1 and not pushed:
            self.bad("S07", "core-missing", "a failed assumption does not get into the core", c=c)
        elif val == 0 and pushed:
            self.bad("S07", "core-extra", "an assumption that did not fail gets into the core", c=c)
        else:
            self.ok("S07", f"{self.w.name} {self.fn['name']}: core = failed assumptions (failed={val})")

    def range_base(self, eng, st, src):
        if src.t == "ADT" and src.a[0].endswith("ops::range::Range") and src.a[3][0].t == "INT" and src.a[3][0].a[0] == 0:
            e = src.a[3][1]
            if e.t in ("LEN", "PURE"):
                b = base_of(eng, st, e)
                if b.t == "ARG":
                    return b
        return None

    def on_call(self, eng, st, c):
        pc = oget(st.obs, "pc")
        if pc is not None and c.name in ("push", "extend_one", "insert") and len(c.args) > 1 and \
                c.p.startswith("alloc::vec"):
            x = strip_lit(eng, st, c.args[-1])
            if x is not None and x[0] is pc[0]:
                if not x[1]:
                    self.bad("S07", "core-sign", "the core holds an assumption instead of its negation", c=c)
                st.obs = oset(st.obs, pc=(pc[0], "pushed", pc[2] if len(pc) > 2 else mk("TOP", ("?",))))
        if c.fn["crate"] == self.w.crate and c.p in ("core::iter::traits::iterator::Iterator::map",) and len(c.args) > 1:
            pass
        return super().on_call(eng, st, c)

    def lit_event(self, eng, st, c, ev):
        a = c.args[1]
        kind = "assume" if ev in ASSUME else "add"
        s = dict(oget(st.obs, "cl", ()))
        if kind == "add" and a.t == "INT" and a.a[0] == 0:
            if self.feeding is not None:
                if s.get("pend") is not None or not s.get("done"):
                    self.bad("S04", "early-end", "ends the clause before all literals are added", c=c)
                s["closed"] = s.get("closed", 0) + 1
                if s["closed"] > 1:
                    self.bad("S04", "double-end", "ends the clause twice", c=c)
                    s["closed"] = 2
                s["done"] = None
            st.obs = oset(st.obs, cl=tuple(sorted(s.items(), key=lambda x: x[0])))
            return
        x = strip_lit(eng, st, a)
        if x is None:
            if self.feeding is not None:
                if any(y.t in ("BIN", "UN") for y in subterms(a)) or any(
                        y.t == "CALL" and last(y.a[1]) in ("var", "pos_lit", "neg_lit", "abs", "lidx", "vidx") for y in subterms(a)):
                    self.bad("S04", f"value:{kind}", f"hands {show(a)[:100]} to {ev} instead of the literal", c=c)
                else:
                    self.undec.append(f"S04 {self.w.name} {self.fn['name']}: {show(a)[:100]}")
            return
        lit, neg = x
        if neg:
            self.bad("S04", f"sign:{kind}", f"hands the negated literal to {ev}", c=c)
        site = None
        if lit.t == "CALL":
            site = lit.a[0]
        elif lit.t == "IDX" and lit.a[1].t == "CALL" and last(lit.a[1].a[1]) == "elem":
            site = lit.a[1].a[0]
        if site is None:
            if lit.t == "IDX" and self.feeding is not None:
                s["done"] = True          # hand-written counter: completeness not tracked
                self.undec.append(f"S04 {self.w.name} {self.fn['name']}: index loop")
                st.obs = oset(st.obs, cl=tuple(sorted(s.items(), key=lambda x: x[0])))
            return
        if site and site[0] == "old":
            self.bad("S04", f"stale:{kind}", f"hands an earlier literal to {ev} again", c=c)
            return
        self.collected.add((site[1], site[2], kind))
        if self.feeding is not None:
            if s.get("closed"):
                self.bad("S04", "after-end", "adds a literal after the clause was ended", c=c)
            if s.get("pend") != site:
                self.bad("S04", f"twice:{kind}", f"hands a literal to {ev} a second time", c=c)
            else:
                self.ok("S04", f"{self.w.name} {self.fn['name']}: {ev} of the current literal")
            s["pend"] = None
            st.obs = oset(st.obs, cl=tuple(sorted(s.items(), key=lambda x: x[0])))

    undec = ()

    def ptr_event(self, eng, st, c, ev):
        if self.feeding is None:
            return
        ps = self.lits_param()
        if self.w.name == "batsat":
            self.batsat_list(eng, st, c, ev, ps)
            return
        if len(c.args) < 3:
            return
        ptr, ln = c.args[1], c.args[2]
        if not ps:
            if ptr.t == "NULL" and ln.t == "INT" and ln.a[0] == 0 or base_of(eng, st, ptr).t != "ARG":
                self.ok("S04", f"{self.w.name} {self.fn['name']}: {ev} without literals")
            else:
                self.bad("S04", f"list:{ev}", f"passes literals to {ev} although none were given", c=c)
            return
        b1, b2 = base_of(eng, st, ptr), base_of(eng, st, ln)
        if b1.t == "ARG" and b1.a[0] in ps and b2 is b1:
            self.ok("S04", f"{self.w.name} {self.fn['name']}: {ev} gets all of `{b1.a[0]}`")
            return
        if b1.t == "CALL" and last(b1.a[1]) == "collect":
            src, ad = source(b1.a[2])
            bb = base_of(eng, st, src)
            if [x for x in ad if x not in COMPLETE] or bb.t != "ARG":
                self.bad("S04", f"list:{ev}", f"passes only part of the literals to {ev}", c=c)
            elif b2 is b1:
                self.ok("S04", f"{self.w.name} {self.fn['name']}: {ev} gets the collected literals")
            return
        if b1.t == "NULL" or b2.t in ("INT", "BIN") or (b1.t == "ARG" and b2.t == "ARG" and b1 is not b2) or b1.t == "IDX" \
                or any(x.t == "IDX" for x in subterms(b1)):
            self.bad("S04", f"list:{ev}", f"does not pass the whole list to {ev}: pointer {show(ptr)[:80]}, "
                     f"length {show(ln)[:80]}", c=c)
            return
        self.undec.append(f"S04 {self.w.name} {self.fn['name']}: {show(ptr)[:60]} / {show(ln)[:60]}")

    def batsat_list(self, eng, st, c, ev, ps):
        if len(c.args) < 2:
            return
        v = base_of(eng, st, c.args[1])
        if v.t in ("HAV", "UPD"):
            self.undec.append(f"S04 batsat {self.fn['name']}: {show(v)[:80]}")
            return
        if not ps:
            if any(x.t == "ARG" and x.a[0] != "self" for x in subterms(v)):
                self.bad("S04", f"list:{ev}", "passes literals although none were given", c=c)
            else:
                self.ok("S04", f"batsat {self.fn['name']}: {ev} without literals")
            return
        if v.t == "CALL" and last(v.a[1]) == "collect":
            it = v.a[2]
            src, ad = source(it)
            bb = base_of(eng, st, src)
            if [x for x in ad if x not in COMPLETE] or any(x.t == "IDX" for x in subterms(bb)):
                self.bad("S04", f"list:{ev}", f"passes only part of the literals to {ev} ({', '.join(ad)})", c=c)
                return
            if bb.t != "ARG" or bb.a[0] not in ps:
                self.bad("S04", f"list:{ev}", f"passes something else than the given literals to {ev}", c=c)
                return
            f = it.a[2] if it.t == "ITER" and it.a[1] == "map" else None
            if f is not None:
                el = mk("CALL", c.site, "elem", src)
                for r, s2 in eng.apply(st.copy(), c, f, (el,), 1, (), 7):
                    self.batsat_lit(eng, s2, r, el, c, ev)
            return
        self.undec.append(f"S04 batsat {self.fn['name']}: {show(v)[:80]}")

    def batsat_lit(self, eng, st, r, el, c, ev):
        """batsat::Lit::new(var of the literal, is the literal positive)"""
        if r.t == "CALL" and last(r.a[1]) == "new" and len(r.a) >= 4:
            var, pos = r.a[2], r.a[3]
            neg = False
            while pos.t == "NOT":
                neg = not neg
                pos = pos.a[0]
            n = last(pos.a[1]) if pos.t == "CALL" else None
            src = strip_lit(eng, st, pos.a[2]) if pos.t == "CALL" and len(pos.a) > 2 else None
            if n not in ("is_pos", "is_neg"):
                return self.undec.append(f"S04 batsat sign {show(pos)[:80]}")
            if (n == "is_neg") != neg or (src is not None and src[1]):
                self.bad("S04", f"sign:{ev}", "translates the literal with the wrong sign", c=c)
            elif any(x.t == "CALL" and last(x.a[1]) in ("vidx", "vidx32", "idx", "idx32", "var") for x in subterms(var)) and not any(x.t == "BIN" for x in subterms(var)):
                self.ok("S04", f"batsat {self.fn['name']}: literal translation")
            elif any(x.t == "BIN" for x in subterms(var)):
                self.bad("S04", f"var:{ev}", "translates the literal to another variable", c=c)

    def ask_event(self, eng, st, c, ev):
        s = dict(oget(st.obs, "cl", ()))
        st.obs = oset(st.obs, asked=True)
        if self.feeding is None:
            return
        if self.assume_sites(eng) and self.lits_param():
            if s.get("pend") is not None or not s.get("done"):
                self.bad("S04", "late-assume", f"starts {ev} before all assumptions were handed over", c=c)
            else:
                self.ok("S04", f"{self.w.name} {self.fn['name']}: assumptions complete before {ev}")
        elif self.lits_param() and ev in SOLVE and len(c.args) < 2:
            self.bad("S04", "no-assume", f"starts {ev} without handing over the assumptions", c=c)

    def assume_sites(self, eng):
        return [1 for k in (self.feeding or {}).values() if k == "assume"]

    def oom_bad(self, eng, st, ev, what):
        self.bad("S06", f"oom:{ev}", f"{what} after {ev} without testing for out-of-memory")

    # ------------------------------------------------------------ exits
    def check_exits(self, eng):
        fn, w = self.fn, self.w
        name = fn["name"]
        rt = fn["tys"][fn["locals"][0]]
        ret_sr = "SolverResult" in rt["s"] and "PropagateResult" not in rt["s"]
        guard = {"lit_val": "Sat", "flip_lit": "Sat", "is_flippable": "Sat", "core": "Unsat",
                 "tmp_clause_in_core": "Unsat"}.get(name)
        sat_ok = False
        for ret, st in self.exits:
            o = st.obs
            poss = self.possible(eng, st)
            res = oget(o, "res")
            f = st.facts.get(res) if res is not None else None
            code = f[1] if f and f[0] == "=" else None
            if res is not None and w.name == "batsat":
                code = self.batsat_code(eng, st, res)
            ok_ = variant(ret) == "Ok"
            # S01
            if guard:
                se = [x for x in subterms(ret) if x.t == "ADT" and x.a[0].endswith("::StateError")] \
                    if variant(ret) == "Err" else []
                if guard not in poss:
                    if not se:
                        self.bad("S01", f"guard:{name}", f"does not fail with a state error in state {', '.join(sorted(poss))}",
                                 eng, st, ret)
                    else:
                        req, act = se[0].a[3][0], se[0].a[3][1]
                        if variant(req) != guard or (len(poss) == 1 and variant(act) not in poss):
                            self.bad("S01", f"names:{name}", f"the state error in state {', '.join(sorted(poss))} names "
                                     f"required {show(req)} and actual {show(act)}", eng, st, ret)
                        else:
                            self.ok("S01", f"{w.name} {name}: state error in {', '.join(sorted(poss))}")
                elif poss != {guard}:
                    self.bad("S01", f"guard:{name}", f"does not distinguish state {guard} from {', '.join(sorted(poss - {guard}))}",
                             eng, st, ret)
                elif ok_:
                    sat_ok = True
                elif se:
                    self.bad("S01", f"refuses:{name}", f"fails with a state error in state {guard}", eng, st, ret)
            # S02
            if oget(o, "mut") and not oget(o, "fresh"):
                stale = poss & {"Sat", "Unsat"}
                if stale:
                    kind = "error exit" if variant(ret) == "Err" else "exit"
                    self.bad("S02", f"stale:{oget(o, 'mut')}:{'err' if variant(ret) == 'Err' else 'ok'}",
                             f"after {oget(o, 'mut')} the recorded state may still be {', '.join(sorted(stale))} from before "
                             f"at an {kind}", eng, st, ret)
                else:
                    self.ok("S02", f"{w.name} {name}: after {oget(o, 'mut')} state in {sorted(poss)}")
            elif oget(o, "mut"):
                self.ok("S02", f"{w.name} {name}: state recorded anew after {oget(o, 'mut')}")
            # S03
            if res is not None and oget(o, "mut") in (ASK | PROPAGATE) | ASSUME:
                self.verdict(eng, ret, st, poss, code, ret_sr, name)
            # S05
            if ret_sr and variant(ret) == "Ok" and res is None:
                self.cached(eng, ret, st, poss, name)
            if ret_sr and res is not None and poss == {"Unsat"} and oget(o, "fresh"):
                self.under_assumps(eng, ret, st)
            # S04
            if name in ("add_clause_ref", "add_tmp_clause") and variant(ret) == "Ok" and self.feeding is not None:
                s = dict(oget(o, "cl", ()))
                if w.name in ("cadical", "kissat", "ipasir"):
                    if s.get("closed") != 1:
                        self.bad("S04", "open", "returns without having ended the clause", eng, st, ret)
                    else:
                        self.ok("S04", f"{w.name} {name}: clause ended once")
                elif oget(o, "mut") not in ADDCL:
                    self.bad("S04", "dropped", "returns without having added the clause", eng, st, ret)
            # S06
            p = oget(o, "pend")
            if p:
                f = st.facts.get(p[0])
                if f and f[0] == "=" and f[1] == OOM:
                    if variant(ret) == "Err" and mentions_adt(ret, "OutOfMemory"):
                        self.ok("S06", f"{w.name} {name}: {p[1]}")
                    else:
                        self.bad("S06", f"oom:{p[1]}", f"{p[1]} reported out-of-memory but the method does not fail "
                                 f"with an out-of-memory error", eng, st, ret)
                elif f and (f[0] == "=" or OOM in f[1]):
                    pass
                elif variant(ret) == "Err" and mentions_adt(ret, "OutOfMemory"):
                    pass
                else:
                    self.bad("S06", f"oom:{p[1]}", f"does not test {p[1]} for out-of-memory", eng, st, ret)
            # S07
            if name == "lit_val" and poss == {"Sat"} and ok_:
                self.truth(eng, ret, st)
        if guard and not sat_ok and self.exits:
            self.bad("S01", f"never:{name}", f"never succeeds in state {guard}")

    def batsat_code(self, eng, st, res):
        for n, code in (("TRUE", 10), ("FALSE", 20), ("UNDEF", 0)):
            for f, x in st.facts.items():
                if f.t == "BIN" and f.a[0] == "Eq" and x == ("=", 1) and res in (f.a[1], f.a[2]):
                    o = f.a[2] if f.a[1] is res else f.a[1]
                    if str(o.a[-1]).endswith("lbool::" + n):
                        return code
        return None

    def verdict(self, eng, ret, st, poss, code, ret_sr, name):
        w = self.w
        want = {10: "Sat", 20: "Unsat", 0: "Interrupted"}.get(code)
        if not ret_sr:
            # propagation: conflict exactly for 20
            if variant(ret) != "Ok":
                if (code in (10, 20) or (code == 0 and w.name == "cadical")) and not mentions_adt(ret, "OutOfMemory"):
                    self.bad("S03", f"code:{code}", f"fails although the backend returned {code}", eng, st, ret)
                return
            pr = [x for x in subterms(ret) if x.t == "ADT" and x.a[0].endswith("PropagateResult")]
            if not pr:
                return
            idx = {f[0]: i for i, f in enumerate(eng.F.adts[pr[0].a[0]]["vs"][0][2])}
            cf = eng.conc(st, pr[0].a[3][idx["conflict"]])
            if cf.t == "BIN" and cf.a[0] == "Eq":
                r = oget(st.obs, "res")
                cf = INT(1 if code == cf.a[2].a[0] else 0) if cf.a[1] is r and cf.a[2].t == "INT" and code is not None else cf
            if code is None or (code not in (10, 20) and not (code == 0 and w.name == "cadical")):
                self.bad("S03", "code:other", "reports a propagation result for a code it does not know", eng, st, ret)
            elif cf.t == "INT" and cf.a[0] == (1 if code == 20 else 0):
                self.ok("S03", f"{w.name} {name}: code {code} -> conflict={cf.a[0]}")
            else:
                self.bad("S03", f"code:{code}", f"reports conflict={show(cf)} for code {code}", eng, st, ret)
            if "Unsat" in poss or ("Sat" in poss and code != 10):
                self.bad("S03", f"state:{code}", f"records {', '.join(sorted(poss))} after propagation with code {code}", eng, st, ret)
            return
        if want is None:
            if variant(ret) != "Err":
                self.bad("S03", "code:other", "reports a verdict for a code that is none of the known ones", eng, st, ret)
            else:
                self.ok("S03", f"{w.name} {name}: other code -> error")
            return
        if variant(ret) == "Err":
            if oget(st.obs, "cq") or code is None:
                return
            if name in ("solve", "solve_assumps", "simplify", "simplify_assumps"):
                self.bad("S03", f"code:{code}", f"fails although the backend returned {code}", eng, st, ret)
            return
        got = ret.a[3][0] if variant(ret) == "Ok" else ret
        if variant(got) != want:
            self.bad("S03", f"code:{code}", f"reports {show(got)} for backend code {code}", eng, st, ret)
            return
        st_want = {"Interrupted": {"Input", "Configuring"}}.get(want, {want})
        if not poss <= st_want:
            self.bad("S03", f"state:{code}", f"records state {', '.join(sorted(poss))} for backend code {code}", eng, st, ret)
        else:
            self.ok("S03", f"{w.name} {name}: code {code} -> {want}, state {sorted(poss)}")
        if name in ("solve", "solve_assumps"):
            mine = {10: "n_sat", 20: "n_unsat", 0: "n_terminated"}[code]
            self.counters(eng, ret, st, mine, code)

    def counters(self, eng, ret, st, mine, code):
        for c, path in self.w.counter_paths().items():
            v = eng.read(st, self.selfroot, path)
            init = mk("DEREF", mk("ARG", "self"))
            for k in path:
                init = eng.field(st, init, k)
            inc = self.increments(v, init)
            exp = 1 if c == mine else 0
            if inc is None:
                self.undec.append(f"S03 {self.w.name} {self.fn['name']} counter {c}: {show(v)[:80]}")
            elif inc != exp:
                self.bad("S03", f"stat:{c}:{code}", f"{c} goes up by {inc} instead of {exp} for backend code {code}", eng, st, ret)
            else:
                self.ok("S03", f"{self.w.name} {self.fn['name']}: {c} +{inc} for code {code}")

    def increments(self, v, init):
        n = 0
        for _ in range(5):
            if v is init:
                return n
            if v.t == "BIN" and v.a[0] in ("Add", "Sub"):
                a, b = v.a[1], v.a[2]
                if v.a[0] == "Add" and a.t == "INT":
                    a, b = b, a
                if b.t != "INT":
                    return None
                n += b.a[0] if v.a[0] == "Add" else -b.a[0]
                v = a
                continue
            if v.t == "CALL" and last(v.a[1]) in ("saturating_add", "wrapping_add") and v.a[3].t == "INT":
                n += v.a[3].a[0]
                v = v.a[2]
                continue
            if v.t == "INT":
                return 99
            return None
        return None

    def cached(self, eng, ret, st, poss, name):
        got = ret.a[3][0]
        v = variant(got)
        if self.lits_param():
            self.bad("S05", f"shortcut:{name}", f"answers {show(got)} without asking the backend although it was given "
                     f"assumptions", eng, st, ret)
            return
        if v == "Sat" and poss == {"Sat"}:
            self.ok("S05", f"{self.w.name} {name}: cached Sat only in state Sat")
        elif v == "Unsat" and poss == {"Unsat"}:
            if self.w.name == "kissat":
                self.ok("S05", f"{self.w.name} {name}: cached Unsat (never under assumptions)")
                return
            sv = self.state_val(eng, st)
            pay = eng.field(st, sv, ("Unsat", 0, "0"))
            f = None
            for t in (mk("PURE", "is_empty", (pay,)), mk("PURE", "is_empty", (mk("REF", self.selfroot, self.w.state_path() + (("Unsat", 0, "0"),)),))):
                f = f or st.facts.get(t)
            fl = st.facts.get(mk("PURE", "len", (pay,)))
            fb = st.facts.get(pay)
            if self.w.name == "cadical" and st.facts.get(oget(st.obs, "cfq")) != ("=", 0):
                self.bad("S05", f"tmp:{name}", "reuses an unsatisfiable verdict that may be due to the temporary clause of the "
                         "call before", eng, st, ret)
            elif f == ("=", 1) or fl == ("=", 0) or fb == ("=", 0):
                self.ok("S05", f"{self.w.name} {name}: cached Unsat only with empty core")
            else:
                self.bad("S05", f"cached:{name}", "reuses an unsatisfiable verdict that may have been obtained under "
                         "assumptions", eng, st, ret)
        else:
            self.bad("S05", f"cached:{name}", f"answers {show(got)} without asking the backend in state "
                     f"{', '.join(sorted(poss))}", eng, st, ret)

    def under_assumps_maybe(self, st, n, p):
        """may p be nonzero with n assumptions? None: not known"""
        from . import regions
        args = set(self.lits_param())
        env = {}
        for t in [x for f in [p, *st.facts] for x in subterms(f)]:
            if t.t in ("PURE", "LEN", "CALL") and any(x.t == "ARG" and x.a[0] in args for x in subterms(t)):
                nm = "len" if t.t == "LEN" else last(str(t.a[0] if t.t == "PURE" else t.a[1]))
                if nm in ("len", "is_empty"):
                    env[t] = n if nm == "len" else int(n == 0)
        for t, v in st.facts.items():
            try:
                y = regions.ev(t, env)
            except Exception:  # nothing about the length
                continue
            if v[0] == "=" and y != v[1] or v[0] == "!" and y in v[1]:
                return False
        try:
            return bool(regions.ev(p, env))
        except Exception:
            return None

    def under_assumps(self, eng, ret, st):
        sv = self.state_val(eng, st)
        pay = eng.field(st, sv, ("Unsat", 0, "0"))
        name = self.fn["name"]
        if not self.lits_param():
            return
        p = eng.conc(st, pay)
        isvec = self.w.state_adt["vs"][[v[0] for v in self.w.state_adt["vs"]].index("Unsat")][2]
        ty = self.w.state_adt["tys"][isvec[0][1]]
        if ty["k"] == "bool" or ty["s"] == "bool":
            if p.t == "INT" and p.a[0] == 0:
                # fine when the list is known to be empty
                if any(self.under_assumps_maybe(st, n, mk("INT", 1)) for n in (1, 2, 3)):
                    self.bad("S05", f"uncond:{name}", "records an answer under assumptions as unconditional", eng, st, ret)
            elif p.t != "INT":
                zero = [n for n in (1, 2, 3, 40) if self.under_assumps_maybe(st, n, mk("BIN", "Eq", p, mk("INT", 0)))]
                if zero and None not in [self.under_assumps_maybe(st, n, mk("BIN", "Eq", p, mk("INT", 0))) for n in zero]:
                    self.bad("S05", f"uncond:{name}", f"records an answer under {zero[0]} assumption(s) as unconditional", eng, st, ret)
                elif any(self.under_assumps_maybe(st, n, p) is None for n in (1, 2, 3, 40)):
                    self.undec.append(f"S05 {self.w.name} {name}: {show(p)[:80]}")
                else:
                    self.ok("S05", f"{self.w.name} {name}: Unsat recorded as under assumptions")
            else:
                self.ok("S05", f"{self.w.name} {name}: Unsat recorded as under assumptions")
        else:
            if oget(st.obs, "cdone"):
                self.ok("S05", f"{self.w.name} {name}: Unsat recorded with the core read back")
            elif any(x.t in ("ARG",) and x.a[0] in self.lits_param() for x in subterms(p)):
                self.undec.append(f"S05 {self.w.name} {name}: {show(p)[:80]}")
            else:
                self.bad("S05", f"uncond:{name}", "records an answer under assumptions as unconditional (the core is not "
                         "read back over all assumptions)", eng, st, ret)

    def truth(self, eng, ret, st):
        w = self.w
        q = oget(st.obs, "mq")
        val = variant(ret.a[3][0])
        if q is None:
            self.bad("S07", "lit_val:noask", "reports a truth value without asking the backend", eng, st, ret)
            return
        arg = q.a[3] if len(q.a) > 3 else None
        x = strip_lit(eng, st, arg) if arg is not None else None
        meaning = None
        f = st.facts.get(q)
        eqs = [(t, v) for t, v in st.facts.items() if t.t == "BIN" and t.a[0] == "Eq" and q in (t.a[1], t.a[2]) and v[0] == "="]
        if w.name in ("cadical", "kissat", "ipasir"):
            if f and f[0] == "=" and f[1] == 0:
                meaning = "DontCare"
            elif f and f[0] == "=" and f[1] == -1 and w.name == "cadical":
                meaning = "DontCare"
            for t, v in eqs:
                o = t.a[2] if t.a[1] is q else t.a[1]
                y = strip_lit(eng, st, o)
                if v[1] == 1 and y is not None and y[0].t == "ARG":
                    meaning = "False" if y[1] else "True"
            if x is None or x[1] or x[0].t != "ARG":
                self.bad("S07", "lit_val:arg", f"asks the backend about {show(arg)[:60]} instead of the literal", eng, st, ret)
        elif w.name == "batsat":
            code = self.batsat_code(eng, st, q)
            meaning = {10: "True", 20: "False", 0: "DontCare"}.get(code)
            if arg is not None and arg.t == "CALL":
                self.batsat_lit_q(eng, st, arg)
        else:
            if f and f[0] == "=":
                meaning = {1: "True", -1: "False", 4294967295: "False", 0: "DontCare"}.get(f[1])
            if x is None or x[1] or x[0].t != "ARG":
                self.bad("S07", "lit_val:arg", f"asks the backend about {show(arg)[:60] if arg else None} instead of the literal", eng, st, ret)
        if meaning is None:
            self.undec.append(f"S07 {w.name} lit_val: {val} under {[show(t) for t, v in eqs]}")
        elif meaning != val:
            self.bad("S07", f"lit_val:{meaning}", f"reports {val} where the backend says {meaning}", eng, st, ret)
        else:
            self.ok("S07", f"{w.name} lit_val: {val}")

    def batsat_lit_q(self, eng, st, r):
        class C:
            where = f"{self.fn['sp'][0]}:{self.fn['sp'][1]}"
        self.batsat_lit(eng, st, r, None, C, "value_lit")


class Bounded(Rules):
    """the same methods with lists of 0 to 3 literals, followed concretely whatever form the loops take; obs `ev` is what the
    backend got, obs `fq` which assumptions were asked about"""
    lists = True
    max_states = 60000
    widen_after = 40
    widen_int = 40

    def __init__(self, w, fn, n):
        super().__init__(w, fn, None)
        self.n = n
        self.unknown = []
        self.finds = []
        self.oks = []
        self.undec = []

    def bad(self, rule, what, msg, eng=None, st=None, ret=None, c=None):
        if rule in ("S04", "S07") and what.startswith("b:"):
            super().bad(rule, what[2:], msg, eng, st, ret, c)

    def args(self, eng):
        from .lists import LIST, PTR
        a = eng.default_args(self.fn)
        ps = self.lits_param()
        self.els = {}
        for name, p in self.fn["vars"]:
            if name in ps and not p[1] and 1 <= p[0] <= self.fn["nargs"]:
                els = tuple(mk("EL", name, i) for i in range(self.n))
                self.els[name] = els
                t = self.fn["tys"][self.fn["locals"][p[0]]]
                a[p[0] - 1] = PTR(LIST(els)) if t["k"] == "ref" else LIST(els)
        return a

    def add_ev(self, st, *x):
        st.obs = oset(st.obs, ev=oget(st.obs, "ev", ()) + (x,))

    def on_iter(self, eng, st, it, kind, c):
        if any(x.t == "EL" for x in subterms(it)):
            self.unknown.append(f"{c.where}: {show(it)[:80]}")

    def on_call(self, eng, st, c):
        ev = backend_event(eng.F, c)
        if ev is not None and ev.endswith("_failed") and len(c.args) > 1:
            x = strip_lit(eng, st, c.args[1])
            if x is None or x[0].t != "EL":
                self.unknown.append(f"{ev}({show(c.args[1])[:60]})")
                return WClient.on_call(self, eng, st, c)
            v = mk("FAILED", x[0], x[1])
            self.check_pending(eng, st)
            st.obs = oset(st.obs, fq=oget(st.obs, "fq", ()) + (v,))
            return [(v, st)]
        return WClient.on_call(self, eng, st, c)

    def query_event(self, eng, st, c, ev):
        pass

    def lit_event(self, eng, st, c, ev):
        a = eng.conc(st, c.args[1])
        kind = "assume" if ev in ASSUME else "add"
        if a.t == "INT":
            self.add_ev(st, kind, a.a[0])
            return
        x = strip_lit(eng, st, a)
        if x is None:
            self.unknown.append(f"{ev}({show(a)[:60]})")
            self.add_ev(st, "?")
        else:
            self.add_ev(st, kind, x[0], x[1])

    def ptr_event(self, eng, st, c, ev):
        from .lists import under
        if self.w.name in ("cadical", "kissat", "ipasir"):
            return
        kind = "addcl" if ev in ADDCL else "solve" if ev in SOLVE else "prop"
        if len(c.args) < 2:
            return self.add_ev(st, kind, ())
        u = under(eng, st, c.args[1])
        if u.t == "NULL":
            return self.add_ev(st, kind, ())
        if u.t != "LIST":
            self.unknown.append(f"{ev}({show(u)[:80]})")
            return self.add_ev(st, "?")
        xs = []
        for y in u.a[0]:
            x = strip_lit(eng, st, y)
            if x is None and self.w.name == "batsat":
                x = self.batsat_of(y)
            if x is None:
                self.unknown.append(f"{ev}: {show(y)[:80]}")
                return self.add_ev(st, "?")
            xs.append(x)
        if len(c.args) > 2:
            ln = eng.conc(st, c.args[2])
            if ln.t != "INT":
                self.unknown.append(f"{ev}: length {show(ln)[:80]}")
                return self.add_ev(st, "?")
            if ln.a[0] > len(xs):
                self.bad("S04", f"b:len:{ev}", f"passes a length beyond the end of the list to {ev}", c=c)
            xs = xs[:ln.a[0]]
        self.add_ev(st, kind, tuple(xs))

    def batsat_of(self, y):
        el = [x for x in subterms(y) if x.t == "EL"]
        return (el[0], False) if el and all(e is el[0] for e in el) else None      # the sign is judged by Rules

    def ask_event(self, eng, st, c, ev):
        if self.w.name in ("cadical", "kissat", "ipasir"):
            self.add_ev(st, "ask")

    def judge(self):
        """are the runs conclusive?"""
        w, name = self.w, self.fn["name"]
        want = [e for els in self.els.values() for e in els]
        for ret, st in self.exits:
            evs = oget(st.obs, "ev", ())
            if any(e[0] == "?" for e in evs):
                continue
            if name in ("add_clause_ref", "add_tmp_clause", "add_clause") and variant(ret) == "Ok":
                got, ended = [], 0
                for e in evs:
                    if e[0] == "add" and e[1] == 0:
                        ended += 1
                        continue
                    xs = [(e[1], e[2])] if e[0] == "add" and len(e) > 2 else list(e[1]) if e[0] == "addcl" else []
                    if ended:
                        self.bad("S04", "b:after-end", "adds a literal after the clause was ended")
                    got += xs
                if w.name in ("cadical", "kissat", "ipasir"):
                    if ended != 1:
                        self.bad("S04", "b:open", f"ends a clause of {self.n} literals {ended} times")
                elif sum(e[0] == "addcl" for e in evs) != 1:
                    self.bad("S04", "b:dropped", f"adds a clause of {self.n} literals {sum(e[0] == 'addcl' for e in evs)} times")
                self.same(got, want, "clause")
            for i, e in enumerate(evs):
                if e[0] in ("ask", "solve", "prop") and name in ("solve_assumps", "simplify_assumps", "solve", "propagate"):
                    got = [(x[1], x[2]) for x in evs[:i] if x[0] == "assume" and len(x) > 2] + (list(e[1]) if len(e) > 1 else [])
                    self.same(got, want, "assumptions")
            if name in ("solve_assumps", "simplify_assumps"):
                self.core(st, want)

    def same(self, got, want, what):
        for e in want:
            k = [neg for x, neg in got if x is e]
            if len(k) != 1:
                self.bad("S04", f"b:elem:{what}", f"hands over literal {e.a[1]} of {self.n} {len(k)} times ({what})")
            elif k[0]:
                self.bad("S04", f"b:sign:{what}", f"hands over the negation of literal {e.a[1]} of {self.n} ({what})")
            else:
                self.ok("S04", f"{self.w.name} {self.fn['name']}: {what} complete for lists of {self.n}")
        if len(got) > len(want) and all(any(x is e for e in want) for x, _ in got) is False:
            self.bad("S04", f"b:extra:{what}", f"hands over literals that were not given ({what})")

    cores = 0

    def core(self, st, want):
        eng = self.eng
        if self.possible(eng, st) != {"Unsat"} or not oget(st.obs, "fresh"):
            return
        pay = eng.conc(st, eng.field(st, self.state_val(eng, st), ("Unsat", 0, "0")))
        if pay.t == "INT":
            return
        if pay.t != "LIST":
            self.unknown.append(f"core {show(pay)[:80]}")
            return
        fq = oget(st.obs, "fq", ())
        inc = []
        for y in pay.a[0]:
            x = strip_lit(eng, st, y)
            if x is None or x[0].t != "EL":
                self.unknown.append(f"core element {show(y)[:80]}")
                return
            inc.append(x)
        for e in want:
            q = [v for v in fq if v.a[0] is e]
            if not q:
                self.bad("S07", "b:core-skip", "an assumption is not asked about when the core is read")
                continue
            if q[0].a[1]:
                self.bad("S07", "b:failed-sign", "asks about the negation of an assumption")
                continue
            f = st.facts.get(q[0])
            failed = None if not f else f[1] == 1 if f[0] == "=" else (False if 1 in f[1] else None)
            k = [neg for x, neg in inc if x is e]
            if failed is None:
                self.bad("S07", "b:core-undecided", "the core does not depend on whether an assumption failed")
            elif failed and not k:
                self.bad("S07", "b:core-missing", "a failed assumption does not get into the core")
            elif not failed and k:
                self.bad("S07", "b:core-extra", "an assumption that did not fail gets into the core")
            elif k and not all(k):
                self.bad("S07", "b:core-sign", "the core holds an assumption instead of its negation")
            else:
                self.ok("S07", f"{self.w.name} {self.fn['name']}: core of {self.n} assumptions")
        self.cores += 1


# findings of the analysis for lists of any length that only say that a loop was not understood
UNSURE = {"S04": ("open", "early-end", "after-end", "late-assume", "no-assume"), "S05": ("uncond:",), "S07": ("core-skip",)}


def entry_methods(w):
    """methods callable from outside: trait methods and public inherent ones"""
    for n, fs in sorted(w.methods.items()):
        for f in fs:
            if n in ("fmt", "default", "drop", "clone", "signature", "print_stats"):
                continue
            if "trait" in f or f.get("pub"):
                yield f


def analyse(F, oom, names=None):
    """{rule: [...]}; cached per process"""
    out = []
    for name in names or FAM:
        w = Wrapper(F, name)
        if not w.adt:
            out.append((name, None, None, None, None))
            continue
        for fn in entry_methods(w):
            try:
                r1 = Rules(w, fn, None)
                r1.oom = frozenset()
                r1.undec = []
                e1 = Engine(F, r1)
                e1.run(fn["key"], ())
                feeding = {}
                for a, b, kind in r1.collected:
                    feeding[(a, b)] = kind
                r = Rules(w, fn, feeding)
                r.oom = frozenset(oom)
                r.undec = []
                r.colfail = dict(r1.corefeeding)
                e = Engine(F, r)
                e.run(fn["key"], ())
                r.check_exits(e)
                if r.lits_param():
                    bounded(F, w, fn, r)
                out.append((name, fn, r, e, None))
            except Budget as b:
                out.append((name, fn, None, None, b))
    return out


def bounded(F, w, fn, r):
    sure, cores = True, 0
    for n in (0, 1, 2, 3):
        b = Bounded(w, fn, n)
        b.oom = r.oom
        try:
            e = b.eng = Engine(F, b)
            e.run(fn["key"], (), args=b.args(e))
            b.judge()
        except Budget:
            sure = False
            break
        if b.unknown or not b.exits:
            sure = False
            r.undec.append(f"S04 {w.name} {fn['name']} with {n} literals: {(b.unknown or ['no exit'])[0]}")
        cores += b.cores
        have = {k for _, k, *_ in r.finds}
        for x in b.finds:
            if x[1] not in have:
                have.add(x[1])
                r.finds.append(x)
        r.oks += b.oks
        sure = sure and not b.finds
    if sure:
        keep = []
        for x in r.finds:
            what = x[1].split(":", 2)[2]
            if any(what.startswith(u) for u in UNSURE.get(x[0], ())) and (x[0] != "S05" or cores):
                continue
            keep.append(x)
        r.finds = keep
