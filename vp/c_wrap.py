"""F01, F02, F05, S08: ownership of handles and callbacks, variable indexing, limits and phases in the solver wrappers."""
from . import cglue
from .cglue import walk
from .mir import Engine, Budget, mk, last, show, subterms
from .solvers import FAM, Wrapper, oget, oset, strip_lit
from .report import Report
from .trace import Trace

PRE = {"minisat-core": "cminisat", "minisat-simp": "cminisatsimp", "glucose-core": "cglucose4", "glucose-simp": "cglucosesimp4",
       "cadical": "ccadical", "kissat": "kissat", "ipasir": "ipasir"}
HANDLE = "DEREF(arg:self).handle"

_w = {}


def wrappers(F):
    if id(F) not in _w:
        _w[id(F)] = {n: Wrapper(F, n) for n in FAM}
    return _w[id(F)]


class T2(Trace):
    """trace with selected foreign functions only"""

    def __init__(self, F, fn, keep, **kw):
        super().__init__(F, fn, [fn["crate"]], **kw)
        self.keep = keep

    def on_call(self, eng, st, c):
        if c.key in self.F.foreign:
            n = last(c.p)
            v = eng.cap(mk("CALL", c.site, c.rp, *c.args))
            if self.keep(n):
                self.add(st, ("call", n, tuple(c.args), c.where, v))
            return [(v, st)]
        return None


def tr(F, r, fn, keep=lambda n: True, **kw):
    t = T2(F, fn, keep, **kw)
    e = Engine(F, t)
    try:
        e.run(fn["key"], ())
    except Budget:
        r.undec(f"{fn['p']}: too many states")
        return None
    r.analysed |= e.analysed
    t.eng = e
    return t


def where(fn):
    return f"{fn['sp'][0]}:{fn['sp'][1]}"


def calls(st, name=None):
    return [e for e in st.obs if e[0] == "call" and (name is None or e[1] == name)]


def variant(v):
    return v.a[2] if v.t == "ADT" else None


# ------------------------------------------------------------------------------------ F01
def f01(F, r):
    r.rules = ["every construction of a solver wrapper fills the handle field with the result of the backend's initialiser of that solver, on a path "
               "where that result was found not null, and before any other foreign call with it",
               "Drop passes the handle field to the backend's release function of that solver exactly once on every path; no other function calls a "
               "release function; the wrapper implements neither Clone nor Copy; the handle field is never written after construction"]
    for n, w in wrappers(F).items():
        if n == "batsat":
            continue
        if not w.adt:
            r.bad(f"coverage:{n}", f"wrapper {n} not found")
            continue
        pre = PRE[n]
        hidx = w.fidx.get("handle")
        if hidx is None:
            r.bad(f"coverage:{n}:handle", f"{n} has no handle field")
            continue
        init, rel = pre + "_init", pre + "_release"
        key = w.adt["key"]
        ncons = nrel = 0
        for k, f in sorted(F.fns.items()):
            if f["crate"] != w.crate or f["k"] == "closure" and False:
                continue
            builds, relcalls, clones = False, False, False
            for b in f["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and agg_adt(s[2]) == key:
                        builds = True
                t = b["t"]
                if t[0] == "call" and isinstance(t[1], dict) and last(t[1].get("p") or "") == rel:
                    relcalls = True
            st_ = f["tys"][f["self"]] if "self" in f else {}
            if f.get("trait") in ("core::clone::Clone", "core::marker::Copy") and st_.get("d") == key:
                r.bad(f"{n}:clone", f"{n} implements {f['trait']}: two objects would own one handle", where(f))
            if relcalls:
                if not (f.get("trait") == "core::ops::drop::Drop" and st_.get("d") == key):
                    r.bad(f"{n}:{f['name']}:release", f"{f['p']} releases the backend handle", where(f))
                else:
                    nrel += 1
                    t = tr(F, r, f)
                    for ret, st in t.exits if t else ():
                        cs = calls(st, rel)
                        if len(cs) != 1 or show(cs[0][2][0]) != HANDLE:
                            r.bad(f"{n}:drop", f"drop of {n} releases its handle {len(cs)} times on some path", where(f))
                        elif calls(st)[-1] is not cs[0]:
                            r.bad(f"{n}:drop-use", f"drop of {n} uses the handle after releasing it", where(f))
                        else:
                            r.ok(n, f"{f['p']}: releases once")
            if builds:
                t = tr(F, r, f)
                for ret, st in t.exits if t else ():
                    for a in subterms(ret):
                        if a.t == "ADT" and a.a[0] == key:
                            h = a.a[3][hidx]
                            cs = calls(st, init)
                            if h.t != "CALL" or last(h.a[1]) != init:
                                r.bad(f"{n}:{f['name']}:handle", f"{f['p']} builds a solver whose handle is {show(h)[:60]}, not the result of {init}", where(f))
                                continue
                            if len(cs) != 1:
                                r.bad(f"{n}:{f['name']}:init", f"{f['p']} initialises the backend {len(cs)} times", where(f))
                                continue
                            nn = st.facts.get(mk("PURE", "is_null", (h,)))
                            eqs = [v for x, v in st.facts.items() if x.t == "BIN" and x.a[0] == "Eq" and h in x.a[1:] and any(y.t == "NULL" for y in x.a[1:])]
                            if nn == ("=", 0) or ("=", 0) in eqs:
                                ncons += 1
                                r.ok(n, f"{f['p']}: handle from {init}, not null")
                            else:
                                r.bad(f"{n}:{f['name']}:null", f"{f['p']} uses the result of {init} without refusing null", where(f))
                # the null test comes before the first use
                for ret, st in t.exits if t else ():
                    pass
            # handle field overwritten
            if st_.get("d") == key and f["k"] != "closure":
                for b in f["blocks"]:
                    for s in b["s"]:
                        if s[0] == "=" and writes_handle(f, s[1], key, hidx):
                            r.bad(f"{n}:{f['name']}:write", f"{f['p']} overwrites the handle of a live solver", where(f))
        if ncons == 0:
            r.bad(f"coverage:{n}:init", f"no checked construction of {n} was found")
        if nrel == 0:
            r.bad(f"{n}:norelease", f"{n} never releases its backend handle")
    r.floor("cadical", 2)
    r.assumptions.append("forgetting an object (mem::forget, leaking) is outside the property; moves are tracked by the type system")
    return {"explanation": "all constructions, drops and handle writes in the seven foreign-backed wrappers"}


def agg_adt(rv):
    k = rv[1]
    if isinstance(k, (list, tuple)) and len(k) > 1 and k[0] == "adt":
        return k[1]
    return None


def writes_handle(f, place, key, hidx):
    pr = place[1]
    return bool(pr) and isinstance(pr[-1], (list, tuple)) and pr[-1][0] == "f" and pr[-1][2] == "handle" and pr[0] == "*" and len(pr) == 2 \
        and f["tys"][f["locals"][place[0]]]["k"] in ("ref", "ptr") and f["vars"] and place[0] == 1


# ------------------------------------------------------------------------------------ F02
def f02(F, r):
    r.rules = ["attach_terminator / attach_learner: on every path the callback field is set to a fresh box and the backend's set function of that kind "
               "gets, exactly once and afterwards, a pointer to exactly that box's content and the trampoline; nothing that can panic lies between",
               "detach_*: on every path the backend's set function of the same kind gets no callback, and that kind's field (and no other) is cleared",
               "no other function writes a callback field or calls a set function; both kinds use different fields"]
    for n in ("cadical", "ipasir", "kissat"):
        w = wrappers(F)[n]
        if not w.adt:
            r.bad(f"coverage:{n}", f"wrapper {n} not found")
            continue
        pre = PRE[n]
        fields = {}
        okm = set()
        kinds = [("terminator", "terminate")] + ([("learner", "learn")] if n != "kissat" else [])
        for kind, ff in kinds:
            setf = {f"{pre}_set_{ff}"}
            others = {f"{pre}_set_{x}" for _, x in kinds if x != ff}
            am = w.methods.get("attach_" + kind, [])
            if len(am) != 1:
                r.bad(f"coverage:{n}:attach_{kind}", f"{n} has no attach_{kind}")
                continue
            f = am[0]
            okm.add(f["key"])
            t = tr(F, r, f)
            for ret, st in t.exits if t else ():
                ws = [e for e in st.obs if e[0] == "write" and is_cb(w, e[1])]
                cs = [e for e in calls(st) if e[1] in setf]
                if [e for e in calls(st) if e[1] in others]:
                    r.bad(f"{n}:attach_{kind}:other", f"{n} attach_{kind} changes the other kind's registration", where(f))
                if len(cs) != 1:
                    r.bad(f"{n}:attach_{kind}:register", f"{n} attach_{kind} registers the callback {len(cs)} times", where(f))
                    continue
                if not ws:
                    r.bad(f"{n}:attach_{kind}:keep", f"{n} attach_{kind} does not keep the callback alive in the solver", where(f))
                    continue
                fld = {e[1][0][2] for e in ws}
                if len(fld) != 1:
                    r.bad(f"{n}:attach_{kind}:fields", f"{n} attach_{kind} writes the fields {sorted(fld)}", where(f))
                    continue
                fld = fld.pop()
                fields[kind] = fld
                val = ws[-1][2]
                ptr = cs[0][2][1]
                cb = cs[0][2][-1]
                box = val.a[3][0] if variant(val) == "Some" else None
                if box is None or not points_into(ptr, box):
                    r.bad(f"{n}:attach_{kind}:pointer", f"{n} attach_{kind} registers {show(ptr)[:60]}, not the callback kept in {fld}", where(f))
                elif variant(cb) != "Some":
                    r.bad(f"{n}:attach_{kind}:none", f"{n} attach_{kind} registers no callback function", where(f))
                elif show(cs[0][2][0]) != HANDLE:
                    r.bad(f"{n}:attach_{kind}:handle", f"{n} attach_{kind} registers with another solver", where(f))
                elif st.obs.index(ws[-1]) > st.obs.index(cs[0]):
                    r.bad(f"{n}:attach_{kind}:order", f"{n} attach_{kind} replaces the callback after registering it", where(f))
                else:
                    r.ok(n, f"attach_{kind}: pointer to {fld}'s box registered")
                    tramp(F, r, n, kind, f, ptr, cb)
            for obs, wh, p in t.diverge if t else ():
                if any(e[0] == "write" and is_cb(w, e[1]) for e in obs) and not any(e[0] == "call" and e[1] in setf for e in obs):
                    r.bad(f"{n}:attach_{kind}:panic", f"{n} attach_{kind} can panic ({last(p)}) after the old callback was dropped and before the new one is "
                          f"registered", wh)
            dm = w.methods.get("detach_" + kind, [])
            if len(dm) != 1:
                r.bad(f"coverage:{n}:detach_{kind}", f"{n} has no detach_{kind}")
                continue
            f = dm[0]
            okm.add(f["key"])
            t = tr(F, r, f)
            for ret, st in t.exits if t else ():
                ws = [e for e in st.obs if e[0] == "write" and is_cb(w, e[1])]
                cs = [e for e in calls(st) if e[1] in setf]
                if [e for e in calls(st) if e[1] in others]:
                    r.bad(f"{n}:detach_{kind}:other", f"{n} detach_{kind} changes the other kind's registration", where(f))
                wf = {e[1][0][2] for e in ws}
                if not cs or variant(cs[-1][2][-1]) != "None" or show(cs[-1][2][0]) != HANDLE:
                    r.bad(f"{n}:detach_{kind}:unregister", f"{n} detach_{kind} leaves the backend's {ff} callback registered", where(f))
                elif fields.get(kind) not in wf:
                    r.bad(f"{n}:detach_{kind}:keep", f"{n} detach_{kind} does not drop the {kind} callback", where(f))
                elif wf - {fields.get(kind)}:
                    r.bad(f"{n}:detach_{kind}:fields", f"{n} detach_{kind} also drops {sorted(wf - {fields[kind]})} although it stays registered", where(f))
                elif variant([e for e in ws][-1][2]) not in ("None",):
                    r.bad(f"{n}:detach_{kind}:keep", f"{n} detach_{kind} does not drop the {kind} callback", where(f))
                else:
                    r.ok(n, f"detach_{kind}: unregistered and dropped")
            for obs, wh, p in t.diverge if t else ():
                if any(e[0] == "write" and is_cb(w, e[1]) for e in obs) and not any(e[0] == "call" and e[1] in setf for e in obs):
                    r.bad(f"{n}:detach_{kind}:panic", f"{n} detach_{kind} can panic with the callback dropped but registered", wh)
        if len(set(fields.values())) != len(fields):
            r.bad(f"{n}:shared", f"{n} keeps both kinds of callbacks in one field")
        # other writers and registrations
        allset = {f"{pre}_set_{x}" for _, x in kinds}
        for k, f in sorted(F.fns.items()):
            if f["crate"] != w.crate or k in okm or reached_only(F, k, okm):
                continue
            for b in f["blocks"]:
                t = b["t"]
                if t[0] == "call" and isinstance(t[1], dict) and last(t[1].get("p") or "") in allset:
                    r.bad(f"{n}:{f['name']}:register", f"{f['p']} changes a callback registration", where(f))
                for s in b["s"]:
                    if s[0] == "=" and any(isinstance(e, (list, tuple)) and e[0] == "f" and e[2] in fields.values() for e in s[1][1]):
                        r.bad(f"{n}:{f['name']}:write", f"{f['p']} writes a callback field", where(f))
                    if s[0] == "=" and s[2][0] == "ref" and s[2][1] and any(
                            isinstance(e, (list, tuple)) and e[0] == "f" and e[2] in fields.values() for e in s[2][2][1]):
                        r.bad(f"{n}:{f['name']}:borrow", f"{f['p']} borrows a callback field mutably", where(f))
            r.ok("others")
    r.floor("cadical", 4)
    r.floor("ipasir", 4)
    r.floor("kissat", 2)
    r.assumptions.append("the vendored backends call a registered callback only during their own calls and forget it when none is set")
    return {"explanation": "all paths of the attach and detach methods, and all other functions of the crates for writes and registrations"}


def is_cb(w, path):
    return bool(path) and path[0][2].endswith("_cb")


def points_into(ptr, box):
    """the pointer is the target of the outer box (in whatever form)"""
    if ptr is box:
        return True
    for _ in range(6):
        if ptr is box:
            return True
        if ptr.t == "CAST":
            ptr = ptr.a[1]
            continue
        if ptr.t == "CALL" and last(ptr.a[1]) in ("cast", "as_mut", "as_ptr", "as_mut_ptr", "from_mut", "from_ref", "as_ref", "deref_mut") and len(ptr.a) > 2:
            ptr = ptr.a[2]
            continue
        break
    return ptr is box


def tramp(F, r, n, kind, f, ptr, cb):
    pass


def reached_only(F, k, okm):
    """private helper called only from the given functions"""
    cs = callers(F).get(k)
    return bool(cs) and cs <= okm


_cl = {}


def callers(F):
    if id(F) not in _cl:
        m = {}
        for k, f in F.fns.items():
            for b in f["blocks"]:
                t = b["t"]
                if t[0] == "call" and isinstance(t[1], dict):
                    for kk in (t[1].get("d"), t[1].get("rd"), t[1].get("key"), t[1].get("rkey")):
                        if kk:
                            m.setdefault(kk, set()).add(k)
        _cl[id(F)] = m
    return _cl[id(F)]


# ------------------------------------------------------------------------------------ F05
ARRAY_OPS = {"addClause", "addClause_", "solveLimited", "solve", "propCheck"}
VAR_OPS = {"phase", "unphase", "setFrozen", "isFrozen", "isEliminated", "freezeVar", "setPolarity", "setDecisionVar", "value"}


def cvar(t):
    """the glue parameter a variable or literal term stands for"""
    while True:
        if t[0] == "ctor" and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "mem" and t[2] == "x":
            t = t[1]
        elif t[0] == "call" and t[1] in ("var", "toInt", "operator~", "toLit") and len(t[3]) == 1:
            t = t[3][0]
        elif t[0] == "bin" and t[1] == ">>" and t[3] == ("int", 1):
            t = t[2]
        else:
            return t


def glue_need(r, unit):
    """glue functions that index by a parameter without creating the variable: name -> parameter position"""
    g = cglue.glue(unit)
    grow = {n: cglue.growth(g, n) for n in g.fns}
    need = {}
    for n, gr in sorted(grow.items()):
        for v, what, t in gr:
            if v == "bad":
                r.bad(f"{unit}:{n}:growth", f"{n}: {what}", f"{cglue.UNITS[unit][0]}")
            elif v == "unknown":
                r.undec(f"{n}: {what}")
            else:
                r.ok("growth", f"{n}: creates every variable up to the {what}")
    for n in sorted(g.fns):
        ps = [x[0] for x in g.params(n)]
        for pa in g.paths(n):
            for i, e in enumerate(pa.events):
                if e[0] != "ev" or e[1] not in ARRAY_OPS | VAR_OPS or e[2] is None:
                    continue
                before = [x for x in pa.events[:i]]
                if e[1] in ARRAY_OPS:
                    if len(e[3]) < 2:
                        continue
                    ok = unk = False
                    for x in before:
                        if x[0] == "enter":
                            gp = [y[0] for y in g.params(x[1])]
                            for v, what, t in grow.get(x[1], ()):
                                if v == "unknown":
                                    unk = True
                                elif t and t[0] == "lits" and x[2][gp.index(t[1][1])] == e[3][0] and x[2][gp.index(t[2][1])] == e[3][1]:
                                    ok = True
                    for v, what, t in grow[n]:
                        if v == "unknown" or t is None:
                            unk = True
                        elif t[0] == "lits" and t[1] == e[3][0] and t[2] == e[3][1] and any(x[0] == "ev" and x[1] == "newVar" for x in before):
                            ok = True
                    if ok:
                        r.ok("glue arrays", f"{n}: {e[1]} after its literals' variables were created")
                    elif unk:
                        r.undec(f"{n}: {e[1]}")
                    else:
                        r.bad(f"{unit}:{n}:{e[1]}", f"{n} hands literals to {e[1]} whose variables were not created", cglue.UNITS[unit][0])
                elif e[3]:
                    v = cvar(e[3][0])
                    ok = any(x[0] == "enter" and any(gr[0] == "ok" and gr[2][0] == "param" and
                                                     cvar(x[2][[y[0] for y in g.params(x[1])].index(gr[2][1])]) == v for gr in grow.get(x[1], ()))
                             for x in before)
                    ok = ok or any(gr[0] == "ok" and gr[2] == v for gr in grow[n]) and any(x[0] == "ev" and x[1] == "newVar" for x in before)
                    for cc in pa.conds:
                        a = cglue.above(cc[1], cc[2], cglue.is_nvars) if cc[0] == "if" else None
                        if a and cvar(a[0]) == v and a[2] == "le" and a[1] <= -1:
                            ok = True
                    if ok:
                        r.ok("glue variables", f"{n}: {e[1]}")
                    elif v[0] == "param" and v[1] in ps:
                        need.setdefault(n, ps.index(v[1]))
                    else:
                        r.undec(f"{n}: {e[1]} of {v}")
            # reads of the model
            for t in set(x for x in list(walk(pa.ret or ())) + [y for c in pa.conds for y in walk(c)] + [y for e in pa.events for y in walk(e)]
                         if x[:2] == ("call", "modelValue")):
                v = cvar(t[3][0])
                ok = bad = False
                for cc in pa.conds:
                    a = cglue.above(cc[1], cc[2], lambda z: z[0] == "call" and z[1] == "size" and z[2] and z[2][0] == "mem" and z[2][2] == "model") \
                        if cc[0] == "if" else None
                    if a and cvar(a[0]) == v and a[2] == "le":
                        ok, bad = (True, bad) if a[1] <= -1 else (ok, True)
                if ok:
                    r.ok("glue model", f"{n}: model value of a covered variable")
                else:
                    r.bad(f"{unit}:{n}:model", f"{n} reads the model at a variable it may not cover" + (" (the bound is off by one)" if bad else ""),
                          cglue.UNITS[unit][0])
    return need


class TV(T2):
    """variables and their bounds as pure terms, so that comparisons stay known"""

    def on_call(self, eng, st, c):
        if c.p.endswith("types::Var::new") or c.p.endswith("types::Var::new_unchecked"):
            return [(mk("PURE", "Var::new", (c.args[0],)), st)]
        return super().on_call(eng, st, c)


def rlin(t):
    """(base, offset) of a Rust-side variable or index term"""
    off = 0
    while True:
        if t.t in ("CAST", "CONV", "TRYCONV", "FLD"):
            t = [x for x in t.a if hasattr(x, "t")][0]
        elif t.t == "PURE" and t.a[0] in ("Var::new", "Var::idx32", "Var::idx"):
            t = t.a[1][0]
        elif t.t == "CALL" and last(t.a[1]) in ("idx32", "idx", "vidx", "vidx32", "var", "index") and len(t.a) == 3:
            t = t.a[2]
        elif t.t == "BIN" and t.a[0] in ("Add", "Sub") and t.a[2].t == "INT":
            off += t.a[2].a[0] if t.a[0] == "Add" else -t.a[2].a[0]
            t = t.a[1]
        else:
            return t, off


def f05(F, r):
    r.rules = ["glue: the literals handed to addClause, solveLimited and propCheck were passed before to a loop that creates every variable up to the largest "
               "of all of them; the model is read only below its size",
               "glue functions indexing by a variable parameter without creating it are called from Rust only after a reserve of that variable, or where the "
               "variable is known to be below the backend's number of variables",
               "loops that create variables run while the wanted index is not below the number of variables"]
    for unit in ("minisat", "glucose"):
        need = glue_need(r, unit)
        fam = [n for n in FAM if n.startswith(unit)]
        for n in fam:
            w = wrappers(F)[n]
            pre = PRE[n]
            keep = lambda x: x in need or x.endswith("_reserve") or x.endswith("_n_vars")
            mine = {x for x in need if x.startswith(pre + "_")}
            roots = set()
            for k, f in sorted(F.fns.items()):
                if f["crate"] != w.crate or f["k"] == "closure":
                    continue
                if any(b["t"][0] == "call" and isinstance(b["t"][1], dict) and last(b["t"][1].get("p") or "") in mine for b in f["blocks"]):
                    roots.add(k)
            for k in sorted(roots):
                f = F.fns[k]
                cs = callers(F).get(k, set()) - {k}
                rr = Report("F05")
                judge_fn(F, rr, n, f, keep, mine, need, pre)
                if rr.viol and not f.get("pub") and not f.get("trait") and cs:
                    # a private helper is judged in its callers
                    for c in sorted(cs):
                        judge_fn(F, r, n, F.fns[c], keep, mine, need, pre)
                    continue
                r.viol.update(rr.viol)
                r.analysed |= rr.analysed
                r.undecided += rr.undecided
                for kk, c in rr.counts.items():
                    r.ok(kk, rr.samples[0][1] if rr.samples else None, c)
    r.floor("growth", 1)
    r.floor("glue arrays", 2)
    r.floor("glue model", 2)
    r.floor("wrapper", 6)
    r.assumptions.append("the backends index nothing else by an external variable (vendored sources); CaDiCaL, Kissat and BatSat import external variables themselves")
    return {"explanation": "every path of the Minisat and Glucose glue, and every wrapper call of a glue function that indexes without creating"}


def judge_fn(F, r, n, f, keep, mine, need, pre):
    t = run_tv(F, r, f, keep)
    for ev in t.hits if t else ():
        if ev[1] in mine:
            judge_need(r, n, f, ev, need[ev[1]], pre)


def run_tv(F, r, fn, keep):
    t = TV(F, fn, keep)
    t.hits = []
    orig = t.on_call

    def hook(eng, st, c):
        if c.key in F.foreign and keep(last(c.p)) and not last(c.p).endswith(("_reserve", "_n_vars")):
            t.hits.append(("call", last(c.p), tuple(c.args), c.where, list(st.facts.items()), st.obs))
        return orig(eng, st, c)
    t.on_call = hook
    e = Engine(F, t)
    try:
        e.run(fn["key"], ())
    except Budget:
        r.undec(f"{fn['p']}: too many states")
        return None
    r.analysed |= e.analysed
    return t


def judge_need(r, n, f, ev, pos, pre):
    _, name, args, wh, facts, obs = ev
    v, vo = rlin(args[pos])
    for o in obs:
        if o[0] == "call" and o[1] == pre + "_reserve":
            b, bo = rlin(o[2][1])
            if b is v and bo >= vo:
                res = o[4]
                bad = any((x is res and y == ("=", 50)) for x, y in facts)
                if not bad:
                    r.ok("wrapper", f"{f['p']}: {name} after reserve")
                    return
    best, seen = None, False
    for x, y in facts:
        if x.t != "BIN" or x.a[0] not in ("Lt", "Le", "Gt", "Ge") or y[0] != "=":
            continue
        op, (a, ao), (b, bo) = x.a[0], rlin(x.a[1]), rlin(x.a[2])
        if not y[1]:
            op = {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[op]
        if is_n(a, pre) and b is v:
            a, ao, b, bo = b, bo, a, ao
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]
        if a is not v or not is_n(b, pre):
            continue
        seen = True
        if op in ("Lt", "Le"):
            # v + ao < N + bo
            c = bo - ao - (1 if op == "Lt" else 0) + vo
            best = c if best is None else min(best, c)
    if best is not None and best <= -1:
        r.ok("wrapper", f"{f['p']}: {name} below the number of variables")
    elif best is not None:
        r.bad(f"{n}:{f['name']}:{name}:bound", f"{f['p']} calls {name} for a variable up to {best + 1} past the last one", wh)
    elif not seen and any(o[0] == "call" and o[1] == pre + "_n_vars" for o in obs):
        r.undec(f"{f['p']}: {name} guarded by something about the number of variables")
    else:
        r.bad(f"{n}:{f['name']}:{name}", f"{f['p']} calls {name} for a variable that may not exist in the backend", wh)


def judge_skip(F, r, n, m, f, want, pre):
    """on every successful path without the backend call the variable is known to be beyond the last one"""
    t = run_tv(F, r, f, lambda x: x == want or x.endswith("_n_vars"))
    for rv, st in t.exits if t else ():
        if variant(rv) == "Err" or any(o[0] == "call" and o[1] == want for o in st.obs):
            continue
        low, seen, empty = None, False, False
        for x, y in st.facts.items():
            if x.t != "BIN" or x.a[0] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") or y[0] != "=":
                continue
            op, (a, ao), (b, bo) = x.a[0], rlin(x.a[1]), rlin(x.a[2])
            if not y[1]:
                op = {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le", "Eq": "Ne", "Ne": "Eq"}[op]
            if is_n(b, pre):
                a, ao, b, bo = b, bo, a, ao
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            if not is_n(a, pre):
                continue
            if b.t == "INT":
                # N + ao op const
                lim = b.a[0] + bo - ao
                empty |= op == "Lt" and lim <= 1 or op in ("Le", "Eq") and lim <= 0
            elif show(b) == "arg:var":
                seen = True
                if op in ("Lt", "Le"):
                    # var >= N + ao - bo (+ 1)
                    c = ao - bo + (1 if op == "Lt" else 0)
                    low = c if low is None else max(low, c)
        if empty or low is not None and low >= 0:
            r.ok("skip", f"{f['p']}: variable unknown to the backend")
        elif seen:
            r.bad(f"{n}:{m}:skip", f"{f['p']} succeeds without calling {want} for a variable the backend knows", where(f))
        else:
            r.undec(f"{f['p']}: succeeds without calling {want} after asking for the number of variables")


def is_n(t, pre):
    return t.t == "CALL" and last(t.a[1]) == pre + "_n_vars"


# ------------------------------------------------------------------------------------ S08
SETTERS = ("phase", "unphase", "set_frozen", "freeze", "melt", "limit_ret", "limit", "set_conf_limit", "set_prop_limit", "set_no_limit", "interrupt", "terminate",
           "set_conflict_limit", "set_decision_limit", "configure", "set_configuration", "set_option")


def is_lit(t):
    return show(t) in ("arg:lit", "Lit::to_ipasir(arg:lit)") or (t.t in ("CAST", "CONV") and is_lit([x for x in t.a if hasattr(x, "t")][0]))


def is_var(t):
    while t.t in ("CAST", "CONV"):
        t = [x for x in t.a if hasattr(x, "t")][0]
    return show(t) in ("arg:var", "Var::idx32(arg:var)", "Var::to_ipasir(arg:var)", "Var::idx(arg:var)")


def is_amount(t):
    """the amount of the Some case, converted without change of value"""
    while t.t in ("CONV", "TRYCONV", "CAST", "FLD"):
        if t.t == "FLD" and t.a[0].t == "ARG":
            return t.a[0].a[0] == "limit" and t.a[1][0] == "Some"
        t = [x for x in t.a if hasattr(x, "t")][0]
    return False


def intv(t):
    return t.a[0] if t.t == "INT" else None


def cstr(t):
    while t.t in ("CALL", "CAST", "REF", "M", "CONV"):
        xs = [x for x in (t.a[2:] if t.t == "CALL" else t.a) if hasattr(x, "t")]
        if not xs:
            return None
        t = xs[0]
    return t.a[0] if t.t == "STR" else None


def lim_table(n, what):
    """(foreign function, test of its arguments after the handle, for amount / for None)"""
    pre = PRE[n]
    if n == "cadical":
        return pre + "_limit_ret", 1, lambda a: cstr(a[0]) == what
    return {"conflicts": pre + "_set_conf_limit", "propagations": pre + "_set_prop_limit"}.get(what), 0, lambda a: True


def s08(F, r):
    r.rules = ["wrapper: every successful path of phase_lit, unphase_var, freeze_var, melt_var, limit_* makes exactly one call of the backend's setter of that kind "
               "with the solver's handle, the argument's literal (sign unchanged) or variable and the given amount (negative for none); a path without the call is "
               "allowed only for variables the backend does not know; no other setter is called",
               "wrapper: set_limit maps each limit variant to the setter or name of that limit with its amount; names passed for limits, configurations and "
               "statistics are those of the variant; interrupters keep and interrupt the handle of their solver; counters and is_frozen return the backend's answer",
               "glue: the entry point passes its parameters to the backend method of that kind unchanged, once; budgets evaluate to a negative total exactly for "
               "negative limits"]
    fams = [n for n in FAM if n in PRE]
    skips = set()
    for n in fams:
        w = wrappers(F)[n]
        pre = PRE[n]
        H = lambda t: show(t) == HANDLE

        def one(m, want, test, zero=None, ret=None, opt=False):
            fs = w.methods.get(m, [])
            if not fs:
                if not opt:
                    r.bad(f"coverage:{n}:{m}", f"{n} has no {m}")
                return
            for f in fs:
                t = tr(F, r, f)
                for rv, st in t.exits if t else ():
                    if variant(rv) == "Err":
                        continue
                    cs = [e for e in calls(st) if any(e[1] == f"{pre}_{x}" or e[1] == x for x in SETTERS) or e[1] == want]
                    other = [e for e in cs if e[1] != want]
                    mine = [e for e in cs if e[1] == want]
                    if other:
                        r.bad(f"{n}:{m}:other", f"{f['p']} also calls {other[0][1]}", other[0][3])
                    elif not mine:
                        if zero and zero(st, rv):
                            if (n, m, f["key"]) not in skips:
                                skips.add((n, m, f["key"]))
                                judge_skip(F, r, n, m, f, want, pre)
                        else:
                            r.bad(f"{n}:{m}:missing", f"{f['p']} succeeds without calling {want}", where(f))
                    elif len(mine) > 1:
                        r.bad(f"{n}:{m}:twice", f"{f['p']} calls {want} {len(mine)} times", where(f))
                    elif not H(mine[0][2][0]):
                        r.bad(f"{n}:{m}:handle", f"{f['p']} calls {want} with {show(mine[0][2][0])[:50]}", mine[0][3])
                    else:
                        v = test(mine[0][2][1:], st)
                        if v is None:
                            r.undec(f"{f['p']}: arguments {[show(x)[:40] for x in mine[0][2][1:]]}")
                        elif not v:
                            r.bad(f"{n}:{m}:args", f"{f['p']} calls {want} with ({', '.join(show(x)[:60] for x in mine[0][2][1:])})", mine[0][3])
                        elif ret and not ret(rv, mine[0][4], st):
                            r.bad(f"{n}:{m}:result", f"{f['p']} does not return what {want} reported", where(f))
                        else:
                            r.ok("setter", f"{f['p']}: {want}")

        def unk(st, rv):
            """skipping is fine where the number of variables was asked (F05 judges the bound)"""
            return any(e[1] == pre + "_n_vars" for e in calls(st)) and (variant(rv) != "Ok" or rv.a[3][0].t in ("TUP",) or intv(rv.a[3][0]) == 0)

        def truth(rv, res, st):
            """Ok(res != 0)"""
            v = rv.a[3][0] if variant(rv) == "Ok" else rv
            i = intv(v)
            if i is not None:
                fs = [(x, y) for x, y in st.facts.items() if x is res or x.t == "BIN" and res in x.a]
                z = [1 for x, y in fs if x is res and y == ("=", 0) or x.t == "BIN" and x.a[0] == "Eq" and y == ("=", 1)]
                nz = [1 for x, y in fs if x is res and y[0] == "!" and 0 in y[1] or x.t == "BIN" and x.a[0] == "Eq" and y == ("=", 0)]
                return bool(z) if i == 0 else bool(nz)
            s = show(v)
            b = show(res)
            return s in (f"NOT(({b} Eq 0))", f"({b} Ne 0)", f"NOT((0 Eq {b}))", f"({b} Gt 0)", f"({b} Eq 1)", b, f"(0 Lt {b})")

        if n in ("minisat-core", "minisat-simp", "glucose-core", "glucose-simp", "cadical"):
            one("phase_lit", pre + "_phase", lambda a, st: is_lit(a[0]))
            one("unphase_var", pre + "_unphase", lambda a, st: is_var(a[0]), zero=None if n == "cadical" else unk)
        if n in ("minisat-simp", "glucose-simp"):
            one("freeze_var", pre + "_set_frozen", lambda a, st: is_var(a[0]) and intv(a[1]) not in (None, 0))
            one("melt_var", pre + "_set_frozen", lambda a, st: is_var(a[0]) and intv(a[1]) == 0, zero=unk)
            one("is_frozen", pre + "_is_frozen", lambda a, st: is_var(a[0]), zero=unk, ret=truth)
        if n == "cadical":
            one("freeze_var", pre + "_freeze", lambda a, st: is_var(a[0]))
            one("melt_var", pre + "_melt", lambda a, st: is_var(a[0]))
            one("is_frozen", pre + "_frozen", lambda a, st: is_var(a[0]), ret=truth)
        kinds = {"cadical": ("conflicts", "decisions")}.get(n, ("conflicts", "propagations") if "-" in n else ())
        for k in kinds:
            fn, pos, extra = lim_table(n, k)

            def amount(a, st, pos=pos, extra=extra):
                if not extra(a):
                    return False
                some = [y for x, y in st.facts.items() if show(x) == "DISCR(arg:limit)"]
                v = a[pos]
                if ("=", 1) in some:
                    return is_amount(v) and not any(x.t == "BIN" for x in subterms(v))
                if intv(v) is not None:
                    return intv(v) < 0
                if is_amount(v):
                    return False
                return None
            one("limit_" + k, fn, amount, ret=(lambda rv, res, st: succeeded(res, st)) if n == "cadical" else None)
        # set_limit
        for f in w.methods.get("set_limit", []):
            t = tr(F, r, f)
            seen = set()
            for rv, st in t.exits if t else ():
                cs = [e for e in calls(st) if any(e[1] == f"{pre}_{x}" for x in SETTERS)]
                vs = {x.a[1][0] for e in cs for a in e[2] for x in subterms(a) if x.t == "FLD" and x.a[0].t == "ARG" and x.a[0].a[0] == "limit"}
                names = limit_variants(F, f)
                idx = [y[1] for x, y in st.facts.items() if show(x) == "DISCR(arg:limit)" and y[0] == "="]
                var = names[idx[0]] if names and idx and idx[0] in names else (vs.pop() if len(vs) == 1 else None)
                if var is None and names:
                    rest = [y for x, y in st.facts.items() if show(x) == "DISCR(arg:limit)" and y[0] == "!"]
                    left = set(names or {}) - set(rest[0][1] if rest else ())
                    var = names[left.pop()] if len(left) == 1 else None
                if var is None:
                    r.undec(f"{f['p']}: which limit")
                    continue
                seen.add(var)
                want = {"Conflicts": ("set_conf_limit", "set_conflict_limit"), "Propagations": ("set_prop_limit",), "None": ("set_no_limit",),
                        "Decisions": ("set_decision_limit",)}.get(var, ()) if n != "cadical" else ("limit_ret",)
                if len(cs) != 1 or cs[0][1] not in {f"{pre}_{x}" for x in want} or not H(cs[0][2][0]):
                    r.bad(f"{n}:set_limit:{var}", f"{f['p']} sets {[c[1] for c in cs]} for the limit {var}", where(f))
                    continue
                args = cs[0][2][1:]
                if n == "cadical" and cstr(args[0]) is None:
                    r.undec(f"{f['p']}: name of the limit")
                elif n == "cadical" and cstr(args[0]) != var.lower():
                    r.bad(f"{n}:set_limit:{var}:name", f"{f['p']} passes the name {cstr(args[0])!r} for the limit {var}", cs[0][3])
                elif args and not (strip_conv(args[-1]).t == "FLD" and strip_conv(args[-1]).a[1][0] == var):
                    r.bad(f"{n}:set_limit:{var}:amount", f"{f['p']} passes {show(args[-1])[:60]} for the limit {var}", cs[0][3])
                elif n == "cadical" and variant(rv) == "Ok" and not succeeded(cs[0][4], st):
                    r.bad(f"{n}:set_limit:{var}:result", f"{f['p']} reports success although the backend refused", where(f))
                else:
                    r.ok("set_limit", f"{f['p']}: {var}")
        if "-" in n or n in ("cadical", "kissat"):
            interrupters(F, r, n, w)
        counters(F, r, n, w)
    for cr in ("cadical", "kissat"):
        names_of(F, r, cr)
    for u in ("minisat", "glucose", "cadical"):
        glue_params(r, u)
    r.floor("setter", 20)
    r.floor("set_limit", 6)
    r.floor("interrupter", 6)
    r.floor("names", 8)
    r.floor("glue", 20)
    return {"explanation": "every path of the phase, freeze, limit, interrupt and counter operations of the wrappers and of their glue entry points"}


def strip_conv(t):
    while t.t in ("CONV", "TRYCONV", "CAST"):
        t = [x for x in t.a if hasattr(x, "t")][0]
    return t


def succeeded(res, st):
    for x, y in st.facts.items():
        if x is res and (y[0] == "!" and 0 in y[1] or y[0] == "=" and y[1] != 0):
            return True
        if x.t == "BIN" and x.a[0] == "Eq" and res in x.a and y == ("=", 0):
            return True
    return False


def arg_adt(f, i):
    """type definition of the i-th argument, references stripped"""
    t = f["tys"][f["locals"][i]]
    while t["k"] in ("ref", "ptr"):
        t = f["tys"][t["a"][0]]
    return t.get("d")


def variants(F, d):
    a = F.adts.get(d)
    return {int(v[1]): v[0] for v in a["vs"]} if a else {}


def limit_variants(F, f):
    for i in range(1, f.get("nargs", 2) + 1):
        d = arg_adt(f, i)
        if d and last(d) == "Limit":
            return variants(F, d)
    return {}


def interrupters(F, r, n, w):
    pre = PRE[n]
    want = {"cadical": "ccadical_terminate", "kissat": "kissat_terminate"}.get(n, pre + "_interrupt")
    kind = None
    for f in w.methods.get("interrupter", []):
        t = tr(F, r, f)
        for rv, st in t.exits if t else ():
            if rv.t == "ADT" and any(show(x) == HANDLE for x in rv.a[3]):
                kind = rv.a[0]
                r.ok("interrupter", f"{f['p']}: keeps the solver's handle")
            else:
                r.bad(f"{n}:interrupter", f"{f['p']} returns {show(rv)[:80]}, not an interrupter of this solver", where(f))
    if kind is None:
        r.bad(f"coverage:{n}:interrupter", f"{n} makes no interrupter")
        return
    for k, f in F.fns.items():
        if f["name"] == "interrupt" and "self" in f and f["tys"][f["self"]].get("d") == kind:
            t = tr(F, r, f)
            for rv, st in t.exits if t else ():
                cs = [e for e in calls(st) if e[1] == want]
                if len(cs) < 1 or show(cs[0][2][0]) != HANDLE or len(calls(st)) != len(cs):
                    r.bad(f"{n}:interrupt", f"{f['p']} does not call {want} with its handle (only)", where(f))
                else:
                    r.ok("interrupter", f"{f['p']}: {want}")


def counters(F, r, n, w):
    pre = PRE[n]
    for m in ("conflicts", "decisions", "propagations"):
        for f in w.methods.get(m, []):
            t = tr(F, r, f)
            for rv, st in t.exits if t else ():
                v = rv
                while v.t in ("CONV", "TRYCONV", "CAST", "FLD") or v.t == "PURE" and v.a[0] == "unsigned_abs":
                    v = [x for x in v.a if hasattr(x, "t")][0] if v.t != "PURE" else v.a[1][0]
                if v.t != "CALL":
                    r.undec(f"{f['p']}: {show(rv)[:60]}")
                    continue
                nm = last(v.a[1])
                name = cstr(v.a[3]) if len(v.a) > 3 else nm[len(pre) + 1:] if nm.startswith(pre + "_") else nm
                if name == m and show(v.a[2]) == HANDLE:
                    r.ok("counter", f"{f['p']}: {nm}")
                elif name is None or not (nm.startswith(pre)):
                    r.undec(f"{f['p']}: {show(rv)[:60]}")
                else:
                    r.bad(f"{n}:{m}:counter", f"{f['p']} returns the backend's {name}", where(f))


def names_of(F, r, cr):
    """From<Limit/Config/Statistic>: the string is the variant's name"""
    for k, f in sorted(F.fns.items()):
        if f["crate"] != f"rustsat_{cr}.lib" or f["name"] != "from" or f.get("trait") != "core::convert::From":
            continue
        adt = arg_adt(f, 1)
        if not adt or last(adt) not in ("Limit", "Config", "Statistic"):
            continue
        t = tr(F, r, f)
        for rv, st in t.exits if t else ():
            names = variants(F, adt)
            ds = [y for x, y in st.facts.items() if x.t == "DISCR"]
            var = None
            if ds and ds[0][0] == "=":
                var = names.get(ds[0][1])
            elif ds:
                left = set(names) - set(ds[0][1])
                var = names[left.pop()] if len(left) == 1 else None
            v = rv.a[0][0] if rv.t == "TUP" and isinstance(rv.a[0], tuple) and rv.a[0] else rv
            s_ = cstr(v)
            if var is None or s_ is None:
                r.undec(f"{f['p']}: {show(rv)[:60]}")
            elif s_.replace("_", "").replace("-", "") != var.lower():
                r.bad(f"{cr}:names:{var}", f"{f['p']} gives the name {s_!r} to {var}", where(f))
            else:
                r.ok("names", f"{cr} {var}: {s_!r}")


METHOD = {"phase": "phase", "unphase": "unphase", "set_frozen": "setFrozen", "is_frozen": "isFrozen", "is_eliminated": "isEliminated", "set_no_limit": "budgetOff",
          "interrupt": "interrupt", "freeze": "freeze", "melt": "melt", "frozen": "frozen", "limit_ret": "limit", "terminate": "terminate",
          "set_option_ret": "set", "get_option_ret": "get"}
BUDGET = {"set_conf_limit": ("setConfBudget", "conflicts"), "set_prop_limit": ("setPropBudget", "propagations")}
COUNTS = {"decisions": "decisions", "propagations": "propagations", "conflicts": "conflicts"}


def ev_int(t, env):
    """value of a glue term"""
    if t[0] == "int":
        return t[1]
    if t in env:
        return env[t]
    if t[0] == "mem" and t[2] in env:
        return env[t[2]]
    if t[0] == "un" and t[1] == "-":
        a = ev_int(t[2], env)
        return None if a is None else -a
    if t[0] == "un" and t[1] == "~":
        a = ev_int(t[2], env)
        return None if a is None else ~a
    if t[0] == "ctor" and len(t[2]) == 1:
        return ev_int(t[2][0], env)
    if t[0] == "bin":
        a, b = ev_int(t[2], env), ev_int(t[3], env)
        if a is None or b is None:
            return None
        try:
            return {"+": a + b, "-": a - b, "*": a * b, "<": int(a < b), ">": int(a > b), "<=": int(a <= b), ">=": int(a >= b), "==": int(a == b),
                    "!=": int(a != b)}[t[1]]
        except KeyError:
            return None
    return None


def same_param(t, name):
    """True / False / None: the term is the parameter, unchanged"""
    if t == ("param", name):
        return True
    if t[0] == "ctor" and len(t[2]) == 1:
        return same_param(t[2][0], name)
    if t[0] == "mem" and t[2] == "x":
        return same_param(t[1], name)
    if t[0] == "call" and t[1] == "toLit":
        return same_param(t[3][0], name)
    if t[0] in ("int",) or t[0] == "un" or t[0] == "call" and t[1] in ("operator~", "operator^", "mkLit") or t[0] == "param":
        return False
    if t[0] == "bin":
        if t[1] == "!=" and t[3] == ("int", 0):
            return same_param(t[2], name)
        return False
    return None


def glue_params(r, unit):
    g = cglue.glue(unit)
    pres = {"minisat": ("cminisat_", "cminisatsimp_"), "glucose": ("cglucose4_", "cglucosesimp4_"), "cadical": ("ccadical_",)}[unit]
    for n in sorted(g.fns):
        pre = [p for p in pres if n.startswith(p)]
        if not pre:
            continue
        op = n[len(pre[0]):]
        ps = [x[0] for x in g.params(n)]
        for pa in g.paths(n):
            if any(c[0] == "catch" for c in pa.conds):
                continue
            evs = [e for e in pa.events if e[0] == "ev"]
            if op in METHOD:
                mine = [e for e in evs if e[1] == METHOD[op]]
                others = [e for e in evs if e[1] in set(METHOD.values()) | {"setConfBudget", "setPropBudget"} and e[1] != METHOD[op]]
                if len(mine) != 1 or others:
                    if not mine and evs and not others:
                        r.undec(f"{n}: {[e[1] for e in evs]}")
                    else:
                        r.bad(f"{unit}:{n}", f"{n} calls {[e[1] for e in mine + others]} instead of {METHOD[op]} once", cglue.UNITS[unit][0] or "cadical/vendor/src/ccadical.cpp")
                    continue
                vs = [same_param(a, p) for a, p in zip(mine[0][3], ps[1:])]
                if False in vs or len(mine[0][3]) != len(ps) - 1 and "default" not in str(mine[0][3]).lower():
                    r.bad(f"{unit}:{n}:args", f"{n} passes {mine[0][3]!r:.120} to {METHOD[op]}", cglue.UNITS[unit][0] or "cadical glue")
                elif None in vs:
                    r.undec(f"{n}: arguments of {METHOD[op]}")
                else:
                    r.ok("glue", f"{n}: {METHOD[op]}({', '.join(ps[1:])})")
            elif op in BUDGET:
                meth, cnt = BUDGET[op]
                mine = [e for e in evs if e[1] == meth]
                others = [e for e in evs if e[1] in ("setConfBudget", "setPropBudget", "budgetOff") and e[1] != meth]
                if others and not (len(others) == 1 and others[0][1] == "budgetOff"):
                    r.bad(f"{unit}:{n}", f"{n} calls {others[0][1]}", cglue.UNITS[unit][0])
                    continue
                for lim in (-5, -1, 0, 1, 7, 1 << 31):
                    for done in (0, 1, 1000):
                        env = {("param", ps[1]): lim, cnt: done}
                        cond = [ev_int(c[1], env) for c in pa.conds if c[0] == "if"]
                        if None in cond:
                            r.undec(f"{n}: condition")
                            continue
                        if any(bool(v) != c[2] for v, c in zip(cond, [c for c in pa.conds if c[0] == "if"])):
                            continue
                        if len(mine) != 1:
                            r.bad(f"{unit}:{n}:{'none' if lim < 0 else 'set'}", f"{n} calls {meth} {len(mine)} times for the limit {lim}" +
                                  ("; budgetOff would remove the other limit too" if others else ""), cglue.UNITS[unit][0])
                            continue
                        v = ev_int(mine[0][3][0], env)
                        if v is None:
                            r.undec(f"{n}: amount")
                        elif lim < 0 and v + done >= 0:
                            r.bad(f"{unit}:{n}:remove", f"{n} sets a total budget of {v + done} after {done} {cnt} when the limit is removed", cglue.UNITS[unit][0])
                        elif lim >= 0 and v != lim:
                            r.bad(f"{unit}:{n}:amount", f"{n} passes {v} for the limit {lim}", cglue.UNITS[unit][0])
                        else:
                            r.ok("glue", f"{n}: limit {lim} after {done}")
            elif op in COUNTS and pa.ret:
                t = pa.ret
                while t[0] == "ctor" and len(t[2]) == 1:
                    t = t[2][0]
                nm = t[2] if t[0] == "mem" else t[1] if t[0] == "call" else None
                if nm == op:
                    r.ok("glue", f"{n}: returns {op}")
                elif nm in COUNTS:
                    r.bad(f"{unit}:{n}:counter", f"{n} returns {nm}", cglue.UNITS[unit][0] or "cadical glue")
                else:
                    r.undec(f"{n}: {t!r:.60}")


CHECKS = {"F01": f01, "F02": f02, "F05": f05, "S08": s08}
_A = "Loop bodies are taken 0 and 1..n times with summarised state; constructs the interpreter cannot follow are recorded as undecided, not alarmed."
TECH = {
    "F01": ("path-sensitive abstract interpretation of the MIR (typestate of the handle: constructed checked, released once) with a whole-crate scan for other writers and releases", _A),
    "F02": ("path-sensitive abstract interpretation of the MIR (ownership of the registered callback box against the registration calls) with a whole-crate scan for other writers", _A),
    "F05": ("path enumeration over the clang syntax tree of the glue (creation loops and maximum computations checked structurally) combined with path-sensitive abstract "
            "interpretation of the wrappers' MIR (linear comparison facts)", _A + " What the vendored backends index is trusted from a table of their entry points."),
    "S08": ("path-sensitive abstract interpretation of the wrappers' MIR (one setter call per successful path, argument terms) and path enumeration over the clang syntax tree "
            "of the glue with constant evaluation of its budget terms", _A + " The backends' implementation of limits is trusted."),
}
