"""S01-S07 and F04: the solver wrappers, Rust side and C++ glue."""
import re
import os
from . import cglue
from .cglue import walk
from .facts import REPO
from .solvers import analyse, FAM

_runs = {}


def runs(F):
    if id(F) not in _runs:
        _runs[id(F)] = analyse(F, frozenset(cglue.oom_capable()))
    return _runs[id(F)]


RULE = {
    "S01": "on every path of lit_val/flip_lit/is_flippable/core a model (core) query of the backend happens only where the "
           "recorded state is Sat (Unsat); in every other state the method returns a StateError naming required and actual state",
    "S02": "on every path to an exit of every public method, after the last backend call that changes the formula or the "
           "solver's answer, the recorded state was written again or cannot be Sat/Unsat",
    "S03": "on every path after the backend's solve call: code 10/20/0 <-> Ok(Sat)/Ok(Unsat)/Ok(Interrupted) <-> recorded state "
           "<-> exactly one of n_sat/n_unsat/n_terminated incremented by one; other codes -> Err; and the same code table in the C++ glue",
    "S04": "clause emission automaton: every element of the given list is handed over once, unchanged, before the one closing 0 "
           "(or pointer and length of the whole list are passed); assumptions complete before the solve call",
    "S05": "Ok(Sat/Unsat) without a backend call only in methods without assumptions and only under state Sat, or Unsat with an "
           "empty core (and, for CaDiCaL, no failed temporary clause); Unsat under assumptions is recorded with the core read back (or flagged)",
    "S06": "the result of every foreign call that the C++ glue lets return OUT_OF_MEM is compared with it on every path before the next "
           "backend call or exit, and the equal branch returns an out-of-memory error",
    "S07": "lit_val's returned truth value follows the value the backend reported for exactly that literal (Rust match and C++ glue); a core "
           "gets the negation of exactly the assumptions the backend reports as failed",
}
FLOOR = {"S01": 12, "S02": 25, "S03": 80, "S04": 35, "S05": 10, "S06": 15, "S07": 8}


def srule(rule):
    def check(F, r):
        r.rules = [RULE[rule]]
        for name, fn, res, eng, bud in runs(F):
            if fn is None:
                r.bad(f"coverage:{name}", f"the {name} solver type with its recorded state was not found")
                continue
            if bud is not None:
                r.undec(f"{fn['p']}: too many states")
                continue
            r.analysed |= eng.analysed
            for ru, key, msg, where, path in res.finds:
                if ru == rule:
                    r.bad(key, msg, where, path)
            seen = set()
            for ru, what in res.oks:
                if ru == rule and what not in seen:
                    seen.add(what)
                    r.ok(name, what)
            for u in res.undec:
                if u.startswith(rule):
                    r.undec(u)
        if rule in ("S03", "S04", "S07"):
            glue_rules(r, rule)
        fl = {n: 1 for n in FAM}
        if rule == "S05":
            pass
        if rule == "S06":
            fl = {n: 1 for n in FAM if n not in ("batsat", "kissat", "ipasir")}
        if rule == "S07":
            fl = {n: 1 for n in FAM}
        for n, k in fl.items():
            r.floor(n, k, f"{rule} obligations of the {n} wrapper")
        tot = sum(r.counts.values())
        if tot < FLOOR[rule]:
            r.bad("coverage", f"only {tot} obligations were found, at least {FLOOR[rule]} were expected")
        if rule in EXTRA:
            EXTRA[rule](F, r)
        return {"explanation": "path-sensitive abstract interpretation of every public method of the eight solver wrappers on "
                               "rustc MIR (callees of the wrapper crates inlined, loops to a fixpoint), plus path enumeration of the "
                               "C++ glue on clang's AST"}
    return check


EXTRA = {}


def isle(p, name):
    return any(t[0] == "call" and t[1] == name for t in walk(p))


def lbool(a):
    if a[0] == "ref" and a[1] in ("l_True", "l_False", "l_Undef"):
        return a[1]
    if a[0] == "ctor" and a[1].endswith("lbool") and len(a[2]) == 1 and a[2][0][0] == "int":
        return {0: "l_True", 1: "l_False", 2: "l_Undef"}.get(a[2][0][1])
    return None


def truth_of(conds, isquery):
    """what the conditions of a path say about a query's lbool: True/False/None(neither)"""
    neg = set()
    for c in conds:
        if c[0] != "if" or c[1][0] != "call" or c[1][1] not in ("operator==", "operator!="):
            continue
        args = c[1][3] if c[1][2] is None else (c[1][2],) + c[1][3]
        val = c[2] if c[1][1] == "operator==" else not c[2]
        q = [a for a in args if isquery(a)]
        k = [lb for lb in map(lbool, args) if lb]
        if not q or not k:
            continue
        if val:
            return k[0]
        neg.add(k[0])
    if len(neg) == 2:
        return ({"l_True", "l_False", "l_Undef"} - neg).pop()
    return None


def possible(conds, isquery):
    """the lbools the query may be on a path; None when a condition looks at it in a way not understood"""
    t = truth_of(conds, isquery)
    if t is not None:
        return {t}
    left = {"l_True", "l_False", "l_Undef"}
    for c in conds:
        if c[0] == "if" and c[1][0] == "call" and c[1][1] in ("operator==", "operator!="):
            args = c[1][3] if c[1][2] is None else (c[1][2],) + c[1][3]
            k = [lb for lb in map(lbool, args) if lb]
            if k and any(isquery(a) for a in args):
                left -= {k[0]}
                continue
        if any(isinstance(t, tuple) and len(t) > 1 and isquery(t) for t in walk(c)):
            return None
    return left


def glue_rules(r, rule):
    for unit, pre in (("minisat", ("cminisat", "cminisatsimp")), ("glucose", ("cglucose4", "cglucosesimp4"))):
        g = cglue.glue(unit)
        for p in pre:
            if rule == "S07":
                fn = p + "_val"
                if fn not in g.fns:
                    r.bad(f"glue:{fn}", f"the glue has no function {fn}")
                    continue
                want = {"l_True": g.consts.get("T_TRUE"), "l_False": g.consts.get("T_FALSE"), "l_Undef": g.consts.get("T_UNASSIGNED")}
                for pa in g.paths(fn):
                    qs = {t for t in walk(pa.conds) if len(t) > 4 and t[0] == "call" and t[1] in ("modelValue", "value")}
                    if not qs and pa.ret == ("int", want["l_Undef"]) and any(
                            len(t) > 1 and t[0] == "call" and t[1] in ("size", "nVars") for t in walk(pa.conds)):
                        r.ok("glue", f"{fn}: a variable without model value -> unassigned")
                        continue
                    if len(qs) != 1:
                        r.bad(f"glue:{fn}:query", f"{fn} does not ask for exactly one model value")
                        continue
                    q = next(iter(qs))
                    if q[1] != "modelValue":
                        r.bad(f"glue:{fn}:query", f"{fn} asks for {q[1]} instead of the model's value")
                    lit = q[3][0] if q[3] else None
                    ok = q[4] and "Lit" in q[4][0] and lit in (("ctor", "Lit", (("mem", ("param", "lit"), "x"),)),
                                                               ("param", "lit"), ("mem", ("param", "lit"), "x"))
                    flip = 0
                    # Lit negation undone / value of the variable with the sign accounted for
                    if not ok and any(t[0] in ("bin",) and t[1] == "^" for t in walk(pa.conds)):
                        ok = any(len(t) > 1 and t[0] == "call" and t[1] == "sign" for t in walk(pa.conds))
                    if not ok and any(t[0] == "call" and t[1] == "operator^" for t in walk(pa.conds)):
                        ok = any(len(t) > 1 and t[0] == "call" and t[1] == "sign" for t in walk(pa.conds))
                    if not ok and any(len(t) > 1 and t[0] == "call" and t[1] == "sign" for t in walk(pa.conds)):
                        r.undec(f"{fn}: sign handled by hand")
                        continue
                    if not ok:
                        r.bad(f"glue:{fn}:literal", f"{fn} does not ask for the value of the given literal (its sign is ignored)",
                              cglue.UNITS[unit][0])
                        continue
                    t = truth_of(pa.conds, lambda a: a == q)
                    if t is None and possible(pa.conds, lambda a: a == q) is None:
                        r.undec(f"{fn}: {str(pa.conds)[:100]}")
                        continue
                    if t is None or pa.ret != ("int", want[t]):
                        r.bad(f"glue:{fn}:{t}", f"{fn} returns {pa.ret} where the model value is {t}", cglue.UNITS[unit][0])
                    else:
                        r.ok("glue", f"{fn}: {t} -> {pa.ret[1]}")
            if rule == "S03":
                fn = p + "_solve"
                if fn not in g.fns:
                    r.bad(f"glue:{fn}", f"the glue has no function {fn}")
                    continue
                for pa in g.paths(fn):
                    if pa.conds[:1] and pa.conds[0][0] == "catch":
                        if pa.ret != ("int", 50):
                            r.bad(f"glue:{fn}:catch", f"{fn} returns {pa.ret} after an exception", cglue.UNITS[unit][0])
                        continue
                    t = truth_of(pa.conds, lambda a: a[0] == "call" and a[1] in ("solveLimited", "solve", "solve_"))
                    want = {"l_True": 10, "l_False": 20, "l_Undef": 0}.get(t)
                    left = possible(pa.conds, lambda a: a[0] == "call" and a[1] in ("solveLimited", "solve", "solve_"))
                    if want is None and left and isinstance(pa.ret, tuple) and pa.ret[0] == "int":
                        r.bad(f"glue:{fn}:{pa.ret[1]}", f"{fn} returns {pa.ret[1]} for the solver's results {', '.join(sorted(left))} alike",
                              cglue.UNITS[unit][0])
                    elif want is None:
                        r.undec(f"{fn}: {str(pa.conds)[:100]}")
                    elif pa.ret != ("int", want):
                        r.bad(f"glue:{fn}:{t}", f"{fn} returns {pa.ret} where the solver's result is {t}", cglue.UNITS[unit][0])
                    else:
                        r.ok("glue", f"{fn}: {t} -> {want}")
                fn = p + "_propcheck"
                for pa in g.paths(fn) if fn in g.fns else ():
                    c = [c for c in pa.conds if c[0] == "if" and c[1][0] == "call" and c[1][1] == "propCheck"]
                    if c:
                        want = 10 if c[0][2] else 20
                        if pa.ret != ("int", want):
                            r.bad(f"glue:{fn}:{c[0][2]}", f"{fn} returns {pa.ret} where propCheck returned {c[0][2]}", cglue.UNITS[unit][0])
                        else:
                            r.ok("glue", f"{fn}: {c[0][2]} -> {want}")
            if rule == "S04":
                for fn, callee in ((p + "_add_clause", "addClause"), (p + "_solve", "solveLimited"), (p + "_propcheck", "propCheck")):
                    if fn not in g.fns:
                        continue
                    ps = [n for n, _ in g.params(fn)]
                    for pa in g.paths(fn):
                        if pa.conds[:1] and pa.conds[0][0] == "catch":
                            continue
                        evs = [e for e in pa.events if e[0] == "ev" and e[1] in (callee, "addClause_")]
                        if not evs:
                            r.bad(f"glue:{fn}:none", f"{fn} has a path without {callee}", cglue.UNITS[unit][0])
                            continue
                        a = evs[0][3]
                        if len(evs) != 1 or len(a) < 2 or a[0] != ("param", ps[1]) or a[1] != ("param", ps[2]):
                            r.bad(f"glue:{fn}:args", f"{fn} does not pass the whole list once to {callee}", cglue.UNITS[unit][0])
                        else:
                            r.ok("glue", f"{fn}: whole list to {callee}")
    if rule in ("S03", "S04"):
        g = cglue.glue("cadical")
        for fn, callee, lit in (("ccadical_add_mem", "add", True), ("ccadical_assume_mem", "assume", True),
                                ("ccadical_constrain_mem", "constrain", True), ("ccadical_solve_mem", "solve", False)):
            if (rule == "S04") != lit or fn not in g.fns:
                continue
            ps = [n for n, _ in g.params(fn)]
            for pa in g.paths(fn):
                if pa.conds[:1] and pa.conds[0][0] == "catch":
                    if pa.ret != ("int", 50):
                        r.bad(f"glue:{fn}:catch", f"{fn} returns {pa.ret} after an exception")
                    continue
                evs = [e for e in pa.events if e[0] == "ev" and e[1] == callee]
                if len(evs) != 1 or (lit and evs[0][3] != (("param", ps[1]),)):
                    r.bad(f"glue:{fn}:args", f"{fn} does not hand exactly the given literal to the solver", "cadical/cpp-extension")
                elif (lit and pa.ret != ("int", 0)) or (not lit and not (pa.ret[0] == "call" and pa.ret[1] == "solve")):
                    r.bad(f"glue:{fn}:ret", f"{fn} returns {str(pa.ret)[:60]}", "cadical/cpp-extension")
                else:
                    r.ok("glue", f"{fn}")


# --------------------------------------------------------------------------------- F04
THROWS = {
    "minisat": {"newVar", "addClause", "solveLimited", "solve", "propCheck", "phase", "new", "reserve", "addClause_"},
    "glucose": {"newVar", "addClause", "solveLimited", "solve", "propCheck", "phase", "new", "reserve", "addClause_"},
    "cadical": {"add", "assume", "constrain", "solve", "simplify", "resize", "reserve", "propagate", "new", "implied",
                "connect_proof_tracer", "prop_check", "declare_more_variables", "clause", "get_entrailed_literals"},
}


def covers(unit, h):
    if h == "...":
        return True
    if unit == "cadical":
        return "bad_alloc" in h or "std::exception" in h
    return "OutOfMemoryException" in h


def f04(F, r):
    r.rules = ["every call of the C++ glue to a backend operation that allocates (table per backend) and every `new` lies in a try block "
               "whose handlers cover the backend's allocation failure, and each handler returns the out-of-memory code or a null pointer; "
               "so does everything reached through another glue function"]
    ext = ""
    for f in ("cadical/cpp-extension/ccadical_extension.cpp", "cadical/cpp-extension/ctracer.cpp"):
        with open(os.path.join(REPO, f)) as h:
            ext += h.read()
    for unit in cglue.UNITS:
        g = cglue.glue(unit)
        for fn in sorted(g.fns):
            if unit == "cadical" and not re.search(r"\b" + fn + r"\s*\(", ext):
                continue              # upstream's own C interface
            if fn.endswith("_ensure_vars"):
                continue              # internal helper, seen through its callers
            r.analysed.add(fn)
            seen = set()
            for pa in g.paths(fn):
                for e in pa.events:
                    if e[0] != "ev" or e[1] not in THROWS[unit]:
                        continue
                    hs = {h for t in e[-1] for h in t}
                    if e[1] == "new" and unit != "cadical":
                        good = any("OutOfMemory" in h for h in hs) and any("bad_alloc" in h for h in hs) or "..." in hs
                    else:
                        good = any(covers(unit, h) for h in hs)
                    if not good:
                        r.bad(f"{fn}:{e[1]}", f"{fn}: an allocation failure thrown by {e[1]} leaves the C++ code as an exception",
                              cglue.UNITS[unit][0] or "cadical/cpp-extension")
                    elif (fn, e[1]) not in seen:
                        seen.add((fn, e[1]))
                        r.ok(unit, f"{fn}: {e[1]} guarded")
                if pa.conds[:1] and pa.conds[0][0] == "catch":
                    ret = [t["type"]["qualType"] for t in [g.fns[fn]]][0]
                    if pa.ret == ("int", 50) and not ret.split("(")[0].strip().endswith("*"):
                        r.ok(unit, f"{fn}: handler returns out of memory")
                    elif pa.ret == ("int", 0) and ret.split("(")[0].strip().endswith("*"):
                        r.ok(unit, f"{fn}: handler returns null")
                    else:
                        r.bad(f"{fn}:handler", f"{fn}: the handler of {pa.conds[0][1]} does not report out-of-memory (returns {pa.ret})")
    r.floor("minisat", 20)
    r.floor("glucose", 20)
    r.floor("cadical", 10)
    r.assumptions.append("which backend operations can throw an allocation failure is a table (all operations that add variables, clauses or "
                         "run the search); upstream's own C interface of CaDiCaL is not glue of this repository")
    return {"explanation": "all paths of every C entry point of the C++ glue, from clang's AST"}


CHECKS = {k: srule(k) for k in RULE}
CHECKS["F04"] = f04

_A = ("Holds for all paths of the analysed functions, up to the stated models of std and of the backends' C interfaces; "
      "paths whose state space exceeds the budget are listed as undecided in the evidence and not claimed.")
_T = "path-sensitive abstract interpretation (typestate of the recorded solver state) on rustc MIR"
TECH = {
    "S01": (_T, _A + " External solver included where stated."),
    "S02": (_T, _A), "S05": (_T, _A), "S06": (_T, _A + " Which glue functions can return OUT_OF_MEM is read off the glue's AST."),
    "S03": (_T + ", path enumeration of the C++ glue on clang's AST", _A),
    "S04": (_T + " with a clause-emission automaton; path enumeration of the C++ glue on clang's AST", _A),
    "S07": (_T + "; path enumeration of the C++ glue on clang's AST", _A + " The backends' own model and failed-assumption queries are trusted."),
    "F04": ("exception-flow analysis of the C++ glue: path enumeration on clang's AST with try-scopes",
            "Which backend operations may throw an allocation failure is a reviewed table; everything else follows from the AST."),
}
