"""I01–I03: whole-instance operations, variable bookkeeping, reserving variables before conversions."""
import re
from .mir import Engine, Client, Budget, mk, show, last, subterms, LAZY, INT
from .report import Report

INSTS = ("instances::sat::Instance", "instances::sat::Cnf", "instances::opt::Instance", "instances::opt::Objective",
         "instances::multiopt::MultiOptInstance", "instances::opt::IntObj")
VIEWS = {"iter", "into_iter", "iter_mut", "deref", "deref_mut", "as_ref", "as_mut", "as_slice", "as_mut_slice", "drain", "borrow", "index", "index_mut",
         "by_ref", "copied", "cloned", "peekable", "rev", "enumerate", "values", "keys", "values_mut", "to_vec", "clone", "into_boxed_slice", "into_vec", "to_owned",
         "into_keys", "into_values"}
QUIET = VIEWS | LAZY | {"len", "is_empty", "next", "next_back", "branch", "from_residual", "size_hint", "capacity", "eq", "ne", "is_some", "is_none", "fmt",
                        "drop", "drop_in_place", "for_each", "try_for_each", "all", "any", "fold", "find", "find_map", "position", "must_use", "unlikely"}


CUR = []
SIZE = []
CONV = set()
FIRST = {"first", "last", "get", "first_mut", "last_mut", "get_mut", "pop"}
# operations that split their input into several results, and how many of the components carry content
MADE = {"into_soft_lits": 2, "into_cnf": 1, "decompose": 2, "into_unweighted_soft_lits": 2, "change_var_manager": 1}
CUT = {"truncate", "retain", "retain_mut", "dedup", "dedup_by_key", "swap_remove", "remove", "split_off"}
CLEAR = {"clear", "drain", "truncate", "take"}


def keyof(v):
    """name of the part of an argument a value denotes: self.cards, self.cards[*], self.cards[*].0 …"""
    t = v.t
    if t == "ARG":
        return str(v.a[0])
    if t in ("DEREF", "M", "VIEW"):
        return keyof(v.a[0])
    if t == "FLD":
        b = keyof(v.a[0])
        return b and b + "." + str(v.a[1][2])
    if t == "IDX":
        b = keyof(v.a[0])
        return b and b + "[*]"
    if t == "REF":
        b = keyof(v.a[0])
        if b is None and v.a[0].t == "L" and CUR:
            x = CUR[0].store.get(v.a[0])
            while x is not None and x.t == "OBJ":
                x = x.a[0]
            b = x is not None and keyof(x)
        if not b:
            return None
        for k in v.a[1]:
            b += "[*]" if k[0] == "[]" else "." + str(k[2])
        return b
    if t == "ITER":
        n = v.a[1] if len(v.a) > 1 else "into_iter"
        return keyof(v.a[0]) if n in VIEWS else None
    if t == "CALL":
        if v.a[1] == "elem":
            b = keyof(v.a[2])
            return b and b + "[*]"
        n = last(v.a[1] or "")
        if n in VIEWS and len(v.a) > 2:
            b = keyof(v.a[2])
            return b and b + ("[*]" if n.startswith("index") else "")
        if n in FIRST and len(v.a) > 2:
            b = keyof(v.a[2])
            return b and b + "[*]"
        if n in MADE:
            return "=" + n
        if n in CONV:
            ks = set()
            for x in flat(v.a[2:]):
                touched(x, ks)
            ks = {x for k in ks for x in k.lstrip("~").split("|")}
            return "~" + "|".join(sorted(ks)) if ks else None
    if t == "HAV":
        return v.a[3] if len(v.a) > 3 else None
    return None


def touched(v, out=None, d=0):
    """keys of all parts of arguments a value is made from"""
    if out is None:
        out = set()
    if v.t in ("PURE", "LEN") and peek(str(v.a[0])) and not SIZE or v.t == "CALL" and v.a[1] and peek(last(v.a[1])) and last(v.a[1]) not in FIRST and not SIZE:
        return out
    k = keyof(v)
    if k:
        out.add(k)
        return out
    if d > 12:
        return out
    for x in flat(v.a):
        touched(x, out, d + 1)
    return out


def flat(a):
    for x in a:
        if hasattr(x, "t"):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


class Cov(Client):
    """which parts of the arguments are iterated to the end, which are passed on"""
    drive = True
    max_states = 8000
    max_depth = 7

    def __init__(self, F, fn, roots=None, also=None, opaque=()):
        self.F, self.fn = F, fn
        self.exits = []
        self.also = also
        self.opaque = opaque
        self.calls = {}

    # ---- events: a set, kept as a sorted tuple
    def add(self, st, *evs):
        new = set(st.obs)
        for e in evs:
            new.add(e)
        if len(new) != len(st.obs):
            st.obs = tuple(sorted(new))

    def rem(self, st, *evs):
        new = tuple(e for e in st.obs if e not in evs)
        if len(new) != len(st.obs):
            st.obs = new

    def inline(self, eng, key, fn, call, st):
        if fn["crate"] != "rustsat.lib":
            return False
        if fn["k"] == "closure":
            return True
        if self.also and self.also(fn):
            return True
        if any(x(fn) for x in self.opaque):
            return False
        for i in range(1, fn["nargs"] + 1):
            t = fn["tys"][fn["locals"][i]]
            while t["k"] in ("ref", "ptr"):
                t = fn["tys"][t["a"][0]]
            if (t.get("d") or "").endswith(INSTS):
                return True
        return False

    def hav_val(self, eng, st, old, c, i):
        CUR[:] = [st]
        k = None if c.name in CLEAR else keyof(old)
        # told apart by what they came from only
        return mk("HAV", ("mod",), 0, "drain" if c.name in CLEAR else "mod", k)

    def val(self, eng, st, v):
        return eng.strip(st, v)

    def use(self, st, keys, what):
        for k in keys:
            if "[*]" in k:
                # an element, or a part of one
                parts = k.split("[*]")
                for i in range(1, len(parts)):
                    kk = "[*]".join(parts[:i]) + "[*]"
                    self.rem(st, ("open", kk))
                    self.add(st, ("use", kk, what))
            else:
                self.add(st, ("pass", k, what))

    def on_call(self, eng, st, c):
        CUR[:] = [st]
        n = c.name
        if n in QUIET:
            return None
        if c.key in self.F.fns and self.inline(eng, c.key, self.F.fns[c.key], c, st):
            return None
        ks = set()
        for a in c.args:
            touched(a, ks)
            if a.t == "REF":
                touched(eng.strip(st, a), ks)
        self.use(st, ks, n)
        return self.special(eng, st, c)

    def special(self, eng, st, c):
        return None

    def on_fnval(self, eng, st, f, args):
        CUR[:] = [st]
        ks = set()
        for a in args:
            touched(a, ks)
            if a.t == "REF":
                touched(eng.strip(st, a), ks)
        self.use(st, ks, last(str(f.a[1] if f.t == "FN" else f.a[0])))

    def on_consume(self, eng, st, c, i, e):
        CUR[:] = [st]
        ks = touched(e)
        if e.t == "REF":
            touched(eng.strip(st, e), ks)
        self.use(st, ks, c.name)

    def on_write(self, eng, st, root, path, val, where):
        CUR[:] = [st]
        if root.t != "M":
            return
        k = keyof(mk("REF", root, tuple(path)))
        if k and "[*]" in k:
            self.use(st, {k}, "write")
        ks = touched(val)
        self.use(st, {x for x in ks if "[*]" in x}, "write")

    def on_iter(self, eng, st, it, kind, call):
        CUR[:] = [st]
        k = keyof(it)
        if k is None and kind == "end":
            k = ranged(eng, st, it)
            if k:
                self.add(st, ("end", k))
            return
        if k is None:
            return
        # what was written through the elements so far has been recorded
        for root in [x for x in st.store if x.t == "M" and any(y.t == "CALL" and y.a[1] == "elem" and y.a[2] is it for y in subterms(x))]:
            del st.store[root]
        for x in [x for x in st.facts if any(y.t == "CALL" and y.a[1] == "elem" and y.a[2] is it for y in subterms(x))]:
            del st.facts[x]
        if kind == "elem":
            if ("open", k + "[*]") in st.obs:
                self.add(st, ("skip", k))
            self.add(st, ("open", k + "[*]"))
        else:
            if ("open", k + "[*]") in st.obs:
                self.rem(st, ("open", k + "[*]"))
                self.add(st, ("skip", k))
            self.add(st, ("end", k))
            if "[*]" in k:
                self.use(st, {k}, "iter")

    def on_lossy(self, eng, st, it, n, c):
        CUR[:] = [st]
        ks = touched(it)
        for k in ks:
            self.add(st, ("lossy", k, n))

    def on_short(self, eng, st, its, c):
        # side by side, only the shorter one is known to be gone through
        CUR[:] = [st]
        ks = {keyof(x) for x in its} - {None}
        ks = {k for k in ks if k[0] not in "=~"}
        if len(ks) > 1:
            for k in ks:
                self.add(st, ("lossy", k, "zip"))

    def on_filtered(self, eng, st, e, c):
        CUR[:] = [st]
        for k in touched(e):
            if "[*]" in k:
                self.add(st, ("filtered", k))

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            s = st.copy()
            CUR[:] = [s]
            ks = set()
            deep(eng, s, ret, ks)
            for k in counted(s):
                self.add(s, ("end", k))
            self.use(s, ks, "return")
            self.exits.append((ret, s))


def lenkey(v):
    """the part a value is the length of"""
    if v.t in ("PURE", "LEN") and v.a[0] == "len" and v.a[1]:
        k = keyof(v.a[1][0])
        return k and k.rstrip("*")
    return None


def ranged(eng, st, it):
    """the part all of whose indices an iterator runs over"""
    it = eng.strip(st, it)
    while it.t == "ITER" and (len(it.a) < 2 or it.a[1] in VIEWS):
        it = eng.strip(st, it.a[0])
    if it.t == "ADT" and it.a[0].endswith("::Range") and it.a[3][0] is mk("INT", 0):
        return lenkey(it.a[3][1])
    return None


def counted(st):
    """parts whose length a counter has reached"""
    out = set()
    seen = {}
    for f, x in st.facts.items():
        if f.t == "BIN" and f.a[0] == "Lt" and x[0] == "=" and lenkey(f.a[2]):
            k = lenkey(f.a[2])
            if x[1] == 0 and any(y.t == "WIDE" for y in subterms(f.a[1])):
                out.add(k)
            elif f.a[1].t == "INT":
                seen.setdefault(k, {})[f.a[1].a[0]] = x[1]
    for k, m in seen.items():
        n = min((i for i, v in m.items() if v == 0), default=None)
        if n is not None and all(m.get(i) == 1 for i in range(n)) and (n == 0 or any(e[0] == "use" and e[1].startswith(k + "[*]") for e in st.obs)):
            out.add(k)
    return out


def deep(eng, st, v, ks, d=0):
    if d > 6:
        return
    if v.t == "REF":
        v2 = eng.strip(st, v)
        k = keyof(v)
        if k:
            ks.add(k)
        if v2 is not v:
            deep(eng, st, v2, ks, d + 1)
        return
    k = keyof(v)
    if k:
        ks.add(k)
        return
    if v.t == "OBJ":
        b = keyof(v.a[0])
        for kk, vv in v.a[1]:
            deep(eng, st, vv, ks, d + 1)
            if b and vv.t == "HAV" and len(kk) > 2 and last(vv.a[2] or "") not in ("clear", "drain", "truncate", "take"):
                # modified in place
                ks.add(b + "." + str(kk[2]))
        if b:
            # the parts that were not replaced
            ks.add(b + "!" + ",".join(sorted(str(kk[2]) for kk, vv in v.a[1] if len(kk) > 2)))
        return
    for x in flat(v.a):
        deep(eng, st, x, ks, d + 1)


def run(F, r, fn, cls=Cov, **kw):
    t = cls(F, fn, **kw)
    e = Engine(F, t)
    t.eng = e
    try:
        e.run(fn["key"], ())
    except Budget as b:
        if r:
            r.undec(f"{fn['p']}: too many states ({b})")
        t.budget = str(b)
        return None
    if r:
        r.analysed |= e.analysed
    return t


# ------------------------------------------------------------------------------------ I01
SAT = ("cnf", "cards", "pbs")
OPT = ("constrs", "obj")
MO = ("constrs", "objs")
OBJ = ("0.soft_lits", "0.soft_clauses", "0.offset")
SOFT = ("0.soft_lits", "0.soft_clauses")
# (type, name, [(parameter index, parts)], mode, options); pub functions must exist
TABLE = [
    ("sat::Instance", "extend", [(1, SAT)], "all", {"keep": (0, SAT)}),
    ("sat::Instance", "change_var_manager", [(0, SAT)], "all", {}),
    ("sat::Instance", "into_cnf", [(0, SAT)], "all", {}),
    ("sat::Instance", "convert_to_cnf", [(0, ("cards", "pbs"))], "all", {}),
    ("sat::Instance", "into_cnf_with_encoders", [(0, SAT)], "all", {}),
    ("sat::Instance", "convert_to_cnf_with_encoders", [(0, ("cards", "pbs"))], "all", {}),
    ("sat::Instance", "into_pbs", [(0, SAT)], "all", {}),
    ("sat::Instance", "reindex", [(0, SAT)], "lits", {"via": ("reindex", "reindex_lit")}),
    ("sat::Instance", "extend_var_set", [(0, SAT)], "lits", {"opt": True}),
    ("sat::Instance", "var_set", [(0, SAT)], "lits", {}),
    ("sat::Instance", "reindex_ordered", [(0, SAT)], "all", {"via": ("reindex", "reindex_lit")}),
    ("sat::Instance", "shuffle", [(0, SAT)], "all", {}),
    ("sat::Instance", "write_dimacs", [(0, SAT)], "all", {"empty": True}),
    ("sat::Instance", "write_dimacs_path", [(0, SAT)], "all", {"empty": True}),
    ("sat::Instance", "write_opb", [(0, SAT)], "all", {}),
    ("sat::Instance", "write_opb_path", [(0, SAT)], "all", {}),
    ("sat::Instance", "sanitize", [(0, SAT)], "sanitize", {}),
    ("sat::Instance", "evaluate", [(0, SAT)], "verdict", {}),
    ("sat::Instance", "unsat_constraint", [(0, SAT)], "verdict", {}),
    ("sat::Instance", "n_constraints", [(0, SAT)], "size", {}),
    ("sat::Cnf", "join", [(0, ("clauses",)), (1, ("clauses",))], "all", {}),
    ("sat::Cnf", "evaluate", [(0, ("clauses",))], "verdict", {}),
    ("sat::Cnf", "shuffle", [(0, ("clauses",))], "all", {}),
    ("sat::Cnf", "write_dimacs", [(0, ("clauses",))], "all", {}),
    ("sat::Cnf", "write_dimacs_path", [(0, ("clauses",))], "all", {}),
    ("opt::Instance", "change_var_manager", [(0, OPT)], "all", {}),
    ("opt::Instance", "compose", [(0, ("",)), (1, ("",))], "all", {}),
    ("opt::Instance", "decompose", [(0, OPT)], "all", {}),
    ("opt::Instance", "into_hard_cls_soft_cls", [(0, OPT)], "all", {}),
    ("opt::Instance", "into_hard_cls_soft_lits", [(0, OPT)], "all", {}),
    ("opt::Instance", "reindex", [(0, OPT)], "all", {"via": ("reindex",)}),
    ("opt::Instance", "extend_var_set", [(0, OPT)], "all", {"opt": True}),
    ("opt::Instance", "var_set", [(0, OPT)], "all", {}),
    ("opt::Instance", "reindex_ordered", [(0, OPT)], "all", {"via": ("reindex",)}),
    ("opt::Instance", "shuffle", [(0, OPT)], "all", {}),
    ("opt::Instance", "write_dimacs", [(0, ("constrs.cnf", "constrs.cards", "constrs.pbs", "obj"))], "all", {"empty": True}),
    ("opt::Instance", "write_dimacs_path", [(0, ("constrs.cnf", "constrs.cards", "constrs.pbs", "obj"))], "all", {"empty": True}),
    ("opt::Instance", "write_opb", [(0, OPT)], "all", {}),
    ("opt::Instance", "write_opb_path", [(0, OPT)], "all", {}),
    ("opt::Instance", "cost", [(0, OPT)], "cost", {}),
    ("opt::Instance", "solve_maxsat", [(0, OPT)], "all", {}),
    ("multiopt::MultiOptInstance", "change_var_manager", [(0, MO)], "all", {}),
    ("multiopt::MultiOptInstance", "compose", [(0, ("",)), (1, ("",))], "all", {}),
    ("multiopt::MultiOptInstance", "decompose", [(0, MO)], "all", {}),
    ("multiopt::MultiOptInstance", "into_hard_cls_soft_cls", [(0, MO)], "all", {}),
    ("multiopt::MultiOptInstance", "into_hard_cls_soft_lits", [(0, MO)], "all", {}),
    ("multiopt::MultiOptInstance", "reindex", [(0, MO)], "all", {"via": ("reindex",)}),
    ("multiopt::MultiOptInstance", "extend_var_set", [(0, MO)], "all", {"opt": True}),
    ("multiopt::MultiOptInstance", "var_set", [(0, MO)], "all", {}),
    ("multiopt::MultiOptInstance", "reindex_ordered", [(0, MO)], "all", {"via": ("reindex",)}),
    ("multiopt::MultiOptInstance", "shuffle", [(0, MO)], "all", {}),
    ("multiopt::MultiOptInstance", "write_dimacs", [(0, ("constrs.cnf", "constrs.cards", "constrs.pbs", "objs"))], "all", {"empty": True}),
    ("multiopt::MultiOptInstance", "write_dimacs_path", [(0, ("constrs.cnf", "constrs.cards", "constrs.pbs", "objs"))], "all", {"empty": True}),
    ("multiopt::MultiOptInstance", "write_opb", [(0, MO)], "all", {}),
    ("multiopt::MultiOptInstance", "write_opb_path", [(0, MO)], "all", {}),
    ("multiopt::MultiOptInstance", "cost", [(0, MO)], "cost", {}),
    ("opt::Objective", "into_soft_cls", [(0, OBJ)], "all", {}),
    ("opt::Objective", "into_unweighted_soft_cls", [(0, OBJ)], "all", {}),
    ("opt::Objective", "convert_to_soft_lits", [(0, ("0.soft_clauses",))], "all", {"keep": (0, ("0.soft_lits",))}),
    ("opt::Objective", "into_soft_lits", [(0, OBJ)], "all", {}),
    ("opt::Objective", "into_unweighted_soft_lits", [(0, OBJ)], "all", {}),
    ("opt::Objective", "weighted_2_unweighted", [(0, OBJ)], "all", {"opt": True, "mut": True}),
    ("opt::Objective", "unweighted_2_weighted", [(0, OBJ)], "all", {"opt": True, "mut": True}),
    ("opt::Objective", "max_var", [(0, SOFT)], "lits", {}),
    ("opt::Objective", "reindex", [(0, OBJ)], "lits", {"via": ("reindex", "reindex_lit")}),
    ("opt::Objective", "var_set", [(0, SOFT)], "lits", {"opt": True}),
    ("opt::Objective", "shuffle", [(0, OBJ)], "all", {}),
    ("opt::Objective", "evaluate", [(0, OBJ)], "all", {}),
    ("opt::Objective", "evaluate_no_offset", [(0, SOFT)], "all", {}),
    ("opt::Objective", "iter_soft_cls", [(0, SOFT)], "all", {}),
    ("opt::Objective", "iter_soft_lits", [(0, SOFT)], "all", {"empty": True}),
    ("opt::Objective", "weight_sum", [(0, SOFT)], "size", {}),
    ("opt::Objective", "n_softs", [(0, SOFT)], "size", {}),
    ("fio::opb", "write_sat", [(1, SAT)], "all", {}),
    ("fio::opb", "write_opt", [(1, SAT), (2, ("0",))], "all", {}),
    ("fio::opb", "write_multi_opt", [(1, SAT), (2, ("",))], "all", {}),
    ("fio::dimacs", "write_cnf_annotated", [(1, ("clauses",))], "all", {}),
    ("fio::dimacs", "write_wcnf_annotated", [(1, ("clauses",)), (2, ("0",))], "all", {}),
    ("fio::dimacs", "write_mcnf_annotated", [(1, ("clauses",)), (2, ("",))], "all", {}),
]
PEEK = FIRST | {"contains", "contains_key", "starts_with", "is_empty", "len", "max_var", "capacity", "clone_from", "lock", "n_vars", "n_used", "n_lits", "n_clauses", "n_softs", "n_cards", "n_pbs",
        "n_constraints", "n_objectives", "constant", "weighted", "size_hint", "count", "n_occurring_vars"}
MUT = {"push", "extend", "append", "insert", "reserve", "reserve_exact", "try_reserve", "try_reserve_exact", "clear", "truncate", "shrink_to_fit",
       "extend_from_slice", "entry", "remove", "pop", "retain", "with_capacity", "clone_from", "sort", "sort_unstable", "dedup"}


def peek(n):
    return n in PEEK or n.startswith(("is_", "n_"))


def locate(F, typ, name):
    rx = re.compile(r"(^|::)instances::" + re.escape(typ) + r"(::<[^>]*>)?::" + re.escape(name) + "$")
    r = [f for f in F.fns.values() if f["crate"] == "rustsat.lib" and f["k"] != "closure" and rx.search(f["p"])]
    return r[0] if r else None


class Inst(Cov):
    """coverage of the parts named in the table, with the other operations of the table as opaque steps"""
    max_states = 20000

    def __init__(self, F, fn, roots=(), mode="all", ops=frozenset()):
        super().__init__(F, fn)
        self.roots, self.mode, self.ops = roots, mode, ops

    def inline(self, eng, key, fn, call, st):
        if fn["key"] in self.ops or self.mode == "sanitize" and fn["name"].startswith("add_"):
            return False
        if fn.get("derived") or fn["name"] in ("eq", "ne"):
            s = fn["tys"][fn["self"]] if "self" in fn else {}
            if (s.get("d") or "").endswith("TernaryVal"):
                return True
        return super().inline(eng, key, fn, call, st)

    def on_call(self, eng, st, c):
        CUR[:] = [st]
        n = c.name
        if n in QUIET or n in ("iter_soft_cls", "iter_soft_lits"):
            return None
        if c.key in self.F.fns and c.key not in self.ops and self.inline(eng, c.key, self.F.fns[c.key], c, st):
            return None
        if self.mode == "sanitize" and n in ("is_tautology", "is_unsat") and c.args:
            ks = {k for k in touched(eng.strip(st, c.args[0])) | touched(c.args[0]) if "[*]" in k}
            if ks:
                s1, s2 = st.copy(), st.copy()
                self.use(s1, ks, n)
                if n == "is_unsat":
                    self.add(s1, ("unsat",))
                return [(mk("INT", 1), s1), (mk("INT", 0), s2)]
        if c.key in self.ops and n in MADE and c.args:
            self.roots.add("=" + n)
            self.add(st, ("made", "=" + n))
        if n in CUT and self.mode == "all" and c.key not in self.F.fns and c.args:
            for k in touched(eng.strip(st, c.args[0])):
                self.add(st, ("lossy", k, n))
        if not (peek(n) or self.mode == "sanitize" and n.startswith(("into_", "from", "try_into"))) or self.mode == "size":
            ks = set()
            for i, a in enumerate(c.args):
                if i == 0 and n in MUT and c.key not in self.F.fns:
                    continue
                touched(a, ks)
                if a.t == "REF":
                    touched(eng.strip(st, a), ks)
            self.use(st, ks, n)
        if self.mode in ("verdict", "cost") and n in ("evaluate", "lit_value", "var_value") and c.dty.get("d", "").endswith("TernaryVal"):
            a = self.F.adts.get(c.dty["d"])
            out = []
            for i, v in enumerate(a["vs"]):
                s = st.copy()
                self.add(s, ("val", v[0]))
                out.append((mk("ADT", c.dty["d"], i, v[0], ()), s))
            return out
        if n in ("max_var",) and c.dty.get("d") == "core::option::Option":
            return [(eng.cap(mk("PURE", "max_var", tuple(eng.strip(st, a) for a in c.args))), st)]
        return None

    def use(self, st, keys, what):
        super().use(st, keys, what if what in ("reindex", "reindex_lit") else "x")

    def add(self, st, *evs):
        super().add(st, *[e for e in evs if len(e) < 2 or e[0] == "val" or e[1].split(".")[0].split("[")[0].split("!")[0] in self.roots])

    def on_iter(self, eng, st, it, kind, call):
        super().on_iter(eng, st, it, kind, call)
        if self.mode == "sanitize" and kind == "end" and keyof(it) is None:
            # the content of an element was iterated over
            self.use(st, {k for k in touched(it) if "[*]" in k}, "x")

    def on_filtered(self, eng, st, e, c):
        CUR[:] = [st]
        for k in touched(e):
            for i in range(1, k.count("[*]") + 1):
                kk = "[*]".join(k.split("[*]")[:i]) + "[*]"
                if ("open", kk) in st.obs:
                    self.add(st, ("filtered", kk))


def judge(obs, K, strict=True):
    """None if part K is covered on this path, else why not"""
    for e in obs:
        if not strict and e[0] == "skip" and passed(obs, K):
            continue
        if e[0] in ("skip", "lossy") and (e[1] == K or K.startswith(e[1] + ".") or e[1].startswith((K + ".", K + "[*]"))):
            return "an element may be left out" if e[0] == "skip" else f"elements are dropped by `{e[2]}`"
        if e[0] == "filtered" and (e[1] == K + "[*]" or e[1].startswith((K + ".", K + "[*]"))):
            return "elements are filtered out"
    if passed(obs, K):
        return None
    for e in obs:
        if e[0] == "end":
            k = e[1]
            if k == K or K.startswith(k + ".") or k.startswith((K + ".", K + "[*]")):
                return None
    return "it is neither passed on, iterated over nor part of the result"


def nounit(st):
    """an objective without unit weight has no soft literals and no soft clauses"""
    return any(f.t == "DISCR" and (x == ("=", 0) or x[0] == "!" and 1 in x[1]) and show(f.a[0]).endswith("unit_weight") for f, x in st.facts.items())


def passed(obs, K):
    for e in obs:
        if e[0] == "pass":
            k = e[1]
            if "!" in k:
                b, rest = k.split("!", 1)
                out = rest.split(",")
                if K.startswith(b + "."):
                    nxt = K[len(b) + 1:].split(".")[0].split("[")[0]
                    if nxt not in out:
                        return True
                continue
            if k == K or K.startswith(k + ".") or k.startswith((K + ".", K + "[*]")):
                return True
    return False


def emptied(st, K):
    """the path has found the part empty"""
    def isk(v):
        return keyof(v) == K or any(keyof(x) == K or (keyof(x) or "").startswith(K + ".") for x in flat(v.a))
    CUR[:] = [st]
    for f, x in st.facts.items():
        if x[0] != "=":
            continue
        b = f
        if b.t == "PURE" and b.a[0] == "is_empty" and x[1] == 1 and isk(mk("T", *b.a[1])):
            return True
        if b.t in ("PURE", "LEN") and b.a[0] == "len" and x[1] == 0 and isk(mk("T", *b.a[1])):
            return True
        if b.t == "BIN" and b.a[0] == "Lt" and b.a[1].t == "INT" and b.a[1].a[0] == 0 and x[1] == 0 and b.a[2].t == "PURE" and isk(mk("T", *b.a[2].a[1])):
            return True
        if b.t == "BIN" and b.a[0] == "Le" and b.a[1].t == "INT" and b.a[1].a[0] == 1 and x[1] == 0 and b.a[2].t == "PURE" and isk(mk("T", *b.a[2].a[1])):
            return True
        if b.t == "BIN" and b.a[0] == "Eq" and b.a[2].t == "INT" and b.a[2].a[0] == 0 and x[1] == 1 and b.a[1].t == "PURE" and isk(mk("T", *b.a[1].a[1])):
            return True
    return False


def where(fn):
    return f"{fn['sp'][0]}:{fn['sp'][1]}"


def isbad(ret):
    return ret.t == "ADT" and ret.a[2] == "Err"


def i01(F, r):
    r.rules = ["every operation of the table (whole-instance operations of SAT, optimisation and multi-objective instances, CNFs and objectives, and the writers) "
               "hands each of its parts on, iterates over it to the end using every element, or returns it, on every path that succeeds; nothing is filtered, "
               "skipped or cut off; DIMACS writing succeeds only where cardinality and pseudo-Boolean constraints were found to be none",
               "reindexing and variable collection reach the literals inside every element; evaluation returns false or 'not satisfied' only when some constraint "
               "said so, and true only after all constraints of all kinds were evaluated to true",
               "sanitising drops a constraint only after it was found tautological or after its content was added elsewhere, or when some constraint is unsatisfiable"]
    ops = set()
    for typ, name, parts, mode, o in TABLE:
        f = locate(F, typ, name)
        if f and not (typ.startswith("fio") and f["name"] == "write_cnf"):
            ops.add(f["key"])
    for typ, name, parts, mode, o in TABLE:
        f = locate(F, typ, name)
        if f is None:
            if not o.get("opt"):
                r.bad(f"coverage:{typ}::{name}", f"{typ}::{name} not found")
            continue
        one(F, r, f, typ, name, parts, mode, o, ops)
    for tn in ("ObjSoftLitIter", "ObjSoftClauseIter"):
        soft_iter(F, r, tn)
    r.floor("op", 60, "operations on instances")
    return {"level": "other", "explanation":
            "Path-sensitive abstract interpretation of the MIR of every operation in the table: values are tracked by provenance from the parts of the "
            "arguments, iterator chains are driven element by element, and on every succeeding exit each part must have been consumed completely."}


def one(F, r, f, typ, name, parts, mode, o, ops):
    names = [a.a[0] for a in Engine(F, Client()).default_args(f)]
    roots = {names[i] for i, _ in parts}
    if o.get("keep"):
        roots.add(names[o["keep"][0]])
    SIZE[:] = [1] if mode == "size" else []
    t = run(F, r, f, Inst, roots=roots, mode=mode, ops=ops - {f["key"]})
    SIZE[:] = []
    if t is None:
        return
    key = f"{typ}::{name}"
    ok = True
    nex = 0
    for ret, st in t.exits:
        if isbad(ret):
            continue
        nex += 1
        obs = st.obs
        if mode in ("verdict", "cost"):
            why = verdict(ret, obs, names, parts, mode)
            if why:
                ok = False
                r.bad(f"{key}:{why[0]}", f"{f['p']}: {why[1]}", where(f))
            continue
        if o.get("mut"):
            # what is left behind the reference
            v = st.store.get(mk("M", mk("ARG", names[0])))
            if v is None:
                continue
            s2 = st.copy()
            CUR[:] = [s2]
            ks = set()
            deep(t.eng, s2, v, ks)
            t.use(s2, ks, "kept")
            obs = s2.obs
        if mode == "sanitize" and ("unsat",) in obs:
            # one constraint is unsatisfiable: the whole is replaced
            continue
        for k in [e[1] for e in obs if e[0] == "made"]:
            for j in range(MADE[k[1:]]):
                if judge(obs, f"{k}.{j}", False):
                    ok = False
                    r.bad(f"{key}:{k[1:]}.{j}", f"{f['p']} drops component {j} of what `{k[1:]}` produces", where(f))
        for i, ps in parts:
            for p in ps:
                K = names[i] + ("." + p if p else "")
                if o.get("empty") and emptied(st, K):
                    continue
                if "soft" in p and nounit(st):
                    continue
                why = judge(obs, K, mode != "all" or bool(o.get("via")))
                if not why and mode == "lits" and not p.endswith("offset"):
                    why = inner(obs, K, o.get("via"))
                if not why and o.get("via") and not p.endswith("offset") and mode == "all":
                    if not any(e[0] in ("pass", "use") and e[2] in o["via"] and (K == e[1] or K.startswith(e[1] + ".") or e[1].startswith((K + ".", K + "[*]")))
                               for e in obs) and not any(e == ("end", K) for e in obs):
                        why = "it is not " + "/".join(o["via"]) + "ed"
                    elif any(e == ("end", K) for e in obs) and any(e[0] == "use" and e[1] == K + "[*]" for e in obs) and not any(
                            e[0] == "use" and e[1].startswith(K + "[*]") and e[2] in o["via"] for e in obs):
                        why = "its elements are not " + "/".join(o["via"]) + "ed"
                if why:
                    ok = False
                    r.bad(f"{key}:{p or names[i]}", f"{f['p']} does not cover {K}: {why}", where(f))
        if name.startswith("reindex") and typ.endswith("Instance"):
            ks = set()
            s2 = st.copy()
            CUR[:] = [s2]
            if ret.t != "CALL":
                deep(t.eng, s2, ret, ks)
                got = tuple(("pass", k, "return") for k in ks)
                for i, ps in parts:
                    for p in ps:
                        if not passed(got, names[i] + "." + p) and not ismade(t.eng, s2, ret, p):
                            ok = False
                            r.bad(f"{key}:result:{p}", f"{f['p']}: {names[i]}.{p} is not part of the result", where(f))
        if o.get("keep"):
            i, ps = o["keep"]
            v = st.store.get(mk("M", mk("ARG", names[i])))
            for p in ps:
                if lost(t.eng, st, names[i], p):
                    ok = False
                    r.bad(f"{key}:keeps:{p}", f"{f['p']} replaces {names[i]}.{p} instead of extending it", where(f))
    if ok and nex:
        r.ok("op", f"{f['p']}: {nex} exits, parts {', '.join(p or names[i] for i, ps in parts for p in ps)}")
    if not nex:
        r.undec(f"{f['p']}: no succeeding exit")


def ismade(eng, st, ret, p):
    """the part of the result is something other than a fresh empty collection"""
    if ret.t != "ADT" or len(ret.a) < 4:
        return True
    a = eng.F.adts.get(ret.a[0])
    if a is None:
        return True
    for (n, *_), v in zip(a["vs"][ret.a[1]][2], ret.a[3]):
        if n == p:
            v = eng.strip(st, v)
            return not (v.t in ("CALL", "PURE") and last(str(v.a[1] if v.t == "CALL" else v.a[0])) in ("new", "default", "with_capacity", "from_elem", "box_assume_init_into_vec_unsafe")
                        or v.t in ("VEC", "CONST"))
    return True


def lost(eng, st, name, p):
    root = mk("M", mk("ARG", name))
    v = st.store.get(root)
    if v is None:
        return False
    for comp in p.split("."):
        if v.t == "OBJ":
            nx = None
            for kk, vv in v.a[1]:
                if str(kk[2]) == comp:
                    nx = vv
            v = nx if nx is not None else mk("FLD", v.a[0], (None, 0, comp))
        else:
            return False
    if v.t == "HAV":
        return last(v.a[2]) in ("clear", "drain", "truncate", "take")
    if v.t in ("OBJ", "UPD", "DEREF", "FLD"):
        return False
    CUR[:] = [st]
    return not any((keyof(x) or "").startswith(name + "." + p) for x in subterms(v))


def inner(obs, K, via):
    used = [e for e in obs if e[0] == "use" and e[1].startswith(K + "[*]")]
    if not used:
        return None
    deep_ = [e for e in used if e[1].count("[*]") > K.count("[*]") + 1]
    ends = [e for e in obs if e[0] == "end" and e[1].startswith(K + "[*]")]
    if K.endswith("soft_lits"):
        deep_ = used
        ends = [1]
    if not ends:
        return "the literals inside its elements are not reached"
    if via and deep_ and not any(e[2] in via for e in deep_):
        return "the literals inside its elements are not " + "/".join(via)
    return None


def verdict(ret, obs, names, parts, mode):
    vals = {e[1] for e in obs if e[0] == "val"}
    res = ret.a[2] if ret.t == "ADT" else None
    K = [names[i] + "." + p for i, ps in parts for p in ps]
    unc = [k for k in K if judge(obs, k)]
    if mode == "cost":
        con = [k for k in K if "constr" in k]
        if any(judge(obs, k) for k in con):
            return ("constrs", "a cost is reported without evaluating the constraints")
        if res == "Some":
            if vals != {"True"}:
                return ("infeasible", "a cost is reported for an assignment that does not satisfy the constraints")
            if unc:
                return (unc[0].split(".", 1)[1], f"the cost does not cover {unc[0]}: {judge(obs, unc[0])}")
        elif res == "None" and vals == {"True"}:
            return ("none", "no cost is reported although the constraints are satisfied")
        return None
    if res in ("Some", "None"):
        # a violated constraint is returned, or all are satisfied
        if res == "Some" and not vals - {"True"}:
            return ("some", "a constraint is reported as not satisfied that evaluates to true")
        if res == "None" and vals - {"True"}:
            return ("none", "all constraints are reported satisfied although one does not evaluate to true")
        if res == "None" and unc:
            return (unc[0].split(".", 1)[1], f"{unc[0]} is not covered: {judge(obs, unc[0])}")
        return None
    if res is None:
        if len(vals) == 1 and not unc and False:
            return None
        return None
    if res == "False":
        return None if "False" in vals else ("false", "the result is false although no constraint is")
    if "False" in vals:
        return ("notfalse", f"the result is {res} although a constraint is false")
    if unc:
        return (unc[0].split(".", 1)[1], f"{unc[0]} is not covered: {judge(obs, unc[0])}")
    if res == "True" and "DontCare" in vals:
        return ("dontcare", "the result is true although a constraint is undetermined")
    if res == "DontCare" and "DontCare" not in vals:
        return ("true", "the result is undetermined although all constraints are true")
    return None


def soft_iter(F, r, tn):
    fs = [f for f in F.fns.values() if f["crate"] == "rustsat.lib" and f["name"] == "next" and tn in f["p"] and f["k"] != "closure"]
    if not fs:
        return
    f = fs[0]
    adt = next((a for a in F.adts.values() if a["key"].endswith(tn)), None)
    t = run(F, r, f, SoftIt)
    if t is None or adt is None:
        return
    for ret, st in t.exits:
        if not (ret.t == "ADT" and ret.a[2] in ("Some", "None")):
            continue
        var = [d for d in (adt["vs"]) if any(x[0] == "=" and x[1] == d[1] and f_.t == "DISCR" for f_, x in st.facts.items())]
        if ret.a[2] != "None":
            continue
        ended = {e[1] for e in st.obs if e[0] == "end"}
        for v in var:
            n = sum(1 for x in v[2] if "Iter" in adt["tys"][x[1]]["s"])
            if len(ended) < n:
                r.bad(f"{tn}:end", f"{f['p']} ends although only {len(ended)} of its {n} inner iterators are exhausted", where(f))
            else:
                r.ok("iterator", f"{f['p']} {v[0]}")


class SoftIt(Cov):
    def inline(self, eng, key, fn, call, st):
        return fn["crate"] == "rustsat.lib"


CHECKS = {"I01": i01}
TECH = {
    "I01": ("path-sensitive abstract interpretation of the MIR: provenance of the parts of each instance and typed element-wise iterator chains (which parts are passed on, "
            "iterated to the end, or part of the result, on every path)", "all paths of each operation; element values are not followed, so an operation that visits every element but "
            "computes something wrong from it is not covered."),
}
