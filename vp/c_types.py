"""T01: range of variables and literals."""
import re

from .mir import Client, Engine, Budget, mk, last, subterms, INT

MAX = (2**32 - 2) // 2
LIM = "rustsat::types::LimitedU32"
LIT = "rustsat::types::Lit"
VAR = "rustsat::types::Var"
UNCHECKED = {"new_unchecked": 0, "positive_unchecked": 0, "negative_unchecked": 0}


def where(f):
    return f"{f['sp'][0]}:{f['sp'][1]}"


def num(v):
    """look through integer conversions and one-field wrappers, not through the fields of a variable"""
    while True:
        if v.t == "CAST":
            w = [x for x in v.a if hasattr(x, "t")]
            if len(w) != 1:
                return v
            v = w[0]
        elif v.t == "ADT" and len(v.a[3]) == 1 and v.a[0] in (LIM, VAR, LIT):
            v = v.a[3][0]
        else:
            return v


def fld(v, n):
    return v.t == "FLD" and str(v.a[1][2]) == n


def valid(v):
    """certainly the index of an existing variable"""
    v = num(v)
    if v.t == "INT":
        return v.a[0] <= MAX
    if fld(v, "0") and (fld(v.a[0], "idx") or v.a[0].t in ("DEREF",) and False):
        return True
    if v.t == "BIN" and v.a[0] == "Shr" and v.a[2].t == "INT" and v.a[2].a[0] >= 1:
        return True
    if v.t in ("CALL", "PURE"):
        n = last(str(v.a[1] if v.t == "CALL" else v.a[0]) or "")
        return n in ("idx32", "vidx32", "idx", "vidx")
    return False


def bounds(facts, v):
    """(greatest value allowed, smallest value allowed) the facts state about exactly this term; const-generic bounds count as the maximum"""
    hi, lo = None, None
    v = num(v)
    for f, x in facts.items():
        val = x[1] if x[0] == "=" else (1 if 0 in x[1] else 0 if 1 in x[1] else None)
        if f.t == "NOT":
            f, val = f.a[0], (1 - val if val in (0, 1) else None)
        if f.t != "BIN" or f.a[0] not in ("Le", "Lt") or val not in (0, 1):
            continue
        a, b = num(f.a[1]), num(f.a[2])
        strict = f.a[0] == "Lt"
        if not val:
            a, b, strict = b, a, not strict
        # a <= b or a < b holds
        if a is v:
            c = const(b)
            if c is not None:
                c -= 1 if strict else 0
                hi = c if hi is None else min(hi, c)
        elif b is v:
            c = const(a)
            if c is not None:
                c += 1 if strict else 0
                lo = c if lo is None else max(lo, c)
    return hi, lo


def const(v):
    if v.t == "INT":
        return v.a[0]
    if v.t in ("CONST", "PARAM", "CPARAM") or v.t == "K":
        return MAX
    return None


def exact(facts, v):
    """no wrap-around is possible in the additions, subtractions and products of the term"""
    v = num(v)
    if v.t == "BIN" and v.a[0] in ("Add", "Sub", "Mul"):
        op, a, b = v.a
        if not (exact(facts, a) and exact(facts, b)):
            return False
        if op == "Add" and num(a).t == "BIN" and num(a).a[0] == "Shl" and (num(b).t == "INT" and num(b).a[0] <= 1 or boolean(num(b))):
            return True
        if op == "Mul" and num(a).t == "INT" and num(b).t == "INT":
            return True
        o = facts.get(mk("OVF", op, a, b))
        if o in (("=", 0),):
            return True
        if op == "Sub":
            f = facts.get(mk("BIN", "Lt", a, b))
            g = facts.get(mk("BIN", "Le", b, a))
            if f == ("=", 0) or g == ("=", 1):
                return True
            hi, lo = bounds(facts, a)
            if num(b).t == "INT" and lo is not None and lo >= num(b).a[0]:
                return True
            if num(b).t == "INT" and num(b).a[0] == 1 and any(
                    (num(x) is num(a) or num(a).t == "PURE" and num(a).a[0] == "unsigned_abs" and num(x) is num(num(a).a[1][0])) and (y[0] == "!" and 0 in y[1]) for x, y in facts.items()):
                return True
        if op == "Add" and valid(a) and (num(b).t == "INT" and num(b).a[0] <= MAX or valid(b)):
            return True
        return False
    return True


def boolean(v):
    return v.t in ("NOT",) or v.t == "BIN" and v.a[0] in ("Eq", "Lt", "Le") or v.t == "ARG" or v.t == "BIN" and v.a[0] == "BitAnd"


def inrange(facts, v):
    v = num(v)
    if valid(v):
        return True
    hi, _ = bounds(facts, v)
    if hi is not None and hi <= MAX and exact(facts, v):
        return True
    if v.t == "BIN" and v.a[0] == "Sub" and exact(facts, v):
        if inrange(facts, v.a[1]):
            return True
        a, b = num(v.a[1]), num(v.a[2])
        if a.t == "PURE" and a.a[0] == "unsigned_abs" and b.t == "INT" and b.a[0] >= 1:
            return True     # |i32| is at most 2^31
    if v.t == "BIN" and v.a[0] == "BitAnd" and any(num(x).t == "INT" and num(x).a[0] <= MAX for x in v.a[1:]):
        return True
    if v.t == "PURE" and v.a[0] == "min" and any(inrange(facts, x) for x in v.a[1]):
        return True
    return False


def good_lidx(facts, v):
    v = num(v)
    if v.t == "BIN" and v.a[0] in ("Add", "BitOr"):
        a, b = num(v.a[1]), num(v.a[2])
        for a, b in ((a, b), (b, a)):
            if a.t == "BIN" and a.a[0] == "Shl" and (boolean(b) or b.t == "INT" and b.a[0] <= 1):
                return inrange(facts, a.a[1])
    if v.t == "BIN" and v.a[0] == "Shl":
        return inrange(facts, v.a[1])
    if v.t == "BIN" and v.a[0] == "Mul":
        return False if not exact(facts, v) else all(inrange(facts, x) or num(x).t == "INT" for x in v.a[1:])
    return exact(facts, v)


class Range(Client):
    max_states = 3000
    release = True
    watch = {LIM, LIT}

    def __init__(self, F):
        self.F = F
        self.bad = []
        self.n = 0
        self.exits = []
        self.div = []

    def inline(self, eng, key, fn, call, st):
        if fn["sig"]["u"] if fn.get("sig") else False:
            return False
        return "types/" in fn["sp"][0] and fn["crate"] == "rustsat.lib" or fn["k"] == "closure" or not fn.get("pub")

    def on_agg(self, eng, st, key, ops, fn, bb):
        self.n += 1
        v = ops[0]
        ok = inrange(st.facts, v) if key == LIM else good_lidx(st.facts, v)
        if not ok:
            self.bad.append(("creates a variable" if key == LIM else "creates a literal", v, fn))

    def on_call(self, eng, st, c):
        f = self.F.fns.get(c.key)
        if f is None or not (f.get("sig") or {}).get("u") or not re.search(r"types::(Var|Lit)::\w+$", f["p"]):
            return None
        self.n += 1
        if c.name in UNCHECKED:
            if not inrange(st.facts, c.args[0]):
                self.bad.append((f"calls `{c.name}`", c.args[0], c.fn))
        elif c.name == "from_lidx":
            if not good_lidx(st.facts, c.args[0]):
                self.bad.append((f"calls `{c.name}`", c.args[0], c.fn))
        return None

    def on_write(self, eng, st, root, path, val, where):
        if not path or val is None or not hasattr(val, "t"):
            return
        n = str(path[-1][2])
        if n == "lidx":
            self.n += 1
            if not good_lidx(st.facts, val):
                self.bad.append(("changes a literal", val, None))
        elif n == "0" and len(path) > 1 and str(path[-2][2]) == "idx":
            self.n += 1
            if not inrange(st.facts, val):
                self.bad.append(("changes a variable", val, None))

    def on_diverge(self, eng, st, c):
        self.div.append(st.copy())

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.exits.append((ret, st.copy()))


def sites(F):
    """functions in which a variable or literal is put together without going through a checked constructor"""
    out = {}
    for k, f in F.fns.items():
        if "/tests/" in f["sp"][0]:
            continue
        for b in f["blocks"]:
            if b.get("cl"):
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in (LIM, LIT):
                    out[k] = f
                if s[0] == "=" and s[1][1]:
                    p = s[1][1]
                    if p[-1][0] == "f" and (p[-1][2] == "lidx" or len(p) > 1 and p[-1][2] == "0" and p[-2][0] == "f" and p[-2][2] == "idx"):
                        out[k] = f
            t = b["t"]
            if t[0] == "call" and t[1].get("p"):
                g = F.fns.get(t[1].get("r") or t[1].get("d"))
                if g and (g.get("sig") or {}).get("u") and re.search(r"types::(Var|Lit)::\w+$", g["p"]):
                    out[k] = f
    return out


def parents(F, f):
    """callers of a private helper (the function containing a closure)"""
    if f["k"] == "closure":
        k = f["key"]
        while "::{closure" in k:
            k = k[:k.rindex("::{closure")]
            if k in F.fns:
                return [F.fns[k]]
        return []
    out = []
    for g in F.fns.values():
        for b in g["blocks"]:
            t = b["t"]
            if t[0] == "call" and f["key"] in (t[1].get("r"), t[1].get("d")):
                out.append(g)
                break
    return out


def t01(F, r):
    r.rules = ["wherever a variable or literal value is put together or changed in place outside unsafe functions, and wherever an unchecked constructor is called, "
               "the index is the index of an existing variable or literal, or the branches taken on the path bound it by the maximum; a sum, difference or product "
               "only counts where its overflow is excluded, judged as built without debug assertions",
               "constructors only reject indices above the maximum (or, for IPASIR literals, zero)"]
    todo = list(sites(F).values())
    seen = set()
    subjects = []
    while todo:
        f = todo.pop()
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        if (f.get("sig") or {}).get("u"):
            continue        # unsafe functions: their callers are judged
        if f["k"] == "closure" or f.get("impl") and not f.get("trait") and not f.get("pub") or f["k"] == "fn" and not f.get("pub"):
            ps = parents(F, f)
            if ps or f["k"] != "closure":
                todo += ps
                continue
        subjects.append(f)
    for f in sorted(subjects, key=lambda f: f["key"]):
        c = Range(F)
        e = Engine(F, c)
        try:
            e.run(f["key"], ())
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        r.analysed |= e.analysed
        if c.bad:
            what, v, g = c.bad[0]
            r.bad(f["p"], f"{f['p']} {what} from a value that is not shown to be in range", where(f))
        elif c.n:
            r.ok("creation", f"{f['p']} ({c.n} sites on paths)")
    # constructors must not reject valid indices
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not re.search(r"^rustsat::types::(Var|Lit)::(new|new_with_error|positive|negative|positive_with_error|negative_with_error)$", f["p"]):
            continue
        c = Range(F)
        e = Engine(F, c)
        try:
            e.run(f["key"], ())
        except Budget:
            continue
        r.analysed |= e.analysed
        a = e.default_args(f)[0]
        bad = False
        for st in c.div + [st for ret, st in c.exits if ret.t == "ADT" and ret.a[2] == "Err"]:
            hi, lo = bounds(st.facts, a)
            if lo is not None and lo <= MAX:
                bad = True
        if bad:
            r.bad(f"{f['p']}:reject", f"{f['p']} rejects indices that are not above the maximum", where(f))
        else:
            r.ok("acceptance", f["p"])
    mx = [f for f in F.fns.values() if f["p"].startswith("rustsat::types::Var::new")]
    r.floor("creation", 10, "functions that put variables or literals together")
    r.floor("acceptance", 8, "constructors")
    return {"level": "other", "explanation": "interval reasoning along every path of every safe function that puts a variable or literal together or calls an unchecked constructor, "
            "with the code taken as built in release mode; see rules", "trusted": ["`unsafe` functions are only required to be called with valid arguments"]}


CHECKS = {"T01": t01}
TECH = {"T01": ("abstract interpretation of the MIR with interval facts at every construction site of a variable or literal, under release-build semantics",
                "construction sites are found by type, not by name; private helpers are judged in the context of their callers")}
