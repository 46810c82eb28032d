"""C01: the C API hands through what it is given and reports what happened."""
import os
import re

from .facts import REPO
from .mir import Client, Engine, Budget, mk, last, INT, ADT, Ok, Err, subterms
from . import lists
from . import c_constr as CC

CRATE = "rustsat_capi.lib"
ERR = "rustsat_capi::encodings::MaybeError"
UNIT = mk("UNIT")
OBJ, DATA, CCOL, NVARS, LIT, WEIGHT, OUTP = (mk("ARG", x) for x in ("object", "data", "collector", "n_vars_used", "lit", "weight", "out"))
MO, MN, MA = mk("M", OBJ), mk("M", NVARS), mk("M", OUTP)


def unref(eng, st, v):
    for _ in range(8):
        if v.t in ("REF", "BOXED"):
            v = eng.at(st, v)
        else:
            break
    return v


class Capi(Client):
    """observation: (events, outcome of the last fallible step)"""
    max_states = 12000
    max_depth = 10
    lists = True

    def __init__(self, F, klist=(0, 1, 2)):
        self.F = F
        self.ks = klist
        self.ends = []

    def inline(self, eng, key, fn, call, st):
        return fn["crate"] == CRATE or fn["k"] == "closure"

    def ev(self, st, *e):
        s = st.copy()
        s.obs = (s.obs[0] + (e,), s.obs[1])
        return s

    def outcome(self, st, o):
        s = st.copy()
        s.obs = (s.obs[0], s.obs[1] + (o,))
        return s

    def full(self, eng, st, v):
        return CC.deep(eng, st, v)

    def kinds(self, ty):
        """(value, outcome) of a fallible call returning this type"""
        ty = re.sub(r"\brustsat::", "", ty)
        m = re.match(r"core::result::Result<(.*), (.*)>$", ty)
        if not m:
            return None
        err = m[2]
        bad = None
        for k, a in self.F.adts.items():
            if k == "rustsat::" + err and all(not v[2] for v in a["vs"]) and len(a["vs"]) > 1:
                bad = [(Err(ADT(k, i, v[0])), v[0]) for i, v in enumerate(a["vs"])]
        if bad is None:
            bad = [(Err(mk("ERRV", err)), last(err))]
        if m[1] == "()":
            good = [(Ok(UNIT), "Ok")]
        elif "Vec<" in m[1] and "Lit" in m[1]:
            good = [(Ok(mk("LIST", tuple(mk("ARG", "as%d" % i) for i in range(k)))), "Ok%d" % k) for k in self.ks]
        else:
            good = [(Ok(mk("CONVERTED", LIT)), "Ok")]
        return good + bad

    def on_call(self, eng, st, c):
        n, p, a = c.name or "", c.p or "", c.args
        if p == "<fnptr>":
            f = self.full(eng, st, c.fnv)
            return [(UNIT, self.ev(st, "emit", f, *(self.full(eng, st, x) for x in a)))]
        if n in ("call", "call_mut", "call_once") and a and self.full(eng, st, a[0]) == CCOL:
            xs = self.full(eng, st, a[1])
            if xs.t == "TUP":
                return [(UNIT, self.ev(st, "emit", CCOL, *xs.a[0]))]
        if n == "into" and c.dty["s"].endswith("MaybeError"):
            v = unref(eng, st, a[0])
            k = last(v.a[0]) if v.t == "ADT" else ""
            cand = [g for g in eng.F.fns.values() if g["crate"] == CRATE and g["name"] == "from" and g["nargs"] == 1 and g["tys"][g["locals"][1]]["s"].replace("rustsat::", "") == c.argt[0]["s"].replace("rustsat::", "")]
            if len(cand) == 1:
                return eng.inline(cand[0], c, [a[0]], st, {}, c.depth, ())
            return None
        if n == "to_ipasir":
            v = unref(eng, st, a[0])
            while v.t == "DEREF":
                v = v.a[0]
            return [(mk("IPASIR", v), st)]
        if p.startswith("alloc::boxed::Box") and n in ("into_raw", "leak"):
            v = unref(eng, st, a[0])
            return [(mk("OWNED", v), self.ev(st, "into_raw", v))]
        if p.startswith("alloc::boxed::Box") and n == "from_raw":
            return [(mk("BOXOF", a[0]), self.ev(st, "from_raw", self.full(eng, st, a[0])))]
        if n == "new" and "RangeInclusive<" in c.dty["s"] and len(a) == 2:
            return [(ADT("core::ops::RangeInclusive", 0, "RangeInclusive", tuple(a)), st)]
        if n in ("default", "new") and c.dty["s"].startswith("alloc::boxed::Box<") and (not a or a[0].t == "FRESH"):
            return [(mk("FRESH", c.dty["s"][len("alloc::boxed::Box<"):-1]), st)]
        if n in ("new", "from") and a and c.dty["s"].startswith("alloc::boxed::Box<"):
            return [(mk("FRESH", c.dty["s"][len("alloc::boxed::Box<"):-1]), st)]
        if n in ("default", "new") and not a:
            return [(mk("FRESH", c.dty["s"]), st)]
        if p.startswith("core::mem::drop"):
            v = unref(eng, st, a[0])
            if v.t == "BOXOF":
                return [(UNIT, self.ev(st, "freed", self.full(eng, st, v.a[0])))]
            return [(UNIT, st)]
        if p.startswith("core::mem::forget"):
            return [(UNIT, st)]
        f = eng.F.fns.get(c.key)
        foreign = f is not None and f["crate"] != CRATE and f["k"] != "closure" or f is None and (re.match(r"<?rustsat::", c.rp or "") or re.match(r"<?rustsat::", p)) or n == "extend" and a and self.full(eng, st, a[0]).t == "OBJV"
        if foreign:
            obj = len(a) > 0 and self.full(eng, st, a[0])
            me = bool(a) and (obj == mk("OBJV") or obj.t == "FLD" and obj.a[0] == mk("OBJV") or obj.t == "DEREF" and obj.a[0] == mk("OBJV"))
            rest = tuple(self.full(eng, st, x) for x in a[1 if me else 0:])
            s = self.ev(st, "call", n, me, rest, me and c.argt[0]["s"].startswith("&") and " mut " in c.argt[0]["s"][:12].replace("&mut", "& mut"))
            ks = self.kinds(c.dty["s"])
            if ks:
                return [(v, self.outcome(s, o)) for v, o in ks]
            if c.dty["s"] in ("()", "!"):
                return [(UNIT, s)]
            return [(mk("RESULT", n), s)]
        return None

    def on_drop(self, eng, st, val, ty, fn, bb):
        if val.t == "BOXOF":
            return [self.ev(st, "freed", self.full(eng, st, val.a[0]))]
        return None

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            out = eng.read(st, MA, ()) if MA in st.store else None
            self.ends.append((self.full(eng, st, ret), st.copy(), None if out is None else self.full(eng, st, out)))


WANT = {"NotEncoded": "NotEncoded", "Unsat": "Unsat", "NotPow2": "PrecisionNotPow2", "PrecisionDecreased": "PrecisionDecreased", "InvalidLit": "InvalidLiteral", "TypeError": "InvalidLiteral"}


def args_for(F, f):
    """(arguments, store) by the names and types of the parameters; None if one is not known"""
    out, store, roles = [], {MO: mk("OBJV"), MN: mk("ARG", "nv"), MA: mk("ARG", "old")}, []
    for i in range(1, f["nargs"] + 1):
        t = f["tys"][f["locals"][i]]
        s = re.sub(r"^&'\\w+ mut |^&'\\w+ ", "&mut ", t["s"])
        if i == 1 and s.startswith("*mut "):
            out.append(mk("REF", MO, ()))
            roles.append("obj")
        elif s.startswith(("*mut ", "*const ")) and "c_void" in s:
            out.append(DATA)
            roles.append("data")
        elif "u32" in s and s.startswith("&"):
            out.append(mk("REF", MN, ()))
            roles.append("nvars")
        elif "i32" in s and s.startswith("&"):
            out.append(mk("REF", MA, ()))
            roles.append("out")
        elif t["k"] == "fnptr" or "fn(" in s:
            out.append(CCOL)
            roles.append("col")
        elif s == "i32":
            out.append(LIT)
            roles.append("lit")
        elif s == "usize":
            k = sum(r.startswith("num") for r in roles)
            out.append(mk("ARG", "num%d" % k))
            roles.append("num%d" % k)
        else:
            return None
    return out, store, roles


def exported(F):
    for k, f in sorted(F.fns.items()):
        if f["crate"] == CRATE and f["k"] != "closure" and f["pub"] and re.match(r"^rustsat_capi::encodings::[a-z]\w*::[a-z]\w*$", f["p"]):
            yield k, f


def functions(F, r):
    news = {}
    for k, f in exported(F):
        m = re.match(r"^(.*)_(new|drop|add|reserve|encode|encode_ub|encode_lb|enforce_ub|enforce_lb|coarse_ub|set_precision|next_precision|is_max_precision|limit_range)$", f["name"])
        if not m:
            r.undec("%s is of no known kind" % f["p"])
            continue
        r.ok("subject", f["p"])
        a = args_for(F, f)
        if a is None:
            r.undec("%s: a parameter is of no known kind" % f["p"])
            continue
        args, store, roles = a
        x = Capi(F, (0, 1) if "out" in roles else (0, 1, 2))
        e = Engine(F, x)
        try:
            e.run(k, ((), ()), args=args, store=store)
        except Budget as z:
            r.undec("%s: %s" % (f["p"], str(z)[:80]))
            continue
        r.analysed |= set(e.analysed)
        try:
            res = judge(F, f, m[1], m[2], roles, x, e)
        except Exception as z:  # a value of unexpected form
            r.undec("%s: %s" % (f["p"], repr(z)[:80]))
            continue
        if m[2] in ("new", "drop"):
            t = f["tys"][f["locals"][0 if m[2] == "new" else 1]]["s"].replace("*mut ", "")
            news.setdefault(m[1], {})[m[2]] = (t, f)
        if res is None:
            r.ok("function", f["p"])
        elif res[0] == "und":
            r.undec("%s: %s" % (f["p"], res[1]))
        else:
            r.bad("%s:%s" % (f["name"], res[0]), "%s %s" % (f["p"], res[1]), "%s:%s" % tuple(f["sp"][:2]))
    for nm, d in sorted(news.items()):
        if set(d) != {"new", "drop"}:
            f = list(d.values())[0][1]
            r.bad("%s:pair" % nm, "objects of %s are %s" % (nm, "never released: there is no %s_drop" % nm if "new" in d else "released but never made"), "%s:%s" % tuple(f["sp"][:2]))
        elif d["new"][0] != d["drop"][0]:
            r.bad("%s:pair" % nm, "%s_new makes a %s, %s_drop releases a %s" % (nm, d["new"][0], nm, d["drop"][0]), "%s:%s" % tuple(d["drop"][1]["sp"][:2]))
        else:
            r.ok("pair", nm)
    r.floor("subject", 20)


CALLED = {"reserve": ("reserve",), "encode": ("encode",), "encode_ub": ("encode_ub_change", "encode_ub"), "encode_lb": ("encode_lb_change", "encode_lb"),
          "enforce_ub": ("enforce_ub",), "enforce_lb": ("enforce_lb",), "coarse_ub": ("coarse_ub",), "set_precision": ("set_precision",), "next_precision": ("next_precision",),
          "is_max_precision": ("is_max_precision",), "limit_range": ("limit_range",), "add": ("extend", "add_input")}


def judge(F, f, nm, kind, roles, x, eng):
    """None, ("und", why) or (key, what is wrong)"""
    if not x.ends:
        return "panics", "never returns"
    seen = {o for _, st, _ in x.ends for o in st.obs[1]}
    if kind == "new":
        for ret, st, _ in x.ends:
            t = f["tys"][f["locals"][0]]["s"].replace("*mut ", "")
            if ret.t != "OWNED" or ret.a[0].t != "FRESH":
                return ("und", "the value returned is not followed") if ret.t in ("CALL", "REF") else ("owned", "does not hand out a newly made object")
        return None
    if kind == "drop":
        for ret, st, _ in x.ends:
            fr = [e for e in st.obs[0] if e[0] == "freed"]
            raw = [e for e in st.obs[0] if e[0] == "from_raw"]
            if len(raw) > 1 or len(fr) > 1:
                return "twice", "releases the object more than once"
            if not fr or fr[0][1] != mk("OBJV"):
                return "leaks", "does not release the object"
        return None
    status = f["tys"][f["locals"][0]]["s"].endswith("MaybeError")
    fallible = False
    for ret, st, out in x.ends:
        if any(e[0] in ("freed", "from_raw") for e in st.obs[0]):
            return "frees", "releases the object"
        calls = [e for e in st.obs[0] if e[0] == "call" and e[1] in CALLED[kind]]
        outs = st.obs[1]
        bad = [o for o in outs if not o.startswith("Ok")]
        lit_bad = False
        if status:
            if ret.t != "ADT" or not ret.a[0].endswith("MaybeError"):
                return "und", "the status is not followed"
            if bad:
                fallible = True
                want = WANT.get(bad[0].split("<")[0])
                if kind == "add":
                    conv = [e for e in st.obs[0] if e[0] == "call" and "ipasir" in e[1]]
                    lit_bad = len(outs) == 1 and conv and outs[0] != "Ok"
                    want = "InvalidLiteral" if lit_bad else "InvalidState"
                    if lit_bad and calls:
                        return "adds", "goes on with an invalid literal"
                if ret.a[2] == "Ok":
                    return "success", "returns success although the operation reported %s" % bad[0]
                if want and ret.a[2] != want:
                    return "code", "returns %s when the operation reported %s" % (ret.a[2], bad[0])
            elif ret.a[2] != "Ok":
                return "failure", "returns %s although nothing failed" % ret.a[2]
        elif bad:
            return "ignored", "returns although the operation reported %s" % bad[0]
        other = [e for e in st.obs[0] if e[0] == "call" and e[2] and e[4] and e[1] not in CALLED[kind]]
        if other:
            return "other", "also calls %s, which may change the encoding" % other[0][1]
        if lit_bad:
            continue
        if len(calls) != 1 and not (kind.startswith("enforce") and not calls and bad):
            return ("calls", "does not call %s of the encoding" % CALLED[kind][0]) if not calls else ("und", "calls the encoding several times")
        c = calls[0]
        if not c[2]:
            return "und", "what is called is not followed"
        rest = c[3]
        subs = [y for z in rest for y in subterms(z)]
        if kind == "add":
            w = mk("ARG", "num0") if "num0" in roles else None
            good = ("LIST", "ARR")
            z = rest[0]
            if c[1] == "extend":
                if z.t == "LIT" and z.a[0] == "seq":
                    z = mk("LIST", tuple(z.a[1]))
                if z.t not in good:
                    return "und", "what is added is not followed: %s" % str(z)[:200]
                it = z.a[0] if isinstance(z.a[0], tuple) else z.a
                want = mk("CONVERTED", LIT) if w is None else mk("TUP", (mk("CONVERTED", LIT), w))
                if tuple(it) != (want,):
                    return "input", "does not add the literal it is given%s" % ("" if w is None else " with its weight")
            elif rest != (mk("CONVERTED", LIT), w):
                return "input", "does not add the literal it is given with its weight"
        if kind in ("enforce_ub", "enforce_lb", "coarse_ub", "set_precision"):
            if rest != (mk("ARG", "num0"),):
                return "bound", "passes something else on than the number it is given"
        if kind in ("coarse_ub", "next_precision", "is_max_precision") and ret != mk("RESULT", c[1]):
            return "returns", "returns something else than the encoding said"
        if kind in ("encode_ub", "encode_lb", "limit_range"):
            lo, hi = mk("ARG", "num0"), mk("ARG", "num1")
            rg = [y for y in subs if y.t == "ADT" and "Range" in last(y.a[0])]
            if not rg:
                return "und", "the range is not followed"
            g = rg[0]
            k2 = last(g.a[0])
            vals = tuple(g.a[3])
            if k2 == "RangeInclusive":
                if vals[:2] != (lo, hi):
                    return "range", "encodes another range than the one it is given"
            elif k2 == "Range":
                if vals[0] != lo or "num1" not in repr(vals[1]) or vals[1] == hi:
                    return "range", "encodes another range than the one it is given"
            else:
                return "range", "encodes another range than the one it is given"
        if kind.startswith("encode") or kind == "limit_range":
            if CCOL not in subs or DATA not in subs:
                return "collector", "does not hand the clauses to the collector it is given"
        if kind.startswith("encode") or kind == "reserve":
            if not (mk("ARG", "nv") in subs or NVARS in subs or any(y == MN for y in subs)):
                return "vars", "does not draw variables after the number it is given"
        if kind.startswith("enforce") and not bad:
            n = int(outs[0][2:]) if outs and outs[0][2:] else 0
            lits = [mk("IPASIR", mk("ARG", "as%d" % i)) for i in range(n)]
            em = [e for e in st.obs[0] if e[0] == "emit"]
            if "out" in roles:
                if n == 1 and out != lits[0]:
                    return "assumption", "does not store the assumption"
            elif [e[2] for e in em] != lits or any(e[1] != CCOL or e[3] != DATA for e in em):
                return "assumption", "does not pass on exactly the %d assumptions" % n
    if status and kind in ("add", "set_precision") or kind.startswith("enforce"):
        if not fallible:
            return "unreported", "never reports a failure"
    if kind.startswith("enforce"):
        miss = sorted({"Ok%d" % k for k in x.ks} - seen)
        if miss:
            return "panics:%s" % "".join(miss), "panics when the bound is enforced by %s assumptions" % " or ".join(m[2:] for m in miss)
    return None


def collector(F, r):
    """clauses become zero-terminated sequences"""
    ls = [mk("ARG", "x%d" % i) for i in range(3)]
    CL = "rustsat::types::constraints::Clause"
    shapes = [[(0, 1), (), (2,)], [(0,)], []]
    for k, f in sorted(F.fns.items()):
        if f["crate"] != CRATE or not f["p"].startswith("<encodings::ClauseCollector as") or f["name"] not in ("extend_clauses", "add_clause", "extend") or f["nargs"] != 2:
            continue
        bad = und = None
        n = 0
        for sh in shapes if f["name"] != "add_clause" else [[(0, 1, 2)], [()]]:
            cls = [ADT(CL, 0, "Clause", (mk("LIST", tuple(ls[i] for i in c)),)) for c in sh]
            col = next((a for q, a in F.adts.items() if q == "rustsat_capi::encodings::ClauseCollector"), None)
            if col is None:
                r.undec("the collector has another form")
                return
            vals = {"n_clauses": mk("ARG", "n"), "ccol": CCOL, "cdata": DATA}
            names = [z[0] for z in col["vs"][0][2]]
            val = ADT("rustsat_capi::encodings::ClauseCollector", 0, "ClauseCollector", tuple(vals.get(z, mk("ARG", z)) for z in names))
            x = Coll(F)
            e = Engine(F, x)
            root = mk("M", mk("ARG", "self"))
            arg = cls[0] if f["name"] == "add_clause" else mk("LIST", tuple(cls))
            try:
                e.run(k, ((), ()), args=[mk("REF", root, ()), arg], store={root: val})
            except Budget as z:
                und = str(z)[:60]
                continue
            r.analysed |= set(e.analysed)
            want = [y for c in sh for y in [mk("IPASIR", ls[i]) for i in c] + [INT(0)]]
            for ret, st, _ in x.ends:
                em = [q for q in st.obs[0] if q[0] == "emit"]
                n += 1
                if any(q.t in ("CALL", "HAV", "ELEM") for q in st.facts):
                    und = "a path is not followed"
                elif [q[2] for q in em] != want or any(q[1] != CCOL or q[3] != DATA for q in em):
                    if any(y.t in ("ELEM", "CALL", "HAV", "DEREF", "FLD", "REF") for q in em for y in subterms(q[2])):
                        und = "the literals are not followed"
                    else:
                        bad = "does not pass each clause as its literals and a zero"
        if bad:
            r.bad("collector:%s" % f["name"], "%s %s" % (f["p"], bad), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec("%s: %s" % (f["p"], und))
        elif n:
            r.ok("collector", f["p"])


class Coll(Capi):
    def on_call(self, eng, st, c):
        if c.p == "<fnptr>" or c.name == "to_ipasir":
            return super().on_call(eng, st, c)
        if c.name in ("call", "call_mut", "call_once"):
            return super().on_call(eng, st, c)
        if c.name in ("into_iter", "iter") and c.args:
            v = unref(eng, st, c.args[0])
            if v.t == "ADT" and last(v.a[0]) == "Clause":
                return [(lists.seq(v.a[3][0].a[0]), st)]
        return None


# ------------------------------------------------------------------ header
CTY = {"usize": ("size_t", "uintptr_t"), "u32": ("uint32_t",), "i32": ("int", "int32_t"), "bool": ("bool",), "()": ("void",), "u8": ("uint8_t",), "isize": ("intptr_t", "ptrdiff_t")}


def ctype(s):
    """the C types a Rust type may be declared as"""
    s = re.sub(r"'\w+ ", "", s)
    if s in CTY:
        return CTY[s]
    m = re.match(r"^(?:\*mut|\*const|&mut|&) ?(?:mut )?(.*)$", s)
    if m:
        if "c_void" in m[1]:
            return ("void*",)
        return tuple(t + "*" for t in ctype(m[1]))
    if "fn(" in s:
        return ("CClauseCollector", "CAssumpCollector")
    return (last(re.sub(r"<.*", "", s)),)


def header(F, r):
    p = os.path.join(REPO, "capi/rustsat.h")
    try:
        t = open(p).read()
    except OSError:
        r.undec("there is no C header")
        return
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    t = re.sub(r"//[^\n]*", "", t)
    decl = {}
    for m in re.finditer(r"(?:^|[;}\n])\s*([A-Za-z_][\w\s\*]*?)\b(\w+)\s*\(([^()]*)\)\s*;", t):
        if m[1].strip().startswith("typedef"):
            continue
        ps = [] if m[3].strip() in ("void", "") else m[3].split(",")

        def norm(x, named=True):
            x = re.sub(r"\b(struct|enum|const|extern)\b", "", x).strip()
            if named:
                x = re.sub(r"(\w+)\s*$", "", x) if re.search(r"[\s\*]\w+\s*$", x) else x
            return re.sub(r"\s+", "", x)
        decl[m[2]] = (norm(m[1], False), [norm(q) for q in ps])
    fns = {f["name"]: f for _, f in exported(F)}
    for n, f in sorted(fns.items()):
        if n not in decl:
            r.bad("header:%s" % n, "%s is exported but not declared in the C header" % n, "capi/rustsat.h")
            continue
        ret, ps = decl[n]
        tys = [f["tys"][f["locals"][i]]["s"] for i in range(f["nargs"] + 1)]
        if len(ps) != f["nargs"]:
            r.bad("header:%s" % n, "%s takes %d arguments, the C header declares %d" % (n, f["nargs"], len(ps)), "capi/rustsat.h")
        elif ret not in ctype(tys[0]) or any(q not in ctype(s) for q, s in zip(ps, tys[1:])):
            r.bad("header:%s" % n, "the C header declares %s with other types" % n, "capi/rustsat.h")
        else:
            r.ok("declaration", n)
    for n in sorted(set(decl) - set(fns)):
        r.bad("header:%s" % n, "%s is declared in the C header but not exported" % n, "capi/rustsat.h")
    m = re.search(r"enum\s+MaybeError\s*\{([^}]*)\}", t)
    en = F.adts.get(ERR)
    if m and en:
        vals, cur = {}, -1
        for q in m[1].split(","):
            q = q.strip()
            if not q:
                continue
            y = re.match(r"^(\w+)(?:\s*=\s*(\d+))?$", q)
            cur = int(y[2]) if y[2] is not None else cur + 1
            vals[y[1]] = cur
        own = {v[0]: int(v[1]) for v in en["vs"]}
        if vals != own:
            r.bad("header:MaybeError", "the status codes in the C header are not those of the library", "capi/rustsat.h")
        else:
            r.ok("codes", "MaybeError")


def c01(F, r):
    functions(F, r)
    collector(F, r)
    header(F, r)
    r.floor("declaration", 20)
    r.rules += [
        "function: on every path of an exported function, with every fallible step it takes forked into success and each kind of failure: the status is the code of the first failure, or Ok if none; "
        "the one operation the function is named for is called on the object with the numbers (range, bound, weight), literal, collector and variable counter it was given; "
        "assumptions of an enforced bound are passed on completely, in IPASIR form and in order",
        "new, drop: new hands out a newly made boxed object; drop takes exactly that type back and releases it once; nothing else releases it",
        "collector: a clause is passed on as its literals in IPASIR form followed by one zero, to the callback and with the data given, clause by clause",
        "declaration, codes: name, number and types of parameters, result and status codes in the C header are those exported",
    ]
    return {"level": "other", "explanation":
            "Abstract interpretation of the MIR of every exported C function and of the clause collector over symbolic arguments, forking on each outcome of every call into the library; "
            "declarations of the C header compared with the type-checked signatures. Callers that break the documented safety contract are out of scope."}


CHECKS = {"C01": c01}
TECH = {"C01": ("abstract interpretation of the exported functions with every fallible step forked; comparison of the C header with the type-checked signatures", "the C header is parsed textually")}
