"""L02: the text of a proof denotes the values it was built from."""
import re

from .mir import Engine, Budget, mk, last, subterms, INT, Some, ADT
from .c_opb import plus, form
from .c_errors import failure
from .c_proof import Lines, CRATE, idform, where

OPAQUE = re.compile(r"CALL|PURE|TOP|HAV|UNINIT|UNKNOWN|ELEM|OLD|DEEP|…")
REM = "<removed>"


def arg(n):
    return mk("ARG", n)


def box(v):
    return mk("BOXED", v)


def lit(n, neg):
    return mk("LIT", n, neg)


class Text(Lines):
    """literals with a known sign; operations built on the path are recorded"""

    def __init__(self, F):
        Lines.__init__(self, F)
        self.items = {}
        self.closures = {}

    def inline(self, eng, key, fn, call, st):
        return fn["name"] != "fmt" and (fn["crate"] == CRATE or fn["k"] == "closure" or "pigeons" in fn["p"] or
                                        fn["sp"][0].startswith("src/types/") and len(fn["blocks"]) < 12)

    def on_call(self, eng, st, c):
        n, p = c.name, c.p
        if c.args:
            v = eng.strip(st, c.args[0])
            if v.t == "LIT":
                if n in ("is_pos", "is_neg"):
                    return [(INT(int((v.a[1] == 1) == (n == "is_neg"))), st)]
                if n == "not":
                    return [(lit(v.a[0], 1 - v.a[1]), st)]
                if n == "var":
                    return [(mk("ARG", v.a[0] + ".var"), st)]
                if n in ("clone", "deref", "borrow", "as_ref", "to_owned"):
                    return [(v, st)]
            if n in ("into", "from") and len(c.args) == 1 and v.t == "ADT" and last(str(v.a[0])) == "OperationSequence":
                return [(v, st)]
            if n == "next" and c.args[0].t and "Option<&" in c.dty["s"] and self.items:
                for pat, el in self.items.items():
                    if re.search(pat, c.dty["s"]):
                        return [(Some(el), st)]
        return Lines.on_call(self, eng, st, c)

    def on_write(self, eng, st, root, path, val, where_):
        if val.t == "ADT" and re.search(r"^pigeons\b.*\bOperation$", val.a[0]) and val.a[2] in ("Add", "Mult", "Div", "Sat", "Weak"):
            m = mk("MADE", val)
            if m not in st.obs[0]:
                st.obs = (st.obs[0] + (m,), st.obs[1])


def say(v, deref=None):
    """canonical text of a value"""
    while True:
        if v.t in ("CONV", "CAST", "DEREF"):
            i = next((x for x in v.a if hasattr(x, "t")), None)
            if i is None:
                break
            v = i
        elif v.t == "BOXED":
            v = v.a[0]
        elif v.t == "FLD" and v.a[0].t == "TRYCONV" and str(v.a[1][0]) == "Ok":
            v = v.a[0].a[0]
        elif v.t == "OBJ" and len(v.a[1]) == 1 and v.a[0].t == "UNINIT":
            v = v.a[1][0][1]
        elif v.t == "REF" and deref is not None:
            x = deref(v)
            if x == v:
                break
            v = x
        else:
            break
    if v.t == "INT":
        return str(v.a[0])
    if v.t == "STR":
        return repr(v.a[0])
    if v.t == "ARG":
        return str(v.a[0])
    if v.t == "LIT":
        return ("~" if v.a[1] else "") + v.a[0]
    if v.t == "NOT":
        return "not " + say(v.a[0], deref)
    if v.t == "ADT":
        return v.a[2] + ("(" + ", ".join(say(x, deref) for x in v.a[3]) + ")" if v.a[3] else "")
    if v.t == "TUP":
        return "(" + ", ".join(say(x, deref) for x in v.a[0]) + ")"
    if v.t == "FLD":
        return say(v.a[0], deref) + "." + str(v.a[1][2])
    if v.t == "BIN":
        return f"{say(v.a[1], deref)} {v.a[0]} {say(v.a[2], deref)}"
    if v.t in ("NZ",):
        return form(dict(v.a[0]))
    if v.t == "PURE":
        return last(str(v.a[0])) + "(" + ", ".join(say(x, deref) for x in v.a[1]) + ")"
    if v.t == "CALL":
        return last(str(v.a[1])) + "(" + ", ".join(say(x, deref) for x in v.a[2:] if hasattr(x, "t")) + ")"
    return "…" + v.t


def texts(parts, deref=None):
    out = []
    for x in parts:
        if isinstance(x, str):
            out.append(x)
        elif x.t == "SHOWN":
            out.append("‹" + say(x.a[1], deref) + "›")
        elif x.t != "MADE":
            out.append("…")
    return "".join(out)


def adt(F, name, variant, *fields):
    k, a = next(((k, a) for k, a in sorted(F.adts.items()) if re.search(rf"^pigeons\b.*::{name}$", k) and "_#" not in k), (None, None))
    if k is None:
        return None
    i = next((i for i, v in enumerate(a["vs"]) if v[0] == variant), None)
    if i is None or len(a["vs"][i][2]) != len(fields):
        return None
    return ADT(k, i, variant, fields)


def table(F):
    """(what, function, arguments, expected text or None, expected value or None)"""
    def A(neg, v="v"):
        return adt(F, "Axiom", "Axiom", INT(neg), arg(v))

    f = arg("f")
    T = []
    D = lambda ty: rf"^<(\w+::)*{ty}(<.*>)? as (\w+::)*Display>::fmt$"
    for neg in (0, 1):
        T.append(("a literal is written with ~ exactly if it is negated", D("Axiom"), [box(A(neg)), f], "~" * neg + "‹v›", None))
        T.append(("the negation of a literal", r"^<(\w+::)*Axiom<\w+> as (\w+::)*Not>::not$", [A(neg)], None, f"Axiom({1 - neg}, v)"))
        T.append(("an axiom with a given sign", r"VarLike::axiom$", [arg("v"), INT(neg)], None, f"Axiom({neg}, v)"))
        T.append(("fixing a variable", r"VarLike::substitute_fixed$", [arg("v"), INT(neg)], None, f"Substitution(v, {'True' if neg else 'False'})"))
        T.append(("fixing a variable", r"^<(\w+::)*SubstituteWith<\w+> as (\w+::)*From<bool>>::from$", [INT(neg)], None, "True" if neg else "False"))
        T.append(("a literal as a substitution", r"^<(\w+::)*Substitution<\w+> as (\w+::)*From<.*Axiom<\w+>>>::from$", [A(neg)], None,
                  f"Substitution(v, {'False' if neg else 'True'})"))
        T.append(("a literal of the solvers in a proof", r"From<(\w+::)*Lit> for (\w+::)*Axiom<.*>>::from$", [lit("l", neg)], None, f"Axiom({neg}, l.var)"))
        T.append(("strengthening to core", r"Proof::<\w+>::strengthening_to_core$", [arg("self"), INT(neg)], f"strengthening_to_core {'on' if neg else 'off'}\n", None))
        T.append(("whether a literal is negated", r"Axiom::<\w+>::is_neg$", [box(A(neg))], None, str(neg)))
    T.append(("the variable of a literal", r"Axiom::<\w+>::var$", [box(A(1))], None, "v"))
    T.append(("a positive axiom", r"VarLike::pos_axiom$", [arg("v")], None, "Axiom(0, v)"))
    T.append(("a negative axiom", r"VarLike::neg_axiom$", [arg("v")], None, "Axiom(1, v)"))
    T.append(("substituting a literal", r"VarLike::substitute_literal$", [arg("v"), arg("l")], None, "Substitution(v, Lit(l))"))
    sub = adt(F, "Substitution", "Substitution", arg("v"), arg("w"))
    T.append(("a substitution", D("Substitution"), [box(sub), f], "‹v› -> ‹w›", None))
    for n, t in (("True", "1"), ("False", "0")):
        T.append(("a substituted value", D("SubstituteWith"), [box(adt(F, "SubstituteWith", n)), f], t, None))
    T.append(("a substituted literal", D("SubstituteWith"), [box(adt(F, "SubstituteWith", "Lit", arg("l"))), f], "‹l›", None))
    for n, t in (("Add", "+"), ("Sat", "s"), ("Weak", "w")):
        T.append(("an operator of an operation sequence", D("Operation"), [box(adt(F, "Operation", n)), f], t, None))
    for n, t in (("Mult", "‹n› *"), ("Div", "‹n› d"), ("Id", "‹n›"), ("Axiom", "‹n›")):
        T.append(("an operator of an operation sequence", D("Operation"), [box(adt(F, "Operation", n, arg("n"))), f], t, None))
    for n, t in (("Left", "u"), ("Right", "v"), ("FreshRight", "w")):
        T.append(("a variable of an order", D("OrderVar"), [box(adt(F, "OrderVar", n, arg("n"))), f], f"{t}_‹n›", None))
    for n, t in (("Implicit", "IMPLICIT"), ("File", "FILE")):
        T.append(("an output type", D("OutputType"), [box(adt(F, "OutputType", n)), f], t, None))
    T.append(("an output guarantee", D("OutputGuarantee"), [box(adt(F, "OutputGuarantee", "None")), f], "NONE", None))
    for n in ("Derivable", "Equisatisfiable", "Equioptimal"):
        T.append(("an output guarantee", D("OutputGuarantee"), [box(adt(F, "OutputGuarantee", n, arg("t"))), f], f"{n.upper()} ‹t›", None))
    none = ADT("core::option::Option", 0, "None", ())
    T.append(("a conclusion", D("Conclusion"), [box(adt(F, "Conclusion", "None")), f], "NONE", None))
    T.append(("a conclusion", D("Conclusion"), [box(adt(F, "Conclusion", "Sat", none)), f], "SAT", None))
    T.append(("a conclusion", D("Conclusion"), [box(adt(F, "Conclusion", "Unsat", none)), f], "UNSAT", None))
    T.append(("a conclusion", D("Conclusion"), [box(adt(F, "Conclusion", "Unsat", Some(arg("id")))), f], "UNSAT : ‹id›", None))
    rng = arg("range")
    T.append(("a conclusion with bounds", D("Conclusion"), [box(adt(F, "Conclusion", "Bounds", rng, none, none)), f], "BOUNDS ‹range.start› ‹range.end Sub 1›", None))
    T.append(("a conclusion with bounds", D("Conclusion"), [box(adt(F, "Conclusion", "Bounds", rng, Some(arg("id")), none)), f],
              "BOUNDS ‹range.start› : ‹id› ‹range.end Sub 1›", None))
    for n in ("Constraint", "Specific"):
        T.append(("a proof goal", D("ProofGoalId"), [box(adt(F, "ProofGoalId", n, arg("id"))), f], ("#" if n == "Specific" else "") + "‹id›", None))
    T.append(("an absolute id", D("AbsConstraintId"), [box(adt(F, "AbsConstraintId", "AbsConstraintId", arg("id"))), f], "‹id›", None))
    T.append(("a relative id", D("RelConstraintId"), [box(adt(F, "RelConstraintId", "RelConstraintId", arg("id"))), f], "-‹id›", None))
    T.append(("a proof-only variable", D("ProofOnlyVar"), [box(adt(F, "ProofOnlyVar", "ProofOnlyVar", arg("n"))), f], "pv‹n›", None))
    T.append(("the name of a variable in a proof", D("PigeonVarFormatter"), [box(arg("v")), f], "x‹v.0.idx.0 Add 1›", None))
    return T


def funcs(F, pat):
    return [f for k, f in sorted(F.fns.items()) if f["crate"] in (CRATE, "rustsat.lib") and f["k"] != "closure" and re.search(pat, f["p"])]


def evaluate(F, r, f, args, t=None):
    t = t or Text(F)
    t.ends = []
    e = Engine(F, t)
    try:
        e.run(f["key"], ((), ()), args=args)
    except Budget:
        r.undec(f"{f['p']}: budget")
        return None, []
    r.analysed |= set(e.analysed) | t.extra
    return e, [(ret, st) for ret, st in t.ends if not failure(ret)]


def tabled(F, r):
    for what, pat, args, text, value in table(F):
        fs = funcs(F, pat)
        if not fs or any(a is None or a.t == "BOXED" and a.a[0] is None for a in args):
            r.undec(f"{what}: not found ({pat})")
            continue
        for f in fs:
            if len(args) != f["nargs"]:
                r.undec(f"{what}: {f['p']} has {f['nargs']} arguments")
                continue
            e, ends = evaluate(F, r, f, args)
            for ret, st in ends:
                got = texts(st.obs[0], lambda x: e.at(st, x)) if text is not None else say(ret, lambda x: e.at(st, x))
                got = re.sub(r"\bidx(32)?\(([^()]*)\)", r"\2.idx.0", got)
                want = text if text is not None else value
                given = ", ".join(say(a) for a in args if a.t != "ARG" or a.a[0] not in ("f", "self"))
                if got == want or sorted(re.split(r" Add ", got.strip("‹›x"))) == sorted(re.split(r" Add ", want.strip("‹›x"))):
                    r.ok("case", f"{f['p']}({given}): {got.strip()}")
                elif "…" in got or re.search(r"[a-z_]\w*\(", got.replace("var(", "")):
                    r.undec(f"{f['p']}({given}): {got[:60]}")
                else:
                    r.bad(f"{f['p']}:{given}", f"{what}: {f['p']} turns {given} into {got.strip()!r} instead of {want.strip()!r}", where(f))


# ------------------------------------------------------------------ ids
def den(v, e, st):
    """the id a constraint id denotes, over N (the next id) and named values"""
    for _ in range(10):
        if v.t == "REF":
            v = e.at(st, v)
        elif v.t in ("CONV", "DEREF") and v.a[0].t in ("ADT", "BOXED"):
            v = v.a[0]
        elif v.t == "BOXED":
            v = v.a[0]
        elif v.t == "ADT" and v.a[2] in ("ConstraintId", "Abs", "AbsConstraintId") and len(v.a[3]) == 1:
            v = v.a[3][0]
        elif v.t == "OBJ" and len(v.a[1]) == 1:
            v = v.a[1][0][1]
        else:
            break
    if v.t == "ADT" and v.a[2] == "Rel":
        g = idform(v.a[3][0], lambda x: e.at(st, x))
        return None if g is None else canon(plus({"N": 1}, g, -1))
    g = idform(v, lambda x: e.at(st, x))
    return canon(g) if g is not None else None


def canon(g):
    out = {}
    for k, c in g.items():
        if isinstance(k, str):
            k = re.sub(r"DEREF\(arg:self\)\.next_id", "N", k)
            k = re.sub(r"^arg:next_free(\.0)*$", "N", k)
            m = re.fullmatch(r"(.*?)(\.0)*\.(Abs|Rel)\.0(\.0)*", k)
            if m:
                x = m[1].replace("arg:", "")
                for k2, c2 in ({x: 1} if m[3] == "Abs" else {"N": 1, x: -1}).items():
                    out[k2] = out.get(k2, 0) + c * c2
                continue
            k = k.replace("arg:", "")
            k = re.sub(r"^DEREF\((.*)\)$", r"\1", k)
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c}


def ids(F, r):
    A = lambda n: adt(F, "AbsConstraintId", "AbsConstraintId", arg(n))
    R = lambda n: adt(F, "RelConstraintId", "RelConstraintId", arg(n))
    I = lambda k, x: adt(F, "ConstraintId", "ConstraintId", adt(F, "ConstrIdInternal", k, x))
    if A("a") is None or R("a") is None or I("Abs", A("a")) is None:
        r.undec("the representation of ids is not the expected one")
        return
    nf = A("N")
    cases = [(r"ConstraintId::make_absolute$", [I("Abs", A("a")), nf], {"a": 1}), (r"\bConstraintId::make_absolute$", [I("Rel", R("k")), nf], {"N": 1, "k": -1}),
             (r"RelConstraintId::make_absolute$", [R("k"), nf], {"N": 1, "k": -1}),
             (r"\bConstraintId::increment$", [I("Abs", A("a")), nf], {"a": 1, 1: 1}), (r"\bConstraintId::increment$", [I("Rel", R("k")), nf], {"N": 1, "k": -1, 1: 1}),
             (r"\bConstraintId::abs$", [arg("a")], {"a": 1}), (r"\bConstraintId::last$", [arg("k")], {"N": 1, "k": -1}),
             (r"AbsConstraintId::new$", [arg("a")], {"a": 1}), (r"AbsConstraintId as (\w+::)*Default>::default$", [], {1: 1}),
             (r"AbsConstraintId as (\w+::)*Add<usize>>::add$", [A("a"), arg("n")], {"a": 1, "n": 1})]
    for pat, args, want in cases:
        for f in funcs(F, pat):
            if ("RelConstraintId" in f["p"]) != ("Rel" in pat) or ("AbsConstraintId" in f["p"]) != ("Abs" in pat) or len(args) != f["nargs"]:
                continue
            e, ends = evaluate(F, r, f, args)
            for ret, st in ends:
                g = den(ret, e, st)
                known = {}
                for x, val in st.facts.items():
                    if x.t in ("BIN", "ARG", "CONV", "FLD") and val[0] == "=":
                        known[x] = val[1]
                w = dict(want)
                if g is not None and g != w:
                    # a path on which a value is known to be a constant
                    for x, c in known.items():
                        y = x
                        while y.t in ("CONV", "FLD") and hasattr(y.a[0], "t"):
                            y = y.a[0]
                        if y.t == "ARG" and y.a[0] in w:
                            w = plus({k: v for k, v in w.items() if k != y.a[0]}, {1: int(c)}, want[y.a[0]])
                            g = plus({k: v for k, v in g.items() if k != y.a[0]}, {1: int(c)}, g.get(y.a[0], 0))
                g = g and {k: c for k, c in g.items() if c}
                if g is None or any(isinstance(k, str) and OPAQUE.search(k) for k in g):
                    r.undec(f"{f['p']}: id not known")
                elif g != {k: c for k, c in w.items() if c}:
                    r.bad(f"{f['p']}:{'Rel' if 'k' in want else 'Abs'}", f"{f['p']} gives the id {form(g)} instead of {form(want)} (N: the next id)", where(f))
                else:
                    r.ok("id", f"{f['p']}: {form(g)}")
    ranges(F, r)


class Bounds(Text):
    """the bounds of a range of ids: every form of either bound"""

    def on_call(self, eng, st, c):
        if c.name in ("start_bound", "end_bound"):
            side, out = c.name[:-6], []
            for i, kind in enumerate(("Included", "Excluded", "Unbounded")):
                for form_ in ("Abs", "Rel") if kind != "Unbounded" else (None,):
                    s = st.copy()
                    s.obs = (s.obs[0], s.obs[1] + ((side, kind, form_),))
                    v = ADT("core::ops::range::Bound", 2, kind, ())
                    if form_:
                        x = adt(self.F, "ConstraintId", "ConstraintId",
                                adt(self.F, "ConstrIdInternal", form_, adt(self.F, f"{form_}ConstraintId", f"{form_}ConstraintId", arg(side))))
                        v = ADT("core::ops::range::Bound", i, kind, (box(x),))
                    out.append((v, s))
            return out
        return Text.on_call(self, eng, st, c)


def ranges(F, r):
    if adt(F, "ConstrIdInternal", "Rel", arg("x")) is None or adt(F, "RelConstraintId", "RelConstraintId", arg("x")) is None:
        r.undec("ids are not represented as expected")
        return
    for f in funcs(F, r"Proof::<\w+>::(delete_id_range|move_range_to_core)$"):
        t = Bounds(F)
        e = Engine(F, t)
        try:
            e.run(f["key"], ((), ()), args=e.default_args(f))
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        r.analysed |= set(e.analysed)
        plain, late = set(), []
        for ret, st in t.ends:
            if failure(ret):
                continue
            shown = [x.a[1] for x in st.obs[0] if not isinstance(x, str) and x.t == "SHOWN"]
            marks = {m[0]: m[1:] for m in st.obs[1] if isinstance(m, tuple) and m[0] in ("start", "end")}
            if len(shown) != 2 or len(marks) != 2:
                r.undec(f"{f['p']}: bounds not known")
                continue
            for side, v in zip(("start", "end"), shown):
                kind, fm = marks[side]
                g = den(v, e, st)
                if g is None:
                    r.undec(f"{f['p']}: {side} not known: {say(v)}")
                    continue
                if kind == "Unbounded":
                    want = {1: 1} if side == "start" else {"N": 1}
                else:
                    want = plus({side: 1} if fm == "Abs" else {"N": 1, side: -1}, {1: 1 if (side == "start") == (kind == "Excluded") else 0})
                    want = {a: b for a, b in want.items() if b}
                    # the last id, counted from the next one
                    last_ = {a: b for a, b in plus({a: b for a, b in want.items() if a != side}, {1: want.get(side, 0)}).items() if b}
                    if g == want:
                        plain.add((side, kind, fm))
                    elif fm == "Rel" and g == last_:
                        late.append((side, kind, fm, g, want))
                        continue
                if g != want:
                    r.bad(f"{f['p']}:{side}:{kind}", f"{f['p']} writes {form(g)} for a range whose {side} is {kind.lower()}, where {form(want)} is meant (half-open range of ids)", where(f))
                else:
                    r.ok("range", f"{f['p']}: {side} {kind}: {form(g)}")
        for side, kind, fm, g, want in late:
            if (side, kind, fm) in plain:
                r.ok("range", f"{f['p']}: {side} {kind}: {form(g)} for the last id")
            else:
                r.bad(f"{f['p']}:{side}:{kind}", f"{f['p']} writes {form(g)} for a range whose {side} is {kind.lower()}, where {form(want)} is meant (half-open range of ids)", where(f))


# ------------------------------------------------------------------ operations
def operations(F, r):
    seq = lambda n: ADT
    k = next((k for k in F.adts if re.search(r"^pigeons\b.*::OperationSequence$", k)), None)
    ik, ia = next(((k, a) for k, a in F.adts.items() if re.search(r"^pigeons\b.*::IntOpSeq$", k)), (None, None))
    if k is None or ik is None:
        r.undec("operation sequences are not represented as expected")
        return

    def S(name):
        i = next((i for i, v in enumerate(ia["vs"]) if v[0] == name), None)
        if i is None:
            return None
        fs = tuple(arg(f"{name.lower()}{j}") for j in range(len(ia["vs"][i][2])))
        return ADT(k, 0, "OperationSequence", (ADT(ik, i, name, fs),))

    forms = [x[0] for x in ia["vs"]]
    one = [(r"OperationSequence<\w+> as (\w+::)*OperationLike<\w+>>::saturate$", "Sat", None), (r"OperationSequence<\w+> as (\w+::)*OperationLike<\w+>>::weaken$", "Weak", None),
           (r"OperationSequence<\w+> as (\w+::)*Mul<usize>>::mul$", "Mult", True), (r"OperationSequence<\w+> as (\w+::)*Div<usize>>::div$", "Div", True),
           (r"OperationSequence<\w+> as (\w+::)*MulAssign<usize>>::mul_assign$", "Mult", True), (r"OperationSequence<\w+> as (\w+::)*DivAssign<usize>>::div_assign$", "Div", True)]
    for pat, op, num in one:
        for f in funcs(F, pat):
            for name in forms:
                s = S(name)
                if s is None:
                    continue
                for factor in ((0, 1, 7) if op == "Mult" else (7,) if num else (None,)):
                    args = [box(s) if "assign" in f["name"] else s] + ([INT(factor)] if num else [])
                    e, ends = evaluate(F, r, f, args)
                    for ret, st in ends:
                        made = [say(x.a[0]) for x in st.obs[0] if not isinstance(x, str) and x.t == "MADE"]
                        want = [] if name == "Empty" or factor in (0, 1) else [f"{op}({factor})" if num else op]
                        made = [re.sub(r"\(\+ ?(\d+)\)", r"(\1)", m) for m in made]
                        if any("…" in m for m in made):
                            r.undec(f"{f['p']}: operator not known")
                        elif made != want:
                            r.bad(f"{f['p']}:{name}:{factor}", f"{f['p']}{f' with {factor}' if num else ''} on a sequence that is {name.lower()} appends {made or 'nothing'} instead of "
                                  f"{want or 'nothing'}", where(f))
                        else:
                            r.ok("operator", f"{f['p']} {name} {factor}: {want}")
    for f in funcs(F, r"OperationSequence<\w+> as (\w+::)*Add(Assign)?<O>>::add(_assign)?$"):
        for a in forms:
            for b in forms:
                x, y = S(a), S(b)
                if x is None or y is None:
                    continue
                e, ends = evaluate(F, r, f, [box(x) if "assign" in f["name"] else x, y])
                for ret, st in ends:
                    made = [say(m.a[0]) for m in st.obs[0] if not isinstance(m, str) and m.t == "MADE"]
                    want = ["Add"] if a != "Empty" and b != "Empty" else []
                    if made != want:
                        r.bad(f"{f['p']}:{a}:{b}", f"{f['p']}: adding a sequence that is {b.lower()} to one that is {a.lower()} appends {made or 'no operator'} instead of "
                              f"{want or 'none'}", where(f))
                    else:
                        r.ok("operator", f"{f['p']} {a} {b}: {want}")


# ------------------------------------------------------------------ constraints and objectives
class Offset(Text):
    """an objective without and with an offset"""

    def on_call(self, eng, st, c):
        if c.name == "offset" and len(c.args) == 1:
            z, o = st.copy(), st.copy()
            z.obs = (st.obs[0], st.obs[1] + (("offset", 0),))
            o.facts[arg("offset")] = ("!", frozenset({0}))
            return [(INT(0), z), (arg("offset"), o)]
        return Text.on_call(self, eng, st, c)


def formatters(F, r):
    """sum and right-hand side of a constraint, terms and offset of an objective"""
    for ty, parts in (("ConstrFormatter", ("sum_iter", "rhs")), ("ObjFormatter", ("sum_iter", "offset"))):
        for f in funcs(F, rf"^<(\w+::)*{ty}<.* as (\w+::)*Display>::fmt$"):
            t = Offset(F)
            e = Engine(F, t)
            try:
                e.run(f["key"], ((), ()), args=e.default_args(f))
            except Budget:
                r.undec(f"{f['p']}: budget")
                continue
            r.analysed |= set(e.analysed)
            for ret, st in t.ends:
                if failure(ret):
                    continue
                shown = [x for x in st.obs[0] if not isinstance(x, str) and x.t == "SHOWN"]
                names = [[last(str(y.a[1] if y.t == "CALL" else y.a[0])) for y in subterms(x.a[1]) if y.t in ("CALL", "PURE")] for x in shown]
                text = "".join(x if isinstance(x, str) else "τ" if x.t == "SHOWN" else "" for x in st.obs[0])
                if ty == "ConstrFormatter":
                    if len(shown) == 2 and "sum_iter" in names[0] and "rhs" in names[1]:
                        if text != "τ >= τ":
                            r.bad(f"{f['p']}:form", f"{f['p']} writes a constraint as {text!r}", where(f))
                        else:
                            r.ok("formatter", f["p"])
                    elif shown and not any("rhs" in n for n in names) and "?" not in text:
                        r.bad(f"{f['p']}:rhs", f"{f['p']} writes a constraint without its right-hand side", where(f))
                    else:
                        r.undec(f"{f['p']}: parts not known")
                else:
                    vs = [say(x.a[1], lambda y: e.at(st, y)) for x in shown]
                    if "?" in text:
                        r.undec(f"{f['p']}: parts not known")
                    elif ("offset", 0) in st.obs[1] or "offset" in vs:
                        r.ok("formatter", f"{f['p']}: {'no offset' if ('offset', 0) in st.obs[1] else 'offset'}")
                    elif any("offset" in v and "…" in v for v in vs):
                        r.undec(f"{f['p']}: offset not known")
                    elif any("offset" in v for v in vs):
                        r.bad(f"{f['p']}:offset", f"{f['p']} writes {next(v for v in vs if 'offset' in v)} where the offset of the objective is meant", where(f))
                    else:
                        r.bad(f"{f['p']}:offset", f"{f['p']} writes an objective without its offset although the offset may differ from zero", where(f))
    for k, g in sorted(F.fns.items()):
        if g["k"] != "closure" or not re.search(r"(Constr|Obj)Formatter<.*Display>::fmt::\{closure#\d+\}$", g["p"]) or g["crate"] != CRATE:
            continue
        t = Terms(F)
        e = Engine(F, t)
        try:
            e.run(k, ((), ()), args=[arg("env"), mk("TUP", (arg("coefficient"), arg("literal"))), arg("f")][:g["nargs"]])
        except Budget:
            continue
        r.analysed |= set(e.analysed)
        for x in t.built:
            got = texts(x)
            if got != "‹coefficient› ‹literal›":
                r.bad(f"{g['p']}:term", f"{g['p']} writes a term as {got!r} instead of coefficient and literal", where(g))
            else:
                r.ok("formatter", g["p"])


class Terms(Text):
    def __init__(self, F):
        Text.__init__(self, F)
        self.built = set()

    def on_call(self, eng, st, c):
        out = Text.on_call(self, eng, st, c)
        if out and out[0][0].t == "FMT" and out[0][0].a[0]:
            self.built.add(out[0][0].a[0])
        return out


def likes(F, r):
    """solver-side constraints as greater-or-equal constraints"""
    for f in funcs(F, r"^<(\w+::)*(Clause|Cl|CardConstraint|PbConstraint) as (\w+::)*ConstraintLike<.*>>::(rhs|sum_iter)$"):
        kind = re.search(r"(Clause|Cl|CardConstraint|PbConstraint) as", f["p"])[1]
        t = Text(F)
        e = Engine(F, t)
        try:
            e.run(f["key"], ((), ()), args=e.default_args(f))
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        r.analysed |= set(e.analysed)
        for ret, st in t.ends:
            v = None
            if kind.endswith("Constraint"):
                a = next((a for k, a in F.adts.items() if k.endswith("::" + kind)), None)
                for x, val in st.facts.items():
                    if x.t == "DISCR" and val[0] == "=" and say(x.a[0]) == "self" and a:
                        v = a["vs"][val[1]][0]
                if v is None or v == "Eq":
                    continue
            if f["name"] == "rhs":
                sizes = {n for _, n, _ in st.obs[1]}

                def name(x):
                    if x.t == "FLD" and str(x.a[1][2]) == "b":
                        return "bound"
                    if x.t == "FLD" and str(x.a[1][2]) == "weight_sum":
                        return "total"
                    return None
                from .c_opb import lin
                g = lin(ret, name, lambda x: e.at(st, x))
                if g is None:
                    r.undec(f"{f['p']}: right-hand side not known")
                    continue
                want = {1: 1} if v is None else {"bound": 1} if v == "Lb" else {"total": 1, "bound": -1}
                if kind == "CardConstraint" and v == "Ub" and len(sizes) == 1:
                    n = next(iter(sizes))
                    want = plus({1: n} if n else {}, {"bound": 1}, -1)
                if g != want:
                    r.bad(f"{f['p']}:{v}", f"{f['p']} gives {form(g)} as the right-hand side of {'a clause' if v is None else 'an upper bound' if v == 'Ub' else 'a lower bound'} "
                          f"instead of {form(want)}", where(f))
                else:
                    r.ok("like", f"{f['p']} {v}: {form(g)}")
            elif v is not None and ret.t == "ADT" and len(ret.a[3]) == 2:
                flags = [x for x in ret.a[3] if x.t == "INT"]
                if len(flags) != 1:
                    r.undec(f"{f['p']}: literals not known")
                elif flags[0].a[0] != int(v == "Ub"):
                    r.bad(f"{f['p']}:{v}", f"{f['p']} {'negates' if flags[0].a[0] else 'does not negate'} the literals of {'an upper' if v == 'Ub' else 'a lower'} bound", where(f))
                else:
                    r.ok("like", f"{f['p']} {v}")
    # the iterators and closures that produce the terms
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib":
            continue
        m = re.search(r"Pigeon(W?)LitIter<.*> as (\w+::)*Iterator>::next$", f["p"])
        c = f["k"] == "closure" and re.search(r"(Clause|Cl|Objective) as (\w+::)*(Constraint|Objective)Like<.*>>::sum_iter::\{closure#\d+\}$", f["p"])
        if not m and not c:
            continue
        for neg in (0, 1):
            for s in ((0, 1) if m else (0,)):
                t = Text(F)
                l = lit("l", s)
                if m:
                    a = next((a for k2, a in F.adts.items() if k2.endswith(f"Pigeon{m[1]}LitIter")), None)
                    key = next((k2 for k2 in F.adts if k2.endswith(f"Pigeon{m[1]}LitIter")), None)
                    if a is None:
                        continue
                    names = [x[0] for x in a["vs"][0][2]]
                    if "negate" not in names:
                        r.undec(f"{f['p']}: fields {names}")
                        continue
                    me = ADT(key, 0, a["vs"][0][0], tuple(INT(neg) if x == "negate" else arg(x) for x in names))
                    t.items = {r"": box(mk("TUP", (l, arg("w")))) if m[1] else box(l)}
                    args = [box(me)]
                else:
                    l = lit("l", neg)
                    args = [arg("env"), mk("TUP", (l, arg("w"))) if "Objective" in f["p"] else box(l)]
                e, ends = evaluate(F, r, f, args, t)
                for ret, st in ends:
                    v = ret.a[3][0] if ret.t == "ADT" and ret.a[2] == "Some" else ret
                    got = say(v, lambda x: e.at(st, x))
                    n = (s ^ neg) if m else neg
                    w = "w" if "Objective" in f["p"] or m and m[1] else "1"
                    want = f"({w}, Axiom({n}, l.var))"
                    if got == want:
                        r.ok("like", f"{f['p']}: {got}")
                    elif "…" in got or "(" in got.replace("(1, Axiom(", "").replace("(w, Axiom(", ""):
                        r.undec(f"{f['p']}: {got[:70]}")
                    else:
                        r.bad(f"{f['p']}:{neg}{s}", f"{f['p']} turns the literal {say(l)}{' of a constraint with negated literals' if m and neg else ''} into the term {got} instead of {want}", where(f))


# ------------------------------------------------------------------ arguments of the lines
def arguments(F, r):
    for f in funcs(F, r"Proof::<\w+>::\w+$"):
        if f["name"] in ("new", "new_with_conclusion", "update_default_conclusion", "conclude", "multiline_comment", "delete_id_range", "move_range_to_core",
                         "strengthening_to_core") or not f["pub"] or f["nargs"] < 2:
            continue
        t = Text(F)
        t.inline = lambda eng, key, fn, call, st: fn["crate"] == CRATE and fn["name"] != "fmt"
        e = Engine(F, t)
        args = e.default_args(f)
        try:
            e.run(f["key"], ((), ()), args=args)
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        for a in args[1:]:
            missing = False
            some = 0
            for ret, st in t.ends:
                if failure(ret):
                    continue
                if any(n == 0 for b, n, _ in st.obs[1] if b.startswith(repr(a))) or any(b.startswith(repr(a)) for b, n, i in st.obs[1]):
                    some += 1
                    continue
                if any(x.t == "DISCR" and repr(a) in repr(x) and (v == ("=", 0) or v[0] == "!") for x, v in st.facts.items()):
                    some += 1
                    continue
                deep = [y for x in st.obs[0] if not isinstance(x, str) and x.t == "SHOWN" for y in subterms(x.a[1])]
                if a in deep or any(y.t == "REF" for y in deep):
                    some += 1
                else:
                    missing = True
            if missing and t.ends:
                r.bad(f"{f['p']}:{a.a[0]}", f"{f['p']} writes a line without its argument {a.a[0]}", where(f))
            elif some:
                r.ok("argument", f"{f['p']}: {a.a[0]}")


def l02(F, r):
    r.rules = ["the formatting and conversion functions of the proof writer and of the solver-side types map every case of a value (both signs, every variant) to the text or value denoting it",
               "relative ids, increments and ranges denote ids counted back from the next one; ranges are half-open",
               "every operator appends exactly its own symbol to a sequence that is not empty, and addition appends + exactly if both operands are not empty",
               "every argument of an operation appears in its line",
               "an upper bound is written as its negated literals summing to at least the total minus the bound, a lower bound as it stands, a clause with right-hand side 1"]
    tabled(F, r)
    ids(F, r)
    operations(F, r)
    formatters(F, r)
    likes(F, r)
    arguments(F, r)
    r.floor("case", 30, "cases of formatting functions")
    r.floor("operator", 15, "operators of sequences")
    r.floor("argument", 15, "arguments of operations")
    return {"level": "other", "explanation": "abstract interpretation of formatting and conversion functions per case of their argument; see rules"}


CHECKS = {"L02": l02}
TECH = {"L02": ("abstract interpretation of the formatting and conversion functions of proof logging over provenance terms, per constructor case",
                "the text or value produced for each case of the argument must denote it")}
