"""V02: encodings make up no variables."""
import re

from .mir import last

INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "core::ffi::c_int", "std::ffi::c_int"}
CREATE = re.compile(r"types::(Var|Lit)::\w+$")
ARITH = re.compile(r"^<types::(Var|Lit) as core::ops::(arith|bit)::(Add|Sub|AddAssign|SubAssign|Mul|Div|Rem|Shl|Shr)")


def scope(F):
    return [f for k, f in sorted(F.fns.items()) if f["crate"] == "rustsat.lib" and f["sp"][0].startswith("src/encodings")
            and not f.get("derived") and "serde" not in f["p"]]


def where(f, b):
    return f"{b['sp'][0]}:{b['sp'][1]}"


def isconst(o):
    return o[0] == "c"


def locals_of(o):
    return o[1][0] if o[0] in ("cp", "mv") else None


def uses_of(f, l):
    """(block, kind, what) for every use of a local: kind 'stmt' with the statement or 'term' with the terminator"""
    out = []

    def has(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list) and x[1] and x[1][0] == l:
                return True
            return any(has(y) for y in x)
        return False

    def ref(r):
        return r[0] in ("ref", "addr") and r[2][0] == l or r[0] in ("len", "discr") and r[1][0] == l
    for b in f["blocks"]:
        if b.get("cl"):
            continue
        for s in b["s"]:
            if s[0] == "=" and (has(s[2][1:]) or ref(s[2])):
                out.append((b, "stmt", s))
        t = b["t"]
        if t[0] == "call" and has(t[2]):
            out.append((b, "term", t))
        elif t[0] in ("switch", "assert") and has(t[1:3]):
            out.append((b, "term", t))
    return out


def v02(F, r):
    r.rules = ["no function of the encodings makes a variable or literal from integers, and none does arithmetic on variables or literals; the only exception is a "
               "constant literal that fills a buffer before it is overwritten",
               "a buffer that starts with such filler is only handed on through a slice with explicit bounds, never as a whole",
               "no function of the encodings creates a variable manager or makes one forget variables"]
    fns = scope(F)
    draws = 0
    for f in fns:
        r.analysed.add(f["key"])
        bad = False
        for b in f["blocks"]:
            if b.get("cl"):
                continue
            t = b["t"]
            if t[0] != "call":
                continue
            rp = t[1].get("rp") or t[1].get("p") or ""
            p = t[1].get("p") or ""
            n = last(p)
            if n in ("new_var", "new_lit"):
                draws += 1
                r.ok("draw", f"{f['p']}: {n}")
                continue
            if ARITH.search(rp):
                bad = True
                r.bad(f"{f['p']}:arith", f"{f['p']} computes a {'variable' if 'Var' in rp[:14] else 'literal'} by arithmetic instead of drawing it", where(f, b))
            elif CREATE.search(rp) and all(opty(f, o) in INTS for o in t[2]) and t[2]:
                if all(isconst(o) for o in t[2]):
                    why = filler(F, f, t[3][0])
                    if why:
                        bad = True
                        r.bad(f"{f['p']}:made", f"{f['p']}: the literal made by `{n}` {why}", where(f, b))
                    else:
                        r.ok("filler", f["p"])
                else:
                    bad = True
                    r.bad(f"{f['p']}:made", f"{f['p']} makes a variable or literal from an index (`{n}`) instead of drawing it", where(f, b))
            elif n == "forget_from" and "ManageVars" in (p + rp):
                bad = True
                r.bad(f"{f['p']}:forget", f"{f['p']} makes the variable manager forget variables", where(f, b))
            elif re.search(r"VarManager", rp) and n in ("default", "from_next_free", "new", "init"):
                bad = True
                r.bad(f"{f['p']}:manager", f"{f['p']} creates a variable manager of its own", where(f, b))
        if not bad:
            r.ok("function")
    r.floor("function", 300, "functions of the encodings")
    r.floor("draw", 15, "draws from the variable manager")
    return {"level": "other", "explanation": "scan of every call in every function of the encodings for constructions of variables and literals, with def-use tracking of filler literals; see rules"}


def opty(f, o):
    if o[0] == "c":
        return f["tys"][o[1]]["s"]
    pl = o[1]
    return f["tys"][pl[2]]["s"] if len(pl) > 2 else ""


def filler(F, f, l, d=0):
    """None if a value only fills buffers that are later overwritten, else what is wrong"""
    us = uses_of(f, l)
    if d > 6:
        return None
    for b, k, x in us:
        if k == "stmt":
            rv = x[2]
            dst = x[1][0]
            if x[1][1]:
                return "is stored outside a buffer"
            if rv[0] == "agg" and rv[1][0] == "array" or rv[0] == "rep":
                why = buffer(f, dst)
                if why:
                    return why
            elif rv[0] == "agg" and rv[1][0] == "tuple" or rv[0] == "use":
                why = filler(F, f, dst, d + 1)
                if why:
                    return why
            else:
                return "is used as a literal"
        else:
            n = last(x[1].get("p") or "") if x[0] == "call" else x[0]
            if n not in ("from_elem", "resize", "repeat_n", "fill", "box_new_uninit", "write", "box_new"):
                return f"reaches `{n}`"
    return None


def buffer(f, l, d=0):
    if d > 5:
        return None
    for b, k, x in uses_of(f, l):
        if k == "stmt":
            rv = x[2]
            if rv[0] == "use" and not rv[1][1][1] and not x[1][1]:
                why = buffer(f, x[1][0], d + 1)
                if why:
                    return why
            elif rv[0] in ("ref", "addr") and not [q for q in rv[2][1]]:
                why = slice_(f, x[1][0])
                if why:
                    return why
            elif rv[0] == "agg" and rv[1][0] == "closure":
                continue
        elif x[0] == "call":
            n = last(x[1].get("p") or "")
            if n not in ("index", "write") and not n.endswith("_mut"):
                return f"is handed on in its buffer as a whole to `{n}`"
    return None


def slice_(f, l, d=0):
    if d > 5:
        return None
    for b, k, x in uses_of(f, l):
        if k == "stmt":
            if x[2][0] in ("use", "cast", "ref", "addr") and not x[1][1]:
                why = slice_(f, x[1][0], d + 1)
                if why:
                    return why
        elif x[0] == "call":
            n = last(x[1].get("p") or "")
            if n in ("index", "index_mut", "get", "get_mut"):
                s = opty(f, x[2][1]) if len(x[2]) > 1 else ""
                if "RangeFull" in s:
                    return "is handed on in its buffer as a whole"
            elif n.endswith("_mut") or n == "into_iter" and x[2] and opty(f, x[2][0]).startswith("&mut"):
                continue                # a place to write to
            elif n not in ("len", "swap", "fill", "copy_from_slice", "split_at_mut"):
                return f"is handed on in its buffer as a whole to `{n}`"
    return None


CHECKS = {"V02": v02}
TECH = {"V02": ("whole-module query over the MIR of all encodings: every construction of and arithmetic on variables and literals, with def-use tracking of filler literals",
                "a literal or variable may only come from the input, from storage or from a draw; made-up ones are reported at the call")}
