"""Piecewise linear terms and path conditions, evaluated region by region: every ordering of the symbols they are built from is
represented by small values, so two piecewise linear transfers that agree on all of them agree everywhere."""
from .mir import mk, last, INT, Some, NONE, ADT


class Unknown(Exception):
    pass


class Underflow(Exception):
    pass


ORD = "core::cmp::Ordering"


BITS = {"usize": 64, "isize": 64, "u64": 64, "i64": 64, "u32": 32, "i32": 32, "u8": 8, "u16": 16, "i8": 8, "i16": 16}


def folded(n, ty, xs):
    """calls on known integers; None if the result is not known or the call panics"""
    w = BITS[ty]
    x = xs[0]
    v = None
    if len(xs) == 2:
        y = xs[1]
        if n in ("min", "max"):
            v = min(x, y) if n == "min" else max(x, y)
        elif n == "saturating_sub" and not ty.startswith("i"):
            v = max(x - y, 0)
        elif n == "abs_diff":
            v = abs(x - y)
        elif n == "div_ceil" and y > 0 and x >= 0:
            v = -(-x // y)
        elif n == "pow" and 0 <= y < 64:
            v = x ** y
        elif n == "ilog" and x > 0 and y > 1:
            v = 0
            while y ** (v + 1) <= x:
                v += 1
        elif n == "is_multiple_of" and y > 0:
            v = int(x % y == 0)
        elif n == "next_multiple_of" and y > 0 and x >= 0:
            v = -(-x // y) * y
        elif n == "shl" and 0 <= y < w and x >= 0:
            v = x << y
        elif n == "shr" and 0 <= y < w and x >= 0:
            v = x >> y
    elif len(xs) == 1 and x >= 0:
        if n == "ilog2" and x > 0:
            v = x.bit_length() - 1
        elif n == "ilog10" and x > 0:
            v = len(str(x)) - 1
        elif n == "isqrt":
            v = int(x ** 0.5)
            v = v - 1 if v * v > x else v + 1 if (v + 1) ** 2 <= x else v
        elif n == "next_power_of_two":
            v = 1 << max(x - 1, 0).bit_length() if x > 1 else 1
        elif n == "is_power_of_two":
            v = int(x > 0 and x & (x - 1) == 0)
        elif n == "leading_zeros":
            v = w - x.bit_length()
        elif n == "trailing_zeros":
            v = (x & -x).bit_length() - 1 if x else w
        elif n == "count_ones":
            v = bin(x).count("1")
    return v if v is not None and abs(v) < 2 ** 63 else None


def arith(eng, st, c):
    """integer operations that are calls: normalised to terms the evaluation below understands; None if it is no such call"""
    n = c.name
    p = c.p or ""
    if c.key in eng.F.fns:
        return None
    if not (("usize" in p or "isize" in p or "core::num" in p or "core::cmp" in p or "core::ops::arith" in p)):
        return None
    ty = [t["s"].lstrip("&").replace("mut ", "") for t in c.argt]
    if not ty or ty[0] not in BITS:
        return None
    a = [eng.strip(st, x) for x in c.args]
    a = [x.a[0] if x.t == "BOXED" else x for x in a]
    if a and all(x.t == "INT" for x in a):
        v = folded(n, ty[0], [x.a[0] for x in a])
        if v is not None:
            return [(INT(v), st)]
    if len(a) == 2:
        x, y = a
        ops = {"add": "Add", "sub": "Sub", "mul": "Mul", "wrapping_add": "Add", "wrapping_sub": "Sub", "saturating_add": "Add",
               "lt": "Lt", "le": "Le", "eq": "Eq", "ne": "Ne", "gt": "Gt", "ge": "Ge"}
        if n in ops:
            o = ops[n]
            if o == "Ne":
                v = eng.neg(eng.bin(st, "Eq", x, y))
            else:
                v = eng.bin(st, o, x, y)
            return [(v, st)]
        if n in ("min", "max", "abs_diff"):
            return [(mk("PURE", n, (x, y)), st)]
        if n == "saturating_sub":
            return [(mk("PURE", n, (x, y)) if not ty[0].startswith("i") else eng.bin(st, "Sub", x, y), st)]
        if n == "checked_sub" and not ty[0].startswith("i"):
            out = []
            for truth, v in ((1, Some(mk("BIN", "Sub", x, y))), (0, NONE)):
                s = st.copy()
                if eng.assume(s, mk("BIN", "Le", y, x), truth):
                    out.append((v, s))
            return out
        if n in ("checked_sub", "checked_add", "checked_mul"):
            return [(Some(eng.bin(st, {"checked_sub": "Sub", "checked_add": "Add", "checked_mul": "Mul"}[n], x, y)), st)]
        if n == "cmp":
            out = []
            for i, (f, nm) in enumerate(((mk("BIN", "Lt", x, y), "Less"), (mk("BIN", "Eq", x, y), "Equal"), (mk("BIN", "Lt", y, x), "Greater"))):
                s = st.copy()
                if eng.assume(s, f, 1):
                    out.append((ADT(ORD, i, nm), s))
            return out
    if len(a) == 1 and n in ("unsigned_abs", "abs", "neg"):
        return [(mk("PURE", n, (a[0],)), st)]
    if len(a) == 3 and n == "clamp":
        return [(mk("PURE", n, tuple(a)), st)]
    return None


def ev(t, env, signed=frozenset()):
    """the value of a term; env maps atoms to numbers"""
    if t in env:
        return env[t]
    k = t.t
    if k == "INT":
        return t.a[0]
    if k == "NOT":
        return 1 - ev(t.a[0], env)
    if k == "BIN":
        op = t.a[0]
        if op in ("BitAnd", "BitOr"):
            x, y = ev(t.a[1], env), ev(t.a[2], env)
            return x & y if op == "BitAnd" else x | y
        x, y = ev(t.a[1], env), ev(t.a[2], env)
        if op == "Shr" and x >= 0 and 0 <= y < 64:
            return x >> y
        if op == "Shl" and x >= 0 and 0 <= y < 31:
            return x << y
        if op == "Add":
            return x + y
        if op == "Sub":
            if x < y and not (env.get("signed") or x < 0 or y < 0):
                raise Underflow(t)
            return x - y
        if op == "Mul":
            return x * y
        if op == "Div":
            if y == 0:
                raise Underflow(t)
            return abs(x) // abs(y) * (1 if x * y >= 0 else -1)
        if op == "Rem":
            if y == 0:
                raise Underflow(t)
            return abs(x) % abs(y) * (1 if x >= 0 else -1)
        if op in ("Lt", "Le", "Eq", "Ne", "Gt", "Ge"):
            return int({"Lt": x < y, "Le": x <= y, "Eq": x == y, "Ne": x != y, "Gt": x > y, "Ge": x >= y}[op])
        raise Unknown(t)
    if k == "PURE":
        n = last(t.a[0])
        xs = t.a[1]
        if n in ("min", "max"):
            return (min if n == "min" else max)(ev(x, env) for x in xs)
        if n == "saturating_sub":
            return max(0, ev(xs[0], env) - ev(xs[1], env))
        if n == "abs_diff":
            return abs(ev(xs[0], env) - ev(xs[1], env))
        if n in ("unsigned_abs", "abs"):
            return abs(ev(xs[0], env))
        if n == "neg":
            return -ev(xs[0], env)
        if n == "clamp":
            x, lo, hi = (ev(y, env) for y in xs)
            return max(lo, min(hi, x))
    if k == "OVF":
        x, y = ev(t.a[1], env), ev(t.a[2], env)
        return int(t.a[0] == "Sub" and x < y and not (env.get("signed") or x < 0 or y < 0))
    if k == "NEG":
        return -ev(t.a[0], env)
    if k == "NEGLIT":
        return ev(t.a[0], env) ^ 1
    if k == "UN" and t.a[0] == "Neg":
        return -ev(t.a[1], env)
    if k == "CONV":
        return ev(t.a[0], env)
    if k == "CAST":
        return ev(t.a[0], env)
    raise Unknown(t)


def feasible(facts, env):
    """True: the path is taken; False: it is not; None: it depends on something else as well. Underflow if the path panics"""
    r = True
    for t, f in facts.items():
        try:
            v = ev(t, env)
        except Unknown:
            r = None if r else r
            continue
        if (v != f[1]) if f[0] == "=" else (v in f[1]):
            return False
    return r


def atoms(t, out=None):
    out = set() if out is None else out
    if t.t in ("ARG", "FLD", "DEREF", "CALL"):
        out.add(t)
        return out
    for x in t.a:
        if hasattr(x, "t"):
            atoms(x, out)
        elif isinstance(x, tuple):
            for y in x:
                if hasattr(y, "t"):
                    atoms(y, out)
    return out
