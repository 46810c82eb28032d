"""Models of standard-library functions for the abstract interpreter."""
import re

from .mir import (mk, V, INT, UNIT, TRUE, FALSE, RESULT, OPTION, CFLOW, ADT, Ok, Err, Some, NONE,
                  LAZY, last)


INTT = re.compile(r"^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$")


def split(eng, st, v, key):
    """case split of an Option/Result value: list of (variant name, payload, State)"""
    if v.t == "ADT":
        return [(v.a[2], v.a[3][0] if v.a[3] else UNIT, st)]
    names = {RESULT: ("Ok", "Err"), OPTION: ("None", "Some"), CFLOW: ("Continue", "Break")}[key]
    out = []
    d = eng.discr(st, v)
    for i, n in enumerate(names):
        s = st.copy()
        if eng.assume(s, d, i):
            out.append((n, eng.field(s, v, (n, 0, "0")), s))
    return out


def model(eng, st, c, depth, stack):
    p = c.p
    n = c.name
    a = c.args
    if eng.c.lists:
        from . import lists
        r = lists.call(eng, st, c, depth, stack)
        if r is not None:
            return r
    if n in ("then", "then_some") and len(a) == 2 and c.argt[0]["s"] == "bool":
        out = []
        v = eng.strip(st, a[0])
        for b in (0, 1):
            s = st.copy()
            if not (v.a[0] == b if v.t == "INT" else eng.assume(s, v, b)):
                continue
            if not b:
                out.append((NONE, s))
            elif n == "then_some":
                out.append((Some(a[1]), s))
            else:
                out += [(Some(x), s2) for x, s2 in eng.apply(s, c, a[1], (), depth, stack)]
        return out
    if p == "anyhow::__private::not" or p.endswith("::Bool::not") and p.startswith("anyhow::"):
        return [(eng.neg(a[0]), st)]
    if p.startswith("core::ops::try_trait::"):
        if n == "branch":
            k = OPTION if c.argt[0].get("d") == OPTION else RESULT
            if c.argt[0].get("d") == CFLOW:
                return None
            out = []
            for var, pay, s in split(eng, st, a[0], k):
                if var in ("Ok", "Some"):
                    out.append((ADT(CFLOW, 0, "Continue", (pay,)), s))
                elif var == "Err":
                    out.append((ADT(CFLOW, 1, "Break", (Err(pay),)), s))
                else:
                    out.append((ADT(CFLOW, 1, "Break", (NONE,)), s))
            return out
        if n == "from_residual":
            v = a[0]
            if v.t == "ADT" and v.a[2] == "Err":
                src = c.argt[0]
                r = from_(eng, st, c, v.a[3][0], depth, stack)
                return [(Err(x), s) for x, s in r]
            if v.t == "ADT" and v.a[2] == "None":
                return [(NONE if c.dty.get("d") == OPTION else Err(UNIT), st)]
            if c.dty.get("d") == RESULT:
                return [(Err(eng.field(st, v, ("Err", 0, "0"))), st)]
            return [(NONE, st)]
        if n == "from_output":
            return [(Ok(a[0]) if c.dty.get("d") == RESULT else Some(a[0]), st)]
    if p.startswith("core::result::Result::<") or p.startswith("core::option::Option::<"):
        r = optres(eng, st, c, depth, stack)
        if r is not None:
            return r
    if p.startswith("anyhow::context::<impl anyhow::Context") or p == "anyhow::Context::context" \
            or p == "anyhow::Context::with_context":
        k = OPTION if c.argt[0].get("d") == OPTION else RESULT
        out = []
        for var, pay, s in split(eng, st, a[0], k):
            if var in ("Ok", "Some"):
                out.append((Ok(pay), s))
            else:
                out.append((Err(mk("CTXERR", pay)), s))
        return out
    if p in ("core::convert::Into::into", "core::convert::From::from"):
        if c.key in eng.F.fns:
            return None
        if c.key and "core::convert" in (c.rp or "") and p.endswith("into"):
            r = from_(eng, st, c, a[0], depth, stack)
            if r is not None:
                return r
        return [(eng.cap(mk("CONV", a[0], c.dty["s"])), st)] if c.argt[0]["s"] != c.dty["s"] else [(a[0], st)]
    if p in ("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from"):
        if c.key in eng.F.fns:
            return None
        if c.key is not None and p.endswith("try_into"):
            # blanket impl: U::try_from
            dst = c.dty
            tgt = None
            if dst.get("d") == RESULT:
                tt = c.fn["tys"][dst["a"][0]]
                cands = eng.F.timpl.get(("core::convert::TryFrom", tt.get("d") or tt["s"]), {}).get("try_from")
                if cands:
                    for k in cands:
                        g = eng.F.fns[k]
                        if g["tys"][g["locals"][1]]["s"] == c.argt[0]["s"] or len(cands) == 1:
                            return eng.inline(g, c, a, st, {}, depth, stack)
        v = eng.cap(mk("TRYCONV", a[0], c.dty["s"]))
        return [(v, st)]
    if p == "core::ops::bit::Not::not" and c.dty["k"] == "bool" and c.key not in eng.F.fns:
        return [(eng.neg(eng.conc(st, eng.strip(st, a[0]) if a[0].t == "REF" else mk("DEREF", a[0]))), st)]
    if p == "core::clone::Clone::clone":
        if c.key in eng.F.fns and not eng.F.fns[c.key].get("derived"):
            return None
        return [(eng.at(st, a[0]), st)]
    if p in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
             "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
             "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut"):
        if c.key in eng.F.fns:
            return None
        t = c.argt[0]
        inner = c.fn["tys"][t["a"][0]] if t.get("a") else {}
        if inner.get("d", "").endswith("ManuallyDrop"):
            return [(a[0], st)]
        if inner.get("k") == "ref" or inner.get("d", "").endswith("boxed::Box"):
            return [(eng.at(st, a[0]), st)]
        return [(eng.cap(mk("VIEW", a[0])) if a[0].t != "REF" else mk("REF", a[0].a[0], a[0].a[1]), st)]
    if p in ("core::mem::manually_drop::ManuallyDrop::<T>::new", "core::mem::manually_drop::ManuallyDrop::<T>::into_inner",
             "alloc::boxed::Box::<T>::into_raw", "alloc::boxed::Box::<T>::from_raw", "core::hint::must_use",
             "core::ptr::from_mut", "core::ptr::from_ref", "alloc::boxed::Box::<T, A>::into_raw",
             "alloc::boxed::Box::<T, A>::leak"):
        eng_ev = getattr(eng.c, "on_box", None)
        if eng_ev:
            eng_ev(eng, st, c)
        return [(a[0], st)]
    if p.endswith(("mut_ptr::<impl *mut T>::cast", "const_ptr::<impl *const T>::cast",
                   "const_ptr::<impl *const T>::cast_mut", "mut_ptr::<impl *mut T>::cast_const")):
        return [(a[0], st)]
    if p == "alloc::boxed::Box::<T>::new":
        root = mk("M", mk("CALL", c.site, "Box::new"))
        s = st.copy()
        s.store[root] = a[0]
        eng_ev = getattr(eng.c, "on_box", None)
        if eng_ev:
            eng_ev(eng, s, c)
        return [(mk("REF", root, ()), s)]
    if p in ("core::mem::replace", "core::mem::take", "core::option::Option::<T>::take", "core::option::Option::<T>::replace"):
        s = st.copy()
        root, path = eng.target(a[0])
        old = eng.read(s, root, path)
        if n == "take":
            new = NONE if "Option" in p or c.dty.get("d") == OPTION else mk("DEFAULT", c.dty["s"])
        else:
            new = a[1] if p == "core::mem::replace" else Some(a[1])
        eng.write(s, root, path, new, (c.fn, c.bb, 0))
        return [(old, s)]
    if p == "core::mem::swap":
        s = st.copy()
        r1, p1 = eng.target(a[0])
        r2, p2 = eng.target(a[1])
        x, y = eng.read(s, r1, p1), eng.read(s, r2, p2)
        eng.write(s, r1, p1, y, (c.fn, c.bb, 0))
        eng.write(s, r2, p2, x, (c.fn, c.bb, 0))
        return [(UNIT, s)]
    if p == "core::mem::drop":
        s = st.copy()
        r = eng.c.on_drop(eng, s, a[0], c.argt[0], c.fn, c.bb)
        return [(UNIT, x) for x in r] if r is not None else [(UNIT, s)]
    if p in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
        if p.endswith("::ne") and c.argt[0].get("a"):
            # default ne: through eq of the type
            t = c.fn["tys"][c.argt[0]["a"][0]]
            h = 0
            while t["k"] == "ref" and h < 3:
                t = c.fn["tys"][t["a"][0]]
                h += 1
            m = eng.F.timpl.get(("core::cmp::PartialEq", t.get("d") or t["s"]), {}).get("eq")
            if m and eng.c.inline(eng, m[0], eng.F.fns[m[0]], c, st):
                args = list(a)
                for _ in range(h):
                    args = [eng.at(st, x) for x in args]
                return [(eng.neg(v), s) for v, s in
                        eng.inline(eng.F.fns[m[0]], c, args, st, {}, depth, stack)]
        if c.key in eng.F.fns:
            return None
        t = c.fn["tys"][c.argt[0]["a"][0]] if c.argt[0].get("a") else {}
        x, y = eng.strip(st, a[0]), eng.strip(st, a[1])
        v = eng.bin(st, "Eq", x, y) if x.t != "CONST" else mk("BIN", "Eq", x, y)
        return [(eng.neg(v) if n == "ne" else v, st)]
    if p.startswith("core::cmp::PartialOrd::") and n in ("lt", "le", "gt", "ge") and c.key not in eng.F.fns:
        x, y = eng.strip(st, a[0]), eng.strip(st, a[1])
        return [(eng.bin(st, n.capitalize(), x, y), st)]
    if p in ("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp") and c.key not in eng.F.fns and c.argt[0].get("a") \
            and INTT.match(c.fn["tys"][c.argt[0]["a"][0]]["s"]):
        x, y = eng.strip(st, a[0]), eng.strip(st, a[1])
        out = []
        lt, eq = eng.bin(st, "Lt", x, y), eng.bin(st, "Eq", x, y)
        for i, nm, l, q in ((0, "Less", 1, 0), (1, "Equal", 0, 1), (2, "Greater", 0, 0)):
            s = st.copy()
            if eng.assume(s, lt, l) and eng.assume(s, eq, q):
                o = ADT("core::cmp::Ordering", i, nm)
                out.append((Some(o) if n == "partial_cmp" else o, s))
        return out
    if n in ("checked_sub", "checked_add", "checked_mul") and p.startswith("core::num::") and len(a) == 2 and c.dty.get("d") == OPTION:
        out = []
        b, op = (eng.bin(st, "Lt", a[0], a[1]), "Sub") if n == "checked_sub" else (mk("OVF", n[8:].capitalize(), *a), n[8:].capitalize())
        for x in (0, 1):
            s = st.copy()
            if eng.assume(s, b, x):
                out.append((NONE if x else Some(eng.bin(s, op, a[0], a[1])), s))
        return out
    if p.startswith("core::intrinsics::discriminant_value") or p == "core::mem::discriminant":
        return [(eng.discr(st, eng.at(st, a[0])), st)]
    if p in ("core::cmp::min", "core::cmp::max", "core::cmp::Ord::min", "core::cmp::Ord::max") and c.key not in eng.F.fns:
        if a[0].t == "INT" and a[1].t == "INT":
            return [(INT((min if n == "min" else max)(a[0].a[0], a[1].a[0])), st)]
        return [(eng.cap(mk("PURE", n, tuple(a))), st)]
    if n in ("saturating_sub", "saturating_add") and p.startswith("core::num::") and len(a) == 2 and a[0].t == "INT" and a[1].t == "INT" \
            and "<impl u" in p:
        return [(INT(max(0, a[0].a[0] - a[1].a[0]) if n.endswith("sub") else a[0].a[0] + a[1].a[0]), st)]
    if p in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
             "core::ops::function::Fn::call"):
        tup = a[1]
        args = tup.a[0] if tup.t == "TUP" else tuple(eng.field(st, tup, (None, i, str(i))) for i in range(1))
        return eng.apply(st, c, a[0], args, depth, stack)
    if p == "core::iter::traits::collect::IntoIterator::into_iter" and c.key not in eng.F.fns:
        x = a[0]
        return [(x if x.t in ("ITER",) or x.t == "CALL" else eng.cap(mk("ITER", x)), st)]
    if p.startswith("core::iter::traits::") or n in getattr(eng.c, "consumers", ()):
        r = iters(eng, st, c, depth, stack)
        if r is not None:
            return r
    if n in ("iter", "iter_mut", "drain", "into_iter", "chunks", "windows", "keys", "values") and a and \
            p.startswith(("core::slice", "alloc::", "std::collections")):
        return [(eng.cap(mk("ITER", a[0], n, *a[1:])), st)]
    if p in ("core::panicking::panic_nounwind",):
        return None
    if p == "core::ops::index::Index::index" and c.key not in eng.F.fns:
        v = eng.strip(st, a[0])
        return [(eng.cap(mk("ELREF", v, a[1])), st)] if False else None
    if p in ("core::ptr::null", "core::ptr::null_mut"):
        return [(mk("NULL"), st)]
    if n == "is_null" and p.startswith("core::ptr"):
        if a[0].t == "REF":
            return [(FALSE, st)]
        if a[0].t == "NULL":
            return [(TRUE, st)]
        return [(mk("PURE", "is_null", (a[0],)), st)]
    return None


def basedef(tys, t):
    while t["k"] in ("ref", "ptr") and t.get("a"):
        t = tys[t["a"][0]]
    return t.get("d")


def from_(eng, st, c, v, depth, stack):
    """error conversion by From into the destination's error / type"""
    dst = c.dty
    tt = None
    if dst.get("d") == RESULT and c.name == "from_residual":
        tt = c.fn["tys"][dst["a"][1]]
    else:
        tt = dst
    cands = eng.F.timpl.get(("core::convert::From", tt.get("d") or tt["s"]), {}).get("from") if tt else None
    src = c.argt[0]
    if c.name == "from_residual" and src.get("d") == RESULT:
        src = c.fn["tys"][src["a"][1]]
    if tt and src["s"] == tt["s"]:
        return [(v, st)]
    if cands:
        for k in cands:
            g = eng.F.fns[k]
            if basedef(g["tys"], g["tys"][g["locals"][1]]) != basedef(c.fn["tys"], src):
                continue
            if g["tys"][g["locals"][1]]["s"].split("::")[-1] == src["s"].split("::")[-1]:
                return eng.inline(g, c, [v], st, {}, depth, stack)
    return [(eng.cap(mk("CONV", v, tt["s"] if tt else "?")), st)]


def optres(eng, st, c, depth, stack):
    p, n, a = c.p, c.name, c.args
    key = OPTION if p.startswith("core::option") else RESULT
    good, bad = ("Some", "None") if key == OPTION else ("Ok", "Err")

    def G(x):
        return Some(x) if key == OPTION else Ok(x)

    def B(x):
        return NONE if key == OPTION else Err(x)

    def cases(v):
        return split(eng, st, v, key)

    ap = lambda s, f, xs, tag=0: eng.apply(s, c, f, xs, depth, stack, tag)
    if n in ("is_some", "is_ok", "is_none", "is_err"):
        v = eng.at(st, a[0])
        d = eng.discr(st, v)
        goodidx = 1 if key == OPTION else 0
        want = n in ("is_some", "is_ok")
        e = eng.bin(st, "Eq", d, INT(goodidx if want else 1 - goodidx))
        return [(e, st)]
    if n in ("unwrap", "expect", "unwrap_unchecked"):
        out = []
        for var, pay, s in cases(a[0]):
            if var == good:
                out.append((pay, s))
            else:
                h = getattr(eng.c, "on_unwrap_fail", None)
                if h:
                    h(eng, s, c)
        return out
    if n in ("unwrap_err", "expect_err"):
        return [(pay, s) for var, pay, s in cases(a[0]) if var == bad]
    if n == "unwrap_or":
        return [(pay if var == good else a[1], s) for var, pay, s in cases(a[0])]
    if n == "unwrap_or_default":
        return [(pay if var == good else mk("DEFAULT", c.dty["s"]), s) for var, pay, s in cases(a[0])]
    if n == "unwrap_or_else":
        out = []
        for var, pay, s in cases(a[0]):
            if var == good:
                out.append((pay, s))
            else:
                out += ap(s, a[1], () if key == OPTION else (pay,))
        return out
    if n == "map":
        out = []
        for var, pay, s in cases(a[0]):
            if var == good:
                out += [(G(r), s2) for r, s2 in ap(s, a[1], (pay,))]
            else:
                out.append((B(pay), s))
        return out
    if n in ("map_or", "map_or_else", "is_some_and", "is_ok_and", "is_none_or"):
        out = []
        f = a[2] if n in ("map_or", "map_or_else") else a[1]
        for var, pay, s in cases(a[0]):
            if var == good:
                out += ap(s, f, (pay,))
            elif n == "map_or":
                out.append((a[1], s))
            elif n == "map_or_else":
                out += ap(s, a[1], () if key == OPTION else (pay,), 1)
            else:
                out.append((TRUE if n == "is_none_or" else FALSE, s))
        return out
    if n == "map_err":
        out = []
        for var, pay, s in cases(a[0]):
            if var == good:
                out.append((Ok(pay), s))
            else:
                out += [(Err(r), s2) for r, s2 in ap(s, a[1], (pay,))]
        return out
    if n == "and_then":
        out = []
        for var, pay, s in cases(a[0]):
            if var == good:
                out += ap(s, a[1], (pay,))
            else:
                out.append((B(pay), s))
        return out
    if n in ("or_else",):
        out = []
        for var, pay, s in cases(a[0]):
            if var == good:
                out.append((G(pay), s))
            else:
                out += ap(s, a[1], () if key == OPTION else (pay,))
        return out
    if n == "or":
        return [(G(pay) if var == good else a[1], s) for var, pay, s in cases(a[0])]
    if n == "and":
        return [(a[1] if var == good else B(pay), s) for var, pay, s in cases(a[0])]
    if n == "ok_or":
        return [(Ok(pay) if var == good else Err(a[1]), s) for var, pay, s in cases(a[0])]
    if n == "ok_or_else":
        out = []
        for var, pay, s in cases(a[0]):
            if var == good:
                out.append((Ok(pay), s))
            else:
                out += [(Err(r), s2) for r, s2 in ap(s, a[1], ())]
        return out
    if n == "ok":
        return [(Some(pay) if var == good else NONE, s) for var, pay, s in cases(a[0])]
    if n == "err":
        return [(Some(pay) if var == bad else NONE, s) for var, pay, s in cases(a[0])]
    if n in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
        root, path = eng.target(a[0])
        v = eng.read(st, root, path)
        out = []
        for var, pay, s in cases(v):
            if var == good:
                out.append((G(mk("REF", root, path + ((good, 0, "0"),))), s))
            elif key == OPTION:
                out.append((NONE, s))
            else:
                out.append((Err(mk("REF", root, path + ((bad, 0, "0"),))), s))
        return out
    if n in ("copied", "cloned"):
        return [(G(eng.at(s, pay)) if var == good else B(pay), s) for var, pay, s in cases(a[0])]
    if n == "flatten" and key == OPTION:
        # Option<Option<T>>: the inner option, looked into
        out = []
        for var, pay, s in cases(a[0]):
            if var != good:
                out.append((NONE, s))
            else:
                out += [(Some(p2) if v2 == good else NONE, s2) for v2, p2, s2 in split(eng, s, pay, key)]
        return out
    if n == "xor":
        out = []
        for v1, p1, s1 in cases(a[0]):
            for v2, p2, s2 in split(eng, s1, a[1], key):
                out.append((Some(p1 if v1 == good else p2) if (v1 == good) != (v2 == good) else NONE, s2))
        return out
    if n == "zip":
        out = []
        for v1, p1, s1 in cases(a[0]):
            for v2, p2, s2 in split(eng, s1, a[1], key):
                out.append((Some(mk("TUP", (p1, p2))) if v1 == v2 == good else NONE, s2))
        return out
    if n == "filter":
        out = []
        for var, pay, s in cases(a[0]):
            if var != good:
                out.append((NONE, s))
                continue
            root = mk("M", mk("TMP", c.site))
            s.store[root] = pay
            for r, s2 in ap(s, a[1], (mk("REF", root, ()),)):
                s3 = s2.copy()
                if eng.assume(s3, r, 1):
                    out.append((Some(pay), s3))
                s3 = s2.copy()
                if eng.assume(s3, r, 0):
                    out.append((NONE, s3))
        return out
    if n in ("insert", "get_or_insert"):
        s = st.copy()
        root, path = eng.target(a[0])
        if n == "insert":
            eng.write(s, root, path, Some(a[1]), (c.fn, c.bb, 0))
            return [(mk("REF", root, path + (("Some", 0, "0"),)), s)]
    if n == "transpose":
        return None
    return None


def iters(eng, st, c, depth, stack):
    n, a = c.name, c.args
    if getattr(eng.c, "drive", False):
        from . import iterx
        return iterx.iters(eng, st, c, depth, stack)
    if n == "next" or n == "next_back":
        if c.key in eng.F.fns:
            return None
        it = eng.strip(st, a[0])
        cl = eng.closures_in(st, [it])
        sts = eng.run_closures(st, c, cl, depth, stack) if cl else [st]
        out = []
        for s in sts:
            el = elem(eng, s, c, it)
            s1 = s.copy()
            s2 = s.copy()
            if eng.c.on_iter(eng, s1, it, "elem", c) is not False:
                out.append((Some(el), s1))
            if eng.c.on_iter(eng, s2, it, "end", c) is not False:
                out.append((NONE, s2))
        return out
    if c.key in eng.F.fns:
        return None
    if n in LAZY:
        args = [eng.strip(st, x) if i == 0 else x for i, x in enumerate(a)]
        return [(eng.cap(mk("ITER", args[0], n, *args[1:])), st)]
    if n in ("for_each",):
        it = eng.strip(st, a[0])
        clos = eng.closures_in(st, [it])
        states = {st.key(): st}
        work = [st]
        k = 0
        while work:
            s = work.pop()
            s0 = [s]
            if clos:
                s0 = eng.run_closures(s, c, clos, depth, stack)
            for s in s0:
                s = eng.rename(s, c.site)
                el = elem(eng, s, c, it)
                eng.c.on_iter(eng, s, it, "elem", c)
                for r, s2 in eng.apply(s, c, a[1], (el,), depth, stack):
                    kk = s2.key()
                    if kk not in states:
                        states[kk] = s2
                        work.append(s2)
            k += 1
            if k > 300:
                raise eng.Budget("for_each at " + c.where)
        out = []
        for s in states.values():
            s = s.copy()
            eng.c.on_iter(eng, s, it, "end", c)
            out.append((UNIT, s))
        return out
    if n in ("try_for_each", "try_fold"):
        it = eng.strip(st, a[0])
        clos = eng.closures_in(st, [it])
        isopt = c.dty.get("d") == OPTION
        key = OPTION if isopt else RESULT
        states = {st.key(): st}
        work = [st]
        errs = []
        f = a[-1]
        k = 0
        while work:
            s = work.pop()
            s0 = [s]
            if clos:
                s0 = eng.run_closures(s, c, clos, depth, stack)
            for s in s0:
                s = eng.rename(s, c.site)
                el = elem(eng, s, c, it)
                eng.c.on_iter(eng, s, it, "elem", c)
                args = (el,) if n == "try_for_each" else (mk("ELEM", c.site, 0), el)
                for r, s2 in eng.apply(s, c, f, args, depth, stack):
                    for var, pay, s3 in split(eng, s2, r, key):
                        if var in ("Ok", "Some"):
                            kk = s3.key()
                            if kk not in states:
                                states[kk] = s3
                                work.append(s3)
                        else:
                            errs.append((NONE if isopt else Err(pay), s3))
            k += 1
            if k > 300:
                raise eng.Budget("try_for_each at " + c.where)
        okv = UNIT if n == "try_for_each" else mk("CALL", c.site, "try_fold", it)
        g = Some(okv) if isopt else Ok(okv)
        out = []
        for s in states.values():
            s = s.copy()
            eng.c.on_iter(eng, s, it, "end", c)
            out.append((g, s))
        return out + errs
    return None


def elem(eng, st, c, it):
    """an arbitrary element of the iterated collection"""
    return eng.cap(mk("CALL", c.site, "elem", it))


NEUTRAL = {"iter", "into_iter", "copied", "cloned", "by_ref", "iter_mut", "rev", "fuse", "inspect", "peekable",
           "drain", "enumerate"}


def source(it):
    """(what is iterated, the adapters applied to it)"""
    ad = []
    while True:
        if it.t == "ITER":
            ad.append(it.a[1] if len(it.a) > 1 else "into_iter")
            it = it.a[0]
        elif it.t == "VIEW":
            it = it.a[0]
        else:
            return it, [x for x in ad if x not in NEUTRAL]
