"""Lists of known length whose elements are symbolic: loops over them, iterator chains and vectors built from them are followed
concretely, however they are written. Used by clients with lists = True, next to the analyses for lists of any length."""
from .mir import mk, Some, Ok, Err, ADT, INT, FALSE, TRUE, UNIT, NONE, OPTION, RESULT, V, Budget
from . import models

RANGE = ("core::ops::range::Range", "core::ops::range::RangeInclusive", "core::ops::range::RangeFrom", "core::ops::range::RangeTo",
         "core::ops::range::RangeFull", "core::ops::range::RangeToInclusive")


def LIST(xs):
    return mk("LIST", tuple(xs))


def PTR(v):
    return mk("BOXED", v)


def deref(v):
    return v.a[0] if v.t == "BOXED" else mk("DEREF", v)


def under(eng, st, v):
    """the list or iterator a value is, points to, or views"""
    for _ in range(12):
        if v.t == "REF":
            v = eng.read(st, v.a[0], v.a[1])
        elif v.t == "BOXED":
            v = v.a[0]
        elif v.t == "VIEW":
            v = v.a[0]
        elif v.t == "ADT" and len(v.a[3]) == 1 and v.a[3][0].t in ("LIST", "LIT"):
            v = v.a[3][0]
        elif v.t == "ITER" and (len(v.a) == 1 or v.a[1] in ("into_iter",)):
            v = v.a[0]
        else:
            break
    return v


def store_at(eng, st, v, new):
    """overwrites the iterator or vector a reference points to"""
    loc = None
    for _ in range(12):
        if v.t == "REF":
            loc = (v.a[0], v.a[1])
            v = eng.read(st, *loc)
        elif v.t == "ADT" and len(v.a[3]) == 1 and v.a[3][0].t in ("LIST", "LIT"):
            new = mk("ADT", v.a[0], v.a[1], v.a[2], (new,))
            break
        else:
            break
    if loc is None:
        return False
    eng.write(st, loc[0], loc[1], new)
    return True


def place(eng, st, v):
    """where the vector a reference points to is stored: (root, path)"""
    loc = None
    for _ in range(12):
        if v.t == "REF":
            loc = (v.a[0], tuple(v.a[1]))
            v = eng.read(st, *loc)
        elif v.t == "ADT" and len(v.a[3]) == 1 and v.a[3][0].t in ("LIST", "LIT") and loc:
            a = eng.F.adts.get(v.a[0])
            loc = (loc[0], loc[1] + ((v.a[2] if a and a["k"] == "enum" else None, 0, a["vs"][v.a[1]][2][0][0] if a else "0"),))
            v = v.a[3][0]
        else:
            break
    return loc if v.t == "LIST" else None


def ptr(eng, st, v, i, x):
    """a pointer to element i that can be written through, if the vector is known to be stored somewhere"""
    loc = place(eng, st, v)
    return mk("REF", loc[0], loc[1] + (("[]", INT(i), "[]"),)) if loc else PTR(x)


def seq(xs):
    return mk("LIT", "seq", tuple(xs))


def rng(v):
    """a range with known ends as (low, high or None)"""
    if v.t != "ADT" or not v.a[0].startswith("core::ops::range::Range"):
        return None
    xs = v.a[3]
    n = v.a[0].rsplit("::", 1)[1]
    if n == "RangeFull":
        return (0, None)
    if any(x.t != "INT" for x in xs[:2]):
        return None
    if n == "Range":
        return (xs[0].a[0], xs[1].a[0])
    if n == "RangeInclusive":
        return (xs[0].a[0], xs[1].a[0] + 1)
    if n == "RangeFrom":
        return (xs[0].a[0], None)
    if n == "RangeTo":
        return (0, xs[0].a[0])
    if n == "RangeToInclusive":
        return (0, xs[0].a[0] + 1)
    return None


def as_iter(eng, st, v, byref=None):
    """the concrete iterator for something iterable, None if it is not concrete"""
    r = byref if byref is not None else v.t in ("REF", "BOXED")
    u = under(eng, st, v)
    if u.t == "LIT":
        return u
    if u.t in ("LIST", "ARR"):
        return seq([PTR(x) for x in u.a[0]] if r else u.a[0])
    if u.t == "ADT" and u.a[0] == OPTION:
        if u.a[2] == "None":
            return seq(())
        return seq(u.a[3])
    q = rng(u)
    if q and q[1] is not None and q[1] - q[0] < 40:
        return seq([INT(i) for i in range(q[0], q[1])])
    if q and q[1] is None and u.a[0].endswith("RangeFrom"):
        return mk("LIT", "from", q[0])
    return None


def nxt(eng, st, c, it, depth, stack, tag=0):
    """[(element or None, iterator after it, state)]"""
    k = it.a[0]
    ap = lambda s, f, xs: eng.apply(s, c, f, xs, depth, stack, tag)
    if k == "seq":
        xs = it.a[1]
        return [(xs[0], seq(xs[1:]), st)] if xs else [(None, it, st)]
    if k == "from":
        return [(INT(it.a[1]), mk("LIT", "from", it.a[1] + 1), st)]
    inner = it.a[1]
    out = []
    if k in ("map", "inspect"):
        for e, i2, s in nxt(eng, st, c, inner, depth, stack, tag * 3 + 1):
            if e is None:
                out.append((None, mk("LIT", k, i2, it.a[2]), s))
                continue
            for r, s2 in ap(s, it.a[2], ((e,) if k == "map" else (PTR(e),))):
                out.append((r if k == "map" else e, mk("LIT", k, i2, it.a[2]), s2))
        return out
    if k in ("filter", "filter_map", "take_while", "skip_while", "map_while"):
        work = [(inner, st)]
        n = 0
        while work:
            i, s = work.pop()
            n += 1
            if n > 400:
                return None
            for e, i2, s1 in nxt(eng, s, c, i, depth, stack, tag * 3 + 1):
                if e is None:
                    out.append((None, mk("LIT", k, i2, it.a[2]), s1))
                    continue
                for r, s2 in ap(s1, it.a[2], ((e,) if k in ("filter_map", "map_while") else (PTR(e),))):
                    if k in ("filter_map", "map_while"):
                        for var, pay, s3 in models.split(eng, s2, r, OPTION):
                            if var == "Some":
                                out.append((pay, mk("LIT", k, i2, it.a[2]), s3))
                            elif k == "map_while":
                                out.append((None, seq(()), s3))
                            else:
                                work.append((i2, s3))
                        continue
                    for val in (1, 0):
                        s3 = s2.copy()
                        if not eng.assume(s3, r, val):
                            continue
                        if k == "filter":
                            if val:
                                out.append((e, mk("LIT", k, i2, it.a[2]), s3))
                            else:
                                work.append((i2, s3))
                        elif k == "take_while":
                            out.append((e, mk("LIT", k, i2, it.a[2]), s3) if val else (None, seq(()), s3))
                        elif val:
                            work.append((i2, s3))
                        else:
                            out.append((e, i2, s3))
        return out
    if k == "chain":
        for e, i2, s in nxt(eng, st, c, inner, depth, stack, tag * 3 + 1):
            if e is not None:
                out.append((e, mk("LIT", k, i2, it.a[2]), s))
            else:
                out += nxt(eng, s, c, it.a[2], depth, stack, tag * 3 + 2)
        return out
    if k == "zip":
        for e, i2, s in nxt(eng, st, c, inner, depth, stack, tag * 3 + 1):
            if e is None:
                out.append((None, mk("LIT", k, i2, it.a[2]), s))
                continue
            for e2, j2, s2 in nxt(eng, s, c, it.a[2], depth, stack, tag * 3 + 2):
                out.append((mk("TUP", (e, e2)) if e2 is not None else None, mk("LIT", k, i2, j2), s2))
        return out
    if k == "enumerate":
        for e, i2, s in nxt(eng, st, c, inner, depth, stack, tag * 3 + 1):
            out.append((None if e is None else mk("TUP", (INT(it.a[2]), e)), mk("LIT", k, i2, it.a[2] + 1), s))
        return out
    if k == "take":
        if it.a[2] <= 0:
            return [(None, it, st)]
        return [(e, mk("LIT", k, i2, it.a[2] - 1), s) for e, i2, s in nxt(eng, st, c, inner, depth, stack, tag * 3 + 1)]
    if k == "skip":
        if it.a[2] <= 0:
            return nxt(eng, st, c, inner, depth, stack, tag * 3 + 1)
        for e, i2, s in nxt(eng, st, c, inner, depth, stack, tag * 3 + 1):
            if e is None:
                out.append((None, i2, s))
            else:
                out += nxt(eng, s, c, mk("LIT", "skip", i2, it.a[2] - 1), depth, stack, tag * 3 + 1)
        return out
    if k == "deref":
        return [(None if e is None else (eng.at(s, e) if e.t in ("REF", "BOXED") else e), mk("LIT", k, i2), s)
                for e, i2, s in nxt(eng, st, c, inner, depth, stack, tag * 3 + 1)]
    if k == "flat":
        cur = it.a[3]
        if cur is not None:
            for e, i2, s in nxt(eng, st, c, cur, depth, stack, tag * 3 + 2):
                if e is not None:
                    out.append((e, mk("LIT", k, inner, it.a[2], i2), s))
                else:
                    out += nxt(eng, s, c, mk("LIT", k, inner, it.a[2], None), depth, stack, tag)
            return out
        for e, i2, s in nxt(eng, st, c, inner, depth, stack, tag * 3 + 1):
            if e is None:
                out.append((None, mk("LIT", k, i2, it.a[2], None), s))
                continue
            for r, s2 in (ap(s, it.a[2], (e,)) if it.a[2] is not None else [(e, s)]):
                j = as_iter(eng, s2, r)
                if j is None:
                    raise Unknown()
                out += nxt(eng, s2, c, mk("LIT", k, i2, it.a[2], j), depth, stack, tag)
        return out
    if k == "peek":
        if it.a[2] is not None:
            return [(it.a[2][0], mk("LIT", k, inner, None), st)]
        return [(e, mk("LIT", k, i2, None), s) for e, i2, s in nxt(eng, st, c, inner, depth, stack, tag * 3 + 1)]
    raise Unknown()


class Unknown(Budget):
    pass


def drain(eng, st, c, it, depth, stack):
    """[(elements, state)]"""
    out, work, n = [], [((), it, st)], 0
    while work:
        xs, i, s = work.pop()
        n += 1
        if n > 3000:
            raise Unknown()
        for e, i2, s2 in nxt(eng, s, c, i, depth, stack):
            if e is None:
                out.append((xs, s2))
            else:
                work.append((xs + (e,), i2, s2))
    return out


ADAPT = {"map": "map", "inspect": "inspect", "filter": "filter", "filter_map": "filter_map", "take_while": "take_while",
         "skip_while": "skip_while", "map_while": "map_while"}


def call(eng, st, c, depth, stack):
    try:
        return call_(eng, st, c, depth, stack)
    except Unknown:
        return None


def call_(eng, st, c, depth, stack):
    n, a, p = c.name, c.args, c.p
    if p.startswith("alloc::vec::Vec") and n in ("new", "with_capacity", "default") or \
            n == "default" and "alloc::vec::Vec<" in c.dty["s"][:16]:
        return [(LIST(()), st)]
    if not a:
        return [(seq(()), st)] if p.startswith("core::iter::sources::empty") else None
    if p.startswith("core::iter::sources::once::once"):
        return [(seq((a[0],)), st)]
    if p.startswith("core::iter::sources::repeat_n") and a[1].t == "INT":
        return [(seq((a[0],) * a[1].a[0]), st)]
    u = under(eng, st, a[0])
    if u.t == "ARR":
        u = LIST(u.a[0])
    if n == "into_vec" and u.t == "LIST" or n in ("box_assume_init_into_vec_unsafe",) and u.t == "LIST":
        return [(u, st)]
    if n == "from_elem" and len(a) == 2 and a[1].t == "INT" and a[1].a[0] < 40:
        return [(LIST((a[0],) * a[1].a[0]), st)]
    isit = u.t == "LIT" or rng(u) is not None and n in (
        "next", "into_iter", "map", "rev", "for_each", "try_for_each", "zip", "filter", "chain", "flat_map", "filter_map", "enumerate", "take",
        "skip", "any", "all", "find", "fold", "try_fold", "collect", "cycle", "peekable", "inspect", "take_while", "skip_while")
    if u.t == "ADT" and u.a[0] == OPTION and n in ("into_iter", "iter"):
        return [(seq([PTR(x) if n == "iter" else x for x in u.a[3]] if u.a[2] == "Some" else ()), st)]
    if u.t not in ("LIST", "LIT") and not isit:
        return None
    if u.t == "LIST":
        xs = u.a[0]
        k = len(xs)
        byref = c.argt[0]["k"] in ("ref", "ptr") or n in ("iter", "iter_mut")
        if n in ("len", "n_lits"):
            return [(INT(k), st)]
        if n == "is_empty":
            return [(INT(int(k == 0)), st)]
        if n in ("as_ptr", "as_mut_ptr", "as_slice", "as_mut_slice", "as_ref", "as_mut", "deref", "deref_mut", "borrow", "borrow_mut", "cast",
                 "cast_const", "cast_mut"):
            return [(a[0] if a[0].t in ("REF", "BOXED") else PTR(u), st)]
        if n in ("from", "into") and c.key in eng.F.fns:
            return None
        if n in ("clone", "to_vec", "to_owned", "into_boxed_slice", "into_vec", "from", "into", "into_inner", "cloned"):
            return [(u, st)]
        if n == "iter_mut" or n == "into_iter" and byref and "mut " in c.argt[0]["s"][:12]:
            return [(seq([ptr(eng, st, a[0], i, x) for i, x in enumerate(xs)]), st)]
        if n in ("first_mut", "last_mut"):
            return [(Some(ptr(eng, st, a[0], 0 if n == "first_mut" else k - 1, xs[0 if n == "first_mut" else -1])) if k else NONE, st)]
        if n in ("iter", "into_iter"):
            return [(seq([PTR(x) for x in xs] if byref else xs), st)]
        if n == "drain" and len(a) == 2:
            q = rng(eng.strip(st, a[1]))
            if q is None:
                return None
            s = st.copy()
            hi = k if q[1] is None else q[1]
            store_at(eng, s, a[0], LIST(xs[:q[0]] + xs[hi:]))
            return [(seq(xs[q[0]:hi]), s)]
        if n in ("first", "last"):
            return [(Some(PTR(xs[0 if n == "first" else -1])) if k else NONE, st)]
        if n in ("split_first", "split_last"):
            if not k:
                return [(NONE, st)]
            h, t = (xs[0], xs[1:]) if n == "split_first" else (xs[-1], xs[:-1])
            return [(Some(mk("TUP", (PTR(h), PTR(LIST(t))))), st)]
        if n in ("get", "index", "get_unchecked", "index_mut", "get_mut") and len(a) == 2:
            i = eng.strip(st, a[1])
            if i.t == "INT":
                if not 0 <= i.a[0] < k:
                    return [(NONE, st)] if n.startswith("get") else []
                e = ptr(eng, st, a[0], i.a[0], xs[i.a[0]]) if n in ("index_mut", "get_mut") else PTR(xs[i.a[0]])
                return [(Some(e) if n in ("get", "get_mut") else e, st)]
            q = rng(i)
            if q:
                hi = k if q[1] is None else q[1]
                if not q[0] <= hi <= k:
                    return [(NONE, st)] if n == "get" else []
                e = PTR(LIST(xs[q[0]:hi]))
                return [(Some(e) if n == "get" else e, st)]
            return None
        if n == "split_at" and a[1].t == "INT" and a[1].a[0] <= k:
            i = a[1].a[0]
            return [(mk("TUP", (PTR(LIST(xs[:i])), PTR(LIST(xs[i:])))), st)]
        if n in ("chunks", "chunks_exact") and a[1].t == "INT" and a[1].a[0] > 0:
            m = a[1].a[0]
            ch = [xs[i:i + m] for i in range(0, k, m)]
            return [(seq([PTR(LIST(x)) for x in ch if n == "chunks" or len(x) == m]), st)]
        if n == "windows" and a[1].t == "INT" and a[1].a[0] > 0:
            m = a[1].a[0]
            return [(seq([PTR(LIST(xs[i:i + m])) for i in range(k - m + 1)]), st)]
        if n in ("push", "extend_one"):
            s = st.copy()
            return [(UNIT, s)] if store_at(eng, s, a[0], LIST(xs + (a[1],))) else None
        if n == "insert" and a[1].t == "INT":
            s = st.copy()
            i = a[1].a[0]
            return [(UNIT, s)] if store_at(eng, s, a[0], LIST(xs[:i] + (a[2],) + xs[i:])) else None
        if n == "pop":
            s = st.copy()
            if not k:
                return [(NONE, s)]
            return [(Some(xs[-1]), s)] if store_at(eng, s, a[0], LIST(xs[:-1])) else None
        if n in ("reserve", "reserve_exact", "shrink_to_fit"):
            return [(UNIT, st)]
        if n == "clear":
            s = st.copy()
            return [(UNIT, s)] if store_at(eng, s, a[0], LIST(())) else None
        if n in ("remove", "swap_remove") and len(a) == 2 and a[1].t == "INT" and p.startswith("alloc::vec::Vec"):
            s, i = st.copy(), a[1].a[0]
            if i >= k:
                return []
            ys = xs[:i] + (xs[i + 1:] if n == "remove" or i == k - 1 else xs[-1:] + xs[i + 1:-1])
            return [(xs[i], s)] if store_at(eng, s, a[0], LIST(ys)) else None
        if n == "reverse":
            s = st.copy()
            return [(UNIT, s)] if store_at(eng, s, a[0], LIST(xs[::-1])) else None
        if n == "truncate" and a[1].t == "INT":
            s = st.copy()
            return [(UNIT, s)] if store_at(eng, s, a[0], LIST(xs[:a[1].a[0]])) else None
        if n in ("extend_from_slice", "append", "extend"):
            j = as_iter(eng, st, a[1], False if n != "extend" else None)
            if j is None:
                return None
            out = []
            for ys, s in drain(eng, st, c, j, depth, stack):
                s = s.copy()
                if not store_at(eng, s, a[0], LIST(xs + tuple(eng.at(s, y) if y.t in ("BOXED", "REF") and n == "extend" else y for y in ys))):
                    return None
                if n == "append":
                    store_at(eng, s, a[1], LIST(()))
                out.append((UNIT, s))
            return out
        if n in ("sort", "sort_unstable", "dedup", "retain", "contains", "sort_by", "sort_by_key"):
            return None
        return None
    # iterators
    it = as_iter(eng, st, a[0])
    if it is None:
        return None
    if n in ("into_iter", "by_ref", "fuse", "iter"):
        return [(a[0] if n == "by_ref" else it, st)]
    if n in ("copied", "cloned"):
        return [(mk("LIT", "deref", it), st)]
    if n in ADAPT:
        return [(mk("LIT", ADAPT[n], it, a[1]), st)]
    if n in ("chain", "zip"):
        j = as_iter(eng, st, a[1])
        return [(mk("LIT", n, it, j), st)] if j is not None else None
    if n == "enumerate":
        return [(mk("LIT", n, it, 0), st)]
    if n in ("take", "skip") and a[1].t == "INT":
        return [(mk("LIT", n, it, a[1].a[0]), st)]
    if n == "flat_map":
        return [(mk("LIT", "flat", it, a[1], None), st)]
    if n == "flatten":
        return [(mk("LIT", "flat", it, None, None), st)]
    if n == "peekable":
        return [(mk("LIT", "peek", it, None), st)]
    if n == "rev":
        return [(seq(xs[::-1]), s) for xs, s in drain(eng, st, c, it, depth, stack)]
    if n in ("len", "count"):
        return [(INT(len(xs)), s) for xs, s in drain(eng, st, c, it, depth, stack)]
    if n == "next":
        out = []
        for e, i2, s in nxt(eng, st, c, it, depth, stack):
            s = s.copy()
            if not store_at(eng, s, a[0], i2):
                return None
            out.append((NONE if e is None else Some(e), s))
        return out
    if n in ("peek", "next_if") and it.a[0] == "peek" and n == "peek":
        out = []
        for e, i2, s in nxt(eng, st, c, it, depth, stack):
            s = s.copy()
            store_at(eng, s, a[0], mk("LIT", "peek", i2.a[1], (e,)))
            out.append((NONE if e is None else Some(PTR(e)), s))
        return out
    ap = lambda s, f, ys: eng.apply(s, c, f, ys, depth, stack, 5)
    if n in ("for_each", "try_for_each", "fold", "try_fold", "any", "all", "find", "position"):
        out, work, m = [], [(it, a[1] if n in ("fold", "try_fold") else 0 if n == "position" else None, st)], 0
        f = a[2] if n in ("fold", "try_fold") else a[1]
        while work:
            i, acc, s = work.pop()
            m += 1
            if m > 3000:
                raise Unknown()
            for e, i2, s2 in nxt(eng, s, c, i, depth, stack):
                if e is None:
                    if n in ("find", "position"):
                        out.append((NONE, s2))
                    elif n in ("any", "all"):
                        out.append((INT(int(n == "all")), s2))
                    elif n in ("try_for_each", "try_fold"):
                        v = acc if n == "try_fold" else UNIT
                        out.append((Some(v) if c.dty.get("d") == OPTION else Ok(v), s2))
                    else:
                        out.append((acc if n == "fold" else UNIT, s2))
                    continue
                args = (acc, e) if n in ("fold", "try_fold") else (PTR(e),) if n == "find" else (e,)
                for r, s3 in ap(s2, f, args):
                    if n == "for_each":
                        work.append((i2, None, s3))
                    elif n == "fold":
                        work.append((i2, r, s3))
                    elif n in ("try_for_each", "try_fold"):
                        key = OPTION if c.dty.get("d") == OPTION else RESULT
                        for var, pay, s4 in models.split(eng, s3, r, key):
                            if var in ("Ok", "Some"):
                                work.append((i2, pay, s4))
                            else:
                                out.append((Err(pay) if key == RESULT else NONE, s4))
                    else:
                        for val in (1, 0):
                            s4 = s3.copy()
                            if not eng.assume(s4, r, val):
                                continue
                            if n == "any" and val or n == "all" and not val:
                                out.append((INT(int(n == "any")), s4))
                            elif n in ("find", "position") and val:
                                out.append((Some(INT(acc) if n == "position" else e), s4))
                            else:
                                work.append((i2, acc + 1 if n == "position" else None, s4))
        return out
    if n in ("collect", "from_iter") or n == "extend":
        out = []
        d = c.dty.get("d")
        for xs, s in drain(eng, st, c, it, depth, stack):
            if d in (RESULT, OPTION):
                states = [((), s)]
                done = []
                for x in xs:
                    new = []
                    for ys, s1 in states:
                        for var, pay, s2 in models.split(eng, s1, x, d):
                            if var in ("Ok", "Some"):
                                new.append((ys + (pay,), s2))
                            else:
                                done.append((Err(pay) if d == RESULT else NONE, s2))
                    states = new
                out += done + [(Ok(LIST(ys)) if d == RESULT else Some(LIST(ys)), s1) for ys, s1 in states]
            else:
                out.append((LIST(xs), s))
        return out
    if n in ("last", "nth") and (n == "last" or a[1].t == "INT"):
        i = -1 if n == "last" else a[1].a[0]
        return [(Some(xs[i]) if xs and -1 <= i < len(xs) else NONE, s) for xs, s in drain(eng, st, c, it, depth, stack)]
    return None
