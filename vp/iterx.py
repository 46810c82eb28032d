"""Iterator chains driven element by element: closures of adapters see the element of the adapter below them.
Used by clients with drive = True."""
from .mir import mk, Some, Ok, Err, ADT, INT, FALSE, TRUE, UNIT, NONE, OPTION, RESULT, last, LAZY, Budget
from . import models

PASS = {"iter", "into_iter", "by_ref", "iter_mut", "rev", "fuse", "peekable", "drain", "copied", "cloned", "keys", "values", "values_mut",
        "into_keys", "into_values"}
LOSSY = {"skip", "take", "step_by", "skip_while", "take_while", "map_while", "cycle", "array_chunks", "dedup"}
LIMIT = 400


class Skip:
    pass


SKIP = Skip()


def is_chain(v):
    return v.t == "ITER"


def elems(eng, st, c, it, depth, stack, tag=0):
    """[(element or SKIP, state)] for one step of the iterator, the step being an arbitrary one"""
    it = eng.strip(st, it)
    if it.t == "ADT" and it.a[2] == "Some":
        return [(it.a[3][0], st)]
    if it.t != "ITER" or (it.a[1] if len(it.a) > 1 else "into_iter") in PASS:
        base = it
        while base.t == "ITER" and (base.a[1] if len(base.a) > 1 else "into_iter") in PASS:
            base = base.a[0]
        if base.t == "REF":
            under = eng.strip(st, base)
            if under.t == "ITER" and under != it:
                base = under                # an iterator used through a mutable reference to it
                while base.t == "ITER" and (base.a[1] if len(base.a) > 1 else "into_iter") in PASS and base.a[0].t == "ITER":
                    base = base.a[0]
        if base.t == "ITER":
            # the neutral adapters on top of a chain
            r = elems(eng, st, c, base, depth, stack, tag)
            n = it.a[1] if len(it.a) > 1 else ""
            if n in ("copied", "cloned"):
                return [(e if e is SKIP else eng.at(s, e), s) for e, s in r]
            return r
        s = st.copy()
        el = models.elem(eng, s, c, base)
        if eng.c.on_iter(eng, s, base, "elem", c) is False:
            return []
        return [(el, s)]
    n, args = it.a[1], it.a[2:]
    out = []
    inner = lambda: elems(eng, st, c, it.a[0], depth, stack, tag * 4 + 1)
    ap = lambda s, f, xs: eng.apply(s, c, f, xs, depth, stack, tag * 4 + 2)
    if n == "map" or n == "inspect":
        for e, s in inner():
            if e is SKIP:
                out.append((e, s))
            else:
                out += [((r if n == "map" else e), s2) for r, s2 in ap(s, args[0], (e,))]
        return out
    if n == "filter":
        for e, s in inner():
            if e is SKIP:
                out.append((e, s))
                continue
            for r, s2 in ap(s, args[0], (e,)):
                s3 = s2.copy()
                if eng.assume(s3, r, 1):
                    out.append((e, s3))
                s3 = s2.copy()
                if eng.assume(s3, r, 0):
                    h = getattr(eng.c, "on_filtered", None)
                    if h:
                        h(eng, s3, e, c)
                    out.append((SKIP, s3))
        return out
    if n == "filter_map":
        for e, s in inner():
            if e is SKIP:
                out.append((e, s))
                continue
            for r, s2 in ap(s, args[0], (e,)):
                for var, pay, s3 in models.split(eng, s2, r, OPTION):
                    if var == "Some":
                        out.append((pay, s3))
                    else:
                        h = getattr(eng.c, "on_filtered", None)
                        if h:
                            h(eng, s3, e, c)
                        out.append((SKIP, s3))
        return out
    if n in ("flat_map", "flatten"):
        for e, s in inner():
            if e is SKIP:
                out.append((e, s))
                continue
            rs = ap(s, args[0], (e,)) if n == "flat_map" else [(e, s)]
            for r, s2 in rs:
                r = eng.strip(s2, r)
                if r.t == "ADT" and r.a[2] in ("None",):
                    out.append((SKIP, s2))
                    continue
                if r.t == "ADT" and r.a[2] == "Some":
                    out.append((r.a[3][0], s2))
                    continue
                for e2, s3 in elems(eng, s2, c, r, depth, stack, tag * 4 + 3):
                    # the inner iterator runs to its end for every outer element
                    s4 = s3.copy()
                    ends(eng, s4, c, r)
                    out.append((e2, s4))
        return out
    if n == "chain":
        a = inner()
        b = elems(eng, st, c, args[0], depth, stack, tag * 4 + 3)
        return a + b
    if n == "enumerate":
        return [(e if e is SKIP else mk("TUP", (mk("PURE", "count", (c.site,)), e)), s) for e, s in inner()]
    if n == "zip":
        for e, s in inner():
            if e is SKIP:
                out.append((e, s))
                continue
            out += [(e2 if e2 is SKIP else mk("TUP", (e, e2)), s2) for e2, s2 in elems(eng, s, c, args[0], depth, stack, tag * 4 + 3)]
        return out
    h = getattr(eng.c, "on_lossy", None)
    for e, s in inner():
        if h:
            h(eng, s, it, n, c)
        out.append((e, s))
    return out


def bases(it):
    """the collections a chain runs over at its outer level"""
    if it.t != "ITER":
        return [it]
    n = it.a[1] if len(it.a) > 1 else "into_iter"
    r = bases(it.a[0])
    if n in ("chain", "zip") and len(it.a) > 2:
        r += bases(it.a[2])
    return r


def zipped(it):
    """groups of collections gone through side by side"""
    if it.t != "ITER":
        return []
    n = it.a[1] if len(it.a) > 1 else "into_iter"
    r = zipped(it.a[0])
    if n in ("chain", "zip") and len(it.a) > 2:
        r += zipped(it.a[2])
        if n == "zip":
            r.append(bases(it.a[0]) + bases(it.a[2]))
    return r


def ends(eng, st, c, it):
    it = eng.strip(st, it)
    ok = True
    h = getattr(eng.c, "on_short", None)
    if h:
        for z in zipped(it):
            h(eng, st, [eng.strip(st, b) for b in z], c)
    for b in bases(it):
        b = eng.strip(st, b)
        if eng.c.on_iter(eng, st, b, "end", c) is False:
            ok = False
    return ok


def loop(eng, st, c, it, depth, stack, body, early=None):
    """runs body(e, state) -> [(continue?, value, state)] for any number of elements;
    returns (states at the end of the iterator, [(value, state)] of early stops)"""
    states = {st.key(): st}
    work = [st]
    stops = []
    k = 0
    while work:
        s0 = eng.rename(work.pop(), c.site)
        for e, s in elems(eng, s0, c, it, depth, stack):
            for go, v, s2 in ([(True, None, s)] if e is SKIP else body(e, s)):
                if not go:
                    stops.append((v, s2))
                    continue
                kk = s2.key()
                if kk not in states:
                    states[kk] = s2
                    work.append(s2)
        k += 1
        if k > LIMIT:
            raise Budget("iteration at " + c.where)
    out = []
    for s in states.values():
        s = s.copy()
        if ends(eng, s, c, it):
            out.append(s)
    return out, stops


def step(eng, st, c, depth, stack):
    """one call of next()"""
    it = eng.strip(st, c.args[0])
    out, seen, work, k = [], {st.key()}, [st], 0
    while work:
        s0 = work.pop()
        s1 = s0.copy()
        if ends(eng, s1, c, it):
            out.append((NONE, s1))
        for e, s in elems(eng, s0, c, it, depth, stack):
            if e is SKIP:
                if s.key() not in seen:
                    seen.add(s.key())
                    work.append(s)
            else:
                out.append((Some(e), s))
        k += 1
        if k > LIMIT:
            raise Budget("next at " + c.where)
    return out


def acc_(r, acc0, c):
    """accumulators are told apart by their variant only"""
    if r is acc0 or r.t == "INT" and r.a[0] in (0, 1):
        return r
    if r.t == "ADT":
        return mk("ADT", r.a[0], r.a[1], r.a[2], tuple(mk("CALL", c.site, "fold", INT(i)) for i in range(len(r.a[3]))))
    return mk("CALL", c.site, "fold")


def iters(eng, st, c, depth, stack):
    n, a = c.name, c.args
    more = n in getattr(eng.c, "consumers", ())
    if c.key in eng.F.fns and not more:
        return None
    ap = lambda s, f, xs, t=9: eng.apply(s, c, f, xs, depth, stack, t)
    if n in ("next", "next_back"):
        return step(eng, st, c, depth, stack)
    if n in LAZY:
        if n == "flatten" and c.p.startswith("core::option"):
            return None
        args = [eng.strip(st, x) if i == 0 else x for i, x in enumerate(a)]
        return [(eng.cap(mk("ITER", args[0], n, *args[1:])), st)]
    if not (c.p.startswith(("core::iter", "itertools")) or n in ("extend", "collect", "from_iter", "append", "extend_from_slice") or more):
        return None
    if n in ("for_each",):
        body = lambda e, s: [(True, None, s2) for r, s2 in ap(s, a[1], (e,))]
        done, _ = loop(eng, st, c, a[0], depth, stack, body)
        return [(UNIT, s) for s in done]
    if n in ("try_for_each", "try_fold"):
        isopt = c.dty.get("d") == OPTION
        key = OPTION if isopt else RESULT
        f = a[-1]

        def body(e, s):
            args = (e,) if n == "try_for_each" else (mk("ELEM", c.site, 0), e)
            out = []
            for r, s2 in ap(s, f, args):
                for var, pay, s3 in models.split(eng, s2, r, key):
                    out.append((var in ("Ok", "Some"), NONE if isopt else Err(pay), s3))
            return out
        done, stops = loop(eng, st, c, a[0], depth, stack, body)
        g = Some(mk("CALL", c.site, c.p)) if isopt else Ok(mk("CALL", c.site, c.p))
        return [(g, s) for s in done] + stops
    if n in ("all", "any"):
        def body(e, s):
            out = []
            for r, s2 in ap(s, a[1], (e,)):
                for v in (0, 1):
                    s3 = s2.copy()
                    if eng.assume(s3, r, v):
                        out.append((v == (1 if n == "all" else 0), FALSE if n == "all" else TRUE, s3))
            return out
        done, stops = loop(eng, st, c, a[0], depth, stack, body)
        return [(TRUE if n == "all" else FALSE, s) for s in done] + stops
    if n in ("find", "find_map", "position", "rposition"):
        def body(e, s):
            out = []
            x = e
            for r, s2 in ap(s, a[1], (x,)):
                if n == "find_map":
                    for var, pay, s3 in models.split(eng, s2, r, OPTION):
                        out.append((var != "Some", Some(pay) if var == "Some" else None, s3))
                    continue
                for v in (0, 1):
                    s3 = s2.copy()
                    if eng.assume(s3, r, v):
                        out.append((v == 0, Some(e if n == "find" else mk("CALL", c.site, c.p)), s3))
            return out
        done, stops = loop(eng, st, c, a[0], depth, stack, body)
        return [(NONE, s) for s in done] + stops
    if n in ("fold",):
        acc0 = a[1]
        done = []
        # the accumulator is any value an earlier step returned
        body_states = [(acc0, st)]
        seen = {(acc0, st.key())}
        k = 0
        while body_states:
            acc, s0 = body_states.pop()
            s1 = s0.copy()
            if ends(eng, s1, c, a[0]):
                done.append((acc, s1))
            s0 = eng.rename(s0, c.site)
            for e, s in elems(eng, s0, c, a[0], depth, stack):
                for r, s2 in ([(acc, s)] if e is SKIP else ap(s, a[2], (acc, e))):
                    r = acc_(r, acc0, c)
                    kk = (r, s2.key())
                    if kk not in seen:
                        seen.add(kk)
                        body_states.append((r, s2))
            k += 1
            if k > LIMIT:
                raise Budget("fold at " + c.where)
        return done
    # consumers: the chain handed over is run to its end
    its = [(i, eng.strip(st, x)) for i, x in enumerate(a)]
    its = [(i, x) for i, x in its if is_chain(x)]
    if not its:
        return None
    i, it = its[0]
    h = getattr(eng.c, "on_consume", None)
    clos = [x for j, x in enumerate(a) if j != i and x.t in ("CLO", "FN", "ZST")]

    def body(e, s):
        if h:
            h(eng, s, c, i, e)
        out = [s]
        for f in clos:
            out = [s3 for s2 in out for r, s3 in ap(s2, f, (e,))]
        return [(True, None, x) for x in out]
    done, _ = loop(eng, st, c, it, depth, stack, body)
    out = []
    for s in done:
        out += [x for x in eng.opaque_plain(s, c, skip=i)]
    return out
