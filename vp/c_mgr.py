"""V01: variable managers never hand out a variable twice."""
import re

from .mir import Client, Engine, Budget, mk, last, subterms, INT
from .order import Zone, lin, strip

TRAIT = re.compile(r"^<(.*) as (?:rustsat::)?instances::ManageVars>::(\w+)$")


class Run(Client):
    max_states = 6000

    def __init__(self, loc=None):
        self.loc = loc
        self.exits = []
        self.writes = []
        self.calls = []

    def inline(self, eng, key, fn, call, st):
        return not fn["p"].startswith(("<std", "<core"))

    def on_write(self, eng, st, root, path, val, where):
        if any(x.t == "ARG" and x.a[0] == "self" for x in subterms(root)):
            path = tuple(p for p in path)
            while path and path[-1][0] is None and path[-1][2] in ("idx", "0"):
                path = path[:-1]
            if (root, path) not in self.writes:
                self.writes.append((root, path))

    def on_call(self, eng, st, c):
        if c.name in ("new_var", "increase_next_free", "mark_used") and c.key not in eng.F.fns:
            v = mk("CALL", c.site, c.p, *c.args)
            st.obs = st.obs + ((c.name, v, tuple(c.args)),)
            return [(v, st)]
        return None

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.exits.append((ret, st.copy()))


def run(F, r, f):
    t = Run()
    e = Engine(F, t)
    t.eng = e
    try:
        e.run(f["key"], ())
    except Budget:
        r.undec(f"{f['p']}: budget")
        return None
    r.analysed |= {f["key"]}
    r.analysed |= {k for k in getattr(e, "seen", ())}
    return t


def where(f):
    return f"{f['sp'][0]}:{f['sp'][1]}"


def managers(F):
    out = {}
    for k, f in F.fns.items():
        if f["k"] == "closure":
            continue
        m = TRAIT.match(f["p"])
        if m and "test" not in f["sp"][0]:
            out.setdefault((f["crate"], m.group(1)), {})[m.group(2)] = f
    return out


def v01(F, r):
    r.rules = ["new_var returns a variable at or above the manager's counter and leaves the counter above the returned variable, on every path",
               "increase_next_free leaves the counter at least where it was and at least at the given variable, and says whether it moved it",
               "mark_used raises the counter beyond the given variable; combine leaves it at least at both managers' counters",
               "forget_from leaves the counter no higher than it was and no lower than the smaller of old counter and given variable",
               "n_used and max_var report the counter; no other method taking the manager mutably lowers the counter",
               "a constructor taking the next free variable starts there or above",
               "a manager that ties objects to variables answers from its map, or hands out a newly drawn variable and records it; forgetting keeps exactly the ties "
               "whose variable stays below the next free one"]
    ms = managers(F)
    for (crate, ty), fns in sorted(ms.items()):
        if "new_var" not in fns:
            r.undec(f"{ty}: no new_var")
            continue
        f = fns["new_var"]
        t = run(F, r, f)
        if t is None:
            continue
        if not t.exits:
            continue
        loc = counter(t)
        if loc is None:
            r.bad(f"{ty}:new_var", f"{ty}::new_var hands out a variable without advancing the manager", where(f))
            continue
        field = loc[1][-1][2] if loc[1] else next((x.a[1][2] for x in subterms(loc[0]) if x.t == "FLD"), "?")

        def old(t):
            return t.eng.read(type(t.exits[0][1])({}, {}, ()), *loc)

        def new(t, st):
            return t.eng.read(st, *loc)

        def each(name, judge, n=1):
            f = fns.get(name)
            if f is None:
                return
            t = run(F, r, f)
            if t is None:
                return
            for ret, st in t.exits:
                z = Zone(st.facts)
                try:
                    why = judge(z, ret, old(t), new(t, st), st)
                except RecursionError:
                    why = None
                if why:
                    r.bad(f"{ty}:{name}", f"{ty}::{name} {why}", where(f))
                    return
            if t.exits:
                r.ok("method", f"{ty}::{name} ({len(t.exits)} paths, counter {field})")

        def j_new(z, ret, o, n, st):
            if not z.le(o, ret):
                return "may hand out a variable below the next free one"
            if not z.lt(ret, n):
                return "does not leave the next free variable above the one it hands out"

        def j_inc(z, ret, o, n, st):
            v = mk("ARG", "v")
            v = arg(fns["increase_next_free"], 1, F)
            if not z.le(o, n):
                return "may lower the next free variable"
            if not z.le(v, n):
                return "may leave the next free variable below the given one"
            if z.eq(o, n):
                moved = 0
            elif z.lt(o, n):
                moved = 1
            else:
                return None
            if ret.t == "INT" and ret.a[0] != moved:
                return f"reports {bool(ret.a[0])} where the next free variable {'rises' if moved else 'stays'}"

        def j_comb(z, ret, o, n, st):
            if not z.le(o, n):
                return "may lower the next free variable"
            oth = other(t, loc, arg(fns["combine"], 1, F))
            if oth is not None and not z.le(oth, n):
                return "may leave the next free variable below the other manager's"

        def j_forget(z, ret, o, n, st):
            v = arg(fns["forget_from"], 1, F)
            if not z.le(n, o):
                return "may raise the next free variable"
            m = mk("PURE", "min", (o, v))
            z.node(m)
            z.close()
            if not z.le(m, n):
                return "may drop variables below the given one"
            if not z.le(n, v):
                return "may keep variables that were to be forgotten"

        def j_used(z, ret, o, n, st):
            if not z.eq(o, n):
                return "changes the next free variable"
            if not z.eq(ret, o):
                return "does not report the number of variables below the next free one"

        def j_max(z, ret, o, n, st):
            if not z.eq(o, n):
                return "changes the next free variable"
            if ret.t == "ADT" and ret.a[2] == "None":
                if not z.eq(o, INT(0)) and st.facts.get(mk("BIN", "Eq", strip(o), INT(0))) != ("=", 1):
                    return "may find no variable although some are used"
            elif ret.t == "ADT" and ret.a[2] == "Some":
                if not z.eq(mk("BIN", "Add", ret.a[3][0], INT(1)), o):
                    return "does not report the variable below the next free one"

        def j_mark(z, ret, o, n, st):
            v = arg(fns["mark_used"], 1, F)
            if not z.le(o, n):
                return "may lower the next free variable"
            if not z.lt(v, n):
                return "may leave the given variable unused"

        each("new_var", j_new)
        each("increase_next_free", j_inc)
        each("combine", j_comb)
        each("forget_from", j_forget)
        each("n_used", j_used)
        each("max_var", j_max)
        each("mark_used", j_mark)
        # everything else that may change the manager
        base = re.sub(r"<.*", "", ty)
        for k, f in sorted(F.fns.items()):
            if f["crate"] != crate or f["k"] == "closure" or f["name"] in fns and TRAIT.match(f["p"]) or f.get("derived"):
                continue
            p = f["p"]
            if not (p.startswith(f"<{ty} as ") or re.match(r"^(\w+::)?" + re.escape(base) + r"(::<.*>)?::\w+$", p)):
                continue
            if f["name"] in ("deserialize", "serialize", "fmt", "eq", "clone", "clone_from"):
                continue
            if f["nargs"] and selfmut(f):
                t2 = run(F, r, f)
                if t2 is None:
                    continue
                bad = False
                for ret, st in t2.exits:
                    z = Zone(st.facts)
                    if not z.le(old(t2), new(t2, st)):
                        r.bad(f"{ty}:{f['name']}", f"{ty}::{f['name']} may lower the next free variable", where(f))
                        bad = True
                        break
                if not bad and t2.exits:
                    r.ok("mutator", f"{ty}::{f['name']} ({len(t2.exits)} paths)")
            elif f["name"] == "from_next_free" or f["name"] == "new" and f["nargs"]:
                t2 = run(F, r, f)
                if t2 is None:
                    continue
                for ret, st in t2.exits:
                    v = ret
                    for k2 in loc[1]:
                        v = t2.eng.field(st, v, k2)
                    if loc[1] and not Zone(st.facts).le(mk("ARG", argname(f, 1)), v):
                        r.bad(f"{ty}:{f['name']}", f"{ty}::{f['name']} starts below the given next free variable", where(f))
                        break
                else:
                    r.ok("constructor", f"{ty}::{f['name']}")
        objects(F, r, crate, ty, fns, loc)
    # provided methods
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not re.match(r"^(rustsat::)?instances::ManageVars::(new_lit|mark_used)$", f["p"]):
            continue
        t = run(F, r, f)
        if t is None:
            continue
        for ret, st in t.exits:
            z = Zone(st.facts)
            if f["name"] == "new_lit":
                d = [e for e in st.obs if e[0] == "new_var"]
                if len(d) != 1 or not any(x is d[0][1] for x in subterms(ret)):
                    r.bad("ManageVars:new_lit", "ManageVars::new_lit does not return the literal of a newly drawn variable", where(f))
                    break
            else:
                v = arg(f, 1, F)
                d = [e for e in st.obs if e[0] == "increase_next_free"]
                if not any(z.lt(v, e[2][1]) for e in d):
                    r.bad("ManageVars:mark_used", "ManageVars::mark_used does not raise the next free variable beyond the given one", where(f))
                    break
        else:
            if t.exits:
                r.ok("provided", f["p"])
    r.floor("method", 30, "methods of variable managers")
    r.floor("provided", 2, "provided methods of ManageVars")
    return {"level": "other", "explanation": "abstract interpretation of every method of every variable manager with a difference-bound (zone) domain over its counter; see rules"}


def objects(F, r, crate, ty, fns, loc):
    """managers that tie objects to variables: the methods that answer from a map under a parameter or draw and record"""
    base = re.sub(r"<.*", "", ty)
    hs = [h for k, h in sorted(F.fns.items()) if h["crate"] == crate and h["k"] != "closure" and not h.get("derived") and h["nargs"] and selfmut(h)
          and (h["p"].startswith(f"<{ty} as ") or re.match(r"^(\w+::)?" + re.escape(base) + r"(::<.*>)?::\w+$", h["p"]))]
    if any(RTRAIT.match(h["p"]) for h in hs):
        return      # V03
    tied = set()
    for h in hs:
        if h["nargs"] != 2 or h["p"].startswith("<"):
            continue
        t = mrun(F, r, h)
        if t is None:
            continue
        maps = {m for ret, st in t.exits for m, _ in lookups(ret)}
        if not maps or all(Zone(st.facts).eq(t.eng.read(type(st)({}, {}, ()), *loc), t.eng.read(st, *loc)) for ret, st in t.exits):
            continue
        tied |= maps
        bad = None
        for ret, st in t.exits:
            ins = [e for e in st.obs if e[0] in GROW and e[1] in maps]
            s = strip(ret)
            o, n = t.eng.read(type(st)({}, {}, ()), *loc), t.eng.read(st, *loc)
            z = Zone(st.facts)
            if any(m in maps for m, _ in lookups(ret)):
                if any(e[0] != "entry" for e in ins):
                    bad = "changes the variable of an object that already has one"
                elif not z.eq(o, n) and not any(e[0] == "entry" for e in ins):
                    bad = "draws a variable for an object that already has one"
            elif not (z.le(o, s) and z.lt(s, n)):
                bad = "hands out a variable that was not newly drawn"
            elif not any(strip(a) is s for e in ins for a in e[2]) and not any(e[0] == "entry" for e in ins):
                bad = "hands out a newly drawn variable without recording the object it is for"
            if bad:
                break
        if bad:
            r.bad(f"{ty}:{h['name']}", f"{ty}::{h['name']} {bad}", where(h))
        elif t.exits:
            r.ok("objects", f"{ty}::{h['name']} ({len(t.exits)} paths)")
    f = fns.get("forget_from")
    if not tied or f is None:
        return
    t = mrun(F, r, f)
    if t is None:
        return
    for ret, st in t.exits:
        o, n = t.eng.read(type(st)({}, {}, ()), *loc), t.eng.read(st, *loc)
        es = [e for e in st.obs if e[0] in SHRINK | GROW and e[1] in tied]
        touched = {e[1] for e in es} | {str(p[2]) for _, path in t.writes for p in path}
        bad = None
        if Zone(st.facts).eq(o, n):
            continue
        for m in sorted(tied - touched):
            bad = f"forgets variables but keeps the objects tied to them in `{m}`"
        for e in es:
            if e[0] == "retain":
                bad = bad or keeps(e, VAL, o, n)
        if bad:
            r.bad(f"{ty}:forget_from", f"{ty}::forget_from {bad}", where(f))
            return
    if t.exits:
        r.ok("objects", f"{ty}::forget_from")


def argname(f, i):
    return arg(f, i, None).a[0]


def arg(f, i, F):
    return Engine(F, Client()).default_args(f)[i if selfarg(f) else i - 1]


def selfarg(f):
    a = Engine(None, Client()).default_args(f)
    return bool(a) and a[0].t == "ARG" and a[0].a[0] == "self"


def selfmut(f):
    if not selfarg(f):
        return False
    s = f["tys"][f["locals"][1] if isinstance(f["locals"][1], int) else f["locals"][1]["ty"]]["s"]
    return s.startswith("&mut") or s.startswith("&'") and " mut " in s


def counter(t):
    """the place new_var advances on every path"""
    for loc in t.writes:
        o = t.eng.read(type(t.exits[0][1])({}, {}, ()), *loc)
        if all(lin(t.eng.read(st, *loc))[0] is lin(o)[0] and t.eng.read(st, *loc) is not o for _, st in t.exits):
            return loc
    return t.writes[0] if len(t.writes) == 1 else None


def other(t, loc, v):
    """the same place in another manager passed by value"""
    if not loc[1]:
        return None
    for k in loc[1]:
        v = t.eng.field(type(t.exits[0][1])({}, {}, ()), v, k)
    return v


# ---------------------------------------------------------------- V03
RTRAIT = re.compile(r"^<(.*) as (?:rustsat::)?instances::ReindexVars>::(\w+)$")
GROW = {"insert", "push", "extend", "entry", "extend_from_slice", "append", "resize"}
SHRINK = {"retain", "truncate", "remove", "clear", "pop", "drain", "swap_remove"}


class Maps(Run):
    def __init__(self):
        super().__init__()
        self.ev = []

    def on_call(self, eng, st, c):
        if c.key not in eng.F.fns and c.args and c.name in GROW | SHRINK | {"get"} and c.args[0].t in ("REF", "DEREF", "FLD"):
            x = c.args[0]
            m = None
            if x.t == "REF" and any(y.t == "ARG" and y.a[0] == "self" for y in subterms(x.a[0])) and x.a[1]:
                m = x.a[1][0][2]
            if m:
                e = (c.name, m, tuple(eng.strip(st, a) if a.t == "REF" else a for a in c.args[1:]))
                if c.name == "retain":
                    e += (retained(eng, st, c),)
                st.obs = st.obs + (e,)
                self.ev.append(e)
        if c.name in ("reindex", "reverse") and c.key not in eng.F.fns:
            v = mk("CALL", c.name, c.p, *c.args)
            return [(v, st)]
        return None


KEY, VAL = mk("ARG", "$key"), mk("ARG", "$val")


def retained(eng, st, c):
    """the cases of the predicate of a `retain` on a map: (kept, facts)"""
    out = []
    try:
        for v, s in eng.apply(st.copy(), c, c.args[1], (KEY, VAL), 2, ()):
            if v.t == "INT":
                out.append((v.a[0], tuple(s.facts.items())))
                continue
            for b in (0, 1):
                s2 = s.copy()
                if eng.assume(s2, v, b):
                    out.append((b, tuple(s2.facts.items())))
    except Budget:
        return None
    return tuple(out)


def chain(v):
    """what a chain of field accesses, dereferences and casts starts from"""
    while v.t in ("FLD", "DEREF", "CAST"):
        w = [x for x in v.a if hasattr(x, "t")]
        if len(w) != 1:
            break
        v = w[0]
    return v


def keeps(e, image, old, new):
    """why a `retain` does not keep exactly the entries whose variable stays below the next free one (None: it does)"""
    if not e[3]:
        return None
    for kept, facts in e[3]:
        z = Zone(dict(facts))
        z.fact(mk("BIN", "Lt", image, old), ("=", 1))
        for x in [x for x in z.nodes if x is not image and chain(x) is image]:
            z.add(x, image, 0)
            z.add(image, x, 0)
        for x in (image, old, new):
            z.node(x)
        z.close()
        if kept and not z.lt(image, new):
            return "may keep an entry whose variable will be handed out again"
        if not kept and not z.le(new, image):
            return "may drop an entry whose variable stays in use"
    return None


def mrun(F, r, f):
    t = Maps()
    e = Engine(F, t)
    t.eng = e
    try:
        e.run(f["key"], ())
    except Budget:
        r.undec(f"{f['p']}: budget")
        return None
    r.analysed |= {f["key"]}
    return t


def lookups(v):
    """(map field, key) of the lookups a value comes from"""
    out = set()
    for x in subterms(v):
        if x.t == "PURE" and x.a[0] in ("get", "get_mut") and len(x.a[1]) == 2:
            m = x.a[1][0]
            if m.t == "FLD" and m.a[0].t == "DEREF":
                out.add((m.a[1][2], strip(x.a[1][1])))
        if x.t == "CALL" and last(x.a[1] or "") == "index" and len(x.a) > 3 and x.a[2].t == "REF" and x.a[2].a[1]:
            out.add((x.a[2].a[1][0][2], strip(x.a[3])))
        if x.t == "IDX" and x.a[0].t == "FLD" and x.a[0].a[0].t == "DEREF":
            out.add((x.a[0].a[1][2], strip(x.a[1])))
    return out


def missing(st, field, key):
    for f, x in st.facts.items():
        if f.t == "DISCR" and (field, key) in lookups(f) and (x == ("=", 0) or x[0] == "!" and 1 in x[1]):
            return True
        if f.t == "PURE" and f.a[0] == "contains_key" and x == ("=", 0):
            return True
    return False


def v03(F, r):
    r.rules = ["a re-indexing either returns what the forward map records for the input variable, or draws a variable and records it in the forward map for the "
               "input and in the reverse map under the drawn variable, and only where the forward map had no entry",
               "falling back to the variable itself is only allowed where the forward map never grows",
               "reversing returns what the reverse map records for the output variable, or nothing",
               "every other method treats both maps alike: grows both or none, shrinks both or none, the forward map by its values, the reverse map by its keys",
               "the provided methods for literals map the literal's variable and keep its sign"]
    impls = {}
    for k, f in F.fns.items():
        m = RTRAIT.match(f["p"]) if f["k"] != "closure" else None
        if m and "test" not in f["sp"][0]:
            impls.setdefault((f["crate"], m.group(1)), {})[m.group(2)] = f
    for (crate, ty), fns in sorted(impls.items()):
        f, g = fns.get("reindex"), fns.get("reverse")
        if not f or not g:
            continue
        t, u = mrun(F, r, f), mrun(F, r, g)
        if t is None or u is None:
            continue
        base = re.sub(r"<.*", "", ty)
        others = [h for k, h in sorted(F.fns.items()) if h["crate"] == crate and h["k"] != "closure" and not h.get("derived")
                  and h["key"] not in (f["key"], g["key"]) and h["nargs"] and selfmut(h)
                  and (h["p"].startswith(f"<{ty} as ") or re.match(r"^(\w+::)?" + re.escape(base) + r"(::<.*>)?::\w+$", h["p"]))]
        runs = [(h, mrun(F, r, h)) for h in others]
        nv = [run(F, r, h) for h in others if h["name"] == "new_var"]
        loc = counter(nv[0]) if nv and nv[0] and nv[0].exits else None
        inv, outv = strip(arg(f, 1, F)), strip(arg(g, 1, F))
        fwd = {m for ret, st in t.exits for m, k in lookups(ret) if k is inv}
        rev = {m for ret, st in u.exits for m, k in lookups(ret) if k is outv}
        if len(fwd) != 1 or len(rev) != 1 or fwd == rev:
            r.bad(f"{ty}:maps", f"{ty}: re-indexing does not consult one forward map under the input variable and one reverse map under the output variable", where(f))
            continue
        fm, rm = fwd.pop(), rev.pop()
        grows = any(e[0] in GROW and e[1] == fm for h, x in runs + [(f, t)] if x for e in x.ev)
        bad = None
        for ret, st in t.exits:
            s = strip(ret)
            ins = {(e[1], tuple(strip(a) for a in e[2])) for e in st.obs if e[0] in GROW}
            if (fm, inv) in lookups(ret):
                if ins:
                    bad = "changes the mapping of a variable that already has one"
            elif s is inv:
                if grows:
                    bad = "may map a variable to itself although another variable may already be mapped to it"
                elif not missing(st, fm, inv):
                    bad = "may ignore the recorded mapping"
            elif (fm, (inv, s)) not in ins:
                bad = "hands out a variable without recording it in the forward map"
            elif (rm, (s, inv)) not in ins:
                bad = "hands out a variable without recording, under that variable, where it came from"
            elif not missing(st, fm, inv):
                bad = "may replace an existing mapping"
            if bad:
                break
        if bad:
            r.bad(f"{ty}:reindex", f"{ty}::reindex {bad}", where(f))
        elif t.exits:
            r.ok("reindex", f"{ty}::reindex ({len(t.exits)} paths; maps {fm}, {rm})")
        bad = None
        for ret, st in u.exits:
            if ret.t == "ADT" and ret.a[2] == "None":
                continue
            if (rm, outv) in lookups(ret):
                continue
            if strip(ret.a[3][0] if ret.t == "ADT" and ret.a[3] else ret) is outv and not grows and missing(st, rm, outv):
                continue
            bad = "returns something the reverse map does not record for the variable"
        if bad:
            r.bad(f"{ty}:reverse", f"{ty}::reverse {bad}", where(g))
        elif u.exits:
            r.ok("reverse", f"{ty}::reverse ({len(u.exits)} paths)")
        for h, x in runs:
            if x is None:
                continue
            bad = None
            for ret, st in x.exits:
                for kind, names in (("grows", GROW), ("shrinks", SHRINK)):
                    a = [e for e in st.obs if e[0] in names and e[1] == fm]
                    b = [e for e in st.obs if e[0] in names and e[1] == rm]
                    if bool(a) != bool(b):
                        bad = f"{kind} only one of the two maps"
                    if kind == "shrinks":
                        for es, pos, what in ((a, 2, "values"), (b, 1, "keys")):
                            for e in es:
                                if e[0] == "retain" and not uses(F, e[2], pos):
                                    bad = f"does not choose the entries it keeps by the {what} of `{e[1]}`"
                                elif e[0] == "retain" and not bad and loc is not None and h["name"] == "forget_from":
                                    why = keeps(e, (KEY, VAL)[pos - 1], x.eng.read(type(st)({}, {}, ()), *loc), x.eng.read(st, *loc))
                                    if why:
                                        bad = f"{why} (in `{e[1]}`)"
            if bad:
                r.bad(f"{ty}:{h['name']}", f"{ty}::{h['name']} {bad}", where(h))
            elif x.exits and any(e[1] in (fm, rm) for e in x.ev):
                r.ok("both maps", f"{ty}::{h['name']}")
    for k, f in sorted(F.fns.items()):
        m = re.match(r"^(?:rustsat::)?instances::ReindexVars::(reindex_lit|reverse_lit)$", f["p"])
        m2 = RTRAIT.match(f["p"]) if f["k"] != "closure" else None
        if f["k"] == "closure" or not (m or m2 and m2.group(2) in ("reindex_lit", "reverse_lit")):
            continue
        t = mrun(F, r, f)
        if t is None:
            continue
        l = arg(f, 1, F)
        bad, und = None, False
        for ret, st in t.exits:
            if ret.t == "ADT" and ret.a[2] == "None":
                continue
            v = strip(ret.a[3][0]) if ret.t == "ADT" and ret.a[2] == "Some" else strip(ret)
            calls = [x for x in subterms(v) if x.t == "CALL" and x.a[0] in ("reindex", "reverse")]
            if not calls:
                bad = "returns a literal that does not come from the map"
                break
            if not any(y.t == "BIN" and y.a[0] == "Shr" and strip(y.a[1]).t in ("FLD", "ARG") for x in calls for y in subterms(x)):
                und = True
                continue
            if v.t == "BIN" and v.a[0] in ("Add", "BitOr") and v.a[2].t == "INT":
                sign = [x[1] if x[0] == "=" else 1 if 0 in x[1] else 0 for q, x in st.facts.items() if q.t == "BIN" and q.a[0] == "BitAnd"
                        and q.a[2].t == "INT" and q.a[2].a[0] == 1 and (x[0] == "!" or x[1] in (0, 1))]
                if not sign or sign[0] != v.a[2].a[0]:
                    bad = "does not keep the sign of the literal"
                    break
            elif v.t == "BIN" and any(y.t == "BIN" and y.a[0] == "BitAnd" for y in subterms(v.a[2])):
                continue
            else:
                und = True
        if bad:
            r.bad(f"{f['p']}", f"{f['p']} {bad}", where(f))
        elif und:
            r.undec(f"{f['p']}: shape of the result not recognised")
            r.ok("literal")
        else:
            r.ok("literal", f["p"])
    r.floor("reindex", 2, "implementations of ReindexVars::reindex")
    r.floor("reverse", 2, "implementations of ReindexVars::reverse")
    r.floor("literal", 2, "literal versions")
    return {"level": "other", "explanation": "abstract interpretation of the re-indexing variable managers: every path of reindex, reverse and of the methods that change the maps; see rules"}


def uses(F, args, pos):
    """the predicate closure looks at its pos-th parameter and at no other"""
    for a in args:
        for c in a.clos:
            f = F.fns.get(c.a[0])
            if f is None or f["nargs"] < 3:
                continue
            t = Run()
            e = Engine(F, t)
            try:
                e.run(f["key"], ())
            except Budget:
                return True
            names = [x.a[0] for x in e.default_args(f)]
            seen = {x.a[0] for ret, st in t.exits for y in [ret] + list(st.facts) for x in subterms(y) if x.t == "ARG"}
            return names[pos] in seen and names[3 - pos] not in seen
    return True


CHECKS = {"V01": v01, "V03": v03}
TECH = {"V01": ("abstract interpretation of the MIR of every variable manager with a difference-bound (zone) domain over its next-free counter",
                "relational invariants between counter before, counter after, argument and result on every path; any implementation that keeps them is accepted"),
        "V03": ("abstract interpretation of the MIR of the re-indexing managers: pairing of insertions into forward and reverse map on every path",
                "forward and reverse map must be updated with swapped entries, only where no entry existed; literal versions must keep the sign")}
