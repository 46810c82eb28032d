"""E02: the statistics of an encoding are the differences of the collector and variable manager around its calls."""
import re

from .mir import Client, Engine, Budget, mk, last, subterms, INT
from .order import strip

STATS = re.compile(r"^<(.*) as (?:rustsat::)?encodings::EncodeStats>::(n_clauses|n_vars)$")
DRAW = {"new_var", "new_lit"}
COUNT = {"n_clauses": "c", "n_used": "v"}


def add(d, k, n):
    d[k] = d.get(k, 0) + n
    if not d[k]:
        del d[k]


def total(v, d=None, sign=1):
    """a number as a sum of terms"""
    if d is None:
        d = {}
    v = strip(v)
    if v.t == "FLD" and v.a[1][2] == 0 and v.a[0].t == "BIN" and v.a[0].a[0].endswith("WithOverflow"):
        v = mk("BIN", v.a[0].a[0][:-12], v.a[0].a[1], v.a[0].a[2])
    if v.t == "FLD" and v.a[0].t == "TRYCONV" and str(v.a[1][2]) == "0":
        v = v.a[0]
    if v.t == "INT":
        if v.a[0]:
            add(d, None, sign * v.a[0])
    elif v.t == "BIN" and v.a[0] in ("Add", "Sub"):
        total(v.a[1], d, sign)
        total(v.a[2], d, sign if v.a[0] == "Add" else -sign)
    elif v.t == "PURE" and last(str(v.a[0])) == "len" and len(v.a[1]) == 1 and span(v.a[1][0]):
        lo, hi = span(v.a[1][0])
        total(hi, d, sign)
        total(lo, d, -sign)
    elif v.t == "TRYCONV":
        total(v.a[0], d, sign)
    elif v.t in ("PURE", "CALL") and last(str(v.a[0] if v.t == "PURE" else v.a[1] or "")) in ("try_from", "unwrap", "expect", "try_into") \
            and len(v.a[1] if v.t == "PURE" else v.a[2:]) >= 1:
        total((v.a[1] if v.t == "PURE" else v.a[2:])[0], d, sign)
    else:
        add(d, v, sign)
    return d


def span(v):
    """the range a collection drawn from a range has as many elements as"""
    while v.t in ("REF", "DEREF", "CAST") and v.a and hasattr(v.a[0], "t"):
        v = v.a[0]
    return v.a[2].a if v.t == "CALL" and len(v.a) > 2 and v.a[2].t == "SPAN" else None


def local_len(t):
    """the length of something built on the way"""
    return any(x.t == "PURE" and last(str(x.a[0])) == "len" and x.a[1] and any(y.t in ("CALL", "ITER", "NEWVEC") for y in subterms(x.a[1][0]))
               for x in subterms(t))


def argis(v, what):
    """the value is (a reborrow of) the named argument"""
    return any(x.t == "ARG" and x.a[0] in what for x in subterms(v))


class Run(Client):
    max_states = 40000

    def __init__(self, F, fn, methods, cols, mans):
        self.F = F
        self.fn = fn
        self.methods = methods
        self.cols, self.mans = cols, mans
        self.exits = []
        self.dirty = False

    # obs: (version of the collector, version of the manager, draws counted as a number, sub-encoders used)
    def inline(self, eng, key, fn, call, st):
        return self.own(eng, st, call) == ()

    def own(self, eng, st, c):
        """path below self of the receiver or of another mutable argument, None if self is not handed on"""
        for i, (a, t) in enumerate(zip(c.args, c.argt)):
            if t["k"] == "ref" and t["m"] == 1:
                if a.t == "REF" and argis(a.a[0], ("self",)):
                    return tuple(a.a[1])
                if a.t == "ARG" and a.a[0] == "self":
                    return ()
        return None

    def on_call(self, eng, st, c):
        p = c.p or ""
        if c.name in COUNT and c.args and (("CollectClauses" in p) if c.name == "n_clauses" else ("ManageVars" in p or "VarManager" in p)):
            k = COUNT[c.name]
            who = self.cols if k == "c" else self.mans
            if argis(c.args[0], who):
                return [(mk("CNT", k, st.obs[0 if k == "c" else 1]), st)]
        hc = any(argis(a, self.cols) for a in c.args if a.t not in ("CNT",))
        hm = any(argis(a, self.mans) for a in c.args)
        mutc = hc and self.mut(c, self.cols)
        mutm = hm and self.mut(c, self.mans)
        if not mutc and not mutm:
            if self.keep and self.own(eng, st, c) == () and c.key in self.F.fns and c.key not in self.stack(c) and not self.counts(c.key):
                root = c.args[0].a[0] if c.args[0].t == "REF" else mk("M", c.args[0])
                old = [(loc, eng.read(st, *loc)) for loc in self.keep]
                out = eng.opaque(st, c, 0, ())
                for _, s in out:
                    for loc, v in old:
                        eng.write(s, loc[0], loc[1], v)
                return out
            return None
        if c.name in DRAW and mutm:
            st.obs = self.bump(st, c, False, True)
            return [(mk("CALL", c.site, c.p), st)]
        own = self.own(eng, st, c)
        if own == () and c.key in self.F.fns and c.key not in self.methods:
            return None             # a helper of the encoding: looked into
        if c.key in self.F.fns and self.F.fns[c.key]["k"] == "closure":
            return None
        if c.name in ("call", "call_mut", "call_once") and "FnOnce" in p + "FnMut" or c.name in ("deref_mut", "as_mut", "borrow_mut"):
            return None
        if own == ():
            return None if c.key not in self.F.fns else self.through(st, c)
        if own is not None and own and self.stats(c):
            o = st.obs
            st.obs = o[:3] + (tuple(sorted(set(o[3] + (own,)), key=str)),) + o[4:]
            return self.through(st, c)
        if c.name in COMBI and (own is not None or p.startswith(("core::result", "core::option")) and any(x.t == "CLO" for x in c.args)):
            return None
        if c.name in LAZY and "iter" in p:
            return None
        n = self.linear(eng, st, c)
        if n is not None:
            old = st.obs[1]
            st.obs = self.bump(st, c, False, True)
            o = st.obs
            st.obs = o[:2] + (o[2] + ((o[1], old) + n,),) + o[3:]
            return [(mk("CALL", c.site, c.p, mk("SPAN", *n)), st)]
        self.closure_effects(st, c)
        st.obs = self.bump(st, c, mutc, mutm)
        return None

    def stack(self, c):
        return ()

    def counts(self, key, seen=None):
        """the function (or what it calls) writes one of the counters"""
        seen = set() if seen is None else seen
        if key in seen:
            return False
        seen.add(key)
        if key in self._counts:
            return self._counts[key]
        f = self.F.fns[key]
        names = {loc[1][-1][2] for loc in self.keep}
        res = False
        for b in f["blocks"]:
            if b.get("cl"):
                continue
            for s in b["s"]:
                if s[0] == "=" and any(isinstance(p, list) and len(p) > 2 and p[2] in names for p in s[1][1]):
                    res = True
            t = b["t"]
            if t[0] == "call":
                k = t[1].get("r") or t[1].get("d")
                if k in self.F.fns and self.counts(k, seen):
                    res = True
        self._counts[key] = res
        return res

    _counts = {}
    keep = ()

    def stats(self, c):
        """the receiver keeps statistics of its own"""
        return ("encodings::card" in c.p or "encodings::pb" in c.p or "encodings::am1" in c.p or "EncodingReserve" in c.p) and \
            last(c.p).startswith(("encode", "reserve"))

    def through(self, st, c):
        from .mir import Ok, Err
        e = mk("CALL", c.site, c.p)
        if c.dty["s"].startswith(("core::result::Result", "std::result::Result")) or c.dty.get("n", "").endswith("Result"):
            return [(Ok(mk("CALL", c.site, c.p, mk("STR", "ok"))), st), (Err(e), st.copy())]
        return [(e, st)]

    def closure_effects(self, st, c):
        pass

    def mut(self, c, who):
        """the call can change it: it is handed a mutable reference, or a closure that holds one"""
        for a, t in zip(c.args, c.argt):
            if not argis(a, who):
                continue
            if t["k"] == "ref" and t["m"] == 0:
                continue
            return True
        return False

    def bump(self, st, c, mutc, mutm):
        o = st.obs
        cv, vv = o[0], o[1]
        if mutc:
            cv = self.ver(cv, c)
        if mutm:
            vv = self.ver(vv, c)
        return (cv, vv) + o[2:]

    def ver(self, old, c):
        n = (c.fn["key"], c.bb)
        if old[:2] == n:
            return n + (min(old[2] + 1, 3),)
        return n + (0,)

    def linear(self, eng, st, c):
        """the number of draws of collecting `range.map(draw)`: one per element"""
        if c.name not in ("collect", "for_each", "extend", "count") or not c.args:
            return None
        it = eng.strip(st, c.args[0]) if c.name != "extend" else None
        if it is None:
            return None
        while it.t == "ITER" and len(it.a) > 1 and it.a[1] in ("into_iter", "by_ref", "rev"):
            it = it.a[0]
        if it.t != "ITER" or len(it.a) < 3 or it.a[1] != "map":
            return None
        base, clo = it.a[0], it.a[2]
        while base.t == "ITER" and len(base.a) > 1 and base.a[1] in ("into_iter", "by_ref", "rev"):
            base = base.a[0]
        if base.t == "ITER" and len(base.a) == 1:
            base = base.a[0]
        if base.t != "ADT" or not str(base.a[0]).endswith("ops::range::Range") and last(str(base.a[0])) != "Range":
            return None
        if not self.onedraw(clo):
            return None
        return (base.a[3][0], base.a[3][1])

    def onedraw(self, clo):
        for x in subterms(clo):
            if x.t == "CLO":
                f = self.F.fns.get(x.a[0])
                if f is None:
                    return False
                ds = [b for b in f["blocks"] if not b.get("cl") and b["t"][0] == "call"]
                n = [b for b in ds if last(b["t"][1].get("p") or "") in DRAW]
                return len(n) == 1 and not any(b["t"][0] == "switch" for b in f["blocks"] if not b.get("cl")) and \
                    not any("ManageVars" in (b["t"][1].get("p") or "") for b in ds if b not in n)
        return False

    def on_write(self, eng, st, root, path, val, where):
        if path and argis(root, ("self",)) and val.t in ("BIN", "FLD", "INT", "CNT"):
            self.rebase(eng, st)

    def rebase(self, eng, st):
        """once every own counter agrees with what happened since the start, start over"""

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.exits.append((ret, st.copy()))


LAZY = {"map", "filter", "filter_map", "flat_map", "flatten", "take_while", "map_while", "skip_while", "inspect", "scan", "chain", "zip", "enumerate", "into_iter",
        "by_ref", "rev", "take", "skip", "peekable", "fuse", "copied", "cloned"}

COMBI = {"for_each", "try_for_each", "fold", "try_fold", "map", "and_then", "unwrap_or_else", "map_or", "map_or_else", "map_err", "ok_or_else",
         "is_some_and", "then", "or_else"}


def where(f):
    return f"{f['sp'][0]}:{f['sp'][1]}"


def encoders(F):
    """{type: {"n_clauses": fn, "n_vars": fn}}"""
    out = {}
    for k, f in F.fns.items():
        m = STATS.match(f["p"])
        if m and f["crate"] == "rustsat.lib":
            out.setdefault(re.sub(r"<.*", "", m.group(1)), {})[m.group(2)] = f
    return out


def owner(f):
    """the type a method is implemented for, without its parameters"""
    p = f["p"]
    m = re.match(r"^<(.*?)(?:<.*>)? as .*>::\w+$", p)
    if m:
        return re.sub(r"<.*", "", m.group(1))
    m = re.match(r"^(?:<)?(.*?)(?:::<[^>]*>|<.*>)?(?:>)?::\w+$", p)
    return re.sub(r"(::)?<.*", "", m.group(1)) if m else None


def params(f):
    cols, mans = [], []
    names = Engine(None, Client()).default_args(f)
    for i in range(1, f["nargs"] + 1):
        t = f["tys"][f["locals"][i]]
        if t["k"] != "ref" or t["m"] != 1:
            continue
        n = names[i - 1].a[0]
        s = t["s"]
        if "ManageVars" in s or "VarManager" in s:
            mans.append(n)
        elif re.search(r"&(?:'\w+ )?mut (\w+|impl [\w:]*CollectClauses.*|dyn [\w:]*CollectClauses.*)$", s):
            cols.append(n)
    return tuple(cols), tuple(mans)


def show(d):
    out = []
    for k, n in d.items():
        out.append(f"{n:+d}·{k}"[:300])
    return ", ".join(out[:3])


def e02(F, r):
    r.rules = ["on every successful path of an encoding call, what the call adds to the statistics is the difference of the collector's clause count "
               "(and of the manager's variable count) between the end and the start of the call",
               "an encoder that delegates to other encoders reports the sum over all encoders it delegates to, each counted once",
               "reading the statistics reports the counters"]
    encs = encoders(F)
    methods = {}
    entry = {}
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not f["sp"][0].startswith("src/encodings") or f["nargs"] < 2:
            continue
        t = f["tys"][f["locals"][1]]
        if t["k"] != "ref" or t["m"] != 1 or Engine(None, Client()).default_args(f)[0].a[0] != "self":
            continue
        o = owner(f)
        if o not in encs:
            continue
        cols, mans = params(f)
        if not cols and not mans:
            continue
        methods[k] = f
        if " as " in f["p"] or f.get("pub"):
            entry[k] = (f, o, cols, mans)
    for o, g in sorted(encs.items()):
        r.ok("type", o)
    stat = {}
    for o, g in encs.items():
        for n, f in g.items():
            t = Run(F, f, {}, (), ())
            e = Engine(F, t)
            try:
                e.run(f["key"], ((), (), (), ()))
            except Budget:
                continue
            if len(t.exits) == 1:
                stat[o, n] = (total(t.exits[0][0]), e)
            r.analysed.add(f["key"])
    for k, (f, o, cols, mans) in sorted(entry.items()):
        r.analysed.add(k)
        t = Run(F, f, entry, cols, mans)
        t.keep = [place(x) for n in ("n_clauses", "n_vars") if (o, n) in stat for x in stat[o, n][0] if x is not None and place(x) is not None]
        e = Engine(F, t)
        z = ("", -1, 0)
        try:
            e.run(k, (z, z, (), ()))
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        bad = False
        for n, kind in (("n_clauses", "c"), ("n_vars", "v")):
            if (kind == "c" and not cols) or (kind == "v" and not mans) or (o, n) not in stat:
                continue
            whys = [judge(e, f, st, stat[o, n][0], kind, n) for ret, st in t.exits if not (ret.t == "ADT" and ret.a[2] == "Err")]
            hard = [w[0] if isinstance(w, tuple) else w for w in whys if w and w != "?" and not (isinstance(w, tuple) and "?" in whys)]
            if hard and not bad:
                bad = True
                r.bad(f"{f['p']}:{n}", f"{f['p']} {hard[0]}", where(f))
            elif "?" in whys:
                r.undec(f"{f['p']}: {n} is not counted by difference")
        if not bad:
            r.ok("call", f"{f['p']} ({len(t.exits)} exits)")
    r.floor("type", 10, "encodings with statistics")
    r.floor("call", 25, "encoding calls")
    return {"level": "other", "explanation": "abstract interpretation of every encoding call; see rules"}


def judge(e, f, st, terms, kind, n):
    from .mir import State
    grown = {}
    subs = set()
    own = False
    for t, m in terms.items():
        if t is None:
            return None
        loc = place(t)
        if loc is None:
            sp = subpath(t)
            if sp is None:
                return "?"
            subs.add(sp)
            got = {last(str(x.a[0] if x.t == "PURE" else x.a[1] or "")) for x in subterms(t) if x.t in ("PURE", "CALL")} & {"n_clauses", "n_vars"}
            if got and n not in got:
                return f"reports `{got.pop()}` of `{pname(sp)}` as `{n}`"
            if m != 1:
                return f"counts the statistics of `{pname(sp)}` {m} times"
            continue
        own = True
        root = loc[0]
        new = e.read(st, *loc)
        total(new, grown, m)
        total(t, grown, -m)
    o = st.obs
    for sp in o[3]:
        if not any(sp[:len(x)] == x for x in subs):
            if not own:
                return f"has `{pname(sp)}` encode, whose statistics are left out of `{n}`"
            return None
    counted = dict(grown)
    need = {}
    end, start = o[0 if kind == "c" else 1], ("", -1, 0)
    if end != start:
        add(need, mk("CNT", kind, end), 1)
        add(need, mk("CNT", kind, start), -1)
    for k, v in need.items():
        add(grown, k, -v)
    if kind == "v":
        for new, old, lo, hi in reversed(o[2]):
            n = grown.pop(mk("CNT", "v", new), 0)
            if n:
                add(grown, mk("CNT", "v", old), n)
                total(hi, grown, n)
                total(lo, grown, -n)
    if not grown:
        return None
    if kind == "v" and counted and not any(x.t == "CNT" for t in counted if t is not None for x in subterms(t)):
        # counted arithmetically; decided only if every draw was counted, too
        if any(k is not None and k.t == "CNT" for k in grown):
            return "?"
    what = "clauses" if kind == "c" else "variables"
    if any(x.t in ("HAV", "WIDE", "DEEP") or x.t == "CNT" and x.a[1][2] >= 3 for k in grown if k for x in subterms(k)):
        return "?"
    if any(local_len(k) for k in grown if k):
        return "?"
    why = f"returns successfully with statistics that do not match the {what} it produced ({show(grown)})"
    # arithmetic counts are judged only where all draws are understood
    return (why,) if kind == "v" and not any(x.t == "CNT" for t in counted if t is not None for x in subterms(t)) else why


def place(t):
    if t.t == "FLD" and t.a[0].t == "DEREF" or t.t == "FLD":
        path = []
        x = t
        while x.t == "FLD":
            path.append(x.a[1])
            x = x.a[0]
        path.reverse()
        if x.t == "DEREF":
            return (mk("M", x.a[0]), tuple(path))
    return None


def subpath(t):
    """the field whose statistics a term reads"""
    for x in subterms(t):
        if x.t == "FLD":
            p = place(x)
            if p is not None:
                return p[1]
    for x in subterms(t):
        if x.t == "REF":
            return tuple(x.a[1])
    return None


def pname(p):
    return ".".join(str(x[2]) for x in p)


CHECKS = {"E02": e02}
TECH = {"E02": ("abstract interpretation of every encoding call with the clause count of the collector and the variable count of the manager as symbolic versions",
                "the statistics must have grown by the difference between the versions at the end and at the start; unproven forms are recorded as undecided")}
