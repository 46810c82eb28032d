"""X01: an error received from a callee reaches the caller."""
import re

from .mir import Client, Engine, Budget, mk, last, subterms, RESULT, OPTION
from .mir import Ok, Err, Some, NONE

BENIGN = re.compile(r"TryFromIntError|PbToCardError|RequiresClausal|RequiresSoftLits|Infallible|^!$|nom::|TryFromSliceError|ParseIntError|core::str::Utf8Error|VarError|CharTryFromError|CapacityError|winnow::|core::fmt::Error$")


def targs(s):
    """the type arguments of a type string"""
    i = s.find("<")
    if i < 0 or not s.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for ch in s[i + 1:-1]:
        if ch in "<([":
            d += 1
        elif ch in ">)]" and not cur.endswith("-"):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def errty(s):
    """the error type of a Result type that matters, or None"""
    if s.startswith(RESULT + "<"):
        a = targs(s)
        if len(a) == 2 and not BENIGN.search(a[1]):
            return a[1]
    return None


WRITER = re.compile(r"^(alloc::boxed::Box<)?(\(?dyn \w+::io::(\w+::)*Write\b|\w+::io::(\w+::)*(BufWriter|LineWriter)<)")


class Run(Client):
    max_states = 9000
    max_depth = 4
    widen_after = 3
    widen_int = 2
    gc = True

    def __init__(self, F, fn, memo=None):
        self.F = F
        self.memo = memo if memo is not None else {}
        self.fn = fn
        self.sites = {}
        self.writers = {}
        self.ends = []

    # obs: (pending errors, writers with unflushed contents)
    def inline(self, eng, key, fn, call, st):
        return fn["k"] == "closure"

    def values(self, ty, site, n=0):
        """what a call returning `ty` may return: (value, reports an error)"""
        a = targs(ty) if ty.startswith((RESULT + "<", OPTION + "<")) else []
        if ty.startswith(RESULT + "<") and len(a) == 2 and not BENIGN.search(a[1]):
            return [(Ok(v), e) for v, e in self.values(a[0], site, n + 1)] + [(Err(mk("ERRV", site, n)), True)]
        if ty.startswith(OPTION + "<") and len(a) == 1 and any(e for _, e in self.values(a[0], site, n + 1)):
            return [(Some(v), e) for v, e in self.values(a[0], site, n + 1)] + [(NONE, False)]
        if WRITER.match(ty):
            return [(mk("WRITER", site), False)]
        return [(mk("OKV", site, n), False)]

    def on_call(self, eng, st, c):
        pend, dirty = st.obs
        for i, a in enumerate(c.args):
            v = a
            ref = a.t == "REF"
            if ref:
                v = eng.at(st, a)
                while v.t == "REF":
                    v = eng.at(st, v)
            for x in subterms(v):
                if x.t != "WRITER":
                    continue
                w = x.a[0]
                if c.name in ("flush", "into_inner", "finish", "sync_all") or c.key in self.F.fns and flushes(self.F, c.key, i, self.memo):
                    dirty = tuple(d for d in dirty if d != w)
                elif ref or c.argt[i]["s"].startswith("&"):
                    if "&mut" in c.argt[i]["s"] and w not in dirty and not c.name.startswith(("as_", "by_ref", "borrow", "get_", "deref")):
                        dirty = dirty + (w,)
                elif c.key in self.F.fns or c.name in ("new", "from", "into", "push", "insert", "spawn", "leak", "into_raw", "forget") and not c.p.startswith("core::convert"):
                    dirty = tuple(d for d in dirty if d != w)         # somebody else's from here on
        st.obs = (pend, dirty)
        d = c.dty["s"]
        if c.name == "map_err" and c.p.startswith("core::result::Result::<") and errty(d) and not errty(c.argt[0]["s"]) and c.argt[0]["s"].startswith(RESULT):
            # an answer that becomes a failure here
            v = c.args[0]
            self.sites[c.site] = c
            s = st.copy()
            s.obs = (s.obs[0] + ((c.site,) if c.site not in pend else ()), s.obs[1])
            bad = (Err(mk("ERRV", c.site, 0)), s)
            if v.t == "ADT" and v.a[2] == "Ok":
                return [(v, st)]
            if v.t == "ADT" and v.a[2] == "Err":
                return [bad]
            return [(Ok(mk("OKV", c.site, 0)), st), bad]
        if c.p.startswith(("core::result::Result::<", "core::option::Option::<", "core::ops::try_trait", "core::convert", "anyhow::")):
            return None
        if c.name in ("call", "call_mut", "call_once") or c.key in self.F.fns and self.F.fns[c.key]["k"] == "closure":
            return None
        vs = self.values(d, c.site)
        if any(e for _, e in vs):
            if self.combin(c):
                return None
            self.sites[c.site] = c
            out = []
            for v, e in vs:
                s = st.copy()
                if e and c.site not in pend:
                    s.obs = (s.obs[0] + (c.site,), s.obs[1])
                if any(x.t == "WRITER" for x in subterms(v)):
                    self.writers[c.site] = c
                out.append((v, s))
            return out
        if vs[0][0].t == "WRITER" and not any("WRITER" == x.t for a in c.args for x in subterms(a)):
            self.writers[c.site] = c
            return [(vs[0][0], st)]
        if c.name == "spawn" and "thread" in c.p:
            return [(mk("CALL", c.site, c.p), st)]
        if c.name == "leak" or c.name == "into_raw":
            return None
        return None

    def on_write(self, eng, st, root, path, val, where):
        if where and val.depth > 2 and val.t == "BIN" and not path:
            st.store[root] = mk("WIDE", where[0]["key"], where[1])

    def on_site(self, eng, st, site):
        for f in [f for f in st.facts if f.t != "DISCR"]:
            del st.facts[f]

    def hav_val(self, eng, st, old, c, i):
        return old if old is not None and old.t == "WRITER" else None

    def combin(self, c):
        """an adaptor applied to closures: its error is one of theirs"""
        return "iter" in c.p and any(t["s"].startswith("{closure") or "closure@" in t["s"] or t.get("k") == "closure" for t in c.argt[1:])

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((ret, st.copy()))


def flushes(F, key, i, memo):
    """the function has flushed its parameter whenever it returns successfully"""
    if (key, i) in memo:
        return memo[key, i]
    memo[key, i] = False
    f = F.fns[key]
    w = ("param", i)
    t = Run(F, f, memo)
    e = Engine(F, t)
    args = e.default_args(f)
    if i >= len(args):
        return False
    args[i] = mk("WRITER", w)
    try:
        e.run(key, ((), (w,)), args=args)
    except Budget:
        return False
    ok = [st for ret, st in t.ends if not failure(ret)]
    memo[key, i] = bool(ok) and all(w not in st.obs[1] for st in ok)
    return memo[key, i]


def spawned(F):
    """closures run by another thread"""
    out = set()
    for f in F.fns.values():
        for b in f["blocks"]:
            if b["t"][0] == "call" and (b["t"][1].get("p") or "").startswith("std::thread") and last(b["t"][1]["p"]).startswith("spawn"):
                for g in F.fns:
                    if g.startswith(f["key"] + "::{closure"):
                        out.add(g)
    return out


DIRS = ("src/", "cadical/src", "kissat/src", "minisat/src", "glucose/src", "batsat/src", "ipasir/src", "pigeons/src", "tools/src", "capi/src")


def x01(F, r):
    r.rules = ["on every path on which a callee reported an error the function returns a failure, hands the result on, or does not return",
               "a buffered writer is flushed, handed on or returned on every path to a successful return: dropping it discards the error of its last write",
               "errors of iterator items are not filtered away"]
    thr = spawned(F)
    memo = {}
    scope = {k: f for k, f in F.fns.items() if f["sp"][0].startswith(DIRS) and not f.get("derived") and (f["k"] != "closure" or k in thr)}
    for k, f in sorted(scope.items()):
        if not interesting(f):
            continue
        t = Run(F, f, memo)
        e = Engine(F, t)
        try:
            e.run(k, ((), ()))
        except Budget:
            t = Run(F, f, memo)
            t.block_cap, t.max_states = 30, 40000
            e = Engine(F, t)
            try:
                e.run(k, ((), ()))
            except Budget:
                r.undec(f"{f['p']}: budget")
                continue
            r.undec(f"{f['p']}: explored up to {t.block_cap} states per block")
        r.analysed.add(k)
        bad, lost = {}, {}
        for ret, st in t.ends:
            if failure(ret) and not (ret.a[2] == "None" and any(errty(x) for x in targs(f["tys"][f["locals"][0]]["s"]))):
                continue
            errs = {x.a[0] for x in subterms(ret) if x.t == "ERRV"}
            for s in st.obs[0]:
                if s not in errs:
                    bad.setdefault(s, ret)
            kept = {x.a[0] for x in subterms(ret) if x.t == "WRITER"}
            for s in st.obs[1]:
                if s not in kept:
                    lost.setdefault(s, ret)
        for s, c in sorted(t.sites.items(), key=str):
            if s in bad:
                r.bad(f"{f['p']}:{last(c.p)}", f"{f['p']} goes on after `{c.p}` reported an error", c.where)
            else:
                r.ok("call", f["p"])
        for s, c in sorted(t.writers.items(), key=str):
            if s in lost:
                r.bad(f"{f['p']}:flush:{last(c.p)}", f"{f['p']} drops the buffered writer of `{c.p}` unflushed: a failure to write the rest is lost", c.where)
            else:
                r.ok("writer", f["p"])
    for k, f in sorted(F.fns.items()):
        if f["k"] == "closure" and f["sp"][0].startswith(DIRS) and k not in thr:
            given(F, r, f, memo)
    items(F, r)
    r.floor("call", 300, "calls that may report errors")
    return {"level": "other", "explanation": "abstract interpretation of every function with a fallible callee; see rules"}


def given(F, r, f, memo):
    """a closure that is given results: the errors in them are pending when it starts"""
    site = (f["key"], "arg")
    for i in range(2, f["nargs"] + 1):
        ty = f["tys"][f["locals"][i]]["s"]
        m = re.search(re.escape(RESULT) + "<.*>", ty)
        part = [ty] if errty(ty) else [x.strip() for x in targs("X<" + ty[1:-1] + ">") if errty(x.strip())] if ty.startswith("(") and m else []
        if not part:
            continue
        t = Run(F, f, memo)
        t.block_cap, t.max_states = 30, 40000
        e = Engine(F, t)
        args = e.default_args(f)
        err = Err(mk("ERRV", site, 0))
        args[i - 1] = err if ty == part[0] else mk("TUP", tuple(err if errty(x.strip()) else mk("OKV", site, n) for n, x in enumerate(targs("X<" + ty[1:-1] + ">"))))
        try:
            e.run(f["key"], ((site,), ()), args=args)
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        r.analysed.add(f["key"])
        if any((not failure(ret) or ret.a[2] == "None") and site in st.obs[0] and not any(x.t == "ERRV" and x.a[0] == site for x in subterms(ret)) for ret, st in t.ends):
            r.bad(f"{f['p']}:given", f"{f['p']} drops the error of a result it is given", f"{f['sp'][0]}:{f['sp'][1]}")
        else:
            r.ok("call", f["p"])


def interesting(f):
    for b in f["blocks"]:
        if b["t"][0] == "call" and not b.get("cl"):
            d = b["t"][3]
            s = f["tys"][d[2]]["s"] if len(d) > 2 else f["tys"][f["locals"][d[0]]]["s"]
            if WRITER.match(s) or s.startswith((RESULT + "<", OPTION + "<")) and any(x for _, x in Run(None, None).values(s, ("", 0))):
                return True
    return False


def items(F, r):
    """adaptors that drop the errors of items"""
    for k, f in sorted(F.fns.items()):
        if not f["sp"][0].startswith(DIRS):
            continue
        for b in f["blocks"]:
            t = b["t"]
            if t[0] != "call" or b.get("cl"):
                continue
            n = last(t[1].get("p") or "")
            if "iter" not in (t[1].get("p") or ""):
                continue
            d = t[3]
            s = f["tys"][d[2]]["s"] if len(d) > 2 else f["tys"][f["locals"][d[0]]]["s"]
            if n == "flatten" and re.match(r"core::iter::adapters::flatten::Flatten<\w+::io::(\w+::)*Lines<", s) or \
                    n in ("filter_map", "flat_map", "map_while") and re.search(r"core::result::Result::<[^{}]*>::(ok|into_iter)\}", s) and not BENIGN.search(s):
                r.bad(f"{f['p']}:{n}", f"{f['p']} drops the errors of the items it iterates over (`{n}`)", f"{f['sp'][0]}:{b['sp'][1]}")


def failure(ret):
    if ret.t != "ADT":
        return False
    if ret.a[2] in ("Err", "None", "Break"):
        return True
    if ret.a[2] in ("Some", "Ok", "Continue") and ret.a[3] and failure(ret.a[3][0]) and ret.a[3][0].a[2] == "Err":
        return True
    return "MaybeError" in str(ret.a[0]) and ret.a[2] != "Ok"


CHECKS = {"X01": x01}
TECH = {"X01": ("abstract interpretation of every function with a fallible callee, forking on the outcome of each call, with pending errors and unflushed writers as typestate",
                "an exit that is not a failure must not have a pending error or an unflushed writer")}
