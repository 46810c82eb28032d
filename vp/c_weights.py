"""E03: weights of repeated literals and clauses accumulate."""
import re

from .mir import Client, Engine, Budget, mk, last, subterms, INT, Some, NONE, TRUE, FALSE
from .c_stats import total
from .c_enc import opty

MAP = re.compile(r"(?:HashMap|BTreeMap)<(types::Lit|types::Var|types::constraints::Clause), *(usize|isize|u\d+|i\d+)\b")
ENTRY = re.compile(r"(?:Occupied|Vacant)?Entry<'?\w*,? *(types::Lit|types::Var|types::constraints::Clause), *(usize|isize|u\d+|i\d+)\b")
ITEM = re.compile(r"(?:hash|btree)(?:::map)?(?:::map)?::(IntoIter|Iter|Drain|IntoKeys|Keys)<(?:'[\w]+, *)?(types::Lit|types::Var|types::constraints::Clause)\b")
FRESH = {"new_var", "new_lit", "pos_lit", "neg_lit", "lit"}
KEEP = {"not", "neg", "reindex_lit", "reindex", "clone", "copied", "deref", "to_owned", "cloned", "into", "from"}
FILL = {"collect", "from_iter", "extend", "from"}


def ismap(s):
    return MAP.search(s.split(" as ")[0]) is not None and not s.startswith(("core::option", "core::iter", "std::collections::hash::map::Iter",
                                                                           "std::collections::hash::map::IntoIter", "alloc::vec", "("))


def stale(k):
    """belongs to an earlier round of a loop"""
    return any(isinstance(s, tuple) and s and s[0] == "old" for s in k.sites)


class Run(Client):
    max_states = 12000
    widen_after = 3
    widen_int = 2
    gc = True

    def __init__(self, F, repl):
        self.F = F
        self.repl = repl
        self.pend = {}
        self.findings = {}
        self.returned = set()
        self.sites = set()
        self.used = set()

    def inline(self, eng, key, fn, call, st):
        return fn["k"] == "closure"

    # obs: ((map, key, present?), ...)
    def known(self, st, m, k):
        for x in reversed(st.obs):
            if x[0] == m and x[1] == k:
                return x[2]
        return None

    def learn(self, st, m, k, p):
        st.obs = (tuple(x for x in st.obs if x[:2] != (m, k) and not stale(x[1])) + ((m, k, p),))[-3:]

    def mp(self, eng, st, a):
        return a if a.t != "REF" else mk("AT", a.a[0], tuple(a.a[1]))

    def kv(self, eng, st, k):
        if k.t == "REF":
            k = eng.at(st, k)
        elif k.t == "ARG" or k.t in ("FLD", "CALL", "PURE", "ELEM"):
            k2 = mk("DEREF", k)
            if k.t != "DEREF" and any(k2 == x[1] for x in st.obs):
                return k2
        while k.t in ("PURE", "CALL") and last(str(k.a[0] if k.t == "PURE" else k.a[1])) in ("clone", "copied"):
            k = k.a[1][0] if k.t == "PURE" else k.a[2]
            if k.t == "REF":
                k = eng.at(st, k)
        return k

    def flag(self, c, what):
        self.findings.setdefault((c.fn["key"], c.bb), (c.fn, what, c.where))

    def on_call(self, eng, st, c):
        t0 = c.argt[0]["s"] if c.args else ""
        n = c.name
        if c.args and ismap(t0.lstrip("&").replace("mut ", "")) and len(c.args) >= 1 and n not in FILL | {"insert", "get", "get_mut", "contains_key", "remove", "entry"}:
            return None
        if c.args and ismap(t0.lstrip("&").replace("mut ", "")) and len(c.args) >= 2:
            m = self.mp(eng, st, c.args[0])
            if n in ("get", "get_mut", "contains_key", "remove", "entry"):
                k = self.kv(eng, st, c.args[1])
                if n == "entry":
                    return [(mk("ENT", m, k, 0), st)]
                out = []
                p = self.known(st, m, k)
                if p is not False:
                    s = st.copy()
                    self.learn(s, m, k, n != "remove")
                    o = mk("OLD", m, k)
                    out.append((TRUE if n == "contains_key" else Some(o if n == "remove" else mk("REF", mk("M", o), ())), s))
                if p is not True:
                    s = st.copy()
                    self.learn(s, m, k, False)
                    out.append((FALSE if n == "contains_key" else NONE, s))
                return out
            if n == "insert":
                self.sites.add((c.fn["key"], c.bb))
                k = self.kv(eng, st, c.args[1])
                w = c.args[2]
                p = self.known(st, m, k)
                res = mk("CALL", c.site, c.p, mk("OLD", m, k))
                self.learn(st, m, k, True)
                if p is False or self.fresh(k) or any(x.t == "OLD" and x.a[1] == k for x in subterms(w)):
                    return [(res, st)]
                self.pend[c.site] = (c.fn, c.bb, "stores a weight under a literal or clause that may already have one, and drops that one", c.where)
                return [(res, st)]
            if n == "extend":
                self.fill(eng, st, c, c.args[1], c.argt[1]["s"])
                return None
        if n in ("collect", "from_iter", "from") and ismap(c.dty["s"]) and c.args:
            self.fill(eng, st, c, c.args[0], t0)
            return None
        if c.args and ENTRY.search(t0) and not c.p.startswith("core::mem"):
            e = c.args[0]
            if e.t == "REF":
                e = eng.at(st, e)
            if e.t != "ENT":
                if n == "insert" and "Occupied" in t0 and len(c.args) > 1:
                    self.sites.add((c.fn["key"], c.bb))
                    w = c.args[1]
                    if not any(x.t == "CALL" and last(str(x.a[1])) in ("get", "get_mut", "into_mut") or x.t == "OLD" for x in subterms(w)):
                        self.flag(c, "replaces the weight of a literal or clause that is already there")
                elif n in ("get", "get_mut", "into_mut") and "Occupied" in t0:
                    return [(mk("REF", mk("M", mk("OLD", mk("OCC"), e)), ()), st)]
                return None
            if n == "and_modify":
                out = []
                o = mk("OLD", e.a[0], e.a[1])
                for r, s in eng.apply(st.copy(), c, c.args[1], (mk("REF", mk("M", o), ()),), 0, ()):
                    out.append((mk("ENT", e.a[0], e.a[1], 1), s))
                return out
            if n in ("or_default", "or_insert", "or_insert_with", "or_insert_with_key"):
                self.sites.add((c.fn["key"], c.bb))
                o = mk("OLD", e.a[0], e.a[1])
                if n == "or_insert" and not e.a[2] and not (c.args[1].t == "INT" and c.args[1].a[0] == 0):
                    self.pend[c.site] = (c.fn, c.bb, "keeps only the first weight given for a literal or clause", c.where)
                return [(mk("REF", mk("M", mk("OLD", e.a[0], e.a[1], c.site)), ()), st)]
            return None
        if c.key in self.repl:
            self.sites.add((c.fn["key"], c.bb))
            res = mk("CALL", c.site, c.p, mk("OLD", mk("REPL"), mk("DEEP", c.key)))
            self.pend[c.site] = (c.fn, c.bb, f"adds a weighted literal or clause with `{n}`, which replaces an earlier weight of the same one", c.where)
            return [(res, st)]
        return None

    def fresh(self, k):
        x = k
        while True:
            if x.t in ("CALL", "PURE"):
                n = last(str(x.a[1] if x.t == "CALL" else x.a[0]))
                if n in ("new_var", "new_lit"):
                    return True
                args = x.a[2:] if x.t == "CALL" else x.a[1]
                if n in FRESH | KEEP and args:
                    x = args[0]
                    continue
            if x.t == "ADT" and len(x.a[3]) == 1:
                x = x.a[3][0]
                continue
            return any(y.t == "CALL" and last(str(y.a[1])) in ("new_var", "new_lit") for y in subterms(k))

    def fill(self, eng, st, c, it, ty):
        self.sites.add((c.fn["key"], c.bb))
        if c.name == "from" and ismap(ty):
            return
        if "Chain<" in ty or "FlatMap<" in ty or "Flatten<" in ty or "Zip<" in ty:
            self.flag(c, "collects weighted literals or clauses into a map, which keeps only the last weight of each")
            return
        if not (ITEM.search(ty) or ismap(ty)):
            self.flag(c, "collects weighted literals or clauses into a map, which keeps only the last weight of each")
            return
        v = eng.strip(st, it)
        while v.t == "ITER":
            if len(v.a) > 2 and v.a[1] == "map":
                key = mk("KEY")
                for ret, s in eng.apply(st.copy(), c, v.a[2], (mk("TUP", (key, mk("WT"))),), 0, ()):
                    k = ret.a[0][0] if ret.t == "TUP" and len(ret.a[0]) == 2 else None
                    if k is None or not (self.injective(k, key) or self.listwise(eng, s, c, k, key)):
                        self.flag(c, "maps keys before collecting them into a map, and two keys may become the same")
                        return
            v = v.a[0]

    def listwise(self, eng, st, c, k, key):
        """a clause whose literals are mapped one by one"""
        if k.t != "CALL" or last(str(k.a[1])) not in ("collect", "from_iter") or len(k.a) < 3:
            return False
        v = eng.strip(st, k.a[2])
        while v.t == "ITER" and len(v.a) > 1:
            if v.a[1] == "map":
                x = mk("KEY2")
                for ret, s in eng.apply(st.copy(), c, v.a[2], (x,), 0, ()):
                    if not self.injective(ret, x):
                        return False
            elif v.a[1] not in ("into_iter", "iter", "copied", "cloned"):
                return False
            v = v.a[0]
        return any(y == key for y in subterms(v))

    def injective(self, k, key):
        while k != key:
            if k.t in ("CALL", "PURE"):
                n = last(str(k.a[1] if k.t == "CALL" else k.a[0]))
                args = [x for x in (k.a[2:] if k.t == "CALL" else k.a[1]) if any(y == key for y in subterms(x))]
                if n not in KEEP or len(args) != 1:
                    return False
                k = args[0]
            elif k.t in ("UN", "NEG", "NOT", "DEREF", "CAST"):
                a = [x for x in k.a if hasattr(x, "t")]
                if len(a) != 1:
                    return False
                k = a[0]
            elif k.t == "ADT" and len(k.a[3]) == 1:
                k = k.a[3][0]
            elif k.t == "BIN" and k.a[0] == "BitXor" or k.t == "FLD":
                a = [x for x in k.a if hasattr(x, "t") and any(y == key for y in subterms(x))]
                if len(a) != 1:
                    return False
                k = a[0]
            else:
                return False
        return True

    def on_site(self, eng, st, site):
        for f in [f for f in st.facts if f.t != "DISCR"]:
            del st.facts[f]
        for x in list(st.store):
            if x.t == "M" and x.a[0].t == "OLD" and stale(x):
                del st.store[x]

    def on_write(self, eng, st, root, path, val, where):
        if where and not (root.t == "M" and root.a[0].t == "OLD") and val.depth > 5 and val.t in ("BIN", "FLD", "CAST"):
            w = mk("WIDE", where[0]["key"], where[1])
            for x, n in total(val).items():
                if n == 1 and x is not None and x.t == "DEREF" and x.a[0].t == "OLD" and not stale(x.a[0]):
                    w = mk("BIN", "Add", x, w)
                    break
            if path:
                st.store[root] = eng.upd(st, st.store[root], path, w)
            else:
                st.store[root] = w
            return
        if root.t == "M" and root.a[0].t == "OLD":
            fn, bb = where[0], where[1]
            self.sites.add((fn["key"], bb))
            o = root.a[0]
            if len(o.a) > 2:
                self.used.add(o.a[2])
            cur = mk("DEREF", o)
            if total(val).get(mk("DEREF", o), 0) != 1 and not self.sums(val, cur) and val.t not in ("HAV",):
                self.findings.setdefault((fn["key"], bb), (fn, "overwrites the weight of a literal or clause that already has one",
                                                           f"{fn['sp'][0]}:{fn['blocks'][bb]['sp'][1]}"))
        for x in subterms(val):
            if x.t == "CALL" and x.a[0] in self.pend and val.t != "CALL":
                self.used.add(x.a[0])

    def sums(self, val, cur):
        """checked or saturating additions, and subtractions of a part"""
        for x in subterms(val):
            if x.t in ("CALL", "PURE"):
                n = last(str(x.a[1] if x.t == "CALL" else x.a[0]))
                if n in ("checked_add", "saturating_add", "add", "wrapping_add", "sub", "checked_sub", "saturating_sub") and any(y == cur for y in subterms(x)):
                    return True
        return False

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            for x in subterms(ret):
                if x.t == "CALL" and x.a[0] in self.pend:
                    self.used.add(x.a[0])
                    self.returned.add(x.a[0])


def relevant(f, repl):
    for b in f["blocks"]:
        if b.get("cl"):
            continue
        t = b["t"]
        if t[0] != "call":
            continue
        if t[2] and (MAP.search(opty(f, t[2][0])) or ENTRY.search(opty(f, t[2][0]))) and last(t[1].get("p") or "") in \
                FILL | {"insert", "get", "get_mut", "entry", "and_modify", "or_default", "or_insert", "or_insert_with", "remove", "contains_key", "into_mut"}:
            return True
        if last(t[1].get("p") or "") in FILL and len(t[3]) > 2 and ismap(f["tys"][t[3][2]]["s"]):
            return True
        if (t[1].get("r") or t[1].get("d")) in repl:
            return True
    return False


def e03(F, r):
    r.rules = ["storing a weight in a map from literals or clauses to weights happens where the key is known to be absent or freshly drawn, adds to the weight that "
               "is there, or hands the replaced weight to the caller",
               "no weighted literals or clauses are collected into such a map unless they come from a map and their keys stay distinct",
               "a function that replaces weights (handing the old one to its caller) is not called where weights are to be collected: the caller hands the old one on"]
    repl = {}
    done = {}
    scope = {k: f for k, f in F.fns.items() if f["crate"].startswith(("rustsat.", "rustsat_tools", "tools")) or "capi" in f["crate"]}
    scope = {k: f for k, f in scope.items() if f["sp"][0].startswith(("src/encodings", "src/instances", "src/types", "src/algs", "tools/src", "capi/src"))
             and not f.get("derived") and "serde" not in f["p"]}
    runs = {}
    for rnd in range(4):
        new = {}
        for k, f in sorted(scope.items()):
            if not relevant(f, repl) or (rnd and not any((b["t"][1].get("r") or b["t"][1].get("d")) in last_new for b in f["blocks"] if b["t"][0] == "call")):
                continue
            t = Run(F, repl)
            e = Engine(F, t)
            try:
                e.run(k, ())
            except Budget:
                t = Run(F, repl)
                t.block_cap = 60
                e = Engine(F, t)
                try:
                    e.run(k, ())
                except Budget:
                    r.undec(f"{f['p']}: budget")
                    continue
                r.undec(f"{f['p']}: explored up to {t.block_cap} states per block")
            runs[k] = t
            if t.returned and f["k"] != "closure":
                if k not in repl:
                    new[k] = f
        last_new = new
        repl.update(new)
        if not new:
            break
    for k, t in sorted(runs.items()):
        f = F.fns[k]
        r.analysed.add(k)
        found = dict(t.findings)
        for site, (fn, bb, what, wh) in t.pend.items():
            if site not in t.used:
                found.setdefault((fn["key"], bb), (fn, what, wh))
        for s in t.sites:
            if s not in found:
                r.ok("site", f["p"])
        for (fk, bb), (fn, what, wh) in sorted(found.items(), key=str):
            b = fn["blocks"][bb]["t"]
            n = last(b[1].get("p") or "") if b[0] == "call" else "write"
            r.bad(f"{fn['p']}:{n}", f"{fn['p']} {what}", wh)
    for k in repl:
        r.ok("replacing", F.fns[k]["p"])
    r.floor("site", 12, "places where weights are stored in maps")
    return {"level": "other", "explanation": "abstract interpretation of every function that stores weights in a map from literals or clauses; see rules"}


CHECKS = {"E03": e03}
TECH = {"E03": ("abstract interpretation with the presence of keys in weight maps as path facts, and type-directed query for map constructions from iterators",
                "every store of a weight must be into an absent key, additive, or hand the old weight on")}
