"""L01: the proof writer's constraint ids against the lines it writes."""
import re

from . import models
from .mir import Client, Engine, Budget, mk, last, subterms, UNIT, Ok, Err, Some, NONE, INT, ADT, OPTION, RESULT
from .rx import pieces
from .c_opb import lin, plus, form
from .c_errors import failure

CRATE = "pigeons.lib"
ADDING = {"p", "pol", "u", "rup", "red", "dom", "solx", "soli", "ea", "ia", "a", "rule"}
NEUTRAL = {"f", "*", "del", "delc", "deld", "obju", "core", "sol", "output", "conclusion", "e", "eobj", "i", "#", "w", "load_order", "def_order",
           "strengthening_to_core", "end", "pseudo-Boolean", "qed", "is_deleted", "pre_order", "fail"}
SIZES = (0, 1, 2)


PLAIN = {"iter", "into_iter", "by_ref", "iter_mut", "copied", "cloned", "drain", "peekable", "fuse", "lines"}
DRIVEN = {"for_each", "try_for_each", "fold", "try_fold", "sum", "collect"}


class Lines(Client):
    """obs: (text written, ((collection, size, position), …))"""
    max_states = 30000
    max_depth = 8
    widen_after = 12
    widen_int = 12
    block_cap = 600
    gc = True

    def __init__(self, F):
        self.F = F
        self.ends = []
        self.extra = set()

    def inline(self, eng, key, fn, call, st):
        return fn["crate"] == CRATE and fn["name"] != "fmt"

    # -------------------------------------------------------------- collections
    def base(self, eng, st, v):
        for _ in range(12):
            if v.t == "REF":
                x = eng.at(st, v)
                if x == v:
                    break
                if x.t == "TOP":
                    break
                v = x
            elif v.t == "ITER" and v.a and hasattr(v.a[0], "t"):
                v = v.a[0]
            elif v.t in ("DEREF", "CAST"):
                v = v.a[0]
            else:
                break
        return repr(v), v

    def size(self, st, b):
        return next(((n, i) for x, n, i in st.obs[1] if x == b), None)

    def put(self, st, b, n, i):
        s = st.copy()
        s.obs = (st.obs[0], tuple(sorted({x: (x, m, j) for x, m, j in st.obs[1] if x != b}.values())) + ((b, n, i),))
        return s

    def sized(self, st, b):
        if self.size(st, b) is not None:
            return [st]
        return [self.put(st, b, n, 0) for n in SIZES]

    def on_call(self, eng, st, c):
        p, n = c.p, c.name
        if n in ("next", "peek", "len", "is_empty", "count", "is_some", "next_if") and c.args and n in ("next", "peek", "len", "is_empty", "count"):
            if c.key and self.F.fns.get(c.key):
                return None
            b, v = self.base(eng, st, c.args[0])
            if v.t in ("STR", "INT", "BYTES"):
                return None
            out = []
            for s in self.sized(st, b):
                k, i = self.size(s, b)
                if n == "len" or n == "count":
                    out.append((INT(k - (i if n == "count" else 0)), s))
                elif n == "is_empty":
                    out.append((INT(int(k == 0)), s))
                elif i >= k:
                    # a collection is iterated from its start again by the next loop over it
                    out.append((NONE, self.put(s, b, k, 0) if "peek" not in n else s))
                else:
                    el = mk("EL", b, i)
                    if n == "next":
                        s = self.put(s, b, k, i + 1)
                    out.append((Some(el), s))
            return out
        if n in DRIVEN and c.args and not (c.key and self.F.fns.get(c.key)):
            r = self.consume(eng, st, c)
            if r is not None:
                return r
        if n in ("try_from", "try_into") and "NonZero" in c.dty["s"] and len(c.args) == 1:
            g = idform(c.args[0], lambda x: eng.at(st, x))
            if g is not None:
                return [(Ok(mk("NZ", tuple(sorted(g.items(), key=str)))), st)]
        if n == "new" and "NonZero" in c.dty["s"] and len(c.args) == 1:
            g = idform(c.args[0], lambda x: eng.at(st, x))
            if g is not None:
                return [(Some(mk("NZ", tuple(sorted(g.items(), key=str)))), st)]
        if p.startswith("core::fmt::rt::Argument") and n.startswith("new_"):
            v = c.args[0]
            while v.t == "REF":
                x = eng.at(st, v)
                if x == v:
                    break
                v = x
            a = c.f.get("a") or [None]
            ty = c.fn["tys"][int(a[0])]["s"] if a[0] is not None else c.argt[0]["s"]
            return [(mk("FARG", n, ty, v), st)]
        if "fmt::Arguments" in p and n == "from_str":
            v = c.args[0]
            return [(mk("FMT", ((v.a[0] if v.t == "STR" else mk("UNKNOWN")),)), st)]
        if "fmt::Arguments" in p and n.startswith("new"):
            return [(self.fmt(eng, st, c), st)]
        if n in ("write_fmt", "write_all", "write_str", "write") and len(c.args) == 2 and ("Write" in p or "Formatter" in p) and not p.startswith("core::fmt::rt"):
            t = self.text(eng, st, c.args[1])
            good = st.copy()
            if t is None:
                good.obs = (st.obs[0] + (mk("UNKNOWN"),), st.obs[1])
                return [(Ok(UNIT), good), (Err(mk("ERRV", c.site)), st)]
            alts = {st.obs}
            for x in t:
                f = self.shown(x)
                if f is None:
                    alts = {(tx + (x,), its) for tx, its in alts}
                else:
                    alts = {o for a in alts for o in self.expand(eng, st, a, f, x)}
            out = []
            for o in sorted(alts, key=repr):
                g = st.copy()
                g.obs = o
                out.append((Ok(UNIT), g))
            return out + [(Err(mk("ERRV", c.site)), st)]
        if n == "flush" and "Write" in p:
            return [(Ok(UNIT), st)]
        return None

    def chain(self, eng, st, c, it):
        """[(elements, state)] of an iterator chain over a sized collection"""
        it = eng.strip(st, it)
        if it.t == "ITER" and len(it.a) > 1 and it.a[1] not in PLAIN:
            if it.a[1] != "map":
                return None
            sub = self.chain(eng, st, c, it.a[0])
            if sub is None:
                return None
            out = []
            for els, s in sub:
                work = [((), s)]
                for e in els:
                    work = [(done + (v,), s3) for done, s2 in work for v, s3 in eng.apply(s2, c, it.a[2], (e,), 2, ())]
                out += work
            return out
        b, v = self.base(eng, st, it)
        if v.t in ("STR", "INT", "BYTES", "ADT", "LIST"):
            return None
        return [(tuple(mk("EL", b, i) for i in range(self.size(s, b)[1], self.size(s, b)[0])), self.put(s, b, self.size(s, b)[0], 0))
                for s in self.sized(st, b)]

    def consume(self, eng, st, c):
        """consumers of iterators, element by element"""
        n = c.name
        if n == "collect":
            it = eng.strip(st, c.args[0])
            if "Vec<" not in c.dty["s"] or it.t == "ITER" and len(it.a) > 1 and it.a[1] not in PLAIN:
                return None
            return [(self.base(eng, st, it)[1], st)]
        sts = self.chain(eng, st, c, c.args[0])
        if sts is None:
            return None
        key = OPTION if c.dty.get("d") == OPTION else RESULT
        out = []
        for els, s in sts:
            if n == "sum":
                v = INT(0)
                for e in els:
                    v = mk("BIN", "Add", v, e)
                out.append((v, s))
                continue
            acc = c.args[1] if n in ("fold", "try_fold") else UNIT
            work = [(acc, s)]
            for e in els:
                nxt = []
                for a, s2 in work:
                    xs = (a, e) if n in ("fold", "try_fold") else (e,)
                    for v, s3 in eng.apply(s2, c, c.args[-1], xs, 2, ()):
                        if n in ("for_each", "fold"):
                            nxt.append((v, s3))
                            continue
                        for var, pay, s4 in models.split(eng, s3, v, key):
                            if var in ("Ok", "Some"):
                                nxt.append((pay, s4))
                            else:
                                out.append((NONE if key == OPTION else Err(pay), s4))
                work = nxt
            for a, s2 in work:
                out.append((a if n in ("for_each", "fold") else (Some(a) if key == OPTION else Ok(a)), s2))
        return out

    def shown(self, x):
        """the formatting function of a value that may contain steps of its own"""
        if isinstance(x, str) or x.t != "SHOWN":
            return None
        ty = re.sub(r"<.*", "", x.a[0]).split("::")[-1]
        if ty not in ("ObjectiveUpdate", "ProofGoal", "SubproofElement"):
            return None
        return next((f for f in self.F.fns.values() if f["crate"] == CRATE and f["name"] == "fmt" and re.search(rf"^<(\w+::)*{ty}<.* as .*Display>::fmt$", f["p"])), None)

    def expand(self, eng, st, obs, f, x):
        e = Engine(self.F, self)
        ends, self.ends = self.ends, []
        try:
            e.run(f["key"], obs, args=[x.a[1], mk("ARG", "formatter")], facts=st.facts)
        finally:
            mine, self.ends = self.ends, ends
        self.extra |= set(e.analysed)
        return {s.obs for ret, s in mine if not failure(ret)} or {(obs[0] + (mk("UNKNOWN"),), obs[1])}

    def fmt(self, eng, st, c):
        b = c.args[0]
        while b.t == "REF":
            b = eng.at(st, b)
        ps = pieces(b.a[0]) if b.t == "BYTES" else None
        if ps is None:
            return mk("FMT", None)
        arr = c.args[1] if len(c.args) > 1 else None
        while arr is not None and arr.t == "REF":
            arr = eng.at(st, arr)
        vals = list(arr.a[0]) if arr is not None and arr.t == "ARR" else []
        out = []
        for x in ps:
            if isinstance(x, str):
                out.append(x)
                continue
            v = vals[x] if x < len(vals) else mk("UNKNOWN")
            while v.t == "REF":
                v = eng.at(st, v)
            if v.t != "FARG":
                out.append(mk("UNKNOWN"))
            elif v.a[2].t == "STR":
                out.append(v.a[2].a[0])
            elif v.a[2].t == "INT" and not re.search("bool|char", v.a[1]):
                out.append(str(v.a[2].a[0]))
            else:
                out.append(mk("SHOWN", v.a[1].lstrip("&").replace("mut ", ""), v.a[2]))
        return mk("FMT", tuple(out))

    def text(self, eng, st, v):
        while v.t == "REF":
            v = eng.at(st, v)
        if v.t == "FMT":
            return v.a[0]
        if v.t == "STR":
            return (v.a[0],)
        return None

    def on_site(self, eng, st, site):
        pass

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((ret, st.copy()))


def render(parts):
    out = []
    for x in parts:
        if isinstance(x, str):
            out.append(x)
        elif x.t == "SHOWN":
            out.append("δ" if re.search(r"Derivation\b", x.a[0]) else "τ")
        else:
            out.append("?")
    return "".join(out)


def steps(text):
    """(number of ids the lines of a text take, the keywords of its lines) or a reason why that is not known"""
    n, kws = 0, []
    for ln in text.split("\n"):
        s = ln.strip()
        if not s:
            continue
        if s.startswith("δ"):
            n += 1
            kws.append("derivation")
            continue
        m = re.match(r"[^\sτδ?]+", s)
        kw = m[0] if m else None
        if kw is None:
            if s.startswith("?"):
                return None
            kws.append("")
            continue
        kws.append(kw)
        if kw == "proofgoal" or kw in ADDING:
            n += 1
        elif kw not in NEUTRAL:
            return None
        # the negation of the constraint to be shown; an objective update has only goals
        if re.search(r"(^|\s)begin$", s) and kw != "obju":
            n += 1
    return n, kws


WRAP = {"AbsConstraintId", "RelConstraintId", "Ok", "Some"}


def idform(v, deref):
    """linear form of a number or an id over named values (an opaque value is its own name)"""
    def name(x):
        if x.t == "NZ":
            return dict(x.a[0])
        if x.t == "ADT" and len(x.a[3]) == 1 and x.a[2] in WRAP:
            return idform(x.a[3][0], deref)
        if x.t == "OBJ":
            subs = [y for k, y in x.a[1]]
            if len(subs) == 1:
                return idform(subs[0], deref)
            return None
        y = x
        while y.t == "FLD" and str(y.a[1][2]) == "0" and y.a[0].t not in ("BIN", "TRYCONV") or y.t == "CONV":
            y = y.a[0]
        if y.t == "NZ" or y.t == "OBJ" or y.t == "ADT":
            return name(y)
        if y.t in ("ARG", "FLD", "DEREF", "EL"):
            return repr(y)
        return None
    for _ in range(8):
        if v.t == "CONV":
            v = v.a[0]
        elif v.t == "REF":
            v = deref(v)
        else:
            break
    return lin(v, name, deref)


def proof(F):
    k, a = next(((k, a) for k, a in F.adts.items() if re.search(r"^pigeons\b.*\bProof$", k) and a["vs"][0][0] == "Proof"), (None, None))
    return k, {x[0]: i for i, x in enumerate(a["vs"][0][2])} if a else {}


N = "DEREF(arg:self).next_id"
# the syntax of the lines of a proof; τ a value written by its own formatter, δ a derivation
FORMS = [r"pseudo-Boolean proof version 2\.0", r"f τ", r"\* ?.*", r"(p|pol) τ", r"(u|rup) τ ;( τ)?", r"δ", r"del id τ ;( ; begin)?", r"del spec τ ;",
         r"del range τ τ", r"delc τ", r"deld τ", r"obju (new|diff) τ ;( begin)?", r"(red|dom) τ ; τ( ; begin)?", r"core (id τ|range τ τ)", r"sol[xi]? τ", r"output τ", r"conclusion τ",
         r"end pseudo-Boolean proof", r"end", r"(e|ea|i|ia) τ ;( τ)?", r"eobj τ ;", r"# τ", r"w τ", r"load_order τ τ", r"strengthening_to_core (on|off)",
         r"proofgoal τ", r"qed -1", r"τ"]
FORM = re.compile("|".join(f"(?:{x})" for x in FORMS))


def isform(ln):
    ln = ln.strip()
    return FORM.fullmatch(ln) or FORM.fullmatch(re.sub("τ( τ)+", "τ", ln))


def looped(st):
    """the path ran a loop of the method over a list it was given"""
    return "τ τ" in render(st.obs[0])


def methods(F, r):
    key, fields = proof(F)
    if key is None or "next_id" not in fields:
        r.bad("proof:type", "the proof type with its id counter is not found", None)
        return
    path = ((None, fields["next_id"], "next_id"),)
    for k, f in sorted(F.fns.items()):
        if f["crate"] != CRATE or f["k"] == "closure" or not re.search(r"\bProof::<\w+>::\w+$|^<Proof<\w+> as .*Drop>::drop$", f["p"]) or not (f["pub"] or f["name"] == "drop"):
            continue
        t = Lines(F)
        e = Engine(F, t)
        args = e.default_args(f)
        try:
            e.run(k, ((), ()), args=args)
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        r.analysed |= set(e.analysed) | t.extra
        if not t.ends:
            r.undec(f"{f['p']}: no exits")
        byref = args and f["name"] not in ("new", "new_with_conclusion") and f["tys"][f["locals"][1]]["k"] == "ref"
        seen = set()
        # lines of a loop that writes one value at a time, with no value to write
        empty = {re.sub("τ ", "", one, count=1) for ret, st in t.ends for ln in render(st.obs[0]).split("\n")
                 for one in [re.sub("τ( τ)*", "τ", ln.strip())] if isform(one)} if any(looped(st) for ret, st in t.ends) else set()
        for ret, st in t.ends:
            if failure(ret):
                continue
            text = render(st.obs[0])
            if not byref and f["name"].startswith("new"):
                built(F, r, e, f, ret, st, text, fields)
                continue
            lines = text.split("\n")
            if lines[-1] and f["name"] != "drop":
                r.bad(f"{f['p']}:unfinished", f"{f['p']} leaves its last line {lines[-1]!r} unfinished", where(f))
                continue
            off = next((ln for ln in lines if ln and "?" not in ln and not isform(ln) and ln.strip() not in empty), None)
            if off is not None:
                r.bad(f"{f['p']}:form", f"{f['p']} writes the line {off!r}, which is not a line of a proof", where(f))
                continue
            n = steps(text)
            end = idform(e.read(st, mk("M", args[0]), path), lambda x: e.at(st, x)) if byref else {N: 1}
            if n is None or end is None:
                r.undec(f"{f['p']}: {'lines' if n is None else 'counter'} not known")
                continue
            grown = plus(end, {N: 1}, -1)
            if grown != ({1: n[0]} if n[0] else {}):
                r.bad(f"{f['p']}:count", f"{f['p']} advances the id counter by {form(grown)} on a path that writes lines taking {n[0]} ids ({', '.join(n[1])})", where(f))
                continue
            rt = f["tys"][f["locals"][0]]["s"]
            if re.search(r"ConstraintId\b", rt) and f["name"] not in ("next_id", "first_proof_id"):
                v = ret.a[3][0] if ret.t == "ADT" and ret.a[2] == "Ok" else ret
                got = idform(v, lambda x: e.at(st, x))
                if got is None:
                    r.undec(f"{f['p']}: returned id not known")
                    continue
                if got != plus(end, {1: 1}, -1):
                    r.bad(f"{f['p']}:id", f"{f['p']} returns the id {form(plus(got, end, -1))} relative to the next one instead of the last id taken", where(f))
                    continue
            if n[0] and not re.search(r"ConstraintId\b", rt) and "red" in n[1] + ["red"] and any(x in ADDING for x in n[1]):
                r.bad(f"{f['p']}:lost", f"{f['p']} adds a constraint without returning its id", where(f))
                continue
            w = (f["p"], n[0], text)
            if w not in seen:
                seen.add(w)
                r.ok("path", f"{f['p']}: {n[0]} ids, {' '.join(n[1])}"[:120])
        if f["name"] == "next_id" or f["name"] == "first_proof_id":
            want = f"DEREF(arg:self).{f['name']}"
            for ret, st in t.ends:
                got = idform(ret, lambda x: e.at(st, x))
                if got is not None and got != {want: 1}:
                    r.bad(f"{f['p']}:getter", f"{f['p']} returns {form(got)}", where(f))
        r.ok("method", f["p"])


def built(F, r, e, f, ret, st, text, fields):
    v = ret.a[3][0] if ret.t == "ADT" and ret.a[2] == "Ok" else ret
    if v.t == "REF":
        v = e.at(st, v)
    lines = text.split("\n")
    if "?" in text:
        r.undec(f"{f['p']}: text not known")
    elif len(lines) < 3 or lines[-1] or not re.fullmatch(r"pseudo-Boolean proof version 2\.0", lines[0]) or not re.fullmatch(r"f τ|\* ?.*|f \d+", lines[1]):
        r.bad(f"{f['p']}:header", f"{f['p']} starts the proof with {lines[:2]}", where(f))
        return
    n = next((a for a in e.default_args(f) if a.a[0] == "num_constraints"), None)
    for x in ("next_id", "first_proof_id"):
        if x not in fields:
            continue
        y = e.field(st, v, (None, fields[x], x))
        g = idform(y, lambda z: e.at(st, z))
        if g is None or n is None:
            r.undec(f"{f['p']}: {x} not known")
        elif g != {repr(n): 1, 1: 1}:
            r.bad(f"{f['p']}:{x}", f"{f['p']} starts {x} at {form(g)} instead of the number of constraints of the instance plus one", where(f))
        else:
            r.ok("start", f"{f['p']}: {x}")


def where(f):
    return f"{f['sp'][0]}:{f['sp'][1]}"


def l01(F, r):
    r.rules = ["on every successful path of every public operation of the proof writer, the id counter grows by exactly the number of ids the lines written on that path take "
               "(one per derivation, one per negated goal or negated constraint of a subproof), collections of 0, 1 and 2 elements of every kind",
               "an operation that adds a constraint returns the id taken last",
               "every line written is a complete line of the proof syntax; a new proof starts numbering after the constraints of the instance"]
    methods(F, r)
    r.floor("method", 20, "operations of the proof writer")
    r.floor("path", 40, "distinct texts of operations")
    r.floor("start", 4, "initial ids")
    return {"level": "other", "explanation": "path-sensitive abstract interpretation relating the text written to the growth of the id counter; see rules"}


CHECKS = {"L01": l01}
TECH = {"L01": ("path-sensitive abstract interpretation of the proof writer: text written against growth of the id counter",
                "the counter must grow by the number of ids the written lines take on every successful path, and the returned id must be the last one")}
