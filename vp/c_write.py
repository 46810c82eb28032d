"""P02: the writers of the file formats, as automata over the bytes they emit."""
import re

from .mir import Client, Engine, Budget, mk, last, subterms, UNIT, Ok, Err
from .rx import NFA, template
from .c_errors import failure

# placeholders: ν number, κ number of constraints, ο one-based index, ξ index of a variable with the chosen first index,
# ι signed number, α computed number, λ literal in IPASIR notation, τ text
MAC = {"cmt": "[^\n]*", "u": "[νκοξα]|[0-9]+", "i": "[νκοξια]|[+\\-]?[0-9]+", "lits": "(λ |\\-?[1-9][0-9]* )*"}
GRAMMAR = {
    "cnf": "(c( {cmt})?\n)*p cnf ν κ\n(c( {cmt})?\n|{lits}0\n)*",
    "cnf lines": "(c( {cmt})?\n|p cnf ν κ\n|{lits}0\n)*",
    "wcnf": "(c( {cmt})?\n|h {lits}0\n|{u} {lits}0\n)*",
    "mcnf": "(c( {cmt})?\n|h {lits}0\n|o ο {u} {lits}0\n)*",
    "opb": "(\\*{cmt}\n|min:( {i} ~?xξ)* ?;\n|({i} ~?xξ )*(>=|=) {i} ?;\n)*",
}
WRITERS = [
    (r"fio::dimacs::write_cnf_annotated$", "cnf"),
    (r"fio::dimacs::write_cnf$", "cnf lines"),
    (r"fio::dimacs::write_wcnf(_annotated)?$", "wcnf"),
    (r"fio::dimacs::write_mcnf(_annotated)?$", "mcnf"),
    (r"fio::opb::write_(opb_lines|sat|opt|multi_opt)$", "opb"),
]
INTS = {"u8", "u16", "u32", "u64", "u128", "usize"}
SINTS = {"i8", "i16", "i32", "i64", "i128", "isize"}


def names(v):
    return {last(str(x.a[0] if x.t == "PURE" else x.a[1] or "")) for x in subterms(v) if x.t in ("PURE", "CALL")}


def plain(v):
    while v.t == "FLD" and v.a[0].t == "BIN" and v.a[0].a[0].endswith("WithOverflow"):
        v = v.a[0]
    return v


def symbol(ty, v):
    """the symbol a value of a type is written as (a string: its exact text)"""
    ty = ty.lstrip("&").replace("mut ", "")
    if v.t == "STR" and isinstance(v.a[0], str):
        return v.a[0]
    if ty in INTS or ty in SINTS:
        if v.t == "INT":
            return str(v.a[0])
        ns = names(v)
        if ns & {"to_ipasir", "to_ipasir_with_offset"}:
            return "λ" if plain(v).t in ("CALL", "PURE") else "ι"
        p = plain(v)
        if ty in INTS:
            if ns & {"vidx32", "vidx", "idx32", "idx"} or any(x.t == "FLD" and str(x.a[1][2]) in ("idx", "lidx") for x in subterms(v)):
                if p.t == "BIN" and p.a[0].startswith("Add") and any(x.t == "FLD" and str(x.a[1][2]) == "first_var_idx" for x in subterms(v)):
                    return "ξ"
                return "ν"
            if p.t == "BIN" and p.a[0].startswith("Add") and any(y.t == "INT" and y.a[0] == 1 for y in p.a[1:]) and \
                    not any(x.t == "FLD" and x.a[1][0] == "Soft" and str(x.a[1][2]) == "1" for x in subterms(p)):
                return "ο"
            if ns & {"len", "n_clauses", "count"} or any(x.t == "FLD" and x.a[1][0] == "Header" and str(x.a[1][2]) == "1" for x in subterms(v)):
                return "κ" if p.t != "BIN" else "α"
            return "ν" if p.t != "BIN" else "α"
        return "ι"
    return "τ"


class Run(Client):
    max_states = 12000
    max_depth = 8
    widen_after = 3
    widen_int = 2
    gc = True

    # obs: state set of the automaton
    def __init__(self, F, nfa):
        self.F = F
        self.nfa = nfa
        self.ends = []
        self.bad = {}
        self.writes = set()
        self.unknown = set()
        self.sums = {}
        self.deep = set()
        self.extra = set()

    def inline(self, eng, key, fn, call, st):
        return fn["k"] == "closure" or any(re.search(r"\b(io::)?(\w+::)*Write\b|&'?\w* ?mut |^W$", t["s"]) or t["s"] == "W" for t in call.argt) and \
            fn["sp"][0].startswith(("src/instances", "src/types"))

    def on_call(self, eng, st, c):
        p, n = c.p, c.name
        f = self.F.fns.get(c.key) if c.key else None
        if f is not None and f["k"] != "closure" and self.inline(eng, c.key, f, c, st):
            return self.summary(st, c, f)
        if p.startswith("core::fmt::rt::Argument") and n.startswith("new_"):
            v = c.args[0]
            while v.t == "REF":
                v = eng.at(st, v)
            a = c.f.get("a") or [None]
            ty = c.fn["tys"][int(a[0])]["s"] if a[0] is not None else c.argt[0]["s"]
            return [(mk("FARG", n, ty, v), st)]
        if "fmt::Arguments" in p and n == "from_str":
            v = c.args[0]
            return [(mk("FMT", (v.a[0] if v.t == "STR" else "τ",)), st)]
        if "fmt::Arguments" in p and n.startswith("new"):
            return [(self.fmt(eng, st, c), st)]
        if n in ("write_fmt", "write_all", "write_str", "write") and len(c.args) == 2 and ("Write" in p or "io" in p) and not p.startswith("core::fmt::rt"):
            text = self.text(eng, st, c.args[1])
            site = (c.fn["key"], c.bb)
            self.writes.add(site)
            good, s = st.copy(), st.obs
            if text is None:
                self.unknown.add(site)
            else:
                for ch in text:
                    s2 = self.nfa.step(s, ch)
                    if not s2:
                        self.bad.setdefault(site, (c, text, ch))
                        s = None
                        break
                    s = s2
            if s is None:
                return []
            good.obs = s
            return [(Ok(UNIT if n != "write" else mk("CALL", c.site, p)), good), (Err(mk("ERRV", c.site)), st)]
        if n == "flush" and "Write" in p:
            return [(Ok(UNIT), st)]
        return None

    def summary(self, st, c, f):
        """a function with the writer among its arguments is analysed on its own: with its plain arguments, from the current state of the automaton"""
        e = Engine(self.F, self)
        args = [a if a.t in ("INT", "STR", "BYTES", "FMT") or re.fullmatch(r"[iu](8|16|32|64|128|size)|bool|char|\[?&\w* ?str|types::Lit|.*::(Lit|Var)", t["s"])
                and not any(x.t in ("REF", "CLOSURE") for x in subterms(a)) else d
                for a, t, d in zip(c.args, c.argt, e.default_args(f))]
        k = (c.key, st.obs, repr(args))
        if k not in self.sums:
            if c.key in self.deep:
                return [(mk("CALL", c.site, c.p), st)]
            self.deep.add(c.key)
            ends, self.ends = self.ends, []
            e.run(c.key, st.obs, args)
            mine, self.ends = self.ends, ends
            self.deep.discard(c.key)
            self.extra |= set(e.analysed)
            self.sums[k] = {(failure(ret), s.obs) for ret, s in mine}
        out = []
        isres = "Result<" in c.dty["s"]
        for bad, obs in sorted(self.sums[k], key=repr):
            s = st.copy()
            s.obs = obs
            out.append((Err(mk("ERRV", c.site)) if bad else Ok(UNIT) if isres else mk("CALL", c.site, c.p), s))
        return out

    def fmt(self, eng, st, c):
        b = c.args[0]
        while b.t == "REF":
            b = eng.at(st, b)
        if b.t != "BYTES":
            return mk("FMT", None)
        pieces = template(b.a[0])
        if pieces is None:
            return mk("FMT", None)
        arr = c.args[1] if len(c.args) > 1 else None
        while arr is not None and arr.t == "REF":
            arr = eng.at(st, arr)
        vals = list(arr.a[0]) if arr is not None and arr.t == "ARR" else None
        out = []
        for x in pieces:
            if x is not None:
                out.append(x)
                continue
            if not vals:
                out.append("τ")
                continue
            v = vals.pop(0)
            while v.t == "REF":
                v = eng.at(st, v)
            out.append(symbol(v.a[1], v.a[2]) if v.t == "FARG" else "τ")
        return mk("FMT", tuple(out))

    def text(self, eng, st, v):
        while v.t == "REF":
            v = eng.at(st, v)
        if v.t == "FMT":
            return None if v.a[0] is None else "".join(v.a[0])
        if v.t == "STR":
            return v.a[0]
        if v.t == "BYTES":
            return bytes(v.a[0]).decode("utf-8", "replace")
        return None

    def on_write(self, eng, st, root, path, val, where):
        if where and not path and val.depth > 4 and plain(val).t == "BIN" and (sum(x.t == "BIN" for x in subterms(val)) > 2 or any(x.t == "WIDE" for x in subterms(val))):
            st.store[root] = mk("WIDE", where[0]["key"], where[1])

    def on_site(self, eng, st, site):
        for f in [f for f in st.facts if f.t != "DISCR"]:
            del st.facts[f]

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((ret, st.copy()))


def p02(F, r):
    r.rules = ["on every path of a writer, the text written so far is a prefix of a file in the writer's format (automaton per format; numbers, literals, counts, "
               "one-based indices and variable names as placeholders by type and origin)",
               "on every path to a successful return the text written is a complete file of the format"]
    cache = {}
    for k, f in sorted(F.fns.items()):
        g = next((g for pat, g in WRITERS if re.search(pat, f["p"])), None)
        if g is None or f["k"] == "closure" or not f["crate"].startswith("rustsat."):
            continue
        nfa = cache.setdefault(g, NFA(GRAMMAR[g], MAC))
        t = Run(F, nfa)
        e = Engine(F, t)
        try:
            e.run(k, nfa.start)
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        for x in set(e.analysed) | t.extra:
            r.analysed.add(x)
        r.ok("writer", f"{f['p']} ({g}, {len(t.ends)} exits)")
        for site, (c, text, ch) in sorted(t.bad.items()):
            r.bad(f"{f['p']}:{c.fn['p']}:{text[:20]!r}", f"{f['p']} writes {show(text)} where the {g.split()[0]} format does not allow {show(ch)}", c.where)
        inc = [st for ret, st in t.ends if not failure(ret) and not nfa.ok(st.obs)]
        if inc:
            r.bad(f"{f['p']}:end", f"{f['p']} may return successfully in the middle of a line, or before the file is complete", where(f))
        for s in t.writes - set(t.bad):
            if s in t.unknown:
                r.undec(f"{f['p']}: text of a write not known ({s[0]})")
            else:
                r.ok("write", f["p"])
    r.floor("writer", 6, "writers")
    r.floor("write", 30, "places where text is written")
    return {"level": "other", "explanation": "abstract interpretation of every writer in step with the automaton of its file format; see rules"}


def where(f):
    return f"{f['sp'][0]}:{f['sp'][1]}"


def show(t):
    for a, b in (("ν", "<number>"), ("κ", "<count>"), ("ο", "<index>"), ("ξ", "<variable>"), ("ι", "<integer>"), ("α", "<computed number>"), ("λ", "<literal>"), ("τ", "<text>")):
        t = t.replace(a, b)
    return repr(t)


CHECKS = {"P02": p02}
TECH = {"P02": ("abstract interpretation of every writer in lockstep with a finite automaton for the grammar of its file format (typestate over the emitted bytes)",
                "a write that leaves the automaton, or a successful return outside an accepting state, is a violation")}
