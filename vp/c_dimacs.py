"""P04: the lines of DIMACS files are read as what they say: the parser combinators are evaluated abstractly into token
sequences and the values built from the tokens."""
from collections import namedtuple

from .mir import Client, Engine, Budget, mk, last, subterms, show, INT, Ok, Err, Some, NONE, ADT
from .c_write import where
from .regions import ev

FILE = "fio/dimacs.rs"
Obs = namedtuple("Obs", "toks line dirty reads bad parsed calls")
START = Obs((), None, False, 0, (), False, ())
FAIL = object()
UNKNOWN = object()
SPACE = {"space0": 0, "space1": 1, "multispace0": 0, "multispace1": 1}
NUMS = {"dec_uint": "u", "dec_int": "i", "digit1": "u", "digit0": "d"}
END = ("eof", "line_ending", "newline")
REST = ("till_line_ending", "rest", "not_line_ending")


def nnum(toks):
    return sum(1 for t in toks if t[0] == "num")


class Read(Client):
    max_states = 20000
    max_depth = 14
    widen_after = 60
    widen_int = 60
    gc = True
    drive = True

    def __init__(self, F, file):
        self.F, self.file = F, file
        self.ends = []
        self.unknown = set()

    def inline(self, eng, key, fn, call, st):
        return fn["k"] == "closure" or fn["sp"][0] == self.file

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            s = st.copy()
            s.obs = Obs(*s.obs)
            self.ends.append((ret, s))

    # ------------------------------------------------------------ combinators
    def toks(self, st, t):
        s = st.copy()
        s.obs = s.obs._replace(toks=s.obs.toks + (t,))
        return s

    def num(self, st, kind):
        i = nnum(st.obs.toks)
        return mk("TOK", i, kind), self.toks(st, ("num", kind, i))

    def res(self, eng, st, outs):
        """results of a function that parses: (value or FAIL, state)"""
        got = []
        for v, s in outs:
            v = eng.strip(s, v)
            if v.t == "ADT" and v.a[2] == "Ok" and v.a[3]:
                got.append((v.a[3][0], s))
            elif v.t == "ADT" and v.a[2] == "Err":
                got.append((FAIL, st))
            elif v.t == "CALL" and last(str(v.a[1])) in ("from_residual",):
                got.append((FAIL, st))
            else:
                got.append((eng.field(s, v, ("Ok", 0, "0")), s))
        return got

    def seq(self, eng, st, c, ps, inp, d):
        work = [((), st)]
        out = []
        for p in ps:
            nxt = []
            for vs, s in work:
                for v, s2 in self.go(eng, s, c, p, inp, d):
                    if v is FAIL:
                        out.append((FAIL, st))
                    else:
                        nxt.append((vs + (v,), s2))
            work = nxt
        return work, out[:1]

    def go(self, eng, st, c, p, inp, d):
        """all outcomes of parsing with p"""
        p = eng.strip(st, p)
        if d > 40:
            self.unknown.add("depth")
            return [(FAIL, st)]
        if p.t == "INT":
            ch = chr(p.a[0]) if 0 <= p.a[0] < 0x110000 else "?"
            if not st.obs.toks and ch == "c" and st.obs.line == "notc":
                return [(FAIL, st)]
            return [(p, self.toks(st, ("lit", ch))), (FAIL, st)]
        if p.t == "STR":
            return [(p, self.toks(st, ("lit", p.a[0]))), (FAIL, st)]
        if p.t == "TUP":
            work, bad = self.seq(eng, st, c, p.a[0], inp, d + 1)
            return [(mk("TUP", vs), s) for vs, s in work] + bad
        if p.t in ("FN", "ZST"):
            name = last(str(p.a[1] if p.t == "FN" else p.a[0]))
            if p.t == "FN" and p.a[0] in self.F.fns and self.F.fns[p.a[0]]["sp"][0] == self.file:
                return self.res(eng, st, eng.apply(st.copy(), c, p, (inp,), c.depth, (), d))
            return self.builtin(eng, st, name)
        if p.t == "CLO":
            return self.res(eng, st, eng.apply(st.copy(), c, p, (inp,), c.depth, (), d))
        if p.t in ("CALL", "PURE"):
            name = last(str(p.a[1] if p.t == "CALL" else p.a[0]))
            args = list(p.a[2:]) if p.t == "CALL" else list(p.a[1])
            return self.comb(eng, st, c, name, args, inp, d + 1)
        self.unknown.add(show(p)[:60])
        return [(FAIL, st)]

    def builtin(self, eng, st, name):
        if name in SPACE:
            return [(mk("TEXT"), self.toks(st, ("sp", SPACE[name])))] + ([(FAIL, st)] if SPACE[name] else [])
        if name in NUMS:
            v, s = self.num(st, NUMS[name])
            return [(v, s), (FAIL, st)]
        if name in END:
            return [(mk("TEXT"), self.toks(st, ("end",))), (FAIL, st)]
        if name in REST:
            return [(mk("TEXT"), self.toks(st, ("rest",)))]
        if name == "fail":
            return [(FAIL, st)]
        if name == "empty":
            return [(mk("TUP", ()), st)]
        self.unknown.add(name)
        return [(FAIL, st)]

    def comb(self, eng, st, c, name, a, inp, d):
        go = lambda s, p: self.go(eng, s, c, p, inp, d)
        if name in SPACE or name in NUMS or name in END or name in REST:
            return self.builtin(eng, st, name)
        if name in ("context", "cut_err", "backtrack_err", "by_ref", "complete_err", "err_into", "output_into", "expected"):
            return go(st, a[0])
        if name == "trace":
            return go(st, a[1])
        if name in ("void", "take", "recognize", "value", "default_value"):
            got = go(st, a[0])
            out = []
            for v, s in got:
                if v is FAIL:
                    out.append((v, s))
                elif name == "value":
                    out.append((a[1], s))
                elif name in ("take", "recognize"):
                    new = s.obs.toks[len(st.obs.toks):]
                    digits = new and all(t[0] in ("oneof", "num") and (t[0] != "oneof" or t[1] == "digits") for t in new)
                    if digits:
                        # a run of digits is one number
                        s2 = s.copy()
                        s2.obs = s2.obs._replace(toks=st.obs.toks)
                        v, s2 = self.num(s2, "u")
                        out.append((v, s2))
                    else:
                        out.append((mk("TEXT", new), s))
                else:
                    out.append((mk("TUP", ()), s))
            return out
        if name in ("terminated", "preceded", "separated_pair", "delimited"):
            keep = {"terminated": (0,), "preceded": (1,), "separated_pair": (0, 2), "delimited": (1,)}[name]
            work, bad = self.seq(eng, st, c, a, inp, d)
            return [(vs[keep[0]] if len(keep) == 1 else mk("TUP", tuple(vs[k] for k in keep)), s) for vs, s in work] + bad
        if name == "alt":
            v = eng.strip(st, a[0])
            xs = v.a[0] if v.t in ("TUP", "ARR", "LIST") else None
            if xs is None:
                self.unknown.add("alt")
                return [(FAIL, st)]
            out = []
            for x in xs:
                out += [o for o in go(st, x) if o[0] is not FAIL]
            return out + [(FAIL, st)]
        if name == "opt":
            return [(Some(v), s) for v, s in go(st, a[0]) if v is not FAIL] + [(NONE, st)]
        if name in ("map", "try_map", "verify_map", "and_then", "parse_to"):
            out = []
            for v, s in go(st, a[0]):
                if v is FAIL:
                    out.append((FAIL, st))
                    continue
                if name == "parse_to":
                    out += [(v, s), (FAIL, st)]
                    continue
                for w, s2 in eng.apply(s.copy(), c, a[1], (v,), c.depth, (), d):
                    w = eng.strip(s2, w)
                    if name == "map":
                        out.append((w, s2))
                    elif w.t == "ADT" and w.a[2] in ("Err", "None"):
                        out.append((FAIL, st))
                    elif w.t == "ADT" and w.a[2] in ("Ok", "Some"):
                        out.append((w.a[3][0], s2))
                    else:
                        out += [(mk("FLD", w, ("Ok" if name == "try_map" else "Some", 0, "0")), s2), (FAIL, st)]
            return out
        if name == "verify":
            return go(st, a[0]) + [(FAIL, st)]
        if name in ("separated", "repeat"):
            rng = eng.strip(st, a[0])
            lo = next((x.a[0] for x in subterms(rng) if x.t == "INT"), None)
            if rng.t != "ADT" or "RangeFrom" not in str(rng.a[0]):
                lo = None
            s0 = st.copy()
            s0.obs = START._replace(line="x")
            inner = tuple(sorted({(s.obs.toks, canon(v)) for v, s in go(s0, a[1]) if v is not FAIL}, key=str))
            sep = ()
            if name == "separated":
                sep = tuple(sorted({s.obs.toks for v, s in go(s0, a[2]) if v is not FAIL}, key=str))
            t = ("many", lo, inner, sep)
            return [(mk("MANY", str(t)), self.toks(st, t)), (FAIL, st)]
        if name in ("one_of", "none_of", "any"):
            kind = "?"
            v = eng.strip(st, a[0]) if a else None
            if v is not None:
                ns = [x.a[0] for x in subterms(v) if x.t == "INT" and x.a[0] > 1]
                if ns and all(48 <= n <= 57 for n in ns):
                    kind = "digits"
            return [(mk("TEXT"), self.toks(st, ("oneof", kind))), (FAIL, st)]
        self.unknown.add(name)
        return [(FAIL, st)]

    # ------------------------------------------------------------ calls
    def note(self, st, what):
        st.obs = st.obs._replace(bad=st.obs.bad + ((what),) if what not in st.obs.bad else st.obs.bad)

    def on_call(self, eng, st, c):
        n, o = c.name, Obs(*st.obs)
        st.obs = o
        if n in ("parse_next", "parse") and len(c.args) == 2 and "arser" in c.p:
            outs = self.go(eng, st.copy(), c, c.args[0], c.args[1], 0)
            res, failed = [], False
            for v, s in outs:
                if v is FAIL:
                    if failed:
                        continue
                    failed = True
                    s = st.copy()
                    res.append((Err(mk("PERR", c.site)), s))
                else:
                    s = s.copy()
                    if n == "parse":
                        s.obs = s.obs._replace(parsed=True)
                    res.append((Ok(v), s))
            return res
        if c.p.startswith("winnow::") and n not in ("from_parse", "from_input", "offset", "inner", "into_inner"):
            return [(mk("CALL", c.site, c.p, *c.args), st)]     # a parser is built, not run
        if n == "read_line" and "BufRead" in c.p:
            if o.reads >= 2:
                return []
            s0, s1, s2 = st.copy(), st.copy(), st.copy()
            for s in (s0, s1, s2):
                if o.dirty:
                    self.note(s, "merged")
                if o.line in ("new", "text", "notc") and not o.parsed:
                    self.note(s, "skipped")
            s1.obs = s1.obs._replace(line="eof", parsed=False, toks=())
            buf = c.args[1]
            own = not (buf.t == "REF" and buf.a[0].t == "L" and not buf.a[1])       # a buffer that outlives the call
            s2.obs = s2.obs._replace(line="new", dirty=own, reads=o.reads + 1, parsed=False, toks=())
            v = mk("CALL", c.site, "read", INT(o.reads))
            s2.facts[v] = ("!", frozenset((0,)))
            return [(Err(mk("IOERR")), s0), (Ok(INT(0)), s1), (Ok(v), s2)]
        if n == "clear" and "String" in c.p or n in ("take",) and "mem::" in c.p and self.isbuf(eng, st, c):
            st.obs = o._replace(dirty=False)
            return [(mk("TUP", ()), st)] if n == "clear" else None
        if n == "is_empty" and c.args:
            v = eng.strip(st, c.args[0])
            if trimmed(v):
                if o.line == "new":
                    a, b = st.copy(), st.copy()
                    a.obs = o._replace(line="blank")
                    b.obs = o._replace(line="text")
                    return [(INT(1), a), (INT(0), b)]
                if o.line in ("text", "notc", "comment"):
                    return [(INT(0), st)]
            else:
                return [(INT(int(not o.dirty)), st)]
        if n in HAND and c.args and not (n == "parse" and len(c.args) == 2) and trimmed(eng.strip(st, c.args[0])):
            st.obs = o._replace(parsed="by hand")
            return None
        if n == "starts_with" and len(c.args) == 2:
            w = eng.strip(st, c.args[1])
            if (w.t == "INT" and w.a[0] == 99 or w.t == "STR" and w.a[0] == "c") and o.line in ("new", "text"):
                a, b = st.copy(), st.copy()
                a.obs = o._replace(line="comment")
                b.obs = o._replace(line="notc")
                return [(INT(1), a), (INT(0), b)]
        return None

    def isbuf(self, eng, st, c):
        return True


HAND = ("split", "split_whitespace", "split_ascii_whitespace", "strip_prefix", "chars", "bytes", "as_bytes", "split_once", "parse", "char_indices", "get", "splitn", "split_at", "from_str")


def trimmed(v):
    return any(x.t in ("PURE", "CALL") and last(str(x.a[0] if x.t == "PURE" else x.a[1])).startswith("trim") for x in subterms(v))


def canon(v):
    if v.t == "TOK":
        return ("num", v.a[0])
    if v.t == "MANY":
        return ("many", v.a[0])
    if v.t == "ADT":
        return ("adt", v.a[2]) + tuple(canon(x) for x in v.a[3])
    if v.t == "FLD" and str(v.a[1][0]) in ("Ok", "Some"):
        return canon(v.a[0])
    if v.t in ("CALL", "PURE"):
        n = last(str(v.a[1] if v.t == "CALL" else v.a[0]))
        a = list(v.a[2:]) if v.t == "CALL" else list(v.a[1])
        if n in ("parse", "to_owned", "into", "from", "to_string", "clone", "from_iter", "collect", "from_str", "try_from", "try_into") and len(a) == 1:
            return canon(a[0])
        return ("call", n) + tuple(canon(x) for x in a)
    if v.t in ("REF", "DEREF"):
        return canon(v.a[0]) if v.t == "DEREF" else ("ref", show(v)[:40])
    if v.t == "INT":
        return ("int", v.a[0])
    if v.t == "TUP":
        return ("tup",) + tuple(canon(x) for x in v.a[0])
    return ("?", v.t)


def shape(toks):
    """the kind of line a token sequence reads, and whether its numbers are kept apart"""
    txt, parts, apart, pend = "", [], True, None
    for t in toks:
        if t[0] == "lit":
            if parts and parts[-1] == "many" and t[1] == "0":
                continue
            if parts and isinstance(parts[-1], str) and parts[-1].startswith("'"):
                parts[-1] = "'" + parts[-1][1:] + t[1]
            else:
                parts.append("'" + t[1])
            pend = None
        elif t[0] == "sp":
            if pend is not None and t[1]:
                pend = None
        elif t[0] in ("num", "many"):
            if pend is not None:
                apart = False
            parts.append(t[0])
            pend = t[0] if t[0] == "num" else None
        elif t[0] in ("rest", "oneof"):
            parts.append(t[0])
    return parts, apart


KINDS = {("many",): "clause", ("'h", "many"): "hard", ("num", "many"): "soft", ("'o", "num", "num", "many"): "mosoft",
         ("'pcnf", "num", "num"): "pcnf", ("'pwcnf", "num", "num", "num"): "pwcnf"}


def kind(toks):
    parts, apart = shape(toks)
    if parts and parts[0] == "'c":
        return "comment", True
    return KINDS.get(tuple(parts)), apart


def fields(F, v):
    a = F.adts.get(v.a[0])
    if a is None:
        return {}
    return {f[0]: x for f, x in zip(a["vs"][v.a[1]][2], v.a[3])}


def manyok(t):
    """a possibly empty list of literals, kept apart"""
    if t[1] != 0:
        return "an empty list of literals is not read" if t[1] else None
    if any(s == () or not any(x[0] == "sp" and x[1] for x in s) for s in t[3]):
        return "literals need not be kept apart"
    for toks, v in t[2]:
        ns = [x for x in toks if x[0] == "num"]
        if len(ns) != 1 or ns[0][1] != "i" or v != ("call", "from_ipasir", ("num", 0)):
            return f"a literal is read as {v}"
    return None if t[2] else "no literal is read"


# ---------------------------------------------------------------- judging the readers
def parser_key(F):
    return next((k for k in F.adts if k.endswith("fio::dimacs::Parser")), None)


def variant_of(F, f):
    """the state type of the parser a method belongs to"""
    import re
    if not f["nargs"]:
        return None
    m = re.search(r"dimacs::Parser<(?:[\w:]*::)?(\w+),", f["tys"][f["locals"][1]]["s"])
    return next((k for k in F.adts if m and k.endswith("fio::dimacs::" + m.group(1))), None) if m else None


def make(F, f, key, variant=None):
    """a parser in its initial state (or with the given variant state)"""
    if variant is None:
        a = F.adts[key]
        fs = []
        for fl in a["vs"][0][2]:
            ty = a["tys"][fl[1]] if "tys" in a else None
            s = ty["s"] if isinstance(ty, dict) else str(ty)
            fs.append(NONE if "option::Option<" in s else mk("ARG", fl[0]))
        variant = ADT(key, 0, a["vs"][0][0], tuple(fs))
    pk = parser_key(F)
    fields_ = []
    for fl in F.adts[pk]["vs"][0][2]:
        fields_.append(variant if fl[0] == "variant" else mk("ARG", "self." + fl[0]))
    return ADT(pk, 0, "Parser", tuple(fields_))


def state_after(eng, st, root):
    v = st.store.get(root)
    return None if v is None or v.t != "ADT" and v.t != "OBJ" else v


def deep(eng, st, v, d=0):
    """a value with the references in it followed"""
    v = eng.strip(st, v) if v.t == "REF" else v
    if d > 8:
        return v
    if v.t == "ADT":
        return ADT(v.a[0], v.a[1], v.a[2], tuple(deep(eng, st, x, d + 1) for x in v.a[3]))
    return v


def variant_field(eng, F, st, v):
    i = next(i for i, fl in enumerate(F.adts[parser_key(F)]["vs"][0][2]) if fl[0] == "variant")
    return deep(eng, st, eng.field(st, v, (None, i, "variant")))


def datas(v):
    return [x for x in subterms(v) if x.t == "ADT" and str(x.a[0]).endswith("Data") and x.a[2] in ("Clause", "HardClause", "SoftClause")]


def lits_of(toks):
    return next((("many", str(t)) for t in toks if t[0] == "many"), None)


def data_problem(F, x, toks, hard=None):
    """what is wrong with reading the tokens as the data x; None: nothing"""
    k, apart = kind(toks)
    if k is None:
        return None
    want = {"clause": {"Clause", "HardClause"}, "hard": {"HardClause"}, "soft": {"SoftClause"}, "mosoft": {"SoftClause"}, "comment": {"Comment"}}.get(k)
    if k == "soft" and hard is not None:
        want = {"HardClause"} if hard else {"SoftClause"}
    if want is None or x.a[2] not in want:
        return f"is read as {x.a[2]}"
    if k == "comment":
        return None
    if not apart:
        return "has numbers that need not be kept apart"
    m = next(t for t in toks if t[0] == "many")
    p = manyok(m)
    if p:
        return p
    fs = fields(F, x)
    for n, v in fs.items():
        c = canon(v)
        w = {"weight": ("num", 0 if k == "soft" else 1), "obj_idx": ("num", 0), "clause": lits_of(toks), "0": lits_of(toks)}.get(n)
        if w is not None and c != w:
            what = {"num": "number %s of the line" % (c[1] + 1 if c[0] == "num" else "?")}.get(c[0], str(c)[:60])
            return f"gets {'the ' + what if c[0] == 'num' else what} as its {'literals' if w[0] == 'many' else n}"
    return None


HARDNESS = [(1, 5), (4, 5), (5, 5), (6, 5), (9, 5)]


def feasible_with(st, env):
    for t, v in st.facts.items():
        try:
            y = ev(t, env)
        except Exception:
            continue
        if v[0] == "=" and y != v[1] or v[0] == "!" and y in v[1]:
            return False
    return True


def names(F, v, out):
    """all values of named fields in a structure"""
    if v.t == "ADT":
        for n, x in fields(F, v).items():
            out.setdefault(n, []).append(x)
            names(F, x, out)
    return out


LINE = {"clause": "a clause line", "hard": "a hard clause line", "soft": "a soft clause line", "mosoft": "a soft clause line of an objective", "comment": "a comment line", "pcnf": "a `p cnf` line",
        "pwcnf": "a `p wcnf` line"}


class Judge:
    def __init__(self, F, r):
        self.F, self.r = F, r
        self.fns = [f for f in F.fns.values() if f["sp"][0].endswith(FILE) and f["crate"] == "rustsat.lib" and f["k"] != "closure" and not f.get("derived")]

    def run(self, f, args, store=None, start=START):
        x = Read(self.F, f["sp"][0])
        e = Engine(self.F, x)
        try:
            e.run(f["key"], start, args=args, store=store)
        except Budget:
            self.r.undec(f"{f['p']}: budget")
            return None, []
        self.r.analysed |= set(e.analysed)
        for u in sorted(x.unknown):
            self.r.undec(f"{f['p']}: parser {u} not known")
        return e, x.ends

    def tags(self, f, v, st, short):
        o = st.obs
        for t in o.bad:
            self.r.bad(f"{short}:{t}", {"merged": "a line is appended to the line before it", "skipped": "a line is passed over without having been read"}[t], where(f))
        return not o.bad

    def nexts(self):
        for f in self.fns:
            if f["name"] == "next":
                k = variant_of(self.F, f)
                if k is not None:
                    yield f, k

    def readers(self):
        F, r = self.F, self.r
        self.stored, self.dirty = {}, set()
        for f, k in self.nexts():
            short = last(k)
            root = mk("M", mk("ARG", "self"))
            top = next((mk("ARG", fl[0]) for fl in F.adts[k]["vs"][0][2] if fl[0] == "top"), None)
            e, ends = self.run(f, [mk("REF", root, ())], {root: make(F, f, k)})
            good, failed = {}, False
            for ret, st in ends:
                o = st.obs
                if not self.tags(f, ret, st, short):
                    continue
                v = deep(e, st, e.strip(st, ret))
                kd = kind(o.toks)[0] if o.parsed else None
                if v.t == "ADT" and v.a[2] == "Some":
                    w = e.strip(st, v.a[3][0])
                    if w.t == "ADT" and w.a[2] == "Err":
                        failed |= bool(o.reads) and o.dirty
                        continue
                    if w.t != "ADT" or w.a[2] != "Ok":
                        continue
                    if o.dirty:
                        r.bad(f"{short}:merged", "a line is appended to the line before it", where(f))
                        continue
                    x = e.strip(st, w.a[3][0])
                    if not o.parsed:
                        r.undec(f"{short}: item returned without a line having been parsed")
                    elif kd is None:
                        r.undec(f"{short}: line {shape(o.toks)[0]} not known")
                    elif x.t == "ADT":
                        hs = [None]
                        if top is not None and kd == "soft":
                            hs = [a >= b for a, b in HARDNESS if feasible_with(st, {mk("TOK", 0, "u"): a, top: b})]
                        for h in hs:
                            p = data_problem(F, x, o.toks, h)
                            if p:
                                extra = "" if h is None else " with a weight below the top value" if not h else " with the top value or more as its weight"
                                r.bad(f"{short}:{kd}", f"{LINE[kd]}{extra} {p}", where(f))
                            else:
                                good[kd + {None: "", True: " at top", False: " below top"}[h]] = 1
                    elif kd == "comment":
                        good[kd] = 1
                    else:
                        r.bad(f"{short}:{kd}", f"{LINE[kd]} is taken for a comment", where(f))
                elif v.t == "ADT" and v.a[2] == "None":
                    if o.line == "eof":
                        continue
                    if o.reads and not o.parsed and o.line != "blank":
                        r.bad(f"{short}:skipped", "a line is passed over without having been read", where(f))
                    elif o.parsed:
                        sv = st.store.get(root)
                        if kd in (None, "comment") or sv is None:
                            continue
                        self.stored.setdefault(k, []).append((variant_field(e, F, st, sv), o.toks, kd))
            for g in sorted(good):
                r.ok("line kinds", f"{short}: {g}")
            if failed:
                self.dirty.add(k)
                self.again(f, k, short, [mk("REF", root, ())], {root: make(F, f, k)})

    def again(self, f, k, short, args, store=None):
        """reading goes on with the next line after a malformed one"""
        e, ends = self.run(f, args, store, START._replace(dirty=True))
        if e is None:
            return
        if any("merged" in st.obs.bad for _, st in ends):
            self.r.bad(f"{short}:after an error", "after a malformed line, the next line is appended to it", where(f))
        elif not any(st.obs.line not in (None, "eof") for _, st in ends):
            self.r.bad(f"{short}:after an error", "after a malformed line, reading on panics", where(f))
        else:
            self.r.ok("line kinds", f"{short}: after an error")

    def transitions(self):
        F, r = self.F, self.r
        for f in self.fns:
            k = variant_of(F, f)
            if k is None or f["name"] in ("next", "new", "read_line") or "::Parser<" not in f["tys"][f["locals"][1]]["s"] or f["tys"][f["locals"][1]]["k"] == "ref":
                continue
            if "Result<" not in f["tys"][f["locals"][0]]["s"]:
                continue
            short = last(k)
            good = set()
            for start in [(None, None, None)] + self.stored.get(k, []):
                e, ends = self.run(f, [make(F, f, k, start[0])])
                for ret, st in ends:
                    o = st.obs
                    if not self.tags(f, ret, st, short + " to body"):
                        continue
                    v = deep(e, st, e.strip(st, ret))
                    if v.t != "ADT" or v.a[2] != "Ok":
                        continue
                    toks, kd = (start[1], start[2]) if start[0] is not None else (o.toks, kind(o.toks)[0])
                    if start[0] is not None and o.reads:
                        r.bad(f"{short} to body:header again", "a header that was read already is read again", where(f))
                        continue
                    if start[0] is None and o.line == "eof":
                        continue
                    if start[0] is None and not o.parsed:
                        r.bad(f"{short} to body:skipped", "the header is passed over without having been read", where(f))
                        continue
                    if o.dirty:
                        r.bad(f"{short} to body:merged", "the first line of the body is appended to the header line", where(f))
                        continue
                    x = v.a[3][0]
                    if kd in ("pcnf", "pwcnf"):
                        if not kind(toks)[1]:
                            r.bad(f"{short} to body:{kd}", f"{LINE[kd]} has numbers that need not be kept apart", where(f))
                        ns = names(F, x, {})
                        for i, n in enumerate(("n_vars", "n_clauses", "top")[: 2 if kd == "pcnf" else 3]):
                            if n not in ns and n != "n_clauses":
                                r.bad(f"{short} to body:{n}", f"the {n} of {LINE[kd]} is lost", where(f))
                            for y in ns.get(n, []):
                                if canon(y) != ("num", i):
                                    r.bad(f"{short} to body:{n}", f"{LINE[kd]} gives {canon(y)} as {n}", where(f))
                                else:
                                    good.add((kd, n, start[0] is not None))
                    elif kd in ("clause", "hard", "soft"):
                        ds = datas(x)
                        if len(ds) != 1:
                            r.bad(f"{short} to body:first", "the first clause is lost on the way to the body", where(f))
                            continue
                        p = data_problem(F, ds[0], toks)
                        if p:
                            r.bad(f"{short} to body:{kd}", f"{LINE[kd]} {p}", where(f))
                            continue
                        if self.handed(f, short, x, ds[0]):
                            good.add((kd, "first clause", start[0] is not None))
                    elif kd is None and start[0] is None:
                        r.undec(f"{short} to body: line {shape(o.toks)[0]} not known")
            if k in self.dirty:
                self.again(f, k, short + " to body", [make(F, f, k)])
            for g in sorted(good, key=str):
                r.ok("headers", f"{short} {g[0]} {g[1]}{' (read before)' if g[2] else ''}")

    def handed(self, f, short, x, data):
        """the body parser returns the first clause first, and once"""
        F, r = self.F, self.r
        pv = next((y for y in subterms(x) if y.t == "ADT" and str(y.a[0]).endswith("dimacs::Parser")), None)
        if pv is None:
            return False
        i = next(i for i, fl in enumerate(F.adts[parser_key(F)]["vs"][0][2]) if fl[0] == "variant")
        k = pv.a[3][i].a[0] if pv.a[3][i].t == "ADT" else None
        nf = next((g for g, kk in self.nexts() if kk == k), None)
        if nf is None:
            return False
        root = mk("M", mk("ARG", "self"))
        e, ends = self.run(nf, [mk("REF", root, ())], {root: make(F, nf, k, pv.a[3][i])})
        fine = bool(ends)
        for ret, st in ends:
            v = deep(e, st, e.strip(st, ret))
            if data not in datas(v) or st.obs.reads:
                r.bad(f"{short} to body:first", "the body parser does not begin with the first clause", where(nf))
                fine = False
                continue
            sv = st.store.get(root)
            if sv is not None and data in datas(variant_field(e, F, st, sv)):
                r.bad(f"{short} to body:twice", "the body parser returns the first clause more than once", where(nf))
                fine = False
        return fine


# ---------------------------------------------------------------- what instances do with the lines
ADDS = ("add_clause", "increase_soft_clause", "add_soft_clause", "increase_soft_lit", "add_soft_lit", "increase_soft_lit_int", "add_soft_lit_int", "increase_soft_clause_int", "add_soft_clause_int",
        "increase_next_free", "mark_used", "add_unit", "extend", "push")
PASS = ("branch", "from_residual", "from_output", "into_iter", "next", "len", "is_empty", "deref", "deref_mut", "index", "index_mut", "resize", "clone", "cmp", "gt", "lt", "ge", "le", "max", "min", "eq", "ne",
        "resize_with", "reserve", "weight", "as_ref")
Bld = namedtuple("Bld", "items calls n other", defaults=(frozenset(),))


class Build(Client):
    """an instance is built from the lines: the lines given and what is added for each"""
    max_states = 20000
    max_depth = 10
    widen_after = 60
    widen_int = 60
    gc = True
    drive = True

    def __init__(self, F, file):
        self.F, self.file, self.ends, self.wrong = F, file, [], set()

    def inline(self, eng, key, fn, call, st):
        return (fn["k"] == "closure" or fn["sp"][0] == self.file) and fn["name"] not in ADDS and fn["name"] not in ("compose", "new", "default", "var_manager_mut")

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.ends.append((ret, st.copy()))

    def item(self, key, vi, i):
        a = self.F.adts[key]
        v = a["vs"][vi]
        return ADT(key, vi, v[0], tuple(mk("ARG", f"d{i}.{fl[0]}") for fl in v[2]))

    def on_call(self, eng, st, c):
        import re
        n, o = c.name, Bld(*st.obs)
        st.obs = o
        if n == "forward_to_body":
            m = re.search(r"([\w:]*HeaderData)\b", c.dty["s"])
            k = next((k for k in self.F.adts if m and k.endswith("fio::dimacs::" + last(m.group(1)))), None)
            if k is None:
                return None
            out = [(Err(mk("PERR", c.site)), st.copy())]
            for vi, v in enumerate(self.F.adts[k]["vs"]):
                s = st.copy()
                s.obs = o._replace(items=o.items + (("header", v[0]),))
                out.append((Ok(ADT(k, vi, v[0], tuple(mk("ARG", "h." + fl[0]) for fl in v[2]))), s))
            return out
        m = re.search(r"Option<[\w:]*Result<([\w:]*Data)\b", c.dty["s"])
        if n == "next" and m:
            k = next((k for k in self.F.adts if k.endswith("fio::dimacs::" + last(m.group(1)))), None)
            if k is None:
                return None
            out = [(NONE, st.copy()), (Some(Err(mk("PERR", c.site))), st.copy())]
            out[1][1].obs = o._replace(items=o.items + (("err",),))
            if o.n < 2:
                for vi, v in enumerate(self.F.adts[k]["vs"]):
                    s = st.copy()
                    s.obs = o._replace(items=o.items + ((v[0], o.n),), n=o.n + 1)
                    out.append((Some(Ok(self.item(k, vi, o.n))), s))
            return out
        if n in ADDS and any(x.t == "ARG" and str(x.a[0])[:1] in "dh" for a in c.args for y in [eng.strip(st, a), a] for x in subterms(y)):
            st.obs = o._replace(calls=o.calls + ((n, tuple(deep(eng, st, eng.strip(st, a)) for a in c.args), tuple(c.args)),))
            return [(mk("TUP", ()), st)]
        if n in ("resize", "resize_with", "truncate", "index_mut", "index") and len(c.args) >= 2:
            self.sized(eng, st, c)
        if n not in PASS and n not in ADDS:
            seen = {str(x.a[0]).split(".")[0] for a in c.args for x in subterms(eng.strip(st, a)) if x.t == "ARG" and str(x.a[0])[:1] in "dh" and "." in str(x.a[0])}
            if seen:
                st.obs = o._replace(other=o.other | frozenset(seen))
        return None


    def sized(self, eng, st, c):
        """the list of objectives never gets shorter and is long enough where it is indexed"""
        vec, to = eng.strip(st, c.args[0]), eng.strip(st, c.args[1])
        idx = {x for x in subterms(to) if x.t == "ARG" and str(x.a[0]).endswith("obj_idx")}
        ln = mk("PURE", "len", (vec,))
        if len(idx) != 1 or not any(ln in subterms(t) for t in st.facts) and c.name not in ("resize", "resize_with", "truncate"):
            return
        i = idx.pop()
        for t in st.facts:
            if i in subterms(t):
                try:
                    ev(t, {ln: 2, i: 2})
                except Exception:
                    return      # decided by something else
        for k in range(1, 5):
            for m in range(0, 6) if vec.t == "HAV" else (0,):
                env = {ln: m, i: k}
                if not feasible_with(st, env):
                    continue
                try:
                    v = ev(to, env)
                except Exception:
                    return
                if c.name.startswith("index"):
                    if v >= m:
                        self.wrong.add(("index", "objective %d is used where only %d are known, which panics" % (v + 1, m)))
                        return
                elif v < m:
                    self.wrong.add(("shrinks", "a line for objective %d cuts the list of %d objectives down to %d" % (k, m, v)))
                    return


def building(F, r):
    for f in sorted(F.fns.values(), key=lambda f: f["key"]):
        if f["name"] != "from_dimacs" or f["crate"] != "rustsat.lib" or f["k"] == "closure":
            continue
        x = Build(F, f["sp"][0])
        e = Engine(F, x)
        try:
            e.run(f["key"], Bld((), (), 0))
        except Budget:
            r.undec(f"{f['p']}: budget")
            continue
        r.analysed |= set(e.analysed)
        name = f["p"].replace("rustsat::instances::", "")
        good = set()
        for a, b in sorted(x.wrong):
            r.bad(f"{name}:{a}", b, where(f))
        for ret, st in x.ends:
            v = e.strip(st, ret)
            o = Bld(*st.obs)
            if v.t == "ADT" and v.a[2] == "Err":
                continue
            if ("err",) in o.items:
                r.bad(f"{name}:error", "an instance is returned although a line could not be read", where(f))
                continue
            calls = list(o.calls)
            if ("header", "CnfHeaderData") in o.items or ("header", "Pre22") in o.items:
                nv = [cl for cl in calls if any(y.t == "ARG" and y.a[0] == "h.n_vars" for a in cl[1] for y in subterms(a))]
                if not nv and "h" in o.other:
                    r.undec(f"{name}: what is done with the number of variables is not known")
                    continue
                small = False
                for a in [a for cl in nv if cl[0] == "increase_next_free" for a in cl[1]]:
                    for y in subterms(a):
                        if y.t == "BIN" and "Overflow" not in y.a[0] and mk("ARG", "h.n_vars") in subterms(y):
                            try:
                                small |= ev(y, {mk("ARG", "h.n_vars"): 7}) < 7
                            except Exception:
                                pass
                if not nv or small:
                    r.bad(f"{name}:n_vars", "the number of variables of the header is not reserved", where(f))
                    continue
                if any(canon(a) == ("call", "new", ("?", "ARG")) for cl in nv for a in cl[1]):
                    good.add("n_vars")
                calls = [cl for cl in calls if cl not in nv]
            for it in o.items:
                if it[0] == "header":
                    continue
                mine = [cl for cl in calls if any(y.t == "ARG" and str(y.a[0]).startswith(f"d{it[1]}.") for a in cl[1] for y in subterms(a))]
                if it[0] == "Comment":
                    if mine:
                        r.bad(f"{name}:Comment", f"a comment is passed to {mine[0][0]}", where(f))
                    continue
                p = problem(e, st, it, mine)
                if p == "?" or not mine and f"d{it[1]}" in o.other:
                    r.undec(f"{name}: what is done with {it[0]} is not known")
                elif p:
                    r.bad(f"{name}:{it[0]}", f"a line read as {it[0]} {p}", where(f))
                else:
                    good.add(it[0])
        for g in sorted(good):
            r.ok("building", f"{name}: {g}")
    r.floor("building", 3, "kinds of lines turned into parts of an instance")


def problem(e, st, it, mine):
    i = it[1]
    if len(mine) != 1:
        return "is dropped" if not mine else f"is added {len(mine)} times"
    n, a, raw = mine[0]
    arg = lambda nm: mk("ARG", f"d{i}.{nm}")
    is_ = lambda v, nm: arg(nm) in subterms(v) and not any(y.t == "BIN" for y in subterms(v))
    if it[0] in ("Clause", "HardClause"):
        if n != "add_clause":
            return f"is handed to {n}" if "soft" in n else "?"
        return None if is_(a[-1], "0") else "is not added as it is"
    if n not in ("increase_soft_clause",):
        return f"is handed to {n}" + (", which replaces the weight of an equal clause" if n == "add_soft_clause" else "") if n in ("add_soft_clause", "add_clause") else "?"
    if not (is_(a[1], "weight") and is_(a[2], "clause")):
        return "is not added with its weight"
    idx = arg("obj_idx")
    at = {y for x in (a[0], raw[0]) for y in subterms(x) if y.t in ("BIN", "ARG") and idx in subterms(y)}
    if at:
        vals = set()
        for y in at:
            if y.t == "BIN" and "Overflow" not in y.a[0]:
                try:
                    vals.add(ev(y, {idx: 7}))
                except Exception:
                    pass
        if vals and vals != {6}:
            return f"with objective index 7 is added to the objective at position {sorted(vals)[0]}"
        if not vals and idx in at:
            return "is added to the objective one position too late"
    return None


def p04(F, r):
    j = Judge(F, r)
    j.readers()
    r.floor("line kinds", 8, "kinds of lines read")
    j.transitions()
    r.floor("headers", 4, "facts of headers handed on")
    building(F, r)
    r.rules += ["evaluating the parser combinators, every line accepted by a reader has one of the shapes of its format, and the item returned takes weight, objective index and literals from their places "
                "in the line; numbers and literals have to be kept apart by space",
                "in the old WCNF format a clause is hard exactly if its weight is at least the top value of the header (all orders of the two)",
                "a line is read before the next one is fetched, unless it is blank or a comment, and no line is appended to another, also after a malformed line",
                "the numbers of the header and the first clause found while looking for it reach the body parser, once",
                "instances add every clause exactly once, as hard or with its weight to the objective of its index, and reserve the variables of the header"]
    return {"level": "other", "explanation": "abstract interpretation of the parser combinators (token sequences and the values built from them) and of the functions that drive them, over one or two lines from every "
            "state of a reader; what single tokens accept (digits, signs, overflow) is left to the combinator library; parsers written without combinators are reported as undecided"}


CHECKS = {"P04": p04}
TECH = {"P04": ("abstract interpretation of parser combinators into token sequences with the values built from them, typestate of the line buffer",
                "all outcomes of all readers; accepted digits and signs are the combinator library's")}
