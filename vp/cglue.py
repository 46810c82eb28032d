"""Path enumeration over the C++ glue of the backends, from clang's syntax tree.

Every extern "C" function of the glue is unfolded into its paths (conditions, calls with the
exception handlers around them, returned term); loops contribute their body once."""
import hashlib
import json
import os
import subprocess
import tempfile

from .facts import REPO, CACHE, AnalysisError

UNITS = {
    "minisat": ("minisat/vendor/minisat/cminisat.cc", ["-Iminisat/vendor", "-Iminisat/vendor/minisat"], ["cminisat", "OUT_OF_MEM", "T_TRUE", "T_FALSE", "T_UNASSIGNED"]),
    "glucose": ("glucose/vendor/cglucose4.cc", ["-Iglucose/vendor"], ["cglucose", "OUT_OF_MEM", "T_TRUE", "T_FALSE", "T_UNASSIGNED"]),
    "cadical": (None, ["-Icadical/vendor/src", "-Icadical/cpp-extension", "-DV1_5", "-DV1_6", "-DV1_9", "-DV2_0",
                       "-DV2_1", "-DV2_2", "-DNDEBUG", "-DNCONTRACTS", "-DNTRACING", "-DQUIET", "-DNCLOSEFROM"],
                ["ccadical", "CTracer", "OUT_OF_MEM"]),
}
QUIET = {"operator==", "operator!=", "var", "sign", "size", "ptr", "nVars", "operator[]", "data"}
SKIP = {"ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
        "CXXFunctionalCastExpr", "ConstantExpr", "CXXBindTemporaryExpr", "CXXStaticCastExpr",
        "CXXReinterpretCastExpr", "CXXConstCastExpr", "SubstNonTypeTemplateParmExpr", "CXXStdInitializerListExpr"}


def dump(unit):
    f, flags, filters = UNITS[unit]
    flags = [("-I" + os.path.join(REPO, x[2:])) if x.startswith("-I") else x for x in flags]
    out = []
    with tempfile.TemporaryDirectory(prefix="cglue") as td:
        if f is None:
            src = os.path.join(td, "unit.cpp")
            with open(src, "w") as h:
                with open(os.path.join(REPO, "cadical/vendor/src/ccadical.cpp")) as g:
                    s = g.read()
                h.write(s)
                if "ccadical_extension" not in s:
                    h.write('\n#include "ccadical_extension.cpp"\n')
        else:
            src = os.path.join(REPO, f)
        for flt in filters:
            p = subprocess.run(["clang++", "-fsyntax-only", "-std=c++17", "-w", *flags, "-Xclang", "-ast-dump=json",
                                "-Xclang", "-ast-dump-filter=" + flt, src], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=200)
            if p.returncode:
                raise AnalysisError(f"clang on {unit} glue: {p.stderr[-1500:]}")
            dec = json.JSONDecoder()
            s = p.stdout
            i = 0
            while i < len(s):
                while i < len(s) and s[i] in " \n\r\t":
                    i += 1
                if i >= len(s):
                    break
                if s[i] != "{":
                    i = s.index("\n", i) + 1
                    continue
                o, i = dec.raw_decode(s, i)
                out.append(o)
    return out


class Glue:
    def __init__(self, unit):
        self.unit = unit
        self.fns = {}
        self.classes = []
        self.consts = {}
        for d in dump(unit):
            self.collect(d)

    def collect(self, d):
        if d.get("kind") == "FunctionDecl" and any(x.get("kind") == "CompoundStmt" for x in d.get("inner", [])):
            self.fns[d["name"]] = d
        elif d.get("kind") in ("VarDecl", "EnumConstantDecl") and d.get("inner"):
            v = Ev(self, (), 0).expr(d["inner"][-1], Path({}, (), (), None))[0][0]
            if v[0] == "int":
                self.consts[d["name"]] = v[1]
        elif d.get("kind") == "CXXRecordDecl":
            self.classes.append(d)
        elif d.get("kind") in ("LinkageSpecDecl", "NamespaceDecl"):
            for x in d.get("inner", []):
                self.collect(x)

    def params(self, name):
        return [(x.get("name"), x["type"]["qualType"]) for x in self.fns[name].get("inner", [])
                if x["kind"] == "ParmVarDecl"]

    def paths(self, name, args=None, tries=(), depth=0):
        """list of Path"""
        d = self.fns[name]
        env = {}
        ps = [x for x in d.get("inner", []) if x["kind"] == "ParmVarDecl"]
        for i, p in enumerate(ps):
            env[p["id"]] = args[i] if args else ("param", p.get("name"))
        body = [x for x in d["inner"] if x["kind"] == "CompoundStmt"][0]
        p = Path(env, (), (), None)
        return Ev(self, tries, depth).stmt(body, [p])


class Path:
    __slots__ = ("env", "conds", "events", "ret")

    def __init__(self, env, conds, events, ret):
        self.env, self.conds, self.events, self.ret = env, conds, events, ret

    def cp(self, **k):
        p = Path(dict(self.env), self.conds, self.events, self.ret)
        for a, b in k.items():
            setattr(p, a, b)
        return p


class Ev:
    def __init__(self, glue, tries, depth):
        self.g = glue
        self.tries = tries
        self.depth = depth

    def stmt(self, n, ps):
        out = [p for p in ps if p.ret is not None]
        ps = [p for p in ps if p.ret is None]
        if not ps:
            return out
        k = n["kind"]
        inner = n.get("inner", [])
        if k == "CompoundStmt":
            for x in inner:
                ps = self.stmt(x, ps)
                out += [p for p in ps if p.ret is not None]
                ps = [p for p in ps if p.ret is None]
            return out + ps
        if k == "DeclStmt":
            for v in inner:
                if v["kind"] == "VarDecl":
                    nps = []
                    for p in ps:
                        init = [x for x in v.get("inner", []) if x["kind"].endswith("Expr") or x["kind"].endswith("Literal")
                                or x["kind"] == "ExprWithCleanups"]
                        if init:
                            for val, q in self.expr(init[-1], p):
                                q = q.cp()
                                q.env[v["id"]] = val
                                nps.append(q)
                        else:
                            q = p.cp()
                            q.env[v["id"]] = ("var", v.get("name"))
                            nps.append(q)
                    ps = nps
            return out + ps
        if k == "IfStmt":
            for p in ps:
                for c, q in self.expr(inner[0], p):
                    for truth, q2 in branch(c, q):
                        if truth:
                            out += self.stmt(inner[1], [q2])
                        elif len(inner) > 2:
                            out += self.stmt(inner[2], [q2])
                        else:
                            out.append(q2)
            return out
        if k == "ReturnStmt":
            for p in ps:
                if not inner:
                    out.append(p.cp(ret=("void",)))
                    continue
                for v, q in self.expr(inner[0], p):
                    out.append(q.cp(ret=v))
            return out
        if k == "CXXTryStmt":
            hs = []
            for c in inner[1:]:
                vd = [x for x in c.get("inner", []) if x["kind"] == "VarDecl"]
                hs.append(vd[0]["type"]["qualType"] if vd else "...")
            e = Ev(self.g, self.tries + (tuple(hs),), self.depth)
            out += e.stmt(inner[0], ps)
            for c, h in zip(inner[1:], hs):
                b = [x for x in c.get("inner", []) if x["kind"] == "CompoundStmt"][0]
                out += self.stmt(b, [p.cp(conds=p.conds + (("catch", h),)) for p in ps])
            return out
        if k in ("WhileStmt", "ForStmt", "CXXForRangeStmt", "DoStmt"):
            for p in ps:
                qs = [p.cp()]
                for x in inner:
                    if x and x.get("kind"):
                        qs = self.stmt(x, qs)
                        out += [q for q in qs if q.ret is not None]
                        qs = dedupe([q.cp(conds=p.conds) for q in qs if q.ret is None])
                # the longest run stands for all: it has every call of the body
                qs.sort(key=lambda q: -len(q.events))
                out += qs[:1]
            return out
        if k == "SwitchStmt":
            for p in ps:
                for c, q in self.expr(inner[0], p):
                    out += self.switch(inner[1], c, q)
            return out
        if k in ("NullStmt", "BreakStmt", "ContinueStmt"):
            return out + ps
        r = []
        for p in ps:
            for _, q in self.expr(n, p):
                r.append(q)
        return out + r

    def switch(self, body, c, p):
        """cases of a switch without fall-through"""
        out = []
        seen = []
        flat = []
        for x in body.get("inner", []):
            while x["kind"] in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt":
                    flat.append(("case", x["inner"][0]))
                    x = x["inner"][1] if len(x["inner"]) > 1 else {"kind": "NullStmt"}
                else:
                    flat.append(("default", None))
                    x = x["inner"][0]
            flat.append(("s", x))
        i = 0
        while i < len(flat):
            if flat[i][0] in ("case", "default"):
                val = None
                if flat[i][0] == "case":
                    val = self.expr(flat[i][1], p)[0][0]
                    seen.append(val)
                ps = [p.cp(conds=p.conds + (("switch", c, val),))]
                j = i
                while j < len(flat):
                    if flat[j][0] == "s":
                        if flat[j][1]["kind"] == "BreakStmt":
                            break
                        ps = self.stmt(flat[j][1], ps)
                    j += 1
                out += ps
            i += 1
        if not any(x[0] == "default" for x in flat):
            out.append(p.cp(conds=p.conds + (("switch", c, None),)))
        return out

    def expr(self, n, p):
        """list of (term, Path)"""
        k = n.get("kind")
        inner = [x for x in n.get("inner", []) if x.get("kind")]
        if k in SKIP:
            return self.expr(inner[-1], p) if inner else [(("?",), p)]
        if k == "IntegerLiteral":
            return [(("int", int(n["value"])), p)]
        if k == "CXXBoolLiteralExpr":
            return [(("int", 1 if n["value"] else 0), p)]
        if k == "CXXNullPtrLiteralExpr":
            return [(("int", 0), p)]
        if k == "StringLiteral":
            return [(("str", n["value"]), p)]
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            if rd["id"] in p.env:
                return [(p.env[rd["id"]], p)]
            if rd["name"] in self.g.consts:
                return [(("int", self.g.consts[rd["name"]]), p)]
            return [(("ref", rd["name"]), p)]
        if k == "MemberExpr":
            if not inner:
                return [(("mem", ("this",), n["name"]), p)]
            return [(("mem", b, n["name"]), q) for b, q in self.expr(inner[0], p)]
        if k == "UnaryOperator":
            out = []
            for a, q in self.expr(inner[0], p):
                if n["opcode"] == "-" and a[0] == "int":
                    out.append((("int", -a[1]), q))
                else:
                    out.append((("un", n["opcode"], a), q))
            return out
        if k == "BinaryOperator" and n["opcode"] == "=":
            out = []
            for v, q in self.expr(inner[1], p):
                l = inner[0]
                while l["kind"] in SKIP:
                    l = l["inner"][-1]
                q = q.cp()
                if l["kind"] == "DeclRefExpr":
                    q.env[l["referencedDecl"]["id"]] = v
                else:
                    for lt, q in self.expr(l, q):
                        q = q.cp(events=q.events + (("store", lt, v),))
                        break
                out.append((v, q))
            return out
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            out = []
            for a, q in self.expr(inner[0], p):
                for b, q2 in self.expr(inner[1], q):
                    out.append((("bin", n["opcode"], a, b), q2))
            return out
        if k == "ConditionalOperator":
            out = []
            for c, q in self.expr(inner[0], p):
                for truth, q2 in branch(c, q):
                    out += self.expr(inner[1] if truth else inner[2], q2)
            return out
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            out = []
            cal = inner[0]
            while cal["kind"] in SKIP:
                cal = cal["inner"][-1]
            name = None
            sig = cal.get("type", {}).get("qualType", "")
            if cal["kind"] == "DeclRefExpr":
                name = cal["referencedDecl"]["name"]
                sig = cal["referencedDecl"]["type"]["qualType"]
            elif cal["kind"] == "MemberExpr":
                name = cal["name"]
            res = [((), p)]
            objs = [(None, p)]
            if cal["kind"] == "MemberExpr" and cal.get("inner"):
                objs = self.expr(cal["inner"][0], p)
            elif cal["kind"] not in ("DeclRefExpr", "MemberExpr"):
                objs = self.expr(cal, p)
            for ob, q in objs:
                res = [((), q)]
                for a in inner[1:]:
                    res = [(t + (v,), q3) for t, q2 in res for v, q3 in self.expr(a, q2)]
                if name == "operator=" and len(inner) == 3:
                    l = inner[1]
                    while l["kind"] in SKIP:
                        l = l["inner"][-1]
                    if l["kind"] == "DeclRefExpr":
                        for v, q2 in self.expr(inner[2], q):
                            q2 = q2.cp()
                            q2.env[l["referencedDecl"]["id"]] = v
                            out.append((v, q2))
                        continue
                for args, q2 in res:
                    argt = tuple(a.get("type", {}).get("qualType", "") for a in inner[1:])
                    if name in self.g.fns and self.depth < 3:
                        sub = self.g.paths(name, args, self.tries, self.depth + 1)
                        for s in sub:
                            q3 = q2.cp(conds=q2.conds + s.conds, events=q2.events + (("enter", name, args),) + s.events)
                            out.append((s.ret if s.ret is not None else ("void",), q3))
                        continue
                    objt = ""
                    if cal["kind"] == "MemberExpr" and cal.get("inner"):
                        objt = cal["inner"][0].get("type", {}).get("qualType", "")
                    ev = ("call", name, ob, args, argt, objt)
                    q3 = q2 if name in QUIET else q2.cp(events=q2.events + (("ev", name, ob, args, argt, objt, self.tries),))
                    out.append((ev, q3))
            return out
        if k == "CXXNewExpr":
            q = p.cp(events=p.events + (("ev", "new", None, (n["type"]["qualType"],), (), "", self.tries),))
            r = []
            for x in inner:
                for _, q in self.expr(x, q):
                    break
            return [(("new", n["type"]["qualType"]), q)]
        if k == "CXXDeleteExpr":
            out = []
            for a, q in self.expr(inner[0], p):
                t = inner[0]["type"]["qualType"]
                out.append((("void",), q.cp(events=q.events + (("ev", "delete", a, (t,), (), "", self.tries),))))
            return out
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            if k == "CXXConstructExpr" and len(inner) == 1:
                v = self.expr(inner[0], p)
                t = n["type"]["qualType"]
                return [((x if x[0] not in ("int",) else ("ctor", t, (x,))), q) for x, q in v]
            res = [((), p)]
            for a in inner:
                res = [(t + (v,), q2) for t, q in res for v, q2 in self.expr(a, q)]
            return [(("ctor", n["type"]["qualType"], t), q) for t, q in res]
        if k == "CXXThisExpr":
            return [(("this",), p)]
        res = [((), p)]
        for a in inner:
            res = [(t + (v,), q2) for t, q in res for v, q2 in self.expr(a, q)][:200]
        return [((k, n.get("name", ""), t), q) for t, q in res]


def branch(c, p):
    """[(truth, Path)]"""
    if c[0] == "int":
        return [(c[1] != 0, p)]
    if c[0] == "un" and c[1] == "!":
        return [(not t, q) for t, q in branch(c[2], p)]
    if c[0] == "bin" and c[1] == "&&":
        out = []
        for t, q in branch(c[2], p):
            out += branch(c[3], q) if t else [(False, q)]
        return out
    if c[0] == "bin" and c[1] == "||":
        out = []
        for t, q in branch(c[2], p):
            out += [(True, q)] if t else branch(c[3], q)
        return out
    for cc in p.conds:
        if cc[0] == "if" and cc[1] == c:
            return [(cc[2], p)]
    return [(True, p.cp(conds=p.conds + (("if", c, True),))), (False, p.cp(conds=p.conds + (("if", c, False),)))]


def dedupe(ps):
    seen = set()
    out = []
    for p in ps:
        k = (repr(sorted(p.env.items())), p.conds, p.events, p.ret)
        if k not in seen:
            seen.add(k)
            out.append(p)
    return out[:40]


_cache = {}


def glue(unit):
    if unit not in _cache:
        _cache[unit] = Glue(unit)
    return _cache[unit]


def oom_capable():
    """C functions that may return the out-of-memory code"""
    out = {}
    for u in UNITS:
        g = glue(u)
        for n in sorted(g.fns):
            for p in g.paths(n):
                if p.ret == ("int", 50):
                    out[n] = u
                    break
    return out


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walk(x)


# ---------------------------------------------------------------- loops that create variables
def nodes(n):
    yield n
    for x in n.get("inner", []):
        if x:
            yield from nodes(x)


def strip(n):
    while n["kind"] in SKIP and n.get("inner"):
        n = n["inner"][-1]
    return n


LOOPS = ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt")
CMP = {">=": (1, 0), ">": (1, 1), "<=": (-1, 0), "<": (-1, 1)}
FLIP = {">=": "<=", "<=": ">=", ">": "<", "<": ">"}
NEG = {">=": "<", "<": ">=", ">": "<=", "<=": ">"}


def linear(t):
    """(base term, offset)"""
    if t[0] == "bin" and t[1] in ("+", "-") and t[3][0] == "int":
        b, o = linear(t[2])
        return b, o + (t[3][1] if t[1] == "+" else -t[3][1])
    if t[0] == "bin" and t[1] == "+" and t[2][0] == "int":
        b, o = linear(t[3])
        return b, o + t[2][1]
    return t, 0


def above(cond, truth, isn):
    """cond == truth says  X - N >= c  for one side N accepted by isn: (X, c, 'ge') or X - N <= c: (X, c, 'le')"""
    while cond[0] == "un" and cond[1] == "!":
        cond, truth = cond[2], not truth
    if cond[0] != "bin" or cond[1] not in CMP:
        return None
    op = cond[1] if truth else NEG[cond[1]]
    (a, oa), (b, ob) = linear(cond[2]), linear(cond[3])
    if isn(a) and not isn(b):
        (a, oa), (b, ob), op = (b, ob), (a, oa), FLIP[op]
    if not isn(b) or isn(a):
        return None
    # a + oa op b + ob
    k = ob - oa
    if op == ">=":
        return a, k, "ge"
    if op == ">":
        return a, k + 1, "ge"
    if op == "<=":
        return a, k, "le"
    return a, k - 1, "le"


def is_nvars(t):
    return t[0] == "call" and t[1] == "nVars"


def growth(g, name):
    """for the loops of a glue function that create variables: list of (verdict, what, term)
    verdict: ok / bad / unknown; term: ("param", n) when everything up to that parameter is created, or
    ("lits", ptr, n) when every variable of the literal array is."""
    d = g.fns[name]
    body = [x for x in d["inner"] if x["kind"] == "CompoundStmt"][0]
    env = {x["id"]: ("param", x.get("name")) for x in d["inner"] if x["kind"] == "ParmVarDecl"}
    ev = Ev(g, (), 3)
    # single-assignment locals that are casts of parameters
    locs = {}
    for n in nodes(body):
        if n.get("kind") == "VarDecl" and n.get("inner"):
            locs[n["id"]] = n
    assigned = {strip(n["inner"][0]).get("referencedDecl", {}).get("id") for n in nodes(body)
                if n.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and n.get("opcode", "").endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">=")}
    for i, n in locs.items():
        if i not in assigned:
            vs = ev.expr(n["inner"][-1], Path(env, (), (), None))
            if len(vs) == 1 and vs[0][0][0] == "param":
                env[i] = vs[0][0]
    out = []
    for lp in nodes(body):
        if lp.get("kind") not in LOOPS or not any(
                strip(x["inner"][0]).get("name") == "newVar" for x in nodes(lp) if x.get("kind") == "CXXMemberCallExpr"):
            continue
        if lp["kind"] == "WhileStmt":
            cond, env2 = lp["inner"][0], env
        elif lp["kind"] == "ForStmt":
            cond, env2 = lp["inner"][2], dict(env)
            init = lp["inner"][0]
            for v in nodes(init) if init else ():
                if v.get("kind") == "VarDecl" and v.get("inner"):
                    t = ev.expr(v["inner"][-1], Path(env, (), (), None))[0][0]
                    env2[v["id"]] = t
        else:
            out.append(("unknown", "loop form", None))
            continue
        if not cond:
            out.append(("unknown", "loop without condition", None))
            continue
        idof = {}
        for x in nodes(cond):
            if x.get("kind") == "DeclRefExpr":
                idof[x["referencedDecl"]["name"]] = x["referencedDecl"]["id"]
        ts = ev.expr(cond, Path(env2, (), (), None))
        r = above(ts[0][0], True, is_nvars)
        if not r or r[2] != "ge":
            out.append(("unknown" if not r else "bad", "the condition does not compare with the number of variables" if not r else
                        "variables are created while there are enough, not while there are too few", None))
            continue
        x, c, _ = r
        if c > 0:
            out.append(("bad", f"variables are created only while the wanted index exceeds the number of variables by {c}", x))
            continue
        if x[0] == "param":
            out.append(("ok", "parameter", x))
            continue
        if x[0] != "ref":
            out.append(("unknown", "wanted index " + repr(x)[:40], None))
            continue
        out.append(maximum(g, ev, body, env, idof.get(x[1]), locs))
    return out


def maximum(g, ev, body, env, vid, locs):
    """is the local the largest variable of a literal array?"""
    if vid not in locs:
        return ("unknown", "wanted index", None)
    for lp in nodes(body):
        if lp.get("kind") not in ("ForStmt", "CXXForRangeStmt", "WhileStmt"):
            continue
        asg = [n for n in nodes(lp) if n.get("kind") == "BinaryOperator" and n["opcode"] == "=" and
               strip(n["inner"][0]).get("referencedDecl", {}).get("id") == vid]
        if not asg or any(strip(x["inner"][0]).get("name") == "newVar" for x in nodes(lp) if x.get("kind") == "CXXMemberCallExpr"):
            continue
        if lp["kind"] != "ForStmt":
            return ("unknown", "form of the loop over the literals", None)
        init, _, cond, inc = lp["inner"][:4]
        lv, start = None, None
        for v in nodes(init) if init else ():
            if v.get("kind") == "VarDecl" and v.get("inner"):
                lv, start = v["id"], ev.expr(v["inner"][-1], Path(env, (), (), None))[0][0]
        if lv is None or start is None or start[0] != "int" or not cond:
            return ("unknown", "start of the loop over the literals", None)
        if start[1] > 0:
            return ("bad", f"the search for the largest variable starts at literal {start[1]}", None)
        env2 = dict(env)
        env2[lv] = ("i",)
        env2[vid] = ("max",)
        ct = ev.expr(cond, Path(env2, (), (), None))[0][0]
        bound = None
        if ct[0] == "bin" and ct[1] in CMP or ct[0] == "bin" and ct[1] == "!=":
            (xa, oa), (xb, ob), op = linear(ct[2]), linear(ct[3]), ct[1]
            if xb == ("i",) and xa != ("i",):
                (xa, oa), (xb, ob), op = (xb, ob), (xa, oa), FLIP.get(op, op)
            if xa == ("i",) and op in ("<", "<=", "!="):
                bound, o = xb, ob - oa + (1 if op == "<=" else 0)
        if bound is None:
            return ("unknown", "end of the loop over the literals", None)
        b = bound
        if b[0] != "param":
            return ("unknown", "end of the loop over the literals", None)
        if o < 0:
            return ("bad", f"the search for the largest variable leaves out the last {-o} literals", None)
        # body: if (var(lits[i]) > max) max = var(lits[i])
        lits = set()
        for p in ev.stmt(lp["inner"][-1], [Path(env2, (), (), None)]):
            new = p.env.get(vid)
            if new == ("max",):
                for cc in p.conds:
                    r = above(cc[1], cc[2], lambda t: t == ("max",)) if cc[0] == "if" else None
                    if r and r[2] == "le":
                        if r[1] > 0:
                            return ("bad", "the search for the largest variable skips larger ones", None)
                        lits.add(r[0])
                    elif r:
                        return ("bad", "the search for the largest variable keeps the smaller one", None)
                    else:
                        return ("unknown", "condition of the maximum", None)
            elif new and new[0] == "call" and new[1] == "max" and ("max",) in new[3]:
                lits |= {a for a in new[3] if a != ("max",)}
            else:
                lits.add(new)
        if len(lits) != 1:
            return ("unknown", "maximum of several terms", None)
        t = lits.pop()
        # var(lits[i])
        if t[0] == "call" and t[1] == "var" and len(t[3]) == 1:
            e = t[3][0]
            if e[0] == "ArraySubscriptExpr" and e[2][1] == ("i",) and e[2][0][0] == "param":
                return ("ok", "literals", ("lits", e[2][0], b))
        return ("unknown", "maximum of " + repr(t)[:60], None)
    return ("unknown", "where the wanted index comes from", None)
