"""X02: answers of external solvers are trusted only after a proper run."""
import itertools
import re

from .mir import Client, Engine, Budget, mk, last, INT, Some, NONE, ADT, Ok, Err, subterms
from . import lists
from . import c_constr as CC
from .regions import ev, feasible, Unknown, Underflow

MOD = "rustsat::solvers::external::"
OUT = "rustsat::instances::fio::SolverOutput"
OUTRES = re.compile(r"core::result::Result<(rustsat::)?instances::fio::SolverOutput,")
UNIT = mk("UNIT")
CODES = (0, 1, 2, 9, 10, 11, 19, 20, 21, 30, 139)
GOOD = (0, 10, 20)
CNF, NV, PATH, OPATH = (mk("ARG", x) for x in ("cnf", "n_vars", "path", "opath"))
INHERIT, PIPED = mk("STDIO", "inherit"), mk("STDIO", "piped")


def cmd(prog=mk("ARG", "prog"), args=(mk("ARG", "a1"), mk("ARG", "a2")), env=((mk("ARG", "k1"), Some(mk("ARG", "v1"))), (mk("ARG", "k2"), NONE)), cwd=Some(mk("ARG", "dir")),
        stdin=INHERIT, stdout=INHERIT):
    return mk("CMD", prog, tuple(args), tuple(env), cwd, stdin, stdout)


def unref(eng, st, v):
    for _ in range(8):
        if v.t in ("REF", "BOXED"):
            v = eng.at(st, v)
        else:
            break
    return v


def opaque_fact(t):
    return any(x.t in ("CALL", "HAV", "SITE", "TOP", "PURE", "ELEM", "DROPPED") for x in subterms(t))


class Ext(Client):
    """observation: (events, pending errors)"""
    max_states = 20000
    max_depth = 12
    widen_after = 24
    lists = True

    def __init__(self, F):
        self.F = F
        self.ends = []
        self.codes = None

    def param(self, name):
        return None

    def ev(self, st, *e):
        st.obs = (st.obs[0] + (e,), st.obs[1])

    def fork(self, st, c, v, *e):
        """success with value v after the event, or an error"""
        a, b = st.copy(), st.copy()
        if e:
            a.obs = (a.obs[0] + (e,), a.obs[1])
        b.obs = (b.obs[0], b.obs[1] + (c.name,))
        return [(Ok(v), a), (Err(mk("ERRV", c.site)), b)]

    def bare(self, eng, st, v):
        """without references, smart pointers and path conversions"""
        v = unref(eng, st, v)
        while v.t in ("PATHV",):
            v = unref(eng, st, v.a[0])
        return v

    def sink(self, eng, st, v):
        """what is written to through v"""
        v = unref(eng, st, v)
        while v.t == "BUF":
            v = unref(eng, st, v.a[0])
        return v

    def source(self, eng, st, v):
        return self.sink(eng, st, v)

    # -------------------------------------------------------------- calls
    def on_call(self, eng, st, c):
        n, p, a = c.name or "", c.p or "", c.args
        ty = c.argt[0]["s"] if a else ""
        own = c.key in eng.F.fns
        f = eng.F.fns.get(c.key) if own else None
        if own and f["k"] != "closure":
            ret = f["tys"][f["locals"][0]]["s"]
            if n.startswith("write_") and len(a) >= 2:
                return self.fork(st, c, UNIT, "write", self.sink(eng, st, a[0]), tuple(self.bare(eng, st, x) for x in a[1:]))
            if n.startswith("open_") and "write" in n:
                return self.fork(st, c, mk("SINK", c.site, self.bare(eng, st, a[0])))
            if n.startswith("open_") and "read" in n:
                return self.fork(st, c, mk("SRC", self.bare(eng, st, a[0])))
            if OUTRES.match(ret):
                if f["p"].split("::")[-2:-1] != ["external"]:
                    src = self.source(eng, st, a[0])
                    return self.fork(st, c, mk("OUTV", src), "parse", src)
        if own:
            return None
        if re.search(r"(^|::)process::Command::", p) or ty.replace("&mut ", "").replace("&", "").endswith("process::Command"):
            r = self.command(eng, st, c, n, a, ty)
            if r is not None:
                return r
        if n in ("wait", "try_wait", "kill", "wait_with_output") and "process::Child" in p + ty:
            ch = unref(eng, st, a[0])
            if n == "wait":
                return self.fork(st, c, mk("EXIT"), "wait", ch)
            return None
        if "process::ExitStatus" in ty:
            if n == "code":
                out = []
                for x in CODES + (None,):
                    s = st.copy()
                    s.obs = (s.obs[0] + (("code", x),), s.obs[1])
                    out.append((NONE if x is None else Some(INT(x)), s))
                return out
            if n == "success":
                out = []
                for x in CODES + (None,):
                    s = st.copy()
                    s.obs = (s.obs[0] + (("code", x),), s.obs[1])
                    out.append((INT(int(x == 0)), s))
                return out
        if p.endswith("process::Stdio::piped"):
            return [(PIPED, st)]
        if p.endswith(("process::Stdio::null", "process::Stdio::inherit")):
            return [(mk("STDIO", n), st)]
        if n in ("new", "with_capacity") and re.search(r"io::(\w+::)*(BufWriter|LineWriter|BufReader)<", c.dty["s"]):
            return [(mk("BUF", a[-1]), st)]
        if n == "new" and "NamedTempFile" in c.dty["s"] or n in ("tempfile", "new") and c.dty["s"].startswith("core::result::Result<tempfile::"):
            return self.fork(st, c, mk("TMP", c.site), "mktmp", mk("TMP", c.site))
        if n == "into_inner" and a:
            v = unref(eng, st, a[0])
            if v.t == "BUF":
                return self.fork(st, c, unref(eng, st, v.a[0]), "flushed", self.sink(eng, st, v))
        if n == "flush" and a:
            return self.fork(st, c, UNIT, "flushed", self.sink(eng, st, a[0]))
        if n in ("sync_all", "sync_data"):
            return self.fork(st, c, UNIT)
        if n == "into_temp_path":
            v = unref(eng, st, a[0])
            if v.t == "TMP":
                self.ev(st, "closed", v)
                return [(mk("TPATH", v), st)]
        if n in ("path",) and a and unref(eng, st, a[0]).t == "TMP":
            return [(mk("PATHOF", unref(eng, st, a[0])), st)]
        if n in ("to_path_buf", "as_path", "deref", "as_ref", "to_owned", "clone", "into_os_string", "as_os_str", "into", "from", "as_mut_os_string", "borrow", "into_boxed_path", "into_path_buf", "as_mut") and a:
            v = unref(eng, st, a[-1])
            if v.t == "TPATH":
                return [(mk("PATHOF", v.a[0]), st)]
            if v.t in ("PATHOF",) or v in (PATH, OPATH):
                return [(v, st)]
        if n in ("close", "keep") and a:
            v = unref(eng, st, a[0])
            if v.t in ("TPATH", "TMP"):
                return self.fork(st, c, UNIT if n == "close" else mk("PATHOF", v.a[0] if v.t == "TPATH" else v), *(("rm", v.a[0] if v.t == "TPATH" else v) if n == "close" else ()))
        if re.search(r"fs::File::(create|create_new)$", p):
            return self.fork(st, c, mk("SINK", c.site, self.bare(eng, st, a[0])))
        if re.search(r"fs::File::open$", p):
            return self.fork(st, c, mk("SRC", self.bare(eng, st, a[0])))
        if p.startswith("core::mem::drop"):
            self.gone(eng, st, a[0])
            return [(UNIT, st)]
        if n in ("copy", "read_to_end", "read_to_string") and ("io::copy" in p or "io::Read" in p):
            src = self.source(eng, st, a[0])
            return self.fork(st, c, mk("N", c.site), "drained", src)
        if n == "sink" and "io" in p:
            return [(mk("NULL"), st)]
        if n == "spawn" and "thread" in p:
            s0 = st.copy()
            out = []
            for v, s in eng.apply(s0, c, a[-1], (), c.depth, ()):
                # errors inside the thread are in its result
                s = s.copy()
                out.append((mk("JOIN", v), s))
            return out
        if n == "join" and a and unref(eng, st, a[0]).t == "JOIN":
            return [(Ok(unref(eng, st, a[0]).a[0]), st)]
        if n == "contains" and len(a) == 2:
            u, x = lists.under(eng, st, a[0]), unref(eng, st, a[1])
            xs = [unref(eng, st, y) for y in u.a[0]] if u.t in ("LIST", "ARR") else [mk("X")]
            if x.t == "INT" and all(y.t == "INT" for y in xs):
                return [(INT(int(x in xs)), st)]
        return None

    def command(self, eng, st, c, n, a, ty):
        if n == "new":
            return [(mk("CMD", self.bare(eng, st, a[0]), (), (), NONE, INHERIT, INHERIT), st)]
        v = unref(eng, st, a[0])
        if v.t != "CMD":
            return None
        prog, args, env, cwd, i, o = v.a
        x = [self.bare(eng, st, y) for y in a[1:]]
        if n == "get_program":
            return [(prog, st)]
        if n == "get_args":
            return [(lists.seq(args), st)]
        if n == "get_envs":
            return [(lists.seq([mk("TUP", e) for e in env]), st)]
        if n == "get_current_dir":
            return [(cwd, st)]
        if n in ("spawn", "status", "output"):
            ch = mk("CHILD", c.site)
            out = self.fork(st, c, ch if n == "spawn" else mk("EXIT"), "start", v, ch)
            if n == "status":
                out[0][1].obs = (out[0][1].obs[0] + (("wait", ch),), out[0][1].obs[1])
            return out if n != "output" else None
        new = None
        if n == "arg":
            new = mk("CMD", prog, args + (x[0],), env, cwd, i, o)
        elif n == "stdin":
            new = mk("CMD", prog, args, env, cwd, x[0], o)
        elif n == "stdout":
            new = mk("CMD", prog, args, env, cwd, i, x[0])
        elif n == "stderr":
            new = v
        elif n == "current_dir":
            new = mk("CMD", prog, args, env, Some(x[0]), i, o)
        elif n in ("env", "env_remove"):
            new = mk("CMD", prog, args, tuple(e for e in env if e[0] != x[0]) + ((x[0], Some(x[1]) if n == "env" else NONE),), cwd, i, o)
        elif n == "env_clear":
            new = mk("CMD", prog, args, (), cwd, i, o)
        elif n in ("args", "envs"):
            it = lists.as_iter(eng, st, a[1])
            if it is None:
                return None
            out = []
            for ys, s in lists.drain(eng, st, c, it, c.depth, ()):
                s = s.copy()
                if n == "args":
                    new = mk("CMD", prog, args + tuple(self.bare(eng, s, y) for y in ys), env, cwd, i, o)
                else:
                    e2 = list(env)
                    for y in ys:
                        y = eng.strip(s, y)
                        if y.t != "TUP":
                            return None
                        k, w = (self.bare(eng, s, z) for z in y.a[0])
                        e2 = [e for e in e2 if e[0] != k] + [(k, Some(w))]
                    new = mk("CMD", prog, args, tuple(e2), cwd, i, o)
                if not self.put(eng, s, a[0], new):
                    return None
                out.append((a[0], s))
            return out
        if new is None:
            return None
        s = st.copy()
        return [(a[0], s)] if self.put(eng, s, a[0], new) else None

    def put(self, eng, st, ref, v):
        if ref.t != "REF":
            return False
        while True:
            w = eng.read(st, ref.a[0], tuple(ref.a[1]))
            if w.t != "REF":
                break
            ref = w
        eng.write(st, ref.a[0], tuple(ref.a[1]), v)
        return True

    def gone(self, eng, st, v):
        v = CC.deep(eng, st, v)
        for x in subterms(v):
            if x.t in ("SINK", "TMP", "CHILD", "SRC") or x.t == "TPATH":
                if x.t == "TMP" and any(y.t == "TPATH" and y.a[0] == x for y in subterms(v)):
                    continue
                if x.t == "CHILD" and not re.search(r"'?std(in|out)", repr(v)[:400]):
                    continue
                what = self.sink(eng, st, v)
                if x.t == "TPATH":
                    self.ev(st, "rm", x.a[0])
                elif x.t == "TMP":
                    self.ev(st, "closed", x)
                    self.ev(st, "rm", x)
                else:
                    self.ev(st, "closed", what)
                return

    def on_drop(self, eng, st, val, ty, fn, bb):
        if val.t in ("SINK", "TMP", "BUF", "TPATH", "FLD") or val.t == "ADT" and val.a[2] == "Some":
            s = st.copy()
            self.gone(eng, s, val)
            return [s]
        return None

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            root = getattr(self, "root", None)
            self.ends.append((CC.deep(eng, st, ret), st.copy(), CC.deep(eng, st, eng.read(st, root, ())) if root is not None else None))


def variant(F, adt, *names):
    """index of a variant by name"""
    for i, v in enumerate(F.adts[adt]["vs"]):
        if v[0] in names:
            return i, v
    return None


def configs(F):
    """(description, configuration)"""
    pre = next((k for k in F.adts if k == MOD + "SolverPre"), None)
    if pre is None:
        return
    iv, ov, pos = MOD + "InputViaInt", MOD + "OutputViaInt", MOD + "InstanceArg"
    if not {iv, ov, pos} <= set(F.adts):
        return
    for v in F.adts[iv]["vs"]:
        fs = v[2]
        kinds = [F.adts[iv]["tys"][x[1]]["s"] for x in fs]
        ps = [i for i, k in enumerate(kinds) if k.endswith("InstanceArg")]
        for pi, pv in enumerate(F.adts[pos]["vs"]) if ps else [(0, None)]:
            vals = tuple(ADT(pos, pi, pv[0]) if i in ps else PATH for i in range(len(fs)))
            i = ADT(iv, [x[0] for x in F.adts[iv]["vs"]].index(v[0]), v[0], vals)
            for oi, w in enumerate(F.adts[ov]["vs"]):
                o = ADT(ov, oi, w[0], tuple(OPATH for _ in w[2]))
                vals2 = {"cmd": cmd(), "input": ADT(MOD + "InputVia", 0, "InputVia", (i,)), "output": ADT(MOD + "OutputVia", 0, "OutputVia", (o,)), "cnf": CNF, "n_vars": NV}
                names = [x[0] for x in F.adts[pre]["vs"][0][2]]
                if any(x not in vals2 for x in names):
                    return
                yield ("input via %s%s, output via %s" % (v[0], "" if pv is None else " (%s)" % pv[0], w[0]), ADT(pre, 0, "SolverPre", tuple(vals2[x] for x in names)), v[0], w[0], pv[0] if pv else None)


def i_of(evs, *kinds, f=None):
    return [i for i, e in enumerate(evs) if e[0] in kinds and (f is None or f(e))]


def runs(F, r):
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not f["p"].replace("rustsat::", "").startswith("solvers::external::") or f["nargs"] != 1:
            continue
        if not f["tys"][f["locals"][1]]["s"].endswith("SolverPre") or not OUTRES.match(f["tys"][f["locals"][0]]["s"]):
            continue
        r.ok("subject", f["p"])
        for desc, cfg, iv, ov, pos in configs(F):
            one_run(F, r, k, f, desc, cfg, iv, ov, pos)
    r.floor("subject", 1)


def one_run(F, r, k, f, desc, cfg, iv, ov, pos):
    x = Ext(F)
    e = Engine(F, x)
    try:
        e.run(k, ((), ()), args=[cfg])
    except Budget as z:
        r.undec("%s: %s" % (desc, str(z)[:80]))
        return
    r.analysed |= set(e.analysed)
    bad, und, good = {}, None, 0
    for ret, st, _ in x.ends:
        if ret.t != "ADT" or ret.a[2] not in ("Ok", "Err"):
            und = "a return value is not followed: %s" % str(ret)[:80]
            continue
        if ret.a[2] == "Err":
            continue
        p = problem(e, st, ret.a[3][0], iv, ov, pos)
        if p is None:
            good += 1
        elif p[0] == "und":
            und = p[1]
        else:
            bad.setdefault(p[0], p[1])
    for key, m in sorted(bad.items()):
        r.bad("%s:%s" % (f["name"], key), "a result is reported although %s (%s)" % (m, desc), "%s:%s" % tuple(f["sp"][:2]))
    if bad:
        return
    if und:
        r.undec("%s: %s" % (desc, und))
    elif not good:
        r.bad("%s:never" % f["name"], "no result is ever reported (%s)" % desc, "%s:%s" % tuple(f["sp"][:2]))
    else:
        r.ok("run", desc)


def problem(eng, st, ret, iv, ov, pos):
    evs, pend = st.obs
    opaque = any(opaque_fact(t) for t in st.facts)
    if pend:
        return "error", "%s failed" % pend[0]
    start = i_of(evs, "start")
    if not start:
        return "no-start", "no process was started"
    if len(start) > 1:
        return "und", "several processes are started"
    s0 = start[0]
    command, child = evs[s0][1], evs[s0][2]
    wait = i_of(evs, "wait")
    if not wait:
        return "no-wait", "the process was not waited for"
    w0 = wait[0]
    parse = i_of(evs, "parse")
    if not parse:
        return "no-parse", "its output was not parsed"
    if ret.t != "OUTV":
        return ("und", "the result is not followed: %s" % str(ret)[:60]) if ret.t not in ("ADT", "ARG", "INT") else ("other-result", "it is not what the output was parsed to")
    codes = [e[1] for e in evs if e[0] == "code"]
    if not codes:
        return "code", "the exit code of the process was not looked at"
    if any(c not in GOOD for c in codes):
        if opaque:
            return "und", "the exit code is judged by something that is not followed"
        return "code", "the process %s" % ("was ended by a signal" if codes[0] is None else "ended with code %s" % [c for c in codes if c not in GOOD][0])
    # the instance
    wr = i_of(evs, "write")
    if not wr:
        return "no-instance", "the instance was not written"
    ws = evs[wr[0]]
    if not any(x == CNF for x in ws[2]):
        return "instance", "what was written is not the clauses added"
    if not any(x == NV for x in ws[2]):
        return "vars", "the header written does not state the number of variables in use"
    sink = ws[1]
    closed = i_of(evs, "closed", f=lambda e: e[1] == sink)
    prog, args, env, cwd, i, o = command.a
    if iv == "Pipe":
        if i != PIPED:
            return "stdin", "the standard input of the process is not a pipe"
        if not any(y.t == "CHILD" and y == child for y in subterms(sink)) or "stdin" not in repr(sink):
            return "instance-to", "the instance was not written to the process"
        if not closed or closed[0] > w0:
            return "open-input", "the input of the process was still open while waiting for it"
        want = (mk("ARG", "a1"), mk("ARG", "a2"))
        if args != want:
            return "args", "the process was started with other arguments"
    else:
        if wr[0] > s0:
            return "late", "the instance was written after the process was started"
        path = PATH if iv == "File" else mk("PATHOF", sink) if sink.t == "TMP" else None
        if sink.t == "TMP" and iv != "File" or sink.t == "SINK" and sink.a[1] == path:
            pass
        else:
            return "instance-to", "the instance was written somewhere else than the file named to the process"
        if not closed and sink.t != "TMP" or closed and closed[0] > s0:
            return "unfinished", "the file with the instance was not complete when the process was started"
        if sink.t == "TMP" and not i_of(evs[:s0], "flushed", "closed", f=lambda e: e[1] == sink):
            return "unfinished", "the file with the instance was not complete when the process was started"
        rm = i_of(evs, "rm", f=lambda e: e[1] == sink)
        if rm and rm[0] < w0:
            return "removed", "the file with the instance was removed before the process had ended"
        a = (mk("ARG", "a1"), mk("ARG", "a2"))
        want = (path,) + a if pos == "First" else a + (path,)
        if args != want:
            return "args", "the process was not given the file with the instance as its %s argument" % (pos or "").lower()
    if prog != cmd().a[0] or cwd != cmd().a[3] or dict(env) != dict(cmd().a[2]):
        return "command", "another program, environment or directory was used"
    # the output
    src = evs[parse[0]][1]
    if ret.a[0] != src:
        return "und", "several outputs are parsed"
    if ov == "File":
        if src.t != "SRC" or src.a[0] != OPATH or o.t != "SINK" or o.a[1] != OPATH:
            return "output", "what was parsed is not the file the process wrote its output to"
        if parse[0] < w0:
            return "early", "the output was parsed before the process had ended"
    else:
        if o != PIPED:
            return "stdout", "the standard output of the process is not a pipe"
        if not any(y.t == "CHILD" and y == child for y in subterms(src)) or "stdout" not in repr(src):
            return "output", "what was parsed is not the output of the process"
        dr = i_of(evs, "drained", "closed", f=lambda e: e[1] == src)
        if not dr or dr[0] > w0 or dr[0] < parse[0]:
            return "blocked", "the rest of its output was not read before waiting for it"
    return None


def commands(F, r):
    """the command with the path of the instance added"""
    pos = MOD + "InstanceArg"
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or not f["p"].replace("rustsat::", "").startswith("solvers::external::") or f["nargs"] != 3:
            continue
        tys = [f["tys"][f["locals"][i]]["s"] for i in range(4)]
        if not (tys[0].endswith("process::Command") and tys[1].endswith("process::Command") and tys[2].endswith("PathBuf") and tys[3].endswith("InstanceArg")):
            continue
        for i, v in enumerate(F.adts[pos]["vs"]):
            for cwd, env in itertools.product((NONE, Some(mk("ARG", "dir"))), ((), cmd().a[2])):
                base = cmd(cwd=cwd, env=env)
                x = Ext(F)
                e = Engine(F, x)
                try:
                    e.run(k, ((), ()), args=[base, PATH, ADT(pos, i, v[0])])
                except Budget as z:
                    r.undec("%s: %s" % (f["p"], str(z)[:60]))
                    continue
                r.analysed |= set(e.analysed)
                want = (PATH,) + base.a[1] if v[0] == "First" else base.a[1] + (PATH,)
                for ret, st, _ in x.ends:
                    if ret.t != "CMD":
                        r.undec("%s: the command is not followed" % f["p"])
                    elif ret.a[1] != want:
                        r.bad("command:args", "%s does not put the path %s among the arguments" % (f["p"], v[0].lower()), "%s:%s" % tuple(f["sp"][:2]))
                    elif ret.a[0] != base.a[0] or ret.a[3] != cwd or dict(ret.a[2]) != dict(env):
                        r.bad("command:lost", "%s loses the %s of the command" % (f["p"], "program" if ret.a[0] != base.a[0] else "working directory" if ret.a[3] != cwd else "environment"), "%s:%s" % tuple(f["sp"][:2]))
                    else:
                        r.ok("command", "%s %s" % (f["p"], v[0]))


def text(eng, st, v):
    v = unref(eng, st, v)
    return v.a[0] if v.t == "STR" and isinstance(v.a[0], str) else None


class Parse(Ext):
    """the output of a solver is a list of lines"""
    def __init__(self, F, lines):
        super().__init__(F)
        self.lines = lines
        self.read = ()

    def on_call(self, eng, st, c):
        n, p, a = c.name or "", c.p or "", c.args
        f = eng.F.fns.get(c.key)
        if f is not None and f["k"] != "closure":
            if n == "from_vline":
                t = text(eng, st, a[0])
                return None if t is None else self.fork(st, c, mk("ASG", (t,)))
            if n == "extend_from_vline":
                t = text(eng, st, a[1])
                if t is None:
                    return None
                cur = unref(eng, st, a[0])
                if cur.t == "ADT" and last(cur.a[0]) == "Assignment":
                    cur = mk("ASG", ())
                if cur.t != "ASG":
                    return None
                out = self.fork(st, c, UNIT)
                return out if self.put(eng, out[0][1], a[0], mk("ASG", cur.a[0] + (t,))) else None
            if n == "is_empty" and a and unref(eng, st, a[0]).t == "ASG":
                return [(INT(int(not unref(eng, st, a[0]).a[0])), st)]
            if n in ("default", "new") and c.dty["s"].endswith("types::Assignment"):
                return [(mk("ASG", ()), st)]
            return None
        if n == "lines" and len(a) == 1:
            return [(lists.seq([Ok(mk("STR", x)) if x is not None else Err(mk("IOERR")) for x in self.lines]), st)]
        t = text(eng, st, a[0]) if a else None
        if t is not None:
            q = text(eng, st, a[1]) if len(a) > 1 else None
            if q is None and len(a) > 1:
                ch = unref(eng, st, a[1])
                q = chr(ch.a[0]) if ch.t == "INT" and c.argt[1]["s"] == "char" else None
            if n in ("starts_with", "ends_with", "contains") and q is not None:
                return [(INT(int({"starts_with": t.startswith, "ends_with": t.endswith, "contains": t.__contains__}[n](q))), st)]
            if n in ("eq", "ne") and q is not None:
                return [(INT(int((t == q) == (n == "eq"))), st)]
            if n == "is_empty":
                return [(INT(int(not t)), st)]
            if n == "len":
                return [(INT(len(t)), st)]
            if n in ("trim", "trim_start", "trim_end"):
                return [(mk("STR", {"trim": t.strip(), "trim_start": t.lstrip(), "trim_end": t.rstrip()}[n]), st)]
            if n in ("as_str", "deref", "as_ref", "to_string", "to_owned", "clone", "borrow", "into", "from"):
                return [(mk("STR", t), st)]
            if n == "strip_prefix" and q is not None:
                return [(Some(mk("STR", t[len(q):])) if t.startswith(q) else NONE, st)]
            if n == "split_once" and q is not None:
                return [(Some(mk("TUP", tuple(mk("STR", y) for y in t.split(q, 1)))) if q in t else NONE, st)]
            if n in ("split_whitespace", "split_ascii_whitespace"):
                return [(lists.seq([mk("STR", y) for y in t.split()]), st)]
            if n == "chars":
                return [(lists.seq([INT(ord(y)) for y in t]), st)]
            if n in ("index", "get") and len(a) == 2:
                v = unref(eng, st, a[1])
                if v.t == "ADT" and last(v.a[0]) in ("RangeFrom", "RangeTo", "Range") and all(y.t == "INT" for y in v.a[3]):
                    k = last(v.a[0])
                    lo = v.a[3][0].a[0] if k != "RangeTo" else 0
                    hi = v.a[3][-1].a[0] if k != "RangeFrom" else len(t)
                    if not 0 <= lo <= hi <= len(t):
                        return [] if n == "index" else [(NONE, st)]
                    w = mk("STR", t[lo:hi])
                    return [(w if n == "index" else Some(w), st)]
        return super().on_call(eng, st, c)


SLINES = {"s SATISFIABLE": "Sat", "s UNSATISFIABLE": "Unsat", "s UNKNOWN": "Unknown", "s INDETERMINATE": "Unknown", "s  UNSATISFIABLE": "Unsat", "s OPTIMUM": None, "s ": None}
VLINES = ("v 1 -2", "v 3 0")
OTHER = ("c s SATISFIABLE", "c v 1", "o 3", "")


def outputs():
    one = list(SLINES) + list(VLINES) + list(OTHER) + [None]
    for k in range(3):
        yield from itertools.product(one, repeat=k)
    for s in SLINES:
        for v, w in ((VLINES[0], VLINES[1]), (VLINES[1], VLINES[0])):
            yield from ((s, v, w), (v, s, w), (v, w, s), (v, w, s, OTHER[0]), (s, OTHER[1], v, OTHER[3], w), (v, s, w, None))


def expected(lines):
    """the outcomes allowed: {"Sat", "Unsat", "Unknown", "Err"}"""
    ss = [(i, SLINES[x]) for i, x in enumerate(lines) if x in SLINES]
    if not ss:
        return {"Err"}
    fail = lines.index(None) if None in lines else None
    if len(ss) > 1:
        # several solution lines: the first bad one is an error, otherwise any of them
        return {"Err"} | {x for _, x in ss if x and (x != "Sat" or any(y in VLINES for y in lines) and fail is None)}
    i, k = ss[0]
    if k is None:
        return {"Err"}
    if fail is not None:
        return {"Err"} if fail < i or k == "Sat" else {"Err", k}
    if k == "Sat":
        return {"Sat"} if any(y in VLINES for y in lines) else {"Err"}
    return {k}


def parsing(F, r):
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["k"] == "closure" or f["nargs"] != 1 or not OUTRES.match(f["tys"][f["locals"][0]]["s"]) or not f["pub"] or "fio" not in f["p"]:
            continue
        bad, und, cnt = {}, None, 0
        for lines in outputs():
            x = Parse(F, lines)
            e = Engine(F, x)
            try:
                e.run(k, ((), ()), args=[mk("ARG", "reader")])
            except Budget as z:
                und = str(z)[:60]
                continue
            r.analysed |= set(e.analysed)
            want = expected(lines)
            shown = "the lines " + ", ".join("`%s`" % y if y is not None else "<read error>" for y in lines) if lines else "no output"
            if not x.ends:
                bad.setdefault("panics", "cannot return for %s" % shown)
            for ret, st, _ in x.ends:
                if any(opaque_fact(t) for t in st.facts) or ret.t != "ADT" or ret.a[2] not in ("Ok", "Err"):
                    und = "a path depends on something that is not followed"
                    continue
                cnt += 1
                if ret.a[2] == "Err":
                    if "Err" not in want and not st.obs[1]:
                        bad.setdefault("refused", "reports an error for %s" % shown)
                    continue
                o = ret.a[3][0]
                if o.t != "ADT":
                    und = "the result is not followed"
                    continue
                if st.obs[1]:
                    bad.setdefault("error", "gives a result for %s although a value line could not be read" % shown)
                elif o.a[2] not in want:
                    bad.setdefault("trusted", "says %s for %s" % (o.a[2], shown))
                elif o.a[2] == "Sat":
                    v = o.a[3][0]
                    if v.t != "ASG":
                        und = "the assignment is not followed"
                    elif v.a[0] != tuple(y for y in lines if y in VLINES):
                        bad.setdefault("values", "the assignment for %s is not made of all value lines" % shown)
        for key, m in sorted(bad.items()):
            r.bad("%s:%s" % (f["name"], key), "%s %s" % (f["p"], m), "%s:%s" % tuple(f["sp"][:2]))
        if not bad:
            if und:
                r.undec("%s: %s" % (f["p"], und))
            elif cnt:
                r.ok("parser", f["p"])


class Run(Ext):
    def on_call(self, eng, st, c):
        f = eng.F.fns.get(c.key)
        n = c.name or ""
        if f is not None and f["k"] != "closure" and OUTRES.match(f["tys"][f["locals"][0]]["s"]):
            return self.fork(st, c, mk("OUTV", CC.deep(eng, st, c.args[0])), "run", CC.deep(eng, st, c.args[0]))
        if f is not None and n in ("result", "state") and len(c.args) == 1 and unref(eng, st, c.args[0]).t == "OUTV":
            return [(mk("RESULT", unref(eng, st, c.args[0])), st)]
        if n == "add_clause" and len(c.args) == 2 and unref(eng, st, c.args[0]) == CNF:
            self.ev(st, "add", CC.deep(eng, st, c.args[1]))
            return [(UNIT, st)]
        if f is not None and n in ("lit_value", "var_value") and len(c.args) == 2:
            return [(mk("VALUE", CC.deep(eng, st, c.args[0]), CC.deep(eng, st, c.args[1])), st)]
        if n == "new" and c.dty["s"].startswith("alloc::boxed::Box<"):
            return [(mk("BOXED", c.args[0]), st)]
        if n in ("truncate",) and len(c.args) == 2 and f is not None:
            return [(mk("TRUNC", CC.deep(eng, st, c.args[0]), CC.deep(eng, st, c.args[1])), st)]
        return super().on_call(eng, st, c)


def solver(F, state):
    names = [x[0] for x in F.adts[MOD + "Solver"]["vs"][0][2]]
    vals = {"signature": mk("ARG", "sig"), "state": state}
    return ADT(MOD + "Solver", 0, "Solver", tuple(vals[x] for x in names)) if all(x in vals for x in names) else None


def methods(F, r):
    if not {MOD + "Solver", MOD + "SolverState", OUT} <= set(F.adts):
        return
    state = MOD + "SolverState"
    cfg = next(iter(configs(F)), None)
    if cfg is None:
        return
    box = mk("M", mk("ARG", "box"))
    pre = ADT(state, 0, "Pre", (mk("REF", box, ()),))
    outs = [ADT(OUT, i, v[0], tuple(mk("ARG", "sol") for _ in v[2])) for i, v in enumerate(F.adts[OUT]["vs"])]
    todo = [("Pre", pre)] + [(o.a[2], ADT(state, 1, "Post", (o,))) for o in outs]
    for k, f in sorted(F.fns.items()):
        if f["crate"] != "rustsat.lib" or f["name"] not in ("solve", "add_clause", "lit_val", "solution") or not re.match(r"^<solvers::external::Solver as ", f["p"]):
            continue
        bad, und, cnt = {}, None, 0
        for nm, stv in todo:
            sv = solver(F, stv)
            if sv is None:
                continue
            x = Run(F)
            e = Engine(F, x)
            root = mk("M", mk("ARG", "self"))
            x.root = root
            lits = (mk("ARG", "l0"), mk("ARG", "l1"))
            a = [mk("REF", root, ())] + [{"add_clause": ADT("rustsat::types::constraints::Clause", 0, "Clause", (mk("LIST", lits),)), "lit_val": mk("ARG", "lit"), "solution": mk("ARG", "high")}.get(f["name"])] * (f["nargs"] - 1)
            try:
                e.run(k, ((), ()), args=a, store={root: sv, box: cfg[1]})
            except Budget as z:
                und = str(z)[:60]
                continue
            r.analysed |= set(e.analysed)
            for ret, st, own in x.ends:
                if ret.t != "ADT" or ret.a[2] not in ("Ok", "Err") or own.t != "ADT":
                    und = "a return value is not followed"
                    continue
                cnt += 1
                ok = ret.a[2] == "Ok"
                new = own.a[3][[z[0] for z in F.adts[MOD + "Solver"]["vs"][0][2]].index("state")]
                if ok and st.obs[1]:
                    bad.setdefault("error", "succeeds although %s failed" % st.obs[1][0])
                elif ok and f["name"] in ("solve", "add_clause") and nm != "Pre":
                    bad.setdefault("again", "succeeds after the solver has been run")
                elif ok and f["name"] in ("lit_val", "solution") and nm != "Sat":
                    bad.setdefault("unsolved", "gives values in state %s" % nm)
                elif ok and f["name"] in ("lit_val", "solution") and not any(t == mk("ARG", "sol") for t in subterms(ret)):
                    bad.setdefault("values", "gives values that are not those of the solution parsed")
                elif not ok and f["name"] in ("lit_val", "solution") and nm == "Sat" and not st.obs[1]:
                    bad.setdefault("refuses", "gives no values although there is a solution")
                elif not ok and f["name"] == "add_clause" and nm == "Pre":
                    bad.setdefault("refuses", "refuses a clause before the solver has been run")
                elif f["name"] == "solve" and nm == "Pre":
                    evs = [z for z in st.obs[0] if z[0] == "run"]
                    out = mk("OUTV", cfg[1])
                    if not evs and ok:
                        bad.setdefault("no-run", "gives a result without running the external solver")
                    elif ok and ret.a[3][0] != mk("RESULT", out):
                        if ret.a[3][0].t in ("RESULT", "ADT", "ARG"):
                            bad.setdefault("result", "gives another result than the one parsed")
                        else:
                            und = "the result is not followed"
                    elif ok and not (new.t == "ADT" and new.a[2] == "Post" and new.a[3][0] == out):
                        bad.setdefault("state", "does not keep what the external solver answered")
                    elif not ok and new.t == "ADT" and new.a[2] == "Post" and new.a[3][0].t == "ADT" and new.a[3][0].a[2] != "Unknown":
                        bad.setdefault("claims", "claims %s after a failed run" % new.a[3][0].a[2])
                elif ok and f["name"] == "add_clause":
                    adds = [z[1] for z in st.obs[0] if z[0] == "add"]
                    if adds != [a[1]]:
                        bad.setdefault("clause", "does not add the clause to the instance")
                    else:
                        top = known(F, eng_read(e, st, box), lits, st)
                        if top == "":
                            und = "the number of variables is not followed"
                        elif top:
                            bad.setdefault("vars", top)
        for key, m in sorted(bad.items()):
            r.bad("Solver::%s:%s" % (f["name"], key), "%s %s" % (f["p"], m), "%s:%s" % tuple(f["sp"][:2]))
        if not bad:
            if und:
                r.undec("%s: %s" % (f["p"], und))
            elif cnt:
                r.ok("method", f["p"])


def eng_read(eng, st, root):
    return CC.deep(eng, st, eng.read(st, root, ()))


def known(F, pre, lits, st):
    """the number of variables after adding a clause over lits, for some numbers"""
    names = [x[0] for x in F.adts[MOD + "SolverPre"]["vs"][0][2]]
    t = pre.a[3][names.index("n_vars")] if pre.t == "ADT" else None
    if t is None:
        return None
    for old, a, b in itertools.product((0, 1, 2, 5), (0, 1, 4, 7), (0, 3, 6)):
        env = {NV: old, mk("FLD", lits[0], "lidx"): a, mk("FLD", lits[1], "lidx"): b}
        for x in [z for q in (t, *st.facts) for z in subterms(q)]:
            if x.t == "FLD" and x.a[0] in lits:
                env[x] = (a, b)[lits.index(x.a[0])]
        try:
            y = feasible({q: v for q, v in st.facts.items() if not any(z.t == "REF" for z in subterms(q))}, env)
            if y is False:
                continue
            got = ev(t, env)
        except (Unknown, Underflow):
            return ""
        want = max(old, (a >> 1) + 1, (b >> 1) + 1)
        if y and got != want:
            return "makes the number of variables %d instead of %d" % (got, want)
    return None


def answers(F, r):
    """what an answer is translated to"""
    want = {"Sat": "Sat", "Unsat": "Unsat", "Unknown": "Interrupted"}
    wstate = {"Sat": "Sat", "Unsat": "Unsat", "Unknown": "Unknown"}
    for k, f in sorted(F.fns.items()):
        m = re.match(r"^(?:rustsat::)?instances::fio::SolverOutput::(\w+)$", f["p"])
        if not m or f["crate"] != "rustsat.lib" or f["nargs"] != 1:
            continue
        ret = f["tys"][f["locals"][0]]["s"]
        table = want if ret.endswith("solvers::SolverResult") else wstate if ret.endswith("solvers::SolverState") else None
        if table is None:
            continue
        bad = und = None
        for i, v in enumerate(F.adts[OUT]["vs"]):
            x = Ext(F)
            e = Engine(F, x)
            root = mk("M", mk("ARG", "self"))
            val = ADT(OUT, i, v[0], tuple(mk("ARG", "sol") for _ in v[2]))
            byref = f["tys"][f["locals"][1]]["k"] in ("ref", "ptr")
            try:
                e.run(k, ((), ()), args=[mk("REF", root, ()) if byref else val], store={root: val})
            except Budget as z:
                und = str(z)[:60]
                continue
            r.analysed |= set(e.analysed)
            for res, st, _ in x.ends:
                if res.t != "ADT":
                    und = "the result is not followed"
                elif v[0] in table and res.a[2] != table[v[0]]:
                    bad = "says %s for an answer that is %s" % (res.a[2], v[0])
        if bad:
            r.bad("SolverOutput::%s" % m[1], "%s %s" % (f["p"], bad), "%s:%s" % tuple(f["sp"][:2]))
        elif und:
            r.undec("%s: %s" % (f["p"], und))
        else:
            r.ok("answer", f["p"])


def x02(F, r):
    runs(F, r)
    commands(F, r)
    parsing(F, r)
    methods(F, r)
    answers(F, r)
    r.rules += [
        "run: on every path of the function that runs an external solver that returns a result, for each way of passing the instance and the output, the events are: the instance (the clauses added, the "
        "number of variables) is written completely to the file named to the process or to its input, which is closed before the process is waited for; the process is started with the given program, "
        "arguments, environment and directory; its output is read to the end; it is waited for; its exit code is 0, 10 or 20; a temporary file outlives the process; the result is what its output was parsed to; no step failed",
        "command: adding the path keeps program, arguments and their order, environment and directory",
        "parser: for representative outputs (lists of up to four lines, read errors included) every path gives the only result the lines allow",
        "method: solving, adding clauses and reading values of the external solver in each of its states",
    ]
    return {"level": "other", "explanation":
            "Typestate over all MIR paths of the functions that run an external solver, forking on the outcome of every fallible step; the parser of solver output is followed for every list of up to two (some of up to four) "
            "representative lines. What the process does is not modelled."}


CHECKS = {"X02": x02}
TECH = {"X02": ("typestate of process, instance file and output over MIR paths; abstract interpretation of the output parser over representative lines", "std::process and tempfile as specified")}
