"""Event traces of functions: one record per path, with foreign calls, drops and writes through self in order."""
from .mir import Engine, Client, Budget, mk, last

NOINL = ("types::Lit::", "types::Var::", "utils::Timer", "from_raw_parts_maybe_null")


class Ev(tuple):
    """(kind, name, args, where)"""


class Trace(Client):
    max_states = 20000

    def __init__(self, F, fn, crates, interesting=None, noinline=NOINL, fields=True):
        self.F = F
        self.fn = fn
        self.crates = set(crates)
        self.interesting = interesting
        self.noinl = noinline
        self.exits = []
        self.diverge = []
        self.fields = fields
        self.selfroot = mk("M", mk("ARG", "self"))

    def inline(self, eng, key, fn, call, st):
        if any(x in fn["p"] for x in self.noinl):
            return False
        return fn["crate"] in self.crates

    def add(self, st, ev):
        o = st.obs
        if o[-8:].count(ev) >= 2:
            return
        st.obs = o + (ev,)

    def on_call(self, eng, st, c):
        name = None
        if c.key in self.F.foreign:
            name = last(c.p)
        elif self.interesting and self.interesting(c):
            name = c.p
        if name is None:
            return None
        args = tuple(c.args)
        v = eng.cap(mk("CALL", c.site, c.rp, *args))
        self.add(st, ("call", name, args, c.where, v, frozenset((t, x[0], x[1] if x[0] == "=" else frozenset(x[1])) for t, x in st.facts.items())))
        return [(v, st)] if c.key in self.F.foreign else None

    def on_write(self, eng, st, root, path, val, where):
        if self.fields and root is self.selfroot:
            self.add(st, ("write", path, val))

    def on_diverge(self, eng, st, call):
        self.diverge.append((st.obs, call.where, call.p))

    def on_return(self, eng, st, fn, ret, depth):
        if depth == 0:
            self.exits.append((ret, st.copy()))


def trace(F, fn, crates=None, **kw):
    t = Trace(F, fn, crates or [fn["crate"]], **kw)
    e = Engine(F, t)
    try:
        e.run(fn["key"], ())
    except Budget:
        return None, e
    return t, e
