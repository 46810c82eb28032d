"""Readable dump of a function's facts: python3 -m vp.show SUFFIX"""
import sys
from vp.facts import Facts

def pl(p):
    s = f"_{p[0]}"
    for e in p[1]:
        if e == "*": s = f"(*{s})"
        elif e[0] == "f": s += f".{e[2]}"
        elif e[0] == "v": s += f" as {e[2]}"
        elif e[0] == "i": s += f"[_{e[1]}]"
        else: s += str(e)
    return s

def op(o):
    if o[0] in ("cp", "mv"): return pl(o[1])
    if o[0] == "c":
        if o[2][0] == "fn": return "fn " + o[2][1]["p"]
        return f"const {o[2]}" + (f" ({o[3]})" if o[3] else "")
    return str(o)

def rv(r):
    k = r[0]
    if k == "use": return op(r[1])
    if k in ("ref", "addr"): return ("&mut " if r[1] else "&") + pl(r[2])
    if k == "bin": return f"{r[1]}({op(r[2])}, {op(r[3])})"
    if k == "un": return f"{r[1]}({op(r[2])})"
    if k == "cast": return f"{op(r[2])} as[{r[1]}] #{r[3]}"
    if k == "discr": return f"discr({pl(r[1])})"
    if k == "agg": return f"{r[1]}({', '.join(map(op, r[2]))})"
    return str(r)

def show(fn):
    print("fn", fn["p"], fn["key"], fn["sp"], "crate", fn["crate"])
    for i, l in enumerate(fn["locals"]):
        print(f"   _{i}: {fn['tys'][l]['s']}")
    print("   vars", [(v[0], pl(v[1])) for v in fn["vars"]])
    for i, b in enumerate(fn["blocks"]):
        if b.get("cl"): continue
        print(f" bb{i}:")
        for s in b["s"]:
            if s[0] == "=": print("    ", pl(s[1]), "=", rv(s[2]))
            elif s[0] != "dead": print("    ", s)
        t = b["t"]
        if t[0] == "call":
            f = t[1]
            n = f.get("rp") or f.get("p") or ("ptr " + op(f["ptr"]))
            print("    ", pl(t[3]), "=", n, "(", ", ".join(map(op, t[2])), ") ->", t[4], b["sp"][1:])
        elif t[0] == "switch": print("     switch", op(t[1]), t[2], "else", t[3])
        elif t[0] == "drop": print("     drop", pl(t[1]), "->", t[2])
        else: print("    ", t, b["sp"][1:])

if __name__ == "__main__":
    F = Facts()
    for s in sys.argv[1:]:
        for fn in F.fns.values():
            if fn["p"].endswith(s) or fn["key"].endswith(s): show(fn)
