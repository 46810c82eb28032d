"""Runs checks against small textual mutants in a scratch copy of /repo (development aid; no check uses it).
usage: mutate.py [ID-PREFIX …]     mutants are in tools/mutants.txt"""
import os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/scr/mrepo"
C = "/tmp/scr/mcache"


def load():
    out, cur = [], None
    for l in open(os.path.join(V, "tools/mutants.txt")):
        l = l.rstrip("\n")
        if l.startswith("### "):
            i, props, f = l[4:].split(" ", 2)
            cur = {"id": i, "props": props.split(","), "edits": [[f, [], []]], "mode": None}
            out.append(cur)
        elif l.startswith("+++ "):
            cur["edits"].append([l[4:], [], []])
        elif l.startswith("<"):
            if cur["edits"][-1][2]:
                cur["edits"].append([cur["edits"][-1][0], [], []])
            cur["edits"][-1][1].append(l[1:])
        elif l.startswith(">"):
            cur["edits"][-1][2].append(l[1:])
    return out


def main():
    sel = sys.argv[1:]
    os.makedirs("/tmp/scr", exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude=target", "--exclude=.git", (os.environ.get("MUT_SRC") or "/repo") + "/", S + "/"], check=True) if shutil.which("rsync") else \
        subprocess.run(f"mkdir -p {S} && cd {os.environ.get('MUT_SRC') or '/repo'} && git ls-files -z | xargs -0 cp -a --parents -t {S}", shell=True, check=True)
    env = dict(os.environ, VERIF_REPO=S, VERIF_CACHE=C)
    for m in load():
        if sel and not any(m["id"].startswith(x) for x in sel):
            continue
        old = {}
        try:
            for f, a, b in m["edits"]:
                p = os.path.join(S, f)
                s = old.setdefault(p, open(p).read())
                s = open(p).read()
                a, b = "\n".join(a), "\n".join(b)
                if s.count(a) < 1:
                    print(m["id"], "STALE:", a[:60])
                    break
                open(p, "w").write(s.replace(a, b, 1))
            else:
                p = subprocess.run(["python3", "-m", "vp", *m["props"]], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                hits = [l for l in p.stdout.split("\n") if "  [" in l and l.startswith("  ")]
                got = [l.split("property=")[1].split()[0] for l in p.stdout.split("\n") if l.startswith("VIOLATION")]
                want = not m["id"].endswith("=")
                tag = "ok  " if bool(got) == want else "MISS" if want else "FALSE-ALARM"
                if "Traceback" in p.stdout or p.returncode not in (0, 1):
                    tag = "ERROR"
                    hits = p.stdout.split("\n")[-6:]
                print(tag, m["id"], got, (hits[0].strip()[:150] if hits else ""), flush=True)
                if tag == "ERROR":
                    print("\n".join(hits))
        finally:
            for p, s in old.items():
                open(p, "w").write(s)


main()
