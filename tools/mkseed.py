"""Makes /verif/seeded/<id> from a spec (development aid).
usage: mkseed.py SPEC…    spec: python file defining ID PROP NEEDS BREAKS EDITS=[(file,old,new)] DEPS MAIN"""
import json, os, subprocess, sys, runpy

V = "/verif/seeded"
W = "/tmp/scr/srepo"
DEMO = '''#!/bin/bash
# builds main.rs (next to this file) against the repository in the working directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-2026-07-07-x86_64-unknown-linux-gnu}
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS CFLAGS CXXFLAGS
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/main.rs" "$scratch/src/main.rs"
sed "s#@REPO@#$repo#g" "$here/demo.toml" > "$scratch/Cargo.toml"
cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cd "$scratch" || exit 3
CARGO_TARGET_DIR="$scratch/target" cargo build -q --offline || exit 3
timeout 120 "$scratch/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    if not os.path.isdir(W):
        sh(f"git -C /repo worktree prune; git clone -q /repo {W}")
    sh(f"git -C {W} fetch -q origin && git -C {W} reset -q --hard origin/HEAD && git -C {W} checkout -q -- .")
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec)
        d = f"{V}/{s['ID']}"
        os.makedirs(d, exist_ok=True)
        sh(f"git -C {W} checkout -q -- .")
        for f, a, b in s["EDITS"]:
            p = f"{W}/{f}"
            t = open(p).read()
            assert t.count(a) == 1, (s["ID"], f, t.count(a), a[:60])
            open(p, "w").write(t.replace(a, b))
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {W} diff").stdout)
        open(f"{d}/demo.sh", "w").write(s.get("DEMO", DEMO))
        os.chmod(f"{d}/demo.sh", 0o755)
        if "MAIN" in s:
            deps = "\n".join(s["DEPS"])
            open(f"{d}/demo.toml", "w").write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n{deps}\n')
            open(f"{d}/main.rs", "w").write(s["MAIN"].lstrip("\n"))
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
        p = sh(f"cd {W} && bash {d}/demo.sh")
        print(s["ID"], "patched demo rc", p.returncode, p.stdout[-300:].replace("\n", " | "))
        sh(f"git -C {W} checkout -q -- .")
        p = sh(f"cd /repo && bash {d}/demo.sh")
        print(s["ID"], "clean   demo rc", p.returncode, p.stdout[-300:].replace("\n", " | "), flush=True)
        sh(f"cd {W} && git apply {d}/patch.diff")
        p = sh(f"cd /verif && VERIF_REPO={W} VERIF_CACHE=/tmp/scr/scache python3 -m vp {s['PROP']}") if s["PROP"][0] != "N" else None
        if p:
            print(s["ID"], "check rc", p.returncode, p.stdout[-400:].replace("\n", " | "), flush=True)
        sh(f"git -C {W} checkout -q -- .")


main()
