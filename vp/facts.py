"""Builds and loads the MIR facts of /repo's current working tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
EXPECTED = [
    "rustsat.lib", "rustsat_batsat.lib", "rustsat_cadical.lib", "rustsat_capi.lib",
    "rustsat_codegen.bin", "rustsat_glucose.lib", "rustsat_ipasir.lib", "rustsat_kissat.lib",
    "rustsat_minisat.lib", "rustsat_tools.lib", "pigeons.lib",
    "check_solution.bin", "cnf2opb.bin", "encodings.bin", "enumerator.bin", "gbmosplit.bin",
    "mcnf2opb.bin", "mo2ilp.bin", "opb2cnf.bin", "opb2mcnf.bin", "opb2wcnf.bin",
    "propagator.bin", "shuffledimacs.bin", "wcnf2opb.bin",
]


class AnalysisError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTFLAGS", "CFLAGS", "CXXFLAGS",
              "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTC"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    return e


def run(cmd, cwd, e, what, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise AnalysisError(f"{what} failed with exit code {p.returncode}")
    return p.stdout


def repo_files():
    p = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    if p.returncode == 0 and p.stdout:
        fs = p.stdout.decode().split("\0")
        return sorted({f for f in fs if f and os.path.isfile(os.path.join(REPO, f))})
    out = []
    for r, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in (".git", "target")]
        for f in fs:
            out.append(os.path.relpath(os.path.join(r, f), REPO))
    return sorted(out)


PKGS = ["batsat", "cadical", "capi", "codegen", "glucose", "ipasir", "kissat", "minisat",
        "pigeons", "pyapi", "solvertests", "tools"]


def hashes():
    """(hash of everything, hash per package of what its build script reads)"""
    tot = hashlib.sha256()
    per = {}
    for f in repo_files():
        top = f.split("/")[0]
        if top in ("data", "docs", ".github"):
            continue
        try:
            with open(os.path.join(REPO, f), "rb") as h:
                d = hashlib.sha256(h.read()).digest()
        except OSError:
            continue
        tot.update(f.encode() + b"\0" + d)
        if not f.endswith(".rs") or f.endswith("build.rs"):
            per.setdefault(top if top in PKGS else "rustsat", hashlib.sha256()).update(
                f.encode() + b"\0" + d)
    for s in ("driver/src/main.rs",):
        with open(os.path.join(VERIF, s), "rb") as h:
            tot.update(h.read())
    return tot.hexdigest(), {k: v.hexdigest() for k, v in per.items()}


def build_driver(e):
    ddir = os.path.join(VERIF, "driver")
    tdir = os.path.join(CACHE, "driver")
    run(["cargo", "build", "--release", "--offline", "--target-dir", tdir], ddir, e,
        "building the MIR driver")
    return os.path.join(tdir, "release", "mirfacts")


def ensure(again=2):
    """Brings the facts in step with /repo's working tree; returns the facts directory."""
    os.makedirs(CACHE, exist_ok=True)
    fdir = os.path.join(CACHE, "facts")
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tot, per = hashes()
        stamp = os.path.join(CACHE, "stamp.json")
        old = {}
        if os.path.exists(stamp):
            try:
                old = json.load(open(stamp))
            except ValueError:
                old = {}
        if old.get("tot") == tot and all(
                os.path.exists(os.path.join(fdir, x + ".json")) for x in EXPECTED):
            return fdir
        e = env()
        drv = build_driver(e)
        sysroot = run(["rustc", "--print", "sysroot"], VERIF, e, "rustc").strip().split("\n")[-1]
        tdir = os.path.join(CACHE, "target")
        bd = os.path.join(tdir, "debug", "build")
        oldper = old.get("per", {})
        changed = {k for k in set(per) | set(oldper) if per.get(k) != oldper.get(k)}
        # cargo decides freshness by mtime and would silently skip the wrapper: drop the units
        # of all workspace crates (and, where their inputs changed, of their build scripts)
        if os.path.isdir(os.path.join(tdir, "debug")) and not os.path.isdir(bd):
            shutil.rmtree(tdir)
        if os.path.isdir(bd):
            for base in os.listdir(bd):
                if not (base == "pigeons" or base == "rustsat" or base.startswith("rustsat-")):
                    continue
                pk = base[len("rustsat-"):] if base.startswith("rustsat-") else base
                for h in os.listdir(os.path.join(bd, base)):
                    d = os.path.join(bd, base, h)
                    f = os.path.join(d, "fingerprint")
                    names = os.listdir(f) if os.path.isdir(f) else []
                    script = any("build-script" in n for n in names)
                    if not script or pk in changed or not oldper:
                        shutil.rmtree(d)
        if os.path.isdir(fdir):
            shutil.rmtree(fdir)
        os.makedirs(fdir)
        e2 = dict(e)
        e2["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        e2["MIRFACTS_OUT"] = fdir
        e2["RUSTC_WORKSPACE_WRAPPER"] = drv
        run(["cargo", "check", "--target-dir", tdir, "--workspace", "--exclude", "rustsat-pyapi",
             "--features=_test", "--lib", "--bins", "--offline", "--locked", "-q"], REPO, e2,
            "cargo check of /repo")
        miss = [x for x in EXPECTED if not os.path.exists(os.path.join(fdir, x + ".json"))]
        if miss:
            raise AnalysisError(f"no facts for {miss}")
        tot2, per2 = hashes()
        if tot2 != tot:
            if not again:
                raise AnalysisError("/repo changed while it was being analysed")
            fcntl.flock(lk, fcntl.LOCK_UN)
            return ensure(again - 1)
        with open(stamp, "w") as h:
            json.dump({"tot": tot, "per": per}, h)
    return fdir


class Facts:
    """All crates' facts, with global indexes."""

    def __init__(self, crates=None):
        self.dir = ensure()
        self.fns = {}
        self.adts = {}
        self.impls = {}
        self.foreign = {}
        self.traits = {}
        self.types = {}
        for f in sorted(os.listdir(self.dir)):
            if not f.endswith(".json"):
                continue
            name = f[:-5]
            if crates is not None and name not in crates:
                continue
            with open(os.path.join(self.dir, f)) as h:
                j = json.load(h)
            tys = j["types"]
            self.types[name] = tys
            for fn in j["fns"]:
                fn["crate"] = name
                fn["tys"] = tys
                self.fns[fn["key"]] = fn
            for a in j["adts"]:
                a["crate"] = name
                a["tys"] = tys
                self.adts[a["key"]] = a
            for a in j["impls"]:
                a["crate"] = name
                a["tys"] = tys
                self.impls[a["key"]] = a
            for a in j["foreign"]:
                a["crate"] = name
                a["tys"] = tys
                self.foreign[a["key"]] = a
            for a in j["traits"]:
                a["crate"] = name
                self.traits[a["p"]] = a
        # trait impl index: (trait path, self adt key) -> {method name: fn key}
        self.timpl = {}
        for k, fn in self.fns.items():
            if "trait" in fn and fn["name"]:
                st = fn["tys"][fn["self"]]
                self.timpl.setdefault((fn["trait"], st.get("d") or st["s"]), {}).setdefault(
                    fn["name"], []).append(k)
        self.closures_of = {}
        for k, fn in self.fns.items():
            if fn["k"] == "closure":
                self.closures_of.setdefault(fn["parent"], []).append(k)

    def find(self, suffix, crate=None):
        """functions whose pretty path is `suffix` or ends with ::suffix"""
        r = [f for f in self.fns.values()
             if (f["p"] == suffix or f["p"].endswith("::" + suffix))
             and (crate is None or f["crate"] == crate)]
        return r


if __name__ == "__main__":
    import time
    t = time.time()
    F = Facts()
    print(len(F.fns), "functions", len(F.adts), "adts", len(F.impls), "impls", len(F.foreign),
          "foreign", round(time.time() - t, 1), "s")
