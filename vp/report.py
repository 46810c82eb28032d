"""Common frame of every check: findings, counts, evidence, verdict and exit code."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.viol = {}
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.rules = []
        self.assumptions = []
        self.analysed = set()

    # a violated obligation.  key: stable identity (no line numbers)
    def bad(self, key, msg, where="", path=None):
        if key not in self.viol:
            self.viol[key] = {"key": key, "msg": msg, "where": where, "path": path or []}

    def ok(self, kind, what=None, n=1):
        """a discharged obligation of a kind"""
        self.counts[kind] = self.counts.get(kind, 0) + n
        if what is not None and len([s for s in self.samples if s[0] == kind]) < 6:
            self.samples.append((kind, str(what)))

    def floor(self, kind, n, what=""):
        """fail closed when fewer obligations of a kind were found than confirmed by hand"""
        got = self.counts.get(kind, 0)
        if got < n:
            self.bad(f"coverage:{kind}", f"only {got} of at least {n} {what or kind} were found: the "
                                         f"subject of the rule is gone or no longer recognisable")

    def undec(self, what):
        self.undecided.append(str(what))

    def finish(self, level="other", explanation="", trusted=()):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        known = {}
        kf = os.path.join(VERIF, "KNOWN_FINDINGS.json")
        if os.path.exists(kf):
            for e in json.load(open(kf))["findings"]:
                if e["property"] == self.pid and e["status"] == "known":
                    known[e["key"]] = e
        new = []
        for k, v in sorted(self.viol.items()):
            if k in known:
                print(f"KNOWN-FINDING: property={self.pid} {v['key']}: {v['msg']}")
            else:
                new.append(v)
        nob = sum(self.counts.values()) + len(self.viol)
        ev = {"property": self.pid, "tier": tier, "seed": seed, "level": level,
              "coverage": {
                  "explanation": explanation,
                  "rules": self.rules,
                  "obligations": nob,
                  "discharged": sum(self.counts.values()),
                  "instances": dict(sorted(self.counts.items())),
                  "functions_analysed": len(self.analysed),
                  "undecided": self.undecided[:40],
                  "samples": [f"{k}: {w}" for k, w in self.samples[:40]],
                  "known_findings": [k for k in self.viol if k in known],
              },
              "assumptions": list(self.assumptions),
              "violations": len(new), "wall_s": round(time.time() - self.t0, 2)}
        if level == "proof":
            ev["coverage"]["checker_cmd"] = f"python3 -m vp {self.pid}"
            ev["coverage"]["trusted_base"] = list(trusted)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
            h.write("\n")
        if not new:
            print(f"{self.pid}: held on {sum(self.counts.values())} obligations "
                  f"({', '.join(f'{k} {n}' for k, n in sorted(self.counts.items()))}), "
                  f"{len(self.analysed)} functions, {ev['wall_s']} s"
                  + (f"; undecided: {len(self.undecided)}" if self.undecided else ""))
            return 0
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, self.pid + ".txt")
        with open(rp, "w") as h:
            for v in new:
                h.write(f"{v['key']}\n  {v['where']}\n  {v['msg']}\n")
                for p in v["path"]:
                    h.write(f"    {p}\n")
        for v in new[:25]:
            print(f"  {v['where'] or '-'}: {v['msg']}  [{v['key']}]")
        if len(new) > 25:
            print(f"  … and {len(new) - 25} more, see {rp}")
        print(f"VIOLATION property={self.pid} replay=replay/{self.pid}.txt")
        return 1
