"""What a check prints and writes: verdicts, replay files, evidence, known findings."""
import json
import os
import shutil
import sys
import time

import lib

MAX_SHOWN = 10


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.wd = os.path.join(lib.WORK, prop)
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.detail = {}
        self.assumptions = []
        self.viol = []          # (summary, replay object)
        self.findings = []      # summaries of known findings seen
        self.exhaustive = None
        self.known = load_known(prop)
        self.bins = {}

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, r):
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.detail.setdefault("models", []).append({k: r[k] for k in ("config", "states", "transitions", "secs")})

    def validated(self, name, st):
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.traces += st["traces"]
        d = self.detail.setdefault("traces", {})
        d[name] = d.get(name, 0) + st["traces"]

    def note(self, **kw):
        self.detail.update(kw)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, summary, replay, key=None):
        """key: identifies the failing input for the known findings file."""
        if key is not None and key in self.known:
            if key not in self.findings:
                self.findings.append(key)
            return
        self.viol.append((summary, replay))

    def finish(self):
        for k in self.findings:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]))
        rd = os.path.join(lib.VERIF, ".work", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (s, rep) in enumerate(self.viol):
            path = os.path.join(rd, "%s-%d.json" % (self.prop, i))
            if i < 200:
                with open(path, "w") as f:
                    json.dump(dict(rep, property=self.prop, summary=s, tier=self.tier, seed=self.seed), f, indent=1)
            if i < MAX_SHOWN:
                print("# " + s.replace("\n", "\\n")[:400])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if len(self.viol) > MAX_SHOWN:
            print("# ... %d violations in total" % len(self.viol))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.detail)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.viol)}
        d = os.path.join(lib.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d states, %d transitions, %d traces, %.1f s, %d violations" %
              (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0, len(self.viol)))
        sys.stdout.flush()
        return 1 if self.viol else 0


def load_known(prop):
    """known_findings.txt: lines `finding: property=<id> key=<key> <what fails>`; `fixed:` lines suppress
    nothing."""
    out = {}
    p = os.path.join(lib.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            w = l.strip().split(" ", 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                out[w[2][4:]] = w[3]
    return out
