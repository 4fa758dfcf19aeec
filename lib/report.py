"""What every check shares: tier and seed, evidence, verdict lines, exit code."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def tlc(self, r):
        """Account for a TLC run."""
        self.add(states=r.states, transitions=r.generated)
        return r

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def violation(self, what, replay):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "replay": replay},
                      f, indent=1, default=str)
        self.violations.append((what, p))

    def known_finding(self, what):
        self.known.append(what)

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(p + ".tmp", p)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what.replace("\n", "\n  ")[:1500])
        self.log("covered", {k: v for k, v in self.cov.items() if k != "samples"})
        return 1 if self.violations else 0


def main(prop, fn):
    c = Check(prop)
    try:
        fn(c)
        rc = c.finish()
    except Exception:
        traceback.print_exc()
        if c.violations:
            # what was confirmed before the machinery failed stays reported
            rc = c.finish()
        else:
            rc = 2
    sys.stdout.flush()
    os._exit(rc)
