#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
BASE = os.path.dirname(HERE)
sys.setrecursionlimit(10000)


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []      # {rule, where, what}
        self.findings = []
        self.coverage = {}
        self.samples = []
        self.rules = []
        self.obligations = 0
        self.assumptions = []

    def ob(self, n=1):
        self.obligations += n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, k, n=1):
        self.coverage[k] = self.coverage.get(k, 0) + n

    def bad(self, rule, where, what):
        self.violations.append({"rule": rule, "where": where, "what": what})

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)


def known(pid):
    try:
        k = json.load(open(f"{BASE}/known_findings.json"))
    except OSError:
        return []
    return [x for x in k.get("findings", []) if x["property"] == pid]


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--tier=thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    import registry
    mod, fn = registry.CHECKS[pid]
    rep = Report(pid)
    m = importlib.import_module(mod)
    try:
        getattr(m, fn)(rep, tier)
    except (Exception, SystemExit) as e:
        # what is analysed has a form that the check does not know
        traceback.print_exc()
        last = traceback.extract_tb(e.__traceback__)[-1]
        rep.bad("undecided", f"{os.path.basename(last.filename)}:{last.name}", f"{type(e).__name__}: {e}"[:600])
    kn = known(pid)
    real = []
    for v in rep.violations:
        hit = [k for k in kn if k["rule"] == v["rule"] and k["where"] == v["where"] and k["what"] == v["what"]]
        if hit:
            rep.findings.append(v)
        else:
            real.append(v)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": dict({
            "explanation": "Static decision on the type-checked program and kernel sources of /repo's current tree; "
                           + " ".join(rep.rules),
            "obligations": rep.obligations,
            "discharged": rep.obligations - len(rep.violations) if rep.obligations >= len(rep.violations) else 0,
            "samples": rep.samples,
        }, **rep.coverage),
        "assumptions": rep.assumptions or [
            "rustc's MIR and type checking; the transfer functions in engine/src/hooks*.rs for field, extension and circuit-builder primitives of plonky2/starky",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    os.makedirs(f"{BASE}/evidence", exist_ok=True)
    with open(f"{BASE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for v in rep.findings:
        print(f"KNOWN-FINDING: property={pid} {v['rule']}: {v['where']}: {v['what']}")
    if rep.obligations == 0:
        real.append({"rule": "non-vacuity", "where": pid, "what": "no obligation was generated"})
    if real:
        path = f"{BASE}/evidence/{pid}.violations.json"
        json.dump(real, open(path, "w"), indent=1)
        for v in real[:25]:
            print(f"  [{v['rule']}] {v['where']}: {str(v['what'])[:600]}")
        if len(real) > 25:
            print(f"  ... {len(real)-25} more in {path}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"OK property={pid} obligations={rep.obligations} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
