"""Decides one property:  python3 dd/check.py ID

Exit 0 when every obligation of the property holds on /repo's current tree, exit 1 with a VIOLATION line otherwise.
"""
import json, os, re, sys, time, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dd.props import PROPS

EV = os.path.join(V, "evidence")

class Out:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.viol = []      # (key, construct, message)
        self.known = []
        self.cov = {}
        self.undecided = []
    def finish(self):
        os.makedirs(EV, exist_ok=True)
        kf = {}
        p = os.path.join(V, "known_findings.json")
        if os.path.exists(p):
            for e in json.load(open(p)):
                if e.get("property") == self.pid and e.get("status") == "known": kf[e["key"]] = e
        new = []
        for key, where, msg in self.viol:
            if key in kf: self.known.append((key, kf[key]["what"]))
            else: new.append((key, where, msg))
        rep = os.path.join(EV, self.pid + ".violations.txt")
        if new:
            with open(rep, "w") as fh:
                for key, where, msg in new: fh.write("%s\n  at %s\n  key %s\n\n" % (msg, where, key))
        elif os.path.exists(rep): os.remove(rep)
        tier = "thorough" if os.environ.get("DD_THOROUGH") == "1" else os.environ.get("VERIF_TIER", "quick")
        ev = {"property": self.pid, "tier": tier if tier in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
              "assumptions": ["rustc's MIR of the library crates is what runs",
                              "calls into the standard library, timely and columnar do what their names say",
                              "the reviewed reference in specs/ states the intended obligations"]}
        with open(os.path.join(EV, self.pid + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
        for key, what in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for key, where, msg in new[:12]: print("  %s\n    at %s" % (msg[:600], where))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        print("property=%s held: %s" % (self.pid, self.cov.get("explanation", "")[:300]))
        return 0

def main(pid):
    prop = next((p for p in PROPS if p["id"] == pid), None)
    if prop is None: print("unknown property", pid); return 2
    out = Out(pid)
    from dd import decide
    from dd.facts import FactsError
    try:
        decide.run(prop, out)
    except FactsError as e:
        print("the tree gave no facts to analyse: " + str(e)[:3000]); return 2
    except Exception:
        print("the analysis failed: " + traceback.format_exc()[-3000:]); return 2
    return out.finish()

if __name__ == "__main__":
    if "--thorough" in sys.argv: os.environ["DD_THOROUGH"] = "1"
    sys.exit(main(sys.argv[1]))
