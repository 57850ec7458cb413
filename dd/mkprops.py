"""Writes properties.jsonl and MANIFEST.json from dd/props.py."""
import json, os
from dd.props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]} if p["state"] else {}),
                            "observe_at": p["observe"] or [p["files"][0]], "hook_needed": None}}) + "\n")
        for i, t, s, o, q, w, f, r in NOT_APPLICABLE:
            fh.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": o, "text": q}, "why_tests_cant": w,
                "anchors": {"files": f, "mechanism": [{"name": "spread over the listed files", "where": f[0]}], "hook_needed": None}}) + "\n")
    checks = []
    for p in PROPS:
        n = p["id"]
        checks.append({"property": n, "quick_cmd": "python3 dd/check.py %s" % n, "thorough_cmd": "python3 dd/check.py %s --thorough" % n,
            "evidence_file": "evidence/%s.json" % n,
            "technique": "static value-graph analysis of the compiler's MIR: per-function obligations (effects, guards, results) compared with a reviewed reference",
            "level": "other",
            "level_note": "Decides that every function carrying the property still performs the reviewed effects under the reviewed conditions with the reviewed values, up to a sound-by-construction normal form; "
                          "it does not prove the reviewed reference correct from first principles. Trusts rustc's MIR, the engine, and calls into the standard library, timely and columnar as named."})
    m = {"version": 1, "setup_cmd": "python3 dd/setup.py", "checks": checks,
         "not_applicable": [{"property": i, "reason": r} for i, t, s, o, q, w, f, r in NOT_APPLICABLE],
         "notes": "No hooks in /repo: the analysis reads the unmodified source through a rustc driver."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh: json.dump(m, fh, indent=1); fh.write("\n")

if __name__ == "__main__": main()
