"""Records the reviewed reference of every property from the current tree (development only).

    python3 -m dd.mkspec [ID ...]

The reference of a function is the list of its obligations: effects, guards, results and state changes.
"""
import json, os, re, sys
from dd import analyse, decide, names, select, units
from dd.props import PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def main(ids):
    kf = os.path.join(V, "specs", "known.json")
    P, T = analyse.load(None)
    known = analyse.visible_keys(P)
    json.dump([list(x) for x in known], open(kf, "w"))
    names.save(P)
    analyse.KNOWN = {tuple(x) for x in known}
    rec = select.recursive(P)
    sel = {p["id"]: select.chosen(p, T, rec) for p in PROPS}
    hs = {b["id"] for c in sel.values() for b in c.values()}
    r = analyse.run(sorted(hs))
    for p in PROPS:
        if ids and p["id"] not in ids: continue
        out = {}
        for k, b in sorted(sel[p["id"]].items()):
            st, items, weak, shape, secs, nev = r[b["id"]]
            if st != "ok":
                print(p["id"], "not analysable:", k, st); continue
            its = [i[:5] for i in items if decide.keep(i, decide.facet_of(p, b))]
            if decide.facet_of(p, b) and not its: continue
            out[k] = {"items": its, "weak": weak, "shape": shape}
        json.dump({"property": p["id"], "units": out}, open(os.path.join(V, "specs", p["id"] + ".json"), "w"), indent=0, sort_keys=True)
        print(p["id"], len(out), "functions", sum(len(u["items"]) for u in out.values()), "obligations")

if __name__ == "__main__": main(sys.argv[1:])
