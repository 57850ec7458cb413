"""Development: source lines of the analysed functions that no evaluation reaches (blind spots of the engine)."""
import json, os, re, sys, collections
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, "/verif")
from dd import analyse, vg, units
known = {tuple(x) for x in json.load(open("/verif/specs/known.json"))}
P, T = analyse.load(known)
def one(h):
    b = P.bodies[h]; vg.reset(); vg.VISITED = set()
    try: u = vg.Unit(P, b, known=known)
    except Exception as e: return h, None, {}
    cfg = {}
    for i in {x for x, _ in vg.VISITED}:
        bb = P.bodies[i]
        live = u.cfg(bb)[5]
        cfg[i] = [x for x in live if not bb["bbs"][x]["c"]]
    return h, vg.VISITED, cfg
if __name__ == "__main__":
    rx = sys.argv[1] if len(sys.argv) > 1 else "."
    hs = set()
    for p in os.listdir("/verif/specs"):
        if re.match(r"C\d\d", p):
            for k in json.load(open("/verif/specs/" + p))["units"]:
                if k in T and re.search(rx, k): hs.add(T[k]["id"])
    vis = set(); live = {}
    with ProcessPoolExecutor(4) as ex:
        for h, v, cfg in ex.map(one, sorted(hs), chunksize=4):
            if v is None: print("FAIL", P.bodies[h]["p"]); continue
            vis |= v; live.update(cfg)
    out = collections.defaultdict(set)
    for i, bs in live.items():
        b = P.bodies[i]
        for x in bs:
            if (i, x) not in vis: out[(b["file"], b["p"])].add(b["bbs"][x]["l"])
    n = 0
    for (f, p), ls in sorted(out.items()):
        # a line some of whose blocks are reached is shown with a tilde
        reached = {P.bodies[i]["bbs"][x]["l"] for i, x in vis if P.bodies[i]["p"] == p}
        full = sorted(l for l in ls if l not in reached); part = sorted(l for l in ls if l in reached)
        if full or part: print(f, p[-60:], "UNREACHED", full, "PARTLY", part)
