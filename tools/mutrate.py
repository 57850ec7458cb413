"""Development: of the functions a mutation corpus changed, how many does the comparison flag?
mutrate.py FACTSDIR BASE.json CUR.json [-v]"""
import json, os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.argv, av = [sys.argv[0]], sys.argv
import importlib.util
from dd import decide, facts, analyse
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refac.py")).read().replace("\nmain()\n", "\n")
ns = {"__name__": "x", "__file__": os.path.abspath(__file__)}
exec(src, ns)
base = ns["basefacts"]()
fd, a, b = av[1], json.load(open(av[2])), json.load(open(av[3]))
hx = re.compile(r'[0-9a-f]{32}|[^ "]*\.rs:\d+:\d+: \d+:\d+')
def table(d):
    t = {}
    for f in sorted(os.listdir(d)):
        if not f.endswith(".lib.json"): continue
        for x in json.load(open(os.path.join(d, f)))["bodies"]:
            t.setdefault((f, re.sub(r"::\{closure.*", "", x["p"]), x.get("self", ""), x.get("trf", "")) if "clo" not in x else (f, re.sub(r"::\{closure.*", "", x["p"])), []).append(hx.sub("", ns["strip"](x)))
    return t
A, B = table(base), table(fd)
own = {k[1] for k in B if sorted(A.get(k, [])) != sorted(B[k])}
os.environ["DD_FACTS"] = fd
P, T = analyse.load({tuple(x) for x in json.load(open("/verif/specs/known.json"))})
print(len(own), "paths changed"); n = hit = und = 0
tot = 0
from dd import units
for k, body in {units.uid_full(x): x for x in T.values()}.items():
    if body["p"] not in own or k not in a or k not in b: continue
    if a[k][0] != "ok" or b[k][0] != "ok": continue
    n += 1
    u = lambda r: {"items": r[1], "weak": r[2], "shape": r[3]}
    v, m = decide.decide(u(a[k]), u(b[k]), None)
    if v == "differs": hit += 1
    else:
        if v == "reshaped": und += 1
        if "-v" in av: print("  MISS", v, k[:150])
print("%s: %d changed units, %d flagged, %d reshaped" % (av[1], n, hit, und))
if "-d" in av:
    print(list(own)[:10]); print([b["p"] for b in T.values()][:10])
