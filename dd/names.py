"""Names of fields, types and functions are not behaviour: those of the current tree are mapped back to those of the reference."""
import json, os, re
from dd import units
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(V, "specs", "names.json")

def fnkey(b):
    """Owner and name of a function (not of a trait implementation)."""
    return [b["crate"], b.get("dtr") or units.bare(b.get("self", "")) or "::".join(b["p"].split("::")[:-1]), b["n"]]
def fnsig(b): return [units.bare(l[0]) for l in b["locals"][:b["nargs"] + 1]]

def collect(prog):
    """The names of the tree: types with their fields, functions with their signatures."""
    adts = [[tag, a["p"], [[v["n"], [[f[0], f[1]] for f in v["fs"]]] for v in a["vs"]]] for (tag, _), a in sorted(prog.adts.items())]
    fns = sorted([fnkey(b) + [b["file"], fnsig(b)] for b in prog.bodies.values() if "clo" not in b and "tr" not in b and b["crate"].endswith("lib")], key=str)
    return {"adts": adts, "fns": fns}

def save(prog): json.dump(collect(prog), open(REF, "w"), indent=0)

def pair(gone, new, key):
    """Unambiguous pairs of what is gone and what is new with the same key."""
    a, b = {}, {}
    for x in gone: a.setdefault(key(x), []).append(x)
    for x in new: b.setdefault(key(x), []).append(x)
    return [(a[k][0], b[k][0]) for k in a if len(a[k]) == 1 and len(b.get(k, ())) == 1]

def renamed_types(ref, cur):
    """[(crate, current path, reference path)]"""
    r = {(t, p): vs for t, p, vs in ref["adts"]}; c = {(t, p): vs for t, p, vs in cur["adts"]}
    def shape(x):
        (t, p), vs = x
        own = p.split("::")[-1]
        return (t, "::".join(p.split("::")[:-1]), str([[v[0] if v[0] != own else "", [[f[0], re.sub(r"\b%s\b" % own, "@", f[1])] for f in v[1]]] for v in vs]))
    gone = [(k, r[k]) for k in r if k not in c]; new = [(k, c[k]) for k in c if k not in r]
    return [(k[0], n[1], k[1]) for (k, _), (n, _) in pair(gone, new, shape)]

def renamed_fields(ref, cur):
    """current field or variant name -> reference name, for names the reference does not use."""
    r = {(t, p): vs for t, p, vs in ref["adts"]}; c = {(t, p): vs for t, p, vs in cur["adts"]}
    used = {f[0] for vs in r.values() for v in vs for f in v[1]}
    usedv = {v[0] for vs in r.values() for v in vs}
    fm, vm = {}, {}
    def put(m, g, f, used):
        if g in used or g.isdigit() or f.isdigit(): return
        if m.get(g, f) != f: m[g] = None
        else: m[g] = f
    for k, vs in r.items():
        ws = c.get(k)
        if ws is None or len(ws) != len(vs): continue
        if len(vs) > 1:
            gone = [v for v in vs if v[0] not in {w[0] for w in ws}]; new = [w for w in ws if w[0] not in {v[0] for v in vs}]
            for v, w in pair(gone, new, lambda x: str([f[1] for f in x[1]])): put(vm, w[0], v[0], usedv)
        for v in vs:
            w = next((w for w in ws if w[0] == v[0] or vm.get(w[0]) == v[0]), None)
            if w is None: continue
            have = {f[0] for f in w[1]}; had = {f[0] for f in v[1]}
            gone = [f for f in v[1] if f[0] not in have]; new = [f for f in w[1] if f[0] not in had]
            if not gone or not new: continue
            if len(v[1]) == len(w[1]) and all(a[1] == b[1] for a, b in zip(v[1], w[1])):
                for a, b in zip(v[1], w[1]):
                    if a[0] != b[0] and a in gone and b in new: put(fm, b[0], a[0], used)
            else:
                for a, b in pair(gone, new, lambda f: f[1]): put(fm, b[0], a[0], used)
    return {g: f for g, f in fm.items() if f}, {g: f for g, f in vm.items() if f}

def renamed_fns(ref, prog):
    """hash -> reference name"""
    cur = [(fnkey(b) + [b["file"], fnsig(b)], b) for b in prog.bodies.values() if "clo" not in b and "tr" not in b and b["crate"].endswith("lib")]
    r = {tuple(x[:3]) for x in ref["fns"]}; c = {tuple(x[0][:3]) for x in cur}
    gone = [x for x in ref["fns"] if tuple(x[:3]) not in c]; new = [x for x in cur if tuple(x[0][:3]) not in r]
    key = lambda x: str((x[0][0], x[0][1], x[0][3:]) if isinstance(x, tuple) else (x[0], x[1], x[3:]))
    return {n[1]["id"]: g[2] for g, n in pair(gone, new, key)}

def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            if isinstance(v, (dict, list)): walk(v, f)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)): walk(v, f)

def normalise_text(tag, s, types):
    """The facts of a crate with the renamed types called as in the reference."""
    for t, new, old in types:
        crate = t.split(".")[0]
        if t == tag: s = re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(new), old, s)
        else: s = re.sub(r"(?<![\w:])%s::%s(?!\w)" % (crate, re.escape(new)), "%s::%s" % (crate, old), s)
    return s

def normalise(prog, ref, types=()):
    """Renames fields, variants and functions of the loaded facts in place; returns what was renamed."""
    if types:
        own = {o for _, _, o in types}
        def h(d):
            if d.get("k") == "adt" and not d.get("en") and d.get("p") in own: d["v"] = d["p"].split("::")[-1]
        for b in prog.bodies.values(): walk(b["bbs"], h)
    fm, vm = renamed_fields(ref, collect(prog))
    said = ["field %s was %s" % x for x in sorted(fm.items())] + ["variant %s was %s" % x for x in sorted(vm.items())]
    if fm or vm:
        def f(d):
            if "f" in d and d.get("n") in fm: d["n"] = fm[d["n"]]
            if "d" in d and d["d"] in vm: d["d"] = vm[d["d"]]
            if d.get("k") == "adt" and "fs" in d:
                d["fs"] = [fm.get(n, n) for n in d["fs"]]
                d["v"] = vm.get(d["v"], d["v"])
        def g(x):     # discriminants: [place, [[value, variant] ...], type]
            if isinstance(x, list):
                if x and x[0] == "disc" and len(x) > 2 and isinstance(x[2], list):
                    for p in x[2]:
                        if isinstance(p, list) and len(p) == 2 and p[1] in vm: p[1] = vm[p[1]]
                for v in x:
                    if isinstance(v, (dict, list)): g(v)
            elif isinstance(x, dict):
                for v in x.values():
                    if isinstance(v, (dict, list)): g(v)
        for b in prog.bodies.values():
            walk(b["bbs"], f)
            if vm: g(b["bbs"])
    fns = renamed_fns(ref, prog)
    if fns:
        said += ["function %s was %s" % (prog.bodies[h]["p"], n) for h, n in sorted(fns.items())]
        def f(d):
            r = d.get("r") if isinstance(d.get("r"), dict) else {}
            for x in (d, r):
                if x.get("h") in fns and "p" in x:
                    x["p"] = re.sub(r"\w+$", fns[x["h"]], x["p"])
                    if "n" in x: x["n"] = fns[x["h"]]
            if r.get("h") in fns and "n" in d and "tr" not in d: d["n"] = fns[r["h"]]
        for b in prog.bodies.values():
            walk(b["bbs"], f)
            if b["id"] in fns:
                b["n"] = fns[b["id"]]; b["p"] = re.sub(r"\w+$", b["n"], b["p"])
    return said
