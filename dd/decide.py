"""Compares the obligations of the current tree with the reviewed reference of a property."""
import json, os, re
from dd import analyse, select, units, facts
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def keep(i, facet):
    if facet is None: return i[0] != "pact"
    return bool(facet.search(i[0] + " " + i[1]))

def facet_of(prop, b):
    """The obligations of function b that the property is about: all of them, or those that match."""
    if not prop.get("facet") or (prop.get("full") and re.search(prop["full"], b["file"])): return None
    return re.compile(prop["facet"])

def keyed(items, facet): return {(i[0], i[1], i[2]): i for i in items if keep(i, facet)}

def compare(ref, cur, facet):
    """[(kind, construct text, where)] of the obligations that differ."""
    a, b = keyed(ref["items"], facet), keyed(cur["items"], facet)
    out = []
    for k, i in a.items():
        j = b.get(k)
        if j is None: out.append(("gone", i, None))
        elif j[3] != i[3]: out.append(("guard", i, j))
    for k, j in b.items():
        if k not in a: out.append(("new", None, j))
    return out

def kindname(i):
    return {"call": "effect", "panic": "refusal", "return": "result", "state": "state change", "pact": "routing"}[i[0]]

def describe(diffs):
    gone = [d[1] for d in diffs if d[0] == "gone"]
    new = [d[2] for d in diffs if d[0] == "new"]
    msgs = []
    for d in diffs:
        if d[0] != "guard": continue
        i, j = d[1], d[2]
        if i[0] in ("return", "state"): msgs.append(("value", i[1] or "state", "%s differs: reviewed `%s`, now `%s`" % (kindname(i), i[4][:200], j[4][:200]), j))
        else: msgs.append(("guard", i[1], "%s `%s` happens under a different condition" % (kindname(i), i[4][:200]), j))
    for i in gone:
        j = next((x for x in new if x[0] == i[0] and x[1] == i[1]), None)
        if j is not None:
            new.remove(j)
            msgs.append(("changed", i[1] or "state", "%s changed: reviewed `%s`, now `%s`" % (kindname(i), i[4][:200], j[4][:200]), j))
        else: msgs.append(("gone", i[1] or "state", "%s is gone: `%s`" % (kindname(i), i[4][:240]), None))
    for j in new: msgs.append(("new", j[1] or "state", "unreviewed %s: `%s`" % (kindname(j), j[4][:240]), j))
    return msgs

def decide(ref, cur, facet):
    """(verdict, messages)"""
    d = compare(ref, cur, facet)
    if not d: return "same", []
    if ref["shape"] == cur["shape"]: return "differs", describe(d)
    wa, wb = set(ref["weak"]), set(cur["weak"])
    if wa == wb: return "reshaped", []
    return "differs", describe(d)

def run(prop, out):
    pid = prop["id"]
    spec = json.load(open(os.path.join(V, "specs", pid + ".json")))["units"]
    known = {tuple(x) for x in json.load(open(os.path.join(V, "specs", "known.json")))}
    P, T = analyse.load(known)
    rec = select.recursive(P)
    cur = select.chosen(prop, T, rec)
    matched = {k: T[k] for k in spec if k in T}
    taken = {id(b) for b in matched.values()}
    missing = [k for k in spec if k not in T]
    short = {}
    for k, b in T.items(): short.setdefault(units.uid_short(b), []).append(b)
    for k in list(missing):
        s = k.split(" [")[0]
        c = [b for b in short.get(s, []) if id(b) not in taken and (b["crate"], ) ]
        if len({id(b) for b in c}) == 1:
            matched[k] = c[0]; taken.add(id(c[0])); missing.remove(k)
    extra = {k: b for k, b in cur.items() if id(b) not in taken}
    res = analyse.run(sorted({b["id"] for b in matched.values()} | {b["id"] for b in extra.values()}))
    nobl = same = 0
    samples, undecided = [], []
    def as_unit(r): return {"items": r[1], "weak": r[2], "shape": r[3]}
    for k, b in sorted(matched.items()):
        r = res[b["id"]]
        ref = spec[k]; facet = facet_of(prop, b)
        n = len(keyed(ref["items"], facet))
        if r[0] != "ok":
            undecided.append("%s: %s" % (k, r[0])); continue
        v, msgs = decide(ref, as_unit(r), facet)
        nobl += n
        if v == "same":
            same += n
            if len(samples) < 6 and n: samples.append({"function": k, "obligation": keyed(ref["items"], facet).popitem()[1][4][:200]})
        elif v == "reshaped": undecided.append("%s: loop structure changed; every ingredient is still there" % k)
        else:
            seen = set()
            for kind, name, m, j in msgs:
                key = "%s | %s | %s" % (k, kind, name)
                if key in seen: continue
                seen.add(key)
                where = "%s:%d in %s" % (j[6], j[5], j[7]) if j else "%s:%d in %s" % (b["file"], b["line"], b["p"])
                out.viol.append((key, where, "%s: %s" % (k, m)))
    # reference functions that are gone: a required method must be there, a provided one must now act the same
    dflt = {}
    for b in P.bodies.values():
        if b.get("dtr") and "clo" not in b: dflt[(b["dtr"].split("::")[-1], b["n"])] = b
    for k in missing:
        m = re.search(r"<(.*) as (\w+)>::(\w+)", k)
        b = dflt.get((m.group(2), m.group(3))) if m else None
        if b is not None:
            r = res.get(b["id"]) or analyse.run([b["id"]])[b["id"]]
            facet = facet_of(prop, b)
            if r[0] == "ok" and decide(spec[k], as_unit(r), facet)[0] != "differs": continue
        if select_derived(k): continue
        out.viol.append((k + " | missing", "/repo", "%s: the function is gone, and with it %d obligations" % (k, len(spec[k]["items"]))))
    # new implementations of provided methods must act as the provided one did
    for k, b in sorted(extra.items()):
        if not b.get("tr"): continue
        d = dflt.get((b["tr"].split("::")[-1], b["n"]))
        if d is None: continue
        r = res[b["id"]]; rd = analyse.run([d["id"]])[d["id"]]
        if r[0] != "ok" or rd[0] != "ok": undecided.append("%s: new override, %s" % (k, r[0])); continue
        if decide(as_unit(rd), as_unit(r), facet_of(prop, b))[0] == "differs":
            out.viol.append((k + " | override", "%s:%d" % (b["file"], b["line"]), "%s: overrides the provided method with different behaviour" % k))
    # thorough: the same obligations must come out whatever the order of the decision diagrams' variables
    orders = {}
    if os.environ.get("DD_THOROUGH") == "1":
        ids = sorted({b["id"] for b in matched.values()})
        for salt in (1, 2, 3):
            alt = analyse.run(ids, salt)
            orders[str(salt)] = sorted(k for k, b in matched.items() if res[b["id"]][0] == alt[b["id"]][0] == "ok" and
                                       {tuple(i[:4]) for i in res[b["id"]][1]} != {tuple(i[:4]) for i in alt[b["id"]][1]})
    nspec = sum(len(u["items"]) for u in spec.values())
    files = sorted({b["file"] for b in matched.values()})
    out.cov = {"explanation": "%d functions in %d files analysed from the compiler's MIR with private helpers and closures expanded; %d of %d obligations (effects with guard and arguments, refusals, results, state changes) equal the reviewed reference; %d functions left undecided"
               % (len(matched), len(files), same, nobl, len(undecided)),
               "functions": len(matched), "files": files, "obligations": nobl, "discharged": same, "reference_obligations": nspec,
               "analysed_calls": sum(res[b["id"]][5] for b in matched.values() if res[b["id"]][0] == "ok"),
               "undecided": undecided[:40], "order_dependent": orders, "samples": samples,
               "rule": "each function's canonical value graph (guards as decision diagrams, loops as streams and fixed points, helpers inlined) has the same obligations as the reference"}

def select_derived(k): return bool(re.search(r" as (Clone|Hash|Debug)>", k))
