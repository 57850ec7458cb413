"""Which functions of the current tree belong to a property."""
import re
from dd import units
from dd.vg import fkey
from dd.props import COMMON_SKIP

def visible(b): return bool(b["vis"] or b.get("tr") or b.get("dtr"))

def callees(b):
    out = []
    def walk(x):
        if isinstance(x, dict):
            r = x.get("r")
            h = (r["h"] if isinstance(r, dict) and r.get("loc") else None) or (x.get("h") if x.get("loc") else None)
            if h: out.append(h)
            for v in x.values():
                if isinstance(v, (dict, list)): walk(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)): walk(v)
    walk(b["bbs"])
    return out

def recursive(prog):
    """Private named functions that can reach themselves: they cannot be analysed as part of their callers."""
    g = {h: set(callees(b)) | ({b["par_clo"]} if "par_clo" in b else set()) for h, b in prog.bodies.items()}
    # closures belong to the function they are written in
    own = {}
    for h, b in prog.bodies.items():
        if "clo" in b:
            for h2, b2 in prog.bodies.items() if False else (): pass
    index, low, on, st, comp, n = {}, {}, set(), [], [], [0]
    import sys
    sys.setrecursionlimit(100000)
    def go(v):
        index[v] = low[v] = n[0]; n[0] += 1
        st.append(v); on.add(v)
        for w in g.get(v, ()):
            if w not in g: continue
            if w not in index: go(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = st.pop(); on.discard(w); c.append(w)
                if w == v: break
            if len(c) > 1 or v in g[v]: comp.extend(c)
    for v in g:
        if v not in index: go(v)
    return set(comp)

def chosen(prop, tab, rec):
    """unit id -> body"""
    sk = re.compile(COMMON_SKIP)
    sk2 = re.compile(prop["skip"]) if prop["skip"] else None
    pairs = [(re.compile("^" + f if not f.startswith("^") else f), re.compile(n)) for f, n in prop["units"]]
    out = {}
    for k, b in tab.items():
        if sk.search(k) or (sk2 and sk2.search(k)): continue
        if not visible(b) and b["id"] not in rec: continue
        if any(f.search(b["file"]) and (n.search(k) or n.search(b["p"])) for f, n in pairs): out[k] = b
    return out
