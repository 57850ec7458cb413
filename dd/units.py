"""Naming and selection of anchor functions."""
import re
from dd.vg import strip_generics, ty_head, body_short

_id = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")

def bare(t):
    """A type or trait with module paths and lifetimes dropped."""
    t = re.sub(r"'[a-z_]+ ?,? ?", "", t or "")
    t = re.sub(r"(?:[A-Za-z_][A-Za-z0-9_]*::)+(?=[A-Za-z_<{])", "", t)
    return t.replace("<>", "")

def crate_of(b): return b["crate"].split(".")[0]

def uid_short(b):
    n = b["n"]
    if "tr" in b: return "%s: <%s as %s>::%s" % (crate_of(b), ty_head(b.get("self", "?")), b["tr"].split("::")[-1], n)
    if "dtr" in b: return "%s: trait %s::%s" % (crate_of(b), b["dtr"].split("::")[-1], n)
    if "self" in b: return "%s: %s::%s" % (crate_of(b), ty_head(b["self"]), n)
    mod = "::".join(strip_generics(b["p"]).split("::")[:-1])
    return "%s: fn %s" % (crate_of(b), n)

def uid_full(b):
    s = uid_short(b)
    if "tr" in b: return s + " [%s for %s]" % (bare(b.get("trf", "")), bare(b.get("self", "")))
    if "self" in b: return s + " [%s]" % bare(b["self"])
    return s + " [%s]" % strip_generics(b["p"])

def table(prog):
    """unit id -> body, for every named function; ambiguous short ids get the full form."""
    by = {}
    for b in prog.bodies.values():
        if "clo" in b or not b["crate"].endswith("lib"): continue
        if re.search(r"(^|::)tests?(::|$)", b["p"]): continue
        by.setdefault(uid_short(b), []).append(b)
    out = {}
    for k, bs in by.items():
        if len(bs) == 1: out[k] = bs[0]
        for b in bs:
            out.setdefault(uid_full(b), []) if False else None
            f = uid_full(b)
            if len(bs) > 1: out.setdefault(f, b)
    return out
