"""Runs the signature analysis over named functions, in parallel."""
import json, os, re, signal, sys, time
from concurrent.futures import ProcessPoolExecutor
from dd import facts, names, units, vg, sig
from dd.vg import Program, Unit, Stop, fkey

LIMIT = 100     # seconds per function

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

P = None
TAB = None
KNOWN = None

def load(known=None):
    global P, TAB, KNOWN
    out = facts.build_facts()
    P = Program(out)
    if known is not None and os.path.exists(names.REF):
        ref = json.load(open(names.REF))
        types = names.renamed_types(ref, names.collect(P))
        if types: P = Program(out, types)
        P.renamed = ["type %s was %s" % (n, o) for _, n, o in types] + names.normalise(P, ref, types)
        P.name_bodies()
    TAB = units.table(P)
    KNOWN = known
    return P, TAB

def lookup(uid):
    b = TAB.get(uid)
    return b

def fingerprint(b):
    """(status, items, weak, shape, seconds) of one body."""
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    try:
        vg.reset()
        u = Unit(P, b, known=KNOWN)
        its = sig.signature(u)
        items = [(i.kind, i.name, sig.hx(i.key), sig.hx(i.w), i.text[:300], i.line, i.file, i.fn) for i in its]
        weak = sorted(sig.weak(u))
        shape = sig.shape(u)
        nev = sum(1 for e in u.events if e.kind == "call")
        return ("ok", items, weak, shape, round(time.time() - t, 2), nev)
    except Stop as e: return ("stop " + str(e)[:80], [], [], {}, time.time() - t, 0)
    except Timeout: return ("timeout", [], [], {}, time.time() - t, 0)
    except RecursionError: return ("recursion", [], [], {}, time.time() - t, 0)
    except Exception as e: return ("error %s: %s" % (type(e).__name__, str(e)[:80]), [], [], {}, time.time() - t, 0)
    finally: signal.alarm(0)

def _work(h): return fingerprint(P.bodies[h])

def _salted(salt): vg.SALT = salt

def run(hashes, salt=0):
    """hash -> fingerprint; a salt scrambles the order of the diagrams' variables"""
    hashes = list(hashes)
    if not hashes: return {}
    with ProcessPoolExecutor(min(8, os.cpu_count() or 4), initializer=_salted, initargs=(salt,)) as p:
        return dict(zip(hashes, p.map(_work, hashes, chunksize=2)))

def visible_keys(prog):
    return sorted({fkey(b) for b in prog.bodies.values() if "clo" not in b and (b["vis"] or b.get("tr") or b.get("dtr"))})

if __name__ == "__main__":
    # dump of all units: python3 -m dd.analyse OUT.json [regex] [known.json]
    import json
    known = None
    if len(sys.argv) > 3: known = {tuple(x) for x in json.load(open(sys.argv[3]))}
    load(known)
    rx = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
    t = time.time()
    hs = {}
    for k, b in TAB.items():
        if not rx.search(k + " " + b["file"]) or "parse/" in b["file"]: continue
        if not b["crate"].startswith(("differential", "interactive")): continue
        hs[units.uid_full(b)] = b["id"]
    r = run(sorted(set(hs.values())))
    out = {k: r[h] for k, h in hs.items()}
    json.dump(out, open(sys.argv[1], "w"))
    print(len(out), "units", round(time.time() - t, 1), "s")
    for k, v in out.items():
        if v[0] != "ok": print(v[0], k)
