"""Development: applies independent edits to a scratch copy and shows what every property says about it.
refac.py FILE.py [-k IDS]   FILE.py defines EDITS = [(name, file, old, new), ...]"""
import json, os, re, subprocess, sys, shutil, importlib.util
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("RF_ROOT", "/tmp/rf"); BLD = os.environ.get("RW_BUILD", "/tmp/rwb")

def load(f):
    s = importlib.util.spec_from_file_location("edits", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.EDITS

BASEFP = "/tmp/basefp.json"
def basefacts():
    """Facts of the unchanged /repo, made by setup."""
    import subprocess
    return subprocess.run([sys.executable, "-m", "dd.facts"], cwd=VERIF, capture_output=True, text=True,
                          env={k: v for k, v in os.environ.items() if k not in ("DD_REPO", "DD_BUILD", "DD_FACTS")}).stdout.strip().split("\n")[-1]

def strip(b):
    def go(x):
        if isinstance(x, dict): return {k: go(v) for k, v in x.items() if k != "l"}
        if isinstance(x, list):
            if len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], list) and isinstance(x[2], list): return go(x[1:])
            return [go(y) for y in x]
        return x
    return json.dumps({k: go(v) for k, v in b.items() if k not in ("line", "end", "file")}, sort_keys=True)

def unchanged(base, fd, crates):
    """Ids of bodies that are the same in both, and reach only such bodies."""
    ids = set(); dirty = set(); refs = {}
    for f in os.listdir(base):
        if not f.endswith(".lib.json"): continue
        c = f[:-9]
        a = {b["id"]: strip(b) for b in json.load(open(os.path.join(base, f)))["bodies"]}
        n = {b["id"]: strip(b) for b in json.load(open(os.path.join(fd, f)))["bodies"]} if c in crates else a
        for h in set(a) | set(n):
            ids.add(h)
            if a.get(h) != n.get(h): dirty.add(h)
            refs[h] = set(re.findall(r"[0-9a-f]{32}", n.get(h, "")))
    while True:
        more = {h for h in ids - dirty if refs[h] & dirty}
        if not more: break
        dirty |= more
    return ids - dirty

def mkbase():
    """Fingerprints of all functions of the unchanged tree, by id."""
    os.environ["DD_FACTS"] = basefacts()
    sys.path.insert(0, VERIF)
    from dd import analyse
    P, T = analyse.load({tuple(x) for x in json.load(open(os.path.join(VERIF, "specs", "known.json")))})
    hs = set()
    for p in os.listdir(os.path.join(VERIF, "specs")):
        if re.match(r"C\d\d", p): hs |= {T[k]["id"] for k in json.load(open(os.path.join(VERIF, "specs", p)))["units"] if k in T}
    hs |= {b["id"] for b in P.bodies.values() if b.get("dtr") and "clo" not in b}
    json.dump(analyse.run(sorted(hs)), open(BASEFP, "w"))

def each(f, names):
    """Every edit on its own, three at a time."""
    import concurrent.futures as cf, queue
    slots = queue.Queue()
    for i in range(int(os.environ.get("SLOTS","3"))): slots.put(i)
    def one(n):
        i = slots.get()
        try:
            return n, subprocess.run([sys.executable, __file__, f, n], capture_output=True, text=True, env=dict(os.environ, RF_ROOT="/tmp/rf%d" % i, RW_BUILD="/tmp/rfb%d" % i)).stdout
        finally: slots.put(i)
    bad = 0
    with cf.ThreadPoolExecutor(int(os.environ.get("SLOTS","3"))) as p:
        for n, o in p.map(one, names):
            print("##", n); print("\n".join("  " + l for l in o.strip().split("\n") if l)); sys.stdout.flush()
            bad += "ALARM" in o
    print("%d of %d alarm" % (bad, len(names)))

def main():
    f = sys.argv[1]
    if f == "base": return mkbase()
    if "--each" in sys.argv:
        sys.argv.remove("--each")
        ks = set(sys.argv[2].split(",")) if len(sys.argv) > 2 else None
        return each(f, [e[0] for e in load(f) if not ks or e[0] in ks])
    only = set(sys.argv[2].split(",")) if len(sys.argv) > 2 else None
    edits = [e for e in load(f) if not only or e[0] in only]
    shutil.rmtree(ROOT, ignore_errors=True); os.makedirs(ROOT)
    subprocess.check_call("cd /repo && tar --exclude=./target --exclude=./.git -cf - . | tar xf - -C %s" % ROOT, shell=True)
    for e in edits:
        name, path = e[0], e[1]
        if path.endswith("/"):      # old is a regular expression, replaced all over the directory
            for d, _, fs in os.walk(os.path.join(ROOT, path)):
                for x in fs:
                    if x.endswith(".rs"):
                        q = os.path.join(d, x); s = open(q).read()
                        for old, new in zip(e[2::2], e[3::2]): s = re.sub(old, new, s)
                        open(q, "w").write(s)
            continue
        p = os.path.join(ROOT, path)
        s = open(p).read()
        for old, new in zip(e[2::2], e[3::2]):
            if s.count(old) < 1:   # retry ignoring comment lines and indentation
                rx = r"[^\S\n]*" + r"(?:[^\S\n]*//[^\n]*)?\n(?:\s*//[^\n]*\n|[^\S\n]*\n)*[^\S\n]*".join(re.escape(l.strip()) for l in old.strip("\n").split("\n") if l.strip()) + r"[^\S\n]*\n?"
                m = list(re.finditer(rx, s))
                if not m: print("BAD EDIT", name, path, "matches", len(m)); sys.exit(2)
                for x in reversed(m): s = s[:x.start()] + new + s[x.end():]
            else: s = s.replace(old, new)
        open(p, "w").write(s)
    env = dict(os.environ, DD_REPO=ROOT, DD_BUILD=BLD)
    os.environ.update(DD_REPO=ROOT, DD_BUILD=BLD)
    sys.path.insert(0, VERIF)
    from dd import facts, analyse, decide
    from dd.props import PROPS
    DIRS = {"differential-dataflow": "differential_dataflow", "dogsdogsdogs": "differential_dogs3", "interactive": "interactive", "diagnostics": "diagnostics", "server": "dd_server"}
    crates = sorted({DIRS[e[1].split("/")[0]] for e in edits}) or ["dd_server"]
    base = basefacts()
    try: fd = facts.build_facts(crates)
    except facts.FactsError as e:
        log = open(BLD + "/build.log", errors="replace").read()
        print("NOBUILD\n" + "\n".join(re.findall(r"^error[^\n]*\n[^\n]*\n(?:.*\n){0,8}", log, re.M))[:3000]); sys.exit(2)
    ov = os.path.join(BLD, "overlay"); shutil.rmtree(ov, ignore_errors=True); os.makedirs(ov)
    for f in os.listdir(base): os.symlink(os.path.join(base, f), os.path.join(ov, f))
    for c in crates:
        os.remove(os.path.join(ov, c + ".lib.json")); os.symlink(os.path.join(fd, c + ".lib.json"), os.path.join(ov, c + ".lib.json"))
    os.environ["DD_FACTS"] = ov
    same = unchanged(base, fd, crates)
    basefp = {h: v for h, v in json.load(open(BASEFP)).items()}
    known = {tuple(x) for x in json.load(open(os.path.join(VERIF, "specs", "known.json")))}
    loaded = analyse.load(known)
    analyse.load = lambda k: loaded
    cache = {h: basefp[h] for h in same if h in basefp}
    real = analyse.run
    def run(hs):
        hs = list(hs)
        need = [h for h in hs if h not in cache]
        cache.update(real(need))
        return {h: cache[h] for h in hs}
    analyse.run = run
    class O: pass
    rows = {}
    und = {}
    for p in PROPS:
        o = O(); o.viol = []; o.known = []; o.undecided = []
        decide.run(p, o)
        for key, where, msg in o.viol:
            rows.setdefault(key.split(" | ")[0], {}).setdefault(msg, []).append(p["id"])
        for u in o.cov["undecided"]: und.setdefault(u[:150], []).append(p["id"])
    for k in sorted(rows):
        ids = sorted({i for v in rows[k].values() for i in v})
        print("ALARM", k[:150], ",".join(ids))
        for m in list(rows[k])[:int(os.environ.get("N", "3"))]: print("     ", m.split(": ", 1)[-1][:int(os.environ.get("W", "260"))])
    for k, v in sorted(und.items()): print("undecided", k, ",".join(v))
main()
