"""Development: applies a rewriting rule to the whole tree and reports which signatures change.
corpus.py RULE [regex]   (scratch copies under /tmp/rw)"""
import json, os, re, subprocess, sys, shutil, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RW = "/tmp/rwt/release/rewrite"
BLD = os.environ.get("RW_BUILD", "/tmp/rwb")
FN = re.compile(r"^\s*(?:pub(?:\([^)]*\))? )?(?:const )?(?:unsafe )?fn (\w+)")

def files(root):
    out = []
    for c in ("differential-dataflow", "dogsdogsdogs", "interactive"):
        for d, ds, fs in os.walk(os.path.join(root, c, "src")):
            for f in sorted(fs):
                if f.endswith(".rs") and "/bin/" not in d: out.append(os.path.relpath(os.path.join(d, f), root))
    return out

def enclosing(path, line):
    ls = open(path).read().split("\n")
    for i in range(min(line, len(ls)) - 1, -1, -1):
        m = FN.match(ls[i])
        if m: return m.group(1)
    return None

def make(rule, seed=None):
    rule, _, k = rule.partition(":")
    os.environ["MUT_K"] = k or "0"
    full_rule = rule + ("_" + k if k else "")
    root = "/tmp/rw/" + full_rule
    shutil.rmtree(root, ignore_errors=True)
    subprocess.check_call("mkdir -p %s && cd /repo && tar --exclude=./target --exclude=./.git -cf - . | tar xf - -C %s" % (root, root), shell=True)
    env = dict(os.environ, DD_REPO=root, DD_BUILD=BLD)
    skip = {}
    hits = {}
    fl = files("/repo")
    for rnd in range(14):
        todo = fl if rnd == 0 else list(changed)
        for f in todo:
            dst = os.path.join(root, f)
            shutil.copy(os.path.join("/repo", f), dst)
            r = subprocess.run([RW, rule, os.path.join("/repo", f), dst, ",".join(skip.get(f, ()))], capture_output=True, text=True)
            if r.returncode == 0:
                n, _, fns = r.stdout.strip().partition(" ")
                if int(n): subprocess.run(["rustfmt", "--edition", "2021", "--config", "skip_children=true", dst], capture_output=True) if False else subprocess.run("rustfmt --edition 2021 < %s > %s.t && mv %s.t %s" % (dst, dst, dst, dst), shell=True, capture_output=True)
                hits[f] = (int(n), fns)
        r = subprocess.run([sys.executable, "-m", "dd.facts"], cwd=VERIF, env=env, capture_output=True, text=True)
        if r.returncode == 0: break
        log = open(BLD + "/build.log", errors="replace").read()
        errs = re.findall(r"^error[^\n]*\n\s*--> ([^:\n]+):(\d+):", log, re.M)
        changed = set()
        for p, l in errs:
            p = p.split("/ws/")[-1]
            if p.startswith("../"): p = p.lstrip("./")
            full = os.path.join(root, p)
            if not os.path.exists(full): continue
            fn = enclosing(full, int(l))
            if fn and fn not in skip.setdefault(p, set()):
                skip[p].add(fn); changed.add(p)
                if fn.endswith("_inner"): skip[p].add(fn[:-6])
        if not changed:
            print(rule, "stuck"); print(r.stderr[-600:]); print('\n'.join(l[:200] for l in re.findall(r'^error[^\n]*\n[^\n]*', log, re.M)[:5])); return None
    else:
        print(rule, "no convergence"); return None
    n = sum(h[0] for h in hits.values())
    print(rule, "sites", n, "skipped fns", sum(len(s) for s in skip.values()), flush=True)
    return root

if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    rule = sys.argv[1]
    root = make(rule)
    rule = rule.replace(":", "_")
    if root:
        fd = subprocess.run([sys.executable, "-m", "dd.facts"], cwd=VERIF, env=dict(os.environ, DD_REPO=root, DD_BUILD=BLD), capture_output=True, text=True).stdout.strip()
        shutil.rmtree("/tmp/rwf/" + rule, ignore_errors=True); shutil.copytree(fd, "/tmp/rwf/" + rule)
        env = dict(os.environ, DD_REPO=root, DD_BUILD=BLD)
        print(subprocess.run([sys.executable, "-m", "dd.analyse", "/tmp/rw/%s.json" % rule, ".", VERIF + "/specs/known.json"], cwd=VERIF, env=env, capture_output=True, text=True).stdout)
