"""Builds the MIR facts of /repo's current working tree (see driver/) and loads them."""
import fcntl, glob, gzip, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DD_REPO", "/repo")
BUILD = os.environ.get("DD_BUILD", os.path.join(VERIF, ".build"))
LOCK = "/opt/vp/Cargo.lock.pristine"
# Members whose git dependencies cannot be fetched here (the build of /opt/vp leaves them out too).
SKIP = re.compile(r'^\s*"(experiments|server/dataflows/random_graph)",?\s*$')
# Crates that the build must yield facts for: a missing one fails the check.
PACKAGES = {"differential_dataflow": "differential-dataflow", "differential_dogs3": "differential-dogs3",
            "interactive": "interactive", "diagnostics": "diagnostics", "dd_server": "dd_server"}

class FactsError(Exception):
    """The tree does not give facts (it does not compile, or an anchor crate is gone)."""

def sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")) or f == "build.rs":
                out.append(os.path.join(root, f))
    return out

def tree_hash():
    h = hashlib.sha256()
    for f in sources() + [os.path.join(VERIF, "driver/src/main.rs"), os.path.join(VERIF, "dd/facts.py")]:
        h.update(f.encode()); h.update(b"\0")
        try:
            with open(f, "rb") as fh: h.update(fh.read())
        except OSError: pass
        h.update(b"\0")
    return h.hexdigest()[:24]

def sh(cmd, env, cwd, log, timeout=800):
    with open(log, "ab") as fh:
        return subprocess.run(cmd, env=env, cwd=cwd, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout).returncode

def build_driver(env, log):
    tgt = os.path.join(BUILD, "driver")
    e = dict(env, CARGO_TARGET_DIR=tgt)
    for k in ("RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTC_WRAPPER"): e.pop(k, None)
    if sh(["cargo", "build", "--offline"], e, os.path.join(VERIF, "driver"), log) != 0:
        raise FactsError("the facts driver does not build; see " + log)
    return os.path.join(tgt, "debug", "ddfacts")

def build_facts(crates=None):
    """Directory with the facts of the named library crates (default: all of PACKAGES)."""
    crates = sorted(crates or PACKAGES)
    if os.environ.get("DD_FACTS"): return os.environ["DD_FACTS"]   # development only: facts made earlier
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash() + "-" + "-".join(c[-5:] for c in crates)
        out = os.path.join(BUILD, "facts", h)
        if os.path.exists(os.path.join(out, "OK")):
            return out
        log = os.path.join(BUILD, "build.log")
        open(log, "w").close()
        env = dict(os.environ)
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
        env.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                   CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0")
        env.pop("RUSTC_WRAPPER", None); env.pop("RUSTFLAGS", None)
        drv = build_driver(env, log)
        ws = os.path.join(BUILD, "ws")
        shutil.rmtree(ws, ignore_errors=True); os.makedirs(ws)
        for p in sorted(os.listdir(REPO)):
            if p in ("Cargo.toml", "Cargo.lock", "target") or p.startswith("."): continue
            os.symlink(os.path.join(REPO, p), os.path.join(ws, p))
        with open(os.path.join(REPO, "Cargo.toml")) as fh:
            toml = "".join(l for l in fh if not SKIP.match(l))
        with open(os.path.join(ws, "Cargo.toml"), "w") as fh: fh.write(toml)
        shutil.copy(LOCK, os.path.join(ws, "Cargo.lock"))
        tgt = os.path.join(BUILD, "target")
        # A warm target directory would silently skip the wrapper: forget the workspace's own fingerprints.
        names = set()
        for l in sources():
            if l.endswith("/Cargo.toml"):
                m = re.search(r'^\s*name\s*=\s*"([^"]+)"', open(l).read(), re.M)
                if m: names.add(m.group(1))
        for n in names:
            for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", n + "-*")) + [os.path.join(tgt, "debug", "build", n)]:
                shutil.rmtree(d, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, capture_output=True, text=True).stdout.strip()
        env.update(CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=drv, DDFACTS_OUT=tmp,
                   RUSTFLAGS="-Coverflow-checks=off -Cdebug-assertions=off -Awarnings",
                   LD_LIBRARY_PATH=sysroot + "/lib:" + env.get("LD_LIBRARY_PATH", ""))
        for attempt in (0, 1):
            rc = sh(["cargo", "check", "--lib", "--offline"] + [a for c in crates for a in ("-p", PACKAGES[c])], env, ws, log)
            missing = [c for c in crates if not os.path.exists(os.path.join(tmp, c + ".lib.json"))]
            if rc != 0 or not missing: break
            shutil.rmtree(tgt, ignore_errors=True)   # cargo took a crate for fresh: start over
        if rc != 0 or missing:
            raise FactsError("cargo check of %s failed (rc=%s, missing facts %s); see %s\n%s" % (
                REPO, rc, missing, log, "".join(open(log, errors="replace").readlines()[-30:])))
        open(os.path.join(tmp, "OK"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # Keep the few latest.
        fs = sorted(glob.glob(os.path.join(BUILD, "facts", "*")), key=os.path.getmtime)
        for d in fs[:-3]: shutil.rmtree(d, ignore_errors=True)
        return out

if __name__ == "__main__":
    print(build_facts(sys.argv[1:] or None))
