"""Value graphs: a gated-SSA style dataflow normal form of MIR functions.

A Unit evaluates (abstractly; no concrete values, no solver) the control-flow graph of one anchor
function with its local helpers and closures spliced in.  Every value becomes a hash-consed term
over the function's inputs, every block gets a path condition (a reduced decision diagram over
boolean terms), and every call with an effect becomes an Event carrying its argument terms, the
places it mutates and the condition under which it happens.
"""
import json, os, re, sys
from dd import names
sys.setrecursionlimit(100000)

# ---------------------------------------------------------------- terms
SALT = int(os.environ.get("DD_SALT", "0"))   # self-test: scrambles the order of diagram variables

class T:
    __slots__ = ("op", "a", "id", "b", "_s", "_d")
    tab = {}
    n = 0
    def __repr__(self): return show(self)

def mk(op, *a, b=False):
    k = (op, a)
    t = T.tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.b = b; t._s = None; t._d = None
        T.n += 1; t.id = T.n if not SALT else hash((SALT, T.n * 7919)) & 0xffffffffffff
        T.tab[k] = t
    return t

TRUE = mk("const", "true", b=True)
FALSE = mk("const", "false", b=True)
UNIT = mk("const", "()")

def boolish(t): return t.b
def asbool(t):
    if t.b: return t
    if t.op == "const":
        if t.a[0] in ("1", "true"): return TRUE
        if t.a[0] in ("0", "false"): return FALSE
    if t.op == "ite":
        return ite(t.a[0], asbool(t.a[1]), asbool(t.a[2]))
    if t.op == "call":      # a test of one of a few values is a choice between tests
        z = split(t)
        if z is not None and z.op == "ite": return asbool(z)
        for i, x in enumerate(t.a):
            if i and x.op == "ite" and not x.b and len(leaves(x)) <= 6:
                return ite(x.a[0], asbool(mk("call", *t.a[:i], x.a[1], *t.a[i + 1:])), asbool(mk("call", *t.a[:i], x.a[2], *t.a[i + 1:])))
    return mk("b", t, b=True)

def _top(t):
    """(atom, hi, lo) of a decision-diagram node, or None for a leaf."""
    if t.op == "ite": return t.a
    if t.b and t is not TRUE and t is not FALSE: return (t, TRUE, FALSE)
    return None

def node(at, hi, lo):
    if hi is lo: return hi
    if hi is TRUE and lo is FALSE: return at
    return mk("ite", at, hi, lo, b=hi.b and lo.b)

_im = {}
def ite(c, x, y):
    if c is TRUE: return x
    if c is FALSE: return y
    if x is y: return x
    if x is TRUE and y is FALSE: return c
    k = (c, x, y)
    r = _im.get(k)
    if r is not None: return r
    tops = [p for p in (_top(c), _top(x), _top(y)) if p is not None]
    v = min((p[0] for p in tops), key=lambda t: t.id)
    def cof(t, s):
        p = _top(t)
        if p is None or p[0] is not v: return t
        return p[1] if s else p[2]
    r = node(v, ite(cof(c, 1), cof(x, 1), cof(y, 1)), ite(cof(c, 0), cof(x, 0), cof(y, 0)))
    _im[k] = r
    return r

def AND(*xs):
    r = TRUE
    for x in xs: r = ite(r, x, FALSE)
    return r
def OR(*xs):
    r = FALSE
    for x in xs: r = ite(r, TRUE, x)
    return r
def NOT(x): return ite(x, FALSE, TRUE)
def implies(x, y): return ite(x, y, TRUE) is TRUE

_rm = {}
def restrict(f, c):
    """Simplify f given that c holds (Coudert-Madre restrict)."""
    if c is TRUE or c is FALSE: return f
    tf = _top(f)
    if tf is None: return f
    k = (f, c)
    r = _rm.get(k)
    if r is not None: return r
    tc = _top(c)
    if tc[0].id < tf[0].id:
        r = restrict(f, OR(tc[1], tc[2]))
    elif tc[0] is tf[0]:
        if tc[1] is FALSE: r = restrict(tf[2], tc[2])
        elif tc[2] is FALSE: r = restrict(tf[1], tc[1])
        else: r = node(tf[0], restrict(tf[1], tc[1]), restrict(tf[2], tc[2]))
    else:
        r = node(tf[0], restrict(tf[1], c), restrict(tf[2], c))
    _rm[k] = r
    return r

def atoms(f, acc=None, seen=None):
    if acc is None: acc = []; seen = set()
    if f in seen: return acc
    seen.add(f)
    p = _top(f)
    if p:
        if p[0] not in acc: acc.append(p[0])
        atoms(p[1], acc, seen); atoms(p[2], acc, seen)
    return acc

def cofactor(f, at, val, memo=None):
    if memo is None: memo = {}
    p = _top(f)
    if p is None: return f
    if p[0].id > at.id: return f
    if f in memo: return memo[f]
    if p[0] is at: r = p[1] if val else p[2]
    else: r = node(p[0], cofactor(p[1], at, val, memo), cofactor(p[2], at, val, memo))
    memo[f] = r
    return r

def exists_atoms(f, pred):
    for a in atoms(f):
        if pred(a): f = OR(cofactor(f, a, True), cofactor(f, a, False))
    return f

def leaves(t, acc=None):
    if acc is None: acc = []
    if t.op == "ite": leaves(t.a[1], acc); leaves(t.a[2], acc)
    elif t not in acc: acc.append(t)
    return acc

def inner_ites(t, out):
    if t.op == "ite":
        if not t.b: out.append(t)
    elif t.op in ("call", "agg", "fld", "as"):
        for x in t.a:
            if isinstance(x, T): inner_ites(x, out)
    return out
def cofterm(t, v, s):
    if t.op == "ite": return t if t.b or t.a[0] is not v else t.a[1 if s else 2]
    if t.op in ("call", "agg"):
        a = [cofterm(x, v, s) if isinstance(x, T) else x for x in t.a]
        return t if all(x is y for x, y in zip(a, t.a)) else mk(t.op, *a, b=t.b)
    if t.op in ("fld", "as"):
        x = cofterm(t.a[0], v, s)
        return t if x is t.a[0] else proj(x, t.a[1]) if t.op == "fld" else as_variant(x, t.a[1])
    return t
_split = {}
def split(t):
    """A value computed from a few decisions, as a decision among the values; None when there is nothing to decide."""
    if t in _split: return _split[t]
    got = set()
    def go(x):
        its = inner_ites(x, [])
        if not its:
            got.add(x)
            if len(got) > 4: raise OverflowError
            return x
        v = min((y.a[0] for y in its), key=lambda z: z.id)
        return ite(v, go(cofterm(x, v, 1)), go(cofterm(x, v, 0)))
    r = None
    if t.op == "call" and inner_ites(t, []):
        try: r = go(t)
        except OverflowError: r = None
    _split[t] = r
    return r

def subterms(t, seen=None):
    """All distinct subterms of t (t included)."""
    if seen is None: seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen[x] = 1
        for y in x.a:
            if isinstance(y, T): st.append(y)
            elif isinstance(y, tuple): _tup(y, st)
    return seen
def _tup(y, st):
    for z in y:
        if isinstance(z, T): st.append(z)
        elif isinstance(z, tuple): _tup(z, st)

# ---------------------------------------------------------------- printing
def show(t, depth=14):
    if not isinstance(t, T):
        if isinstance(t, tuple): return "<" + ",".join(show(x, depth - 1) for x in t) + ">"
        return str(t)
    if t._s is not None: return t._s
    if depth <= 0: return "…"
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.a
    if o == "const": r = a[0]
    elif o == "param": r = "p%d" % a[0] if a[0] else "self"
    elif o == "fld": r = s(a[0]) + "." + a[1]
    elif o == "as": r = s(a[0]) + "?" + a[1]
    elif o == "ix": r = s(a[0]) + "[" + s(a[1]) + "]"
    elif o == "call": r = a[0] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    elif o == "mut": r = a[0] + "#%d" % a[1] + "(" + ", ".join(s(x) for x in a[2:]) + ")"
    elif o == "agg": r = a[1] + "{" + ", ".join(("%s: " % n if not n.isdigit() else "") + s(x) for n, x in zip(a[2], a[3:])) + "}"
    elif o == "closure": r = "|closure|"
    elif o == "b": r = s(a[0])
    elif o == "elem": r = "elem(" + s(a[0]) + ")"
    elif o == "more": r = "more(" + s(a[0]) + ")"
    elif o == "is": r = a[1] + "?(" + s(a[0]) + ")"
    elif o == "lt": r = "(" + s(a[0]) + " < " + s(a[1]) + ")"
    elif o == "eq": r = "(" + s(a[0]) + " == " + s(a[1]) + ")"
    elif o == "bin": r = "(" + s(a[1]) + " " + a[0] + " " + s(a[2]) + ")"
    elif o == "un": r = a[0] + "(" + s(a[1]) + ")"
    elif o == "mu": r = "mu%d[" % a[0] + s(a[2]) + "]"
    elif o == "ref": r = "&" + s(pathterm(a[0]))
    elif o == "ite":
        if t.b: r = "(" + dnf(t, depth - 1) + ")"
        else: r = "{" + "; ".join("%s if %s" % (s(l), dnf(c, depth - 1)) for c, l in branches(t)) + "}"
    elif o == "with": r = "with(" + s(a[0]) + "".join(", ." + ".".join(str(z) for z in p) + "=" + s(v) for p, v in a[1:]) + ")"
    else: r = o + "(" + ", ".join(s(x) for x in a) + ")"
    if depth == 14: t._s = r
    return r

def branches(t):
    """[(condition, leaf)] of a decision diagram, leaves in first-seen order."""
    out = {}
    for l in leaves(t): out[l] = cond_of_leaf(t, l)
    return [(c, l) for l, c in out.items()]
def cond_of_leaf(t, l, memo=None):
    if memo is None: memo = {}
    if t in memo: return memo[t]
    if t.op == "ite": r = ite(t.a[0], cond_of_leaf(t.a[1], l, memo), cond_of_leaf(t.a[2], l, memo))
    else: r = TRUE if t is l else FALSE
    memo[t] = r
    return r

def dnf(c, depth=12, limit=12):
    if c is TRUE: return "true"
    if c is FALSE: return "false"
    out = []
    def go(f, lits):
        if len(out) > limit: return
        if f is TRUE: out.append(" & ".join(lits) or "true"); return
        if f is FALSE: return
        p = _top(f)
        if p is None: out.append(" & ".join(lits + [show(f, depth)])); return
        go(p[1], lits + [show(p[0], depth)])
        go(p[2], lits + ["!" + show(p[0], depth)])
    go(c, [])
    return " | ".join(out[:limit]) + (" | …" if len(out) > limit else "")

# ---------------------------------------------------------------- names
_gen = re.compile(r"::<")
def strip_generics(p):
    out = []; d = 0; i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and (i == 0 or p[i-1] != "-"):
            d -= 1
        elif d == 0: out.append(c)
        i += 1
    return "".join(out)

def ty_head(t):
    """Last path segment of a type: `timely::..::Antichain<T>` -> Antichain."""
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].lstrip()
        if t.startswith("'"): t = t.split(" ", 1)[1] if " " in t else t
        if t.startswith("mut "): t = t[4:]
    if t.startswith("<"): return t
    if t.startswith("["): return "slice"
    s = strip_generics(t).rstrip(":")
    return s.split("::")[-1] or t

def short(fn):
    if "tr" in fn: return fn["tr"].split("<")[0].split("::")[-1] + "::" + fn["n"]
    if fn.get("ctor"): return "ctor"
    if "self" in fn:
        h = ty_head(fn["self"])
        if h.startswith("["): h = "slice"
        return h + "::" + fn["n"]
    return fn["n"] or strip_generics(fn["p"]).split("::")[-1]

# ---------------------------------------------------------------- facts
class Body:
    pass

class Program:
    def __init__(self, out, types=()):
        self.bodies = {}      # hash -> body dict
        self.adts = {}; self.impls = []; self.traits = {}
        self.crates = []
        for f in sorted(os.listdir(out)):
            if not f.endswith(".json"): continue
            tag = f[:-5]
            text = open(os.path.join(out, f)).read()
            if types: text = names.normalise_text(tag, text, types)
            d = json.loads(text)
            self.crates.append(tag)
            for b in d["bodies"]:
                b["crate"] = tag
                self.bodies[b["id"]] = b
            for a in d["adts"]: a["crate"] = tag; self.adts[(tag, a["p"])] = a
            for i in d["impls"]: i["crate"] = tag; self.impls.append(i)
            for t in d["traits"]: t["crate"] = tag; self.traits[(tag, t["p"])] = t
        self.name_bodies()

    def name_bodies(self):
        for b in self.bodies.values(): b["_short"] = body_short(b)

    def find(self, name, self_=None, tr=None, crate=None, path=None, trf=None):
        """Bodies by function name, self type pattern (regex on the type), trait last segment."""
        out = []
        for b in self.bodies.values():
            if b["n"] != name or "clo" in b: continue
            if crate and not b["crate"].startswith(crate): continue
            if self_ is not None:
                st = b.get("self") or b.get("dtr") or ""
                if not re.search(self_, st): continue
            if tr is not None:
                t = b.get("tr")
                if tr == "":
                    if t: continue
                else:
                    if not t or t.split("::")[-1] != tr: continue
            if trf is not None and not re.search(trf, b.get("trf") or ""): continue
            if path is not None and not re.search(path, b["p"]): continue
            out.append(b)
        return out

def body_short(b):
    if "tr" in b: return b["tr"].split("::")[-1] + "::" + b["n"]
    if "dtr" in b: return b["dtr"].split("::")[-1] + "::" + b["n"]
    if "self" in b: return ty_head(b["self"]) + "::" + b["n"]
    return b["n"]

# ---------------------------------------------------------------- normalisation tables
# Calls that denote their first argument (same value / same place).
SAME = {
 "Clone::clone", "ToOwned::to_owned", "Borrow::borrow", "BorrowMut::borrow_mut", "AsRef::as_ref", "AsMut::as_mut",
 "Deref::deref", "DerefMut::deref_mut", "RefCell::borrow", "RefCell::borrow_mut", "Antichain::borrow",
 "Vec::as_slice", "Vec::as_mut_slice", "String::as_str", "slice::to_vec", "Antichain::elements",
 "AntichainRef::to_owned", "Box::new", "Rc::new", "RefCell::new", "From::from_same", "Option::cloned", "Option::copied",
 "slice::as_ref", "Vec::into_boxed_slice", "RefCell::into_inner", "RefCell::get_mut", "String::as_bytes",
 "ManuallyDrop::new", "black_box", "IntoOwned::into_owned", "Rc::clone", "Cow::into_owned", "MutableAntichain::frontier_",
}
# Calls that make a copy: later changes of the copy leave the original alone, and conversely.
COPIES = {"Clone::clone", "ToOwned::to_owned", "slice::to_vec", "AntichainRef::to_owned", "Option::cloned", "Option::copied", "IntoOwned::into_owned", "Cow::into_owned"}
SHARES = re.compile(r"&(mut )?(std|alloc)::(rc|sync)::")
ITERS = {"slice::iter", "slice::iter_mut", "IntoIterator::into_iter", "Vec::iter", "VecDeque::iter", "VecDeque::iter_mut",
 "Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "Option::iter", "Option::iter_mut",
 "Option::into_iter", "HashMap::iter", "BTreeMap::iter", "HashSet::iter", "BTreeSet::iter", "BTreeMap::iter_mut",
 "HashMap::iter_mut", "Iterator::fuse", "Iterator::peekable", "Vec::drain", "VecDeque::drain", "HashMap::drain",
 "BinaryHeap::iter", "Vec::into_iter"}
DRAINPOP = {"VecDeque::pop_front": "VecDeque::drain", "VecDeque::pop_back": "VecDeque::drain", "Vec::pop": "Vec::drain"}
DRAINS = {"Vec::drain", "VecDeque::drain", "HashMap::drain"}
CLONES = {"Clone::clone", "ToOwned::to_owned", "slice::to_vec"}
OPTREF = {"Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_ref", "Result::as_mut"}
PAYLOAD = {"Option::unwrap": "Some", "Option::expect": "Some", "Result::unwrap": "Ok", "Result::expect": "Ok",
           "Option::unwrap_unchecked": "Some"}
# External calls with no effect on their arguments although they may take &mut: none. Calls never recorded as events:
QUIET = re.compile(r"^(Arguments::|Formatter::|Argument::|format$|drop_in_place$|Debug::fmt|Display::fmt)")

# Calls through shared references that act on the world.
EFFECTS = {"Activator::activate", "SyncActivator::activate", "drop", "forget"}

# Calls that change nothing but the data they are given: on data this function holds, what they do shows in the data's value.
PUREMUT = re.compile(r"^(Vec|VecDeque|HashMap|BTreeMap|HashSet|BTreeSet|BinaryHeap|SmallVec|String|slice|Entry|OccupiedEntry|VacantEntry|Option|"
                     r"Antichain|MutableAntichain|ChangeBatch)::|^(Semigroup::plus_equals|Abelian::negate|Lattice::(join_assign|meet_assign)|Extend::extend|"
                     r"Clone::clone_from|retain|BatchContainer::(push_ref|push_own|clear)|PushInto::push_into)$")
GATHER = {"Vec::push", "VecDeque::push_back", "Antichain::insert", "SmallVec::push"}
CLEARS = {c + "::clear" for c in ("Vec", "VecDeque", "String", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "SmallVec", "Antichain", "BinaryHeap")}

# Calls on one object whose order does not matter.
COMMUTE = [{"TraceReader::set_logical_compaction", "TraceReader::set_physical_compaction"},
           {"TraceBox::adjust_logical_compaction", "TraceBox::adjust_physical_compaction"}]
def commutes(x, y): return x != y and any(x in g and y in g for g in COMMUTE)
# Calls through &mut that leave the object as it was.
READS = {"TraceReader::get_logical_compaction", "TraceReader::get_physical_compaction"}
COMMUTING = set().union(*COMMUTE)
def peel(v, name):
    while v.op == "mut" and commutes(v.a[0], name): v = v.a[2 + v.a[1]]
    return v

VARIANTS2 = {"Option": ("None", "Some"), "Result": ("Ok", "Err"), "ControlFlow": ("Continue", "Break"), "Either": ("Left", "Right")}

class Event:
    __slots__ = ("name", "args", "locs", "cond", "loops", "line", "file", "fn", "ret", "kind", "seq", "callee", "spath", "raw", "preds", "eff", "hid", "pure")
    def __repr__(self):
        s = "%s(%s)" % (self.name, ", ".join(show(x) for x in self.args))
        return "%s:%d [%s] %s%s  IF %s" % (self.file.split("/")[-1], self.line, self.kind, s,
            " @" + ",".join(show(l) if l is not None else "-" for l in self.locs) if any(l is not None for l in self.locs) else "", dnf(self.cond))

def pathterm(p):
    root, fs = p
    if isinstance(root, T): t = root
    else: t = mk("var", root[1], root[2])
    for f in fs: t = proj(t, f)
    return t

def proj(t, f):
    """Projection of a value term by a path element."""
    if isinstance(f, tuple):
        if f[0] == "ix": return index_term(t, f[1])
        if f[0] == "as":
            return as_variant(t, f[1])
    if t.op == "ite": return ite(t.a[0], proj(t.a[1], f), proj(t.a[2], f))
    if t.op == "agg":
        if f in t.a[2]: return t.a[3 + t.a[2].index(f)]
        if f.isdigit() and int(f) < len(t.a[2]): return t.a[3 + int(f)]
    if t.op == "closure":
        if f in t.a[1]: return t.a[2 + t.a[1].index(f)]
    if t.op == "with":
        rest = []
        for rel, v in t.a[1:]:
            if rel[0] == f:
                if len(rel) == 1: return v
                rest.append((rel[1:], v))
        b = proj(t.a[0], f)
        return mk("with", b, *rest) if rest else b
    if t.op == "as":
        # payload of an iterator step / reference option
        inner, v = t.a
        if inner.op == "next" and v == "Some" and f == "0": return elem_of(inner.a[0])
        if inner.op == "oref" and f == "0":
            return mkref((inner.a[0][0], inner.a[0][1] + (("as", v), "0")), 1)
        if inner.op == "some" and f == "0": return inner.a[0]
        if inner.op == "call" and inner.a[0] == "Try::branch" and f == "0":
            x = inner.a[1]
            tyv = inner.a[2]
            if v == "Continue": return proj(as_variant(x, "Some" if tyv.a[0] == "Option" else "Ok"), "0")
    if t.op == "senum_elem":
        return elem_of(t.a[0]) if f == "1" else posof(stream_base(t.a[0]))
    if t.op == "szip_elem":
        return elem_of(t.a[0]) if f == "0" else elem_of(t.a[1])
    if t.op == "ref" and f == "0": return t      # the pointer inside a Box
    return mk("fld", t, f)

def refchoice(t):
    """A choice between references."""
    if t.op != "ite" or t.b: return False
    ls = leaves(t)
    return len(ls) <= 4 and any(l.op == "ref" for l in ls) and all(l.op in ("ref", "elem", "param", "fld", "ix") for l in ls)
def subplace(l, fs):
    if l.op == "ref": return (l.a[0][0], l.a[0][1] + fs)
    return (l, fs)

def varix(f): return isinstance(f, tuple) and f[0] == "ix" and f[1].op != "const"

def setpath(t, fs, v):
    """The value t with its component at path fs replaced."""
    if not fs: return v
    f = fs[0]
    if isinstance(f, tuple) and f[0] == "ix": return mk("store", t, f[1], setpath(index_term(t, f[1]), fs[1:], v))
    if t.op == "agg" and isinstance(f, str):
        i = t.a[2].index(f) if f in t.a[2] else int(f) if f.isdigit() and int(f) < len(t.a[2]) else None
        if i is not None:
            a = list(t.a); a[3 + i] = setpath(a[3 + i], fs[1:], v)
            return mk("agg", *a)
    if t.op == "agg" and isinstance(f, tuple) and f[0] == "as" and f[1] == t.a[1]: return setpath(t, fs[1:], v)
    base = t.a[0] if t.op == "with" else t
    over = dict(t.a[1:]) if t.op == "with" else {}
    for k in [k for k in over if k[:len(fs)] == fs]: del over[k]
    for k in over:
        if fs[:len(k)] == k:
            over[k] = setpath(over[k], fs[len(k):], v); break
    else: over[fs] = v
    return mk("with", base, *sorted(over.items(), key=lambda x: str(x[0])))

def index_term(t, i):
    if t.op == "store" and t.a[1] is i: return t.a[2]
    if i.op == "pos" and once(i.a[0]) is t: return mk("elem", i.a[0])
    if t.op == "ite": return ite(t.a[0], index_term(t.a[1], i), index_term(t.a[2], i))
    if t.op == "agg" and t.a[0] == "array" and i.op == "const" and i.a[0].isdigit() and int(i.a[0]) < len(t.a) - 3:
        return t.a[3 + int(i.a[0])]
    return mk("ix", t, i)

def mkmut(name, i, *args):
    if name in ("Vec::push", "SmallVec::push") and len(args) == 2:
        old, e = args
        if old is EMPTY: return mk("agg", "array", "array", ("0",), e)
        if old.op == "agg" and old.a[0] == "array" and len(old.a) < 12:
            n = len(old.a) - 3
            return mk("agg", "array", "array", tuple(str(k) for k in range(n + 1)), *old.a[3:], e)
    return mk("mut", name, i, *args)

UNIT_NOW = [None]
VISITED = None      # development: the (body, block) pairs reached
def once(base):
    """The collection behind one that is walked again within a walk of it."""
    while base.op == "again": base = base.a[0]
    return base
def again(base):
    """base, or when a loop over it is under way, a name of its own for walking it once more."""
    u = UNIT_NOW[0]
    if u is None or not u.cur_loops: return base
    act = {u.loopinfo[L].get("base") for L in u.cur_loops if L in u.loopinfo}
    while base in act: base = mk("again", base)
    return base
def mklen(t):
    if t.op == "again": return mklen(once(t))
    if t is EMPTY: return ZERO
    if t.op == "agg" and t.a[0] == "array": return mk("const", str(len(t.a) - 3))
    if t.op == "mut" and t.a[0] in ("Vec::push", "SmallVec::push", "VecDeque::push_back") and t.a[1] == 0:
        return mk("bin", "Add", mklen(t.a[2]), mk("const", "1"))
    if t.op == "ite": return ite(t.a[0], mklen(t.a[1]), mklen(t.a[2]))
    return mk("len", t)

PLAINBASE = {"param", "fld", "call", "ix", "elem", "mu", "as"}
def last_of(base): return index_term(base, mk("bin", "Sub", mklen(base), mk("const", "1")))

def slice_of(c, r):
    """Part r of the slice c."""
    for i in range(3, len(r.a)):
        x = r.a[i]
        if x.op == "ite" and not x.b:
            rest = lambda y: slice_of(c, mk(r.op, *r.a[:i], y, *r.a[i + 1:]))
            return ite(x.a[0], rest(x.a[1]), rest(x.a[2]))
    if r.a[1] == "RangeTo" and r.a[3] is mklen(c): return c
    if r.a[1] == "RangeFrom" and r.a[3] is ZERO: return c
    return mk("call", "slice_range", c, r)

def as_variant(t, v):
    if t.op == "ite":
        x, y = as_variant(t.a[1], v), as_variant(t.a[2], v)
        if is_other(x, v) and not is_other(y, v): return y      # not this variant: the value is never read there
        if is_other(y, v) and not is_other(x, v): return x
        return ite(t.a[0], x, y)
    if t.op == "agg": return t
    return mk("as", t, v)
def is_other(x, v): return x.op == "agg" and x.a[0] == "adt" and x.a[1] != v

def mkref(path, mut):
    root, fs = path
    if isinstance(root, T) and not fs: return root
    return mk("ref", path, mut)

def stream_base(s):
    """The collection a stream term ranges over."""
    if s.op in ("iter", "sidx"): return s.a[0]
    if s.op in ("smap", "sfilter"): return stream_base(s.a[0])
    if s.op == "srev": return mk("rev", stream_base(s.a[0]))
    if s.op == "senum": return stream_base(s.a[0])
    if s.op == "szip": return mk("zip", *[stream_base(x) if filt_of(x) is TRUE and unchain(x) is None else x for x in s.a])
    if s.op == "schain": return mk("call", "chain", chained(s.a[0]), chained(s.a[1]))
    if s.op == "mu" and is_stream(s): return stream_base(s.a[2])
    if s.op == "mut" and s.a[0] == "Iterator::next" and is_stream(s): return stream_base(s.a[2])
    return s

def elem_of(s):
    if s.op == "mu" and is_stream(s): return elem_of(s.a[2])
    if s.op == "mut" and s.a[0] == "Iterator::next" and is_stream(s): return elem_of(s.a[2])
    if s.op == "iter": return elem_raw(s.a[0])
    if s.op == "sidx": return mk("pos", s.a[0])
    if s.op == "smap": return s.a[1]
    if s.op == "sfilter": return elem_of(s.a[0])
    if s.op == "senum": return mk("agg", "tuple", "", ("0", "1"), posof(stream_base(s.a[0])), elem_of(s.a[0]))
    if s.op == "szip": return mk("agg", "tuple", "", ("0", "1"), elem_of(s.a[0]), elem_of(s.a[1]))
    if s.op == "srev": return mk("elem", mk("rev", stream_base(s.a[0])))
    if s.op == "schain": return mk("elem", stream_base(s))
    if s.op == "ite": return ite(s.a[0], elem_of(s.a[1]), elem_of(s.a[2]))
    return mk("elem", s)
def elem_raw(c):
    if c.op == "ite": return ite(c.a[0], elem_raw(c.a[1]), elem_raw(c.a[2]))
    return mk("elem", c)
def filt_of(s):
    """The condition under which a generic element of the base reaches the stream."""
    if s.op == "mu": return filt_of(s.a[2])
    if s.op == "mut" and s.a[0] == "Iterator::next": return filt_of(s.a[2])
    if s.op == "smap": return AND(filt_of(s.a[0]), s.a[2])
    if s.op == "sfilter": return AND(filt_of(s.a[0]), s.a[1])
    if s.op in ("srev", "senum"): return filt_of(s.a[0])
    return TRUE
def chained(s):
    """A stream as part of a chain: all of it matters."""
    return s.a[0] if s.op == "iter" else s
def subst(t, m, memo=None):
    """t with the terms of m replaced."""
    if memo is None: memo = {}
    def go(x):
        if not isinstance(x, T): return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in m: return m[x]
        r = memo.get(x)
        if r is None:
            memo[x] = x
            if x.op == "ite": r = ite(go(x.a[0]), go(x.a[1]), go(x.a[2]))
            elif x.op in ("mu", "closure", "const"): r = x
            else:
                a = tuple(go(y) for y in x.a)
                r = x if a == x.a else proj(a[0], a[1]) if x.op == "fld" else as_variant(a[0], a[1]) if x.op == "as" else mk(x.op, *a, b=x.b)
            memo[x] = r
        return r
    return go(t)
def unchain(s):
    """The two streams a (possibly mapped or filtered) chain runs through."""
    if s.op == "schain": return s.a
    if s.op in ("smap", "sfilter"):
        two = unchain(s.a[0])
        if two is None: return None
        e = elem_of(s.a[0])
        if e.op in ("const", "agg"): return None
        out = []
        for x in two:
            m = {e: elem_of(x), mk("more", stream_base(s), b=True): TRUE}
            out.append(mk(s.op, x, *[subst(y, m) for y in s.a[1:]]))
        return out
    return None
def is_stream(s):
    while s.op in ("mu",) or (s.op == "mut" and s.a[0] == "Iterator::next"): s = s.a[2]
    return s.op in ("iter", "sidx", "smap", "sfilter", "srev", "senum", "szip", "schain")
def mkiter(c):
    if is_stream(c): return c
    if c.op == "agg" and c.a[1] == "Range" and len(c.a) == 5: return mkrange(c.a[3], c.a[4])
    if c.op == "call" and c.a[0] == "RangeInclusive::new": return mkrange(c.a[1], plus1(c.a[2]))
    if c.op == "call" and c.a[0] == "slice_range" and c.a[2].op == "agg":
        r = c.a[2]; w = c.a[1]
        lo = r.a[3] if r.a[1] in ("Range", "RangeFrom") else ZERO
        hi = r.a[4] if r.a[1] == "Range" else r.a[3] if r.a[1] == "RangeTo" else mk("len", w) if r.a[1] == "RangeFrom" else None
        if hi is not None and w.op not in ("mu", "ite"):
            s = mkrange(lo, hi)
            return mk("smap", s, index_term(w, elem_of(s)), TRUE)
    return mk("iter", again(c))
def posof(base):
    """Position of the current element of a base."""
    if once(base).op == "range":
        e = mk("elem", base); lo = once(base).a[0]
        return e if lo is ZERO else mk("bin", "Sub", e, lo)
    return mk("pos", base)
ZERO = mk("const", "0"); ONE = mk("const", "1")
def plus1(t):
    if t.op == "const" and t.a[0].isdigit(): return mk("const", str(int(t.a[0]) + 1))
    if t.op == "bin" and t.a[0] == "Sub" and t.a[2] is ONE: return t.a[1]
    a, b = (t, ONE) if t.id < ONE.id else (ONE, t)
    return mk("bin", "Add", a, b)
def mkrange(lo, hi):
    """The stream of positions lo..hi; those of a whole collection stand for its elements' positions."""
    if lo is ZERO and hi.op == "len": return mk("sidx", again(hi.a[0]))
    return mk("iter", again(mk("range", lo, hi)))

# comparisons: the three-valued order of a pair, as two diagram variables.
def inrange(a, b):
    """more(base) when a ranges over positions that end at b."""
    if a.op == "pos" and b.op == "len" and once(a.a[0]) is b.a[0]: return mk("more", a.a[0], b=True)
    if a.op == "elem" and once(a.a[0]).op == "range" and once(a.a[0]).a[1] is b: return mk("more", a.a[0], b=True)
    return None
def roomy(a, b): return b.op == "call" and a.op == "len" and b.a[0].endswith("::capacity") and len(b.a) == 2 and b.a[1] is a.a[0]
def few(a, b):
    """Comparisons are made leaf by leaf when one side is a decision with few outcomes."""
    if a.op != "ite" and b.op != "ite": return False
    n = len(leaves(a)) if a.op == "ite" else 1
    if n > 6: return False
    return n * (len(leaves(b)) if b.op == "ite" else 1) <= 8
def added(t):
    """(x, k) when t is x + k for a number k."""
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        for x, k in ((t.a[1], t.a[2]), (t.a[2], t.a[1]))[:2 if t.a[0] == "Add" else 1]:
            if k.op == "const" and k.a[0].isdigit() and x.op != "const": return x, int(k.a[0]) if t.a[0] == "Add" else -int(k.a[0])
    return t, 0
def plus(t, k):
    if k == 0: return t
    k = mk("const", str(k))
    a, b = (t, k) if t.id < k.id else (k, t)
    return mk("bin", "Add", a, b)
def balance(a, b):
    """Numbers subtracted on one side of a comparison are added on the other, and common additions cancel."""
    (x, i), (y, j) = added(a), added(b)
    if not j and i >= 0 or not i and j >= 0: return a, b
    if a.op == "const" or b.op == "const": return a, b
    m = min(i, j)
    return plus(x, i - m), plus(y, j - m)
def lt(a, b, uns=False):
    if a is b: return FALSE
    a, b = balance(a, b)
    if a is b: return FALSE
    x, k = added(b)
    if k == 1 and a.op != "const": return NOT(lt(x, a))
    if few(a, b):
        if a.op == "ite": return ite(a.a[0], lt(a.a[1], b), lt(a.a[2], b))
        return ite(b.a[0], lt(a, b.a[1]), lt(a, b.a[2]))
    r = inrange(a, b)
    if r is not None: return r
    if inrange(b, a) is not None: return FALSE
    if roomy(a, b): return NOT(eq(a, b))      # a length is at most the capacity
    if roomy(b, a): return FALSE
    if a.op == "const" and b.op == "const":
        try: return TRUE if int(a.a[0]) < int(b.a[0]) else FALSE
        except ValueError: pass
    if b.op == "const" and b.a[0] == "0" : return FALSE if uns or unsigned(a) else mk("lt", a, b, b=True)
    if a.op == "const" and a.a[0] == "0" and (uns or unsigned(b)): return NOT(eq(a, b))
    # n < 1 for counts
    if b.op == "const" and b.a[0] == "1" and (uns or unsigned(a)): return eq(a, mk("const", "0"))
    if tuples(a, b): return lexi(list(zip(a.a[3:], b.a[3:])))
    if b.id < a.id:
        return AND(NOT(mk("lt", b, a, b=True)), NOT(_eqv(b, a)))
    return mk("lt", a, b, b=True)
def tuples(a, b): return a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] == "tuple" and len(a.a) == len(b.a) and len(a.a) > 3
def lexi(ps):
    """Lexicographic order of tuples."""
    if not ps: return FALSE
    x, y = ps[0]
    return OR(lt(x, y), AND(eq(x, y), lexi(ps[1:]))) if len(ps) > 1 else lt(x, y)
def unsigned(t): return t.op == "len" or (t.op == "bin" and t.a[0] in ("Add",) and unsigned(t.a[1])) or t.op == "u"
def _eqv(a, b):
    if b.id < a.id: a, b = b, a
    return mk("eq", a, b, b=True)
def eq(a, b, ordered=False):
    if a is b: return TRUE
    a, b = balance(a, b)
    if a is b: return TRUE
    for x, y in ((a, b), (b, a)):
        r = inrange(x, y)
        if r is not None: return NOT(r)
    if a.b or b.b:
        a = asbool(a); b = asbool(b)
        return ite(a, b, NOT(b))
    for x, y in ((a, b), (b, a)):
        if x is ZERO and y.op == "bin" and y.a[0] == "Add" and unsigned(y.a[1]) and y.a[2].op == "const" and y.a[2].a[0].isdigit() and y.a[2] is not ZERO: return FALSE
        if x.op == "const" and y.op == "const":
            return TRUE if x.a[0] == y.a[0] else FALSE
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[0] == "tuple" and len(a.a) == len(b.a):
        return AND(*[eq(x, y) for x, y in zip(a.a[3:], b.a[3:])])
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and y.op in ("const", "agg"):
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if few(a, b):
        if a.op == "ite": return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.a[0] == "tuple" and len(x.a) > 3: return AND(*[eq(z, proj(y, str(i))) for i, z in enumerate(x.a[3:])])
    if b.id < a.id: a, b = b, a
    e = mk("eq", a, b, b=True)
    return e

FACT = ("kids", "left")
NONE = mk("agg", "adt", "None", ())
EMPTY = mk("call", "empty")
CONTAINERS = ("Vec", "VecDeque", "String", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "SmallVec", "Antichain", "BinaryHeap")
EMPTIES = {c + "::" + k for c in CONTAINERS for k in ("new", "with_capacity")}
def default_of(ty):
    h = ty_head(ty)
    if h in CONTAINERS: return EMPTY
    if h == "Option": return NONE
    if h == "bool": return FALSE
    if re.match(r"^[iu](8|16|32|64|128|size)$", h): return ZERO
    return mk("call", "Default::default", mk("const", h))

SYNONYM = {"Antichain::insert_ref": "Antichain::insert"}
ONTO = {"Cursor::clone_time_onto": "Cursor::owned_time", "BatchContainer::clone_onto": "BatchContainer::into_owned"}
class Stop(Exception): pass

_arity = {}
def toplevel(s):
    """The parts of a type list, split at its outermost commas."""
    out, d, a = [], 0, 0
    for i, c in enumerate(s):
        if c in "(<[{": d += 1
        elif c in ")]}" or c == ">" and s[i - 1] != "-": d -= 1
        elif c == "," and d == 0: out.append(s[a:i].strip()); a = i + 1
    if s[a:].strip(): out.append(s[a:].strip())
    return out
def arity_of(ty, path):
    """Number of fields of the tuple found along path from a value of type ty, 0 when unknown or not a tuple."""
    var = None
    for e in path:
        ty = ty.strip()
        if e == "*":
            m = re.match(r"&(?:'\w+ )?(?:mut )?(.*)$", ty) or re.match(r"std::boxed::Box<(.*)>$", ty)
            if not m: return 0
            ty = m.group(1)
        elif "n" in e and e["n"].isdigit():
            if var is not None:
                m = re.match(r"(?:std|core)::(?:option::Option|result::Result)<(.*)>$", ty)
                if not m or e["n"] != "0": return 0
                ps = toplevel(m.group(1))
                if var == "Err" and len(ps) < 2 or not ps: return 0
                ty = ps[1] if var == "Err" else ps[0]
                var = None
            elif ty.startswith("(") and ty.endswith(")"):
                ps = toplevel(ty[1:-1])
                if int(e["n"]) >= len(ps): return 0
                ty = ps[int(e["n"])]
            else: return 0
        elif "d" in e: var = e["d"]
        else: return 0
    ty = ty.strip()
    return len(toplevel(ty[1:-1])) if var is None and ty.startswith("(") and ty.endswith(")") else 0

class Unit:
    """The value graph of one function."""
    MAXDEPTH = 14
    def __init__(self, prog, body, inline=(), opaque=(), known=None, args=None, generic_clo=None, budget=60000):
        self.prog = prog; self.body = body; self.arity = {}
        self.inline = set(inline); self.opaque = set(opaque)
        self.known = known            # hashes/paths of public functions that stay opaque
        self.events = []
        self.frames = 0
        self.loops = {}               # (callstring, header) -> loop id
        self.marks = {}               # loop id -> set of keys
        self.step = {}                # mu term -> value on the back edges
        self.care = {}                # mu term -> condition of the back edges, given the loop header
        self.prevstep = {}
        self.prevcare = {}
        self.borrowed = {}            # opaque term -> [paths]
        self.shared = set()           # places whose content has been reached through a RefCell
        self.cur_loops = ()
        self.viapath = {}             # element update -> the place that was written
        self.loopinfo = {}            # loop id -> dict(base=..., cond=...)
        self.depth = 0
        self.frameids = {}
        self.blocks_done = 0
        self.budget = budget
        self.locty = {}
        self.inlined = {}
        self.stack = [body["id"]]     # a call back to the function itself stays a call
        self.preds_on = False
        self.ind = {}                 # (loop, key) -> end of the positions a counter runs through
        self.indfail = {}
        self.indnow = {}
        self.fnvals = {}              # functions named as values
        self.drainq = {}              # (loop, key) -> call that takes elements off a collection until it is empty
        self.lenstable = set()        # loop-carried collections whose length does not change
        UNIT_NOW[0] = self
        for it in range(24):
            self.events = []
            self.changed = False
            self.stepseen = set(); self.stepkeep = {}
            self.hdrval = {}
            self.prevstep = dict(self.step)
            self.prevcare = dict(self.care)
            self.params = []
            st = {}
            n = body["nargs"]
            vals = []
            for i in range(n):
                if args is not None and i < len(args) and args[i] is not None: vals.append(args[i])
                else: vals.append(mk("param", i))
            self.ret, self.out, self.retcond = self.run(body, vals, st, TRUE, ("top",))
            if not self.changed and self.prevstep == self.step:
                if not self.find_counters(): break
                self.changed = True
        else:
            if self.changed: raise Stop("no fixpoint in " + body["p"])

    # -------- counters
    def strip_len(self, t, m, seen=()):
        """t is m with elements changed in place: same length."""
        n = 0
        while t is not m and n < 50:
            n += 1
            if t.op == "mut" and t.a[0] == "via": t = t.a[2]
            elif t.op == "store": t = t.a[0]
            elif t.op == "with" and all(isinstance(p[0], tuple) and p[0][0] == "ix" for p, _ in t.a[1:]): t = t.a[0]
            elif t.op == "ite": return self.strip_len(t.a[1], m, seen) and self.strip_len(t.a[2], m, seen)
            elif t.op == "mu" and t is not m:
                if t in seen: return False
                if t in self.lenstable or (t in self.step and self.strip_len(self.step[t], t, seen + (m, t))): t = t.a[2]
                else: return False
            else: return False
        return t is m
    def length(self, t):
        while True:
            if t.op == "mu" and t in self.lenstable: t = t.a[2]
            elif t.op == "mut" and t.a[0] == "via": t = t.a[2]
            elif t.op == "store": t = t.a[0]
            else: break
        return mklen(t)
    def find_counters(self):
        """Loop-carried integers that step by one up to a bound which the loop does not change."""
        found = False
        for m in self.step:
            if m not in self.lenstable and not m.b and m in self.stepseen and self.step[m] is not m and self.strip_len(self.step[m], m):
                self.lenstable.add(m); found = True
        for L, keys in self.marks.items():
            for key in keys:
                if (L, key) in self.ind or self.indfail.get((L, key), 0) >= 3: continue
                m = self.hdrval.get((L, key))
                if m is None or m.op != "mu" or m.b or m not in self.step: continue
                sm = self.step[m]
                if sm.op == "mut" and sm.a[0] in DRAINPOP and sm.a[2] is m and (L, key) not in self.drainq:
                    r = mk("call", sm.a[0], m)
                    if self.loopinfo[L].get("kind") != "lib" and implies(self.care.get(m, TRUE), mk("is", r, "Some", b=True)):
                        self.drainq[(L, key)] = sm.a[0]; found = True
                        continue
                if sm is not plus1(m): continue
                care = self.care.get(m, TRUE)
                cands = []
                for at in atoms(care):
                    if at.op in ("lt", "eq") and m in at.a:
                        x = at.a[1] if at.a[0] is m else at.a[0]
                        if x not in cands: cands.append(x)
                for x in cands:
                    if not (implies(care, lt(m, x)) or implies(care, NOT(eq(m, x)))): continue
                    y = x
                    if x.op == "len": y = self.length(x.a[0])
                    if any(z.op == "mu" and z.a[0] == L for z in subterms(y)): continue
                    self.ind[(L, key)] = y; found = True
                    break
        return found

    # -------- store
    def read(self, st, path):
        root, fs = path
        v = st.get(path)
        if v is None and isinstance(root, T) and refchoice(root):
            return ite(root.a[0], self.read(st, subplace(root.a[1], fs)), self.read(st, subplace(root.a[2], fs)))
        n = len(fs)
        base = v
        if base is None:
            for k in range(n - 1, -1, -1):
                b = st.get((root, fs[:k]))
                if b is not None:
                    base = b
                    for f in fs[k:]: base = proj(base, f)
                    break
            else:
                base = root if isinstance(root, T) else mk("undef", root[1], root[2])
                for f in fs: base = proj(base, f)
        kids = st.get(("kids", root))
        if kids:
            over = [(k[n:], st[(root, k)]) for k in kids if len(k) > n and k[:n] == fs and (root, k) in st]
            if over:
                if base.op == "agg" and base.a[0] == "tuple" and all(len(k) == 1 and k[0] in base.a[2] for k, _ in over):
                    for k, v in over: base = setpath(base, k, v)
                    return base
                if base.op not in ("agg", "closure") and all(k[0] == ("as", "Some") and len(k) > 1 and k[1] == "0" for k, _ in over):
                    w = self.read(st, (root, fs + (("as", "Some"), "0")))
                    return ite(self.isvar(st, base, "Some", "Option", ["None", "Some"]), mk("agg", "adt", "Some", ("0",), w), NONE)
                return mk("with", base, *sorted(over, key=lambda x: str(x[0])))
        return base

    def write(self, st, path, val, bump=True):
        root, fs = path
        if isinstance(root, T) and refchoice(root):
            for c, l in branches(root):
                p = subplace(l, fs)
                self.write(st, p, ite(c, val, self.read(st, p)), bump)
            return
        for k, f in enumerate(fs):
            if varix(f):   # an element at a computed position: an update of the whole
                path = (root, fs[:k])
                val = setpath(self.read(st, path), fs[k:], val)
                fs = fs[:k]
                break
        n = len(fs)
        kids = st.get(("kids", root), ())
        drop = [k for k in kids if len(k) > n and k[:n] == fs]
        if drop:
            for k in drop: st.pop((root, k), None)
            kids = tuple(k for k in kids if k not in drop)
        if n and fs not in kids: kids = kids + (fs,)
        if kids: st[("kids", root)] = kids
        st[path] = val
        # expose enclosing aggregates
        if bump and isinstance(root, T):
            for s in self.borrow_roots(root):
                old = self.read(st, s)
                if not (old.op == "mut" and old.a[0] == "via" and old.a[3] is val):
                    p = self.viapath.get(old)        # an earlier write to the same place no longer shows
                    if p is not None and p[0] is root and p[1][:n] == fs: old = old.a[2]
                    w = mk("mut", "via", 0, old, val)
                    self.viapath[w] = (root, fs) if self.viapath.get(w, (root, fs)) == (root, fs) else None
                    self.write(st, s, w)

    def borrow_roots(self, root):
        if not self.borrowed: return []
        out = []
        for s in subterms(root):
            for p in self.borrowed.get(s, ()):
                if p not in out: out.append(p)
        return out

    def tracked(self, p, depth=0):
        """Whether every later use of the data at p sees changes made through p."""
        root, fs = p
        if isinstance(root, tuple):
            return not any(r == root and fs[:len(k)] == k or r == root and k[:len(fs)] == fs for r, k in self.shared)
        if refchoice(root): return all(self.tracked(subplace(l, fs), depth) for _, l in branches(root))
        r = root
        while r.op in ("fld", "as"): r = r.a[0]
        if r.op == "param": return True
        rs = self.borrow_roots(root)
        return bool(rs) and depth < 6 and all(self.tracked(q, depth + 1) for q in rs if q[0] is not root)

    # -------- places and operands
    def place(self, st, fr, p):
        path = (("loc", fr, p[0]), ())
        for e in p[1]:
            if e == "*":
                v = self.read(st, path)
                if v.op == "ref": path = v.a[0]
                else: path = (v, ())
            elif "n" in e: path = (path[0], path[1] + (e["n"],))
            elif "d" in e: path = (path[0], path[1] + (("as", e["d"]),))
            elif "i" in e:
                iv = self.read(st, (("loc", fr, e["i"]), ()))
                path = self.element(st, path, iv).a[0] if iv.op != "pos" else self.place_of_value(self.element(st, path, iv))
            elif "ci" in e:
                iv = mk("const", ("-" if e["e"] else "") + str(e["ci"]))
                path = (path[0], path[1] + (("ix", iv),))
            elif "ss" in e:
                path = (path[0], path[1] + (("ix", mk("const", "%s..%s%s" % (e["ss"][0], "-" if e["e"] else "", e["ss"][1]))),))
            # downcast on references to options
            if len(path[1]) >= 2 and isinstance(path[1][-2], tuple) and path[1][-2][0] == "as":
                v = None
                base = (path[0], path[1][:-2])
                bv = st.get(base)
                if bv is not None and bv.op == "oref":
                    pass
        return path

    def tuple_arity(self, body, p):
        """The number of fields of the tuple whose field the place p is; 0 when p is not a field of a tuple."""
        if not p[1] or not isinstance(p[1][-1], dict) or not p[1][-1].get("n", "x").isdigit(): return 0
        key = (body["id"], p[0], repr(p[1]))
        if key not in _arity: _arity[key] = arity_of(body["locals"][p[0]][0], p[1][:-1])
        return _arity[key]
    def note_arity(self, st, v, body, p):
        n = self.tuple_arity(body, p)
        if not n: return
        if v.op == "ref": v = self.content(st, v)
        if v.op == "fld" and v.a[1] == p[1][-1]["n"]: self.arity[v.a[0]] = n
    def tupled(self, st, ops):
        """The tuple that is taken apart and put together again, if these are its fields."""
        if len(ops) < 2 or ops[0].op != "fld" or ops[0].a[1] != "0": return None
        e = ops[0].a[0]
        if self.arity.get(e) != len(ops): return None
        return e if all(x.op == "fld" and x.a[0] is e and x.a[1] == str(i) for i, x in enumerate(ops)) else None
    def element(self, st, p, iv):
        """Reference to the element at position iv of the collection at p."""
        if iv.op == "pos":
            c = self.content(st, self.read(st, p))
            if self.length(c).a[0] is once(iv.a[0]):
                e = mk("elem", iv.a[0])
                l = self.borrowed.setdefault(e, [])
                if p not in l: l.append(p)
                return e
        return mkref((p[0], p[1] + (("ix", iv),)), 1)

    def place_of_value(self, v):
        """Location denoted by a reference value."""
        if v.op == "ref": return v.a[0]
        return (v, ())

    def operand(self, st, fr, o, body):
        q = o.get("c") or o.get("m")
        if q is not None:
            v = self.read(st, self.place(st, fr, q))
            if q[1]: self.note_arity(st, v, body, q)
            return v
        if "fn" in o:
            f = o["fn"]
            if f.get("ctor"): return mk("fn", "ctor:" + f["p"].split("::")[-1], f["h"], "")
            self.fnvals[(short(f), f["h"])] = f
            return mk("fn", short(f), f["h"], f.get("r", {}).get("h", ""))
        t = o.get("t", "")
        if "pr" in o and body.get("prom") and o["pr"] < len(body["prom"]):
            pv = self.promoted(body, o["pr"])
            if pv is not None: return pv
        if "b" in o:
            if t == "bool": return TRUE if o["b"] != "0" else FALSE
            return mk("const", o["b"])
        k = o["k"]
        if k == "()" or t == "()": return UNIT
        if "cd" in o: return mk("const", o["cd"].split("::")[-1] if "::" in o["cd"] else o["cd"])
        return mk("const", k.replace("const ", ""))

    def promoted(self, body, i):
        pb = body["prom"][i]
        st = {}
        fr = -1000 - i
        for bb in pb["bbs"]:
            for s in bb["s"]:
                self.stmt(st, fr, s, dict(body, prom=None, locals=pb["locals"]))
            if bb["t"][0] == "call":
                f = bb["t"][1].get("fn")
                if not f: return None
                args = [self.content(st, self.operand(st, fr, a, dict(body, prom=None))) for a in bb["t"][2]]
                self.write(st, self.place(st, fr, bb["t"][3]), EMPTY if short(f) in EMPTIES else mk("call", short(f), *args))
        v = self.read(st, (("loc", fr, 0), ()))
        return self.content(st, v)

    def content(self, st, v, depth=0):
        """The value behind (possibly nested) references."""
        if v.op == "ref":
            c = self.read(st, v.a[0])
            if c is v or depth > 8: return c
            return self.content(st, c, depth + 1)
        if v.op == "oref":
            return self.content(st, self.read(st, v.a[0]), depth + 1)
        if v.op == "ite":
            return ite(v.a[0], self.content(st, v.a[1], depth), self.content(st, v.a[2], depth))
        if v.op in ("agg",) and depth < 6:
            nv = tuple(self.content(st, x, depth + 1) for x in v.a[3:])
            if nv != v.a[3:]: return mk("agg", *(v.a[:3] + nv))
            return v
        if v.op in ("iter",) and depth < 6 and v.a[0].op in ("ref", "ite"):
            return mk("iter", self.content(st, v.a[0], depth + 1))
        r = st.get((v, ()))
        if r is not None or st.get(("kids", v)):
            return self.read(st, (v, ()))
        return v

    # -------- statements
    def stmt(self, st, fr, s, body):
        line, pl, rv = s
        k = rv[0]
        path = self.place(st, fr, pl)
        lty = body["locals"][pl[0]][0] if not pl[1] else None
        self.curline = line
        if k == "use": v = self.operand(st, fr, rv[1], body)
        elif k == "ref":
            p = self.place(st, fr, rv[2]); v = mkref(p, rv[1])
            if rv[2][1]: self.note_arity(st, v, body, rv[2])
        elif k == "raw":
            p = self.place(st, fr, rv[2]); v = mkref(p, rv[1])
        elif k == "cast": v = self.operand(st, fr, rv[2], body)
        elif k == "bin": 
            uns = any(o.get("t", "") in ("usize", "u8", "u16", "u32", "u64", "u128") for o in (rv[2], rv[3]))
            v = self.binop(st, rv[1], self.operand(st, fr, rv[2], body), self.operand(st, fr, rv[3], body), uns)
        elif k == "un":
            x = self.operand(st, fr, rv[2], body)
            if rv[1] == "Not" and (x.b or lty == "bool"): v = NOT(asbool(x))
            elif rv[1] == "PtrMetadata": v = self.length(self.content(st, x))
            else: v = mk("un", rv[1], x) if x.op != "const" else (mk("const", str(-int(x.a[0]))) if rv[1] == "Neg" and x.a[0].lstrip("-").isdigit() else mk("un", rv[1], x))
        elif k == "disc":
            p = self.place(st, fr, rv[1])
            v = mk("disc", self.read(st, p), tuple((x[0], x[1]) for x in rv[2]), ty_head(rv[3]))
        elif k == "agg":
            ops = [self.operand(st, fr, o, body) for o in rv[2]]
            kk = rv[1]
            if kk["k"] == "closure": v = mk("closure", kk["h"], tuple(uniq(kk["fs"])), *ops)
            elif kk["k"] == "adt":
                v = mk("agg", "adt", kk["v"], tuple(kk["fs"]), *ops)
                if kk["p"].split("::")[-1] != kk["v"] and kk["en"] is False: pass
            elif kk["k"] == "tuple" and self.tupled(st, ops) is not None: v = self.tupled(st, ops)
            else: v = mk("agg", kk["k"], "" if kk["k"] == "tuple" else kk["k"], tuple(str(i) for i in range(len(ops))), *ops)
        elif k == "rep": v = mk("agg", "repeat", "repeat", ("0",), self.operand(st, fr, rv[1], body))
        elif k == "setdisc": v = mk("agg", "adt", rv[1], ())
        else: v = mk("opaque", str(rv[0]), str(rv[1]) if len(rv) > 1 else "")
        if lty == "bool": v = asbool(v)
        self.assign(st, path, v, line)

    def assign(self, st, path, v, line):
        # A field of an inlined/own frame local is plain data flow; anything else is a write event.
        if isinstance(path[0], T) and refchoice(path[0]):
            save = self.curcond
            for c, l in branches(path[0]):
                p = subplace(l, path[1])
                self.curcond = AND(save, c)
                if self.curcond is not FALSE and isinstance(p[0], T): self.event("write", "write", [self.content(st, v)], [pathterm(p)], line, raw=[v])
            self.curcond = save
        elif isinstance(path[0], T):
            self.event("write", "write", [self.content(st, v)], [pathterm(path)], line, raw=[v])
        self.write(st, path, v)

    def binop(self, st, op, a, b, uns=False):
        a = self.content(st, a); b = self.content(st, b)
        if op == "Eq": return eq(a, b)
        if op == "Ne": return NOT(eq(a, b))
        if op == "Lt": return lt(a, b, uns)
        if op == "Gt": return lt(b, a, uns)
        if op == "Le": return NOT(lt(b, a, uns))
        if op == "Ge": return NOT(lt(a, b, uns))
        if op == "Cmp": return mk("call", "Ord::cmp", a, b)
        if a.b and b.b:
            if op == "BitAnd": return AND(a, b)
            if op == "BitOr": return OR(a, b)
            if op == "BitXor": return ite(a, NOT(b), b)
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        if op in ("Shl", "Shr") and b.op == "const" and b.a[0] in ("1", "2", "3", "4"):
            op, b = {"Shl": "Mul", "Shr": "Div"}[op], mk("const", str(1 << int(b.a[0])))
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and b.id < a.id: a, b = b, a
        if a.op == "const" and b.op == "const" and op in ("Add", "Sub", "Mul"):
            try:
                x, y = int(a.a[0]), int(b.a[0])
                return mk("const", str({"Add": x + y, "Sub": x - y, "Mul": x * y}[op]))
            except ValueError: pass
        if op == "Add":
            if a.op == "const" and a.a[0] == "0": return b
            if b.op == "const" and b.a[0] == "0": return a
        return mk("bin", op, a, b)

    # -------- events
    def event(self, kind, name, args, locs, line, callee=None, ret=None, raw=None):
        e = Event()
        e.kind = kind; e.name = name; e.args = args; e.locs = locs; e.line = line
        e.file = self.curbody["file"]; e.fn = self.curbody["p"]
        e.cond = self.curcond; e.loops = self.cur_loops; e.seq = len(self.events)
        e.callee = callee; e.ret = ret; e.raw = raw
        e.eff = kind == "call"; e.hid = args; e.pure = False
        e.spath = tuple(self.stack)
        self.events.append(e)
        return e

    # -------- control flow
    def cfg(self, body):
        c = body.get("_cfg")
        if c: return c
        bbs = body["bbs"]
        n = len(bbs)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(bbs):
            if b["c"]: continue
            t = b["t"]
            if t[0] == "goto": s = [t[1]]
            elif t[0] == "switch":
                k = t[1]
                if "k" in k and "b" in k:  # constant switch: prune
                    s = [x[1] for x in t[2] if x[0] == k["b"]] or [t[3]]
                else: s = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == "drop": s = [t[2]]
            elif t[0] == "call": s = [t[4]] if t[4] is not None else []
            elif t[0] == "assert": s = [t[3]]
            else: s = []
            succ[i] = s
        # dead: blocks from which no return is reachable (they diverge: panic / unreachable / infinite loop)
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s in succ[i]: pred[s].append(i)
        live = set(i for i, b in enumerate(bbs) if not b["c"] and b["t"][0] == "ret")
        work = list(live)
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in live: live.add(p); work.append(p)
        # RPO
        order = []; state = {}
        stack = [(0, iter(succ[0]))]; state[0] = 1
        back = set()
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in state:
                    state[s] = 1; stack.append((s, iter(succ[s]))); break
                elif state[s] == 1: back.add((x, s))
            else:
                state[x] = 2; order.append(x); stack.pop()
        order.reverse()
        # natural loops
        loops = {}
        for (x, h) in back:
            body_ = loops.setdefault(h, {h})
            w = [x]
            while w:
                y = w.pop()
                if y in body_: continue
                body_.add(y)
                for p in pred[y]:
                    if p in state: w.append(p)
        # order such that loop bodies are contiguous: standard RPO suffices for reducible graphs, provided
        # that inside-loop successors are visited before exits; re-run DFS with exits last.
        def key(x):
            return lambda s: -sum(1 for h, bl in loops.items() if x in bl and s in bl)
        order2 = []; seen = set()
        def dfs(r):
            stack = [(r, iter(sorted(succ[r], key=lambda s: sum(1 for h, bl in loops.items() if r in bl and s in bl))))]
            seen.add(r)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(sorted(succ[s], key=lambda q: sum(1 for h, bl in loops.items() if s in bl and q in bl)))))
                        break
                else:
                    order2.append(x); stack.pop()
        dfs(0)
        order2.reverse()
        c = (succ, pred, order2, back, loops, live)
        body["_cfg"] = c
        return c

    def frame(self, cs):
        f = self.frameids.get(cs)
        if f is None:
            f = len(self.frameids); self.frameids[cs] = f
        return f

    def loopid(self, cs, h):
        k = (cs, h)
        if k not in self.loops: self.loops[k] = len(self.loops)
        return self.loops[k]

    def run(self, body, vals, st, cond, cs):
        """Evaluate one body; returns (return value, store, condition at return)."""
        fr = self.frame(cs)
        save = (getattr(self, "curbody", None), getattr(self, "curcond", TRUE), self.cur_loops)
        self.curbody = body
        base_loops = self.cur_loops
        self.inlined[body["p"]] = self.inlined.get(body["p"], 0) + 1
        succ, pred, order, back, loops, live = self.cfg(body)
        bbs = body["bbs"]
        st = dict(st)
        for i, v in enumerate(vals):
            if body["locals"][i + 1][0] == "bool": v = asbool(v)
            self.write(st, (("loc", fr, i + 1), ()), v)
        entry = st
        inn = {}      # block -> list of (edge cond, store)
        inn[0] = [(cond, st)]
        rets = []
        inloops = {b: [h for h in loops if b in loops[h]] for b in order}
        header = {}
        exitinfo = {}
        for b in order:
            if b not in inn: continue
            if bbs[b]["c"]: continue
            self.blocks_done += 1
            if self.blocks_done > self.budget: raise Stop("budget exceeded in " + body["p"])
            ins = [(c, s) for c, s in inn[b] if c is not FALSE]
            if not ins: continue
            bcond, st = self.merge(ins)
            if VISITED is not None: VISITED.add((body["id"], b))
            if b in loops:
                L = self.loopid(cs, b)
                marks = self.marks.setdefault(L, {})
                entry_st = st
                st = dict(st)
                self.cur_loops = base_loops + tuple(header[h][0] for h in sorted(inloops[b], key=lambda h: order.index(h)) if h in header and h != b)
                for key in sorted(marks, key=str):
                    init = self.read(entry_st, key)
                    if (L, key) in self.drainq:
                        hv = mk("dq", L, init)
                        self.hdrval[(L, key)] = hv
                        self.curcond = bcond
                        if not self.tracked(key):
                            self.event("call", "clear", [init], [pathterm(key)], bbs[b]["l"])
                            self.events[-1].loops = base_loops
                        self.write(st, key, hv, bump=False)
                        continue
                    if (L, key) in self.ind:
                        hv = self.ind[(L, key)]
                        hv = elem_of(mkrange(init, hv))
                        self.hdrval[(L, key)] = hv
                        self.write(st, key, hv, bump=False)
                        continue
                    self.write(st, key, mk("mu", L, pathterm(key) if not isinstance(key[0], tuple) else mk("var", key[0][1], key[0][2], *[f if isinstance(f, str) else str(f) for f in key[1]]), init, b=init.b), bump=False)
                for key in marks: self.hdrval.setdefault((L, key), st.get(key))
                header[b] = (L, bcond, st, entry_st)
                self.loopinfo.setdefault(L, {"fn": body["p"], "line": bbs[b]["l"], "entry": bcond})
            self.cur_loops = base_loops + tuple(header[h][0] for h in sorted(inloops[b], key=lambda h: order.index(h)) if h in header)
            self.curcond = bcond
            for s in bbs[b]["s"]: self.stmt(st, fr, s, body)
            t = bbs[b]["t"]; line = bbs[b]["l"]; self.curline = line
            outs = []     # (target, cond, store)
            k = t[0]
            if k == "goto": outs = [(t[1], bcond, st)]
            elif k == "drop": outs = [(t[2], bcond, st)]; self.on_drop(st, fr, t, line)
            elif k == "assert": outs = [(t[3], bcond, st)]
            elif k == "ret":
                rets.append((b, bcond, st))
            elif k == "switch":
                conds = self.switch(st, fr, t, body)
                livet = [x for x in conds if x[0] in live]
                bare = self.payload_test(bbs[b], t)     # a refusal for want of a payload is an unwrap
                for tgt, c in conds:
                    if tgt not in live and not bare:
                        outs.append((tgt, self.known_(st, AND(bcond, c)), st))
                alive = {x[0] for x in livet}
                if len(alive) == 1 and len(conds) > len(livet):
                    outs.append((livet[0][0], bcond, st))   # asserts do not strengthen what follows
                else:
                    for tgt, c in livet: outs.append((tgt, self.known_(st, AND(bcond, c)), st))
            elif k == "call":
                self.preds_on = True
                r = self.call(st, fr, t, body, line, cs + (b,))
                if t[4] is not None and r is not None:
                    st, c2 = r
                    outs = [(t[4], c2, st)]
            # loop edges and exits
            for tgt, c, s in outs:
                if c is FALSE: continue
                if (b, tgt) in back and tgt in header:
                    self.backedge(header[tgt], c, s)
                    continue
                ex = [h for h in inloops[b] if b in loops[h] and tgt not in loops[h] and h in header]
                if ex and tgt in live:
                    ex.sort(key=lambda h: -order.index(h))
                    for h in ex: c, s = self.exit_loop(header[h], c, s, b, h, tgt, exitinfo, loops[h], succ, live)
                inn.setdefault(tgt, []).append((c, s))
        if not rets:
            self.curbody, self.curcond, self.cur_loops = save
            return None, entry, FALSE
        rc, st = self.merge([(c, s) for _, c, s in rets])
        v = self.read(st, (("loc", fr, 0), ()))
        self.curbody, self.curcond, self.cur_loops = save
        return v, st, rc

    def payload_test(self, bb, t):
        o = t[1].get("m") or t[1].get("c")
        for line, pl, rv in bb["s"]:
            if o and pl[0] == o[0] and not pl[1] and rv[0] == "disc": return ty_head(rv[3]) in ("Option", "Result")
        return False

    def merge(self, ins):
        if len(ins) == 1: return ins[0][0], dict(ins[0][1])
        care = OR(*[c for c, _ in ins])
        keys = {}
        s0 = ins[0][1]
        for _, s in ins[1:]:
            for k in s:
                if k not in keys and s0.get(k) is not s[k]: keys[k] = 1
            for k in s0:
                if k not in keys and k not in s: keys[k] = 1
        out = dict(s0)
        for k in keys:
            if k[0] == "kids": continue
        # children sets first
        kk = [k if k != FACT else FACT for k in keys if k[0] == "kids"]
        for k in kk:
            if k is FACT: 
                f = OR(*[AND(c, s.get(FACT, TRUE)) for c, s in ins])
                f = restrict(f, care)
                if f is TRUE or f is FALSE: out.pop(FACT, None)
                else: out[FACT] = f
                continue
            u = []
            for _, s in ins:
                for x in s.get(k, ()):
                    if x not in u: u.append(x)
            out[k] = tuple(u)
        for k in keys:
            if k[0] == "kids": continue
            # a local that only some branches define is dead at the join
            if isinstance(k[0], tuple) and not k[1] and any(k not in s for _, s in ins):
                vs = [s[k] for _, s in ins if k in s]
                out[k] = vs[0]
                if len(vs) > 1:
                    v = vs[-1]
                    have = [(c, s[k]) for c, s in ins if k in s]
                    v = have[-1][1]
                    for c, x in reversed(have[:-1]): v = ite(c, x, v)
                    out[k] = restrict(v, OR(*[c for c, _ in have]))
                continue
            v = None
            for c, s in reversed(ins):
                x = s.get(k)
                if x is None: x = self.read(s, k)
                v = x if v is None else ite(c, x, v)
            out[k] = restrict(v, care)
        return care, out

    def backedge(self, hdr, c, s):
        L, hc, hst, entry = hdr
        marks = self.marks[L]
        for k in [k for k in s if k[0] != "kids" and isinstance(k[0], tuple) and k not in marks and s[k].op == "agg" and s[k].a[0] == "tuple"]:
            h = hst.get(k); v = s[k]
            if h is None or h is v: continue
            h = self.read(hst, k)
            if h.op == "agg" and h.a[:3] == v.a[:3] and len(v.a[2]):
                s = dict(s); v = self.read(s, k); del s[k]
                for q in [q for q in s if q[0] == k[0] and q[1][:len(k[1])] == k[1]]: del s[q]
                for i, n in enumerate(v.a[2]): s[(k[0], k[1] + (n,))] = v.a[3 + i]
        for k in list(s):    # a changed payload is a changed option
            if k[0] == "kids" or k in marks or k not in s: continue
            i = next((i for i, f in enumerate(k[1]) if f == ("as", "Some")), None)
            if i is None or hst.get(k) is s[k] or isinstance(k[0], T) and self.transient(L, k[0]): continue
            if any(k[1][j] != ("as", "Some") and isinstance(k[1][j], tuple) for j in range(len(k[1]))): continue
            s = dict(s)
            self.write(s, (k[0], k[1][:i]), self.read(s, (k[0], k[1][:i])), bump=False)
        for k in s:
            if k[0] == "kids": continue
            v = s[k]
            h = hst.get(k)
            if h is v:
                if k in marks and h.op == "mu" and (L, k) not in self.ind and (L, k) not in self.drainq:
                    rel = restrict(c, hc)       # this way round leaves it as it is
                    if h in self.stepseen: self.step[h] = ite(rel, h, self.step[h]); self.care[h] = OR(rel, self.care[h])
                    else: self.stepkeep[h] = OR(rel, self.stepkeep.get(h, FALSE))
                continue
            if isinstance(k[0], T) and k not in marks and self.transient(L, k[0]): continue
            if isinstance(k[0], tuple) and not k[1] and h is None: continue   # temporary of the body
            if h is None:
                if isinstance(k[0], tuple) and (k[0], ()) not in hst and not any((k[0], k[1][:i]) in hst for i in range(len(k[1]))):
                    continue
                h = self.read(hst, k)
                if h is v: continue
            # a mark on a prefix covers it
            if k in marks:
                m = hst.get(k)
                if (L, k) in self.ind:
                    more = inrange(m, self.ind[(L, k)])
                    if more is None or v is not plus1(m) or not implies(restrict(c, hc), more):
                        if os.environ.get("DD_DEBUG"): print("NOIND", L, k, show(m), show(v), show(restrict(c, hc)))
                        del self.ind[(L, k)]
                        self.indfail[(L, k)] = self.indfail.get((L, k), 0) + 1
                        self.changed = True
                    continue
                if (L, k) in self.drainq:
                    del self.drainq[(L, k)]
                    self.indfail[(L, k)] = self.indfail.get((L, k), 0) + 1
                    self.changed = True
                    continue
                if m is not None and m.op == "mu":
                    rel = restrict(c, hc)
                    if m not in self.stepseen:
                        self.stepseen.add(m); nv = v; self.care[m] = rel
                        if m in self.stepkeep:
                            nv = ite(rel, v, m); self.care[m] = OR(rel, self.stepkeep[m])
                    else: nv = ite(rel, v, self.step[m]); self.care[m] = OR(rel, self.care[m])
                    self.step[m] = nv
                continue
            marks[k] = 1
            if os.environ.get("DD_DEBUG"): print("MARK", L, show(k[0])[:150], k[1], "|", show(h)[:200], "->", show(v)[:200])
            self.changed = True

    def transient(self, L, root):
        """A location that only exists within an iteration (borrowed, or named by loop-variant data)."""
        for s in subterms(root):
            if s in self.borrowed: return True
            if s.op == "mu" and s.a[0] == L: return True
            if s.op in ("mut", "next"): return True
        return False

    def dep_loop(self, L, base):
        memo = {}
        def dep(t):
            for s in subterms(t):
                if s.op == "mu" and s.a[0] == L: return True
                if base is not None and s.op in ("elem", "pos", "more") and s.a[0] is base: return True
            return False
        def go(t):
            r = memo.get(t)
            if r is None: r = memo[t] = dep(t)
            return r
        return go

    def exit_loop(self, hdr, c, s, b, h, tgt, info, nodes, succ, live):
        L, hc, hst, entry = hdr
        rel = restrict(c, hc)
        # the iteration atom of this loop, if it is an iterator loop
        mores = [a for a in atoms(rel) if a.op == "more"]
        base = None
        for a in mores:
            base = a.a[0]
        li = self.loopinfo[L]
        for a in mores:
            # `more` atoms tested by this loop's own header chain
            if cofactor(rel, a, True) is FALSE:   # leaving because the iterator is exhausted
                if li.get("base") is None: self.changed = True
                li["base"] = a.a[0]; base = a.a[0]
        base = li.get("base", base)
        exits = [(x, y) for x in nodes for y in succ[x] if y not in nodes and y in live]
        ntargets = len(set(exits))
        joined = ntargets > 1 and len({self.final(self.curbody, y) for _, y in exits}) == 1
        dep = self.dep_loop(L, base)
        normal = any(cofactor(rel, a, True) is FALSE for a in mores)
        early = info.setdefault(h, [])
        if ntargets <= 1:
            nc = hc
        elif joined:     # all ways out lead to the same place
            left = info.setdefault((h, "left"), [])
            x = mk("atexit", rel, b=True)
            nc = AND(hc, *[NOT(y) for y in left])
            if len(left) < ntargets - 1: nc = AND(nc, x)
            left.append(x)
        elif normal:
            nc = hc
            key = "normal"
            # all early exits may not have been seen yet; condition is refined through li["early"] of the last pass
            for x in li.get("early", ()): nc = AND(nc, NOT(x))
        else:
            p = rel
            for a in mores:
                if a.a[0] is base: p = cofactor(p, a, True)
            x = mk("exists", base if base is not None else mk("loop", L), p, b=True) if p is not TRUE else (NOT(eq(mk("len", base), mk("const", "0"))) if base is not None else mk("exit", L, len(early), b=True))
            early.append(x)
            if early != li.get("early"):
                li["early_new"] = list(early)
            if base is None and len(early) == ntargets:
                nc = hc
                for x in early[:-1]: nc = AND(nc, NOT(x))
            else:
                nc = hc
                for y in early[:-1]: nc = AND(nc, NOT(y)) if False else nc
                nc = AND(nc, x)
            if li.get("early") != list(early) and len(early) >= len(li.get("early", ())):
                li["early"] = list(early); self.changed = True
        nc2 = nc if joined else exists_atoms(nc, lambda a: dep(a) and a.op != "exists")
        s2 = s
        for k in self.marks[L]:
            if (L, k) in self.ind and k in s:
                m = hst.get(k)
                if s[k] is not m: continue
                hi = self.ind[(L, k)]
                if s2 is s: s2 = dict(s)
                if normal and inrange(m, hi) in mores: v = hi if m.op == "pos" else mk("end", m.a[0].a[0], hi)
                elif joined and m in self.prevcare: v = mk("stop", m, NOT(self.prevcare[m]))
                else: v = mk("stop", m, rel)
                self.write(s2, k, v, bump=False)
        for k in self.marks[L]:
            if (L, k) in self.drainq and k in s:
                if s[k] is not hst.get(k) or not normal:
                    del self.drainq[(L, k)]
                    self.indfail[(L, k)] = 3
                    self.changed = True
                    continue
                if s2 is s: s2 = dict(s)
                self.write(s2, k, EMPTY, bump=False)
        # flags: mu(false) stepping to true under p, otherwise unchanged
        sub = {}
        for k in self.marks[L]:
            m = hst.get(k)
            v = s.get(k)
            if m is None or v is None: continue
            if v is m and m.op == "mu" and m.b and normal:
                stp = self.prevstep.get(m)
                if stp is not None and m.a[2] in (TRUE, FALSE) and base is not None:
                    inv = m.a[2]
                    # step == ite(p, !init, m)
                    p = cofactor(stp, m, inv is TRUE)
                    flip = NOT(p) if inv is TRUE else p
                    more = mk("more", base, b=True)
                    flip = cofactor(flip, more, True)
                    if m not in subterms(flip):
                        ex = mk("exists", base, flip, b=True)
                        sub[k] = NOT(ex) if inv is TRUE else ex
            elif normal and v is m and m.op == "mu":
                x = self.collected(m, base)
                if x is None and ntargets <= 1: x = self.last_written(L, m, base)
                if x is not None: sub[k] = x
        if sub:
            if s2 is s: s2 = dict(s)
            for k, v in sub.items(): self.write(s2, k, v)
        if not joined and not normal and ntargets > 1:
            # what held when the loop was left still holds of the values left with
            f = rel
            for a in mores: f = cofactor(f, a, True)
            if f is not TRUE and f is not FALSE:
                if s2 is s: s2 = dict(s)
                f = AND(s2.get(FACT, TRUE), f)
                if f is not FALSE: s2[FACT] = f
        return nc2, s2

    def known_(self, st, c):
        """c, in view of how the loops before were left."""
        f = st.get(FACT)
        if f is None or c is TRUE or c is FALSE: return c
        mine = set(atoms(c))
        if not any(a in mine for a in atoms(f)): return c
        return restrict(c, f)

    def final(self, body, y):
        """The first block after y that does something."""
        for _ in range(20):
            bb = body["bbs"][y]
            if bb["t"][0] not in ("goto", "drop") or any(pl[1] or rv[0] != "use" or rv[1].get("k") != "()" for _, pl, rv in bb["s"]): return y
            y = bb["t"][1] if bb["t"][0] == "goto" else bb["t"][2]
        return y

    def last_written(self, L, m, base):
        """The value of a location that every iteration overwrites without regard to the earlier ones."""
        if base is None or base.op not in PLAINBASE: return None
        stp = self.prevstep.get(m)
        if stp is None: return None
        stp = cofactor(stp, mk("more", base, b=True), True)
        for x in subterms(stp):
            if x.op == "mu" and isinstance(x.a[0], int) and x.a[0] >= L or x.op in ("pos", "next", "exists", "mut", "dq") or x.op == "var": return None
        e = mk("elem", base)
        return ite(eq(mklen(base), ZERO), m.a[2], subst(stp, {e: last_of(base)}))

    def collected(self, m, base):
        """What has been gathered by pushing every element of base, in order and as it is, into an empty collection: base."""
        if m.a[2] is not EMPTY or base is None or base.op in ("range", "zip", "rev"): return None
        stp = self.prevstep.get(m)
        if stp is None: return None
        stp = cofactor(stp, mk("more", base, b=True), True)
        if stp.op == "mut" and stp.a[0] in GATHER and stp.a[2] is m and stp.a[3] is mk("elem", base): return base
        return None

    def switch(self, st, fr, t, body):
        d = self.operand(st, fr, t[1], body)
        out = []
        if d.op == "disc":
            val, vs, tyn = d.a
            names = [n for _, n in vs]
            rest = list(names)
            for v, tgt in t[2]:
                nm = dict(vs).get(v)
                if nm is None: continue
                if nm in rest: rest.remove(nm)
                out.append((tgt, self.isvar(st, val, nm, tyn, names)))
            oth = OR(*[self.isvar(st, val, nm, tyn, names) for nm in rest]) if rest else FALSE
            out.append((t[3], oth))
        elif t[4] == "bool" or d.b:
            c = asbool(self.content(st, d))
            for v, tgt in t[2]:
                out.append((tgt, NOT(c) if v == "0" else c))
            out.append((t[3], c if t[2] and t[2][0][0] == "0" else NOT(c)))
        else:
            d = self.content(st, d)
            rest = TRUE
            for v, tgt in t[2]:
                c = eq(d, mk("const", v))
                out.append((tgt, AND(rest, c)))
                rest = AND(rest, NOT(c))
            out.append((t[3], rest))
        # merge equal targets
        m = {}
        for tgt, c in out:
            m[tgt] = OR(m.get(tgt, FALSE), c)
        return list(m.items())

    def isvar(self, st, val, nm, tyn, names):
        if val.op == "ref": val = self.content(st, val)
        if val.op == "ite": return ite(val.a[0], self.isvar(st, val.a[1], nm, tyn, names), self.isvar(st, val.a[2], nm, tyn, names))
        if val.op == "agg": return TRUE if val.a[1] == nm else FALSE
        if val.op == "some": return TRUE if nm == "Some" else FALSE
        if val.op == "with" : return self.isvar(st, val.a[0], nm, tyn, names)
        if val.op == "oref":
            return self.isvar(st, self.read(st, val.a[0]), nm, tyn, names)
        if val.op == "next":
            s = val.a[0]
            c = AND(mk("more", stream_base(s), b=True), filt_of(s))
            return c if nm == "Some" else NOT(c)
        if val.op == "call":
            n = val.a[0]
            if n in ("Ord::cmp", "Ordering::cmp") and nm in ("Less", "Equal", "Greater"):
                a, b = val.a[1], val.a[2]
                if tuples(a, b): return {"Less": lambda: lt(a, b), "Greater": lambda: lt(b, a), "Equal": lambda: eq(a, b)}[nm]()
                if a.id > b.id:
                    a, b = b, a
                    nm = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[nm]
                l = mk("lt", a, b, b=True)
                e = _eqv(a, b)
                return {"Less": l, "Equal": AND(NOT(l), e), "Greater": AND(NOT(l), NOT(e))}[nm]
            if n == "Ordering::reverse":
                return self.isvar(st, val.a[1], {"Less": "Greater", "Greater": "Less"}.get(nm, nm), tyn, names)
            if n == "Try::branch":
                ty = val.a[2].a[0]
                good = self.isvar(st, val.a[1], "Some" if ty == "Option" else "Ok", ty, list(VARIANTS2[ty]))
                return good if nm == "Continue" else NOT(good)
            z = split(val)
            if z is not None and z.op == "ite": return self.isvar(st, z, nm, tyn, names)
        if len(names) == 2:
            at = mk("is", val, names[1], b=True)
            return at if nm == names[1] else NOT(at)
        r = TRUE
        for x in names:
            at = mk("is", val, x, b=True)
            if x == nm:
                return r if x == names[-1] else AND(r, at)
            r = AND(r, NOT(at))
        return r

    def on_drop(self, st, fr, t, line):
        pass

    # -------- calls
    def call(self, st, fr, t, body, line, cs):
        """Returns (store, condition after) or None when the call diverges."""
        f = t[1].get("fn")
        raw = [self.operand(st, fr, a, body) for a in t[2]]
        dest = t[3]
        tys = []
        for a in t[2]:
            p = a.get("m") or a.get("c")
            tys.append(body["locals"][p[0]][0] if p and not p[1] else a.get("t", ""))
        dty = body["locals"][dest[0]][0] if not dest[1] else ""
        st = dict(st)
        if f is None:
            # call through a function pointer / opaque callee value
            fv = self.operand(st, fr, t[1], body)
            name = "indirect"
            if fv.op == "fn": name = fv.a[0]
            r, c = self.effect(st, name, [fv] + raw, ["fn"] + tys, dty, line, None, cs)
        else:
            ch = next((i for i, v in enumerate(raw) if refchoice(v) and i < len(tys) and tys[i].startswith("&mut")), None)
            if ch is None: r, c = self.dispatch(st, f, raw, tys, dty, line, cs, body)
            else:
                c = self.curcond; rs = []; outs = []
                for j, (bc, l) in enumerate(branches(raw[ch])):
                    self.curcond = AND(c, bc)
                    if self.curcond is FALSE: continue
                    s1 = dict(st); self.poststore = None
                    raw1 = list(raw); raw1[ch] = l
                    r, c1 = self.dispatch(s1, f, raw1, tys, dty, line, cs + (("ch", j),), body)
                    s1 = self.poststore if self.poststore is not None else s1
                    self.poststore = None
                    if r is None: continue
                    rs.append((bc, r)); outs.append((c1, s1))
                self.curcond = c
                if not rs: r = None
                else:
                    r = rs[-1][1]
                    for bc, x in reversed(rs[:-1]): r = ite(bc, x, r)
                    c, self.poststore = self.merge(outs)
        if r is None or t[4] is None:
            if t[4] is None and f is not None:
                self.event("panic", short(f), [self.content(st, x) for x in raw], [None] * len(raw), line)
            return None
        st2 = self.poststore if self.poststore is not None else st
        self.poststore = None
        if dty == "bool": r = asbool(r)
        self.assign(st2, self.place(st2, fr, dest), r, line)
        return st2, c

    poststore = None

    def dispatch(self, st, f, raw, tys, dty, line, cs, body):
        name = short(f)
        name = SYNONYM.get(name, name)
        cond = self.curcond
        C = lambda v: self.content(st, v)
        n = len(raw)
        # ---- calls of closures and functions as values
        if f.get("tr", "").startswith("std::ops::") and f["n"] in ("call", "call_mut", "call_once") and f["tr"].split("::")[-1] in ("Fn", "FnMut", "FnOnce"):
            callee = raw[0]
            args = []
            tup = raw[1]
            if tup.op == "agg": args = list(tup.a[3:])
            else: args = [proj(tup, str(i)) for i in range(self.arity.get(tup, 0))] or [tup]
            return self.apply(st, callee, args, line, cs, dty, pure=f["n"] == "call")
        # ---- transparent
        if name in SAME:
            if name == "RefCell::borrow_mut" and raw[0].op == "ref": self.shared.add(self.follow(st, raw[0]))
            if name in ("Deref::deref", "DerefMut::deref_mut") and raw[0].op == "ref" and re.match(r"&(mut )?(std|core)::cell::Ref(Mut)?<", tys[0] if isinstance(tys[0], str) else ""):
                inner = self.read(st, raw[0].a[0])
                if inner.op == "ref": return inner, cond
            if name in COPIES and raw[0].op in ("ref", "oref") and not (tys and isinstance(tys[0], str) and SHARES.match(tys[0])): return C(raw[0]), cond
            return raw[0], cond
        if name == "Into::into" or name == "From::from":
            a = f["a"]
            if len(a) >= 2 and a[0] == a[1]: return raw[0], cond
            if ty_head(dty) == "Antichain" and tys and isinstance(tys[0], str) and ty_head(tys[0]) == "Vec":
                q = (("loc", self.frame(cs + ("ac",)), 0), ())
                self.write(st, q, EMPTY)
                self.poststore = self.push_each(st, cs, line, self.stream_arg(st, raw[0]), q, "Antichain::insert")
                return self.read(self.poststore, q), self.curcond
            return mk("call", "into", C(raw[0])), cond
        if name in OPTREF:
            v = raw[0]
            if v.op == "ref": return mk("oref", v.a[0]), cond
            return v, cond
        if name in ITERS:
            c = raw[0]
            if name in DRAINS:
                old = C(c)
                rng = C(raw[1]) if n > 1 else None
                full = rng is None or (rng.op == "agg" and rng.a[1] == "RangeFull")
                if full:
                    self.emptied(st, self.place_of_value(c), old, line)
                    return mkiter(old), cond
                self.event("call", name, [old, rng], [self.locterm(c), None], line, raw=raw)
                self.events[-1].pure = self.tracked(self.place_of_value(c))
                self.write(st, self.place_of_value(c), mk("mut", name, 0, old, rng))
                return mkiter(old if full else mk("call", "drained", old, rng)), cond
            v = c
            if v.op == "ref":
                cv = self.read(st, v.a[0])
                if is_stream(cv) or cv.op == "mu" and is_stream(cv):
                    # &mut iterator: adapt in place
                    return (v if name in ("Iterator::by_ref", "IntoIterator::into_iter") else cv), cond
                cc = C(v)
                t = mkiter(cc)
                if dty.find("Mut") >= 0 or (tys[0].startswith("&mut") and name == "IntoIterator::into_iter"):
                    l = self.borrowed.setdefault(elem_of(t), [])
                    if v.a[0] not in l: l.append(v.a[0])
                return t, cond
            t = mkiter(C(v))
            if not is_stream(v) and (tys[0].startswith("&mut") and name == "IntoIterator::into_iter" or "Mut" in dty or name.endswith("_mut")):
                l = self.borrowed.setdefault(elem_of(t), [])
                p = self.place_of_value(v)
                if p not in l: l.append(p)
            return t, cond
        if name in DRAINPOP and self.drainq:
            p = self.follow(st, raw[0])
            for (L, key), nm in self.drainq.items():
                if key == p and nm == name and L in self.cur_loops:
                    d = self.read(st, p)
                    if d.op == "dq" and d.a[0] == L:
                        x = mkiter(d.a[1])
                        return mk("next", x if name == "VecDeque::pop_front" else mk("srev", x)), cond
        if name == "Iterator::next" or name == "DoubleEndedIterator::next_back":
            v = raw[0]
            p = self.place_of_value(v)
            s = C(v)
            if name != "Iterator::next": s = mk("srev", s) if is_stream(s) else s
            if is_stream(s):
                self.write(st, p, mk("mut", "Iterator::next", 0, s))
                return mk("next", s if s.op != "mu" else s), cond
            # opaque iterator: still a stream over the opaque value
            b = s
            while b.op == "mu" or (b.op == "mut" and b.a[0] == "Iterator::next"): b = b.a[2]
            self.write(st, p, mk("mut", "Iterator::next", 0, s))
            return mk("next", mk("iter", b)), cond
        if name == "Iterator::rev": return mk("srev", mkiter(C(raw[0]))), cond
        if name == "Iterator::enumerate": return mk("senum", mkiter(C(raw[0]))), cond
        if name == "Iterator::zip": return mk("szip", mkiter(C(raw[0])), mkiter(C(raw[1]))), cond
        if name in ("Iterator::skip", "Iterator::take") and n == 2:
            x = mkiter(C(raw[0]))
            if x.op == "iter" and x.a[0].op != "range":
                k = C(raw[1])
                y = mkiter(mk("call", "slice_range", x.a[0], mk("agg", "adt", "RangeFrom", ("start",), k) if name == "Iterator::skip" else mk("agg", "adt", "RangeTo", ("end",), k)))
                return y, cond
        if name == "Iterator::chain" and n == 2: return mk("schain", mkiter(C(raw[0])), mkiter(C(raw[1]))), cond
        if name in ("Iterator::skip", "Iterator::take", "Iterator::step_by") and n == 2:
            return mk("iter", mk("call", name.split("::")[1], chained(mkiter(C(raw[0]))), C(raw[1]))), cond
        # ---- payloads
        if name in PAYLOAD:
            v = raw[0]
            vv = v
            return self.payload(st, vv, PAYLOAD[name]), cond
        if name in ("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err"):
            ty = name.split("::")[0]
            nm = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[f["n"]]
            return self.isvar(st, C(raw[0]) if raw[0].op in ("ref", "ite") else raw[0], nm, ty, list(VARIANTS2[ty])), cond
        if name == "Try::branch":
            return mk("call", "Try::branch", raw[0], mk("const", ty_head(tys[0]) or "Result")), cond
        if name == "FromResidual::from_residual":
            if "Option" in dty.split("<")[0]: return NONE, cond
            r = C(raw[0])
            x = r.a[0].a[0] if r.op == "fld" and r.a[0].op == "as" else None
            if x is not None and x.op == "call" and x.a[0] == "Try::branch" and r.a[0].a[1] == "Break":
                r = self.payload(st, x.a[1] if x.a[1].op != "ref" else C(x.a[1]), "Err")
                r = C(r)
                last = tys[0].rstrip(">").split(",")[-1].strip() if tys else ""
                if not (last and dty.rstrip(">").endswith(last)): r = mk("call", "into", r)
            return mk("agg", "adt", "Err", ("0",), r), cond
        if name in CLEARS:
            p = self.follow(st, raw[0])
            self.emptied(st, p, self.read(st, p), line)
            return UNIT, cond
        # ---- fresh values
        if name == "Default::default" and n == 0: return default_of(dty), cond
        if name in EMPTIES: return EMPTY, cond
        if name in ("slice::first", "slice::last", "slice::get", "VecDeque::front", "VecDeque::back", "VecDeque::get") and (f["n"] != "get" or tys[1] in ("usize", "")):
            c = C(raw[0])
            if c.op != "call" or c.a[0] != "slice_range":
                n_ = self.length(c)
                if f["n"] == "get":
                    i = C(raw[1])
                    return ite(lt(i, n_), mk("agg", "adt", "Some", ("0",), index_term(c, i)), NONE), cond
                x = index_term(c, ZERO) if f["n"] in ("first", "front") else last_of(c)
                return ite(eq(n_, ZERO), NONE, mk("agg", "adt", "Some", ("0",), x)), cond
        if name == "Box::new_uninit": return mkref((("loc", self.frame(cs + ("box",)), 0), ()), 1), cond
        if name == "box_assume_init_into_vec_unsafe" and raw[0].op == "ref":
            v = self.read(st, (raw[0].a[0][0], raw[0].a[0][1] + ("value", "value")))
            return (EMPTY if v.op == "agg" and v.a[0] == "array" and len(v.a) == 3 else v), cond
        if name == "Option::get_or_insert_default": pass
        # ---- memory moves
        if name == "Option::take" or name == "take" and f["p"].startswith(("std::mem", "core::mem")):
            p = self.place_of_value(raw[0]); old = self.read(st, p)
            new = NONE if name == "Option::take" else default_of(dty)
            if isinstance(p[0], T): self.event("write", "write", [new], [pathterm(p)], line, raw=[new])
            self.write(st, p, new); return old, cond
        if name in ("replace", "Option::replace") and (f["p"].startswith(("std::mem", "core::mem")) or name == "Option::replace"):
            p = self.place_of_value(raw[0]); old = self.read(st, p)
            new = raw[1] if name == "replace" else mk("agg", "adt", "Some", ("0",), raw[1])
            if isinstance(p[0], T): self.event("write", "write", [self.content(st, new)], [pathterm(p)], line, raw=[new])
            self.write(st, p, new); return old, cond
        if name == "Option::insert":
            p = self.place_of_value(raw[0])
            new = mk("agg", "adt", "Some", ("0",), raw[1])
            if isinstance(p[0], T): self.event("write", "write", [self.content(st, new)], [pathterm(p)], line, raw=[new])
            self.write(st, p, new)
            return mkref((p[0], p[1] + (("as", "Some"), "0")), 1), cond
        if name == "swap" and f["p"].startswith(("std::mem", "core::mem")):
            p = self.place_of_value(raw[0]); q = self.place_of_value(raw[1])
            x = self.read(st, p); y = self.read(st, q)
            if isinstance(p[0], T): self.event("write", "write", [self.content(st, y)], [pathterm(p)], line, raw=[y])
            if isinstance(q[0], T): self.event("write", "write", [self.content(st, x)], [pathterm(q)], line, raw=[x])
            self.write(st, p, y); self.write(st, q, x); return UNIT, cond
        if name == "Clone::clone_from":
            p = self.place_of_value(raw[0]); v = C(raw[1])
            if isinstance(p[0], T): self.event("write", "write", [v], [pathterm(p)], line, raw=[v])
            self.write(st, p, v); return UNIT, cond
        if name in ONTO and n == 2 and not f.get("r"):
            p = self.place_of_value(raw[1])
            g = dict(f, n=ONTO[name].split("::")[1], p=f["p"].replace(f["n"], ONTO[name].split("::")[1]))
            v, c = self.dispatch(st, g, [raw[0]], tys[:1], "", line, cs, body)
            if isinstance(p[0], T): self.event("write", "write", [v], [pathterm(p)], line, raw=[v])
            self.write(st, p, v); return UNIT, c
        if name == "drop" and f["p"].startswith(("std::mem", "core::mem")):
            if tys and isinstance(tys[0], str) and ty_head(tys[0]) in ("Ref", "RefMut", "MutexGuard"): return UNIT, cond
            self.event("call", "drop", [C(raw[0])], [None], line, raw=raw)
            return UNIT, cond
        # ---- comparisons
        if name in ("PartialEq::eq", "PartialEq::ne"):
            if f.get("r", {}).get("loc") and not self.derived(f["r"]["h"]):
                e = mk("call", name, C(raw[0]), C(raw[1]))
                return asbool(e), cond
            x, y = C(raw[0]), C(raw[1])
            if ty_head(tys[0] or "") == "Option":
                for x, y in ((x, y), (y, x)):
                    if y.op == "agg" and y.a[1] in ("Some", "None"): break
            if y.op == "agg" and y.a[1] in ("Some", "None") and y.a[0] == "adt":
                e = self.isvar(st, x, "Some", "Option", ["None", "Some"])
                e = NOT(e) if y.a[1] == "None" else AND(e, eq(self.content(st, proj(as_variant(x, "Some"), "0")), y.a[3]))
            else: e = eq(x, y)
            return (e if name.endswith("eq") else NOT(e)), cond
        if name in ("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge"):
            a, b = C(raw[0]), C(raw[1])
            return {"lt": lambda: lt(a, b), "gt": lambda: lt(b, a), "le": lambda: NOT(lt(b, a)), "ge": lambda: NOT(lt(a, b))}[f["n"]](), cond
        if name == "Ord::cmp": return mk("call", "Ord::cmp", C(raw[0]), C(raw[1])), cond
        if name in ("Ord::max", "Ord::min", "max", "min") and n == 2 and ("cmp" in f["p"]):
            a, b = C(raw[0]), C(raw[1])
            if b.id < a.id: a, b = b, a
            return mk("call", "Ord::" + f["n"], a, b), cond
        if name.startswith("Ordering::") and f["n"] in ("is_lt", "is_gt", "is_eq", "is_le", "is_ge", "is_ne"):
            v = C(raw[0]); q = lambda nm: self.isvar(st, v, nm, "Ordering", ["Less", "Equal", "Greater"])
            return {"is_lt": lambda: q("Less"), "is_gt": lambda: q("Greater"), "is_eq": lambda: q("Equal"), "is_le": lambda: NOT(q("Greater")), "is_ge": lambda: NOT(q("Less")), "is_ne": lambda: NOT(q("Equal"))}[f["n"]](), cond
        if name == "Ordering::reverse": return mk("call", "Ordering::reverse", C(raw[0])), cond
        # ---- sizes
        if f["n"] == "len" and n == 1 and not f.get("loc") and "tr" not in f: return self.length(stream_base(C(raw[0]))), cond
        if f["n"] == "is_empty" and n == 1 and not f.get("loc") and ("tr" not in f and "Range" not in name or name in ("Len::is_empty",)): return eq(self.length(stream_base(C(raw[0]))), mk("const", "0")), cond
        if name in ("ExactSizeIterator::len", "Len::len"): return self.length(stream_base(C(raw[0]))), cond
        if name == "BatchContainer::is_empty": return eq(mk("call", "BatchContainer::len", C(raw[0])), ZERO), cond
        # ---- arithmetic traits on primitives are MIR ops already; keep the rest by name
        if name in ("Index::index", "IndexMut::index_mut"):
            iv = C(raw[1])
            if iv.op == "agg" and iv.a[1] == "RangeFull": return raw[0], cond
            r = f.get("r", {})
            if not r.get("loc") and not (iv.op == "agg" and iv.a[1].startswith("Range")) and tys[1] == "usize":
                p = self.place_of_value(raw[0])
                return self.element(st, p, iv), cond
            if iv.op == "agg": return slice_of(C(raw[0]), iv), cond
        # ---- combinators with closures
        h = getattr(self, "c_" + name.replace("::", "_"), None)
        if h is not None:
            r = h(st, f, raw, tys, dty, line, cs)
            if r is not None: return r
        # ---- inline local code
        tgt = None
        if f.get("r"):
            if f["r"].get("loc"): tgt = f["r"]["h"]
        elif f.get("loc"): tgt = f["h"]
        if tgt and tgt in self.prog.bodies and self.want(tgt, name, f):
            b = self.prog.bodies[tgt]
            if len(self.stack) <= self.MAXDEPTH and tgt not in self.stack:
                return self.enter(st, b, raw, cs, line, self_repl=None)
        return self.effect(st, name, raw, tys, dty, line, f, cs)

    def derived(self, h):
        b = self.prog.bodies.get(h)
        if not b: return True
        # derived PartialEq bodies compare fields pairwise; treat as structural equality
        return b.get("end", 0) == b["line"] or b["end"] - b["line"] <= 0

    def want(self, h, name, f):
        b = self.prog.bodies[h]
        sh = b["_short"]
        if name in self.opaque or sh in self.opaque: return False
        if name in self.inline or sh in self.inline: return True
        if "tr" in f or b.get("tr"): return False
        if self.known is not None:
            key = fkey(b)
            if key in self.known: return False
            return True
        return not b["vis"]

    def enter(self, st, b, vals, cs, line, self_repl=None):
        self.stack.append(b["id"])
        try:
            v, st2, c = self.run(b, vals, st, self.curcond, cs + (b["id"],))
        finally:
            self.stack.pop()
        if v is None: return None, FALSE
        self.poststore = st2
        return v, c

    def apply(self, st, callee, args, line, cs, dty="", pure=False):
        """Call a callable value once, with argument values."""
        cv = callee
        if cv.op == "ref": cvv = self.read(st, cv.a[0])
        else: cvv = cv
        d = 0
        while cvv.op == "ref" and d < 4:
            cv = cvv; cvv = self.read(st, cv.a[0]); d += 1
        base = cvv
        while base.op == "with" or (base.op == "mu"):
            base = base.a[0] if base.op == "with" else base.a[2]
        if base.op == "closure" and base.a[0] in self.prog.bodies:
            b = self.prog.bodies[base.a[0]]
            if len(self.stack) <= self.MAXDEPTH + 4 and b["id"] not in self.stack:
                selfty = b["locals"][1][0]
                if cv.op == "ref": sv = cv
                else:
                    # materialise the closure value in a temporary
                    p = (("loc", self.frame(cs + ("clo",)), 0), ())
                    self.write(st, p, cvv)
                    sv = mk("ref", p, 1)
                if not selfty.startswith("&"): sv = cvv
                return self.enter(st, b, [sv] + list(args), cs, line)
        if base.op == "fn" and base.a[0].startswith("ctor:"):
            return mk("agg", "adt", base.a[0][5:], tuple(str(i) for i in range(len(args))), *args), self.curcond
        if base.op == "fn":
            h = base.a[2] or base.a[1]
            b = self.prog.bodies.get(h)
            if b and not b["vis"] and len(self.stack) <= self.MAXDEPTH and h not in self.stack:
                return self.enter(st, b, args, cs, line)
            nm = base.a[0]
            if nm in SAME: return args[0], self.curcond
            if nm in ("PartialEq::eq",): return eq(self.content(st, args[0]), self.content(st, args[1])), self.curcond
            if nm in ("Option::is_some",): return self.isvar(st, self.content(st, args[0]), "Some", "Option", ["None", "Some"]), self.curcond
            f = self.fnvals.get((nm, base.a[1]))
            if f is not None and not f.get("loc"):
                if not dty and f["n"].startswith("is_"): dty = "bool"
                r, c = self.dispatch(st, f, list(args), ["&mut _" if f["n"] in ("clear", "take", "sort", "dedup", "shrink_to_fit") else ""] * len(args), dty, line, cs, self.curbody)
                if r is not None and dty == "bool": r = asbool(r)
                return r, c
            r, c = self.effect(st, nm, args, [""] * len(args), dty, line, None, cs)
            if dty == "bool": r = asbool(r)
            return r, c
        r, c = self.effect(st, "apply", [callee] + list(args), ["&" if pure else "&mut "] + ["" for _ in args], dty, line, None, cs, fnval=cvv)
        if dty == "bool": r = asbool(r)
        return r, c

    def maybe_loop(self, st, callee, argf, cs, line, base=None, more=None):
        """Evaluate a closure as the body of a loop run zero or more times; returns (value, store after, cond of completion relative)."""
        L = self.loopid(cs, "clo")
        marks = self.marks.setdefault(L, {})
        b = callee
        while b.op in ("with", "mu"): b = b.a[0] if b.op == "with" else b.a[2]
        if b.op == "closure":   # what it captured lives on from one call to the next
            st = dict(st)
            p = (("loc", self.frame(cs + ("clv",)), 0), ())
            self.write(st, p, callee)
            callee = mk("ref", p, 1)
        entry = st
        st = dict(st)
        for key in sorted(marks, key=str):
            init = self.read(entry, key)
            nm = pathterm(key) if not isinstance(key[0], tuple) else mk("var", key[0][1], key[0][2], *[f if isinstance(f, str) else str(f) for f in key[1]])
            self.write(st, key, mk("mu", L, nm, init, b=init.b), bump=False)
        hst = dict(st)
        save = (self.curcond, self.cur_loops)
        cond0 = self.curcond
        if more is not None: self.curcond = AND(cond0, more)
        self.cur_loops = self.cur_loops + (L,)
        self.loopinfo.setdefault(L, {"fn": self.curbody["p"], "line": line, "entry": cond0})["base"] = base
        self.poststore = None
        r, c = self.apply(st, callee, argf, line, cs + ("ml",))
        st2 = self.poststore if self.poststore is not None else st
        self.poststore = None
        # a closure handed back by the closure runs later, any number of times
        if r is not None:
            for cl in self.closures_in(st2, r)[:3]:
                b = self.prog.bodies.get(cl[1].a[0])
                if b is None or b["id"] in self.stack: continue
                args = [mk("cp", "ret", k) for k in range(1, b["nargs"])]
                self.curcond = c if c is not None else self.curcond
                rr = self.maybe_loop(st2, cl[0], args, cs + ("ret",), line)
                st2 = rr[1]
        self.curcond, self.cur_loops = save
        if r is None: return None, entry, FALSE
        self.backedge((L, cond0, hst, entry), c, st2)
        # after the loop: header state
        rel = restrict(c, cond0)
        return r, hst, cond0

    def closures_in(self, st, v, depth=0):
        """[(reference or value to apply, closure term)] reachable from a value."""
        if depth > 3: return []
        if v.op == "closure": return [(v, v)]
        if v.op == "ref":
            c = self.read(st, v.a[0])
            b = c
            while b.op in ("with",): b = b.a[0]
            while b.op == "mu": b = b.a[2]
            if b.op == "closure": return [(v, b)]
            return []
        if v.op in ("mu",): 
            b = v
            while b.op == "mu": b = b.a[2]
            if b.op == "closure": return [(v, b)]
        if v.op == "agg":
            out = []
            for x in v.a[3:]: out += self.closures_in(st, x, depth + 1)
            return out
        if v.op == "ite":
            out = []
            for x in leaves(v): out += self.closures_in(st, x, depth + 1)
            return out
        return []

    def payload(self, st, v, var):
        if v.op == "ref":
            return mkref((v.a[0][0], v.a[0][1] + (("as", var), "0")), 1)
        return proj(as_variant(v, var), "0")

    def locterm(self, v):
        if v.op == "ref": return pathterm(v.a[0])
        if v.op == "oref": return pathterm(v.a[0])
        return v

    def effect(self, st, name, raw, tys, dty, line, f, cs, fnval=None):
        """An opaque call: record it, mutate what it may mutate."""
        cond = self.curcond
        args = [self.content(st, v) for v in raw]
        locs = []
        muts = []
        for i, v in enumerate(raw):
            ty = tys[i] if i < len(tys) else ""
            m = False
            if ty.startswith("&mut") or ty.startswith("std::cell::RefMut") or ty.startswith("std::pin::Pin<&mut"): m = True
            if v.op == "ref" and v.a[1] and (m or not ty): m = True
            if ty.startswith("&") and not ty.startswith("&mut"): m = False
            if m and name in READS: m = False
            if m:
                p = self.place_of_value(v)
                # follow references to references
                d = 0
                while d < 5:
                    inner = self.read(st, p)
                    if inner.op == "ref": p = inner.a[0]; d += 1
                    else: break
                muts.append((i, p)); locs.append(pathterm(p))
            elif v.op == "agg":
                k = 0
                for x in v.a[3:]:
                    if x.op == "ref" and x.a[1]:
                        muts.append((i, x.a[0]))
                locs.append(None)
            else:
                locs.append(pathterm(v.a[0]) if v.op == "ref" else (v if ty.startswith("&") else None))
        # closures handed to the callee run any number of times
        outst = st
        clos = []
        for i, v in enumerate(raw):
            for cl in self.closures_in(st, v):
                clos.append((i, cl))
        crets = []
        if not QUIET.match(name):
            self.event("call", name, args, locs, line, callee=f, raw=raw)
            ev = self.events[-1]
            ev.pure = bool(muts) and bool(PUREMUT.match(name)) and all(self.tracked(p) for _, p in muts)
        else: ev = None
        for i, cl in clos:
            b = self.prog.bodies.get(cl[1].a[0])
            if b is None or b["id"] in self.stack: continue
            base = args[0] if args else None
            cargs = [mk("cp", name, k) if k > 1 or i == 0 else mk("elem", mk("arg", name, base)) for k in range(1, b["nargs"])]
            r, outst, _ = self.maybe_loop(outst, cl[0], cargs, cs + (i,), line)
            crets.append(r)
        if outst is not st:
            self.poststore = outst
            st = outst
        for i, p in muts:
            if name in COMMUTING:
                old = self.content(st, self.read(st, p))
                undo = []
                while old.op == "mut" and commutes(old.a[0], name):
                    undo.append(old); old = old.a[2 + old.a[1]]
                seqm = sorted([(name, i, tuple(args))] + [(o.a[0], o.a[1], o.a[2:]) for o in undo], key=lambda x: x[0])
                for nm, j, as_ in seqm:
                    as_ = list(as_); as_[j] = old
                    old = mk("mut", nm, j, *as_)
                self.write(st, p, old)
                continue
            self.write(st, p, mkmut(name, i, *args))
        b = dty == "bool"
        extra = [r for r in crets if r is not None and r is not UNIT]
        if name in COMMUTING:
            for i, p in muts: args[i] = peel(args[i], name)
        hidden = [a if a.op != "closure" else mk("clo", *(extra[:1] or ["?"])) for a in args]
        if f is not None and f.get("a") and not args:
            hidden = [mk("const", ",".join(ty_head(x) for x in f["a"]))]
        r = mk("call", name, *hidden)
        if b: r = asbool(r)
        if dty == "()" and not extra: r = UNIT
        if ev is not None:
            ev.ret = r; ev.hid = hidden
            ev.eff = bool(muts) or dty == "()" or name in EFFECTS
        if muts and ("&" in dty and "mut" in dty or "RefMut" in dty or "Entry" in dty or "IterMut" in dty or "Drain" in dty):
            self.borrowed.setdefault(r, [])
            for _, p in muts:
                if p not in self.borrowed[r]: self.borrowed[r].append(p)
        return r, cond

    # -------- combinators
    def _pred(self, st, raw, cs, line, src, arg):
        base = stream_base(src)
        more = mk("more", base, b=True)
        p, st2, c = self.maybe_loop(st, raw, [arg], cs, line, base=base, more=AND(more, filt_of(src)))
        return p, st2
    def stream_arg(self, st, v):
        s = self.content(st, v)
        if v.op == "ref":
            pass
        return mkiter(s)
    def c_Iterator_any(self, st, f, raw, tys, dty, line, cs, neg=False):
        s = self.stream_arg(st, raw[0])
        p, st2 = self._pred(st, raw[1], cs, line, s, elem_of(s))
        if p is None: return None
        self.poststore = st2
        p = asbool(self.content(st2, p)); 
        p = NOT(p) if neg else p
        more = mk("more", stream_base(s), b=True)
        p = AND(filt_of(s), cofactor(p, more, True))
        if p is FALSE: x = FALSE
        else: x = mk("exists", stream_base(s), p, b=True)
        return (NOT(x) if neg else x), self.curcond
    def c_Iterator_all(self, *a): return self.c_Iterator_any(*a, neg=True)
    def c_Iterator_map(self, st, f, raw, tys, dty, line, cs):
        s = self.stream_arg(st, raw[0])
        e = elem_of(s)
        p, st2 = self._pred(st, raw[1], cs, line, s, e)
        if p is None: return None
        self.poststore = st2
        return mk("smap", s, self.content(st2, p) if p.op == "ref" else p, TRUE), self.curcond
    def c_Iterator_filter(self, st, f, raw, tys, dty, line, cs):
        s = self.stream_arg(st, raw[0])
        p, st2 = self._pred(st, raw[1], cs, line, s, elem_of(s))
        if p is None: return None
        self.poststore = st2
        return mk("sfilter", s, cofactor(asbool(self.content(st2, p)), mk("more", stream_base(s), b=True), True)), self.curcond
    def c_Iterator_filter_map(self, st, f, raw, tys, dty, line, cs):
        s = self.stream_arg(st, raw[0])
        p, st2 = self._pred(st, raw[1], cs, line, s, elem_of(s))
        if p is None: return None
        self.poststore = st2
        c = self.isvar(st2, self.content(st2, p), "Some", "Option", ["None", "Some"])
        more = mk("more", stream_base(s), b=True)
        return mk("smap", s, proj(as_variant(restrict(p, AND(c, more)) if c is not FALSE else p, "Some"), "0"), cofactor(c, more, True)), self.curcond
    def c_Iterator_for_each(self, st, f, raw, tys, dty, line, cs):
        s = self.stream_arg(st, raw[0])
        p, st2 = self._pred(st, raw[1], cs, line, s, elem_of(s))
        self.poststore = st2
        return UNIT, self.curcond
    def lib_loop(self, st, cs, line, src, body, key):
        """A library call that runs body(store, element) once per element of a stream; key: the location it accumulates in."""
        two = unchain(src)
        if two is not None:
            st = self.lib_loop(st, cs + ("c0",), line, two[0], body, key)
            return self.lib_loop(st, cs + ("c1",), line, two[1], body, key)
        L = self.loopid(cs, "lib")
        marks = self.marks.setdefault(L, {})
        entry = st
        st = dict(st)
        for k in sorted(marks, key=str):
            init = self.read(entry, k)
            nm = pathterm(k) if not isinstance(k[0], tuple) else mk("var", k[0][1], k[0][2], *[f if isinstance(f, str) else str(f) for f in k[1]])
            self.write(st, k, mk("mu", L, nm, init, b=init.b), bump=False)
        for k in marks: self.hdrval.setdefault((L, k), st.get(k))
        hst = dict(st)
        save = (self.curcond, self.cur_loops)
        cond0 = self.curcond
        base = stream_base(src)
        more = mk("more", base, b=True)
        f = filt_of(src)
        self.cur_loops = self.cur_loops + (L,)
        self.loopinfo.setdefault(L, {"fn": self.curbody["p"], "line": line, "entry": cond0})["base"] = base
        self.curcond = AND(cond0, more, f)
        self.poststore = None
        c, st2 = body(st, elem_of(src))
        self.poststore = None
        self.curcond, self.cur_loops = save
        self.backedge((L, cond0, hst, entry), AND(cond0, more, NOT(f)), hst)
        if f is not TRUE:
            for k in marks:   # elements filtered out leave everything as it was
                m = hst.get(k)
                if m is not None and m.op == "mu":
                    rel = restrict(AND(cond0, more, NOT(f)), cond0)
                    if m not in self.stepseen:
                        self.stepseen.add(m); self.step[m] = m; self.care[m] = rel
        if c is not None: self.backedge((L, cond0, hst, entry), c, st2)
        for k in marks:
            m = hst.get(k)
            x = self.collected(m, base) if m is not None and m.op == "mu" and f is TRUE else None
            if x is None and m is not None and m.op == "mu" and f is TRUE: x = self.last_written(L, m, base)
            if x is not None:
                hst = dict(hst)
                self.write(hst, k, x)
        return hst
    def push_each(self, st, cs, line, src, p, name):
        def body(s, e):
            old = self.read(s, p)
            e = self.content(s, e)
            self.event("call", name, [old, e], [pathterm(p), None], line)
            self.events[-1].pure = self.tracked(p)
            s = dict(s)
            self.write(s, p, mkmut(name, 0, old, e))
            return self.curcond, s
        return self.lib_loop(st, cs, line, src, body, p)
    def emptied(self, st, p, old, line):
        if not self.tracked(p) and old is not EMPTY:
            self.event("call", "clear", [self.content(st, old)], [pathterm(p)], line)
        self.write(st, p, EMPTY)
    def follow(self, st, v):
        p = self.place_of_value(v)
        for _ in range(5):
            inner = self.read(st, p)
            if inner.op != "ref": break
            p = inner.a[0]
        return p
    def c_Extend_extend(self, st, f, raw, tys, dty, line, cs):
        h = ty_head(tys[0])
        name = {"Vec": "Vec::push", "VecDeque": "VecDeque::push_back", "SmallVec": "SmallVec::push", "BinaryHeap": "BinaryHeap::push", "HashSet": "HashSet::insert", "BTreeSet": "BTreeSet::insert"}.get(h)
        if name is None: return None
        if ty_head(tys[1]) == "Option":
            v, some = self._opt(st, raw[1:])
            p = self.follow(st, raw[0])
            def push(s):
                old = self.read(s, p); e = self.content(s, self.payload(s, v, "Some"))
                self.event("call", name, [old, e], [pathterm(p), None], line)
                self.events[-1].pure = self.tracked(p)
                self.write(s, p, mkmut(name, 0, old, e))
                return UNIT, self.curcond
            _, self.poststore = self.branch(st, some, push)
            return UNIT, self.curcond
        src = self.stream_arg(st, raw[1])
        hst = self.push_each(st, cs, line, src, self.follow(st, raw[0]), name)
        self.poststore = hst
        return UNIT, self.curcond
    def c_Vec_extend_from_slice(self, st, f, raw, tys, dty, line, cs):
        hst = self.push_each(st, cs, line, self.stream_arg(st, raw[1]), self.follow(st, raw[0]), "Vec::push")
        self.poststore = hst
        return UNIT, self.curcond
    def c_Vec_append(self, st, f, raw, tys, dty, line, cs):
        q = self.follow(st, raw[1])
        old = self.content(st, self.read(st, q))
        name = "VecDeque::push_back" if short(f).startswith("VecDeque") else "Vec::push"
        hst = dict(self.push_each(st, cs, line, mkiter(old), self.follow(st, raw[0]), name))
        self.emptied(hst, q, old, line)
        self.poststore = hst
        return UNIT, self.curcond
    def c_VecDeque_append(self, *a): return self.c_Vec_append(*a)
    def c_Option_get_or_insert_with(self, st, f, raw, tys, dty, line, cs):
        p = self.follow(st, raw[0])
        v = self.read(st, p)
        none = NOT(self.isvar(st, v, "Some", "Option", ["None", "Some"]))
        def fill(s):
            x, c = (raw[1], self.curcond) if f["n"] == "get_or_insert" else self.apply(s, raw[1], [], line, cs + ("oe",), "")
            s = self.poststore if self.poststore is not None else s
            if x is None: return None, c
            if isinstance(p[0], T): self.event("write", "write", [mk("agg", "adt", "Some", ("0",), self.content(s, x))], [pathterm(p)], line, raw=[x])
            self.write(s, p, mk("agg", "adt", "Some", ("0",), x))
            self.poststore = s
            return UNIT, c
        _, m = self.branch(st, none, fill)
        self.poststore = m
        return mkref((p[0], p[1] + (("as", "Some"), "0")), 1), self.curcond
    def c_Option_get_or_insert(self, *a): return self.c_Option_get_or_insert_with(*a)
    def c_Entry_or_insert_with(self, st, f, raw, tys, dty, line, cs):
        x, c = self.apply(st, raw[1], [], line, cs + ("oe",), "")
        if x is None: return None
        st = self.poststore if self.poststore is not None else st
        self.poststore = None
        return self.effect(st, "Entry::or_insert", [raw[0], x], [tys[0], ""], dty, line, None, cs)
    def c_Entry_or_default(self, st, f, raw, tys, dty, line, cs):
        m = re.search(r"&(?:'\w+ )?mut (.*)$", dty)
        return self.effect(st, "Entry::or_insert", [raw[0], default_of(m.group(1) if m else dty)], [tys[0], ""], dty, line, None, cs)
    def c_Antichain_extend(self, st, f, raw, tys, dty, line, cs):
        hst = self.push_each(st, cs, line, self.stream_arg(st, raw[1]), self.follow(st, raw[0]), "Antichain::insert")
        self.poststore = hst
        return UNIT, self.curcond
    def c_ChangeBatch_extend(self, st, f, raw, tys, dty, line, cs):
        p = self.follow(st, raw[0])
        def body(s, e):
            old = self.read(s, p)
            a = [self.content(s, proj(e, "0")), self.content(s, proj(e, "1"))]
            self.event("call", "ChangeBatch::update", [old] + a, [pathterm(p), None, None], line)
            self.events[-1].pure = self.tracked(p)
            s = dict(s)
            self.write(s, p, mkmut("ChangeBatch::update", 0, old, *a))
            return self.curcond, s
        self.poststore = self.lib_loop(st, cs, line, self.stream_arg(st, raw[1]), body, p)
        return UNIT, self.curcond
    def c_Iterator_collect(self, st, f, raw, tys, dty, line, cs):
        name = {"Vec": "Vec::push", "VecDeque": "VecDeque::push_back", "Antichain": "Antichain::insert", "SmallVec": "SmallVec::push"}.get(ty_head(dty))
        if name is None: return None
        p = (("loc", self.frame(cs + ("col",)), 0), ())
        st = dict(st)
        src = self.stream_arg(st, raw[0])
        self.write(st, p, EMPTY)
        hst = self.push_each(st, cs, line, src, p, name)
        self.poststore = hst
        return self.read(hst, p), self.curcond
    def c_FromIterator_from_iter(self, *a): return self.c_Iterator_collect(*a)
    def c_Iterator_fold(self, st, f, raw, tys, dty, line, cs, fn=None):
        p = (("loc", self.frame(cs + ("acc",)), 0), ())
        st = dict(st)
        src = self.stream_arg(st, raw[0])
        self.write(st, p, raw[1])
        def body(s, e):
            acc = self.read(s, p)
            if fn is not None: r, c = fn(s, acc, e), self.curcond
            else: r, c = self.apply(s, raw[2], [acc, e], line, cs + ("fold",), dty)
            s = self.poststore if self.poststore is not None else s
            if r is None: return None, s
            s = dict(s)
            self.write(s, p, r)
            return c, s
        hst = self.lib_loop(st, cs, line, src, body, p)
        self.poststore = hst
        return self.read(hst, p), self.curcond
    def c_Iterator_sum(self, st, f, raw, tys, dty, line, cs):
        if not re.match(r"^[iu](8|16|32|64|128|size)$", dty): return None
        return self.c_Iterator_fold(st, f, [raw[0], ZERO], tys, dty, line, cs, fn=lambda s, a, e: self.binop(s, "Add", a, e))
    def c_Iterator_count(self, st, f, raw, tys, dty, line, cs):
        return self.c_Iterator_fold(st, f, [raw[0], ZERO], tys, dty, line, cs, fn=lambda s, a, e: self.binop(s, "Add", a, ONE))
    def c_Iterator_position(self, st, f, raw, tys, dty, line, cs):
        s = self.stream_arg(st, raw[0])
        p, st2 = self._pred(st, raw[1], cs, line, s, elem_of(s))
        if p is None: return None
        self.poststore = st2
        return mk("call", "position", stream_base(s), cofactor(asbool(self.content(st2, p)), mk("more", stream_base(s), b=True), True)), self.curcond
    def c_Vec_retain(self, st, f, raw, tys, dty, line, cs):
        return self._retain(st, f, raw, tys, dty, line, cs, "retain")
    def c_VecDeque_retain(self, *a): return self._retain(*a, "retain")
    def _retain(self, st, f, raw, tys, dty, line, cs, nm):
        p = self.place_of_value(raw[0]); old = self.content(st, raw[0])
        s = mkiter(old)
        pr, st2 = self._pred(st, raw[1], cs, line, s, elem_of(s))
        if pr is None: return None
        pr = cofactor(asbool(self.content(st2, pr)), mk("more", old, b=True), True)
        self.event("call", "retain", [old, pr], [self.locterm(raw[0]), None], line, raw=raw)
        self.events[-1].pure = self.tracked(p)
        self.write(st2, p, mk("mut", "retain", 0, old, pr))
        self.poststore = st2
        return UNIT, self.curcond
    # Option combinators: an Option is a stream of at most one element, here expanded to a branch.
    def _opt(self, st, raw, ty="Option"):
        v = raw[0]
        if v.op == "ref": v = self.content(st, v)
        some = self.isvar(st, v, "Some", "Option", ["None", "Some"])
        return v, some
    def branch(self, st, cond, fn):
        """Run fn(store copy) under an extra condition; merge stores. Returns value or None."""
        save = self.curcond
        self.curcond = AND(save, cond)
        if self.curcond is FALSE:
            self.curcond = save
            return None, st
        s1 = dict(st)
        self.poststore = None
        r, c = fn(s1)
        s1 = self.poststore if self.poststore is not None else s1
        self.poststore = None
        cc = self.curcond
        self.curcond = save
        if r is None: return None, st
        if cond is TRUE: return r, s1
        _, m = self.merge([(c, s1), (AND(save, NOT(cond)), st)])
        return r, m
    def c_Option_map(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        arg = self.payload(st, v, "Some")
        r, m = self.branch(st, some, lambda s: self.apply(s, raw[1], [arg], line, cs + ("om",)))
        if r is None: r = UNIT
        self.poststore = m
        return ite(some, mk("agg", "adt", "Some", ("0",), r), mk("agg", "adt", "None", ())), self.curcond
    def c_Option_and_then(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        arg = self.payload(st, v, "Some")
        r, m = self.branch(st, some, lambda s: self.apply(s, raw[1], [arg], line, cs + ("om",)))
        if r is None: r = mk("agg", "adt", "None", ())
        self.poststore = m
        return ite(some, r, mk("agg", "adt", "None", ())), self.curcond
    def c_Option_is_some_and(self, st, f, raw, tys, dty, line, cs, none=FALSE):
        v, some = self._opt(st, raw)
        arg = self.payload(st, v, "Some")
        r, m = self.branch(st, some, lambda s: self.apply(s, raw[1], [arg], line, cs + ("om",), "bool"))
        if r is None: return none, self.curcond
        self.poststore = m
        return ite(some, asbool(self.content(m, r)), none), self.curcond
    def c_Option_is_none_or(self, *a): return self.c_Option_is_some_and(*a, none=TRUE)
    def c_Option_map_or(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        arg = self.payload(st, v, "Some")
        r, m = self.branch(st, some, lambda s: self.apply(s, raw[2], [arg], line, cs + ("om",), dty))
        self.poststore = m
        d = self.content(st, raw[1])
        if r is None: return d, self.curcond
        return ite(some, r, d), self.curcond
    def c_Option_map_or_else(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        arg = self.payload(st, v, "Some")
        r, m = self.branch(st, some, lambda s: self.apply(s, raw[2], [arg], line, cs + ("om",), dty))
        d, m = self.branch(m, NOT(some), lambda s: self.apply(s, raw[1], [], line, cs + ("oe",), dty))
        self.poststore = m
        if r is None: return d, self.curcond
        if d is None: return r, self.curcond
        return ite(some, r, d), self.curcond
    def c_Option_unwrap_or(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        return ite(some, self.content(st, self.payload(st, v, "Some")), self.content(st, raw[1])), self.curcond
    def c_Option_or(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        return ite(some, v, self.content(st, raw[1])), self.curcond
    def c_Option_unwrap_or_else(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        n = len(self.events)
        d, m = self.branch(st, NOT(some), lambda s: self.apply(s, raw[1], [], line, cs + ("oe",), dty))
        self.poststore = m
        if d is None:
            del self.events[n:]      # a refusal for want of a payload is an unwrap
            return self.payload(st, v, "Some"), self.curcond
        return ite(some, self.payload(st, v, "Some"), d), self.curcond
    def c_Option_or_else(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        d, m = self.branch(st, NOT(some), lambda s: self.apply(s, raw[1], [], line, cs + ("oe",), dty))
        self.poststore = m
        if d is None: return v, self.curcond
        return ite(some, v, d), self.curcond
    def c_Option_unwrap_or_default(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        return ite(some, self.content(st, self.payload(st, v, "Some")), default_of(dty)), self.curcond
    def c_Option_filter(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        arg = self.payload(st, v, "Some")
        r, m = self.branch(st, some, lambda s: self.apply(s, raw[1], [arg], line, cs + ("om",), "bool"))
        if r is None: return v, self.curcond
        self.poststore = m
        return ite(AND(some, asbool(self.content(m, r))), v, mk("agg", "adt", "None", ())), self.curcond
    def c_Option_ok_or_else(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        d, m = self.branch(st, NOT(some), lambda s: self.apply(s, raw[1], [], line, cs + ("oe",)))
        self.poststore = m
        return ite(some, mk("agg", "adt", "Ok", ("0",), self.payload(st, v, "Some")), mk("agg", "adt", "Err", ("0",), d if d is not None else UNIT)), self.curcond
    def c_Option_ok_or(self, st, f, raw, tys, dty, line, cs):
        v, some = self._opt(st, raw)
        return ite(some, mk("agg", "adt", "Ok", ("0",), self.payload(st, v, "Some")), mk("agg", "adt", "Err", ("0",), raw[1])), self.curcond
    # Results likewise
    def _res(self, st, raw):
        v = raw[0]
        if v.op == "ref": v = self.content(st, v)
        return v, self.isvar(st, v, "Ok", "Result", ["Ok", "Err"])
    def c_Result_ok(self, st, f, raw, tys, dty, line, cs):
        v, good = self._res(st, raw)
        return ite(good, mk("agg", "adt", "Some", ("0",), self.payload(st, v, "Ok")), NONE), self.curcond
    def c_Result_err(self, st, f, raw, tys, dty, line, cs):
        v, good = self._res(st, raw)
        return ite(good, NONE, mk("agg", "adt", "Some", ("0",), self.payload(st, v, "Err"))), self.curcond
    def c_Result_map(self, st, f, raw, tys, dty, line, cs):
        v, good = self._res(st, raw)
        r, m = self.branch(st, good, lambda s: self.apply(s, raw[1], [self.payload(st, v, "Ok")], line, cs + ("om",)))
        self.poststore = m
        return ite(good, mk("agg", "adt", "Ok", ("0",), r if r is not None else UNIT), mk("agg", "adt", "Err", ("0",), self.payload(st, v, "Err"))), self.curcond
    def c_Result_map_err(self, st, f, raw, tys, dty, line, cs):
        v, good = self._res(st, raw)
        r, m = self.branch(st, NOT(good), lambda s: self.apply(s, raw[1], [self.payload(st, v, "Err")], line, cs + ("oe",)))
        self.poststore = m
        return ite(good, mk("agg", "adt", "Ok", ("0",), self.payload(st, v, "Ok")), mk("agg", "adt", "Err", ("0",), r if r is not None else UNIT)), self.curcond
    def c_Result_and_then(self, st, f, raw, tys, dty, line, cs):
        v, good = self._res(st, raw)
        r, m = self.branch(st, good, lambda s: self.apply(s, raw[1], [self.payload(st, v, "Ok")], line, cs + ("om",)))
        self.poststore = m
        bad = mk("agg", "adt", "Err", ("0",), self.payload(st, v, "Err"))
        return (ite(good, r, bad) if r is not None else bad), self.curcond
    def c_Result_unwrap_or(self, st, f, raw, tys, dty, line, cs):
        v, good = self._res(st, raw)
        return ite(good, self.content(st, self.payload(st, v, "Ok")), self.content(st, raw[1])), self.curcond
    def c_Result_unwrap_or_default(self, st, f, raw, tys, dty, line, cs):
        v, good = self._res(st, raw)
        return ite(good, self.content(st, self.payload(st, v, "Ok")), default_of(dty)), self.curcond
    def c_Result_unwrap_or_else(self, st, f, raw, tys, dty, line, cs):
        v, good = self._res(st, raw)
        n = len(self.events)
        d, m = self.branch(st, NOT(good), lambda s: self.apply(s, raw[1], [self.payload(st, v, "Err")], line, cs + ("oe",), dty))
        self.poststore = m
        if d is None:
            del self.events[n:]
            return self.payload(st, v, "Ok"), self.curcond
        return ite(good, self.payload(st, v, "Ok"), d), self.curcond
    def c_Ordering_then_with(self, st, f, raw, tys, dty, line, cs):
        v = self.content(st, raw[0])
        same = self.isvar(st, v, "Equal", "Ordering", ["Less", "Equal", "Greater"])
        r, st2 = self.branch(st, same, lambda s: self.apply(s, raw[1], [], line, cs, dty))
        if r is None: return None
        self.poststore = st2
        return ite(same, self.content(st2, r), v), self.curcond
    def c_Ordering_then(self, st, f, raw, tys, dty, line, cs):
        v = self.content(st, raw[0])
        same = self.isvar(st, v, "Equal", "Ordering", ["Less", "Equal", "Greater"])
        return ite(same, self.content(st, raw[1]), v), self.curcond
    def c_bool_then(self, st, f, raw, tys, dty, line, cs):
        c = asbool(self.content(st, raw[0]))
        r, m = self.branch(st, c, lambda s: self.apply(s, raw[1], [], line, cs + ("om",)))
        self.poststore = m
        if r is None: return mk("agg", "adt", "None", ()), self.curcond
        return ite(c, mk("agg", "adt", "Some", ("0",), r), mk("agg", "adt", "None", ())), self.curcond
    def c_bool_then_some(self, st, f, raw, tys, dty, line, cs):
        c = asbool(self.content(st, raw[0]))
        return ite(c, mk("agg", "adt", "Some", ("0",), raw[1]), mk("agg", "adt", "None", ())), self.curcond

# ---------------------------------------------------------------- versions
_um = {}
def unv(t):
    """The term with state versions stripped: a mutated value is named by its original."""
    if not isinstance(t, T):
        if isinstance(t, tuple): return tuple(unv(x) for x in t)
        return t
    r = _um.get(t)
    if r is not None: return r
    o = t.op
    if o == "mu": r = unv(t.a[2])
    elif o == "mut":
        if t.a[0] == "via": r = unv(t.a[2])
        elif t.a[0] == "Iterator::next": r = unv(t.a[2])
        elif 2 + t.a[1] < len(t.a): r = unv(t.a[2 + t.a[1]])
        else: r = t
    elif o in ("with", "store"): r = unv(t.a[0])
    elif o == "ite":
        r = ite(asbool(unv(t.a[0])) if not unv(t.a[0]).b else unv(t.a[0]), unv(t.a[1]), unv(t.a[2]))
    elif o in ("const", "param", "var", "undef", "fn"): r = t
    elif o == "fld": r = proj(unv(t.a[0]), t.a[1])
    elif o == "b": r = asbool(unv(t.a[0]))
    elif o == "closure": r = t
    else:
        r = mk(o, *[unv(x) for x in t.a], b=t.b)
    _um[t] = r
    return r

def contribs(u, t, seen=None):
    """Mutations that may have shaped t: [(call name, argument position mutated, args)]."""
    out = []
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "mu":
            st.append(x.a[2])
            if x in u.step: st.append(u.step[x])
        elif x.op == "mut":
            if x.a[0] == "via": st.append(x.a[2]); st.append(x.a[3])
            else:
                out.append((x.a[0], x.a[1], x.a[2:]))
                if 2 + x.a[1] < len(x.a): st.append(x.a[2 + x.a[1]])
        elif x.op == "ite": st.append(x.a[1]); st.append(x.a[2])
        elif x.op == "with":
            st.append(x.a[0]); st.extend(v for _, v in x.a[1:])
        elif x.op == "store": st.append(x.a[0]); st.append(x.a[2])
    return out

def origins(u, t):
    """Initial values t may stem from (through loops, branches and mutations)."""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "mu":
            st.append(x.a[2])
            if x in u.step: st.append(u.step[x])
        elif x.op == "mut":
            st.append(x.a[2] if x.a[0] in ("via",) else x.a[2 + x.a[1]])
        elif x.op == "ite": st.append(x.a[1]); st.append(x.a[2])
        elif x.op in ("with", "store"): st.append(x.a[0])
        else: out.append(x)
    return out

def uniq(fs):
    seen = {}; out = []
    for f in fs:
        if f in seen: seen[f] += 1; f = "%s'%d" % (f, seen[f])
        else: seen[f] = 0
        out.append(f)
    return out

def fkey(b):
    return (b["crate"], b["_short"], strip_generics(b["p"]).split("::")[-1])

def loc_name(u, l):
    return show(unv(l)) if l is not None else "-"

QUIETCLI = {"panic_fmt", "panic"}
def report(u, full=False):
    for e in u.events:
        if e.kind == "call" and e.name in QUIETCLI: continue
        c = e.cond
        cs = dnf(c if full else unv(c), 12, 6)
        a = [show(x if full else unv(x)) for x in e.args]
        ls = [show(l if full else unv(l)) if l is not None else None for l in e.locs]
        lt_ = " @" + ",".join(l or "-" for l, x in zip(ls, a)) if any(l is not None and l != x for l, x in zip(ls, a)) else ""
        print("  %d [%s]%s %s(%s)%s  IF %s" % (e.line, e.kind[0], "*" * len(e.loops), e.name, ", ".join(a), lt_, cs))
    if u.ret is not None:
        r = u.content(u.out, u.ret)
        print("  RETURN", show(r if full else unv(r)))

_base = (dict(T.tab), T.n)
def reset():
    """Forgets all terms but the shared constants, so that a function's result does not depend on what was analysed before it."""
    T.tab = dict(_base[0]); T.n = _base[1]
    _im.clear(); _rm.clear(); _um.clear(); _split.clear()

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from dd import facts
    P = Program(facts.build_facts())
    full = "-f" in sys.argv
    argv = [a for a in sys.argv if a != "-f"]
    pat = argv[1]; inl = argv[2].split(",") if len(argv) > 2 else []
    for b in P.bodies.values():
        if "clo" in b: continue
        if re.search(pat, b["p"]):
            print("=====", b["p"], b["file"], b["line"])
            try: u = Unit(P, b, inline=inl)
            except Stop as e: print("STOP", e); continue
            report(u, full)
