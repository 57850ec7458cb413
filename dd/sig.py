"""Canonical signatures of value graphs.

Terms are folded to elements of a prime field.  Decision diagrams fold to the value of their multilinear
polynomial at a point derived from the atoms, integer arithmetic folds to field arithmetic, loop-carried values fold
by colour refinement of (initial value, value on the back edges).  The result does not depend on the order of
independent statements, on names of locals, on block structure, on whether code sits in a helper or
closure, or on how a boolean condition is written.
"""
import hashlib
from dd.vg import *
from dd import vg

Q = (1 << 127) - 1
_hc = {}
def H(*xs):
    r = _hc.get(xs)
    if r is None:
        r = int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=16).digest(), "big") % Q
        _hc[xs] = r
    return r

ROUNDS = 10
LIFT = 8
DEAD = H("dead")
COMM = {"BitAnd", "BitOr", "BitXor"}
COMMCALL = {"Ord::max", "Ord::min"}

DEADLEAF = vg.mk("undef", "dead")

def subterms_below(t):
    """Subterms of the operands of t, not looking into loop-carried values."""
    seen = {}; st = []
    def add(x):
        if isinstance(x, T): st.append(x)
        elif isinstance(x, tuple):
            for y in x: add(y)
    for x in t.a: add(x)
    while st:
        x = st.pop()
        if x in seen: continue
        seen[x] = 1
        if x.op in ("mu", "closure"): continue
        for y in x.a: add(y)
    return seen

class Fold:
    def __init__(self, u, rename=None):
        self.u = u
        self.ren = rename or {}
        self.color = {}
        self.memo = {}
        self.sup = {}       # term -> classes of the decisions inside it
        self.cls = {}
        self.prj = {}
        self.acl = {}
        self.lev = {}
        self.bel = {}
        self.refine()

    # ---- which decisions a term depends on
    def klass(self, at):
        """Bit of the decisions that constrain each other: same subject, same pair."""
        o = at.op
        if o == "is": k = ("is", at.a[0])
        elif o in ("lt", "eq"):
            x, y = at.a
            if x.op == "const": k = ("v", y)
            elif y.op == "const": k = ("v", x)
            else: k = ("p", x, y) if x.id < y.id else ("p", y, x)
        else: k = at
        r = self.cls.get(k)
        if r is None: r = self.cls[k] = 1 << len(self.cls)
        return r

    def supp(self, t):
        r = self.sup.get(t)
        if r is not None: return r
        self.sup[t] = 0
        if t.op in ("closure", "const", "param", "fn", "var", "undef"): return 0
        if t.op == "mu":
            r = self.klass(t) if t.b else 0
            self.sup[t] = r
            return r
        r = 0
        if t.op == "ite":
            r = self.klass(t.a[0]) | self.supp(t.a[0]) | self.supp(t.a[1]) | self.supp(t.a[2])
        else:
            if t.b and t is not TRUE and t is not FALSE: r = self.klass(t)
            elif ("is", (t, "Some")) in vg.T.tab: r = self.klass(vg.T.tab["is", (t, "Some")])
            for x in t.a: r |= self.suppx(x)
        self.sup[t] = r
        return r
    def suppx(self, x):
        if isinstance(x, T): return self.supp(x)
        if isinstance(x, tuple):
            r = 0
            for y in x: r |= self.suppx(y)
            return r
        return 0

    def level(self, at):
        """How deep decisions are nested in the operands of an atom."""
        r = self.lev.get(at)
        if r is None:
            self.lev[at] = 0
            r = 0
            if at.op != "mu" and self.suppx(at.a):
                for s in subterms_below(at):
                    if s.op == "ite": r = max(r, 1 + self.level(s.a[0]))
                    elif s.b and s.op not in ("const", "mu"): r = max(r, 1 + self.level(s))
            self.lev[at] = r
        return r

    def below(self, k, at):
        """What k says about the decisions inside an atom."""
        if k is TRUE or at.op == "mu": return TRUE
        l = self.level(at)
        if l == 0: return TRUE
        key = (k, l)
        r = self.bel.get(key)
        if r is None: r = self.bel[key] = exists_atoms(k, lambda a: self.level(a) >= l)
        return r

    def proj(self, c, mask):
        """c where it says anything about the decisions of mask."""
        if c is TRUE or c is FALSE or not mask: return TRUE
        r = self.prj.get(c)
        if r is None:
            r = 0
            for a in atoms(c): r |= self.klass(a)
            self.prj[c] = r
        return c if r & mask else TRUE

    # ---- loops
    def refine(self):
        mus = list(self.u.step)
        self.color = {}
        self.memo = {}
        # inner values first: an initial value may contain outer mus
        col = {}
        for r in range(ROUNDS + 1):
            self.memo = {}
            new = {}
            self.color = col
            for m in mus:
                s = self.u.step[m]
                if s is m or s is m.a[2]:
                    if s is m: new[m] = self.fp(m.a[2]); continue
                i = self.fp(m.a[2])
                if r == 0: new[m] = H("mu", i)
                else:
                    c = self.u.care.get(m, TRUE)
                    k = (self.weighted(c, s) + (1 - self.wt(c)) * DEAD) % Q
                    new[m] = H("mu", i, k)
            col = new
        self.color = col
        self.memo = {}

    def weighted(self, c, v):
        """Sum over the leaves of v of (weight of reaching the leaf under c) * leaf."""
        if any(a.op == "exists" for a in atoms(c)) or v.op == "ite" and not v.b and any(a.op == "exists" for a in atoms(v)):
            bs = branches(v) if v.op == "ite" and not v.b else [(TRUE, v)]
            if len(bs) <= 64:
                r = 0
                for cc, l in bs:
                    x = AND(c, cc)
                    if x is not FALSE: r += self.wt(x) * self.fp(l, self.found(x))
                return r % Q
        return self.wt(c) * self.fp(v, c) % Q

    def found(self, c):
        """c, and of the element a search ended at, what was searched for."""
        for a in atoms(c):
            if a.op == "exists" and cofactor(c, a, False) is FALSE:
                x = AND(c, a.a[1])
                if x is not FALSE: c = x
        return c

    # ---- decision diagrams
    def pairw(self, x, y, k):
        fx, fy = self.fp(x, k), self.fp(y, k)
        e = H("eq", *sorted((fx, fy)))
        if fx <= fy:
            l = H("lt", fx, fy); return l, e
        l = H("lt", fy, fx)
        return (1 - l - e) % Q, e

    def atomw(self, at, k):
        o = at.op
        if o == "lt": return self.pairw(at.a[0], at.a[1], k)[0]
        if o == "eq": return H("eq", *sorted((self.fp(at.a[0], k), self.fp(at.a[1], k))))
        if o == "b": return H("b", self.fp(at.a[0], k))
        if o == "mu": return self.fpmu(at)
        if o == "call" : return H("b", self.fpcall(at, k))
        return H("atom", o, *[self.any(x, k) for x in at.a])

    def fpmu(self, t):
        c = self.color.get(t)
        if c is not None: return c
        return self.fp(t.a[2])

    def groups(self, at, f):
        """Atoms of f that at excludes when it holds."""
        out = []
        if at.op == "is":
            for z in self.atomsof(f):
                if z.op == "is" and z is not at and z.a[0] is at.a[0]: out.append(z)
        elif at.op == "eq":
            for i in (0, 1):
                if at.a[i].op == "const":
                    for z in self.atomsof(f):
                        if z.op == "eq" and z is not at:
                            for j in (0, 1):
                                if z.a[j].op == "const" and z.a[1 - j] is at.a[1 - i]: out.append(z)
        return out

    def atomsof(self, f):
        r = self.acl.get(f)
        if r is None: r = self.acl[f] = atoms(f)
        return r

    def excl(self, grp, f, leaf, k):
        """Mutually exclusive atoms: one weight each, the rest to none of them."""
        r = 0; rest = 1
        for z in grp:
            g = cofactor(f, z, True)
            for y in grp:
                if y is not z: g = cofactor(g, y, False)
            w = self.atomw(z, self.below(k, z))
            r += w * self.dd(g, leaf, k); rest -= w
        for z in grp: f = cofactor(f, z, False)
        return (r + rest * self.dd(f, leaf, k)) % Q

    def dd(self, f, leaf, k):
        key = (f, leaf, k)
        r = self.memo.get(key)
        if r is not None: return r
        p = vg._top(f)
        if p is None: r = (1 if f is TRUE else 0 if f is FALSE else leaf(f, k))
        else:
            at, hi, lo = p
            if at.op in ("lt", "eq"):
                x, y = at.a
                grp = self.groups(at, f) if at.op == "eq" and not any(z.op == "lt" and (z.a[0] in at.a and z.a[0].op != "const" or z.a[1] in at.a and z.a[1].op != "const") for z in self.atomsof(f)) else ()
                if grp:
                    r = self.memo[key] = self.excl([at] + grp, f, leaf, k)
                    return r
                L = vg.mk("lt", x, y, b=True); E = vg.mk("eq", x, y, b=True)
                wl, we = self.pairw(x, y, self.below(k, at))
                if at is L:
                    fe = cofactor(lo, E, True); fg = cofactor(lo, E, False)
                    fl = cofactor(hi, E, False)
                    for z in self.groups(E, fe): fe = cofactor(fe, z, False)
                else:
                    fe = cofactor(hi, L, False)
                    for z in self.groups(E, fe): fe = cofactor(fe, z, False)
                    fl = cofactor(lo, L, True); fg = cofactor(lo, L, False)
                if fl is fg:
                    r = (we * self.dd(fe, leaf, k) + (1 - we) * self.dd(fl, leaf, k)) % Q
                else:
                    r = (wl * self.dd(fl, leaf, k) + we * self.dd(fe, leaf, k) + (1 - wl - we) * self.dd(fg, leaf, k)) % Q
            else:
                grp = self.groups(at, f)
                if grp: r = self.excl([at] + grp, f, leaf, k)
                else:
                    w = self.atomw(at, self.below(k, at))
                    r = (w * self.dd(hi, leaf, k) + (1 - w) * self.dd(lo, leaf, k)) % Q
        self.memo[key] = r
        return r

    # ---- terms
    def any(self, x, k=TRUE):
        if isinstance(x, T): return self.fp(x, k)
        if isinstance(x, tuple): return H("t", *[self.any(y, k) for y in x])
        if isinstance(x, str): return self.ren.get(x, x)
        return x

    def fp(self, t, care=TRUE):
        """Weight of t where care holds: what t is elsewhere does not matter."""
        if care is not TRUE: care = self.proj(care, self.supp(t))
        key = (t, care)
        r = self.memo.get(key)
        if r is None:
            r = self.fp_(t, care)
            self.memo[key] = r
        return r

    def noleaf(self, f, k): return 0
    def inv(self, k):
        key = ("inv", k)
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = pow(self.wt(k), Q - 2, Q)
        return r
    def wt(self, c):
        """Weight of a condition; what its parts say where it does not hold does not matter."""
        return self.dd(c, self.noleaf, c)

    def cond(self, f, k):
        """Weight of the condition f given k."""
        if k is TRUE: return self.wt(f)
        return self.wt(AND(k, f)) * self.inv(k) % Q

    def leafw(self, f, k): return 0 if f is DEADLEAF else self.fp(f, k)

    def eta(self, t, k):
        """An optional value where k settles whether it is there: what it then is."""
        at = vg.T.tab.get(("is", (t, "Some")))
        if at is None or at not in self.atomsof(k): return None
        if cofactor(k, at, False) is FALSE: return H("adt", "Some", ("0", self.fp(vg.proj(vg.as_variant(t, "Some"), "0"), k)))
        if cofactor(k, at, True) is FALSE: return H("adt", "None")
        return None

    def split(self, t):
        """The branches of t; an optional value t itself distinguishes is two of them."""
        out = []
        for c, l in branches(t):
            at = vg.T.tab.get(("is", (l, "Some")))
            if at is None or at not in self.atomsof(t): out.append((c, l)); continue
            out += [(x, l) for x in (AND(c, at), AND(c, NOT(at))) if x is not FALSE]
        return out

    def fp_(self, t, k, plain=False):
        o = t.op
        if not plain and k is not TRUE and not t.b and o in ("call", "fld", "param", "elem", "ix", "mut"):
            r = self.eta(t, k)
            if r is not None: return r
        if o == "ite" and not t.b:
            if len(leaves(t)) <= 64:
                r = 0
                for c, l in self.split(t):
                    x = AND(k, c)
                    if x is not FALSE: r += self.wt(x) * self.fp(l, x)
                return r * self.inv(k) % Q if k is not TRUE else r % Q
            if k is TRUE: return self.dd(t, self.leafw, k)
            return self.dd(ite(k, t, DEADLEAF), self.leafw, k) * self.inv(k) % Q
        if o == "const":
            s = t.a[0]
            if s == "true": return 1
            if s == "false": return 0
            if s.lstrip("-").isdigit(): return int(s) % Q
            return H("const", s)
        if o == "mu": return self.fpmu(t)
        if t.b: return self.cond(t, k)
        if o in ("var", "undef"): return H(o)
        if o == "closure": return H("closure")
        if o == "fn": return H("fn", t.a[0])
        if o == "fld": return self.lift(t, [t.a[0]], lambda x: H("fld", x[0], self.ren.get(t.a[1], t.a[1])), k)
        if o == "as":
            if t.a[0].op != "ite": return H("as", self.fp_(t.a[0], k, True), t.a[1])
            return self.lift(t, [t.a[0]], lambda x: H("as", x[0], t.a[1]), k)
        if o == "bin":
            op = t.a[0]
            def f(z):
                x, y = z
                if op == "Add": return (x + y) % Q
                if op == "Sub": return (x - y) % Q
                if op == "Mul": return x * y % Q
                if op == "Shl" and t.a[2].op == "const" and t.a[2].a[0].isdigit(): return x * pow(2, int(t.a[2].a[0]), Q) % Q
                if op in COMM: x, y = min(x, y), max(x, y)
                return H("bin", op, x, y)
            return self.lift(t, [t.a[1], t.a[2]], f, k)
        if o == "un":
            if t.a[0] == "Neg": return (-self.fp(t.a[1], k)) % Q
            return self.lift(t, [t.a[1]], lambda x: H("un", t.a[0], x[0]), k)
        if o == "agg":
            names = t.a[2]
            kind, v = t.a[0], t.a[1]
            def f(x):
                if kind == "adt": return H("adt", v, *sorted(zip([self.ren.get(n, n) for n in names], x)))
                return H("agg", kind, v, *x)
            return self.lift(t, list(t.a[3:]), f, k)
        if o == "mut":
            return self.lift(t, list(t.a[2:]), lambda x: H("mut", t.a[0], t.a[1], *x), k)
        if o == "call": return self.fpcall(t, k)
        if o == "with":
            return H("with", self.fp(t.a[0], k), *sorted((self.any(p, k), self.fp(v, k)) for p, v in t.a[1:]))
        if o == "ref":
            root, fs = t.a[0]
            return H("ref", self.fp(root, k) if isinstance(root, T) else "loc", *[self.any(x, k) for x in fs])
        if o in ("exists",):
            return H("exists", self.any(t.a[0], k), self.fp(t.a[1], k))
        if o in ("loop", "exit"): return H(o)
        ts = [x for x in t.a if isinstance(x, T)]
        if len(ts) == len(t.a):
            return self.lift(t, ts, lambda x: H(o, *x), k)
        return H(o, *[self.any(x, k) for x in t.a])

    def fpcall(self, t, k):
        name = t.a[0]
        def f(x):
            if name in COMMCALL: x = sorted(x)
            return H("call", name, *x)
        return self.lift(t, list(t.a[1:]), f, k)

    def lift(self, t, kids, f, k):
        """f over the children, with decisions inside children pulled out while they stay few."""
        it = [(i, x) for i, x in enumerate(kids) if x.op == "ite" and not x.b]
        if not it: return f([self.fp(x, k) for x in kids])
        combos = [(k, {})]
        for i, x in it:
            nc = []
            for c, m in combos:
                for cc, l in self.split(x):
                    y = AND(c, cc)
                    if y is not FALSE: nc.append((y, dict(m, **{str(i): l})))
            combos = nc
            if len(combos) > LIFT: return f([self.fp(x, k) for x in kids])
        tot = 0
        for c, m in combos:
            z = [self.fp(m.get(str(i), x), c) for i, x in enumerate(kids)]
            tot += self.wt(c) * f(z)
        return tot * self.inv(k) % Q if k is not TRUE else tot % Q

PANICS = {"panic_fmt", "panic", "panic_display", "panic_str_2015", "panic_explicit", "unreachable_display",
          "assert_failed", "panic_nounwind", "expect_failed", "unwrap_failed", "panic_cold_display", "panic_cold_explicit"}

def hx(n): return "%x" % (n % (1 << 64))

class Item:
    """One obligation of a signature: a key, the canonical weight, and a readable form."""
    __slots__ = ("conds", "key", "w", "kind", "name", "text", "line", "file", "fn")

def signature(u, rename=None, skip=lambda e: False):
    F = Fold(u, rename)
    items = {}
    def add(kind, name, key, c, text, e=None, w=None):
        """One more occurrence of an obligation, under condition c (or with weight w)."""
        k = (kind, name, key)
        it = items.get(k)
        if it is None:
            it = Item(); it.key = key; it.w = 0; it.kind = kind; it.name = name; it.text = text; it.conds = []
            it.line = e.line if e else u.body["line"]; it.file = e.file if e else u.body["file"]
            it.fn = e.fn if e else u.body["p"]
            items[k] = it
        if w is not None: it.w = (it.w + w) % Q; return
        for i, d in enumerate(it.conds):
            if AND(d, c) is FALSE: it.conds[i] = OR(d, c); return
        it.conds.append(c)
    for e in u.events:
        if e.kind == "panic":
            add("panic", "panic", 0, e.cond, "panics", e); continue
        if e.kind != "call" or not e.eff or e.pure or e.name in PANICS or skip(e): continue
        hid = e.hid
        combos = [(e.cond, list(hid))]
        big = False
        for i, x in enumerate(hid):
            if x.op == "ite" and not x.b:
                nc = []
                for c, l in combos:
                    for cc, lf in branches(x):
                        y = AND(c, cc)
                        if y is not FALSE:
                            l2 = list(l); l2[i] = lf; nc.append((y, l2))
                if len(nc) > 4 * LIFT: big = True; break
                combos = nc
        if big: combos = [(e.cond, list(hid))]
        for c, l in combos:
            key = H("ev", e.name, *[F.fp(x, c) for x in l])
            add("call", e.name, key, c, "%s(%s)" % (e.name, ", ".join(show(unv(x))[:160] for x in l)), e)
    if u.ret is not None:
        v = u.content(u.out, u.ret)
        if v is not UNIT:
            add("return", "return", 0, None, "returns " + show(unv(v))[:300], w=F.weighted(u.retcond, v))
    seen = set()
    for k, v in sorted(u.out.items(), key=lambda kv: (len(kv[0][1]) if isinstance(kv[0], tuple) and kv[0][0] != "kids" else 0)):
        if k[0] == "kids" or not isinstance(k[0], T): continue
        root, fs = k
        pt = pathterm(k)
        v = u.content(u.out, v)
        if v is pt: continue
        if v.op == "ref": continue
        add("state", "", F.fp(pt), None, "%s := %s" % (show(unv(pt))[:80], show(unv(v))[:200]), w=F.weighted(u.retcond, v))
    # routing: which data exchange every operator input is given (kept apart, for the properties that ask for it)
    for op, pacts in exchanges(u):
        add("pact", op, H("pact", op, *[F.fp(p) for p in pacts]), None, "%s receives its inputs by %s" % (op, ", ".join(show(unv(p))[:160] for p in pacts)), w=1)
    for i in items.values():
        for c in i.conds: i.w = (i.w + F.wt(c)) % Q
    return [i for i in items.values() if i.w != 0 or i.kind in ("return", "state")]

def ispact(t):
    if t.op == "ite": return any(ispact(l) for l in leaves(t))
    return (t.op == "call" and t.a[0].split("::")[0] in PACTS) or (t.op == "agg" and t.a[1] in PACTS)
PACTS = {"DistributorPact", "Exchange", "ExchangeCore", "Pipeline", "ValPact"}

def exchanges(u):
    """(operator built, routing contracts passed to it) for every call that takes one."""
    seen = set(); out = []
    def go(t):
        st = [t]
        while st:
            t = st.pop()
            if not isinstance(t, T) or t in seen: continue
            seen.add(t)
            if t.op == "call":
                ps = [x for x in t.a[1:] if isinstance(x, T) and ispact(x)]
                if ps: out.append((t.a[0], tuple(ps)))
            for x in t.a:
                if isinstance(x, T): st.append(x)
                elif isinstance(x, tuple): st.extend(y for y in x if isinstance(y, T))
    for e in u.events:
        if e.kind == "call":
            ps = [x for x in e.hid if isinstance(x, T) and ispact(x)]
            if ps: out.append((e.name, tuple(ps)))
            for x in e.hid: go(x)
    if u.ret is not None: go(u.content(u.out, u.ret))
    for k, v in u.out.items():
        if k[0] != "kids" and isinstance(v, T): go(v)
    return sorted(set(out), key=lambda p: (p[0], [x.id for x in p[1]]))

# ---------------------------------------------------------------- weak form
# Used when the loop structure of a function changed, so that loop-carried terms cannot be compared exactly.
GLUECALL = re.compile(r"^(Iterator|IntoIterator|DoubleEndedIterator|ExactSizeIterator|Option|Result|slice|Extend|FromIterator|"
                      r"Vec::(push|len|is_empty|iter|with_capacity|reserve|new|get|first|last|as_slice|extend|pop)|Default::default|Try|next|position|range|into|Range|RangeInclusive|"
                      r"VecDeque::(push_back|len|is_empty|iter|pop_front|get)|Clone|From|Into)\b")

def weak(u):
    """Ingredients that survive a rewrite of the loops: calls made, tests made, values produced."""
    memo = {}
    turn = [0]; most = [1]
    def pick(t):
        """One of the collections a chain runs over, the next one at every turn."""
        parts = []; todo = [t]
        while todo:
            x = vg.once(todo.pop())
            if x.op == "call" and x.a[0] == "chain": todo += reversed(x.a[1:])
            else: parts.append(x)
        most[0] = max(most[0], len(parts))
        return parts[turn[0] % len(parts)]
    def wk(t):
        r = memo.get(t)
        if r is None:
            memo[t] = "…"
            r = memo[t] = wk_(t)
        return r
    def wk_(t):
        o = t.op
        if o == "const": return t.a[0]
        if o == "param": return "p%d" % t.a[0]
        if o in ("mu", "mut", "with", "store"): return wk(unv(t)) if unv(t) is not t else o
        if o in ("var", "undef"): return "v"
        if o == "fld":
            if t.a[0].op == "as" and t.a[0].a[1] in ("Some", "Ok", "Continue"): return wk(t.a[0].a[0])
            return wk(t.a[0]) + "." + t.a[1]
        if o == "as": return wk(t.a[0])
        if o == "call" and t.a[0] == "chain": return wk(pick(t))
        if o in ("again", "once"): return wk(t.a[0])
        if o == "arg" and t.a[0] == "Iterator::flat_map" and isinstance(t.a[1], T): return wk(vg.stream_base(t.a[1]) if vg.is_stream(t.a[1]) else t.a[1])
        if o == "range":
            if t.a[0] is not vg.ZERO: out.add("from " + wk(t.a[0])[:200])
            if t.a[1].op == "len": return wk(t.a[1].a[0])
            return "range"
        if o in ("elem", "ix", "pos"):
            x = t.a[0]
            if o == "elem" and x.op == "call" and x.a[0] == "chain":
                p = pick(x)
                return wk(vg.elem_of(p)) if vg.is_stream(p) else wk(p) + "[]"
            if o == "ix" and t.a[1].op == "elem" and vg.once(t.a[1].a[0]).op == "range": wk(vg.once(t.a[1].a[0]))
            return wk(x) + "[]"
        if o in ("next",): return wk(vg.stream_base(t.a[0])) + "[]"
        if o in ("iter", "rev", "smap", "sfilter", "srev", "senum", "schain", "some", "oref"): 
            return wk(t.a[0]) if isinstance(t.a[0], T) else o
        if o == "ref":
            root, fs = t.a[0]
            return (wk(root) if isinstance(root, T) else "v") + "".join("." + f if isinstance(f, str) else "" for f in fs)
        if o == "ite" and not t.b:
            ws = sorted({wk(l) for l in leaves(t)})
            return ws[0] if len(ws) == 1 else "{%s}" % "|".join(ws)
        if t.b and o not in ("is", "lt", "eq", "b", "more", "exists"): return "bool"
        if o == "b": return wk(t.a[0])
        if o in ("lt", "eq"): return "cmp(%s)" % ",".join(sorted(wk(x) for x in t.a))
        if o == "is": return "is(%s)" % wk(t.a[0])
        if o in ("more", "exists"): return "more"
        if o == "call":
            if t.a[0] == "slice_range" and t.a[2].op == "agg" and t.a[2].a[1] == "RangeFrom":
                out.add("from " + wk(t.a[2].a[3])[:200])
                return wk(t.a[1])
            if t.a[0] == "Iterator::flat_map" and t.a[2].op == "clo": return wk(t.a[2].a[0])
            if GLUECALL.match(t.a[0]) and len(t.a) > 1: return wk(t.a[1])
            return t.a[0] + "(" + ",".join(wk(x) for x in t.a[1:]) + ")"
        if o == "bin": return t.a[0] + "(" + ",".join(sorted(wk(x) for x in t.a[1:])) + ")"
        if o == "un": return t.a[0] + "(" + wk(t.a[1]) + ")"
        if o == "agg":
            if t.a[1] in ("Some", "Ok") and len(t.a) == 4: return wk(t.a[3])
            return t.a[1] + "{" + ",".join(wk(x) for x in t.a[3:]) + "}"
        return o
    out = set()
    def cond(c):
        for a in atoms(c):
            if a.op == "exists": cond(a.a[1]); continue
            if a.op in ("more", "exit"): continue
            w = wk(a)
            if w != "bool": out.add("test " + w[:400])
    def gather():
        for e in u.events:
            if e.kind == "panic": continue
            if e.kind == "write":
                for l in leaves(e.args[0]): out.add("write %s := %s" % (wk(e.locs[0])[:100], wk(l)[:300]))
                cond(e.cond); continue
            cond(e.cond)
            if not e.eff or e.name in PANICS or GLUECALL.match(e.name): continue
            hs = [leaves(x) if x.op == "ite" and not x.b else [x] for x in e.hid]
            for i, h in enumerate(hs):
                for l in h: out.add("call %s/%d %s" % (e.name, i, wk(l)[:300]))
            if not hs: out.add("call " + e.name)
        roots = []
        if u.ret is not None:
            v = u.content(u.out, u.ret); roots.append(v)
            if v.b: cond(v)
            else:
                for c, l in branches(v): out.add("ret " + wk(l)[:400]); cond(c)
        # what is put into collections
        roots += [v for k, v in u.out.items() if k[0] != "kids" and isinstance(v, T) and (isinstance(k[0], T) or k[0][1] != 0)]
        for e in u.events: roots += [x for x in (e.hid or ()) if isinstance(x, T)]
        seen = set(); todo = list(roots)
        def put(x):
            for l in leaves(x) if x.op == "ite" and not x.b else [x]: out.add("put " + wk(l)[:300])
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == "mut" and x.a[0] in vg.GATHER: put(x.a[3])
            elif x.op in ("call", "mut") and re.search(r"::(collect|extend|from_iter|append)$", x.a[0]):
                for y in x.a[1:]:
                    if isinstance(y, T) and vg.is_stream(y): put(vg.elem_of(y))
            elif x.op == "agg" and x.a[0] == "array":
                for y in x.a[3:]: put(y)
            if x.op == "mu":
                todo.append(x.a[2])
                if x in u.step: todo.append(u.step[x])
            if x.op == "ref": continue
            todo += [y for y in x.a if isinstance(y, T)]
    while True:
        gather()
        turn[0] += 1
        if turn[0] >= most[0]: return out
        memo.clear()

def walks(x):
    """How a loop walks its collection: straight, by position, in step with another, or over a range of numbers."""
    while x.op in ("smap", "sfilter", "srev", "mut", "again", "once") and x.a and isinstance(x.a[0], T): x = x.a[0]
    return {"szip": "zip", "zip": "zip", "sidx": "idx", "senum": "idx", "pos": "idx", "range": "idx", "schain": "chain"}.get(x.op, "walk")

def shape(u):
    """How many loops the function has, and how it steps through them."""
    s = {"loops": 0, "closures": 0}
    live = {l for e in u.events for l in e.loops} | {m.a[0] for m in u.step if isinstance(m.a[0], int)}
    for (cs, h), L in u.loops.items():
        if L not in live: continue
        s["closures" if h == "clo" else "loops"] += 1
        if h == "clo": continue
        b = u.loopinfo[L].get("base") if L in u.loopinfo else None
        ks = {walks(b)} if b is not None else set()
        ks |= {walks(m.a[2]) for m in u.step if m.a[0] == L and vg.is_stream(m.a[2])}
        for k in ks or {"while"}: s[k] = s.get(k, 0) + 1
    return s
