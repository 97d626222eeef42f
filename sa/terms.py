"""Hash-consed value terms (the abstract domain of the value-flow analysis).

A term names a value of the analysed program; two occurrences of one term are
the same value.  Construction normalises (linear integer forms, comparison
canonicalisation, array/select, string concatenation, constant folding) so
that differently written code computing the same value meets in one term.
Terms are only ever compared and inspected, never handed to a solver.
"""
import math


class T:
    __slots__ = ("op", "a", "id", "refs", "w", "__weakref__")

    def __init__(self, op, a, i, w):
        self.op = op
        self.a = a
        self.id = i
        self.w = w
        self.refs = None

    def __repr__(self):
        return show(self)


class World:
    """Intern table + constructors.  `oracle` may rewrite terms on creation."""

    def __init__(self):
        self.tab = {}
        self.n = 0
        self.rewrite = None      # f(op, args) -> T | None, tried before folding
        self.phi_ops = {}        # phi term id -> {edge: T}
        self.phi_term = {}
        self.phi_users = {}
        self.parts = {}

    # -- basic ---------------------------------------------------------------
    def mk(self, op, *a):
        k = (op, a) if op != "C" or a[0] != "f" else (op, a[1].hex() if a[1] == a[1] else "nan")
        t = self.tab.get(k)
        if t is None:
            self.n += 1
            t = T(op, a, self.n, self)
            self.tab[k] = t
        return t

    def mkr(self, op, *a):
        if self.rewrite is not None:
            r = self.rewrite(op, a)
            if r is not None:
                return r
        return self.mk(op, *a)

    # constants
    def i(self, v):
        return self.mk("C", "i", int(v))

    def f(self, v):
        return self.mk("C", "f", float(v))

    def s(self, v):
        return self.mk("C", "s", v)

    def c(self, v):
        return self.mk("C", "c", int(v))

    def b(self, v):
        return self.mk("C", "b", bool(v))

    @property
    def unit(self):
        return self.mk("C", "u", 0)

    def sym(self, name, ty=None):
        return self.mkr("sym", name, ty)

    def app(self, name, *args):
        return self.mkr("app", name, *args)

    # -- aggregates ----------------------------------------------------------
    def agg(self, kind, variant, comps):
        comps = tuple(comps)
        # eta: S{x.0, x.1, ..} == x   (single-variant kinds)
        if comps:
            c0 = comps[0] if comps else None
            if c0 is not None and c0.op == "fld" and c0.a[2] == 0:
                base, v = c0.a[0], c0.a[1]
                if v == variant and base.op != "agg" and self.eta_ok(base, kind, variant, len(comps)):
                    ok = all(c.op == "fld" and c.a[0] is base and c.a[1] == v and c.a[2] == n
                             for n, c in enumerate(comps))
                    if ok:
                        return base
        return self.mk("agg", kind, variant, *comps)

    eta_kinds = ()

    def eta_ok(self, base, kind, variant, n):
        f = getattr(self, "eta_check", None)
        return f(base, kind, variant, n) if f else False

    def fld(self, t, v, i):
        if t.op == "agg":
            if t.a[1] == v or (v == 0 and t.a[0] in ("tuple", "closure")):
                if 2 + i < len(t.a):
                    return t.a[2 + i]
            elif t.a[0] not in ("tuple", "closure"):
                return self.mk("undef")
        if t.op == "undef":
            return t
        r = self.mkr("fld", t, v, i)
        return r

    def discr(self, t):
        if t.op == "agg":
            return self.i(self.discr_of(t.a[0], t.a[1]))
        if t.op == "C" and t.a[0] in "ibc":
            return self.i(int(t.a[1]))
        return self.mkr("discr", t)

    def discr_of(self, kind, variant):
        f = getattr(self, "discr_fn", None)
        return f(kind, variant) if f else variant

    # -- integers: linear forms ------------------------------------------------
    @staticmethod
    def cint(t):
        if t.op == "C" and t.a[0] in ("i", "c"):
            return t.a[1]
        if t.op == "C" and t.a[0] == "b":
            return int(t.a[1])
        return None

    def lin_parts(self, t):
        v = self.cint(t)
        if v is not None:
            return v, {}
        if t.op == "lin":
            p = self.parts.get(t)
            if p is None:
                p = self.parts[t] = (t.a[0], dict(t.a[1]))
            return p
        return 0, {t: 1}

    def lin(self, k, d):
        d = {x: c for x, c in d.items() if c}
        if not d:
            return self.i(k)
        if k == 0 and len(d) == 1:
            (x, c), = d.items()
            if c == 1:
                return x
        return self.mk("lin", k, tuple(sorted(d.items(), key=lambda p: p[0].id)))

    def iadd(self, a, b, s=1):
        ka, da = self.lin_parts(a)
        kb, db = self.lin_parts(b)
        d = dict(da)
        for x, c in db.items():
            d[x] = d.get(x, 0) + s * c
        return self.lin(ka + s * kb, d)

    def isub(self, a, b):
        return self.iadd(a, b, -1)

    def imul(self, a, b):
        ca, cb = self.cint(a), self.cint(b)
        if ca is None and cb is None:
            if a.id > b.id:
                a, b = b, a
            return self.mk("app", "imul", a, b)
        if ca is None:
            a, b, ca = b, a, cb
        k, d = self.lin_parts(b)
        return self.lin(k * ca, {x: c * ca for x, c in d.items()})

    def imin(self, a, b):
        d = self.isub(a, b)
        v = self.cint(d)
        if v is not None:
            return a if v <= 0 else b
        if a.id > b.id:
            a, b = b, a
        return self.mk("app", "imin", a, b)

    def imax(self, a, b):
        d = self.isub(a, b)
        v = self.cint(d)
        if v is not None:
            return a if v >= 0 else b
        xs = []
        for t in (a, b):
            if t.op == "app" and t.a[0] == "imax":
                xs += list(t.a[1:])
            else:
                xs.append(t)
        # drop dominated members
        keep = []
        for x in xs:
            if any(x is y for y in keep):
                continue
            keep.append(x)
        keep2 = []
        for x in keep:
            dom = False
            for y in keep:
                if y is x:
                    continue
                v = self.cint(self.isub(y, x))
                if v is not None and v > 0:
                    dom = True
                # const dominated by nonneg + const
                cx = self.cint(x)
                if cx is not None:
                    lo = self.lower(y)
                    if lo is not None and lo >= cx:
                        dom = True
            if not dom:
                keep2.append(x)
        if not keep2:
            keep2 = keep[:1]
        if len(keep2) == 1:
            return keep2[0]
        keep2.sort(key=lambda t: t.id)
        return self.mk("app", "imax", *keep2)

    def lower(self, t):
        """a lower bound of an unsigned integer term, or None"""
        k, d = self.lin_parts(t)
        lo = k
        for x, c in d.items():
            if c < 0:
                return None
            lo += c * self.atom_lower(x)
        return lo

    def atom_lower(self, x):
        f = getattr(self, "atom_lo", None)
        if f:
            v = f(x)
            if v is not None:
                return v
        if x.op == "len":
            return self.len_lower(x.a[0])
        if x.op == "app" and x.a[0] == "imax":
            return max([self.lower(y) or 0 for y in x.a[1:]])
        return 0

    def len_lower(self, a):
        return 0

    def ge0(self, t):
        """t >= 0 over unsigned atoms"""
        v = self.cint(t)
        if v is not None:
            return self.b(v >= 0)
        lo = self.lower(t)
        if lo is not None and lo >= 0:
            return self.b(True)
        k, d = self.lin_parts(t)
        # all-negative coefficients: upper bound is k - sum(lower)
        if all(c < 0 for c in d.values()):
            hi = k + sum(c * self.atom_lower(x) for x, c in d.items())
            if hi < 0:
                return self.b(False)
            if hi == 0 and len(d) == 1:
                (x, c), = d.items()
                return self.eq0(self.lin(k, d))
        # x - 1 >= 0  ==  not (x == 0)
        if len(d) == 1:
            (x, c), = d.items()
            if c == 1 and k < 0 and self.atom_lower(x) == -k - 1:
                return self.bnot(self.eq0(self.lin(k + 1, d)))
        return self.mkr("ge0", t)

    def eq0(self, t):
        v = self.cint(t)
        if v is not None:
            return self.b(v == 0)
        k, d = self.lin_parts(t)
        items = sorted(d.items(), key=lambda p: p[0].id)
        if items[0][1] < 0:
            k, d = -k, {x: -c for x, c in d.items()}
            t = self.lin(k, d)
        lo = self.lower(t)
        if lo is not None and lo > 0:
            return self.b(False)
        return self.mkr("eq0", t)

    def ilt(self, a, b):
        return self.ge0(self.iadd(self.isub(b, a), self.i(-1)))

    def ile(self, a, b):
        return self.ge0(self.isub(b, a))

    def ieq(self, a, b):
        return self.eq0(self.isub(a, b))

    # -- booleans ----------------------------------------------------------------
    def bnot(self, a):
        if a.op == "C":
            return self.b(not a.a[1])
        if a.op == "not":
            return a.a[0]
        if a.op == "ge0":
            # not(t>=0) == -t-1>=0
            k, d = self.lin_parts(a.a[0])
            t = self.lin(-k - 1, {x: -c for x, c in d.items()})
            return self.ge0(t)
        return self.mk("not", a)

    def band(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "C":
                return y if x.a[1] else x
        if a is b:
            return a
        if a.id > b.id:
            a, b = b, a
        return self.mk("and", a, b)

    def bor(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "C":
                return x if x.a[1] else y
        if a is b:
            return a
        if a.id > b.id:
            a, b = b, a
        return self.mk("or", a, b)

    def eq(self, a, b):
        """generic equality (strings, chars, bools, enums)"""
        if a is b and not self.maybe_float(a):
            return self.b(True)
        if a.op == "C" and b.op == "C":
            if a.a[0] == "f":
                return self.b(a.a[1] == b.a[1])
            return self.b(a.a[1] == b.a[1])
        ka = a.a[0] if a.op == "C" else None
        kb = b.a[0] if b.op == "C" else None
        if ka in ("i", "c") or kb in ("i", "c") or a.op == "lin" or b.op == "lin":
            return self.ieq(a, b)
        if ka == "b":
            return b if a.a[1] else self.bnot(b)
        if kb == "b":
            return a if b.a[1] else self.bnot(a)
        if a.id > b.id:
            a, b = b, a
        return self.mkr("eq", a, b)

    def maybe_float(self, a):
        return False

    # -- floats ------------------------------------------------------------------
    def fbin(self, op, a, b):
        if a.op == "C" and b.op == "C":
            x, y = a.a[1], b.a[1]
            try:
                if op == "fadd":
                    return self.f(x + y)
                if op == "fsub":
                    return self.f(x - y)
                if op == "fmul":
                    return self.f(x * y)
                if op == "fdiv":
                    if y != 0:
                        return self.f(x / y)
            except OverflowError:
                pass
        return self.mkr(op, a, b)

    def fneg(self, a):
        if a.op == "C":
            return self.f(-a.a[1])
        if a.op == "fneg":
            return a.a[0]
        return self.mk("fneg", a)

    def fcmp(self, op, a, b):
        """op in flt, fle, feq"""
        if a.op == "C" and b.op == "C":
            x, y = a.a[1], b.a[1]
            return self.b({"flt": x < y, "fle": x <= y, "feq": x == y}[op])
        if op == "feq" and a.id > b.id:
            a, b = b, a
        return self.mkr(op, a, b)

    def f1(self, name, a):
        if a.op == "C" and a.a[0] == "f":
            x = a.a[1]
            try:
                if name == "fabs":
                    return self.f(abs(x))
                if name == "fsqrt" and x >= 0:
                    return self.f(math.sqrt(x))
            except Exception:
                pass
        if name == "fabs" and a.op in ("fneg",):
            return self.f1(name, a.a[0])
        return self.mkr("app", name, a)

    # -- arrays ------------------------------------------------------------------
    def arr(self, xs):
        return self.mk("arr", *xs)

    def rep(self, n, v):
        k = self.cint(n)
        if k is not None and 0 <= k <= 8:
            return self.arr([v] * k)
        return self.mk("rep", n, v)

    def len(self, a):
        if a.op == "arr":
            return self.i(len(a.a))
        if a.op == "rep":
            return a.a[0]
        if a.op == "store":
            return self.len(a.a[0])
        if a.op == "push":
            return self.iadd(self.len(a.a[0]), self.i(1))
        if a.op == "C" and a.a[0] == "s":
            return self.i(len(a.a[1].encode()))
        if a.op == "app" and a.a[0] in ("reversed", "sorted", "swap"):
            return self.len(a.a[1])
        if a.op == "app" and a.a[0] == "iota":
            return self.isub(a.a[2], a.a[1])
        if a.op == "app" and a.a[0] == "slice":
            return self.isub(a.a[3], a.a[2])
        if a.op == "phi":
            # all (structurally) same-length operands: a store-only loop
            r = self.phi_len(a)
            if r is not None:
                return r
        if a.op == "sel":
            r = self.row_len(a.a[0], set())
            if r is not None:
                return r
        return self.mkr("len", a)

    def row_len(self, m, seen):
        """common length of the rows of a matrix built from equal rows, or None"""
        out = None
        st = [m]
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            rows = []
            if t.op == "store":
                st.append(t.a[0])
                rows = [t.a[2]]
            elif t.op == "push":
                st.append(t.a[0])
                rows = [t.a[1]]
            elif t.op == "app" and t.a[0] == "swap":
                st.append(t.a[1])
            elif t.op == "phi":
                ops = self.phi_ops.get(t.id)
                if not ops:
                    return None
                st += list(ops.values())
            elif t.op == "rep":
                rows = [t.a[1]]
            elif t.op == "arr":
                rows = list(t.a)
            else:
                return None
            for r in rows:
                while r.op == "store":
                    r = r.a[0]
                if r.op == "sel" and r.a[0].op in ("phi", "store", "push", "rep", "arr"):
                    st.append(r.a[0])
                    continue
                l = self.len(r)
                if out is not None and l is not out:
                    return None
                out = l
        return out

    # -- rebuilding ----------------------------------------------------------
    def build(self, op, a):
        """term op(a) through the normalising constructors"""
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return self.fbin(op, *a)
        if op in ("flt", "fle", "feq"):
            return self.fcmp(op, *a)
        f = {"fneg": self.fneg, "ge0": self.ge0, "eq0": self.eq0, "not": self.bnot, "and": self.band,
             "or": self.bor, "eq": self.eq, "len": self.len, "sel": self.sel, "store": self.store,
             "push": self.push, "fld": self.fld, "discr": self.discr}.get(op)
        if f:
            return f(*a)
        if op == "agg":
            return self.agg(a[0], a[1], a[2:])
        if op == "cat":
            return self.cat(a)
        if op == "app":
            if a[0] == "imul":
                return self.imul(*a[1:])
            if a[0] == "imin":
                return self.imin(*a[1:])
            if a[0] == "imax":
                r = a[1]
                for x in a[2:]:
                    r = self.imax(r, x)
                return r
            if a[0] in ("fabs", "fsqrt"):
                return self.f1(a[0], a[1])
            return self.app(*a)
        if op == "rep":
            return self.rep(*a)
        return self.mk(op, *a)

    def subst(self, t, mp, memo=None):
        """t with the terms of `mp` replaced (phis are leaves)"""
        if memo is None:
            memo = {}
        r = mp.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ("C", "sym", "phi", "undef", "fn", "site", "zst", "bytes", "const"):
            memo[t] = t
            return t
        if t.op == "lin":
            r = self.i(t.a[0])
            for x, c in t.a[1]:
                r = self.iadd(r, self.imul(self.i(c), self.subst(x, mp, memo)))
        elif t.op == "Ref":
            p2 = tuple(("i", self.subst(p[1], mp, memo)) if p[0] == "i" else p for p in t.a[1])
            r = self.mk("Ref", t.a[0], p2)
        else:
            na = [self.subst(x, mp, memo) if isinstance(x, T) else x for x in t.a]
            r = t if all(x is y for x, y in zip(na, t.a)) else self.build(t.op, na)
        memo[t] = r
        return r

    def phi_len(self, a):
        """Length of a phi whose operands all derive, by stores only, from one root."""
        seen = set()
        roots = set()
        st = [a]
        while st:
            t = st.pop()
            while t.op == "store" or (t.op == "app" and t.a[0] == "swap"):
                t = t.a[0] if t.op == "store" else t.a[1]
            if t.op == "phi":
                if t.id in seen:
                    continue
                seen.add(t.id)
                ops = self.phi_ops.get(t.id)
                if not ops:
                    return None
                st += list(ops.values())
            else:
                roots.add(t)
        if len(roots) >= 1:
            ls = {self.len(r) for r in roots if r.op != "push"}
            if len(ls) == 1 and all(r.op != "push" for r in roots):
                return ls.pop()
        return None

    def sel(self, a, i):
        k = self.cint(i)
        if a.op == "arr" and k is not None and 0 <= k < len(a.a):
            return a.a[k]
        if a.op == "rep":
            return a.a[1]
        if a.op == "store":
            d = self.isub(i, a.a[1])
            v = self.cint(d)
            if v == 0:
                return a.a[2]
            if v is not None or self.distinct(i, a.a[1]):
                return self.sel(a.a[0], i)
        if a.op == "push":
            n = self.len(a.a[0])
            d = self.cint(self.isub(i, n))
            if d == 0:
                return a.a[1]
            if d is not None and d < 0:
                return self.sel(a.a[0], i)
        if a.op == "app":
            if a.a[0] == "iota":
                return self.iadd(a.a[1], i)
            if a.a[0] == "slice":
                return self.sel(a.a[1], self.iadd(a.a[2], i))
            if a.a[0] == "windows" and self.cint(a.a[2]) is not None:
                return self.app("slice", a.a[1], i, self.iadd(i, a.a[2]))
            if a.a[0] == "reversed":
                n = self.len(a.a[1])
                return self.sel(a.a[1], self.isub(self.iadd(n, self.i(-1)), i))
            if a.a[0] == "enumerated":
                return self.agg("tuple", 0, [i, self.sel(a.a[1], i)])
            if a.a[0] == "zipped":
                return self.agg("tuple", 0, [self.sel(a.a[1], i), self.sel(a.a[2], i)])
        if a.op == "sel" and a.a[0].op == "app" and a.a[0].a[0] == "chunks":
            arr, n = a.a[0].a[1], a.a[0].a[2]
            return self.sel(arr, self.iadd(self.imul(n, a.a[1]), i))
        return self.mkr("sel", a, i)

    def distinct(self, a, b):
        f = getattr(self, "distinct_fn", None)
        return f(a, b) if f else False

    def store(self, a, i, v):
        if v.op == "sel" and v.a[0] is a and v.a[1] is i:
            return a
        if a.op == "store":
            d = self.cint(self.isub(i, a.a[1]))
            if d == 0:
                return self.store(a.a[0], i, v)
        k = self.cint(i)
        if a.op == "arr" and k is not None and 0 <= k < len(a.a):
            xs = list(a.a)
            xs[k] = v
            return self.arr(xs)
        if a.op == "push":
            d = self.cint(self.isub(i, self.len(a.a[0])))
            if d == 0:
                return self.push(a.a[0], v)
        return self.mk("store", a, i, v)

    def push(self, a, v):
        if a.op == "arr" and len(a.a) < 64:
            return self.arr(list(a.a) + [v])
        return self.mk("push", a, v)

    def pop(self, a):
        """(rest, last)"""
        if a.op == "arr" and a.a:
            return self.arr(a.a[:-1]), a.a[-1]
        if a.op == "push":
            return a.a[0], a.a[1]
        return self.mk("app", "init", a), self.mk("app", "lastof", a)

    # -- strings -----------------------------------------------------------------
    def tostr(self, t):
        if t.op == "C" and t.a[0] == "c":
            return self.s(chr(t.a[1]))
        if t.op == "C" and t.a[0] == "i":
            return self.s(str(t.a[1]))
        return t

    def cat(self, parts):
        out = []
        for p in parts:
            if p.op == "cat":
                out += list(p.a)
            else:
                out.append(self.tostr(p))
        res = []
        for p in out:
            if p.op == "C" and p.a[0] == "s":
                if p.a[1] == "":
                    continue
                if res and res[-1].op == "C" and res[-1].a[0] == "s":
                    res[-1] = self.s(res[-1].a[1] + p.a[1])
                    continue
            res.append(p)
        if not res:
            return self.s("")
        if len(res) == 1:
            return res[0]
        return self.mkr("cat", *res)

    # -- references ----------------------------------------------------------------
    def ref(self, cell, path):
        return self.mk("Ref", cell, tuple(path))

    # -- phi ---------------------------------------------------------------------
    def phi(self, node, cell, path):
        t = self.mk("phi", node, cell, tuple(path))
        self.phi_term[t.id] = t
        return t


def subterms(t, seen=None, through_phi=False, out=None, stop=None):
    """all distinct subterms (optionally unfolding phi operands)"""
    if seen is None:
        seen = set()
    if out is None:
        out = []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        if stop is not None and stop(x):
            continue
        _push_args(x.a, st)
        if through_phi and x.op == "phi":
            ops = x.w.phi_ops.get(x.id)
            if ops:
                st += list(ops.values())
    return out


def _push_args(a, st):
    for y in a:
        if isinstance(y, T):
            st.append(y)
        elif isinstance(y, tuple):
            _push_args(y, st)


def contains(t, pred, through_phi=False):
    return any(pred(x) for x in subterms(t, through_phi=through_phi))


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 12:
        return "…"
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == "C":
        k, v = a
        if k == "c":
            return repr(chr(v))
        if k == "u":
            return "()"
        if k == "f":
            return "%r" % v
        if k == "s":
            return '"%s"' % v
        return str(v)
    if o == "sym":
        return str(a[0])
    if o == "fld":
        return "%s.%s%s" % (s(a[0]), ("v%s:" % a[1]) if a[1] else "", a[2])
    if o == "agg":
        nm = a[0].split("::")[-1] if isinstance(a[0], str) else str(a[0])
        return "%s#%s(%s)" % (nm, a[1], ", ".join(s(x) for x in a[2:]))
    if o == "lin":
        ps = []
        for x, c in a[1]:
            ps.append(("+" if c > 0 else "-") + ("" if abs(c) == 1 else str(abs(c)) + "*") + s(x))
        return "(" + "".join(ps) + ("%+d" % a[0] if a[0] else "") + ")"
    if o in ("fadd", "fsub", "fmul", "fdiv"):
        return "(%s %s %s)" % (s(a[0]), {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[o], s(a[1]))
    if o in ("flt", "fle", "feq"):
        return "(%s %s %s)" % (s(a[0]), {"flt": "<.", "fle": "<=.", "feq": "==."}[o], s(a[1]))
    if o == "ge0":
        return "[%s>=0]" % s(a[0])
    if o == "eq0":
        return "[%s==0]" % s(a[0])
    if o == "sel":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "store":
        return "%s{%s:=%s}" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if o == "phi":
        return "φ%d<%s%s>" % (t.id, short_cell(a[1]), "".join("." + str(p) for p in a[2]))
    if o == "cat":
        return "cat(" + " ~ ".join(s(x) for x in a) + ")"
    if o == "Ref":
        return "&%s%s" % (short_cell(a[0]), "".join("." + (s(p[1]) if isinstance(p[1], T) else str(p[1:])) for p in a[1]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


def short_cell(c):
    if isinstance(c, tuple):
        return "%s%s" % (c[0], "_".join(str(x) for x in c[1:] if not isinstance(x, tuple)))
    return str(c)
