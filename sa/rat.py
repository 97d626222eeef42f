"""Rational functions over value terms: the normal form in which two
differently written float formulas are compared (as formulas over the reals)."""
from fractions import Fraction
from terms import T


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else {(): Fraction(1)}

    def __add__(self, o):
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        return Rat(pmul(self.n, o.d), pmul(self.d, o.n)).reduced()

    def reduced(self):
        """without monomial factors common to numerator and denominator"""
        if not self.n:
            return Rat({})
        com = None
        for p in (self.n, self.d):
            for m in p:
                if not m:
                    return self
                dm = dict(m)
                com = dm if com is None else {a: min(e, dm[a]) for a, e in com.items() if a in dm}
                if not com:
                    return self

        def cut(p):
            return {tuple((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0)): c for m, c in p.items()}
        return Rat(cut(self.n), cut(self.d))

    def __eq__(self, o):
        return pmul(self.n, o.d) == pmul(o.n, self.d)

    __hash__ = None

    def iszero(self):
        return not self.n

    def const(self):
        """value if constant"""
        if not self.n:
            return Fraction(0)
        if len(self.n) == len(self.d):
            (m0, c0) = next(iter(self.n.items()))
            if m0 in self.d:
                k = c0 / self.d[m0]
                if all(self.d.get(m, 0) * k == c for m, c in self.n.items()):
                    return k
        return None

    def atoms(self):
        out = {}
        for p in (self.n, self.d):
            for m in p:
                for a, e in m:
                    out[a] = 1
        return list(out)

    def subst(self, f):
        """replace atoms: f(atom) -> Rat | None"""
        return psub(self.n, f) / psub(self.d, f)

    def __repr__(self):
        s = pshow(self.n)
        return s if self.d == {(): 1} else "(%s)/(%s)" % (s, pshow(self.d))


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: akey(p[0])))


def akey(x):
    return (0, x.id, "") if isinstance(x, T) else (1, 0, str(x))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def psub(p, f):
    r = const(0)
    for m, c in p.items():
        t = const(c)
        for a, e in m:
            x = f(a)
            if x is None:
                x = atom(a)
            for _ in range(e):
                t = t * x
        r = r + t
    return r


def pshow(p):
    if not p:
        return "0"
    out = []
    for m, c in p.items():
        s = "*".join(("%s" % (a,)) + ("^%d" % e if e > 1 else "") for a, e in m)
        cc = float(c)
        out.append(("%g" % cc) if not s else s if c == 1 else "-" + s if c == -1 else "%g*%s" % (cc, s))
    return " + ".join(out)


def const(v):
    v = Fraction(v)
    return Rat({(): v} if v else {})


def atom(a):
    return Rat({((a, 1),): Fraction(1)})


def is_float_op(t):
    return t.op in ("fadd", "fsub", "fmul", "fdiv", "fneg")


def ev(t, f=None, memo=None):
    """rational form of a float term; `f(term)` -> Rat | atom key | None overrides"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = None
    if f is not None:
        r = f(t)
        if r is not None and not isinstance(r, Rat):
            r = atom(r)
    if r is None:
        if t.op == "C" and t.a[0] in ("f", "i"):
            v = t.a[1]
            if v == v and abs(v) != float("inf"):
                r = const(v)
        elif t.op == "fadd":
            r = ev(t.a[0], f, memo) + ev(t.a[1], f, memo)
        elif t.op == "fsub":
            r = ev(t.a[0], f, memo) - ev(t.a[1], f, memo)
        elif t.op == "fmul":
            r = ev(t.a[0], f, memo) * ev(t.a[1], f, memo)
        elif t.op == "fdiv":
            d = ev(t.a[1], f, memo)
            if not d.iszero():
                r = ev(t.a[0], f, memo) / d
        elif t.op == "fneg":
            r = -ev(t.a[0], f, memo)
        elif t.op == "app" and t.a[0] == "itof" and t.a[1].op in ("lin", "C"):
            k, d = t.w.lin_parts(t.a[1])
            r = const(k)
            for x, c in d.items():
                r = r + const(c) * ev(t.w.app("itof", x), f, memo)
    if r is None:
        r = atom(t)
    memo[t] = r
    return r
