"""P07 by cases: patterns of a few points at times that are sums of positive unknowns, asked for a value before,
at, between and after their points.  Every comparison of times is settled by the sign of a polynomial whose
coefficients all have one sign, so that one path remains and its value is compared, as a rational function of
the unknowns, with the line through the neighbouring points."""
import models
from core import *
from engine import Engine, Oracle
from rat import Rat, ev, const, atom
from terms import T

MANY = 10 ** 12         # "much later"
SIZES = {"quick": (0, 1, 2, 3, 5, 9), "thorough": (0, 1, 2, 3, 4, 5, 7, 9, 12)}


def sign(r):
    """of a rational function of positive unknowns; None: not fixed"""
    def s(p):
        if not p:
            return 0
        v = {1 if c > 0 else -1 for c in p.values()}
        return v.pop() if len(v) == 1 else None
    n, d = s(r.n), s(r.d)
    if n == 0 and d:
        return 0
    return n * d if n and d else None


class Positive(Oracle):
    """unknowns in self.pos are positive, the others free"""
    unroll = 40

    def __init__(self):
        self.E, self.pos, self.memo = None, set(), {}

    def rat(self, t):
        return ev(t, None, self.memo)

    def sign(self, r):
        return sign(r) if all(a in self.pos for a in r.atoms()) else None

    def term(self, r):
        w = self.E.w
        if list(r.d) != [()]:
            return None
        out = None
        for m, c in r.n.items():
            x = None
            for a, e in m:
                for _ in range(e):
                    x = a if x is None else w.fbin("fmul", x, a)
            c = c / r.d[()]
            if float(c) != c:
                return None
            x = w.f(float(c)) if x is None else x if c == 1 else w.fbin("fmul", w.f(float(c)), x)
            out = x if out is None else w.fbin("fadd", out, x)
        return w.f(0.0) if out is None else out

    def floor(self, r, cap=6):
        one = r.subst(lambda a: const(1)).const()
        ks = list(range(-cap, cap + 1))
        if one is not None and abs(one) > cap:
            k = one.numerator // one.denominator
            ks = [k, k - 1, k + 1] + ks
        for k in ks:
            lo, hi = self.sign(r - const(k)), self.sign(r - const(k + 1))
            if lo is not None and lo >= 0 and hi == -1:
                return k
        return None

    def rewrite(self, op, a):
        if self.E is None or op != "app":
            return None
        w = self.E.w
        if a[0] in ("frem", "fremeu") and len(a) == 3:
            n, d = self.rat(a[1]), self.rat(a[2])
            if self.sign(d) == 1:
                k = self.floor(n / d)
                if k is not None and k < 0 and a[0] == "frem" and not (n - d * const(k)).iszero():
                    k += 1
                if k is not None:
                    return self.term(n - d * const(k))
        if a[0] in ("ffloor", "fceil", "ftrunc") and len(a) == 2:
            r = self.rat(a[1])
            k = self.floor(r)
            if k is not None:
                whole = (r - const(k)).iszero()
                if a[0] == "fceil" and not whole or a[0] == "ftrunc" and k < 0 and not whole:
                    k += 1
                return w.f(float(k))
        if a[0] in ("fmin", "fmax") and len(a) == 3:
            s = self.sign(self.rat(a[1]) - self.rat(a[2]))
            if s is not None:
                return a[1] if (s <= 0) == (a[0] == "fmin") else a[2]
        if a[0] == "fabs" and len(a) == 2:
            s = self.sign(self.rat(a[1]))
            if s is not None:
                return a[1] if s >= 0 else w.fneg(a[1])
        return None

    def decide(self, t):
        if t.op in ("flt", "fle", "feq"):
            if t.op == "feq" and t.a[0] is t.a[1]:
                return True
            s = self.sign(self.rat(t.a[0]) - self.rat(t.a[1]))
            if s is not None:
                return {"flt": s < 0, "fle": s <= 0, "feq": s == 0}[t.op]
        if t.op == "app" and t.a[0] in ("is_nan", "is_infinite", "is_finite"):
            r = self.rat(t.a[1])
            if all(a.op == "sym" for a in r.atoms()):
                return t.a[0] == "is_finite"
        return None


class Case:
    """one pattern, one setting, one time"""

    def __init__(self, n, zero, rep, q, seg, where):
        """seg, where: the time in the cycle is at ("at") the start of segment seg or inside it ("in");
        q: the number of whole periods before it, or "before"/"after" """
        self.n, self.zero, self.rep, self.q, self.seg, self.where = n, zero, rep, q, seg, where

    def __repr__(self):
        pt = "%d point%s%s" % (self.n, "" if self.n == 1 else "s", ", the first at 0" if self.zero else "")
        if self.q == "before":
            return pt + ", before the delay"
        r = "once" if self.rep < 0 else "repeating from %s" % ("0" if self.rep == 0 else "r > 0")
        if self.q == "after":
            return "%s, %s, after the last point" % (pt, r)
        at = "the start" if self.seg == 0 and self.where == "at" else "point %d" % self.seg if self.where == "at" else \
            "between %s and point %d" % ("the start" if self.seg == 0 else "point %d" % self.seg, self.seg + 1)
        return "%s, %s, %s%s" % (pt, r, at, " after %d periods" % self.q if self.q else "")


def cases(tier):
    for n in SIZES.get(tier, SIZES["quick"]):
        for zero in ((False, True) if n else (False,)):
            for rep in (1, 0, -1):
                yield Case(n, zero, rep, "before", 0, "at")
                if n == 0:
                    yield Case(n, zero, rep, "after", 0, "at")
                    continue
                last = n - 1 if zero else n              # number of segments
                for q in ((0, 1, 2, MANY) if rep >= 0 and last else (0,)):
                    for s in range(last):
                        yield Case(n, zero, rep, q, s, "at")
                        yield Case(n, zero, rep, q, s, "in")
                if rep < 0 or not last:
                    yield Case(n, zero, rep, 0, last, "at")
                    yield Case(n, zero, rep, "after", last, "at")


def value(C, f, flds, ty, c):
    """(verdict, what) of one case: any delay and setting, or else some of them, which can only show it wrong"""
    r = settled(C, f, flds, ty, c, "any")
    if r[0] is None:
        for how in ("no delay", "long delay", "long repeat"):
            x = settled(C, f, flds, ty, c, how)
            if x[0] is False:
                return False, "%s, %s" % (how, x[1])
    return r


def settled(C, f, flds, ty, c, how):
    """True right, False wrong, None not settled"""
    O = Positive()
    O.E = E = Engine(C.prog(), O, limit=20000)
    w = E.w

    def pos(x):
        s = w.mk("sym", x, "f64")
        O.pos.add(s)
        return s
    add = lambda *xs: xs[0] if len(xs) == 1 else w.fbin("fadd", add(*xs[:-1]), xs[-1])
    # segment k leads to point k (k-1 when the first point is at 0)
    m = c.n - 1 if c.zero and c.n else c.n
    inside = c.where == "in"
    gaps = []
    for k in range(m):
        gaps.append([pos("g%da" % k), pos("g%db" % k)] if inside and k == c.seg else [pos("g%d" % k)])
    ts, acc = ([w.f(0.0)] if c.zero and c.n else []), []
    for g in gaps:
        acc = acc + g
        ts.append(add(*acc))
    vs = [w.mk("sym", "v%d" % k, "f64") for k in range(c.n)]
    pat = w.arr([w.agg("tuple", 0, [x, v]) for x, v in zip(ts, vs)])
    whole = [g for gs in gaps for g in gs]
    D = w.mk("sym", "delay", "f64") if how == "any" else w.f(0.0) if how == "no delay" else add(*whole, pos("d"))
    before = [g for gs in gaps[:c.seg] for g in gs] + ([gaps[c.seg][0]] if inside else [])
    if c.q == "before":
        t = w.fbin("fsub", D, pos("early"))
        want = const(0)
    else:
        x = before
        if c.q == "after":
            x = [g for gs in gaps for g in gs] + [pos("late")]
        else:
            if c.q == MANY:
                x = [w.fbin("fmul", w.f(float(MANY)), g) for gs in gaps for g in gs] + x
            else:
                x = [g for gs in gaps for g in gs] * c.q + x
        t = add(D, *x) if x else D
        rt, rv = [ev(y) for y in ts], [atom(y) for y in vs]
        if not c.zero:
            rt, rv = [const(0)] + rt, [const(0)] + rv
        if c.n == 0:
            want = const(0)
        elif c.q == "after":
            want = rv[-1]
        elif not inside:
            want = rv[c.seg]
        else:
            r = ev(add(*before))
            want = rv[c.seg] + (rv[c.seg + 1] - rv[c.seg]) * (r - rt[c.seg]) / (rt[c.seg + 1] - rt[c.seg])
    rep = w.f(0.0) if c.rep == 0 else add(*whole, *whole, *whole, pos("rep")) if how == "long repeat" else pos("rep")
    rep = w.fneg(rep) if c.rep < 0 else rep
    comps = [None] * len(flds)
    for nm, i in flds.items():
        comps[i] = {"pat": pat, "t_delay": D, "repeat": rep}.get(nm)
        if comps[i] is None:
            comps[i] = w.mk("sym", "field_" + nm, "usize")
    E.run(f, args={1: w.agg(ty, 0, comps), 2: t})
    C.ran(E)
    rets = E.returns()
    bad = [e for e in E.all_events("panic")]
    if bad and not rets:
        return False, "the program stops"
    if len(rets) != 1 or bad:
        return None, "%d alternatives remain" % (len(rets) + len(bad))
    for e in E.all_events("assert"):
        x = e.data[1] if len(e.data) > 1 else None
        if not (isinstance(x, T) and E.truth(x, e.facts) is True):
            return None, "a check of the program is not settled"
    v = rets[0][0]
    K = Canon(E)
    r = ev(K(v) if callable(K) else v, None, {})
    odd = [a for a in r.atoms() if not (isinstance(a, T) and a.op == "sym" and not a.a[0].startswith("field_"))]
    for a in odd:
        if isinstance(a, T) and a.op == "fdiv" and ev(a.a[1]).iszero():
            return False, "the value is %s divided by 0" % ev(a.a[0])
    if odd:
        return None, "the value is %s" % r
    if (r - want).iszero():
        return True, ""
    if c.q in (1, 2, MANY) and c.seg == 0 and not inside and (r - rv[-1]).iszero():
        return True, ""                 # the end of one period or the start of the next
    return False, "the value is %s instead of %s" % (r, want)


def by_cases(C, f, flds, ty):
    """(wrong, unsettled, right): [(case, what)]"""
    out = {True: [], False: [], None: []}
    for c in cases(C.tier):
        try:
            k, why = value(C, f, flds, ty, c)
        except Undecided as e:
            k, why = None, str(e)
        out[k].append((c, why))
        if k is None and len(out[None]) > 12 and not out[True]:
            break
    return out[False], out[None], out[True]
