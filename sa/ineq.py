"""Upper bounds on float terms from the facts of the paths they come from."""
import rat
from rat import Rat, const, atom
from terms import T
from core import *


class Bound:
    """shows  x <= b  for rational forms over value terms.  `frac` lists atoms
    known to lie in (0, 1], `pos` atoms known to be non-negative."""

    def __init__(self, R, frac=(), pos=()):
        self.R, self.E, self.w = R, R.E, R.w
        self.frac, self.pos = set(frac), set(pos)
        self.leaf = None          # first leaf that could not be shown
        self.opaque = False       # ... and it contained something unknown
        self.steps = 0

    def rat(self, t):
        return rat.ev(self.R.c(t), lambda x: None)

    def cmps(self, facts, mp=None):
        """[(x, y)] with x <= y, from a fact map"""
        out = []
        for f, v in facts.items():
            if f.op in ("fle", "flt"):
                x, y = f.a[0], f.a[1]
                if mp:
                    x, y = self.w.subst(self.R.c(x), mp), self.w.subst(self.R.c(y), mp)
                if v:
                    out.append((self.rat(x), self.rat(y)))
                else:
                    out.append((self.rat(y), self.rat(x)))
        return out

    def shrink(self, q, n=0):
        """is q a factor in (0, 1]?"""
        if n > 6:
            return False
        c = q.const()
        if c is not None:
            return 0 < c <= 1
        for a in q.atoms():
            if a in self.frac:
                r = q / atom(a)
                if self.shrink(r, n + 1):
                    return True
        return False

    def le(self, x, b, facts=(), hyps=(), depth=0):
        """x <= b ?"""
        self.steps += 1
        if self.steps > 4000:
            self.opaque = True
            return False
        if (x - b).iszero():
            return True
        if self.nonneg(b - x):
            return True
        for l, u in facts:
            # x <= u' and u' <= b, up to a common shift
            if ((x - l) - (b - u)).iszero():
                return True
        for h, hb in hyps:
            if (hb - b).iszero():
                if (x - h).iszero():
                    return True
                if not h.iszero() and self.shrink(x / h):
                    return True
        if depth > 12:
            self.opaque = True
            return False
        # fmin: any argument bounds it; fmax: both must be bounded
        for a in x.atoms():
            if isinstance(a, T) and a.op == "app" and a.a[0] in ("fmin", "fmax"):
                co = self.coeff(x, a)
                if co is None:
                    continue
                up = (a.a[0] == "fmin") == co
                ys = [x.subst(lambda z, q=q: self.rat(q) if z is a else None) for q in a.a[1:]]
                if up:
                    return any(self.le(y, b, facts, hyps, depth + 1) for y in ys)
                return all(self.le(y, b, facts, hyps, depth + 1) for y in ys)
        # x = L + f*(N - L) with f in (0,1]: between L and N
        for f in [a for a in x.atoms() if a in self.frac]:
            x0 = x.subst(lambda z: const(0) if z == f else None)
            x1 = x.subst(lambda z: const(1) if z == f else None)
            xh = x.subst(lambda z: const(2) if z == f else None)
            if ((x1 - x0) - (xh - x1)).iszero():
                if self.le(x0, b, facts, hyps, depth + 1) and self.le(x1, b, facts, hyps, depth + 1):
                    return True
        ph = [a for a in x.atoms() if isinstance(a, T) and a.op == "phi"]
        if ph:
            p = max(ph, key=lambda q: (self.R.rank.get(phi_node(self.E, q), -1), q.id))
            n = phi_node(self.E, p)
            ents, backs = phi_edges(self.E, p)
            here = [q for q in ph if phi_node(self.E, q) == n]
            ok = True
            h2 = tuple(hyps) + ((x, b),)
            for e in self.E.in_edges.get(n, ()):
                mp = {}
                for q in here:
                    o = self.w.phi_ops.get(q.id, {}).get(e)
                    if o is not None:
                        mp[q] = self.R.c(o)
                ef = self.cmps(edge_facts(self.E, n, e))
                if not mp:
                    # an edge that does not change the value
                    if not any((x - l).iszero() and (b - u).iszero() for l, u in ef):
                        pass
                    continue
                y = x.subst(lambda z: self.rat(mp[z]) if isinstance(z, T) and z in mp else None)
                if (y - x).iszero():
                    continue
                if not self.le(y, b, ef, h2, depth + 1):
                    if self.leaf is None:
                        self.leaf = (y, b, n)
                    ok = False
                    break
            return ok
        for a in x.atoms():
            if isinstance(a, T) and a.op not in ("fld", "phi", "C", "sym") and \
                    not (a.op == "app" and a.a[0] in ("fmin", "fmax")):
                self.opaque = True
        if self.leaf is None:
            self.leaf = (x, b, None)
        return False

    def coeff(self, x, a):
        """does x grow with atom a?  True / False / None (not linear, unknown sign)"""
        x0 = x.subst(lambda z: const(0) if z is a else None)
        x1 = x.subst(lambda z: const(1) if z is a else None)
        x2 = x.subst(lambda z: const(2) if z is a else None)
        d = x1 - x0
        if not ((x2 - x1) - d).iszero():
            return None
        c = d.const()
        if c is not None:
            return c > 0 if c else None
        if self.nonneg(d):
            return True
        if self.nonneg(-d):
            return False
        return None

    def nonneg(self, d, n=0):
        if n > 6:
            return False
        c = d.const()
        if c is not None:
            return c >= 0
        for a in d.atoms():
            if a in self.frac or a in self.pos:
                if self.nonneg(d / atom(a), n + 1):
                    return True
        return False
