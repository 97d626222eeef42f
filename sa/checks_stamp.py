"""P01..P05, P08: what each element kind adds to the system of equations."""
from stamp import *

KINDS = {
    "R": ("a", "b"), "I": ("p", "n"), "V": ("p", "n"), "D": ("p", "n"), "Isin": ("p", "n"),
    "Vsin": ("p", "n"), "Vpwl": ("p", "n"), "C": ("a", "b"),
    "Vcvs": ("p", "n", "cp", "cn"), "Vccs": ("p", "n", "cp", "cn"),
}
BRANCH = ("V", "Vsin", "Vpwl", "Vcvs")


def partitions(roles):
    """ways the terminals can coincide with ground and with each other"""
    out = []

    def rec(i, cur, names):
        if i == len(roles):
            out.append(dict(cur))
            return
        r = roles[i]
        for c in ["0"] + names + ["n%d" % len(names)]:
            cur[r] = c
            rec(i + 1, cur, names + [c] if c not in names and c != "0" else names)
        del cur[r]
    rec(0, {}, [])
    return out


def lab(c):
    return "g" if c == "0" else c


class KindResult:
    pass


def expected(kind, cls, val):
    """{(row, col): Rat}; val(name) gives the element's quantities"""
    d = {}

    def add(r, c, v):
        r, c = lab(r), lab(c)
        if r == "g" or c == "g":
            return
        d[(r, c)] = d.get((r, c), const(0)) + v
    one = const(1)
    if kind in ("R", "C", "D"):
        a, b = (cls[x] for x in KINDS[kind])
        g = val("g")
        add(a, a, g)
        add(a, b, -g)
        add(b, b, g)
        add(b, a, -g)
        if kind != "R":
            i = val("i")
            add(a, "rhs", -i)
            add(b, "rhs", i)
    elif kind in ("I", "Isin"):
        add(cls["p"], "rhs", -val("value"))
        add(cls["n"], "rhs", val("value"))
    elif kind in ("V", "Vsin", "Vpwl"):
        add(cls["p"], "br", one)
        add(cls["n"], "br", -one)
        add("br", cls["p"], one)
        add("br", cls["n"], -one)
        add("br", "rhs", val("value"))
    elif kind == "Vcvs":
        k = val("k")
        add(cls["p"], "br", one)
        add(cls["n"], "br", -one)
        add("br", cls["p"], one)
        add("br", cls["n"], -one)
        add("br", cls["cp"], -k)
        add("br", cls["cn"], k)
    elif kind == "Vccs":
        k = val("k")
        add(cls["p"], cls["cp"], k)
        add(cls["p"], cls["cn"], -k)
        add(cls["n"], cls["cp"], -k)
        add(cls["n"], cls["cn"], k)
    return d


class Reading:
    """the total contribution per matrix entry at one solver call"""

    def __init__(self, S, E, kind, cls):
        self.S, self.E, self.kind, self.cls = S, E, kind, cls
        self.w = E.w
        self.fl = S.kinds.fields[kind]
        self.names = {i: n for n, i in self.fl.items()}
        self.lin = {}          # linearize applications met
        self.evs = {}          # evaluate applications met
        self.elems = {}        # element terms met -> (L, idx)
        self.hist = {}         # solution vectors met
        self.M = None

    def f(self, t):
        w, O = self.w, self.E.O
        if self.M is not None and t is self.M:
            return "M"
        if t.op == "fld" and t.a[1] == 0:
            b = t.a[0]
            if O.vkind(b) == "P":
                self.note(b)
                return "E." + self.names.get(t.a[2], "?")
            if b.op == "app" and b.a[0].startswith("fn:") and self._isfn(b.a[0], self.S.lins):
                self.lin.setdefault(b, []).append(t.a[2])
                self.note(b.a[1])
                return ("lin", t.a[2])
        if t.op == "sel":
            l = O.label(t.a[1])
            if l == "g":
                self.hist[t.a[0]] = 1
                return const(0)
            if l is not None and O.vkind(t.a[1].a[0]) == "P" if t.a[1].op == "fld" else False:
                self.hist[t.a[0]] = 1
                self.note(t.a[1].a[0])
                return ("x", t.a[0], l)
        if t.op == "app" and t.a[0].startswith("fn:"):
            if self._isfn(t.a[0], self.S.evals):
                self.evs[t] = t.a[2]
                self.note(t.a[1])
                return ("eval",)
        return None

    def _isfn(self, nm, ids):
        return any(self.E.prog.fns[i].name == nm[3:] for i in ids)

    def note(self, b):
        x = b
        if x.op == "fld":
            x = x.a[0]
        if x.op == "sel":
            self.elems[b] = (x.a[0], x.a[1])


def shape(k):
    return ",".join("%s=%s" % (r, c) for r, c in k.items())


class StampCheck:
    def __init__(self, C, S=None):
        self.C = C
        self.S = S or Stamps(C.prog())
        self.engine_ty = None

    def entries(self):
        prog = self.S.prog
        out = []
        for nm in ("dc_operating_point", "transient_analysis"):
            f = prog.fn("Engine::" + nm)
            if f:
                out.append((nm, f))
        return out

    def delta_of_loop(self, E, phi, cls, rd, ob):
        """[(facts, {(r,c): ('add'|'set', Rat)})] for one loop, with coverage checked"""
        S, O, w, C = self.S, E.O, E.w, self.C
        hdr = phi_node(E, phi)
        # the element visited: found from the stores themselves
        elems = set()
        ent, back = phi_edges(E, phi)
        for op in back.values():
            for x in self.body_terms(E, op, phi, hdr):
                if x.op in ("fld", "sel") and O.vkind(x) == "P":
                    elems.add(x)
        if not elems:
            for op in back.values():
                if op is not phi:
                    return None, None, "the matrix is changed by a loop that visits no element (%s)" % \
                        where_node(E, hdr)
            return [([], {})], None, ""
        elems = {x for x in elems if self.in_hdr(E, x, hdr)} or elems
        if len(elems) != 1:
            return None, None, "several elements in one round: %s" % (list(elems),)
        el = elems.pop()
        labels = {}
        for role, c in cls.items():
            if c != "0":
                labels[c] = w.fld(el, 0, S.kinds.fields[self.kind][role])
        if "idx" in S.kinds.fields[self.kind]:
            labels["br"] = w.iadd(S.N(E), w.fld(el, 0, S.kinds.fields[self.kind]["idx"]))
        labels["rhs"] = w.iadd(S.N(E), S.V(E))
        labels["fresh:r"] = w.mk("sym", "fresh:r", None)
        res = []
        D = Delta(E, O, phi)
        for facts, d in D.run(labels):
            out = {}
            for key, (v, m) in d.items():
                if v is m:
                    continue
                rd.M = m
                r = rat.ev(v, rd.f)
                z = r.subst(lambda a: const(0) if a == "M" else None)
                if (r - z) == atom("M"):
                    if not z.iszero():
                        out[key] = ("add", z)
                elif "M" not in r.atoms():
                    out[key] = ("set", r)
                else:
                    out[key] = ("odd", r)
            res.append((zeros_of(rd, facts), out))
        x = el.a[0] if el.op == "fld" else el
        return res, (x.a[0], x.a[1], hdr), ""

    def in_hdr(self, E, x, hdr):
        y = x.a[0] if x.op == "fld" else x
        k, d = E.w.lin_parts(y.a[1])
        return any(p.op == "phi" and phi_node(E, p) == hdr for p in d)

    def body_terms(self, E, op, phi, hdr):
        seen, out, st = set(), [], [op]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
            if x.op == "phi":
                n = phi_node(E, x)
                if n != hdr and in_loop(n, hdr):
                    st += list(E.w.phi_ops.get(x.id, {}).values())
                continue
            for a in x.a:
                if isinstance(a, T):
                    st.append(a)
        return out

    # -- one configuration ------------------------------------------------------
    def read(self, nm, fn, kind, cls):
        """[(event, context label, alternatives)] with totals per solver call"""
        self.kind = kind
        S, C = self.S, self.C
        E = S.run(fn, kind, cls)
        C.ran(E, "%s, %s" % (kind, shape(cls)))
        out = []
        calls = S.solves(E)
        for e, M in calls:
            U = Unfold(E)
            out.append((E, e, M, U.alternatives(M, e.facts)))
        return E, out

    def totals(self, E, alt, cls, ob, where):
        """[{entry: Rat}] alternatives of the total contribution, or a problem"""
        loops, strays, facts, base = alt
        U = Unfold(E)
        S = self.S
        for phi in loops:
            h = phi_node(E, phi)
            if in_loop(self.at, h):
                return None, Reading(S, E, self.kind, cls), (
                    "carry", "matrix entries are carried over from one solution attempt to the next "
                    "(loop at %s)" % where_node(E, h)), []
        rd = Reading(S, E, self.kind, cls)
        if not U.allzero(base):
            return None, rd, ("base", base), []
        tot = [({}, {}, [])]      # (sets, adds, what is zero on the way)
        visits = []
        for phi in loops:
            res, visit, why = self.delta_of_loop(E, phi, cls, rd, ob)
            if res is None:
                return None, rd, ("loop", why), []
            uniq = []
            for f, d in res:
                for i, (f2, d2) in enumerate(uniq):
                    if same_delta(d, d2):
                        uniq[i] = ([z for z in f2 if any(z == y for y in f)], d2)
                        break
                else:
                    uniq.append((f, d))
            if all(not d for _, d in uniq):
                continue
            visits.append(visit)
            ntot = []
            for s, a, z in tot:
                for f, d in uniq:
                    s2, a2 = dict(s), dict(a)
                    bad = None
                    for k, (how, v) in d.items():
                        if how == "add":
                            a2[k] = a2.get(k, const(0)) + v
                        elif how == "set":
                            s2.setdefault(k, []).append(v)
                            # a store after an accumulation of this element wins
                            a2.pop(k, None)
                        else:
                            s2.setdefault(k, []).append(("odd", v))
                    ntot.append((s2, a2, z + list(f)))
            tot = ntot
        return tot, rd, None, visits


def zeros_of(rd, facts):
    """the quantities that are zero under the facts"""
    out = []
    for f, v in facts.items():
        if f.op == "feq" and v is True:
            try:
                r = rat.ev(f.a[0], rd.f) - rat.ev(f.a[1], rd.f)
            except Exception:
                continue
            if r.const() is None and "M" not in r.atoms():
                out.append(r)
    return out


def with_zeros(got, exp, zeros):
    """got, where what is missing from it is a multiple of something that is zero here"""
    for scale in (const(1), const(-1)):
        out = dict(got)
        for k, v in exp.items():
            v = v * scale if k[0] == "br" else v
            d = v - got.get(k, const(0))
            if not d.iszero() and any((d / z).const() is not None for z in zeros):
                out[k] = v
        if same_entries(out, exp):
            return out
    return got


def same_delta(a, b):
    if set(a) != set(b):
        return False
    return all(a[k][0] == b[k][0] and a[k][1] == b[k][1] for k in a)


def fmt(d):
    return "; ".join("[%s][%s] %s" % (r, c, show_rat(v)) for (r, c), v in sorted(d.items()))


def show_rat(v):
    return repr(v)


def run_kind(C, S, kind, entries, parts, dc_open=False, extra=None):
    """compare the contributions of `kind` with its equations"""
    SC = StampCheck(C, S)
    SC.kind = kind
    for nm, fn in entries:
        for cls in parts:
            ob = "%s/%s/%s" % (kind, nm, shape(cls))
            C.guard(ob, one_config, C, SC, nm, fn, kind, cls, ob, dc_open, extra)


def one_config(C, SC, nm, fn, kind, cls, ob, dc_open, extra):
    S = SC.S
    E, calls = SC.read(nm, fn, kind, cls)
    if not calls:
        C.unk(ob, "no call of a linear solver found")
        return
    for i, (E, e, M, alts) in enumerate(calls):
        where = "%s %s" % (e.fn.name, e.span)
        dc = not in_time_loop(E, e)
        for alt in alts:
            SC.at = e.node
            tots, rd, prob, visits = SC.totals(E, alt, cls, ob, where)
            if prob:
                kindp, x = prob
                if kindp == "base":
                    carried(C, E, e, x, ob, where)
                elif kindp == "carry":
                    C.bad(ob, x, where)
                else:
                    C.unk(ob, x, where)
                continue
            judge(C, SC, E, e, tots, rd, visits, kind, cls, ob, where, dc, alt, extra)


def carried(C, E, e, base, ob, where):
    """the matrix does not start from zero"""
    root = E.root.fn
    for x in subterms(base):
        if x.op == "sym" and x.a[0] == "p1" and root.argc > 1:
            C.bad(ob, "the matrix starts from what an earlier analysis left behind: %s" % show(base)[:120], where)
            return
    C.unk(ob, "the matrix is not built from a zero matrix: %s" % show(base)[:120], where)


def in_time_loop(E, e):
    """is the solve of event e part of time stepping (rather than of the DC
    solution)?"""
    ch = e.node[0].chain
    return ch[0].fn.name.endswith("::transient_analysis") and \
        not any(c.fn.name.endswith("::dc_operating_point") for c in ch[1:])


def judge(C, SC, E, e, tots, rd, visits, kind, cls, ob, where, dc, alt, extra):
    S = SC.S
    loops, strays, facts, base = alt
    w = E.w

    if getattr(C, "focus", "") == "base":
        n = judge_visits(C, SC, E, e, tots, visits, ob)
        if n is not None and once(C, SC, E, tots, kind, cls, ob, where, dc, facts):
            C.ok(ob, "zero base, %d element loops" % n, where)
        return

    def val(name):
        if kind == "R":
            return const(1) / atom("E.value")
        if kind in ("I", "V") and name == "value":
            return atom("E.value")
        if kind in ("Isin", "Vsin", "Vpwl") and name == "value":
            return atom(("eval",))
        if kind == "D":
            return atom(("lin", 0)) if name == "g" else atom(("lin", 1))
        if kind in ("Vcvs", "Vccs"):
            return atom("E.k")
        raise KeyError(name)
    for sets, adds, zeros in tots:
        got = {}
        odd = None
        for k, v in adds.items():
            if k[0] == "g" or k[1] == "g":
                continue
            got[k] = got.get(k, const(0)) + v
        for k, vs in sets.items():
            if any(isinstance(v, tuple) for v in vs):
                odd = (k, vs)
                continue
            # an overwritten entry must be the element's own
            if "br" not in k or k in got:
                C.bad(ob, "entry [%s][%s] is overwritten with %s, losing what other elements added"
                      % (k[0], k[1], vs), where)
                return
            if len(vs) > 1:
                odd = (k, vs)
                continue
            got[k] = vs[0]
        got = {k: v for k, v in got.items() if not v.iszero()}
        if odd:
            C.bad(ob, "entry %s becomes %s" % odd, where)
            return
        if strays:
            C.unk(ob, "stores outside element loops", where)
            return
        if kind == "C":
            if any(z == atom("E.value") for z in zeros) and not got:
                continue
            exp = cap_expect(C, E, e, rd, got, cls, dc, ob, where, zeros)
            if exp is None:
                return
        else:
            exp = expected(kind, cls, val)
        exp = {k: v for k, v in exp.items() if not v.iszero()}
        plain = same_entries(got, exp)
        if not plain:
            got = with_zeros(got, exp, zeros)
        vac = vacuous(E, S, facts) and not got
        if not same_entries(got, exp) and not vac:
            C.bad(ob, "contribution is {%s}, expected {%s}" % (fmt(got), fmt(exp)), where)
            return
        if vac:
            continue
        if judge_visits(C, SC, E, e, tots, visits, ob) is None:
            return
        if extra and plain:
            extra(C, SC, E, e, rd, got, cls, dc, ob, where)
    C.ok(ob, "%d entries" % len(exp), where)


def once(C, SC, E, tots, kind, cls, ob, where, dc, facts):
    """is the visited element in the equations at all, and no whole number of times more?
    (whether it is there rightly is for the properties of the elements)"""
    exp = expected(kind, cls, lambda name: atom(("v", name)))
    if kind == "C" and dc:
        return True
    exp = {k: v for k, v in exp.items() if not v.iszero()}
    if not exp or vacuous(E, SC.S, facts):
        return True
    for sets, adds, zeros in tots:
        if zeros:
            continue        # judged with the element
        got = {}
        for k, v in adds.items():
            if k[0] != "g" and k[1] != "g":
                got[k] = got.get(k, const(0)) + v
        got = {k: v for k, v in got.items() if not v.iszero()}
        if not got and not sets:
            C.bad(ob, "the element can be left out of the equations", where)
            return False
        if kind in ("V", "Vsin", "Vpwl", "Vcvs"):
            cs = {got[k].const() for k in exp if k[1] == "br" and k in got}
            if len(cs) == 1:
                q = cs.pop()
                if q is not None and q > 1 and q == int(q):
                    C.bad(ob, "the element is counted %d times" % q, where)
                    return False
    return True


def judge_visits(C, SC, E, e, tots, visits, ob):
    """every element loop visits every element exactly once"""
    for v in visits:
        L, idx, hdr = v
        r, why = full_visit(E, hdr, L, idx)
        if r is True:
            r, why = is_copy(E, L, SC.S.elements, {})
        if r is False:
            C.bad(ob, "not every element is stamped exactly once: " + why, where_node(E, hdr))
            return None
        if r is None:
            C.unk(ob, "visit order: " + why, where_node(E, hdr))
            return None
    return len(visits)


def same_entries(a, b):
    ra = {k: v for k, v in a.items()}
    if set(ra) != set(b):
        return False
    # the branch row may be scaled
    scale = None
    for k in b:
        if k[0] == "br":
            q = ra[k] / b[k]
            c = q.const()
            if c is None or c == 0:
                return False
            if scale is None:
                scale = c
            elif scale != c:
                return False
        elif not (ra[k] == b[k]):
            return False
    return True


def vacuous(E, S, facts):
    """do the facts say that there is no element?"""
    for f, v in facts.items():
        if f.op == "eq0" and v and f.a[0].op == "len":
            L = f.a[0].a[0]
            r, _ = is_copy(E, L, S.elements, {})
            if r:
                return True
        if f.op == "ge0" and not v:
            k, d = E.w.lin_parts(f.a[0])
            if k == -1 and len(d) == 1:
                (x, c), = d.items()
                if c == 1 and x.op == "len" and is_copy(E, x.a[0], S.elements, {})[0]:
                    return True
    return False


def cap_expect(C, E, e, rd, got, cls, dc, ob, where, zeros=()):
    """backward Euler companion: G = C/dt for some dt, rhs = G*(history voltage)"""
    if dc:
        return {}
    a, b = lab(cls["a"]), lab(cls["b"])
    if a == b:
        return {}
    k = (a, a) if a != "g" else (b, b)
    G = got.get(k)
    if G is None:
        C.bad(ob, "a capacitor contributes no conductance in a transient timestep", where)
        return None
    dt = atom("E.value") / G
    if any(isinstance(x, str) and x.startswith("E.") for x in
           [x for x in canon_atoms(dt)]):
        C.bad(ob, "capacitor conductance is %s, which is not C/dt" % G, where)
        return None
    hs = {x[1] for v in list(got.values()) + list(zeros) for x in v.atoms() if isinstance(x, tuple) and x[0] == "x"}
    if len(hs) != 1:
        C.bad(ob, "capacitor current source does not come from one history vector: {%s}" % fmt(got), where)
        return None
    X = hs.pop()
    va = const(0) if a == "g" else atom(("x", X, a))
    vb = const(0) if b == "g" else atom(("x", X, b))
    i = -(G * (va - vb))
    rd.cap = (dt, X)
    return expected("C", cls, lambda n: G if n == "g" else i)


def canon_atoms(r):
    """atoms the value of r really depends on (cancelling common factors)"""
    out = []
    for a in r.atoms():
        s1 = r.subst(lambda x: const(2) if x == a else None)
        s2 = r.subst(lambda x: const(3) if x == a else None)
        if not (s1 == s2):
            out.append(a)
    return out


# ------------------------------------------------------------------ the checks
def stamp_jobs(C, kinds):
    S = Stamps(C.prog())
    SC = StampCheck(C, S)
    jobs = []
    for k in kinds:
        for p in partitions(KINDS[k]):
            for nm, fn in SC.entries():
                jobs.append((k, nm, p))
    return S, SC, jobs


def stamp_job(C, job, extra=None):
    k, nm, p = job
    S = Stamps(C.prog())
    fn = C.prog().fn("Engine::" + nm)
    run_kind(C, S, k, [(nm, fn)], [p], extra=extra)


def stamps(C, kinds, extra=None):
    S, SC, jobs = stamp_jobs(C, kinds)
    if not anchors(C, S, kinds):
        return
    C.par(lambda D, j: stamp_job(D, j, extra), jobs)


def anchors(C, S, kinds):
    if len(SC_entries(S)) != 2:
        C.unk("entry points", "the analyses are not reachable through their public entry points")
        return False
    miss = [k for k in kinds if k not in S.kinds.variant]
    for k in miss:
        C.unk("kind " + k, "no such element kind")
    return not miss


def SC_entries(S):
    return [f for f in ("dc_operating_point", "transient_analysis") if S.prog.fn("Engine::" + f)]


def p01(C):
    stamps(C, ("R", "I", "V"))


def p02(C):
    stamps(C, ("Vcvs", "Vccs"))


def p03(C):
    stamps(C, ("C",))


def p08(C):
    C.focus = "base"
    from checks_time import stale
    S = Stamps(C.prog())
    if anchors(C, S, KINDS):
        C.par(lambda D, k: stale(D, Stamps(D.prog()), k), KINDS)
    if not any(o["status"] == "violated" for o in C.obs):
        stamps(C, KINDS)
