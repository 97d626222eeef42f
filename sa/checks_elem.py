"""P04, P06, P07, P09: element models and the convergence test, one function at a time."""
from checks_time import *

PI2 = 6.283185307179586


class FRun(TRun):
    """one function on its own"""

    def __init__(self, C, fn, limit=20000):
        self.C, self.fn = C, fn
        self.E = Engine(C.prog(), limit=limit)
        self.E.run(fn)
        C.ran(self.E)
        self.w = self.E.w
        self.K = Canon(self.E)
        self.rank = rpo(self.E)
        self.names = set()

    def p(self, i):
        return self.w.mk("sym", "p%d" % i, self.fn.locals[i])

    def field(self, suffix, name, base=1):
        f = fields(self.C.prog(), suffix)
        return self.c(self.w.fld(self.p(base), 0, f[name]))

    def results(self):
        """[(value, facts, trail)] at every return"""
        out = []
        for v, fs, n in self.E.returns():
            for (t,), f, tr in self.joins((v,), {self.c(f): x for f, x in fs.items()}):
                out.append((t, f, tr, n))
        return out

    def ways(self, cap=400):
        """[(value, facts, trail, return node)] like results, for every way from a loop header (or the
        start) to a return, with all that the conditions passed on it say"""
        E, w = self.E, self.w
        out = []
        st = [(n, self.c(v), {self.c(f): x for f, x in canonical(E, fs).items()}, (), n)
              for v, fs, n in E.returns()]
        steps = 0
        while st:
            n, v, fs, tr, ret = st.pop()
            ins = E.in_edges.get(n, {})
            if is_header(n) or not ins or n in E.entry_nodes:
                for (t,), f, tr2 in self.joins((v,), fs):
                    out.append((t, f, tr + tr2, ret))
                if len(out) > cap:
                    return self.results()
                continue
            for e in ins:
                if e[0] not in E.state:
                    continue
                steps += 1
                if steps > 40 * cap:
                    return self.results()
                mp = {}
                for p in phi_at(E, n):
                    o = w.phi_ops.get(p.id, {}).get(e)
                    if o is not None:
                        mp[p] = self.c(o)
                        q = self.c(p)
                        if q is not p and q.op == "phi" and q.a[0] == p.a[0]:
                            mp[q] = mp[p]
                v2 = self.c(w.subst(v, mp)) if mp else v
                f2 = {self.c(w.subst(f, mp)): x for f, x in fs.items()} if mp else dict(fs)
                ok = True
                for f, x in edge_facts(E, n, e).items():
                    f = self.c(f)
                    if f2.setdefault(f, x) is not x:
                        ok = False
                        break
                if not ok or any(f.op == "C" and f.a[0] == "b" and bool(f.a[1]) is not x for f, x in f2.items()):
                    continue
                tr2 = tr + ((n, e),) if v2 is not v else tr
                st.append((e[0], v2, f2, tr2, ret))
        return out

    def walk(self, starts, cut, goal):
        seen, st = set(starts), list(starts)
        while st:
            n = st.pop()
            if goal(n):
                return n
            for tg, k in self.E.out_edges.get(n, ()):
                if tg in seen or cut(n, k, tg):
                    continue
                seen.add(tg)
                st.append(tg)
        return None

    def says(self, f, v):
        """(d, strict): fact f=v says d > 0 (strict) or d >= 0"""
        if f.op not in ("flt", "fle"):
            return None
        x, y = self.rat(f.a[0]), self.rat(f.a[1])
        if v:
            return y - x, f.op == "flt"
        return x - y, f.op == "fle"


def pos_multiple(d, want):
    """is d a positive constant times want?"""
    if want.iszero() or d.iszero():
        return d.iszero() and want.iszero()
    k = (d / want).const()
    return k is not None and k > 0


def fn_of(C, tail, ob):
    f = C.prog().fn(tail)
    if f is None:
        C.unk(ob, "no function %s" % tail)
    return f


# ------------------------------------------------------------------------- P06
def p06(C):
    n = 0
    for ty in ("VoltageSourceSine", "CurrentSourceSine"):
        f = fn_of(C, ty + "::evaluate", ty)
        if f is not None:
            C.guard(ty, sine, C, f, ty)
            n += 1


def sine(C, f, ty):
    R = FRun(C, f)
    vo, va, fr = (atom(R.field(ty, x)) for x in ("vo", "va", "freq"))
    t = atom(R.c(R.p(2)))
    if not R.results():
        C.unk(ty, "no result")
    for v, fs in [(y[0], f2) for x, f1, tr, n in R.results() for y, f2 in minmax(R, (x,), f1)]:
        r = R.rat(v)
        ob = ty + "/value"
        if single(v):
            C.bad(ob, "the value is computed in single precision", f.name)
            continue
        at = [a for a in r.atoms() if isinstance(a, T) and a.op == "app" and a.a[0] in ("fsin", "fcos")]
        z = [f for f in (fr, va, t) if zero_by(R, fs, f)]
        if not at:
            ok = bool(z) and (r - vo).iszero()
            others = [a for a in r.atoms() if isinstance(a, T) and a.op == "app"]
            C.expect(ok or (None if others else False), ob, "the source has the value %s" % r, f.name,
                     "offset where the sine vanishes")
            continue
        if len(at) != 1:
            C.unk(ob, "value %s" % r, f.name)
            continue
        a = at[0]
        arg = whole_turns(R, a.a[1])
        q = arg / (fr * t)
        k = q.const()
        form = None
        if k is None:
            # a shifted argument or a reduced one
            if any(isinstance(x, T) and x.op == "app" for x in arg.atoms()):
                C.unk(ob, "phase %s" % arg, f.name)
                continue
            sh = arg - const(PI2) * fr * t
            s = sh.const()
            form = None if s is None else float(s)
            if form is None:
                C.bad(ob, "the phase of the sine is %s, not 2*pi*freq*t" % arg, f.name)
                continue
            import math
            lin = form if a.a[0] == "fsin" else form + math.pi / 2
            m = math.sin(lin)
            if abs(math.cos(lin)) < 1e-9 or abs(m) > 1e-9:
                C.bad(ob, "the phase of the sine is shifted by %g" % form, f.name)
                continue
            sg = 1 if math.cos(lin) > 0 else -1
        else:
            if a.a[0] != "fsin" or abs(abs(float(k)) - PI2) > 1e-6 * PI2:
                C.bad(ob, "the source is the %s of %g*freq*t" % (a.a[0][1:], float(k)), f.name)
                continue
            sg = 1 if k > 0 else -1
        exp = vo + const(sg) * va * atom(a)
        C.expect((r - exp).iszero(), ob, "the source has the value %s" % r, f.name, "vo + va*sin(2*pi*freq*t)")


def minmax(R, tup, fs, cap=16):
    """[(tuple, facts)]: the smaller (larger) of two values is one or the other"""
    out, st = [], [(tuple(tup), dict(fs))]
    while st:
        t, f = st.pop()
        a = next((s for x in t for s in subterms(x) if s.op == "app" and s.a[0] in ("fmin", "fmax") and len(s.a) == 3), None)
        if a is None or len(out) + len(st) > cap:
            out.append((t, f))
            continue
        x, y = a.a[1], a.a[2]
        le = R.c(R.w.fcmp("fle", x, y))
        lt = R.c(R.w.fcmp("flt", y, x))
        for small in (True, False):
            if R.E.truth(le, f) is (not small) or R.E.truth(lt, f) is small:
                continue
            v = x if small == (a.a[0] == "fmin") else y
            f2 = dict(f)
            if le.op != "C":
                f2[le] = small
            if lt.op != "C":
                f2[lt] = not small
            mp = {a: v}
            st.append((tuple(R.c(R.w.subst(z, mp)) for z in t),
                       {R.c(R.w.subst(k, mp)): z for k, z in f2.items()}))
    return out


def single(t):
    """is single precision used on the way to it?"""
    return any(s.op == "app" and s.a[0] == "tof32" for s in subterms(t))


def whole_turns(R, a):
    """the argument of a sine, whole turns left out"""
    arg = R.rat(a)
    mp = {}
    for x in arg.atoms():
        if not (isinstance(x, T) and x.op == "app"):
            continue
        lin = arg - arg.subst(lambda z: const(0) if z is x else None)
        k = lin / atom(x)
        if x in k.atoms():
            continue
        turns = lambda r: r.const() is not None and abs(float(r.const()) / PI2 - round(float(r.const()) / PI2)) < 1e-9
        if x.a[0] in ("ffloor", "fceil", "fround", "ftrunc") and turns(k):
            mp[x] = const(0)
        elif x.a[0] == "ffract" and turns(k):
            mp[x] = R.rat(x.a[1])
        elif x.a[0] in ("frem", "fremeu") and turns(k * R.rat(x.a[2])):
            mp[x] = R.rat(x.a[1])
    return arg.subst(lambda z: mp.get(z)) if mp else arg


def zero_by(R, fs, x):
    for f, v in fs.items():
        if f.op == "feq" and v is True:
            a, b = R.rat(f.a[0]), R.rat(f.a[1])
            if (a - x).iszero() and b.iszero() or (b - x).iszero() and a.iszero():
                return True
    return False


# ------------------------------------------------------------------------- P07
def p07(C):
    f = fn_of(C, "VoltageSourcePwl::evaluate", "value")
    if f is None:
        return
    from checks_pwl import by_cases
    # the shape of the function, for patterns of any length
    n = len(C.obs)
    C.guard("value", pwl, C, f)
    odd = [o for o in C.obs[n:] if o["status"] != "discharged"]
    C.obs[n:] = [o for o in C.obs[n:] if o["status"] == "discharged"]
    # and patterns of a few points by cases; a shape that is not understood is no violation
    wrong, open_, right = by_cases(C, f, fields(C.prog(), "VoltageSourcePwl"), adt(C.prog(), "VoltageSourcePwl")["n"])
    for c, why in wrong:
        C.bad("cases", "%s: %s" % (c, why), f.name)
    kinds = {}
    for c, _ in right:
        kinds.setdefault("%d points" % c.n, []).append(c)
    for k, cs in kinds.items():
        C.ok("cases/" + k, "%d cases of time, repetition and first point" % len(cs), f.name)
    if open_ and odd:
        C.obs += odd
        for c, why in open_[:4]:
            C.unk("cases", "%s: %s" % (c, why), f.name)
        for o in C.obs:
            if o["status"] == "violated" and o["obligation"] != "cases":
                o["status"] = "undecided"
    elif odd:
        C.notes.append("its shape is not that of a search for the two neighbouring points (%s): decided by cases for "
               "patterns of up to %d points" % (odd[0]["what"][:120], max(c.n for c, _ in right or wrong)))


def pwl(C, f):
    R = FRun(C, f)
    E, w = R.E, R.w
    ty = "VoltageSourcePwl"
    pat, D, rep = (R.field(ty, x) for x in ("pat", "t_delay", "repeat"))
    t = R.c(R.p(2))
    last = w.sel(pat, w.isub(w.len(pat), w.i(1)))
    P, VL = R.c(w.fld(last, 0, 0)), R.c(w.fld(last, 0, 1))
    rt, rD, rP, rr = (R.rat(x) for x in (t, D, P, rep))

    def edge(test):
        """edges whose newly established facts satisfy test(d, strict)"""
        def cut(a, k, b):
            for g, v in new_facts(E, a, k, b).items():
                g = R.c(g)
                if g.op == "eq0" and g.a[0].op == "len" and g.a[0].a[0] is pat and v is True and test is EMPTY:
                    return True
                s = R.says(g, v)
                if s is not None and test is not EMPTY and test(*s):
                    return True
            return False
        return cut
    EMPTY = lambda d, s: False
    started = lambda d, s: pos_multiple(d, rt - rD)
    notstarted = lambda d, s: pos_multiple(d, rD - rt)
    past = lambda d, s: pos_multiple(d, rt - rD - rP)
    notpast = lambda d, s: pos_multiple(d, rD + rP - rt)
    once = lambda d, s: s and pos_multiple(d, -rr) or pos_multiple(d, -rP)
    again_ = lambda d, s: pos_multiple(d, rr)
    any_ = lambda *ts: (lambda a, k, b: any(edge(x)(a, k, b) for x in ts))
    start = list(E.entry_nodes)
    kinds = {}
    for v, fs, tr, n in R.ways():
        goal = tr[-1][1][0] if tr else n
        k, why = pwl_kind(R, v, fs, pat, VL, rP, rt, rD, t)
        if k == "dead":
            continue
        kinds.setdefault(k, []).append((goal, why, v, n))
    for g, why, v, n in kinds.get("?", ()):
        C.unk("value", "a value %s" % why, where_node(E, n))
    for g, why, v, n in kinds.get("bad", ()):
        C.bad("value", why, where_node(E, n))

    def never(ob, alts, cut, text, good):
        for g, why, v, n in alts:
            hit = R.walk(start, cut, lambda m: m == g)
            C.expect(hit is None, ob, text, where_node(E, g), good)
    zero, hold, inter = kinds.get("zero", ()), kinds.get("hold", ()), list(kinds.get("line", ())) + list(kinds.get("point", ()))
    if "?" in kinds and not (hold and inter):
        return
    never("before the delay", zero, any_(notstarted, EMPTY), "the source can be 0 after its delay", "0 only before the delay")
    never("before the delay", list(hold) + inter, any_(started), "the pattern can start before its delay", "pattern starts at the delay")
    never("repeat", inter, any_(notpast, again_), "a pattern that does not repeat starts again", "no wrap without repeat")
    never("end", hold, any_(past), "the final value is reached before the end of the pattern", "final value after the end")
    never("repeat", hold, any_(once), "a repeating pattern stops at its final value", "final value only without repeat")
    if not inter:
        if "?" not in kinds and "bad" not in kinds:
            C.bad("value", "the source never interpolates between the points of its pattern", f.name)
    if not hold and "?" not in kinds and "bad" not in kinds:
        C.bad("end", "the source never holds its final value", f.name)


def pwl_kind(R, v, fs, pat, VL, rP, rt, rD, t):
    """(kind, why) of one value the source can have"""
    E, w = R.E, R.w
    r = R.rat(v)
    if r.iszero():
        # running out of points cannot happen inside the pattern
        if exhausted(R, fs, pat):
            return "dead", ""
        return "zero", ""
    if v is VL:
        return "hold", ""
    if exhausted(R, fs, pat):
        return "dead", ""
    times = [a for a in r.atoms() if isinstance(a, T) and a.op == "app" and a.a[0] == "frem"]
    pts = {}
    for a in list(r.atoms()):
        if isinstance(a, T) and a.op == "fld" and a.a[0].op == "sel" and a.a[0].a[0] is pat:
            pts.setdefault(a.a[0].a[1], set()).add(a.a[2])
    ph = [a for a in r.atoms() if isinstance(a, T) and a.op == "phi"]
    if len(pts) != 1:
        return "?", "of the form %s" % r
    i = next(iter(pts))
    T2, V2 = (R.c(w.fld(w.sel(pat, i), 0, j)) for j in (0, 1))
    # the time inside the cycle
    tc = None
    cands = list(times)
    for f in fs:
        if f.op in ("flt", "fle"):
            for x in f.a:
                if x.op == "app" and x.a[0] == "frem":
                    cands.append(x)
    for x in cands:
        if tc is None or tc is x:
            tc = x
    if tc is not None:
        if not (R.rat(tc.a[1]) - (rt - rD)).iszero() or not (R.rat(tc.a[2]) - rP).iszero():
            return "bad", "the time inside the pattern is (%s) modulo (%s)" % (R.rat(tc.a[1]), R.rat(tc.a[2]))
        rc = atom(tc)
    else:
        if any(isinstance(a, T) and a.op == "app" for a in r.atoms()):
            return "?", "of the form %s" % r
        rc = rt - rD
    below = [1 for f, x in fs.items() if (R.says(f, x) or (None,))[0] is not None and
             pos_multiple(R.says(f, x)[0], R.rat(T2) - rc)]
    if not below:
        return "bad", "the upper point used is not known to be at or after the time asked for"
    if v is V2:
        for f, x in fs.items():
            s = R.says(f, x)
            if s is None:
                continue
            # T2 <= lower point: nothing before it
            d = s[0] + R.rat(T2)
            q = [a for a in d.atoms() if isinstance(a, T) and a.op == "phi"]
            if len(q) == 1 and (d - atom(q[0])).iszero() and lower(R, q[0], pat, rc, 0) == 1:
                return "point", ""
            if feq_at(R, f, x, T2, rc):
                return "point", ""
        return "bad", "the value of a point is used away from its time"
    # a line through the points
    lo = [p for p in ph if lower(R, p, pat, rc, 0) == 1]
    lv = [p for p in ph if lower(R, p, pat, rc, 1) == 1]
    bad = [p for p in ph if lower(R, p, pat, rc, 0) == -1 or lower(R, p, pat, rc, 1) == -1]
    if len(lo) == 1 and len(lv) == 1 and len(ph) == 2:
        def at(x):
            return r.subst(lambda a: x if a is tc else None) if tc is not None else None
        if tc is None:
            y = R.w.mk("sym", "tc", "f64")
            return "?", "without a cycle time"
        a, b = at(atom(lo[0])), at(R.rat(T2))
        m = at((atom(lo[0]) + R.rat(T2)) * const("1/2"))
        if (a - atom(lv[0])).iszero() and (b - R.rat(V2)).iszero() and \
                (m - (a + b) * const("1/2")).iszero():
            return "line", ""
        return "bad", "between two points the value is %s" % r
    if bad or len(ph) <= 2:
        return "bad", "the points interpolated between are not the neighbours of the time asked for: %s" % r
    return "?", "of the form %s" % r


def feq_at(R, f, x, T2, rc):
    return f.op == "feq" and x is True and ((R.rat(f.a[0]) - R.rat(f.a[1])) - (R.rat(T2) - rc)).iszero()


def exhausted(R, fs, pat):
    """facts say a search through the whole pattern found nothing"""
    for f, v in fs.items():
        if f.op == "ge0" and v is False:
            k, d = R.w.lin_parts(f.a[0])
            if any(x.op == "len" and x.a[0] is pat and c > 0 for x, c in d.items()) and \
                    any(x.op == "phi" for x in d):
                return True
    return False


def lower(R, p, pat, rc, j):
    """1: p holds component j of the last point before the time, -1: of another point, 0: something else"""
    E, w = R.E, R.w
    ent, back = phi_edges(E, p)
    if not back:
        return 0
    if any(f64c(R.c(o)) != 0.0 for o in ent.values()):
        o = [R.c(o) for o in ent.values()]
        if not all(x.op == "fld" and x.a[0].op == "sel" and x.a[0].a[0] is pat and x.a[2] == j for x in o):
            return 0
    ok = 1
    for e, o in back.items():
        o = R.c(o)
        if o is p:
            ok = -1
            continue
        if o.op != "fld" or o.a[0].op != "sel" or o.a[0].a[0] is not pat or o.a[2] != j:
            return 0
        x = R.c(w.fld(o.a[0], 0, 0))
        fs = edge_facts(E, phi_node(E, p), e)
        if not any((R.says(R.c(f), v) or (None,))[0] is not None and
                   pos_multiple(R.says(R.c(f), v)[0], rc - R.rat(x)) for f, v in fs.items()):
            ok = -1
        if not any(o.a[0].a[1] is q or R.c(q) is o.a[0].a[1] for q in index_phis(E, phi_node(E, p))):
            ok = 0 if ok == 1 else ok
    return ok


# ------------------------------------------------------------------------- P04
BOLTZ, QE = 1.380649e-23, 1.602176634e-19


def p04(C):
    stamps(C, ("D",), diode_point)
    S = Stamps(C.prog())
    if anchors(C, S, ("D",)):
        for nm in SC_entries(S):
            C.guard("point/" + nm, diode_history, C, S, nm)
    f = fn_of(C, "Diode::linearize", "companion")
    if f is not None:
        C.guard("companion", companion, C, f)
    f = fn_of(C, "Diode::new", "thermal voltage")
    if f is not None:
        C.guard("thermal voltage", thermal, C, f)


def diode_point(C, SC, E, e, rd, got, cls, dc, ob, where):
    """the companion is taken at the diode's own voltage"""
    p, n = lab(cls["p"]), lab(cls["n"])
    for a in rd.lin:
        v = rat.ev(a.a[2], rd.f)
        xs = {x[1] for x in v.atoms() if isinstance(x, tuple) and x[0] == "x"}
        if len(xs) > 1:
            C.bad(ob + "/bias", "the diode is linearised at %s" % show_rat(v), where)
            continue
        X = next(iter(xs), None)
        at = lambda l: const(0) if l == "g" else atom(("x", X, l))
        C.expect((v - (at(p) - at(n))).iszero(), ob + "/bias", "the diode is linearised at %s, not at v(p)-v(n)"
                 % show_rat(v), where, "linearised at v(p)-v(n)")


def diode_history(C, S, nm):
    """... of the newest solution there is"""
    R = TRun(C, S, "D", nm)
    n = 0
    for e, M in R.solves:
        rd = Reading(S, R.E, "D", R.cls)
        for a in shallow(R.E, M):
            if a.op == "app" and a.a[0].startswith("fn:") and any(R.E.prog.fns[i].name == a.a[0][3:] for i in S.lins):
                for x in rat.ev(R.c(a.a[2]), rd.f).atoms():
                    if not (isinstance(x, tuple) and x[0] == "x"):
                        continue
                    X = R.c(x[1])
                    n += 1
                    ob = "point/%s/%s" % (nm, "dc" if R.is_dc(e) else "timestep")
                    if X.op != "phi":
                        C.expect(False if vec_zero(X) else None, ob, "the diode is always linearised at %s" % show(X)[:80],
                                 where(e))
                        continue
                    vals = previous(R, X)
                    bad = [v for v in vals if not R.is_solve(v)]
                    C.expect(not bad, ob, "the diode is linearised at %s, not at the newest solution" %
                             [show(v)[:60] for v in bad], where(e), "linearised at the newest solution")
    if not n:
        C.unk("point/" + nm, "no linearisation found")


def companion(C, f):
    R = FRun(C, f)
    E, w = R.E, R.w
    fl = fields(C.prog(), "Diode")
    IS = R.rat(R.field("Diode", "i_sat"))
    vth = R.c(R.p(2))
    # thermal voltage: what the exponent is divided by
    cells = {}
    n = 0
    for v0, fs0, nd in E.returns():
        if v0.op != "agg":
            C.unk("companion", "result %s" % show(v0)[:80])
            continue
        g0, i0 = R.c(w.fld(v0, 0, 0)), R.c(w.fld(v0, 0, 1))
        for (g, i), fs in [(y, f2) for x, f1, tr in R.joins((g0, i0), {R.c(x): v for x, v in fs0.items()})
                           for y, f2 in minmax(R, x, f1)]:
            n += 1
            if single(g) or single(i):
                C.bad("companion", "the companion is computed in single precision", where_node(E, nd))
                continue
            one_companion(C, R, g, i, fs, IS, vth, cells, where_node(E, nd))
    if not n:
        C.unk("companion", "no result")
    # the reference for limiting follows the operating point
    for cell, vs in cells.items():
        sets = [e for e in E.all_events("cellset") if R.c(e.data[0]) is cell]
        known = lambda t: t is vth or any((R.rat(t) - x).iszero() for x in vs)
        good = {e.node for e in sets if all(known(t) for (t,), _, _ in R.joins((e.data[1],)))}
        if not sets:
            C.bad("limiting/reference", "the reference voltage of the step limiting is never updated", f.name)
            continue
        rets = {nd for _, _, nd in E.returns()}
        hit = R.walk(list(E.entry_nodes), lambda a, k, b: a in good, lambda m: m in rets and m not in good)
        C.expect(hit is None, "limiting/reference", "the reference voltage of the step limiting is not always set to the "
                 "voltage the diode was evaluated at", f.name, "reference updated every time")


def lnexp_zero(R, a):
    """value of a transcendental atom whose argument is constant"""
    if isinstance(a, T) and a.op == "app" and a.a[0] in ("fln", "fabs"):
        c = R.rat(a.a[1]).const()
        if a.a[0] == "fln" and c == 1:
            return const(0)
        if a.a[0] == "fabs" and c is not None:
            return const(abs(c))
    return None


def one_companion(C, R, g, i, fs, IS, vth, cells, wh):
    ri, rg = R.rat(i), R.rat(g)
    ex = {a for r in (ri, rg) for a in r.atoms() if isinstance(a, T) and a.op == "app" and a.a[0] in ("fexp", "fexpm1")}
    # atoms with equal arguments are one
    reps = {}
    for a in ex:
        for b in reps:
            if b.a[0] == a.a[0] and (R.rat(a.a[1]) - R.rat(b.a[1])).iszero():
                reps[b].append(a)
                break
        else:
            reps[a] = [a]
    if len(reps) > 1 and len({a.a[0] for a in reps}) > 1:
        C.unk("companion", "mixed exponentials", wh)
        return
    if len(reps) != 1:
        others = [a for a in ri.atoms() if isinstance(a, T) and a.op in ("app", "phi")]
        if not reps and others:
            C.unk("companion", "current %s" % ri, wh)
        else:
            C.bad("companion", "the diode current is %s" % (ri + rg * atom(vth)), wh)
        return
    e = next(iter(reps))
    uni = lambda r: r.subst(lambda a: atom(e) if a in reps[e] else None)
    ri, rg = uni(ri), uni(rg)
    X = atom(e) if e.a[0] == "fexp" else atom(e) + const(1)
    arg = R.rat(e.a[1])
    vt = R.rat(R.field("Diode", "v_thermal")) if "v_thermal" in fields(C.prog(), "Diode") else None
    if vt is None:
        C.unk("companion", "no thermal voltage", wh)
        return
    v = arg * vt
    idd = IS * (X - const(1))
    expi = idd - rg * v
    C.expect((ri - expi).iszero(), "companion/current", "the companion source is %s with a conductance of %s at %s; the "
             "diode current there is %s" % (ri, rg, v, idd), wh, "i_eq = i_d - g*v")
    full = IS / vt * X
    c = rg.const()
    if (rg - full).iszero():
        C.ok("companion/conductance", "di/dv", wh)
    elif c is not None and 0 < c <= 1e-6:
        lim = any(R.says(f, x) and pos_multiple(uni(R.says(f, x)[0]), rg - full) for f, x in fs.items())
        C.expect(lim, "companion/conductance", "the conductance is %s also where di/dv is larger" % rg, wh,
                 "smallest conductance")
    else:
        fm = [a for a in rg.atoms() if isinstance(a, T) and a.op == "app" and a.a[0] == "fmax"]
        if len(fm) == 1 and (rg - atom(fm[0])).iszero():
            xs = [uni(R.rat(y)) for y in fm[0].a[1:]]
            ok = any((x - full).iszero() for x in xs) and \
                all((x - full).iszero() or x.const() is not None and 0 < x.const() <= 1e-6 for x in xs)
            C.expect(ok, "companion/conductance", "the conductance is %s" % rg, wh, "di/dv, at least the smallest")
        else:
            C.bad("companion/conductance", "the conductance is %s, di/dv is %s" % (rg, full), wh)
    # where the voltage settles, the diode is evaluated at its own voltage
    refs = set()
    for x in [e.a[1]] + list(fs):
        for s in subterms(x):
            if s.op == "app" and s.a[0] == "cellget":
                refs.add(s)
    mp = {}
    for s in refs:
        # only the reference voltage is compared with the voltage
        mp[s] = vth
    sub = lambda t: R.c(R.w.subst(t, mp)) if mp else t
    val = lambda t: fold(R, R.rat(sub(t)))
    for f, x in fs.items():
        if f.op in ("flt", "fle"):
            a, b = val(f.a[0]), val(f.a[1])
            d = (b - a) if x else (a - b)
            k = d.const()
            strict = (f.op == "flt") == x
            if k is not None and (k < 0 or k == 0 and strict) or negative(d, vt):
                C.ok("limiting/settled", "not taken once the voltage settles", wh)
                note_cells(cells, refs, v)
                return
    vv = fold(R, R.rat(sub(e.a[1]))) * vt
    opaque = [a for a in vv.atoms() if isinstance(a, T) and a.op in ("phi", "app") and a not in (vth,)]
    C.expect(True if (vv - atom(vth)).iszero() else (None if opaque and not all(a.a[0] == "fln" for a in opaque) else False),
             "limiting/settled", "with a settled voltage v the diode is evaluated at %s" % vv, wh, "evaluated at its own voltage")
    note_cells(cells, refs, v)


def note_cells(cells, refs, v):
    for s in refs:
        cells.setdefault(s.a[1], []).append(v)


def negative(d, vt):
    """d is a negative multiple of the (positive) thermal voltage"""
    q = (d / vt).const() if not d.iszero() else None
    return q is not None and q < 0


def fold(R, r):
    return r.subst(lambda a: lnexp_zero(R, a))


def thermal(C, f):
    R = FRun(C, f)
    fl = fields(C.prog(), "Diode")
    if "v_thermal" not in fl:
        C.unk("thermal voltage", "no thermal voltage")
        return
    tdeg = atom(R.c(R.p(5)))
    for v, fs, tr, n in R.results():
        for nm, i in (("i_sat", 4), ("p", 2), ("n", 3), ("tdegc", 5)):
            C.expect(R.c(R.w.fld(v, 0, fl[nm])) is R.c(R.p(i)), "fields/" + nm, "%s of a new diode is %s" %
                     (nm, show(R.w.fld(v, 0, fl[nm]))[:60]), f.name, "kept")
        vts = minmax(R, (R.c(R.w.fld(v, 0, fl["v_thermal"])),), fs)
        for (vt,), _ in vts:
            one_thermal(C, f, R, R.rat(vt), R.c(R.p(5)))


def one_thermal(C, f, R, vt, tdeg):
    a0 = vt.subst(lambda a: const(0) if a is tdeg else None)
    a1 = vt.subst(lambda a: const(1) if a is tdeg else None)
    sl, z = (a1 - a0).const(), a0.const()
    if sl is None or z is None:
        C.unk("thermal voltage", "%s" % vt, f.name)
        return
    kq = BOLTZ / QE
    C.expect(abs(float(sl) / kq - 1) < 2e-3, "thermal voltage/slope", "the thermal voltage grows by %g V per degree, k/q is "
             "%g" % (float(sl), kq), f.name, "k/q per degree")
    T0 = float(z / sl) if sl else 0.0
    C.expect(abs(T0 - 273.15) < 0.2, "thermal voltage/zero at %g" % round(T0, 3), "the temperature in kelvin is taken as %g+TdegC"
             % T0, f.name, "273.15+TdegC")


# ------------------------------------------------------------------------- P09
def p09(C):
    S = Stamps(C.prog())
    fs = S.ccs
    if len(fs) != 1:
        C.unk("verdict", "%d functions look like the convergence test" % len(fs))
        return
    C.guard("verdict", verdict, C, C.prog().fns[list(fs)[0]] if not isinstance(list(fs)[0], str) else
            C.prog().fns[list(fs)[0]])


def verdict(C, f):
    R = FRun(C, f)
    E, w = R.E, R.w
    prog = C.prog()
    sl = [i for i in range(1, f.argc + 1) if prog.types.get(prog.strip(f.locals[i]), {}).get("k") == "slice" or
          "[f64]" in f.locals[i]]
    if len(sl) != 2:
        C.unk("verdict", "parameters %s" % f.locals[1:f.argc + 1])
        return
    cf = {n: None for n in ()}
    ci = [i for i in range(1, f.argc + 1) if prog.types.get(prog.strip(f.locals[i]), {}).get("n", "").endswith("Configuration")]
    ei = [i for i in range(1, f.argc + 1) if prog.types.get(prog.strip(f.locals[i]), {}).get("n", "").endswith("engine::Engine")]
    if len(ci) != 1 or len(ei) != 1:
        C.unk("verdict", "parameters")
        return
    cf = fields(prog, "Configuration")
    cfg = {n: R.c(w.fld(R.p(ci[0]), 0, j)) for n, j in cf.items()}
    cn = R.c(w.fld(R.p(ei[0]), 0, fields(prog, "Engine")["c_nodes"]))
    X, Y = R.c(R.p(sl[0])), R.c(R.p(sl[1]))
    # the loop over the components
    hdrs = [n for n in E.in_edges if is_header(n) and n in E.state]
    if not hdrs:
        C.unk("verdict", "no loop over the components")
        return

    def diff_idx(r):
        """i when r = x_i - y_i (up to sign)"""
        for t in r.atoms():
            if isinstance(t, T) and t.op == "sel" and t.a[0] is X:
                i = t.a[1]
                d = atom(t) - atom(R.c(w.sel(Y, i)))
                if (r - d).iszero() or (r + d).iszero():
                    return i
        return None

    def test(g, v):
        """('in'|'out', i, limit) for the component test; x_i - y_i within limit or not"""
        s = R.says(g, v)
        if s is None:
            return None
        d = s[0]
        for a in d.atoms():
            if isinstance(a, T) and a.op == "app" and a.a[0] == "fabs":
                i = diff_idx(R.rat(a.a[1]))
                if i is None:
                    continue
                lim = d + atom(a)
                if a not in [z for z in lim.atoms()]:
                    return ("in", i, lim, g, v)
                lim = atom(a) - d
                if a not in [z for z in lim.atoms()]:
                    return ("out", i, lim, g, v)
        # without the absolute value
        for a in d.atoms():
            if isinstance(a, T) and a.op == "sel" and a.a[0] is Y:
                one_sided.append(g)
        return None
    one_sided = []

    def edge_tests(a, k, b):
        out = []
        for g, v in new_facts(E, a, k, b).items():
            t = test(R.c(g), v)
            if t:
                out.append(t)
        return out

    def isnan(a, k, b, want):
        for g, v in new_facts(E, a, k, b).items():
            g = R.c(g)
            if g.op == "app" and g.a[0] in ("is_nan", "fisnan", "isnan") and v is want:
                return True
        return False

    def finite(a, k, b, want):
        for g, v in new_facts(E, a, k, b).items():
            g = R.c(g)
            if g.op == "app" and g.a[0] in ("is_finite",) and v is want and g.a[1].op == "sel" and g.a[1].a[0] is X:
                return True
        return False
    tests = []
    for tg, ins in E.in_edges.items():
        for (a, k) in ins:
            if a in E.state:
                tests += [(t, (a, k, tg)) for t in edge_tests(a, k, tg)]
    rets = {}
    for v, fs, n in E.returns():
        rets.setdefault(verdict_of(R, v), set()).add(n)
    if None in rets:
        C.unk("verdict", "result %s" % [show(v)[:60] for v, fs, n in E.returns()])
        return
    okt, okf, err = rets.get(True, set()), rets.get(False, set()), rets.get("err", set())
    if one_sided and not tests:
        C.bad("tolerance", "components are compared on one side only: %s" % show(one_sided[0])[:100], f.name)
        return
    if not tests:
        C.unk("tolerance", "no comparison of two components found")
        return
    idx = {t[1] for t, e in tests}
    # the loops over the components; X and Y have one length
    for i in idx:
        r, why = counts_all(R, i)
        C.expect(r, "every component", "a solution can be called converged without looking at every component: %s" % why,
                 f.name, "components 0, 1, 2, ...")
    lens = (w.len(X), w.len(Y), w.imin(w.len(X), w.len(Y)))

    def loops_of(edges):
        out = {}
        for (a, k, b), i in edges:
            for h in hdrs:
                if in_loop(a, h):
                    out.setdefault((h[0], h[1]), set()).add(i)
        return out
    tl = loops_of([(e, t[1]) for t, e in tests])
    fedges = []
    for tg, ins in E.in_edges.items():
        for (a, k) in ins:
            if a in E.state:
                for g, v in new_facts(E, a, k, tg).items():
                    g = R.c(g)
                    if g.op == "app" and g.a[0] == "is_finite" and v is True and g.a[1].op == "sel" and g.a[1].a[0] is X:
                        fedges.append(((a, k, tg), g.a[1].a[1]))
    fl = loops_of(fedges)

    def cands(key, ids):
        hn = {E._nids[h] for h in E.state if (h[0], h[1]) == key} | \
             {p.a[0][1] for i in ids for p in subterms(i) if p.op == "phi"}
        return list(ids) + [w.i(0)] + [p for p in E.w.phi_term.values() if p.a[0][1] in hn]
    cand = {key: cands(key, tl.get(key, set()) | fl.get(key, set())) for key in set(tl) | set(fl)}

    def incomplete(key, goal=okt):
        """the goal reachable by leaving the loop before the last component, or past the loop"""
        for h in E.state:
            if (h[0], h[1]) != key:
                continue
            for (src, k, tg, fs) in loop_exits(E, h):
                if any(E.truth(w.ile(n, i), fs) is True for n in lens for i in cand[key]):
                    continue
                hit = R.walk([tg], lambda *a: False, lambda m: m in goal)
                if hit:
                    return src
        return R.walk(list(E.entry_nodes), lambda a, k, b: (b[0], b[1]) == key, lambda m: m in goal)
    hits = [incomplete(key) for key in tl]
    C.expect(any(h is None for h in hits), "every component", "a solution can be called converged without looking at "
             "every component", f.name, "converged only at the end of the loop")
    bodies = {}
    for key in cand:
        for h in E.state:
            if (h[0], h[1]) == key:
                for t in body_entries(R, h, lens, cand[key]):
                    bodies.setdefault(key, set()).add(t)
    body = {t for key in tl for t in bodies.get(key, ())}
    if not body:
        C.unk("verdict", "loop body not recognised")
        return
    # limits
    for t, (a, k, b) in tests:
        kind, i, lim, g, v = t
        for (l,), fs, tr in limit_ways(R, g, v, i, lim, a):
            r = lim_expect(R, l, i, tr[-1][1][0] if tr else a, tr[-1] if tr else None, cfg, cn, X, body)
            C.expect(r[0], "tolerance", "component i is compared with %s%s" % (l, r[1]), where_node(E, a),
                     "|x|*RELTOL + %s" % r[1])

    def unpassed(key, cut, goal=okt):
        """the goal reachable although some round of the loop was passed without a cut edge"""
        seen, st, ends = set(bodies.get(key, ())), list(bodies.get(key, ())), set()
        if not st:
            return key
        while st:
            n = st.pop()
            if n in goal:
                return n
            if (n[0], n[1]) == key:
                ends.add(n)
                continue
            for tg, k in E.out_edges.get(n, ()):
                if tg not in seen and not cut(n, k, tg):
                    seen.add(tg)
                    st.append(tg)
        return R.walk(list(ends), lambda *z: False, lambda m: m in goal)
    passes = lambda a, k, b: any(t[0] == "in" for t in edge_tests(a, k, b))
    fails = lambda a, k, b: any(t[0] == "out" for t in edge_tests(a, k, b)) or isnan(a, k, b, True)
    # a component that is not within its limit: afterwards `converged` cannot be said.
    hit = None if any(unpassed(key, passes) is None for key in tl) else 1
    C.expect(hit is None, "converged means within tolerance", "a solution can be called converged although a component was "
             "not within its tolerance", f.name, "converged only through a passed comparison of every component")
    fin = lambda a, k, b: finite(a, k, b, True)
    hit = None if any(unpassed(key, fin) is None and incomplete(key) is None for key in fl) else 1
    C.expect(hit is None, "finite", "a solution with a non-finite component can be called converged", f.name,
             "converged only with finite components")
    hit = None if any(unpassed(key, fin, okt | okf) is None and incomplete(key, okt | okf) is None for key in fl) else 1
    C.expect(hit is None, "divergence", "a solution can get a verdict before all of its components are known to be finite",
             f.name, "a verdict only with finite components")
    for tg, ins in list(E.in_edges.items()):
        for (a, k) in ins:
            if a in E.state and finite(a, k, tg, False):
                hit = R.walk([tg], lambda *z: False, lambda m: m in okt or m in okf)
                C.expect(hit is None, "divergence", "a non-finite component is not reported as divergence", where_node(E, a),
                         "divergence reported")
    # not converged only with a component outside its limit
    hit = R.walk(list(E.entry_nodes), lambda a, k, b: fails(a, k, b), lambda m: m in okf)
    C.expect(hit is None, "within tolerance means converged", "a solution can be called not converged although every component "
             "is within its tolerance", f.name, "refused only for a component outside its tolerance")
    if okt:
        pass
    else:
        C.bad("verdict", "no solution is ever called converged", f.name)
    if not okf:
        C.bad("verdict", "no finite solution is ever refused", f.name)


def counts_all(R, i):
    """does index i run 0, 1, 2, ... over the copies of its loop?"""
    w, E = R.w, R.E
    k, d = w.lin_parts(i)
    ph = [p for p in d if p.op == "phi"]
    if len(ph) != 1 or len(d) != 1 or d[ph[0]] != 1:
        return None, "index %s" % show(i)
    seen, st = set(), [ph[0]]
    while st:
        p = st.pop()
        if p in seen:
            continue
        seen.add(p)
        es = E.in_edges.get(phi_node(E, p), ())
        for e, o in w.phi_ops.get(p.id, {}).items():
            if e not in es:
                continue
            o = R.c(o)
            kk, dd = w.lin_parts(o)
            if not dd:
                if kk + k != 0:
                    return False, "the first one is %d" % (kk + k)
                continue
            q = [x for x in dd if x.op == "phi"]
            if len(dd) != 1 or len(q) != 1 or dd[q[0]] != 1:
                return None, "index %s" % show(o)
            if kk not in (0, 1):
                return False, "steps by %d" % kk
            st.append(q[0])
    return True, ""


def body_entries(R, h, lens, idx):
    """targets of the edges from a loop header's copies into the body"""
    E, w = R.E, R.w
    out = []
    seen, st = {h}, [h]
    while st:
        n = st.pop()
        for tg, k in E.out_edges.get(n, ()):
            if tg in seen or not in_loop(tg, h):
                continue
            seen.add(tg)
            fs = edge_facts(E, tg, (n, k))
            if any(E.truth(w.ilt(i, n), fs) is True for n in lens for i in idx) and \
                    not any(E.truth(w.ile(n, i), fs) is True for n in lens for i in idx):
                out.append(tg)
            else:
                st.append(tg)
    return out


def verdict_of(R, v):
    v = R.c(v)
    if v.op == "agg" and str(v.a[0]).endswith("Result"):
        if v.a[1] == 1:
            return "err"
        v = R.c(R.w.fld(v, 0, 0))
    if v.op == "C" and v.a[0] == "b":
        return bool(v.a[1])
    return None


def limit_ways(R, g, v, i, lim, node):
    """the limit with its joins expanded"""
    ts = [a for a in lim.atoms() if isinstance(a, T) and a.op == "phi" and not phi_edges(R.E, a)[1]]
    if not ts:
        return [((lim,), {}, ())]
    out = []
    for tup, fs, tr in R.joins(tuple(ts), {}, keep=tuple(p for p in subterms(i) if p.op == "phi")):
        mp = dict(zip(ts, tup))
        out.append(((lim.subst(lambda a: R.rat(mp[a]) if a in mp else None),), fs, tr))
    return out


def lim_expect(R, l, i, goal, last, cfg, cn, X, body):
    w, E = R.w, R.E
    base = None
    for a in l.atoms():
        if isinstance(a, T) and a.op == "app" and a.a[0] == "fabs" and (R.rat(a.a[1]) - atom(R.c(w.sel(X, i)))).iszero():
            base = atom(a) * atom(cfg["RELTOL"])
    if base is None:
        return False, ""
    rest = l - base
    if (rest - atom(cfg["VNTOL"])).iszero():
        nm, want = "VNTOL", False
    elif (rest - atom(cfg["ABSTOL"])).iszero():
        nm, want = "ABSTOL", True
    else:
        return False, ""
    isv = R.c(w.ile(cn, i))

    def cut(a, k, b):
        fs = {R.c(f): v for f, v in edge_facts(E, b, (a, k)).items()}
        return E.truth(isv, fs) is want
    if last is not None and cut(last[1][0], last[1][1], last[0]):
        return True, nm
    hit = R.walk(list(body), cut, lambda m: m == goal)
    return hit is None, nm + (" although it is not known to be a branch current" if want else
                              " although it is not known to be a node voltage")
