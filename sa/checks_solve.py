"""P16: the linear solver - row operations, pivoting and back-substitution."""
from checks_elem import *


class Odd(Exception):
    """a shape the rule does not know"""


class Wrong(Exception):
    """the rule is broken"""


def p16(C):
    S = Stamps(C.prog())
    if not S.solvers:
        C.unk("solver", "no function that solves a matrix")
    for f in S.solvers:
        C.guard("solver", one_solver, C, f)


def is_swap(t):
    return t.op == "app" and t.a[0] == "swap"


class Solver(FRun):
    def __init__(self, C, f):
        FRun.__init__(self, C, f)
        prog = C.prog()
        from stamp import is_matrix_ty
        ms = [i for i in range(1, f.argc + 1) if is_matrix_ty(prog, f.locals[i])]
        if len(ms) != 1:
            raise Undecided("which parameter is the matrix")
        self.m0 = self.p(ms[0])
        self.ops = {}
        w, E = self.w, self.E
        for t in list(w.phi_term.values()):
            if self.c(t) is not t or t.id not in w.phi_ops:
                continue
            n = phi_node(E, t)
            es = E.in_edges.get(n, ())
            self.ops[t] = [(e, self.c(o)) for e, o in w.phi_ops[t.id].items() if e in es]
        self.fam = {self.m0}
        ch = True
        while ch:
            ch = False
            for t, os in self.ops.items():
                if t not in self.fam and any(self.base(o) in self.fam for e, o in os):
                    self.fam.add(t)
                    ch = True
        for t in self.fam:
            for e, o in self.ops.get(t, ()):
                if self.base(o) not in self.fam:
                    raise Undecided("the matrix becomes %s" % show(o)[:100])
        self.live = self.returning()

    def base(self, t):
        while t.op == "store" or is_swap(t):
            t = t.a[0] if t.op == "store" else t.a[1]
        return t

    def returning(self):
        E = self.E
        rev = {}
        for n, es in E.in_edges.items():
            for e in es:
                rev.setdefault(n, []).append(e[0])
        st = [n for v, f, n in E.returns()]
        seen = set(st)
        while st:
            n = st.pop()
            for m in rev.get(n, ()):
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        return seen

    def nrm(self, t):
        """sizes of the matrix in terms of the number of unknowns"""
        w = self.w
        mp = {}
        for s in subterms(t):
            if s.op == "len":
                b = s.a[0]
                if self.base(b) in self.fam:
                    mp[s] = self.n
                elif b.op == "sel" and self.base(b.a[0]) in self.fam or \
                        b.op == "store" and b.a[0].op == "sel" and self.base(b.a[0].a[0]) in self.fam:
                    mp[s] = w.iadd(self.n, w.i(1))
                elif b.op == "rep":
                    mp[s] = b.a[0]
        return w.subst(t, mp) if mp else t

    def nfacts(self, fs):
        return {self.nrm(self.c(f)): v for f, v in fs.items()}

    def cell(self, t):
        """(matrix, row, col) of an entry of the matrix"""
        if t.op == "sel" and t.a[0].op == "sel" and self.base(t.a[0].a[0]) in self.fam:
            return t.a[0].a[0], self.nrm(t.a[0].a[1]), self.nrm(t.a[1])
        return None

    def flat(self, r):
        """r over entries, whatever the version of the matrix"""
        def f(a):
            if isinstance(a, T):
                c = self.cell(a)
                if c:
                    return atom(("m", c[1], c[2]))
            return None
        return r.subst(f)

    def zero(self, fs, row, col, rowless=False):
        """do the facts say that entry [row][col] is 0?"""
        for f, v in fs.items():
            f = self.c(f)
            if f.op == "feq" and v is True:
                for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                    c = self.cell(x)
                    if c and c[2] is col and (c[1] is row or rowless) and self.rat(y).iszero():
                        return True
        return False

    # -- loops ----------------------------------------------------------------
    def counter(self, x, inner=None):
        """the header of the innermost loop whose counter is in x, and that counter"""
        ps = [p for p in subterms(x) if p.op == "phi" and phi_edges(self.E, p)[1]]
        if inner is not None:
            ps = [p for p in ps if p not in inner]
        if not ps:
            return None, None
        ps.sort(key=lambda p: -len([q for q in ps if in_loop(phi_node(self.E, p), phi_node(self.E, q))]))
        return phi_node(self.E, ps[0]), ps[0]

    def covers(self, p, x, lo, hi, excuse=None):
        """does the loop counted by phi p give x every value lo..=hi?"""
        w, E = self.w, self.E
        hdr = phi_node(E, p)
        ent, back = phi_edges(E, p)
        slope = None
        for e, o in back.items():
            for (t,), fs, tr in self.joins((o,)):
                k, d = w.lin_parts(w.isub(self.c(t), p))
                if d or k != 1:
                    if d or k not in (1, -1):
                        raise Odd("the loop counts by %s" % show(w.isub(self.c(t), p)))
                if slope not in (None, k):
                    raise Odd("the loop counts both ways")
                slope = k
        k, d = w.lin_parts(x)
        cf = d.get(p)
        if cf not in (1, -1) or slope is None:
            raise Odd("index %s" % show(x))
        up = cf * slope > 0
        for e, o in ent.items():
            for (t,), fs, tr in self.joins((o,), edge_facts(E, hdr, e)):
                s = self.nrm(w.subst(x, {p: t}))
                fs = self.nfacts(fs)
                good = w.ile(s, lo) if up else w.ile(hi, s)
                v = E.truth(good, fs)
                if v is not True:
                    kk, dd = w.lin_parts(w.isub(s, lo if up else hi))
                    if v is False or not dd:
                        raise Wrong("starts at %s instead of %s" % (show(s), show(lo if up else hi)))
                    raise Odd("starts at %s" % show(s))
        seen = False
        for src, kk, tg, fs in loop_exits(E, hdr):
            if tg not in self.live:
                continue
            fs = self.nfacts(fs)
            if excuse and excuse(fs):
                continue
            seen = True
            # at the exit the counter has the value it has at the header
            end = w.ile(w.iadd(hi, w.i(1)), x) if up else w.ile(w.iadd(x, w.i(1)), lo)
            v = E.truth(self.nrm(end), fs)
            if v is not True:
                early = None
                for more in range(1, 4):
                    z = w.ile(w.iadd(hi, w.i(1 - more)), x) if up else w.ile(w.iadd(x, w.i(1 - more)), lo)
                    if E.truth(self.nrm(z), fs) is True:
                        early = more
                        break
                if early:
                    raise Wrong("can end %d before %s" % (early, show(hi if up else lo)))
                raise Wrong("can end before %s (%s)" % (show(hi if up else lo), where_node(E, src)))
        if not seen:
            raise Odd("the loop has no end")
        return True

    def skipped(self, hdr, stop, excuse):
        """can a round of the loop at hdr pass by node `stop` without an excuse?"""
        E = self.E
        st = [tg for tg, k in E.out_edges.get(hdr, ()) if in_loop(tg, hdr) and
              not excuse(new_facts(E, hdr, k, tg))]
        seen = set(st)
        while st:
            n = st.pop()
            if n == hdr:
                return True
            if n == stop:
                continue
            for tg, k in E.out_edges.get(n, ()):
                if not in_loop(tg, hdr) and tg != hdr or tg in seen:
                    continue
                if excuse(new_facts(E, n, k, tg)):
                    continue
                seen.add(tg)
                st.append(tg)
        return False


def rule(C, ob, f, where, good=""):
    try:
        x = f()
        C.ok(ob, good, where)
        return x
    except Wrong as e:
        C.bad(ob, str(e), where)
    except Odd as e:
        C.unk(ob, str(e), where)
    return None


def one_solver(C, f):
    R = Solver(C, f)
    E, w = R.E, R.w
    # the solution vector and the number of unknowns
    res = R.results()
    bases = set()
    for v, fs, tr, n in res:
        st, seen = [v], set()
        while st:
            t = st.pop()
            t = R.base(t)
            if t in seen:
                continue
            seen.add(t)
            if t.op == "phi":
                st += [o for e, o in R.ops.get(t, ())]
            else:
                bases.add(t)
    if len(bases) != 1 or next(iter(bases)).op != "rep":
        C.unk("solver", "the solution is built as %s" % [show(b)[:60] for b in bases], f.name)
        return
    b = bases.pop()
    R.n = b.a[0]
    if not R.rat(b.a[1]).iszero():
        C.bad("ground", "the ground unknown is %s" % show(b.a[1]), f.name)
    R.n = R.nrm(R.n)
    eliminate(C, R, f)
    substitute(C, R, f, res)


def eliminate(C, R, f):
    E, w = R.E, R.w
    one = w.i(1)
    elim = []
    swaps = []
    for P in R.fam:
        if P not in R.ops:
            continue
        hdr = phi_node(E, P)
        for e, o in R.ops[P]:
            for (t,), fs, tr in R.joins((o,), edge_facts(E, hdr, e)):
                while R.base(t) is not t:
                    if is_swap(t):
                        swaps.append((t, P, fs))
                        t = t.a[1]
                        continue
                    row, new = t.a[1], t.a[2]
                    old = R.c(w.sel(t.a[0], row))
                    if new.op == "store" and new.a[0] is old:
                        elim.append((P, e, t.a[0], row, new.a[1], new.a[2], fs))
                    else:
                        C.unk("row operation", "a row becomes %s" % show(new)[:120], where_node(E, hdr))
                    t = t.a[0]
    if not elim:
        C.unk("row operation", "no elimination recognised", f.name)
        return
    done = {}
    zeros = []
    for P, e, m, row, col, v, fs in elim:
        wh = where_node(E, phi_node(E, P))
        if R.rat(v).iszero():
            zeros.append((R.nrm(row), R.nrm(col), wh))
            continue
        g = rule(C, "row operation", lambda: row_op(R, P, e, m, R.nrm(row), R.nrm(col), v, fs), wh,
                 "row - factor * pivot row")
        if g:
            done.setdefault(g, []).append((P, wh))
    for (k, row, col), ps in done.items():
        for P, wh in ps:
            ranges(C, R, k, row, col, P, wh, swaps)
    # what the row operation makes zero may also be written as zero
    for row, col, wh in zeros:
        C.expect(any(row is r and col is k for k, r, c in done), "row operation",
                 "entry [%s][%s] becomes 0" % (show(row)[:60], show(col)[:60]), wh, "the eliminated entry is 0")


def row_op(R, P, e, m, row, col, v, fs):
    """v = old - factor * pivot; returns (pivot row, row, column)"""
    w, E = R.w, R.E
    hdr = phi_node(E, P)
    old = R.c(w.sel(w.sel(m, row), col))
    rv = R.rat(v)
    fl = R.flat(rv)
    for a in rv.atoms():
        if not (isinstance(a, T) and R.cell(a)):
            raise Odd("an entry becomes %s" % rv)
    D = atom(("m", row, col)) - fl
    piv = {c[1] for c in fl.atoms() if c[2] is col and c[1] is not row}
    if len(piv) != 1:
        raise Wrong("entry [r][c] becomes %s" % rv)
    k = piv.pop()
    rho = D / atom(("m", k, col))
    want = atom(("m", row, k)) / atom(("m", k, k))
    if not (rho - want).iszero():
        raise Wrong("entry [r][c] becomes %s: the factor of the pivot row is not [r][k]/[k][k]" % rv)
    # which versions of the matrix the factor is taken from
    for a in rv.atoms():
        X, i, j = R.cell(a)
        if R.c(X) is not R.c(m) and i is row and j is col:
            raise Wrong("an old entry is used")
        if i is row and j is k and R.base(X) is P:
            # read while the row is being changed: fine only when column k is not
            ph = [p for p in subterms(col) if p.op == "phi" and phi_node(E, p) == hdr]
            ent = phi_edges(E, ph[0])[0] if len(ph) == 1 else {}
            for ed, o in ent.items():
                s = R.nrm(w.subst(col, {ph[0]: R.c(o)}))
                if E.truth(w.ile(s, k), R.nfacts(edge_facts(E, hdr, ed))) is not False:
                    raise Wrong("the factor is read from the row while the row is being changed")
            if not ent:
                raise Odd("factor read in the loop")
    if E.truth(w.ilt(k, row), R.nfacts(fs)) is not True:
        lo, d = w.lin_parts(w.isub(row, k))
        if not d and lo <= 0:
            raise Wrong("row %s is changed with pivot row %s" % (show(row), show(k)))
    return k, row, col


def ranges(C, R, k, row, col, P, wh, swaps):
    E, w = R.E, R.w
    one = w.i(1)
    n = R.n
    kp = {p for p in subterms(k) if p.op == "phi"}
    rp = {p for p in subterms(row) if p.op == "phi"}
    _, cphi = R.counter(col, kp | rp)
    _, rphi = R.counter(row, kp)
    _, kphi = R.counter(k)
    if cphi is None or rphi is None or kphi is None:
        C.unk("columns", "loop counters of row %s, column %s" % (show(row), show(col)), wh)
        return
    hc, hr, hk = (phi_node(E, p) for p in (cphi, rphi, kphi))
    rule(C, "columns", lambda: R.covers(cphi, col, w.iadd(k, one), n), where_node(E, hc),
         "every column after the pivot, right-hand side included")

    def back_alts():
        for e, o in R.ops.get(P, ()):
            if not in_loop(e[0], hc):
                continue
            for (t,), fs, tr in R.joins((o,), edge_facts(E, hc, e)):
                if t is P and not (R.zero(fs, k, col) or R.zero(fs, row, k)):
                    raise Wrong("an entry of the row can be left as it is")
        return True
    rule(C, "columns", back_alts, where_node(E, hc), "no column left out")
    rule(C, "rows", lambda: R.covers(rphi, row, w.iadd(k, one), w.isub(n, one)), where_node(E, hr),
         "every row below the pivot")

    def rows():
        if R.skipped(hr, hc, lambda fs: R.zero(fs, row, k)):
            raise Wrong("a row below the pivot can be left out although its entry in the pivot column is not 0")
        return True
    rule(C, "rows", rows, where_node(E, hr), "a row is left out only with a 0 in the pivot column")
    singular = lambda fs: R.zero(fs, None, k, True)
    rule(C, "pivots", lambda: R.covers(kphi, k, one, w.isub(n, w.i(2)), singular), where_node(E, hk),
         "every unknown but ground and the last")

    def pivots():
        if R.skipped(hk, hr, singular):
            raise Wrong("a column can be left out although its pivot is not 0")
        return True
    rule(C, "pivots", pivots, where_node(E, hk), "a column is left out only when its pivot is 0")
    pivot(C, R, k, kphi, hk, hr, swaps)


def pivot(C, R, k, kphi, hk, hr, swaps):
    """the row with the largest entry is brought to row k"""
    E, w = R.E, R.w
    mr = [p for p in R.fam if p in R.ops and phi_node(E, p) == hr]
    cands = []
    if len(mr) != 1:
        C.unk("pivot", "the matrix at the row loop", where_node(E, hr))
        return
    for e, o in R.ops[mr[0]]:
        if in_loop(e[0], hr):
            continue
        for (t,), fs, tr in R.joins((o,), edge_facts(E, hr, e)):
            found = None
            while R.base(t) is not t:
                if is_swap(t):
                    i, j = R.nrm(t.a[2]), R.nrm(t.a[3])
                    if j is k:
                        found = i
                    elif i is k:
                        found = j
                    else:
                        C.bad("pivot", "rows %s and %s are exchanged while eliminating with row %s" %
                              (show(i), show(j), show(k)), where_node(E, hr))
                        return
                    t = t.a[1]
                else:
                    t = t.a[0]
            cands.append((found, fs))
    got = {a for a, fs in cands if a is not None}
    if not got:
        C.expect(False if not swaps else None, "pivot", "rows are eliminated without bringing the largest entry to the pivot",
                 where_node(E, hr))
        return
    for a, fs in cands:
        if a is None and not any(E.truth(w.ieq(b, k), R.nfacts(fs)) is True for b in got):
            C.bad("pivot", "rows can be eliminated without the exchange of rows", where_node(E, hr))
            return
    for a in got:
        rule(C, "pivot", lambda: search(R, a, k), where_node(E, hr), "row with the largest |entry| of the column")


def search(R, a, k):
    E, w = R.E, R.w
    if a is k:
        raise Wrong("the pivot row is exchanged with itself")
    if a.op != "phi" or not phi_edges(E, a)[1]:
        raise Odd("the pivot row is %s" % show(a)[:100])
    hdr = phi_node(E, a)

    def entry_abs(x):
        """row of |M[row][k]|"""
        if x.op == "app" and x.a[0] == "fabs":
            c = R.cell(x.a[1])
            if c:
                return c
        return None
    big = [p for p in R.ops if phi_node(E, p) == hdr and p is not a and any(
        entry_abs(t) for e, o in R.ops[p] for (t,), fs, tr in R.joins((o,)))]
    if not big:
        signed = [p for p in R.ops if phi_node(E, p) == hdr and p is not a and any(
            R.cell(t) for e, o in R.ops[p] for (t,), fs, tr in R.joins((o,)))]
        if signed:
            raise Wrong("the pivot is chosen by its value, not by its magnitude")
    B = big[0] if len(big) == 1 else None
    if len(big) > 1:
        raise Odd("running maximum")
    rows = set()
    start = k
    ent, back = phi_edges(E, a)
    for e in list(ent) + list(back):
        tup = (a, B) if B is not None else (a,)
        o = tuple(R.c(w.phi_ops[p.id][e]) for p in tup)
        for t, fs, tr in R.joins(o, edge_facts(E, hdr, e)):
            ai = R.nrm(t[0])
            if e in ent:
                if ai is not k:
                    raise Wrong("the search for the pivot starts with row %s" % show(ai))
                if B is not None:
                    c = R.rat(t[1]).const()
                    x = entry_abs(t[1])
                    if x:
                        if x[1] is not k or x[2] is not k:
                            raise Wrong("the search starts with entry [%s][%s]" % (show(x[1]), show(x[2])))
                        start = w.iadd(k, w.i(1))
                    elif c is None or c > 0:
                        raise Wrong("the search for the largest entry starts from %s" % R.rat(t[1]))
                continue
            # one round
            upd = ai is not a
            told = None
            for f, v in fs.items():
                f = R.c(f)
                if f.op not in ("flt", "fle"):
                    continue
                x, y = f.a
                for p, q, fl in ((x, y, False), (y, x, True)):
                    c = entry_abs(p)
                    if c is None:
                        if R.cell(p) and (q is B or R.cell(q)):
                            raise Wrong("the pivot is chosen by value, not by magnitude")
                        continue
                    other = entry_abs(q)
                    cur = q is B if B is not None else (other and R.nrm(other[1]) is a and other[2] is k)
                    if not cur:
                        continue
                    if c[2] is not k:
                        raise Wrong("the pivot is searched in column %s" % show(c[2]))
                    # entry < cur (fl False) or cur < entry (fl True)
                    bigger = (fl == bool(v))
                    told = (c[1], bigger, (f.op == "flt") == bool(v))
            if told is None:
                if R.zero(fs, None, k, True) and not upd:
                    continue
                raise Wrong("a row of the search is %s without comparing it" % ("taken" if upd else "passed by"))
            r, bigger, strict = told
            rows.add(r)
            if upd and not bigger or not upd and bigger and strict:
                raise Wrong("the row with the smaller entry is preferred")
            if upd and ai is not r:
                raise Wrong("row %s is remembered for the entry of row %s" % (show(ai), show(r)))
            if B is not None:
                c = entry_abs(t[1])
                if upd and not (c and c[1] is r and c[2] is k) or not upd and t[1] is not B:
                    raise Wrong("the largest entry so far is not remembered")
    if len(rows) != 1:
        raise Odd("the rows searched")
    r = rows.pop()
    kp = {p for p in subterms(k) if p.op == "phi"}
    _, rphi = R.counter(r, kp)
    if rphi is None:
        raise Odd("the rows searched are %s" % show(r))
    if B is None:
        start = w.iadd(k, w.i(1))
    R.covers(rphi, r, start, w.isub(R.n, w.i(1)))
    # nothing above row k
    for e, o in phi_edges(E, rphi)[0].items():
        s = R.nrm(w.subst(r, {rphi: R.c(o)}))
        kk, d = w.lin_parts(w.isub(s, k))
        if not d and kk < 0 or not [p for p in subterms(s) if p.op == "phi"] and kp:
            raise Wrong("rows already used are searched for the pivot")
    return True


# ----------------------------------------------------------- back-substitution
def substitute(C, R, f, res):
    E, w = R.E, R.w
    xs = {v for v, fs, tr, n in res}
    if len(xs) != 1 or next(iter(xs)).op != "phi":
        C.unk("back-substitution", "the solution is %s" % [show(x)[:80] for x in xs], f.name)
        return
    X = xs.pop()
    hb = phi_node(E, X)
    wh = where_node(E, hb)
    ent, back = phi_edges(E, X)
    n, one = R.n, w.i(1)
    last = w.isub(n, one)
    hi = last
    lastset = set()
    for e in ent:
        for (t,), fs, tr in R.joins((w.phi_ops[X.id][e],), edge_facts(E, hb, e)):
            top = None
            while t.op == "store":
                if R.nrm(t.a[1]) is last and top is None:
                    top = t.a[2]
                elif R.nrm(t.a[1]) is not last:
                    C.unk("last equation", "unknown %s is solved first" % show(t.a[1]), wh)
                    return
                t = t.a[0]
            if top is None:
                lastset.add(False)
                continue
            lastset.add(True)
            r = R.flat(R.rat(top))
            want = atom(("m", last, n)) / atom(("m", last, last))
            if r.iszero():
                good = R.zero(fs, last, n) and R.zero(fs, last, last)
                C.expect(good, "last equation", "the last unknown is set to 0 although its equation may say otherwise", wh,
                         "0 only for the equation 0*x=0")
            else:
                C.expect((r - want).iszero(), "last equation", "the last unknown is %s" % R.rat(top), wh, "rhs/diagonal")
    if len(lastset) != 1:
        C.bad("last equation", "the last unknown can be left out", wh)
        return
    if True in lastset:
        hi = w.isub(last, one)
    for e in back:
        for (t,), fs, tr in R.joins((w.phi_ops[X.id][e],), edge_facts(E, hb, e)):
            if t.op != "store" or t.a[0] is not X:
                C.expect(False if t is X else None, "back-substitution", "an unknown can be left unsolved", wh)
                continue
            rule(C, "back-substitution", lambda: back_sub(R, X, hb, R.nrm(t.a[1]), t.a[2], fs, hi), wh,
                 "(rhs - sum of later terms)/diagonal for every unknown")


def back_sub(R, X, hb, i, v, fs, hi):
    E, w = R.E, R.w
    n, one = R.n, w.i(1)
    r = R.rat(v)
    for a in r.atoms():
        c = isinstance(a, T) and R.cell(a)
        if c and R.base(c[0]) is R.m0:
            raise Wrong("the solution is computed from the matrix before elimination")
    fl = R.flat(r)
    S = [a for a in r.atoms() if isinstance(a, T) and a.op == "phi"]
    other = [a for a in fl.atoms() if not (isinstance(a, tuple) and a[0] == "m") and a not in S]
    if other or len(S) != 1:
        if not S and not other:
            raise Wrong("an unknown is %s, whatever the unknowns after it" % r)
        raise Odd("an unknown is %s" % r)
    S = S[0]
    diag, rhs = atom(("m", i, i)), atom(("m", i, n))
    q = fl * diag - rhs
    q0 = q.subst(lambda a: const(0) if a is S else None)
    al = q.subst(lambda a: const(1) if a is S else None) - q0
    q2 = q.subst(lambda a: const(2) if a is S else None) - q0
    ac = al.const()
    if ac is None or abs(ac) != 1 or not (q2 - al - al).iszero():
        raise Wrong("an unknown is %s, which is not (rhs - sum)/diagonal" % r)
    hs = phi_node(E, S)
    ent, back = phi_edges(E, S)
    if not back:
        raise Odd("sum %s" % show(S))
    for e, o in ent.items():
        for (t,), f2, tr in R.joins((o,), edge_facts(E, hs, e)):
            z = (q0 + al * R.flat(R.rat(t)))
            if not z.iszero():
                raise Wrong("the sum of an equation starts at %s" % R.rat(t))
    js = set()
    for e, o in back.items():
        for (t,), f2, tr in R.joins((o,), edge_facts(E, hs, e)):
            d = R.rat(t) - atom(S)
            if d.iszero():
                js.add(None)
                zs = f2
                continue
            d = d * al
            xa = [a for a in d.atoms() if isinstance(a, T) and a.op == "sel" and a.a[0] is X]
            if len(xa) != 1:
                raise Wrong("the sum of an equation grows by %s" % (R.rat(t) - atom(S)))
            j = R.nrm(xa[0].a[1])
            if not (R.flat(d) + atom(("m", i, j)) * atom(xa[0])).iszero():
                raise Wrong("the sum of an equation grows by %s" % (R.rat(t) - atom(S)))
            js.add(j)
    if None in js:
        rest = js - {None}
        if len(rest) != 1 or not R.zero(zs, i, next(iter(rest))):
            raise Wrong("a term of an equation can be left out")
        js = rest
    if len(js) != 1:
        raise Odd("terms of an equation")
    j = js.pop()
    ip = {p for p in subterms(i) if p.op == "phi"}
    _, jphi = R.counter(j, ip)
    _, iphi = R.counter(i)
    if jphi is None or iphi is None:
        raise Odd("counters of the back-substitution")
    try:
        R.covers(jphi, j, w.iadd(i, one), w.isub(n, one))
    except Wrong as x:
        raise Wrong("the terms of an equation: %s" % x)
    for e, o in phi_edges(E, jphi)[0].items():
        s = R.nrm(w.subst(j, {jphi: R.c(o)}))
        kk, d = w.lin_parts(w.isub(s, w.iadd(i, one)))
        if not d and kk < 0:
            raise Wrong("the sum of an equation includes unknown %s" % show(s))
    R.covers(iphi, i, one, hi)
    for p, first in ((iphi, hi),):
        for e, o in phi_edges(E, p)[0].items():
            s = R.nrm(w.subst(i, {p: R.c(o)}))
            if s is not hi and s is not w.isub(n, one):
                raise Wrong("the back-substitution starts with unknown %s" % show(s))
    return True
