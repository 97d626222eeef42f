"""P05, P10..P14: time, convergence and history in the two analyses."""
from checks_stamp import *

SRC_KINDS = ("Vsin", "Isin", "Vpwl")


class TRun:
    """one run of an analysis for circuits of one kind, with its relations"""

    def __init__(self, C, S, kind, entry="transient_analysis", cls=None, cc=False):
        self.C, self.S, self.kind = C, S, kind
        self.cls = cls or {r: "n%d" % i for i, r in enumerate(KINDS[kind])}
        self.fn = C.prog().fn("Engine::" + entry)
        self.E = S.run(self.fn, kind, self.cls, cc=cc)
        C.ran(self.E, "%s, terminals distinct" % kind)
        self.w = self.E.w
        self.K = Canon(self.E)
        self.rank = rpo(self.E)
        self.solves = S.solves(self.E)
        self.by_app = {}
        self.ids = {f.id for f in S.solvers}
        self.names = {"fn:" + f.name for f in S.solvers}
        for e, M in self.solves:
            nm = "fn:" + self.E.prog.fns[e.data[3]["id"]].name
            t = self.w.mk("app", nm, *e.data[4])
            self.by_app[t] = (e, M)
            self.by_app[self.K.c(t)] = (e, M)

    def c(self, t):
        return self.K.c(t)

    def solve_of(self, t):
        """(event, matrix) of a solver result term"""
        r = self.by_app.get(t)
        if r is None and t.op == "app" and t.a[0] in self.names:
            tc = self.c(t)
            r = self.by_app.get(tc)
            if r is None:
                for e, M in self.solves:
                    if any(x is M or x is self.c(M) for x in t.a[1:] if isinstance(x, T)):
                        return e, M
        return r

    def is_solve(self, t):
        return t.op == "app" and t.a[0] in self.names

    def is_dc(self, e):
        return not in_time_loop(self.E, e)

    def eval_times(self, M):
        """time arguments of the source evaluations in matrix M"""
        out = {}
        for x in shallow(self.E, M):
            if x.op == "app" and x.a[0].startswith("fn:") and \
                    any(self.E.prog.fns[i].name == x.a[0][3:] for i in self.S.evals):
                t = self.c(x.a[2])
                out[t] = x
        return out

    def rat(self, t):
        return rat.ev(self.c(t), lambda x: None)

    # -- where a value comes from ------------------------------------------------
    def ways(self, tup, done, cap=400, stop=None):
        """[(tuple, [facts along the way])]: the tuple with its phis replaced,
        latest first and a whole join at a time, until done(tuple) holds"""
        out = []
        st = [(tuple(self.c(x) for x in tup), ())]
        seen = set()
        while st:
            t, tr = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if len(seen) > cap:
                raise Undecided("too many ways a recorded value can come about")
            d = done(t)
            ph = {}
            for x in t:
                for s in subterms(x, stop=lambda y: y.op == "app" and str(y.a[0]).startswith("fn:")):
                    if s.op == "phi":
                        ph[s] = self.rank.get(phi_node(self.E, s), -1)
            if d is not None and d is not True:
                # only phis later than rank d matter
                ph = {p: r for p, r in ph.items() if r > d}
                if stop is not None and t[1] is stop:
                    gone = {n for n, _ in tr}
                    ph = {p: r for p, r in ph.items() if phi_node(self.E, p) not in gone}
            if d is True or not ph:
                out.append((t, tr))
                continue
            n = phi_node(self.E, max(ph, key=lambda p: ph[p]))
            for e in self.E.in_edges.get(n, ()):
                mp = {}
                for p in ph:
                    if phi_node(self.E, p) == n:
                        o = self.w.phi_ops.get(p.id, {}).get(e)
                        if o is not None:
                            mp[p] = self.c(o)
                if not mp:
                    continue
                t2 = tuple(self.c(self.w.subst(x, mp)) for x in t)
                if t2 == t:
                    continue
                st.append((t2, tr + ((n, e),)))
        return out

    def joins(self, tup, facts=None, keep=(), cap=300, deep=None):
        """[(tuple, facts, trail)]: plain joins replaced by their operands, latest first;
        deep(phi): also those joins that only the facts mention"""
        out, seen = [], set()
        st = [(tuple(self.c(x) for x in tup), dict(facts or {}), ())]
        while st:
            t, fs, tr = st.pop()
            k = (t, tr)
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > cap:
                raise Undecided("too many alternatives")
            ph = {}
            for x in t:
                for s in subterms(x):
                    if s.op == "phi" and s not in keep and not phi_edges(self.E, s)[1]:
                        ph[s] = self.rank.get(phi_node(self.E, s), -1)
            if deep is not None:
                for x in fs:
                    for s in subterms(x):
                        if s.op == "phi" and s not in keep and not phi_edges(self.E, s)[1] and deep(s):
                            ph[s] = self.rank.get(phi_node(self.E, s), -1)
            if not ph:
                out.append((t, fs, tr))
                continue
            n = phi_node(self.E, max(ph, key=lambda p: ph[p]))
            for e in self.E.in_edges.get(n, ()):
                mp = {}
                for p in ph:
                    if phi_node(self.E, p) == n:
                        o = self.w.phi_ops.get(p.id, {}).get(e)
                        if o is not None:
                            mp[p] = self.c(o)
                if not mp:
                    continue
                t2 = tuple(self.c(self.w.subst(x, mp)) for x in t)
                f2 = dict(fs)
                f2.update(edge_facts(self.E, n, e))
                # facts that speak about the join speak about its operand on this way
                for p in phi_at(self.E, n):
                    o = self.w.phi_ops.get(p.id, {}).get(e)
                    if o is not None and p not in mp and not phi_edges(self.E, p)[1]:
                        mp[p] = self.c(o)
                f2 = {self.c(self.w.subst(self.c(f), mp)): v for f, v in f2.items()}
                st.append((t2, f2, tr + ((n, e),)))
        return out

    def pair_ways(self, label, vec, stop=None):
        """[(label, solver event, matrix, trail)]: what a (time, solution) pair can be;
        the history vector `stop` itself is not looked into a second time"""
        first = (self.c(label), self.c(vec))

        def done(t):
            v = t[1]
            if stop is not None and v is stop and t != first:
                # the label still has to be told apart where paths met after the history was fixed
                return self.rank.get(phi_node(self.E, stop), -1) if stop.op == "phi" else True
            if self.is_solve(v):
                s = self.solve_of(v)
                if s is None:
                    return True
                return self.rank.get(s[0].node, -1)
            if v.op == "phi":
                return None
            return True
        res = []
        for (l, v), tr in self.ways((label, vec), done, stop=stop):
            s = self.solve_of(v) if self.is_solve(v) else None
            res.append((l, v, s, tr))
        return res

    # -- rows of the waveform -----------------------------------------------------
    def rows(self):
        """([(event, label, vector)], [events that could not be read])"""
        if getattr(self, "_rows", None) is None:
            self._rows = find_rows(self.E, self.K)
        return self._rows


def shallow(E, t):
    """subterms through phis, not entering calls of functions"""
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        if x.op == "phi":
            st += list(E.w.phi_ops.get(x.id, {}).values())
            continue
        if x.op == "app" and str(x.a[0]).startswith("fn:"):
            continue
        for a in x.a:
            if isinstance(a, T):
                st.append(a)
        if x.op == "lin":
            st += [y for y, _ in x.a[1]]
    return out


def rpo(E):
    """node -> position in a forward order of the graph without back edges"""
    order, seen = [], set()
    root = E.entry_nodes[0]
    st = [(root, iter(E.out_edges.get(root, ())))]
    seen.add(root)
    while st:
        n, it = st[-1]
        for tg, k in it:
            if tg in seen:
                continue
            seen.add(tg)
            st.append((tg, iter(E.out_edges.get(tg, ()))))
            break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    return {n: i for i, n in enumerate(order)}


def cat_parts(t):
    if t.op == "cat":
        return [x for x in t.a if isinstance(x, T)]
    return [t]


def fmt_arg(t):
    """the number a formatting term prints"""
    if t.op == "app" and (t.a[0] == "disp" or str(t.a[0]).startswith("fmt")):
        return t.a[-1]
    return None


def find_rows(E, K):
    rows, odd = [], []
    for e in E.all_events("write"):
        txt = K.c(e.data[1])
        r = read_row(E, K, txt)
        if r is None:
            odd.append(e)
        else:
            rows.append((e,) + r)
    return rows, odd


def read_row(E, K, txt):
    ps = cat_parts(txt)
    for i, p in enumerate(ps):
        if p.op != "phi":
            continue
        ent, back = phi_edges(E, p)
        if not back:
            continue
        vec = None
        for o in back.values():
            for q in cat_parts(K.c(o)):
                v = fmt_arg(q)
                if v is not None and v.op == "sel":
                    vec = v.a[0]
        if vec is None:
            return None
        label = None
        for o in ent.values():
            for q in ps[:i] + cat_parts(K.c(o)):
                v = fmt_arg(q)
                if v is not None and label is None:
                    label = v
        if label is None:
            return None
        return label, K.c(vec)
    # joined with a separator
    for p in ps:
        for s in subterms(p):
            if s.op == "app" and s.a[0] in ("join", "concat"):
                return None
    return None


def f64c(t):
    return t.a[1] if t.op == "C" and t.a[0] == "f" else None


def where(e):
    return "%s %s" % (e.fn.name, e.span)


# ------------------------------------------------------------------------- P05
def p05(C):
    S = Stamps(C.prog())
    stamps(C, SRC_KINDS)
    for k in SRC_KINDS:
        if k in S.kinds.variant:
            C.guard("times/" + k, times_of_kind, C, S, k)


def times_of_kind(C, S, kind):
    for nm in SC_entries(S):
        R = TRun(C, S, kind, nm)
        for e, M in R.solves:
            ob = "time/%s/%s/%s" % (kind, nm, "dc" if R.is_dc(e) else "timestep")
            ts = R.eval_times(M)
            if not ts:
                C.unk(ob, "no source evaluation found", where(e))
                continue
            if R.is_dc(e):
                bad = [t for t in ts if f64c(t) != 0.0]
                C.expect(not bad, ob, "the DC solution evaluates the source at %s" % bad, where(e), "t=0")
            elif len(ts) != 1:
                C.bad(ob, "sources of one timestep are evaluated at different times: %s" % list(ts), where(e))
            else:
                C.ok(ob, "one time: %s" % show(next(iter(ts)))[:80], where(e))
        if nm == "transient_analysis":
            row_times(C, R, kind)


def row_times(C, R, kind):
    """the recorded time of a solution is the time its sources were evaluated at"""
    rows, odd = R.rows()
    n = 0
    for e, label, vec in rows:
        ob = "recorded/%s/%s" % (kind, e.node[0].id)
        for l, v, s, tr in R.pair_ways(label, vec):
            if s is None:
                C.unk(ob, "recorded vector is %s" % show(v)[:100], where(e))
                continue
            ev, M = s
            if R.is_dc(ev):
                C.expect(f64c(l) == 0.0, ob + "/dc", "the DC solution is recorded at time %s" % show(l)[:80],
                         where(e), "DC solution at t=0")
                n += 1
                continue
            ts = R.eval_times(M)
            if len(ts) != 1:
                continue
            t = next(iter(ts))
            n += 1
            C.expect(R.rat(l) == R.rat(t), ob + "/step",
                     "a solution for time %s is recorded with time %s" % (show(t)[:80], show(l)[:80]), where(e),
                     "label is the time solved")
    if not n:
        C.unk("recorded/" + kind, "no waveform rows recognised")


# ------------------------------------------------------------------------- P03
def cap_steps(C, R):
    """solver event -> [(step length, history vector)] for a capacitor circuit"""
    S, E = R.S, R.E
    SC = StampCheck(C, S)
    SC.kind = "C"
    out = {}
    quiet = Check(C.pid, C.dumps)
    for e, M in R.solves:
        if R.is_dc(e):
            continue
        SC.at = e.node
        for alt in Unfold(E).alternatives(M, e.facts):
            tots, rd, prob, visits = SC.totals(E, alt, R.cls, "", "")
            if prob:
                continue
            for sets, adds, zeros in tots:
                got = {k: v for k, v in adds.items() if "g" not in k and not v.iszero()}
                if not got or cap_expect(quiet, E, e, rd, got, R.cls, False, "", "") is None:
                    continue
                dt, X = rd.cap
                dt = dt.subst(lambda a: rat.ev(R.c(a), lambda x: None) if isinstance(a, T) else None)
                X = R.c(X)
                o = out.setdefault(e, [])
                if not any((d - dt).iszero() and x is X for d, x in o):
                    o.append((dt, X))
    return out


def as_term(r):
    """the single term a rational form stands for"""
    for a in r.atoms():
        if isinstance(a, T) and (r - atom(a)).iszero():
            return a
    return None


def p03(C):
    stamps(C, ("C",))
    S = Stamps(C.prog())
    if anchors(C, S, ("C",)):
        C.guard("history", cap_history, C, S)


def cap_history(C, S):
    R = TRun(C, S, "C", "transient_analysis")
    caps = cap_steps(C, R)
    rows, odd = R.rows()
    seen = set()
    n = 0
    for e, label, vec in rows:
        for l, v, s, tr in R.pair_ways(label, vec):
            if s is None or R.is_dc(s[0]):
                continue
            for dt, X in caps.get(s[0], ()):
                n += 1
                step(C, R, caps, l, dt, X, s[0], seen)
    if not n:
        C.unk("history", "no recorded timestep with a capacitor companion recognised")


def step(C, R, caps, l, dt, X, ev, seen):
    """a solution recorded at l was solved with step dt from history X"""
    ob = "history/%s" % ev.node[0].id
    prev = R.rat(l) - dt
    t = as_term(prev)
    if t is None:
        k = prev.const()
        if k is not None:
            C.bad(ob, "a point recorded at %s is solved with step length %s" % (show(l)[:80], dt), where(ev))
            return
        C.bad(ob, "step length %s is not the time from the previous point to the point recorded at %s"
              % (dt, show(l)[:80]), where(ev))
        return
    if (t, X) in seen:
        return
    seen.add((t, X))
    C.ok(ob, "step from %s to %s" % (show(t)[:40], show(l)[:40]), where(ev))
    for l2, v2, s2, tr in R.pair_ways(t, X, stop=X):
        if s2 is None:
            if v2 is X:
                if l2 is t:
                    continue        # neither time nor history has moved on
                C.bad(ob + "/stale", "the history of the step after %s can be that of an earlier time point"
                      % show(l2)[:80], where(ev))
            elif vec_zero(v2):
                C.bad(ob + "/start", "capacitors start from an all-zero history instead of the DC solution", where(ev))
            else:
                C.unk(ob, "history vector is %s" % show(v2)[:100], where(ev))
        elif R.is_dc(s2[0]):
            C.expect(f64c(l2) == 0.0, ob + "/start", "the DC solution is the history of time %s" % show(l2)[:60],
                     where(ev), "starts from the DC solution at t=0")
        else:
            for dt2, X2 in caps.get(s2[0], ()):
                p2 = R.rat(l2) - dt2
                C.expect((p2 - rat.atom(t)).iszero() or as_term(p2) is t, ob + "/induction",
                         "history of time %s was solved for a time %s after %s" % (show(l2)[:60], dt2, show(t)[:60]),
                         where(ev), "history is the solution of the previous point")


def vec_zero(v):
    return v.op == "rep" and f64c(v.a[1]) == 0.0


# ------------------------------------------------------------------------- P10
def cc_apps(E, S, f):
    """(application of the convergence test, polarity) when fact term f tests its verdict"""
    for x in subterms(f, stop=lambda y: y.op == "app" and str(y.a[0]).startswith("fn:")):
        if x.op == "app" and x.a[0].startswith("fn:") and any(E.prog.fns[i].name == x.a[0][3:] for i in S.ccs):
            return x
    return None


def cc_true(E, S, facts):
    """applications of the convergence test known to have said `converged`"""
    out = []
    for f, v in facts.items():
        x = cc_apps(E, S, f)
        if x is None:
            continue
        if f.op == "eq0" or f.op == "discr":
            continue
        if f is x or f.op == "fld":
            if v is True:
                out.append(x)
        elif f.op == "bnot" and v is False:
            out.append(x)
    return out


class Verdict:
    """the graph with the `converged` edges marked"""

    def __init__(self, C, S, kind, entry):
        self.R = R = TRun(C, S, kind, entry, cc=True)
        self.E, self.S = R.E, S
        E = self.E
        self.true_edges = {}
        for tg, ins in E.in_edges.items():
            for (src, k), (cells, facts) in ins.items():
                if src not in E.state:
                    continue
                old = set(cc_true(E, S, E.state[src][1]))
                new = [x for x in cc_true(E, S, facts) if x not in old]
                if new:
                    self.true_edges.setdefault((src, k, tg), []).extend(new)
        self.errors = {e.node for e in E.all_events("print") if is_error_text(R, e)}

    def walk(self, starts, cut_edge, cut_node, goal):
        """a node satisfying goal reachable from starts, and whether there is one"""
        seen, st = set(starts), list(starts)
        while st:
            n = st.pop()
            if n not in starts and goal(n):
                return n
            if cut_node(n) and n not in starts:
                continue
            for (tg, k) in self.E.out_edges.get(n, ()):
                if cut_edge(n, k, tg) or tg in seen:
                    continue
                seen.add(tg)
                st.append(tg)
        return None


    def walk_env(self, start, cut_node, goal, cap=20000):
        """like walk from one node, but never along edges whose conditions contradict the
        constants the joins have on the way taken"""
        E, R, w = self.E, self.R, self.E.w
        if not hasattr(self, "relevant"):
            # the joins that comparisons speak about, and what flows into them
            rel = set()
            for tg, ins in E.in_edges.items():
                for (a, k) in ins:
                    for f in new_facts(E, a, k, tg):
                        if f.op in ("feq", "fle", "flt"):
                            rel |= {x for y in (f, R.c(f)) for x in subterms(y) if x.op == "phi"}
            todo = list(rel)
            while todo:
                for o in w.phi_ops.get(todo.pop().id, {}).values():
                    for x in (o, R.c(o)):
                        if x.op == "phi" and x not in rel:
                            rel.add(x)
                            todo.append(x)
            self.relevant = rel
        st = [(start, ())]
        seen = {st[0]}
        while st:
            n, env = st.pop()
            if n is not start and goal(n):
                return n
            if n is not start and cut_node(n):
                continue
            if len(seen) > cap:
                return self.walk([start], lambda *a: False, cut_node, goal)
            mp = dict(env)
            for (tg, k) in E.out_edges.get(n, ()):
                ok = True
                for f, v in new_facts(E, n, k, tg).items():
                    g = R.c(w.subst(R.c(f), mp)) if mp else f
                    if g.op == "C" and g.a[0] == "b" and bool(g.a[1]) is not v:
                        ok = False
                        break
                if not ok:
                    continue
                m2 = dict(mp)
                for p in phi_at(E, tg):
                    if p not in self.relevant:
                        continue
                    o = w.phi_ops.get(p.id, {}).get((n, k))
                    o = R.c(w.subst(R.c(o), mp)) if o is not None else None
                    if o is not None and o.op == "C":
                        m2[p] = o
                    else:
                        m2.pop(p, None)
                    q = R.c(p)
                    if q is not p and q.op == "phi" and p in m2:
                        m2[q] = m2[p]
                    elif q is not p:
                        m2.pop(q, None)
                s2 = (tg, tuple(sorted(m2.items(), key=lambda x: x[0].id)))
                if s2 not in seen:
                    seen.add(s2)
                    st.append(s2)
        return None


def is_error_text(R, e):
    t = R.c(e.data[0])
    for x in subterms(t):
        if x.op == "S" or (x.op == "C" and x.a[0] == "s"):
            s = str(x.a[-1])
            if "ERROR" in s.upper():
                return True
    return False


def p10(C):
    S = Stamps(C.prog())
    if not anchors(C, S, ("D",)):
        return
    if len(S.ccs) != 1:
        C.unk("verdict", "%d functions look like the convergence test" % len(S.ccs))
        return
    for kind in ("R", "D", "C", "Vsin"):
        if kind in S.kinds.variant:
            C.guard("accept/" + kind, accept, C, S, kind)
    C.guard("dc", accept_dc, C, S, "D")


def accept_dc(C, S, kind):
    V = Verdict(C, S, kind, "dc_operating_point")
    R, E = V.R, V.E
    solves = {e.node: e for e, M in R.solves}
    root_rets = {e.node for e in E.all_events("ret") if e.node[0] is E.root}
    for n, e in solves.items():
        hit = V.walk([n], lambda a, k, b: (a, k, b) in V.true_edges, lambda m: m in V.errors,
                     lambda m: m in root_rets)
        C.expect(hit is None, "dc failure is reported", "the DC analysis can return without convergence and "
                 "without an error message (%s)" % (where_node(E, hit) if hit else ""), where(e),
                 "every return passes a converged verdict or an error message")
    verdict_args(C, V, solves, "dc")


def verdict_args(C, V, solves, tag):
    """the verdict compares the newest solution with the one before it"""
    R, E = V.R, V.E
    done = set()
    for (src, k, tg), xs in V.true_edges.items():
        for x in xs:
            if x in done:
                continue
            done.add(x)
            vecs = [R.c(a) for a in x.a[1:] if isinstance(a, T)]
            new = [a for a in vecs if R.is_solve(a)]
            old = [a for a in vecs if a.op == "phi"]
            ob = "%s/verdict arguments" % tag
            if len(new) != 1:
                hist = [a for a in vecs if a.op == "phi"]
                C.expect(None if not new and len(hist) != 2 else False, ob,
                         "the convergence test is not given the newest solution: %s" % [show(a)[:60] for a in vecs],
                         where_node(E, src))
                continue
            if len(old) != 1:
                if any(vec_zero(a) for a in vecs):
                    C.bad(ob, "the newest solution is compared with a constant vector", where_node(E, src))
                elif len(new) == 2 or vecs.count(new[0]) == 2:
                    C.bad(ob, "the newest solution is compared with itself", where_node(E, src))
                else:
                    C.unk(ob, "%s" % [show(a)[:60] for a in vecs], where_node(E, src))
                continue
            p = old[0]
            hs = [h for h in newton_headers(R, src) if any(in_loop(n, h) for n in solves)]
            if hs and not in_loop(phi_node(E, p), hs[0]):
                C.bad(ob, "the newest solution is compared with %s, which does not change from one iteration to the next"
                      % show(p)[:80], where_node(E, src))
                continue
            vals = previous(R, p)
            bad = [v for v in vals if not (R.is_solve(v) and R.solve_of(v))]
            if not vals:
                C.unk(ob, "previous solution is %s" % show(p), where_node(E, src))
                continue
            C.expect(not bad, ob, "the newest solution is compared with %s, not with the solution before it"
                     % [show(b)[:80] for b in bad], where_node(E, src), "newest against previous solution")


def previous(R, p):
    """what a loop-carried vector is after one way round its loop"""
    E = R.E
    out, seen = set(), set()
    st = []
    if phi_edges(E, p)[1]:
        st = [R.c(o) for o in phi_edges(E, p)[1].values()]
    else:
        st = [p]
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        if v.op == "phi":
            if phi_edges(E, v)[1]:
                if v is not p:
                    out.add(v)
                continue
            es = E.in_edges.get(phi_node(E, v), ())
            st += [R.c(o) for e, o in E.w.phi_ops.get(v.id, {}).items() if e in es]
        else:
            out.add(v)
    return out


def accept(C, S, kind):
    V = Verdict(C, S, kind, "transient_analysis")
    R, E = V.R, V.E
    tsol = {e.node: e for e, M in R.solves if not R.is_dc(e)}
    dsol = {e.node: e for e, M in R.solves if R.is_dc(e)}
    rows, odd = R.rows()
    wr = {e.node for e, l, v in rows}
    cut = lambda a, k, b: (a, k, b) in V.true_edges
    if not V.true_edges:
        C.unk("accept/" + kind, "no test of the verdict found")
        return
    # a failed DC solution is not stepped from
    for n, e in dsol.items():
        hit = V.walk([n], cut, lambda m: False, lambda m: m in tsol)
        C.expect(hit is None, "%s/dc gate" % kind, "time stepping can start from a DC solution that did not converge",
                 where(e), "stepping is reached only through a converged verdict")
    # an unconverged timestep is not recorded, nor stepped from
    for n, e in tsol.items():
        hit = V.walk([n], cut, lambda m: False, lambda m: m in wr)
        C.expect(hit is None, "%s/recorded" % kind, "a solution that did not converge can be recorded at %s"
                 % (where_node(E, hit) if hit else ""), where(e), "rows are reached only through a converged verdict")
    # reported
    rets = {e.node for e in E.all_events("ret") if e.node[0] is E.root}
    for n, e in list(tsol.items()) + list(dsol.items()):
        hit = V.walk([n], cut, lambda m: m in V.errors, lambda m: m in rets)
        C.expect(hit is None, "%s/reported" % kind, "the analysis can end after a failed solution without an error message",
                 where(e), "every end passes a converged verdict or an error message")
    if kind != "R":
        verdict_args(C, V, tsol, kind)
    # history carried into the next step
    if kind == "C":
        caps = cap_steps(C, R)
        for e, l in caps.items():
            for dt, X in l:
                if X.op != "phi":
                    continue
                h = phi_node(E, X)
                ent, back = phi_edges(E, X)
                for edge, op in back.items():
                    if R.c(op) is X:
                        continue
                    f = edge_facts(E, h, edge)
                    ok = cc_true(E, S, f)
                    hit = V.walk([n for n in tsol], cut, lambda m: False, lambda m: m == h)
                    C.expect(hit is None, "C/history", "the history of the capacitors can come from a solution "
                             "that did not converge", where(e), "history updated only after a converged verdict")


# ------------------------------------------------------------------------- P11
def cfg_index(R):
    f = fields(R.C.prog(), "Configuration")
    for i in range(1, R.fn.argc + 1):
        t = R.C.prog().types.get(R.C.prog().strip(R.fn.locals[i]), {})
        if t.get("k") == "adt" and t["n"].endswith("Configuration"):
            p = R.w.mk("sym", "p%d" % i, R.fn.locals[i])
            for x in list(R.w.tab.values()) if hasattr(R.w, "tab") else []:
                pass
            return p, f
    return None, f


def cfg_terms(R):
    """configuration parameter name -> term"""
    p, f = cfg_index(R)
    base = None
    idx = R.E.root.fn
    for i in range(1, idx.argc + 1):
        t = R.C.prog().types.get(R.C.prog().strip(idx.locals[i]), {})
        if t.get("k") == "adt" and t["n"].endswith("Configuration"):
            base = R.w.mk("sym", "p%d" % i, idx.locals[i])
    return {n: R.w.fld(base, 0, j) for n, j in f.items()} if base is not None else {}


def cfg_defaults(C):
    """constant values Configuration::new gives the parameters"""
    prog = C.prog()
    f = prog.fn("Configuration::new")
    out = {}
    if f is None:
        return out
    E = Engine(prog, limit=5000)
    E.run(f)
    names = fields(prog, "Configuration")
    for v, _, _ in E.returns():
        for n, j in names.items():
            x = E.w.fld(v, 0, j)
            if x.op == "C" and x.a[0] in ("f", "i"):
                out[n] = x.a[1]
            else:
                out.pop(n, None)
    return out


def p11(C):
    S = Stamps(C.prog())
    if not anchors(C, S, ("Vsin",)):
        return
    dflt = cfg_defaults(C)
    C.expect(0 < dflt.get("FT", 0) < 1 and dflt.get("FS", 0) > 0, "step factors",
             "the step factors FT=%s FS=%s do not shrink / start a step" % (dflt.get("FT"), dflt.get("FS")),
             "Configuration::new", "0 < FT < 1, FS > 0")
    for k in SRC_KINDS:
        if k in S.kinds.variant:
            C.guard("points/" + k, points, C, S, k)


def points(C, S, kind):
    from ineq import Bound
    V = Verdict(C, S, kind, "transient_analysis")
    R, E = V.R, V.E
    cfg = cfg_terms(R)
    rows, odd = R.rows()
    tsol = {e.node: e for e, M in R.solves if not R.is_dc(e)}
    dsol = {e.node: e for e, M in R.solves if R.is_dc(e)}
    trow, drow, labels = {}, {}, set()
    stop = R.rat(cfg["TSTOP"])
    frac = {R.c(cfg["FT"])}
    for e, label, vec in rows:
        for l, v, s, tr in R.pair_ways(label, vec):
            if s is None:
                continue
            if R.is_dc(s[0]):
                drow[e.node] = e
                C.expect(f64c(l) == 0.0, kind + "/first label", "the DC solution is recorded at %s" % show(l)[:60],
                         where(e), "0.0")
                continue
            trow[e.node] = e
            labels |= {label, l}
            ts = R.eval_times(s[1])
            if len(ts) == 1:
                C.expect(R.rat(l) == R.rat(next(iter(ts))), kind + "/label",
                         "the solution for time %s is recorded as time %s" % (show(next(iter(ts)))[:80], show(l)[:80]),
                         where(e), "label is the time solved")
            # never past the end
            B = Bound(R, frac, {R.c(cfg[x]) for x in ("TSTOP", "TSTEP", "FS", "RMAX")})
            r = B.le(R.rat(l), stop, B.cmps(s[0].facts))
            if r:
                C.ok(kind + "/not past the end", "%s <= TSTOP" % show(l)[:60], where(e))
            elif B.opaque or B.leaf is None:
                C.unk(kind + "/not past the end", "%s" % (B.leaf,), where(e))
            else:
                C.bad(kind + "/not past the end", "a point can be recorded past the end of the analysis: %s <= %s "
                      "does not hold" % (B.leaf[0], B.leaf[1]), where(e))
    if not trow:
        if odd:
            C.unk(kind + "/rows", "rows are written in a form the analysis does not read")
        else:
            C.bad(kind + "/rows", "no solution of a timestep is ever recorded", R.fn.name)
        return
    if not drow:
        C.bad(kind + "/first row", "the DC solution is not recorded as the first point", R.fn.name)
    rets = {e.node for e in E.all_events("ret") if e.node[0] is E.root}
    none = lambda *a: False
    # the DC row precedes every timestep
    starts = E.entry_nodes
    hit = V.walk(starts, none, lambda m: m in drow, lambda m: m in tsol)
    if drow:
        C.expect(hit is None, kind + "/first row", "time stepping can start before the DC solution is recorded",
                 "", "DC solution is the first row")
    # every converged point from TSTART on is recorded before the next step or the end
    tstart, tstop = R.c(cfg["TSTART"]), R.c(cfg["TSTOP"])

    def excused(a, k, b):
        for f, v in E.in_edges[b][(a, k)][1].items():
            g = R.c(f)
            if g.op in ("fle", "flt") and g.a[0] is tstart and v is False and g.op == "fle" and g.a[1] in labels:
                return True
            if g.op == "flt" and g.a[1] is tstart and v is True and g.a[0] in labels:
                return True
            if g.op == "feq" and v is True and 0.0 in (f64c(g.a[0]), f64c(g.a[1])) and \
                    (g.a[0] in labels or g.a[1] in labels):
                return True
        return False
    accepted = [tg for (src, k, tg) in V.true_edges if any_transient(R, V, src, tsol)]
    if not accepted:
        C.unk(kind + "/recorded", "no accepted timestep found")
        return
    hit = V.walk(accepted, excused, lambda m: m in trow, lambda m: m in tsol or m in rets)
    C.expect(hit is None, kind + "/recorded", "an accepted point from the start time on may go unrecorded (reaching %s)"
             % (where_node(E, hit) if hit else ""), "", "every accepted point is recorded")
    # and only once
    for n, e in trow.items():
        hit = V.walk_env(n, lambda m: m in tsol, lambda m: m in trow and m != n or m in drow)
        C.expect(hit is None, kind + "/once", "a point can be recorded twice", where(e), "one row per point")
    for n, e in drow.items():
        hit = V.walk_env(n, lambda m: m in tsol, lambda m: m in trow or m in drow and m != n)
        C.expect(hit is None, kind + "/once", "the DC solution can be recorded twice", where(e), "one row")

    # the analysis ends at the stop time or with an error message
    def at_end(a, k, b):
        for f, v in E.in_edges[b][(a, k)][1].items():
            g = R.c(f)
            if g.op == "fle" and v is True and g.a[0] is tstop and g.a[1] in labels:
                return True
            if g.op == "flt" and v is False and g.a[1] is tstop and g.a[0] in labels:
                return True
            if g.op == "feq" and v is True and tstop in g.a and (g.a[0] in labels or g.a[1] in labels):
                return True
        return False
    reported_end(C, R, kind, labels, at_end)
    hit = V.walk(accepted, at_end, lambda m: m in V.errors or m in tsol, lambda m: m in rets)
    C.expect(hit is None, kind + "/end", "the analysis can end before the stop time without an error message",
             "", "ends at the stop time")


def reported_end(C, R, kind, labels, at_end):
    """the end time in the result is that of the last point, also when the analysis gave up"""
    E, w = R.E, R.w
    ty = adt(C.prog(), "Statistics")
    flds = fields(C.prog(), "Statistics")
    if ty is None or "end" not in flds:
        return
    know = [R.rat(l) for l in labels]
    own = {a for l in labels for a in subterms(R.c(l)) if a.op == "phi"}
    for v, fs, n in E.returns():
        end = R.c(w.fld(v, 0, flds["end"]))
        for (t,), f2, tr in R.joins((end,), fs, keep=own):
            r = R.rat(t)
            if carried_label(R, t, know, own):
                C.ok(kind + "/reported end", "the time of the last point", where_node(E, n))
                continue
            # a time that is not that of a point: fine only where it is equal to it
            last = tr[-1] if tr else None
            eq = any(at_end(e[0], e[1], m) for m, e in tr if (e[0], e[1]) in E.in_edges.get(m, {})) \
                or end_known(R, f2, labels)
            if eq:
                C.ok(kind + "/reported end", "the stop time, where it was reached", where_node(E, n))
            elif all(isinstance(a, T) and (a.op == "fld" or a.op == "phi") for a in r.atoms()) and \
                    all(a.op == "fld" or carried_label(R, a, know, own) for a in r.atoms()) or \
                    any(a.op == "phi" and carried_label(R, a, know, own) and (r - atom(a)).atoms() for a in r.atoms()):
                C.bad(kind + "/reported end", "the end time returned is %s, whatever point the analysis got to" % r,
                      where_node(E, n))
            else:
                C.unk(kind + "/reported end", "the end time returned is %s" % show(t)[:80], where_node(E, n))


def carried_label(R, t, know, own):
    """is t 0 or the time of a point, from this or the last round?"""
    st, seen = [t], set()
    while st:
        x = R.c(st.pop())
        if x in seen:
            continue
        seen.add(x)
        r = R.rat(x)
        if r.iszero() or any(r == l for l in know):
            continue
        if x.op != "phi":
            return False
        es = R.E.in_edges.get(phi_node(R.E, x), ())
        st += [o for e, o in R.w.phi_ops.get(x.id, {}).items() if e in es]
    return True


def end_known(R, facts, labels):
    """do the facts say that the last point is at the stop time?"""
    tstop = R.c(cfg_terms(R)["TSTOP"])
    for f, v in facts.items():
        g = R.c(f)
        if g.op == "fle" and v is True and g.a[0] is tstop and g.a[1] in labels:
            return True
        if g.op == "flt" and v is False and g.a[1] is tstop and g.a[0] in labels:
            return True
        if g.op == "feq" and v is True and tstop in g.a and (g.a[0] in labels or g.a[1] in labels):
            return True
    return False


def any_transient(R, V, src, tsol):
    """does the verdict tested at node src belong to a timestep (not to the DC solution)?"""
    ch = src[0].chain
    return not any(c.fn.name.endswith("::dc_operating_point") for c in ch)


# ------------------------------------------------------------------------- P12
def p12(C):
    S = Stamps(C.prog())
    if not anchors(C, S, ("C",)):
        return
    d = cfg_defaults(C)
    C.expect(0 < d.get("FT", 0) < 1 and 0 < d.get("FS", 0) <= d.get("RMAX", 0) and d.get("ITL1", 0) > 0 and
             d.get("ITL4", 0) > 0 and 0 < d.get("RMIN", 0) < d.get("FS", 0), "defaults",
             "default step control parameters are inconsistent: %s" % {k: d.get(k) for k in
                                                                       ("FT", "FS", "RMAX", "RMIN", "ITL1", "ITL4")},
             "Configuration::new", "0<FT<1, 0<RMIN<FS<=RMAX, iteration limits positive")
    C.guard("step size", step_size, C, S, d)
    C.guard("retry", retries, C, S, d)
    C.guard("dc iterations", dc_iterations, C, S)


def step_size(C, S, d):
    """no step is longer than TSTEP*RMAX"""
    from ineq import Bound
    R = TRun(C, S, "C", "transient_analysis")
    cfg = cfg_terms(R)
    caps = cap_steps(C, R)
    fs, rmax, tstep = (R.c(cfg[x]) for x in ("FS", "RMAX", "TSTEP"))
    bound = atom(tstep) * atom(rmax)
    n = 0
    for e, l in caps.items():
        for dt, X in l:
            n += 1
            B = Bound(R, {R.c(cfg["FT"])}, {tstep, rmax, fs})
            # the initial step is below the bound by the default factors
            facts = [(atom(tstep) * atom(fs), bound)] + B.cmps(e.facts)
            B0 = B
            B0.base = facts
            r = le_with(B0, dt, bound, facts)
            ob = "longest step/%s" % e.node[0].id
            if r:
                C.ok(ob, "%s <= TSTEP*RMAX" % repr(dt)[:60], where(e))
            elif B.opaque or B.leaf is None:
                C.unk(ob, "%s" % (B.leaf,), where(e))
            else:
                C.bad(ob, "a timestep can be longer than TSTEP*RMAX: %s <= %s does not hold" % (B.leaf[0], B.leaf[1]),
                      where(e))
    if not n:
        C.unk("longest step", "no timestep with a capacitor companion recognised")


def le_with(B, x, b, facts):
    """le with facts that hold everywhere"""
    old = B.cmps
    B.cmps = lambda f, mp=None: old(f, mp) + facts
    try:
        return B.le(x, b, facts)
    finally:
        B.cmps = old


def newton_headers(R, node):
    """loop headers around a solver call, innermost first"""
    E = R.E
    out = []
    for n in E.in_edges:
        if is_header(n) and n in E.state and in_loop(node, n):
            out.append(n)
    out.sort(key=lambda n: (-n[0].depth, -loop_depth(n)))
    return out


def loop_depth(n):
    return len([h for h, b in n[0].fn.loops.items() if n[1] in b])


def retries(C, S, d):
    """a step is retried only shorter, above the minimum, with a fresh iteration count"""
    V = Verdict(C, S, "Vsin", "transient_analysis")
    R = V.R
    cfg = cfg_terms(R)
    par = [R.c(cfg[x]) for x in ("FT", "TSTEP", "RMIN", "ITL4")]
    jobs = []
    for e, M in R.solves:
        if R.is_dc(e):
            continue
        ts = R.eval_times(M)
        hs = newton_headers(R, e.node)
        if len(ts) != 1 or not hs:
            C.unk("retry", "several times in one matrix" if hs else "no iteration around the solve", where(e))
            return
        jobs.append((e, next(iter(ts)), hs[0]))
    if not jobs:
        C.unk("retry", "no timestep recognised")
    times = {t for e, t, h in jobs}
    shorts, lows, unknown = [], [], False
    for e, t, h in jobs:
        s, l = retry_at(C, V, e, t, h, par, times)
        lows += l
        if s is None:
            unknown = True
        else:
            shorts += s
    if not unknown and lows:
        C.expect(bool(shorts), "retry/shorter", "a step that did not converge is retried for the same time",
                 where(jobs[0][0]), "retries are shorter")
    if lows and shorts:
        ok = all(any((x - y).iszero() for s in shorts for y in s) for x in lows)
        C.expect(ok, "retry/minimum", "what is checked against TSTEP*RMIN is not the step: %s" % lows, where(jobs[0][0]),
                 "the step is checked")


def new_facts(E, src, k, tg):
    st = E.in_edges.get(tg, {}).get((src, k))
    if st is None:
        return {}
    old = E.state[src][1] if src in E.state else {}
    return {f: v for f, v in st[1].items() if old.get(f) is not v}


def below_limit(R, f, v, lim):
    """the counter terms known below the limit by fact f=v"""
    if f.op == "ge0":
        kk, dd = R.w.lin_parts(f.a[0])
        if lim in dd and (dd[lim] < 0 and v is False or dd[lim] > 0 and v is True):
            return [x for x in dd if x is not lim]
    return []


def again(V, e, h, cut):
    """is a solve in the loop of header h reachable from solve e without a cut edge?"""
    E, R = V.E, V.R
    sol = {x.node for x, M in R.solves}
    first = []
    for tg, k in E.out_edges.get(e.node, ()):
        if not cut(e.node, k, tg):
            first.append(tg)
    for x in first:
        if x in sol and in_loop(x, h):
            return x
    return V.walk(first, cut, lambda m: not in_loop(m, h), lambda m: m in sol and in_loop(m, h))


def advances(R, xs):
    """do the counters xs grow at every iteration?  None: no counter found"""
    w, E = R.w, R.E
    st = [p for x in xs for p in subterms(R.c(x)) if p.op == "phi"]
    adj, grows = {}, False
    while st:
        p = st.pop()
        if p in adj:
            continue
        adj[p] = []
        es = E.in_edges.get(phi_node(E, p), ())
        for e, o in E.w.phi_ops.get(p.id, {}).items():
            if e not in es:
                continue
            o = R.c(o)
            k, d = w.lin_parts(o)
            ph = [q for q in d if q.op == "phi"]
            if len(d) == 1 and len(ph) == 1 and d[ph[0]] == 1:
                if k > 0:
                    grows = True
                else:
                    adj[p].append(ph[0])
                st.append(ph[0])
    if not grows:
        return False if adj else None
    for c in sccs(list(adj), lambda p: [q for q in adj[p] if q in adj]):
        if len(c) > 1 or c[0] in adj[c[0]]:
            return False
    return True


def fresh_count(C, V, counters, e, h, cuts, wh):
    """the count starts anew for every timestep and for every retry (cuts: edges on which the step is made shorter)"""
    R = V.R
    w, E = R.w, R.E
    ws = {p for x in counters for p in web(R, x) if in_loop(phi_node(E, p), h)}
    resets = set()
    for p in ws:
        n = phi_node(E, p)
        es = E.in_edges.get(n, ())
        for ed, o in w.phi_ops.get(p.id, {}).items():
            if ed not in es:
                continue
            o = R.c(o)
            if any(q in ws for q in (w.lin_parts(o)[1] or {o: 1})):
                continue
            if w.cint(o) is not None:
                resets.add((ed[0], ed[1], n))
            C.expect(True if w.cint(o) in (0, 1) else False if w.cint(o) is not None or o.op == "phi" else None,
                     "retry/count starts", "the iteration count of a timestep starts at %s" % show(o)[:80], wh,
                     "starts at 0")
    sol = {x.node for x, M in R.solves}
    seen, st = set(), [(e.node, False)]
    hit = None
    while st and not hit:
        n, short = st.pop()
        for tg, k in E.out_edges.get(n, ()):
            if not in_loop(tg, h) or (n, k, tg) in resets:
                continue
            y = (tg, short or (n, k, tg) in cuts)
            if y in seen:
                continue
            seen.add(y)
            if tg in sol:
                hit = hit or y[1] and tg
            else:
                st.append(y)
    if cuts:
        C.expect(not hit, "retry/count restarts", "a step that is retried shorter goes on counting the iterations of the longer one",
                 wh, "a retried step counts from 0")


def web(R, x):
    """the joins a counter goes through"""
    out, st = set(), [p for p in subterms(R.c(x)) if p.op == "phi"]
    while st:
        p = st.pop()
        if p in out:
            continue
        out.add(p)
        es = R.E.in_edges.get(phi_node(R.E, p), ())
        for e, o in R.w.phi_ops.get(p.id, {}).items():
            if e in es:
                k, d = R.w.lin_parts(R.c(o))
                st += [q for q in (d or {R.c(o): 1}) if q.op == "phi"]
    return out


def retry_at(C, V, e, t, h, par, times):
    R, E = V.R, V.E
    w = R.w
    FT, TSTEP, RMIN, ITL4 = par
    tmin = atom(TSTEP) * atom(RMIN)
    counters, lows, facts_of = set(), [], set()

    def facts(a, k, b):
        return [(R.c(f), v) for f, v in new_facts(E, a, k, b).items()]

    def counted(a, k, b):
        r = False
        for f, v in facts(a, k, b):
            xs = below_limit(R, f, v, ITL4)
            if xs:
                counters.update(xs)
                if len(xs) == 1:
                    facts_of.add(xs[0])
                r = True
        return r

    def low(a, k, b):
        r = False
        for f, v in facts(a, k, b):
            if f.op in ("flt", "fle"):
                x, y = R.rat(f.a[0]), R.rat(f.a[1])
                if v is False and (y - tmin).iszero():
                    lows.append(x)
                    r = True
                elif v is True and (x - tmin).iszero():
                    lows.append(y)
                    r = True
        return r

    def cut(a, k, b):
        x, y = counted(a, k, b), low(a, k, b)
        return x or y
    hit = again(V, e, h, cut)
    C.expect(hit is None, "retry/limited", "the iteration can go on without an iteration limit and without the step "
             "being checked against TSTEP*RMIN", where(e), "another iteration is below ITL4 or after a step >= TSTEP*RMIN")
    if counters:
        C.expect(advances(R, counters), "retry/counter", "the iteration count does not advance at every iteration",
                 where(e), "count advances")
    # a retried step is shorter
    inl = lambda n: in_loop(n, h)
    ph = [p for p in subterms(t) if p.op == "phi" and inl(phi_node(E, p))]
    if t.op != "phi" and not ph:
        if counters and len(counters) == len(facts_of):
            fresh_count(C, V, counters, e, h, set(), where(e))
        return [], lows
    if t.op != "phi":
        C.unk("retry/shorter", "time solved for is %s" % show(t)[:100], where(e))
        return None, lows
    st, seen, short, cuts = [t], set(), [], set()
    while st:
        o = st.pop()
        if o in seen:
            continue
        seen.add(o)
        if o.op == "phi" and inl(phi_node(E, o)):
            es = E.in_edges.get(phi_node(E, o), ())
            for ed, y in E.w.phi_ops.get(o.id, {}).items():
                if ed in es:
                    y = R.c(y)
                    if ed[0] in E.state and inl(ed[0]) or y.op == "phi":
                        st.append(y)
                        if y.op != "phi" and y not in times:
                            cuts.add((ed[0], ed[1], phi_node(E, o)))
            continue
        if o in times:
            continue
        n = R.rat(o)
        l0 = n.subst(lambda z: const(0) if z == FT else None)
        good, old = False, None
        for t2 in times:
            d = R.rat(t2) - l0
            if d.iszero():
                continue
            q = (n - l0) / d
            k = q.const()
            if (q - atom(FT)).iszero() or k is not None and 0 < k < 1:
                good, old = True, d
        C.expect(good, "retry/shorter", "a step that did not converge is retried for time %s, which is not the step "
                 "shortened by FT" % show(o)[:160], where(e), "step shortened by FT")
        if good:
            short.append((n - l0, old))
    if counters and len(counters) == len(facts_of):
        fresh_count(C, V, counters, e, h, cuts, where(e))
    return short, lows


def dc_iterations(C, S):
    V = Verdict(C, S, "D", "dc_operating_point")
    R, E = V.R, V.E
    lim = R.c(cfg_terms(R)["ITL1"])
    n = 0
    for e, M in R.solves:
        n += 1
        hs = newton_headers(R, e.node)
        if not hs:
            C.bad("dc iterations", "a nonlinear circuit is solved without iterating", where(e))
            continue
        counters = set()

        def cut(a, k, b):
            r = False
            for f, v in new_facts(E, a, k, b).items():
                xs = below_limit(R, R.c(f), v, lim)
                if xs:
                    counters.update(xs)
                    r = True
            return r
        hit = again(V, e, hs[0], cut)
        C.expect(hit is None, "dc iterations", "the DC iteration is not bounded by the iteration limit", where(e),
                 "every further iteration is below ITL1")
        if counters:
            C.expect(advances(R, counters), "dc counter", "the DC iteration count does not advance at every iteration",
                     where(e), "count advances")
    if not n:
        C.unk("dc iterations", "no solve found")


# ------------------------------------------------------------------------- P13
def p13(C):
    S = Stamps(C.prog())
    if not anchors(C, S, ("C",)):
        return
    C.guard("start", cap_history, C, S)
    for kind in ("D", "C"):
        C.guard("gate/" + kind, dc_gate, C, S, kind)


def dc_gate(C, S, kind):
    V = Verdict(C, S, kind, "transient_analysis")
    R, E = V.R, V.E
    tsol = {e.node: e for e, M in R.solves if not R.is_dc(e)}
    dsol = {e.node: e for e, M in R.solves if R.is_dc(e)}
    none = lambda *a: False
    if not dsol:
        C.bad(kind + "/dc first", "a transient analysis does not solve a DC operating point", R.fn.name)
        return
    hit = V.walk(E.entry_nodes, none, lambda m: m in dsol, lambda m: m in tsol)
    C.expect(hit is None, kind + "/dc first", "time stepping can start without a DC solution", R.fn.name,
             "a DC solution precedes every timestep")
    hit = V.walk(list(dsol), lambda a, k, b: (a, k, b) in V.true_edges, lambda m: False, lambda m: m in tsol)
    C.expect(hit is None, kind + "/dc gate", "time stepping can start from a DC solution that did not converge", R.fn.name,
             "stepping needs a converged DC solution")
    # first row
    rows, odd = R.rows()
    n = 0
    for e, label, vec in rows:
        for l, v, s, tr in R.pair_ways(label, vec):
            if s and R.is_dc(s[0]):
                n += 1
                C.expect(f64c(l) == 0.0, kind + "/first row", "the DC solution is recorded at %s" % show(l)[:60], where(e),
                         "DC solution at t=0")
            elif s is None and (vec_zero(v)):
                C.bad(kind + "/first row", "an all-zero vector is recorded", where(e))
    if rows and not n:
        C.bad(kind + "/first row", "the DC solution is not the first row of the waveform", R.fn.name)
    # linearisation starts from the DC solution / last point
    if kind == "D":
        for e, M in R.solves:
            if R.is_dc(e):
                continue
            for x in shallow(E, M):
                if x.op == "app" and x.a[0].startswith("fn:") and any(E.prog.fns[i].name == x.a[0][3:] for i in S.lins):
                    pass


# ------------------------------------------------------------------------- P14
def p14(C):
    S = Stamps(C.prog())
    if not anchors(C, S, KINDS):
        return
    jobs = [(k, nm) for k in KINDS for nm in SC_entries(S)]
    C.par(lambda D, j: repeat(D, Stamps(D.prog()), *j), jobs)


def engine_sym(R):
    for i in range(1, R.fn.argc + 1):
        t = R.C.prog().types.get(R.C.prog().strip(R.fn.locals[i]), {})
        if t.get("k") == "adt" and t["n"].endswith("engine::Engine"):
            return "p%d" % i
    return "p1"


def stale(C, S, kind):
    """no system of equations contains what the engine held before the analysis"""
    for nm in SC_entries(S):
        R = TRun(C, S, kind, nm)
        me = engine_sym(R)
        for e, M in R.solves:
            x = [x for x in shallow(R.E, R.c(M)) if x.op == "sym" and x.a[0] == me]
            C.expect(not x, "%s/%s/earlier analysis" % (kind, nm), "a system of equations contains what an earlier "
                     "analysis left in the engine", where(e), "nothing from before the analysis")


def repeat(C, S, kind, nm):
    R = TRun(C, S, kind, nm)
    E = R.E
    me = engine_sym(R)

    def tainted(t):
        for x in shallow(E, R.c(t)):
            if x.op == "sym" and x.a[0] == me:
                return x
        return None
    for e, M in R.solves:
        ob = "%s/%s/matrix" % (kind, nm)
        C.expect(tainted(M) is None, ob, "a system of equations depends on what an earlier analysis left in the engine",
                 where(e), "no earlier state in the matrix")
    for e in E.all_events("write"):
        ob = "%s/%s/waveform" % (kind, nm)
        C.expect(tainted(e.data[1]) is None, ob, "the waveform depends on what an earlier analysis left in the engine",
                 where(e), "no earlier state in the waveform")
    for e in E.all_events("call"):
        if e.data[3].get("id") in S.ccs:
            for a in e.data[4]:
                if "f64" in str(getattr(a, "a", "")) or True:
                    if a.op == "sym" and a.a[0] == me:
                        continue
            ob = "%s/%s/verdict" % (kind, nm)
            vecs = [a for a in e.data[4] if a.op in ("phi", "app")]
            bad = [a for a in vecs if tainted(a) is not None]
            C.expect(not bad, ob, "the convergence verdict depends on an earlier analysis", where(e), "fresh iterates")
    # what the analysis leaves behind is its own
    for e in E.all_events("ret"):
        if e.node[0] is not E.root:
            continue
        cells = E.state[e.node][0]
        eng = cells.get(("A", int(me[1:])))
        if eng is None:
            continue
        t = adt(C.prog(), "Engine")
        for j, (fname, fty) in enumerate(t["v"][0]["f"]):
            v = R.w.fld(eng, 0, j)
            x = tainted(v)
            if x is not None and fty != "bool":
                C.bad("%s/%s/left behind" % (kind, nm), "state `%s` of the engine keeps parts of an earlier analysis: %s"
                      % (fname, show(R.c(v))[:100]), e.fn.name)
            else:
                C.ok("%s/%s/left behind" % (kind, nm), fname)
