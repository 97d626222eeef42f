"""Shared plumbing of the checks: obligations, reports, graph queries."""
import json
import os
import signal
import sys
import time

from program import Program
from engine import Engine, Oracle, Undecided, Budget
from terms import T, subterms, show


LIMIT = 420.0            # seconds of analysis before what is left is undecided
_T0 = time.time()


def _late(sig, frame):
    signal.setitimer(signal.ITIMER_REAL, 3.0)
    raise Budget("time budget exceeded")


def arm():
    signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, max(0.05, LIMIT - (time.time() - _T0)))


def disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


class Check:
    """Collects the obligations of one property."""

    def __init__(self, pid, dumps):
        self.pid = pid
        self.dumps = dumps
        self.obs = []           # dicts
        self.runs = []
        self.notes = []
        self.tier = "quick"
        self.t0 = time.time()
        self._prog = {}

    def prog(self, which="lib"):
        p = self._prog.get(which)
        if p is None:
            f = os.path.join(self.dumps, "tiny_spice-lib.json" if which == "lib" else "tiny_spice_rs-bin.json")
            p = self._prog[which] = Program(f)
        return p

    def sub(self):
        """a check of its own on the same program"""
        D = Check(self.pid, self.dumps)
        D._prog = self._prog
        D.tier = self.tier
        D.focus = getattr(self, "focus", "")
        return D

    def ok(self, ob, what="", where=""):
        self.obs.append({"obligation": ob, "status": "discharged", "what": what, "where": where})

    def bad(self, ob, what, where=""):
        self.obs.append({"obligation": ob, "status": "violated", "what": what, "where": where})

    def unk(self, ob, what, where=""):
        self.obs.append({"obligation": ob, "status": "undecided", "what": what, "where": where})

    def expect(self, cond, ob, what, where="", good=""):
        """cond True: discharged, False: violated, None: undecided"""
        if cond is None:
            self.unk(ob, what, where)
        elif cond:
            self.ok(ob, good, where)
        else:
            self.bad(ob, what, where)
        return cond

    def ran(self, E, note=""):
        self.runs.append({"entry": E.root.fn.name, "note": note, "steps": E.steps,
                          "blocks": len(E.in_edges), "terms": E.w.n,
                          "functions": sorted(E.visited_fns),
                          "unmodelled": sorted(E.unmodeled)})
        return E

    def par(self, f, items):
        """f(check, item) for every item, in forked workers"""
        items = list(items)
        self.prog()
        if len(items) < 2 or os.environ.get("SA_SERIAL"):
            for it in items:
                f(self, it)
            return
        import multiprocessing
        global _PAR
        _PAR = (self, f, items)
        disarm()
        with multiprocessing.get_context("fork").Pool(min(8, len(items))) as p:
            for obs, runs, notes in p.imap(_par_one, range(len(items))):
                self.obs += obs
                self.runs += runs
                self.notes += notes
        arm()

    def guard(self, ob, f, *a):
        """run f; an analysis limit makes the obligation undecided"""
        try:
            return f(*a)
        except Undecided as e:
            self.unk(ob, "%s: %s" % (type(e).__name__, e))
        except RecursionError as e:
            self.unk(ob, "recursion limit")
        except Exception as e:          # a shape the queries do not know
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unk(ob, "%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        return None


_PAR = None


def _par_one(i):
    C, f, items = _PAR
    D = Check(C.pid, C.dumps)
    D._prog = C._prog
    D.tier = C.tier
    D.focus = getattr(C, "focus", "")
    arm()
    try:
        D.guard("item %s" % (items[i],), f, D, items[i])
    except Budget as e:
        D.unk("item %s" % (items[i],), str(e))
    disarm()
    return D.obs, D.runs, D.notes


# ---------------------------------------------------------------- graph queries
def blk(b):
    return b[0] if isinstance(b, tuple) else b


def bb_at(node, ctx):
    """basic block of `node` seen from frame ctx (None when not below it)"""
    ch = node[0].chain
    if ctx.depth >= len(ch) or ch[ctx.depth] is not ctx:
        return None
    if ctx is node[0]:
        return node[1]
    return blk(ch[ctx.depth + 1].bb)


def in_loop(node, hdr):
    """is node inside the natural loop headed by node hdr (hdr included)?"""
    c, h = hdr[0], hdr[1]
    b = bb_at(node, c)
    body = c.fn.loops.get(h)
    return body is not None and b is not None and b in body


def loop_part(E, hdr):
    """the nodes an iteration that starts at header node hdr can get to"""
    memo = E.__dict__.setdefault("_looppart", {})
    if memo.get(None) != E.steps:
        memo.clear()
        memo[None] = E.steps
    r = memo.get(hdr)
    if r is None:
        r, st = {hdr}, [hdr]
        while st:
            for tg, k in E.out_edges.get(st.pop(), ()):
                if tg not in r and tg in E.state and in_loop(tg, hdr):
                    r.add(tg)
                    st.append(tg)
        memo[hdr] = r
    return r


def is_back(E, src, hdr):
    """does the edge from src to header node hdr end an iteration begun there?
    (of an unrolled loop it does not)"""
    return src in E.state and in_loop(src, hdr) and src in loop_part(E, hdr)


def is_header(node):
    return node[1] in node[0].fn.loops


def phi_node(E, phi):
    return E._nodes[phi.a[0][1]]


def phi_edges(E, phi):
    """(entry {edge: op}, back {edge: op}) of a phi at a loop header; for a
    phi at a plain join every edge is an entry edge"""
    n = phi_node(E, phi)
    ent, back = {}, {}
    for e, op in E.w.phi_ops.get(phi.id, {}).items():
        if is_header(n) and is_back(E, e[0], n):
            back[e] = op
        else:
            ent[e] = op
    return ent, back


def canonical(E, fs):
    """facts, together with what they say about canonical terms"""
    K = getattr(E, "canon", None)
    if K is None or not K.mp:
        return fs
    out = dict(fs)
    for f, v in fs.items():
        out.setdefault(K.c(f), v)
    return out


def edge_facts(E, target, edge):
    st = E.in_edges.get(target, {}).get(edge)
    return canonical(E, st[1]) if st else {}


def loop_exits(E, hdr):
    """[(src, k, target, facts)] edges leaving the loop of header node hdr"""
    out = []
    seen, st = {hdr}, [hdr]
    while st:
        n = st.pop()
        for (tg, k) in E.out_edges.get(n, ()):
            if in_loop(tg, hdr):
                if tg not in seen:
                    seen.add(tg)
                    st.append(tg)
            elif tg in E.in_edges and (n, k) in E.in_edges[tg]:
                out.append((n, k, tg, canonical(E, E.in_edges[tg][(n, k)][1])))
    return out


def reaches(E, start, goal, avoid=None):
    """can `goal(node)` be reached from node start (inclusive)?"""
    seen, st = {start}, [start]
    while st:
        n = st.pop()
        if goal(n):
            return True
        for (tg, k) in E.out_edges.get(n, ()):
            if tg not in seen and (avoid is None or not avoid(tg)):
                seen.add(tg)
                st.append(tg)
    return False


def phi_at(E, node):
    """phis placed at node"""
    i = E._nids.get(node)
    return [t for t in E.w.phi_term.values() if t.a[0][1] == i]


def name(fn):
    return fn.split("::")[-1] if fn else ""


class Canon:
    """Removes redundant phis: a set of phis whose only outside operand is one
    value stands for that value; phis of one node with equal operands are one."""

    def __init__(self, E):
        self.E, self.w = E, E.w
        self.mp = {}
        self.memo = {}
        live = {}
        for t in E.w.phi_term.values():
            ops = E.w.phi_ops.get(t.id)
            n = E._nodes[t.a[0][1]]
            if not ops or not E.in_edges.get(n):
                continue
            es = set(E.in_edges[n])
            o = [v for e, v in ops.items() if e in es]
            if o:
                live[t] = o
        self.live = live
        self.at = {}
        for t in live:
            self.at.setdefault(t.a[0], []).append(t)
        for _ in range(6):
            if not self.round():
                break
        E.canon = self

    def res(self, t):
        seen = 0
        while t in self.mp:
            t = self.mp[t]
            seen += 1
            if seen > 1000:
                break
        return t

    def round(self):
        changed = False
        phis = [p for p in self.live if p not in self.mp]
        ops = {p: [self.c(x) for x in self.live[p]] for p in phis}
        for scc in sccs(phis, lambda p: [x for x in ops[p] if x in ops]):
            self.process(set(scc), ops)
        # a join of x[i] where i has a join of its own is the element at that join
        for p in phis:
            if p in self.mp:
                continue
            q = self.congruent(p, ops[p])
            if q is not None:
                self.mp[p] = q
        self.together(phis)
        # structurally equal phis of one node
        groups = {}
        for p in phis:
            if p in self.mp:
                continue
            es = self.w.phi_ops[p.id]
            n = E_node(self.E, p)
            k = (p.a[0], tuple(sorted(((self.E.nid(e[0]), e[1], self.c0(v).id) for e, v in es.items()
                                       if e in self.E.in_edges.get(n, ())))))
            groups.setdefault(k, []).append(p)
        for k, ps in groups.items():
            ps.sort(key=lambda p: p.id)
            for q in ps[1:]:
                if self.res(ps[0]) is not q:
                    self.mp[q] = ps[0]
        new = len(self.mp)
        changed = new != getattr(self, "_n", -1)
        self._n = new
        self.memo = {}
        return changed

    def together(self, phis):
        """phis of one node that are equal whenever they were equal before"""
        w = self.w
        at = {}
        for p in phis:
            if p not in self.mp:
                at.setdefault(p.a[0], []).append(p)
        for ps in at.values():
            if len(ps) < 2:
                continue
            es = self.E.in_edges.get(E_node(self.E, ps[0]), ())
            known = {}
            for p in sorted(ps, key=lambda x: x.id):
                o = {e: self.c0(v) for e, v in w.phi_ops[p.id].items() if e in es}
                k = tuple(sorted((self.E.nid(e[0]), e[1], v.id) for e, v in o.items() if v.op == "C"))
                if not k:
                    continue
                for q, oq in known.get(k, ()):
                    if oq.keys() == o.keys() and all(w.subst(o[e], {p: q}) is oq[e] for e in o):
                        self.mp[p] = q
                        break
                else:
                    known.setdefault(k, []).append((p, o))

    def congruent(self, p, os):
        w = self.w
        if any(o.op != "sel" for o in os) or len({o.a[0] for o in os}) != 1 or len({o.a[1] for o in os}) < 2:
            return None
        base = os[0].a[0]
        pe = w.phi_ops[p.id]
        n = E_node(self.E, p)
        es = [e for e in self.E.in_edges[n] if e in pe]
        idx = {e: self.c(pe[e]).a[1] for e in es}
        for q in self.at.get(p.a[0], ()):
            if q is p or q in self.mp:
                continue
            qe = w.phi_ops.get(q.id, {})
            if all(e in qe and self.c(qe[e]) is idx[e] for e in es):
                t = w.sel(base, q)
                if p not in set(subterms(t)):
                    return t
        return None

    def process(self, scc, ops):
        if len(scc) == 1:
            p = next(iter(scc))
            o = {self.res(x) for x in ops[p]} - {p}
            if len(o) == 1:
                v = o.pop()
                if v.op != "undef":
                    self.mp[p] = v
            return
        outer = set()
        inner = set()
        for p in scc:
            out = False
            for x in ops[p]:
                x = self.res(x)
                if x not in scc:
                    outer.add(x)
                    out = True
            if not out:
                inner.add(p)
        if len(outer) == 1:
            v = outer.pop()
            if v.op != "undef":
                for p in scc:
                    self.mp[p] = v
            return
        if inner and len(outer) > 1:
            for sub in sccs(list(inner), lambda p: [x for x in ops[p] if x in inner]):
                self.process(set(sub), ops)

    def c0(self, t):
        return self.c(t)

    def c(self, t):
        """t with redundant phis removed"""
        if not self.mp:
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        x = t
        for _ in range(8):
            mp = {}
            for s in subterms(x):
                if s.op == "phi" and s in self.mp:
                    mp[s] = self.res(s)
            if not mp:
                break
            y = self.w.subst(x, mp)
            if y is x:
                break
            x = y
        self.memo[t] = x
        return x


def E_node(E, p):
    return E._nodes[p.a[0][1]]


def sccs(nodes, succ):
    """Tarjan, iterative; components in reverse topological order"""
    idx, low, on, st, out = {}, {}, set(), [], []
    n = 0
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = n
        n += 1
        st.append(root)
        on.add(root)
        while work:
            v, itr = work[-1]
            adv = False
            for x in itr:
                if x not in idx:
                    idx[x] = low[x] = n
                    n += 1
                    st.append(x)
                    on.add(x)
                    work.append((x, iter(succ(x))))
                    adv = True
                    break
                if x in on:
                    low[v] = min(low[v], idx[x])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    x = st.pop()
                    on.discard(x)
                    comp.append(x)
                    if x is v:
                        break
                out.append(comp)
    return out
