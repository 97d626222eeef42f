"""P19 .. P26: what a deck's cards do to the reader's state."""
from cards import *
from checks_io import *

KINDS_ = "IVRCDEGX"
DOTS = (".ends", ".subckt", ".control", ".lib", ".endl")
COMMANDS = ("op", "tran", "option", ".endc")


class Alt:
    """one way back to the next line"""

    def __init__(self, R, node, t, facts):
        self.R, self.node, self.t, self.facts = R, node, t, facts

    def __getattr__(self, k):
        if k in self.R.cols:
            return self.t[self.R.cols.index(k)]
        raise AttributeError(k)

    def local(self, n):
        return self.t[self.R.cols.index(n)]

    def changes(self):
        """parts of the state that differ from those before the line"""
        R = self.R
        out = [r for r in R.D.f if self.t[R.cols.index(r)] is not R.c(R.old(r))]
        out += [n for n in R.locals if self.t[R.cols.index(n)] is not R.c(R.before(n))]
        return out

    def __repr__(self):
        return "<alt %s ghost=%s told=%s>" % (self.changes(), show(self.ghost), show(self.told))


class Cards(CardRun):
    def __init__(self, C, D, toks, **k):
        CardRun.__init__(self, C, D, toks, **k)
        f, h = D.loop
        self.locals = []
        for n in sorted(self.O.chg):
            ty = C.prog().strip(f.locals[n])
            v = self.hv(n)
            if v is not None and not str(ty).startswith(("std::io::Lines", "std::iter", "core::iter", "std::str")) \
                    and v.op in ("sym", "C"):
                self.locals.append(n)
        self.cols = list(D.f) + self.locals + ["ghost", "told"]

    def hv(self, n):
        """value of local n at the header"""
        if n in self.O.over:
            return self.w.b(self.O.over[n])
        return self.w.mk("sym", "state%d" % n, self.D.loop[0].locals[n])

    def before(self, n):
        return self.hv(n)

    def tuples(self):
        """[(node, (parts of the state), facts)] at the ways back to the next line"""
        cid = self.loop_ctx()
        out = []
        for src, cells, facts in self.backs:
            t = [self.st(cells, r) for r in self.D.f]
            t += [self.c(cells[("L", cid, n)]) for n in self.locals]
            t += [self.c(cells[GHOST]), self.c(cells[TOLD])]
            out.append((src[0], t, {self.c(x): v for x, v in facts.items()}))
        return out

    def alts(self, cap=3000):
        out = []
        for node, t, facts in self.tuples():
            for tt, fs, tr in self.joins(tuple(t), facts, cap=cap):
                if self.possible(fs):
                    out.append(Alt(self, node, tt, fs))
        return out

    def closure(self, t, norm=lambda i, x: x, cap=20000):
        """all the values the tuple can have together: every join opened, those at
        loops too, a whole join at a time; norm(i, value) abstracts finished parts"""
        E, w = self.E, self.w
        out, seen = set(), set()
        st = [tuple(t)]
        while st:
            t = st.pop()
            t = tuple(x if not isinstance(x, T) or inner_phi(x) else norm(i, x) for i, x in enumerate(t))
            if t in seen:
                continue
            seen.add(t)
            if len(seen) > cap:
                raise Undecided("too many alternatives")
            ph = [inner_phi(x) for x in t if isinstance(x, T) and inner_phi(x)]
            if not ph:
                out.add(t)
                continue
            n = phi_node(E, max(ph, key=lambda p: self.rank.get(phi_node(E, p), -1)))
            for e in E.in_edges.get(n, ()):
                if e[0] not in E.state and e[0] is not None:
                    continue
                t2 = []
                for x in t:
                    p = inner_phi(x) if isinstance(x, T) else None
                    if p is not None and phi_node(E, p) == n:
                        o = w.phi_ops.get(p.id, {}).get(e)
                        if o is not None:
                            x = self.c(o) if x is p else self.c(w.subst(x, {p: o}))
                    t2.append(x)
                st.append(tuple(t2))
        return out

    def possible(self, fs):
        for x, v in fs.items():
            y = self.O.decide(x)
            if y is not None and y != v:
                return False
            if x.op == "C" and x.a[0] == "b" and x.a[1] != v:
                return False
        return True

    def loop_ctx(self):
        for c in self.E.ctxs.values():
            if c.fn is self.D.loop[0]:
                return c.id
        return None


UNKNOWN = Tok(nots=tuple(KINDS_) + (".", "*") + COMMANDS)
UNKDOT = Tok(pre=".", nots=DOTS + (".endc",))


def inner_phi(x):
    """the phi that x is, or is a part of"""
    while x.op in ("fld", "sel"):
        x = x.a[0]
    return x if x.op == "phi" else None


def control_state(C, D):
    """(local, value inside) of the state that says a control block is being read"""
    if hasattr(D, "_control"):
        return D._control
    R = Cards(C, D, [Tok(lit=".control")], note=".control")
    out = set()
    for a in R.alts():
        ch = [n for n in a.changes() if n in R.locals and a.local(n).op == "C"]
        if len(ch) == 1:
            out.add((ch[0], a.local(ch[0])))
    D._control = out.pop() if len(out) == 1 else None
    return D._control


def deck_of(C):
    D = Deck(C.prog())
    if D.why:
        C.unk("anchor", D.why)
        return None
    if control_state(C, D) is None:
        C.unk("control", "the state of a control block was not recognised")
        return None
    return D


def card_runs(C, D):
    """[(name, toks, inside a control block?)]"""
    out = []
    for k in KINDS_:
        for n in (1, 3, 4, 5, 6):
            out.append(("%s card of %d words" % (k, n), [Tok(pre=k)] + [Tok() for _ in range(n - 1)], False))
    for k in "VI":
        for s in ("SIN(", "PWL(", "PULSE(", "SIN", "DC"):
            out.append(("%s card with %s" % (k, s), [Tok(pre=k), Tok(), Tok(), Tok(pre=s), Tok()], False))
    out.append(("X card with parameter", [Tok(pre="X"), Tok(assign=False), Tok(assign=False), Tok(assign=True)], False))
    for k, n in ((".ends", 1), (".ends", 2), (".control", 1), (".lib", 3), (".lib", 2), (".endl", 1)):
        out.append(("%s of %d words" % (k, n), [Tok(lit=k)] + [Tok() for _ in range(n - 1)], False))
    out.append((".subckt", [Tok(lit=".subckt"), Tok(), Tok(assign=False), Tok(assign=False), Tok(assign=True)], False))
    out.append(("unknown card", [UNKNOWN, Tok(), Tok(), Tok()], False))
    out.append(("unknown card of one word", [UNKNOWN], False))
    out.append(("unknown directive", [UNKDOT, Tok()], False))
    for k, n in (("op", 1), ("tran", 1), ("tran", 2), ("tran", 3), ("tran", 4), (".endc", 1)):
        out.append(("%s of %d words" % (k, n), [Tok(lit=k)] + [Tok() for _ in range(n - 1)], True))
    for n in ("ABSTOL", "RELTOL", "RMAX"):
        out.append(("option %s" % n, [Tok(lit="option"), Tok(lit=n), Tok(lit="="), Tok()], True))
    out.append(("option without =", [Tok(lit="option"), Tok(), Tok(nots=("=",)), Tok()], True))
    out.append(("option alone", [Tok(lit="option")], True))
    out.append(("unknown option", [Tok(lit="option"), Tok(nots=("ABSTOL", "RELTOL", "RMAX")), Tok(lit="="), Tok()], True))
    out.append(("unknown command", [UNKNOWN, Tok()], True))
    return out


def run_card(C, D, name, toks, ctl):
    n, v = D._control
    return Cards(C, D, toks, note=name, over={n: v.a[1] if ctl else not v.a[1]})


# ------------------------------------------------------------------------- P19
def p19(C):
    D = deck_of(C)
    if D is None:
        return

    def one(C, it):
        name, toks, ctl = it
        C.guard(name, card_heard, C, D, name, toks, ctl)
    C.par(one, card_runs(C, D))


def card_heard(C, D, name, toks, ctl):
    R = run_card(C, D, name, toks, ctl)
    ts = R.tuples()
    if not ts:
        C.ok(name, "always stops the program", D.loop[0].name)
    parts = len(D.f) + len(R.locals)
    old = [R.c(R.old(r)) for r in D.f] + [R.c(R.before(n)) for n in R.locals]
    yes, no = R.w.b(True), R.w.b(False)
    for node, t, facts in ts:
        for a in R.closure(t[:parts] + t[-1:], lambda i, x: "told" if i == parts and x is yes else
                           "quiet" if i == parts and x is no else
                           "unknown" if i == parts else "same" if x is old[i] else "changed"):
            if "changed" in a or a[-1] == "told":
                C.ok(name, "changes the circuit, the configuration or the reader's state, or a message", where_node(R.E, node))
            else:
                C.expect(False if a[-1] == "quiet" else None, name,
                         "%s can be skipped without a message%s" % ("a " + name, cond(R, facts)), where_node(R.E, node))
    if not ctl and (name[0] in KINDS_ or name.startswith("unknown")):
        counted_card(C, R, name)


def grown(R, t):
    """(elements, instances) of the current circuit, as terms"""
    w = R.w
    ck = R.c(w.sel(t[R.cols.index("ckts")], R.c(R.old("cur"))))
    cf = R.D.cf
    return R.c(w.fld(ck, 0, cf["elements"])), R.c(w.fld(ck, 0, cf["instances"]))


def grown_norm(R):
    w = R.w
    ck = R.c(w.sel(R.c(R.old("ckts")), R.c(R.old("cur"))))
    olds = [R.c(w.fld(ck, 0, R.D.cf[n])) for n in ("elements", "instances")]

    def norm(i, x):
        if i > 1:
            return x
        if x is olds[i]:
            return "same"
        if x.op == "push" and (x.a[0] is olds[i] or inner_phi(x.a[0]) and R.closure(
                (x.a[0],), lambda _, y: "same" if y is olds[i] else "odd") == {("same",)}):
            return "one more"
        return "odd"
    return norm


def counted_card(C, R, name):
    """an element card adds one element or instance, or the deck is bad"""
    w = R.w
    yes = w.b(True)
    fi = R.cols.index("flag")
    norm = grown_norm(R)
    for node, t, facts in R.tuples():
        for e, i, fl in R.closure(grown(R, t) + (t[fi],), norm):
            wh = where_node(R.E, node)
            if fl is yes:
                C.ok(name + "/added", "the deck is bad", wh)
            elif "odd" in (e, i):
                C.unk(name + "/added", "elements %s, instances %s" % (e, i), wh)
            else:
                C.expect((e, i).count("one more") == 1, name + "/added", "a %s can leave the circuit without exactly one "
                         "element more, and the deck is not marked as bad%s" % (name, cond(R, facts)), wh,
                         "one more element or instance")


def cond(R, facts):
    fs = [("%s" if v else "not %s") % show(x)[:60] for x, v in facts.items()
          if any(s in R.O.syms for s in subterms(x))]
    return " when " + ", ".join(fs[:3]) if fs else ""


# ------------------------------------------------------------------------- P20
def p20(C):
    D = deck_of(C)
    if D is None:
        return

    def one(C, it):
        name, toks, ctl = it
        C.guard(name, flagged, C, D, name, toks, ctl)
    C.par(one, card_runs(C, D))
    C.guard("result", returned, C, D)
    C.guard("main", main_, C)


def flagged(C, D, name, toks, ctl):
    R = run_card(C, D, name, toks, ctl)
    w = R.w
    old = R.c(R.old("flag"))
    yes, no = w.b(True), w.b(False)
    fi, gi = R.cols.index("flag"), R.cols.index("ghost")
    ki = R.cols.index("ckts")

    def read_in(i, x):
        return ("nested" if from_nested(D, x) else "own") if i == 2 else x
    for node, t, facts in R.tuples():
        for g, fl, ck in R.closure((t[gi], t[fi], t[ki]), read_in):
            wh = where_node(R.E, node)
            if ck == "nested" and fl in (old, no):
                C.bad(name + "/kept", "the errors of a file that is read in are forgotten%s" % cond(R, facts), wh)
                continue
            if g is yes:
                C.expect(True if fl is yes else False if fl in (no, old) else None, name + "/error",
                         "an error is printed but the deck is not marked as bad%s" % cond(R, facts), wh,
                         "an error marks the deck")
            elif g is not no:
                C.unk(name + "/error", "%s" % show(g), wh)
            C.expect(True if fl in (yes, old) or nested(D, fl) else None if old in set(subterms(fl)) else False,
                     name + "/kept",
                     "an earlier error is forgotten", wh, "earlier errors are kept")


def from_nested(D, x):
    """is x (or what it was made from) the work of a nested read?"""
    while True:
        if nested_part(D, x):
            return True
        if x.op in ("store", "push", "fld", "sel") and isinstance(x.a[0], T):
            x = x.a[0]
        else:
            return False


def nested_part(D, x):
    return x.op == "app" and x.a[0] == "mut0:fn:" + D.loop[0].name


def nested(D, x):
    """the flag as a nested read left it (which is this same function)"""
    if x.op == "app" and x.a[0] == "fn:" + D.loop[0].name:
        return True
    return x.op == "fld" and x.a[2] == D.f["flag"] and x.a[0].op == "app" and \
        x.a[0].a[0] == "mut0:fn:" + D.loop[0].name


def returned(C, D):
    R = Cards(C, D, [Tok()], note="end of the deck")
    E, w = R.E, R.w
    n = 0
    for v, fs, node in E.returns():
        cells = E.finals[node]
        rd = cells[("A", 1)]
        flag = R.c(w.fld(rd, 0, D.f["flag"]))
        t = (R.c(v), flag, R.c(cells.get(GHOST, w.b(False))))
        old = R.c(R.old("flag"))
        for r, fl, g in R.closure(t):
            n += 1
            C.expect(True if r is fl else False if r.op in ("C", "sym") else None,
                     "result", "reading a deck returns %s, not whether there were errors" % show(r)[:60],
                     where_node(E, node), "whether there were errors")
            if g is w.b(True):
                C.expect(True if fl is w.b(True) else False if fl is old else None, "result/error",
                         "an error at the end of a deck does not mark it as bad", where_node(E, node), "marked")
    if not n:
        C.unk("result", "no return")
    # a nested read starts with the errors there were
    f, h = D.loop
    R = Cards(C, D, [Tok()], note="nested read", root=f)
    w = R.w
    p = [i for i in range(1, f.argc + 1) if C.prog().strip(f.locals[i]) == D.ty]
    if len(p) != 1 or not R.O.heads:
        C.unk("nested", "the state of the reader at the start of a file was not recognised")
        return
    old = R.c(w.fld(w.mk("sym", "p%d" % p[0], D.ty), 0, D.f["flag"]))
    for src, cells, facts in R.O.heads:
        x = R.c(w.fld(cells[("A", p[0])], 0, D.f["flag"]))
        for (fl,) in R.closure((x,)):
            C.expect(True if fl in (old, w.b(True)) else None if old in set(subterms(fl)) else False, "nested",
                     "errors found before a file is read are forgotten when it is opened", where_node(R.E, src[0]),
                     "earlier errors are kept")


def main_(C):
    """the program: no analysis of a deck with errors, and a bad exit status"""
    prog = C.prog("bin")
    f = [x for x in prog.fns.values() if x.name.endswith("main") and x.argc == 0]
    if len(f) != 1:
        C.unk("main", "%d main functions" % len(f))
        return
    f = f[0]
    E = Engine(prog)
    E.run(f)
    C.ran(E, "the program")
    K = Canon(E)
    w = E.w
    calls = lambda s: [e for e in E.all_events("call") if str(e.data[0]).endswith("tiny_spice::" + s)]
    reads, gos = calls("spice::Reader::read"), calls("engine::Engine::go")
    if not reads or not gos:
        C.unk("main", "the calls of Reader::read and Engine::go were not found", f.name)
        return

    def bad_deck(facts):
        """was the deck found to have errors? 1 yes, -1 no, 0 not decided"""
        for x, v in facts.items():
            x = K.c(x)
            if x.op == "app" and str(x.a[0]).endswith("spice::Reader::read"):
                return 1 if v else -1
        return 0

    def no_result(facts):
        for x, v in facts.items():
            for s in subterms(K.c(x)):
                if s.op == "discr" and s.a[0].op == "app" and str(s.a[0].a[0]).endswith("engine::Engine::go"):
                    d = w.mk("discr", s.a[0])
                    o, b = E.truth(w.eq0(d), facts), E.truth(w.eq0(w.isub(d, w.i(1))), facts)
                    if o is True or b is False:
                        return 1
                    if o is False or b is True:
                        return -1
        return 0
    for e in gos:
        k = bad_deck(e.facts)
        seen = reaches(E, E.entry_nodes[0], lambda n: n == e.node, lambda n: n == reads[0].node)
        C.expect(k == -1 if not seen else False, "main/no analysis of a bad deck",
                 "an analysis can be run although the deck has errors", where(e), "errors end the program first")
    for e in E.all_events("exit"):
        k = K.c(e.data[0])
        code = w.cint(k)
        if bad_deck(e.facts) == 1 or no_result(e.facts) == 1:
            C.expect(None if code is None else code % 256 != 0, "main/status", "the program reports success (status %s) "
                     "although nothing was simulated" % show(k), where(e), "a bad status")
    for v, fs, n in E.returns():
        if v is not w.unit:
            C.unk("main/status", "main returns %s" % show(v)[:80], where_node(E, n))
            continue
        C.expect(bad_deck(fs) == -1 and no_result(fs) == -1, "main/status", "the program ends with a good status without "
                 "having looked at the errors of the deck and at the result", where_node(E, n), "both looked at")
    for e in gos:
        ck, cf = K.c(e.data[4][1]), K.c(e.data[4][2])
        src = lambda x, s: x.op == "app" and str(x.a[0]).endswith(s) and \
            any(y.op == "app" and str(y.a[0]).startswith("mut0:") and str(y.a[0]).endswith("spice::Reader::read") for y in subterms(x))
        for x, s, what in ((ck, "spice::Reader::get_expanded_circuit", "circuit"), (cf, "spice::Reader::configuration", "configuration")):
            C.expect(True if src(x, s) else None, "main/" + what, "the %s analysed is %s" % (what, show(x)[:80]), where(e),
                     "the %s of the deck that was read" % what)
