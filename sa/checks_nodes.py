"""P25: which node a name denotes."""
from checks_cards import *
from checks_size import writers, call_map

GROUND = ("gnd", "GND", "0")
FIELDS = ("nodes", "nid_next")


class NameOracle(Oracle):
    """the name is `pre.`K or K; K: one of the names of ground, or None for any
    text that is none of them and has no dot"""

    def __init__(self, dotted, k):
        self.dotted, self.k = dotted, k
        self.E = None

    def name(self, w):
        if not self.dotted and self.k:
            return w.s(self.k)
        return w.mk("sym", "name", "&str")

    def last(self):
        w = self.E.w
        if self.k:
            return w.s(self.k)
        return w.mk("sym", "local" if self.dotted else "name", "&str")

    def isname(self, x):
        return x.op == "sym" and x.a[0] == "name"

    def dot(self, x):
        return x.op == "C" and (x.a[1] == "." or x.a[1] == 46)

    def rewrite(self, op, a):
        if self.E is None or op not in ("app",):
            return None
        w = self.E.w
        if len(a) == 3 and isinstance(a[1], T) and self.isname(a[1]) and isinstance(a[2], T) and self.dot(a[2]):
            pre, cut = w.mk("sym", "scope", "&str"), w.mk("sym", "lastdot", "usize")
            if a[0] == "rsplit_once":
                if not self.dotted:
                    return w.agg(OPT, 0, [])
                return w.agg(OPT, 1, [w.agg("tuple", 0, [pre, self.last()])])
            if a[0] == "rsplit":
                return w.arr([self.last()] + ([pre] if self.dotted else []))
            if a[0] == "split":
                return w.arr(([pre] if self.dotted else []) + [self.last()])
            if a[0] == "rfind":
                return w.agg(OPT, 1, [cut]) if self.dotted else w.agg(OPT, 0, [])
        if a[0] == "substr" and self.isname(a[1]) and self.dotted:
            k, d = w.lin_parts(a[2])
            if k == 1 and len(d) == 1 and next(iter(d)).op == "sym" and next(iter(d)).a[0] == "lastdot" and a[3] is w.len(a[1]):
                return self.last()
        if a[0] == "strip_prefix" and not self.dotted:
            return None
        return None

    def decide(self, t):
        w = self.E.w
        if t.op == "eq":
            for x, y in (t.a, t.a[::-1]):
                if y.op == "C" and y.a[0] == "s" and x.op == "sym":
                    s = y.a[1]
                    if x.a[0] == "name" and self.dotted and "." not in s:
                        return False
                    if x.a[0] in ("local", "name") and ("." in s and not self.dotted or s in GROUND and not self.k):
                        return False
        if t.op == "app" and t.a[0] in ("ends_with", "contains") and isinstance(t.a[1], T) and self.isname(t.a[1]) and t.a[2].op == "C":
            s = t.a[2].a[1]
            s = s if isinstance(s, str) else chr(s)
            if t.a[0] == "contains":
                return self.dotted if s == "." else None
            if s.startswith(".") and s.count(".") == 1:
                if not self.dotted:
                    return False
                return "." + self.k == s if self.k else False if s[1:] in GROUND else None
            if self.k and self.dotted and "." not in s and self.k.endswith(s):
                return True
        return None


OPT = "std::option::Option"


class NameRun(FRun):
    def __init__(self, C, fn, dotted, k):
        prog = C.prog()
        self.C, self.fn = C, fn
        self.O = O = NameOracle(dotted, k)
        self.E = E = Engine(prog, O, limit=20000)
        O.E = E
        self.w = w = E.w
        p = [i for i in range(1, fn.argc + 1) if prog.strip(fn.locals[i]) in ("str", "std::string::String")]
        self.known = len(p) == 1
        self.nm = O.name(w)
        E.run(fn, args={p[0]: self.nm} if self.known else None)
        C.ran(E, "%s%s" % ("scoped " if dotted else "", k or "any other name"))
        self.K = Canon(E)
        self.rank = rpo(E)
        self.names = set()
        self.ck = [i for i in range(1, fn.argc + 1) if is_circuit(prog, fn.locals[i])]
        self.cf = fields(prog, "Circuit")

    def old(self, f):
        i = self.ck[0]
        return self.c(self.w.fld(self.w.mk("sym", "p%d" % i, self.ty(i)), 0, self.cf[f]))

    def ty(self, i):
        ty = self.fn.locals[i]
        t = self.C.prog().types.get(ty, {})
        return t["e"] if t.get("k") == "ref" and t.get("mut") else ty

    def ends(self):
        """[(result, nodes after, next number after, facts, node)]"""
        out = []
        for v, fs, n in self.E.returns():
            fin = self.E.finals[n].get(("A", self.ck[0]))
            t = (v,) + (tuple(self.w.fld(fin, 0, self.cf[f]) for f in FIELDS) if fin is not None else tuple(self.old(f) for f in FIELDS))
            for tt, f, tr in self.joins(t, dict(fs)):
                out.append(tt + (f, n))
        return out

    def truth(self, x, fs):
        return self.E.truth(self.c(x), {self.c(f): v for f, v in fs.items()})


def is_circuit(prog, ty):
    return prog.types.get(prog.strip(ty), {}).get("n", "").endswith("circuit::Circuit")


CASES = [(d, k) for d in (False, True) for k in GROUND + (None,)]


def say_name(d, k):
    return ("<scope>." if d else "") + (k or "<any other>")


def p25(C):
    prog = C.prog()
    cf = fields(prog, "Circuit")
    fs = {n: prog.fn("Circuit::" + n) for n in ("get_node_id", "add_node", "add_node_alias", "new")}
    if any(n not in cf for n in FIELDS) or fs["add_node"] is None:
        C.unk("anchor", "the node table of circuits was not recognised")
        return
    items = []
    for n, one in (("get_node_id", looked_up), ("add_node", mentioned), ("add_node_alias", alias)):
        if fs[n] is not None:
            items += [(n + " " + say_name(d, k), one, fs[n], d, k) for d, k in CASES]
    items.append(("tables", tables, fs))
    D = deck_of(C)
    if D is not None:
        items += names(C, D)

    def one(C, it):
        C.guard(it[0], it[1], C, it[0], *it[2:])
    C.par(one, items)


def looked_up(C, ob, fn, d, k):
    R = NameRun(C, fn, d, k)
    w = R.w
    if not R.known or not R.ck:
        C.unk(ob, "arguments not recognised", fn.name)
        return
    has = w.app("hmhas", R.old("nodes"), R.nm)
    val = w.app("hmval", R.old("nodes"), R.nm)
    n = 0
    for v, nodes, nxt, fs, node in R.ends():
        n += 1
        wh = where_node(R.E, node)
        if v.op != "agg":
            C.unk(ob, "result %s" % show(v)[:80], wh)
            continue
        got = v.a[2] if v.a[1] == 1 else None
        if k:
            C.expect(got is w.i(0) or (False if got is None or got.op in ("C",) or got is val else None), ob,
                     "%s is looked up as %s, not as ground" % (say_name(d, k), show(v)[:60]), wh, "node 0")
        else:
            h = R.truth(has, fs)
            if got is None:
                C.expect(h is False or (False if h is True else None), ob, "a name that has been used is not found", wh, "found when used")
            else:
                C.expect(True if got is val else False if got.op == "C" else None, ob,
                         "a name that is not ground's is looked up as node %s" % show(got)[:60], wh, "its own node")
    if not n:
        C.unk(ob, "no result", fn.name)


def mentioned(C, ob, fn, d, k):
    """the first mention and later ones"""
    R = NameRun(C, fn, d, k)
    w = R.w
    if not R.known or not R.ck:
        C.unk(ob, "arguments not recognised", fn.name)
        return
    N, X = R.old("nodes"), R.old("nid_next")
    has, val = w.app("hmhas", N, R.nm), w.app("hmval", N, R.nm)
    n = 0
    for v, nodes, nxt, fs, node in R.ends():
        n += 1
        wh = where_node(R.E, node)
        if k:
            C.expect(True if v is w.i(0) else False if v in (val, X) or v.op == "C" else None, ob,
                     "%s is node %s, not ground" % (say_name(d, k), show(v)[:60]), wh, "node 0")
            same = nodes is N or nodes.op == "app" and nodes.a[0] == "hm_ins" and nodes.a[1] is N and nodes.a[2] is R.nm and nodes.a[3] is w.i(0)
            C.expect(True if same else None, ob + "/table", "the node table becomes %s" % show(nodes)[:80], wh, "unchanged")
            C.expect(True if nxt is X else None if w.cint(w.isub(nxt, X)) is None else w.cint(w.isub(nxt, X)) > 0 or False, ob + "/next",
                     "the next free number becomes %s" % show(nxt)[:60], wh, "unchanged")
            continue
        h = R.truth(has, fs)
        if v is val or h is True:
            C.expect(True if v is val and h is True else False if v is X or v.op == "C" else None, ob + "/again",
                     "a name used before is given node %s" % show(v)[:60], wh, "the node it had")
            C.expect(True if nodes is N or ins(nodes, N, R.nm, val) else False if ins(nodes, N, R.nm) else None, ob + "/again/table",
                     "a later mention changes the node table to %s" % show(nodes)[:80], wh, "unchanged")
            step(C, R, ob + "/again/next", nxt, X, 0, wh)
        else:
            C.expect(True if h is False else False if v is X and h is None and not about(fs, N) else None, ob + "/new",
                     "a name is given node %s without looking whether it has one" % show(v)[:60], wh, "only for a name not used before")
            C.expect(True if v is X else False if R.w.cint(v) is not None or R.w.cint(w.isub(v, X)) is not None or other(R, v) else None, ob + "/new/number",
                     "a new name gets node %s, not the next free number" % show(v)[:60], wh, "the next free number")
            C.expect(True if ins(nodes, N, R.nm, v) else False if nodes is N or ins(nodes, N, R.nm) or ins(nodes, N) else None, ob + "/new/table",
                     "the node of a new name is recorded as %s" % show(nodes)[:100], wh, "recorded under the name")
            step(C, R, ob + "/new/next", nxt, X, 1, wh)
    if not n:
        C.unk(ob, "no result", fn.name)


def about(fs, N):
    return any(s is N for f in fs for s in subterms(f))


def ins(x, N, key=None, val=None):
    return x.op == "app" and x.a[0] == "hm_ins" and x.a[1] is N and (key is None or x.a[2] is key) and (val is None or x.a[3] is val)


def other(R, x):
    """x is reckoned from the number of known names, which aliases and ground do not keep equal to the next free number"""
    N = R.old("nodes")
    return any(s.op == "app" and s.a[0] == "hmlen" and s.a[1] is N for s in subterms(x))


def step(C, R, ob, nxt, X, want, wh):
    i = R.w.cint(R.w.isub(nxt, X))
    C.expect((False if other(R, nxt) else None) if i is None else i == want, ob, "the next free node number %s" % (
        "becomes " + show(nxt)[:60] if i is None else "moves on by %d" % i), wh, "moves on by %d" % want)


def alias(C, ob, fn, d, k):
    R = NameRun(C, fn, d, k)
    w = R.w
    p = [i for i in range(1, fn.argc + 1) if fn.locals[i] == "usize"]
    if not R.known or not R.ck or len(p) != 1:
        C.unk(ob, "arguments not recognised", fn.name)
        return
    nid = R.c(R.p(p[0]))
    N, X = R.old("nodes"), R.old("nid_next")
    has, val = w.app("hmhas", N, R.nm), w.app("hmval", N, R.nm)
    same = R.c(w.eq0(w.isub(w.i(0) if k else val, nid)))
    safe = lambda n, j, tg: not k and R.truth(has, edge_facts(R.E, tg, (n, j))) is False or \
        R.truth(same, edge_facts(R.E, tg, (n, j))) is True
    n = 0
    for v, nodes, nxt, fs, node in R.ends():
        n += 1
        wh = where_node(R.E, node)
        h = True if k else R.truth(has, fs)
        if R.walk(R.E.entry_nodes, safe, lambda m: m == node) is not None:
            dull = not any(s in (N, nid) for fs_ in asked(R) for f in fs_ for s in subterms(f))
            differ = {n for n in R.E.in_edges for c, fs in R.E.in_edges[n].values()
                      if R.truth(same, {R.c(f): v for f, v in fs.items()}) is False}
            wrong = differ and R.walk(differ, safe, lambda m: m == node) is not None
            C.expect(False if dull or wrong else None, ob + "/conflict",
                     "a name that denotes a node can be made an alias of another node", wh)
        else:
            C.ok(ob + "/conflict", "the name is new, or denotes that node already", wh)
        good = ins(nodes, N, R.nm, nid) or nodes is N and h is True or k and ins(nodes, N, R.nm)
        C.expect(True if good else False if nodes is N or ins(nodes, N) else None, ob + "/table",
                 "the alias is recorded as %s" % show(nodes)[:100], wh, "recorded as the node")
        step(C, R, ob + "/next", nxt, X, 0, wh)
    if not n:
        C.ok(ob, "always stops the program", fn.name)


def asked(R):
    """the facts on every edge"""
    return [{R.c(f): v for f, v in fs.items()} for n in R.E.in_edges for c, fs in R.E.in_edges[n].values()]


# --------------------------------------------------------------- who else can
def tables(C, ob, fs):
    """nobody else changes a node table"""
    prog = C.prog()
    cf = fields(prog, "Circuit")
    judged = {f for f in fs.values() if f is not None}
    callers = call_map(prog)
    todo = set(writers(prog, "Circuit", FIELDS))
    helpers = set()
    grew = True
    while grew:                 # called only by what is judged
        grew = False
        for f in todo - judged - helpers:
            cs = callers.get(f.id, [])
            if cs and all(g in judged or g in helpers for g in cs):
                helpers.add(f)
                grew = True
    for f in sorted(todo, key=lambda f: f.name):
        if f in judged and f is not fs["new"]:
            continue
        if f in helpers:
            C.ok("tables/" + name(f.name), "only used by what is judged", f.name)
            continue
        if any(f.name.startswith(g.name + "::") for g in judged | helpers):
            C.ok("tables/" + name(f.name), "part of what is judged", f.name)
            continue
        if f.name.endswith("default") and not callers.get(f.id):
            C.ok("tables/" + name(f.name), "never called", f.name)
            continue
        C.guard("tables/" + name(f.name), table_of, C, "tables/" + name(f.name), f, cf)
    if not any(f is fs["new"] for f in todo):
        C.unk("tables/new", "no constructor of circuits")


def table_of(C, ob, f, cf):
    prog = C.prog()
    R = FRun(C, f)
    E, w = R.E, R.w
    cp = [i for i in range(1, f.argc + 1) if is_circuit(prog, f.locals[i])]
    seen = 0
    for v, fs, node in E.returns():
        wh = where_node(E, node)
        outs = []
        if is_circuit(prog, f.locals[0]) and not str(f.locals[0]).startswith("&"):
            outs.append(v)
        for i in cp:
            x = E.finals[node].get(("A", i))
            if x is not None:
                outs.append(x)
        for y in outs:
            for (x, z), facts, tr in R.joins((w.fld(y, 0, cf["nodes"]), w.fld(y, 0, cf["nid_next"])), dict(fs)):
                seen += 1
                judge_table(C, R, ob, x, z, cf, wh)
    if not seen:
        C.unk(ob, "what it does with the node table was not recognised", f.name)


def judge_table(C, R, ob, x, z, cf, wh):
    w = R.w
    if x.op == "fld" and x.a[2] == cf["nodes"]:
        y = R.c(w.fld(x.a[0], 0, cf["nid_next"]))
        C.expect(True if z is y else None if w.cint(w.isub(z, y)) is None else w.cint(w.isub(z, y)) >= 0, ob,
                 "the node table is that of %s, the next free number %s" % (show(x.a[0])[:40], show(z)[:40]), wh, "a copy")
        return
    if x.op == "app" and x.a[0] == "hm_new":
        C.expect(True if (w.cint(z) or 0) >= 1 else False if w.cint(z) == 0 else None, ob,
                 "the first free node number of a new circuit is %s, ground's" % show(z)[:40], wh, "above ground's")
        return
    top, y = 0, x
    while y.op == "app" and y.a[0] == "hm_ins":
        k, v = y.a[2], w.cint(y.a[3])
        if k.op != "C" or v is None:
            break
        top = max(top, v)
        C.expect(v == 0 if k.a[1] in GROUND else None, ob, "%r is node %s in a new circuit" % (k.a[1], v), wh, "ground is node 0")
        y = y.a[1]
    if y.op == "app" and y.a[0] == "hm_new":
        i = w.cint(z)
        C.expect(None if i is None else i == top + 1 or (False if i <= top else None), ob + "/next",
                 "the first free node number of a new circuit is %s" % show(z)[:40], wh, "above those given")
        return
    C.unk(ob, "the node table becomes %s" % show(x)[:100], wh)


# ---------------------------------------------------------- names on the cards
BADCH = [chr(c) for c in range(33, 127) if not (chr(c).isalnum() or chr(c) == "_")] + ["\u00e9", "\u0663", "\u00df"]
SITES = {"R": [1, 2], "C": [1, 2], "D": [1, 2], "V": [1, 2], "I": [1, 2], "E": [1, 2, 3, 4], "G": [1, 2, 3, 4], "X": [1, 2, 3],
         ".subckt": [2, 3]}
LEN = {"R": 4, "C": 4, "D": 3, "V": 4, "I": 4, "E": 6, "G": 6, "X": 5, ".subckt": 4}


def card_with(k, at, text):
    """a card of kind k whose node at position `at` is spelt `text`"""
    toks = [Tok(lit=k) if k[0] == "." else Tok(pre=k)]
    for i in range(1, LEN[k]):
        s = i in SITES[k] or k == "X"
        toks.append(Tok(lit=text) if i == at else Tok(lit="n%d" % i) if s or k == ".subckt" else Tok())
    if k in "VI":
        toks[3] = Tok(lit="1")
    return toks


def names(C, D):
    out = []
    for ch in BADCH:
        out.append(("bad name a%s1" % ch, bad_name, D, "R", 2 if ord(ch) % 2 else 1, "a%s1" % ch))
    for ch in "!.-\u00e9":
        out.append(("bad name %sa" % ch, bad_name, D, "R", 1, ch + "a"))
        out.append(("bad name a%s" % ch, bad_name, D, "R", 2, "a" + ch))
        out.append(("bad name %s" % ch, bad_name, D, "R", 1, ch))
    for k in SITES:
        for i in SITES[k]:
            out.append(("%s card, node %d" % (k, i), bad_name, D, k, i, "a!1"))
    for t in ("_", "aZ_09", "Az9", "0", "9n", "gnd", "GND", "m", "M5"):
        for k in (("R", "X", "V") if t == "aZ_09" else ("R",)):
            out.append(("%s card, name %s" % (k, t), good_name, D, k, 1, t))
    return out


def vague(R):
    """a choice that only depends on constants, but is not decided"""
    for fs in asked(R):
        for f in fs:
            if R.E.truth(f, {}) is None and all(x.op not in ("sym", "phi", "site", "Ref") for x in subterms(f)):
                return True
    return False


def bad_name(C, ob, D, k, at, text):
    R = run_card(C, D, ob, card_with(k, at, text), False)
    w = R.w
    yes = w.b(True)
    fi = R.cols.index("flag")
    old = R.c(R.old("flag"))
    for node, t, facts in R.tuples():
        for (fl,) in R.closure((t[fi],)):
            C.expect(True if fl is yes else False if fl is old and not vague(R) else None, ob,
                     "a node spelt %r on a %s card is not an error" % (text, k), where_node(R.E, node), "an error")
    if not R.tuples():
        C.ok(ob, "stops the program", D.loop[0].name)


def good_name(C, ob, D, k, at, text):
    R = run_card(C, D, ob, card_with(k, at, text), False)
    w = R.w
    old, yes = R.c(R.old("flag")), w.b(True)
    fi = R.cols.index("flag")
    got = {fl for node, t, facts in R.tuples() for (fl,) in R.closure((t[fi],))}
    C.expect(True if old in got else False if got <= {yes} and not vague(R) else None, ob,
             "a node spelt %r on a %s card is always an error" % (text, k), D.loop[0].name, "accepted")
    cf = D.cf
    X0 = R.c(w.fld(w.sel(R.c(R.old("ckts")), R.c(R.old("cur"))), 0, cf["nid_next"]))
    for node, t, facts in R.tuples():
        x = R.c(w.fld(w.sel(t[R.cols.index("ckts")], R.c(R.old("cur"))), 0, cf["nid_next"]))
        for (y,) in R.closure((x,)):
            while y.op == "app" and y.a[0] == "after_node:nid_next":
                y = R.c(y.a[1])
            i = w.cint(w.isub(y, X0))
            z = [p for p in w.lin_parts(y)[1] if p.op == "app" and p.a[0] == "after_node:nid_next"]
            C.expect(True if i == 0 else False if i is not None or z and w.lin_parts(y)[0] else None, ob + "/next",
                     "a card takes node numbers that no name gets: the next free one becomes %s" % show(y)[:60], where_node(R.E, node),
                     "only names take numbers")
