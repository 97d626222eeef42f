"""P27, P28, P29: what flattening does with an instance of any shape."""
from expand import *


class DeepOracle(FlatOracle):
    """the recursion itself is left as a term"""

    def summary(self, E, ctx, fn, args):
        X, w = self.X, E.w
        if fn.id == X.fn.id:
            a = {r: models.deref(E, args[i - 1]) for r, i in X.arg.items()}
            return [(w.unit, None, [(args[X.arg["ckt"] - 1], w.app("deeper", a["ckts"], a["ckt"], a["id"], a["hier"]))])]
        return super().summary(E, ctx, fn, args)

    def decide(self, t):
        if t.op == "eq" and "known" in self.s:
            # the names of the definitions against the name on the card
            for x, y in (t.a, t.a[::-1]):
                if y is self.E.w.s(self.s["subckt"] or "") and x.op == "fld" and x.a[0].op == "sel" and \
                        x.a[0].a[0] is self.ckts and x.a[2] == self.X.fm["Circuit"]["name"]:
                    return self.s["known"]
        return super().decide(t)


class Deep(FlatRun):
    oracle = DeepOracle

    def __init__(self, C, X, shape, note=""):
        super().__init__(C, X, shape, note)
        self.rets = {n for v, fs, n in self.E.returns()}

    def live(self, n):
        """can the function still return from node n?"""
        return reaches(self.E, n, lambda x: x in self.rets)

    def size(self, field):
        w = self.w
        return self.c(w.len(w.fld(self.host, 0, self.cf[field])))

    def alts(self, n):
        """[(flat circuit before, after, facts, node)] of an iteration, joins opened"""
        out = []
        for ck0, ck1, facts, src in self.steps(n):
            for (t,), fs, tr in self.joins((ck1,), facts):
                out.append((ck0, t, fs, src))
        return out

    def value(self, x):
        return where_node(self.E, x)


def x_run(C, X, n=0, forms=(), dforms=(), names=None, note="", **kw):
    return Deep(C, X, dict(kind="X", subckt="sub", conns=n, forms=forms, dforms=dforms, names=names or {}, top=True, **kw),
                note or "X instance with %d connections, overrides %s, defaults %s" % (n, list(forms), list(dforms)))


# ------------------------------------------------------------------------- P27
def p27(C):
    X = flat_of(C)
    if X is None:
        return

    def one(C, it):
        by_depth(C, X, lambda D, Y: D.guard(it[0], it[1], D, Y, *it[2:]))
    C.par(one, [("start", start)] + [("%s devices" % k, each_device, k) for k in DEVICES] +
          [("instances", each_instance), ("any instance", any_instance), ("top level sources", top_sources)] +
          [("%s sources" % v, each_source, v) for v in SOURCES])


SOURCES = {"I": "CurrentSource", "V": "VoltageSource", "Isin": "CurrentSourceSine", "Vsin": "VoltageSourceSine",
           "Vpwl": "VoltageSourcePwl"}


def every(C, R, field, ob):
    """the items of a list of the circuit are taken from the first to the last"""
    E, w = R.E, R.w
    ls = R.loops(field)
    if not ls:
        C.unk(ob + "/all", "no loop over the %s was recognised" % field, R.fn.name)
        return []
    n = R.size(field)
    heads = []
    for h, q, i in ls:
        heads.append(h)
        ent, back = phi_edges(E, q)
        k, ps = w.lin_parts(i)
        up = ps.get(q) == 1
        for e, o in ent.items():
            at = R.c(w.subst(i, {q: R.c(o)}))
            first = R.c(w.isub(at, w.i(0) if up else w.isub(n, w.i(1))))
            v = w.cint(first)
            C.expect(only_scope(R, first) if v is None else v == 0, ob + "/first", "the %s are taken from the %s on" % (field, show(at)[:60]),
                     where_node(E, h), "the first one")
        for e, o in back.items():
            d = w.cint(R.c(w.isub(R.c(w.subst(i, {q: R.c(o)})), i)))
            C.expect(None if d is None else d == (1 if up else -1), ob + "/next", "from one of the %s on to the one %s further" % (field, d),
                     where_node(E, e[0]), "one by one")
        if not back:
            C.bad(ob + "/next", "only the first of the %s is taken" % field, where_node(E, h))
        for src, k2, tg, facts in loop_exits(E, h):
            if not R.live(tg):
                continue
            fs = {R.c(a): b for a, b in facts.items()}
            done = E.truth(R.c(w.ge0(w.isub(i, n) if up else w.isub(w.i(-1), i))), fs)
            C.expect(done, ob + "/all", "the %s after some are not taken" % field, where_node(E, src), "until none is left")
    ent = E.entry_nodes[0]
    if ent not in heads:
        # ways past the loop on which there may be some
        seen, st = {ent}, [ent]
        while st:
            a = st.pop()
            for tg, k2 in E.out_edges.get(a, ()):
                if tg in seen or tg in heads or (a, k2) not in E.in_edges.get(tg, ()):
                    continue
                fs = {R.c(x): b for x, b in E.in_edges[tg][(a, k2)][1].items()}
                if E.truth(R.c(w.eq0(n)), fs) is True:
                    continue
                seen.add(tg)
                st.append(tg)
        for r in R.rets & seen:
            C.bad(ob + "/all", "the %s are not taken" % field, where_node(E, r))
    return heads


def only_scope(R, t):
    """False: a number that depends on the depth alone, None: not recognised"""
    c, ps = R.w.lin_parts(t)
    return False if ps and all(x is R.c(R.w.len(R.hier)) for x in ps) else None


def steady(R, x, field, busy=()):
    """the part of the circuit before the loops that leave it as it is"""
    E = R.E
    for _ in range(20):
        p = x.a[0] if x.op == "fld" else None
        if p is None or p.op != "phi" or not phi_edges(E, p)[1]:
            return x
        ent, back = phi_edges(E, p)
        for e, o in back.items():
            for (y,), fs, tr in R.joins((R.part(R.c(o), field),), {}):
                if y is not x and (y in busy or steady(R, y, field, busy + (x,)) is not x):
                    return x
        olds = {y for o in ent.values() for (y,), fs, tr in R.joins((R.part(R.c(o), field),), {})}
        if len(olds) > 1:
            olds = {steady(R, y, field, busy + (x,)) for y in olds}
        if len(olds) != 1:
            return x
        x = olds.pop()
    return x


def any_instance(C, X):
    """an instance of which nothing is known"""
    ob = "any instance"
    R = Deep(C, X, dict(top=True), "any instance")
    k = 0
    for h in every(C, R, "instances", ob):
        for ck0, t, fs, src in R.alts(h):
            k += 1
            wh = where_node(R.E, src)
            old = R.part(ck0, "elements")
            x = R.part(t, "elements")
            while x.op == "fld" and x is not old and steady(R, x, "elements") is not x:
                x = steady(R, x, "elements")
            if x.op == "fld" and is_deeper(x.a[0]):
                x = steady(R, R.part(x.a[0].a[2], "elements"), "elements")
                C.expect(True if x is old else None if not x.op == "push" and not (x.op == "fld" and is_deeper(x.a[0])) else False,
                         ob, "an instance of a definition leaves %s" % show(x)[:100], wh, "one definition expanded")
                continue
            if grown_by(C, R, ob, old, x, wh) is not None:
                C.ok(ob, "one element made", wh)
    if not k:
        C.unk(ob, "no instance was followed")


def grown_by(C, R, ob, old, new, wh):
    """what was added to the elements; reports anything but one"""
    out = []
    while new is not old:
        if new.op != "push":
            if new.op == "arr" or new.op == "app" and new.a[0] in ("slice", "deeper"):
                C.bad(ob, "elements of the flat circuit are lost: %s" % show(new)[:100], wh)
            else:
                C.unk(ob, "elements become %s" % show(new)[:100], wh)
            return None
        out.insert(0, new.a[1])
        new = steady(R, R.c(new.a[0]), "elements")
    if len(out) != 1:
        C.bad(ob, "%s elements are made of one" % (len(out) or "no"), wh)
        return None
    return out[0]


def payload(v):
    if v.op == "agg" and str(v.a[0]).endswith("Element") and len(v.a) == 3:
        return v.a[1], v.a[2]
    return None, None


def each_device(C, X, k):
    kind, nodes, val = DEVICES[k]
    ob = "%s devices" % k
    R = Deep(C, X, dict(kind=k, subckt="/device", conns=len(nodes), forms=("lit",) if val else (),
                        names={0: "/param0"}, top=True), "%s device" % k)
    w = R.w
    n = 0
    for h in every(C, R, "instances", ob):
        for ck0, t, fs, src in R.alts(h):
            n += 1
            wh = where_node(R.E, src)
            e = grown_by(C, R, ob, R.part(ck0, "elements"), R.part(t, "elements"), wh)
            if e is None:
                continue
            C.ok(ob, "one element for one device", wh)
            _, v = payload(e)
            if v is None or v.op != "agg" or not str(v.a[0]).endswith(kind):
                continue                                    # P21
            fm = X.fm[kind]
            if "ident" in fm:
                x = R.c(v.a[2 + fm["ident"]])
                want = R.name_of(R.sy("inst"))
                C.expect(True if x is want else False if joined(x) else None, ob + "/name", "the device is called %s" % show(x)[:100],
                         wh, "the instance path and the device")
            for f in ("instances", "num_ports"):
                C.expect(True if R.part(t, f) is R.part(ck0, f) else None, ob + "/" + f, "%s change" % f, wh)
    if not n:
        C.unk(ob, "no instance was followed")


def joined(x):
    return flat_name(x) is not None


def each_instance(C, X):
    for n, fo, df in ((0, (), ()), (2, ("lit",), ("ident",))):
        ob = "X instances with %d connections" % n
        R = x_run(C, X, n, fo, df)
        w, E = R.w, R.E
        k = 0
        for h in every(C, R, "instances", ob):
            for ck0, t, fs, src in R.alts(h):
                k += 1
                deeper(C, X, R, ob, ck0, t, fs, where_node(E, src))
        if not k:
            C.unk(ob, "no instance was followed")


def is_deeper(t):
    return t.op == "app" and t.a[0] == "deeper"


def deeper(C, X, R, ob, ck0, t, fs, wh):
    w, E = R.w, R.E
    old = R.part(ck0, "elements")
    d = t
    if d.op == "agg":                   # something was done to the circuit afterwards
        x = R.part(d, "elements")
        d = x.a[0] if x.op == "fld" else d
    if not is_deeper(d):
        if R.part(t, "elements") is old:
            C.bad(ob, "the definition is not expanded", wh)
        else:
            C.unk(ob, "the flat circuit becomes %s" % show(t)[:100], wh)
        return
    _, ckts, ck, sub, hier = d.a
    ckts, ck, sub, hier = map(R.c, (ckts, ck, sub, hier))
    inner = R.part(ck, "elements")
    if inner is old:
        C.ok(ob, "the definition is expanded once", wh)
    elif inner.op == "fld" and is_deeper(inner.a[0]) or inner.op in ("push", "arr"):
        C.bad(ob, "before the definition is expanded the elements are %s" % show(inner)[:100], wh)
    else:
        C.unk(ob, "before the definition is expanded the elements are %s" % show(inner)[:100], wh)
    C.expect(True if ckts is R.O.ckts else None, ob + "/definitions", "definitions %s" % show(ckts)[:80], wh, "all definitions")
    want = R.c(w.push(R.hier, R.sy("inst")))
    cut = hier.op == "app" and hier.a[0] == "slice" and hier.a[1] is want and \
        not (w.cint(hier.a[2]) == 0 and R.c(hier.a[3]) is R.c(w.len(want)))
    C.expect(True if hier is want else False if cut or hier is R.hier or hier.op in ("push", "arr") else None, ob + "/path",
             "the body of %s is expanded in the scope %s" % ("an instance", show(hier)[:80]), wh, "the scope of the instance")
    nm = w.fld(w.sel(ckts, sub), 0, R.cf["name"])
    v = E.truth(R.c(w.eq(nm, w.s("sub"))), fs)
    like = any(b is True and f.op == "app" and f.a[0] in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case") and
               any(x is R.c(nm) for x in f.a[1:]) for f, b in fs.items())
    C.expect(True if v else False if v is False or like or w.cint(sub) is not None or sub is R.O.id else None, ob + "/definition",
             "the definition expanded is %s" % show(sub)[:60], wh, "the definition named on the card")
    if X.depth is not None:
        return
    b = R.c(w.isub(R.c(w.len(ckts)), w.iadd(R.c(w.len(R.hier)), w.i(1))))
    if E.truth(R.c(w.ge0(b)), fs) is True:
        C.ok(ob + "/depth", "never deeper than there are definitions", wh)
        return
    n = R.c(w.len(R.hier))
    told = [f for f in fs if any(s is n or s is R.hier for s in subterms(f))]
    for f in told:
        if f.op == "ge0":
            k, ps = w.lin_parts(f.a[0])
            if fs[f] == (ps.get(n, 0) < 0) and n in ps:
                if len(ps) == 1 and abs(k) > 100000:
                    C.bad(ob + "/depth", "a definition that instantiates itself is expanded until the stack is full", wh)
                    return
                C.ok(ob + "/depth", "bounded by %s" % show(f)[:60], wh)
                return
    if told or others(C, X):
        C.unk(ob + "/depth", "the depth was not bounded", wh)
    else:
        C.bad(ob + "/depth", "a definition that instantiates itself is expanded for ever", wh)


def others(C, X):
    """functions of the crate that run before flattening starts"""
    prog = C.prog()
    seen, todo = {X.root.id}, [X.root]
    while todo:
        f = todo.pop()
        for g in callees(prog, f):
            if g not in seen and g != X.fn.id:
                seen.add(g)
                todo.append(prog.fns[g])
    lut = prog.fn("Circuit::build_node_id_lut")
    ok = {X.root.id} | {f.id for f in prog.fns.values() if lut is not None and f.name.startswith(lut.name)}
    return {prog.fns[g].name for g in seen if g not in ok and prog.fns[g].loops}


def circuit_at(R, node):
    return R.c(R.E.state[node][0][R.cell])


def top_sources(C, X):
    """the sources of the top level are in the circuit that is grown already"""
    R = Deep(C, X, dict(kind="D", subckt="/device", conns=2, forms=(), top=True), "top level")
    E = R.E
    first = circuit_at(R, E.entry_nodes[0])
    n = 0
    for h, q, i in R.loops("instances"):
        for e, (cells, facts) in E.in_edges[h].items():
            if is_back(E, e[0], h):
                continue
            for (x,), fs, tr in R.joins((R.part(R.c(cells[R.cell]), "elements"),), {R.c(a): b for a, b in facts.items()}):
                n += 1
                C.expect(True if x is R.part(first, "elements") else False if x.op == "push" else None, "top level sources",
                         "the sources of the top level are added again", where_node(E, h), "kept as they are")
        for f in R.loops("elements"):
            for ck0, t, fs, src in R.alts(f[0]):
                x, old = R.part(t, "elements"), R.part(ck0, "elements")
                C.expect(True if x is old else False if x.op == "push" and x.a[0] is old else None, "top level sources",
                         "the sources of the top level are added to the circuit that has them", where_node(E, src), "not added again")
    if not n:
        C.unk("top level sources", "the loop over the instances was not recognised")


def each_source(C, X, v):
    prog = C.prog()
    ad = adt(prog, "Element")
    names = [x["n"] for x in ad["v"]]
    if v not in names:
        C.unk(v + " sources", "no Element::%s" % v)
        return
    vi = names.index(v)
    kind = SOURCES[v]
    fm = X.fm.get(kind) or fields(prog, kind)
    ob = "%s sources" % v
    R = Deep(C, X, dict(element=vi, top=False, kind="D", subckt="/device", conns=2, forms=()), "%s source of a definition" % v)
    w, E = R.w, R.E
    n = 0
    if not R.loops("elements"):
        C.bad(ob, "the sources of a definition are not looked at", R.fn.name) if no_elements(R) else \
            C.unk(ob, "no loop over the sources was recognised")
        return
    for h, q, i in R.loops("elements"):
        item = R.c(w.fld(w.sel(w.fld(R.host, 0, R.cf["elements"]), i), vi, 0))
        for ck0, t, fs, src in R.alts(h):
            n += 1
            wh = where_node(E, src)
            e = grown_by(C, R, ob, R.part(ck0, "elements"), R.part(t, "elements"), wh)
            if e is None:
                continue
            got, p = payload(e)
            if got is None:
                C.unk(ob, show(e)[:100], wh)
                continue
            C.expect(got == vi, ob, "a %s source becomes a %s" % (v, names[got]), wh, "one source of the same kind")
            if got != vi:
                continue
            for f, j in fm.items():
                x = R.c(w.fld(p, 0, j))
                own = R.c(w.fld(item, 0, j))
                if f in ("p", "n"):
                    want = R.c(w.app("nid", R.name_of(R.lut(own))))
                    C.expect(True if x is want else False if x is own else near(R, x, want), ob + "/" + f,
                             "%s of the source is %s" % (f, show(x)[:100]), wh, "its node in the scope of the instance")
                elif f == "idx":
                    want = R.part(ck0, "v_idx_next")
                    C.expect(True if x is want else False if x is own or x.op == "C" else None, ob + "/index",
                             "the index of the source is %s" % show(x)[:60], wh, "the next free one")
                    d = w.cint(R.c(w.isub(R.part(t, "v_idx_next"), want)))
                    C.expect(None if d is None else d == 1, ob + "/index", "the next free index moves by %s" % d, wh)
                else:
                    C.expect(True if x is own else other_field(R, x, item) if x.op in ("C", "fld", "app", "flt") else None, ob + "/" + f,
                             "%s of the source is %s" % (f, show(x)[:100]), wh, "as in the definition")
    if not n:
        C.unk(ob, "no source was followed")
    every(C, R, "elements", ob)
    every(C, R, "instances", ob + ", then instances")


def other_field(R, x, item):
    if x.op == "C" or x.op == "fld" and x.a[0] is item:
        return False
    return None


def no_elements(R):
    """nothing of the function mentions the elements of the circuit being flattened"""
    w = R.w
    el = w.fld(R.host, 0, R.cf["elements"])
    for node, st in R.E.state.items():
        for v in list(st[0].values()) + list(st[1]):
            if isinstance(v, T) and any(s is el for s in subterms(v)):
                return False
    return True


class StartOracle(Oracle):
    def __init__(self, X):
        self.X, self.calls = X, []
        self.lut = X.prog.fn("Circuit::build_node_id_lut")

    def summary(self, E, ctx, fn, args):
        X, w = self.X, E.w
        if fn.id == X.fn.id:
            a = {r: models.deref(E, args[i - 1]) for r, i in X.arg.items()}
            t = w.app("deeper", a["ckts"], a["ckt"], a["id"], a["hier"])
            self.calls.append(t)
            return [(w.unit, None, [(args[X.arg["ckt"] - 1], t)])]
        if self.lut is not None and fn.id == self.lut.id:
            ck = models.deref(E, args[0])
            cf = X.fm["Circuit"]
            comps = [w.fld(ck, 0, i) for i in range(len(cf))]
            comps[cf["node_id_lut"]] = w.app("lut", ck)
            return [(w.unit, None, [(args[0], w.agg(adt(E.prog, "Circuit")["n"], 0, comps))])]
        return None


class StartRun(FRun):
    def __init__(self, C, X):
        self.C, self.fn, self.X = C, X.root, X
        self.O = StartOracle(X)
        self.E = Engine(X.prog, self.O, limit=20000)
        self.E.run(X.root)
        C.ran(self.E, "start of flattening")
        self.w = self.E.w
        self.K = Canon(self.E)
        self.rank = rpo(self.E)
        self.names = set()


def start(C, X):
    R = StartRun(C, X)
    w = R.w
    cf = X.fm["Circuit"]
    rd = adt(C.prog(), "Reader")
    ck = [i for i, f in enumerate(rd["v"][0]["f"]) if "circuit::Circuit>" in f[1]] if rd else []
    if len(ck) != 1:
        C.unk("start", "the circuits of the reader were not recognised")
        return
    ckts = R.c(w.fld(w.sym("p1", X.root.locals[1]), 0, ck[0]))
    n = 0
    for v, fs, tr, node in R.results():
        wh = where_node(R.E, node)
        x = R.c(w.fld(v, 0, cf["elements"]))
        if not (x.op == "fld" and is_deeper(x.a[0])):
            C.unk("start", "the elements of the result are %s" % show(x)[:100], wh)
            continue
        n += 1
        _, cs, c0, sub, hier = map(lambda y: R.c(y) if isinstance(y, T) else y, x.a[0].a)
        C.expect(True if base(cs) is ckts or base(cs) in subterms(ckts) else None, "start/definitions", "definitions %s" % show(cs)[:80], wh,
                 "the circuits that were read")
        v = w.cint(sub)
        C.expect(None if v is None else v == 0, "start/top", "flattening starts at circuit %s" % show(sub), wh, "the first circuit")
        C.expect(True if hier.op == "arr" and not hier.a else False if hier.op in ("arr", "push") else None, "start/path",
                 "flattening starts in the scope %s" % show(hier)[:80], wh, "no instance")
        top = w.sel(cs, w.i(0))
        for f in ("elements", "nodes", "nid_next", "v_idx_next", "params"):
            a, b = R.c(w.fld(c0, 0, cf[f])), R.c(w.fld(top, 0, cf[f]))
            C.expect(True if a is b else False if a.op in ("arr", "C") else None, "start/" + f, "%s start as %s" % (f, show(a)[:80]), wh,
                     "those of the first circuit")
        for f in ("nodes", "v_idx_next", "nid_next"):
            a = R.c(w.fld(R.c(v_of(R, node)), 0, cf[f]))
            b = R.c(w.fld(x.a[0], 0, cf[f]))
            C.expect(True if a is b else None, "start/result " + f, "%s of the result are %s" % (f, show(a)[:80]), wh, "as flattened")
    if not n:
        C.unk("start", "no result")


def v_of(R, node):
    for v, fs, n in R.E.returns():
        if n == node:
            return v
    return None


def base(x):
    while x.op == "app" and x.a[0] == "slice" and x.a[2].op == "C":
        x = x.a[1]
    return x


# ------------------------------------------------------------------------- P28
def p28(C):
    X = flat_of(C)
    if X is None:
        return

    def one(C, it):
        by_depth(C, X, lambda D, Y: D.guard(it[0], it[1], D, Y, *it[2:]))
    C.par(one, [("%d ports" % n, ports, n) for n in range(5)] + [("unknown definition", unknown)])


def chain(R, x, old):
    """[("ins", key, value) or ("add", name)] done to a node table, oldest first"""
    out = []
    while x is not old:
        if x.op == "app" and x.a[0] == "after_node:nodes":
            out.insert(0, ("add", R.c(x.a[2])))
        elif x.op == "app" and x.a[0] == "hm_ins":
            out.insert(0, ("ins", R.c(x.a[2]), R.c(x.a[3])))
        else:
            return None
        x = R.c(x.a[1])
    return out


def ports(C, X, n):
    R = x_run(C, X, n)
    w, E = R.w, R.E
    ob = "%d ports" % n
    k = 0
    for h, q, i in R.loops("instances"):
        for ck0, t, fs, src in R.alts(h):
            wh = where_node(E, src)
            d = t
            if not is_deeper(d):
                C.unk(ob, "the flat circuit becomes %s" % show(t)[:80], wh)
                continue
            k += 1
            _, ckts, ck, sub, hier = d.a
            de = w.sel(R.c(ckts), R.c(sub))
            num = R.c(w.fld(de, 0, R.cf["num_ports"]))
            v = E.truth(R.c(w.eq0(w.isub(num, w.i(n)))), fs)
            C.expect(True if v else False if v is False or other_value(R, num, n, fs) else None, ob + "/number",
                     "an instance with %d connections of a definition with another number of ports is expanded" % n, wh,
                     "as many connections as ports")
            ops = chain(R, R.part(ck, "nodes"), R.part(ck0, "nodes"))
            if ops is None:
                C.unk(ob, "the node table becomes %s" % show(R.part(ck, "nodes"))[:200], wh)
                continue
            want = {}
            for j in range(n):
                key = R.name_of(R.sy("inst"), R.c(w.app("hmval", w.fld(de, 0, R.cf["node_id_lut"]), w.i(j + 1))))
                host = R.name_of(R.lut(R.sy("conn%d" % j, "usize")))
                want[key] = (j, R.c(w.app("nid", host)))
            got = {}
            for o in ops:
                if o[0] == "ins":
                    got[o[1]] = o[2]
                elif not any(o[1] is y.a[1] for _, y in want.values()):
                    C.expect(True if flat_name(o[1]) is None else None, ob + "/nodes", "a node %s is added" % show(o[1])[:80], wh)
            for key, (j, val) in want.items():
                if key not in got:
                    ks = [x for x in got if x not in want]
                    C.expect(False if all(flat_name(x) for x in ks) else None, "%s/port %d" % (ob, j + 1),
                             "port %d is not connected (%s)" % (j + 1, ", ".join(show(x)[:60] for x in ks)), wh)
                    continue
                x = got[key]
                C.expect(True if x is val else False if x.op in ("C", "sym") or x.op == "app" and x.a[0] == "nid" and
                         (flat_name(x.a[1]) or x.a[1].op == "app" and x.a[1].a[0] == "hmval" or shortened(x.a[1])) else None, "%s/port %d" % (ob, j + 1),
                         "port %d is connected to %s" % (j + 1, show(x)[:120]), wh, "connection %d of the card" % j)
            for key in got:
                if key not in want and all(y in got for y in want):
                    C.expect(False if flat_name(key) else None, ob + "/other", "%s is connected too" % show(key)[:80], wh)
    if not k:
        C.unk(ob, "no instance was followed")


def shortened(x):
    """a name that is part of another, or its letters changed"""
    return any(s.op == "app" and str(s.a[0]).startswith(("trim", "substr", "strip_", "to_lowercase", "to_uppercase", "to_ascii_", "replace", "split_once",
                                                         "rsplit_once")) for s in subterms(x))


def other_value(R, x, n, fs):
    """can x be something else than n, as far as the facts tell?"""
    w = R.w
    fs = [(f, b) for f, b in fs.items() if any(s is x for s in subterms(f))]
    for v in (n + 1, n - 1, n + 2, n + 7, 0):
        if v < 0 or v == n:
            continue
        if all(R.E.truth(R.c(w.subst(f, {x: w.i(v)})), {}) is b for f, b in fs):
            return True
    return False


def unknown(C, X):
    R = x_run(C, X, 2, known=False, note="X instance without a definition")
    n = 0
    for h, q, i in R.loops("instances"):
        n += 1
        al = [(ck0, t, fs, src) for ck0, t, fs, src in R.alts(h)]
        for ck0, t, fs, src in al:
            C.bad("unknown definition", "an instance of an unknown definition is passed over", where_node(R.E, src))
        if not al:
            C.ok("unknown definition", "flattening stops", R.fn.name)
    if not n:
        # no way back to the next instance at all
        w = R.w
        for v, fs, node in R.E.returns():
            e = R.E.truth(R.c(w.eq0(R.size("instances"))), {R.c(f): b for f, b in fs.items()})
            C.expect(True if e and R.O.at.get("instances") else None, "unknown definition",
                     "flattening goes on after an instance of an unknown definition", where_node(R.E, node), "flattening stops")


# ------------------------------------------------------------------------- P29
def p29(C):
    X = flat_of(C)
    if X is None:
        return

    def one(C, it):
        by_depth(C, X, lambda D, Y: D.guard(it[0], it[1], D, Y, *it[2:]))
    S = []
    for fo in ((), ("lit",), ("ident",), ("lit", "ident"), ("ident", "ident"), ("none",)):
        for df in ((), ("lit",), ("ident",), ("lit", "lit"), ("ident", "lit"), ("none",)):
            S.append(("overrides %s of %s" % (list(fo), list(df)), scope, fo, df))
    for k in DEVICES:
        if DEVICES[k][2]:
            S.append(("%s value" % k, device_param, k))
    S.append(("lookup", lookup))
    C.par(one, S)


def pushed(R, x, old):
    """parameters added to a list, oldest first"""
    out = []
    while x is not old:
        if x.op != "push":
            return None
        out.insert(0, R.c(x.a[1]))
        x = R.c(x.a[0])
    return out


def sort_of(R, x, fs):
    """(name, value) of a parameter term; value None when it has none"""
    fm = R.X.fm["Parameter"]
    w = R.w
    v = R.c(w.fld(x, 0, fm["value"]))
    if v.op == "app" and v.a[0] == "param" and R.E.truth(R.c(w.eq0(w.mkr("discr", v))), fs) is False:
        v = R.c(w.fld(v, 1, 0))
    if v.op == "agg":
        v = R.c(v.a[2]) if v.a[1] == 1 else None
    return R.c(w.fld(x, 0, fm["name"])), v


def scope(C, X, fo, df):
    """the parameters of an instance, as its body will see them"""
    ob = "overrides %s of %s" % (list(fo), list(df))
    # the overrides are those of the first parameters of the definition
    R = x_run(C, X, 0, fo, df, names={i: "def%d" % i for i in range(len(fo))})
    w, E = R.w, R.E
    k = 0
    for h, q, i in R.loops("instances"):
        for ck0, t, fs, src in R.alts(h):
            wh = where_node(E, src)
            if not is_deeper(t):
                C.unk(ob, "the flat circuit becomes %s" % show(t)[:80], wh)
                continue
            k += 1
            ps = pushed(R, R.part(t.a[2], "params"), R.part(ck0, "params"))
            if ps is None:
                C.unk(ob, "the parameters become %s" % show(R.part(t.a[2], "params"))[:200], wh)
                continue
            got = {}
            bad = False
            for p in ps:
                nm, v = sort_of(R, p, fs)
                if v is None:
                    C.bad(ob + "/value", "%s gets no value" % show(nm)[:80], wh)
                    bad = True
                got[nm] = v
            if bad:
                continue
            before = R.part(ck0, "params")
            for j in range(max(len(fo), len(df))):
                nm = R.name_of(R.sy("inst"), R.sy("def%d" % j))
                o = "%s/def%d" % (ob, j)
                over = j < len(fo) and fo[j] != "none"
                v = got.get(nm)
                if over:
                    want = [R.sy("val%d" % j, "f64")] if fo[j] == "lit" else None
                    lk = R.name_of(R.sy("val%d" % j))
                    what = "the override"
                elif j < len(df):
                    # a value already there is kept (an instance of the same name)
                    pre = E.truth(R.c(w.eq0(w.mkr("discr", w.app("param", before, nm)))), fs)
                    if nm not in got:
                        if df[j] == "none" and pre is not False:
                            C.expect(False if pre else None, o, "a parameter without a value is left out", wh)
                        else:
                            C.expect(True if pre is False else False if pre or ignored(R, nm, fs) else None, o,
                                     "a parameter without an override gets no default", wh, "already there")
                        continue
                    if df[j] == "none":
                        C.bad(o, "a parameter without a default gets %s" % show(v)[:80], wh)
                        continue
                    want = [R.sy("dval%d" % j, "f64")] if df[j] == "lit" else None
                    lk = R.name_of(R.sy("dval%d" % j))
                    what = "the default"
                else:
                    if nm in got:
                        C.bad(o, "%s is set without an expression" % show(nm)[:80], wh)
                    continue
                if v is None:
                    C.expect(False if all(flat_name(x) for x in got) else None, o, "%s of %s is not in force" % (what, show(nm)[:60]), wh)
                    continue
                if want is None:
                    C.expect(looked_up(R, v, lk), o, "%s is %s" % (what, show(v)[:120]), wh, what + ", found in the scope of the card")
                else:
                    C.expect(True if v in want else False if v.op in ("C", "sym") or looked(v) else None, o,
                             "%s is %s" % (what, show(v)[:120]), wh, what)
            for nm in got:
                if nm not in [R.name_of(R.sy("inst"), R.sy("def%d" % j)) for j in range(max(len(fo), len(df)))]:
                    C.expect(False if flat_name(nm) else None, ob + "/other", "%s is set" % show(nm)[:80], wh)
    if not k:
        if "none" in df[len(fo):]:
            C.ok(ob, "a parameter without a value stops flattening", R.fn.name)
        else:
            C.unk(ob, "no instance was followed")


def ignored(R, nm, fs):
    """nothing that is known has to do with that name"""
    last = nm.a[1].a[1] if nm.op == "app" and nm.a[0] == "join" and nm.a[1].op == "push" else nm.a[-1] if nm.op == "cat" else None
    if last is None:
        return False
    for f in fs:
        if f.op == "phi" or any(s is last for s in subterms(f)):
            return False
    return True


def looked(v):
    """(list, name) of a parameter lookup"""
    if v.op == "fld" and v.a[1] == 1 and v.a[0].op == "app" and v.a[0].a[0] == "param":
        return v.a[0].a[1], v.a[0].a[2]
    return None


def plain(l):
    """a lookup in a list that was there before, by a name of known parts"""
    return l is not None and l[0].op != "push" and flat_name(l[1]) is not None


def looked_up(R, v, name):
    l = looked(v)
    if l is None:
        return False if v.op in ("C", "sym") else None
    n = R.c(l[1])
    if n is name:
        return True
    return False if flat_name(n) is not None else None


def device_param(C, X, k):
    """the value of a device is a number of its own"""
    kind, nodes, val = DEVICES[k]
    for form in ("lit", "ident"):
        R = Deep(C, X, dict(kind=k, subckt="/device", conns=len(nodes), forms=(form,), names={0: "/param0"}, top=True),
                 "%s device, %s" % (k, form))
        ob = "%s value%s" % (k, "" if form == "lit" else " by name")
        n = 0
        for h, q, i in R.loops("instances"):
            for ck0, t, fs, src in R.alts(h):
                wh = where_node(R.E, src)
                x = R.part(t, "elements")
                _, v = payload(x.a[1]) if x.op == "push" else (None, None)
                if v is None or v.op != "agg" or not str(v.a[0]).endswith(kind):
                    continue
                n += 1
                got = R.c(v.a[2 + X.fm[kind][val]])
                if form == "lit":
                    C.expect(True if got is R.sy("val0", "f64") else False if got.op in ("C", "sym") or plain(looked(got)) else None, ob,
                             "the value is %s" % show(got)[:100], wh, "the number on the card")
                else:
                    C.expect(looked_up(R, got, R.name_of(R.sy("val0"))), ob, "the value is %s" % show(got)[:100], wh,
                             "the parameter of the enclosing scope")
        if not n:
            C.unk(ob, "no device was recognised")
    # without a value
    R = Deep(C, X, dict(kind=k, subckt="/device", conns=len(nodes), forms=("none",), names={0: "/param0"}, top=True),
             "%s device without a value" % k)
    w = R.w
    for h, q, i in R.loops("instances"):
        for ck0, t, fs, src in R.alts(h):
            x = R.part(t, "elements")
            _, v = payload(x.a[1]) if x.op == "push" else (None, None)
            if v is None or v.op != "agg" or not str(v.a[0]).endswith(kind):
                continue
            got = R.c(v.a[2 + X.fm[kind][val]])
            C.expect(True if looked(got) else False if got.op == "C" else None, "%s value/missing" % k,
                     "a device whose value is not known gets %s" % show(got)[:80], where_node(R.E, src))


def none_ways(R, node, ps, nm, fm):
    """[(verdict, node)] for the ways on which None is returned"""
    E, w = R.E, R.w
    n = R.c(w.len(ps))
    ret = ("L", E.root.id, 0)
    out, seen, st = [], {node}, [node]
    while st:
        at = st.pop()
        for e, (cells, facts) in E.in_edges[at].items():
            v = cells.get(ret)
            v = R.c(v) if v is not None else None
            if v is not None and v.op == "agg" and v.a[1] == 1:
                continue
            fs = {R.c(a): b for a, b in facts.items()}
            r = None
            for f, b in fs.items():
                if b is True and f.op == "eq":
                    for x, y in (f.a, f.a[::-1]):
                        if y is nm and x.op == "fld" and x.a[2] == fm["name"] and x.a[0].op == "sel" and x.a[0].a[0] is ps:
                            r = E.truth(R.c(w.eq0(w.mkr("discr", w.fld(x.a[0], 0, fm["value"])))), fs) is True
                for s in subterms(f):
                    if s.op == "phi" and phi_edges(E, s)[1] and E.truth(R.c(w.ge0(w.isub(s, n))), fs) is True:
                        r = True
            if r is not None:
                out.append((r, e[0]))
                continue
            src = e[0]
            old = E.state[src][0].get(ret) if src in E.state else None
            if v is not None and old is not None and R.c(old) is v:
                if src not in seen:
                    seen.add(src)
                    st.append(src)
            elif v is not None and v.op == "agg":
                out.append((None, src))
    return out


def lookup(C, X):
    """the latest parameter of that name"""
    R = FRun(C, X.param)
    w, E = R.w, R.E
    cf, fm = X.fm["Circuit"], X.fm["Parameter"]
    ps = R.c(w.fld(R.p(1), 0, cf["params"]))
    nm = R.p(2)
    n = R.c(w.len(ps))
    some = none = 0
    for v, fs, tr, node in R.results():
        wh = where_node(E, node)
        if v.op == "agg" and v.a[1] == 0:
            none += 1
            for ok, at in none_ways(R, node, ps, nm, fm):
                C.expect(ok, "lookup/none", "None without having looked at every parameter" if ok is None else
                         "None for a parameter that has a value", where_node(E, at), "only if none has the name")
            continue
        q = v.a[0] if v.op == "fld" and v.a[2] == fm["value"] else None
        q = R.c(q) if q is not None else None
        if q is None or q.op != "sel" or q.a[0] is not ps:
            C.unk("lookup/value", "the value is %s" % show(v)[:120], wh)
            continue
        some += 1
        eq = E.truth(R.c(w.eq(w.fld(q, 0, fm["name"]), nm)), fs)
        pn = R.c(w.fld(q, 0, fm["name"]))
        hd = {phi_node(E, s) for s in subterms(R.c(q.a[1])) if s.op == "phi" and phi_edges(E, s)[1]}

        def alike(fs):
            return any(b is True and f.op == "app" and f.a[0] in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case") and
                       any(x is pn for x in f.a[1:]) for f, b in fs.items())
        near = {tg for tg in E.in_edges if tg not in hd for e in E.in_edges[tg] for ef in (edge_facts(E, tg, e),) if alike(ef) and
                E.truth(R.c(w.eq(pn, nm)), ef) is not True}
        like = alike(fs) or bool(near) and R.walk(near, lambda a, k, b: b in hd, lambda m: m == node) is not None
        C.expect(True if eq else False if eq is False or like else None, "lookup/name", "the value of a parameter of another name", wh, "the name asked for")
        i = R.c(q.a[1])
        hs = [s for s in subterms(i) if s.op == "phi" and phi_edges(E, s)[1]]
        if len(hs) != 1:
            C.unk("lookup/latest", "the parameter is number %s" % show(i), wh)
            continue
        c, cs = w.lin_parts(i)
        s = hs[0]
        up = cs.get(s, 0) > 0
        ent, back = phi_edges(E, s)
        for e, o in ent.items():
            at = R.c(w.subst(i, {s: R.c(o)}))
            d = w.cint(R.c(w.isub(at, w.isub(n, w.i(1)))))
            C.expect(True if d == 0 else False if w.cint(at) is not None else None, "lookup/latest", "the search begins with parameter %s" % show(at), wh,
                     "the latest first")
        for e, o in back.items():
            d = w.cint(R.c(w.isub(R.c(w.subst(i, {s: R.c(o)})), i)))
            C.expect(None if d is None else d == -1, "lookup/latest", "parameter i is followed by i%+d" % (d or 0), wh, "one by one")
            bf = {R.c(a): b for a, b in edge_facts(E, phi_node(E, s), e).items()}
            t = E.truth(R.c(w.eq(w.fld(R.c(w.sel(ps, i)), 0, fm["name"]), nm)), bf)
            C.expect(True if t is False else None, "lookup/latest", "a parameter of the name is passed over", wh, "past others only")
    if not some or not none:
        C.unk("lookup", "the search was not recognised")
