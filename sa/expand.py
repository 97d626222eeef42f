"""The flattening of subcircuits: the recursive function analysed from arbitrary
circuits, with the instance at hand given a shape."""
import models
from checks_elem import *
from cards import Deck


DEEP = 4


class Flat:
    """which function flattens, and where its arguments are.
    depth: None, or the number of instances the circuit at hand lies in"""
    depth = None

    def __init__(self, prog):
        self.prog = prog
        self.why = ""
        self.fn = None
        self.asked = set()      # whether flattening tells the top level from the rest by its scope
        self.root = prog.fn("Reader::get_expanded_circuit")
        if self.root is None:
            self.why = "no Reader::get_expanded_circuit"
            return
        succ = {}
        todo, seen = [self.root], {self.root.id}
        while todo:
            f = todo.pop()
            succ[f.id] = callees(prog, f)
            for g in succ[f.id]:
                if g not in seen:
                    seen.add(g)
                    todo.append(prog.fns[g])
        rec = set()
        for c in sccs(list(succ), lambda n: [x for x in succ[n] if x in succ]):
            if len(c) > 1 or c[0] in succ[c[0]]:
                rec |= set(c)
        ent = {g for f in succ for g in succ[f] if g in rec and f not in rec}
        if len(ent) != 1:
            self.why = "%d recursive functions are called to flatten a circuit" % len(ent)
            return
        self.fn = prog.fns[ent.pop()]
        self.rec = rec
        self.arg = {}
        for i in range(1, self.fn.argc + 1):
            t = prog.types.get(self.fn.locals[i], {})
            s = prog.strip(self.fn.locals[i])
            if t.get("k") == "ref" and t.get("mut") and s.endswith("circuit::Circuit"):
                r = "ckt"
            elif "circuit::Circuit]" in s or s.startswith("std::vec::Vec<") and "circuit::Circuit>" in s:
                r = "ckts"
            elif s == "usize":
                r = "id"
            elif "std::string::String" in s:
                r = "hier"
            else:
                r = None
            if r is None or r in self.arg:
                self.why = "the arguments of %s were not recognised" % self.fn.name
                return
            self.arg[r] = i
        if len(self.arg) != 4:
            self.why = "the arguments of %s were not recognised" % self.fn.name
            return
        self.fm = Deck.fieldmap(self)
        self.add_node = prog.fn("Circuit::add_node")
        self.param = prog.fn("Circuit::get_param_value")
        if self.add_node is None or self.param is None:
            self.why = "no Circuit::add_node or Circuit::get_param_value"


def by_depth(C, X, f):
    """f(check, X) for a scope of any depth. What cannot be told for all depths at
    once is looked at for the first few: they decide what is wrong."""
    import copy
    A = C.sub()
    X.asked.clear()
    f(A, X)
    bad = [o for o in A.obs if o["status"] == "violated"]
    und = [o for o in A.obs if o["status"] == "undecided"]
    depths = range(DEEP + 1) if bad or und else range(1) if X.asked else ()
    B = C.sub()
    for n in depths:
        Y = copy.copy(X)
        Y.depth = n
        D = C.sub()
        f(D, Y)
        for o in D.obs:
            o["obligation"] += "/depth %d" % n
        B.obs += D.obs
        B.runs += D.runs
    st = {o["status"] for o in B.obs}
    if bad and depths and st == {"discharged"}:
        for o in bad:
            o["status"] = "undecided"
            o["what"] += " (not so for the first %d depths)" % (DEEP + 1)
    C.obs += A.obs
    C.runs += A.runs + B.runs
    C.obs += B.obs if not und or "violated" in st else [o for o in B.obs if o["status"] == "discharged"]


def callees(prog, f):
    out = set()
    for blk in f.blocks:
        t = blk["t"]
        if t[0] == "call" and isinstance(t[1], dict) and t[1].get("id") in prog.fns:
            out.add(t[1]["id"])
        for s in blk["s"]:
            for c in closures_in(s):
                if c in prog.fns:
                    out.add(c)
    return out


def closures_in(s):
    if isinstance(s, (list, tuple)):
        for x in s:
            yield from closures_in(x)
    elif isinstance(s, dict):
        for x in s.values():
            yield from closures_in(x)
    elif isinstance(s, str):
        yield s


class FlatOracle(Oracle):
    """shape: dict with
    kind: first letter of the name of the instances, subckt: what they are of
    (text, or None for unknown), conns, params: number of connections and
    parameters, forms: the form of the expression of each parameter,
    defs: parameters of definitions, dforms: forms of their defaults,
    element: the variant of the independent sources, top: id is 0?"""
    again = True

    def __init__(self, X, shape):
        self.X, self.s = X, shape
        self.E = None
        self.at = {}

    def sy(self, n, ty=None):
        return self.E.w.mk("sym", n, ty)

    def expr(self, form, nm):
        w = self.E.w
        t = adt(self.X.prog, "Expression")
        v = [x["n"] for x in t["v"]] if t else []
        if form == "none" or not v:
            return w.agg(OPT, 0, [])
        k = {"lit": "Literal", "ident": "Identifier"}[form]
        return w.agg(OPT, 1, [w.agg(t["n"], v.index(k), [self.sy(nm, "f64" if form == "lit" else "std::string::String")])])

    def parameter(self, nm, expr, defval):
        w = self.E.w
        fm = self.X.fm["Parameter"]
        c = [None] * len(fm)
        c[fm["name"]] = w.s(nm) if nm.startswith("/") else self.sy(nm, "std::string::String")
        c[fm["expr"]], c[fm["defval"]] = expr, defval
        c[fm["value"]] = w.agg(OPT, 0, [])
        return w.agg(adt(self.X.prog, "Parameter")["n"], 0, c)

    def instance(self):
        w, s = self.E.w, self.s
        fm = self.X.fm["Instance"]
        c = [None] * len(fm)
        c[fm["name"]] = self.sy("inst", "std::string::String")
        c[fm["subckt"]] = w.s(s["subckt"]) if s.get("subckt") else self.sy("of", "std::string::String")
        c[fm["conns"]] = w.arr([self.sy("conn%d" % i, "usize") for i in range(s.get("conns", 0))])
        none = self.expr("none", "")
        c[fm["params"]] = w.arr([self.parameter((s.get("names") or {}).get(i, "par%d" % i), self.expr(f, "val%d" % i), none)
                                 for i, f in enumerate(s.get("forms", ()))])
        return w.agg(adt(self.X.prog, "Instance")["n"], 0, c)

    def definition(self, base):
        w = self.E.w
        none = self.expr("none", "")
        return w.arr([self.parameter("def%d" % i, none, self.expr(f, "dval%d" % i))
                      for i, f in enumerate(self.s.get("dforms", ()))])

    def rewrite(self, op, a):
        if self.E is None or not hasattr(self, "ckts"):
            return None
        cf = self.X.fm["Circuit"]
        w = self.E.w
        if op == "cat":
            return self.whole_name(a)
        if op == "sel" and a[0].op == "fld" and a[0].a[0].op == "sel" and a[0].a[0].a[0] is self.ckts and \
                a[0].a[0].a[1] is self.id:
            for f in ("instances", "elements"):
                if a[0].a[2] == cf[f]:
                    self.at.setdefault(f, set()).add(a[1])
        if op == "app" and a[0] == "param" and a[1].op == "push":
            # the latest definition is in force
            q = a[1].a[1]
            fm = self.X.fm["Parameter"]
            if q.op == "agg":
                n = q.a[2 + fm["name"]]
                if n is a[2]:
                    return q.a[2 + fm["value"]]
                if self.other(n, a[2]):
                    return w.app("param", a[1].a[0], a[2])
        if op == "sel":
            x = a[0]
            if x.op == "fld" and x.a[0].op == "sel" and x.a[0].a[0] is self.ckts and x.a[0].a[1] is self.id:
                if x.a[2] == cf["instances"] and "subckt" in self.s:
                    return self.instance()
            if x is self.ckts and a[1] is self.id:
                return None
        if op == "fld" and a[0].op == "sel" and a[0].a[0] is self.ckts and a[0].a[1] is not self.id and \
                a[2] == cf["params"] and "dforms" in self.s:
            return self.definition(a[0])
        return None

    def whole_name(self, a):
        """the flat name put together from that of a scope and more"""
        w = self.E.w
        j = a[0]
        if len(a) < 2 or j.op != "app" or j.a[0] != "join" or j.a[2] is not w.s("."):
            return None
        if j.a[1] is self.hier:
            self.X.asked.add("scope")
        elif j.a[1].op != "push":
            return None
        segs = []
        for p in a[1:]:
            ts = p.a[1].split(".") if p.op == "C" and p.a[0] == "s" else [p]
            if not segs:
                if len(ts) < 2 or ts[0]:
                    return None
                segs.append([])
                ts = ts[1:]
            for i, t in enumerate(ts):
                if i:
                    segs.append([])
                if t != "":
                    segs[-1].append(w.s(t) if isinstance(t, str) else t)
        if not segs or not all(segs):
            return None
        l = j.a[1]
        for s in segs:
            l = w.push(l, w.cat(s))
        return w.app("join", l, j.a[2])

    def named(self, x):
        """a text that is not empty"""
        if x.op == "cat":
            return any(self.named(y) for y in x.a)
        if x.op == "C":
            return x.a[0] == "s" and bool(x.a[1])
        if x.op == "sym":
            return True
        if x.op == "app" and x.a[0] == "join":
            if x.a[1] is getattr(self, "hier", None) and self.X.depth is None:
                self.X.asked.add("scope")
                return True
            return x.a[1].op == "push"
        return False

    def other(self, m, n):
        """two flat names that differ: their last parts do"""
        if m.op == n.op == "cat" and len(m.a) == len(n.a) and m.a[:-1] == n.a[:-1]:
            x, y = m.a[-1], n.a[-1]
            if x.op == y.op == "sym" and x.a[0][:3] == y.a[0][:3] == "def" or x.op == y.op == "C":
                return x is not y
        if m.op == n.op == "app" and m.a[0] == n.a[0] == "join" and m.a[1].op == n.a[1].op == "push":
            x, y = m.a[1].a[1], n.a[1].a[1]
            if x.op == y.op == "sym" and x.a[0][:3] == y.a[0][:3] == "def" and x is not y:
                return True
            if x.op == y.op == "C" and x is not y:
                return True
        return False

    def decide(self, t):
        w = self.E.w
        k = self.s.get("kind")
        if t.op == "app" and t.a[0] == "starts_with" and t.a[1].op == "sym" and t.a[1].a[0] == "inst" and k:
            p = t.a[2]
            if p.op == "C":
                p = p.a[1] if p.a[0] == "s" else chr(p.a[1])
                if k.startswith(p[:1]) and len(p) <= len(k):
                    return k.startswith(p)
                return False if not p.startswith(k) else None
        if t.op in ("eq0", "ge0"):
            c, ps = w.lin_parts(t.a[0])
            if len(ps) == 1:
                (x, m), = ps.items()
                if x.op == "len" and abs(c) <= 1:
                    y = x.a[0]
                    some = y.op not in ("arr", "C") and self.named(y)
                    if y is getattr(self, "hier", None) and self.X.depth is None:
                        self.X.asked.add("scope")
                        some = True
                    if some and t.op == "eq0" and c == 0:
                        return False
                    if some and t.op == "ge0" and (m, c) in ((1, -1), (-1, 0)):
                        return m == 1
        if t.op == "eq0":
            c, ps = w.lin_parts(t.a[0])
            if len(ps) == 1:
                (x, m), = ps.items()
                if k and x.op == "sel" and x.a[0].op == "app" and x.a[0].a[0] in ("chars", "bytes") and \
                        x.a[0].a[1].op == "sym" and x.a[0].a[1].a[0] == "inst" and w.cint(x.a[1]) == 0 and m in (1, -1):
                    return ord(k[0]) == -c * m
                if x is getattr(self, "id", None) and "top" in self.s and c == 0:
                    return self.s["top"]
                if x.op == "discr" and "element" in self.s and x.a[0].op == "sel" and x.a[0].a[0].op == "fld" and \
                        x.a[0].a[0].a[2] == self.X.fm["Circuit"]["elements"] and m in (1, -1):
                    return self.s["element"] == -c * m
        if t.op == "eq":
            x, y = t.a
            for x, y in ((x, y), (y, x)):
                if y is w.s("") and x.op != "C" and self.named(x):
                    return False
                if x.op == "sym" and x.a[0] == "of" and y is w.s("/device"):
                    return False
                if k and x.op == "sym" and x.a[0] == "inst" and y.op == "C":
                    return None if str(y.a[1]).startswith(k) else False
        return None

    def lo(self, x):
        a = x.a[0]
        if a.op == "app" and a.a[0] in ("chars", "bytes") and a.a[1].op == "sym" and a.a[1].a[0] == "inst":
            return 1
        return None

    def summary(self, E, ctx, fn, args):
        w = E.w
        X = self.X
        if fn.id == X.add_node.id:
            ck, nm = models.deref(E, args[0]), models.deref(E, args[1])
            cf = X.fm["Circuit"]
            kind = adt(E.prog, "Circuit")["n"]
            comps = [w.fld(ck, 0, i) for i in range(len(cf))]
            for f in ("nodes", "nid_next"):
                if f in cf:
                    comps[cf[f]] = w.app("after_node:" + f, comps[cf[f]], nm)
            return [(w.app("nid", nm), None, [(args[0], w.agg(kind, 0, comps))])]
        if fn.id == X.param.id:
            ck, nm = models.deref(E, args[0]), models.deref(E, args[1])
            return [(w.app("param", w.fld(ck, 0, X.fm["Circuit"]["params"]), nm), None, None)]
        return None


OPT = "std::option::Option"


class FlatRun(FRun):
    """one shape of instance, or of source, flattened"""
    oracle = FlatOracle

    def __init__(self, C, X, shape, note="", limit=40000):
        self.C, self.X, self.fn = C, X, X.fn
        self.O = O = self.oracle(X, shape)
        self.E = E = Engine(X.prog, O, limit=limit, maxval=200)
        O.E = E
        self.w = w = E.w
        f = X.fn
        O.ckts = w.sym("p%d" % X.arg["ckts"], f.locals[X.arg["ckts"]])
        O.id = w.sym("p%d" % X.arg["id"], "usize")
        args = None
        self.hier = w.sym("p%d" % X.arg["hier"], f.locals[X.arg["hier"]])
        if X.depth is not None:
            self.hier = w.arr([w.sym("in%d" % i, "std::string::String") for i in range(X.depth)])
            args = {X.arg["hier"]: self.hier}
            note += " at depth %d" % X.depth
        O.hier = self.hier
        E.run(f, args)
        C.ran(E, "flattening: %s" % note)
        self.K = Canon(E)
        self.rank = rpo(E)
        self.names = set()
        self.cell = ("A", X.arg["ckt"])
        self.cf = X.fm["Circuit"]
        self.host = w.sel(O.ckts, O.id)

    # -- loops over the items of the circuit being flattened -----------------------------
    def loops(self, field):
        """[(header node, position)] of the loops that take the items of a field"""
        E, w = self.E, self.w
        out = {}
        for i in self.O.at.get(field, ()):
            for p in subterms(i):
                if p.op != "phi":
                    continue
                q = self.c(p)
                if q.op == "phi" and is_header(phi_node(E, q)):
                    out[(phi_node(E, q), q)] = self.c(i)
        return [(n, q, i) for (n, q), i in out.items()]

    def steps(self, n):
        """[(flat circuit before, after, facts, node)] around the loop at node n"""
        E = self.E
        out = []
        for e, (cells, facts) in E.in_edges[n].items():
            if is_back(E, e[0], n):
                out.append((self.c(E.state[n][0][self.cell]), self.c(cells[self.cell]),
                            {self.c(f): v for f, v in facts.items()}, e[0]))
        return out

    def part(self, ck, f):
        return self.c(self.w.fld(ck, 0, self.cf[f]))

    def name_of(self, *ps):
        """the flat name of something in the current scope"""
        v = self.hier
        for p in ps:
            v = self.w.push(v, p)
        if v.op == "arr":
            return self.c(self.w.cat([y for x in v.a for y in (self.w.s("."), x)][1:]))
        return self.c(self.w.app("join", v, self.w.s(".")))

    def sy(self, n, ty="std::string::String"):
        return self.O.sy(n, ty)

    def lut(self, nid, host=None):
        """the local name of a node of a circuit"""
        w = self.w
        h = self.host if host is None else host
        return w.app("hmval", w.fld(h, 0, self.cf["node_id_lut"]), nid)

    def at(self, ck, field):
        """[part of the flat circuit] every join opened, with the facts"""
        return ck


def same(x, y):
    return True if x is y else False if x.op in ("C", "sym") and y.op in ("C", "sym") else None


DEVICES = {"R": ("Resistor", ("a", "b"), "value"), "C": ("Capacitor", ("a", "b"), "value"),
           "D": ("Diode", ("p", "n"), None), "E": ("Vcvs", ("p", "n", "cp", "cn"), "k"),
           "G": ("Vccs", ("p", "n", "cp", "cn"), "k")}


def flat_of(C):
    X = Flat(C.prog())
    if X.why:
        C.unk("anchor", X.why)
        return None
    return X


def device_run(C, X, k, form="lit"):
    kind, nodes, val = DEVICES[k]
    return FlatRun(C, X, dict(kind=k, subckt="/device", conns=len(nodes), forms=(form,) if val else (),
                              names={0: "/param0"}, top=True), note="%s device" % k)


def added(C, R, ob, field, ck0, ck1):
    """what has been added to a list of the flat circuit, None when not recognised"""
    old, new = R.part(ck0, field), R.part(ck1, field)
    out = []
    while new is not old:
        if new.op != "push":
            return None
        out.insert(0, new.a[1])
        new = R.c(new.a[0])
    return out


def devices(C, X):
    """P21, second half: the device made of a card"""
    def one(C, it):
        k, form = it
        by_depth(C, X, lambda D, Y: D.guard(k + " device", device_values, D, Y, k, form))
    C.par(one, [(k, f) for k in DEVICES for f in (("lit", "ident") if DEVICES[k][2] else ("lit",))])


def device_values(C, X, k, form):
    R = device_run(C, X, k, form)
    w = R.w
    kind, nodes, val = DEVICES[k]
    fm = X.fm[kind]
    found = 0
    for n, q, i in R.loops("instances"):
        for ck0, ck1, facts, src in R.steps(n):
            for (e,), fs, tr in R.joins((R.part(ck1, "elements"),), facts):
                wh = where_node(R.E, src)
                ob = "%s device%s" % (k, " with a name for a value" if form == "ident" else "")
                if e.op != "push":
                    C.unk(ob, show(e)[:100], wh)
                    continue
                found += 1
                v = e.a[1]
                if v.op == "agg" and str(v.a[0]).endswith("Element") and len(v.a) == 3:
                    v = v.a[2]
                if v.op != "agg":
                    C.unk(ob, show(v)[:100], wh)
                    continue
                got = str(v.a[0]).split("::")[-1]
                if got != kind:
                    C.bad(ob, "a device whose name starts with %s becomes a %s" % (k, got), wh)
                    continue
                f = {nm: R.c(v.a[2 + j]) for nm, j in fm.items()}
                for j, nm in enumerate(nodes):
                    want = w.app("nid", R.name_of(R.lut(R.sy("conn%d" % j, "usize"))))
                    C.expect(True if f[nm] is R.c(want) else near(R, f[nm], want), ob + "/" + nm,
                             "%s of a %s is %s" % (nm, kind, show(f[nm])[:120]), wh, "connection %d of the card" % j)
                if val:
                    want = R.sy("val0", "f64") if form == "lit" else \
                        w.fld(w.app("param", R.part(ck0, "params"), R.name_of(R.sy("val0"))), 1, 0)
                    C.expect(True if f[val] is R.c(want) else near_value(R, f[val], want), ob + "/" + val,
                             "%s of a %s is %s" % (val, kind, show(f[val])[:120]), wh, "the value on the card")
                else:
                    for nm, x in (("i_sat", 1e-9), ("tdegc", 27.0)):
                        if nm in f:
                            C.expect(True if f[nm] is w.f(x) else False if f[nm].op == "C" else None, ob + "/" + nm,
                                     "%s of a diode is %s" % (nm, show(f[nm])[:60]), wh, "the default diode")
    if not found:
        C.unk("%s device" % k, "no device is made")


def near_value(R, x, want):
    """False: a number from elsewhere; None: not recognised"""
    if x.op in ("C", "sym"):
        return False
    while x.op == "fld":
        x = x.a[0]
    if x.op == "app" and x.a[0] == "param" and flat_name(x.a[2]):
        y = want
        while y.op == "fld":
            y = y.a[0]
        if y.op != "app" or y.a[2] is not x.a[2]:
            return False
    return None


def near(R, x, want):
    """False: the name of another node; None: not recognised"""
    if x.op == "C":
        return False
    if x.op == "app" and x.a[0] == "nid" and flat_name(x.a[1]):
        return False
    return None


def flat_name(x):
    """a flat name of known parts"""
    if x.op == "app" and x.a[0] == "join":
        l = x.a[1]
        while l.op == "push" and part_name(l.a[1]):
            l = l.a[0]
        return x if l.op == "sym" or l.op == "arr" and all(map(part_name, l.a)) else None
    if x.op == "cat":
        return x if all(map(part_name, x.a)) else None
    return x if x.op in ("C", "sym") else None


def part_name(x):
    if x.op == "app" and x.a[0] == "join":
        return flat_name(x) is not None
    return x.op in ("C", "sym") or x.op == "app" and x.a[0] == "hmval" and not any(s.op == "phi" for s in subterms(x)) or \
        x.op == "cat" and all(map(part_name, x.a))
