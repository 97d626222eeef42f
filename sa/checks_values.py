"""P21: which field of a card ends up where."""
from checks_cards import *
import expand


class Val:
    """values of the parts of an element that a card adds"""

    def __init__(self, R):
        self.R, self.w, self.E = R, R.w, R.E
        self.D = R.D

    def all(self, x):
        """the values x can have, every join opened"""
        return [t for (t,) in self.R.closure((x,))]

    def every(self, x, ok):
        """True: ok of every value; False: some value is not ok; None: not known"""
        out = True
        for v in self.all(x):
            r = ok(v)
            if r is False:
                return False
            if r is None:
                out = None
        return out

    def tok(self, i):
        return self.R.O.tok(i)

    def same(self, x, y):
        if x is y:
            return True
        return False if x.op in ("C", "sym") else None

    def node(self, i):
        """x is the node named by word i"""
        def ok(x):
            if x.op == "app" and x.a[0] == "nid":
                return self.same(x.a[1], self.tok(i))
            return False if x.op == "C" else None
        return ok

    def number(self, src):
        """x is the number written in a text for which src holds"""
        def ok(x):
            if x.op == "C":
                return False
            if x.op == "fld" and x.a[0].op == "app" and self.pure(x.a[0]):
                return src(x.a[0].a[1])
            return False if reckoned(x) else None
        return ok

    def expr(self, src):
        """x is the number or the name written in a text for which src holds"""
        def ok(x):
            if x.op == "agg" and str(x.a[0]).endswith("Option"):
                if not x.a[2:]:
                    return False
                x = x.a[2]
                if x.op == "fld" and x.a[0].op == "app" and self.pure(x.a[0]):
                    return src(x.a[0].a[1])
                return None
            if x.op == "app" and self.pure(x):
                return src(x.a[1])
            return None
        return ok

    def pure(self, x):
        return str(x.a[0]).startswith("fn:") and any(
            self.D.prog.fns[i].name == x.a[0][3:] for i in self.D.pure)

    def word(self, i):
        return lambda x: self.same(x, self.tok(i))

    # the text of the words from i on, without `drop`
    def rest(self, x, i, j, drop):
        gone = []
        while x.op == "app" and x.a[0] in ("replace", "trim", "tostr"):
            if x.a[0] == "replace":
                a, b = x.a[2], x.a[3]
                if a.op != "C" or b.op != "C":
                    return None
                if b.a[1] != "":
                    return False
                gone.append(a.a[1] if a.a[0] == "s" else chr(a.a[1]))
            x = x.a[1]
        if x.op != "cat":
            if x.op == "app" and x.a[0] == "join":
                v = x.a[1]
                ps = [self.w.sel(v, self.w.i(k)) for k in range(self.w.cint(self.w.len(v)) or 0)]
            else:
                return None
        else:
            ps = [p for p in x.a if not (p.op == "C" and not str(p.a[1]).strip())]
        want = [self.tok(k) for k in range(i, j)]
        if ps != want:
            return False if all(p in want or p.op == "C" for p in ps) else None
        return sorted(gone) == sorted(drop)

    def part(self, sep, k, i, j, drop):
        """x is part number k of the words from i on"""
        def ok(x):
            while x.op == "app" and x.a[0] == "trim":
                x = x.a[1]
            if x.op != "sel" or x.a[0].op != "app":
                return None
            s = x.a[0]
            if s.a[0] != ("words" if sep is None else "split"):
                return None
            if sep is not None and (s.a[2].op != "C" or s.a[2].a[1] not in (sep, ord(sep))):
                return False
            kk = k(x.a[1]) if callable(k) else self.w.cint(x.a[1]) == k if self.w.cint(x.a[1]) is not None else None
            r = self.rest(s.a[1], i, j, drop)
            return False if kk is False or r is False else None if None in (kk, r) else True
        return ok


def reckoned(x):
    """x is the result of an operation on numbers that does not leave one of them as it is"""
    if x.op == "fneg":
        return True
    if x.op in ("fadd", "fsub", "fmul", "fdiv"):
        a, b = x.a
        z = {"fadd": 0.0, "fsub": 0.0, "fmul": 1.0, "fdiv": 1.0}[x.op]
        same = lambda y: y.op == "C" and y.a[1] == z
        return a is not b and not same(b) and not (x.op in ("fadd", "fmul") and same(a))
    return x.op == "app" and x.a[0] in ("fmin", "fmax", "fpow", "fabs", "fsqrt", "fsin", "fcos", "fexp") and \
        not any(s.op == "phi" for s in x.a if isinstance(s, T))


# what leaves out or moves items of a list
MOVES = ("dedup", "retain", "sort", "truncate", "rotate", "extract_if")


def rearranged(x):
    n = str(x.a[0]) if x.op == "app" else ""
    return n == "sorted" or n.startswith("mut0:ext:") and n.split("::")[-1].split("(")[0].startswith(MOVES)


def p21(C):
    D = deck_of(C)
    if D is None:
        return

    def one(C, it):
        name, toks, how = it
        C.guard(name, card_values, C, D, name, toks, how)
    C.par(one, value_runs())
    X = expand.flat_of(C)
    if X is not None:
        expand.devices(C, X)


def value_runs():
    T_, N = Tok, (lambda: Tok(assign=False))
    out = []
    for k, kind in (("I", "CurrentSource"), ("V", "VoltageSource")):
        out.append((k + " card", [T_(pre=k), N(), N(), N()], (source, kind)))
        out.append((k + " card with SIN", [T_(pre=k), N(), N(), T_(pre="SIN("), N(), N()], (sine_card, kind + "Sine")))
    for n in (5, 7):
        out.append(("V card with PWL of %d words" % n, [T_(pre="V"), N(), N(), T_(pre="PWL(", assign=False)] +
                    [N() for _ in range(n - 4)], (pwl_card, n)))
    out.append(("V card with PWL and r=", [T_(pre="V"), N(), N(), T_(pre="PWL(", assign=False), N(), T_(parts=("r", "="), num=True)],
                (pwl_card, 5)))
    out.append(("V card with PWL and td=", [T_(pre="V"), N(), N(), T_(pre="PWL(", assign=False), N(), T_(parts=("td", "="), num=True)],
                (pwl_card, 5)))
    out.append(("V card with PWL, r= and td=", [T_(pre="V"), N(), N(), T_(pre="PWL(", assign=False), N(),
                                                T_(parts=("r", "="), num=True), T_(parts=("td", "="), num=True)], (pwl_card, 5)))
    out.append(("V card with PWL, td= and r=", [T_(pre="V"), N(), N(), T_(pre="PWL(", assign=False), N(),
                                                T_(parts=("td", "="), num=True), T_(parts=("r", "="), num=True)], (pwl_card, 5)))
    for k, c, p in (("R", 2, 1), ("C", 2, 1), ("D", 2, 0), ("E", 4, 1), ("G", 4, 1)):
        out.append((k + " card", [T_(pre=k)] + [N() for _ in range(c + p)], (device, c, p)))
        if p:
            out.append((k + " card with more words", [T_(pre=k)] + [N() for _ in range(c + p + 1)], (device, c, p + 1, p)))
    for c, p in ((0, 0), (1, 0), (3, 0), (2, 1), (1, 2), (12, 0), (2, 10)):
        out.append(("X card with %d connections and %d parameters" % (c, p), [T_(pre="X")] + [N() for _ in range(c + 1)] +
                    [T_(parts=(None, "=")) for _ in range(p)], (subckt_card, c, p)))
    return out


def card_values(C, D, name, toks, how):
    R = run_card(C, D, name, toks, False)
    V = Val(R)
    fi = R.cols.index("flag")
    yes = R.w.b(True)
    ck = R.c(R.w.sel(R.c(R.old("ckts")), R.c(R.old("cur"))))
    olds = [R.c(R.w.fld(ck, 0, R.D.cf[n])) for n in ("elements", "instances")]
    found = 0
    for node, t, facts in R.tuples():
        for e, i, fl, told in R.closure(grown(R, t) + (t[fi], t[R.cols.index("told")])):
            if fl is yes:
                continue
            wh = where_node(R.E, node)
            new = [(k, x) for k, x in enumerate((e, i)) if x is not olds[k]]
            if len(new) != 1 or new[0][1].op != "push":
                C.unk(name, "elements %s, instances %s" % (show(e)[:80], show(i)[:80]), wh)
                continue
            k, x = new[0]
            for v in V.all(x.a[1]):
                found += 1
                V.told = told is yes
                how[0](C, R, V, name, v, k, wh, *how[1:])
    if not found:
        C.unk(name, "no element is added by this card")
    if hasattr(R, "post"):
        R.post()


def kind_of(v):
    """(kind of element, its parts)"""
    if v.op == "agg" and str(v.a[0]).endswith("Element") and len(v.a) == 3:
        v = v.a[2]
    return (str(v.a[0]).split("::")[-1], v.a[2:]) if v.op == "agg" else (None, ())


def parts_of(C, R, name, v, kind, wh):
    k, ps = kind_of(v)
    if k is None or kind not in R.fieldmap:
        C.unk(name, "what is added was not recognised: %s" % show(v)[:100], wh)
        return None
    if k != kind:
        C.bad(name, "a %s adds a %s, not a %s" % (name, k, kind), wh)
        return None
    return {n: ps[i] for n, i in R.fieldmap[kind].items()}


def field_ok(C, V, name, f, what, x, ok, wh):
    r = V.every(x, ok)
    C.expect(r, name + "/" + f, "%s of a %s is %s" % (what, name, show(x)[:120]), wh, what)


def source(C, R, V, name, v, k, wh, kind):
    p = parts_of(C, R, name, v, kind, wh)
    if p is None:
        return
    field_ok(C, V, name, "p", "the first node", p["p"], V.node(1), wh)
    field_ok(C, V, name, "n", "the second node", p["n"], V.node(2), wh)
    field_ok(C, V, name, "value", "the value", p["value"], V.number(V.word(3)), wh)


def sine_card(C, R, V, name, v, k, wh, kind):
    p = parts_of(C, R, name, v, kind, wh)
    if p is None:
        return
    field_ok(C, V, name, "p", "the first node", p["p"], V.node(1), wh)
    field_ok(C, V, name, "n", "the second node", p["n"], V.node(2), wh)
    for j, (f, what) in enumerate((("vo", "the offset"), ("va", "the amplitude"), ("freq", "the frequency"))):
        field_ok(C, V, name, f, what, p[f], V.number(V.part(None, j, 3, len(R.O.toks), ["SIN", "(", ")"])), wh)


def pwl_card(C, R, V, name, v, k, wh, n):
    p = parts_of(C, R, name, v, "VoltageSourcePwl", wh)
    if p is None:
        return
    w = R.w
    field_ok(C, V, name, "p", "the first node", p["p"], V.node(1), wh)
    field_ok(C, V, name, "n", "the second node", p["n"], V.node(2), wh)
    opts = {t.parts[0]: i for i, t in enumerate(R.O.toks) if t.parts}
    for f, key, default, what in (("repeat", "r", -1.0, "the repeat time"), ("t_delay", "td", 0.0, "the delay")):
        if key in opts:
            i = opts[key]
            src = R.O.part(i, 1)

            def ok(x, src=src):
                for s in subterms(x):
                    if s.op == "app" and V.pure(s):
                        return V.same(s.a[1], src)
                return False if x.op == "C" else None
            r = V.every(p[f], ok)
            if r and not any(src in set(subterms(x)) for x in V.all(p[f])):
                r = False
            C.expect(r, name + "/" + f, "%s of a %s is %s" % (what, name, show(p[f])[:100]), wh, what)
        else:
            field_ok(C, V, name, f, what + " when there is none", p[f],
                     lambda x, d=default: x is w.f(d) if x.op == "C" else None, wh)
    ok = V.every(p["pat"], lambda x: pattern_value(R, V, x, n))
    C.expect(ok, name + "/pattern", "the pattern of a %s is %s" % (name, show(p["pat"])[:100]), wh,
             "times and values in turn")


def pattern_value(R, V, x, n):
    """x: empty, or an earlier value and one more pair"""
    w = R.w
    if x.op == "arr":
        xs = x.a
    elif x.op == "push":
        base = x.a[0]
        if inner_phi(base) is None:
            return None
        xs = (x.a[1],)
    else:
        return False if rearranged(x) else None
    for q in xs:
        if q.op != "agg" or q.a[0] != "tuple" or len(q.a) != 4:
            return None
        ix = []
        for y in q.a[2:]:
            z = y
            while z.op != "sel" or z.a[0].op != "app":
                nx = [s for s in z.a if isinstance(s, T)]
                if not nx or z.op not in ("fld", "app", "sel"):
                    break
                z = nx[0]
            ix.append(z)
        def chunk(k):
            def ok(i):
                kk, ps = w.lin_parts(i)
                if not ps:
                    return w.cint(i) % 2 == k
                if all(c == 2 for c in ps.values()):
                    return kk % 2 == k
                if len(ps) == 1 and list(ps.values()) == [1]:
                    r = even(R, list(ps)[0])
                    return None if r is None else (kk + r) % 2 == k
                return None
            return ok
        r = [V.number(chunk_part(V, k, n, chunk(k)))(y) for k, y in enumerate(q.a[2:])]
        if False in r:
            return False
        if None in r:
            return None
        if ix[0].op == "sel" and ix[1].op == "sel" and w.isub(ix[1].a[1], ix[0].a[1]) is not w.i(1):
            return False
    return True


def even(R, p):
    """0 or 1: what is left of a counter divided by two, when always the same"""
    if p.op != "phi":
        return None
    w = R.w
    r = None
    ent, back = phi_edges(R.E, p)
    for x in list(ent.values()) + list(back.values()):
        k, ps = w.lin_parts(R.c(x))
        if p in ps or R.c(p) in ps:
            if len(ps) == 1 and list(ps.values()) == [1] and k % 2 == 0:
                continue
            return None
        if ps or r not in (None, k % 2):
            return None
        r = k % 2
    return r


def chunk_part(V, k, n, idx):
    plain = V.part(",", idx, 3, n, ["PWL", "(", ")"])

    def ok(x):
        y = x
        while y.op == "app" and y.a[0] == "trim":
            y = y.a[1]
        # an element of a piece of two
        if y.op == "sel" and inner_phi(y.a[0]) is not None:
            if V.w.cint(y.a[1]) is None:
                return None
            return V.w.cint(y.a[1]) == k
        return plain(x)
    return ok


def instance_parts(C, R, name, v, k, wh):
    if k != 1:
        C.bad(name, "a %s adds an element directly" % name, wh)
        return None
    return parts_of(C, R, name, v, "Instance", wh)


def list_of(V, x):
    """the items of a list of known length"""
    n = V.w.cint(V.w.len(x))
    if x.op == "arr":
        return list(x.a)
    out = []
    while x.op == "push":
        out.insert(0, x.a[1])
        x = x.a[0]
    return list(x.a) + out if x.op == "arr" else None


def conns_ok(C, R, V, name, x, first, n, wh):
    for l in V.all(x):
        xs = list_of(V, l)
        if xs is None:
            C.unk(name + "/connections", show(l)[:100], wh)
            continue
        if len(xs) != n:
            C.bad(name + "/connections", "a %s has %d connections" % (name, len(xs)), wh)
            continue
        for j, y in enumerate(xs):
            field_ok(C, V, name, "connection %d" % j, "connection %d" % j, y, V.node(first + j), wh)
        if not xs:
            C.ok(name + "/connections", "none", wh)


def device(C, R, V, name, v, k, wh, c, n, need=None):
    need = n if need is None else need
    p = instance_parts(C, R, name, v, k, wh)
    if p is None:
        return
    w = R.w
    field_ok(C, V, name, "name", "the name", p["name"], V.word(0), wh)
    field_ok(C, V, name, "kind", "the kind of instance", p["subckt"],
             lambda x: x is w.s("/device") if x.op == "C" else None, wh)
    conns_ok(C, R, V, name, p["conns"], 1, c, wh)
    P = R.fieldmap["Parameter"]
    told = V.told

    def one(q):
        if q.op != "agg":
            return None
        nm, ex = q.a[2 + P["name"]], q.a[2 + P["expr"]]
        base = w.arr([V.tok(i) for i in range(1 + c, 1 + c + n)])
        i = pname(nm)
        if i is None:
            return None

        def src(x):
            if x.op == "sel" and x.a[0] is base:
                return i is x.a[1]
            if w.cint(i) is not None:
                return w.cint(i) < n and V.same(x, base.a[w.cint(i)])
            return None
        return V.every(ex, V.expr(src))

    def pname(nm):
        """number of the parameter called nm"""
        if nm.op == "C" and str(nm.a[1]).startswith("/param"):
            return w.i(int(nm.a[1][6:])) if nm.a[1][6:].isdigit() else None
        if nm.op == "cat" and len(nm.a) == 2 and nm.a[0] is w.s("/param"):
            x = nm.a[1]
            while x.op == "app" and x.a[0] in ("disp", "tostr"):
                x = x.a[1]
            return x
        return None

    def ok(x):
        if x.op == "push" and inner_phi(x.a[0]) is not None:
            return one(x.a[1])
        xs = list_of(V, x)
        if xs is None:
            R.full = None
            return None
        if len(xs) > n or len(xs) < need and not told:
            # fewer come from a loop, or with a message
            return False if xs or len(ls) == 1 else True
        if len(xs) >= need and getattr(R, "full", False) is False:
            R.full = True
        rs = [one(q) for q in xs]
        return False if False in rs else None if None in rs else True
    ls = V.all(p["params"])
    if any(l.op == "push" and inner_phi(l.a[0]) is not None for l in ls) and getattr(R, "full", False) is False:
        R.full = True
    r = V.every(p["params"], ok)
    C.expect(r, name + "/parameters", "the parameters of a %s are %s" % (
        name, "; ".join(show(l)[:100] for l in ls)), wh, "the words after the nodes, in turn")
    R.post = lambda: C.expect(getattr(R, "full", False), name + "/kept", "the value of a %s is never kept" % name, wh,
                              "the value is kept")


def subckt_card(C, R, V, name, v, k, wh, c, n):
    p = instance_parts(C, R, name, v, k, wh)
    if p is None:
        return
    w = R.w
    P = R.fieldmap["Parameter"]
    field_ok(C, V, name, "name", "the name", p["name"], V.word(0), wh)
    field_ok(C, V, name, "definition", "the subcircuit", p["subckt"], V.word(1 + c), wh)
    conns_ok(C, R, V, name, p["conns"], 1, c, wh)
    for l in V.all(p["params"]):
        xs = list_of(V, l)
        if xs is None:
            C.unk(name + "/parameters", show(l)[:100], wh)
            continue
        if len(xs) != n:
            C.bad(name + "/parameters", "%d parameters are kept of a %s" % (len(xs), name), wh)
            continue
        left = {R.O.part(i, 0): i for i in range(2 + c, 2 + c + n)}
        for q in xs:
            nm, ex = (q.a[2 + P["name"]], q.a[2 + P["expr"]]) if q.op == "agg" else (q, q)
            if nm not in left:
                C.expect(False if nm.op in ("C", "sym") else None, name + "/parameters",
                         "the name of a parameter is %s" % show(nm)[:60], wh)
                continue
            i = left.pop(nm)
            field_ok(C, V, name, "parameters", "the value of a parameter", ex,
                     V.expr(lambda x, i=i: V.same(x, R.O.part(i, 1))), wh)
        if not n:
            C.ok(name + "/parameters", "none", wh)
