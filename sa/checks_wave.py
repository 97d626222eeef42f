"""P17, P18: what is written to the waveform file, and failures to write it."""
from checks_elem import *


# ------------------------------------------------------------------ text terms
class Odd(Exception):
    pass


def flat(x):
    return list(x.a) if x.op == "cat" else [x]


class Text:
    """text terms as sequences of ("s", literal) ("v", term, spec) ("loop", phi, body)"""

    def __init__(self, R):
        self.R, self.E, self.w = R, R.E, R.w

    def toks(self, t, depth=0):
        t = self.R.c(t)
        if depth > 20:
            raise Odd("too deep")
        if t.op == "C" and t.a[0] in ("s", "c"):
            return [("s", t.a[1] if t.a[0] == "s" else chr(t.a[1]))] if t.a[1] != "" else []
        if t.op == "cat":
            out = []
            for x in t.a:
                out += self.toks(x, depth + 1)
            return out
        if t.op == "app" and t.a[0] == "join":
            return self.joined(t.a[1], t.a[2])
        if t.op == "app" and t.a[0] == "repeat":
            return [("rep", self.toks(t.a[1]), t.a[2])]
        if t.op == "app" and (t.a[0] == "disp" or str(t.a[0]).startswith("fmt")):
            return [("v", t.a[-1], t.a[0])]
        if t.op == "phi":
            ent, back = phi_edges(self.E, t)
            if back:
                head = self.one([self.toks(o, depth + 1) for o in ent.values()])
                return head + [("loop", t, self.bodies(t, back))]
            ways = []
            for o in ent.values():
                x = self.toks(o, depth + 1)
                if x not in ways:
                    ways.append(x)
            return ways[0] if len(ways) == 1 else [("alt", ways)]
        return [("v", t, "")]

    def one(self, alts):
        if not alts or any(a != alts[0] for a in alts):
            raise Odd("text that differs by path")
        return alts[0]

    def ops(self, x, stop, seen=None):
        """alternatives of x, plain joins opened"""
        x = self.R.c(x)
        if x is not stop and x.op == "phi" and not phi_edges(self.E, x)[1]:
            out = []
            for o in phi_edges(self.E, x)[0].values():
                out += self.ops(o, stop)
            return out
        if x.op == "cat":
            h = x.a[0]
            if h is not stop and h.op == "phi" and not phi_edges(self.E, h)[1]:
                out = []
                for o in self.ops(h, stop):
                    out.append(self.w.cat([o] + list(x.a[1:])))
                return out
        return [x]

    def bodies(self, t, back):
        alts = []
        for o in back.values():
            for x in self.ops(o, t):
                if x is t:
                    b = []
                elif x.op == "cat" and x.a[0] is t and t not in set(s for y in x.a[1:] for s in subterms(y)):
                    b = []
                    for y in x.a[1:]:
                        b += self.toks(y)
                else:
                    raise Odd("text rebuilt in a loop as %s" % show(x)[:80])
                for y in choices(b):
                    if y not in alts:
                        alts.append(y)
        return alts

    def items(self, L):
        """a list of strings: [("one", toks) | ("loop", phi, [toks])]"""
        L = self.R.c(L)
        if L.op == "arr":
            return [("one", self.toks(x)) for x in L.a]
        if L.op == "rep":
            return [("rep", self.toks(L.a[1]), L.a[0])]
        if (L.op == "app" and L.a[0] == "concat") or L.op == "concat":
            return [y for x in L.a if isinstance(x, T) for y in self.items(x)]
        if L.op == "push":
            return self.items(L.a[0]) + [("one", self.toks(L.a[1]))]
        if L.op == "phi":
            ent, back = phi_edges(self.E, L)
            if not back:
                return self.one([self.items(o) for o in ent.values()])
            head = self.one([self.items(o) for o in ent.values()])
            alts = []
            for o in back.values():
                for x in self.ops(o, L):
                    if x is L:
                        b = None
                    elif x.op == "push" and x.a[0] is L:
                        b = self.toks(x.a[1])
                    else:
                        raise Odd("list %s" % show(x)[:80])
                    if b not in alts:
                        alts.append(b)
            return head + [("loop", L, alts)]
        raise Odd("list %s" % show(L)[:80])

    def joined(self, L, sep):
        s = self.toks(sep)
        its = self.items(L)
        out = []
        for i, it in enumerate(its):
            if it[0] == "one":
                if i:
                    out += s
                out += it[1]
            elif it[0] == "rep":
                if not i and s:
                    raise Odd("a joined list that starts with a repetition")
                out.append(("rep", s + it[1], it[2]))
            elif not s:
                out.append(("loop", it[1], it[2]))
            else:
                if not i:
                    if len(its) == 1:
                        return [("joinloop", it[1], it[2], s)]
                    raise Odd("a joined list that starts with a loop")
                out.append(("loop", it[1], [None if b is None else s + b for b in it[2]]))
        return out


def merge(ts):
    """neighbouring literals joined, tabs and newlines on their own"""
    out = []
    for t in ts:
        if t[0] == "s":
            buf = ""
            for ch in t[1]:
                if ch in "\t\n":
                    if buf:
                        out.append(("s", buf))
                    buf = ""
                    out.append((ch,))
                else:
                    buf += ch
            if buf:
                if out and out[-1][0] == "s":
                    out[-1] = ("s", out[-1][1] + buf)
                else:
                    out.append(("s", buf))
        else:
            out.append(t)
    return out


def choices(ts):
    """token sequences without alternatives; of a loop with several bodies, one each"""
    out = [[]]
    for t in ts:
        if t[0] == "alt":
            opts = [y for x in t[1] for y in choices(x)]
        elif t[0] == "loop" and len(t[2]) > 1 and all(
                b and sum(1 for x in merge(b) if x[0] == "\t") == 1 for b in t[2]):
            opts = [[("loop", t[1], [b])] for b in t[2]]
        else:
            opts = [[t]]
        out = [a + b for a in out for b in opts]
        if len(out) > 64:
            raise Odd("too many alternatives")
    return out


class Short(Exception):
    """an element of a loop adds no column, or more than one"""


def lines(ts):
    """[[columns]] with column = ("one", toks) | ("many", phi, toks) | ("times", n, toks)"""
    cur, col, out = [], [], []
    state = "open"          # may the current column grow?
    pend = None
    for t in merge(ts):
        if t[0] == "\n":
            if state == "open":
                cur.append(("one", col))
            out.append(cur)
            cur, col, state = [], [], "open"
        elif t[0] == "\t":
            if state == "open":
                cur.append(("one", col))
            col, state = [], "open"
        elif t[0] in ("loop", "rep", "joinloop"):
            alts = [t[1]] if t[0] == "rep" else t[2]
            if t[0] == "joinloop":
                if state != "open" or col or cur:
                    raise Odd("a joined list inside a line")
                if len(alts) != 1 or alts[0] is None:
                    raise Short("a column may be left out")
                if merge(t[3]) != [("\t",)]:
                    raise Odd("separator")
                cur.append(("many", t[1], merge(alts[0])))
                state = "closed"
                continue
            bs = [merge(a or []) for a in alts]
            n = {sum(1 for x in b if x[0] == "\t") for b in bs}
            if any(x[0] in ("\n", "loop", "rep", "joinloop") for b in bs for x in b):
                raise Odd("nested loops")
            if n != {1}:
                raise Short("an entry does not add exactly one column (%s)" % sorted(n))
            if len(bs) != 1:
                raise Odd("columns that differ by path")
            b = bs[0]
            key = ("many", t[1]) if t[0] == "loop" else ("times", t[2])
            if b[0] == ("\t",):
                if state == "open":
                    cur.append(("one", col))
                    col, state = [], "closed"
                cur.append(key + (b[1:],))
            elif b[-1] == ("\t",):
                if state != "open" or col:
                    raise Odd("a loop of columns after other text")
                cur.append(key + (b[:-1],))
                state = "open"
            else:
                raise Odd("separator inside the entry")
        else:
            if state != "open":
                raise Odd("text after the last column")
            col.append(t)
    if col or cur or state != "open":
        raise Odd("an unfinished line")
    return out


# ------------------------------------------------------------------------- P17
def p17(C):
    S = Stamps(C.prog())
    if C.prog().fn("Engine::transient_analysis") is None:
        C.unk("anchor", "no transient analysis")
        return
    C.guard("file", waveform, C, S)
    C.guard("vector", vector, C, S)
    C.guard("names", names, C)


def waveform(C, S):
    R = TRun(C, S, "R")
    E, w = R.E, R.w
    X = Text(R)
    evs = E.all_events("write")
    if not evs:
        C.unk("rows", "nothing is written")
        return
    N, V = R.c(S.N(E)), R.c(S.V(E))
    heads, rows = [], []
    for e in evs:
        try:
            ls = []
            for ts in choices(X.toks(e.data[1])):
                one = lines(ts)
                ls += [l for l in one if l not in ls]
        except Short as x:
            C.bad("columns", str(x), where(e))
            return
        except Odd as x:
            C.unk("columns", "%s: %s" % (x, show(R.c(e.data[1]))[:120]), where(e))
            return
        for l in ls:
            c0 = l[0] if l else None
            if c0 is None:
                C.unk("columns", "an empty line", where(e))
                return
            isrow = c0[0] == "one" and len(c0[1]) == 1 and c0[1][0][0] == "v" and \
                str(c0[1][0][2]).startswith(("fmt", "disp"))
            (rows if isrow else heads).append((e, l))
    files = {R.c(e.data[0]) for e in evs}
    C.expect(True if len(files) == 1 else None, "one file", "%d files are written" % len(files), where(evs[0]),
             "all lines go to one file")
    order(C, R, heads, rows)
    if len(heads) != 2:
        C.expect(None if heads else False, "header", "%d header lines" % len(heads), where(evs[0]))
        return
    (e1, names_), (e2, units) = heads
    if e1.node != e2.node and not first_before(E, e1, e2):
        (e1, names_), (e2, units) = heads[1], heads[0]
    cols(C, R, e1, names_, "names", N, V,
         lambda c, p: node_name(C, R, c, p, e1), lambda c, p: branch_name(R, c, p))
    cols(C, R, e2, units, "units", N, V, lambda c, p: unit(c, "V"), lambda c, p: unit(c, "A"))
    lit = ("one", [("s", "Time")])
    C.expect(True if names_[0] == lit else None if not lits(names_[0]) else False, "names/time",
             "the first column is called %s" % (names_[0][1:],), where(e1), "the first column is the time")
    C.expect(True if units[0] == ("one", [("s", "s")]) else None if not lits(units[0]) else False, "units/time",
             "the unit of the time is %s" % (units[0][1:],), where(e2), "the unit of the time is s")
    for e, l in rows:
        row(C, R, e, l)


def lits(c):
    return all(t[0] == "s" for t in c[-1])


def first_before(E, a, b):
    """every way to b passes a"""
    return not reaches(E, E.entry_nodes[0], lambda n: n == b.node, lambda n: n == a.node)


def order(C, R, heads, rows):
    E = R.E
    if not heads:
        C.bad("header first", "the waveform file has no header", "")
        return
    if not rows:
        C.unk("header first", "no row was recognised")
        return
    start = E.entry_nodes[0]
    for h, _ in heads:
        for r, _ in rows:
            if h.node == r.node:
                continue
            hit = reaches(E, start, lambda n: n == r.node, lambda n: n == h.node)
            C.expect(not hit, "header first", "a row can be written before or without the header line at %s" % where(h),
                     where(r), "every row follows the header")
            again = any(reaches(E, tg, lambda n: n == h.node) for tg, k in E.out_edges.get(r.node, ()))
            C.expect(not again, "header once", "the header line can be written again after rows", where(h),
                     "the header is written once")
        again = any(reaches(E, tg, lambda n: n == h.node) for tg, k in E.out_edges.get(h.node, ()))
        C.expect(not again, "header once", "the header line can be written twice", where(h), "the header is written once")


def cols(C, R, e, cs, ob, N, V, okn, okv):
    E, w = R.E, R.w
    if not cs or cs[0][0] != "one":
        C.unk(ob, "columns %s" % (cs,), where(e))
        return
    rest = cs[1:]
    if any(c[0] == "one" for c in rest):
        C.unk(ob, "separate columns", where(e))
        return
    if len(rest) != 2:
        C.expect(False if len(rest) < 2 else None, ob, "there are %d groups of columns besides the time: node voltages "
                 "and branch currents need one each" % len(rest), where(e))
        return
    for c, want, what, good in ((rest[0], N, "node", okn), (rest[1], V, "branch", okv)):
        o = "%s/%s" % (ob, what)
        if c[0] == "times":
            p = None
            r = True if R.c(c[1]) is want else False if diff(R, c[1], want, N, V) else None
            got = show(R.c(c[1]))
        else:
            p = c[1]
            r, got = span(R, phi_node(E, p), want, N, V)
        C.expect(r, o + " columns", "the header has columns for %s, not for every %s" % (got, what), where(e),
                 "one column per %s" % what)
        g, why = good(c, p)
        C.expect(g, o + " label", why, where(e), "labels are right")


def diff(R, x, want, N, V):
    """surely different numbers?"""
    d = R.w.isub(R.c(x), want)
    k, ps = R.w.lin_parts(d)
    return bool(d is not R.w.i(0) and (not ps or set(ps) <= {N, V}))


def span(R, hdr, want, N, V):
    """does the loop at hdr go round exactly `want` times?"""
    E, w = R.E, R.w
    ips = index_phis(E, hdr)
    for p, (e0, step) in ips.items():
        if abs(step) != 1:
            continue
        n = w.isub(p, e0) if step == 1 else w.isub(e0, p)
        cands = [want] + [w.iadd(x, w.i(k)) for x in (N, V, w.iadd(N, V)) for k in (0, -1, 1, -2, 2)]
        cands += [w.i(k) for k in (0, 1, 2)]
        for Y in cands:
            if exactly(R, hdr, n, Y):
                return (Y is want), show(Y)
    return None, "a number not understood"


def exactly(R, hdr, n, Y):
    E, w = R.E, R.w
    K = R.K
    ex = loop_exits(E, hdr)
    if not ex:
        return False
    for a, k, tg, f in ex:
        f = {R.c(x): v for x, v in f.items()}
        if E.truth(R.c(w.ile(Y, n)), f) is not True:
            return False
    for e, op in ((e, 1) for e in E.in_edges.get(hdr, ()) if e[0] in E.state and in_loop(e[0], hdr)):
        f = {R.c(x): v for x, v in edge_facts(E, hdr, e).items()}
        if E.truth(R.c(w.ile(w.iadd(n, w.i(1)), Y)), f) is not True:
            return False
    return True


def number(R, p, x):
    """is x the number of the round (0, 1, ..) of the loop of phi p?"""
    E, w = R.E, R.w
    x = R.c(x)
    for q, (e0, step) in index_phis(E, phi_node(E, p)).items():
        k, d = w.lin_parts(x)
        if q in d:
            if d[q] * step != 1:
                return False
            first = w.subst(x, {q: e0})
            return True if first is w.i(0) else False if w.cint(first) is not None else None
    return None


def unit(c, u):
    if c[-1] == [("s", u)]:
        return True, ""
    return (False if lits(c) else None), "the unit is %s, not %s" % (c[-1], u)


def branch_name(R, c, p):
    t = c[-1]
    if p is None or [x[0] for x in t] != ["s", "v", "s"]:
        return (False if lits(c) else None), "branch columns are called %s" % (t,)
    if t[0][1] != "i(" or t[2][1] != ")":
        return False, "branch columns are called %s..%s" % (t[0][1], t[2][1])
    return number(R, p, t[1][1]), "branch columns are not numbered from 0 in order"


def node_name(C, R, c, p, e):
    t = c[-1]
    w = R.w
    if p is None or [x[0] for x in t] != ["s", "v", "s"]:
        return (False if lits(c) else None), "node columns are called %s" % (t,)
    if t[0][1] != "v(" or t[2][1] != ")":
        return False, "node columns are called %s..%s" % (t[0][1], t[2][1])
    x = R.c(t[1][1])
    if x.op == "app" and x.a[0] == "hmval":
        mp = x.a[1]
        lut = R.c(w.fld(w.mk("sym", "p2", R.fn.locals[2]), 0, fields(C.prog(), "Circuit")["node_id_lut"]))
        if mp is not lut:
            return None, "names come from %s" % show(mp)[:60]
        return number(R, p, x.a[2]), "the columns are not labelled with the nodes in the order of their numbers"
    if number(R, p, x) is not None:
        return False, "node columns are labelled with numbers, not names"
    return None, "node columns are labelled %s" % show(x)[:60]


def row(C, R, e, l):
    E, w = R.E, R.w
    if len(l) < 2:
        C.bad("row", "a row has only the time", where(e))
        return
    if len(l) != 2 or l[1][0] != "many":
        C.unk("row", "row has columns %s" % [c[0] for c in l], where(e))
        return
    p, ts = l[1][1], l[1][2]
    if len(ts) != 1 or ts[0][0] != "v":
        C.unk("row", "entries are %s" % (ts,), where(e))
        return
    for x, what in ((l[0][1][0], "time"), (ts[0], "value")):
        pr = precision(x[2])
        C.expect(pr is None or pr >= 9, "row/digits", "a %s is written with only %s digits" % (what, pr), where(e),
                 "written with all digits or at least nine decimals")
    v = R.c(ts[0][1])
    if v.op != "sel":
        C.unk("row", "entries are %s" % show(v)[:80], where(e))
        return
    r, why = full_visit(E, phi_node(E, p), v.a[0], v.a[1])
    if r is None and passed_over(R, p, v.a[1]):
        r, why = False, "an unknown can be passed over"
    whole(C, R, e, p)
    if r is True:
        # each in its own column: the index is the round
        pass
    first = number(R, p, v.a[1])
    C.expect(False if r is False or first is False else r and first, "row/values",
             "a row does not have every unknown once, in order: %s" % (why or "not in order"), where(e),
             "every unknown has its column, in order")
    good = R.is_solve(v.a[0]) or vec_zero(v.a[0]) or all(R.is_solve(x[1]) or vec_zero(x[1])
                                                         for x in R.pair_ways(w.f(0.0), v.a[0]))
    C.expect(True if good else None, "row/solution", "the row shows %s" % show(v.a[0])[:80], where(e),
             "the row shows a solution of the system")


def passed_over(R, p, i):
    """can the index i move on, within a round of the loop of text p, without any text?"""
    E = R.E
    for q in subterms(R.c(i)):
        if q.op != "phi" or phi_node(E, q) == phi_node(E, p) or not in_loop(phi_node(E, q), phi_node(E, p)) \
                and phi_node(E, p)[0] not in phi_node(E, q)[0].chain:
            continue
        for e, o in phi_edges(E, q)[1].items():
            k, d = R.w.lin_parts(R.c(o))
            if d == {q: 1} and k == 1:
                return True
    return False


def whole(C, R, e, p):
    """a row that is begun is written before the function that begins it returns"""
    E = R.E
    h = phi_node(E, p)
    ctx = h[0]
    if ctx not in e.node[0].chain:
        return
    lost = reaches(E, h, lambda n: ctx not in n[0].chain, lambda n: n == e.node)
    C.expect(not lost, "row/written", "a row that is put together may not be written", where(e),
             "every row put together is written")


def precision(spec):
    if "[" not in str(spec):
        return None
    p = str(spec)[str(spec).index("[") + 1:-1].split(",")[2]
    return None if p == "None" else int(p)


def vector(C, S):
    """the solution handed back has one entry per unknown"""
    for f in S.solvers:
        R = FRun(C, f)
        E, w = R.E, R.w
        fl = fields(C.prog(), "Engine")
        for v, fs, tr, n in R.results():
            l = R.c(w.len(v))
            N, V = R.field("Engine", "c_nodes"), R.field("Engine", "c_vsrcs")
            want = w.iadd(N, V)
            C.expect(True if l is want else False if diff(R, l, want, N, V) else None, "vector/length",
                     "the solution has %s entries" % show(l)[:80], f.name, "one entry per node and branch")


def names(C):
    """the table of names has, for every node, one of its own names"""
    prog = C.prog()
    f = prog.fn("Circuit::build_node_id_lut")
    if f is None:
        C.unk("names/table", "no such function")
        return
    R = FRun(C, f)
    E, w = R.E, R.w
    ni = fields(prog, "Circuit")["nodes"]
    evs = E.all_events("hmins")
    if not evs:
        C.unk("names/table", "nothing is inserted")
        return
    for e in evs:
        k, v = R.c(e.data[1]), R.c(e.data[2])
        if k.op != "fld" or v.op != "fld" or k.a[0] is not v.a[0]:
            C.unk("names/table", "name %s for number %s" % (show(v)[:60], show(k)[:60]), where(e))
            continue
        x = k.a[0]
        src = x.a[0] if x.op == "sel" else None
        while src is not None and src.op == "app" and src.a[0] in ("sorted", "reversed"):
            src = R.c(src.a[1])
        m = R.c(src.a[1]) if src is not None and src.op == "app" and src.a[0] == "hmiter" else None
        if m is None or m.op != "fld" or m.a[2] != ni or m.a[0].op != "sym":
            C.unk("names/table", "entries come from %s" % show(x)[:80], where(e))
            continue
        C.expect((k.a[2], v.a[2]) == (1, 0), "names/entry", "the table does not map a node's number to its name",
                 where(e), "number -> name of one node")
        h = [n for n in E._nodes_live() if is_header(n) and in_loop(e.node, n)]
        if len(h) != 1:
            C.unk("names/all", "%d loops" % len(h), where(e))
            continue
        r, why = full_visit(E, h[0], x.a[0], x.a[1])
        skipped = reaches(E, h[0], lambda n: any((tg is h[0] or tg == h[0]) for tg, _ in E.out_edges.get(n, ())) and n != h[0],
                          lambda n: n == e.node)
        C.expect(False if skipped else r, "names/all", why or "a node can be left out of the table of names", where(e),
                 "every node is entered")
