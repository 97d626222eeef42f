"""P23, P24, P26: lines, control blocks, definitions and libraries of a deck."""
from checks_cards import *
from checks_values import Val


def kind_variants(prog):
    a = adt(prog, "analysis::Kind") or adt(prog, "Kind")
    return {v["n"]: i for i, v in enumerate(a["v"])} if a else {}


def cfg_fields(prog):
    a = adt(prog, "Configuration")
    return [f[0] for f in a["v"][0]["f"]] if a else []


def state_same(R, t, but=()):
    """names of the parts of the reader's state that a line may change"""
    out = []
    for r in R.D.f:
        if r not in but:
            o = R.c(R.old(r))
            x = t[R.cols.index(r)]
            if x is not o and R.closure((x,)) != {(o,)}:
                out.append(r)
    for n in R.locals:
        if n not in but:
            o, x = R.c(R.before(n)), t[R.cols.index(n)]
            if x is not o and R.closure((x,)) != {(o,)}:
                out.append(n)
    return out


def pieces(w, x):
    """a path or text as a list of texts and terms"""
    if x.op == "C" and x.a[0] == "s":
        return [x.a[1]]
    if x.op == "C" and x.a[0] == "i":
        return [chr(x.a[1])]
    if x.op == "cat":
        return [p for y in x.a for p in pieces(w, y)]
    if x.op == "app" and x.a[0] == "join_path":
        a, b = pieces(w, x.a[1]), pieces(w, x.a[2])
        return a + ([] if a and isinstance(a[-1], str) and a[-1].endswith("/") else ["/"]) + b
    if x.op == "app" and x.a[0] in ("tostr", "disp", "to_str", "trim"):
        return pieces(w, x.a[1])
    if x.op == "fld" and x.a[0].op == "app" and x.a[0].a[0] == "to_str":
        return pieces(w, x.a[0].a[1])
    return [x]


def glued(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


# ------------------------------------------------------------------------- P23
def p23(C):
    D = deck_of(C)
    if D is None:
        return
    fs = cfg_fields(C.prog())
    need = {"kind", "TSTEP", "TSTOP", "TSTART", "ABSTOL", "RELTOL", "RMAX", "wavefile", "ckt_name"}
    if not need <= set(fs):
        C.unk("anchor", "fields of the configuration not found: %s" % sorted(need - set(fs)))
        return
    T_ = Tok
    cmds = [("op", [T_(lit="op")], "DcOperatingPoint", {}, "dc.dat"),
            ("tran step stop", [T_(lit="tran"), T_(), T_()], "Transient", {"TSTEP": 1, "TSTOP": 2}, "tran.dat"),
            ("tran step stop start", [T_(lit="tran"), T_(), T_(), T_()], "Transient",
             {"TSTEP": 1, "TSTOP": 2, "TSTART": 3}, "tran.dat"),
            (".endc", [T_(lit=".endc")], None, {}, None),
            ("option alone", [T_(lit="option")], None, {}, None),
            ("unknown command", [UNKNOWN, T_()], None, {}, None),
            ("unknown command with a dot", [T_(pre=".", nots=(".endc",)), T_()], None, {}, None),
            ("unknown option", [T_(lit="option"), T_(nots=("ABSTOL", "RELTOL", "RMAX")), T_(lit="="), T_()], None, {}, None)]
    for n in ("ABSTOL", "RELTOL", "RMAX"):
        cmds.append(("option %s" % n, [T_(lit="option"), T_(lit=n), T_(lit="="), T_()], None, {n: 3}, None))

    def one(C, it):
        name = it[0]
        if len(it) == 5:
            C.guard(name, command, C, D, fs, *it)
        else:
            C.guard(name, not_command, C, D, *it)
    C.par(one, cmds + [x for x in card_runs(C, D) if not x[2]])
    C.guard("circuit name", circuit_name, C, D, fs)
    C.guard("configuration", configuration, C, D)
    C.guard("dispatch", dispatch, C, D)


# parts of a name or path
LOSSY = ("file_name", "file_stem", "extension", "parent", "trim_end_matches", "substr", "to_lowercase", "to_uppercase",
         "to_ascii_lowercase", "to_ascii_uppercase", "rsplit_once", "split_once")


def command(C, D, fs, name, toks, kind, vals, wave):
    R = run_card(C, D, name, toks, True)
    w = R.w
    V = Val(R)
    ctl, inside = D._control
    fi, ci = R.cols.index("flag"), R.cols.index("cfg")
    kv = kind_variants(C.prog())
    old = R.c(R.old("cfg"))
    seen = False
    for node, t, facts in R.tuples():
        wh = where_node(R.E, node)
        if t[fi] is w.b(True):
            continue
        seen = True
        cfg = t[ci]
        get = lambda n: R.c(w.fld(cfg, 0, fs.index(n)))
        was = lambda n: R.c(w.fld(old, 0, fs.index(n)))
        for n, i in vals.items():
            num = V.number(V.word(i))
            field_is(C, R, V, name, n, get(n), lambda x: False if x is was(n) else num(x), wh, "word %d" % i)
        if kind is not None:
            k = get("kind")
            inner = lambda y: y.a[1] == kv.get(kind) if y.op == "agg" else False if y is w.fld(was("kind"), 1, 0) else None
            ok = lambda x: V.every(x.a[2], inner) if x.op == "agg" and len(x.a) == 3 and \
                x.a[1] == 1 else False if x is was("kind") or x.op == "agg" and x.a[1] == 0 else None
            field_is(C, R, V, name, "kind", k, ok, wh, kind)
            cn = was("ckt_name")
            want = ["waves/", cn, "/" + wave]

            def bare(p):
                """the name of the circuit, with or without its leading slashes"""
                return isinstance(p, T) and p.op == "app" and p.a[0] == "trim_start_matches" and p.a[1] is cn and show(p.a[2]).strip("'\"") == "/"

            def okw(x):
                if any(y.op == "app" and y.a[0] == "join_path" and y.a[2] is cn for y in subterms(x)):
                    return False        # an absolute name would replace what it is joined to
                g = [cn if bare(p) else p for p in glued(pieces(w, x))]
                if g == want:
                    return True
                if x is was("wavefile") or all(isinstance(p, str) or p is cn for p in g):
                    return False
                if any(y.op == "app" and y.a[0] in LOSSY and any(s is cn for s in subterms(y)) for p in g
                       if isinstance(p, T) for y in subterms(p)):
                    return False
                return None
            field_is(C, R, V, name, "wavefile", get("wavefile"), okw, wh, "waves/<circuit>/" + wave)
        for n in fs:
            if n in vals or kind is not None and n in ("kind", "wavefile"):
                continue
            o = was(n)
            free = n == "TSTART" and kind == "Transient"
            ok = lambda x: True if x is o or free and x is w.f(0.0) else False if x.op in ("C", "agg") or x.op == "fld" and \
                (x.a[0].op == "app" or x.a[0] is old) else None
            field_is(C, R, V, name, n + " kept", get(n), ok, wh, "unchanged")
        ch = state_same(R, t, ("cfg", ctl, "flag"))
        C.expect(not ch, name + "/circuit", "'%s' changes %s" % (name, ", ".join(map(str, ch))), wh,
                 "the circuits are left alone")
        x = t[R.cols.index(ctl)]
        want = w.b(inside.a[1] != (name == ".endc"))
        r = R.closure((x,))
        C.expect(True if r == {(want,)} else False if all(y.op == "C" for (y,) in r) else None, name + "/block",
                 "after '%s' the control block is %s" % (name, show(x)), wh, "the block goes on, up to .endc")
    if not seen:
        C.unk(name, "never taken without an error")


def field_is(C, R, V, name, f, x, ok, wh, good):
    r = V.every(x, ok)
    C.expect(r, "%s/%s" % (name, f), "%s after '%s' is %s" % (f, name, show(x)[:120]), wh, good)


def not_command(C, D, name, toks, ctl):
    R = run_card(C, D, name, toks, ctl)
    w = R.w
    loc, inside = D._control
    old = R.c(R.old("cfg"))
    for node, t, facts in R.tuples():
        wh = where_node(R.E, node)
        if toks and toks[0].lit != ".control":
            x = t[R.cols.index(loc)]
            C.expect(R.closure((x,)) == {(R.c(R.before(loc)),)}, name + "/block", "a '%s' outside a control block opens one"
                     % name, wh, "no control block is opened")
        else:
            x = t[R.cols.index(loc)]
            C.expect(R.closure((x,)) == {(w.b(inside.a[1]),)}, name + "/block", "no control block is opened", wh, "a block is opened")
        for (x,) in R.closure((t[R.cols.index("cfg")],)):
            if nested_state(D, x):
                C.ok(name + "/configuration", "as the nested read left it", wh)
            else:
                C.expect(True if x is old else False, name + "/configuration",
                         "a '%s' outside a control block changes the configuration: %s" % (name, show(x)[:80]), wh, "unchanged")


def nested_state(D, x):
    """a part of the state as a nested read left it"""
    return x.op == "fld" and x.a[0].op == "app" and x.a[0].a[0] == "mut0:fn:" + D.loop[0].name


def circuit_name(C, D, fs):
    R = Cards(C, D, [Tok()], note="start of a deck")
    w, f = R.w, R.fn
    ps = [i for i in range(1, f.argc + 1) if "path::Path" in C.prog().strip(f.locals[i])]
    if len(ps) != 1 or not R.O.heads:
        C.unk("circuit name", "the path of the deck was not recognised")
        return
    path = w.mk("sym", "p%d" % ps[0], f.locals[ps[0]])
    V = Val(R)
    for src, cells, facts in R.O.heads:
        wh = where_node(R.E, src[0])
        rd = R.c(cells[R.rcell])
        cfg = R.c(w.fld(rd, 0, D.f["cfg"]))
        rd0 = w.mk("sym", "p1", D.ty)
        cfg0 = R.c(w.fld(rd0, 0, D.f["cfg"]))

        def ok(x):
            g = glued(pieces(w, x))
            if len(g) == 1 and not isinstance(g[0], str):
                y = g[0]
                while y.op in ("fld", "app") and y is not path:
                    n = [s for s in y.a if isinstance(s, T)]
                    if not n or y.op == "app" and y.a[0] not in ("to_str", "tostr", "disp", "display", "lossy"):
                        break
                    y = n[0]
                if y is path:
                    return True
            if all(isinstance(p, str) for p in g) or x is R.c(w.fld(cfg0, 0, fs.index("ckt_name"))):
                return False
            return None
        x = R.c(w.fld(cfg, 0, fs.index("ckt_name")))
        r = V.every(x, ok)
        C.expect(r, "circuit name", "the name of the circuit is %s" % show(x)[:80], wh, "the path of the deck")
        for n in fs:
            if n == "ckt_name":
                continue
            y, o = R.c(w.fld(cfg, 0, fs.index(n))), R.c(w.fld(cfg0, 0, fs.index(n)))
            C.expect(True if y is o else False if y.op in ("C", "agg") else None, "start/" + n,
                     "%s is %s when reading starts" % (n, show(y)[:60]), wh, "as configured")
        ctl, inside = D._control
        cid = [c.id for c in R.E.ctxs.values() if c.fn is D.loop[0]]
        y = cells.get(("L", cid[0], ctl)) if cid else None
        C.expect(None if y is None or y.op != "C" else y.a[1] != inside.a[1], "start/block",
                 "reading starts inside a control block", wh, "outside")


def configuration(C, D):
    f = C.prog().fn("Reader::configuration")
    if f is None:
        C.unk("configuration", "no Reader::configuration")
        return
    E = Engine(C.prog())
    E.run(f)
    C.ran(E, "configuration")
    w = E.w
    for v, fs, node in E.returns():
        E.cells = E.finals[node]
        x = models.deref(E, v)
        C.expect(True if x.op == "fld" and x.a[0].op == "sym" and x.a[2] == D.f["cfg"] else False if x.op == "agg" else None, "configuration",
                 "the configuration handed out is %s" % show(x)[:80], where_node(E, node), "the one that was read")


class GoOracle(Oracle):
    def __init__(self, ids):
        self.ids = ids

    def opaque(self, fn, args):
        return fn.id in self.ids


def dispatch(C, D):
    """Engine::go runs the analysis asked for"""
    prog = C.prog()
    f = prog.fn("Engine::go")
    tgt = {"DcOperatingPoint": prog.fn("Engine::dc_operating_point"), "Transient": prog.fn("Engine::transient_analysis")}
    kv = kind_variants(prog)
    if f is None or None in tgt.values() or not set(tgt) <= set(kv):
        C.unk("dispatch", "Engine::go or an analysis was not found")
        return
    E = Engine(prog, GoOracle({g.id for g in tgt.values()}))
    E.run(f)
    C.ran(E, "dispatch")
    w = E.w
    K = Canon(E)
    n = {k: 0 for k in tgt}
    seen = {}
    for e in E.all_events("call"):
        for k, g in tgt.items():
            if str(e.data[0]) == g.name:
                ks = variants_of(E, K, e.facts, kv)
                n[k] += 1
                seen.setdefault(k, []).append(e)
                C.expect(True if ks == {kv[k]} else False if ks is not None and kv[k] not in ks else None,
                         "dispatch/" + k, "%s is run for the kinds %s" % (g.name.split("::")[-1], ks), where(e),
                         "run for " + k)
    for k in n:
        if not n[k]:
            C.bad("dispatch/" + k, "%s never runs its analysis" % k, f.name)


def variants_of(E, K, facts, kv):
    """the kinds that the facts leave"""
    cand = None
    w = E.w
    for t, v in facts.items():
        t = K.c(t)
        if t.op == "eq0":
            c, ps = w.lin_parts(t.a[0])
            if len(ps) == 1:
                (x, m), = ps.items()
                if x.op == "discr" and abs(m) == 1 and any(
                        s.op == "fld" for s in subterms(x)) and "Kind" in str(tyname(E, x.a[0])):
                    cand = cand if cand is not None else set(kv.values())
                    cand = {k for k in cand if (k == -c * m) == v}
    return cand


def tyname(E, x):
    """type of a part of a symbol, as far as it is known: parts of options of kinds"""
    if x.op == "fld" and x.a[0].op == "fld":
        return "Kind"
    return ""


# ------------------------------------------------------------------------- P24
def p24(C):
    D = deck_of(C)
    if D is None:
        return
    runs = [("blank line", [], c) for c in (False, True)]
    for c in (False, True):
        runs += [("comment of %d words" % n, [Tok(pre="*")] + [Tok() for _ in range(n - 1)], c) for n in (1, 2, 4)]

    def one(C, it):
        name, toks, ctl = it
        C.guard(name, ignored, C, D, name + (" in a control block" if ctl else ""), toks, ctl)
    C.par(one, runs)
    C.guard("lines", lines_, C, D)
    C.guard("nested title", nested_title, C, D)

    def rest(C, it):
        name, toks, ctl = it
        C.guard(name, to_the_end, C, D, name, toks, ctl)
    ends = [(".end", [Tok(lit=".end")], c) for c in (False, True)] + [("end", [Tok(lit="end")], True)]
    C.par(rest, [x for x in card_runs(C, D) if len(x[1]) != 3] + ends)


def to_the_end(C, D, name, toks, ctl):
    early_exit(C, run_card(C, D, name, toks, ctl), name)


def nested_title(C, D):
    """a file read in has a title too"""
    R = Cards(C, D, [Tok(), Tok(), Tok()], note="nested read", root=D.loop[0])
    w = R.w
    hit = False
    for x in sorted({y for x in R.O.wordtext for y in deep(w, x) if y.op == "sel" and is_lines(R, y.a[0])},
                    key=lambda y: y.id):
        if R.O.nline in w.lin_parts(x.a[1])[1]:
            first_line(C, R, x.a[0], w.isub(x.a[1], R.O.nline))
            hit = True
    if not hit:
        C.unk("title", "the position of the first line of a file read in was not recognised")


def ignored(C, D, name, toks, ctl):
    R = run_card(C, D, name, toks, ctl)
    ts = R.tuples()
    if not ts:
        C.bad(name, "a %s ends the program" % name, D.loop[0].name)
    for node, t, facts in ts:
        ch = state_same(R, t)
        wh = where_node(R.E, node)
        C.expect(not ch, name, "a %s changes %s" % (name, ", ".join(map(str, ch))), wh, "nothing is changed")
        g = R.closure((t[R.cols.index("ghost")],))
        C.expect(g == {(R.w.b(False),)}, name + "/error", "a %s is reported as an error" % name, wh, "no error")
    early_exit(C, R, name)


def early_exit(C, R, name):
    """the loop over the lines ends only when there are no more"""
    E, w = R.E, R.w
    f, h = R.D.loop
    body = f.loops[h]
    for n in list(E.in_edges):
        if n[0].fn is not f or n[1] in body or n[0].id != R.loop_ctx() or n not in E.state:
            continue
        for e, (cells, facts) in E.in_edges[n].items():
            s = e[0]
            if s[0] is not n[0] or s[1] not in body or s not in E.state:
                continue
            if not reaches(E, n, lambda m: m in E.finals):
                continue
            r = exhausted(R, facts)
            C.expect(r, name + "/rest", "the lines after a %s are not read" % name, where_node(E, s), "up to the last line")


def exhausted(R, facts):
    w = R.w
    if R.O.nline is None:
        return None
    for t, v in facts.items():
        t = R.c(t)
        if t.op == "ge0":
            c, ps = w.lin_parts(t.a[0])
            ln = [x for x in ps if x.op == "len" and any(s.op == "app" and s.a[0] in ("lines", "strlines") for s in subterms(x))]
            if R.O.nline in ps and ln:
                if ps[R.O.nline] == 1 and ps[ln[0]] == -1 and v:
                    return True
                if ps[R.O.nline] == -1 and ps[ln[0]] == 1 and v:
                    return False
    return None


def lines_(C, D):
    R = run_card(C, D, "any line", [Tok(), Tok(), Tok()], False)
    E, w = R.E, R.w
    V = Val(R)
    pos = R.O.nline
    # what a line is cut into words from
    if not R.O.wordtext:
        C.unk("text", "the words of a line were not recognised")
    for x in sorted(R.O.seps):
        C.expect((R.O.asked or None) if x == "white space" else False, "text", "the words of a line are cut at %s alone" % x, D.loop[0].name)
    for x in R.O.wordtext:
        C.expect(card_text(R, x), "text", "the words of a line are those of %s" % show(R.c(x))[:120], D.loop[0].name,
                 "the line up to the first semicolon")
    hit = False
    for x in sorted({y for x in R.O.wordtext for y in deep(w, x) if y.op == "sel" and is_lines(R, y.a[0])},
                    key=lambda y: y.id):
        c, ps = w.lin_parts(x.a[1])
        if pos in ps:
            first_line(C, R, x.a[0], w.isub(x.a[1], pos))
            hit = True
    if not hit:
        C.unk("title", "the position of the first line was not recognised")
    # one line after another
    hits = 0
    for src, cells, facts in R.backs:
        cid = R.loop_ctx()
        for k, v in cells.items():
            if k[0] == "L" and k[1] == cid and k[2] in R.O.chg and v.op == "agg" and v.a[0] == "it" and is_lines(R, R.c(v.a[2])):
                hits += 1
                d = R.c(w.isub(R.c(v.a[3]), pos))
                b = [R.c(w.isub(R.c(hv.a[3]), pos)) for hv in [x for x in header_its(R, k)]]
                step = R.c(w.isub(R.c(v.a[3]), b[0])) if b else None
                s = R.w.cint(R.c(w.isub(d, start_pos(R, k)))) if start_pos(R, k) is not None else None
                C.expect(None if s is None else s == 1, "each", "a line is followed by the line %s after it" % s,
                         where_node(E, src[0]), "every line once, in order")
    if not hits:
        C.unk("each", "the lines were not recognised")


def header_its(R, k):
    return []


def start_pos(R, k):
    """position of the iterator k where the loop is entered"""
    out = set()
    for src, cells, facts in R.O.heads:
        v = cells.get(k)
        if v is not None and v.op == "agg" and v.a[0] == "it":
            out.add(R.c(v.a[3]))
    return out.pop() if len(out) == 1 else None


def is_lines(R, x):
    return any(s.op == "app" and s.a[0] in ("lines", "strlines") for s in subterms(x)) and \
        x.op == "app" and x.a[0] in ("lines", "strlines")


SEMI = (";", ord(";"))


def semi(p):
    return p.op == "C" and p.a[1] in SEMI


def cut_at(R, p):
    """True: the pattern p is a semicolon and nothing else, False: it is not, None: it can't be told"""
    if p.op == "C":
        return semi(p)
    if p.op == "Ref":
        return None
    if p.op == "arr":
        return all(semi(x) for x in p.a) and bool(p.a) if all(x.op == "C" for x in p.a) else None
    if p.op == "agg" and str(p.a[0]).startswith("closure:") and len(p.a) == 2:
        fn = R.D.prog.fns.get(p.a[0][8:])
        if fn is None or fn.argc != 2 or R.D.prog.strip(fn.locals[2]) != "char":
            return None
        hits = set()
        for ch in range(1, 127):
            E = Engine(R.D.prog, Oracle(), limit=200)
            E.run(fn, args={2: E.w.c(ch)})
            rs = {c.get(("L", E.root.id, 0)) for c in E.finals.values()}
            if not rs or not all(r is not None and r.op == "C" and r.a[0] == "b" for r in rs) or len(rs) > 1:
                return None
            if next(iter(rs)).a[1]:
                hits.add(ch)
        return hits == {ord(";")}
    return None


def no_semi(R, x, facts):
    """do the facts say that x has no semicolon?"""
    w = R.w
    for f, v in facts.items():
        for t in subterms(f):
            if t.op == "app" and t.a[0] in ("contains", "split_once", "find") and len(t.a) > 2 and t.a[1] is x and semi(t.a[2]):
                if t.a[0] == "contains":
                    if R.E.truth(t, facts) is False:
                        return True
                elif R.E.truth(w.eq0(w.mkr("discr", t)), facts) is True or \
                        R.E.truth(w.eq0(w.isub(w.mkr("discr", t), w.i(1))), facts) is False:
                    return True
    return False


def card_text(R, x, facts=None):
    w = R.w
    facts = facts or {}
    line = lambda y: y.op == "fld" and y.a[0].op == "sel" and is_lines(R, y.a[0].a[0]) or y.op == "sel" and is_lines(R, y.a[0])
    cut = False
    x = R.c(x)
    while True:
        if line(x):
            return cut or no_semi(R, x, facts)
        if x.op == "phi":
            rs = [card_text(R, y, {**facts, **fs}) for y, fs in with_facts(R, x)]
            if cut:
                return None
            return False if False in rs else None if None in rs or not rs else True
        if x.op == "app" and x.a[0] in ("trim", "tostr"):
            x = x.a[1]
        elif x.op == "sel" and x.a[0].op == "app" and x.a[0].a[0] in ("split", "splitn"):
            s = x.a[0]
            p = s.a[3] if s.a[0] == "splitn" and len(s.a) > 3 else s.a[2] if len(s.a) > 2 else None
            k = None if p is None else cut_at(R, p)
            if k is None:
                return None
            if not k:
                return False
            i = w.cint(x.a[1])
            if i is None:
                return None
            if i != 0:
                return False
            cut, x = True, s.a[1]
        elif x.op == "fld" and x.a[0].op == "fld" and x.a[0].a[0].op == "app" and x.a[0].a[0].a[0] == "split_once":
            s = x.a[0].a[0]
            if s.a[2].op != "C":
                return None
            if not semi(s.a[2]) or x.a[2] != 0:
                return False
            cut, x = True, s.a[1]
        elif x.op == "app" and x.a[0] in ("slice", "substr") and w.cint(x.a[2]) == 0:
            fd = [t for t in subterms(x) if t.op == "app" and t.a[0] == "find" and t.a[1] is x.a[1]]
            if not fd or not semi(fd[0].a[2]):
                return None
            n = w.fld(fd[0], 1, 0)
            ends = [R.c(t) for t in x.a[3:]]
            if n not in ends:
                return None
            cut, x = True, x.a[1]
        else:
            return None


def title_within(C, R):
    """the loop over the lines does nothing at the title"""
    if not (R.O.within and R.O.title_asked):
        return False
    T = Cards(C, R.D, [Tok(), Tok(), Tok()], note="title", root=R.fn, titled=True)
    ts = T.tuples()
    return bool(ts) and all(not state_same(T, t) and T.closure((t[T.cols.index("ghost")],)) == {(T.w.b(False),)} for _, t, _ in ts)


def first_line(C, R, lines, base):
    w = R.w
    n = R.c(w.len(lines))
    for v, facts in with_facts(R, base):
        k = w.cint(v)
        # a file without a line has no first line
        empty = R.E.truth(w.eq0(n), facts)
        if empty is None and R.E.truth(w.ge0(w.isub(w.i(0), n)), facts):
            empty = True
        if k == 1 or empty:
            C.ok("title", "the first line is not read as a card", R.fn.name)
        else:
            if k == 0 and title_within(C, R):
                C.ok("title", "the first line changes nothing", R.fn.name)
                continue
            p = inner_phi(v)
            far = k is None and p is not None and any(
                p in R.w.lin_parts(R.c(o))[1] and R.w.cint(R.w.isub(R.c(o), p)) not in (None, 0) for o in phi_edges(R.E, p)[1].values())
            C.expect(None if k is None and not far else False, "title", "reading of cards starts at line %s" % show(v), R.fn.name)


def with_facts(R, x):
    """[(value, facts)] of a term, its joins opened one by one"""
    E = R.E
    x = R.c(x)
    p = inner_phi(x)
    if p is None:
        for q in subterms(x):
            if q.op == "phi":
                p = q
                break
    if p is None:
        return [(x, {})]
    out = []
    n = phi_node(E, p)
    for e, o in R.w.phi_ops.get(p.id, {}).items():
        st = E.in_edges[n].get(e)
        fs = {R.c(a): b for a, b in st[1].items()} if st else {}
        out.append((R.c(R.w.subst(x, {p: o})), fs))
    return out


# ------------------------------------------------------------------------- P26
def p26(C):
    D = deck_of(C)
    if D is None:
        return
    runs = [x for x in card_runs(C, D) if not x[2] and x[1][0].lit is None]
    runs += [(n, t, c) for n, t, c in card_runs(C, D) if c or t[0].lit == ".control"]

    def one(C, it):
        if it[0] == "#":
            C.guard(it[1], it[2], C, D, *it[3:])
        else:
            C.guard(it[0], own_circuit, C, D, *it)
    S = [("#", "definition", definition), ("#", "end of definition", end_of_definition), ("#", "definition in definition", inside),
         ("#", "missing .ends", missing_ends), ("#", "library call", library_call), ("#", "library", library),
         ("#", "new reader", new_reader)]
    C.par(one, S + runs)


def own_circuit(C, D, name, toks, ctl=False):
    """a card changes only the circuit being read"""
    R = run_card(C, D, name, toks, ctl)
    w = R.w
    old, cur = R.c(R.old("ckts")), R.c(R.old("cur"))
    for node, t, facts in R.tuples():
        wh = where_node(R.E, node)
        for ck, cu in R.closure((t[R.cols.index("ckts")], t[R.cols.index("cur")])):
            r = only_at(R, ck, old, cur)
            C.expect(r, name + "/circuit", "a %s changes %s" % (name, show(ck)[:100]), wh, "only the circuit being read")
            C.expect(True if cu is cur else False if cu.op == "C" else None, name + "/current",
                     "after a %s cards go to circuit %s" % (name, show(cu)[:60]), wh, "the same circuit goes on")


def only_at(R, x, old, cur, seen=None):
    seen = set() if seen is None else seen
    while x.op == "store":
        if R.c(x.a[1]) is not cur:
            return False if x.a[1].op in ("C", "sym") else None
        x = x.a[0]
    if x is old or x in seen:
        return True
    if inner_phi(x) is x:
        seen.add(x)
        rs = []
        for o in R.w.phi_ops.get(x.id, {}).values():
            rs.append(only_at(R, R.c(o), old, cur, seen))
        return False if False in rs else None if None in rs or not rs else True
    return False if x.op in ("push", "arr") else None


def in_subckt_state(C, D):
    """(local, value inside) of the state that says a definition is being read"""
    R = Cards(C, D, [Tok(lit=".ends")], note=".ends", over={D._control[0]: not D._control[1].a[1]})
    S = Cards(C, D, [Tok(lit=".subckt"), Tok(assign=False)], note=".subckt", over={D._control[0]: not D._control[1].a[1]})
    out = set()
    for n in R.locals:
        a = {x for _, t, _ in R.tuples() for (x,) in R.closure((t[R.cols.index(n)],))}
        b = {x for _, t, _ in S.tuples() for (x,) in S.closure((t[S.cols.index(n)],))}
        a = {(x.a[0], x.a[1]) if x.op == "C" else x for x in a}
        b = {(x.a[0], x.a[1]) if x.op == "C" else x for x in b}
        if len(a) == len(b) == 1 and a != b and all(isinstance(x, tuple) for x in a | b):
            out.add((n, b.pop()[1]))
    return out.pop() if len(out) == 1 else None


def definition(C, D):
    T_ = Tok
    for ports, params in ((0, 0), (2, 0), (1, 1), (3, 2), (0, 1)):
        name = ".subckt with %d ports and %d parameters" % (ports, params)
        toks = [T_(lit=".subckt"), T_(assign=False)] + [T_(assign=False) for _ in range(ports)] + \
            [T_(parts=(None, "=")) for _ in range(params)]
        R = run_card(C, D, name, toks, False)
        w = R.w
        V = Val(R)
        old = R.c(R.old("ckts"))
        cf = R.fieldmap["Circuit"]
        P = R.fieldmap["Parameter"]
        fi = R.cols.index("flag")
        seen = 0
        for node, t, facts in R.tuples():
            for ck, cu, fl in R.closure((t[R.cols.index("ckts")], t[R.cols.index("cur")], t[fi])):
                if fl is w.b(True):
                    continue
                seen += 1
                wh = where_node(R.E, node)
                C.expect(True if cu is w.len(old) else False if cu.op in ("C", "sym") else None, "definition/current",
                         "after %s cards go to circuit %s" % (name, show(cu)), wh, "the new circuit")
                if ck.op != "push" or ck.a[0] is not old:
                    C.expect(False if ck is old or ck.op == "arr" else None, "definition/new",
                             "the circuits after %s are %s" % (name, show(ck)[:100]), wh)
                    continue
                c = ck.a[1]
                part = lambda n: R.c(w.fld(c, 0, cf[n]))
                x = part("name")
                C.expect(True if x is R.O.tok(1) else False if x.op in ("C", "sym") else None, "definition/name",
                         "the name of a definition is %s" % show(x)[:60], wh, "the first word")
                C.expect(w.cint(part("num_ports")) == ports if w.cint(part("num_ports")) is not None else None,
                         "definition/ports", "a %s has %s ports" % (name, show(part("num_ports"))), wh, "one per port")
                # the ports are the first nodes, in their order
                x, got = part("nodes"), []
                while x.op == "app" and str(x.a[0]) == "after_node:nodes":
                    got.insert(0, x.a[2])
                    x = x.a[1]
                C.expect(got == [R.O.tok(2 + i) for i in range(ports)] if x.op != "phi" else None, "definition/port order",
                         "the first nodes of a %s are %s" % (name, ", ".join(show(g) for g in got)), wh, "the ports, in their order")
                base = ground_only(R, x)
                C.expect(base, "definition/nodes", "a new definition starts with the nodes %s" % show(x)[:60], wh, "only ground")
                for n in ("elements", "instances"):
                    y = part(n)
                    C.expect(True if y.op == "arr" and not y.a else False if y.op in ("arr", "push", "fld") else None,
                             "definition/empty", "a new definition starts with the %s %s" % (n, show(y)[:60]), wh, "none")
                ps = part("params")
                xs = list_items(w, ps)
                if xs is None:
                    C.unk("definition/parameters", show(ps)[:100], wh)
                    continue
                C.expect(len(xs) == params, "definition/parameters", "a %s keeps %d parameters" % (name, len(xs)), wh, "all kept")
                for i, q in enumerate(xs[:params]):
                    if q.op != "agg":
                        C.unk("definition/parameter", show(q)[:80], wh)
                        continue
                    nm, dv = q.a[2 + P["name"]], q.a[2 + P["defval"]]
                    a, b = R.O.part(2 + ports + i, 0), R.O.part(2 + ports + i, 1)
                    C.expect(True if nm is a else False if nm.op in ("C", "sym") else None, "definition/parameter",
                             "the name of a parameter is %s" % show(nm)[:60], wh, "the text before =")
                    C.expect(V.every(dv, V.expr(lambda y: V.same(y, b))), "definition/default",
                             "the default of a parameter is %s" % show(dv)[:80], wh, "the text after =")
        if not seen:
            C.unk("definition", "%s is always an error" % name)


def list_items(w, x):
    out = []
    while x.op == "push":
        out.insert(0, x.a[1])
        x = x.a[0]
    return list(x.a) + out if x.op == "arr" else None


def ground_only(R, x):
    n = 0
    while x.op == "app" and str(x.a[0]) in ("hm_ins",):
        if R.w.cint(x.a[3]) != 0:
            return False
        n += 1
        x = x.a[1]
    return True if x.op == "app" and x.a[0] == "hm_new" else None if x.op != "fld" else False


def end_of_definition(C, D):
    st = in_subckt_state(C, D)
    name = ".ends"
    ctl = D._control
    for v in ((True, False) if st else (None,)):
        over = {ctl[0]: not ctl[1].a[1]}
        if st:
            over[st[0]] = v
        for words in (1, 2):
            R = Cards(C, D, [Tok(lit=".ends")] + [Tok()] * (words - 1), note=".ends", over=over)
            w = R.w
            for node, t, facts in R.tuples():
                wh = where_node(R.E, node)
                for ck, cu, fl in R.closure((t[R.cols.index("ckts")], t[R.cols.index("cur")], t[R.cols.index("flag")])):
                    C.expect(w.cint(cu) == 0 if cu.op in ("C", "sym") or cu.op == "lin" and
                             set(w.lin_parts(cu)[1]) == {R.c(R.old("cur"))} else None, ".ends/current",
                             "after .ends cards go to circuit %s" % show(cu), wh, "the top level")
                    C.expect(True if ck is R.c(R.old("ckts")) else None if ck.op == "phi" else False, ".ends/circuits",
                             ".ends changes the circuits", wh, "unchanged")
                    if st and v == st[1]:
                        C.expect(fl is R.c(R.old("flag")), ".ends/no error", "the .ends of a definition is an error", wh, "no error")
                    elif st:
                        C.expect(fl is w.b(True), ".ends/stray", "an .ends without a definition is accepted", wh, "an error")


def inside(C, D):
    """a definition within a definition is an error"""
    toks = [Tok(lit=".subckt"), Tok(assign=False), Tok(assign=False)]
    R = run_card(C, D, ".subckt", toks, False)
    w = R.w
    cur = R.c(R.old("cur"))
    n = 0
    for node, t, facts in R.tuples():
        top = R.E.truth(w.eq0(cur), facts)
        for (fl,) in R.closure((t[R.cols.index("flag")],)):
            if fl is w.b(True):
                n += 1
                continue
            C.expect(True if top is True else None if n or any("cur" in show(x) for x in facts) else False, "definition in definition",
                     "a .subckt inside a definition can be accepted", where_node(R.E, node), "only at the top level")


def missing_ends(C, D):
    st = in_subckt_state(C, D)
    if st is None:
        C.unk("missing .ends", "the state of a definition was not recognised")
        return
    ctl = D._control
    R = Cards(C, D, [Tok()], note="end of file", over={ctl[0]: not ctl[1].a[1], st[0]: st[1]})
    E, w = R.E, R.w
    n = 0
    for v, fs, node in E.returns():
        rd = E.finals[node][("A", 1)]
        for (fl,) in R.closure((R.c(w.fld(rd, 0, D.f["flag"])),)):
            n += 1
            C.expect(True if fl is w.b(True) else False if fl in (R.c(R.old("flag")), w.b(False)) else None, "missing .ends",
                     "a file that ends inside a definition is accepted", where_node(E, node), "an error")
    if not n:
        C.ok("missing .ends", "the program stops", R.fn.name)


def new_reader(C, D):
    f = C.prog().fn("Reader::new")
    if f is None:
        C.unk("new reader", "no Reader::new")
        return
    E = Engine(C.prog())
    E.run(f)
    C.ran(E, "new reader")
    w = E.w
    for v, fs, node in E.returns():
        g = lambda r: w.fld(v, 0, D.f[r])
        C.expect(True if w.cint(g("cur")) == 0 else False if g("cur").op == "C" else None, "new reader/current",
                 "a new reader adds to circuit %s" % show(g("cur")), where_node(E, node), "the top level")
        k = w.cint(w.len(g("ckts")))
        C.expect(None if k is None else k == 1, "new reader/circuits", "a new reader has %s circuits" % k, where_node(E, node),
                 "the top level")
        C.expect(True if g("flag") is w.b(False) else False if g("flag").op == "C" else None, "new reader/errors",
                 "a new reader has errors", where_node(E, node), "none")


def library_reads(C, D):
    """[(reader before, path, mode, node)] of the reads that a .lib card leads to"""
    R = run_card(C, D, ".lib", [Tok(lit=".lib"), Tok(), Tok()], False)
    F = D.loop[0]
    tn = [C.prog().strip(F.locals[i]) for i in range(1, F.argc + 1)]
    out = []
    for node, t, facts in R.tuples():
        for (ck,) in R.closure((t[R.cols.index("ckts")],)):
            y = ck
            while y.op in ("fld", "sel"):
                y = y.a[0]
            out.append((y if y.op == "app" and y.a[0] == "mut0:fn:" + F.name else None, t, node))
    return R, out


def library_call(C, D):
    R, reads = library_reads(C, D)
    w, F = R.w, D.loop[0]
    ps = [i for i in range(1, R.fn.argc + 1) if "path::Path" in C.prog().strip(R.fn.locals[i])]
    path = w.mk("sym", "p%d" % ps[0], R.fn.locals[ps[0]]) if ps else None
    if not reads:
        C.bad("library call", "a .lib card stops the program", F.name)
    for y, t, node in reads:
        wh = where_node(R.E, node)
        if y is None:
            C.unk("library call", "the read of the library was not recognised", wh)
            continue
        xs = [a for a in y.a[1:] if isinstance(a, T)]
        want = w.app("join_path", w.fld(w.app("parent", path), 1, 0), R.O.tok(1))
        paths = lambda a: a.op == "app" and a.a[0] in ("join_path",) or a is R.O.tok(1) or a is path
        pt = []
        for a in xs:
            alt = [v for (v,) in R.closure((a,))] if a.op == "phi" else [a]
            if alt and all(paths(v) for v in alt):
                pt.append(alt)
        for p in pt[0] if len(pt) == 1 else (None,):
            C.expect(None if p is None else True if p is R.c(want) else False if R.O.tok(1) not in set(subterms(p)) or
                     path not in set(subterms(p)) else None, "library call/file",
                     "the file of a .lib card is %s" % ", ".join(show(a)[:80] for b in pt for a in b), wh, "relative to the deck")
        md = [a for a in xs if a.op == "agg" and len(a.a) == 3 and a.a[0] != D.ty]
        C.expect(None if len(md) != 1 else True if md[0].a[2] is R.O.tok(2) else False if md[0].a[2].op in ("C", "sym") else None,
                 "library call/section", "the section of a .lib card is %s" % ", ".join(show(a)[:80] for a in md), wh,
                 "the second word")
        rd = [a for a in xs if a.op == "agg" and a.a[0] == R.reader.a[0] or a is R.reader]
        C.expect(None if len(rd) != 1 else rd[0] is R.c(R.reader), "library call/state",
                 "a library is read into %s" % ", ".join(show(a)[:80] for a in rd), wh, "the circuits read so far")
        ch = []
        for n in R.locals:
            if t[R.cols.index(n)] is not R.c(R.before(n)):
                ch.append(n)
        C.expect(not ch, "library call/deck", "a .lib card changes how the deck is read", wh, "the deck goes on as before")


def library(C, D):
    """only the section asked for is read"""
    R0, reads = library_reads(C, D)
    mode = None
    for y, t, node in reads:
        if y is None:
            continue
        for i, a in enumerate([a for a in y.a[1:] if isinstance(a, T)]):
            if a.op == "agg" and len(a.a) == 3 and a.a[0] != D.ty:
                mode = a
    F = D.loop[0]
    pm = [i for i in range(1, F.argc + 1) if mode is not None and C.prog().strip(F.locals[i]).split("::")[-1] ==
          str(mode.a[0]).split("::")[-1]]
    if mode is None or len(pm) != 1:
        C.unk("library", "the way a library is asked for was not recognised")
        return
    ctl = D._control

    def run(toks, over=None):
        o = {ctl[0]: not ctl[1].a[1]}
        o.update(over or {})
        return LibRun(C, D, toks, pm[0], mode, over=o)
    # the state that says the section has been found
    R = run([Tok(lit=".lib"), Tok()])
    out = set()
    for node, t, facts in R.tuples():
        for n in R.locals:
            for (x,) in R.closure((t[R.cols.index(n)],)):
                if x.op == "C" and x is not R.c(R.before(n)):
                    out.add((n, x.a[1]))
    if len(out) != 1:
        C.unk("library", "the state of a library section was not recognised (%s)" % out)
        return
    n, v = out.pop()
    for src, cells, facts in R.O.heads:
        x = cells.get(("L", R.loop_ctx(), n))
        C.expect(None if x is None or x.op != "C" else x.a[1] != v, "library/start", "the whole library file is read",
                 where_node(R.E, src[0]), "nothing is read before the section")
    # outside the section
    lt = lambda R: w_app(R)
    for name, toks in (("card", [Tok(), Tok(), Tok(), Tok()]), (".lib of another section", [Tok(lit=".lib"), Tok()]),
                       (".control", [Tok(lit=".control")]), (".subckt", [Tok(lit=".subckt"), Tok(), Tok()]),
                       (".ends", [Tok(lit=".ends")]), (".endl", [Tok(lit=".endl")])):
        R = run(toks, {n: not v})
        w = R.w
        sect = w.sym("section", "std::string::String")
        for node, t, facts in R.tuples():
            found = any(x.op == "eq" and sect in x.a and val for x, val in facts.items())
            wh = where_node(R.E, node)
            ch = state_same(R, t, (n,))
            C.expect(not ch, "library/outside", "a %s outside the section changes %s" % (name, ", ".join(map(str, ch))), wh,
                     "skipped")
            for (x,) in R.closure((t[R.cols.index(n)],)):
                if x.op != "C":
                    C.unk("library/found", show(x)[:60], wh)
                elif x.a[1] == v:
                    C.expect(True if found else False, "library/found", "a %s starts the section, whatever its name" % name,
                             wh, "the section is found by its name")
                else:
                    C.expect(not found if toks[0].lit == ".lib" else True, "library/found", "the section is never found", wh,
                             "other sections are skipped")
    # inside
    over = {n: v}
    R = run([Tok(lit=".endl")], over)
    for node, t, facts in R.tuples():
        for (x,) in R.closure((t[R.cols.index(n)],)):
            C.expect(x.a[1] != v if x.op == "C" else False if any(x is R.c(R.before(m)) for m in R.locals) else None, "library/end", ".endl does not end the section", where_node(R.E, node),
                     "the section ends")
    R = run([Tok(pre="X"), Tok(assign=False), Tok(assign=False)], over)
    cf = R.D.cf
    k = 0
    for node, t, facts in R.tuples():
        for e, i in R.closure(grown(R, t)):
            k += 1
            C.expect(i.op == "push" if i.op in ("push", "fld") else None, "library/inside",
                     "cards of the section are not read", where_node(R.E, node), "read like those of a deck")
    if not k:
        C.bad("library/inside", "cards of the section stop the program", F.name)
    # a section that is not there
    end = done_state(C, D, run, n, v)
    R = run([Tok()], {n: not v, **({end[0]: not end[1]} if end else {})})
    rs = R.E.returns()
    C.expect(None if end is None else not rs, "library/missing", "a library without the section is accepted", F.name,
             "the program stops")


def w_app(R):
    return None


def done_state(C, D, run, n, v):
    """the state that says the section has been read to its end"""
    R = run([Tok(lit=".endl")], {n: v})
    out = set()
    for node, t, facts in R.tuples():
        for m in R.locals:
            if m == n:
                continue
            for (x,) in R.closure((t[R.cols.index(m)],)):
                if x.op == "C" and x is not R.c(R.before(m)):
                    out.add((m, x.a[1]))
    return out.pop() if len(out) == 1 else None


class LibRun(Cards):
    """a library file being read for a section called `section`"""

    def __init__(self, C, D, toks, pm, mode, over=None):
        self.pm, self.mode = pm, mode
        Cards.__init__(self, C, D, toks, note="library", over=over, root=D.loop[0])

    def start(self, E):
        w = E.w
        return {self.pm: w.agg(self.mode.a[0], self.mode.a[1], [w.sym("section", "std::string::String")])}
