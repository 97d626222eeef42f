"""P18: failures of reading and writing files."""
from cards import *

FALLIBLE = ("File::open", "File::create", "File::create_new", "fs::create_dir_all", "fs::create_dir", "fs::write",
            "fs::read_to_string", "fs::rename", "fs::copy", "fs::remove_file", "fs::remove_dir_all",
            "OpenOptions::open", "fs::canonicalize", "Path::canonicalize", "Path::try_exists")


def p18(C):
    prog = C.prog()
    S = Stamps(prog)
    if prog.fn("Engine::transient_analysis") is None:
        C.unk("write", "no transient analysis")
    else:
        C.guard("write", writing, C, S)
    D = Deck(prog)
    if D.why:
        C.unk("read", D.why)
    else:
        C.guard("read", reading, C, D)


def writing(C, S):
    R = TRun(C, S, "R")
    n = every(C, R, "write", {})
    if not n:
        C.unk("write", "no input or output in the transient analysis")
    for e in R.E.all_events("write"):
        buffered(C, R, e)
        if e.data[2] == "Write::write":
            C.expect(counted(R, e), "write/whole", "a single call of write may write only a part of the data", where(e),
                     "")
        else:
            C.ok("write/whole", "written in whole", where(e))


def counted(R, e):
    """is the number of bytes written looked at?"""
    n = R.w.fld(e.data[3], 0, 0)
    used = any(n in set(subterms(f)) for st in R.E.in_edges.values() for x in st.values() for f in x[1])
    return None if used else False


def reading(C, D):
    R = CardRun(C, D, [Tok(lit="R1"), Tok(), Tok(), Tok()], note="any line")
    ends = {}
    for src, cells, facts in R.backs:
        ends.setdefault(src[0], []).append(facts)
    if not every(C, R, "read", ends):
        C.unk("read", "the deck is not opened in Reader::read")
    # the lines themselves
    f, h = D.loop
    E, w = R.E, R.w
    ds = {}
    for tg, es in E.in_edges.items():
        for e, st in es.items():
            for x in st[1]:
                for s in subterms(x):
                    if s.op == "discr" and any(y.op == "app" and y.a[0] in ("lines", "strlines") for y in subterms(s)) \
                            and item(s.a[0]):
                        ds.setdefault(s.a[0], set()).add(tg)
    if not ds:
        src = [x for _, cells, _ in E.oracle.heads for v in cells.values() for x in subterms(v)
               if x.op == "app" and x.a[0] == "strlines"]
        if src:
            C.ok("read/lines", "the lines of a text read as a whole", f.name)
        else:
            C.unk("read/lines", "how failing lines are treated was not recognised", f.name)
        return
    for x in ds:
        tr = frozenset([x])
        starts = [(tg, tr) for tg, es in E.in_edges.items()
                  if any(err(E, w, tr, st[1]) == -1 and err(E, w, tr, E.state[ed[0]][1]) == 0
                         for ed, st in es.items() if ed[0] in E.state)]
        r, n = silent(R, starts, ends)
        say(C, R, "read/lines", r, n, "a line that can't be read", f.name)


def item(t):
    return t.op == "sel" and t.a[0].op == "app" and t.a[0].a[0] in ("lines", "strlines")


def every(C, R, what, ends):
    E = R.E
    n = 0
    for e in E.all_events("io"):
        if e.data[0] not in FALLIBLE:
            continue
        n += 1
        r, at = silent(R, after(E, e), ends)
        say(C, R, "%s/%s" % (what, e.data[0]), r, at, "a failure of %s" % e.data[0], where(e))
    for k in ("write", "flush"):
        for e in E.all_events(k):
            n += 1
            r, at = silent(R, after(E, e), ends)
            say(C, R, "%s/%s" % (what, e.data[2]), r, at, "a failure of %s" % e.data[2], where(e))
    return n


def after(E, e):
    res = e.data[-1]
    return [(e.node, frozenset([res]))]


def say(C, R, ob, r, at, what, wh):
    w = (" (%s)" % where_node(R.E, at)) if at is not None else ""
    C.expect(r, ob, {False: "%s can go unnoticed: the program carries on without a message%s",
                     None: "%s: its treatment was not recognised%s", True: "%s%s"}[r] % (what, w), wh,
             "a failure ends the program or is reported")


def err(E, w, tr, facts):
    """1 when facts decide a tracked result to be Ok, -1 for Err, 0 undecided"""
    for x in tr:
        for f, v in facts.items():
            if f.op == "eq0" and any(s.op == "discr" and s.a[0] is x for s in subterms(f)):
                d = w.mk("discr", x)
                # Result: Ok = 0, Err = 1
                o, b = E.truth(w.eq0(d), facts), E.truth(w.eq0(w.isub(d, w.i(1))), facts)
                if o is True or b is False:
                    return 1
                if b is True or o is False:
                    return -1
            if f.op == "app" and x in f.a:
                if f.a[0] == "is_ok":
                    return 1 if v else -1
                if f.a[0] == "is_err":
                    return -1 if v else 1
    return 0


def silent(R, starts, ends):
    """can the program carry on after the Err alternative without a message?
    (False, node) when it can, (True, None) when not, (None, node) unknown"""
    E, w = R.E, R.w
    msgs = {}
    for e in E.all_events("print"):
        msgs.setdefault(e.node, []).append(e)
    rets = {n for _, _, n in E.returns()}
    seen, st = set(), list(starts)
    first = True
    bad = odd = None
    while st:
        n, tr = st.pop()
        if (n, tr) in seen:
            continue
        seen.add((n, tr))
        if len(seen) > 20000:
            return None, n
        if n in msgs and any(err(E, w, tr, e.facts) == -1 and tells(e.data[0], tr) for e in msgs[n]):
            continue
        if n in rets or any(err(E, w, tr, f) != 1 for f in ends.get(n, ())):
            bad = n
            if n in rets and handed_back(R, n, tr):
                bad = None
                odd = n
            if bad is not None:
                break
            continue
        for tg, k in E.out_edges.get(n, ()):
            ed = (n, k)
            s = E.in_edges.get(tg, {}).get(ed)
            if s is None:
                continue
            fs = s[1]
            if err(E, w, tr, fs) == 1:
                continue
            t2 = set(tr)
            for p in phi_at(E, tg):
                o = w.phi_ops.get(p.id, {}).get(ed)
                if o is not None and o in tr:
                    t2.add(p)
            st.append((tg, frozenset(t2)))
    if bad is not None:
        return False, bad
    return (None, odd) if odd is not None else (True, None)


def tells(t, tr):
    s = " ".join(texts(t)).upper()
    return any(x in s for x in ("ERR", "FATAL", "WARN", "CAN'T", "CANNOT", "FAIL", "COULD", "UNABLE")) or \
        bool(set(subterms(t)) & tr)


def handed_back(R, n, tr):
    for v, fs, m in R.E.returns():
        if m == n and (v is R.w.b(True) or set(subterms(v)) & tr or (v.op == "agg" and "Result" in str(v.a[0]) and v.a[1] == 1)):
            return True
    return False


def buffered(C, R, e):
    """data in a buffer is flushed, and the flush looked at"""
    E = R.E
    f = R.c(e.data[0])
    b = [x for x in subterms(f) if x.op == "app" and x.a[0] == "bufwriter"]
    if not b:
        C.ok("write/buffer", "written without a buffer", where(e))
        return
    fl = {x.node for x in E.all_events("flush") if R.c(x.data[0]) is f or b[0] in set(subterms(R.c(x.data[0])))}
    rets = {n for _, _, n in E.returns()}
    if e.node in fl:
        C.unk("write/buffer", "a flush in the same block", where(e))
        return
    hit = reaches(E, e.node, lambda n: n in rets, lambda n: n in fl)
    C.expect(not hit, "write/buffer", "buffered data may never be flushed: a failure to write it out is dropped silently",
             where(e), "flushed before the end")
