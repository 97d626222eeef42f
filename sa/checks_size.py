"""P15: sizes of the systems and numbering of the unknowns."""
from checks_elem import *

# kinds whose equations have a branch current of their own
BRANCH = ("V", "Vsin", "Vpwl", "Vcvs")


def p15(C):
    prog = C.prog()
    S = Stamps(prog)
    if S.nfn is None or S.vfn is None:
        C.unk("counts", "the functions counting nodes and branches were not found")
        return
    for k in S.kinds.order:
        if k not in KINDS:
            C.unk("nodes/" + k, "unknown element kind")
            continue
        C.guard("nodes/" + k, fold, C, S, S.nfn, k, "nodes")
        C.guard("branches/" + k, fold, C, S, S.vfn, k, "branches")
    C.guard("system", system, C, S)
    C.guard("numbering", numbering, C, S)


# ------------------------------------------------------------------ the counts
class KRun(FRun):
    def __init__(self, C, S, fn, kind):
        self.C, self.S, self.fn = C, S, fn
        self.E = S.run(fn, kind, {})
        C.ran(self.E, "circuits of %s" % kind)
        self.w = self.E.w
        self.K = Canon(self.E)
        self.rank = rpo(self.E)
        self.names = set()


def leaves(t, op):
    if t.op == "app" and t.a[0] == op:
        out = []
        for x in t.a[1:]:
            out += leaves(x, op)
        return out
    k, d = t.w.lin_parts(t)
    if k and len(d) == 1:
        # max(a, b) + k
        (x, c), = d.items()
        if c == 1 and x.op == "app" and x.a[0] == op:
            return [t.w.iadd(y, t.w.i(k)) for y in leaves(x, op)]
    return [t]


def order(w, claim, atoms, facts, top=6):
    """does a claim about sizes hold for all small values of the atoms that agree with the facts about them?
    True, a dict of values for which it fails, or None"""
    import itertools
    atoms = list(atoms)

    def ev(t, v):
        if t in v:
            return v[t]
        if t.op == "C":
            return t.a[1]
        if t.op == "lin":
            k, d = w.lin_parts(t)
            for x, c in d.items():
                y = ev(x, v)
                if y is None:
                    return None
                k += c * y
            return k
        if t.op == "app" and t.a[0] in ("imax", "imin"):
            ys = [ev(x, v) for x in t.a[1:]]
            return None if None in ys else (max if t.a[0] == "imax" else min)(ys)
        if t.op in ("ge0", "eq0"):
            y = ev(t.a[0], v)
            return None if y is None else (y >= 0 if t.op == "ge0" else y == 0)
        if t.op == "not":
            y = ev(t.a[0], v)
            return None if y is None else not y
        if t.op in ("and", "or"):
            a, b = ev(t.a[0], v), ev(t.a[1], v)
            x = t.op == "or"
            return x if x in (a, b) else None if None in (a, b) else not x
        if t.op == "ite":
            c = ev(t.a[0], v)
            return None if c is None else ev(t.a[1] if c else t.a[2], v)
        return None

    if len(atoms) > 5:
        return None
    v0 = dict.fromkeys(atoms, 0)
    fs = [(x, b) for x, b in facts.items() if ev(x, v0) is not None]
    if ev(claim, v0) is None:
        return None
    for vs in itertools.product(range(top), repeat=len(atoms)):
        v = dict(zip(atoms, vs))
        if all(bool(ev(x, v)) == b for x, b in fs) and not ev(claim, v):
            return v
    return True


def fold(C, S, fn, kind, what):
    R = KRun(C, S, fn, kind)
    E, w = R.E, R.w
    ob = "%s/%s" % (what, kind)
    for v, fs, tr, n in R.results():
        least = None
        ls = leaves(v, "imax")
        if len(ls) > 1 and sum(w.cint(x) is None for x in ls) == 1:
            # the count is never less than a constant
            least = max(w.cint(x) for x in ls if w.cint(x) is not None)
            v = [x for x in ls if w.cint(x) is None][0]
        k, d = w.lin_parts(v)
        acc = [x for x in d if x.op == "phi"]
        if len(acc) == 1 and d[acc[0]] == 1 and len(d) == 1:
            p, off = acc[0], k
        elif not d and w.cint(v) is not None:
            # a constant: only right for kinds that add nothing, and for no elements
            if E.truth(w.eq0(w.len(S.elements)), fs) is True:
                C.expect(w.cint(v) == (1 if what == "nodes" else 0), ob + "/none",
                         "the count of no elements is %s" % w.cint(v), fn.name, "no elements")
                continue
            C.expect(False if (what == "nodes" or kind in BRANCH) else w.cint(v) == 0 or None, ob,
                     "the count is always %s" % w.cint(v), fn.name, "no branches")
            continue
        else:
            if what == "branches" and v.op == "len":
                C.unk(ob, "count %s" % show(v)[:80], fn.name)
            else:
                C.unk(ob, "count %s" % show(v)[:80], fn.name)
            continue
        hdr = phi_node(E, p)
        ent, back = phi_edges(E, p)
        if not back:
            C.unk(ob, "the count is not a sum over a loop", fn.name)
            continue
        seen, late = None, None
        for q in index_phis(E, hdr):
            r, why = full_visit(E, hdr, S.elements, q)
            if r is False and w.cint(index_phis(E, hdr)[q][0]) == 1 and what == "nodes":
                # the first element is where the count starts
                r, why = full_visit(E, hdr, S.elements, q, 1)
                late = q if r is True else late
            if r is True or (r is False and seen is None):
                seen = (r, why)
            if r is True:
                break
        if seen is None:
            C.unk(ob, "the loop's way through the elements is not recognised", fn.name)
            continue
        C.expect(seen[0], ob + "/all", "not every element is looked at: %s" % seen[1], fn.name, "every element")
        for e, o in ent.items():
            if late is not None:
                fs = {R.c(x): b for x, b in edge_facts(E, hdr, e).items()}
                for (t,), f, tr in R.joins((o,), fs, keep=(p,)):
                    one_step(C, S, R, kind, what, ob, p, off, t, f, w.i(0))
                continue
            i = w.cint(R.c(o))
            if i is not None:
                i = max(i + off, least if least is not None else i + off)
            C.expect(None if i is None else i == (1 if what == "nodes" else 0), ob + "/start",
                     "the count starts at %s" % show(R.c(o)), fn.name, "starts at %s" % i)
        for e, o in back.items():
            fs = {R.c(x): b for x, b in edge_facts(E, hdr, e).items()}
            for (t,), f, tr in R.joins((o,), fs, keep=(p,), deep=lambda q: in_loop(phi_node(E, q), hdr)):
                one_step(C, S, R, kind, what, ob, p, off, t, f)


def one_step(C, S, R, kind, what, ob, p, off, t, f, first=None):
    E, w = R.E, R.w
    fn = R.fn.name
    if what == "branches":
        i = w.cint(w.isub(t, p))
        want = 1 if kind in BRANCH else 0
        C.expect(None if i is None else i == want, ob + "/each",
                 "an element of kind %s changes the branch count by %s" % (kind, show(w.isub(t, p))[:60] if i is None else i),
                 fn, "adds %d" % want)
        return
    ls = leaves(t, "imax")
    foreign = [x for x in ls if any(s.op == "phi" and s is not p and phi_edges(E, s)[1] and
                                    phi_node(E, s) != phi_node(E, p) for s in subterms(x))]
    if foreign:
        C.unk(ob + "/each", "count becomes %s" % show(t)[:100], fn)
        return
    # the terminals of the element looked at
    el = None
    for x in list(subterms(t)) + [s for y in f for s in subterms(y)]:
        if x.op in ("fld", "sel") and E.O.vkind(x) == "P":
            at = (x.a[0] if x.op == "fld" else x).a[1]
            k, d = w.lin_parts(at)
            if at is first or any(q.op == "phi" and phi_node(E, q) == phi_node(E, p) for q in d):
                el = x
    fl = S.kinds.fields[kind]
    if el is None:
        C.expect(False if t is p else None, ob + "/each",
                 "the terminals of elements of kind %s are not looked at" % kind, fn)
        return
    pins = [w.fld(el, 0, fl[r]) for r in KINDS[kind]]
    top = [w.iadd(x, w.i(1 - off)) for x in pins]
    atoms = pins + ([p] if first is None else [])

    def holds(x):
        """x is at most the new count; a dict of node numbers for which it is not, or None"""
        if any(E.truth(w.ile(x, y), f) is True for y in ls):
            return True
        return order(w, w.ile(x, t), atoms, f)

    def say(key, x, text, good):
        r = holds(x)
        if isinstance(r, dict):
            text += " (%s)" % ", ".join("%s = %d" % (show(a)[-30:], v) for a, v in r.items())
        C.expect(None if r is None else r is True, ob + key, text, fn, good)
    for r, x in zip(KINDS[kind], top):
        say("/" + r, x, "terminal %s of an element of kind %s may be numbered beyond the count" % (r, kind),
            "below the count")
    if first is None:
        say("/grows", p, "the count of kind %s can shrink to %s" % (kind, show(t)[:80]), "never shrinks")
    extra = [y for y in ls if y is not p and y not in top and not w.cint(y) in (0, 1)]
    if extra:
        # the new count is the old one or one beyond a terminal
        le = w.b(False)
        for y in atoms:
            le = w.bor(le, w.ile(t, y if y is p else w.iadd(y, w.i(1 - off))))
        r = order(w, le, atoms, f)
        C.expect(None if r is None else r is True, ob + "/exact",
                 "the count can become %s" % [show(y)[:60] for y in extra], fn, "no unused numbers")
    else:
        C.expect(True, ob + "/exact", "", fn, "no unused numbers")


# ----------------------------------------------------------- the linear system
def system(C, S):
    """rows = nodes + branches, columns one more, for every system solved"""
    for nm in SC_entries(S):
        R = TRun(C, S, "R", nm)
        E, w = R.E, R.w
        n = w.iadd(S.N(E), S.V(E))
        for e, M in R.solves:
            ob = "system/%s/%s" % (nm, "dc" if R.is_dc(e) else "timestep")
            bases = set()
            for alt in Unfold(E).alternatives(M, e.facts):
                bases.add(alt[3])
            for b in bases:
                while b.op in ("store", "push"):
                    b = b.a[0]
                if b.op != "rep" or b.a[1].op != "rep":
                    C.unk(ob, "the system is built from %s" % show(b)[:80], where(e))
                    continue
                rows, cols = R.c(b.a[0]), R.c(b.a[1].a[0])
                C.expect(rows is n, ob + "/rows", "the system has %s rows" % show(rows)[:80], where(e),
                         "nodes + branches rows")
                C.expect(w.isub(cols, n) is w.i(1), ob + "/columns", "the system has %s columns" % show(cols)[:80],
                         where(e), "nodes + branches + 1 columns")


# -------------------------------------------------------------- branch numbers
def place_types(prog, fn, p):
    """[(type, field index)] of the field steps of a place"""
    ty = fn.locals[p[0]]
    out = []
    var = 0
    for e in p[1:]:
        if e == "*":
            t = prog.types.get(ty, {})
            ty = t.get("e", "?")
        elif isinstance(e, list) and e[0] == "f":
            out.append((ty, e[1]))
            ty = e[2]
        elif isinstance(e, list) and e[0] in ("i", "c", "s"):
            t = prog.types.get(ty, {})
            ty = t.get("e", "?")
    return out


def writers(prog, suffix, names):
    """functions that write or mutably borrow these fields of a struct, or build one"""
    fl = fields(prog, suffix)
    ad = adt(prog, suffix)
    want = {fl[n] for n in names if n in fl}
    out = {}
    for f in prog.fns.values():
        if not f.blocks or f.crate not in ("", prog.crate):
            continue
        for b in f.blocks:
            for s in b["s"]:
                dst, rv = s[0], s[1]
                ps = [dst]
                if rv[0] == "ref" and len(rv) > 2 and rv[2] == "mut":
                    ps.append(rv[1])
                for p in ps:
                    for ty, i in place_types(prog, f, p):
                        t = prog.types.get(ty, {})
                        if t.get("k") == "adt" and t["n"] == ad["n"] and i in want and len(p) > 1:
                            out.setdefault(f, set()).add("write")
                if rv[0] == "agg" and rv[1][0] == "adt" and ad["n"].endswith(rv[1][1].split("::", 1)[-1]) \
                        and rv[1][1].split("::")[-1] == suffix:
                    out.setdefault(f, set()).add("build")
            t = b["t"]
            if t[0] in ("call", "callv") and len(t[3]) > 1:
                for ty, i in place_types(prog, f, t[3]):
                    tt = prog.types.get(ty, {})
                    if tt.get("k") == "adt" and tt["n"] == ad["n"] and i in want:
                        out.setdefault(f, set()).add("write")
    return out


def numbering(C, S):
    prog = C.prog()
    fl = fields(prog, "Circuit")
    ne, nv = fl.get("elements"), fl.get("v_idx_next")
    if ne is None or nv is None:
        C.unk("numbering", "no branch counter found")
        return
    W = writers(prog, "Circuit", ("elements", "v_idx_next"))
    todo, done = sorted(W, key=lambda f: f.name), set()
    callers = call_map(prog)
    while todo:
        f = todo.pop(0)
        if f in done:
            continue
        done.add(f)
        D = Check(C.pid, C.dumps)
        D._prog = C._prog
        D.guard("numbering/" + name(f.name), numbers_in, D, S, f, ne, nv)
        helper = getattr(D, "adds", None) == 0 or any(o["status"] == "undecided" for o in D.obs)
        up = [g for g in callers.get(f.id, ()) if g not in done]
        if helper and callers.get(f.id) and any(o["status"] != "discharged" for o in D.obs):
            # on its own it only hands out a number or adds what it is given
            todo += up
            continue
        C.obs += D.obs
        C.runs += D.runs
    if not done:
        C.unk("numbering", "nothing adds elements")


def call_map(prog):
    """function id -> the functions calling it"""
    out = {}
    for g in prog.fns.values():
        for b in g.blocks:
            t = b["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("id") in prog.fns:
                l = out.setdefault(t[1]["id"], [])
                if g not in l:
                    l.append(g)
    return out


def numbers_in(C, S, f, ne, nv):
    prog = C.prog()
    R = FRun(C, f)
    E, w = R.E, R.w
    ob = "numbering/" + name(f.name)
    cp = [i for i in range(1, f.argc + 1)
          if prog.types.get(prog.strip(f.locals[i]), {}).get("n", "").endswith("circuit::Circuit")]
    rt = prog.types.get(f.locals[0], {})
    back_ck = rt.get("k") == "adt" and rt["n"].endswith("circuit::Circuit")
    if not E.returns():
        C.unk(ob, "never returns", f.name)
    for v, fs, node in E.returns():
        outs = []
        fin = E.finals[node]
        if back_ck:
            outs.append((R.c(v), None))
        for i in cp:
            if ("A", i) in fin:
                outs.append((R.c(fin[("A", i)]), w.mk("sym", "p%d" % i, prog.types[f.locals[i]]["e"])))
        if not outs:
            C.unk(ob, "the circuit it changes is not a parameter", f.name)
        for x, x0 in outs:
            for (y,), facts, tr in R.joins((x,), dict(fs)):
                judge_numbers(C, S, R, ob, y, x0, cp, ne, nv, facts)


def judge_numbers(C, S, R, ob, y, x0, cp, ne, nv, facts):
    w, f = R.w, R.fn
    els, nxt = w.fld(y, 0, ne), w.fld(y, 0, nv)
    new = []
    while els.op == "push":
        new.append(els.a[1])
        els = els.a[0]
    new.reverse()
    C.adds = max(getattr(C, "adds", 0), len(new))
    if x0 is not None and els is w.fld(x0, 0, ne):
        start = w.fld(x0, 0, nv)
    elif els.op == "arr" and not els.a:
        start = w.i(0)
    elif els.op == "fld" and els.a[2] == ne and els.a[1] == 0:
        start = w.fld(els.a[0], 0, nv)          # a copy of another circuit
    else:
        C.unk(ob, "elements become %s" % show(els)[:80], f.name)
        return
    k = 0
    for x in new:
        kd = None
        if x.op == "agg":
            for n, i in S.kinds.variant.items():
                if x.a[0] == S.kinds.enum and x.a[1] == i or x.a[0].endswith("Element") and x.a[1] == i:
                    kd = n
        if kd is None:
            C.unk(ob, "adds an element %s" % show(x)[:80], f.name)
            return
        if "idx" not in S.kinds.fields[kd]:
            if kd in BRANCH:
                C.unk(ob, "kind %s has no branch number" % kd, f.name)
            continue
        idx = w.fld(x.a[2], 0, S.kinds.fields[kd]["idx"])
        C.expect(w.isub(idx, start) is w.i(k), ob + "/" + kd,
                 "a new %s gets branch number %s, not the next free one" % (kd, show(idx)[:60]), f.name,
                 "next free branch number")
        k += 1
    C.expect(w.isub(nxt, start) is w.i(k), ob + "/next",
             "after adding %d branches the next free branch number is %s" % (k, show(nxt)[:60]), f.name,
             "counter moves on by %d" % k)
