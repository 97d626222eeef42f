"""Matrix contributions of circuit elements, read off the value-flow fixpoint.

For a circuit whose elements are all of one kind the matrix given to the
linear solver is unfolded into its construction: a zero base, and loops that
visit the elements.  The change one loop iteration makes to every matrix entry
(terminal rows/columns, branch row/column, right-hand side, and a generic
unrelated entry) is computed as a rational function of the element's fields.
"""
import itertools

from core import *
import rat
from rat import Rat, atom, const


def circuit_param(prog, fn):
    for i in range(1, fn.argc + 1):
        t = prog.types.get(prog.strip(fn.locals[i]), {})
        if t.get("k") == "adt" and t["n"].endswith("circuit::Circuit"):
            return i
    return None


def adt(prog, suffix):
    for t in prog.types.values():
        if t.get("k") == "adt" and t.get("local") and t["n"].split("::")[-1] == suffix:
            return t
    return None


def fields(prog, suffix):
    t = adt(prog, suffix)
    return {f[0]: i for i, f in enumerate(t["v"][0]["f"])} if t else {}


class Kinds:
    """the element enum: variant index and payload field indices by name"""

    def __init__(self, prog):
        t = adt(prog, "Element")
        self.variant = {}
        self.fields = {}
        self.ty = {}
        self.struct = {}
        if t is None:
            return
        self.enum = t["n"]
        for i, v in enumerate(t["v"]):
            self.variant[v["n"]] = i
            p = prog.types.get(v["f"][0][1]) if v["f"] else None
            if p and p.get("k") == "adt":
                self.fields[v["n"]] = {f[0]: j for j, f in enumerate(p["v"][0]["f"])}
                self.struct[v["n"]] = p["n"]
        self.order = [v["n"] for v in t["v"]]


def is_matrix_ty(prog, ty):
    ty = prog.strip(ty)
    return ty in ("std::vec::Vec<std::vec::Vec<f64>>", "[std::vec::Vec<f64>]")


def solver_fns(prog):
    """local functions mapping a matrix to a vector"""
    out = []
    for f in prog.fns.values():
        if any(is_matrix_ty(prog, f.locals[i]) for i in range(1, f.argc + 1)):
            r = f.locals[0]
            if "std::vec::Vec<f64>" in r and "Vec<std::vec::Vec" not in r:
                out.append(f)
    return out


class ElemOracle(Oracle):
    """every element of the circuit is of kind `kind`, with the terminals
    identified as in `classes` (role -> class label, '0' is ground)"""

    def __init__(self, S, kind, classes):
        self.S = S
        self.kind = kind
        self.classes = classes or {}
        self.X = S.kinds.variant[kind] if kind else None
        fl = S.kinds.fields.get(kind, {}) if kind else {}
        self.rep = {}
        self.tfield = {}
        for role, cls in self.classes.items():
            self.tfield[fl[role]] = cls
            self.rep.setdefault(cls, fl[role])
        self.E = None

    # kinds of values: 'E' element, 'P' payload of an element
    def vkind(self, t, seen=None):
        if t.op == "sel":
            return self.lkind(t.a[0], seen or set())
        if t.op == "fld" and t.a[1] == self.X and t.a[2] == 0 and self.vkind(t.a[0], seen) == "E":
            return "P"
        return None

    def lkind(self, l, seen):
        if l.id in seen:
            return "?"
        if l.op == "fld":
            return "E" if l is self.S.elements else None
        seen = seen | {l.id}
        if l.op == "arr":
            ks = {self.vkind(x, seen) for x in l.a}
            if not ks:
                return "?"
            return ks.pop() if len(ks) == 1 else None
        if l.op == "push":
            k = self.lkind(l.a[0], seen)
            e = self.vkind(l.a[1], seen)
            return e if k in ("?", e) else None
        if l.op == "phi":
            ops = self.E.w.phi_ops.get(l.id)
            if not ops:
                return None
            ks = {self.lkind(x, seen) for x in ops.values()} - {"?"}
            return ks.pop() if len(ks) == 1 else (None if ks else "?")
        if l.op == "app" and l.a[0] in ("slice", "reversed"):
            return self.lkind(l.a[1], seen)
        return None

    def decide(self, t):
        if self.kind is None:
            return None
        if t.op == "discr" and self.vkind(t.a[0]) == "E":
            return self.S.prog.discrs.get(self.S.kinds.enum, list(range(64)))[self.X]
        if t.op == "eq0":
            a = t.a[0]
            c = self.label(a)
            if c == "g":
                return True
            if c is not None:
                return False
            # difference of two terminals
            if a.op == "lin" and a.a[0] == 0 and len(a.a[1]) == 2:
                (x, cx), (y, cy) = a.a[1]
                if cx == -cy and self.label(x) and self.label(y) and self.label(x) != self.label(y):
                    return False
        return None

    def rewrite(self, op, a):
        if op == "fld" and self.kind and a[1] == 0 and a[2] in self.tfield and self.vkind(a[0]) == "P":
            cls = self.tfield[a[2]]
            if cls == "0":
                return self.E.w.i(0)
            r = self.rep[cls]
            if r != a[2]:
                return self.E.w.fld(a[0], 0, r)
        return None

    def opaque(self, fn, args):
        return fn.id in self.S.opaque

    # index labels
    def label(self, t):
        r = self.label2(t)
        return r[0] if r else None

    def label2(self, t):
        w = self.E.w
        if w.cint(t) == 0:
            return ("g", None)
        if t.op == "fld" and t.a[1] == 0 and t.a[2] in self.tfield and self.vkind(t.a[0]) == "P":
            return (self.tfield[t.a[2]], t.a[0])
        if t.op == "sym" and str(t.a[0]).startswith("fresh:"):
            return (t.a[0], None)
        if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 2 and all(c == 1 for _, c in t.a[1]):
            xs = [x for x, _ in t.a[1]]
            n = [x for x in xs if x is self.S.N(self.E)]
            if len(n) == 1:
                o = [x for x in xs if x is not n[0]][0]
                if o is self.S.V(self.E):
                    return ("rhs", None)
                fl = self.S.kinds.fields.get(self.kind, {})
                if "idx" in fl and o.op == "fld" and o.a[2] == fl["idx"] and o.a[1] == 0 \
                        and self.vkind(o.a[0]) == "P":
                    return ("br", o.a[0])
        return None

    def distinct(self, x, y):
        a, b = self.label2(x), self.label2(y)
        if a is None or b is None or a[0] == b[0]:
            return False
        # the same element, or classes that never meet
        if a[1] is not None and b[1] is not None and a[1] is not b[1]:
            return {a[0], b[0]} != {a[0]} and ("br" in (a[0], b[0])) and a[0] != b[0]
        return True


class Stamps:
    def __init__(self, prog):
        self.prog = prog
        self.kinds = Kinds(prog)
        self.solvers = solver_fns(prog)
        self.opaque = {f.id for f in self.solvers}
        self.counts = []
        self.evals = set()
        self.lins = set()
        structs = {n: k for k, n in self.kinds.struct.items()}
        for f in prog.fns.values():
            ps = [prog.strip(f.locals[i]) for i in range(1, f.argc + 1)]
            pn = [(prog.types.get(p) or {}).get("n", p) for p in ps]
            if f.argc == 1 and f.locals[0] == "usize" and pn[0].endswith("circuit::Circuit"):
                self.counts.append(f)
                self.opaque.add(f.id)
            if f.argc == 2 and f.locals[0] == "f64" and pn[0] in structs and ps[1] == "f64":
                self.evals.add(f.id)
                self.opaque.add(f.id)
            if f.argc == 3 and f.locals[0] == "(f64, f64)" and pn[0] in structs and \
                    structs[pn[0]] == "D" and ps[1:] == ["f64", "f64"]:
                self.lins.add(f.id)
                self.opaque.add(f.id)
            # pure reporting of a matrix
            if f.locals[0] == "()" and any(is_matrix_ty(prog, f.locals[i]) and not f.locals[i].startswith("&mut")
                                           for i in range(1, f.argc + 1)) \
                    and not any(f.locals[i].startswith("&mut") for i in range(1, f.argc + 1)):
                self.opaque.add(f.id)
            # a scalar measure of two vectors
            if f.locals[0] == "f64" and len([p for p in ps if p in ("[f64]", "std::vec::Vec<f64>")]) == 2:
                self.opaque.add(f.id)
        self.ccs = set()
        for f in prog.fns.values():
            ps = [prog.strip(f.locals[i]) for i in range(1, f.argc + 1)]
            if len([p for p in ps if p in ("[f64]", "std::vec::Vec<f64>")]) == 2 and \
                    (f.locals[0] == "bool" or (f.locals[0].startswith("std::result::Result<bool,"))):
                self.ccs.add(f.id)
        self._roles()

    def _roles(self):
        """which count is the number of nodes, which the number of branches"""
        self.nfn = self.vfn = None
        self.role_notes = {}
        for f in self.counts:
            E = Engine(self.prog, limit=20000)
            w = E.w
            cp = circuit_param(self.prog, f)
            try:
                E.run(f)
            except Undecided:
                continue
            # the node count looks at terminal numbers, the branch count does not
            term = False
            for v, _, _ in E.returns():
                for x in subterms(v, through_phi=True):
                    if x.op == "fld" and x.a[0].op == "fld" and x.a[0].a[0].op == "sel":
                        term = True
            if term and self.nfn is None:
                self.nfn = f
            elif not term and self.vfn is None:
                self.vfn = f

    def N(self, E):
        return self._count(E, self.nfn)

    def V(self, E):
        return self._count(E, self.vfn)

    def _count(self, E, f):
        if f is None:
            return None
        return E.w.mk("app", "fn:" + f.name, self.ckt)

    def run(self, entry, kind, classes, limit=20000, cc=False):
        base = self.opaque
        if cc:
            self.opaque = base | self.ccs
        try:
            return self._run(entry, kind, classes, limit)
        finally:
            self.opaque = base

    def _run(self, entry, kind, classes, limit):
        prog = self.prog
        O = ElemOracle(self, kind, classes)
        E = Engine(prog, O, limit=limit)
        O.E = E
        E.w.distinct_fn = O.distinct
        i = circuit_param(prog, entry)
        self.ckt = E.w.mk("sym", "p%d" % i, entry.locals[i])
        f = fields(prog, "Circuit").get("elements")
        self.elements = E.w.mk("fld", self.ckt, 0, f)
        E.run(entry)
        E.O = O
        return E

    def solves(self, E):
        ids = {f.id for f in self.solvers}
        out = []
        for e in E.all_events("call"):
            if e.data[3].get("id") in ids:
                fn = E.prog.fns[e.data[3]["id"]]
                for j in range(fn.argc):
                    if is_matrix_ty(E.prog, fn.locals[j + 1]):
                        out.append((e, e.data[4][j]))
                        break
        return out


# ------------------------------------------------------------------ unfolding
class Unfold:
    """The construction of one matrix value."""

    def __init__(self, E):
        self.E = E
        self.w = E.w
        self.loops = []      # (phi, [back operands])
        self.problems = []   # (kind, text, where)

    def allzero(self, t, seen=None):
        seen = seen or set()
        if t.id in seen:
            return True
        seen = seen | {t.id}
        if t.op == "C":
            return t.a[0] in ("f",) and t.a[1] == 0.0
        if t.op == "rep":
            return self.allzero(t.a[1], seen)
        if t.op == "arr":
            return all(self.allzero(x, seen) for x in t.a)
        if t.op == "push":
            return self.allzero(t.a[0], seen) and self.allzero(t.a[1], seen)
        if t.op == "store":
            return self.allzero(t.a[0], seen) and self.allzero(t.a[2], seen)
        if t.op == "phi":
            ops = self.w.phi_ops.get(t.id)
            return bool(ops) and all(self.allzero(x, seen) for x in ops.values())
        if t.op == "app" and t.a[0] in ("slice", "swap"):
            return self.allzero(t.a[1], seen)
        return False

    def spine(self, t, out=None):
        """phis reachable along the matrix spine of t"""
        out = out if out is not None else {}
        st = [t]
        while st:
            x = st.pop()
            while x.op in ("store", "push"):
                x = x.a[0]
            if x.op == "phi" and x.id not in out:
                out[x.id] = x
                st += list(self.w.phi_ops.get(x.id, {}).values())
        return out

    def alternatives(self, v, facts=None, path=()):
        """[[loop phi, ...], stray stores, facts] for each way v is built"""
        if len(path) > 24:
            raise Undecided("matrix construction too deep")
        strays = []
        x = v
        while x.op == "store":
            strays.append(x)
            x = x.a[0]
        if self.allzero(x):
            return [([], strays, dict(facts or {}), x)]
        if x.op == "phi" and x in path:
            # around through copies of a loop: what is put in on the way is carried over
            return [([], strays, dict(facts or {}), x)]
        if x.op == "phi":
            ent, back = phi_edges(self.E, x)
            res = []
            n = phi_node(self.E, x)
            for e, op in ent.items():
                f = dict(facts or {})
                f.update(edge_facts(self.E, n, e))
                for loops, st, ff, base in self.alternatives(op, f, path + (x,)):
                    if base is x:
                        if not loops and not st:
                            continue
                        loops = loops + [x]
                    res.append((loops + ([x] if back else []), st + strays, ff, base))
            return res
        return [([], strays, dict(facts or {}), x)]


class Delta:
    """what one way round a loop does to the entries of matrix phi"""

    def __init__(self, E, O, phi):
        self.E, self.w, self.O, self.phi = E, E.w, O, phi
        self.hdr = phi_node(E, phi)

    def inner_phis(self, t):
        out = []
        for x in subterms(t):
            if x.op == "phi" and x is not self.phi:
                n = phi_node(self.E, x)
                if n != self.hdr and in_loop(n, self.hdr):
                    out.append(x)
        return out

    def paths(self, t, facts, cap=64):
        """[(t with inner joins resolved, facts)] over the ways round the loop"""
        out = []
        st = [(t, dict(facts))]
        while st:
            if len(out) + len(st) > cap:
                raise Undecided("too many ways round the loop")
            t, f = st.pop()
            ph = self.inner_phis(t)
            if not ph:
                out.append((t, f))
                continue
            # the latest join first
            ph.sort(key=lambda p: p.id)
            n = phi_node(self.E, ph[-1])
            if is_header(n) and any(phi_edges(self.E, p)[1] for p in ph if phi_node(self.E, p) == n):
                # a nested loop: usable only when its value does not matter
                raise Undecided("nested loop at %s" % (n[0],))
            here = [p for p in ph if phi_node(self.E, p) == n]
            edges = set()
            for p in here:
                edges |= set(self.w.phi_ops[p.id])
            for e in edges:
                mp = {p: self.w.phi_ops[p.id][e] for p in here if e in self.w.phi_ops[p.id]}
                f2 = dict(f)
                clash = False
                for k, v in edge_facts(self.E, n, e).items():
                    k2 = self.w.subst(k, mp)
                    if f2.get(k2, v) is not v:
                        clash = True
                        break
                    f2[k2] = v
                if not clash:
                    st.append((self.w.subst(t, mp), f2))
        return out

    def run(self, labels):
        """[(facts, {(r,c): Rat}, entry edge)] per way round the loop; labels: name->index term"""
        w = self.w
        ent, back = phi_edges(self.E, self.phi)
        res = []
        for e, op in back.items():
            f = edge_facts(self.E, self.hdr, e)
            cells = []
            for (rn, r) in labels.items():
                for (cn, c) in labels.items():
                    cells.append(((rn, cn), r, c))
            # one tuple term so that all entries take the same way
            tt = w.mk("bundle", *[w.sel(w.sel(op, r), c) for _, r, c in cells])
            for t, ff in self.paths(tt, f):
                d = {}
                for (key, r, c), v in zip(cells, t.a):
                    d[key] = (v, w.sel(w.sel(self.phi, r), c))
                res.append((ff, d))
        return res


def index_phis(E, hdr):
    """phis at hdr that step by a constant: {phi: (entry operand, step)}"""
    out = {}
    for p in phi_at(E, hdr):
        ent, back = phi_edges(E, p)
        if not back or not ent:
            continue
        es = set(ent.values())
        st = set()
        for op in back.values():
            d = E.w.isub(op, p)
            st.add(E.w.cint(d))
        if len(es) == 1 and len(st) == 1 and None not in st:
            out[p] = (es.pop(), st.pop())
    return out


def full_visit(E, hdr, L, idx, start=0):
    """does the loop headed by hdr visit every index of list L (from start on) exactly once
    through index term idx?  True / False / None, text"""
    w = E.w
    ip = index_phis(E, hdr)
    k, d = w.lin_parts(idx)
    ph = [x for x in d if x in ip]
    if len(ph) != 1 or abs(d[ph[0]]) != 1:
        return None, "index %s is not a counter of the loop" % idx
    p = ph[0]
    e0, step = ip[p]
    dirn = d[p] * step
    first = w.subst(idx, {p: e0})
    if dirn == 1:
        good = w.cint(first) == start
    elif dirn == -1:
        good = w.isub(first, w.len(L)) is w.i(-1)
    else:
        return False, "index steps by %s" % dirn
    if not good:
        return False, "the first index visited is %s" % first
    # every way out of the loop has seen all elements
    done = w.ile(w.len(L), idx) if dirn == 1 else None
    for n, kk, tg, f in loop_exits(E, hdr):
        if dirn == 1:
            v = E.truth(done, f)
        else:
            v = E.truth(w.eq0(w.isub(w.len(L), w.isub(p, e0) if step == 1 else w.isub(e0, p))), f)
            if v is not True:
                v = E.truth(w.ile(w.len(L), w.isub(p, e0)), f)
        if v is not True:
            return False, "the loop can be left early at %s" % (where_node(E, n),)
    return True, ""


def where_node(E, n):
    b = n[0].fn.blocks[n[1]]
    sp = ""
    for s in b["s"]:
        if len(s) > 2 and s[2]:
            sp = s[2]
    t = b["t"]
    for x in reversed(t):
        if isinstance(x, str) and ".rs:" in x:
            sp = x
            break
    return "%s (%s)" % (n[0].fn.name, sp or n[0].fn.span)


def is_copy(E, L, root, facts, depth=0):
    """is list L, where facts hold, all of list root in order (or reversed)?"""
    w = E.w
    if L is root:
        return True, ""
    if depth > 4:
        return None, "too deep"
    if L.op == "app" and L.a[0] == "reversed":
        return is_copy(E, L.a[1], root, facts, depth + 1)
    if L.op == "phi":
        ent, back = phi_edges(E, L)
        if not back:
            # a join: every alternative
            n = phi_node(E, L)
            for e, op in ent.items():
                r, why = is_copy(E, op, root, edge_facts(E, n, e), depth + 1)
                if r is not True:
                    return r, why
            return True, ""
        n = phi_node(E, L)
        for e, op in ent.items():
            if not (op.op == "arr" and not op.a):
                return False, "list starts from %s" % op
        src = None
        for e, op in back.items():
            if op is L:
                return False, "an element may be left out (%s)" % where_node(E, e[0])
            if op.op != "push" or op.a[0] is not L:
                return None, "list grows as %s" % op
            x = op.a[1]
            if x.op == "fld" and x.a[0].op == "sel":
                x = x.a[0]
            if x.op != "sel":
                return None, "pushed value %s" % x
            if src is not None and src is not x:
                return None, "several sources"
            src = x
        r, why = full_visit(E, n, src.a[0], src.a[1])
        if r is not True:
            return r, why
        return is_copy(E, src.a[0], root, facts, depth + 1)
    return None, "list %s" % show(L)[:80]
