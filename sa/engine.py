"""Value-flow fixpoint over MIR.

An exploded control-flow graph is built whose nodes are (calling context,
basic block, valuation of the live flags); each node carries an abstract state
(cell -> term, fact set).  States meet at joins in phi terms whose operand
tables are kept in the World.  Nothing is executed and no path is enumerated:
the analysis iterates the transfer functions of the statements until the
phi tables and fact sets are stable.
"""
import heapq
from terms import World, T, subterms
import models

TRANSPARENT = ("std::boxed::Box", "std::mem::MaybeUninit", "std::mem::ManuallyDrop",
               "core::mem::MaybeUninit", "std::ptr::Unique", "std::ptr::NonNull",
               "core::mem::ManuallyDrop", "std::mem::maybe_dangling::MaybeDangling",
               "core::mem::maybe_dangling::MaybeDangling", "std::num::NonZero",
               "std::num::Wrapping")
FLOATS = ("f64", "f32")
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64,
        "u128": 128, "i128": 128, "char": 32, "bool": 1}
UNS = ("usize", "u8", "u16", "u32", "u64", "u128")
INTS = UNS + ("isize", "i8", "i16", "i32", "i64", "i128")


class Undecided(Exception):
    """the analysed code left the analysable fragment"""


class Budget(Undecided):
    pass


class Ctx:
    __slots__ = ("id", "parent", "bb", "fn", "dest", "target", "depth", "fns", "chain")

    def __init__(self, i, parent, bb, fn, dest, target):
        self.id, self.parent, self.bb, self.fn = i, parent, bb, fn
        self.dest, self.target = dest, target
        self.depth = parent.depth + 1 if parent else 0
        self.fns = (parent.fns if parent else ()) + (fn.id,)
        self.chain = (parent.chain if parent else ()) + (self,)

    def __repr__(self):
        return "/".join("%s@%s" % (c.fn.name.split("::")[-1], c.bb) for c in self.chain)


class Event:
    __slots__ = ("kind", "data", "facts", "node", "span", "fn", "pos")

    def __init__(self, kind, data, facts, node, span, fn, pos):
        self.kind, self.data, self.facts = kind, data, facts
        self.node, self.span, self.fn, self.pos = node, span, fn, pos

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, self.data, self.span)


class Oracle:
    """per-run assumptions; every hook returns None for 'no assumption'"""

    def decide(self, t):
        return None

    def opaque(self, fn, args):
        return False

    def partition(self, t):
        return False

    def rewrite(self, op, a):
        return None

    def cut(self, src, ctx, bb, cells, facts):
        """may replace the state carried into (ctx, bb); False drops the edge"""
        return None

    def summary(self, E, ctx, fn, args):
        """outcomes of a call that is not looked into, None otherwise"""
        return None

    def printed(self, E, text):
        pass

    def lo(self, x):
        """a lower bound of a length"""
        return None

    # loops that count from a known number by a known step, up or down, are unrolled up to here
    unroll = 0
    # go through it again with the joins that were found, so that facts about
    # what is joined in a loop are known from its start
    again = False


class Engine:
    def __init__(self, prog, oracle=None, limit=60000, maxval=40):
        self.prog = prog
        self.w = World()
        self.oracle = oracle or Oracle()
        self.w.rewrite = self._rewrite
        self.w.discr_fn = self._discr_of
        self.w.eta_check = self._eta
        self.w.atom_lo = self._atom_lo
        self.w.len_fn = None
        self.limit, self.maxval = limit, maxval
        self.ctxs = {}
        self.steps = 0
        self.events = {}
        self.in_edges = {}
        self.out_edges = {}
        self.state = {}
        self.unphi = {}
        self.phicells = {}
        self.heap = []
        self.queued = set()
        self.valcount = {}
        self.cur = None
        self.visited_fns = set()
        self.unmodeled = set()
        self.watch = {}
        self._fp = {}
        self.exits = {}
        self.entry_nodes = []

    # ---------------------------------------------------------------- hooks
    def _rewrite(self, op, a):
        r = models.simplify(self, op, a)
        if r is not None:
            return r
        return self.oracle.rewrite(op, a)

    def _discr_of(self, kind, variant):
        d = self.prog.discrs.get(kind)
        if d and variant < len(d):
            return d[variant]
        return variant

    def _eta(self, base, kind, variant, n):
        if kind == "tuple":
            return True
        if kind in ("it",):
            return False
        ds = self.prog.discrs.get(kind)
        if ds is not None and len(ds) == 1:
            return True
        if ds is not None:
            v = self.oracle.decide(self.w.mk("discr", base))
            if v is not None and v == ds[variant]:
                return True
            cur = getattr(self, "_facts", None)
            if cur:
                t = self.w.eq0(self.w.isub(self.w.mk("discr", base), self.w.i(ds[variant])))
                if cur.get(t) is True:
                    return True
        return False

    def _atom_lo(self, x):
        if x.op == "len":
            a = x.a[0]
            if a.op == "app" and a.a[0] in ("split",):
                return 1
            return self.oracle.lo(x)
        return None

    # ---------------------------------------------------------------- contexts
    def ctx(self, parent, bb, fn, dest, target):
        k = (parent.id if parent else None, bb, fn.id)
        c = self.ctxs.get(k)
        if c is None:
            c = Ctx(len(self.ctxs), parent, bb, fn, dest, target)
            self.ctxs[k] = c
        return c

    # ---------------------------------------------------------------- values
    def sym(self, name, ty=None):
        return self.w.sym(name, ty)

    def get(self, cell):
        v = self.cells.get(cell)
        if v is None:
            return self.w.mk("undef")
        return v

    def set(self, cell, v):
        self.cells[cell] = v

    def is_transparent(self, tyname):
        t = self.prog.types.get(tyname)
        if not t:
            return False
        if t["k"] == "adt":
            if t["n"] in TRANSPARENT:
                return True
            if t.get("kind") == "Union":
                return True
        return False

    def kind_of(self, tyname, variant=0):
        """(kind, arity) of an aggregate type"""
        t = self.prog.types.get(tyname) or {}
        k = t.get("k")
        if k == "tuple":
            return "tuple", len(t["es"])
        if k == "adt":
            vs = t["v"]
            return t["n"], (len(vs[variant]["f"]) if variant < len(vs) else 0)
        if k == "closure":
            return "closure:" + t["f"], len(t.get("up", []))
        return "?" + tyname, 0

    def readref(self, r):
        if r.op != "Ref":
            return r
        v = self.get(r.a[0])
        return self.getp(v, r.a[1])

    def getp(self, v, path):
        for p in path:
            if p[0] == "f":
                v = self.w.fld(v, p[1], p[2])
            else:
                v = self.w.sel(v, p[1])
        return v

    def setp(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == "f":
            _, var, i, kind, n = p
            if v.op == "agg" and v.a[1] == var and len(v.a) - 2 >= n:
                comps = list(v.a[2:])
            else:
                comps = [self.w.fld(v, var, j) for j in range(n)]
            old = comps[i]
            comps[i] = self.setp(old, path[1:], x)
            return self.w.agg(kind, var, comps)
        old = self.w.sel(v, p[1])
        return self.w.store(v, p[1], self.setp(old, path[1:], x))

    def writeref(self, r, x):
        if r.op == "Ref":
            cell, path = r.a[0], r.a[1]
            self.set(cell, self.setp(self.get(cell), path, x))
        else:
            self.lost(r)

    def lost(self, r):
        """write through an unresolved reference"""
        rs = self.ref_targets(r)
        if rs is None:
            self.event("lostwrite", r)
            return
        for q in rs:
            old = self.readref(q)
            if q.op == "Ref":
                self.writeref(q, self.w.app("maybe", self.w.mk("site", self.site()), old))
        self.event("weakwrite", r)

    def ref_targets(self, r):
        out, seen, st = set(), set(), [r]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "Ref":
                out.add(x)
            elif x.op == "phi":
                self.usephi(x)
                ops = self.w.phi_ops.get(x.id)
                if not ops:
                    return None
                st += list(ops.values())
            else:
                return None
        return out

    def site(self):
        n = self.cur
        return ("s", n[0].id, n[1], self.pos)

    # ---------------------------------------------------------------- places
    def place_ref(self, ctx, place):
        """(cell, path, type) of a place as a location; cell None => value only"""
        return self._walk(ctx, place, True)

    def _walk(self, ctx, place, loc):
        fn = ctx.fn
        ty = fn.locals[place[0]]
        cell, path = ("L", ctx.id, place[0]), []
        val = None        # value mode: a term instead of a location
        variant = 0
        for e in place[1:]:
            if e == "*":
                t = self.prog.types.get(ty) or {}
                cur = val if cell is None else self.getp(self.get(cell), path)
                k = t.get("k")
                nty = t.get("e", ty)
                if k == "adt":
                    # Box deref
                    nty = (t.get("args") or [ty])[0]
                    if cur.op == "Ref":
                        cell, path, val = cur.a[0], list(cur.a[1]), None
                    ty = nty
                    variant = 0
                    continue
                if k == "ref" and not t.get("mut"):
                    cell, path, val = None, [], cur
                else:
                    if cur.op == "Ref":
                        cell, path, val = cur.a[0], list(cur.a[1]), None
                    else:
                        rs = self.ref_targets(cur) if cur.op == "phi" else None
                        if rs and len(rs) == 1:
                            r = rs.pop()
                            cell, path, val = r.a[0], list(r.a[1]), None
                        else:
                            cell, path, val = None, [], cur
                ty = nty
                variant = 0
                continue
            if e[0] == "d":
                variant = e[1]
                continue
            if e[0] == "f":
                if self.is_transparent(ty):
                    ty = e[2]
                    variant = 0
                    continue
                kind, n = self.kind_of(ty, variant)
                el = ("f", variant, e[1], kind, n)
                ty = e[2]
                variant = 0
            elif e[0] == "i":
                idx = self.get(("L", ctx.id, e[1]))
                el = ("i", idx)
                ty = (self.prog.types.get(ty) or {}).get("e", "?")
            elif e[0] == "ci":
                base = val if cell is None else self.getp(self.get(cell), path)
                if e[3]:
                    idx = self.w.isub(self.w.len(base), self.w.i(e[1]))
                else:
                    idx = self.w.i(e[1])
                el = ("i", idx)
                ty = (self.prog.types.get(ty) or {}).get("e", "?")
            elif e[0] == "ss":
                base = val if cell is None else self.getp(self.get(cell), path)
                hi = self.w.isub(self.w.len(base), self.w.i(e[2])) if e[3] else self.w.i(e[2])
                val = models.slice_(self, base, self.w.i(e[1]), hi)
                cell, path = None, []
                continue
            else:
                continue
            if cell is None:
                val = self.getp(val, [el])
            else:
                path = path + [el]
        return cell, path, val, ty

    def read(self, ctx, place):
        if len(place) == 1:
            return self.get(("L", ctx.id, place[0]))
        cell, path, val, ty = self._walk(ctx, place, False)
        if cell is None:
            return val
        return self.getp(self.get(cell), path)

    def write(self, ctx, place, v):
        if len(place) == 1:
            self.set(("L", ctx.id, place[0]), v)
            return
        cell, path, val, ty = self._walk(ctx, place, True)
        if cell is None:
            if val is not None and val.op == "phi":
                self.lost(val)
            else:
                self.event("lostwrite", val)
            return
        self.set(cell, self.setp(self.get(cell), path, v))

    def place_ty(self, ctx, place):
        ty = ctx.fn.locals[place[0]]
        for e in place[1:]:
            if e == "*":
                t = self.prog.types.get(ty) or {}
                if t.get("k") == "adt":
                    ty = (t.get("args") or [ty])[0]
                else:
                    ty = t.get("e", ty)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = (self.prog.types.get(ty) or {}).get("e", "?")
        return ty

    def op_ty(self, ctx, o):
        return self.place_ty(ctx, o["p"]) if "p" in o else o.get("t", "?")

    # ---------------------------------------------------------------- operands
    def const(self, c, ty):
        w = self.w
        k = c["k"]
        if k == "int":
            if ty in FLOATS:
                return w.f(c["v"])
            return w.i(c["v"])
        if k in ("f64", "f32"):
            return w.f(float(c["v"]))
        if k == "bool":
            return w.b(c["v"])
        if k == "char":
            return w.c(c["v"])
        if k == "str":
            return w.s(c["v"])
        if k == "ref":
            return self.const(c["to"], self.prog.types.get(ty, {}).get("e", "?"))
        if k == "arr":
            vs = c["v"]
            ety = self.prog.types.get(ty, {}).get("e", "?")
            if vs and all(x.get("k") == "int" for x in vs) and len(vs) > 0 and ety in ("u8", "?"):
                return w.mk("bytes", tuple(x["v"] for x in vs))
            return w.arr([self.const(x, ety) for x in vs])
        if k in ("zst", "unit"):
            t = self.prog.types.get(ty, {})
            if t.get("k") == "tuple" and not t["es"]:
                return w.unit
            if t.get("k") in ("fndef",):
                return w.mk("fn", ty)
            if t.get("k") == "closure":
                return w.agg("closure:" + t["f"], 0, [])
            if t.get("k") == "adt":
                return w.agg(t["n"], 0, [])
            return w.mk("zst", ty)
        if k == "fn":
            return w.mk("fn", ty)
        if k == "tuple":
            es = self.prog.types.get(ty, {}).get("es", [])
            return w.agg("tuple", 0, [self.const(x, es[i] if i < len(es) else "?") for i, x in enumerate(c["v"])])
        if k == "adt":
            ops = [self.const(x, "?") for x in c["v"]]
            if self.is_transparent(c["t"]):
                return ops[0] if ops else w.unit
            return models.make_adt(self, self.prog.types.get(c["t"], {}).get("n", c["t"]), c["i"], ops, c["t"])
        import json
        return w.mk("const", json.dumps(c, sort_keys=True))

    def oper(self, ctx, o):
        if "p" in o:
            return self.read(ctx, o["p"])
        return self.const(o["c"], o.get("t", "?"))

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, ctx, r, span):
        w = self.w
        k = r[0]
        if k == "use":
            return self.oper(ctx, r[1])
        if k == "ref":
            if r[2] in ("shared", "fake"):
                return self.read(ctx, r[1])
            cell, path, val, ty = self._walk(ctx, r[1], True)
            if cell is None:
                if val is not None and (val.op == "Ref" or val.op == "phi"):
                    return val
                cell = ("T", ctx.id, self.cur[1], self.pos)
                self.set(cell, val)
                return w.ref(cell, ())
            return w.ref(cell, path)
        if k == "len":
            return w.len(self.read(ctx, r[1]))
        if k == "discr":
            v = self.read(ctx, r[1])
            d = w.discr(v)
            return d
        if k == "cast":
            v = self.oper(ctx, r[2])
            ck = r[1] if isinstance(r[1], str) else str(r[1])
            if "IntToFloat" in ck:
                c = w.cint(v)
                return w.f(c) if c is not None else w.app("itof", v)
            if "FloatToInt" in ck:
                return w.app("ftoi", v)
            if "FloatToFloat" in ck:
                return w.app("tof32", v) if r[3] == "f32" and self.op_ty(ctx, r[2]) == "f64" else v
            if "IntToInt" in ck:
                n, m = BITS.get(r[3]), BITS.get(self.op_ty(ctx, r[2]), 64)
                if n and n < m:
                    c = v.a[1] if v.op == "C" and isinstance(v.a[1], int) else None
                    if c is not None:
                        c &= (1 << n) - 1
                        return w.i(c - (1 << n) if r[3][0] == "i" and c >> (n - 1) else c)
                    if n < 32 and m > 32:
                        return w.app("narrow:" + r[3], v)
                return v
            if "Transmute" in ck and r[3] in UNS:
                return w.app("addr", v)
            return v
        if k in ("bin", "cbin"):
            a, b = self.oper(ctx, r[2]), self.oper(ctx, r[3])
            ty = self.op_ty(ctx, r[2])
            v = self.binop(r[1], a, b, ty)
            if k == "cbin":
                ov = w.b(False)
                if r[1].startswith("Sub"):
                    ov = w.ilt(a, b)
                return w.agg("tuple", 0, [v, ov])
            return v
        if k == "un":
            v = self.oper(ctx, r[2])
            if r[1] == "Not":
                ty = self.op_ty(ctx, r[2])
                return w.bnot(v) if ty == "bool" else w.app("inot", v)
            if r[1] == "Neg":
                ty = self.op_ty(ctx, r[2])
                return w.fneg(v) if ty in FLOATS else w.isub(w.i(0), v)
            if r[1] == "PtrMetadata":
                return w.len(self.readref(v))
            return w.app("un" + r[1], v)
        if k == "repeat":
            n = r[2]
            n = self.oper(ctx, n) if isinstance(n, dict) else w.i(int(n))
            return w.rep(n, self.oper(ctx, r[1]))
        if k == "agg":
            ops = [self.oper(ctx, o) for o in r[2]]
            a = r[1]
            if a[0] == "array":
                return w.arr(ops)
            if a[0] == "tuple":
                return w.agg("tuple", 0, ops) if ops else w.unit
            if a[0] == "adt":
                if self.is_transparent(a[1]):
                    return ops[0] if ops else w.unit
                t = self.prog.types.get(a[1], {})
                return models.make_adt(self, t.get("n", a[1]), a[2], ops, a[1])
            if a[0] == "closure":
                return w.agg("closure:" + a[1], 0, ops)
            return w.app("agg:" + str(a[0]), *ops)
        return w.app("rv:" + k, w.mk("site", self.site()))

    def binop(self, op, a, b, ty):
        w = self.w
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        if ty in FLOATS:
            if op in ("Add", "Sub", "Mul", "Div"):
                return w.fbin("f" + op.lower(), a, b)
            if op == "Rem":
                return w.app("frem", a, b)
            if op == "Lt":
                return w.fcmp("flt", a, b)
            if op == "Le":
                return w.fcmp("fle", a, b)
            if op == "Gt":
                return w.fcmp("flt", b, a)
            if op == "Ge":
                return w.fcmp("fle", b, a)
            if op == "Eq":
                return w.fcmp("feq", a, b)
            if op == "Ne":
                return w.bnot(w.fcmp("feq", a, b))
        if ty == "bool":
            if op == "BitAnd":
                return w.band(a, b)
            if op == "BitOr":
                return w.bor(a, b)
            if op == "Eq":
                return w.eq(a, b)
            if op in ("Ne", "BitXor"):
                return w.bnot(w.eq(a, b))
        if op == "Add":
            return w.iadd(a, b)
        if op == "Sub":
            return w.isub(a, b)
        if op == "Mul":
            return w.imul(a, b)
        if op in ("Div", "Rem"):
            x, y = w.cint(a), w.cint(b)
            if x is not None and y and x >= 0 and y > 0:
                return w.i(x // y if op == "Div" else x % y)
            return w.app("i" + op.lower(), a, b)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if op == "Lt":
                return w.ilt(a, b)
            if op == "Le":
                return w.ile(a, b)
            if op == "Gt":
                return w.ilt(b, a)
            if op == "Ge":
                return w.ile(b, a)
            e = w.eq(a, b) if (a.op != "lin" and b.op != "lin" and ty not in INTS and ty != "char") else w.ieq(a, b)
            return e if op == "Eq" else w.bnot(e)
        return w.app("bin" + op, a, b)

    # ---------------------------------------------------------------- truth
    def usephi(self, t):
        if self.cur is not None:
            self.watch.setdefault(t.id, set()).add(self.cur)

    def possible_discr(self, t, seen=None):
        """set of discriminants `t` may have, or None when unknown"""
        if seen is None:
            seen = set()
        if t.id in seen:
            return set()
        seen.add(t.id)
        w = self.w
        if t.op == "agg":
            return {self._discr_of(t.a[0], t.a[1])}
        d = self.oracle.decide(w.mk("discr", t))
        if d is not None:
            return {d}
        if t.op == "phi":
            self.usephi(t)
            ops = w.phi_ops.get(t.id)
            if not ops:
                return None
            out = set()
            for x in ops.values():
                p = self.possible_discr(x, seen)
                if p is None:
                    return None
                out |= p
            return out
        if t.op == "sel":
            return self.elems_discr(t.a[0], seen)
        return None

    def elems_discr(self, a, seen):
        key = ("L", a.id)
        if key in seen:
            return set()
        seen.add(key)
        w = self.w
        if a.op == "arr":
            out = set()
            for x in a.a:
                p = self.possible_discr(x, seen)
                if p is None:
                    return None
                out |= p
            return out
        if a.op == "push":
            l = self.elems_discr(a.a[0], seen)
            if l is None:
                return None
            p = self.possible_discr(a.a[1], seen)
            return None if p is None else l | p
        if a.op == "store":
            l = self.elems_discr(a.a[0], seen)
            if l is None:
                return None
            p = self.possible_discr(a.a[2], seen)
            return None if p is None else l | p
        if a.op == "phi":
            self.usephi(a)
            ops = w.phi_ops.get(a.id)
            if not ops:
                return None
            out = set()
            for x in ops.values():
                p = self.elems_discr(x, seen)
                if p is None:
                    return None
                out |= p
            return out
        if a.op == "app" and a.a[0] in ("slice", "reversed", "sorted"):
            return self.elems_discr(a.a[1], seen)
        return None

    def truth(self, t, facts):
        w = self.w
        if t.op == "C":
            return bool(t.a[1])
        v = facts.get(t)
        if v is not None:
            return v
        o = self.oracle.decide(t)
        if o is not None:
            return bool(o)
        if t.op == "not":
            v = self.truth(t.a[0], facts)
            return None if v is None else not v
        if t.op == "and":
            a, b = self.truth(t.a[0], facts), self.truth(t.a[1], facts)
            if a is False or b is False:
                return False
            return True if a and b else None
        if t.op == "or":
            a, b = self.truth(t.a[0], facts), self.truth(t.a[1], facts)
            if a or b:
                return True
            return False if a is False and b is False else None
        if t.op == "ge0":
            return self._ge0(t.a[0], facts)
        if t.op == "eq0":
            return self._eq0(t.a[0], facts)
        if t.op == "eq":
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if y.op == "C":
                    for f, b in facts.items():
                        if b and f.op == "eq" and (f.a[0] is x or f.a[1] is x):
                            z = f.a[1] if f.a[0] is x else f.a[0]
                            if z.op == "C" and z is not y:
                                return False
        if t.op == "phi":
            # a boolean merged from constants that agree
            self.usephi(t)
            ops = w.phi_ops.get(t.id)
            if ops:
                vs = {x.a[1] if x.op == "C" else None for x in ops.values() if x is not t}
                if len(vs) == 1 and None not in vs:
                    return bool(vs.pop())
        return None

    def fact_parts(self, f, b):
        """linear forms (k, coeffs) known >= 0 by the fact f == b"""
        key = (f, b)
        r = self._fp.get(key)
        if r is None:
            r = []
            w = self.w
            if f.op == "ge0":
                k, d = w.lin_parts(f.a[0])
                r = [(k, d) if b else (-k - 1, {x: -c for x, c in d.items()})]
            elif f.op == "eq0":
                k, d = w.lin_parts(f.a[0])
                if b:
                    r = [(k, d), (-k, {x: -c for x, c in d.items()})]
                elif k >= 0 and all(c >= 0 for c in d.values()):
                    r = [(k - 1, d)]
            self._fp[key] = r
        return r

    def _implied_ge0(self, x, facts):
        """is x >= 0 implied by one fact (or the bounds)?"""
        return self._implied(self.w.lin_parts(x), facts)

    def _implied(self, p, facts):
        if self._nonneg(p):
            return True
        for f, b in facts.items():
            if f.op == "ge0" or f.op == "eq0":
                for q in self.fact_parts(f, b):
                    if self._domp(p, q):
                        return True
        return False

    def _nonneg(self, p):
        lo = p[0]
        for x, c in p[1].items():
            if c < 0:
                return False
            if lo < 0:
                lo += c * self.w.atom_lower(x)
        return lo >= 0

    def _domp(self, p, q):
        """p - q >= 0 by the atom bounds alone"""
        dp, dq = p[1], q[1]
        lo = p[0] - q[0]
        for x, c in dq.items():
            r = dp.get(x, 0) - c
            if r < 0:
                return False
            if r and lo < 0:
                lo += r * self.w.atom_lower(x)
        for x, c in dp.items():
            if x not in dq:
                if c < 0:
                    return False
                if lo < 0:
                    lo += c * self.w.atom_lower(x)
        return lo >= 0

    def _ge0(self, x, facts):
        w = self.w
        if self._implied_ge0(x, facts):
            return True
        if self._implied_ge0(w.isub(w.i(-1), x), facts):
            return False
        k, d = w.lin_parts(x)
        if len(d) == 1:
            (a, c), = d.items()
            if a.op == "discr":
                ps = self.possible_discr(a.a[0])
                if ps:
                    vs = {c * p + k >= 0 for p in ps}
                    if len(vs) == 1:
                        return vs.pop()
        # two facts combined
        xs = []
        for f, b in facts.items():
            if f.op == "ge0" or (f.op == "eq0" and b):
                xs += self.fact_parts(f, b)
        neg = (-k - 1, {a: -c for a, c in d.items()})
        for p, res in (((k, d), True), (neg, False)):
            for q in xs:
                # q must cancel a negative atom of p
                if not any(c < 0 and q[1].get(a, 0) < 0 for a, c in p[1].items()):
                    continue
                r = (p[0] - q[0], dict(p[1]))
                for a, c in q[1].items():
                    v = r[1].get(a, 0) - c
                    if v:
                        r[1][a] = v
                    else:
                        r[1].pop(a, None)
                for z in xs:
                    if self._domp(r, z):
                        return res
        return None

    def _eq0(self, x, facts):
        w = self.w
        k, d = w.lin_parts(x)
        if len(d) == 1:
            (a, c), = d.items()
            v = self.oracle.decide(a)
            if v is not None and not isinstance(v, bool):
                return c * v + k == 0
            if a.op == "discr":
                ps = self.possible_discr(a.a[0])
                if ps is not None and ps:
                    vs = {c * p + k == 0 for p in ps}
                    if len(vs) == 1:
                        return vs.pop()
                # a two-variant type with one variant excluded is handled by
                # the facts below
            # x = +-a + k ; other equalities of the same atom
            for f, b in facts.items():
                if f.op == "eq0":
                    kk, dd = w.lin_parts(f.a[0])
                    if len(dd) == 1 and a in dd and abs(dd[a]) == 1 and abs(c) == 1:
                        v1 = -k * c
                        v2 = -kk * dd[a]
                        if b:
                            return v1 == v2
                        if v1 + v2 == 1 and v1 * v2 == 0 and a.op == "discr" and a.a[0].op == "app" and \
                                a.a[0].a[0] in TWO:
                            return True
        neg = {a: -c for a, c in d.items()}
        if self._implied((k - 1, d), facts) or self._implied((-k - 1, neg), facts):
            return False
        if self._implied((k, d), facts) and self._implied((-k, neg), facts):
            return True
        return None

    def assume(self, facts, t, v):
        """facts with t == v added (decomposed)"""
        w = self.w
        st = [(t, v)]
        while st:
            t, v = st.pop()
            if t.op == "C":
                continue
            if t.op == "not":
                st.append((t.a[0], not v))
                continue
            if t.op == "and" and v:
                st += [(t.a[0], True), (t.a[1], True)]
            if t.op == "or" and not v:
                st += [(t.a[0], False), (t.a[1], False)]
            facts[t] = v
            if t.op == "ge0":
                n = w.bnot(t)
                if n.op != "C" and n.op != "not":
                    facts[n] = not v
        return facts

    # ---------------------------------------------------------------- events
    def event(self, kind, *data):
        n = self.cur
        self.evs.append(Event(kind, data, self._facts, n, self.span, n[0].fn, self.pos))

    # ---------------------------------------------------------------- nodes
    def valuation(self, ctx, bb, cells, tokens):
        out = []
        for c in sorted(cells, key=_ck):
            v = cells[c]
            if c[0] == "A":
                x = self._vala(v, 2)
            else:
                x = self._val(v, 2)
                if self.oracle.unroll and c[0] == "L":
                    y = v.a[2] if v.op == "agg" and v.a[0] == "tuple" and len(v.a) == 4 else v
                    if y.op == "C" and y.a[0] == "i" and 0 <= y.a[1] <= self.oracle.unroll and self._counts(ctx, c):
                        x = ("n", y.a[1], x)
            if x is not None:
                out.append((c, x))
        for tk in tokens:
            out.append(tk)
        return tuple(out)

    def _counts(self, ctx, c):
        for k in ctx.chain:
            if k.id == c[1]:
                return c[2] in k.fn.counters()
        return False

    def _val(self, t, d):
        if t.op == "C":
            return t.a[1] if t.a[0] == "b" else None
        if t.op == "agg" and d > 0:
            k = t.a[0]
            if k.startswith("closure"):
                return None
            if k == "it":
                # a loop over a few known elements is unrolled
                n, p, q = (self.w.cint(x) for x in (self.w.len(t.a[2]), t.a[3], t.a[4]))
                if n is not None and 0 < n <= 16 and p is not None and q is not None:
                    return ("it", p, q)
                return None
            if k.startswith("it:"):
                subs = [(i, self._val(x, d)) for i, x in enumerate(t.a[2:]) if isinstance(x, T)]
                subs = tuple(s for s in subs if s[1] is not None)
                return ("s", subs) if subs else None
            multi = len(self.prog.discrs.get(k, (0,))) > 1
            subs = [(i, self._val(x, d - 1)) for i, x in enumerate(t.a[2:])]
            subs = tuple(s for s in subs if s[1] is not None)
            if multi:
                return ("v", t.a[1], subs)
            if subs:
                return ("s", subs)
        return None

    def _vala(self, t, d):
        if t.op == "C":
            return t.a[1] if t.a[0] == "b" else None
        if t.op == "agg" and d > 0 and len(self.prog.discrs.get(t.a[0], (0,))) == 1:
            subs = [(i, self._vala(x, d - 1)) for i, x in enumerate(t.a[2:])]
            subs = tuple(s for s in subs if s[1] is not None)
            if subs:
                return ("s", subs)
        return None

    def prune(self, ctx, bb, cells):
        keep = set()
        c, b = ctx, bb
        while c is not None:
            lv = c.fn.live.get(b, ())
            for l in lv:
                k = ("L", c.id, l)
                if k in cells:
                    keep.add(k)
            if c.dest is not None and c.parent is not None and len(c.dest) > 1:
                k = ("L", c.parent.id, c.dest[0])
                if k in cells:
                    keep.add(k)
                for e in c.dest[1:]:
                    if isinstance(e, list) and e[0] == "i":
                        k = ("L", c.parent.id, e[1])
                        if k in cells:
                            keep.add(k)
            b = c.target
            c = c.parent
            if b is None or b < 0:
                while c is not None and (b is None or b < 0):
                    b = c.target
                    c = c.parent
        for k in cells:
            if k[0] == "A":
                keep.add(k)
        st = list(keep)
        while st:
            k = st.pop()
            for r in self._refs(cells[k]):
                if r in cells and r not in keep:
                    keep.add(r)
                    st.append(r)
        return {k: cells[k] for k in cells if k in keep}

    def _refs(self, t):
        if t.refs is None:
            out = set()
            for x in subterms(t):
                if x.op == "Ref":
                    out.add(x.a[0])
            t.refs = tuple(out)
        return t.refs

    def prio(self, node):
        ctx, bb, _ = node
        p = []
        c, b = ctx, bb
        ch = ctx.chain
        for i, c in enumerate(ch):
            b = ch[i + 1].bb if i + 1 < len(ch) else bb
            b = b[0] if isinstance(b, tuple) else b
            p.append(c.fn.rank.get(b, 0))
        return tuple(p)

    def push_node(self, node):
        if node not in self.queued:
            self.queued.add(node)
            self.seq = getattr(self, "seq", 0) + 1
            heapq.heappush(self.heap, (self.prio(node), self.seq, node))

    def tokens_of(self, node):
        return [x for x in node[2] if x[0] == "tk"]

    def keep_tokens(self, tokens, ctx, bb):
        out = []
        chain = {c.id: (ctx.chain[i + 1].bb if i + 1 < len(ctx.chain) else bb)
                 for i, c in enumerate(ctx.chain)}
        byid = {c.id: c for c in ctx.chain}
        for tk in tokens:
            _, cid, hdr, tid, v = tk
            if cid not in chain:
                # decided in a callee that has returned: keep at caller level
                cc = self._ctx_by_id(cid)
                if cc is None or cc.parent is None or cc.parent.id not in chain:
                    continue
                cid = cc.parent.id
                b0 = cc.bb[0] if isinstance(cc.bb, tuple) else cc.bb
                ls = byid[cid].fn.loop_of.get(b0, [])
                hdr = ls[-1] if ls else None
            b = chain[cid]
            b = b[0] if isinstance(b, tuple) else b
            ls = byid[cid].fn.loop_of.get(b, [])
            if hdr is not None and (hdr not in ls or (b == hdr and byid[cid] is ctx)):
                continue
            out.append(("tk", cid, hdr, tid, v))
        return out

    def _ctx_by_id(self, i):
        for c in self.ctxs.values():
            if c.id == i:
                return c
        return None

    def target(self, ctx, bb, cells, facts, tokens):
        """node for an edge into (ctx, bb) and its pruned state"""
        cells = self.prune(ctx, bb, cells)
        toks = self.keep_tokens(tokens, ctx, bb) if tokens else []
        toks.sort(key=lambda t: (t[1], t[3]))
        val = self.valuation(ctx, bb, cells, toks)
        node = (ctx, bb, val)
        if node not in self.in_edges:
            k = (ctx.id, bb)
            n = self.valcount.get(k, 0)
            if n >= self.maxval:
                node = (ctx, bb, ("*",))
            else:
                self.valcount[k] = n + 1
        return node, cells, facts

    # ---------------------------------------------------------------- joins
    def join(self, node):
        es = self.in_edges[node]
        edges = sorted(es, key=lambda e: (self.nid(e[0]), e[1]))
        states = [es[e] for e in edges]
        if len(states) == 1:
            cells = dict(states[0][0])
            for c in self.phicells.get(node, ()):
                if c in cells:
                    cells[c] = self.meet(node, c, (), [cells[c]], edges)
            return cells, dict(states[0][1])
        cells = {}
        common = set(states[0][0])
        for s in states[1:]:
            common &= set(s[0])
        changed = []
        for c in common:
            vals = [s[0][c] for s in states]
            cells[c] = self.meet(node, c, (), vals, edges)
        f0 = min((s[1] for s in states), key=len)
        facts = {}
        for t, v in f0.items():
            if all(s[1].get(t) is v for s in states):
                facts[t] = v
        # implied facts: a fact of the smallest set that the others imply
        for s in states:
            for t, v in s[1].items():
                if t not in facts and t.op in ("ge0", "eq0", "eq") and all(
                        q is s or self.truth(t, q[1]) is v for q in states):
                    facts[t] = v
        return cells, facts

    def meet(self, node, cell, path, vals, edges):
        w = self.w
        key = (node, cell, path)
        a = vals[0]
        if all(v is a for v in vals[1:]):
            n = self.unphi.get(key)
            if n is None:
                # components that once differed here may stay merged
                if a.op == "agg" and len(a.a) > 2 and cell in self.phicells.get(node, ()):
                    comps = [self.meet(node, cell, path + (i - 2,), [a.a[i]] * len(vals), edges)
                             for i in range(2, len(a.a))]
                    return w.agg(a.a[0], a.a[1], comps)
                return a
            if n < 3:
                self.unphi[key] = n + 1
                t = w.phi(("n", self.nid(node)), cell, path)
                self._setops(t, dict(zip(edges, vals)))
                return a
        elif a.op == "agg" and all(v.op == "agg" and v.a[0] == a.a[0] and v.a[1] == a.a[1]
                                   and len(v.a) == len(a.a) for v in vals[1:]) and len(a.a) > 2:
            comps = []
            for i in range(2, len(a.a)):
                comps.append(self.meet(node, cell, path + (i - 2,), [v.a[i] for v in vals], edges))
            return w.agg(a.a[0], a.a[1], comps)
        elif a.op == "Ref" and all(v.op == "Ref" and v.a[0] == a.a[0] and len(v.a[1]) == len(a.a[1])
                                   for v in vals[1:]):
            p2 = []
            ok = True
            for i, e in enumerate(a.a[1]):
                o = [v.a[1][i] for v in vals]
                if all(x == e for x in o):
                    p2.append(e)
                elif all(x[0] == "i" for x in o):
                    p2.append(("i", self.meet(node, cell, path + ("r%d" % i,), [x[1] for x in o], edges)))
                else:
                    ok = False
                    break
            if ok:
                return w.ref(a.a[0], p2)
        # enum/struct vs. opaque of which it is an expansion: keep phi
        t = w.phi(("n", self.nid(node)), cell, path)
        self.unphi.setdefault(key, 0)
        self.phicells.setdefault(node, set()).add(cell)
        self._setops(t, dict(zip(edges, vals)))
        return t

    def _setops(self, t, ops):
        old = self.w.phi_ops.get(t.id)
        if old is None or len(old) != len(ops) or any(old.get(k) is not v for k, v in ops.items()):
            self.w.phi_ops[t.id] = ops
            for n in self.watch.pop(t.id, ()):
                if n in self.in_edges and n != self.cur:
                    self.push_node(n)

    def nid(self, node):
        i = self._nids.get(node)
        if i is None:
            i = len(self._nids)
            self._nids[node] = i
            self._nodes.append(node)
        return i

    # ---------------------------------------------------------------- driver
    def run(self, fn, args=None, cells=None, facts=None):
        """analyse from the entry of `fn`"""
        w = self.w
        self._nids, self._nodes = {}, []
        self.finals = {}
        c = self.ctx(None, None, fn, None, None)
        self.root = c
        cells = dict(cells or {})
        for i in range(1, fn.argc + 1):
            k = ("L", c.id, i)
            if args and i in args:
                cells[k] = args[i]
                continue
            ty = fn.locals[i]
            cells[k] = self.param(i, ty, cells)
        self.cur = None
        node, cells, facts = self.target(c, 0, cells, dict(facts or {}), [])
        self.entry_nodes = [node]
        self.fix(c, fn, node, cells, facts)
        if self.oracle.again:
            from core import is_back, is_header
            loops = {n for n in self.state if is_header(n) and
                     any(is_back(self, e[0], n) for e in self.in_edges.get(n, ()))}
            for k in list(self.unphi):
                t = w.phi(("n", self.nid(k[0])), k[1], k[2])
                if k[0] in loops and len(set(w.phi_ops.get(t.id, {}).values()) - {t}) > 1:
                    self.unphi[k] = 3
                else:
                    del self.unphi[k]
            for d in (self.in_edges, self.state, self.events, self.out_edges):
                d.clear()
            self.fix(c, fn, node, cells, facts)
        return self

    def fix(self, c, fn, node, cells, facts):
        self.in_edges[node] = {((c, -1, ()), 0): (cells, facts)}
        self.push_node(node)
        while self.heap:
            _, _, n = heapq.heappop(self.heap)
            self.queued.discard(n)
            if not self.in_edges.get(n):
                continue
            self.steps += 1
            if self.steps > self.limit:
                raise Budget("step budget exceeded in %s" % fn.name)
            self.exec(n)

    def param(self, i, ty, cells):
        t = self.prog.types.get(ty, {})
        if t.get("k") == "ref" and t.get("mut"):
            cell = ("A", i)
            cells[cell] = self.sym("p%d" % i, t["e"])
            return self.w.ref(cell, ())
        return self.sym("p%d" % i, ty)

    def exec(self, node):
        ctx, bb, _ = node
        fn = ctx.fn
        self.visited_fns.add(fn.name)
        cells, facts = self.join(node)
        self.cells, self._facts = cells, facts
        self.state[node] = (dict(cells), dict(facts))
        self.cur, self.evs, self.pos, self.span = node, [], 0, ""
        blk = fn.blocks[bb]
        for i, s in enumerate(blk["s"]):
            self.pos = i
            self.span = s[2] if len(s) > 2 else ""
            if s[1][0] == "setdiscr":
                continue
            v = self.rvalue(ctx, s[1], self.span)
            self.write(ctx, s[0], v)
        self.pos = len(blk["s"])
        outs = self.term(ctx, bb, blk["t"])
        self.events[node] = self.evs
        toks = self.tokens_of(node)
        new = {}
        for k, (c2, b2, cells2, facts2, tok) in enumerate(outs):
            r = self.oracle.cut((node, k), c2, b2, cells2, facts2)
            if r is False:
                continue
            if r is not None:
                cells2, facts2 = r
            tg, cs, fs = self.target(c2, b2, cells2, facts2, toks + ([tok] if tok else []))
            new[(tg, k)] = (cs, fs)
        old = self.out_edges.get(node, ())
        for (tg, k) in old:
            if (tg, k) not in new:
                self._unedge(node, k, tg)
        for (tg, k), st in new.items():
            d = self.in_edges.setdefault(tg, {})
            o = d.get((node, k))
            if o is None or not _same(o, st):
                d[(node, k)] = st
                self.push_node(tg)
        self.out_edges[node] = list(new)

    def _unedge(self, src, k, tg):
        d = self.in_edges.get(tg)
        if d is None or (src, k) not in d:
            return
        del d[(src, k)]
        if d:
            self.push_node(tg)
        else:
            outs = self.out_edges.pop(tg, ())
            self.events.pop(tg, None)
            self.state.pop(tg, None)
            for (t2, k2) in outs:
                self._unedge(tg, k2, t2)

    # ---------------------------------------------------------------- terminators
    def go(self, ctx, bb, cells=None, facts=None, tok=None):
        return (ctx, bb, dict(self.cells) if cells is None else cells,
                dict(self._facts) if facts is None else facts, tok)

    def term(self, ctx, bb, t):
        k = t[0]
        w = self.w
        if k == "goto":
            return [self.go(ctx, t[1])]
        if k == "drop":
            return [self.go(ctx, t[2])]
        if k == "switch":
            self.span = t[4] if len(t) > 4 else ""
            return self.switch(ctx, bb, t)
        if k == "return":
            v = self.get(("L", ctx.id, 0))
            self.event("ret", v)
            if ctx.parent is None:
                self.finals[self.cur] = dict(self.cells)
                return []
            if ctx.target is None or ctx.target < 0:
                return []
            p = ctx.parent
            self.write(p, ctx.dest, v)
            cells = {c: x for c, x in self.cells.items()
                     if not (c[0] in ("L",) and c[1] == ctx.id)}
            return [self.go(p, ctx.target, cells)]
        if k == "assert":
            self.span = t[5] if len(t) > 5 else ""
            c = self.oper(ctx, t[1])
            exp = bool(t[2])
            v = self.truth(c, self._facts)
            if v is not None and v != exp:
                self.event("panic", "assert:" + str(t[3]), c, "definite")
                return []
            if v is None:
                self.event("assert", str(t[3]), c, exp)
            f = self.assume(dict(self._facts), c, exp)
            return [self.go(ctx, t[4], facts=f)]
        if k in ("call", "callv"):
            self.span = t[5] if len(t) > 5 else ""
            return self.call(ctx, bb, t)
        return []

    def switch(self, ctx, bb, t):
        w = self.w
        x = self.oper(ctx, t[1])
        ty = self.op_ty(ctx, t[1])
        outs = []
        facts = self._facts
        tests = []
        for v, tg in t[2]:
            if ty == "bool":
                c = x if v else w.bnot(x)
            else:
                c = w.ieq(x, w.c(v) if ty == "char" else w.i(v))
            tests.append((c, tg))
        # phi of constants: split the edge facts by operand where possible
        f = dict(facts)
        dead = False
        last = None
        for c, tg in tests:
            tv = self.truth(c, f)
            if tv is True:
                outs.append((tg, self.assume(dict(f), c, True), c, True))
                dead = True
                break
            if tv is False:
                f = self.assume(f, c, False)
                continue
            outs.append((tg, self.assume(dict(f), c, True), c, True))
            f = self.assume(dict(f), c, False)
            last = c
        if not dead and t[3] is not None and t[3] >= 0:
            # `otherwise` of an exhaustive enum match is infeasible
            if not self.exhausted(x, f):
                outs.append((t[3], f, last, False))
        if len({o[0] for o in outs}) > 1:
            self.event("branch", x, tuple((o[0], o[2], o[3]) for o in outs))
        res = []
        part = len(outs) > 1 and self.oracle.partition(x)
        ls = ctx.fn.loop_of.get(bb, [])
        for tg, fs, c, v in outs:
            tok = ("tk", ctx.id, ls[-1] if ls else None, (c.id if c is not None else -1), v) if part else None
            cells = dict(self.cells)
            res.append(self.go(ctx, tg, cells, fs, tok))
        return res

    def exhausted(self, x, f):
        if x.op != "discr":
            return False
        ps = self.possible_discr(x.a[0])
        if ps:
            w = self.w
            return all(self.truth(w.ieq(x, w.i(p)), f) is False for p in ps)
        return False

    # ---------------------------------------------------------------- calls
    def call(self, ctx, bb, t):
        w = self.w
        args = [self.oper(ctx, o) for o in t[2]]
        dest, target = t[3], t[4]
        if k_callv(t):
            f = self.oper(ctx, t[1])
            return self.call_value(ctx, bb, f, args, dest, target)
        cal = t[1]
        if "ind" in cal:
            f = self.oper(ctx, cal["ind"]) if isinstance(cal["ind"], dict) else w.mk("undef")
            return self.call_value(ctx, bb, f, args, dest, target)
        return self.call_fn(ctx, bb, cal, args, dest, target)

    def call_value(self, ctx, bb, f, args, dest, target):
        if f.op == "Ref":
            f = self.readref(f)
        if f.op == "agg" and f.a[0].startswith("closure:"):
            fn = self.prog.fns.get(f.a[0][8:])
            if fn is not None and ctx.fns.count(fn.id) == 0:
                cells = {}
                envty = self.prog.types.get(fn.locals[1], {})
                env = f
                if fn.argc == 2 and len(args) > 1 and fn.spread >= 0:
                    args = [self.w.agg("tuple", 0, args)]
                return self.enter(ctx, (bb, fn.id), fn, [env] + list(args), dest, target)
        if f.op == "fn":
            t = self.prog.types.get(f.a[0], {})
            cal = t.get("f")
            if isinstance(cal, dict):
                return self.call_fn(ctx, bb, cal, list(args), dest, target)
        self.event("opaquecall", f, tuple(args))
        v = self.w.app("callv", f, *args)
        return self.finish(ctx, dest, target, v)

    def call_fn(self, ctx, bb, cal, args, dest, target):
        w = self.w
        d = cal.get("def", "")
        fn = self.prog.fns.get(cal.get("id"))
        if fn is not None and len(args) == 2 and models.norm(d) in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            # the arguments of a closure come in a tuple
            args = [args[0]] + [w.fld(args[1], 0, i) for i in range(fn.argc - 1)]
        m = models.lookup(d)
        self.event("call", d, tuple(args), fn.name if fn else cal.get("name"), cal,
                   tuple(models.deref(self, x) for x in args))
        if m is not None:
            r = m(self, ctx, bb, cal, args, dest, target)
            if r is not NotImplemented:
                return self.outcomes(ctx, bb, dest, target, r)
        if fn is not None:
            r = self.oracle.summary(self, ctx, fn, args)
            if r is not None:
                return self.outcomes(ctx, bb, dest, target, r)
        if fn is not None and not self.oracle.opaque(fn, args) and ctx.fns.count(fn.id) == 0:
            return self.enter(ctx, bb, fn, args, dest, target)
        if fn is None:
            self.unmodeled.add(d)
        v = self.opaque_call(("fn:" + fn.name) if fn else ("ext:" + d), args)
        return self.finish(ctx, dest, target, v)

    def opaque_call(self, name, args, site=False):
        """result of a call we do not look into; &mut arguments are havocked"""
        w = self.w
        muts = []
        vals = []
        for a in args:
            rs = [c for c in self._refs(a)]
            if a.op == "Ref":
                vals.append(self.readref(a))
                muts.append(a)
            else:
                vals.append(a)
        tag = [w.mk("site", self.site())] if (muts or site) else []
        for i, r in enumerate(muts):
            self.writeref(r, w.app("mut%d:%s" % (i, name), *(tag + vals)))
        return w.app(name, *(tag + vals))

    def enter(self, ctx, bb, fn, args, dest, target):
        c2 = self.ctx(ctx, bb, fn, dest, target)
        cells = dict(self.cells)
        for k in [k for k in cells if k[0] == "L" and k[1] == c2.id]:
            del cells[k]
        if fn.spread is not None and fn.spread >= 0 and len(args) != fn.argc:
            pass
        for i, a in enumerate(args):
            cells[("L", c2.id, i + 1)] = a
        return [self.go(c2, 0, cells)]

    def finish(self, ctx, dest, target, v):
        if target is None or target < 0:
            return []
        self.write(ctx, dest, v)
        return [self.go(ctx, target)]

    def outcomes(self, ctx, bb, dest, target, r):
        """r: term | [(value, facts|None, writes|None), ...] | ('enter', fn, args) | [] (diverges)"""
        if isinstance(r, T):
            return self.finish(ctx, dest, target, r)
        if isinstance(r, tuple) and r and r[0] == "enter":
            return self.enter(ctx, (bb, r[1].id), r[1], r[2], dest, target)
        if isinstance(r, tuple) and r and r[0] == "callv":
            return self.call_value(ctx, bb, r[1], r[2], dest, target)
        if target is None or target < 0:
            return []
        res = []
        base, bf = self.cells, self._facts
        for v, facts, writes in r:
            self.cells = dict(base)
            f = dict(bf)
            for t, b in (facts or ()):
                f = self.assume(f, t, b)
            for ref, x in (writes or ()):
                self.writeref(ref, x)
            self.write(ctx, dest, v)
            res.append((ctx, target, self.cells, f, None))
        self.cells = base
        return res

    # ---------------------------------------------------------------- results
    def all_events(self, *kinds):
        out = []
        for n in self._nodes_live():
            for e in self.events.get(n, ()):
                if not kinds or e.kind in kinds:
                    out.append(e)
        return out

    def _nodes_live(self):
        return [n for n in self.out_edges if self.in_edges.get(n)]

    def returns(self):
        """(value, facts, node) at the returns of the root function"""
        return [(e.data[0], e.facts, e.node) for e in self.all_events("ret") if e.node[0] is self.root]


# terms that are Some or None, Ok or Err
TWO = {"find", "rfind", "split_once", "rsplit_once", "strip_prefix", "strip_suffix", "parse", "to_str", "parent", "param"}


def k_callv(t):
    return t[0] == "callv"


def _same(a, b):
    if len(a[0]) != len(b[0]) or len(a[1]) != len(b[1]):
        return False
    for k, v in a[0].items():
        if b[0].get(k) is not v:
            return False
    for k, v in a[1].items():
        if b[1].get(k) is not v:
            return False
    return True


def _ck(c):
    return tuple(str(x) for x in c)
