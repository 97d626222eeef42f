"""One card of a deck: the reader's loop body analysed from an arbitrary state of
the reader, for a line made of given tokens."""
import models
from checks_elem import *

GHOST = ("A", "ghost")          # an error message has been printed
TOLD = ("A", "told")            # some message has been printed


def texts(t):
    return [x.a[1] for x in subterms(t) if x.op == "C" and x.a[0] == "s"]


def is_error(t):
    return any("ERROR" in s.upper() or "FATAL" in s.upper() for s in texts(t))


class Deck:
    """where and into what the reader reads cards"""

    def __init__(self, prog):
        self.prog = prog
        self.why = ""
        self.loop = None
        self.root = prog.fn("Reader::read")
        if self.root is None:
            self.why = "no Reader::read"
            return
        self.ty = prog.strip(self.root.locals[1])
        self.f = self.roles("Reader", {
            "ckts": lambda t: t.startswith("std::vec::Vec<") and t.endswith("circuit::Circuit>"),
            "cfg": lambda t: t.endswith("analysis::Configuration"),
            "cur": lambda t: t == "usize",
            "flag": lambda t: t == "bool"}, {"cur": "c", "flag": "there_are_errors"})
        if len(self.f) != 4:
            self.why = "the state of the reader was not recognised (%s)" % sorted(self.f)
            return
        self.cf = fields(prog, "Circuit")
        self.loop = self.find_loop()
        self.add_node = prog.fn("Circuit::add_node")
        if self.add_node is None:
            self.why = "no Circuit::add_node"
        self.pure = set()
        for f in prog.fns.values():
            ps = [prog.strip(f.locals[i]) for i in range(1, f.argc + 1)]
            if ps == ["str"] and f.locals[0] in ("std::option::Option<f64>",) or \
                    (ps == ["str"] and f.locals[0].startswith("std::option::Option<") and
                     "Expression" in f.locals[0]):
                self.pure.add(f.id)

    def roles(self, suffix, want, names):
        a = adt(self.prog, suffix)
        out = {}
        if a is None:
            return out
        fs = a["v"][0]["f"]
        for r, ok in want.items():
            c = [i for i, f in enumerate(fs) if ok(f[1])]
            if len(c) > 1:
                c = [i for i in c if fs[i][0] == names.get(r)]
            if len(c) == 1:
                out[r] = c[0]
        return out

    def reader(self, w):
        """an arbitrary state of the reader"""
        a = adt(self.prog, "Reader")
        nm = {i: r for r, i in self.f.items()}
        return w.agg(a["n"], 0, [w.mk("sym", nm.get(i, "reader.%d" % i), x[1]) for i, x in enumerate(a["v"][0]["f"])])

    def fieldmap(self):
        """name of a type -> name of a field -> number"""
        if not hasattr(self, "_fm"):
            self._fm = {}
            for nm in ("CurrentSource", "VoltageSource", "CurrentSourceSine", "VoltageSourceSine", "VoltageSourcePwl",
                       "Resistor", "Capacitor", "Diode", "Vcvs", "Vccs", "Instance", "Parameter", "Circuit"):
                a = adt(self.prog, nm)
                if a is not None:
                    self._fm[nm] = {f[0]: i for i, f in enumerate(a["v"][0]["f"])}
        return self._fm

    def find_loop(self):
        """(fn, header) of the loop that takes the lines of a file"""
        out = set()
        for f in self.prog.fns.values():
            for b, blk in enumerate(f.blocks):
                t = blk["t"]
                if t[0] != "call" or not isinstance(t[1], dict):
                    continue
                nm = str(t[1].get("name", ""))
                if t[1].get("def", "").endswith("Iterator::next") and ("io::Lines<" in nm or "str::Lines<" in nm):
                    ls = f.loop_of.get(b, [])
                    if ls:
                        out.add((f, ls[0]))
        if len(out) > 1:
            # a loop that only passes lines over
            size = sorted(out, key=lambda x: len(x[0].loops[x[1]]))
            if len(size[-1][0].loops[size[-1][1]]) > 4 * len(size[-2][0].loops[size[-2][1]]):
                out = {size[-1]}
        if len(out) != 1:
            self.why = "%d loops over the lines of a file" % len(out)
            return None
        return out.pop()

    def changing(self):
        """locals of the reading function that the loop changes or lends out"""
        f, h = self.loop
        out = set()
        for b in f.loops[h]:
            blk = f.blocks[b]
            for s in blk["s"]:
                if "*" not in s[0][1:]:
                    out.add(s[0][0])
                if s[1][0] == "ref" and s[1][2] not in ("shared", "fake") and "*" not in s[1][1][1:]:
                    out.add(s[1][1][0])
            t = blk["t"]
            if t[0] in ("call", "callv") and t[3] and "*" not in t[3][1:]:
                out.add(t[3][0])
        return {l for l in out if l in f.live.get(h, ())}


class Tok:
    """a token: a literal, or unknown text that starts with `pre` (and is not one
    of `nots`) and does or does not contain '='"""

    def __init__(self, lit=None, pre=None, assign=None, nots=(), parts=None, num=False):
        self.num = num              # what follows the separator is a number
        self.lit, self.pre, self.assign, self.nots = lit, pre, assign, nots
        self.parts = parts          # (name or None, "="): name=text
        if parts:
            self.assign = True
            self.pre = parts[0] and parts[0] + parts[1]


def deep(w, t):
    """the subterms of t, also those of the values it can come from"""
    seen, st = set(), [t]
    while st:
        for x in subterms(st.pop()):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                st += [o for o in w.phi_ops.get(x.id, {}).values() if o not in seen]
    return seen


class CardOracle(Oracle):
    unroll = 16

    def __init__(self, D, toks, inline=()):
        self.D, self.toks, self.inline = D, toks, set(inline)
        self.backs = []
        self.heads = []
        self.E = None
        self.wordtext = []
        self.syms = {}
        self.asked = False       # whether a word is empty has been asked
        self.seps = set()        # what lines are cut at, when not by split_whitespace
        self.chg = D.changing()
        self.nline = None
        self.over = {}           # local -> forced value at the header
        self.within = False      # the loop over the lines goes over the title too
        self.titled = False      # whether it is the title that is read
        self.title_asked = False   # whether the loop asks if it is the title

    # -- the line ------------------------------------------------------------------
    def tok(self, i):
        w = self.E.w
        t = self.toks[i]
        if t.lit is not None:
            return w.s(t.lit)
        s = w.mk("sym", "tok%d" % i, "&str")
        self.syms[s] = t
        return s

    def rewrite(self, op, a):
        if op == "app" and a[0] == "words" and self.toks is not None:
            for x in deep(self.E.w, a[1]):
                if x.op == "app" and x.a[0] in ("lines", "strlines"):
                    if a[1] not in self.wordtext:
                        self.wordtext.append(a[1])
                    return self.E.w.arr([self.tok(i) for i in range(len(self.toks))])
        if op == "app" and a[0] == "split" and self.toks is not None and len(a) > 2 and a[1] not in self.syms and self.blank(a[2]) and \
                any(x.op == "app" and x.a[0] in ("lines", "strlines") for x in deep(self.E.w, a[1])):
            # with what is empty left out this is the same as words
            if a[1] not in self.wordtext:
                self.wordtext.append(a[1])
            self.seps.add("white space" if a[2].op != "C" else repr(a[2].a[1] if a[2].a[0] == "s" else chr(a[2].a[1])))
            return self.E.w.arr([self.tok(i) for i in range(len(self.toks))])
        if op == "app" and a[0] == "split" and a[1] in self.syms and len(a) > 2:
            k = self.syms[a[1]]
            if k.parts and a[2].op == "C" and a[2].a[1] in (k.parts[1], ord(k.parts[1])):
                i = self.toks.index(k)
                return self.E.w.arr([self.part(i, 0), self.part(i, 1)])
        if op == "app" and a[0] in ("split_once", "rsplit_once", "splitn", "rsplitn") and len(a) > 2 and a[1] in self.syms:
            k, w = self.syms[a[1]], self.E.w
            sep = a[-1]
            if not (sep.op == "C" and (k.parts and sep.a[1] in (k.parts[1], ord(k.parts[1])) or
                                       k.assign is False and sep.a[1] in ("=", 61))):
                return None
            if a[0] in ("splitn", "rsplitn"):
                n = w.cint(a[2])
                if n is None or n < 2:
                    return None
                ps = [self.part(self.toks.index(k), j) for j in (0, 1)] if k.parts else [a[1]]
                return w.arr(ps if a[0] == "splitn" else ps[::-1])
            if not k.parts:
                return w.agg(models.OPT, 0, [])
            i = self.toks.index(k)
            return w.agg(models.OPT, 1, [w.agg("tuple", 0, [self.part(i, 0), self.part(i, 1)])])
        return None

    def part(self, i, j):
        """text before (0) or after (1) the separator of token i"""
        w = self.E.w
        k = self.toks[i]
        if j == 0 and k.parts[0] is not None:
            return w.s(k.parts[0])
        s = w.mk("sym", "tok%d%s" % (i, ("name", "value")[j]), "&str")
        self.syms.setdefault(s, Tok(assign=False if k.parts[1] == "=" else None, num=k.num))
        return s

    def literal(self, x):
        """discriminant of the result of reading a text that is a number"""
        if x.op != "discr":
            return None
        y = x.a[0]
        opt = y.op == "app"
        if not opt:
            if y.op != "fld" or y.a[0].op != "app":
                return None
            y = y.a[0]
        if not str(y.a[0]).startswith("fn:") or len(y.a) != 2 or y.a[1] not in self.syms or not self.syms[y.a[1]].num:
            return None
        prog = self.E.prog
        f = next((prog.fns[i] for i in self.D.pure if prog.fns[i].name == y.a[0][3:]), None)
        if f is None or "Option" not in f.locals[0]:
            return None
        if opt:
            return 1
        a = adt(prog, "Expression")
        if "Expression" not in f.locals[0] or a is None:
            return None
        return next((i for i, v in enumerate(a["v"]) if v["n"] == "Literal"), None)

    def char(self, x):
        """(token, index) of a term that is a character of a token"""
        if x.op == "sel" and x.a[0].op == "app" and x.a[0].a[0] in ("chars", "bytes") and x.a[0].a[1] in self.syms:
            i = self.E.w.cint(x.a[1])
            if i is not None:
                return self.syms[x.a[0].a[1]], i
        return None

    def blank(self, p):
        if p.op == "C":
            return p.a[1] in (" ", "\t", 32, 9)
        return "is_whitespace" in show(p) or "is_ascii_whitespace" in show(p)

    def lo(self, x):
        a = x.a[0]
        if a in self.syms and str(a.a[0])[3:].isdigit():
            self.asked = True
            return max(1, len(self.syms[a].pre or ""))
        if a.op == "app" and a.a[0] in ("chars", "bytes") and a.a[1] in self.syms:
            return max(1, len(self.syms[a.a[1]].pre or ""))
        return None

    def decide(self, t):
        if t.op == "eq0":
            k, ps = self.E.w.lin_parts(t.a[0])
            if len(ps) == 1:
                x, c = next(iter(ps.items()))
                if self.within and k == 0 and x is self.nline:
                    self.title_asked = True
                    return self.titled
                ch = self.char(x)
                r = self.literal(x)
                if r is not None and c in (1, -1):
                    return r == -k * c
                if ch is not None and c in (1, -1):
                    v = -k * c
                    tk, i = ch
                    if tk.pre is not None and i < len(tk.pre):
                        return ord(tk.pre[i]) == v
                    if i == 0 and 0 < v < 0x110000 and chr(v) in tk.nots:
                        return False
            return None
        if t.op == "app" and t.a[0] in ("starts_with", "contains") and t.a[1] in self.syms:
            k = self.syms[t.a[1]]
            p = t.a[2]
            if p.op != "C":
                return None
            p = p.a[1] if p.a[0] == "s" else chr(p.a[1])
            if t.a[0] == "contains":
                if p == "=" and k.assign is not None:
                    return k.assign
                return True if k.pre is not None and p in k.pre else None
            if k.pre is not None:
                if k.pre.startswith(p):
                    return True
                if not p.startswith(k.pre):
                    return False
            if p in k.nots:
                return False
            return None
        if t.op == "eq":
            x, y = t.a
            if y in self.syms:
                x, y = y, x
            if x in self.syms and y.op == "C" and y.a[0] == "s":
                k = self.syms[x]
                s = y.a[1]
                if s == "" and str(x.a[0])[3:].isdigit():
                    self.asked = True
                    return False
                if k.pre is not None and not s.startswith(k.pre):
                    return False
                if s in k.nots or any(len(n) == 1 and s.startswith(n) for n in k.nots):
                    return False
                if k.assign is not None and ("=" in s) != k.assign:
                    return False
        return None

    # -- state at the loop header ------------------------------------------------------
    def cut(self, src, ctx, bb, cells, facts):
        f, h = self.D.loop
        if ctx.fn is not f or bb != h:
            return None
        node = src[0]
        if node[0] is ctx and node[1] in f.loops[h] or (node[0] is not ctx and ctx in node[0].chain and
                                                         bb_at(node, ctx) in f.loops[h]):
            self.backs = [b for b in self.backs if b[0] != src]
            self.backs.append((src, cells, facts))
            return False
        w = self.E.w
        self.heads = [x for x in self.heads if x[0] != src]
        self.heads.append((src, cells, facts))
        c2 = {}
        for k, v in cells.items():
            if k[0] == "A":
                c2[k] = w.b(False) if k in (GHOST, TOLD) else self.D.reader(w) if self.isreader(k, v) else v
            elif k[0] == "L" and k[1] == ctx.id and k[2] in self.chg:
                c2[k] = self.havoc(k, v, f.locals[k[2]])
            else:
                c2[k] = v
        return c2, facts

    def isreader(self, k, v):
        f = self.E.root.fn
        return isinstance(k[1], int) and self.E.prog.strip(f.locals[k[1]]) == self.D.ty

    def havoc(self, k, v, ty):
        w = self.E.w
        if k[2] in self.over:
            return w.b(self.over[k[2]])
        if v.op == "agg" and v.a[0] == "it":
            self.nline = w.sym("line#", "usize")
            x = v.a[2]
            self.within = w.cint(v.a[3]) == 0 and x.op == "app" and x.a[0] == "enumerated" and \
                x.a[1].op == "app" and x.a[1].a[0] in ("lines", "strlines")
            return w.mk("agg", "it", 0, v.a[2], w.iadd(v.a[3], self.nline), v.a[4])
        if v.op == "agg" and str(v.a[0]).startswith("it:"):
            comps = []
            for x in v.a[2:]:
                if isinstance(x, T) and x.op == "agg" and str(x.a[0]).startswith("it"):
                    comps.append(self.havoc((0, 0, -1), x, ""))
                elif isinstance(x, T) and w.cint(x) is not None:
                    comps.append(w.iadd(x, w.sym("line#", "usize")))
                else:
                    comps.append(x)
            return w.mk("agg", v.a[0], v.a[1], *comps)
        return w.sym("state%d" % k[2], ty)

    # -- calls ---------------------------------------------------------------------
    def opaque(self, fn, args):
        return fn.id in self.D.pure

    def summary(self, E, ctx, fn, args):
        w = E.w
        if self.D.add_node is not None and fn.id == self.D.add_node.id:
            ck = models.deref(E, args[0])
            nm = models.deref(E, args[1])
            cf = self.D.cf
            n = len(adt(E.prog, "Circuit")["v"][0]["f"])
            kind = adt(E.prog, "Circuit")["n"]
            comps = [w.fld(ck, 0, i) for i in range(n)]
            for fld in ("nodes", "nid_next"):
                if fld in cf:
                    comps[cf[fld]] = w.app("after_node:" + fld, comps[cf[fld]], nm)
            return [(w.app("nid", nm, ck), None, [(args[0], w.agg(kind, 0, comps))])]
        return None

    def printed(self, E, text):
        w = E.w
        E.cells[TOLD] = w.b(True)
        if is_error(text):
            E.cells[GHOST] = w.b(True)


class CardRun(FRun):
    def __init__(self, C, D, toks, limit=30000, note="", over=None, root=None, titled=False):
        self.C, self.D, self.fn = C, D, root or D.root
        O = CardOracle(D, toks)
        O.titled = titled
        O.over = over or {}
        self.O = O
        self.E = E = Engine(D.prog, O, limit=limit, maxval=200)
        O.E = E
        w = E.w
        E.run(self.fn, args=self.start(E), cells={GHOST: w.b(False), TOLD: w.b(False)})
        C.ran(E, "card %s" % note)
        self.w = E.w
        self.K = Canon(E)
        self.rank = rpo(E)
        self.names = set()
        self.fieldmap = D.fieldmap()
        self.reader = D.reader(w)
        self.rcell = ("A", [i for i in range(1, self.fn.argc + 1) if D.prog.strip(self.fn.locals[i]) == D.ty][0])
        # the last state seen on every way back to the next line
        self.backs = O.backs

    def start(self, E):
        """arguments of the run that are not arbitrary"""
        return {}

    def st(self, cells, role):
        """a part of the reader's state"""
        return self.c(self.w.fld(cells[self.rcell], 0, self.D.f[role]))

    def old(self, role):
        return self.w.fld(self.reader, 0, self.D.f[role])
