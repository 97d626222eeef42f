"""P22: what the texts of numbers and of bracket expressions stand for."""
import re
import itertools
from checks_cards import *

# an element of a text: a character, or one of these classes of characters
DIGIT, LETTER = "<d>", "<a>"
RANGE = {DIGIT: (48, 57), LETTER: (97, 122)}
SHOW = {DIGIT: "9", LETTER: "a"}
FLOAT = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)(e[+-]?[0-9]+)?$")
OPT = "std::option::Option"
TEXTUAL = ("chars", "strbytes", "bytes", "char_indices", "trim", "trim_start", "trim_end", "substr", "find", "rfind",
           "strip_prefix", "strip_suffix", "split_once", "rsplit_once")
MULT = {"k": 1e3, "m": 1e-3, "u": 1e-6, "n": 1e-9, "p": 1e-12}


def spell(x):
    return "".join(SHOW.get(c, c) for c in x)


class TextOracle(Oracle):
    unroll = 24

    def __init__(self, text):
        self.x = text
        self.E = None
        self.cls = {}

    def el(self, i):
        w = self.E.w
        c = self.x[i]
        if c in RANGE:
            s = w.mk("sym", "ch%d" % i, "char")
            self.cls[s] = c
            return s
        return w.c(ord(c))

    def width(self, e):
        return 1 if e in self.cls else len(chr(e.a[1]).encode())

    def bytes(self, x):
        """byte offset of every element, and the length"""
        out, n = [], 0
        for e in x:
            out.append(n)
            n += self.width(e)
        return out + [n]

    def part(self, x):
        w = self.E.w
        return w.cat([w.s("")] + [w.app("chstr", e) if e in self.cls else w.s(chr(e.a[1])) for e in x])

    def parts(self, t):
        """the elements (terms) of a term that is text"""
        w = self.E.w
        if self.istext(t):
            return [self.el(i) for i in range(len(self.x))]
        if t in self.cls:
            return [t]
        if t.op == "C" and t.a[0] == "s":
            return [w.c(ord(c)) for c in t.a[1]]
        if t.op == "C" and t.a[0] == "c":
            return [t]
        if t.op == "app" and t.a[0] in ("chstr", "disp") and t.a[1] in self.cls:
            return [t.a[1]]
        if t.op == "app" and t.a[0] == "strof":
            return self.parts(t.a[1])
        if t.op in ("arr", "cat"):
            out = []
            for y in t.a:
                z = self.parts(y)
                if z is None:
                    return None
                out += z
            return out
        if t.op == "push":
            a, b = self.parts(t.a[0]), self.parts(t.a[1])
            return None if a is None or b is None else a + b
        return None

    def text(self, t):
        x = self.parts(t)
        return None if x is None else [self.cls[e] if e in self.cls else chr(e.a[1]) for e in x]

    def istext(self, t):
        return t.op == "sym" and t.a[0] == "p1"

    def textual(self, t):
        """its elements, if it is text made of those of the argument"""
        if not isinstance(t, T) or not (self.istext(t) or t.op == "cat" or t.op == "app" and t.a[0] in ("chstr", "strof")):
            return None
        return self.parts(t)

    def pattern(self, p):
        """(element -> bool or None) of a pattern that is one character"""
        if p.op != "C":
            return None
        c = p.a[1] if isinstance(p.a[1], str) else chr(p.a[1])
        if len(c) != 1:
            return None

        def f(e):
            if e in self.cls:
                lo, hi = RANGE[self.cls[e]]
                return None if lo <= ord(c) <= hi else False
            return chr(e.a[1]) == c
        return f

    def rewrite(self, op, a):
        if self.E is None:
            return None
        w = self.E.w
        x = None
        if op == "len" or op == "app" and len(a) > 1 and a[0] in TEXTUAL:
            x = self.textual(a[0] if op == "len" else a[1])
        if x is None:
            return None
        b = self.bytes(x)
        if op == "len":
            return w.i(b[-1])
        if a[0] == "chars":
            return w.arr(x)
        if a[0] in ("strbytes", "bytes") and b[-1] == len(x):
            return w.arr(x)
        if a[0] == "char_indices":
            return w.arr([w.agg("tuple", 0, [w.i(b[i]), x[i]]) for i in range(len(x))])
        if a[0] in ("trim", "trim_start", "trim_end"):
            ws = lambda e: e not in self.cls and chr(e.a[1]).isspace()
            i, j = 0, len(x)
            while a[0] != "trim_end" and i < j and ws(x[i]):
                i += 1
            while a[0] != "trim_start" and j > i and ws(x[j - 1]):
                j -= 1
            return self.part(x[i:j])
        if a[0] == "substr":
            i, j = w.cint(a[2]), w.cint(a[3])
            if i in b and j in b and i <= j:
                return self.part(x[b.index(i):b.index(j)])
        if len(a) == 3 and isinstance(a[2], T):
            p = self.pattern(a[2])
            if p is None or None in [p(e) for e in x]:
                return None
            hit = [i for i, e in enumerate(x) if p(e)]
            none = w.agg(OPT, 0, [])
            if a[0] in ("find", "rfind"):
                return w.agg(OPT, 1, [w.i(b[hit[0 if a[0] == "find" else -1]])]) if hit else none
            if a[0] == "strip_prefix":
                return w.agg(OPT, 1, [self.part(x[1:])]) if 0 in hit else none
            if a[0] == "strip_suffix":
                return w.agg(OPT, 1, [self.part(x[:-1])]) if x and len(x) - 1 in hit else none
            if a[0] in ("split_once", "rsplit_once"):
                i = hit[0 if a[0] == "split_once" else -1] if hit else 0
                return w.agg(OPT, 1, [w.agg("tuple", 0, [self.part(x[:i]), self.part(x[i + 1:])])]) if hit else none
        return None

    def decide(self, t):
        w = self.E.w
        if t.op in ("ge0", "eq0"):
            k, d = w.lin_parts(t.a[0])
            if len(d) == 1:
                (x, c), = d.items()
                if x in self.cls:
                    lo, hi = sorted(k + c * v for v in RANGE[self.cls[x]])
                    if t.op == "ge0":
                        return True if lo >= 0 else False if hi < 0 else None
                    return False if lo > 0 or hi < 0 else None
                if x.op == "discr" and x.a[0].op == "app" and x.a[0].a[0] == "parse":
                    s = self.text(x.a[0].a[1])
                    if s is not None:
                        return k + c * (0 if FLOAT.match(spell(s)) else 1) == 0 if t.op == "eq0" else \
                            k + c * (0 if FLOAT.match(spell(s)) else 1) >= 0
        if t.op == "app" and len(t.a) == 2 and t.a[1] in self.cls and t.a[0].startswith("is_"):
            f = models.FOLD.get(t.a[0])
            if f:
                vs = {f(w, v).a[1] for v in range(RANGE[self.cls[t.a[1]]][0], RANGE[self.cls[t.a[1]]][1] + 1)}
                return vs.pop() if len(vs) == 1 else None
        if t.op == "app" and t.a[0] in ("starts_with", "ends_with", "contains") and len(t.a) == 3:
            x, p = self.textual(t.a[1]), self.pattern(t.a[2])
            if x is not None and p is not None:
                vs = [p(e) for e in {"starts_with": x[:1], "ends_with": x[-1:], "contains": x}[t.a[0]]]
                return True if True in vs else None if None in vs else False
        if t.op == "eq":
            for x, y in (t.a, t.a[::-1]):
                if y.op == "C" and y.a[0] == "s":
                    z = self.textual(x)
                    if z is not None and not any(e in self.cls for e in z):
                        return "".join(chr(e.a[1]) for e in z) == y.a[1]
                    if z is not None and len(z) != len(y.a[1]):
                        return False
        return None


class TextRun(FRun):
    def __init__(self, C, fn, text):
        self.C, self.fn = C, fn
        self.O = O = TextOracle(text)
        self.E = E = Engine(C.prog(), O, limit=20000)
        O.E = E
        self.w = E.w
        E.run(fn)
        self.K = Canon(E)
        self.rank = rpo(E)
        self.names = set()


def number(x, dot=False):
    """(elements of the number, multiplier), or None: what a text stands for;
    dot: with no digit before the point"""
    s = spell(x)
    m = re.match(r"[+-]?%s(?:(e[+-]?[0-9]+)|([kmunp]))?" % (r"(\.[0-9]+)" if dot else r"[0-9]+(\.[0-9]*)?"), s)
    if not m:
        return None
    if not m.group(2) and not m.group(3) and s[m.end():][:1] == "e":
        return None                 # an exponent without digits
    n = m.end() - (1 if m.group(3) else 0)
    return list(x[:n]), MULT[m.group(3)] if m.group(3) else 1.0


SIGMA = (DIGIT, "+", ".", "e", "k", "x")


def texts_of_numbers():
    out = [()]
    for n in range(1, 5):
        out += itertools.product(SIGMA, repeat=n)
    signs, ds = [(), ("-",), ("+",)], [(DIGIT,), (DIGIT,) * 2]
    fr = [(), (".",), (".", DIGIT), (".", DIGIT, DIGIT)]
    ex = [(), ("e",), ("e", "-")] + [("e",) + s + (DIGIT,) * k for s in signs for k in (1, 2)]
    tail = [(), ("V",), ("_",)] + [(c,) for c in MULT] + [(c, t) for c in MULT for t in ("A", DIGIT, "x", "k")] + \
        [("\u0663",), ("\u00e9",), (",",), ("-",), (".",), ("%",)] + [("E", DIGIT), ("E", "-", DIGIT), ("K",), ("M",), ("U",), ("N",), ("P",), ("G",),
         ("f",), ("t",), ("g",), ("d", DIGIT), (" ",), (" ", "k"), ("_", DIGIT), (",", DIGIT), ("'", DIGIT)]
    for c in itertools.product(signs, ds, fr, ex, tail):
        out.append(sum(c, ()))
    for c in ("\u0663", "\u00e9", "V", "_", "{", "}", "=", "-"):
        out += [(c,), (c, DIGIT), (DIGIT, c, DIGIT), (DIGIT, ".", c), ("-", c), (DIGIT, "e", c)]
    for c in "0123456789":
        out += [(c,), (c, DIGIT), (DIGIT, c), ("-", c), (DIGIT, ".", c), (DIGIT, ".", c, "k"), (DIGIT, "e", c), (DIGIT, "e", "-", c), (c, "u")]
    n = (DIGIT,) * 6
    out += [n, n + (".",), ("-",) + n + (".",) + n[:4], (DIGIT, ".") + n, (DIGIT, ".") + n + ("e", "-", DIGIT, DIGIT), n + ("m",), (DIGIT, ".") + n + ("u",),
            (DIGIT, "k") + tuple("iloOhmwhatever"), (DIGIT,) + tuple("Voltsandmore"), (DIGIT, ".", DIGIT) + tuple("Voltsandmore")]
    # what is no suffix is ignored, also 'E', 'K', 'M' and the like
    seen, res = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


def kind_of_text(x):
    r = number(x)
    if r is None:
        return "not a number"
    s = spell(r[0])
    return ("exponent" if "e" in s else "fraction" if "." in s else "integer") + \
        (" with %s" % "kmunp"[list(MULT.values()).index(r[1])] if r[1] != 1 else "") + \
        (" and more" if len(x) > len(r[0]) + (r[1] != 1) else "")


def p22(C):
    prog = C.prog()
    D = Deck(prog)
    val = prog.fn("bracket_expression::extract_value") or prog.fn("extract_value")
    ex = prog.fn("bracket_expression::extract_expression") or prog.fn("extract_expression")
    pure = [prog.fns[i] for i in getattr(D, "pure", ())]
    if val is None:
        c = [f for f in pure if f.locals[0] == "std::option::Option<f64>"]
        val = c[0] if len(c) == 1 else None
    if ex is None:
        c = [f for f in pure if "Expression" in f.locals[0]]
        ex = c[0] if len(c) == 1 else None
    items = []
    if val is None:
        C.unk("numbers", "the reader of numbers was not found")
    else:
        xs = texts_of_numbers()
        k = 120
        items += [("numbers", numbers, val, xs[i:i + k]) for i in range(0, len(xs), k)]
        items.append(("numbers/any text", anytext, val))
    if ex is None:
        C.unk("expressions", "the reader of expressions was not found")
    else:
        xs = texts_of_expressions()
        items += [("expressions", expressions, ex, xs[i::6]) for i in range(6)]
        items.append(("expressions/any text", anytext, ex))

    def one(C, it):
        C.guard(it[0], it[1], C, *it[2:])
    C.par(one, items)
    fold_up(C)


def fold_up(C):
    """one obligation per kind of text that is all right"""
    good, rest = {}, []
    for o in C.obs:
        if o["status"] == "discharged" and o["obligation"].startswith(("numbers: ", "expressions: ")):
            good.setdefault((o["obligation"], o["where"]), []).append(o["what"])
        else:
            rest.append(o)
    C.obs = rest
    for (ob, wh), xs in sorted(good.items()):
        C.ok(ob, "%d shapes, %s" % (len(xs), ", ".join(sorted(xs, key=len)[-2:])), wh)


def outcomes(R):
    """[(None | text elements | ("odd", term), multiplier)]"""
    w = R.w
    out = []
    for v, fs, tr, n in R.results():
        if not possible(R, fs):
            continue
        if v.op == "agg" and v.a[0] == "std::option::Option":
            if v.a[1] == 0:
                out.append((None, 0))
                continue
            x = v.a[2]
            out.append(factor(R, x))
        else:
            out.append((("odd", v), 0))
    return out


def possible(R, fs):
    for x, v in fs.items():
        y = R.O.decide(x)
        if y is not None and y != v:
            return False
    return True


def factor(R, x):
    """a number that is the parse of some text times a constant"""
    r = R.rat(x)
    at = [a for a in r.atoms() if isinstance(a, T) and any(s.op == "app" and s.a[0] == "parse" for s in subterms(a))]
    if len(at) == 1:
        p = [s for s in subterms(at[0]) if s.op == "app" and s.a[0] == "parse"]
        k = (r / atom(at[0])).const()
        if k is not None and len(p) == 1 and at[0].op in ("fld", "app"):
            s = R.O.text(p[0].a[1])
            if s is not None:
                return s, float(k)
    return ("odd", x), 0


def numbers(C, f, xs):
    for x in xs:
        C.guard("numbers: %s: %s" % (kind_of_text(x), spell(x)), a_number, C, f, x)
    C.runs.append({"entry": f.name, "note": "%d texts" % len(xs), "steps": 0, "blocks": 0, "terms": 0, "functions": [f.name], "unmodelled": []})


def a_number(C, f, x):
    R = TextRun(C, f, x)
    want = number(x)
    if want is None and number(x, True):
        # read as such or not at all
        want = number(x, True)
        rs = outcomes(R)
        if rs and all(r is None for r, k in rs):
            C.ok("numbers: point first", spell(x), f.name)
            return
    ob = "numbers: " + kind_of_text(x)
    txt = repr(spell(x))
    rs = outcomes(R)
    if not rs:
        C.expect(None if R.E.unmodeled else False, ob, "reading the number %s never comes to an end or stops the program" % txt, f.name)
        return
    for r, k in rs:
        if isinstance(r, tuple):
            C.unk(ob, "%s is read as %s" % (txt, show(r[1])[:80]), f.name)
        elif want is None:
            C.expect(r is None, ob, "%s is no number, but is read as %s" % (txt, "%g times %s" % (k, spell(r or ()))), f.name, txt)
        elif r is None:
            C.expect(None if len(rs) > 1 else False, ob, "the number %s is not read" % txt, f.name)
        else:
            C.expect(spell(r) == spell(want[0]) and abs(k / want[1] - 1) < 1e-12, ob,
                     "%s is read as %s times %g, not times %g" % (txt, spell(r), k, want[1]) if spell(r) == spell(want[0]) else
                     "%s is read as %s times %g, not %s times %g" % (txt, spell(r), k, spell(want[0]), want[1]), f.name, txt)


def texts_of_expressions():
    a, d = LETTER, DIGIT
    out = [("{",), ("{", "}"), ("{", a), ("{", a, a), ("{", d), ("}",), ("{", "{", a, "}"), ("{", a, "_", a, "}"), ("{", "_", "}"),
           ("{", a, "\u00e9", "}"), ("{", a, "*", a, "}"), ("{", a, "{"), ("{", a, "-"), ("{", " ", "}"), ("{", " "), ("{", a, " ")]
    for n in range(1, 5):
        out += [("{",) + x + ("}",) for x in itertools.product((a, d, "Z"), repeat=n)]
    for x in ((a,), (a, d), (a, a, a)):
        out += [("{",) + p + x + q + ("}",) for p in ((), (" ",), (" ", " ")) for q in ((), (" ",), (" ", " "))]
    for c in "azAZ09mq5":
        out += [("{", c, "}"), ("{", a, c, "}"), ("{", c, a, "}")]
    out += [("{",) + (a,) * 14 + ("}",), ("{",) + (d,) * 12 + ("}", a), ("{",) + (a,) * 14]
    out += [(), (d,), (d, ".", d), (d, "k"), ("-", d, "m"), (a,), ("x", "}")]
    return [x for i, x in enumerate(out) if x not in out[:i]]


def expression(x):
    """("ident", elements) | ("number",) | None | "open" """
    s = spell(x)
    if not s.startswith("{"):
        return ("number",) if number(x) else None
    m = re.match(r"\{ *([A-Za-z0-9]+) *\}", s)
    if m:
        return "ident", list(x[m.start(1):m.end(1)])
    if re.match(r"\{ *\}", s) or "_" in s:
        return "open"
    return None


def expressions(C, f, xs):
    t = adt(C.prog(), "Expression")
    v = [x["n"] for x in t["v"]]
    for x in xs:
        R = TextRun(C, f, x)
        w = R.w
        want = expression(x)
        ob = "expressions: " + (want if isinstance(want, str) else want[0] if want else "bad")
        txt = repr(spell(x))
        rs = [(r, fs) for r, fs, tr, n in R.results() if possible(R, fs)]
        if not rs:
            C.expect(None if R.E.unmodeled else False, ob, "reading the expression %s never comes to an end or stops the program" % txt, f.name)
            continue
        for r, fs in rs:
            if r.op != "agg" or r.a[1] == 1 and r.a[2].op != "agg":
                C.unk(ob, "%s is read as %s" % (txt, show(r)[:80]), f.name)
            elif want == "open":
                C.ok(ob, txt, f.name)
            elif r.a[1] == 0:
                C.expect(True if want is None else None if len(rs) > 1 else False, ob, "the expression %s is not read" % txt, f.name, txt)
            elif want is None:
                C.expect(False if len(rs) == 1 else None, ob, "%s is no expression, but is read as %s" % (txt, show(r.a[2])[:60]), f.name)
            else:
                k, p = v[r.a[2].a[1]], r.a[2].a[2]
                if want[0] == "number":
                    g, m = factor(R, p) if k == "Literal" else (None, 0)
                    n = number(x)
                    C.expect(None if isinstance(g, tuple) else k == "Literal" and spell(g) == spell(n[0]) and abs(m / n[1] - 1) < 1e-12, ob,
                             "%s is read as %s" % (txt, show(r.a[2])[:60]), f.name, txt)
                else:
                    g = R.O.text(p) if k == "Identifier" else ()
                    C.expect(None if g is None else k == "Identifier" and spell(g) == spell(want[1]) or (None if len(rs) > 1 else False), ob,
                             "%s stands for %s, not for the parameter %s" % (txt, repr(spell(g or ())) if k == "Identifier" else "a number",
                                                                          spell(want[1])), f.name, txt)
    C.runs.append({"entry": f.name, "note": "%d texts" % len(xs), "steps": 0, "blocks": 0, "terms": 0, "functions": [f.name], "unmodelled": []})


def anytext(C, f):
    """no text whatsoever may stop the program"""
    ob = "any text/" + name(f.name)
    R = FRun(C, f)
    E, w = R.E, R.w
    text = R.p(1)
    n = 0
    for e in E.all_events("panic") + E.all_events("assert"):
        n += 1
        c = R.c(e.data[1]) if len(e.data) > 1 and isinstance(e.data[1], T) else None
        fs = {R.c(x): v for x, v in e.facts.items()}
        ok = E.truth(c, fs) is True if c is not None else False
        if not ok and c is not None and any(v and x.op == "app" and x.a[0] == "starts_with" and x.a[1] is text for x, v in fs.items()):
            # not empty
            one = {w.eq0(w.len(w.app("chars", text))): False, w.eq0(w.len(text)): False}
            ok = E.truth(c, dict(fs, **{})) is True or c.op == "not" and c.a[0] in one or \
                E.truth(c, dict(list(fs.items()) + list(one.items()))) is True
        C.expect(True if ok else None, ob, "may stop the program: %s" % (show(c)[:80] if c is not None else e.data[0]), where(e),
                 "an index in range")
    if not n:
        C.ok(ob, "nothing in it can stop the program", f.name)
