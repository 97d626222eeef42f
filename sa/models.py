"""Value-flow models of the standard library operations the code uses.

Each model maps a call to its outcomes: a term, a list of alternatives
(value, facts, writes), or a request to inline a combinator written in a tiny
MIR (see DSL below) when the operation calls back into a closure.
"""
import re
import string
from terms import T

OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
IDENT_STR = ("std::string::String", "str", "std::path::PathBuf", "std::path::Path",
             "std::ffi::OsString", "std::ffi::OsStr")

MODELS = {}
_norm_cache = {}


def norm(d):
    r = _norm_cache.get(d)
    if r is None:
        s = d
        s = re.sub(r"::<impl [^>]*(<[^>]*>)*[^>]*>", "", s)
        out, depth = [], 0
        i = 0
        while i < len(s):
            c = s[i]
            if s.startswith("::<", i):
                depth += 1
                i += 3
                while depth:
                    if s[i] == "<":
                        depth += 1
                    elif s[i] == ">" and s[i - 1] != "-":
                        depth -= 1
                    i += 1
                continue
            out.append(c)
            i += 1
        s = "".join(out)
        r = "::".join(s.split("::")[-2:])
        _norm_cache[d] = r
    return r


def lookup(d):
    return MODELS.get(norm(d))


def m(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers
def some(E, x):
    return E.w.agg(OPT, 1, [x])


def none(E):
    return E.w.agg(OPT, 0, [])


def ok(E, x):
    return E.w.agg(RES, 0, [x])


def err(E, x):
    return E.w.agg(RES, 1, [x])


def base_ty(E, ty):
    t = E.prog.types.get(E.prog.strip(ty)) or {}
    return t.get("n") if t.get("k") == "adt" else E.prog.strip(ty)


def make_adt(E, base, variant, ops, ty):
    return E.w.agg(base, variant, ops)


def deref(E, v):
    n = 0
    while v.op == "Ref" and n < 4:
        v = E.readref(v)
        n += 1
    return v


def cases(E, v, kind):
    """[(variant, payload, facts)] feasible for an Option (kind OPT) or Result"""
    w = E.w
    if v.op == "agg":
        return [(v.a[1], v.a[2] if len(v.a) > 2 else None, [])]
    out = []
    d = w.discr(v)
    for var in (0, 1):
        c = w.ieq(d, w.i(var))
        tv = E.truth(c, E._facts)
        if tv is False:
            continue
        pay = None
        if not (kind == OPT and var == 0):
            pay = w.fld(v, var, 0)
        out.append((var, pay, [(c, True), (w.ieq(d, w.i(1 - var)), False)]))
        if tv is True:
            return [out[-1]]
    return out


def kindof(cal):
    return OPT if "option::Option" in cal["def"] else RES


def slice_(E, a, lo, hi):
    w = E.w
    if w.cint(lo) == 0 and w.isub(hi, w.len(a)) is w.i(0):
        return a
    l, h = w.cint(lo), w.cint(hi)
    if a.op == "arr" and l is not None and h is not None and 0 <= l <= h <= len(a.a):
        return w.arr(a.a[l:h])
    if a.op == "app" and a.a[0] == "slice":
        return slice_(E, a.a[1], w.iadd(a.a[2], lo), w.iadd(a.a[2], hi))
    if a.op == "push":
        d = w.cint(w.isub(w.len(a.a[0]), hi))
        if d is not None and d >= 0:
            return slice_(E, a.a[0], lo, hi)
    return w.mk("app", "slice", a, lo, hi)


def it(E, src, kf=None, kb=None):
    w = E.w
    return w.mk("agg", "it", 0, src, kf or w.i(0), kb or w.i(0))


def it_src(E, d):
    """the remaining elements of an `it` descriptor as an array view"""
    w = E.w
    src, kf, kb = d.a[2:]
    return slice_(E, src, kf, w.isub(w.len(src), kb))


def to_it(E, v, ty=""):
    """iterator descriptor for IntoIterator::into_iter on v"""
    w = E.w
    if v.op == "agg":
        k = v.a[0]
        if k.startswith("it"):
            return v
        if k == "std::ops::Range":
            return it(E, w.mk("app", "iota", v.a[2], v.a[3]))
        if k == "std::ops::RangeInclusive":
            return it(E, w.mk("app", "iota", v.a[2], w.iadd(v.a[3], w.i(1))))
        if k == "std::ops::RangeFrom":
            return it(E, w.mk("app", "iota", v.a[2], w.iadd(v.a[2], w.sym("inf"))))
        if k == OPT:
            return it(E, w.arr(v.a[2:]))
    if v.op == "Ref":
        cur = E.readref(v)
        if cur.op == "agg" and cur.a[0].startswith("it"):
            return v
        if cur.op == "agg" and cur.a[0].startswith("std::ops::Range"):
            return v
        t = E.prog.types.get(ty, {})
        return w.mk("agg", "it:mut", 0, v, w.i(0), w.i(0))
    b = base_ty(E, ty) or ""
    if "HashMap" in b or "HashSet" in b:
        return it(E, w.app("hmiter", v))
    if "BTreeMap" in b or "BTreeSet" in b:
        return it(E, w.app("sorted", w.app("hmiter", v)))
    return it(E, v)


def geneq(E, a, b, ty=""):
    w = E.w
    a, b = deref(E, a), deref(E, b)
    s = E.prog.strip(ty) if ty else ""
    if s in ("f64", "f32"):
        return w.fcmp("feq", a, b)
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return w.b(False)
        r = w.b(True)
        for x, y in zip(a.a[2:], b.a[2:]):
            r = w.band(r, geneq(E, x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.a[0] in E.prog.discrs and len(E.prog.discrs[x.a[0]]) > 1:
            r = w.ieq(w.discr(y), w.i(E._discr_of(x.a[0], x.a[1])))
            for i, z in enumerate(x.a[2:]):
                r = w.band(r, geneq(E, z, w.fld(y, x.a[1], i)))
            return r
    if s in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "char"):
        return w.ieq(a, b)
    return w.eq(a, b)


def enter(E, fname, args):
    return ("enter", DSL[fname](E), args)


def subref(E, r, i, kind, n):
    return E.w.ref(r.a[0], tuple(r.a[1]) + (("f", 0, i, kind, n),))


# ------------------------------------------------------------------ simplifier
def simplify(E, op, a):
    w = E.w
    if op == "len":
        x = a[0]
        if x.op == "app":
            n = x.a[0]
            if n == "zipped":
                return w.imin(w.len(x.a[1]), w.len(x.a[2]))
            if n == "windows" and w.cint(x.a[2]) and w.cint(w.len(x.a[1])) is not None:
                return w.i(max(0, w.cint(w.len(x.a[1])) - w.cint(x.a[2]) + 1))
            if n in ("enumerated", "hmiter_", "swap"):
                return w.len(x.a[1])
    elif op == "app":
        f = FOLD.get(a[0])
        if f and all(isinstance(x, T) and x.op == "C" for x in a[1:]):
            try:
                return f(w, *[x.a[1] for x in a[1:]])
            except Exception:
                return None
        if a[0] == "substr" and w.cint(a[2]) == 0 and a[3] is w.len(a[1]):
            return a[1]
        if a[0] == "trim":
            x = a[1]
            if x.op == "app" and x.a[0] == "trim":
                return x
    return None


def _strip(w, r):
    return w.agg(OPT, 0, []) if r is None else w.agg(OPT, 1, [w.s(r)])


def _halves(w, s, p, i):
    return w.agg(OPT, 0, []) if i < 0 else w.agg(OPT, 1, [w.agg("tuple", 0, [w.s(s[:i]), w.s(s[i + len(p):])])])


def _pos(w, s, i):
    return w.agg(OPT, 0, []) if i < 0 else w.agg(OPT, 1, [w.i(len(s[:i].encode()))])


def _c(v):
    return chr(v) if isinstance(v, int) else v


FOLD = {
    "starts_with": lambda w, s, p: w.b(s.startswith(_c(p))),
    "ends_with": lambda w, s, p: w.b(s.endswith(_c(p))),
    "contains": lambda w, s, p: w.b(_c(p) in s),
    "trim": lambda w, s: w.s(s.strip()),
    "trim_start": lambda w, s: w.s(s.lstrip()),
    "trim_end": lambda w, s: w.s(s.rstrip()),
    "substr": lambda w, s, i, j: w.s(s.encode()[i:j].decode()) if 0 <= i <= j <= len(s.encode()) else None,
    "lower": lambda w, s: w.s(s.lower()),
    "upper": lambda w, s: w.s(s.upper()),
    "replace": lambda w, s, p, r: w.s(s.replace(_c(p), _c(r))),
    "words": lambda w, s: w.arr([w.s(x) for x in s.split()]),
    "chars": lambda w, s: w.arr([w.c(ord(x)) for x in s]),
    "split": lambda w, s, p: w.arr([w.s(x) for x in s.split(_c(p))]),
    "char_indices": lambda w, s: w.arr([w.agg("tuple", 0, [w.i(len(s[:i].encode())), w.c(ord(x))]) for i, x in enumerate(s)]),
    "strbytes": lambda w, s: w.arr([w.i(x) for x in s.encode()]),
    "to_ascii_lowercase": lambda w, c: w.c(c + 32 if 65 <= c <= 90 else c),
    "to_ascii_uppercase": lambda w, c: w.c(c - 32 if 97 <= c <= 122 else c),
    "is_ascii_uppercase": lambda w, c: w.b(65 <= c <= 90),
    "is_ascii_lowercase": lambda w, c: w.b(97 <= c <= 122),
    "is_ascii_graphic": lambda w, c: w.b(33 <= c <= 126),
    "is_ascii": lambda w, c: w.b(c < 128 if isinstance(c, int) else c.isascii()),
    "is_ascii_whitespace": lambda w, c: w.b(c in (9, 10, 12, 13, 32)),
    "rsplit": lambda w, s, p: w.arr([w.s(x) for x in s.split(_c(p))[::-1]]),
    "split_once": lambda w, s, p: _halves(w, s, _c(p), s.find(_c(p))),
    "rsplit_once": lambda w, s, p: _halves(w, s, _c(p), s.rfind(_c(p))),
    "find": lambda w, s, p: _pos(w, s, s.find(_c(p))),
    "rfind": lambda w, s, p: _pos(w, s, s.rfind(_c(p))),
    "strip_prefix": lambda w, s, p: _strip(w, s[len(_c(p)):] if s.startswith(_c(p)) else None),
    "strip_suffix": lambda w, s, p: _strip(w, s[:len(s) - len(_c(p))] if s.endswith(_c(p)) else None),
    "eq_ignore_ascii_case": lambda w, s, p: w.b(s.lower() == p.lower()) if (s + p).isascii() else None,
    "is_numeric": lambda w, c: w.b(chr(c).isnumeric()),
    "is_alphabetic": lambda w, c: w.b(chr(c).isalpha()),
    "is_ascii_punctuation": lambda w, c: w.b(c < 128 and chr(c) in string.punctuation),
    "is_whitespace": lambda w, c: w.b(chr(c).isspace()),
    "is_ascii_alphanumeric": lambda w, c: w.b(chr(c).isalnum() and c < 128),
    "is_alphanumeric": lambda w, c: w.b(chr(c).isalnum()),
    "is_ascii_digit": lambda w, c: w.b(48 <= c < 58),
    "is_ascii_alphabetic": lambda w, c: w.b(chr(c).isalpha() and c < 128),
    "fmin": lambda w, x, y: w.f(min(x, y)),
    "fmax": lambda w, x, y: w.f(max(x, y)),
    "is_finite": lambda w, x: w.b(x == x and abs(x) != float("inf")),
    "is_nan": lambda w, x: w.b(x != x),
}


# ------------------------------------------------------------------ identities
@m("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "hint::must_use", "AsRef::as_ref",
   "String::as_str", "Borrow::borrow", "Path::new", "Path::to_path_buf", "String::into_boxed_str",
   "Vec::as_slice", "Deref::deref", "Path::display", "Path::as_path", "PathBuf::as_path",
   "Vec::into_boxed_slice", "slice::into_vec", "str::to_owned", "Cow::into_owned",
   "slice::as_ref", "OsStr::to_os_string", "Path::as_os_str", "Into::into_", "convert::identity",
   "BufWriter::new", "LineWriter::new", "Box::new", "Rc::new", "String::into_string",
   "PathBuf::from_", "ManuallyDrop::new", "String::clone", "Cell::new", "RefCell::new",
   "String::as_ref", "f64::from_", "black_box::black_box", "Box::leak")
def _ident(E, ctx, bb, cal, a, dest, tg):
    return deref(E, a[0])


@m("DerefMut::deref_mut", "Vec::as_mut_slice", "AsMut::as_mut", "BorrowMut::borrow_mut")
def _identm(E, ctx, bb, cal, a, dest, tg):
    return a[0]


@m("From::from", "Into::into", "TryFrom::try_from_", "FromStr::from_str_")
def _from(E, ctx, bb, cal, a, dest, tg):
    ar = cal.get("args") or []
    src = E.prog.strip(ar[1]) if len(ar) > 1 else "?"
    dst = E.prog.strip(ar[0]) if ar else "?"
    if norm(cal["def"]) == "Into::into":
        src, dst = dst, src
    v = deref(E, a[0])
    if dst in ("f64", "f32") and src not in ("f64", "f32"):
        c = E.w.cint(v)
        return E.w.f(c) if c is not None else E.w.app("itof", v)
    if dst in ("std::string::String",) and src == "char":
        return E.w.tostr(v)
    if dst.startswith("std::option::Option") and not src.startswith("std::option::Option"):
        return some(E, a[0])
    fn = E.prog.fns.get(cal.get("id"))
    if fn is not None:
        return NotImplemented
    if dst.startswith(("std::collections::HashMap<", "std::collections::BTreeMap<")) and v.op == "arr" and \
            all(x.op == "agg" and x.a[0] == "tuple" for x in v.a):
        m = E.w.app("hm_new")
        for x in v.a:
            m = E.w.app("hm_ins", m, x.a[2], x.a[3])
        return m
    return v


@m("ToString::to_string")
def _tostring(E, ctx, bb, cal, a, dest, tg):
    v = deref(E, a[0])
    ar = cal.get("args") or []
    t = E.prog.strip(ar[0]) if ar else ""
    return fmtval(E, v, t, "d", "")


def fmtval(E, v, t, how, spec):
    w = E.w
    if how == "d" and not spec:
        if t in ("str", "std::string::String") or v.op in ("cat",):
            return v
        if v.op == "C" and v.a[0] in ("s", "c", "i"):
            return w.tostr(v)
        if t in ("char",):
            return w.app("chstr", v)
        if t.startswith("std::path"):
            return v
        return w.app("disp", v)
    return w.app("fmt" + how + spec, v)


# ------------------------------------------------------------------ defaults
@m("Default::default")
def _default(E, ctx, bb, cal, a, dest, tg):
    ar = cal.get("args") or []
    v = default_of(E, ar[0] if ar else "?")
    return NotImplemented if v is None else v


def default_of(E, ty):
    w = E.w
    if ty in ("f64", "f32"):
        return w.f(0.0)
    if ty in ("usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64"):
        return w.i(0)
    if ty == "bool":
        return w.b(False)
    if ty == "char":
        return w.c(0)
    if ty in ("std::string::String", "&str", "std::path::PathBuf"):
        return w.s("")
    t = E.prog.types.get(ty, {})
    n = t.get("n", ty)
    if n.startswith("std::vec::Vec") or n.startswith("std::collections::VecDeque"):
        return w.arr([])
    if "HashMap" in n or "HashSet" in n or "BTreeMap" in n or "BTreeSet" in n:
        return w.app("hm_new")
    if n.startswith(OPT):
        return none(E)
    if t.get("k") == "tuple":
        xs = [default_of(E, x) for x in t["es"]]
        return None if None in xs else (w.agg("tuple", 0, xs) if xs else w.unit)
    return None


# ------------------------------------------------------------------ panics / exit
@m("panicking::panic", "rt::begin_panic", "rt::panic_fmt", "panicking::panic_fmt", "panicking::panic_display",
   "panicking::panic_explicit", "panicking::unreachable_display", "panicking::assert_failed",
   "panicking::panic_nounwind", "panicking::panic_const_div_by_zero", "panicking::panic_str_2015",
   "panicking::assert_failed_inner", "panicking::panic_str_literal", "option::unwrap_failed",
   "option::expect_failed", "result::unwrap_failed", "panicking::panic_bounds_check",
   "panic::panic_any", "rt::panic_display")
def _panic(E, ctx, bb, cal, a, dest, tg):
    E.event("panic", "panic", a[0] if a else None, "definite")
    return []


@m("process::exit", "process::abort")
def _exit(E, ctx, bb, cal, a, dest, tg):
    E.event("exit", a[0] if a else E.w.i(134))
    return []


# ------------------------------------------------------------------ Option / Result
@m("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def _unwrap(E, ctx, bb, cal, a, dest, tg):
    k = kindof(cal)
    good = 1 if k == OPT else 0
    cs = cases(E, deref(E, a[0]), k)
    g = [c for c in cs if c[0] == good]
    if len(g) < len(cs):
        E.event("panic", norm(cal["def"]), a[0], "definite" if not g else "possible",
                a[1] if len(a) > 1 else None)
    return [(p, f, None) for _, p, f in g]


@m("Result::unwrap_err", "Result::expect_err")
def _unwrap_err(E, ctx, bb, cal, a, dest, tg):
    cs = cases(E, deref(E, a[0]), RES)
    g = [c for c in cs if c[0] == 1]
    if len(g) < len(cs):
        E.event("panic", norm(cal["def"]), a[0], "definite" if not g else "possible", None)
    return [(p, f, None) for _, p, f in g]


@m("Option::unwrap_or", "Result::unwrap_or")
def _unwrap_or(E, ctx, bb, cal, a, dest, tg):
    k = kindof(cal)
    good = 1 if k == OPT else 0
    return [(p if v == good else a[1], f, None) for v, p, f in cases(E, deref(E, a[0]), k)]


@m("Option::unwrap_or_default", "Result::unwrap_or_default")
def _unwrap_or_default(E, ctx, bb, cal, a, dest, tg):
    k = kindof(cal)
    good = 1 if k == OPT else 0
    d = default_of(E, (cal.get("args") or ["?"])[0])
    if d is None:
        d = E.w.app("default", E.w.s((cal.get("args") or ["?"])[0]))
    return [(p if v == good else d, f, None) for v, p, f in cases(E, deref(E, a[0]), k)]


@m("Option::is_some", "Result::is_err", "Option::is_none", "Result::is_ok")
def _is(E, ctx, bb, cal, a, dest, tg):
    v = deref(E, a[0])
    one = norm(cal["def"]) in ("Option::is_some", "Result::is_err")
    return E.w.ieq(E.w.discr(v), E.w.i(1 if one else 0))


@m("Option::copied", "Option::cloned", "Option::as_ref", "Result::as_ref", "Option::as_deref",
   "Result::copied", "Result::cloned", "Option::as_slice_", "Result::as_deref")
def _optid(E, ctx, bb, cal, a, dest, tg):
    return deref(E, a[0])


@m("Option::as_mut", "Option::as_deref_mut", "Result::as_mut")
def _optmut(E, ctx, bb, cal, a, dest, tg):
    if a[0].op != "Ref":
        return a[0]
    v = E.readref(a[0])
    k = kindof(cal)
    out = []
    for var, p, f in cases(E, v, k):
        if k == OPT and var == 0:
            out.append((none(E), f, None))
        else:
            r = E.w.ref(a[0].a[0], tuple(a[0].a[1]) + (("f", var, 0, k, 1),))
            out.append((E.w.agg(k, var, [r]), f, None))
    return out


@m("Option::take", "mem::take")
def _take(E, ctx, bb, cal, a, dest, tg):
    v = deref(E, a[0])
    if norm(cal["def"]) == "Option::take":
        d = none(E)
    else:
        d = default_of(E, (cal.get("args") or ["?"])[0])
        if d is None:
            d = E.w.app("default", E.w.s((cal.get("args") or ["?"])[0]))
    return [(v, None, [(a[0], d)])]


@m("Option::replace", "mem::replace")
def _replace(E, ctx, bb, cal, a, dest, tg):
    v = deref(E, a[0])
    x = some(E, a[1]) if norm(cal["def"]) == "Option::replace" else a[1]
    return [(v, None, [(a[0], x)])]


@m("mem::swap")
def _swap(E, ctx, bb, cal, a, dest, tg):
    x, y = deref(E, a[0]), deref(E, a[1])
    return [(E.w.unit, None, [(a[0], y), (a[1], x)])]


@m("mem::drop", "mem::forget")
def _drop(E, ctx, bb, cal, a, dest, tg):
    return E.w.unit


@m("Result::ok")
def _ok(E, ctx, bb, cal, a, dest, tg):
    return [(some(E, p) if v == 0 else none(E), f, None) for v, p, f in cases(E, a[0], RES)]


@m("Result::err")
def _err(E, ctx, bb, cal, a, dest, tg):
    return [(some(E, p) if v == 1 else none(E), f, None) for v, p, f in cases(E, a[0], RES)]


@m("Option::ok_or")
def _ok_or(E, ctx, bb, cal, a, dest, tg):
    return [(ok(E, p) if v == 1 else err(E, a[1]), f, None) for v, p, f in cases(E, a[0], OPT)]


@m("Option::or", "Result::or")
def _or(E, ctx, bb, cal, a, dest, tg):
    k = kindof(cal)
    good = 1 if k == OPT else 0
    return [(E.w.agg(k, good, [p]) if v == good else a[1], f, None) for v, p, f in cases(E, a[0], k)]


@m("Option::and", "Result::and")
def _and(E, ctx, bb, cal, a, dest, tg):
    k = kindof(cal)
    good = 1 if k == OPT else 0
    return [(a[1] if v == good else (none(E) if k == OPT else err(E, p)), f, None)
            for v, p, f in cases(E, a[0], k)]


@m("Option::zip")
def _ozip(E, ctx, bb, cal, a, dest, tg):
    out = []
    for v, p, f in cases(E, a[0], OPT):
        for v2, p2, f2 in cases(E, a[1], OPT):
            out.append((some(E, E.w.agg("tuple", 0, [p, p2])) if v and v2 else none(E), f + f2, None))
    return out


@m("Option::flatten")
def _oflat(E, ctx, bb, cal, a, dest, tg):
    return [(p if v else none(E), f, None) for v, p, f in cases(E, a[0], OPT)]


@m("Option::get_or_insert")
def _oins(E, ctx, bb, cal, a, dest, tg):
    if a[0].op != "Ref":
        return NotImplemented
    r = E.w.ref(a[0].a[0], tuple(a[0].a[1]) + (("f", 1, 0, OPT, 1),))
    return [(r, f, None if v else [(a[0], some(E, a[1]))]) for v, p, f in cases(E, E.readref(a[0]), OPT)]


@m("Option::insert")
def _oins2(E, ctx, bb, cal, a, dest, tg):
    if a[0].op != "Ref":
        return NotImplemented
    r = E.w.ref(a[0].a[0], tuple(a[0].a[1]) + (("f", 1, 0, OPT, 1),))
    return [(r, None, [(a[0], some(E, a[1]))])]


def _comb(dsl):
    def f(E, ctx, bb, cal, a, dest, tg):
        return enter(E, dsl, [a[0]] + list(a[1:]))
    return f


for _n, _d in (("Option::map", "opt_map"), ("Result::map", "res_map"), ("Result::map_err", "res_map_err"),
               ("Option::and_then", "opt_and_then"), ("Result::and_then", "res_and_then"),
               ("Option::or_else", "opt_or_else"), ("Result::or_else", "res_or_else"),
               ("Option::unwrap_or_else", "opt_unwrap_or_else"),
               ("Result::unwrap_or_else", "res_unwrap_or_else"), ("Option::map_or", "opt_map_or"),
               ("Result::map_or", "res_map_or"), ("Option::map_or_else", "opt_map_or_else"),
               ("Option::ok_or_else", "opt_ok_or_else"), ("Option::filter", "opt_filter"),
               ("Option::is_some_and", "opt_is_some_and"), ("Option::is_none_or", "opt_is_none_or"),
               ("Result::is_ok_and", "res_is_ok_and"), ("Result::is_err_and", "res_is_err_and"),
               ("bool::then", "bool_then")):
    MODELS[_n] = _comb(_d)


@m("bool::then_some")
def _then_some(E, ctx, bb, cal, a, dest, tg):
    tv = E.truth(a[0], E._facts)
    out = []
    if tv is not False:
        out.append((some(E, a[1]), [(a[0], True)], None))
    if tv is not True:
        out.append((none(E), [(a[0], False)], None))
    return out


@m("Try::branch")
def _branch(E, ctx, bb, cal, a, dest, tg):
    ty = (cal.get("args") or [""])[0]
    k = OPT if ty.startswith("std::option") else RES
    good = 1 if k == OPT else 0
    out = []
    for v, p, f in cases(E, a[0], k):
        if v == good:
            out.append((E.w.agg(CF, 0, [p]), f, None))
        else:
            out.append((E.w.agg(CF, 1, [none(E) if k == OPT else err(E, p)]), f, None))
    return out


@m("FromResidual::from_residual")
def _residual(E, ctx, bb, cal, a, dest, tg):
    return a[0]


# ------------------------------------------------------------------ arithmetic by reference / traits
_OPS = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "Div": "Div", "Rem": "Rem",
        "BitAnd": "BitAnd", "BitOr": "BitOr", "BitXor": "BitXor"}
for _o in _OPS:
    def _f(E, ctx, bb, cal, a, dest, tg, _o=_o):
        t = E.prog.strip((cal.get("args") or ["f64"])[0])
        if t == "std::string::String":
            return E.w.cat([deref(E, a[0]), deref(E, a[1])])
        if E.prog.types.get(t, {}).get("k") == "adt":
            return NotImplemented
        return E.binop(_o, deref(E, a[0]), deref(E, a[1]), t)
    MODELS["%s::%s" % (_o, _o.lower())] = _f

    def _g(E, ctx, bb, cal, a, dest, tg, _o=_o):
        t = E.prog.strip((cal.get("args") or ["f64"])[0])
        old = deref(E, a[0])
        if t == "std::string::String":
            return [(E.w.unit, None, [(a[0], E.w.cat([old, deref(E, a[1])]))])]
        if E.prog.types.get(t, {}).get("k") == "adt":
            return NotImplemented
        return [(E.w.unit, None, [(a[0], E.binop(_o, old, deref(E, a[1]), t))])]
    MODELS["%sAssign::%s_assign" % (_o, _o.lower())] = _g
MODELS["BitAnd::bitand"] = MODELS["BitAnd::bitand"]


@m("Not::not")
def _not(E, ctx, bb, cal, a, dest, tg):
    return E.w.bnot(deref(E, a[0]))


@m("Neg::neg")
def _neg(E, ctx, bb, cal, a, dest, tg):
    v = deref(E, a[0])
    t = E.prog.strip((cal.get("args") or ["f64"])[0])
    return E.w.fneg(v) if t in ("f64", "f32") else E.w.isub(E.w.i(0), v)


@m("PartialEq::eq", "PartialEq::ne", "str::eq_", "slice::eq_")
def _eq(E, ctx, bb, cal, a, dest, tg):
    ar = cal.get("args") or [""]
    fn = E.prog.fns.get(cal.get("id"))
    r = geneq(E, a[0], a[1], ar[0])
    return E.w.bnot(r) if norm(cal["def"]).endswith("ne") else r


@m("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _cmp(E, ctx, bb, cal, a, dest, tg):
    t = E.prog.strip((cal.get("args") or ["f64"])[0])
    o = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[norm(cal["def"])[-2:]]
    return E.binop(o, deref(E, a[0]), deref(E, a[1]), t)


@m("Ord::max", "Ord::min", "cmp::max", "cmp::min")
def _maxmin(E, ctx, bb, cal, a, dest, tg):
    x, y = deref(E, a[0]), deref(E, a[1])
    mx = norm(cal["def"]).endswith("max")
    # decide by facts when possible
    return E.w.imax(x, y) if mx else E.w.imin(x, y)


def _float1(name, out):
    def f(E, ctx, bb, cal, a, dest, tg):
        return E.w.f1(out, deref(E, a[0]))
    MODELS["f64::" + name] = f
    MODELS["f32::" + name] = lambda *x: x[0].w.app("tof32", f(*x)) if out.startswith("f") else f(*x)


for _n, _o in (("abs", "fabs"), ("sqrt", "fsqrt"), ("sin", "fsin"), ("cos", "fcos"), ("tan", "ftan"),
               ("exp", "fexp"), ("ln", "fln"), ("is_finite", "is_finite"), ("is_nan", "is_nan"),
               ("is_infinite", "is_infinite"), ("floor", "ffloor"), ("ceil", "fceil"), ("round", "fround"),
               ("trunc", "ftrunc"), ("exp_m1", "fexpm1"), ("ln_1p", "fln1p"), ("signum", "fsignum"),
               ("log10", "flog10"), ("log2", "flog2"), ("fract", "ffract"), ("exp2", "fexp2")):
    _float1(_n, _o)


@m("f64::recip")
def _recip(E, ctx, bb, cal, a, dest, tg):
    return E.w.fbin("fdiv", E.w.f(1.0), a[0])


@m("f64::mul_add")
def _muladd(E, ctx, bb, cal, a, dest, tg):
    return E.w.fbin("fadd", E.w.fbin("fmul", a[0], a[1]), a[2])


@m("f64::powi", "f64::powf")
def _powi(E, ctx, bb, cal, a, dest, tg):
    c = a[1]
    n = E.w.cint(c)
    if n is None and c.op == "C" and c.a[0] == "f" and c.a[1] == int(c.a[1]):
        n = int(c.a[1])
    if n == 1:
        return a[0]
    if n is not None and 2 <= n <= 4:
        r = a[0]
        for _ in range(n - 1):
            r = E.w.fbin("fmul", r, a[0])
        return r
    return E.w.app("fpow", a[0], a[1])


@m("f64::min", "f64::max")
def _fminmax(E, ctx, bb, cal, a, dest, tg):
    x, y = a[0], a[1]
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    return E.w.app("fmin" if norm(cal["def"]).endswith("min") else "fmax", x, y)


@m("f64::clamp")
def _fclamp(E, ctx, bb, cal, a, dest, tg):
    return E.w.app("fmin", E.w.app("fmax", a[0], a[1]), a[2])


@m("f64::rem_euclid")
def _fremeu(E, ctx, bb, cal, a, dest, tg):
    return E.w.app("fremeu", a[0], a[1])


@m("num::saturating_sub", "usize::saturating_sub")
def _satsub(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    c = w.ile(a[1], a[0])
    tv = E.truth(c, E._facts)
    out = []
    if tv is not False:
        out.append((w.isub(a[0], a[1]), [(c, True)], None))
    if tv is not True:
        out.append((w.i(0), [(c, False)], None))
    return out


@m("num::checked_sub", "usize::checked_sub")
def _chksub(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    c = w.ile(a[1], a[0])
    tv = E.truth(c, E._facts)
    out = []
    if tv is not False:
        out.append((some(E, w.isub(a[0], a[1])), [(c, True)], None))
    if tv is not True:
        out.append((none(E), [(c, False)], None))
    return out


@m("num::wrapping_add", "num::saturating_add", "usize::wrapping_add", "usize::saturating_add")
def _wadd(E, ctx, bb, cal, a, dest, tg):
    return E.w.iadd(a[0], a[1])


# ------------------------------------------------------------------ strings
def _pure(name, app):
    def f(E, ctx, bb, cal, a, dest, tg):
        return E.w.app(app, *[deref(E, x) for x in a])
    MODELS[name] = f


for _n in ("starts_with", "ends_with", "contains", "find", "rfind", "splitn", "split_once",
           "rsplit_once", "split_at", "replace", "replacen", "parse", "strip_prefix", "strip_suffix",
           "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches",
           "eq_ignore_ascii_case", "repeat", "get", "is_char_boundary", "is_ascii"):
    _pure("str::" + _n, _n)


def _is_pred(p):
    """a pattern that is a function of a character"""
    return p.op == "fn" or p.op == "agg" and str(p.a[0]).startswith("closure")


def _by_char(name, dsl, source):
    plain = MODELS["str::" + name]

    def f(E, ctx, bb, cal, a, dest, tg):
        if len(a) == 2 and _is_pred(deref(E, a[1])):
            x = deref(E, a[0])
            if source in FOLD and x.op == "C":
                v = FOLD[source](E.w, x.a[1])
            else:
                v = E.w.app(source, x)
            return enter(E, dsl, [it(E, v), deref(E, a[1])])
        return plain(E, ctx, bb, cal, a, dest, tg)
    MODELS["str::" + name] = f


for _n, _d, _s in (("contains", "any_is", "chars"), ("starts_with", "first_is", "chars"), ("ends_with", "last_is", "chars"),
                   ("find", "find_at", "char_indices"), ("rfind", "rfind_at", "char_indices")):
    _by_char(_n, _d, _s)


@m("str::replace")
def _replace(E, ctx, bb, cal, a, dest, tg):
    x, p, r = [deref(E, y) for y in a]
    if p.op == "arr" and p.a and r.op == "C" and all(c.op == "C" and chr(c.a[1]) not in r.a[1] for c in p.a):
        for c in p.a:
            x = E.w.app("replace", x, c, r)
        return x
    return E.w.app("replace", x, p, r)


_pure("str::to_lowercase", "lower")
_pure("str::to_uppercase", "upper")
_pure("str::to_ascii_lowercase", "lower")
_pure("str::to_ascii_uppercase", "upper")
_pure("str::trim", "trim")
_pure("str::into_bytes", "bytes")
_pure("str::as_bytes", "bytes")
_pure("String::as_bytes", "bytes")
_pure("String::into_bytes", "bytes")
_pure("Path::join", "join_path")
_pure("Path::parent", "parent")
_pure("Path::to_str", "to_str")
_pure("Path::to_string_lossy", "lossy")
_pure("Path::file_name", "file_name")
_pure("Path::file_stem", "file_stem")
_pure("Path::extension", "extension")
_pure("Path::with_extension", "with_extension")
_pure("Path::is_absolute", "is_absolute")
_pure("Path::is_relative", "is_relative")
_pure("Path::components", "components")

for _n in ("is_whitespace", "is_ascii_alphanumeric", "is_alphanumeric", "is_ascii_digit", "is_numeric",
           "is_alphabetic", "is_ascii_alphabetic", "is_ascii_whitespace", "to_digit", "is_digit",
           "is_ascii_punctuation", "is_ascii_uppercase", "is_uppercase", "is_lowercase",
           "to_ascii_lowercase", "to_ascii_uppercase", "is_ascii_graphic", "is_control", "is_ascii", "is_ascii_lowercase"):
    _pure("methods::" + _n, _n)
    if _n.startswith("is_ascii"):
        _pure("num::" + _n, _n)
    _pure("char::" + _n, _n)


def _iter_of(name, app):
    def f(E, ctx, bb, cal, a, dest, tg):
        xs = [deref(E, x) for x in a]
        if app in FOLD and all(x.op == "C" for x in xs):
            return it(E, FOLD[app](E.w, *[x.a[1] for x in xs]))
        return it(E, E.w.app(app, *xs))
    MODELS[name] = f


_iter_of("str::split_whitespace", "words")
_iter_of("str::split_ascii_whitespace", "words")
_iter_of("str::chars", "chars")
_iter_of("str::bytes", "strbytes")
_iter_of("str::split", "split")
_iter_of("str::rsplit", "rsplit")
_iter_of("str::split_terminator", "split_terminator")
_iter_of("str::lines", "strlines")
_iter_of("str::matches", "matches")
_iter_of("str::match_indices", "match_indices")


@m("str::char_indices")
def _char_indices(E, ctx, bb, cal, a, dest, tg):
    return it(E, E.w.app("char_indices", deref(E, a[0])))


@m("str::len", "String::len")
def _strlen(E, ctx, bb, cal, a, dest, tg):
    return E.w.len(deref(E, a[0]))


@m("str::is_empty", "String::is_empty", "slice::is_empty", "Vec::is_empty")
def _isempty(E, ctx, bb, cal, a, dest, tg):
    v = deref(E, a[0])
    if "str" in cal["def"].lower() and v.op in ("sym", "fld", "app", "sel", "phi"):
        return E.w.eq(v, E.w.s("")) if ("string::String" in cal["def"] or "impl str" in cal["def"]) else E.w.eq0(E.w.len(v))
    return E.w.eq0(E.w.len(v))


@m("String::push")
def _spush(E, ctx, bb, cal, a, dest, tg):
    c = a[1]
    x = E.w.tostr(c) if c.op == "C" else E.w.app("chstr", c)
    return [(E.w.unit, None, [(a[0], E.w.cat([deref(E, a[0]), x]))])]


@m("String::push_str")
def _spushs(E, ctx, bb, cal, a, dest, tg):
    return [(E.w.unit, None, [(a[0], E.w.cat([deref(E, a[0]), deref(E, a[1])]))])]


@m("String::new", "String::with_capacity")
def _snew(E, ctx, bb, cal, a, dest, tg):
    return E.w.s("")


@m("String::clear")
def _sclear(E, ctx, bb, cal, a, dest, tg):
    return [(E.w.unit, None, [(a[0], E.w.s(""))])]


# ------------------------------------------------------------------ formatting
def fmt_parse(bs):
    """[('lit', text) | ('arg', flags, width, prec)]"""
    out, i = [], 0
    n = len(bs)
    lit = bytearray()
    while i < n:
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            lit += bytes(bs[i + 1:i + 1 + b])
            i += 1 + b
        elif b == 0x80:
            ln = bs[i + 1] | (bs[i + 2] << 8)
            lit += bytes(bs[i + 3:i + 3 + ln])
            i += 3 + ln
        else:
            if lit:
                out.append(("lit", lit.decode("utf8", "replace")))
                lit = bytearray()
            i += 1
            fl = wd = pr = ix = None
            if b & 1:
                fl = bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24
                i += 4
            if b & 2:
                wd = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 4:
                pr = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 8:
                ix = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(("arg", fl, wd, pr, ix))
    if lit:
        out.append(("lit", lit.decode("utf8", "replace")))
    return out


@m("Arguments::new", "Arguments::new_v1", "Arguments::new_v1_formatted")
def _args_new(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    t, xs = a[0], deref(E, a[1])
    if t.op != "bytes":
        return w.app("fmtargs", t, xs)
    parts, n = [], 0
    for p in fmt_parse(t.a[0]):
        if p[0] == "lit":
            parts.append(w.s(p[1]))
        else:
            ix = p[4] if p[4] is not None else n
            n = ix + 1
            x = w.sel(xs, w.i(ix))
            if x.op == "app" and x.a[0] == "fmtarg":
                spec = ""
                if p[1] is not None or p[2] is not None or p[3] is not None:
                    spec = "[%s,%s,%s]" % p[1:4]
                parts.append(fmtval(E, x.a[1], x.a[3].a[1], x.a[2].a[1], spec))
            else:
                parts.append(w.app("disp", x))
    return w.cat(parts)


@m("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def _args_str(E, ctx, bb, cal, a, dest, tg):
    return a[0]


@m("Argument::new_display", "Argument::new_debug", "Argument::new_lower_exp", "Argument::new_upper_exp",
   "Argument::new_lower_hex")
def _fmtarg(E, ctx, bb, cal, a, dest, tg):
    how = {"new_display": "d", "new_debug": "D"}.get(norm(cal["def"]).split("::")[1], norm(cal["def"])[-3:])
    t = E.prog.strip((cal.get("args") or ["?"])[0])
    return E.w.mk("app", "fmtarg", deref(E, a[0]), E.w.s(how), E.w.s(t))


@m("fmt::format")
def _format(E, ctx, bb, cal, a, dest, tg):
    return a[0]


@m("io::_print", "io::_eprint")
def _print(E, ctx, bb, cal, a, dest, tg):
    E.event("print", a[0], norm(cal["def"]))
    E.oracle.printed(E, a[0])
    return E.w.unit


@m("Write::write_all", "Write::write", "Write::write_fmt")
def _write(E, ctx, bb, cal, a, dest, tg):
    x = deref(E, a[1])
    if x.op == "app" and x.a[0] == "bytes":
        x = x.a[1]
    t = (cal.get("args") or ["?"])[0]
    f = a[0]
    if t.endswith("string::String") or (a[0].op == "Ref" and E.prog.strip(t) == "std::string::String"):
        return [(ok(E, E.w.unit), None, [(a[0], E.w.cat([deref(E, a[0]), x]))])]
    r = E.w.app("ioresult", E.w.mk("site", E.site()))
    E.event("write", deref(E, f), x, norm(cal["def"]), r)
    return r


@m("Write::flush", "File::sync_all", "File::sync_data")
def _flush(E, ctx, bb, cal, a, dest, tg):
    r = E.w.app("ioresult", E.w.mk("site", E.site()))
    E.event("flush", deref(E, a[0]), None, norm(cal["def"]), r)
    return r


@m("BufWriter::new", "LineWriter::new")
def _bufw(E, ctx, bb, cal, a, dest, tg):
    return E.w.app("bufwriter", a[0])


@m("BufWriter::with_capacity", "LineWriter::with_capacity")
def _bufwc(E, ctx, bb, cal, a, dest, tg):
    return E.w.app("bufwriter", a[1])


@m("File::create", "File::open", "fs::create_dir_all", "fs::create_dir", "Path::try_exists", "Path::exists",
   "fs::read_to_string", "fs::write", "fs::remove_file", "fs::metadata", "fs::rename", "fs::remove_dir_all",
   "env::current_dir", "fs::canonicalize", "Path::canonicalize", "Path::is_file", "Path::is_dir",
   "OpenOptions::open", "File::create_new", "fs::copy", "env::set_current_dir", "env::var", "Command::new",
   "Command::spawn", "Command::output", "Command::status", "env::set_var", "SystemTime::now", "Instant::now",
   "thread::spawn", "thread::sleep", "TcpStream::connect")
def _io(E, ctx, bb, cal, a, dest, tg):
    n = norm(cal["def"])
    xs = [deref(E, x) for x in a]
    r = E.w.app("io:" + n, E.w.mk("site", E.site()), *xs)
    E.event("io", n, tuple(xs), r)
    return r


@m("BufReader::new")
def _bufreader(E, ctx, bb, cal, a, dest, tg):
    return E.w.app("reader", a[0])


@m("BufRead::lines")
def _lines(E, ctx, bb, cal, a, dest, tg):
    return it(E, E.w.app("lines", deref(E, a[0])))


@m("env::args")
def _envargs(E, ctx, bb, cal, a, dest, tg):
    return it(E, E.w.app("env_args"))


@m("PathBuf::push")
def _pbpush(E, ctx, bb, cal, a, dest, tg):
    return [(E.w.unit, None, [(a[0], E.w.app("join_path", deref(E, a[0]), deref(E, a[1])))])]


@m("PathBuf::pop")
def _pbpop(E, ctx, bb, cal, a, dest, tg):
    return [(E.w.app("pathpop", deref(E, a[0])), None, [(a[0], E.w.app("popped", deref(E, a[0])))])]


@m("PathBuf::new")
def _pbnew(E, ctx, bb, cal, a, dest, tg):
    return E.w.s("")


# ------------------------------------------------------------------ cells / boxes
@m("Cell::get")
def _cellget(E, ctx, bb, cal, a, dest, tg):
    return E.w.app("cellget", deref(E, a[0]))


@m("Cell::set", "Cell::replace")
def _cellset(E, ctx, bb, cal, a, dest, tg):
    E.event("cellset", deref(E, a[0]), a[1])
    return E.w.unit


@m("Box::new_uninit")
def _newuninit(E, ctx, bb, cal, a, dest, tg):
    cell = ("H", ctx.id, bb if not isinstance(bb, tuple) else bb[0])
    E.set(cell, E.w.mk("undef"))
    return E.w.ref(cell, ())


@m("boxed::box_assume_init_into_vec_unsafe")
def _boxvec(E, ctx, bb, cal, a, dest, tg):
    return deref(E, a[0])


# ------------------------------------------------------------------ vectors
@m("Vec::new", "Vec::with_capacity", "VecDeque::new")
def _vnew(E, ctx, bb, cal, a, dest, tg):
    return E.w.arr([])


@m("vec::from_elem")
def _from_elem(E, ctx, bb, cal, a, dest, tg):
    return E.w.rep(a[1], a[0])


@m("Vec::len", "slice::len", "ExactSizeIterator::len", "VecDeque::len")
def _vlen(E, ctx, bb, cal, a, dest, tg):
    v = deref(E, a[0])
    if v.op == "agg" and v.a[0] == "it":
        w = E.w
        return w.isub(w.isub(w.len(v.a[2]), v.a[3]), v.a[4])
    return E.w.len(v)


@m("Vec::push", "VecDeque::push_back")
def _vpush(E, ctx, bb, cal, a, dest, tg):
    return [(E.w.unit, None, [(a[0], E.w.push(deref(E, a[0]), a[1]))])]


@m("Vec::pop", "VecDeque::pop_back")
def _vpop(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v = deref(E, a[0])
    c = w.eq0(w.len(v))
    tv = E.truth(c, E._facts)
    out = []
    if tv is not False:
        out.append((none(E), [(c, True)], None))
    if tv is not True:
        rest, last = w.pop(v)
        out.append((some(E, last), [(c, False)], [(a[0], rest)]))
    return out


@m("Vec::clear", "HashMap::clear", "HashSet::clear")
def _vclear(E, ctx, bb, cal, a, dest, tg):
    x = E.w.arr([]) if "Vec" in norm(cal["def"]) else E.w.app("hm_new")
    return [(E.w.unit, None, [(a[0], x)])]


@m("Vec::truncate")
def _vtrunc(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v = deref(E, a[0])
    if w.cint(a[1]) == 0:
        return [(w.unit, None, [(a[0], w.arr([]))])]
    return [(w.unit, None, [(a[0], slice_(E, v, w.i(0), w.imin(w.len(v), a[1])))])]


@m("Vec::resize")
def _vresize(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v = deref(E, a[0])
    if w.cint(w.len(v)) == 0:
        return [(w.unit, None, [(a[0], w.rep(a[1], a[2]))])]
    return [(w.unit, None, [(a[0], w.app("resize", v, a[1], a[2]))])]


@m("slice::fill")
def _vfill(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    return [(w.unit, None, [(a[0], w.rep(w.len(deref(E, a[0])), a[1]))])]


@m("slice::copy_from_slice", "slice::clone_from_slice", "Clone::clone_from")
def _vcopy(E, ctx, bb, cal, a, dest, tg):
    return [(E.w.unit, None, [(a[0], deref(E, a[1]))])]


@m("Vec::reserve", "Vec::shrink_to_fit", "String::reserve")
def _nop(E, ctx, bb, cal, a, dest, tg):
    return E.w.unit


@m("Vec::insert")
def _vinsert(E, ctx, bb, cal, a, dest, tg):
    return [(E.w.unit, None, [(a[0], E.w.app("vinsert", deref(E, a[0]), a[1], a[2]))])]


@m("Vec::remove", "Vec::swap_remove")
def _vremove(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v = deref(E, a[0])
    c = w.ilt(a[1], w.len(v))
    bound(E, c)
    return [(w.sel(v, a[1]), [(c, True)], [(a[0], w.app("vremove", v, a[1]))])]


@m("Vec::append")
def _vappend(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    x, y = deref(E, a[0]), deref(E, a[1])
    return [(w.unit, None, [(a[0], concat(E, x, y)), (a[1], w.arr([]))])]


def concat(E, x, y):
    w = E.w
    if y.op == "arr":
        for z in y.a:
            x = w.push(x, z)
        return x
    if x.op == "arr" and not x.a:
        return y
    return w.app("concat", x, y)


def chain_src(E, v):
    """the items of a chain of plain iterators, None"""
    if v.op == "agg" and v.a[0] == "it":
        return it_src(E, v)
    if v.op == "agg" and v.a[0] == "it:chain":
        x, y = chain_src(E, v.a[2]), chain_src(E, v.a[3])
        if x is not None and y is not None:
            return concat(E, x, y)
    return None


@m("Vec::extend_from_slice")
def _vextslice(E, ctx, bb, cal, a, dest, tg):
    return [(E.w.unit, None, [(a[0], concat(E, deref(E, a[0]), deref(E, a[1])))])]


@m("slice::swap", "Vec::swap")
def _vswap(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v = deref(E, a[0])
    for i in (a[1], a[2]):
        bound(E, w.ilt(i, w.len(v)))
    i, j = w.cint(a[1]), w.cint(a[2])
    n, xs = w.cint(w.len(v)), v
    tail = []
    while xs.op == "push":
        tail.insert(0, xs.a[1])
        xs = xs.a[0]
    if xs.op == "arr" and None not in (i, j) and max(i, j) < n:
        xs = list(xs.a) + tail
        xs[i], xs[j] = xs[j], xs[i]
        return [(w.unit, None, [(a[0], w.arr(xs))])]
    return [(w.unit, None, [(a[0], w.app("swap", v, a[1], a[2]))])]


@m("slice::reverse")
def _vrev(E, ctx, bb, cal, a, dest, tg):
    return [(E.w.unit, None, [(a[0], E.w.app("reversed", deref(E, a[0])))])]


@m("slice::sort_by_key", "slice::sort", "slice::sort_by", "slice::sort_unstable", "slice::sort_unstable_by_key",
   "slice::sort_unstable_by", "slice::sort_by_cached_key")
def _vsort(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    E.event("sort", deref(E, a[0]), tuple(a[1:]), cal)
    return [(w.unit, None, [(a[0], w.app("sorted", deref(E, a[0])))])]


@m("slice::join", "Join::join", "slice::concat", "Concat::concat")
def _vjoin(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v = deref(E, a[0])
    sep = deref(E, a[1]) if len(a) > 1 else w.s("")
    if v.op == "arr":
        ps = []
        for i, x in enumerate(v.a):
            if i:
                ps.append(sep)
            ps.append(x)
        return w.cat(ps)
    return w.app("join", v, sep)


@m("slice::contains", "Vec::contains")
def _vcontains(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v, x = deref(E, a[0]), deref(E, a[1])
    if v.op == "arr" and len(v.a) <= 8:
        r = w.b(False)
        for y in v.a:
            r = w.bor(r, geneq(E, y, x))
        return r
    return w.app("member", v, x)


@m("slice::first", "slice::last", "slice::get", "Vec::first", "Vec::last", "slice::first_mut_",
   "slice::split_first_", "slice::split_last_")
def _vget(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    n = norm(cal["def"]).split("::")[1]
    v = deref(E, a[0])
    ln = w.len(v)
    if n == "first":
        i = w.i(0)
    elif n == "last":
        i = w.isub(ln, w.i(1))
    else:
        i = a[1]
        if i.op == "agg":
            r = range_of(E, i, ln)
            if r is None:
                return NotImplemented
            lo, hi = r
            c = w.band(w.ile(lo, hi), w.ile(hi, ln))
            tv = E.truth(c, E._facts)
            out = []
            if tv is not False:
                out.append((some(E, slice_(E, v, lo, hi)), [(c, True)], None))
            if tv is not True:
                out.append((none(E), [(c, False)], None))
            return out
    c = w.ilt(i, ln) if n == "get" else w.bnot(w.eq0(ln))
    tv = E.truth(c, E._facts)
    out = []
    if tv is not False:
        out.append((some(E, w.sel(v, i)), [(c, True)], None))
    if tv is not True:
        out.append((none(E), [(c, False)], None))
    return out


@m("slice::get_mut", "slice::first_mut", "slice::last_mut", "Vec::last_mut", "Vec::get_mut")
def _vgetmut(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    if a[0].op != "Ref":
        return NotImplemented
    n = norm(cal["def"]).split("::")[1]
    v = deref(E, a[0])
    ln = w.len(v)
    i = w.i(0) if n == "first_mut" else w.isub(ln, w.i(1)) if n == "last_mut" else a[1]
    c = w.ilt(i, ln) if n == "get_mut" else w.bnot(w.eq0(ln))
    tv = E.truth(c, E._facts)
    out = []
    if tv is not False:
        out.append((some(E, w.ref(a[0].a[0], tuple(a[0].a[1]) + (("i", i),))), [(c, True)], None))
    if tv is not True:
        out.append((none(E), [(c, False)], None))
    return out


@m("slice::split_first", "slice::split_last")
def _vsplitfl(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v = deref(E, a[0])
    ln = w.len(v)
    c = w.bnot(w.eq0(ln))
    first = norm(cal["def"]).endswith("first")
    x = w.sel(v, w.i(0)) if first else w.sel(v, w.isub(ln, w.i(1)))
    r = slice_(E, v, w.i(1), ln) if first else slice_(E, v, w.i(0), w.isub(ln, w.i(1)))
    tv = E.truth(c, E._facts)
    out = []
    if tv is not False:
        out.append((some(E, w.agg("tuple", 0, [x, r])), [(c, True)], None))
    if tv is not True:
        out.append((none(E), [(c, False)], None))
    return out


@m("slice::split_at")
def _vsplitat(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v = deref(E, a[0])
    ln = w.len(v)
    bound(E, w.ile(a[1], ln))
    return w.agg("tuple", 0, [slice_(E, v, w.i(0), a[1]), slice_(E, v, a[1], ln)])


def bound(E, c, what="index"):
    tv = E.truth(c, E._facts)
    if tv is not True:
        E.event("assert", what, c, True)


def range_of(E, r, ln):
    w = E.w
    k = r.a[0] if r.op == "agg" else ""
    if k == "std::ops::Range":
        return r.a[2], r.a[3]
    if k == "std::ops::RangeInclusive":
        return r.a[2], w.iadd(r.a[3], w.i(1))
    if k == "std::ops::RangeFrom":
        return r.a[2], ln
    if k == "std::ops::RangeTo":
        return w.i(0), r.a[2]
    if k == "std::ops::RangeToInclusive":
        return w.i(0), w.iadd(r.a[2], w.i(1))
    if k == "std::ops::RangeFull":
        return w.i(0), ln
    return None


@m("Index::index")
def _index(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    ar = cal.get("args") or ["", ""]
    v, i = deref(E, a[0]), deref(E, a[1])
    t = base_ty(E, ar[0]) or ""
    if "HashMap" in t or "BTreeMap" in t:
        return hm_get(E, v, i, index=True)
    if i.op == "agg" and i.a[0].startswith("std::ops::Range"):
        if t in ("str", "std::string::String"):
            r = range_of(E, i, w.len(v))
            E.event("assert", "strindex", w.app("strrange", v, *r), True)
            return w.app("substr", v, *r)
        lo, hi = range_of(E, i, w.len(v))
        c1, c2 = w.ile(lo, hi), w.ile(hi, w.len(v))
        bound(E, c1, "slice")
        bound(E, c2, "slice")
        return [(slice_(E, v, lo, hi), [(c1, True), (c2, True)], None)]
    c = w.ilt(i, w.len(v))
    tv = E.truth(c, E._facts)
    if tv is False:
        E.event("panic", "index", c, "definite")
        return []
    if tv is None:
        E.event("assert", "index", c, True)
    return [(w.sel(v, i), [(c, True)], None)]


@m("IndexMut::index_mut")
def _indexmut(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    r, i = a[0], deref(E, a[1])
    if r.op != "Ref":
        return NotImplemented
    if i.op == "agg":
        rg = range_of(E, i, w.len(deref(E, r)))
        if rg is None or w.cint(rg[0]) != 0:
            return NotImplemented
        return r
    v = E.readref(r)
    c = w.ilt(i, w.len(v))
    tv = E.truth(c, E._facts)
    if tv is False:
        E.event("panic", "index", c, "definite")
        return []
    if tv is None:
        E.event("assert", "index", c, True)
    return [(w.ref(r.a[0], tuple(r.a[1]) + (("i", i),)), [(c, True)], None)]


# ------------------------------------------------------------------ maps
def hm_get(E, mp, k, index=False):
    w = E.w
    while mp.op == "app" and mp.a[0] == "hm_ins":
        e = geneq(E, mp.a[2], k)
        tv = E.truth(e, E._facts)
        if tv is True:
            return mp.a[3] if index else some(E, mp.a[3])
        if tv is False:
            mp = mp.a[1]
            continue
        break
    has = w.app("hmhas", mp, k)
    tv = E.truth(has, E._facts)
    if mp.op == "app" and mp.a[0] == "hm_new":
        tv = False
    if index:
        if tv is not True:
            E.event("panic", "mapindex", has, "possible" if tv is None else "definite")
        return [(w.app("hmval", mp, k), [(has, True)], None)] if tv is not False else []
    out = []
    if tv is not False:
        out.append((some(E, w.app("hmval", mp, k)), [(has, True)], None))
    if tv is not True:
        out.append((none(E), [(has, False)], None))
    return out


@m("HashMap::new", "HashMap::with_capacity", "BTreeMap::new", "HashSet::new", "BTreeSet::new")
def _hmnew(E, ctx, bb, cal, a, dest, tg):
    return E.w.app("hm_new")


@m("HashMap::get", "BTreeMap::get")
def _hmget(E, ctx, bb, cal, a, dest, tg):
    return hm_get(E, deref(E, a[0]), deref(E, a[1]))


@m("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def _hmhas(E, ctx, bb, cal, a, dest, tg):
    r = hm_get(E, deref(E, a[0]), deref(E, a[1]))
    if isinstance(r, T):
        return E.w.b(True)
    return [(E.w.b(v.a[1] == 1), f, None) for v, f, _ in r]


@m("HashMap::insert", "BTreeMap::insert", "HashSet::insert", "BTreeSet::insert")
def _hmins(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    mp = deref(E, a[0])
    k = a[1]
    st = "Set" in norm(cal["def"])
    v = w.unit if st else a[2]
    E.event("hmins", mp, k, v)
    r = hm_get(E, mp, k)
    if isinstance(r, T):
        r = [(r, [], None)]
    out = []
    for x, f, _ in r:
        out.append((w.b(x.a[1] == 0) if st else x, f, [(a[0], w.app("hm_ins", mp, k, v))]))
    if not st:
        # the old value is almost never used: keep one outcome
        return [(w.app("hmold", mp, k), None, [(a[0], w.app("hm_ins", mp, k, v))])]
    return out


@m("HashMap::remove", "BTreeMap::remove", "HashSet::remove")
def _hmrem(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    mp = deref(E, a[0])
    return [(w.app("hmold", mp, a[1]), None, [(a[0], w.app("hm_rem", mp, deref(E, a[1])))])]


@m("HashMap::iter", "HashSet::iter", "HashMap::into_iter", "HashMap::drain")
def _hmiter(E, ctx, bb, cal, a, dest, tg):
    return it(E, E.w.app("hmiter", deref(E, a[0])))


@m("BTreeMap::iter", "BTreeSet::iter")
def _bmiter(E, ctx, bb, cal, a, dest, tg):
    return it(E, E.w.app("sorted", E.w.app("hmiter", deref(E, a[0]))))


@m("HashMap::keys", "HashMap::values", "BTreeMap::keys", "BTreeMap::values", "HashMap::into_values",
   "HashMap::into_keys")
def _hmkeys(E, ctx, bb, cal, a, dest, tg):
    n = norm(cal["def"])
    x = E.w.app("hmiter", deref(E, a[0]))
    if n.startswith("BTree"):
        x = E.w.app("sorted", x)
    return it(E, E.w.app("hmkeys" if "keys" in n else "hmvals", x))


@m("HashMap::len", "BTreeMap::len", "HashSet::len")
def _hmlen(E, ctx, bb, cal, a, dest, tg):
    return E.w.app("hmlen", deref(E, a[0]))


@m("HashMap::is_empty", "BTreeMap::is_empty", "HashSet::is_empty")
def _hmempty(E, ctx, bb, cal, a, dest, tg):
    return E.w.eq0(E.w.app("hmlen", deref(E, a[0])))


@m("HashMap::entry", "BTreeMap::entry")
def _hmentry(E, ctx, bb, cal, a, dest, tg):
    return E.w.mk("agg", "hmentry", 0, a[0], a[1])


@m("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def _orinsert(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    e = a[0]
    if e.op != "agg" or e.a[0] != "hmentry" or norm(cal["def"]) != "Entry::or_insert":
        return NotImplemented
    mp, k = deref(E, e.a[2]), e.a[3]
    E.event("hmins", mp, k, a[1])
    cell = ("T", ctx.id, E.cur[1], E.pos)
    out = []
    r = hm_get(E, mp, k)
    if isinstance(r, T):
        r = [(r, [], None)]
    for x, f, _ in r:
        if x.a[1] == 1:
            out.append((w.ref(cell, ()), f, [(w.ref(cell, ()), x.a[2])]))
        else:
            out.append((w.ref(cell, ()), f, [(w.ref(cell, ()), a[1]), (e.a[2], w.app("hm_ins", mp, k, a[1]))]))
    return out


# ------------------------------------------------------------------ iterators
@m("slice::iter", "IntoIterator::into_iter", "Vec::iter", "RangeInclusive::into_iter", "Option::iter",
   "Vec::into_iter", "VecDeque::iter", "Option::into_iter", "Iterator::by_ref", "Iterator::into_iter")
def _iter(E, ctx, bb, cal, a, dest, tg):
    n = norm(cal["def"])
    ar = cal.get("args") or [""]
    if n == "Iterator::by_ref":
        return a[0]
    v = a[0]
    if n in ("slice::iter", "Vec::iter", "Option::iter"):
        v = deref(E, v)
        return to_it(E, v, "")
    if n == "IntoIterator::into_iter":
        return to_it(E, v, ar[0])
    return to_it(E, v, ar[0])


@m("slice::iter_mut", "Vec::iter_mut")
def _itermut(E, ctx, bb, cal, a, dest, tg):
    return E.w.mk("agg", "it:mut", 0, a[0], E.w.i(0), E.w.i(0))


@m("slice::chunks", "slice::chunks_exact")
def _chunks(E, ctx, bb, cal, a, dest, tg):
    if norm(cal["def"]).endswith("exact"):
        return it(E, E.w.app("chunks_exact", deref(E, a[0]), a[1]))
    return it(E, E.w.app("chunks", deref(E, a[0]), a[1]))


@m("slice::windows")
def _windows(E, ctx, bb, cal, a, dest, tg):
    return it(E, E.w.app("windows", deref(E, a[0]), a[1]))


@m("RangeInclusive::new")
def _rinew(E, ctx, bb, cal, a, dest, tg):
    return E.w.agg("std::ops::RangeInclusive", 0, [a[0], a[1], E.w.b(False)])


@m("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains")
def _rcontains(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    r, x = deref(E, a[0]), deref(E, a[1])
    t = E.prog.strip((cal.get("args") or ["usize"])[0])
    k = r.a[0] if r.op == "agg" else ""
    if k == "std::ops::Range":
        return w.band(E.binop("Le", r.a[2], x, t), E.binop("Lt", x, r.a[3], t))
    if k == "std::ops::RangeInclusive":
        return w.band(E.binop("Le", r.a[2], x, t), E.binop("Le", x, r.a[3], t))
    return NotImplemented


@m("Iterator::copied", "Iterator::cloned", "Iterator::fuse", "Iterator::peekable")
def _itid(E, ctx, bb, cal, a, dest, tg):
    return to_it(E, a[0], (cal.get("args") or [""])[0])


def _as_it(E, v, cal):
    return to_it(E, v, (cal.get("args") or [""])[0])


@m("Iterator::enumerate")
def _enumerate(E, ctx, bb, cal, a, dest, tg):
    d = _as_it(E, a[0], cal)
    if d.op == "agg" and d.a[0] == "it":
        return it(E, E.w.mk("app", "enumerated", it_src(E, d)))
    if d.op == "agg" and d.a[0] == "it:mut":
        return E.w.mk("agg", "it:enum", 0, d, E.w.i(0))
    return E.w.mk("agg", "it:enum", 0, d, E.w.i(0))


@m("Iterator::rev")
def _rev(E, ctx, bb, cal, a, dest, tg):
    d = _as_it(E, a[0], cal)
    if d.op == "agg" and d.a[0] == "it":
        s = it_src(E, d)
        if s.op == "app" and s.a[0] == "reversed":
            return it(E, s.a[1])
        return it(E, E.w.mk("app", "reversed", s))
    if d.op == "agg" and d.a[0] in ("it:map", "it:filter", "it:filter_map"):
        inner = d.a[2]
        if inner.op == "agg" and inner.a[0] == "it":
            return E.w.mk("agg", d.a[0], 0, it(E, E.w.mk("app", "reversed", it_src(E, inner))), d.a[3])
    return NotImplemented


@m("Iterator::skip")
def _skip(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    d = _as_it(E, a[0], cal)
    if d.op == "agg" and d.a[0] in ("it", "it:mut"):
        return w.mk("agg", d.a[0], 0, d.a[2], w.iadd(d.a[3], a[1]), d.a[4])
    if w.cint(a[1]) == 0:
        return d
    return w.mk("agg", "it:skip", 0, d, a[1])


@m("Iterator::take")
def _take_it(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    d = _as_it(E, a[0], cal)
    if d.op == "agg" and d.a[0] == "it":
        src, kf, kb = d.a[2:]
        n = w.isub(w.isub(w.len(src), kf), kb)
        c = w.ile(a[1], n)
        tv = E.truth(c, E._facts)
        if tv is True:
            return it(E, slice_(E, src, kf, w.iadd(kf, a[1])))
        return it(E, slice_(E, src, kf, w.iadd(kf, w.imin(a[1], n))))
    return w.mk("agg", "it:take", 0, d, a[1])


@m("Iterator::step_by")
def _stepby(E, ctx, bb, cal, a, dest, tg):
    d = _as_it(E, a[0], cal)
    if d.op == "agg" and d.a[0] == "it":
        return it(E, E.w.app("stepped", it_src(E, d), a[1]))
    return NotImplemented


@m("Iterator::zip")
def _zip(E, ctx, bb, cal, a, dest, tg):
    d = _as_it(E, a[0], cal)
    ar = cal.get("args") or ["", ""]
    e = to_it(E, a[1], ar[1] if len(ar) > 1 else "")
    if d.op == "agg" and d.a[0] == "it" and e.op == "agg" and e.a[0] == "it":
        return it(E, E.w.mk("app", "zipped", it_src(E, d), it_src(E, e)))
    return E.w.mk("agg", "it:zip", 0, d, e)


@m("iter::zip")
def _zip2(E, ctx, bb, cal, a, dest, tg):
    return _zip(E, ctx, bb, cal, a, dest, tg)


@m("Iterator::chain")
def _chain(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    d = _as_it(E, a[0], cal)
    ar = cal.get("args") or ["", ""]
    e = to_it(E, a[1], ar[1] if len(ar) > 1 else "")
    if d.op == "agg" and d.a[0] == "it" and e.op == "agg" and e.a[0] == "it":
        x, y = it_src(E, d), it_src(E, e)
        if x.op == "arr" and y.op == "arr":
            return it(E, w.arr(list(x.a) + list(y.a)))
    return w.mk("agg", "it:chain", 0, d, e)


@m("iter::once")
def _once(E, ctx, bb, cal, a, dest, tg):
    return it(E, E.w.arr([a[0]]))


@m("iter::empty")
def _empty(E, ctx, bb, cal, a, dest, tg):
    return it(E, E.w.arr([]))


@m("iter::repeat_n")
def _repeatn(E, ctx, bb, cal, a, dest, tg):
    return it(E, E.w.rep(a[1], a[0]))


@m("iter::repeat")
def _repeat(E, ctx, bb, cal, a, dest, tg):
    return it(E, E.w.mk("rep", E.w.sym("inf"), a[0]))


for _n in ("map", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect", "flat_map"):
    def _f(E, ctx, bb, cal, a, dest, tg, _n=_n):
        d = _as_it(E, a[0], cal)
        if _n == "skip_while":
            return E.w.mk("agg", "it:skip_while", 0, d, a[1], E.w.b(False))
        if _n == "flat_map":
            return E.w.mk("agg", "it:flat", 0, E.w.mk("agg", "it:map", 0, d, a[1]), none(E))
        return E.w.mk("agg", "it:" + _n, 0, d, a[1])
    MODELS["Iterator::" + _n] = _f


@m("Iterator::flatten")
def _flatten(E, ctx, bb, cal, a, dest, tg):
    return E.w.mk("agg", "it:flat", 0, _as_it(E, a[0], cal), none(E))


def _resolve_it(E, r):
    """follow &mut chains down to the reference of the iterator descriptor"""
    n = 0
    while r.op == "Ref" and n < 5:
        v = E.readref(r)
        if v.op != "Ref":
            return r, v
        r = v
        n += 1
    return r, r


@m("Iterator::next", "DoubleEndedIterator::next_back", "Peekable::peek", "Peekable::next_", "Iterator::last_")
def _next(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    back = norm(cal["def"]).endswith("next_back")
    peek = norm(cal["def"]).endswith("peek")
    r, v = _resolve_it(E, a[0])
    if v.op == "agg" and v.a[0].startswith("std::ops::Range"):
        v = to_it(E, v)
    if v.op != "agg" or not v.a[0].startswith("it"):
        fn = E.prog.fns.get(cal.get("id"))
        if fn is not None:
            return NotImplemented
        E.event("opaqueiter", v)
        site = w.mk("site", E.site())
        x = w.app("opaque_next", v, site)
        if r.op == "Ref":
            return [(x, None, [(r, w.app("advanced", v, site))])]
        return x
    k = v.a[0]
    if k in ("it", "it:mut"):
        src, kf, kb = v.a[2:]
        arr = src
        if k == "it:mut":
            arr = E.readref(src)
        n = w.len(arr)
        c = w.ge0(w.isub(w.isub(w.isub(n, kf), kb), w.i(1)))
        tv = E.truth(c, E._facts)
        out = []
        if tv is not False:
            idx = kf if not back else w.isub(w.isub(n, kb), w.i(1))
            if k == "it":
                x = w.sel(src, idx)
            else:
                x = w.ref(src.a[0], tuple(src.a[1]) + (("i", idx),)) if src.op == "Ref" else w.sel(src, idx)
            nv = w.mk("agg", k, 0, src, kf if back else w.iadd(kf, w.i(1)), w.iadd(kb, w.i(1)) if back else kb)
            out.append((some(E, x), [(c, True)], None if peek else [(r, nv)]))
        if tv is not True:
            out.append((none(E), [(c, False)], None))
        return out
    if peek or back and k not in ("it:map", "it:filter", "it:filter_map"):
        E.event("opaqueiter", v)
        return NotImplemented
    if k == "it:map":
        return enter(E, "next_back_map" if back else "next_map", [subref(E, r, 0, k, 2), v.a[3]])
    if k == "it:filter":
        return enter(E, "next_back_filter" if back else "next_filter", [subref(E, r, 0, k, 2), v.a[3]])
    if k == "it:filter_map":
        return enter(E, "next_back_filter_map" if back else "next_filter_map", [subref(E, r, 0, k, 2), v.a[3]])
    if k in ("it:take_while", "it:map_while", "it:inspect"):
        return enter(E, "next_" + k[3:], [subref(E, r, 0, k, 2), v.a[3]])
    if k == "it:skip_while":
        return enter(E, "next_skip_while", [subref(E, r, 0, k, 3), v.a[3], subref(E, r, 2, k, 3)])
    if k == "it:enum":
        return enter(E, "next_enum", [subref(E, r, 0, k, 2), subref(E, r, 1, k, 2)])
    if k == "it:take":
        return enter(E, "next_take", [subref(E, r, 0, k, 2), subref(E, r, 1, k, 2)])
    if k == "it:skip":
        return enter(E, "next_skip", [subref(E, r, 0, k, 2), subref(E, r, 1, k, 2)])
    if k == "it:zip":
        return enter(E, "next_zip", [subref(E, r, 0, k, 2), subref(E, r, 1, k, 2)])
    if k == "it:chain":
        return enter(E, "next_chain", [subref(E, r, 0, k, 2), subref(E, r, 1, k, 2)])
    if k == "it:flat":
        return enter(E, "next_flat", [subref(E, r, 0, k, 2), subref(E, r, 1, k, 2)])
    return NotImplemented


@m("Iterator::nth")
def _nth(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    r, v = _resolve_it(E, a[0])
    if v.op == "agg" and v.a[0].startswith("std::ops::Range"):
        v = to_it(E, v)
    if v.op == "agg" and v.a[0] in ("it",):
        src, kf, kb = v.a[2:]
        n = w.len(src)
        idx = w.iadd(kf, a[1])
        c = w.ge0(w.isub(w.isub(w.isub(n, idx), kb), w.i(1)))
        tv = E.truth(c, E._facts)
        out = []
        if tv is not False:
            out.append((some(E, w.sel(src, idx)), [(c, True)],
                        [(r, it(E, src, w.iadd(idx, w.i(1)), kb))]))
        if tv is not True:
            out.append((none(E), [(c, False)], [(r, it(E, src, w.isub(n, kb), kb))]))
        return out
    return NotImplemented


@m("Iterator::last")
def _last(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v = _as_it(E, a[0], cal)
    if v.op == "agg" and v.a[0] == "it":
        src, kf, kb = v.a[2:]
        n = w.len(src)
        c = w.ge0(w.isub(w.isub(w.isub(n, kf), kb), w.i(1)))
        tv = E.truth(c, E._facts)
        out = []
        if tv is not False:
            out.append((some(E, w.sel(src, w.isub(w.isub(n, kb), w.i(1)))), [(c, True)], None))
        if tv is not True:
            out.append((none(E), [(c, False)], None))
        return out
    return NotImplemented


@m("Iterator::count")
def _count(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    v = _as_it(E, a[0], cal)
    if v.op == "agg" and v.a[0] == "it":
        return w.isub(w.isub(w.len(v.a[2]), v.a[3]), v.a[4])
    return enter(E, "count", [v])


@m("Iterator::collect", "FromIterator::from_iter")
def _collect(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    ar = cal.get("args") or ["", ""]
    if norm(cal["def"]) == "FromIterator::from_iter":
        v = to_it(E, a[0], "")
        out = ar[0]
    else:
        v = _as_it(E, a[0], cal)
        out = ar[1] if len(ar) > 1 else ""
    b = base_ty(E, out) or ""
    if b.startswith("std::string::String"):
        if v.op == "agg" and v.a[0] == "it":
            s = it_src(E, v)
            if s.op == "app" and s.a[0] == "chars":
                return s.a[1]
            if s.op == "arr":
                return w.cat(list(s.a))
            return w.app("strof", s)
        return enter(E, "collect_str", [v])
    if "HashMap" in b or "BTreeMap" in b:
        return enter(E, "collect_map", [v])
    if "HashSet" in b or "BTreeSet" in b:
        if v.op == "agg" and v.a[0] == "it":
            return w.app("setof", it_src(E, v))
        return NotImplemented
    if b.startswith("std::vec::Vec") or b.startswith("std::boxed::Box") or b.startswith("std::collections::VecDeque"):
        x = chain_src(E, v)
        if x is not None:
            return x
        return enter(E, "collect_vec", [v])
    if b.startswith(RES) or b.startswith(OPT):
        return enter(E, "collect_res" if b.startswith(RES) else "collect_opt", [v])
    return NotImplemented


@m("Extend::extend")
def _extend(E, ctx, bb, cal, a, dest, tg):
    w = E.w
    ar = cal.get("args") or ["", "", ""]
    v = to_it(E, a[1], ar[2] if len(ar) > 2 else "")
    b = base_ty(E, ar[0]) or ""
    if b.startswith("std::vec::Vec"):
        x = chain_src(E, v)
        if x is not None:
            return [(w.unit, None, [(a[0], concat(E, deref(E, a[0]), x))])]
        return enter(E, "extend_vec", [a[0], v])
    if b.startswith("std::string::String"):
        return enter(E, "extend_str", [a[0], v])
    if "Map" in b:
        return enter(E, "extend_map", [a[0], v])
    return NotImplemented


for _n, _d in (("for_each", "for_each"), ("fold", "fold")):
    def _f(E, ctx, bb, cal, a, dest, tg, _d=_d):
        return enter(E, _d, [_as_it(E, a[0], cal)] + list(a[1:]))
    MODELS["Iterator::" + _n] = _f

for _n in ("any", "all", "find", "position", "find_map", "rposition", "rfind"):
    def _f(E, ctx, bb, cal, a, dest, tg, _n=_n):
        r, v = _resolve_it(E, a[0])
        return enter(E, _n, [r, a[1]])
    MODELS["Iterator::" + _n] = _f


@m("slice::partition_point")
def _ppoint(E, ctx, bb, cal, a, dest, tg):
    return enter(E, "partition_point", [to_it(E, deref(E, a[0]), ""), a[1]])


@m("Iterator::sum")
def _sum(E, ctx, bb, cal, a, dest, tg):
    ar = cal.get("args") or ["", "f64"]
    t = ar[1] if len(ar) > 1 else "f64"
    return enter(E, "sum_f" if t in ("f64", "f32") else "sum_i", [_as_it(E, a[0], cal)])


@m("Iterator::max", "Iterator::min")
def _itmax(E, ctx, bb, cal, a, dest, tg):
    n = norm(cal["def"]).split("::")[1]
    v = _as_it(E, a[0], cal)
    return enter(E, "it" + n, [v])


# ------------------------------------------------------------------ DSL
# Combinators as miniature MIR functions. Operands: ints name locals.
DSL = {}
_dsl_cache = {}


def P(l, *proj):
    return {"p": [l] + list(proj)}


def _pl(x):
    return x if isinstance(x, dict) else P(x)


def U(l, r):
    return [[l], r, ""]


def use(l, o):
    return U(l, ["use", _pl(o)])


def konst(k, v, t):
    return {"c": {"k": k, "v": v}, "t": t}


def mkagg(l, base, var, *ops):
    return U(l, ["agg", ["adt", base, var, -1], [_pl(o) for o in ops]])


def mktuple(l, *ops):
    return U(l, ["agg", ["tuple"], [_pl(o) for o in ops]])


def pay(l, var):
    return P(l, ["d", var], ["f", 0, "?"])


def callv(f, args, dest, target):
    return ["callv", _pl(f), [_pl(x) for x in args], [dest], target, "dsl"]


def calls(d, args, dest, target, targs=()):
    return ["call", {"id": "", "name": d, "def": d, "crate": "std", "args": list(targs)},
            [_pl(x) for x in args], [dest], target, "dsl"]


def sw(l, arms, other):
    return ["switch", _pl(l), arms, other, "dsl"]


NEXT = "std::iter::Iterator::next"
BACK = "std::iter::DoubleEndedIterator::next_back"
RET = ["return"]


def B(t, *s):
    return {"s": list(s), "t": t}


def defn(name, argc, tys, blocks):
    def get(E):
        key = (id(E.prog), name)
        f = E.prog.fns.get("dsl:" + name)
        if f is None:
            from program import Fn
            n = max(list(tys) + [argc + 14]) + 1
            locs = [tys.get(i, "?") for i in range(n)]
            f = Fn({"id": "dsl:" + name, "name": "dsl::" + name, "argc": argc, "locals": locs,
                    "blocks": [dict(b) for b in blocks], "span": "dsl"})
            E.prog.fns["dsl:" + name] = f
            E.prog.types.setdefault("&mut ?", {"k": "ref", "e": "?", "mut": True})
            E.prog.types.setdefault("&mut usize", {"k": "ref", "e": "usize", "mut": True})
            E.prog.types.setdefault("&mut bool", {"k": "ref", "e": "bool", "mut": True})
        return f
    DSL[name] = get


def _opt(name, kind, good, body):
    """o, f [, x]: body(block list builder) -> blocks 1.. for good, last for bad"""
    goodb, badb = body
    defn(name, 3, {5: "isize", 8: "bool"}, [
        B(sw(5, [[good, 1]], 2), U(5, ["discr", [1]])),
        goodb, badb, B(RET)] + [])


def D(name, argc, tys, *blocks):
    defn(name, argc, tys, list(blocks))


_S = lambda l, x: mkagg(l, OPT, 1, x)
_N = lambda l: mkagg(l, OPT, 0)

D("opt_map", 2, {5: "isize"},
  B(sw(5, [[1, 1]], 3), U(5, ["discr", [1]])),
  B(callv(2, [pay(1, 1)], 6, 2)), B(RET, _S(0, 6)), B(RET, _N(0)))
D("opt_and_then", 2, {5: "isize"},
  B(sw(5, [[1, 1]], 3), U(5, ["discr", [1]])),
  B(callv(2, [pay(1, 1)], 0, 2)), B(RET), B(RET, _N(0)))
D("opt_or_else", 2, {5: "isize"},
  B(sw(5, [[1, 1]], 2), U(5, ["discr", [1]])),
  B(RET, use(0, 1)), B(callv(2, [], 0, 3)), B(RET))
D("opt_unwrap_or_else", 2, {5: "isize"},
  B(sw(5, [[1, 1]], 2), U(5, ["discr", [1]])),
  B(RET, use(0, pay(1, 1))), B(callv(2, [], 0, 3)), B(RET))
D("opt_map_or", 3, {5: "isize"},
  B(sw(5, [[1, 1]], 3), U(5, ["discr", [1]])),
  B(callv(3, [pay(1, 1)], 0, 2)), B(RET), B(RET, use(0, 2)))
D("opt_map_or_else", 3, {5: "isize"},
  B(sw(5, [[1, 1]], 3), U(5, ["discr", [1]])),
  B(callv(3, [pay(1, 1)], 0, 2)), B(RET), B(callv(2, [], 0, 2)))
D("opt_ok_or_else", 2, {5: "isize"},
  B(sw(5, [[1, 1]], 2), U(5, ["discr", [1]])),
  B(RET, mkagg(0, RES, 0, pay(1, 1))), B(callv(2, [], 6, 3)), B(RET, mkagg(0, RES, 1, 6)))
D("opt_filter", 2, {5: "isize", 6: "bool"},
  B(sw(5, [[1, 1]], 3), U(5, ["discr", [1]])),
  B(callv(2, [pay(1, 1)], 6, 2)), B(sw(6, [[0, 3]], 4)), B(RET, _N(0)), B(RET, use(0, 1)))
D("opt_is_some_and", 2, {5: "isize"},
  B(sw(5, [[1, 1]], 3), U(5, ["discr", [1]])),
  B(callv(2, [pay(1, 1)], 0, 2)), B(RET), B(RET, use(0, konst("bool", 0, "bool"))))
D("opt_is_none_or", 2, {5: "isize"},
  B(sw(5, [[1, 1]], 3), U(5, ["discr", [1]])),
  B(callv(2, [pay(1, 1)], 0, 2)), B(RET), B(RET, use(0, konst("bool", 1, "bool"))))
D("res_map", 2, {5: "isize"},
  B(sw(5, [[0, 1]], 3), U(5, ["discr", [1]])),
  B(callv(2, [pay(1, 0)], 6, 2)), B(RET, mkagg(0, RES, 0, 6)), B(RET, mkagg(0, RES, 1, pay(1, 1))))
D("res_map_err", 2, {5: "isize"},
  B(sw(5, [[1, 1]], 3), U(5, ["discr", [1]])),
  B(callv(2, [pay(1, 1)], 6, 2)), B(RET, mkagg(0, RES, 1, 6)), B(RET, mkagg(0, RES, 0, pay(1, 0))))
D("res_and_then", 2, {5: "isize"},
  B(sw(5, [[0, 1]], 3), U(5, ["discr", [1]])),
  B(callv(2, [pay(1, 0)], 0, 2)), B(RET), B(RET, mkagg(0, RES, 1, pay(1, 1))))
D("res_or_else", 2, {5: "isize"},
  B(sw(5, [[0, 1]], 2), U(5, ["discr", [1]])),
  B(RET, mkagg(0, RES, 0, pay(1, 0))), B(callv(2, [pay(1, 1)], 0, 3)), B(RET))
D("res_unwrap_or_else", 2, {5: "isize"},
  B(sw(5, [[0, 1]], 2), U(5, ["discr", [1]])),
  B(RET, use(0, pay(1, 0))), B(callv(2, [pay(1, 1)], 0, 3)), B(RET))
D("res_map_or", 3, {5: "isize"},
  B(sw(5, [[0, 1]], 3), U(5, ["discr", [1]])),
  B(callv(3, [pay(1, 0)], 0, 2)), B(RET), B(RET, use(0, 2)))
D("res_is_ok_and", 2, {5: "isize"},
  B(sw(5, [[0, 1]], 3), U(5, ["discr", [1]])),
  B(callv(2, [pay(1, 0)], 0, 2)), B(RET), B(RET, use(0, konst("bool", 0, "bool"))))
D("res_is_err_and", 2, {5: "isize"},
  B(sw(5, [[1, 1]], 3), U(5, ["discr", [1]])),
  B(callv(2, [pay(1, 1)], 0, 2)), B(RET), B(RET, use(0, konst("bool", 0, "bool"))))
D("bool_then", 2, {1: "bool"},
  B(sw(1, [[0, 3]], 1)), B(callv(2, [], 6, 2)), B(RET, _S(0, 6)), B(RET, _N(0)))

for _nm, _nx in (("", NEXT), ("back_", BACK)):
    D("next_%smap" % _nm, 2, {5: "isize"},
      B(calls(_nx, [1], 4, 1)), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
      B(callv(2, [pay(4, 1)], 6, 3)), B(RET, _S(0, 6)), B(RET, _N(0)))
    D("next_%sfilter" % _nm, 2, {5: "isize", 6: "bool"},
      B(calls(_nx, [1], 4, 1)), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
      B(callv(2, [pay(4, 1)], 6, 3)), B(sw(6, [[0, 0]], 5)), B(RET, _N(0)), B(RET, use(0, 4)))
    D("next_%sfilter_map" % _nm, 2, {5: "isize", 7: "isize"},
      B(calls(_nx, [1], 4, 1)), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
      B(callv(2, [pay(4, 1)], 6, 3)), B(sw(7, [[1, 5]], 0), U(7, ["discr", [6]])), B(RET, _N(0)),
      B(RET, use(0, 6)))
D("next_take_while", 2, {5: "isize", 6: "bool"},
  B(calls(NEXT, [1], 4, 1)), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 3)), B(sw(6, [[0, 4]], 5)), B(RET, _N(0)), B(RET, use(0, 4)))
D("next_map_while", 2, {5: "isize"},
  B(calls(NEXT, [1], 4, 1)), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 0, 3)), B(RET), B(RET, _N(0)))
D("next_inspect", 2, {5: "isize"},
  B(calls(NEXT, [1], 4, 1)), B(sw(5, [[1, 2]], 3), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 3)), B(RET, use(0, 4)))
D("next_skip_while", 3, {3: "&mut bool", 5: "isize", 6: "bool", 7: "bool"},
  B(calls(NEXT, [1], 4, 1)), B(sw(5, [[1, 2]], 6), U(5, ["discr", [4]])),
  B(sw(7, [[0, 3]], 5), use(7, P(3, "*"))),
  B(callv(2, [pay(4, 1)], 6, 4)), B(sw(6, [[0, 5]], 0)),
  B(RET, [[3, "*"], ["use", konst("bool", 1, "bool")], ""], use(0, 4)), B(RET, _N(0)))
D("next_enum", 2, {2: "&mut usize", 5: "isize", 7: "usize", 8: "usize"},
  B(calls(NEXT, [1], 4, 1)), B(sw(5, [[1, 2]], 3), U(5, ["discr", [4]])),
  B(RET, use(7, P(2, "*")), U(8, ["bin", "Add", P(7), konst("int", 1, "usize")]),
    [[2, "*"], ["use", P(8)], ""], mktuple(9, 7, pay(4, 1)), _S(0, 9)),
  B(RET, _N(0)))
D("next_take", 2, {2: "&mut usize", 5: "isize", 7: "usize", 8: "usize", 9: "bool"},
  B(sw(9, [[0, 1]], 4), use(7, P(2, "*")), U(9, ["bin", "Eq", P(7), konst("int", 0, "usize")])),
  B(["goto", 2], U(8, ["bin", "Sub", P(7), konst("int", 1, "usize")]), [[2, "*"], ["use", P(8)], ""]),
  B(calls(NEXT, [1], 0, 3)), B(RET), B(RET, _N(0)))
D("next_skip", 2, {2: "&mut usize", 5: "isize", 7: "usize", 8: "usize", 9: "bool"},
  B(sw(9, [[0, 1]], 4), use(7, P(2, "*")), U(9, ["bin", "Eq", P(7), konst("int", 0, "usize")])),
  B(calls(NEXT, [1], 4, 2), U(8, ["bin", "Sub", P(7), konst("int", 1, "usize")]), [[2, "*"], ["use", P(8)], ""]),
  B(sw(5, [[1, 0]], 3), U(5, ["discr", [4]])), B(RET, _N(0)), B(calls(NEXT, [1], 0, 5)), B(RET))
D("next_zip", 2, {5: "isize", 7: "isize"},
  B(calls(NEXT, [1], 4, 1)), B(sw(5, [[1, 2]], 5), U(5, ["discr", [4]])),
  B(calls(NEXT, [2], 6, 3)), B(sw(7, [[1, 4]], 5), U(7, ["discr", [6]])),
  B(RET, mktuple(9, pay(4, 1), pay(6, 1)), _S(0, 9)), B(RET, _N(0)))
D("next_chain", 2, {5: "isize"},
  B(calls(NEXT, [1], 0, 1)), B(sw(5, [[1, 3]], 2), U(5, ["discr", [0]])),
  B(calls(NEXT, [2], 0, 3)), B(RET))
# flat: (outer, current: Option<iter>)
D("next_flat", 2, {2: "&mut ?", 5: "isize", 7: "isize", 9: "isize", 10: "&mut ?"},
  B(sw(5, [[1, 1]], 4), U(5, ["discr", [2, "*"]])),
  B(calls(NEXT, [10], 6, 2), U(10, ["ref", [2, "*", ["d", 1], ["f", 0, "?"]], "mut"])),
  B(sw(7, [[1, 3]], 4), U(7, ["discr", [6]])), B(RET, use(0, 6)),
  B(calls(NEXT, [1], 8, 5)), B(sw(9, [[1, 6]], 8), U(9, ["discr", [8]])),
  B(calls("std::iter::IntoIterator::into_iter", [pay(8, 1)], 11, 7)),
  B(["goto", 1], mkagg(12, OPT, 1, 11), [[2, "*"], ["use", P(12)], ""]),
  B(RET, _N(0)))

_L = lambda: U(3, ["ref", [1], "mut"])
D("collect_vec", 1, {3: "&mut ?", 5: "isize", 8: "&mut ?"},
  B(calls("std::vec::Vec::<T>::new", [], 7, 1)),
  B(calls(NEXT, [3], 4, 2), _L()), B(sw(5, [[1, 3]], 4), U(5, ["discr", [4]])),
  B(calls("std::vec::Vec::<T, A>::push", [8, pay(4, 1)], 9, 1), U(8, ["ref", [7], "mut"])),
  B(RET, use(0, 7)))
D("collect_str", 1, {3: "&mut ?", 5: "isize", 8: "&mut ?"},
  B(calls("std::string::String::new", [], 7, 1)),
  B(calls(NEXT, [3], 4, 2), _L()), B(sw(5, [[1, 3]], 4), U(5, ["discr", [4]])),
  B(calls("dsl::push_any", [8, pay(4, 1)], 9, 1), U(8, ["ref", [7], "mut"])),
  B(RET, use(0, 7)))
D("collect_map", 1, {3: "&mut ?", 5: "isize", 8: "&mut ?"},
  B(calls("std::collections::HashMap::<K, V>::new", [], 7, 1)),
  B(calls(NEXT, [3], 4, 2), _L()), B(sw(5, [[1, 3]], 4), U(5, ["discr", [4]])),
  B(calls("std::collections::HashMap::<K, V, S, A>::insert",
          [8, P(4, ["d", 1], ["f", 0, "(?, ?)"], ["f", 0, "?"]), P(4, ["d", 1], ["f", 0, "(?, ?)"], ["f", 1, "?"])], 9, 1),
    U(8, ["ref", [7], "mut"])),
  B(RET, use(0, 7)))
D("collect_res", 1, {3: "&mut ?", 5: "isize", 8: "&mut ?", 10: "isize"},
  B(calls("std::vec::Vec::<T>::new", [], 7, 1)),
  B(calls(NEXT, [3], 4, 2), _L()), B(sw(5, [[1, 3]], 6), U(5, ["discr", [4]])),
  B(sw(10, [[0, 4]], 5), use(11, pay(4, 1)), U(10, ["discr", [11]])),
  B(calls("std::vec::Vec::<T, A>::push", [8, pay(11, 0)], 9, 1), U(8, ["ref", [7], "mut"])),
  B(RET, mkagg(0, RES, 1, pay(11, 1))), B(RET, mkagg(0, RES, 0, 7)))
D("collect_opt", 1, {3: "&mut ?", 5: "isize", 8: "&mut ?", 10: "isize"},
  B(calls("std::vec::Vec::<T>::new", [], 7, 1)),
  B(calls(NEXT, [3], 4, 2), _L()), B(sw(5, [[1, 3]], 6), U(5, ["discr", [4]])),
  B(sw(10, [[1, 4]], 5), use(11, pay(4, 1)), U(10, ["discr", [11]])),
  B(calls("std::vec::Vec::<T, A>::push", [8, pay(11, 1)], 9, 1), U(8, ["ref", [7], "mut"])),
  B(RET, _N(0)), B(RET, _S(0, 7)))
D("extend_vec", 2, {1: "&mut ?", 3: "&mut ?", 5: "isize"},
  B(calls(NEXT, [3], 4, 1), U(3, ["ref", [2], "mut"])), B(sw(5, [[1, 2]], 3), U(5, ["discr", [4]])),
  B(calls("std::vec::Vec::<T, A>::push", [1, pay(4, 1)], 9, 0)), B(RET, mktuple(0)))
D("extend_str", 2, {1: "&mut ?", 3: "&mut ?", 5: "isize"},
  B(calls(NEXT, [3], 4, 1), U(3, ["ref", [2], "mut"])), B(sw(5, [[1, 2]], 3), U(5, ["discr", [4]])),
  B(calls("dsl::push_any", [1, pay(4, 1)], 9, 0)), B(RET, mktuple(0)))
D("extend_map", 2, {1: "&mut ?", 3: "&mut ?", 5: "isize"},
  B(calls(NEXT, [3], 4, 1), U(3, ["ref", [2], "mut"])), B(sw(5, [[1, 2]], 3), U(5, ["discr", [4]])),
  B(calls("std::collections::HashMap::<K, V, S, A>::insert",
          [1, P(4, ["d", 1], ["f", 0, "(?, ?)"], ["f", 0, "?"]), P(4, ["d", 1], ["f", 0, "(?, ?)"], ["f", 1, "?"])], 9, 0)),
  B(RET, mktuple(0)))
D("for_each", 2, {3: "&mut ?", 5: "isize"},
  B(calls(NEXT, [3], 4, 1), _L()), B(sw(5, [[1, 2]], 3), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 9, 0)), B(RET, mktuple(0)))
D("fold", 3, {4: "&mut ?", 6: "isize"},
  B(["goto", 1], use(7, 2)),
  B(calls(NEXT, [4], 5, 2), U(4, ["ref", [1], "mut"])), B(sw(6, [[1, 3]], 4), U(6, ["discr", [5]])),
  B(callv(3, [7, pay(5, 1)], 7, 1)), B(RET, use(0, 7)))
for _nm, _ty in (("sum_f", "f64"), ("sum_i", "usize")):
    D(_nm, 1, {3: "&mut ?", 5: "isize", 7: _ty, 8: _ty},
      B(["goto", 1], use(7, konst("f64", 0.0, "f64") if _ty == "f64" else konst("int", 0, "usize"))),
      B(calls(NEXT, [3], 4, 2), _L()), B(sw(5, [[1, 3]], 4), U(5, ["discr", [4]])),
      B(["goto", 1], use(8, pay(4, 1)), U(7, ["bin", "Add", P(7), P(8)])), B(RET, use(0, 7)))
D("count", 1, {3: "&mut ?", 5: "isize", 7: "usize"},
  B(["goto", 1], use(7, konst("int", 0, "usize"))),
  B(calls(NEXT, [3], 4, 2), _L()), B(sw(5, [[1, 3]], 4), U(5, ["discr", [4]])),
  B(["goto", 1], U(7, ["bin", "Add", P(7), konst("int", 1, "usize")])), B(RET, use(0, 7)))
for _nm in ("max", "min"):
    D("it" + _nm, 1, {3: "&mut ?", 5: "isize", 9: "isize"},
      B(calls(NEXT, [3], 4, 1), _L()), B(sw(5, [[1, 2]], 6), U(5, ["discr", [4]])),
      B(["goto", 3], use(7, pay(4, 1))),
      B(calls(NEXT, [3], 8, 4), _L()), B(sw(9, [[1, 5]], 7), U(9, ["discr", [8]])),
      B(calls("std::cmp::Ord::" + _nm, [7, pay(8, 1)], 7, 3)),
      B(RET, _N(0)), B(RET, _S(0, 7)))
D("any", 2, {5: "isize", 6: "bool"},
  B(calls(NEXT, [1], 4, 1)), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 3)), B(sw(6, [[0, 0]], 5)),
  B(RET, use(0, konst("bool", 0, "bool"))), B(RET, use(0, konst("bool", 1, "bool"))))
D("all", 2, {5: "isize", 6: "bool"},
  B(calls(NEXT, [1], 4, 1)), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 3)), B(sw(6, [[0, 5]], 0)),
  B(RET, use(0, konst("bool", 1, "bool"))), B(RET, use(0, konst("bool", 0, "bool"))))
D("find", 2, {5: "isize", 6: "bool"},
  B(calls(NEXT, [1], 4, 1)), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 3)), B(sw(6, [[0, 0]], 5)), B(RET, _N(0)), B(RET, use(0, 4)))
_T1 = {3: "&mut ?", 5: "isize", 6: "bool"}
for _n, _k in (("first_is", NEXT), ("last_is", BACK)):
    D(_n, 2, _T1,
      B(calls(_k, [3], 4, 1), _L()), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
      B(callv(2, [pay(4, 1)], 6, 3)), B(RET, use(0, 6)), B(RET, use(0, konst("bool", 0, "bool"))))
D("any_is", 2, _T1,
  B(calls(NEXT, [3], 4, 1), _L()), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 3)), B(sw(6, [[0, 0]], 5)),
  B(RET, use(0, konst("bool", 0, "bool"))), B(RET, use(0, konst("bool", 1, "bool"))))
for _n, _k in (("find_at", NEXT), ("rfind_at", BACK)):
    D(_n, 2, _T1,
      B(calls(_k, [3], 4, 1), _L()), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
      B(callv(2, [P(4, ["d", 1], ["f", 0, "?"], ["f", 1, "char"])], 6, 3)), B(sw(6, [[0, 0]], 5)), B(RET, _N(0)),
      B(RET, _S(0, P(4, ["d", 1], ["f", 0, "?"], ["f", 0, "usize"]))))
D("find_map", 2, {5: "isize", 7: "isize"},
  B(calls(NEXT, [1], 4, 1)), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 3)), B(sw(7, [[1, 5]], 0), U(7, ["discr", [6]])), B(RET, _N(0)),
  B(RET, use(0, 6)))
D("partition_point", 2, {3: "&mut ?", 5: "isize", 6: "bool", 7: "usize"},
  B(["goto", 1], use(7, konst("int", 0, "usize"))),
  B(calls(NEXT, [3], 4, 2), _L()), B(sw(5, [[1, 3]], 5), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 4)), B(sw(6, [[0, 5]], 6)), B(RET, use(0, 7)),
  B(["goto", 1], U(7, ["bin", "Add", P(7), konst("int", 1, "usize")])))
D("rposition", 2, {5: "isize", 6: "bool", 7: "usize"},
  B(calls("std::iter::ExactSizeIterator::len", [1], 7, 1)),
  B(calls(BACK, [1], 4, 2)), B(sw(5, [[1, 3]], 5), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 4), U(7, ["bin", "Sub", P(7), konst("int", 1, "usize")])), B(sw(6, [[0, 1]], 6)), B(RET, _N(0)),
  B(RET, _S(0, P(7))))
D("rfind", 2, {5: "isize", 6: "bool"},
  B(calls(BACK, [1], 4, 1)), B(sw(5, [[1, 2]], 4), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 3)), B(sw(6, [[0, 0]], 5)), B(RET, _N(0)), B(RET, use(0, 4)))
D("position", 2, {5: "isize", 6: "bool", 7: "usize"},
  B(["goto", 1], use(7, konst("int", 0, "usize"))),
  B(calls(NEXT, [1], 4, 2)), B(sw(5, [[1, 3]], 5), U(5, ["discr", [4]])),
  B(callv(2, [pay(4, 1)], 6, 4)), B(sw(6, [[0, 6]], 7)), B(RET, _N(0)),
  B(["goto", 1], U(7, ["bin", "Add", P(7), konst("int", 1, "usize")])), B(RET, _S(0, 7)))


@m("dsl::push_any")
def _pushany(E, ctx, bb, cal, a, dest, tg):
    return [(E.w.unit, None, [(a[0], E.w.cat([deref(E, a[0]), E.w.app("chstr", a[1]) if a[1].op != "C" else a[1]]))])]
