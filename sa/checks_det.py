"""P30: nothing depends on hash order, time, addresses, the environment or chance."""
from core import *
from checks_elem import *
import re

# where two runs on the same input may differ
CHANCE = (("std::time::", "the time"), ("std::thread::", "threads"), ("std::process::id", "the process number"),
          ("std::env::var", "the environment"), ("std::env::vars", "the environment"), ("std::env::temp_dir", "the environment"),
          ("std::env::current_exe", "the environment"), ("std::env::home_dir", "the environment"), ("std::env::current_dir", "the environment"),
          ("std::hash::RandomState", "random hash keys"), ("std::hash::random", "random hash keys"), ("BuildHasher::hash_one", "random hash keys"),
          ("BuildHasher::build_hasher", "random hash keys"), ("std::fs::read_dir", "the order of a directory"), ("std::fs::metadata", "file times"),
          ("std::fs::File::metadata", "file times"), ("std::net::", "the network"), ("std::process::Command", "another process"),
          ("std::io::stdin", "the terminal"), ("Argument::<'_>::new_pointer", "an address"), ("expose_provenance", "an address"), ("ptr::addr", "an address"),
          ("std::sync::mpsc", "threads"))
SHARED = ("std::sync::atomic::", "std::sync::OnceLock", "std::sync::LazyLock", "std::sync::Mutex", "std::sync::RwLock",
          "std::thread::LocalKey", "std::cell::OnceCell", "std::cell::LazyCell")
HASHT = re.compile(r"std::collections::(HashMap|HashSet)<")
HASHI = re.compile(r"std::collections::hash_(map|set)::(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain)\b")
ITERS = {"iter": "P", "iter_mut": "P", "keys": "K", "values": "V", "values_mut": "V", "into_keys": "K", "into_values": "V", "drain": "P",
         "into_iter": "P"}
# shapes of an item: K the key (or something as telling), V the value, ("T", ..) a tuple, O and W what is derived of a key or a value alone
PAIR = ("T", "K", "V")
SAME = {"clone", "to_string", "to_owned", "as_str", "as_ref", "borrow", "deref", "into", "from", "as_bytes", "copied", "cloned", "to_vec", "into_iter",
        "new_display", "new_debug", "format", "must_use", "unwrap", "expect", "iter", "deref_mut", "as_mut", "as_deref", "into_string", "by_ref",
        "into_boxed_str", "trim", "new", "index"}
LOSSY = {"len", "count", "matches", "find", "rfind", "split", "rsplit", "to_lowercase", "to_uppercase", "chars", "bytes", "is_empty", "contains",
         "starts_with", "ends_with", "nth", "next", "last", "first", "to_ascii_lowercase", "to_ascii_uppercase", "trim_start_matches", "split_once", "contains_key",
         "rsplit_once", "eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "not", "neg", "add", "sub", "mul", "div", "max", "min", "abs"}
LAZY = {"filter", "inspect", "cloned", "copied", "peekable", "fuse", "by_ref", "rev", "chain", "into_iter", "iter", "iter_mut", "deref", "deref_mut",
        "as_slice", "as_mut_slice", "as_bytes", "as_str", "to_vec", "clone", "as_ref", "as_mut", "borrow", "into_boxed_slice", "with_capacity", "drain"}
ORDER = {"enumerate", "zip", "take", "skip", "step_by", "last", "nth", "position", "first", "pop", "get", "index", "swap_remove", "remove", "split_at",
         "split_first", "split_last", "get_mut", "index_mut", "map_while", "take_while", "skip_while", "scan", "truncate", "rposition"}
FREE = {"count", "len", "any", "all", "is_empty", "contains", "size_hint", "capacity", "reserve", "min", "max", "drop", "clear", "eq", "ne"}


def det_name(cal):
    return (cal.get("def") or cal.get("name") or "") if isinstance(cal, dict) else ""


def last(cal):
    return det_name(cal).split("::")[-1]


def has_key(s):
    return s == "K" or isinstance(s, tuple) and any(has_key(x) for x in s[1:])


def of_key(s):
    return s in ("K", "O", "C") or isinstance(s, tuple) and any(of_key(x) for x in s[1:])


def derived(shapes):
    ss = [s for s in shapes if s]
    return "C" if "C" in ss else "O" if any(of_key(s) for s in ss) else "W"


def part(s, i):
    """the i-th field of an item"""
    if isinstance(s, tuple):
        return s[1 + i] if i < len(s) - 1 else None
    return s if s in ("K", "V", "O", "W") else None


class Flow:
    """how what comes in hash order moves through one function"""

    def __init__(self, D, f, start=None):
        self.D, self.f = D, f
        self.tag = dict(start or {})    # local -> (kind, shape, vague)
        self.site = {}                  # local -> site of the iteration
        self.refs = {}                  # reference local -> local
        for _ in range(12):
            old = dict(self.tag)
            self.step()
            if old == self.tag:
                break

    # --- values
    def get(self, p):
        """tag of a place"""
        t = self.tag.get(p[0])
        if t is None:
            return None
        k, s, v = t
        for e in p[1:]:
            if k != "item":
                if e == "*" or isinstance(e, list) and e[0] == "d":
                    continue
                if isinstance(e, list) and e[0] == "f" and (HASHI.search(str(e[2])) or "std::vec::Vec<" in str(e[2])):
                    continue
                return ("item", s, v) if isinstance(e, list) and e[0] in ("i", "ci") else None
            if e == "*" or isinstance(e, list) and e[0] == "d":
                continue
            if isinstance(e, list) and e[0] == "f":
                ty = self.base_type(p)
                if ty.startswith("std::option::Option") and p[1:].index(e) <= 1:
                    continue
                s = part(s, e[1])
                if s is None:
                    return None
        return (k, s, v)

    def base_type(self, p):
        t = self.f.locals[p[0]]
        while t.startswith("&"):
            t = t.lstrip("&").replace("mut ", "", 1) if t.startswith("&mut ") else t[1:]
        return t

    def op(self, o):
        return self.get(o["p"]) if "p" in o else None

    def put(self, l, t, src=None):
        if t is None:
            return
        o = self.tag.get(l)
        if o is None:
            self.tag[l] = t
        elif o != t:
            if o[0] == t[0]:
                s = o[1] if o[1] == t[1] else o[1] if t[1] is None else t[1] if o[1] is None else "?"
                self.tag[l] = (o[0], s, o[2] or t[2] or s == "?")
        if src is not None:
            self.site.setdefault(l, src)

    def src(self, a):
        for o in a:
            if "p" in o and o["p"][0] in self.site:
                return self.site[o["p"][0]]
        return None

    def owner(self, o):
        """the local behind a reference"""
        if "p" not in o:
            return None
        l = o["p"][0]
        seen = set()
        while l in self.refs and l not in seen:
            seen.add(l)
            l = self.refs[l]
        return l

    def step(self):
        f = self.f
        for b in sorted(f.reach):
            for s in f.blocks[b]["s"]:
                d, r = s[0], s[1]
                t = None
                k = r[0]
                if k == "use":
                    t = self.op(r[1])
                    if "p" in r[1] and r[1]["p"][0] in self.refs and len(r[1]["p"]) == 1 and len(d) == 1:
                        self.refs.setdefault(d[0], self.refs[r[1]["p"][0]])
                    if t and "p" in r[1] and r[1]["p"][0] in self.site:
                        self.site.setdefault(d[0], self.site[r[1]["p"][0]])
                elif k == "ref":
                    t = self.get(r[1])
                    if len(d) == 1:
                        self.refs.setdefault(d[0], r[1][0])
                    if t and r[1][0] in self.site:
                        self.site.setdefault(d[0], self.site[r[1][0]])
                elif k == "cast":
                    t = self.op(r[2])
                elif k == "agg":
                    ts = [self.op(o) for o in r[2]]
                    if any(ts):
                        if r[1][0] == "tuple":
                            its = [x and x[0] == "item" for x in ts]
                            if any(its):
                                t = ("item", ("T",) + tuple(x[1] if x else None for x in ts), any(x and x[2] for x in ts))
                        elif r[1][0] in ("adt", "array"):
                            ss = [x[1] for x in ts if x]
                            t = ("item", "K" if any(has_key(x) for x in ss) else derived(ss), any(x and x[2] for x in ts))
                elif k in ("bin", "cbin"):
                    ts = [self.op(o) for o in r[2:4]]
                    if any(x and x[0] == "item" for x in ts):
                        t = ("item", derived([x[1] for x in ts if x]), any(x and x[2] for x in ts))
                elif k in ("un", "discr", "len"):
                    x = self.op(r[2]) if k == "un" else self.get(r[1])
                    if x and x[0] == "item":
                        t = ("item", derived([x[1]]), x[2])
                if t and len(d) == 1:
                    self.put(d[0], t)
            T_ = f.blocks[b]["t"]
            if T_[0] == "call":
                self.call(b, T_)

    def call(self, b, t):
        f, D = self.f, self.D
        cal, a, dest = t[1], t[2], t[3]
        n = last(cal)
        ts = [self.op(o) for o in a]
        args = cal.get("args", []) if isinstance(cal, dict) else []
        selft = args[0] if args else ""
        nm = cal.get("name", "") if isinstance(cal, dict) else ""
        d = dest[0]
        # the start of an iteration
        if n in ITERS and not any(x and x[0] == "it" for x in ts) and a and "p" in a[0]:
            ty = self.place_type(a[0]["p"])
            dt = f.locals[d]
            if HASHI.search(dt) and HASHT.search(ty) or HASHT.search(strip_ref(ty)) == 0:
                sh = ITERS[n]
                if "HashSet" in ty:
                    sh = "K"
                self.put(d, ("it", PAIR if sh == "P" else sh, False), (b, n, ty))
                return
        if not any(ts):
            # sequences extended by a map itself
            return
        k0 = next(x for x in ts if x)
        src = self.src(a)
        if k0[0] in ("it", "seq") and ts[0] is k0:
            k, s, v = k0
            if n in ("map", "filter_map", "flat_map"):
                s2 = D.closure(f, a[1], s)
                self.put(d, ("it", s2 or "?", v or s2 is None), src)
            elif n == "filter":
                c = D.closure(f, a[1], s)
                self.put(d, ("it", s, v or c is None or of_key(c)), src)
            elif n in LAZY:
                if HASHI.search(f.locals[d]) or k == "it" and n not in ("clone", "to_vec"):
                    self.put(d, ("it", s, v), src)
                else:
                    self.put(d, ("it" if n in ("iter", "into_iter", "iter_mut", "drain") else "seq", s, v), src)
                if d != a[0]["p"][0]:
                    self.refs.setdefault(d, a[0]["p"][0])
            elif n == "next" or n == "next_back":
                self.put(d, ("item", s, v), src)
            elif n in ("find", "last", "nth", "first", "min", "max", "min_by_key", "max_by_key", "min_by", "max_by", "reduce", "index", "get", "pop"):
                self.put(d, ("item", s, True), src)
            elif n in ("collect", "from_iter", "to_vec"):
                if seqt(f.locals[d]):
                    self.put(d, ("seq", s, v), src)
            return
        if n in ("from_iter",) and k0[0] == "it" and seqt(f.locals[d]):
            self.put(d, ("seq", k0[1], k0[2]), src)
            return
        if n in ("push", "push_back", "extend", "push_str", "append", "insert", "add_assign") and len(a) > 1:
            x = ts[-1] or ts[1]
            o = self.owner(a[0])
            if x and o is not None and seqt(strip_ref(f.locals[o])) and n != "insert":
                self.put(o, ("seq", x[1], x[2]), self.site.get(a[-1]["p"][0]) if "p" in a[-1] else src)
            return
        its = [x for x in ts if x and x[0] == "item"]
        if its:
            if n in SAME:
                self.put(d, ("item", its[0][1] if len(its) == 1 else "K" if any(has_key(x[1]) for x in its) else derived([x[1] for x in its]),
                             any(x[2] for x in its)))
            elif n in ("lt", "le", "gt", "ge", "cmp", "partial_cmp", "eq", "ne") and any(has_key(x[1]) for x in its):
                self.put(d, ("item", "C", any(x[2] for x in its)))
            elif n in LOSSY or n in D.local:
                self.put(d, ("item", derived([x[1] for x in its]), any(x[2] for x in its) or n in D.local))
            else:
                ss = [x[1] for x in its]
                self.put(d, ("item", "K" if n.startswith("new") and any(has_key(x) for x in ss) else derived(ss), True))

    def place_type(self, p):
        t = self.f.locals[p[0]]
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "f":
                t = e[2]
            elif e == "*":
                t = strip_ref(t, 1)
        return t


def strip_ref(t, n=9):
    while n and t.startswith("&"):
        t = t[5:] if t.startswith("&mut ") else t[1:]
        t = re.sub(r"^'\w+ (mut )?", "", t)
        n -= 1
    return t


def seqt(t):
    t = strip_ref(t)
    return t.startswith(("std::vec::Vec<", "std::collections::VecDeque<", "std::collections::LinkedList<", "std::boxed::Box<[", "[", "std::string::String"))


class Det:
    def __init__(self, C, prog):
        self.C, self.prog = C, prog
        self.local = {f.name.split("::")[-1] for f in prog.fns.values()}
        self.memo = {}
        self.sites = 0

    def closure_fn(self, f, o):
        if "p" in o:
            for b in f.reach:
                for s in f.blocks[b]["s"]:
                    if len(s[0]) == 1 and s[0][0] == o["p"][0] and s[1][0] == "agg" and s[1][1][0] == "closure":
                        return self.prog.fns.get(s[1][1][1])
            t = f.locals[o["p"][0]]
        else:
            t = o.get("t", "")
        c = [g for g in self.prog.fns.values() if t and t.strip("{}") in g.name]
        m = re.search(r"closure@([^ }]*)", t)
        if not c and m:
            c = [g for g in self.prog.fns.values() if "closure" in g.name and g.span.startswith(m.group(1).rsplit(":", 0)[0])]
        return c[0] if len(c) == 1 else None

    def closure(self, f, o, shape):
        """shape of what a closure makes of an item; None: unknown"""
        g = self.closure_fn(f, o)
        if g is None:
            m = o.get("c", {}) if "c" in o else {}
            return shape if any(x in str(o) for x in ("clone", "to_string", "to_owned")) else None
        F = self.flow_of(g, shape)
        t = F.tag.get(0)
        return t[1] if t and not t[2] else "W" if t is None else None

    def flow_of(self, g, shape):
        k = (g.id, shape)
        if k not in self.memo:
            if "closure" in g.name and g.argc >= 2:
                st = {i: ("item", shape, False) for i in range(2, g.argc + 1)}
                if g.argc == 2 and g.spread == 2:
                    pass
            else:
                st = {1: ("item", shape, False)}
            self.memo[k] = Flow(self, g, st)
        return self.memo[k]

    # ----------------------------------------------------------- one function
    def function(self, f):
        C = self.C
        F = Flow(self, f)
        if not F.site:
            return
        nm = name(f.name)
        # sorted sequences are in order from there on
        good, why = {}, {}
        for b in sorted(f.reach):
            t = f.blocks[b]["t"]
            if t[0] != "call":
                continue
            n = last(t[1])
            if n.startswith("sort") and t[2] and F.op(t[2][0]) and F.op(t[2][0])[0] == "seq":
                o = F.owner(t[2][0])
                r, w = self.total(f, F, n, t[2], F.op(t[2][0]))
                if not r and "unstable" not in n and o in good and good[o][1] and self.dominates(f, good[o][0], b):
                    continue            # in order before, and ties stay as they were
                good[o] = (b, r)
                where_ = f.name + " (" + t[-1] + ")"
                self.sites += 1
                C.expect(r, "order/%s/sort" % nm, w, where_, "sorted by a key that tells all items apart")
        done = set()
        for b in sorted(f.reach):
            t = f.blocks[b]["t"]
            wh = "%s (%s)" % (f.name, t[-1] if isinstance(t[-1], str) else f.span)
            if t[0] == "call":
                self.use(f, F, b, t, good, nm, wh)
            for s in f.blocks[b]["s"]:
                self.assign(f, F, b, s, good, nm)
        if 0 in F.tag and F.tag[0][0] == "seq" and not self.sorted_before(f, F, 0, good, None):
            C.expect(None if F.tag[0][2] else False, "order/%s/result" % nm, "returns a sequence in hash order", f.name)
        for l, (b, n, ty) in sorted(F.site.items()):
            if (b, n) not in done:
                done.add((b, n))
                self.sites += 1
                C.ok("order/%s" % nm, "an iteration over a hash table followed to its uses", "%s (%s)" % (f.name, f.blocks[b]["t"][-1]))

    def sorted_before(self, f, F, l, good, b):
        """is the sequence in a local in order at block b? (None: perhaps)"""
        l = F.owner({"p": [l]})
        if l in good:
            sb, r = good[l]
            if b is None or sb == b or self.dominates(f, sb, b):
                return True
            return False
        # moved out of a sorted one
        for x in sorted(f.reach):
            for s in f.blocks[x]["s"]:
                if len(s[0]) == 1 and s[0][0] == l and s[1][0] in ("use", "ref"):
                    p = s[1][1]["p"] if s[1][0] == "use" and "p" in s[1][1] else s[1][1] if s[1][0] == "ref" else None
                    if p and p[0] != l and F.owner({"p": [p[0]]}) in good:
                        return True
            t = f.blocks[x]["t"]
            if t[0] == "call" and t[3][0] == l and t[2] and "p" in t[2][0] and last(t[1]) in LAZY | {"map", "filter_map", "next", "collect", "enumerate", "zip", "take", "skip"}:
                p = t[2][0]["p"]
                if p[0] != l:
                    return self.sorted_before(f, F, p[0], good, b)
        return False

    def dominates(self, f, a, b):
        while b != 0:
            if a == b:
                return True
            b = f.idom[b]
        return a == 0

    def total(self, f, F, n, a, tag):
        """does a sort leave no order of items to chance?"""
        k, s, vague = tag
        if n in ("sort", "sort_unstable"):
            return True, ""
        if vague:
            return None, "the items sorted were not recognised"
        g = self.closure_fn(f, a[1])
        if g is None:
            return None, "the key was not recognised"
        if "key" in n:
            r = self.closure(f, a[1], s)
            if r is None:
                return None, "the key was not recognised"
            if has_key(r):
                return True, ""
            if not of_key(s):
                return (True, "") if r == s else (None, "only values are sorted")
            if r in ("V", "W") or r == "O" and self.lossy(g, s) or isinstance(r, tuple) and all(x in ("V", "W", None) or x == "O" and self.lossy(g, s) for x in r[1:]):
                return False, "sorted by a key that several items can share: their order depends on hash order"
            return None, "whether the key tells all items apart was not recognised"
        G = self.flow_of(g, s)
        cmps = []
        for b in g.reach:
            t = g.blocks[b]["t"]
            if t[0] == "call" and last(t[1]) in ("cmp", "partial_cmp", "total_cmp", "lt", "gt", "le", "ge"):
                cmps.append([G.op(o) for o in t[2]])
            elif t[0] == "call" and last(t[1]) in ("then_with", "sort_by", "min_by"):
                cmps.append([None])
        if any(x and has_key(x[1]) for c in cmps for x in c):
            return True, ""
        if any(x is None for c in cmps for x in c) or not cmps:
            return None, "the comparison was not recognised"
        return False, "sorted by a comparison that leaves several items equal: their order depends on hash order"

    def lossy(self, g, s):
        """is what a closure makes of a key made with calls that lose something?"""
        ns = [last(g.blocks[b]["t"][1]) for b in g.reach if g.blocks[b]["t"][0] == "call"]
        return bool(ns) and any(n in LOSSY for n in ns) and all(n in LOSSY | SAME for n in ns)

    def in_body(self, f, F, b, l):
        """the loop that steps the iterator of local l at block b"""
        src = F.site.get(l)
        hs = [h for h in f.loop_of.get(b, [])]
        if src is None:
            return hs[-1] if hs else None
        hs = [h for h in hs if src[0] not in f.loops[h]]
        return hs[0] if hs else None

    def nodes_map(self, F, l):
        s = F.site.get(l)
        return s is not None and re.search(r"HashMap<std::string::String, usize", s[2]) is not None

    def use(self, f, F, b, t, good, nm, wh):
        C = self.C
        n = last(t[1])
        a = t[2]
        ts = [F.op(o) for o in a]
        if not any(ts):
            return
        x = ts[0]
        if x and x[0] in ("it", "seq"):
            l = a[0]["p"][0]
            if self.sorted_before(f, F, l, good, b) or n.startswith("sort"):
                return
            nodes = self.nodes_map(F, l)
            verdict = None if x[2] else False
            d = t[3][0]
            if n in ORDER:
                self.sites += 1
                if n == "index" and seqt(f.locals[d]):
                    return
                C.expect(verdict, "order/%s/%s" % (nm, n), "%s is applied to items in hash order" % n, wh)
            elif n in ("next", "next_back") and self.in_body(f, F, b, l) is None:
                C.expect(verdict, "order/%s/first" % nm, "takes whatever comes first in hash order", wh)
            elif n in ("find", "find_map", "rfind"):
                c = self.closure(f, a[1], x[1])
                C.expect(None if x[2] or c is None or of_key(c) or not nodes else False, "order/%s/find" % nm,
                         "takes the first item in hash order of those with a certain value (a node may have several names)", wh)
            elif n in ("min_by_key", "max_by_key", "min_by", "max_by"):
                r, w = self.total(f, F, "sort_by_key" if "key" in n else "sort_by", a, ("seq", x[1], x[2]))
                if r is False and not of_key(self.closure(f, a[1], x[1]) or "O"):
                    r = None
                C.expect(r, "order/%s/%s" % (nm, n), w.replace("sorted", "chosen").replace("their order", "the one chosen"), wh, "one item is the least")
            elif n in ("sum", "product", "fold", "try_fold", "reduce"):
                C.expect(True if n in ("sum", "product") and "f64" not in f.locals[d] else None, "order/%s/%s" % (nm, n),
                         "%s in hash order" % n, wh, "of whole numbers")
            elif n in ("collect", "from_iter"):
                self.table(f, F, x, f.locals[d], nodes, nm, wh)
            elif n in ("for_each", "try_for_each"):
                g = self.closure_fn(f, a[1])
                if g is None:
                    C.unk("order/%s/for_each" % nm, "body not recognised", wh)
                else:
                    G = self.flow_of(g, x[1])
                    for gb in sorted(g.reach):
                        gt = g.blocks[gb]["t"]
                        if gt[0] == "call":
                            self.effect(g, G, gb, gt, nm, "%s (%s)" % (g.name, gt[-1]), nodes)
            elif n in ("join", "concat"):
                C.expect(verdict, "order/%s/%s" % (nm, n), "texts are put together in hash order", wh)
            elif isinstance(t[1], dict) and t[1].get("id") in self.prog.fns and x[0] == "seq":
                C.expect(verdict, "order/%s/passed" % nm, "a sequence in hash order is handed to %s" % n, wh)
            return
        hs = f.loop_of.get(b, [])
        if any(y and y[0] == "item" for y in ts):
            # inside a loop over a hash table?
            srcs = self.loops_over(f, F, good)
            hit = [l for h, l in srcs.items() if h in hs]
            if hit:
                h = [h for h in hs if h in srcs][0]
                cs = self.conditions(f, F, f.loops[h], hit[0])
                if n in ("insert", "entry") and any(c in (None, "C") for c in cs):
                    C.unk("order/%s/table" % nm, "whether an entry is replaced depends on a comparison", wh)
                else:
                    self.effect(f, F, b, t, nm, wh, self.nodes_map(F, hit[0]))
        for i, y in enumerate(ts[1:], 1):
            if y and y[0] == "seq" and det_name(t[1]).startswith("std::io::Write::") and not self.sorted_before(f, F, a[i]["p"][0], good, b):
                C.expect(None if y[2] else False, "order/%s/write" % nm, "data in hash order are written", wh)
            if y and y[0] in ("it", "seq") and n in ("extend", "append", "extend_from_slice", "zip", "chain"):
                l = a[i]["p"][0]
                if self.sorted_before(f, F, l, good, b):
                    continue
                o = F.owner(a[0])
                ty = self.owner_type(f, F, a[0])
                if HASHT.search(ty) or "BTree" in ty:
                    self.table(f, F, y, ty, self.nodes_map(F, l), nm, wh)
                elif n == "zip":
                    C.expect(None if y[2] else False, "order/%s/zip" % nm, "items in hash order are numbered", wh)
                elif "p" in a[0] and not (o in good):
                    if o in F.tag and o > f.argc:
                        continue        # followed as a local
                    C.expect(None if y[2] else False, "order/%s/%s" % (nm, n), "items are added in hash order", wh)
            elif y and y[0] == "seq" and isinstance(t[1], dict) and t[1].get("id") in self.prog.fns and not self.sorted_before(f, F, a[i]["p"][0], good, b):
                C.expect(None if y[2] else False, "order/%s/passed" % nm, "a sequence in hash order is handed to %s" % n, wh)

    def owner_type(self, f, F, o):
        """type of what a receiver refers to"""
        if "p" not in o:
            return ""
        l = o["p"][0]
        for b in f.reach:
            for s in f.blocks[b]["s"]:
                if len(s[0]) == 1 and s[0][0] == l and s[1][0] == "ref":
                    return F.place_type(s[1][1])
        return strip_ref(f.locals[l])

    def loops_over(self, f, F, good):
        """loop header -> iterator local, of loops over a hash table"""
        out = {}
        for b in f.reach:
            t = f.blocks[b]["t"]
            if t[0] == "call" and last(t[1]) in ("next", "next_back") and t[2]:
                x = F.op(t[2][0])
                l = t[2][0]["p"][0] if "p" in t[2][0] else None
                if x and x[0] in ("it", "seq") and not self.sorted_before(f, F, l, good, b):
                    h = self.in_body(f, F, b, l)
                    if h is not None:
                        out[h] = l
        return out

    def table(self, f, F, x, ty, nodes, nm, wh):
        ty = strip_ref(ty)
        if ty.startswith(("std::collections::HashMap<", "std::collections::BTreeMap<")):
            s = part(x[1], 0)
            self.sites += 1
            self.C.expect(True if s and has_key(s) else None if x[2] or not nodes or s not in ("V", "W") else False, "order/%s/table" % nm,
                          "entries with the same key (a node may have several names) replace each other in hash order", wh, "keys stay apart")

    def effect(self, f, F, b, t, nm, wh, nodes):
        """something done once per item, in hash order"""
        C = self.C
        n, a = last(t[1]), t[2]
        dn = det_name(t[1])
        ts = [F.op(o) for o in a]
        its = [y for y in ts if y and y[0] == "item"]
        vague = any(y[2] for y in its)
        if not its:
            return
        ty = self.owner_type(f, F, a[0]) if a else ""
        if dn.startswith("std::io::Write::"):
            C.expect(None if vague else False, "order/%s/write" % nm, "data are written in hash order", wh)
        elif n == "insert" and (HASHT.search(ty) or "BTree" in ty) and len(a) > 1:
            y = ts[1]
            if y is None:
                C.unk("order/%s/table" % nm, "entries of the same key replace each other", wh)
            elif "Set<" in ty or has_key(y[1]):
                C.ok("order/%s/table" % nm, "keys stay apart", wh)
            else:
                same = len(a) > 2 and ts[2] is None
                C.expect(None if vague or y[2] or not nodes or same or y[1] not in ("V", "W") or len(a) < 3 or not of_key(ts[2][1]) else False,
                         "order/%s/table" % nm,
                         "entries with the same key (a node may have several names) replace each other in hash order", wh)
        elif n == "entry":
            y = ts[1] if len(ts) > 1 else None
            C.expect(True if y and has_key(y[1]) else None if not nodes or not y or y[1] not in ("V", "W") or "or_insert" not in self.followers(f, t) else False,
                     "order/%s/table" % nm, "the first entry in hash order of each key is kept (a node may have several names)", wh)
        elif n in ("push", "push_back", "extend", "append", "push_str", "extend_from_slice", "add_assign") and len(ts) > 1 and ts[-1]:
            o = F.owner(a[0])
            loc = o is not None and o > f.argc and not self.reached_from_outside(f, a[0])
            if not loc:
                C.expect(None if vague else False, "order/%s/%s" % (nm, n), "items are added to a list in hash order", wh)
        elif isinstance(t[1], dict) and t[1].get("id") in self.prog.fns:
            g = self.prog.fns[t[1]["id"]]
            if self.numbering(g):
                C.expect(None if vague else False, "order/%s/%s" % (nm, n), "%s is called in hash order, and what it does depends on the order" % n, wh)

    def followers(self, f, t):
        b = t[4]
        for _ in range(3):
            if b is None or b < 0:
                return ""
            x = f.blocks[b]["t"]
            if x[0] == "call":
                return last(x[1])
            b = x[1] if x[0] == "goto" else None
        return ""

    def reached_from_outside(self, f, o):
        l = o["p"][0]
        for b in f.reach:
            for s in f.blocks[b]["s"]:
                if len(s[0]) == 1 and s[0][0] == l and s[1][0] == "ref":
                    p = s[1][1]
                    return p[0] <= f.argc and p[0] > 0
        return l <= f.argc

    def numbering(self, g, depth=0, seen=None):
        """does a function append to a list or count through a reference?"""
        seen = seen if seen is not None else set()
        if g.id in seen or depth > 4:
            return False
        seen.add(g.id)
        for b in g.reach:
            for s in g.blocks[b]["s"]:
                d, r = s[0], s[1]
                if r[0] in ("bin", "cbin") and r[1].startswith("Add") and "p" in r[2] and "*" in r[2]["p"][1:] and 0 < r[2]["p"][0] <= g.argc:
                    return True
            t = g.blocks[b]["t"]
            if t[0] == "call" and isinstance(t[1], dict):
                if last(t[1]) == "push" and t[2] and self.reached_from_outside(g, t[2][0]):
                    return True
                h = self.prog.fns.get(t[1].get("id"))
                if h is not None and self.numbering(h, depth + 1, seen):
                    return True
        return False

    def assign(self, f, F, b, s, good, nm):
        """an item that outlives its loop"""
        hs = f.loop_of.get(b, [])
        exits = False
        d, r = s[0], s[1]
        t = F.op(r[1]) if r[0] == "use" else F.get(r[1]) if r[0] == "ref" else None
        if r[0] == "agg":
            t = F.tag.get(d[0]) if len(d) == 1 else None
        if not t or t[0] != "item" or len(d) != 1:
            return
        for h, l in self.loops_over(f, F, good).items():
            body = f.loops[h]
            if b not in body:
                # a block that is only reached out of the body after a test
                ps = self.entered_from(f, b, body)
                if not ps or d[0] != 0 and d[0] not in self.live_later(f, b):
                    continue
                exits = True
                blocks = body
            else:
                outs = {x for y in body for x in f.succ[y] if x not in body}
                if not any(d[0] in f.live[x] for x in outs) or d[0] in f.live[h] and False:
                    continue
                blocks = body
            conds = self.conditions(f, F, blocks, l)
            if conds is None or any(c is None for c in conds) or t[2] or not of_key(t[1]) or not self.nodes_map(F, l):
                self.C.unk("order/%s/kept" % nm, "an item of a hash table is kept", "%s (%s)" % (f.name, s[2]))
            elif any(of_key(c) for c in conds):
                self.C.ok("order/%s/kept" % nm, "chosen by its key", "%s (%s)" % (f.name, s[2]))
            else:
                self.C.bad("order/%s/kept" % nm, "which item is kept depends on hash order (a node may have several names)", "%s (%s)" % (f.name, s[2]))

    def live_later(self, f, b):
        return set().union(*[f.live[x] for x in f.succ[b]]) if f.succ[b] else set()

    def entered_from(self, f, b, body):
        """is b reached from inside a loop body without the end of the iteration?"""
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            ps = f.pred.get(x, [])
            if len(ps) != 1:
                return []
            if ps[0] in body:
                return ps
            st.append(ps[0])
        return []

    def conditions(self, f, F, body, l):
        """shapes of the tests in a loop body, other than for the end of the iteration"""
        out = []
        for b in body:
            t = f.blocks[b]["t"]
            if t[0] != "switch":
                continue
            o = t[1]
            if "p" not in o:
                continue
            x = F.op(o)
            if self.end_test(f, o["p"][0], F):
                continue
            out.append(x[1] if x and x[0] == "item" else None)
        return out

    def end_test(self, f, l, F):
        for b in f.reach:
            for s in f.blocks[b]["s"]:
                if len(s[0]) == 1 and s[0][0] == l and s[1][0] == "discr":
                    p = s[1][1]
                    for x in f.reach:
                        t = f.blocks[x]["t"]
                        if t[0] == "call" and t[3][0] == p[0] and last(t[1]) in ("next", "next_back"):
                            return True
        return False


def p30(C):
    for which in ("lib", "bin"):
        try:
            prog = C.prog(which)
        except Exception as e:
            C.unk("anchor", "%s: %s" % (which, e))
            continue
        n = 0
        for f in prog.fns.values():
            if not f.name.startswith(("tiny_spice", "<tiny_spice")) and "tiny_spice" not in f.name and which == "lib":
                continue
            n += 1
            C.guard("chance/" + name(f.name), chance, C, prog, f)
        C.ok("chance/" + which, "%d functions call nothing that is up to chance" % n if not any(o["status"] == "violated" for o in C.obs) else "%d functions" % n)
        if prog.statics and not any(o["status"] == "violated" and o["obligation"].startswith("state") for o in C.obs):
            C.ok("state/" + which, "nothing that outlives an analysis is written")
        D = Det(C, prog)
        for f in prog.fns.values():
            C.guard("order/" + name(f.name), D.function, f)
        C.ok("order/" + which, "%d functions, %d uses of what comes in hash order" % (len(prog.fns), D.sites))
        C.runs.append({"entry": which, "note": "all functions", "steps": 0, "blocks": sum(len(f.blocks) for f in prog.fns.values()), "terms": 0,
                       "functions": sorted(f.name for f in prog.fns.values()), "unmodelled": []})
    C.guard("names", shown, C)


def chance(C, prog, f):
    for b in sorted(f.reach):
        blk = f.blocks[b]
        for s in blk["s"]:
            if s[1][0] == "cast" and "Expose" in s[1][1]:
                C.bad("chance/address", "an address is used as a number", "%s (%s)" % (f.name, s[2]))
            if s[1][0] == "tls":
                C.bad("state/thread", "state that outlives the analysis", "%s (%s)" % (f.name, s[2]))
        t = blk["t"]
        if t[0] != "call" or not isinstance(t[1], dict):
            continue
        d, nm = det_name(t[1]), t[1].get("name", "")
        for p, what in CHANCE:
            if p in d or p in nm and p.startswith("std::") and not HASHT.search(nm) and p not in ("std::hash::RandomState",):
                C.expect(False if used(f, t[3][0]) else None, "chance/" + what, "%s depends on %s (%s)" % (name(f.name), what, d),
                         "%s (%s)" % (f.name, t[-1]))
                break
        if any(d.startswith(p) for p in SHARED) and last(t[1]) not in ("new", "clone", "drop") and \
                (prog.statics or "LocalKey" in d or "tls" in str(blk)):
            if last(t[1]) in ("load", "get", "as_ptr"):
                continue
            C.bad("state/shared", "%s changes or keeps state that outlives an analysis (%s)" % (name(f.name), d), "%s (%s)" % (f.name, t[-1]))


def used(f, l):
    """is a local read anywhere?"""
    if l == 0:
        return True
    pat = re.compile(r"\[%d[,\]]" % l)
    for b in f.reach:
        for s in f.blocks[b]["s"]:
            if pat.search(str(s[1])):
                return True
        t = f.blocks[b]["t"]
        if t[0] in ("call", "callv") and pat.search(str(t[2])) and last(t[1]) not in ("drop",):
            return True
        if t[0] == "switch" and pat.search(str(t[1])):
            return True
    return False


def shown(C):
    """the name shown for a node is the one nearest the top level"""
    prog = C.prog()
    f = prog.fn("Circuit::build_node_id_lut")
    if f is None:
        C.unk("names/nearest", "no such function")
        return
    F = Flow(Det(C, prog), f)
    D = F.D
    ob = "names/nearest"
    sorts, ins, revs = [], [], 0
    for b in sorted(f.reach):
        t = f.blocks[b]["t"]
        if t[0] != "call":
            continue
        n = last(t[1])
        if n.startswith("sort"):
            sorts.append(t)
        elif n in ("insert", "entry") and HASHT.search(D_owner(D, f, F, t)):
            ins.append((n, D.followers(f, t)))
        elif n in ("rev", "reverse", "next_back"):
            revs += 1
    if len(sorts) != 1 or len(ins) != 1 or "by_key" not in last(sorts[0][1]) and "cached_key" not in last(sorts[0][1]):
        C.unk(ob, "which of several names is shown was not recognised", f.name)
        return
    if sum(f.blocks[b]["t"][0] == "switch" and len(set(f.succ[b])) > 1 for b in f.reach) > 1:
        C.unk(ob, "which of several names is shown was not recognised", f.name)
        return
    tag = F.op(sorts[0][2][0])
    g = D.closure_fn(f, sorts[0][2][1])
    r = D.closure(f, sorts[0][2][1], tag[1]) if tag and g is not None else None
    ns = [last(g.blocks[b]["t"][1]) for b in g.reach if g.blocks[b]["t"][0] == "call"] if g is not None else []
    dots = any("46" in str(g.blocks[b]) or "'.'" in str(g.blocks[b]) for b in g.reach) if g is not None else False
    if not (isinstance(r, tuple) and len(r) == 3 and r[1:] == ("O", "K") and dots and set(ns) <= {"matches", "count", "split", "deref", "as_str", "chars", "filter"}) \
            or "Reverse" in str(g.locals):
        C.unk(ob, "which of several names is shown was not recognised", f.name)
        return
    first = ins[0][0] == "entry" and ins[0][1].startswith("or_insert")
    C.expect(first == (revs % 2 == 0) if ins[0][0] == "insert" or first else None, ob, "the name with the most levels is shown for a node of several names",
             f.name, "the name with the fewest levels, the first in alphabetical order")


def D_owner(D, f, F, t):
    return D.owner_type(f, F, t[2][0]) if t[2] else ""
