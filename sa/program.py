"""The analysed program: MIR facts of one crate, CFGs, loops, liveness."""
import json


class Fn:
    def __init__(self, d):
        self.id = d["id"]
        self.name = d["name"]
        self.deff = d.get("def", self.name)
        self.crate = d.get("crate", "")
        self.argc = d["argc"]
        self.spread = d.get("spread", -1)
        self.span = d.get("span", "")
        self.locals = d["locals"]
        self.vars = d.get("vars", [])
        self.blocks = d["blocks"]
        for b in self.blocks:
            b["s"] = [s for s in b["s"] if len(s) > 1]
        self._prep()

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            out = []
            for _, x in t[2]:
                out.append(x)
            if t[3] is not None and t[3] >= 0:
                out.append(t[3])
            return out
        if k == "drop":
            return [t[2]]
        if k in ("call", "callv"):
            return [t[4]] if t[4] is not None and t[4] >= 0 else []
        if k == "assert":
            return [t[4]]
        return []

    def _prep(self):
        n = len(self.blocks)
        self.succ = [self.succs(b) for b in range(n)]
        # reachable + dominators
        order = []
        seen = {0}
        st = [(0, iter(self.succ[0]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        self.reach = seen
        self.pred = {b: [] for b in seen}
        for b in seen:
            for s in self.succ[b]:
                self.pred[s].append(b)
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.pred[b] if p in dom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = dom[x]
                        while idx[y] > idx[x]:
                            y = dom[y]
                if dom.get(b) != x:
                    dom[b] = x
                    ch = True
        self.idom = dom
        # natural loops
        loops = {}
        for b in seen:
            for s in self.succ[b]:
                x = b
                isdom = False
                while True:
                    if x == s:
                        isdom = True
                        break
                    if x == 0:
                        break
                    x = dom[x]
                if isdom:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y in body:
                            continue
                        body.add(y)
                        st += self.pred[y]
        self.loops = loops
        self.loop_of = {b: [] for b in range(n)}
        for h, body in loops.items():
            for b in body:
                self.loop_of[b].append(h)
        for b in range(n):
            self.loop_of[b].sort(key=lambda h: -len(loops[h]))  # outermost first
        # RPO with loop exits last
        seen2 = {0}
        order = []

        def kids(b):
            return sorted(set(self.succ[b]), key=lambda s: (len(self.loop_of[s]), -idx.get(s, 0)))
        st = [(0, iter(kids(0)))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen2:
                    seen2.add(s)
                    st.append((s, iter(kids(s))))
                    break
            else:
                order.append(b)
                st.pop()
        order = order[::-1]
        self.rank = {b: i for i, b in enumerate(order)}
        self._live()

    def counters(self):
        """locals that a loop counts up or down by a known step"""
        if not hasattr(self, "_counters"):
            self._counters = set()
            step = {}
            for b, blk in enumerate(self.blocks):
                if not self.loop_of.get(b):
                    continue
                for s in blk["s"]:
                    d, r = s[0], s[1]
                    if len(d) == 1 and r[0] in ("cbin", "bin") and r[1] in ("Add", "Sub") and "c" in r[3] and \
                            len(r[2].get("p", ())) == 1:
                        step[d[0]] = r[2]["p"][0]
                        if d[0] == r[2]["p"][0]:
                            self._counters.add(d[0])
                    elif len(d) == 1 and r[0] == "use" and "p" in r[1] and step.get(r[1]["p"][0]) == d[0]:
                        self._counters |= {d[0], r[1]["p"][0]}
        return self._counters

    def _uses_defs(self, b):
        """(upward-exposed uses, full defs) of a block, locals only"""
        use, dfn = set(), set()

        def u(l):
            if l not in dfn:
                use.add(l)

        def up(p):
            u(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    u(e[1])

        def uo(o):
            if "p" in o:
                up(o["p"])

        def dp(p):
            if len(p) == 1:
                dfn.add(p[0])
            else:
                up(p)

        def rv(r):
            k = r[0]
            if k in ("use", "repeat"):
                uo(r[1])
            elif k == "ref":
                up(r[1])
            elif k in ("len", "discr"):
                up(r[1])
            elif k == "cast":
                uo(r[2])
            elif k in ("bin", "cbin"):
                uo(r[2])
                uo(r[3])
            elif k == "un":
                uo(r[2])
            elif k == "agg":
                for o in r[2]:
                    uo(o)
        blk = self.blocks[b]
        for s in blk["s"]:
            rv(s[1])
            dp(s[0])
        t = blk["t"]
        if t[0] == "switch":
            uo(t[1])
        elif t[0] in ("call", "callv"):
            if t[0] == "callv":
                uo(t[1])
            elif isinstance(t[1], dict) and "ind" in t[1]:
                uo(t[1]["ind"]) if isinstance(t[1]["ind"], dict) else None
            for o in t[2]:
                uo(o)
            dp(t[3])
        elif t[0] == "assert":
            uo(t[1])
        elif t[0] == "return":
            u(0)
        return use, dfn

    def _live(self):
        ud = {b: self._uses_defs(b) for b in self.reach}
        live = {b: set() for b in self.reach}
        ch = True
        while ch:
            ch = False
            for b in sorted(self.reach, key=lambda x: -self.rank[x]):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                u, d = ud[b]
                n = u | (out - d)
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live


class Program:
    def __init__(self, path, dsl=()):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.entry = d.get("entry")
        self.types = d["types"]
        self.statics = d.get("statics", [])
        self.fns = {}
        self.raw = d
        for f in d["fns"]:
            self.fns[f["id"]] = Fn(f)
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.name, f)
        for f in dsl:
            self.fns[f["id"]] = Fn(f)
        self.discrs = {}
        self.bases = {}
        self._adts()

    def _adts(self):
        for name, t in self.types.items():
            if t.get("k") == "adt":
                b = t["n"]
                self.discrs.setdefault(b, [v["d"] for v in t["v"]])
                self.bases.setdefault(b, (name, t))
        for b, d in (("std::option::Option", [0, 1]), ("std::result::Result", [0, 1]),
                     ("std::ops::ControlFlow", [0, 1]), ("std::cmp::Ordering", [-1, 0, 1])):
            self.discrs[b] = d

    def fn(self, suffix):
        """the function whose path ends with `suffix` (crate-relative)"""
        full = self.crate + "::" + suffix
        f = self.byname.get(full)
        if f:
            return f
        c = [x for x in self.fns.values() if x.name.endswith("::" + suffix) or x.name == suffix]
        return c[0] if len(c) == 1 else None

    def ty(self, name):
        return self.types.get(name, {"k": "other"})

    def strip(self, name):
        """peel references"""
        while True:
            t = self.types.get(name)
            if t and t["k"] in ("ref", "ptr"):
                name = t["e"]
            else:
                return name

    def adt(self, base):
        """type definition of a local ADT by its last path component(s)"""
        c = [(n, t) for n, t in self.types.items()
             if t.get("k") == "adt" and (t["n"] == base or t["n"].endswith("::" + base))]
        loc = [x for x in c if x[1].get("local")]
        if loc:
            c = loc
        return c[0] if c else None

    def field(self, base, fname, variant=0):
        a = self.adt(base)
        if not a:
            return None
        for i, (n, ty) in enumerate(a[1]["v"][variant]["f"]):
            if n == fname:
                return i
        return None

    def variant(self, base, vname):
        a = self.adt(base)
        if not a:
            return None
        for i, v in enumerate(a[1]["v"]):
            if v["n"] == vname:
                return i
        return None
