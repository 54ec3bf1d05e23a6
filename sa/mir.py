"""MIR facts: bodies, control-flow graphs, dominators, control dependence."""
import json, os, re

def short(path):
    """last component of a def path, generics stripped"""
    p = strip_generics(path)
    return p.rsplit("::", 1)[-1]

def strip_generics(s):
    out, d, i = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and not (i > 0 and s[i-1] == "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::").strip(":") if out else s

class Body:
    __slots__ = ("j", "id", "kind", "argc", "locals", "blocks", "facts", "_succ", "_pred", "_dom",
                 "_pdom", "_cdep", "_defs", "_reach", "_ret", "_scc", "names", "_calls", "_muts", "__dict__")
    def __init__(self, j, facts):
        self.j = j; self.facts = facts
        self.id = j["id"]; self.kind = j["kind"]; self.argc = j["argc"]
        self.locals = j["locals"]; self.blocks = j["blocks"]
        self.names = {l: n for l, n in j.get("names", [])}
        self._succ = self._pred = self._dom = self._pdom = self._cdep = None
        self._defs = self._reach = self._ret = self._scc = self._calls = self._muts = None
    def __repr__(self): return f"<{self.id}>"
    @property
    def file(self): return self.j["span"].rsplit(":", 1)[0]
    @property
    def line(self): return int(self.j["span"].rsplit(":", 1)[1])
    @property
    def name(self): return self.j.get("name") or short(self.id)
    @property
    def parent(self): return self.j.get("parent")
    @property
    def is_closure(self): return "parent" in self.j

    # ---- CFG (unwind edges excluded)
    def succ_all(self, b):
        t = self.blocks[b]["t"]; k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch":
            r = []
            for _, x in t[2]:
                if x not in r: r.append(x)
            if t[3] not in r: r.append(t[3])
            return r
        if k == "drop": return [t[2]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[2]]
        return []
    @property
    def reach(self):
        if self._reach is None:
            seen = {0}; st = [0]
            while st:
                b = st.pop()
                for s in self.succ_all(b):
                    if self.blocks[s]["t"][0] == "unreachable" and not self.blocks[s]["s"]:
                        continue
                    if s not in seen:
                        seen.add(s); st.append(s)
            self._reach = seen
        return self._reach
    def succ(self, b):
        if self._succ is None:
            self._succ = {x: [s for s in self.succ_all(x) if s in self.reach] for x in self.reach}
        return self._succ.get(b, [])
    def pred(self, b):
        if self._pred is None:
            self._pred = {x: [] for x in self.reach}
            for x in self.reach:
                for s in self.succ(x): self._pred[s].append(x)
        return self._pred.get(b, [])
    @property
    def returning(self):
        """blocks from which a normal return is reachable"""
        if self._ret is None:
            st = [b for b in self.reach if self.blocks[b]["t"][0] == "ret"]
            seen = set(st)
            while st:
                b = st.pop()
                for p in self.pred(b):
                    if p not in seen: seen.add(p); st.append(p)
            self._ret = seen
        return self._ret
    def term(self, b): return self.blocks[b]["t"]

    @staticmethod
    def _domtree(nodes, entry, succ, pred):
        # iterative bitset-free dominators (small graphs)
        order = []; seen = set()
        stack = [(entry, iter(succ(entry)))]; seen.add(entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen and s in nodes:
                    seen.add(s); stack.append((s, iter(succ(s)))); break
            else:
                order.append(n); stack.pop()
        order.reverse()
        idx = {n: i for i, n in enumerate(order)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for n in order[1:]:
                new = None
                for p in pred(n):
                    if p in idom and p in idx:
                        if new is None: new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while idx[a] > idx[b]: a = idom[a]
                                while idx[b] > idx[a]: b = idom[b]
                            new = a
                if new is not None and idom.get(n) != new:
                    idom[n] = new; ch = True
        return idom
    @property
    def idom(self):
        if self._dom is None:
            self._dom = self._domtree(self.reach, 0, self.succ, self.pred)
        return self._dom
    def dominates(self, a, b):
        d = self.idom
        if b not in d: return False
        while True:
            if a == b: return True
            if d[b] == b: return False
            b = d[b]
    @property
    def ipdom(self):
        """post-dominators over the returning sub-graph (exit = -1)"""
        if self._pdom is None:
            nodes = set(self.returning) | {-1}
            def succ(n):  # reversed graph
                if n == -1: return [b for b in self.returning if self.term(b)[0] == "ret"]
                return [p for p in self.pred(n) if p in self.returning]
            def pred(n):
                if n == -1: return []
                if self.term(n)[0] == "ret": return [-1]
                return [s for s in self.succ(n) if s in self.returning]
            self._pdom = self._domtree(nodes, -1, succ, pred)
        return self._pdom
    @property
    def cdep(self):
        """block -> set of (switch block, successor) it is control dependent on (direct);
        branches whose other sides all diverge are not counted"""
        if self._cdep is None:
            pd = self.ipdom; r = {b: set() for b in self.returning}
            for a in self.returning:
                ss = [s for s in self.succ(a) if s in self.returning]
                if len(ss) < 2: continue
                for s in ss:
                    n = s
                    stop = pd.get(a)
                    while n is not None and n != stop and n != -1:
                        r[n].add((a, s))
                        if pd.get(n) == n: break
                        n = pd.get(n)
            self._cdep = r
        return self._cdep
    def uses_of(self, l):
        """[(block, statement index (terminator: number of statements), mutably borrowed)]"""
        if not hasattr(self, "_usesof"):
            self._usesof = {}
            def ops(x, out):
                if isinstance(x, dict):
                    for k in ("c", "m"):
                        if k in x and isinstance(x[k], list) and x[k] and isinstance(x[k][0], int): out.append(x[k])
                elif isinstance(x, (list, tuple)):
                    for y in x: ops(y, out)
            for bb in self.reach:
                ss = self.blocks[bb]["s"]
                for i, s in enumerate(ss):
                    if s[0] != "=": continue
                    out = []
                    ops(s[2], out)
                    mut = False
                    if s[2][0] in ("ref", "rawptr", "discr", "len") and isinstance(s[2][1], list): out.append(s[2][1]); mut = s[2][0] == "rawptr" or (s[2][0] == "ref" and len(s[2]) > 2 and s[2][2] is True)
                    if len(s[1]) > 1 and s[1][1] == "*": out.append(s[1])
                    for pl in out:
                        self._usesof.setdefault(pl[0], []).append((bb, i, mut))
                        for e in pl[1:]:
                            if isinstance(e, list) and e[0] == "i" and isinstance(e[1], int): self._usesof.setdefault(e[1], []).append((bb, i, False))
                t = self.blocks[bb]["t"]; out = []
                if t[0] == "call": ops(t[1], out); ops(t[2], out)
                elif t[0] == "switch": ops(t[1], out)
                elif t[0] not in ("drop", "goto", "ret", "unreachable"): ops(t[1:], out)
                for pl in out: self._usesof.setdefault(pl[0], []).append((bb, len(ss), False))
                if t[0] == "ret": self._usesof.setdefault(0, []).append((bb, len(ss), False))
        return self._usesof.get(l, [])
    def cdeps(self, b):
        """transitive control dependences"""
        out = set(); st = [b]; seen = {b}
        while st:
            x = st.pop()
            for (a, s) in self.cdep.get(x, ()):
                out.add((a, s))
                if a not in seen: seen.add(a); st.append(a)
        return out
    def in_cycle(self, b):
        st = list(self.succ(b)); seen = set(st)
        while st:
            x = st.pop()
            if x == b: return True
            for s in self.succ(x):
                if s not in seen: seen.add(s); st.append(s)
        return False
    def reaches(self, a, b, avoid=()):
        """b reachable from a through >=1 edge, not passing through `avoid` blocks"""
        st = [s for s in self.succ(a)]; seen = set(st)
        while st:
            x = st.pop()
            if x == b: return True
            if x in avoid: continue
            for s in self.succ(x):
                if s not in seen: seen.add(s); st.append(s)
        return False

    # ---- definitions: local -> [(bb, idx|None, proj, rv|('call', term))]
    @property
    def defs(self):
        if self._defs is None:
            d = {}
            for b in sorted(self.reach):
                blk = self.blocks[b]
                for i, s in enumerate(blk["s"]):
                    if s[0] == "=":
                        d.setdefault(s[1][0], []).append((b, i, s[1][1:], s[2]))
                t = blk["t"]
                if t[0] == "call":
                    d.setdefault(t[3][0], []).append((b, None, t[3][1:], ["callres"]))
            self._defs = d
        return self._defs
    def edge_guards(self, b):
        """[(switch block, successors)]: every run reaching b last left the switch through one of `successors` (a proper subset)"""
        if not hasattr(self, "_eg"): self._eg = {}
        if b in self._eg: return self._eg[b]
        out = []
        for a in self.reach:
            t = self.term(a)
            if t[0] != "switch" or a == b: continue
            ss = set(self.succ(a))
            if len(ss) < 2: continue
            keep = {s for s in ss if self._reach_only(a, s, b)}
            if keep and keep != ss: out.append((a, keep))
        self._eg[b] = out
        return out
    def _reach_only(self, a, s, b):
        seen = {0}; st = [0]
        while st:
            x = st.pop()
            if x == b: return True
            for y in ([s] if x == a else self.succ(x)):
                if y not in seen: seen.add(y); st.append(y)
        return False
    @property
    def calls(self):
        if self._calls is None:
            self._calls = [b for b in sorted(self.reach) if self.term(b)[0] == "call"]
        return self._calls
    def call_span(self, b): return self.term(b)[5]

class Facts:
    def __init__(self, path):
        j = json.load(open(path))
        self.crate = j["crate"]
        self.bodies = {}
        for b in j["bodies"]:
            bid = b["id"]
            if bid in self.bodies:           # anonymous consts share a path
                bid = bid + "@" + b["span"]; b["id"] = bid
            self.bodies[bid] = Body(b, self)
        self.adts = {a["id"]: a for a in j["adts"]}
        self.impls = j["impls"]
        self.trait_impls = {}
        for b in self.bodies.values():
            tf = b.j.get("trait_fn")
            if tf and b.kind == "fn" and not b.is_closure: self.trait_impls.setdefault(tf, []).append(b)
        self.children = {}
        for b in self.bodies.values():
            if b.is_closure: self.children.setdefault(b.parent, []).append(b)
    def fn(self, suffix):
        """unique body whose id ends with suffix (generics ignored)"""
        r = [b for b in self.bodies.values() if b.kind == "fn" and (b.id == suffix or strip_generics(b.id).endswith(suffix))]
        return r[0] if len(r) == 1 else None
    def adt(self, name):
        r = [a for k, a in self.adts.items() if k == name or k.endswith("::" + name)]
        return r[0] if len(r) == 1 else None

def _places(x, out, dest=False):
    """collect places (lists starting with a local number) inside an operand / rvalue"""
    if isinstance(x, dict):
        for k in ("m", "c"):
            if x.get(k) is not None: out.append(x[k])
    elif isinstance(x, list):
        if x and isinstance(x[0], int) and len(x) > 1 and all(y == "*" or (isinstance(y, list) and y and isinstance(y[0], str)) for y in x[1:]): out.append(x)
        else:
            for y in x: _places(y, out)

def field_uses(F):
    """(adt short name, field) -> [(body, bb, 'r'|'w', span or None)]"""
    if hasattr(F, "_fu"): return F._fu
    fu = {}
    def note(b, bb, pl, kind):
        fs = [e for e in pl[1:] if isinstance(e, list) and e[0] == "f"]
        for i, e in enumerate(fs):
            k = kind if i == len(fs) - 1 else "r"
            if k == "w" and pl[-1] is not e: k = "r"
            fu.setdefault((short(strip_generics(e[3])), e[2]), []).append((b, bb, k))
    for b in F.bodies.values():
        if b.kind != "fn": continue
        for bb in b.reach:
            for st in b.blocks[bb]["s"]:
                if st[0] != "=": continue
                if len(st[1]) > 1: note(b, bb, st[1], "w")
                ps = []; _places(st[2], ps)
                for p in ps: note(b, bb, p, "r")
            t = b.blocks[bb]["t"]
            if t[0] == "call":
                for o in t[2]:
                    ps = []; _places(o, ps)
                    for p in ps: note(b, bb, p, "r")
                if len(t[3]) > 1: note(b, bb, t[3], "w")
            elif t[0] == "switch":
                ps = []; _places(t[1], ps)
                for p in ps: note(b, bb, p, "r")
    F._fu = fu
    return fu
