"""Sparse conditional constant propagation on top of the origin engine: given constant values for
some inputs, prune infeasible branches and report what remains (returns, calls, stores)."""
from .mir import short, strip_generics
from .flow import Engine, EMPTY, strip, marks, av_str, avs_str, is_std, Call

OPTS = ("Option", "Result", "ControlFlow", "Cow", "Ordering", "Poll", "Entry")

class SEngine(Engine):
    """assume: {av_str(P): ('s'|'i'|'v', value)}; opts: {av_str(P): 'Some'|'None'|...};
    hook(call) -> set of values or None"""
    def __init__(self, facts, assume=None, opts=None, hook=None, adts=None, **kw):
        Engine.__init__(self, facts, **kw)
        self.adts = adts or {}      # {type name: variant every value of that type has}
        self.assume = assume or {}; self.opts = opts or {}; self.hook = hook
        self._live = {}; self._tmp = {}; self._prog = {}; self._vb = set(); self._force = set()

    def refreshed(self):
        """container contents are known now: decide the branches again"""
        self.memo.clear(); self._live.clear(); self._tmp.clear(); self._force.clear(); self.cut.clear()
        for x in ("_rd", "_eg"):
            if hasattr(self, x): getattr(self, x).clear()
    # ---- feasible blocks
    def live(self, ctx):
        if ctx in self._live: return self._live[ctx]
        if ctx in self._tmp: return self._tmp[ctx]
        if ctx in self._prog: return self._prog[ctx]
        cur = {0}; self._prog[ctx] = cur
        vb, self._vb = self._vb, set()
        try: return self._feasible_blocks(ctx, cur)
        finally: self._vb = vb
    def _feasible_blocks(self, ctx, cur):
        body = ctx.body
        sw = set(); todo = [0]; dirty = False
        while True:
            while todo:
                b = todo.pop()
                if body.term(b)[0] == "switch" or self.may_exit(ctx, b): sw.add(b); continue
                for s in self.feasible(ctx, b):
                    if s in body.reach and s not in cur: cur.add(s); todo.append(s); dirty = True
            if dirty and sw: self.memo.clear(); self._tmp.clear(); self.cut.clear()
            dirty = False
            for b in sorted(sw):
                for s in self.feasible(ctx, b):
                    if s in body.reach and s not in cur: cur.add(s); todo.append(s); dirty = True
            if not dirty:
                # a branch on a value without any known origin is not decided
                for b in sorted(sw):
                    if body.term(b)[0] == "switch" and (ctx, b) not in self._force and not self.feasible(ctx, b): self._force.add((ctx, b)); dirty = True; todo.append(b)
                if not dirty: break
        self.memo.clear(); self.cut.clear()
        del self._prog[ctx]
        # results computed while another function was only partly explored are provisional
        if self._prog: self._tmp[ctx] = cur
        else: self._live[ctx] = cur; self._tmp.clear()
        return cur
    def feasible(self, ctx, b):
        t = ctx.body.term(b)
        if t[0] == "call":
            if t[4] is None: return []
            if self.may_exit(ctx, b):
                # a helper that never returns under the assumptions
                inl = [c for c, kd in self.sub_contexts(ctx, b) if kd == "inline"]
                if inl and not any(c.body.term(x)[0] == "ret" for c in inl for x in self.live(c)): return []
            return [t[4]]
        if t[0] != "switch": return ctx.body.succ(b)
        vs = self.values(ctx, t[1])
        if vs is None or (ctx, b) in self._force: return ctx.body.succ(b)
        out = set(); listed = {int(v): x for v, x in t[2]}
        for v in vs:
            if v[0] == "i": out.add(listed.get(v[1], t[3]))
            else: return ctx.body.succ(b)
        return sorted(out)
    def may_exit(self, ctx, b):
        """the call runs a local function that can end the process itself"""
        t = ctx.body.term(b)
        if t[0] != "call" or t[4] is None: return False
        if not hasattr(self.F, "_exits"):
            self.F._exits = {x.id for x in self.F.bodies.values() if any(x.term(y)[1].get("k", {}).get("fn") == "std::process::exit" for y in x.calls)}
        if not self.F._exits: return False
        fn, k, tg = self.resolve(ctx, t[1])
        return any(x[0] == "local" and x[1].id in self.F._exits for x in tg)
    def defs_of(self, ctx, l):
        d = ctx.body.defs.get(l, ())
        if len(d) == 0: return d
        lv = self.live(ctx)
        ds = [x for x in d if x[0] in lv]
        if len(ds) > 1 and sum(1 for x in ds if not x[2]) > 1 and not ctx.body.is_closure: ds = self._reaching(ctx, l, ds, lv)
        return ds
    def _reaching(self, ctx, l, ds, lv):
        """drop definitions that another one overwrites before any use (on the feasible branches)"""
        if not hasattr(self, "_rd"): self._rd = {}
        if ctx in self._prog or ("rd", ctx, l) in self._vb: return ds
        key = (ctx, l); mark = (len(lv), len(ds))
        if key in self._rd and self._rd[key][0] == mark: return self._rd[key][1]
        self._vb.add(("rd", ctx, l))
        try: return self._reaching1(ctx, l, ds, lv, key, mark)
        finally: self._vb.discard(("rd", ctx, l))
    def _reaching1(self, ctx, l, ds, lv, key, mark):
        b = ctx.body
        us = b.uses_of(l)
        if any(u[2] for u in us): self._rd[key] = (mark, ds); return ds         # address taken: everything may be seen
        whole = {}
        for x in ds:
            if not x[2]: whole.setdefault(x[0], []).append(len(b.blocks[x[0]]["s"]) if x[1] is None else x[1])
        usein = {}
        for ub, ui, _ in us: usein.setdefault(ub, []).append(ui)
        out = []
        for x in ds:
            if x[2]: out.append(x); continue
            at = len(b.blocks[x[0]]["s"]) if x[1] is None else x[1]
            seen = set(); st = []
            def scan(bb, frm):
                """use before the next definition?"""
                u = [i for i in usein.get(bb, ()) if i > frm]; k = [i for i in whole.get(bb, ()) if i > frm]
                if u and (not k or min(u) <= min(k)): return True
                if not k:
                    for s in self.feasible_now(ctx, bb):
                        if s in lv and s not in seen: seen.add(s); st.append(s)
                return False
            hit = scan(x[0], at) if not (x[1] is None) else False
            if x[1] is None:
                for s in b.succ(x[0]):
                    if s in lv and s not in seen: seen.add(s); st.append(s)
            while st and not hit: hit = scan(st.pop(), -1)
            if hit or l == 0: out.append(x)
        if not out: out = ds
        self._rd[key] = (mark, out)
        return out
    def feasible_now(self, ctx, b):
        return self.feasible(ctx, b) if ctx.body.term(b)[0] == "switch" else ctx.body.succ(b)
    def callres(self, ctx, bb):
        t = ctx.body.term(bb)
        fn = t[1].get("k", {}).get("fn", "")
        if short(fn) in ("filter", "take_while") and is_std(fn) and ("fil", ctx, bb) not in self._vb:
            # a selection that lets nothing through
            self._vb.add(("fil", ctx, bb))
            try:
                cl = [c for c, kd in self.sub_contexts(ctx, bb) if kd == "closure"]
                if cl and all(self.lvals(c, 0) == {("i", 0)} for c in cl): return EMPTY
            finally: self._vb.discard(("fil", ctx, bb))
        if short(fn) in ("unwrap_or", "unwrap_or_else", "or", "or_else") and ("option::Option" in fn or "result::Result" in fn) and ("uor", ctx, bb) not in self._vb:
            # the fallback of a value known to be there is never taken
            self._vb.add(("uor", ctx, bb))
            try: st = self.optstate(ctx, t[2][0])
            finally: self._vb.discard(("uor", ctx, bb))
            if st in ({"Some"}, {"Ok"}): return self.operand(ctx, t[2][0])
        return Engine.callres(self, ctx, bb)
    ON_SOME = {"map", "map_or", "and_then", "is_some_and", "is_ok_and", "filter", "inspect", "is_none_or"}
    ON_NONE = {"unwrap_or_else", "or_else", "ok_or_else", "map_err", "is_err_and"}
    def sub_contexts(self, ctx, bb):
        out = Engine.sub_contexts(self, ctx, bb)
        if not out or all(k != "closure" for _, k in out): return out
        t = ctx.body.term(bb)
        fn = t[1].get("k", {}).get("fn", "")
        nm = short(fn)
        if nm in ("then", "then_some") and "bool" in fn:
            key = ("subopt", ctx, bb)
            if key in self._vb: return out
            self._vb.add(key)
            try: v = self.values(ctx, t[2][0])
            finally: self._vb.discard(key)
            return [x for x in out if x[1] != "closure"] if v == {("i", 0)} else out
        if "option::Option" not in fn and "result::Result" not in fn: return out
        if nm not in self.ON_SOME and nm not in self.ON_NONE: return out
        key = ("subopt", ctx, bb)
        if key in self._vb: return out
        self._vb.add(key)
        try: st = self.optstate(ctx, t[2][0])
        finally: self._vb.discard(key)
        if not st: return out
        yes = any(x in ("Some", "Ok") for x in st); no = any(x in ("None", "Err") for x in st)
        if (nm in self.ON_SOME and not yes) or (nm in self.ON_NONE and not no): return [x for x in out if x[1] != "closure"]
        return out
    def blocks_of(self, ctx):
        lv = self.live(ctx)
        return [b for b in ctx.body.calls if b in lv]

    def edge_guards(self, ctx, b):
        """as Body.edge_guards, on the branches that remain feasible"""
        lv = self.live(ctx); key = (ctx, b)
        if not hasattr(self, "_eg"): self._eg = {}
        if key in self._eg and self._eg[key][0] == len(lv): return self._eg[key][1]
        out = []
        sw = [a for a in lv if ctx.body.term(a)[0] == "switch"]
        ok = {a: [x for x in self.feasible(ctx, a) if x in ctx.body.reach] for a in sw}
        def reach(a, s):
            seen = {0}; st = [0]
            while st:
                x = st.pop()
                if x == b: return True
                for y in ([s] if x == a else ok.get(x) or ctx.body.succ(x)):
                    if y not in seen: seen.add(y); st.append(y)
            return False
        for a in sw:
            if a == b: continue
            ss = set(ok[a])
            if len(ss) < 2: continue
            keep = {s for s in ss if reach(a, s)}
            if keep and keep != ss: out.append((a, keep))
        self._eg[key] = (len(lv), out)
        return out

    # ---- constant values
    def values(self, ctx, op):
        """set of ('s',str)|('i',int)|('v',variant) or None for unknown"""
        if "k" in op: return self.avvals(self.konst(ctx, op["k"]))
        pl = op.get("c") or op.get("m")
        if len(pl) > 1:
            if len(pl) == 2 and isinstance(pl[1], list) and pl[1][0] == "f" and pl[1][1] == 0 and pl[1][3] == "()":
                ds = [d for d in self.defs_of(ctx, pl[0]) if not d[2]]
                if len(ds) == 1 and ds[0][3][0] == "bin" and ds[0][3][1].endswith("WithOverflow"): return self.rvals(ctx, ds[0][0], ds[0][1], ds[0][3])
            return self.avvals(self.place(ctx, pl))
        return self.lvals(ctx, pl[0])
    def lvals(self, ctx, l):
        key = (ctx, l)
        if key in self._vb: return None
        self._vb.add(key)
        try:
            out = set()
            ds = [d for d in self.defs_of(ctx, l) if not d[2]]
            if 1 <= l <= ctx.body.argc:
                v = self.avvals(ctx.binds[l - 1] if l - 1 < len(ctx.binds) else EMPTY)
                if v is None: return None
                out |= v
            for (bb, idx, proj, rv) in ds:
                v = self.rvals(ctx, bb, idx, rv)
                if v is None: return None
                out |= v
            return out
        finally: self._vb.discard(key)
    def avvals(self, avs):
        out = set()
        for a in self.expand(avs):
            if marks(a):
                if strip(a)[0] != "P" or av_str(a) not in self.assume: return None
                out.add(self.assume[av_str(a)]); continue
            if a[0] == "K":
                if a[1] == "str": out.add(("s", a[2]))
                elif a[1] == "int": out.add(("i", a[2]))
                elif a[1] == "none": out.add(("v", a[2].split("::")[-1]))
                elif a[1] == "index" and "index" in self.assume: out.add(self.assume["index"])
                else: return None
            elif a[0] == "A":
                g = self.agg(a)
                if g[0] == "adt": out.add(("v", g[2]))
                else: return None
            elif a[0] == "P":
                s = av_str(a)
                if s in self.assume: out.add(self.assume[s])
                else: return None
            elif a[0] == "B":
                if a in self._vb: continue      # a value computed from itself (x |= y): least fixpoint
                self._vb.add(a)
                try: v = self.rvals(a[1], a[2], a[3], a[1].body.blocks[a[2]]["s"][a[3]][2])
                finally: self._vb.discard(a)
                if v is None: return None
                out |= v
            elif a[0] == "R":
                v = self.callvals(a[1], a[2])
                if v is None: return None
                out |= v
            else: return None
        return out
    def rvals(self, ctx, bb, idx, rv):
        k = rv[0]
        if k == "use": return self.values(ctx, rv[1])
        if k == "cast": return self.values(ctx, rv[1])
        if k == "ref":
            pl = [e for e in rv[1]]
            return self.lvals(ctx, pl[0]) if len(pl) == 1 else self.avvals(self.place(ctx, pl))
        if k == "callres": return self.callvals(ctx, bb)
        if k == "discr":
            vs = self.variants(ctx, rv[1], rv[2])
            if vs is None: return None
            m = {n: int(v) for n, v in rv[3]}
            if not all(v in m for v in vs): return None
            return {("i", m[v]) for v in vs}
        if k == "un":
            v = self.values(ctx, rv[2])
            if v is None or rv[1] != "Not": return None
            if all(x in (("i", 0), ("i", 1)) for x in v): return {("i", 1 - x[1]) for x in v}
            return None
        if k == "bin":
            a, b = self.values(ctx, rv[2]), self.values(ctx, rv[3])
            o = rv[1]
            if o == "BitAnd" and (a == {("i", 0)} or b == {("i", 0)}): return {("i", 0)}
            if o == "BitOr" and (a == {("i", 1)} or b == {("i", 1)}): return {("i", 1)}
            if a is None or b is None: return None
            f = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y,
                 "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y, "BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y,
                 "BitXor": lambda x, y: x ^ y, "Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y}.get(o.replace("WithOverflow", "").replace("Unchecked", ""))
            if f is None or len(a) * len(b) > 64: return None
            r = set()
            for x in a:
                for y in b:
                    if x[0] != "i" or y[0] != "i": return None
                    r.add(("i", int(f(x[1], y[1]))))
            return r
        if k == "adt" and is_std(rv[1]) and rv[4]:
            return self.values(ctx, rv[4][0]) if len(rv[4]) == 1 else None
        return self.avvals(self.rvalue(ctx, bb, idx, rv))
    def callvals(self, ctx, bb):
        t = ctx.body.term(bb)
        fn, k, tg = self.resolve(ctx, t[1])
        if self.hook:
            v = self.hook(self, Call(self, ctx, bb, fn, k, tg))
            if v is not None: return v
        if short(fn) in ("eq", "ne") and len(t[2]) == 2 and (k or {}).get("self") and not is_std(k["self"].lstrip("&")) and k["self"].lstrip("&") in self.F.adts:
            # comparison of enumerations without fields
            ad = k["self"].lstrip("&"); a = [self.variants(ctx, x.get("m") or x.get("c"), ad) if "k" not in x else self._avvar(self.konst(ctx, x["k"]), ad) for x in t[2]]
            if None not in a and all(not f for v, f in self.F.adts[ad]["variants"] if v in a[0] | a[1]):
                return {("i", int((x == y) == (short(fn) == "eq"))) for x in a[0] for y in a[1]}
        inl = [c for c, kd in self.sub_contexts(ctx, bb) if kd == "inline"]
        if inl:
            out = set()
            for c in inl:
                v = self.lvals(c, 0)
                if v is None: return None
                out |= v
            return out
        if any(x[0] == "local" for x in tg): return None
        nm = short(fn)
        if nm == "not" and len(t[2]) == 1 and "ops::Not" in fn and (k or {}).get("self", "").lstrip("&") == "bool":
            a = self.avvals(self.operand(ctx, t[2][0]))
            return None if a is None or not all(x[0] == "i" for x in a) else {("i", int(not x[1])) for x in a}
        if nm in ("eq", "ne") and len(t[2]) == 2:
            a, b = self.avvals(self.operand(ctx, t[2][0])), self.avvals(self.operand(ctx, t[2][1]))
            if a is None or b is None: return None
            r = set()
            for x in a:
                for y in b: r.add(("i", int((x == y) == (nm == "eq"))))
            return r
        if nm in ("any", "all", "is_some_and", "is_ok_and", "is_none_or", "contains") and is_std(fn):
            cl = [c for c, kd in self.sub_contexts(ctx, bb) if kd == "closure"]
            vs = set()
            for c in cl:
                v = self.lvals(c, 0)
                if v is None: return None
                vs |= v
            if nm in ("is_some_and", "is_ok_and", "is_none_or"):
                st = self.optstate(ctx, t[2][0])
                none = nm == "is_none_or"
                if st is None: return vs | {("i", int(none))} if cl else None
                return (vs if any(x in ("Some", "Ok") for x in st) else set()) | ({("i", int(none))} if any(x in ("None", "Err") for x in st) else set())
            if cl: return vs | {("i", int(nm == "all"))}
            return None
        if nm in ("map_or", "map_or_else") and is_std(fn) and len(t[2]) == 3:
            v = self.optstate(ctx, t[2][0]); w = set()
            cl = [c for c, kd in self.sub_contexts(ctx, bb) if kd == "closure"]
            if nm == "map_or" and (v is None or v & {"None", "Err"}):
                x = self.values(ctx, t[2][1])
                if x is None: return None
                w |= x
            if nm == "map_or_else" or v is None or v & {"Some", "Ok"}:
                if not cl: return None
                for c in cl:
                    x = self.lvals(c, 0)
                    if x is None: return None
                    w |= x
            return w
        if nm in ("is_some", "is_none", "is_ok", "is_err") and is_std(fn):
            v = self.optstate(ctx, t[2][0])
            if v is None: return None
            yes = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[nm]
            return {("i", int(x == yes)) for x in v}
        if nm == "is_empty":
            a = self.avvals(self.operand(ctx, t[2][0]))
            if a is None or not all(x[0] == "s" for x in a): return None
            return {("i", int(x[1] == "")) for x in a}
        r = self.callres(ctx, bb)
        if r == frozenset([("R", ctx, bb)]): return None
        return self.avvals(r)

    # ---- discriminants
    def variants(self, ctx, pl, adt):
        if is_std(adt):
            o = self.optstate(ctx, {"c": pl})
            ok = {"Option": {"Some", "None"}, "Result": {"Ok", "Err"}, "ControlFlow": {"Continue", "Break"}}.get(short(strip_generics(adt)))
            # nested wrappers share one origin: keep the states of this one
            return o if o is None or ok is None or o <= ok else (o & ok) or None
        return self._avvar(self.place(ctx, pl), adt)
    def _avvar(self, avs, adt):
        fix = self.adts.get(short(strip_generics(adt)))
        known = self._variants(avs)
        # the fixed variant stands for what the analysis cannot see
        return known if fix is None or known else {fix} if isinstance(fix, str) else set(fix)
    def _variants(self, avs):
        out = set()
        for a in self.expand(avs):
            if marks(a) : return None
            if a[0] == "A":
                g = self.agg(a)
                if g[0] != "adt" : return None
                out.add(g[2])
            elif a[0] == "K" and a[1] == "none": out.add(a[2].split("::")[-1])
            elif a[0] == "P" and av_str(a) in self.assume and self.assume[av_str(a)][0] == "v": out.add(self.assume[av_str(a)][1])
            elif a[0] == "R":
                v = self.callvals(a[1], a[2])
                if v is None: return None
                for x in v:
                    if x[0] != "v": return None
                    out.add(x[1])
            else: return None
        return out
    def optstate(self, ctx, op, depth=0):
        """possible variants of a std Option/Result-like operand, or None"""
        if depth > 12: return None
        if "k" in op:
            avs = self.konst(ctx, op["k"])
            return self._opt_avs(avs)
        pl = op.get("c") or op.get("m")
        rest = [e for e in pl[1:] if e != "*"]
        if rest:
            v = self._opt_avs(self.place(ctx, pl))
            return v if v is not None else self._opt_field(ctx, pl, depth)
        l = pl[0]
        key = ("opt", ctx, l)
        if key in self._vb: return set()
        self._vb.add(key)
        try:
            out = set()
            if 1 <= l <= ctx.body.argc:
                # by-value / by-reference argument: follow the caller's operand
                v = self._opt_arg(ctx, l, depth)
                if v is None: return None
                out |= v
            for (bb, idx, proj, rv) in self.defs_of(ctx, l):
                if proj: continue
                if rv[0] == "adt" and is_std(rv[1]): out.add(rv[2]); continue
                if rv[0] in ("use", "cast"): v = self.optstate(ctx, rv[1], depth + 1)
                elif rv[0] == "ref": v = self.optstate(ctx, {"c": rv[1]}, depth + 1)
                elif rv[0] == "callres": v = self._opt_call(ctx, bb, depth + 1)
                else: v = None
                if v is None: return None
                out |= v
            return out
        finally: self._vb.discard(key)
    def _opt_field(self, ctx, pl, depth):
        """a field of values whose construction is known: the state of the operand stored there"""
        i = max(j for j, x in enumerate(pl) if j and x != "*")
        if not (isinstance(pl[i], list) and pl[i][0] == "f") or any(isinstance(x, list) and x[0] == "f" and len(x) > 4 and x[3] != "()" and not is_std(x[3]) for x in pl[1:i]): return None
        base = self.expand(self.place(ctx, pl[:i])); out = set()
        if not base or any(d[2] for d in ctx.body.defs.get(pl[0], ())): return None
        for a in base:
            if a[0] != "A" or ("optF", a, pl[i][1]) in self._vb: return None
            g = self.agg(a); into = a[1].body.blocks[a[2]]["s"][a[3]][1]
            if len(into) > 1 or any(d[2] for d in a[1].body.defs.get(into[0], ())): return None        # changed after construction
            if g[0] not in ("adt", "tup") or (g[0] == "adt" and is_std(g[1])) or pl[i][1] >= len(g[4]): return None
            if g[0] == "adt" and pl[i][2] not in g[3]: return None
            op = g[4][pl[i][1] if g[0] == "tup" else g[3].index(pl[i][2])]
            self._vb.add(("optF", a, pl[i][1]))
            try: v = self.optstate(a[1], op, depth + 1)
            finally: self._vb.discard(("optF", a, pl[i][1]))
            if v is None: return None
            out |= v
        return out
    def _opt_arg(self, ctx, l, depth):
        if ctx.parent is None or ctx.clo is not None or ctx.via is not None:
            return self._opt_avs(ctx.binds[l - 1] if l - 1 < len(ctx.binds) else EMPTY)
        t = ctx.parent.body.term(ctx.bb) if ctx.bb is not None else None
        if t and t[0] == "call" and l - 1 < len(t[2]) and len(t[2]) == ctx.body.argc:
            return self.optstate(ctx.parent, t[2][l - 1], depth + 1)
        return self._opt_avs(ctx.binds[l - 1])
    def _opt_avs(self, avs):
        out = set()
        for a in self.expand(avs):
            if a[0] == "K" and a[1] == "none": out.add(a[2].split("::")[-1])
            elif a[0] == "P" and av_str(a) in self.opts: out.add(self.opts[av_str(a)])
            elif a[0] == "P" and a[2] and "*/" + a[2][-1] in self.opts: out.add(self.opts["*/" + a[2][-1]])
            elif a[0] == "R" and ("optR", a) not in self._vb:
                self._vb.add(("optR", a))
                try: v = self._opt_call(a[1], a[2], 6)
                finally: self._vb.discard(("optR", a))
                if v is None: return None
                out |= v
            elif a[0] == "A" and self.agg(a)[0] == "adt" and is_std(self.agg(a)[1]) and self.agg(a)[2] in ("Some", "None", "Ok", "Err"): out.add(self.agg(a)[2])
            else: return None
        return out
    def _selectors(self, ctx, op, depth=0):
        """closures of filter/filter_map adaptors an iterator operand was built with"""
        pl = op.get("c") or op.get("m")
        if not pl or depth > 6: return []
        out = []
        for (bb, idx, proj, rv) in self.defs_of(ctx, pl[0]):
            if proj: continue
            if rv[0] in ("use", "cast"): out += self._selectors(ctx, rv[1], depth + 1)
            elif rv[0] == "ref": out += self._selectors(ctx, {"c": rv[1]}, depth + 1)
            elif rv[0] == "callres":
                t = ctx.body.term(bb); fn = t[1].get("k", {}).get("fn", ""); nm = short(fn)
                if not is_std(fn): continue
                if nm in ("filter_map", "filter"): out += [c for c, kd in self.sub_contexts(ctx, bb) if kd == "closure"]
                if nm in ("filter_map", "filter", "map", "into_iter", "rev", "peekable", "enumerate", "inspect", "by_ref", "skip_while") and t[2]: out += self._selectors(ctx, t[2][0], depth + 1)
        return out
    def _opt_call(self, ctx, bb, depth):
        t = ctx.body.term(bb)
        fn, k, tg = self.resolve(ctx, t[1])
        if self.hook:
            v = self.hook(self, Call(self, ctx, bb, fn, k, tg))
            if v is not None:
                o = {x[1] for x in v if x[0] == "v" and x[1] in ("Some", "None", "Ok", "Err", "Continue", "Break", "Borrowed", "Owned", "Less", "Equal", "Greater")}
                return o or None
        inl = [c for c, kd in self.sub_contexts(ctx, bb) if kd == "inline"]
        if inl:
            out = set()
            for c in inl:
                v = self.optstate(c, {"c": [0]}, depth)
                if v is None: return None
                out |= v
            return out
        nm = short(fn)
        if nm in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "clone", "map", "take", "borrow", "deref", "map_err", "inspect") and t[2]:
            return self.optstate(ctx, t[2][0], depth)
        if nm == "branch" and t[2]:
            v = self.optstate(ctx, t[2][0], depth)
            return None if v is None else {"Continue" if x in ("Some", "Ok") else "Break" for x in v}
        if nm in ("from_residual",): return {"None", "Err"}
        if nm in ("or_else", "or", "and_then", "and") and t[2]:
            v = self.optstate(ctx, t[2][0], depth)
            keep = ("Some", "Ok") if nm in ("or_else", "or") else ("None", "Err")
            if v is not None and all(x in keep for x in v): return v
            w = set()
            if nm in ("or", "and"): w = self.optstate(ctx, t[2][1], depth)
            else:
                cl = [c for c, kd in self.sub_contexts(ctx, bb) if kd == "closure"]
                if not cl: return None
                for c in cl:
                    x = self.optstate(c, {"c": [0]}, depth)
                    if x is None: w = None; break
                    w |= x
            if v is None:
                if w is None or nm not in ("or_else", "or"): return None
                return None
            if w is None: return None
            return {x for x in v if x in keep} | w
        if nm == "filter" and "option::Option" in fn and t[2]:
            v = self.optstate(ctx, t[2][0], depth)
            if v is not None and v <= {"None"}: return v
            cl = [c for c, kd in self.sub_contexts(ctx, bb) if kd == "closure"]
            if not cl: return None
            w = set()
            for c in cl:
                x = self.lvals(c, 0)
                if x is None: return None
                w |= x
            if w == {("i", 0)}: return {"None"}
            return None if v is None else v if w == {("i", 1)} else v | {"None"}
        if nm in ("map_or", "map_or_else") and len(t[2]) == 3:
            v = self.optstate(ctx, t[2][0], depth); w = set()
            cl = [c for c, kd in self.sub_contexts(ctx, bb) if kd == "closure"]
            if nm == "map_or" and (v is None or v & {"None", "Err"}):
                x = self.optstate(ctx, t[2][1], depth)
                if x is None: return None
                w |= x
            if nm == "map_or_else" or v is None or v & {"Some", "Ok"}:
                if not cl: return None
                for c in cl:
                    x = self.optstate(c, {"c": [0]}, depth)
                    if x is None: return None
                    w |= x
            return w
        if nm == "transpose" and t[2]:
            # Option<Result>: none is fine, otherwise what the mapping closure returns
            pl = t[2][0].get("m") or t[2][0].get("c")
            ds = [d for d in self.defs_of(ctx, pl[0]) if not d[2]] if pl and len(pl) == 1 else []
            if len(ds) == 1 and ds[0][3][0] == "callres" and short(ctx.body.term(ds[0][0])[1].get("k", {}).get("fn", "")) == "map" and "option::Option" in fn:
                v = self.optstate(ctx, t[2][0], depth); w = set() if v is not None and "None" not in v else {"Ok"}
                if v is not None and "Some" not in v: return w
                cl = [c for c, kd in self.sub_contexts(ctx, ds[0][0]) if kd == "closure"]
                if not cl: return None
                for c in cl:
                    x = self.optstate(c, {"c": [0]}, depth)
                    if x is None: return None
                    w |= x
                return w
            return None
        if nm in ("then", "then_some") and "bool" in fn:
            v = self.values(ctx, t[2][0])
            if v is None: return None
            return {"Some" if x == ("i", 1) else "None" for x in v}
        if nm in ("next", "find_map", "next_back", "last") and is_std(fn) and t[2]:
            # only what a selecting closure lets through
            cl = [c for c, kd in self.sub_contexts(ctx, bb) if kd == "closure"] if nm == "find_map" else self._selectors(ctx, t[2][0])
            for c in cl:
                v = self.optstate(c, {"c": [0]}, depth) if c.body.locals[0] != "bool" else None
                if c.body.locals[0] == "bool" and self.lvals(c, 0) == {("i", 0)}: return {"None"}
                if v == {"None"}: return {"None"}
            return None
        return None
