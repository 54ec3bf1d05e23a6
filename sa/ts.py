"""Path-sensitive typestate (property simulation): protocol states are kept apart, branch facts are
correlated by canonical expressions of what a branch tests, states that agree on the protocol are merged."""
from .mir import short, strip_generics
from .flow import strip, marks, av_str, is_std

BOOLTEST = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}
PURE_STD = {"is_empty", "len", "contains", "contains_key", "starts_with", "ends_with", "is_alphanumeric"}
PASS = {"as_ref", "as_mut", "as_deref", "as_deref_mut", "clone", "cloned", "copied", "borrow", "deref", "into", "from", "to_owned"}

class Sym:
    """canonical expressions of MIR values in engine contexts"""
    def __init__(self, eng, F):
        self.e = eng; self.F = F; self.paths_memo = {}; self.cmemo = {}
    # ---- canonical abstract values
    def canon(self, avs, depth=0):
        out = set()
        for a in self.e.expand(avs): out.add(self.canon1(a, depth))
        return frozenset(out)
    def canon1(self, a, depth=0):
        k = a[0]
        if k == "M": return ("M", a[1], self.canon1(a[2], depth))
        if k == "P":
            ix = [i for i, l in enumerate(a[2]) if l.startswith("Config.")]
            if ix: return ("CFG", a[2][ix[-1]:])
            r = a[1]
            if r[0] == "R": r = self.canon1(r, depth + 1)
            return ("P", r, a[2])
        if k == "R" and depth < 6:
            t = a[1].body.term(a[2])
            fn, kk, tg = self.e.resolve(a[1], t[1])
            if self.pure(fn, tg):
                return ("F", fn, tuple(self.canon(self.e.operand(a[1], x), depth + 1) for x in t[2]))
        if k == "T": return ("T", tuple(self.canon(x, depth + 1) for x in a[1]))
        return a
    def pure(self, fn, tg):
        for t in tg:
            if t[0] == "local":
                b = t[1]
                return not any(l.startswith("&mut") or "&mut " in l for l in b.locals[1:b.argc + 1])
            return False
        if fn.startswith("bindgen::") or "bindgen::" in fn:
            b = self.F.bodies.get(fn)
            if b is not None: return not any("&mut " in l for l in b.locals[1:b.argc + 1])
            return short(fn) in ("to_condition",)
        return is_std(fn) and short(fn) in PURE_STD
    # ---- value expressions
    def val(self, ctx, op, depth=0):
        if "k" in op:
            k = op["k"]
            if "int" in k: return ("c", int(k["int"]))
            vs = self.e.expand(self.e.konst(ctx, k))
            if len(vs) == 1:
                a = next(iter(vs))
                if a[0] == "K" and a[1] == "int": return ("c", a[2])
                if a[0] == "K" and a[1] == "none": return ("var", a[2].split("::")[-1])
                if a[0] == "A" and self.e.agg(a)[0] == "adt": return ("var", self.e.agg(a)[2])
            return ("k", self.canon(vs))
        return self.place(ctx, op.get("c") or op.get("m"), depth)
    def place(self, ctx, pl, depth=0):
        rest = [x for x in pl[1:] if x != "*"]
        if rest: return ("k", self.canon(self.e.place(ctx, pl)))
        return self.loc(ctx, pl[0], depth)
    def loc(self, ctx, l, depth=0):
        if depth > 25: return ("k", self.canon(self.e.local(ctx, l)))
        ds = [d for d in self.e.defs_of(ctx, l) if not d[2]]
        if 1 <= l <= ctx.body.argc and not ds:
            if ctx.parent is not None and ctx.clo is None and ctx.via is None and ctx.bb is not None:
                t = ctx.parent.body.term(ctx.bb)
                if t[0] == "call" and len(t[2]) == ctx.body.argc: return self.val(ctx.parent, t[2][l - 1], depth + 1)
            return ("k", self.canon(self.e.local(ctx, l)))
        if len(ds) != 1: return ("l", ctx, l)
        bb, idx, _, rv = ds[0]
        return self.rv(ctx, bb, idx, rv, depth)
    def rv(self, ctx, bb, idx, rv, depth=0):
        k = rv[0]
        if k == "use" or k == "cast": return self.val(ctx, rv[1], depth + 1)
        if k == "ref": return self.place(ctx, rv[1], depth + 1)
        if k == "callres": return self.call(ctx, bb, depth)
        if k == "un" and rv[1] == "Not": return ("not", self.val(ctx, rv[2], depth + 1))
        if k == "discr": return ("d", self.place(ctx, rv[1], depth + 1))
        if k == "adt": return ("var", rv[2])
        if k == "bin": return ("cmp", rv[1], self.val(ctx, rv[2], depth + 1), self.val(ctx, rv[3], depth + 1))
        return ("k", self.canon(self.e.rvalue(ctx, bb, idx, rv)))
    def call(self, ctx, bb, depth=0):
        t = ctx.body.term(bb); fn, k, tg = self.e.resolve(ctx, t[1]); nm = short(fn) if fn else ""
        if nm in BOOLTEST and is_std(fn): return ("isvar", self.val(ctx, t[2][0], depth + 1), BOOLTEST[nm], ("Some", "None") if nm in ("is_some", "is_none") else ("Ok", "Err"))
        if nm in ("eq", "ne") and len(t[2]) == 2 and not any(x[0] == "local" for x in tg):
            a, b = self.val(ctx, t[2][0], depth + 1), self.val(ctx, t[2][1], depth + 1)
            for x, y, o in ((a, b, 1), (b, a, 0)):
                if x[0] == "var" and y[0] != "var":
                    allv = self.variants(ctx, t, x[1])
                    r = ("isvar", y, x[1], allv)
                    return r if nm == "eq" else ("not", r)
            r = ("cmp", "Eq") + tuple(sorted((a, b), key=repr))
            return r if nm == "eq" else ("not", r)
        if nm in PASS and is_std(fn) and t[2] and not any(x[0] == "local" for x in tg): return self.val(ctx, t[2][0], depth + 1)
        inl = [c for c, kd in self.e.sub_contexts(ctx, bb) if kd == "inline"]
        if len(inl) == 1:
            if self.paths(inl[0]) is not None: return ("fn", inl[0])
            r = self.loc(inl[0], 0, depth + 1)
            if r[0] == "l" and self.pure(fn, tg): return ("F", fn, tuple(self.canon(self.e.operand(ctx, x)) for x in t[2]))
            return r
        if self.pure(fn, tg): return ("F", fn, tuple(self.canon(self.e.operand(ctx, x)) for x in t[2]))
        return ("r", ctx, bb)
    def variants(self, ctx, t, name):
        for a in self.F.adts.values():
            vs = [v for v, _ in a["variants"]]
            if name in vs and short(a["id"]) in (t[1].get("k", {}).get("self") or "") : return tuple(vs)
        c = [a for a in self.F.adts.values() if name in [v for v, _ in a["variants"]]]
        st = t[1].get("k", {}).get("self") or ""
        c2 = [a for a in c if strip_generics(st).lstrip("& ").endswith(short(a["id"]))]
        return tuple(v for v, _ in c2[0]["variants"]) if len(c2) == 1 else None
    # ---- small pure functions as decision trees
    def paths(self, c, limit=48):
        """[(conditions [(expr, values)], result expr)] or None"""
        if c in self.paths_memo: return self.paths_memo[c]
        self.paths_memo[c] = None
        b = c.body
        if b.locals[0] != "bool" and self.pure(b.id, [("local", b, {})]): return None     # one value, tested by variant
        if any("&mut " in l for l in b.locals[1:b.argc + 1]) or any(b.in_cycle(x) for x in b.reach) or len(b.reach) > 60: return None
        out = []
        def rec(bb, conds, last):
            if len(out) > limit: return False
            for i, s in enumerate(b.blocks[bb]["s"]):
                if s[0] == "=" and len(s[1]) == 1: last = dict(last); last[s[1][0]] = (bb, i, s[2])
            t = b.term(bb)
            if t[0] == "call": last = dict(last); last[t[3][0]] = (bb, None, ["callres"])
            if t[0] == "ret":
                out.append((conds, self.pval(c, 0, last))); return True
            if t[0] == "switch":
                for s, e, vals in self.branches(c, bb, last):
                    if not rec(s, conds + [(e, vals)], last): return False
                return True
            for s in b.succ(bb):
                if not rec(s, conds, last): return False
            return True
        r = out if rec(0, [], {}) and out else None
        if r is not None and sum(self.weight(conds, ret) for conds, ret in r) > limit: r = None
        self.paths_memo[c] = r
        return r
    def weight(self, conds, ret):
        """number of paths once nested decision trees are unfolded"""
        n = 1
        for e in [ce for ce, cv in conds] + [ret]:
            while e[0] in ("not", "d", "isvar"): e = e[1]
            if e[0] == "fn": n *= sum(self.weight(c, r) for c, r in self.paths_memo.get(e[1]) or [((), ("c", 0))])
            if n > 1000: break
        return n
    def pval(self, ctx, l, last, depth=0):
        """value of a local along one path"""
        ds = [d for d in self.e.defs_of(ctx, l) if not d[2]]
        if len(ds) > 1 and l in last and depth < 10:
            bb, i, rv = last[l]
            if rv[0] in ("use", "cast"):
                op = rv[1]; pl = op.get("c") or op.get("m")
                if pl and len(pl) == 1: return self.pval(ctx, pl[0], last, depth + 1)
            return self.rv(ctx, bb, i, rv)
        return self.loc(ctx, l)
    def branches(self, ctx, bb, last=None):
        """[(successor, expr, frozenset(values) or ('not', values))]"""
        t = ctx.body.term(bb)
        op, arms, other, ty = t[1], t[2], t[3], t[4]
        pl = op.get("c") or op.get("m")
        names = None; e = None
        if pl and len(pl) == 1:
            ds = self.e.defs_of(ctx, pl[0])
            if len(ds) == 1 and ds[0][3][0] == "discr":
                rv = ds[0][3]; names = {int(v): n for n, v in rv[3]}
                src = rv[1]
                if last is not None and len([x for x in src[1:] if x != "*"]) == 0: e = ("d", self.pval(ctx, src[0], last))
                else: e = ("d", self.place(ctx, src))
            elif last is not None: e = self.pval(ctx, pl[0], last)
        if e is None: e = self.val(ctx, op)
        out = []; listed = set()
        succs = {}
        for v, s in arms:
            v = int(v); listed.add(v)
            succs.setdefault(s, set()).add(names.get(v, v) if names else v)
        for s, vs in succs.items():
            if s in ctx.body.reach: out.append((s, e, frozenset(vs)))
        if other in ctx.body.reach:
            if names: vs = frozenset(n for v, n in names.items() if v not in listed)
            elif ty == "bool": vs = frozenset({0, 1} - listed)
            else: vs = ("not", frozenset(listed))
            if vs:
                if other in succs and not (isinstance(vs, tuple)):
                    out = [x for x in out if x[0] != other]; vs = vs | frozenset(succs[other])
                out.append((other, e, vs))
        return out

    # ---- assumptions
    def assume(self, facts, e, vals, depth=0):
        """facts: dict; returns list of refined dicts (empty: contradiction)"""
        if depth > 12: return [facts]
        k = e[0]
        neg = isinstance(vals, tuple)
        def hold(x): return (x not in vals[1]) if neg else (x in vals)
        if k == "c": return [facts] if hold(e[1]) else []
        if k == "not":
            if neg: return [facts]
            return self.assume(facts, e[1], frozenset(1 - v for v in vals if v in (0, 1)), depth + 1)
        if k == "isvar":
            if neg or vals == frozenset({0, 1}): return [facts]
            if vals == frozenset({1}): return self.assume(facts, ("d", e[1]), frozenset({e[2]}), depth + 1)
            if e[3] is None: return [facts]
            return self.assume(facts, ("d", e[1]), frozenset(x for x in e[3] if x != e[2]), depth + 1)
        if k == "d" and e[1][0] == "var": return [facts] if hold(e[1][1]) else []
        base = e[1] if k == "d" else e
        if base[0] == "l" and ("alias", base) in facts:
            a = facts[("alias", base)]
            return self.assume(facts, ("d", a) if k == "d" else a, vals, depth + 1)
        if base[0] == "fn":
            ck = ("d", ("fnk", self.fnkey(base[1]))) if k == "d" else ("fnk", self.fnkey(base[1]))
            if ck in facts and not neg:
                if not (facts[ck] & vals): return []
                if facts[ck] <= vals: return [facts]
            if not neg:
                facts = dict(facts); facts[ck] = facts[ck] & vals if ck in facts else vals
            out = []
            for conds, ret in self.paths(base[1]):
                fs = [facts]
                for ce, cv in conds:
                    nf = []
                    for f in fs: nf += self.assume(f, ce, cv, depth + 1)
                    fs = nf
                    if not fs: break
                for f in fs: out += self.assume(f, ("d", ret) if k == "d" else ret, vals, depth + 1)
            return dedup(out)
        old = facts.get(e)
        if neg:
            if old is None or isinstance(old, tuple):
                new = ("not", vals[1] | (old[1] if old else frozenset()))
            else: new = old - vals[1]
        else:
            if old is None: new = vals
            elif isinstance(old, tuple): new = vals - old[1]
            else: new = old & vals
        if not isinstance(new, tuple) and not new: return []
        f = dict(facts); f[e] = new
        return [f]

    def fnkey(self, c):
        return (c.body.id, tuple(self.canon(x) for x in c.binds))
    def keys(self, e, depth=0):
        """fact keys an assumption on e may consult"""
        if depth > 12: return set()
        k = e[0]
        if k in ("c", "var"): return set()
        if k == "not": return self.keys(e[1], depth + 1)
        if k == "isvar": return self.keys(("d", e[1]), depth + 1)
        base = e[1] if k == "d" else e
        w = (lambda x: ("d", x)) if k == "d" else (lambda x: x)
        if base[0] == "var": return set()
        if base[0] == "not": return self.keys(base, depth + 1)
        if base[0] == "l":
            out = {w(base), ("alias", base)}
            for (bb, idx, proj, rv) in self.e.defs_of(base[1], base[2]):
                if proj: continue
                x = self.rv(base[1], bb, idx, rv)
                if x != base: out |= self.keys(w(x), depth + 1)
            return out
        if base[0] == "fn":
            out = {w(("fnk", self.fnkey(base[1])))}
            for conds, ret in self.paths(base[1]):
                for ce, cv in conds: out |= self.keys(ce, depth + 1)
                out |= self.keys(w(ret), depth + 1)
            return out
        return {e}

def dedup(fs):
    seen = set(); out = []
    for f in fs:
        k = fkey(f)
        if k not in seen: seen.add(k); out.append(f)
    return out
def fkey(f): return frozenset(f.items())

def mentions(x, pred, depth=0):
    if isinstance(x, (tuple, frozenset)):
        if isinstance(x, tuple) and x and pred(x): return True
        if depth > 14: return False
        for y in x:
            if mentions(y, pred, depth + 1): return True
    return False

class TS:
    """events(ctx, bb) -> None (ignore) | callable(state) -> [(state, note)]   (note: None or error text)
    inline(ctx, bb) -> list of contexts to simulate in place"""
    CAP = 10
    def __init__(self, eng, F, events, inline=lambda ctx, bb: (), limit=lambda st: False):
        self.eng = eng; self.F = F; self.sym = Sym(eng, F)
        self.events = events; self.inline = inline; self.limit = limit
        self.errors = []; self.at = {}; self.rel = {}; self.lv = {}; self.allk = {}; self.nested = set()
    def relevant(self, ctx):
        if ctx in self.rel: return self.rel[ctx]
        ev = [bb for bb in ctx.body.calls if bb in ctx.body.returning and (self.events(ctx, bb) is not None or self.inline(ctx, bb))]
        sw = set()
        for bb in ev:
            for a, s in ctx.body.cdeps(bb): sw.add(a)
        work = list(sw); done = set()       # what decides a flag a tracked branch consults is tracked as well
        while work:
            x = work.pop()
            for l in self.flags(ctx, x):
                if l in done: continue
                done.add(l)
                for d in self.eng.defs_of(ctx, l):
                    for a, s in ctx.body.cdeps(d[0]):
                        if a not in sw: sw.add(a); work.append(a)
        self.rel[ctx] = (set(ev), sw)
        return self.rel[ctx]
    def flags(self, ctx, bb):
        out = set()
        for s, e, v in self.sym.branches(ctx, bb):
            mentions(e, lambda x: x[0] == "l" and len(x) == 3 and x[1] is ctx and not out.add(x[2]) and False)
        return out
    def all_keys(self, ctx):
        """fact keys consulted anywhere in ctx (inlined contexts included)"""
        if ctx in self.allk: return self.allk[ctx]
        self.allk[ctx] = set()
        ev, sw = self.relevant(ctx); out = set()
        for bb in sw: out |= self.swkeys(ctx, bb)
        for bb in ev:
            for c in self.inline(ctx, bb): out |= self.all_keys(c)
        self.allk[ctx] = out
        return out
    def swkeys(self, ctx, bb):
        out = set()
        for s, e, v in self.sym.branches(ctx, bb): out |= self.sym.keys(e)
        return out
    def live_keys(self, ctx, bb):
        """fact keys that may still be consulted from the start of bb on"""
        if (ctx, bb) in self.lv: return self.lv[(ctx, bb)]
        ev, sw = self.relevant(ctx)
        gen = {}
        for b in ctx.body.returning:
            g = set()
            if b in sw: g |= self.swkeys(ctx, b)
            if b in ev:
                for c in self.inline(ctx, b): g |= self.all_keys(c)
            gen[b] = g
        up = frozenset()
        if ctx.parent is not None and ctx.bb is not None and ctx in self.nested:
            t = ctx.parent.body.term(ctx.bb)
            if t[0] == "call" and t[4] is not None: up = self.live_keys(ctx.parent, t[4])
        live = {b: set(gen[b]) | set(up) for b in ctx.body.returning}
        ch = True
        order = sorted(ctx.body.returning, reverse=True)
        while ch:
            ch = False
            for b in order:
                n = len(live[b])
                for x in ctx.body.succ(b):
                    if x in live: live[b] |= live[x]
                if len(live[b]) != n: ch = True
        for b in live: self.lv[(ctx, b)] = frozenset(live[b])
        return self.lv[(ctx, bb)]
    def prune(self, ctx, bb, f):
        if not f: return f
        lv = self.live_keys(ctx, bb)
        return {k: v for k, v in f.items() if k in lv}
    def run(self, ctx, state, facts=None, depth=0):
        """exit states: [(state, facts)]"""
        ev, sw = self.relevant(ctx)
        facts = facts or {}
        body = ctx.body
        seen = {}       # bb -> {state: [facts]}
        work = [(0, state, facts)]
        exits = {}
        steps = 0
        while work:
            bb, st, f = work.pop()
            if bb not in body.returning: continue
            if len(body.pred(bb)) != 1: f = self.prune(ctx, bb, f)
            steps += 1
            if steps > 60000: self.errors.append(("budget", short(body.id), body.j["span"])); break
            if self.limit(st):
                self.errors.append(("growth", st, body.term(bb)[5] if body.term(bb)[0] == "call" else body.j["span"])); continue
            d = seen.setdefault(bb, {}).setdefault(st, [])
            if any(all(f.get(k) == v for k, v in g.items()) for g in d): continue   # subsumed by weaker facts
            if len(body.pred(bb)) > 1 and len(d) >= self.CAP:
                best = max(d, key=lambda h: sum(1 for k, v in f.items() if h.get(k) == v))
                f = {k: v for k, v in f.items() if best.get(k) == v}
                d.remove(best)
                d[:] = [g for g in d if not all(g.get(k) == v for k, v in f.items())]
            d.append(f)
            self.at.setdefault((ctx, bb), set()).add(st)
            # statements: path facts of multiply assigned locals
            for i, s in enumerate(body.blocks[bb]["s"]):
                if s[0] == "=" and len(s[1]) == 1: f = self.assign(ctx, bb, i, s[1][0], s[2], f)
            t = body.term(bb)
            if t[0] == "ret":
                exits.setdefault(st, []).append(f); continue
            if t[0] == "switch":
                tracked = bb in sw
                for s, e, vals in self.sym.branches(ctx, bb):
                    fs = self.sym.assume(f, e, vals)
                    if not tracked: fs = [f] if fs else []
                    for g in fs: work.append((s, st, g))
                continue
            if t[0] == "call":
                if t[4] is None: continue
                f = self.invalidate(ctx, bb, f)
                outs = [(st, f)]
                subs = self.inline(ctx, bb) if depth < 10 else ()
                h = self.events(ctx, bb)
                if h is not None:
                    outs = []
                    for ns, note in h(st, f):
                        if note: self.errors.append(note)
                        outs.append((ns, f))
                elif subs:
                    outs = []
                    for c in subs:
                        self.nested.add(c)
                        outs += self.run(c, st, f, depth + 1)
                for ns, nf in outs:
                    if len(t[3]) == 1: nf = self.assign(ctx, bb, None, t[3][0], ["callres"], nf)
                    work.append((t[4], ns, nf))
                continue
            for s in body.succ(bb): work.append((s, st, f))
        return [(st, f) for st, fs in exits.items() for f in dedup(fs)]
    def assign(self, ctx, bb, i, l, rv, f):
        ds = [d for d in ctx.body.defs.get(l, ()) if not d[2]]
        if len(ds) < 2: return f
        key = ("l", ctx, l)
        f = {k: v for k, v in f.items() if k != key and k != ("d", key) and k != ("alias", key)}
        e = self.sym.rv(ctx, bb, i, rv)
        if mentions(e, lambda x: x == key): return f
        if e[0] in ("c", "var", "not", "isvar", "fn", "F", "d", "l") or (e[0] == "k" and not any(x[0] in ("L", "B", "A") for x in e[1])): f[("alias", key)] = e
        return f
    def element(self, x, base, depth=0):
        """x mentions base other than as a collection passed whole to a function"""
        if not isinstance(x, (tuple, frozenset)) or depth > 14: return False
        if isinstance(x, tuple) and x == base: return True
        if isinstance(x, tuple) and x and x[0] == "F" and len(x) == 3:
            b = self.F.bodies.get(x[1])
            for i, a in enumerate(x[2]):
                l = b.locals[i + 1] if b is not None and i + 1 <= b.argc else ""
                if l.startswith("&[") or l.startswith("&std::vec::Vec<"): continue
                if self.element(a, base, depth + 1): return True
            return False
        return any(self.element(y, base, depth + 1) for y in x)
    def invalidate(self, ctx, bb, f):
        if not f: return f
        t = ctx.body.term(bb)
        fn, k, tg = self.eng.resolve(ctx, t[1]); nm = short(fn) if fn else ""
        site = (ctx, bb)
        def hit(x): return (x[0] in ("R", "r") and len(x) >= 3 and x[1] is ctx and x[2] == bb)
        bases = []
        if nm in ("next", "next_back") and t[2]:
            def flat(avs):
                for a in avs:
                    a = strip(a)
                    if a[0] == "T":
                        for y in a[1]: yield from flat(self.eng.expand(y))
                    else: yield a
            bases = [self.sym.canon1(a) for a in flat(self.eng.expand(self.eng.operand(ctx, t[2][0])))]
        def ext(x):
            for b in bases:
                if b[0] == "P" and x[0] == "P" and len(x) == 3 and x[1] == b[1] and x[2][:len(b[2])] == b[2] and len(x[2]) > len(b[2]): return True
                if b[0] == "CFG" and x[0] == "CFG" and x[1][:len(b[1])] == b[1] and len(x[1]) > len(b[1]): return True
                if b[0] in ("F", "R", "L") and x == b: return True
            return False
        out = {}
        for kx, v in f.items():
            if mentions(kx, hit) or mentions(v, hit): continue
            if bases and (mentions(kx, ext) or mentions(v, ext)): continue
            if bases and not mentions(kx, lambda x: x[0] in ("F",) and short(x[1]) in ("is_empty", "len")) and any(self.element(kx, b) for b in bases): continue
            out[kx] = v
        return out
