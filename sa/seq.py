"""Regular-language check of the events a function performs, over the feasible paths (helpers inlined)."""
from .mir import short

class Seq:
    """event(call) -> symbol | None; step(state, symbol) -> state | None (None: not allowed)"""
    def __init__(self, an, event, step, stores=None):
        self.stores = stores      # stores(ctx, bb, place, rv) -> symbol | None, for assignments through a projection
        self.an = an; self.eng = an.eng; self.event = event; self.step = step
        self.errors = []; self.memo = {}; self.byctx = {}
        for c in an.calls: self.byctx.setdefault((c.ctx, c.bb), c)
        self.rel = {}
    def relevant(self, ctx, depth=0):
        """some call in ctx or its callees is an event"""
        if ctx in self.rel: return self.rel[ctx]
        self.rel[ctx] = False
        r = False
        for bb in self.eng.live(ctx):
            if self.stores and (any(x[0] == "=" and len(x[1]) > 1 and self.stores(ctx, bb, x[1], x[2]) is not None for x in ctx.body.blocks[bb]["s"])): r = True; break
            if ctx.body.term(bb)[0] != "call": continue
            c = self.byctx.get((ctx, bb))
            if c is not None and self.event(c) is not None: r = True; break
            if depth < 10 and any(self.relevant(x, depth + 1) for x, k in self.eng.sub_contexts(ctx, bb)): r = True; break
        self.rel[ctx] = r
        return r
    def store(self, ctx, bb, pl, rv, states, t):
        e = self.stores(ctx, bb, pl, rv)
        if e is None: return states
        out = set()
        for st in states:
            n = self.step(st, e)
            if n is None: self.errors.append((st, e, t[5] if t[0] == "call" else ctx.body.j["span"]))
            else: out.add(n)
        return out
    def run(self, ctx, state, depth=0):
        key = (ctx, state)
        if key in self.memo: return self.memo[key]
        self.memo[key] = set()
        out = set(); seen = set(); work = [(0, state)]
        live = self.eng.live(ctx)
        while work:
            bb, st = work.pop()
            if (bb, st) in seen or bb not in live: continue
            seen.add((bb, st))
            t = ctx.body.term(bb)
            if t[0] == "ret": out.add(st); continue
            nxt = {st}
            if self.stores:
                for x in ctx.body.blocks[bb]["s"]:
                    if x[0] == "=" and len(x[1]) > 1: nxt = self.store(ctx, bb, x[1], x[2], nxt, t)
                st = next(iter(nxt)) if len(nxt) == 1 else st
                if not nxt: continue
            if t[0] == "call":
                if t[4] is None: continue
                if self.stores and len(t[3]) > 1: nxt = self.store(ctx, bb, t[3], ["callres"], nxt, t)
                c = self.byctx.get((ctx, bb))
                e = self.event(c) if c is not None else None
                if e is not None:
                    nxt = set()
                    for sym in (e if isinstance(e, (set, frozenset)) else {e}):
                        n = self.step(st, sym)
                        if n is None: self.errors.append((st, sym, t[5]))
                        else: nxt.add(n)
                elif depth < 10:
                    subs = [(x, k) for x, k in self.eng.sub_contexts(ctx, bb) if self.relevant(x)]
                    if subs:
                        nxt = set()
                        if any(k == "inline" for _, k in subs):
                            for x, k in subs: nxt |= self.run(x, st, depth + 1)
                        else:
                            # closures handed to library code: any number of times, at most once for options
                            f = t[1].get("k", {}).get("fn", "")
                            nxt = {st}; todo = [st]
                            if "option::Option" in f or "result::Result" in f or "bool" in f:
                                for x, k in subs: nxt |= self.run(x, st, depth + 1)
                                todo = []
                            while todo:
                                s = todo.pop()
                                for x, k in subs:
                                    for n in self.run(x, s, depth + 1):
                                        if n not in nxt: nxt.add(n); todo.append(n)
            for s in (self.eng.feasible(ctx, bb) if hasattr(self.eng, "feasible") else ctx.body.succ(bb)):
                for n in nxt: work.append((s, n))
        self.memo[key] = out
        return out
def check(an, event, delta, start, accept):
    """delta: {(state, symbol): state}; returns (errors, exit states not accepted)"""
    s = Seq(an, event, lambda st, sym: delta.get((st, sym)))
    ex = s.run(an.root, start)
    return s.errors, [x for x in ex if x not in accept], ex
