"""Write sets: what a function stores below one of its arguments, with the origin of every stored value."""
from .mir import short
from .flow import strip, marks, is_std, IDENT, av_str
from .graph import op_place

SETTERS = {"clone_from": 1, "insert": 1, "replace": 1, "get_or_insert": 1, "clone_into": 0}
class Eff:
    __slots__ = ("path", "op", "vals", "ctx", "bb", "idx", "span", "call")
    def __init__(self, path, op, vals, ctx, bb, idx, span, call=None):
        self.path = path; self.op = op; self.vals = vals; self.ctx = ctx; self.bb = bb; self.idx = idx; self.span = span; self.call = call
    def __repr__(self): return f"{'/'.join(x.split('.')[-1] for x in self.path) or 'self'} {self.op}"

def rooted(eng, avs, root):
    out = []
    for a in eng.expand(avs):
        s = strip(a)
        if s[0] == "P" and s[1] == root: out.append((s[2], tuple(marks(a))))
    return out

def effects(an, arg=0, live=True, returned=True):
    """[Eff]: stores through (or moves back of) argument `arg` of the entry function"""
    e = an.eng; root = ("arg", arg); out = []
    lv = (lambda c: e.live(c)) if live and hasattr(e, "live") else (lambda c: c.body.reach)
    ok = lambda ctx: all(x.parent is None or x.bb is None or x.bb in lv(x.parent) for x in ctx.chain())
    for ctx in an.ctxs():
        if not ok(ctx): continue
        L = lv(ctx)
        for (bb, i, pl, rv) in e.stores(ctx):
            if bb not in L: continue
            last = next((e.plabel(x)[0] for x in reversed(pl) if isinstance(x, list) and x[0] == "f"), None)
            vals = e.expand(e.callres(ctx, bb) if rv[0] == "callres" else e.rvalue(ctx, bb, i, rv))
            ps = {p for p, m in rooted(e, e.place(ctx, pl), root)}
            if last is not None: ps = {p for p in ps if p and p[-1] == last} 
            for p in ps:
                if frozenset(vals) == {("P", root, p)}: continue
                out.append(Eff(p, "set", vals, ctx, bb, i, ctx.body.j["span"]))
    for c in an.calls:
        if not ok(c.ctx) or c.bb not in lv(c.ctx): continue
        if any(t[0] == "local" for t in c.targets) and e.sub_contexts(c.ctx, c.bb): continue
        for i in range(c.nargs):
            pl = op_place(c.term[2][i])
            if pl is None or len(pl) != 1: continue
            ty = c.ctx.body.locals[pl[0]]
            if not ty.startswith("&mut "): continue
            if is_std(c.fn) and c.name in IDENT and c.name not in ("next", "drain", "next_back", "or_default"): continue
            for p, m in rooted(e, c.arg(i), root):
                vals = frozenset().union(*[c.earg(j) for j in range(c.nargs) if j != i]) if c.nargs > 1 else frozenset()
                out.append(Eff(p, c.name, vals, c.ctx, c.bb, None, c.span, c))
    if returned:
        out += ret_effects(an, e.local(an.root, 0), root, ())
    return out

def ret_effects(an, avs, root, path):
    """fields of a rebuilt value that differ from the argument's"""
    e = an.eng; out = []
    for a in e.expand(avs):
        s = strip(a)
        if s[0] == "P" and s[1] == root and s[2] == path and not marks(a): continue
        if s[0] == "A" and e.agg(s)[0] == "adt":
            k, adt, var, names, ops = e.agg(s)
            for n, o in zip(names, ops):
                from .flow import label
                sub = path + (label(adt, var, n),)
                vs = e.expand(e.operand(s[1], o))
                if any(strip(v)[0] == "A" and e.agg(strip(v))[0] == "adt" and not is_std(e.agg(strip(v))[1]) for v in vs): out += ret_effects(an, vs, root, sub)
                elif frozenset(vs) != {("P", root, sub)}: out.append(Eff(sub, "set", vs, s[1], s[2], s[3], s[1].body.j["span"]))
        else: out.append(Eff(path, "return", frozenset([a]), an.root, None, None, an.body.j["span"]))
    return out

def always(an, effs):
    """every terminating run of the entry function performs one of these effects"""
    if any(x.bb is None for x in effs): return True
    sites = {}
    for x in effs: sites.setdefault(x.ctx, set()).add(x.bb)
    e = an.eng
    done = set()
    while True:
        todo = [c for c in sites if c not in done and c is not an.root]
        if not todo: break
        c = max(todo, key=lambda k: k.depth); done.add(c)
        if c.parent is not None and must(e, c, sites[c]) : sites.setdefault(c.parent, set()).add(c.bb); done.discard(c.parent)
    return must(e, an.root, sites.get(an.root, set()))
def must(e, ctx, blocks):
    lv = e.live(ctx) if hasattr(e, "live") else ctx.body.reach
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen or b in blocks or b not in lv: continue
        seen.add(b)
        if ctx.body.term(b)[0] == "ret": return False
        st += ctx.body.succ(b)
    return True
