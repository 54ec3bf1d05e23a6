"""Queries over one analysed entry function (helpers and closures inlined)."""
from .mir import short, strip_generics
from .flow import Engine, strip, marks, avs_str, av_str, Atom
from .cover import Shape, self_paths, residual, tautology, atom_key, parse_ty

def names_in(avs):
    """constant strings of an AV set"""
    return {strip(a)[2] for a in avs if strip(a)[0] == "K" and strip(a)[1] == "str"}

class An:
    def __init__(self, facts, body, stop=(), rep=None, shape=None, subst=None, maxdepth=9):
        self.F = facts; self.body = body
        st = stop if callable(stop) else (lambda b, c: b.name in stop or b.id in stop)
        self.eng = Engine(facts, stop=lambda b, c: st(b, c) and b is not body, maxdepth=maxdepth)
        self.root = self.eng.entry(body, subst)
        self.calls = self.eng.analyse(self.root)
        self.shape = shape or Shape(facts, ())
        if rep:
            rep.fn(body)
            for c in self.ctxs(): rep.fn(c.body)
    def ctxs(self):
        s = {self.root}
        for c in self.calls: s.add(c.ctx)
        # contexts entered but without calls
        for c in self.calls:
            for x, k in self.eng.sub_contexts(c.ctx, c.bb): s.add(x)
        return s
    def named(self, *names): return [c for c in self.calls if c.name in names]
    def paths(self, call, i, root=0):
        return self_paths(call.earg(i), root, self.shape) if i < call.nargs else []
    def has_path(self, call, i, path, root=0, allow_marks=()):
        for p, m in self.paths(call, i, root):
            if p == tuple(path) and not [x for x in m if x not in allow_marks and x != 'rev']: return True
        return False
    def clauses(self, calls, path=(), allow=None, root=0):
        out = []
        for c in calls:
            r = residual(self.shape, c, tuple(path), allow, root)
            out.append(frozenset((atom_key(a), a.val) for a in r))
        return out
    def must(self, rep, key, calls, msg, path=(), allow=None, root=0, where=None):
        """some of the calls happens on every run (modulo allowed guards)"""
        calls = list(calls)
        if not calls:
            rep.bad(key, msg + ": no such call", where or self.body.j["span"]); return False
        cl = self.clauses(calls, path, allow, root)
        if tautology(cl):
            rep.ok(key, calls[0].span); return True
        rs = min(cl, key=len)
        rep.bad(key, msg + ": only under " + "; ".join(fmt_atom(k, v) for k, v in sorted(rs, key=str)), calls[0].span)
        return False

def fmt_atom(k, v):
    kind, fn, subj, args = k
    return f"{kind} {short(fn) if fn else ''}({subj}{','.join(args)})={v}"

def rets(an):
    """AVs the entry function may return"""
    return an.eng.expand(an.eng.local(an.root, 0))

def describe(eng, avs, depth=0, seen=()):
    """normalised description of what a value set may be: constants, origins, constructed variants"""
    out = set()
    for a in eng.expand(avs):
        m = "".join(f"~{x}~" for x in marks(a)); b = strip(a)
        if b[0] == "A" and depth < 4 and b not in seen:
            k, adt, var, names, ops = eng.agg(b)
            fs = [f"{n}={describe(eng, eng.operand(b[1], o), depth + 1, seen + (b,))}" for n, o in zip(names, ops)]
            head = {"adt": (short(adt) + "::" + var) if short(adt) != var else var, "tup": "()", "arr": "[]"}[k]
            out.add(m + head + ("{" + ",".join(sorted(fs)) + "}" if fs else ""))
        elif b[0] == "K":
            out.add(m + (repr(b[2]) if b[1] in ("str", "int") else str(b[2]).split("::")[-1] if b[1] in ("none", "fn", "const") else b[1]))
        elif b[0] == "B":
            rv = b[1].body.blocks[b[2]]["s"][b[3]][2]
            out.add(m + "op:" + (rv[1] if rv[0] in ("bin", "un") else rv[0]))
        elif b[0] == "T":
            out.add(m + "(" + ",".join(describe(eng, x, depth + 1, seen) for x in b[1]) + ")")
        else: out.add(m + av_str(b))
    return "|".join(sorted(out))
