"""Whole-crate helpers: call graph, ownership of sites, decoded format templates."""
import re
from .mir import short, strip_generics
from .flow import strip

def callee(t):
    k = t[1].get("k", {})
    return k.get("fn", ""), k.get("res") or k.get("fn", ""), k
def op_place(op): return op.get("m") or op.get("c")

def root_of(F, b):
    while b.is_closure and b.parent in F.bodies: b = F.bodies[b.parent]
    return b

def callers(F):
    """root body id -> set of root body ids that call (or mention) it"""
    if hasattr(F, "_callers"): return F._callers
    m = {}
    def note(tgt, b):
        if tgt in F.bodies: m.setdefault(root_of(F, F.bodies[tgt]).id, set()).add(root_of(F, b).id)
    for b in F.bodies.values():
        if b.kind != "fn": continue
        for bb in b.reach:
            t = b.term(bb)
            if t[0] == "call":
                fn, res, k = callee(t)
                for x in {fn, res}: note(x, b)
                if res == fn or k.get("res") is None:
                    for im in F.trait_impls.get(fn, []): note(im.id, b)
                for o in t[2]:
                    kk = o.get("k", {})
                    for x in (kk.get("fn"), kk.get("res")):
                        if x: note(x, b)
            for s in b.blocks[bb]["s"]:
                if s[0] == "=" and s[2] and s[2][0] in ("use", "cast") and isinstance(s[2][1], dict):
                    kk = s[2][1].get("k", {}) or {}
                    for x in (kk.get("fn"), kk.get("res")):
                        if x: note(x, b)
    F._callers = m
    return m

def owned(F, b, owners):
    """every call chain into b passes an owner (owners: predicate on body)"""
    cs = callers(F); b = root_of(F, b)
    if owners(b): return True
    seen = {b.id}; st = [b.id]
    while st:
        x = st.pop()
        up = [y for y in cs.get(x, ()) if y != x]
        if not up: return False
        for y in up:
            if y in seen or owners(F.bodies[y]): continue
            seen.add(y); st.append(y)
    return True

def is_named(*suffixes):
    return lambda b: any(strip_generics(b.id).endswith(s) for s in suffixes)

def template(bs):
    """decode a fmt::Arguments template into [('s', text) | ('a', index)]"""
    out = []; i = 0; n = 0
    while i < len(bs):
        c = bs[i]; i += 1
        if c == 0: break
        if c < 0x80: out.append(("s", bs[i:i + c].decode("utf8", "replace"))); i += c
        elif c == 0x80:
            l = bs[i] | bs[i + 1] << 8; i += 2
            out.append(("s", bs[i:i + l].decode("utf8", "replace"))); i += l
        else:
            if c & 1: i += 4
            if c & 2: i += 2
            if c & 4: i += 2
            if c & 8: n = bs[i] | bs[i + 1] << 8; i += 2
            out.append(("a", n)); n += 1
    return out

def literals(F, b):
    """[(bb, idx|None, text, is_template, operand holder)] every string literal of a body"""
    out = []
    def walk(x, bb, i, sp):
        if isinstance(x, dict):
            if isinstance(x.get("str"), str): out.append((bb, i, x["str"], False, sp))
            elif "bytes" in x:
                bs = bytes(x["bytes"])
                if bs.endswith(b"\0") and any(y >= 0xC0 for y in bs): out.append((bb, i, "".join(t if k == "s" else "{}" for k, t in template(bs)), True, sp))
                else: out.append((bb, i, bs.decode("latin1"), False, sp))
            else:
                for v in x.values(): walk(v, bb, i, sp)
        elif isinstance(x, list):
            for v in x: walk(v, bb, i, sp)
    for bb in sorted(b.reach):
        for i, s in enumerate(b.blocks[bb]["s"]):
            if s[0] == "=": walk(s[2], bb, i, s[3] if len(s) > 3 else "")
        t = b.term(bb)
        if t[0] == "call":
            for ai, a in enumerate(t[2]): walk(a, bb, ("arg", ai), t[5])
    return out

def fmt_pieces(eng, av):
    """pieces of a fmt::Arguments value: [('s', text) | ('a', avs of the displayed value, formatter name)], or None"""
    a = strip(av)
    if a[0] == "K" and a[1] == "str": return [("s", a[2])]
    if a[0] != "R": return None
    ct = a[1].body.term(a[2])
    if "Arguments" not in callee(ct)[0] or not ct[2]: return None
    tmpl = None
    for x in eng.expand(eng.operand(a[1], ct[2][0])):
        x = strip(x)
        if x[0] == "K" and x[1] == "bytes": tmpl = template(x[2])
        elif x[0] == "K" and x[1] == "str": tmpl = [("s", x[2])]
    if tmpl is None: return None
    args = []
    body = a[1].body
    def deref(op, depth=0):
        """the statement or call that defines the operand, through copies, casts and references"""
        pl = op_place(op)
        if not pl or depth > 8: return None
        ds = [d for d in body.defs.get(pl[0], ()) if not d[2]]
        if len(ds) != 1: return None
        bb, idx, proj, rv = ds[0]
        if rv[0] in ("use", "cast"): return deref(rv[1], depth + 1)
        if rv[0] == "ref": return deref({"c": rv[1][:1]}, depth + 1)
        return bb, rv
    if len(ct[2]) > 1:
        d = deref(ct[2][1])
        if d and d[1][0] in ("arr", "array"):
            for o in d[1][-1]:
                one = (frozenset(), ""); y = deref(o)
                if y and y[1][0] == "callres":
                    yt = body.term(y[0])
                    if "Argument" in callee(yt)[0] and yt[2]: one = (eng.operand(a[1], yt[2][0]), short(callee(yt)[0]))
                args.append(one)
    return [(k, v) if k == "s" else ("a",) + (args[v] if v < len(args) else (frozenset(), "")) for k, v in tmpl]
