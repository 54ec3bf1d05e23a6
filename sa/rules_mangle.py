"""C26: mangled names."""
from .mir import short
from .flow import strip, marks, av_str, avs_str
from .graph import *
from .q import An, describe
from .rules_io import SAn, strs
from .rules_expr import partial, ctxs_live
from .seq import Seq

def deep(eng, avs, depth=0, seen=None):
    """origins behind calls and aggregates"""
    seen = set() if seen is None else seen
    for a in eng.expand(avs):
        s = strip(a)
        if s in seen or depth > 10: continue
        seen.add(s); yield s, partial(a)
        if s[0] == "R":
            for o in s[1].body.term(s[2])[2]: yield from deep(eng, eng.operand(s[1], o), depth + 1, seen)
        elif s[0] == "A":
            for o in eng.agg(s)[-1]:
                if isinstance(o, dict): yield from deep(eng, eng.operand(s[1], o), depth + 1, seen)
        elif s[0] == "P" and s[1][0] != "arg": yield from deep(eng, frozenset([s[1]]), depth + 1, seen)

def c26(F, rep):
    rep.rule("token grammar over all feasible paths of the mangler, per type constructor and argument kind: every component is appended exactly once and in order, between separators; separators of distinct positions are distinct non-empty runs of underscores; the flag that allows dropping a closing separator is never true for a component that is not the last")
    fs = [b for b in F.bodies.values() if b.kind == "fn" and not b.is_closure and b.id.startswith("bindgen::mangle::")]
    def pick(what, pred):
        x = sorted((b for b in fs if pred(b)), key=lambda b: b.argc)
        if len(x) > 1 and x[0].argc < x[1].argc: x = x[:1]
        if len(x) != 1: rep.bad(f"anchor:{what}", f"the mangler's function for {what} was not found"); return None
        rep.fn(x[0]); return x[0]
    args = lambda b: [b.locals[i] for i in range(1, b.argc + 1)]
    isM = lambda b: bool(args(b)) and "mangle::Mangler" in args(b)[0]
    T = pick("types", lambda b: isM(b) and any(l == "&bindgen::ir::ty::Type" for l in args(b)))
    A = pick("arguments", lambda b: isM(b) and any(l == "&bindgen::ir::generic_path::GenericArgument" for l in args(b)))
    P = pick("separators", lambda b: isM(b) and any(l == "bindgen::mangle::Separator" for l in args(b)))
    N = pick("names", lambda b: b.name == "mangle_name")
    if not (T and A and P and N): return
    stop = lambda b, c: b in (T, A, P) or b.name in ("apply", "to_repr_rust")
    # the separators
    seps = [v[0] for v in F.adt("Separator")["variants"]]
    count = {}
    for v in seps:
        an = SAn(F, P, rep, assume={"arg1": ("v", v), "arg0/Mangler.config/MangleConfig.remove_underscores": ("i", 0)})
        out = [c for c in an.live_calls() if c.name in ("extend", "push_str", "push") and any(av_str(strip(a)) == "arg0/Mangler.output" for a in c.earg(0))]
        ns = set()
        for c in an.live_calls():
            if c.name in ("take", "repeat", "repeat_n") and c.nargs == 2:
                x = an.eng.values(c.ctx, c.term[2][1])
                if x and len(x) == 1: ns.add(next(iter(x))[1])
        txt = {s for c in an.live_calls() if c.name in ("repeat", "repeat_n") and c.nargs for s in strs(c.earg(0))}
        if len(ns) == 1 and txt == {"_"} and out: count[v] = ns.pop()
        elif len(txt) == 1 and not ns: count[v] = ("text", next(iter(txt)))
        else: count[v] = None
    for v in seps: rep.req(count[v] not in (None, 0), f"sep:{v}", f"the separator {v} is written as {count[v]!r}, expected a run of underscores", P.j["span"])
    an = SAn(F, P, rep, assume={"arg0/Mangler.config/MangleConfig.remove_underscores": ("i", 1)})
    txt = {s for c in an.live_calls() if c.name in ("repeat", "repeat_n") and c.nargs for s in strs(c.earg(0))}
    rep.req(txt <= {""}, "sep:removed", f"with remove_underscores a separator is {txt}", P.j["span"])
    used = {}      # position -> separator
    OUT = "arg0/Mangler.output"
    def events(an, entry, positions):
        e = an.eng
        def event(c):
            if any(t[0] == "local" and t[1] is P for t in c.targets):
                vs = {e.agg(strip(a))[2] for a in c.earg(1) if strip(a)[0] == "A"} | {strip(a)[2].split("::")[-1] for a in c.earg(1) if strip(a)[0] == "K" and strip(a)[1] == "none"}
                live = e.avvals(c.arg(1))
                if live: vs = {x[1] for x in live}
                return ("sep", frozenset(vs), c)
            if any(t[0] == "local" and t[1] is T for t in c.targets): return ("comp", "T", c)
            if any(t[0] == "local" and t[1] is A for t in c.targets): return ("comp", "A", c)
            if c.nargs >= 2 and c.name in ("push_str", "push", "extend", "insert_str", "write_str", "write_fmt", "add_assign") and c.ctx.body not in (P,) and any(av_str(strip(a)) == OUT for a in c.earg(0)): return ("out", c, 1)
            if c.name == "clone_into" and any(av_str(strip(a)) == OUT for a in c.earg(1)): return ("out", c, 0)
            if c.nargs >= 1 and c.name in ("clear", "truncate", "pop", "remove", "drain", "replace_range", "retain", "split_off", "insert") and any(av_str(strip(a)) == OUT for a in c.earg(0)): return ("cut", c)
            return None
        return event
    def lastval(an, c, i):
        return an.eng.values(c.ctx, c.term[2][i])
    def lastarg(b): return next((i for i in range(b.argc) if b.locals[i + 1] == "bool"), None)
    LT, LA = lastarg(T), lastarg(A)
    tyarg = next(i for i, l in enumerate(args(T)) if l == "&bindgen::ir::ty::Type"); TA = f"arg{tyarg}"
    gaarg = next(i for i, l in enumerate(args(A)) if "GenericArgument" in l); GA = f"arg{gaarg}"
    def comp_path(an, ev):
        """origin of the component: set of paths"""
        c = ev[2]; i = tyarg if ev[1] == "T" else gaarg
        return {av_str(s) for s, m in deep(an.eng, c.earg(i)) if s[0] == "P" and not m} | {"partial" for s, m in deep(an.eng, c.earg(i)) if m}
    PLAIN = {"deref", "clone", "as_str", "to_string", "to_owned", "apply", "mangle", "mangle_internal", "export_name", "new", "to_repr_rust", "borrow", "into", "from", "as_ref", "generics", "as_slice", "name", "path", "cow", "format", "must_use", "as_bytes"}
    def outsrc(an, ev):
        ds = list(deep(an.eng, ev[1].earg(ev[2])))
        if any(m for s, m in ds) or any(s[0] == "R" and short(callee(s[1].body.term(s[2]))[1] or "?") not in PLAIN for s, m in ds): return set()
        return {av_str(s) for s, m in ds}
    def run(an, entry, grammar, key, what):
        """grammar: (state, event) -> (next, position) using a function"""
        def step(st, sym): return grammar(st, sym)
        s = Seq(an, events(an, entry, None), step)
        ex = s.run(an.root, 0)
        bad = list(s.errors) + [(x, "end") for x in ex if not (isinstance(x, int) and x < 0)]
        rep.req(not bad and bool(ex), key, f"{what}: {desc(bad[0]) if bad else 'no path'}", entry.j["span"])
    def desc(b):
        if b[1] == "end": return "a component is missing"
        sym = b[1]
        return {"sep": "separator out of place", "comp": "unexpected component", "out": "unexpected text", "cut": "text is removed"}[sym[0]] + f" ({b[2] if len(b) > 2 else ''})"
    def sep(pos):
        def f(sym):
            if sym[0] != "sep": return False
            used.setdefault(pos, set()).update(sym[1]); return True
        return f
    def comp(an, *paths, last=None, want=None):
        def f(sym):
            if sym[0] != "comp": return False
            ps = comp_path(an, sym)
            return any(any(p == x or p.startswith(x + "/") for p in ps) for x in paths) and "partial" not in ps
        return f
    def machine(rows, final):
        """rows: {state: [(predicate, next)]}"""
        def g(st, sym):
            if sym[0] == "cut": return None
            for pred, n in rows.get(st, ()):
                if pred(sym): return n
            return None
        return g
    # final states are negative numbers
    V = lambda v: f"{TA}/Type::{v}"
    for cst, pos in ((1, "ConstPtr"), (0, "MutPtr")):
        an = SAn(F, T, rep, stop=stop, assume={TA: ("v", "Ptr"), f"{V('Ptr')}.is_const": ("i", cst)})
        run(an, T, machine({0: [(sep(pos), 1)], 1: [(comp(an, V("Ptr") + ".ty"), -1)]}, {-1}), f"type:{pos}", f"a {'const' if cst else 'mutable'} pointer is its separator followed by the pointee")
    an = SAn(F, T, rep, stop=stop, assume={TA: ("v", "Array")})
    run(an, T, machine({0: [(sep("BeginArray"), 1)], 1: [(comp(an, V("Array") + ".0"), 2)], 2: [(sep("BetweenArray"), 3)], 3: [(comp(an, V("Array") + ".1"), -1), (lambda y: y[0] == "out" and any(p.startswith(V("Array") + ".1") for p in outsrc(an, y)), -1)]}, {-1}), "type:Array", "an array is its element type and its length, separated")
    for sl in (0, 1):
        an = SAn(F, T, rep, stop=stop, assume={TA: ("v", "FuncPtr"), "arg0/Mangler.last": ("i", sl), **({f"arg{LT}": ("i", 0)} if not sl else {})})
        rows = {0: [(sep("BeginFn"), 1)], 1: [(comp(an, V("FuncPtr") + ".ret"), 2)], 2: [(None, 3)], 3: [(comp(an, V("FuncPtr") + ".args/().1"), 2)], -1: []}
        def g(st, sym, rows=rows, an=an):
            if sym[0] == "cut": return None
            if st in (2, -2) and sym[0] == "sep":
                # between arguments (inside the loop) or at the end
                if sym[2].ctx.body.in_cycle(sym[2].bb) or any(a.kind == "iter" and a.val == ("Some",) for a in sym[2].dguards()): used.setdefault("BetweenFnArg", set()).update(sym[1]); return 3
                used.setdefault("EndFn", set()).update(sym[1]); return -1
            st0 = 2 if st == -2 else st
            for pred, n in rows.get(st0, ()):
                if pred and pred(sym): return (-2 if n == 2 and sl else n)
            return None
        s = Seq(an, events(an, T, None), g); ex = s.run(an.root, 0)
        bad = list(s.errors) + [(x, "end") for x in ex if not x < 0]
        # the closing separator may be missing only at the very end of the name
        rep.req(not bad and bool(ex), f"type:FuncPtr:{sl}", f"a function pointer is its return type and every argument, separated{'' if sl else ' and closed'}: {desc(bad[0]) if bad else 'no path'}", T.j["span"])
    an = SAn(F, T, rep, stop=stop, assume={TA: ("v", "Primitive")})
    run(an, T, machine({0: [(lambda y: y[0] == "out" and any(p.startswith(V("Primitive")) for p in outsrc(an, y)), -1)]}, {-1}), "type:Primitive", "a primitive type is its own name")
    anp = SAn(F, T, rep, stop=lambda b, c: b in (T, A, P) or b.name in ("mangle", "mangle_internal", "apply"), assume={TA: ("v", "Path")})
    run(anp, T, machine({0: [(lambda y: y[0] == "out" and any("GenericPath.export_name" in p for p in outsrc(anp, y)) and any("GenericPath.generics" in p for p in outsrc(anp, y)), -1)]}, {-1}), "type:Path", "a path is its export name and its generic arguments")
    # generic arguments
    an = SAn(F, A, rep, stop=stop, assume={GA: ("v", "Type")})
    run(an, A, machine({0: [(comp(an, f"{GA}/GenericArgument::Type.0"), -1)]}, {-1}), "arg:Type", "a type argument is mangled as that type")
    for k, f in (("Path", "comp"), ("Value", "out")):
        an = SAn(F, A, rep, stop=stop, assume={GA: ("v", "Const"), f"{GA}/GenericArgument::Const.0": ("v", k)})
        src = f"{GA}/GenericArgument::Const.0/ConstExpr::{k}.0"
        run(an, A, machine({0: [(comp(an, src), -1), (lambda y: y[0] == "out" and any(p.startswith(src) for p in outsrc(an, y)), -1)]}, {-1}), f"arg:Const:{k}", "a constant argument keeps its value")
    # the whole name
    M = [b for b in fs if isM(b) and b.argc == 1 and b.locals[1].startswith("&mut")]
    if len(M) != 1:
        M = [b for b in fs if isM(b) and b.argc == 1]
    if not rep.req(len(M) >= 1, "anchor:mangle", "the mangler's main function was not found"): return
    M = M[0]
    for empty in (1, 0):
        for idx in ((None,) if empty else (0, 1, 2)):
            for sl, size in ((0, 3), (1, 3)) if empty else ((0, 3), (1, 3), (0, 1000003), (1, 1000003)):
                def hook(eng, c, empty=empty, size=size):
                    if c.name == "is_empty": return {("i", empty)} if any("generic_values" in av_str(a) for a in c.earg(0)) else None
                    if c.name == "len" and any("generic_values" in av_str(a) for a in c.earg(0)): return {("i", 0 if empty else size)}
                asm = {"arg0/Mangler.last": ("i", sl)}
                if idx is not None: asm["index"] = ("i", idx)
                an = SAn(F, M, rep, stop=stop, assume=asm, hook=hook)
                base = lambda y: y[0] == "out" and any(p == "arg0/Mangler.input" for p in outsrc(an, y))
                ga = comp(an, "arg0/Mangler.generic_values")
                # 0 -base-> -1 -open-> 2 -(comma?) arg-> -3 ...
                def g(st, sym, idx=idx, sl=sl, empty=empty, an=an):
                    if sym[0] == "cut": return None
                    if st == 0: return (-1 if empty else 1) if base(sym) else None
                    if empty: return None
                    if st == 1 and sym[0] == "sep": used.setdefault("Open", set()).update(sym[1]); return 2 if not sl else -2
                    loop = sym[0] == "sep" and (sym[2].ctx.body.in_cycle(sym[2].bb) or any(a.kind == "iter" and a.val == ("Some",) for a in sym[2].dguards()))
                    if st in (2, -2):
                        if sym[0] == "sep" and loop: used.setdefault("Comma", set()).update(sym[1]); return 4 if idx != 0 else None
                        if sym[0] == "sep": used.setdefault("Close", set()).update(sym[1]); return -5
                        if ga(sym): return st if idx == 0 else None
                        return None
                    if st == 4: return (2 if not sl else -2) if ga(sym) else None
                    return None
                s = Seq(an, events(an, M, None), g); ex = s.run(an.root, 0)
                bad = list(s.errors) + [(x, "end") for x in ex if not x < 0]
                rep.req(not bad and bool(ex), f"name:{'plain' if empty else f'arg{idx}'}:{sl}{':many' if size > 3 else ''}", f"a mangled name is the base name{'' if empty else ' and every generic argument, separated'}: {desc(bad[0]) if bad else 'no path'}", M.j["span"])
                if not empty:
                    for c in an.live_calls():
                        if any(t[0] == "local" and t[1] is A for t in c.targets):
                            v = lastval(an, c, LA)
                            if idx < 2 or not sl or size > 3: rep.req(v is None or v == {("i", 0)}, f"last:arg{idx}:{sl}{':many' if size > 3 else ''}", "a generic argument that is not the last part of the name is mangled as if it were (its closing separator is dropped)", c.span)
    # last flags inside types
    def hook3(eng, c):
        if c.name == "len": return {("i", 3)}
        if c.name == "is_empty": return {("i", 0)}
    for idx in (0, 1):
        an = SAn(F, T, rep, stop=stop, assume={TA: ("v", "FuncPtr"), f"arg{LT}": ("i", 1), "index": ("i", idx)}, hook=hook3)
        for c in an.live_calls():
            if any(t[0] == "local" and t[1] is T for t in c.targets):
                v = lastval(an, c, LT)
                rep.req(v is None or v == {("i", 0)}, f"last:fn:{idx}", "a part of a function pointer that is followed by another is mangled as the last one", c.span)
    an = SAn(F, T, rep, stop=stop, assume={TA: ("v", "Array"), f"arg{LT}": ("i", 1)})
    for c in an.live_calls():
        if any(t[0] == "local" and t[1] is T for t in c.targets) and any(p.startswith(V("Array") + ".0") for p in comp_path(an, ("comp", "T", c))):
            v = lastval(an, c, LT)
            rep.req(v is None or v == {("i", 0)}, "last:array", "the element type of an array is mangled as the last part", c.span)
    for v in ("Ptr", "Array", "FuncPtr"):
        an = SAn(F, T, rep, stop=stop, assume={TA: ("v", v), f"arg{LT}": ("i", 0), "index": ("i", 2)}, hook=hook3)
        for c in an.live_calls():
            for b, i in ((T, LT), (A, LA)):
                if any(t[0] == "local" and t[1] is b for t in c.targets):
                    x = lastval(an, c, i)
                    rep.req(x is None or x == {("i", 0)}, f"last:inner:{v}", f"a part of a {v} that is not at the end of the name is mangled as the last one", c.span)
    an = SAn(F, T, rep, stop=lambda b, c: b in (T, A, P) or b.name in ("mangle", "mangle_internal"), assume={TA: ("v", "Path"), f"arg{LT}": ("i", 0)})
    ms = [c for c in ctxs_live(an) for bb in an.eng.live(c) for s in c.body.blocks[bb]["s"] if s[0] == "=" and s[2][0] == "adt" and short(s[2][1]) == "Mangler" for c in [(c, s)]]
    names = [f[0] if isinstance(f, (list, tuple)) else f for f in F.adt("Mangler")["variants"][0][1]]
    for c, s in ms:
        x = an.eng.values(c, dict(zip(names, s[2][4]))["last"]) if "last" in names else None
        rep.req(x is None or x == {("i", 0)}, "last:path", "a nested generic that is not at the end of the name is mangled as if it were", T.j["span"])
    # distinct positions, distinct separators
    rep.notes["positions"] = {p: sorted(map(str, v)) for p, v in used.items()}
    ps = sorted(used)
    rep.floor("separator_positions", len(ps), 10)
    for i, p in enumerate(ps):
        rep.req(len(used[p]) == 1, f"position:{p}", f"position {p} has {sorted(used[p])}", P.j["span"])
        for q in ps[i + 1:]:
            cp = {str(count.get(v)) for v in used[p]}; cq = {str(count.get(v)) for v in used[q]}
            rep.req(not cp & cq, f"distinct:{p}:{q}", f"the positions {p} and {q} of a mangled name have the same separator", P.j["span"])
    # entry points
    an = SAn(F, N, rep, stop=lambda b, c: b in (T, A, P) or b is M)
    src = {av_str(s) for s, m in deep(an.eng, an.eng.local(an.root, 0))}
    ms = [s for c in ctxs_live(an) for bb in an.eng.live(c) for s in [(c, s) for s in c.body.blocks[bb]["s"] if s[0] == "=" and s[2][0] == "adt" and short(s[2][1]) == "Mangler"]]
    ok = len(ms) >= 1
    for c, s in ms:
        o = dict(zip(names, s[2][4]))
        ok = ok and all(av_str(strip(a)) == "arg0" for a in an.eng.expand(an.eng.operand(c, o["input"]))) and all(av_str(strip(a)) == "arg1" and not partial(a) for a in an.eng.expand(an.eng.operand(c, o["generic_values"])))
    rep.req(ok, "entry:name", "mangle_name mangles the given name with all given arguments", N.j["span"])
    mp = F.fn("mangle::mangle_path")
    if mp is None: rep.bad("anchor:mangle_path", "mangle_path not found"); return
    an = An(F, mp, lambda b, c: b is N, rep)
    cs = [c for c in an.calls if any(t[0] == "local" and t[1] is N for t in c.targets)]
    rep.req(bool(cs) and all(any(av_str(strip(a)).startswith("arg0") for a in c.earg(0)) and all(av_str(strip(a)) == "arg1" and not partial(a) for a in c.earg(1)) for c in cs), "entry:path", "mangle_path mangles the path's name with all given arguments", mp.j["span"])
    # users
    n = 0
    for b in F.bodies.values():
        if b.kind != "fn" or b in fs: continue
        for bb in b.calls:
            if callee(b.term(bb))[1] in (mp.id, N.id):
                n += 1
                an = An(F, root_of(F, b), lambda x, c: True, rep, maxdepth=1)
                cc = [c for c in an.calls if c.bb == bb and c.ctx.body is b]
                for c in cc:
                    ok = bool(c.earg(1)) and all(strip(a)[0] == "P" and strip(a)[2] == () and not partial(a) for a in c.earg(1))
                    rep.req(ok, f"use:{root_of(F, b).id}", f"{short(root_of(F, b).id)} mangles with {avs_str(c.earg(1))} instead of all its generic arguments", c.span)
    rep.floor("mangle_uses", n, 6)
