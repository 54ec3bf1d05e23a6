"""C05 instantiation keeps everything, C26 mangling, C30 conditions."""
import re
from .mir import short, strip_generics
from .flow import strip, marks, avs_str, av_str, label
from .cover import Shape, parse_ty
from .q import An, rets, describe
from .ccp import SEngine
from .rules_traversal import method, rbb

DESTRUCTIVE = set("""retain retain_mut truncate clear reverse dedup dedup_by dedup_by_key drain pop pop_front pop_back remove swap_remove
swap split_off rotate_left rotate_right sort sort_by sort_by_key sort_unstable sort_unstable_by sort_unstable_by_key shuffle
remove_entry shift_remove swap_take fill resize""".split())

class Vals:
    """field values of a rebuilt item, later stores included"""
    def __init__(self, an):
        self.an = an; self.e = an.eng
        self.calls = {(c.ctx, c.bb): c for c in an.calls}
        self.st = []
        for ctx in an.ctxs():
            for (bb, i, pl, rv) in self.e.stores(ctx):
                rest = [x for x in pl[1:] if x != "*"]
                if bb in ctx.body.reach and len(rest) == 1 and isinstance(rest[0], list) and rest[0][0] == "f":
                    self.st.append((ctx, bb, i, pl, rv, self.e.plabel(rest[0])[0]))
    def stored(self, av, lab=None):
        for x in self.st:
            if (lab is None or x[5] == lab) and strip(av) in {strip(y) for y in self.e.expand(self.e.local(x[0], x[3][0]))}: yield x
    def always(self, ctx, bb, l):
        """the store happens whenever the local it goes to was set"""
        own, ol = ctx, l
        c, b = ctx, bb
        for a in self.e.local(ctx, l):
            if a[0] == "L" and a[1] is not ctx: own, ol = a[1], a[2]
        gs = set()
        while c is not None and b is not None:
            gs |= {(c, a, frozenset(s)) for a, s in self.e.edge_guards(c, b) if not all(t.kind == "iter" for t in self.e.switch_atoms(c, a, s))}
            if c is own: break
            b = c.bb; c = c.parent
        base = set()
        for d in own.body.defs.get(ol, ()):
            if not d[2]: base |= {(own, a, frozenset(s)) for a, s in self.e.edge_guards(own, d[0])}
        return gs <= base
    def field(self, av, lab):
        out = set(); keep = True
        for (ctx, bb, i, pl, rv, _) in self.stored(av, lab):
            if self.always(ctx, bb, pl[0]): keep = False
            out |= self.e.callres(ctx, bb) if rv[0] == "callres" else self.e.rvalue(ctx, bb, i, rv)
        if keep or strip(av)[0] != "P": out |= set(self.e.project(frozenset([av]), lab, None, False))
        return self.e.expand(frozenset(out))
    def call_of(self, av):
        b = strip(av)
        return self.calls.get((b[1], b[2])) if b[0] == "R" else None

def is_self(av, path, root=0):
    """exactly the original's field, whole and in order"""
    b = strip(av)
    return not marks(av) and b[0] == "P" and b[1] == ("arg", root) and b[2] == tuple(path)

TYPED = {"Type", "GenericPath", "ConstExpr", "Field", "VariantBody", "EnumVariant", "GenericArgument", "Struct"}
# names are rebuilt from the arguments, parameters are consumed, and tags are resolved after instantiation
DERIVED = {"Struct.path", "Struct.export_name", "Struct.generic_params", "Struct.associated_constants",
           "Union.path", "Union.export_name", "Union.generic_params", "Enum.path", "Enum.export_name", "Enum.generic_params",
           "Typedef.path", "Typedef.export_name", "Typedef.generic_params", "OpaqueItem.path", "OpaqueItem.export_name", "OpaqueItem.generic_params",
           "EnumVariant.name", "EnumVariant.export_name", "GenericPath.ctype"}
VALUES = {"EnumVariant.discriminant"}

class C05:
    def __init__(self, F, rep): self.F = F; self.rep = rep; self.sh = Shape(F, TYPED); self.n = 0
    def value(self, key, an, V, avs, ty, path, where, parent=""):
        """avs must be a faithful copy of the value of type `ty` at arg0/path, parameters substituted"""
        rep = self.rep
        pos = self.sh.positions(ty)
        typed = [(s, t, g) for s, t, g in pos if short(t) in TYPED or self.sh.carries(t, g)] if parent not in VALUES else []
        tup = parse_ty(ty)
        while short(tup[0]) in ("Vec", "Box", "Option") and tup[1]: tup = parse_ty(tup[1][0])
        if not avs:
            rep.bad(key, f"{parent or ty} of the instance has no value", where); return
        if not typed:
            bad = [a for a in avs if not is_self(a, path)]
            if parent == "Struct.is_transparent": bad = [a for a in bad if not (strip(a)[0] == "K" and strip(a)[2] in (0, False))]
            if parent == "GenericPath.export_name": bad = [a for a in bad if not is_self(a, path[:-1] + ("GenericPath.path", "Path.name"))]
            self.n += 1
            rep.req(not bad, key, f"{parent or ty} of the instance comes from {describe(an.eng, frozenset(bad)) if bad else ''}, not from the original's {'/'.join(path)}", where)
            return
        for a in avs:
            b = strip(a)
            c = V.call_of(a)
            if parent == "ConstExpr::Path.0" and b[0] == "P" and b[1] == ("arg", 1): continue
            if parent == "GenericArgument::Const.0" and is_self(a, path): self.n += 1; continue   # literal arguments (syn parses a bare name as a type)
            if c is not None and c.name == "specialize" and not marks(a):
                # delegated: receiver must be exactly this position
                recv = [x for x in c.earg(0) if x != ("R", c.ctx, c.bb)]
                ok = bool(recv) and all(is_self(x, path) for x in recv)
                self.n += 1
                rep.req(ok, key, f"{parent or ty}: substitution is applied to {avs_str(frozenset(recv))} instead of {'/'.join(path)}", c.span)
                continue
            if is_self(a, path) and len(typed) == 1 and typed[0][0] == () and any(V.stored(a)):
                # a copy of the original whose fields are then replaced
                vs = self.F.adts[typed[0][1]]["variants"]
                if len(vs) == 1: self.adt(key, an, V, a, typed[0][1], vs[0][0], path, where); continue
            if b[0] == "A" and not marks(a):
                kind, adt, var, names, ops = an.eng.agg(b)
                if kind == "adt": self.adt(key, an, V, a, adt, var, path, where); continue
                if kind == "tup" and tup[0] == "()":
                    for i, t in enumerate(tup[1]):
                        self.value(f"{key}.{i}", an, V, V.e.expand(V.e.project(frozenset([a]), f"().{i}", i, False)), t, path + (f"().{i}",), where, f"{parent}.{i}")
                    continue
            self.n += 1
            rep.bad(key, f"{parent or ty}: {describe(an.eng, frozenset([a]))} is used without substituting the parameters", where)
    def adt(self, key, an, V, av, adt, var, path, where):
        for lab, v, f, ty in self.sh.fields(adt, ()):
            if v != var or lab in DERIVED: continue
            self.value(f"{key}:{lab}", an, V, V.field(av, lab), ty, path + (lab,), where, lab)
    def result(self, an, avs, ty, where):
        V = Vals(an)
        key = f"{ty}::{an.body.name}"
        aggs = 0
        for a in avs:
            c = V.call_of(a)
            if c is not None and c.name == "specialize" and not marks(a) and all(is_self(x, ()) for x in c.earg(0)): aggs += 1; continue
            b = strip(a)
            whole = is_self(a, ()) and any(V.stored(a))
            if whole or b[0] == "A" and not marks(a):
                if whole: adt = self.F.adt(ty)["id"]; var = self.F.adts[adt]["variants"][0][0]
                else: kind, adt, var, names, ops = an.eng.agg(b)
                aggs += 1
                self.adt(key, an, V, a, adt, var, (), where)
                for lab in (f"{ty}.path", f"{ty}.name"):
                    if lab in DERIVED and any(l == lab for l, *_ in self.sh.fields(adt, ())):
                        self.name(key, an, V, V.field(a, lab), lab, where)
                gp = V.field(a, f"{ty}.generic_params") if f"{ty}.generic_params" in DERIVED else ()
                if gp: self.rep.req(not any(strip(x)[0] == "P" and strip(x)[1] == ("arg", 0) for x in gp), f"{key}:params", f"the instance of a {ty} still has the generic's parameters", where)
                continue
            self.rep.bad(f"{key}:value", f"{ty}: {describe(an.eng, frozenset([a]))} is not an instance built from the original", where)
        self.rep.req(aggs > 0, f"{key}:built", f"{ty}: no instance is built", where)
        # nothing is removed or reordered on the way
        for c in an.calls:
            if c.name in DESTRUCTIVE and c.nargs and not any(t[0] == "local" for t in c.targets) and "mem::" not in c.fn:
                vs = c.earg(0)
                hit = [x for x in vs if strip(x)[0] in ("A",) or (strip(x)[0] == "P" and strip(x)[1] == ("arg", 0)) or (V.call_of(x) is not None and V.call_of(x).name == "specialize")]
                if any(strip(y)[0] == "L" or y[0] == "P" for y in c.arg(0)) and hit:
                    self.rep.bad(f"{key}:mutated:{c.name}", f"{ty}: {c.name} changes {avs_str(frozenset(hit))} while building the instance", c.span)
    def name(self, key, an, V, avs, lab, where):
        for a in avs:
            c = V.call_of(a)
            ok = c is not None and c.name in ("mangle_path", "mangle_name") and all(is_self(x, (lab,)) for x in c.earg(0)) and bool(c.earg(0)) \
                 and all(strip(x)[0] == "P" and strip(x)[1] == ("arg", 1) and not marks(x) for x in c.earg(1)) and bool(c.earg(1))
            self.rep.req(ok, f"{key}:{lab}", f"the name of the instance must be the mangling of {lab} with all arguments (is {describe(an.eng, frozenset([a]))})", where)

def c05(F, rep):
    rep.rule("in every specialize/instantiate_monomorph each field of the rebuilt value originates, whole and in order, from the same field of the original; every type-bearing field passes through specialize on exactly that position; a parameter is replaced by the argument at its own position")
    k = C05(F, rep)
    ST = {"specialize", "mangle_path", "mangle_name", "call"}
    stop = lambda x, c: (x.name in ST and (x.name != "call" or "GenericParams" in x.id)) or x.name.startswith("insert_") or x.name == "instantiate_monomorph"
    for ty in ("Struct", "EnumVariant", "VariantBody"):
        b = method(F, ty, "specialize")
        if b is None:
            if ty == "Struct": rep.bad("anchor:Struct::specialize", "Struct::specialize not found")
            continue
        an = An(F, b, stop, rep)
        k.result(an, rets(an), ty, b.j["span"])
        mappings(rep, an, f"{ty}::specialize")
        if ty == "VariantBody": variants_kept(F, rep, k, b, "VariantBody", stop)
    for ty in ("Struct", "Union", "Enum", "Typedef", "OpaqueItem"):
        b = method(F, ty, "instantiate_monomorph")
        if b is None: rep.bad(f"anchor:{ty}::instantiate_monomorph", f"{ty}::instantiate_monomorph not found"); continue
        an = An(F, b, stop, rep)
        ins = [c for c in an.calls if c.name.startswith("insert_") and "Monomorphs" in c.fn]
        if not ins: rep.bad(f"{ty}::instantiate_monomorph:insert", f"{ty}: no instance is registered", b.j["span"]); continue
        for c in ins:
            cand = [i for i in range(1, c.nargs) if strip_generics(F_ty(c, i)) == F.adt(ty)["id"]]
            # the instance is the owned argument, the generic the borrowed one
            own = [i for i in cand if not F_ty(c, i, True).startswith("&")]
            if rep.req(len(own) == 1, f"{ty}::instantiate_monomorph:argument", "cannot tell which argument is the instance", c.span):
                k.result(an, c.earg(own[0]), ty, c.span)
        mappings(rep, an, f"{ty}::instantiate_monomorph", own_call=True)
    for ty in ("Type", "ConstExpr", "GenericArgument"):
        b = method(F, ty, "specialize")
        if b is None: rep.bad(f"anchor:{ty}::specialize", f"{ty}::specialize not found"); continue
        variants_kept(F, rep, k, b, ty, stop)
        an = An(F, b, stop, rep)
        mappings(rep, an, f"{ty}::specialize")
        substitution(F, rep, an, ty)
    params_call(F, rep)
    # Struct::new may only drop transparency for empty structs
    b = F.fn("Struct::new")
    if b is not None:
        ty = F.adt("Struct")
        e = SEngine(F, hook=lambda eng, c: {("i", 0)} if c.name == "is_empty" else None)
        r = e.entry(b); e.analyse(r)
        d = describe(e, e.expand(e.project(e.local(r, 0), "Struct.is_transparent", None, False)))
        rep.req(re.fullmatch(r"arg\d+", d) is not None, "Struct::new:is_transparent", f"a struct with fields keeps its transparency (is {d})", b.j["span"])
    rep.floor("fields_checked", k.n, 60)

def F_ty(c, i, raw=False):
    op = c.term[2][i]
    pl = op.get("m") or op.get("c")
    if pl is None: return ""
    if len(pl) > 1: return "?"
    t = c.ctx.body.locals[pl[0]]
    if raw: return t
    return re.sub(r"^&('[a-z_0-9]+ )?(mut )?", "", t)

def variants_kept(F, rep, k, b, ty, stop):
    """per variant of the original: the result is that variant, rebuilt, or the argument bound to the parameter"""
    adt = F.adt(ty)
    for v, fs in adt["variants"]:
        e = SEngine(F, assume={"arg0": ("v", v)}, stop=lambda x, c: stop(x, c) and x is not b)
        an = An.__new__(An); an.F = F; an.body = b; an.eng = e; an.root = e.entry(b); an.calls = e.analyse(an.root); an.shape = Shape(F, ())
        rep.fn(b)
        V = Vals(an); n = 0
        typed = any(k.sh.carries(t, g) for f, fty, _ in fs for s, t, g in k.sh.positions(fty))
        for a in rets(an):
            x = strip(a); key = f"{ty}::{b.name}:{v}"
            if x[0] == "A" and not marks(a):
                kind, ad, var, names, ops = e.agg(x)
                if var == v: k.adt(key, an, V, a, ad, var, (), b.j["span"]); n += 1; continue
                if ty == "ConstExpr": n += 1; continue     # a parameter bound to a named constant
            if is_self(a, ()) and (not typed or ty == "ConstExpr"): n += 1; k.n += 1; continue
            if x[0] == "P" and x[1] == ("arg", 1) and x[2][:1] == ("().1",): continue      # substituted
            if x[0] == "P" and x[1][0] == "arg" and x[1][1] != 0 and not x[2]: continue
            rep.bad(f"{key}:value", f"{ty}::{v}: {describe(e, frozenset([a]))} is neither the rebuilt {v} nor an argument", b.j["span"])
        rep.req(n > 0, f"{ty}::{b.name}:{v}:kept", f"{ty}::{v} outside of parameters must be rebuilt as {v}", b.j["span"])

def mappings(rep, an, key, own_call=False):
    for c in an.calls:
        if c.name != "specialize": continue
        for i in range(1, c.nargs):
            vs = c.earg(i)
            for a in vs:
                x = strip(a)
                ok = not marks(a) and ((x[0] == "P" and x[1][0] == "arg" and x[1][1] > 0) or (x[0] == "R" and own_call))
                if x[0] == "P" and x[1][0] == "R": ok = True    # library.get_config()
                if x[0] == "R" and not own_call: ok = False
                rep.req(ok, f"{key}:arguments", f"substitution must use the parameter mapping of this instantiation (uses {describe(an.eng, frozenset([a]))})", c.span)
    if own_call:
        for c in an.calls:
            if c.name == "call" and "GenericParams" in c.fn:
                ok = all(strip(x)[0] == "P" and strip(x)[1] == ("arg", 0) and strip(x)[2][-1].endswith(".generic_params") for x in c.earg(0)) and \
                     all(strip(x)[0] == "P" and strip(x)[1] == ("arg", 1) and not marks(x) for x in c.earg(2))
                rep.req(ok, f"{key}:mapping", "the mapping pairs the item's own parameters with all given arguments", c.span)

def substitution(F, rep, an, ty):
    """an argument is returned only where its parameter's name equals the path"""
    b = an.body
    e = an.eng
    found = False
    for (l_bb, i, proj, rv) in e.defs_of(an.root, 0):
        v = e.expand(e.callres(an.root, l_bb) if rv[0] == "callres" else e.rvalue(an.root, l_bb, i, rv))
        if any(strip(x)[0] == "P" and strip(x)[1] == ("arg", 1) for x in v) or (ty == "ConstExpr" and any("arg1/().1" in describe(e, frozenset([x])) for x in v)):
            at = e.dguards(an.root, l_bb)
            for x in v:
                if set(marks(x)) & {"find", "find_map", "filter_map", "filter"}:
                    # selected by a search closure: what the closure requires of its result
                    for c in an.ctxs():
                        if c.via in ("find", "filter"): at |= e.ret_bool(c, True, 0)
                        elif c.via in ("find_map", "filter_map"):
                            for d in e.defs_of(c, 0):
                                if d[3][0] == "adt" and d[3][2] == "Some": at |= e.dguards(c, d[0])
            eq = [a for a in at if a.kind == "call" and short(a.fn) == "eq" and a.val is True and
                  any("arg1/().0" in avs_str(x) for x in a.args) and any("GenericPath.path" in avs_str(x) for x in a.args)]
            found = True
            def own(a):
                if a.kind in ("variant", "opt", "iter", "via"): return True
                if a in eq: return True
                if a.kind == "test" and a.fn == "is_empty" or a.kind == "call" and short(a.fn or "") == "is_empty": return all(strip(x)[0] == "P" and (strip(x)[2][-1:] == ("GenericPath.generics",) or strip(x)[1] == ("arg", 1)) for x in a.subj)
                if a.kind == "cmp": return not any(strip(y)[0] == "K" for x in a.args for y in x)       # an index loop
                return False
            extra = [a for a in at if not own(a)]
            rep.req(not extra, f"{ty}::specialize:always", f"{ty}: a parameter is replaced only under {extra[:2]}", b.j["span"])
            rep.req(bool(eq), f"{ty}::specialize:match", f"{ty}: an argument may replace a path only if its parameter's name equals the path", b.j["span"])
    if not found:
        # substitution may be written with iterator adaptors; then the search closure must compare the names
        ok = any(c.name == "eq" or c.name == "find" for c in an.calls)
        rep.req(ok and any("arg1" in describe(e, frozenset([x])) for x in rets(an)), f"{ty}::specialize:match", f"{ty}: parameters are never replaced", b.j["span"])

def params_call(F, rep):
    b = F.fn("GenericParams::call")
    if b is None: rep.bad("anchor:GenericParams::call", "GenericParams::call not found"); return
    an = An(F, b, (), rep); e = an.eng
    r = rets(an)
    n = e.expand(e.project(r, "().0", 0, False)); v = e.expand(e.project(r, "().1", 1, False))
    rep.req(bool(n) and all(is_self(x, ("GenericParams.0", "GenericParam.name")) for x in n), "GenericParams::call:name", f"each parameter is mapped under its own name (is {avs_str(n)})", b.j["span"])
    args = [x for x in v if strip(x)[0] == "P" and strip(x)[1] == ("arg", 2)]
    dfl = [x for x in v if is_self(x, ("GenericParams.0", "GenericParam.default"))]
    rep.req(bool(args) and bool(dfl) and len(args) + len(dfl) == len(v), "GenericParams::call:value", f"a parameter maps to its argument or its default (is {avs_str(v)})", b.j["span"])
    gets = [c for c in an.calls if c.name in ("get", "index") and any(strip(x)[0] == "P" and strip(x)[1] == ("arg", 2) for x in c.earg(0))]
    for c in gets:
        d = describe(e, c.earg(1))
        rep.req("op:" not in d, "GenericParams::call:position", f"a parameter takes the argument at its own position (index {d})", c.span)
