"""C23: only exported C-ABI functions and statics, under their symbol. C24: exclusion, item types, export marks."""
import re
from .mir import short, strip_generics, field_uses
from .flow import strip, marks, av_str, avs_str, is_std
from .graph import *
from .q import An, describe
from .rules_traversal import method
from .rules_io import SAn, strs
from .scn import *

ABIS = {"": 1, "C": 1, "C-unwind": 1, "cmse-nonsecure-entry": 1, "cmse-nonsecure-call": 1, "system": 0, "Rust": 0, "stdcall": 0, "sysv64": 0, "rust-cold": 0, "c": 0}
PARSE = ("Parse.functions", "Parse.globals", "Parse.constants", "Parse.structs", "Parse.unions", "Parse.enums", "Parse.opaque_items", "Parse.typedefs")

def stop_loaders(b, c):
    """item constructors are opaque here (their own rules look inside)"""
    return b.name == "exported_name" or (b.name == "load" and "Parse" not in b.id) or "bitflags" in b.id

def module_loader(F):
    b = F.fn("Parse::load_syn_crate_mod")
    if b is not None: return b
    cand = []
    for b in F.bodies.values():
        if b.kind != "fn" or b.is_closure or "Parse" not in b.id: continue
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s[0] == "=" and s[2] and s[2][0] == "discr" and strip_generics(s[2][2]).endswith("syn::Item"): cand.append(b)
    cand = list(dict.fromkeys(cand))
    return cand[0] if len(cand) == 1 else None

def leaf_sources(e, ctx, want_state=True):
    """{'value', 'ident'}: where a returned name may come from"""
    if want_state and e.optstate(ctx, {"c": [0]}) == {"None"}: return set()
    out = set()
    for a in e.expand(e.local(ctx, 0)):
        s = strip(a)
        if s[0] == "K" and s[1] == "none": continue
        if s[0] == "A":
            g = e.agg(s)
            if g[0] == "adt" and g[2] == "None": continue
        if s[0] == "R": out |= src(e, s)
        elif s[0] == "P" and s[2]: out.add(s[2][-1].split(".")[-1])
        else: out.add(av_str(s))
    return out
def src(e, s, depth=0):
    t = s[1].body.term(s[2]); fn = callee(t)[0]; nm = short(fn)
    if nm == "value": return {"value"}
    if nm in ("then", "then_some") and e.values(s[1], t[2][0]) == {("i", 0)}: return set()
    if e._opt_call(s[1], s[2], 6) == {"None"}: return set()
    out = set()
    if t[2] and depth < 5:
        for a in e.expand(e.operand(s[1], t[2][0])):
            x = strip(a)
            if x[0] == "P" and x[2] and x[2][-1].endswith(".ident"): out.add("ident")
            elif x[0] == "P" and x[2] and x[2][-1].endswith(("LitStr", ".lit")): out.add("value")
            elif x[0] == "R": out |= src(e, x, depth + 1)
            else: out.add(nm)
    return out or {nm}

def c23(F, rep):
    rep.rule("decision tables by conditional constant propagation: exported_name (every implementation) for each attribute shape and name; the module loader for each item kind, ABI, exported or not, skipped or not, in or out of the binding crate, public or not: an item is added to the parse result exactly in the scenarios that call for it; the name it is added under is the exported symbol; the symbol is what is written, and nothing stores into it afterwards")
    # ---- the exported symbol
    impls = [b for b in F.bodies.values() if b.kind == "fn" and not b.is_closure and b.name == "exported_name" and b.j.get("trait_fn", b.j.get("of_trait"))]
    rep.floor("exported_name_impls", len(impls), 3)
    rows = [("Path", {"no_mangle"}, {"ident"}), ("Path", set(), set()), ("Path", {"export_name"}, set()), ("Path", {"test"}, set()),
            ("NameValue", {"export_name"}, {"value"}), ("NameValue", {"no_mangle"}, set()), ("NameValue", {"doc"}, set()), ("NameValue", {"link_name"}, set()),
            ("List", {"unsafe", "no_mangle"}, {"ident"}), ("List", {"unsafe", "export_name"}, {"value"}), ("List", {"unsafe"}, set()),
            ("List", {"no_mangle"}, set()), ("List", {"export_name"}, set()), ("List", {"cfg", "no_mangle"}, set())]
    for b in impls:
        ty = short(strip_generics(b.j.get("impl_self", b.id)))
        for meta, ids, want in rows:
            an = SAn(F, b, rep, hook=idents(ids), adts={"Meta": meta})
            got = leaf_sources(an.eng, an.root)
            rep.req(got == want, f"symbol:{ty}:{meta}:{'+'.join(sorted(ids))}",
                    f"{ty}::exported_name with a {meta} attribute named {sorted(ids)}: name taken from {sorted(got) or 'nothing'}, expected {sorted(want) or 'nothing'}", b.j["span"])
        # an explicit symbol name wins over no_mangle
        def found(e, c):
            if any(x[0] == "local" for x in c.targets) and c.name != "exported_name":
                for x, kd in e.sub_contexts(c.ctx, c.bb):
                    if kd == "inline" and x.body.locals[0] == "std::option::Option<std::string::String>":
                        if ("found", c.ctx, c.bb) in e._vb: return None
                        e._vb.add(("found", c.ctx, c.bb))
                        try:
                            if leaf_sources(e, x) == {"value"}: return {("v", "Some")}
                        finally: e._vb.discard(("found", c.ctx, c.bb))
        for metas in (("Path", "NameValue"), ("NameValue", "List"), ("Path", "List"), ("List",), ("Path", "NameValue", "List")):
            an = SAn(F, b, rep, hook=hooks(idents({"unsafe", "export_name", "no_mangle"}), found), adts={"Meta": metas})
            rep.req("ident" not in leaf_sources(an.eng, an.root), f"symbol:{ty}:precedence:{'+'.join(metas)}", f"{ty}::exported_name prefers no_mangle over an explicit export_name (attributes of the shapes {', '.join(metas)})", b.j["span"])
    # ---- attributes that take an item out
    loader = module_loader(F)
    if loader is None: rep.bad("anchor:loader", "the module loader was not found"); return
    sk = [b for b in F.bodies.values() if b.name == "should_skip_parsing" and not b.is_closure]
    if not sk: rep.bad("anchor:skip", "should_skip_parsing not found")
    for b in sk[:1]:
        rows = [("Path", {"test"}, "", 1), ("Path", set(), "", 0), ("Path", {"cfg"}, "", 0), ("List", {"cfg", "test"}, "", 1), ("List", {"cfg"}, "", 0), ("List", {"test"}, "", 0),
                ("NameValue", {"doc"}, "cbindgen:ignore", 1), ("NameValue", {"doc"}, "other", 0), ("NameValue", set(), "cbindgen:ignore", 0), ("NameValue", {"test"}, "", 0)]
        for meta, ids, txt, want in rows:
            an = SAn(F, b, rep, hook=hooks(idents(ids), text(txt)), adts={"Meta": meta, "Expr": "Lit", "Lit": "Str"})
            vs = an.retvals()
            got = None if vs is None else ("i", 1) in vs
            rep.req(got is None and want == 1 or got == bool(want), f"skip:{meta}:{'+'.join(sorted(ids))}:{txt}", f"an attribute {meta} {sorted(ids)} {txt!r} {'never takes' if want else 'may take'} the item out", b.j["span"])
    # ---- the loader
    BASE = {"Meta": "Path", "ForeignItem": "Fn", "Visibility": "Public"}
    def run(item, abi="C", exp=1, skip=0, top=1, vis="Public", impl="Fn"):
        O = {"*/Signature.abi": "None" if abi is None else "Some", "*/Abi.name": "None" if abi == "" else "Some", "*/ItemForeignMod.abi": "Some"}
        return SAn(F, loader, rep, stop=stop_loaders, opts=O, adts={"Item": item, "Visibility": vis, "ForeignItem": "Fn", "ImplItem": impl},
                   hook=hooks(bools(should_skip_parsing=skip, should_generate_top_level_item=top), option("exported_name", "Some" if exp else "None"), text(abi)))
    def fields(an, *fs): return {f for f, c in sinks(an, fs)}
    nrow = 0
    for item in ("Fn", "Impl"):
        for abi in [None] + list(ABIS):
            for exp in (0, 1):
                an = run(item, abi, exp); got = sinks(an, ("Parse.functions",)); nrow += 1
                want = bool(abi is not None and ABIS[abi] and exp)
                nm = "no extern" if abi is None else "extern" if abi == "" else f'extern "{abi}"'
                rep.req(bool(got) == want, f"fn:{item}:{nm}:{exp}", f"a{'' if exp else 'n un'}{' ' if exp else ''}exported {'method' if item == 'Impl' else 'function'} ({nm}) is {'not ' if want else ''}added to the bindings", got[0][1].span if got else loader.j["span"])
                for f, c in got: names(rep, an, c, f"{item}", want)
    for abi in ABIS:
        an = run("ForeignMod", abi); nrow += 1
        want = abi in ("", "C", "C-unwind")
        got = sinks(an, ("Parse.functions",))
        rep.req(bool(got) == want, f"foreign:{abi}", f'a function declared in an extern "{abi}" block is {"not " if want else ""}added', loader.j["span"])
    for exp in (0, 1):
        an = run("Static", exp=exp); got = sinks(an, ("Parse.globals",)); nrow += 1
        rep.req(bool(got) == bool(exp), f"static:{exp}", f"{'an exported' if exp else 'a private'} static is {'not ' if exp else ''}added to the bindings", loader.j["span"])
        rep.req(not fields(an, "Parse.functions"), f"static:{exp}:kind", "a static is added as a function", loader.j["span"])
        for f, c in got: names(rep, an, c, "Static", True)
    own = {"Fn": "Parse.functions", "Impl": "Parse.functions", "ForeignMod": "Parse.functions", "Static": "Parse.globals", "Const": "Parse.constants"}
    base = fields(run("Use"), *PARSE)      # leftovers of code that does not depend on the item at hand
    for item, fld in own.items():
        an = run(item, top=0); nrow += 1
        rep.req(fld not in fields(an, fld) or fld in base, f"dep:{item}", f"a {item} item of a crate that is not bound is added to the bindings", loader.j["span"])
    for vis, want in (("Public", 1), ("Inherited", 0), ("Restricted", 0)):
        an = run("Const", vis=vis); nrow += 1
        got = [c for f, c in sinks(an, ("Parse.constants",)) if from_item(an, c, "Const")]
        rep.req(bool(got) == bool(want), f"const:{vis}", f"a constant of {vis} visibility is {'not ' if want else ''}added", loader.j["span"])
    for item in ("Fn", "Const", "Static", "Struct", "Union", "Enum", "Type", "Impl", "Macro", "ForeignMod"):
        an = run(item, skip=1); nrow += 1
        left = fields(an, *PARSE) - base
        rep.req(not left, f"ignored:{item}", f"an ignored or test-only {item} item is still added to {sorted(left)}", loader.j["span"])
    for item, impl in (("Impl", "Fn"), ("Impl", "Const"), ("ForeignMod", "Fn")):
        # the member is marked, not the block it stands in
        def inner(e, c):
            if c.name == "should_skip_parsing": return {("i", int(any("ImplItem::" in l or "ForeignItem::" in l for l in labels(e, c.earg(0)))))}
        an = SAn(F, loader, rep, stop=stop_loaders, opts={"*/Signature.abi": "Some", "*/Abi.name": "Some"}, adts={"Item": item, "Visibility": "Public", "ForeignItem": "Fn", "ImplItem": impl},
                 hook=hooks(inner, bools(should_generate_top_level_item=1), option("exported_name", "Some"), text("C")))
        nrow += 1
        if impl == "Const":
            # collected constants: the selecting step
            left = [c for c in an.live_calls() if c.name == "load" and "Constant" in c.fn and any("ImplItem::Const" in str(labels(an.eng, c.earg(i))) for i in range(c.nargs))]
        else: left = sinks(an, ("Parse.functions",))
        rep.req(not left, f"ignored:{item}:{impl}", f"an ignored or test-only member ({impl}) of a {item} block is still added", loader.j["span"])
    rep.notes["loader_scenarios"] = nrow
    # ---- only the loaders add functions and statics
    n = 0
    for b in F.bodies.values():
        if b.kind != "fn": continue
        for bb in b.calls:
            t = b.term(bb); fn = callee(t)[0]
            if short(fn) not in ("push", "try_insert", "extend", "extend_from_slice", "insert", "append") or not t[2]: continue
            fu = recv_field(b, t[2][0])
            if fu in ("Parse.functions", "Parse.globals"):
                n += 1
                rep.req(owned(F, b, lambda x: x.id == loader.id or x.name == "extend_with"), f"adder:{root_of(F, b).id}:{fu}", f"{short(b.id)} adds to {fu} outside of the module loader", t[5])
    rep.floor("adders", n, 4)
    # ---- the symbol is what is written
    for ty, f in (("Function", "path"), ("Static", "export_name"), ("Static", "path")):
        for b in F.bodies.values():
            if b.kind != "fn" or b.j.get("derived"): continue
            for kind, where, sp in stores(b, ty, f):
                rep.bad(f"rewritten:{ty}.{f}:{b.name}", f"{short(b.id)} {kind} {ty}.{f}: the declared name is no longer the exported symbol", sp)
    b = F.fn("Static::new")
    ok = False
    for b in F.bodies.values():
        if b.kind != "fn" or b.is_closure or b.j.get("derived"): continue
        for bb in b.reach:
            for i, s in enumerate(b.blocks[bb]["s"]):
                if s[0] == "=" and s[2][0] == "adt" and short(s[2][1]) == "Static" and "global" in s[2][1]:
                    an = An(F, b, (), rep)
                    ops = dict(zip(s[2][3], s[2][4])); 
                    vs = an.eng.expand(an.eng.operand(an.root, ops["export_name"]))
                    pa = an.eng.expand(an.eng.operand(an.root, ops["path"]))
                    ps = {av_str(strip(x)) for x in pa}
                    good = bool(vs) and all(any(av_str(strip(v)).startswith(p) for p in ps) for v in vs)
                    ok = True
                    rep.req(good, f"static-name:{b.name}", f"the declared name of a static is {describe(an.eng, vs)}, not its symbol", b.j["span"])
    rep.req(ok, "anchor:Static", "construction of Static not found")
    written(F, rep)

def from_item(an, c, variant):
    for a in c.earg(1):
        for x in deep_leaves(an.eng, frozenset([a])):
            if f"Item::{variant}.0" in av_str(x): return True
    return False
def deep_leaves(e, avs, depth=0, seen=None):
    seen = set() if seen is None else seen
    for a in e.expand(avs):
        s = strip(a)
        if s in seen: continue
        seen.add(s)
        if s[0] == "R" and depth < 8:
            t = s[1].body.term(s[2]); yield s
            for o in t[2]: yield from deep_leaves(e, e.operand(s[1], o), depth + 1, seen)
        elif s[0] == "A" and depth < 8:
            for o in e.agg(s)[-1]:
                if isinstance(o, dict): yield from deep_leaves(e, e.operand(s[1], o), depth + 1, seen)
        elif s[0] == "P" and s[1][0] == "R" and depth < 8:
            yield s
            yield from deep_leaves(e, frozenset([s[1]]), depth + 1, seen)
        else: yield s

def names(rep, an, c, item, want):
    """the path given to the item's constructor is the exported symbol"""
    if not want: return
    e = an.eng; ok = False; seen = False
    for a in e.expand(c.earg(1)):
        s = strip(a)
        s = s[1] if s[0] == "P" and s[1][0] == "R" else s
        if s[0] != "R": continue
        t = s[1].body.term(s[2])
        if short(callee(t)[0]) != "load": continue
        seen = True
        src_ = set()
        for x in e.expand(e.operand(s[1], t[2][0])):
            y = strip(x)
            for z in deep_leaves(e, frozenset([y])):
                if z[0] == "R": src_.add(short(callee(z[1].body.term(z[2]))[0]))
                elif z[0] == "P": src_.add(av_str(z))
        ok = "exported_name" in src_ and not any("Signature.ident" in x or "ItemStatic.ident" in x for x in src_)
    rep.req(seen and ok, f"name:{item}", f"the {item} item is added under another name than its exported symbol", c.span)

def recv_field(b, op, depth=0):
    """last field label of the receiver operand"""
    pl = op_place(op)
    if not pl or depth > 6: return None
    fs = [x for x in pl[1:] if isinstance(x, list) and x[0] == "f"]
    if fs: return f"{short(strip_generics(fs[-1][3]))}.{fs[-1][2]}" if len(fs[-1]) > 3 else None
    for d in b.defs.get(pl[0], ()):
        if d[2]: continue
        rv = d[3]
        if rv[0] == "ref":
            r = recv_field(b, {"c": rv[1]}, depth + 1)
            if r: return r
        if rv[0] in ("use", "cast") and isinstance(rv[1], dict):
            r = recv_field(b, rv[1], depth + 1)
            if r: return r
    return None

def stores(b, ty, f):
    """assignments and mutable borrows of ty.f"""
    def hit(pl):
        fs = [x for x in pl[1:] if isinstance(x, list) and x[0] == "f"]
        return fs and fs[-1][2] == f and len(fs[-1]) > 3 and short(strip_generics(fs[-1][3])) == ty
    for bb in b.reach:
        for s in b.blocks[bb]["s"]:
            if s[0] == "=":
                if hit(s[1]): yield "assigns", bb, b.j["span"]
                if s[2][0] == "ref" and len(s[2]) > 2 and s[2][2] is True and hit(s[2][1]): yield "borrows mutably", bb, b.j["span"]

def written(F, rep):
    """the identifier of function and static declarations"""
    n = 0
    for b in F.bodies.values():
        if b.kind != "fn" or b.is_closure: continue
        for bb in b.calls:
            t = b.term(bb); fn = callee(t)[0]
            if fn.endswith("CDecl::write") or fn.endswith("cdecl::write_field"):
                own_ = None
                for i in range(1, b.argc + 1):
                    ty = strip_generics(b.locals[i])
                    if ty.endswith("ir::function::Function") or ty.endswith("Static"): own_ = (i, ty)
                if own_ is None: continue
                an = An(F, b, lambda x, c: x.name in ("from_func", "from_type", "write"), rep)
                for c in an.calls:
                    if c.ctx is not an.root or c.bb != bb: continue
                    ix = 3
                    vs = c.earg(ix); n += 1
                    good = bool(vs)
                    for v in vs:
                        for z in deep_leaves(an.eng, frozenset([v])):
                            s = av_str(z)
                            if z[0] == "P" and z[1] == ("arg", own_[0] - 1) and (own_[1].endswith("Function") and z[2][:1] == ("Function.path",) or own_[1].endswith("Static") and z[2] == ("Static.export_name",)): continue
                            if z[0] == "R" and short(callee(z[1].body.term(z[2]))[0]) in ("deref", "as_str", "as_ref", "name", "borrow"): continue
                            good = False
                    rep.req(good, f"written:{short(own_[1])}:{b.name}:{short(b.j.get('impl_self', ''))}", f"{short(b.id)} declares {describe(an.eng, vs)} instead of the exported symbol", c.span)
    rep.floor("written_symbols", n, 3)

# ------------------------------------------------------------------ C24
KIND = {"Constants": "constants", "Globals": "globals", "Enums": "enums", "Structs": "structs", "Unions": "unions", "OpaqueItems": "opaque_items", "Typedefs": "typedefs", "Functions": "functions"}
EMIT = {"write_enum", "write_struct", "write_union", "write_opaque_item", "write_type_def", "write_static", "write_function"}

def labels(e, avs):
    """field labels anywhere behind a value"""
    out = set()
    for z in deep_leaves(e, avs):
        if z[0] == "P": out |= set(z[2])
    return out

def c24(F, rep):
    rep.rule("exclusion: every item collection of the library is filtered, unconditionally, after the last insertion and before anything consumes it, by a predicate that holds exactly when the item's path equals an entry of the exclude list; item types: with one kind switched off (constant propagation through should_generate) nothing of that kind's collection reaches the bindings or a lookup, with it on it does; export marks: with should_export false no declaration of any item kind is written and no symbol listed, and the mark consulted is the item's own")
    gen = F.fn("Library::generate")
    lib = [a for a in F.adts.values() if short(a["id"]) == "Library"]
    if gen is None or not lib: rep.bad("anchor:generate", "Library::generate not found"); return
    flds = [f for f, ty, *_ in lib[0]["variants"][0][1] if "ItemMap<" in ty or re.search(r"Vec<[\w:]*Function>", ty)]
    rep.floor("collections", len(flds), 8)
    # ---- exclusion
    filt = F.fn("ItemMap::<T>::filter") or next((b for b in F.bodies.values() if b.name == "filter" and "ItemMap" in b.id and not b.is_closure), None)
    if filt is not None:
        for val in (0, 1):
            # the predicate is the callback argument: called through Fn::call
            an = SAn(F, filt, rep, hook=lambda e, c, v=val: {("i", v)} if c.name in ("call", "call_mut", "call_once") and "ops::" in c.fn else None)
            for variant in ("Single", "Cfg"):
                an = SAn(F, filt, rep, adts={"ItemValue": variant}, hook=lambda e, c, v=val: {("i", v)} if c.name in ("call", "call_mut", "call_once") and "ops::" in c.fn else None)
                rts = [c for c in an.live_calls() if c.name in ("retain", "retain_mut", "filter") and is_std(c.fn) or c.name == "retain"]
                cl = [x for c in rts for x, kd in an.eng.sub_contexts(c.ctx, c.bb) if kd == "closure"]
                vals = [an.eng.lvals(x, 0) for x in cl]
                rep.req(any(v == {("i", 1 - val)} for v in vals) and not any(v == {("i", val)} for v in vals), f"filter:{variant}:{val}",
                        f"ItemMap::filter {'keeps' if val else 'drops'} a {variant} item its callback {'selects' if val else 'does not select'}", filt.j["span"])
    stop = lambda b, c: b.name in ("filter", "for_all_items", "for_all_items_mut", "for_items_mut", "add_dependencies", "get_items", "to_vec", "rebuild", "add_monomorphs", "mangle_paths", "sort") or (b.name == "new" and "Bindings" in b.id)
    hits = {}
    for eqv in (0, 1, 2):
        # 2: the item is listed, whichever way the list is searched
        def hook(e, c, v=eqv):
            if c.name in ("eq", "contains") and c.nargs == 2:
                ls = labels(e, c.earg(0)) | labels(e, c.earg(1))
                if "ExportConfig.exclude" in ls: return {("i", min(v, 1))}
            if v == 2 and is_std(c.fn) and c.nargs and c.name in ("any", "next", "is_empty", "find", "position", "all", "binary_search", "len"):
                if "ExportConfig.exclude" in labels(e, c.earg(0)):
                    return {"any": {("i", 1)}, "is_empty": {("i", 0)}, "next": {("v", "Some")}, "find": {("v", "Some")}, "position": {("v", "Some")}, "binary_search": {("v", "Ok")}, "len": {("i", 1)}}.get(c.name)
        an = SAn(F, gen, rep, stop=stop, hook=hook)
        for c in an.live_calls():
            if c.name not in ("filter", "retain", "retain_mut") or c.nargs < 2: continue
            fs = {x[2][0].split(".")[1] for x in map(strip, an.eng.expand(c.earg(0))) if x[0] == "P" and x[2] and x[2][0].startswith("Library.") and len(x[2]) == 1}
            if not fs: continue
            ctxs = [x for x, kd in an.eng.sub_contexts(c.ctx, c.bb) if kd == "closure"]
            if any(x[0] == "local" for x in c.targets) or not ctxs: ctxs = [y for av in c.earg(1) for y in an.eng.closure_ctx(c.ctx, c.bb, av, [frozenset([("P", ("arg", 0), ("Library." + f,))]) for f in fs] * 2)]
            vals = set()
            for x in ctxs: vals |= an.eng.lvals(x, 0) or {"?"}
            cmp = [d for d in an.eng.walk(ctxs[0]) if d.name == "eq" or d.name == "contains"] if ctxs else []
            pathy = any("path" in str(labels(an.eng, d.earg(i))) or any(short(callee(z[1].body.term(z[2]))[0]) in ("path", "name") for z in deep_leaves(an.eng, d.earg(i)) if z[0] == "R") for d in cmp for i in range(min(2, d.nargs)))
            for f in fs: hits.setdefault(f, {}).setdefault(eqv, []).append((c.name, vals, c, pathy, an))
    for f in flds:
        h = hits.get(f, {})
        good = None
        for nm, vals, c, pathy, an in h.get(1, []):
            drop = ("i", 1) if nm == "filter" else ("i", 0)
            if drop in vals and pathy: good = (nm, c, an)
        rep.req(good is not None, f"exclude:{f}", f"excluded items of Library.{f} are not removed", gen.j["span"])
        if good is None: continue
        sure = [v for nm, v, c, p, a in h.get(2, []) if (c.ctx.body.id, c.bb) == (good[1].ctx.body.id, good[1].bb)]
        rep.req(any(v == {("i", 1) if good[0] == "filter" else ("i", 0)} for v in sure), f"exclude:{f}:every", f"an excluded item of Library.{f} is removed only under a further condition", good[1].span)
        keepv = {("i", 0)} if good[0] == "filter" else {("i", 1)}
        same = [v for nm, v, c, p, a in h.get(0, []) if (c.ctx.body.id, c.bb) == (good[1].ctx.body.id, good[1].bb)]
        rep.req(any(v == keepv for v in same), f"exclude:{f}:only", f"an item of Library.{f} that is not excluded may be removed", good[1].span)
        an, c = good[2], good[1]
        gs = [a for a in c.dguards() if a.kind not in ("iter",)]
        rep.req(not gs, f"exclude:{f}:always", f"Library.{f} is filtered only under {gs[:2]}", c.span)
        rb = rbb(c)
        for d in an.live_calls():
            ls = {x[2][0] for x in map(strip, an.eng.expand(d.earg(0))) if x[0] == "P" and x[2] and len(x[2]) <= 2} if d.nargs else set()
            if d.name in ("try_insert", "push", "insert", "extend") and "Library." + f in ls:
                rep.req(not precedes(an, c, d), f"exclude:{f}:last", f"items are added to Library.{f} after the excluded ones were removed", d.span)
            if d.name in ("to_vec", "add_dependencies", "get_items") or (d.name == "new" and "Bindings" in d.fn):
                if d.name == "to_vec" and "Library." + f not in ls: continue
                rep.req(precedes_always(an, c, d), f"exclude:{f}:first:{d.name}", f"Library.{f} is consumed ({d.name}) before the excluded items are removed", d.span)
    # ---- item types
    sg = F.fn("ExportConfig::should_generate")
    if sg is None: rep.bad("anchor:should_generate", "ExportConfig::should_generate not found")
    else:
        for em, co, want in ((1, 0, 1), (0, 1, 1), (0, 0, 0)):
            an = SAn(F, sg, rep, hook=lambda e, c: {("i", em)} if c.name == "is_empty" else {("i", 0 if em else 2)} if c.name == "len" else {("i", co)} if c.name in ("contains", "eq", "any") else None)
            rep.req(an.retvals() == {("i", want)}, f"types:{em}{co}", f"should_generate with {'an empty list' if em else 'the kind listed' if co else 'the kind not listed'} gives {an.retvals()}", sg.j["span"])
    gi = F.fn("Library::get_items")
    def off(kind):
        def hook(e, c):
            if c.name == "should_generate":
                vs = {x[2] if x[0] == "K" else None for x in ()} or variants_of(e, c.earg(1))
                return {("i", int(v != kind)) for v in vs} or None
        return hook
    bn = next((b for b in F.bodies.values() if b.name == "new" and "Bindings" in b.id and not b.is_closure), None)
    ng = 0
    for kind, f in KIND.items():
        for k, live in ((kind, False), (None, True)):
            if f in ("constants", "globals", "functions"):
                an = SAn(F, gen, rep, stop=lambda b, c: stop(b, c) and b.name not in ("to_vec", "for_all_items") or b.name in ("transfer_annotations", "instantiate_monomorphs", "simplify_standard_types", "rename_items", "resolve_declaration_types", "remove_excluded"), hook=off(k))
                src_ = set()
                for c in an.live_calls():
                    if c.name == "new" and "Bindings" in c.fn:
                        for i in range(c.nargs):
                            pn = dict(bn.j["names"]) if bn else {}
                            if pn.get(i + 1) == f: src_ |= labels(an.eng, c.earg(i))
            else:
                if gi is None: rep.bad("anchor:get_items", "Library::get_items not found"); break
                an = SAn(F, gi, rep, hook=off(k))
                src_ = labels(an.eng, an.eng.local(an.root, 0))
            ng += 1
            rep.req(("Library." + f in src_) == live, f"type:{kind}:{'on' if live else 'off'}", f"with item type {kind} {'on' if live else 'off'}, items of Library.{f} are {'not ' if live else ''}generated", (gen if f in ("constants", "globals", "functions") else gi).j["span"])
    # everything in the output order was looked up through get_items
    n = 0
    for b in F.bodies.values():
        if b.kind != "fn" or b.is_closure: continue
        if not any(recv_field(x, x.term(bb)[2][0]) == "Dependencies.order" for x in F.bodies.values() if root_of(F, x) is b for bb in x.calls if x.term(bb)[2] and short(callee(x.term(bb))[0]) in ("push", "extend", "insert", "append")): continue
        an = An(F, b, lambda x, c: x.name in ("get_items", "add_dependencies", "remove_excluded", "rename_items", "instantiate_monomorphs", "transfer_annotations", "resolve_declaration_types", "simplify_standard_types", "sort"), rep)
        for c in an.calls:
            if c.name not in ("push", "extend", "insert", "append") or recv_field(c.ctx.body, c.ctx.body.term(c.bb)[2][0]) != "Dependencies.order": continue
            n += 1
            vs = an.eng.expand(c.earg(c.nargs - 1))
            ok = bool(vs) and all(any(z[0] == "R" and strip_generics(callee(z[1].body.term(z[2]))[1]).endswith("Library::get_items") for z in deep_leaves(an.eng, frozenset([v]))) for v in vs)
            rep.req(ok, f"order:{root_of(F, b).id}", f"{short(b.id)} puts an item in the output that was not looked up among the generated items ({describe(an.eng, vs)[:80]})", c.span)
    rep.floor("order_sites", n, 1)
    # ---- export marks
    se = F.fn("AnnotationSet::should_export")
    if se is None: rep.bad("anchor:should_export", "should_export not found"); return
    an = An(F, se, {"bool"}, rep)
    key = set().union(*[strs(c.earg(i)) for c in an.calls for i in range(c.nargs)])
    rep.req(key == {"no-export"}, "mark:name", f"should_export looks at the annotation {sorted(key)}, documented as no-export", se.j["span"])
    for st, v, want in (("None", None, {1}), ("Some", 0, {1}), ("Some", 1, {0})):
        def hook(e, c):
            if c.name == "bool": return {("v", st)}
            if c.name in ("unwrap_or", "unwrap_or_default"):
                return {("i", v)} if st == "Some" else (e.values(c.ctx, c.ctx.body.term(c.bb)[2][1]) if c.nargs > 1 else {("i", 0)})
            if c.name in ("eq", "ne", "is_some_and", "is_none_or", "map_or"): return None
        an = SAn(F, se, rep, hook=hook)
        vs = an.retvals()
        rep.req(vs is None or {x[1] for x in vs} == want, f"mark:{st}:{v}", f"should_export is {vs} when the annotation is {'absent' if st == 'None' else 'true' if v else 'false'}", se.j["span"])
    for be in ("CLikeLanguageBackend", "CythonLanguageBackend"):
        wb = next((b for b in F.bodies.values() if b.name == "write_bindings" and be in b.id), None) or next((b for b in F.bodies.values() if b.name == "write_bindings" and not b.is_closure), None)
        if wb is None: rep.bad("anchor:write_bindings", "write_bindings not found"); break
        ty = next((strip_generics(b.j["impl_self"]) + "<'a>" for b in F.bodies.values() if be in str(b.j.get("impl_self")) and b.j.get("trait_fn")), be)
        for val in (0, 1):
            an = SAn.__new__(SAn)
            an.F = F; an.body = wb
            from .ccp import SEngine
            an.eng = SEngine(F, stop=lambda b, c: (b.name in EMIT or b.name in ("write_documentation", "should_export") or (b.name in ("write", "write_declaration") and "Constant" in b.id) or b.name in ("write_headers", "write_footers")) and b is not wb, hook=bools(should_export=val))
            an.root = an.eng.entry(wb, {"Self": ty}); an.calls = an.eng.analyse(an.root); 
            rep.fn(wb)
            seen = {}
            for c in an.live_calls():
                if c.name not in EMIT: continue
                nm = c.name
                seen.setdefault(nm, []).append(c)
            for nm, cs in seen.items():
                for c in cs:
                    if val == 0:
                        quiet = True
                        tb = [t[1] for t in c.targets if t[0] == "local"]
                        for b in tb:
                            a2 = SAn(F, b, rep, hook=bools(should_export=0))
                            w = [d for d in a2.live_calls() if "SourceWriter" in d.fn and d.name.startswith(("write", "new_line", "open_brace"))]
                            if w: quiet = False
                        rep.req(bool(tb) and quiet, f"mark:{be}:{nm}", f"{nm} is reached for an item that is marked not to be exported", c.span)
            if val == 1:
                for nm in sorted(EMIT):
                    rep.req(nm in seen, f"mark:{be}:{nm}:on", f"{nm} is never reached for exported items", wb.j["span"])
                for c in an.live_calls():
                    if c.name != "should_export": continue
                    own_ = {l for l in labels(an.eng, c.earg(0)) if l.startswith("Bindings.")}
                    rep.req(bool(own_), f"mark:{be}:subject:{c.ctx.body.name}", f"the mark consulted is not one of the item at hand ({describe(an.eng, c.earg(0))[:60]})", c.span)
    # constants, standing alone or associated, with every other item exported
    from .ccp import SEngine
    for be in ("CLikeLanguageBackend", "CythonLanguageBackend"):
        wb = next((b for b in F.bodies.values() if b.name == "write_bindings" and not b.is_closure), None)
        ty = next((strip_generics(b.j["impl_self"]) + "<'a>" for b in F.bodies.values() if be in str(b.j.get("impl_self")) and b.j.get("trait_fn")), be)
        for val in (0, 1):
            def hook(e, c):
                if c.name == "should_export":
                    ls = labels(e, c.earg(0))
                    return {("i", val if any(l.startswith("Constant.") for l in ls) else 1)}
            an = SAn.__new__(SAn); an.F = F; an.body = wb
            an.eng = SEngine(F, stop=lambda b, c: b is not wb and b.name in ("write_documentation", "write_type", "write_field", "write_headers", "write_footers", "write_enum", "write_union", "write_literal", "write_function", "write_static", "write_fields", "open_namespaces", "close_namespaces", "to_condition"), hook=hook, maxdepth=12)
            an.root = an.eng.entry(wb, {"Self": ty}); an.calls = an.eng.analyse(an.root)
            got = set()
            for c in an.live_calls():
                if not ("SourceWriter" in c.fn or c.name in ("write_field", "write_literal", "write_documentation")): continue
                own_ = [x for x in c.ctx.chain() if x.body.name in ("write", "write_declaration") and "Constant" in x.body.id]
                if own_: got.add((own_[0].body.name, c.span)); rep.fn(own_[0].body)
            if val == 0: rep.req(not got, f"mark:{be}:constants", f"Constant::{sorted(got)[0][0] if got else ''} writes a constant that is marked not to be exported", sorted(got)[0][1] if got else "")
            else: rep.req({"write"} <= {g[0] for g in got}, f"mark:{be}:constants:on", "constants are never written", wb.j["span"])
    ds = F.fn("Bindings::dynamic_symbols_names")
    if ds is None: rep.bad("anchor:symbols", "dynamic_symbols_names not found"); return
    for val in (0, 1):
        an = SAn(F, ds, rep, hook=bools(should_export=val))
        ls = labels(an.eng, an.eng.local(an.root, 0))
        for f in ("functions", "globals"):
            rep.req((f"Bindings.{f}" in ls) == bool(val), f"symbols:{f}:{val}", f"the symbol list {'omits exported' if val else 'contains not exported'} {f}", ds.j["span"])

def variants_of(e, avs):
    out = set()
    for a in e.expand(avs):
        s = strip(a)
        if s[0] == "A" and e.agg(s)[0] == "adt": out.add(e.agg(s)[2])
        elif s[0] == "K" and s[1] in ("none", "const"): out.add(str(s[2]).split("::")[-1])
    return out
def rbb(c):
    ctx, bb = c.ctx, c.bb
    while ctx.parent is not None: bb = ctx.bb; ctx = ctx.parent
    return bb
def chainpos(c):
    """[(ctx, bb)] from the entry down to the call"""
    out = []; ctx, bb = c.ctx, c.bb
    while ctx is not None: out.append((ctx, bb)); bb = ctx.bb; ctx = ctx.parent
    return out[::-1]
def precedes(an, a, b):
    """b may run after a"""
    for (c1, x), (c2, y) in zip(chainpos(a), chainpos(b)):
        if c1 is not c2: return True
        if x != y: return c1.body.reaches(x, y)
    return False
def precedes_always(an, a, b):
    for (c1, x), (c2, y) in zip(chainpos(a), chainpos(b)):
        if c1 is not c2: return False
        if x != y: return c1.body.dominates(x, y) if hasattr(c1.body, "dominates") else not c1.body.reaches(y, x)
    return True
