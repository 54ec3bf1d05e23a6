"""C02 dependencies, C03 renaming, C04 monomorphs, C06 simplification, C07 tag resolution."""
import re
from .mir import short, strip_generics
from .flow import strip, marks, avs_str, av_str
from .eff import must
from .cover import Coverage, Shape, self_paths, residual, tautology, atom_key
from .q import An, names_in, rets, describe
from .ccp import SEngine

ITEMS = {"Constant", "Static", "OpaqueItem", "Struct", "Union", "Enum", "Typedef", "Function"}
# GenericParam carries the declared parameter list, not a use of a type; const names are not types.
PARAMS = ("GenericParamType::Const.0", "GenericParam.default")
CONSTNAME = ("ConstExpr::Path.0",)

def allow_tag(a):
    """the synthetic tag field of a tagged-union variant body is added by the tool itself"""
    if a.kind == "bool" and any(strip(x)[0] == "P" and strip(x)[2][-1:] == ("Struct.has_tag_field",) for x in a.subj): return True
    if a.kind in ("cmp", "int") and a.args and any(not x for x in a.args) and any(
            any(strip(y)[0] == "K" and strip(y)[1] == "int" and strip(y)[2] in (0, 1) for y in x) for x in a.args): return True
    return False
def tag_marks(m): return [x for x in m if not (x.startswith("skip[") and x.endswith("Struct.has_tag_field]"))]

def not_generic_param(a):
    """`path` is not one of the generic parameters in scope (a membership test that is false)"""
    def mentions(a):
        for x in a.args:
            for y in x:
                y = strip(y)
                if y[0] == "P" and any(l.startswith("GenericParam") for l in y[2]): return True
                if y[0] == "P" and y[1][0] == "arg" and y[2] == (): pass
        return False
    return a.kind == "call" and mentions(a) and (a.val is False if short(a.fn) in ("any", "contains", "eq") else a.val is True)

class Cov(Coverage):
    """coverage that knows about the skipped tag field"""
    def need(self, desc, body, path, t, g, sinks, root, depth=0):
        for s in sinks: s.marks = tag_marks(s.marks)
        return Coverage.need(self, desc, body, path, t, g, sinks, root, depth)

def partial_iteration(rep, an, desc):
    """an element taken off an iterator before the loop that walks it (only the tag field may be)"""
    for c in an.calls:
        if c.name in ("next", "nth", "next_back", "advance_by") and c.ctx.bb is None and not c.ctx.body.in_cycle(c.bb):
            own = {strip(a) for a in c.arg(0) if strip(a)[0] == "L"}
            if not own: continue
            looped = [d for d in an.calls if d.name in ("next", "into_iter", "for_each", "map", "collect", "next_back") and d is not c
                      and own & ({strip(a) for a in d.arg(0)} if d.nargs else set())]
            later = [d for d in looped if d.ctx is c.ctx and c.ctx.body.reaches(c.bb, d.bb)]
            if not later: continue
            g = [a for a in c.guards() if a.kind == "bool" and a.val is True and allow_tag(a)]
            rep.req(bool(g), f"{desc}:skipped-element", f"{desc} takes an element off the iterator before walking it, not limited to the tag field", c.span)

def coverage(F, rep, root, family, bases, skip=(), allow=None, only=None, special=None, roots=None, lib="Library"):
    cov = Cov(F, rep, family, bases, allow=allow, skip=skip)
    b = F.fn(root)
    if b is None:
        rep.bad(f"anchor:{root}", f"entry point {root} not found"); return cov
    cov.run(b, F.adt(lib)["id"], only=only, desc=f"{root}[{sorted(family)[0]}]" if short(root) not in family else None)
    for r in roots or []: cov.enqueue(r)
    def sp(body, c):
        # whole-value delegation: self handed to another family method
        if special and special(body, c): return True
        return False
    cov.drain(sp)
    rep.notes["methods"] = rep.notes.get("methods", 0) + cov.methods
    rep.notes["visit_sites"] = rep.notes.get("visit_sites", 0) + cov.sinks
    return cov

def method(F, ty, name):
    c = [b for b in F.bodies.values() if b.kind == "fn" and b.name == name and short(strip_generics(b.j.get("impl_self", ""))) == ty]
    return c[0] if len(c) == 1 else None

def rbb(call, ctx=None):
    """block of the entry function (or of `ctx`) in which the call happens"""
    c, b = call.ctx, call.bb
    while c.parent is not None and c is not ctx and c.bb is not None:
        b = c.bb; c = c.parent
    return b

def before(an, first, then):
    """no execution runs `then` and afterwards `first`... and `first` comes first"""
    body = an.body
    return all(not body.reaches(rbb(t), rbb(f)) and rbb(t) != rbb(f) for f in first for t in then)


LIBMAPS = ("constants", "globals", "enums", "structs", "unions", "opaque_items", "typedefs")

def whole_self_stores(an, root=0):
    """[(ctx, bb, AVs)] assignments through a reference to the whole of argument `root`"""
    out = []
    for ctx in an.ctxs():
        for (bb, i, pl, rv) in an.eng.stores(ctx):
            if [e for e in pl[1:] if e != "*"]: continue
            if bb not in ctx.body.reach: continue
            for av in an.eng.expand(an.eng.local(ctx, pl[0])):
                a = strip(av)
                if a[0] == "P" and a[1] == ("arg", root) and a[2] == ():
                    v = an.eng.callres(ctx, bb) if rv[0] == "callres" else an.eng.rvalue(ctx, bb, i, rv)
                    out.append((ctx, bb, an.eng.expand(v)))
    return out

PASSES = {"simplify_standard_types", "instantiate_monomorphs", "resolve_declaration_types", "rename_items",
          "add_dependencies", "get_items", "transfer_annotations", "remove_excluded"}

def generate_an(F, rep):
    g = F.fn("Library::generate")
    if g is None:
        rep.bad("anchor:generate", "Library::generate not found"); return None
    return An(F, g, PASSES, rep)

# ---------------------------------------------------------------- C06
G = "arg0/Type::Path.0/GenericPath.generics/GenericArgument::Type.0"
PTR = "Type::Ptr{is_const=0,is_nullable=0,is_ref=0,ty=G}"
NULLABLE = ["Type::FuncPtr{args=G/Type::FuncPtr.args,is_nullable=1,never_return=G/Type::FuncPtr.never_return,ret=G/Type::FuncPtr.ret}",
            "Type::Ptr{is_const=G/Type::Ptr.is_const,is_nullable=1,is_ref=G/Type::Ptr.is_ref,ty=G/Type::Ptr.ty}"]
def INT(z): return "Type::Primitive{0=PrimitiveType::Integer{kind=G/Type::Primitive.0/PrimitiveType::Integer.kind,signed=G/Type::Primitive.0/PrimitiveType::Integer.signed,zeroable=%d}}" % z
SIMPL = {"Option": (NULLABLE + [INT(1)],) * 3, "NonNull": ([PTR],) * 3, "NonZero": ([INT(0)],) * 3,
         "Box": ([PTR], [], [PTR]), "Cell": (["G"],) * 3, "UnsafeCell": (["G"],) * 3, "SyncUnsafeCell": (["G"],) * 3,
         "ManuallyDrop": (["G"], [], ["G"]), "MaybeUninit": (["G"], [], ["G"]), "Pin": (["G"], [], ["G"]),
         "Vec": ([],) * 3}

def c06(F, rep):
    rep.rule("every type position of every emitted item kind reaches Type::simplify_standard_types, which recurses through every type constructor and stores the simplified form; the wrapper table is decided by conditional constant propagation per wrapper name and language")
    skip = PARAMS + CONSTNAME + ("Library.config", "Library.constants", "Struct.associated_constants", "EnumVariant.discriminant")
    coverage(F, rep, "Library::simplify_standard_types", {"simplify_standard_types"}, {"Type"}, skip=skip)
    an = generate_an(F, rep)
    if an:
        s = [c for c in an.named("simplify_standard_types") if an.has_path(c, 0, ())]
        an.must(rep, "generate:simplify", s, "generation runs the simplification pass")
        later = an.named("instantiate_monomorphs", "add_dependencies", "resolve_declaration_types", "rename_items")
        rep.req(bool(s) and bool(later) and before(an, s, later), "generate:simplify-first", "simplification must precede instantiation, tag resolution, renaming and dependency collection", s[0].span if s else "")
    b = method(F, "Type", "simplify_standard_types")
    if b is None: rep.bad("anchor:Type::simplify", "Type::simplify_standard_types not found"); return
    for name, exp in SIMPL.items():
        for lang, want in zip(("C", "Cxx", "Cython"), exp):
            e = SEngine(F, assume={"arg0": ("v", "Path"), "arg0/Type::Path.0/GenericPath.path/Path.name": ("s", name),
                                   "arg1/Config.language": ("v", lang)}, stop=lambda x, c: x.name == "simplify_standard_types")
            a = An.__new__(An); a.F = F; a.body = b; a.eng = e; a.root = e.entry(b); a.calls = e.analyse(a.root); a.shape = None
            got = set()
            for ctx in a.ctxs():
                live = e.live(ctx)
                for (bb, i, pl, rv) in e.stores(ctx):
                    if bb not in live or [x for x in pl[1:] if x != "*"]: continue
                    if any(strip(v)[:2] == ("P", ("arg", 0)) and strip(v)[2] == () for v in e.expand(e.local(ctx, pl[0]))):
                        v = e.callres(ctx, bb) if rv[0] == "callres" else e.rvalue(ctx, bb, i, rv)
                        d = describe(e, v)
                        d = re.sub(r"~(index|get|first|once)~", "", d).replace(G, "G").replace("call:simplified_type", "G")
                        got |= set(split_alt(d))
            got -= {"None"}
            rep.req(got == set(want), f"simplified:{name}:{lang}", f"{name}<G> in {lang} simplifies to {sorted(got) or 'nothing'}, expected {sorted(want) or 'nothing'}", b.j["span"])
    rep.floor("methods", rep.notes.get("methods", 0), 8)

def split_alt(d):
    """split on top-level '|', normalising duplicates inside fields"""
    out, depth, cur = [], 0, ""
    for c in d:
        if c in "{(": depth += 1
        elif c in ")}": depth -= 1
        if c == "|" and depth == 0: out.append(cur); cur = ""
        else: cur += c
    out.append(cur)
    r = []
    for x in out:
        m = re.match(r"^([\w:]+)\{(.*)\}$", x)
        if m:
            fs = []
            d2, cur = 0, ""
            for c in m.group(2) + ",":
                if c in "{(": d2 += 1
                elif c in ")}": d2 -= 1
                if c == "," and d2 == 0: fs.append(cur); cur = ""
                else: cur += c
            fs = [f.split("=", 1)[0] + "=" + "|".join(sorted(set(split_alt(f.split("=", 1)[1])))) for f in fs]
            x = m.group(1) + "{" + ",".join(fs) + "}"
        r.append(x)
    return r

# ---------------------------------------------------------------- C07
def style_ok(a):
    if a.kind == "variant" and a.fn == "Style": return {"Both", "Tag"} <= set(a.val)
    if a.kind == "variant" and a.fn == "Language": return "C" in a.val
    return False
DECL = {"structs": ("Struct", "add_struct"), "unions": ("Union", "add_union"), "enums": ("Enum", "add_enum"),
        "typedefs": ("Typedef", "add_none"), "opaque_items": ("OpaqueItem", "add_struct")}

def _v(x): return ("v", x)
TAGS = {"Struct": [({"arg0/Struct.is_transparent": ("i", 1)}, {}, "None"), ({"arg0/Struct.is_transparent": ("i", 0)}, {}, "DeclarationType::Struct")],
        "Union": [({}, {}, "DeclarationType::Union")], "Typedef": [({}, {}, "None")], "OpaqueItem": [({}, {}, "DeclarationType::Struct")],
        "Enum": [({"arg0/Enum.repr/Repr.style": _v("C")}, {"arg0/Enum.tag": "Some"}, "DeclarationType::Struct"),
                 ({"arg0/Enum.repr/Repr.style": _v("Rust")}, {"arg0/Enum.tag": "Some"}, "DeclarationType::Union"),
                 ({"arg0/Enum.repr/Repr.style": _v("C")}, {"arg0/Enum.tag": "None"}, "DeclarationType::Enum"),
                 ({"arg0/Enum.repr/Repr.style": _v("Rust")}, {"arg0/Enum.tag": "None"}, "None")]}

def c07(F, rep):
    rep.rule("every item map contributes to the tag table before any reference is resolved; every type position of every item reaches GenericPath resolution, which stores the looked-up tag")
    # after instantiation C has no generic arguments left, so they hold no references
    skip = PARAMS + CONSTNAME + ("Library.config", "Library.constants", "Struct.associated_constants", "EnumVariant.discriminant", "GenericPath.generics", "Library.opaque_items")
    coverage(F, rep, "Library::resolve_declaration_types", {"resolve_declaration_types"}, {"Type", "GenericPath"}, skip=skip, allow=style_ok)
    root = F.fn("Library::resolve_declaration_types")
    if root:
        an = An(F, root, {"resolve_declaration_types", "collect_declaration_types"}, rep)
        res = an.named("resolve_declaration_types"); col = an.named("collect_declaration_types")
        for m, (ty, fn) in DECL.items():
            for v in ("Cfg", "Single"):
                p = (f"Library.{m}", "ItemMap.data", f"ItemValue::{v}.0")
                an.must(rep, f"collect:{m}:{v}", [c for c in col if an.has_path(c, 0, p)], f"{m} ({v}) contribute to the tag table", path=p, allow=style_ok)
        rep.req(bool(res) and bool(col) and before(an, col, res), "collect-before-resolve", "the tag table must be complete before references are resolved", root.j["span"])
        op = [c for c in col if any(p[0][:1] == ("Library.opaque_items",) for p in an.paths(c, 0))]
        other = [c for c in col if c not in op]
        rep.req(bool(op) and before(an, other, op), "opaque-last", "opaque items must enter the tag table last (a definition of the same name wins)", root.j["span"])
    for m, (ty, fn) in DECL.items():
        b = method(F, ty, "collect_declaration_types")
        if b is None: rep.bad(f"collector:{ty}", f"{ty}::collect_declaration_types not found"); continue
        an = An(F, b, lambda x, c: x.name == "insert" and "DeclarationTypeResolver" in x.id, rep)
        classes = ("Struct.is_transparent", "Enum.tag", "Repr.style")
        an.must(rep, f"collector:{ty}:always", [c for c in an.named("insert") if c.nargs == 3], f"every {ty} enters the tag table",
                allow=lambda a: bool(a.subj) and all(strip(x)[0] == "P" and strip(x)[2][-1:] and strip(x)[2][-1] in classes for x in a.subj) or (a.kind == "call" and any("Repr.style" in avs_str(x) for x in a.args)))
        for (assume, opts, exp) in TAGS[ty]:
            eng = SEngine(F, assume=assume, opts=opts, stop=lambda x, c: x.name == "insert" and "DeclarationTypeResolver" in x.id)
            r = eng.entry(b); got = set()
            for c in eng.analyse(r):
                if c.name == "insert":
                    rep.req(f"arg0/{ty}.path" in {av_str(x) for x in c.earg(1)}, f"collector:{ty}:path", f"{ty} must enter the tag table under its own path", c.span)
                    got.add(describe(eng, c.earg(2)))
            nm = ",".join(str(v[1]) for v in assume.values()) + ("," + ",".join(opts.values()) if opts else "")
            rep.req(got == {exp}, f"collector:{ty}:{nm}", f"{ty} ({nm or 'any'}) enters the tag table as {sorted(got)}, expected {exp}", b.j["span"])
    # resolution of one path
    b = method(F, "GenericPath", "resolve_declaration_types")
    if b is None: rep.bad("anchor:GenericPath::resolve", "GenericPath::resolve_declaration_types not found")
    else:
        an = An(F, b, (), rep)
        st = field_stores(an, "GenericPath.ctype")
        ok = False
        for (ctx, bb, v) in st:
            d = describe(an.eng, v)
            if "DeclarationTypeResolver.types" in d and not residual_stmt(an, ctx, bb, lambda a: a.kind in ("opt", "test")): ok = True
        gets = [c for c in an.named("get", "get_mut", "index") if any("DeclarationTypeResolver.types" in av_str(x) for x in c.earg(0))]
        ok2 = any(an.has_path(c, 1, ("GenericPath.path",)) for c in gets)
        rep.req(ok and ok2, "GenericPath:ctype", "the tag of a reference must be the tag table's entry for the referenced path", b.j["span"])
    # the table keeps the first entry
    b = F.fn("DeclarationTypeResolver::insert")
    if b is not None:
        an = An(F, b, (), rep)
        ins = [c for c in an.calls if c.name in ("insert", "or_insert", "or_insert_with", "insert_entry")]
        rep.req(bool(ins), "resolver:insert", "the tag table insertion stores nothing", b.j["span"])
        for c in ins:
            first = "Vacant" in c.fn or c.name.startswith("or_insert") or any(a.kind in ("call", "test") and a.val is False for a in c.guards())
            rep.req(first, "resolver:first-wins", "a later entry must not replace an earlier one (opaque items are added last)", c.span)
    # pass is run for C
    an = generate_an(F, rep)
    if an:
        r = [c for c in an.named("resolve_declaration_types") if an.has_path(c, 0, ())]
        an.must(rep, "generate:resolve", r, "generation for C resolves tags", allow=style_ok)
        rep.req(bool(r) and before(an, an.named("instantiate_monomorphs"), r) and before(an, r, an.named("add_dependencies")), "generate:order", "tags are resolved after instantiation and before items are collected", r[0].span if r else "")
    d = F.fn("DeclarationType::to_str")
    if d:
        for v, t in (("Struct", "struct"), ("Enum", "enum"), ("Union", "union")):
            e = SEngine(F, assume={"arg0": ("v", v)}); r = e.entry(d); e.analyse(r)
            rep.req(describe(e, e.local(r, 0)) == repr(t), f"keyword:{v}", f"tag keyword of {v}", d.j["span"])
    rep.floor("methods", rep.notes.get("methods", 0), 8)

def field_stores(an, label, root=0):
    """[(ctx, bb, AVs)] assignments to self.<label>"""
    out = []
    for ctx in an.ctxs():
        for (bb, i, pl, rv) in an.eng.stores(ctx):
            fs = [e for e in pl[1:] if isinstance(e, list) and e[0] == "f"]
            base = [e for e in pl[1:] if e != "*"]
            tgt = set()
            if base:
                # address = all but last field
                cur = an.eng.place(ctx, pl)
                tgt = {strip(x) for x in an.eng.expand(cur)}
                lab = an.eng.plabel(base[-1])[0] if isinstance(base[-1], list) and base[-1][0] == "f" else None
                if lab != label: continue
            else:
                tgt = {strip(x) for x in an.eng.expand(an.eng.local(ctx, pl[0]))}
                if not any(t[0] == "P" and t[2][-1:] == (label,) for t in tgt): continue
            v = an.eng.callres(ctx, bb) if rv[0] == "callres" else an.eng.rvalue(ctx, bb, i, rv)
            out.append((ctx, bb, an.eng.expand(v)))
    return out
def residual_stmt(an, ctx, bb, allow=None):
    return [a for a in an.eng.guards(ctx, bb) if a.kind not in ("iter", "via") and not (allow and allow(a))]

# ---------------------------------------------------------------- C02
def literal_values(F, rep, visitor_root, desc, want, allow=None):
    """closure-driven Literal walk: every sub-expression is visited and every named type is recorded"""

def sort_class(eng_assume): return eng_assume

def c02(F, rep):
    rep.rule("from Library::generate every function, static, constant and included item reaches add_dependencies; each item kind hands every type position on; Type reaches Dependencies::add with the referenced path; Dependencies::add looks the item up, marks it, recurses, then appends it")
    fam = {"add_dependencies", "add_dependencies_ignoring_generics", "visit"}
    bases = {"Type", "GenericPath", "Literal"} | ITEMS
    # array lengths and discriminants name constants, which are always emitted
    skip = PARAMS[:1] + CONSTNAME + ("Library.config", "GenericArgument::Const.0")
    item_impls = [b for b in F.bodies.values() if b.kind == "fn" and b.name == "add_dependencies" and b.j.get("of_trait") is None and short(strip_generics(b.j.get("impl_self", ""))) in ITEMS and b.j.get("impl_trait")]
    cov = Cov(F, rep, {"add_dependencies", "add_dependencies_ignoring_generics"}, bases, allow=None, skip=skip + ("ConstExpr::Path.0",))
    g = F.fn("Library::generate")
    if g is None: rep.bad("anchor:generate", "Library::generate not found"); return
    cov.run(g, F.adt("Library")["id"], only={"Library.functions", "Library.globals", "Library.constants"})
    for b in item_impls: cov.enqueue(b)
    def special(b, c):
        ty = short(strip_generics(b.j.get("impl_self", "")))
        if ty in ("Struct",): partial_iteration(rep, An(F, b, fam - {"visit"}, rep), "Struct::add_dependencies")
        if ty == "Type":
            an = An(F, b, {"add"}, rep)
            d = [x for x in an.named("add_dependencies_ignoring_generics", "add_dependencies") if x.ctx is an.root and an.has_path(x, 0, ())]
            if d:   # plain delegation
                an.must(rep, "Type:delegate", d, "Type::add_dependencies visits the type itself")
                for x in d:
                    for t in x.targets:
                        if t[0] == "local": c.enqueue(t[1])
                return True
            # descend: generic arguments of a path are types too
            cov2 = Cov(F, rep, {"add_dependencies", "add_dependencies_ignoring_generics"}, {"Type"}, skip=skip + ("Type::Array.1",))
            cov2.run(b, F.adt("Type")["id"])
            adds = [x for x in an.named("add") if an.has_path(x, 2, ("Type::Path.0", "GenericPath.path"))]
            an.must(rep, "Type:Path:add", adds, "a named type is handed to Dependencies::add", path=("Type::Path.0", "GenericPath.path"), allow=not_generic_param)
            c.methods += 1
            return True
        if ty == "Literal":
            an = An(F, b, {"add", "add_dependencies_ignoring_generics"}, rep)
            root = [x for x in an.calls if x.name in ("add_dependencies",) or x.ctx is an.root]
            walk_literal(F, rep, b, an)
            c.methods += 1
            return True
        return False
    cov.drain(special)
    rep.notes["methods"] = cov.methods; rep.notes["visit_sites"] = cov.sinks
    an = generate_an(F, rep)
    ai = [c for c in an.named("add_dependencies") if any(strip(a)[0] == "P" and strip(a)[1][0] == "R" and not marks(a) for a in c.earg(0))]
    inc = lambda a: a.kind in ("opt", "call") and (a.kind == "opt" or short(a.fn) in ("insert", "contains"))
    an.must(rep, "generate:include", ai, "items named in export.include are collected with their dependencies", allow=inc)
    gi = [c for c in an.named("get_items")]
    ok = any("ExportConfig.include" in describe(an.eng, c.earg(1)) for c in gi)
    rep.req(ok, "generate:include:lookup", "export.include names are looked up", g.j["span"])
    pushes = [c for c in an.named("push", "extend", "append") if any("get_items" in av_str(strip(x)) and not marks(x) for i in range(1, c.nargs) for x in c.earg(i))]
    rep.req(bool(pushes), "generate:include:push", "included items are appended to the output order", g.j["span"])
    if ai and pushes: rep.req(all(not an.body.reaches(rbb(p), rbb(a)) or loops_over(an, p, a) for p in pushes for a in ai), "generate:include:order", "an included item must come after its dependencies", pushes[0].span)
    # Dependencies::add
    b = F.fn("Dependencies::add")
    if b is None: rep.bad("anchor:Dependencies::add", "Dependencies::add not found"); return
    an = An(F, b, {"add_dependencies", "get_items"}, rep)
    found = lambda a: (a.kind in ("opt",) and "get_items" in avs_str(a.subj)) or (a.kind == "call" and short(a.fn) == "contains" and a.val is False) or (a.kind == "call" and short(a.fn) == "insert" and a.val is True)
    gi = [c for c in an.named("get_items") if an.has_path(c, 0, (), root=1) and an.has_path(c, 1, (), root=2)]
    an.must(rep, "add:lookup", gi, "the path is looked up in the library")
    ins = [c for c in an.named("insert") if an.has_path(c, 0, ("Dependencies.items",)) and an.has_path(c, 1, (), root=2)]
    an.must(rep, "add:mark", ins, "a visited path is remembered", allow=found)
    rec = [c for c in an.named("add_dependencies") if any("get_items" in av_str(strip(x)) and not marks(x) for x in c.earg(0))]
    an.must(rep, "add:recurse", rec, "dependencies of the found items are collected", allow=found)
    pu = [c for c in an.named("push", "extend", "append") if an.has_path(c, 0, ("Dependencies.order",)) and any("get_items" in av_str(strip(x)) and not marks(x) for x in c.earg(1))]
    an.must(rep, "add:append", pu, "the found items are appended to the order", allow=found)
    if ins and rec and pu:
        rep.req(all(b.dominates(rbb(i), rbb(r)) for i in ins for r in rec), "add:mark-before-recursion", "a path must be marked before recursing (recursive types would loop)", ins[0].span)
        rep.req(before(an, rec, pu), "add:after-dependencies", "an item may be appended only after all its dependencies were collected", pu[0].span)
        once = all(any((a.kind == "call" and ((short(a.fn) == "contains" and a.val is False) or (short(a.fn) == "insert" and a.val is True))) for a in p.guards()) for p in pu)
        rep.req(once, "add:once", "an item is appended only if its path was not seen before", pu[0].span)
    # who may append
    for body in F.bodies.values():
        pass
    # lookup covers every map
    lookup_rule(F, rep)
    # sort of independent layers
    sort_rule(F, rep)
    rep.floor("methods", rep.notes["methods"], 10)

def loops_over(an, p, a):
    """p reaches a only by starting the next iteration of an enclosing loop (whose header re-reads the item)"""
    body = an.body
    # every cycle through p and a passes the lookup of the next item
    look = [rbb(c) for c in an.named("get_items")]
    return not body.reaches(rbb(p), rbb(a), avoid=set(look))

def walk_literal(F, rep, b, an):
    sh = Shape(F, {"Literal"})
    lit = F.adt("Literal")["id"]
    own = [c for c in an.calls if c.targets and c.nargs and any(t[0] == "local" and short(strip_generics(t[1].j.get("impl_self", ""))) == "Literal" for t in c.targets)]
    def cont(a):   # the walk continues while the visitor says so
        return a.kind == "call" and a.val is True and "Literal" in (a.fn or "")
    for lab, v, f, ty in sh.fields(lit, ()):
        for s, t, g in sh.positions(ty):
            if not sh.carries(t, g): continue
            ps = [(lab,) + s]
            if short(t) != "Literal":
                ps = [(lab,) + s + (l2,) for l2, _, _, ty2 in sh.fields(t, g) for s2, t2, g2 in sh.positions(ty2) if short(t2) == "Literal"]
            for p in ps:
                c = [x for x in own if an.has_path(x, 0, p)]
                an.must(rep, f"Literal:{'/'.join(p)}", c, f"the operand {'/'.join(p)} of a constant expression is walked", path=p, allow=cont)
    adds = [c for c in an.named("add")]
    for p in (("Literal::Struct.path",), ("Literal::Path.associated_to", "().0")):
        c = [x for x in adds if an.has_path(x, 2, p)]
        def opt_of(a, p=p):
            return a.kind == "opt" and set(a.val) == {"Some"}
        an.must(rep, f"Literal:{'/'.join(p)}:add", c, f"the type named by {'/'.join(p)} is collected", path=p, allow=opt_of)
    cst = [x for x in an.named("add_dependencies_ignoring_generics", "add_dependencies") if an.has_path(x, 0, ("Literal::Cast.ty",))]
    an.must(rep, "Literal:Cast.ty:add", cst, "the target type of a cast is collected", path=("Literal::Cast.ty",))

MAPKIND = {"enums": "Enums", "structs": "Structs", "unions": "Unions", "opaque_items": "OpaqueItems", "typedefs": "Typedefs"}
def lookup_rule(F, rep):
    b = F.fn("Library::get_items")
    if b is None: rep.bad("anchor:get_items", "Library::get_items not found"); return
    an = An(F, b, {"should_generate"}, rep)
    look = [c for c in an.calls if c.name == "get" and "Map" in c.fn and any(p for p, m in an.paths(c, 0) if p[-1:] == ("ItemMap.data",))]
    def ok(a):
        return (a.kind == "opt" and set(a.val) & {"None", "Some", "Break", "Continue"}) or (a.kind == "call" and short(a.fn) == "should_generate") or a.kind == "test"
    for m, kind in MAPKIND.items():
        c = [x for x in look if an.has_path(x, 0, (f"Library.{m}", "ItemMap.data")) and an.has_path(x, 1, (), root=1)]
        an.must(rep, f"get_items:{m}", c, f"{m} are looked up by path", allow=ok)
        for x in c:
            sg = [a for a in x.guards() if a.kind == "call" and short(a.fn) == "should_generate" and a.val is True]
            kinds = {describe(an.eng, a.args[1]) for a in sg}
            rep.req(kinds <= {f"ItemType::{kind}"}, f"get_items:{m}:filter", f"the lookup in {m} is filtered by {sorted(kinds)}, expected ItemType::{kind}", x.span)
    d = describe(an.eng, an.eng.local(an.root, 0))
    for m in MAPKIND:
        for v in ("Cfg", "Single"): pass

def sort_rule(F, rep):
    """the final stable sort only moves kinds that depend on nothing"""
    b = F.fn("Dependencies::sort")
    if b is None: rep.bad("anchor:Dependencies::sort", "Dependencies::sort not found"); return
    an = An(F, b, (), rep)
    srt = [c for c in an.calls if c.name.startswith("sort") and "slice" in c.fn]
    rep.req(bool(srt) and all(c.name in ("sort_by", "sort_by_key", "sort", "sort_by_cached_key") for c in srt), "sort:stable", "the order must be kept by a stable sort", srt[0].span if srt else b.j["span"])
    cmpb = [x for x in F.children.get(b.id, [])]
    cmpb = [x for x in cmpb if "Ordering" in x.locals[0]]
    if not srt or srt[0].name != "sort_by" or len(cmpb) != 1:
        return
    KIND = {"enum0": ("Enum", {"tag": "None"}), "enum1": ("Enum", {"tag": "Some"}), "opaque": ("OpaqueItem", {}), "struct": ("Struct", {}), "union": ("Union", {}), "typedef": ("Typedef", {})}
    body = cmpb[0]
    for ka, (va, oa) in KIND.items():
        for kb, (vb, ob) in KIND.items():
            assume = {"arg1": ("v", va), "arg2": ("v", vb)}
            opts = {}
            if oa: opts["arg1/ItemContainer::Enum.0/Enum.tag"] = oa["tag"]
            if ob: opts["arg2/ItemContainer::Enum.0/Enum.tag"] = ob["tag"]
            e = SEngine(F, assume=assume, opts=opts); r = e.entry(body); e.analyse(r)
            d = describe(e, e.local(r, 0))
            moved = {"enum0", "opaque"}
            if ka not in moved and kb not in moved:
                rep.req(d == "Equal", f"sort:{ka}:{kb}", f"sorting must not reorder a {ka} against a {kb} (they may depend on each other): comparator gives {d}", body.j["span"])
            elif ka in moved and kb not in moved:
                rep.req("Greater" not in d, f"sort:{ka}:{kb}", f"a {ka} must never be moved after a {kb} that may use it: comparator gives {d}", body.j["span"])
            elif kb in moved and ka not in moved:
                rep.req("Less" not in d, f"sort:{ka}:{kb}", f"a {kb} must never be moved after a {ka} that may use it: comparator gives {d}", body.j["span"])

# ---------------------------------------------------------------- C03
def cxx_tag(a):
    """C++ nests variant bodies, whose names are then not global"""
    return allow_tag(a) or (a.kind == "variant" and a.fn == "Language" and ({"C", "Cython"} <= set(a.val)))

def c03(F, rep):
    from .rules_io import SAn
    rep.rule("from Library::rename_items every item of every map is renamed; each rename_for_config applies ExportConfig::rename to its own exported name and descends into every type, path and value position; a path equal to a generic parameter is left alone")
    bases = {"Type", "GenericPath", "Literal", "ConstExpr"} | ITEMS
    cov = coverage(F, rep, "Library::rename_items", {"rename_for_config"}, bases, skip=PARAMS[:1] + ("Library.config",),
                   allow=allow_tag)
    an = generate_an(F, rep)
    if an:
        r = an.named("rename_items")
        an.must(rep, "generate:rename", r, "generation runs the renaming pass")
        rep.req(bool(r) and before(an, r, an.named("add_dependencies")), "generate:rename-first", "items are collected for output only after renaming", r[0].span if r else "")
    # declaration names
    OWN = [("Struct", cxx_tag), ("Union", None), ("Enum", None), ("Typedef", None), ("OpaqueItem", None)]
    for ty, al in OWN:
        b = method(F, ty, "rename_for_config")
        if b is None: rep.bad(f"anchor:{ty}::rename", f"{ty}::rename_for_config not found"); continue
        a = An(F, b, {"rename_for_config", "rename"}, rep)
        c = [x for x in a.named("rename") if "ExportConfig" in x.fn and a.has_path(x, 1, (f"{ty}.export_name",))]
        a.must(rep, f"{ty}:export_name", c, f"the exported name of every {ty} is renamed", allow=al)
        same_config(rep, a, c, f"{ty}:export_name:config")
        if ty == "Struct":
            # only the bodies nested in a C++ tagged union keep their name
            for nm, asm in (("untagged", {"arg0/Struct.has_tag_field": ("i", 0)}), ("C", {"arg1/Config.language": ("v", "C")}), ("Cython", {"arg1/Config.language": ("v", "Cython")})):
                sa = SAn(F, b, rep, stop={"rename_for_config", "rename"}, assume=asm)
                sites = {}
                for x in sa.live_calls():
                    if x.name == "rename" and "ExportConfig" in x.fn and any(strip(y)[0] == "P" and strip(y)[1] == ("arg", 0) and strip(y)[2] == ("Struct.export_name",) for y in x.earg(1)): sites.setdefault(x.ctx, set()).add(x.bb)
                for cx in sorted(sites, key=lambda x: -x.depth):
                    if cx.parent is not None and must(sa.eng, cx, sites[cx]): sites.setdefault(cx.parent, set()).add(cx.bb)
                rep.req(must(sa.eng, sa.root, sites.get(sa.root, set())), f"Struct:export_name:{nm}", f"the exported name of a struct ({nm}) is renamed only under a further condition", b.j["span"])
    b = method(F, "Constant", "rename_for_config")
    if b:
        a = An(F, b, {"rename_for_config", "rename"}, rep)
        c = [x for x in a.named("rename") if a.has_path(x, 1, ("Constant.export_name",))]
        a.must(rep, "Constant:export_name", c, "the exported name of every free constant is renamed",
               allow=lambda g: g.kind in ("opt", "test") and any(strip(x)[0] == "P" and strip(x)[2][:1] == ("Constant.associated_to",) for x in g.subj) and (set(g.val) == {"None"} if g.kind == "opt" else g.val == (g.fn == "is_none")))
    b = method(F, "GenericPath", "rename_for_config")
    if b:
        a = An(F, b, {"rename_for_config", "rename"}, rep)
        c = [x for x in a.named("rename") if a.has_path(x, 1, ("GenericPath.export_name",))]
        a.must(rep, "GenericPath:export_name", c, "every reference that is not a generic parameter is renamed", allow=not_generic_param)
        ng = all(any(not_generic_param(g) for g in x.guards()) for x in c)
        rep.req(bool(c) and ng, "GenericPath:not-params", "generic parameters must not be renamed", b.j["span"])
    b = method(F, "Literal", "rename_for_config")
    if b:
        a = An(F, b, {"rename_for_config", "rename"}, rep)
        for p, st in ((("Literal::Struct.export_name",), None), (("Literal::Path.associated_to", "().1"), "Some"), (("Literal::Path.name",), "None")):
            c = [x for x in a.named("rename") if a.has_path(x, 1, p)]
            a.must(rep, f"Literal:{'/'.join(p)}", c, f"{'/'.join(p)} of a constant's value is renamed", path=p,
                   allow=lambda g: (g.kind == "opt" and set(g.val) == {st}) or (g.kind == "test" and g.val == (g.fn == ("is_some" if st == "Some" else "is_none"))) or (g.kind == "variant" and g.fn == "Literal" and set(g.val) == {"Path"}))
    # generic parameters are passed down, not dropped
    for ty in ("Struct", "Union", "Typedef"):
        b = method(F, ty, "rename_for_config")
        if not b: continue
        a = An(F, b, {"rename_for_config", "rename"}, rep)
        for x in a.named("rename_for_config"):
            if x.nargs == 3 and any(p[0] and p[0][-1] in ("Field.ty", "Typedef.aliased") for p in a.paths(x, 0)):
                rep.req(a.has_path(x, 2, (f"{ty}.generic_params",)), f"{ty}:params-passed", f"the generic parameters of the {ty} must be in scope when its types are renamed", x.span)
    for ty in ("Type", "GenericPath", "GenericArgument", "ConstExpr"):
        b = method(F, ty, "rename_for_config")
        if not b: continue
        a = An(F, b, {"rename_for_config", "rename"}, rep)
        for x in a.named("rename_for_config"):
            if x.nargs == 3:
                rep.req(a.has_path(x, 2, (), root=2), f"{ty}:params-passed", f"{ty} must pass the generic parameters in scope on", x.span)
    rename_fn(F, rep)
    rep.floor("methods", rep.notes.get("methods", 0), 12)

def same_config(rep, a, calls, key):
    for c in calls:
        ok = a.has_path(c, 0, ("Config.export",), root=1)
        rep.req(ok, key, "renaming must use the configuration passed in", c.span)

def rename_fn(F, rep):
    """ExportConfig::rename: table entry replaces the name; prefix is added unless the entry overrides it"""
    b = F.fn("ExportConfig::rename")
    if b is None: rep.bad("anchor:ExportConfig::rename", "ExportConfig::rename not found"); return
    rep.fn(b)
    for hit in (True, False):
        for over in (0, 1):
            for pre in ("Some", "None"):
                def hook(eng, c, hit=hit):
                    if c.name == "get" and "ExportConfig.rename" in describe(eng, c.arg(0)): return {("v", "Some" if hit else "None")}
                    return None
                e = SEngine(F, assume={"arg0/ExportConfig.renaming_overrides_prefixing": ("i", over)}, opts={"arg0/ExportConfig.prefix": pre}, hook=hook)
                r = e.entry(b); cs = e.analyse(r)
                wr = pf = False
                looked = False
                for c in cs:
                    if c.name == "get" and "ExportConfig.rename" in describe(e, c.arg(0)):
                        looked = looked or "arg1" in describe(e, c.earg(1))
                    tgt = describe(e, c.earg(0)) if c.nargs else ""
                    if c.name in ("clone_from", "clone_into", "push_str", "replace") and ("ExportConfig.rename" in "".join(describe(e, c.earg(i)) for i in range(c.nargs))): wr = True
                    if c.name in ("insert_str", "replace_range") and tgt == "arg1" and "ExportConfig.prefix" in describe(e, c.earg(c.nargs - 1)): pf = True
                for ctx in {c.ctx for c in cs} | {r}:
                    live = e.live(ctx)
                    for (bb, i, pl, rv) in e.stores(ctx):
                        if bb not in live or [x for x in pl[1:] if x != "*"]: continue
                        if "arg1" in {av_str(x) for x in e.expand(e.local(ctx, pl[0]))}:
                            v = describe(e, e.callres(ctx, bb) if rv[0] == "callres" else e.rvalue(ctx, bb, i, rv))
                            if "ExportConfig.rename" in v: wr = True
                            if "ExportConfig.prefix" in v or "call:format" in v or "call:must_use" in v: pf = True
                key = f"rename:{'hit' if hit else 'miss'}:{'override' if over else 'combine'}:{pre}"
                rep.req(looked, "rename:lookup", "the rename table is consulted with the current name", b.j["span"])
                rep.req(wr == hit, key + ":table", f"a rename table entry must{'' if hit else ' not'} replace the name", b.j["span"])
                want = pre == "Some" and not (hit and over)
                rep.req(pf == want, key + ":prefix", f"prefix must{'' if want else ' not'} be added (table {'hit' if hit else 'miss'}, overrides={over}, prefix {pre})", b.j["span"])

# ---------------------------------------------------------------- C04
def generic_ok(a):
    """the item itself is not generic"""
    if a.kind == "test" and a.fn == "is_empty":
        return a.val is True and all(strip(x)[0] == "P" and strip(x)[2][-1:] == ("GenericParams.0",) for x in a.subj)
    if a.kind == "cmp" and any("GenericParams.0" in avs_str(x) or "len" in avs_str(x) for x in a.args): return True
    return False

def c04(F, rep):
    rep.rule("collection (add_monomorphs), insertion, removal of generic definitions and mangling (mangle_paths) each cover every item kind and type position; every instantiation registers its replacement, its own instantiations and itself")
    root = F.fn("Library::instantiate_monomorphs")
    if root is None: rep.bad("anchor:instantiate_monomorphs", "Library::instantiate_monomorphs not found"); return
    # constants whose type is generic are left out of C output by design (Constant::write)
    skip = PARAMS + CONSTNAME + ("Library.config", "GenericPath.generics", "EnumVariant.discriminant", "Library.opaque_items", "Library.constants", "Struct.associated_constants")
    for fam in ("add_monomorphs", "mangle_paths"):
        def special(b, c, fam=fam):
            if short(strip_generics(b.j.get("impl_self", ""))) == "Struct":
                partial_iteration(rep, An(F, b, {fam}, rep), f"Struct::{fam}")
            if short(strip_generics(b.j.get("impl_self", ""))) != "Type": return False
            cov = Cov(F, rep, {fam}, {"Type"}, skip=skip + ("Type::Array.1",))
            cov.run(b, F.adt("Type")["id"])
            c.methods += 1
            return True
        coverage(F, rep, "Library::instantiate_monomorphs", {fam}, {"Type"}, skip=skip, allow=generic_ok, special=special)
    # Type::Path of the collector
    b = method(F, "Type", "add_monomorphs")
    if b:
        an = An(F, b, {"instantiate_monomorph", "get_items"}, rep)
        inst = [c for c in an.named("instantiate_monomorph") if any("get_items" in av_str(strip(x)) and not marks(x) for x in c.earg(0))]
        p = ("Type::Path.0",)
        def ok(a):
            if a.kind == "test" and a.fn == "is_empty" and a.val is False: return all(strip(x)[0] == "P" and strip(x)[2][-1:] == ("GenericPath.generics",) for x in a.subj)
            if a.kind == "opt": return "get_items" in avs_str(a.subj) and set(a.val) == {"Some"}
            if a.kind == "call": return short(a.fn) in ("contains", "contains_key") and a.val is False and any("Monomorphs" in avs_str(x) for x in a.args)
            return False
        an.must(rep, "Type:Path:instantiate", inst, "a use of a generic type instantiates every item of that name", path=p, allow=ok)
        for c in inst:
            rep.req(an.has_path(c, 1, ("Type::Path.0", "GenericPath.generics")), "Type:Path:args", "the instantiation uses the arguments of this use", c.span)
        gi = an.named("get_items")
        rep.req(any(an.has_path(c, 1, ("Type::Path.0", "GenericPath.path")) for c in gi), "Type:Path:lookup", "the generic is looked up by the path of this use", b.j["span"])
    b = method(F, "Type", "mangle_paths")
    if b:
        an = An(F, b, {"mangle_path"}, rep)
        mp = [c for c in an.named("mangle_path") if an.has_path(c, 1, ("Type::Path.0",))]
        ok = lambda a: (a.kind == "test" and a.fn == "is_empty" and a.val is False)
        an.must(rep, "Type:Path:mangle", mp, "a use of a generic type is looked up among the instantiations", path=("Type::Path.0",), allow=ok)
        st = []
        for ctx in an.ctxs():
            for (bb, i, pl, rv) in an.eng.stores(ctx):
                tg = {av_str(strip(x)) for x in an.eng.expand(an.eng.place(ctx, pl) if [e for e in pl[1:] if e != "*"] else an.eng.local(ctx, pl[0]))}
                if tg & {"arg0/Type::Path.0", "arg0"}:
                    st.append((ctx, bb, describe(an.eng, an.eng.callres(ctx, bb) if rv[0] == "callres" else an.eng.rvalue(ctx, bb, i, rv))))
        good = [s for s in st if "mangle_path" in s[2]]
        rep.req(bool(good), "Type:Path:replace", "the use is replaced by the mangled path", b.j["span"])
        for ctx, bb, d in good:
            bad = [a for a in residual_stmt(an, ctx, bb) if not (a.kind == "variant" or ok(a) or (a.kind == "opt" and set(a.val) == {"Some"}))]
            rep.req(not bad, "Type:Path:replace-always", f"a found mangling must always be applied ({bad})", b.j["span"])
    b = F.fn("Monomorphs::mangle_path")
    if b:
        an = An(F, b, (), rep)
        g = [c for c in an.named("get") if an.has_path(c, 0, ("Monomorphs.replacements",)) and an.has_path(c, 1, (), root=1)]
        an.must(rep, "Monomorphs:mangle_path", g, "the replacement table is consulted with the whole generic path")
    # registering one instantiation
    mono = F.adt("Monomorphs")
    n = 0
    store = {}
    for body in F.bodies.values():
        if body.kind != "fn" or strip_generics(body.j.get("impl_self", "")) != mono["id"] or body.is_closure: continue
        an = An(F, body, {"add_monomorphs"}, rep)
        for c in an.named("push"):
            for p, m in an.paths(c, 0):
                if len(p) == 1 and p[0].startswith("Monomorphs."):
                    n += 1
                    ty = p[0].split(".")[1]
                    arg = [x for x in map(strip, c.earg(1)) if x[0] == "P" and x[1][0] == "arg"]
                    if not rep.req(len(arg) == 1 and arg[0][2] == (), f"register:{ty}:value", f"the instance itself is stored in {ty}", c.span): continue
                    ai = arg[0][1][1]
                    an.must(rep, f"register:{ty}:push", [c], f"instances of {ty} are always stored")
                    ins = [x for x in an.named("insert") if an.has_path(x, 0, ("Monomorphs.replacements",))]
                    an.must(rep, f"register:{ty}:replacement", ins, f"instances of {ty} register their replacement")
                    for x in ins:
                        d = describe(an.eng, x.earg(1)); v = describe(an.eng, x.earg(2))
                        gens = [i for i in range(body.argc) if f"generics=arg{i}" in d]
                        rep.req(".path" in d and len(gens) == 1 and f"arg{ai}" in v and v.endswith(".path"), f"register:{ty}:key", f"the replacement maps the generic's path with the arguments to the instance's path (got {d[:160]} -> {v})", x.span)
                    if ty != "opaques":
                        rec = [x for x in an.named("add_monomorphs") if an.has_path(x, 0, (), root=ai)]
                        an.must(rep, f"register:{ty}:nested", rec, f"generic uses inside an instance of {ty} are collected too")
                        if rec and ins:
                            rep.req(all(body.dominates(rbb(i), rbb(r)) for i in ins for r in rec), f"register:{ty}:before-nested", "the replacement must be known before nested uses are collected (recursive generics)", rec[0].span)
    rep.floor("instance_tables", n, 5)
    # insertion, filtering and order
    an = An(F, root, {"add_monomorphs", "mangle_paths", "try_insert", "is_generic"}, rep)
    PAIR = {"structs": "structs", "unions": "unions", "opaques": "opaque_items", "typedefs": "typedefs", "enums": "enums"}
    coll = an.named("add_monomorphs"); mang = an.named("mangle_paths")
    for src, dst in PAIR.items():
        ins = [c for c in an.calls if c.name in ("try_insert", "insert", "extend", "extend_with") and an.has_path(c, 0, (f"Library.{dst}",))
               and fresh_value(an, c, 1)]
        an.must(rep, f"insert:{dst}", ins, f"instances of {src} are added to the library's {dst}")
        rep.req(bool(ins) and before(an, coll, ins), f"insert:{dst}:after-collect", "instances are added after collection", root.j["span"])
        if dst != "opaque_items":
            m = [c for c in mang if any(p and p[0] == f"Library.{dst}" for p, _ in an.paths(c, 0))]
            rep.req(bool(m) and bool(ins) and before(an, ins, m), f"insert:{dst}:before-mangle", "instances are added before paths are mangled", root.j["span"])
    an2 = An(F, root, {"add_monomorphs", "mangle_paths", "try_insert"}, rep)
    for m, ty in (("structs", "Struct"), ("unions", "Union"), ("enums", "Enum"), ("typedefs", "Typedef"), ("opaque_items", "OpaqueItem")):
        fl = [c for c in an2.calls if c.name == "retain" and any(p[:2] == (f"Library.{m}", "ItemMap.data") for p, _ in an2.paths(c, 0))]
        an2.must(rep, f"filter:{m}", fl[:1], f"generic {m} are removed", allow=lambda a: a.kind == "variant")
        rep.req(bool(fl) and before(an2, [c for c in an2.named("add_monomorphs")], fl), f"filter:{m}:after-collect", f"generic {m} may only be removed after collection", root.j["span"])
        rep.req(bool(fl) and filter_drops_generic(F, root, rep, m), f"filter:{m}:polarity", f"exactly the generic {m} must be removed", root.j["span"])
    g = generate_an(F, rep)
    if g:
        im = g.named("instantiate_monomorphs")
        g.must(rep, "generate:instantiate", im, "generation instantiates generics for languages without templates", allow=lambda a: a.kind == "variant" and a.fn == "Language" and {"C", "Cython"} <= set(a.val))
        rep.req(bool(im) and before(g, im, g.named("add_dependencies")), "generate:order", "generics are instantiated before items are collected", im[0].span if im else "")
    # dispatch: every item kind that can be generic instantiates itself
    for ty in ("Struct", "Union", "Enum", "Typedef", "OpaqueItem"):
        b = method(F, ty, "instantiate_monomorph")
        if b is None: rep.bad(f"instantiate:{ty}", f"{ty}::instantiate_monomorph not found"); continue
        an = An(F, b, lambda x, c: x.name.startswith("insert_") or x.name in ("specialize", "mangle_path", "mangle_name", "instantiate_monomorph"), rep)
        ins = [c for c in an.calls if c.name.startswith("insert") and "Monomorphs" in c.fn]
        an.must(rep, f"instantiate:{ty}:insert", ins, f"{ty} registers its instance")
        for c in ins:
            g0 = [i for i in range(c.nargs) if an.has_path(c, i, ())]
            ga = [i for i in range(c.nargs) if an.has_path(c, i, (), root=1)]
            rep.req(bool(g0) and bool(ga), f"instantiate:{ty}:args", f"{ty} registers the instance under its own path and the given arguments", c.span)
    rep.floor("methods", rep.notes.get("methods", 0), 14)

def fresh_value(an, c, i):
    """all of the value comes from the collected instances (each kind has its own type, so from its own table), not from the library's items"""
    vs = c.earg(i)
    return bool(vs) and not any(marks(a) for a in vs) and not any(strip(a)[0] == "P" and strip(a)[1] == ("arg", 0) for a in vs)

def filter_drops_generic(F, root, rep, m):
    from .rules_io import SAn
    """with every item generic the predicate drops, with none it keeps (whichever form the entry of the map has)"""
    for val in (0, 1):
        def hook(e, c, v=val):
            if c.name == "is_generic": return {("i", v)}
            if c.name == "is_empty" and c.nargs and any(strip(x)[0] == "P" and any("eneric" in l and "aram" in l for l in strip(x)[2][-2:]) for x in c.earg(0)): return {("i", 1 - v)}
        for form in ("Single", "Cfg"):
            an = SAn(F, root, rep, stop={"add_monomorphs", "mangle_paths", "try_insert", "is_generic"}, hook=hook, adts={"ItemValue": form})
            vals = []
            for c in an.live_calls():
                if c.name not in ("retain", "retain_mut") or not c.nargs: continue
                if not any(strip(x)[0] == "P" and strip(x)[2][:1] == (f"Library.{m}",) for x in c.earg(0)): continue
                vals += [an.eng.lvals(x, 0) for x, kd in an.eng.sub_contexts(c.ctx, c.bb) if kd == "closure"]
            if not (any(v == {("i", 1 - val)} for v in vals) and not any(v == {("i", val)} for v in vals)): return False
    return True
