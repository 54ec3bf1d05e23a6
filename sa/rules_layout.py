"""C12: only types with a defined C layout get a definition; packing and alignment are spelled on every one."""
from .mir import short, strip_generics
from .flow import strip, marks, is_std, label, av_str
from .graph import callee, owned, is_named, fmt_pieces, root_of, op_place, callers
from .q import describe, An
from .rules_io import SAn, strs
from .scn import hooks, idents, text, bools, option, sinks
from .rules_export import module_loader

INTS = {"u8": ("B8", 0), "u16": ("B16", 0), "u32": ("B32", 0), "u64": ("B64", 0), "usize": ("Size", 0),
        "i8": ("B8", 1), "i16": ("B16", 1), "i32": ("B32", 1), "i64": ("B64", 1), "isize": ("Size", 1)}
OTHER = ("Rust", "simd", "u128", "i128", "no_niche", "c", "int", "align", "bool")

def field_values(an, adt, field):
    """every value stored in a field of that type while the entry function runs"""
    e = an.eng; out = set()
    for ctx in an.ctxs():
        lv = e.live(ctx)
        if not all(x.parent is None or x.bb is None or x.bb in e.live(x.parent) for x in ctx.chain()): continue
        for bb in lv:
            for i, s in enumerate(ctx.body.blocks[bb]["s"]):
                if s[0] != "=": continue
                last = s[1][-1] if len(s[1]) > 1 else None
                if isinstance(last, list) and last[0] == "f" and last[2] == field and short(strip_generics(last[3])) == adt: out |= set(e.expand(e.rvalue(ctx, bb, i, s[2])))
                elif s[2] and s[2][0] == "adt" and short(strip_generics(s[2][1])) == adt and field in s[2][3]: out |= set(e.expand(e.operand(ctx, s[2][4][s[2][3].index(field)])))
            t = ctx.body.term(bb)
            if t[0] == "call" and len(t[3]) > 1 and isinstance(t[3][-1], list) and t[3][-1][0] == "f" and t[3][-1][2] == field and short(strip_generics(t[3][-1][3])) == adt: out |= set(e.expand(e.callres(ctx, bb)))
    return out

def some_edges(body, bb):
    """successors of an iterator's `next` taken when an element is there"""
    t = body.term(bb)
    if t[4] is None or len(t[3]) != 1: return None
    x = t[4]; seen = set()
    while x not in seen:
        seen.add(x); u = body.term(x)
        if u[0] == "switch":
            return [y for v, y in u[2] if int(v) == 1] or [u[3]]
        ss = body.succ(x)
        if len(ss) != 1: return None
        x = ss[0]
    return None

def rejected(an):
    """some loop over the elements cannot go on to the next one nor finish: every element leads to an error"""
    e = an.eng
    for ctx in an.ctxs():
        if not all(x.parent is None or x.bb is None or x.bb in e.live(x.parent) for x in ctx.chain()): continue
        lv = e.live(ctx)
        for bb in ctx.body.calls:
            if bb not in lv: continue
            fn = callee(ctx.body.term(bb))[0]
            if not is_std(fn): continue
            if short(fn) == "next":
                st = some_edges(ctx.body, bb)
                if st is None: continue
                if not any(x in lv for x in st): continue
                seen = set(); st = [x for x in st if x in lv]; ok = False
                while st:
                    b = st.pop()
                    if b == bb: ok = True; break
                    if b in seen: continue
                    seen.add(b); st += [s for s in e.feasible(ctx, b) if s in lv]
                if not ok: return True
            elif short(fn) in ("try_for_each", "try_fold", "map", "collect"):
                for c, kd in e.sub_contexts(ctx, bb):
                    if kd == "closure" and c.body.locals[0].startswith("std::result::Result") and e.optstate(c, {"c": [0]}) and not e.optstate(c, {"c": [0]}) & {"Ok", "Continue"}: return True
    return False

def outcome(an):
    o = an.eng.optstate(an.root, {"c": [0]})
    return {"Ok", "Err"} if o is None else {x for x in o if x in ("Ok", "Err")}

def c12(F, rep):
    rep.rule("the decision tables of the representation parser, the layout-option check and the three type loaders (representation style x integer type x alignment x options) are computed by finite-domain propagation and compared with the documented ones; the module loader stores a definition only on the accepting outcome and an opaque item on the rejecting one; definitions are built nowhere else; the struct and union writers put the configured annotation between keyword and name for every packed or aligned definition")
    repr_table(F, rep)
    ensure_table(F, rep)
    load_tables(F, rep)
    dispatch(F, rep)
    ctors(F, rep)
    written(F, rep)

# ------------------------------------------------------------------ parsing #[repr]
def repr_table(F, rep):
    b = F.fn("Repr::load")
    if b is None: rep.bad("anchor:Repr::load", "the representation parser is not found"); return
    W = b.j["span"]
    def run(word, meta, attr=True, **kw):
        names = {word} if meta == "List" else set()
        if attr: names.add("repr")
        # without: the attribute is any other one
        hk = [idents(names) if attr else lambda e, c: {("i", 0)} if c.name == "is_ident" and c.nargs == 2 and strs(c.earg(1)) == {"repr"} else None]
        if meta == "Path": hk += [text(word), option("get_ident", "Some")]
        hk.append(kw.pop("hook", None))
        return SAn(F, b, rep, hook=hooks(*hk), adts={"Meta": meta}, **kw)
    def vals(an, f): return describe(an.eng, field_values(an, "Repr", f))
    for w in list(INTS) + ["C", "transparent", "packed"] + list(OTHER):
        # the state reached by earlier words is left open: a word is judged alone and after any other
        an = run(w, "Path", **({"stop": {"default"}} if w in OTHER else {})); key = f"repr:{w}"
        st, ty, al = vals(an, "style"), vals(an, "ty"), vals(an, "align")
        if w in OTHER:
            rep.req(rejected(an), key, f"#[repr({w})] is accepted", W)
            continue
        rep.req(not rejected(an) and "Ok" in outcome(an), key + ":accepted", f"#[repr({w})] is rejected", W)
        tys = {d for d in ty.split("|") if d.startswith("ReprType")} if True else set()
        want = {f"ReprType{{kind=IntKind::{INTS[w][0]},signed={INTS[w][1]}}}"} if w in INTS else set()
        got = ty_of(an, field_values(an, "Repr", "ty"))
        rep.req(got == ({INTS[w]} if w in INTS else set()), key + ":type", f"#[repr({w})] sets the integer type {sorted(got)}", W)
        sty = {x for x in st.split("|") if x.startswith("ReprStyle::")} - {"ReprStyle::Rust"}
        rep.req(sty == {"C": {"ReprStyle::C"}, "transparent": {"ReprStyle::Transparent"}}.get(w, set()), key + ":style", f"#[repr({w})] sets the style {sorted(sty)}", W)
        als = {x for x in al.split("|") if x.startswith("ReprAlign::")}
        rep.req(als == ({"ReprAlign::Packed"} if w == "packed" else set()), key + ":align", f"#[repr({w})] sets the alignment {sorted(als)}", W)
    # lists
    an = run("align", "List", opts={"*/Repr.align": "None"})
    al = {x for x in vals(an, "align").split("|") if x.startswith("ReprAlign::")}
    rep.req(not rejected(an) and len(al) == 1 and next(iter(al)).startswith("ReprAlign::Align"), "repr:align(n)", f"#[repr(align(n))] sets the alignment {sorted(al)}", W)
    for f in ("style", "ty"):
        v = {x for x in vals(an, f).split("|") if x.startswith(("ReprStyle::", "ReprType"))} - {"ReprStyle::Rust"}
        rep.req(not v, f"repr:align(n):{f}", f"#[repr(align(n))] sets the {f} {sorted(v)}", W)
    an = run("packed", "List", hook=bools(is_empty=0), stop={"default"})
    rep.req(rejected(an), "repr:packed(n)", "#[repr(packed(n))] is accepted although only packed(1) can be spelled", W)
    for w in ("C", "u8", "other"):
        an = run(w, "List", stop={"default"})
        rep.req(rejected(an), f"repr:{w}(..)", f"#[repr({w}(..))] is accepted", W)
    an = run("C", "NameValue", stop={"default"})
    rep.req(rejected(an), "repr:name-value", "#[repr(name = value)] is accepted", W)
    # only `repr` attributes count
    an = run("C", "Path", attr=False)
    cs = [c for c in an.live_calls() if c.name.startswith("parse_")]
    rep.req(not cs, "repr:other-attribute", "another attribute is read as a representation", cs[0].span if cs else W)
    # a second integer type or a second alignment contradicts the first
    for w, f in (("u8", "ty"), ("packed", "align")):
        an = run(w, "Path", stop={"default"}, opts={f"*/Repr.{f}": "Some"})
        # the slot is already taken: nothing may be stored over it
        v = field_values(an, "Repr", f)
        rep.req(not [x for x in v if strip(x)[0] == "A"], f"repr:conflict:{f}", f"a second #[repr] {f} silently replaces the first", W)
    an = run("align", "List", stop={"default"}, opts={"*/Repr.align": "Some"})
    rep.req(not [x for x in field_values(an, "Repr", "align") if strip(x)[0] == "A"], "repr:conflict:align(n)", "a second alignment silently replaces the first", W)

def ty_of(an, avs):
    """{(width, signed)} of the ReprType values"""
    e = an.eng; out = set()
    for a in avs:
        s = strip(a)
        if s[0] != "A": continue
        g = e.agg(s)
        if g[0] != "adt" or short(g[1]) != "ReprType": continue
        f = dict(zip(g[3], g[4]))
        k = e._avvar(e.operand(s[1], f["kind"]), "IntKind"); v = e.values(s[1], f["signed"])
        for x in k or {"?"}:
            for y in v or {("i", "?")}: out.add((x, y[1]))
    return out

# ------------------------------------------------------------------ options
def ensure_table(F, rep):
    b = F.fn("LayoutConfig::ensure_safe_to_represent")
    if b is None: rep.bad("anchor:ensure_safe_to_represent", "the check of the layout options is not found"); return
    for al in ("Packed", "Align"):
        for p in ("Some", "None"):
            for n in ("Some", "None"):
                an = SAn(F, b, rep, adts={"ReprAlign": al}, opts={"*/LayoutConfig.packed": p, "*/LayoutConfig.aligned_n": n})
                want = "Ok" if (p if al == "Packed" else n) == "Some" else "Err"
                rep.req(outcome(an) == {want}, f"ensure:{al}:packed={p}:aligned_n={n}", f"a {al.lower()} type with packed={p}, aligned_n={n} is judged {'/'.join(sorted(outcome(an)))}", b.j["span"])

STOP = {"load", "append", "none", "simple", "add_sentinel", "list", "empty", "replace_self_with"}
def load_tables(F, rep):
    for ty in ("Struct", "Union", "Enum"):
        b = F.fn(ty + "::load")
        if b is None: rep.bad(f"anchor:{ty}::load", f"the loader of {ty} is not found"); continue
        W = b.j["span"]
        for style in ("Rust", "C", "Transparent"):
            for it in ("Some", "None"):
                for al in ("Some", "None"):
                    for safe in ("Ok", "Err"):
                        if al == "None" and safe == "Err": continue
                        an = SAn(F, b, rep, stop=lambda x, c: x.name in STOP or x.name == "ensure_safe_to_represent", adts={"ReprStyle": style},
                                 opts={"*/Repr.ty": it, "*/Repr.align": al}, hook=option("ensure_safe_to_represent", safe))
                        good = {"Struct": style in ("C", "Transparent"), "Union": style == "C", "Enum": (style == "C" or style == "Rust" and it == "Some") and al == "None"}[ty] and not (al == "Some" and safe == "Err")
                        key = f"load:{ty}:{style}:int={it}:align={al}" + ("" if al == "None" else f":{safe}")
                        got = "Ok" in outcome(an)
                        what = f"a {ty.lower()} of style {style}" + (" with an integer type" if it == "Some" else "") + (f" and an alignment the options {'can' if safe == 'Ok' else 'cannot'} spell" if al == "Some" else "")
                        rep.req(got == good, key, f"{what} is {'given a definition' if got else 'never given a definition'}", W)
                        if not (got and good): continue
                        made = built(an, ty)
                        if not made: rep.bad(key + ":built", f"{what}: no definition is built", W); continue
                        for f in {"Struct": ("alignment", "is_transparent"), "Union": ("alignment",), "Enum": ("repr",)}[ty]:
                            v = field_values(an, ty, f)
                            if f == "is_transparent":
                                vs = an.eng.avvals(frozenset(v))
                                # a transparent struct without a field falls back to a plain one
                                okv = vs is not None and (vs == {("i", 0)} if style == "C" else ("i", 1) in vs)
                            elif f == "alignment": okv = bool(v) and all(strip(x)[0] == "P" and strip(x)[2] and strip(x)[2][-1] == "Repr.align" and not marks(x) for x in v)
                            else: okv = bool(v) and all(strip(x)[0] == "R" and "Repr" in str(callee(strip(x)[1].body.term(strip(x)[2]))[0]) for x in v)
                            rep.req(okv, key + ":" + f, f"{what} is recorded with {f} = {describe(an.eng, frozenset(v))}", W)
        # the representation judged is the item's own
        an = An(F, b, STOP | {"ensure_safe_to_represent"}, rep)
        cs = [c for c in an.calls if c.name == "load" and "Repr" in c.fn and "repr" in c.fn]
        rep.req(bool(cs) and all(any(strip(a)[0] == "P" and strip(a)[2] and strip(a)[2][-1].endswith(".attrs") and len(strip(a)[2]) == 1 for a in c.earg(0)) for c in cs), f"repr-of:{ty}", f"{ty}::load does not read the representation of the item's own attributes", W)

def built(an, ty):
    e = an.eng; out = []
    for ctx in an.ctxs():
        for bb in e.live(ctx):
            for s in ctx.body.blocks[bb]["s"]:
                if s[0] == "=" and s[2] and s[2][0] == "adt" and short(strip_generics(s[2][1])) == ty: out.append((ctx, bb))
    return out

# ------------------------------------------------------------------ module loader
KINDS = {"Struct": ("Struct", "structs"), "Union": ("Union", "unions"), "Enum": ("Enum", "enums")}
def dispatch(F, rep):
    loader = module_loader(F)
    if loader is None: rep.bad("anchor:loader", "the module loader is not found"); return
    W = loader.j["span"]
    fields = {f"Parse.{x}" for x in ("structs", "unions", "enums", "opaque_items", "typedefs")}
    for item, (ty, coll) in KINDS.items():
        for st in ("Ok", "Err"):
            hk = lambda e, c, ty=ty, st=st: {("v", st)} if c.name == "load" and short(strip_generics(c.fn).rsplit("::", 1)[0]) == ty else {("i", 0)} if c.name in ("should_skip_parsing", "has_test_attr", "is_skip_item_attr") else None
            an = SAn(F, loader, rep, stop=lambda b, c: b.name in ("load", "new", "append", "should_skip_parsing", "has_test_attr") and "Parse" not in b.id, adts={"Item": item}, hook=hk, opts={})
            got = {f.split(".")[1] for f, c in sinks(an, fields)}
            want = {coll} if st == "Ok" else {"opaque_items"}
            rep.req(got == want, f"dispatch:{item}:{st}", f"an item {item.lower()} whose load {'succeeds' if st == 'Ok' else 'fails'} is stored in {sorted(got) or 'nothing'}", W)

OWNERS = {"Struct": is_named("Struct::load", "Struct::specialize", "EnumVariant::load"), "Union": is_named("Union::load", "Union::specialize"), "Enum": is_named("Enum::load", "Enum::specialize"), "ReprAlign": is_named("Repr::load")}
def ctors(F, rep):
    for b in F.bodies.values():
        if b.kind != "fn": continue
        r = root_of(F, b)
        if r.name in ("clone", "fmt", "default", "eq") or r.name in ("Align", "Packed"): continue      # derived; variant constructors
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s[0] != "=" or not s[2] or s[2][0] != "adt": continue
                ty = short(strip_generics(s[2][1]))
                if ty not in OWNERS or not strip_generics(s[2][1]).startswith("bindgen::ir::"): continue
                own = lambda x, ty=ty: OWNERS[ty](x) or x.name == "instantiate_monomorph"
                rep.req(owned(F, b, own), f"built:{ty}:{r.id}", f"{short(r.id)} builds a {ty} outside of the loaders that check its representation", s[3] if len(s) > 3 else b.j["span"])

# ------------------------------------------------------------------ spelling
def pieces(c):
    """[('s', text) | ('a', origins)] written by a call on the writer, or None"""
    e = c.eng
    if c.name == "write_fmt" and c.nargs == 2:
        out = []
        for a in c.earg(1):
            p = fmt_pieces(e, a)
            if p is None: return None
            out += [x[:2] for x in p]
        return out
    if c.name in ("write", "write_str", "write_raw_block") and c.nargs == 2:
        k = strs(c.earg(1))
        return [("s", x) for x in k] + ([("a", c.arg(1))] if len(k) < len(c.earg(1)) else [])
    return None
def origin(e, avs): return {strip(a)[2][-1] for a in e.expand(avs) if strip(a)[0] == "P" and strip(a)[2]}

def written(F, rep):
    from .rules_conf import before
    from .mir import field_uses
    # functions that (through their callees) consult the layout options or the alignment
    rel = {root_of(F, b).id for k in (("LayoutConfig", "packed"), ("LayoutConfig", "aligned_n"), ("Struct", "alignment"), ("Union", "alignment")) for b, bb, _ in field_uses(F).get(k, ())}
    up = callers(F); todo = list(rel)
    while todo:
        for y in up.get(todo.pop(), ()):
            if y not in rel: rel.add(y); todo.append(y)
    for kind, ty in (("write_struct", "Struct"), ("write_union", "Union")):
        bs = [b for b in F.bodies.values() if b.kind == "fn" and not b.is_closure and b.name == kind and "CLikeLanguageBackend" in b.id and "LanguageBackend>::" in b.id]
        if len(bs) != 1: rep.bad(f"anchor:{kind}", f"the C writer of a {ty.lower()} is not found"); continue
        b = bs[0]; W = b.j["span"]
        for al, var, own, other in (("Some", "Packed", "packed", "aligned_n"), ("Some", "Align", "aligned_n", "packed"), ("None", "Packed", None, None)):
            an = SAn(F, b, rep, adts={"ReprAlign": var}, opts={f"*/{ty}.alignment": al, "*/LayoutConfig.packed": "Some", "*/LayoutConfig.aligned_n": "Some"},
                     stop=lambda x, c: root_of(F, x).id not in rel and x.name != "export_name")
            e = an.eng
            ws = []; names = []
            for c in an.live_calls():
                p = pieces(c)
                if p is None: continue
                o = set().union(*[origin(e, x[1]) for x in p if x[0] == "a"], set())
                if o & {"LayoutConfig.packed", "LayoutConfig.aligned_n"}: ws.append((c, p, o))
                if any(c2.name == "export_name" for c2 in from_calls(e, p)) or f"{ty}.export_name" in o: names.append(c)
            key = f"written:{ty}:{var if al == 'Some' else 'plain'}"
            if al == "None":
                rep.req(not ws, key, f"{kind} writes an alignment annotation on a plain {ty.lower()}", ws[0][0].span if ws else W); continue
            good = [w for w in ws if f"LayoutConfig.{own}" in w[2] and f"LayoutConfig.{other}" not in w[2]]
            rep.req(bool(good) and len(good) == len(ws), key, f"{kind} does not write the configured {own} annotation on {'a packed' if var == 'Packed' else 'an aligned'} {ty.lower()}", W)
            if not good: continue
            from .eff import must
            sites = {}
            for w in good: sites.setdefault(w[0].ctx, set()).add(w[0].bb)
            for ctx in sorted(sites, key=lambda x: -x.depth):
                if ctx.parent is not None and must(e, ctx, sites[ctx]): sites.setdefault(ctx.parent, set()).add(ctx.bb)
            rep.req(must(e, an.root, sites.get(an.root, set())), key + ":always", f"{kind} writes the {own} annotation only under further conditions", good[0][0].span)
            if var == "Align":
                rep.req(any("ReprAlign::Align.0" in w[2] or any(x.startswith("ReprAlign") for x in w[2]) for w in good), key + ":value", f"{kind} does not write the alignment in the aligned_n annotation", good[0][0].span)
            for w in good:
                for n in names:
                    rep.req(before(an, (w[0].ctx, w[0].bb), (n.ctx, n.bb)), key + ":place", f"{kind} writes the annotation after the name", w[0].span)
def from_calls(e, p):
    out = []
    for x in p:
        if x[0] != "a": continue
        for a in e.expand(x[1]):
            s = strip(a)
            if s[0] == "R":
                from .flow import Call
                t = s[1].body.term(s[2]); fn, k, tg = e.resolve(s[1], t[1])
                out.append(Call(e, s[1], s[2], fn, k, tg))
    return out
