"""Whole-crate queries: C01 determinism, C13 error flow, C20 effects, C22 line endings."""
import re
from .mir import short, strip_generics, field_uses
from .flow import strip, marks, avs_str, av_str, is_std
from .q import An, rets, describe
from .rules_traversal import method, rbb

def callee(t):
    k = t[1].get("k", {})
    return k.get("fn", ""), k.get("res") or k.get("fn", ""), k

def op_place(op): return op.get("m") or op.get("c")

def op_type(body, op):
    """declared type of a bare-local operand"""
    pl = op_place(op)
    if pl is None or [e for e in pl[1:] if e != "*"]: return ""
    return body.locals[pl[0]]

HASH = re.compile(r"^(&('[a-z_0-9]+ )?(mut )?)*std::collections::Hash(Map|Set)<")
HASHIT = re.compile(r"std::collections::hash_(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Difference|Intersection|SymmetricDifference)\b")
SAFE = set("""get get_mut get_or_insert_with get_key_value insert contains contains_key entry remove take replace len is_empty new default
with_capacity clone clone_from eq ne deref deref_mut as_ref as_mut borrow borrow_mut from into drop index index_mut reserve shrink_to_fit
is_subset is_superset is_disjoint capacity hasher clear get_many_mut remove_entry drop_in_place take unwrap unwrap_or_default unwrap_or expect
ok_or ok_or_else map_err branch from_residual from_output as_deref missing_field custom forget swap is_some is_none and_then map Ok Some size_hint next_value next_value_seed""".split())
INSENSITIVE = set("any all count len min max min_by max_by min_by_key max_by_key sum product is_empty".split())
ORDERED = re.compile(r"^(std::result::Result<|std::option::Option<)?(std::collections::(HashMap|HashSet|BTreeMap|BTreeSet))<")
NONDET = re.compile(r"(std::time::(Instant|SystemTime)(::<.*>)?::now|std::process::id|std::thread::(current|spawn|scope)|std::fs::read_dir|Path::read_dir|std::env::vars|RandomState::(new|default)|rand::|std::collections::hash_map::RandomState|getrandom|ThreadId|std::ptr::addr|std::random)")

def chain(body, bb):
    """follow the value of a call through method chains: yields (bb, callee name, dest local)"""
    t = body.term(bb); dest = t[3][0]; seen = set()
    cur = {dest}
    out = []
    progress = True
    while progress:
        progress = False
        for b in sorted(body.reach):
            if b in seen: continue
            for s in body.blocks[b]["s"]:
                if s[0] == "=" and s[2][0] in ("use", "ref", "mutref", "copyref") or (s[0] == "=" and s[2][0] == "cast"):
                    src = None
                    for x in s[2][1:]:
                        if isinstance(x, dict): src = op_place(x)
                        elif isinstance(x, list) and x and isinstance(x[0], int): src = x
                    if src and src[0] in cur and s[1][0] not in cur and len(s[1]) == 1: cur.add(s[1][0]); progress = True
            tt = body.term(b)
            if tt[0] == "call" and any(op_place(o) and op_place(o)[0] in cur for o in tt[2]):
                fn, res, k = callee(tt)
                seen.add(b); out.append((b, short(fn), tt[3][0])); progress = True
                dty = body.locals[tt[3][0]] if len(tt[3]) == 1 else ""
                if HASHIT.search(dty) : cur.add(tt[3][0])
                elif short(fn) in ("next", "collect"): pass
    return out, cur

def c01(F, rep):
    rep.rule("every call that starts iterating a std hash container must end in an order-insensitive consumer (min/max/any/all/count/sum, collection into a set or map, collection followed by a sort) or belong to the reviewed table; clocks, process ids, random numbers, directory listings, environment dumps and threads are not called at all")
    sites = []
    nd = 0; ncalls = 0
    for b in F.bodies.values():
        if b.kind != "fn": continue
        for bb in b.calls:
            if bb not in b.reach: continue
            t = b.term(bb); fn, res, k = callee(t); ncalls += 1
            full = f"{fn} {res}"
            if NONDET.search(full):
                rep.bad(f"nondet:{b.id}:{short(fn)}", f"{short(b.id)} calls {fn}, whose result differs between runs", t[5]); continue
            if "new_debug" in fn and HASH.search(str(k.get("self", "")) or "") : pass
            if k.get("local"): continue
            if fn in F.bodies: continue
            for o in t[2]:
                ty = op_type(b, o)
                if HASH.search(ty) and short(fn) not in SAFE and not is_local(F, fn):
                    if short(fn) in ("fmt", "new_debug", "new_display", "deserialize", "serialize"): continue
                    sites.append((b, bb, fn, ty, t[5])); break
    rep.notes["calls_scanned"] = ncalls
    # reviewed iterations
    roots = {}
    for suf in ("Cargo::find_pkg_to_generate_bindings_ref", "Cargo::dependencies", "Library::transfer_annotations", "parser::parse_src", "parser::parse_lib"):
        r = F.fn(suf)
        if r is not None:
            an = An(F, r, (), rep)
            for c in an.ctxs(): roots.setdefault(c.body.id, set()).add(suf)
    def allowed(b, bb, ty):
        rs = roots.get(b.id, set())
        core = re.sub(r"^(&('[a-z_0-9]+ )?(mut )?)+", "", ty)
        if "AnnotationSet" in core and "Library::transfer_annotations" in rs: return "keys are distinct items, each entry only touches its own item"
        if core.startswith("std::collections::HashMap<std::path::PathBuf") and rs & {"parser::parse_src", "parser::parse_lib"}:
            return "source file list, sorted by its only consumer (obligation sources:sorted)"
        if "cargo_metadata::Package" in core:
            if "Cargo::dependencies" in rs: return "the version is used only if it is the only one (obligation dependencies:unique)"
            if "Cargo::find_pkg_to_generate_bindings_ref" in rs: return "exact manifest path, else least version (obligation package:choice)"
        return None
    for b, bb, fn, ty, sp in sites:
        key = f"hash-iteration:{b.id}:{short(fn)}:{ty_core(ty)}"
        ch, cur = chain(b, bb)
        names = [n for _, n, _ in ch]
        ok = None
        if any(n in INSENSITIVE for n in names) and not any(n in ("next", "find", "find_map", "nth", "last", "fold", "for_each", "position", "collect", "extend", "join") for n in names): ok = "order-insensitive consumer"
        col = [d for _, n, d in ch if n in ("collect", "from_iter")]
        if not ok and col:
            if all(ORDERED.search(b.locals[d]) for d in col): ok = "collected into a set or map"
            elif all(sorted_later(b, d) for d in col): ok = "sorted after collection"
        if not ok and short(fn) in ("from_iter", "collect", "extend") and t_dest_ordered(b, bb): ok = "collected into a set or map"
        if not ok: ok = allowed(b, bb, ty)
        rep.count("hash_iterations")
        rep.req(bool(ok), key, f"{short(b.id)} iterates {ty_core(ty)} in hash order ({short(fn)} -> {', '.join(names[:6])}) without an order-insensitive consumer", sp)
    # obligations behind the reviewed table
    g = F.fn("Cargo::find_pkg_to_generate_bindings_ref")
    if g is None: rep.bad("anchor:find_pkg", "Cargo::find_pkg_to_generate_bindings_ref not found")
    else:
        an = An(F, g, (), rep)
        it = any(HASH.search(op_type(c.ctx.body, o)) and short(c.fn) not in SAFE for c in an.calls for o in c.term[2])
        ch = [c for c in an.calls if c.name.startswith(("min", "max", "sort"))]
        first = [c for c in an.calls if c.name in ("next", "first", "pop", "last", "swap_remove") and not c.ctx.body.in_cycle(c.bb)]
        srt = [c for c in ch if c.name.startswith("sort")]
        rep.req(not it or (bool(ch) and (not first or bool(srt))), "package:choice", "the package chosen among several of one name depends on hash order", g.j["span"])
        man = [c for c in an.calls if c.name in ("eq", "ne") and any("manifest_path" in avs_str(c.earg(i)) for i in range(c.nargs))]
        rep.req(not it or bool(man), "package:manifest", "a package is chosen at once only by its manifest path", g.j["span"])
    g = F.fn("Cargo::dependencies")
    if g is not None:
        an = An(F, g, (), rep)
        nx = [c for c in an.calls if c.name == "next" and not c.ctx.body.in_cycle(c.bb) and any("Metadata.packages" in avs_str(c.earg(0)) for _ in [0])]
        it = [c for c in an.calls if any(HASH.search(op_type(c.ctx.body, o)) for o in c.term[2]) and short(c.fn) not in SAFE]
        if it:
            uniq = len(nx) >= 2 or any(c.name in ("len", "count", "exactly_one", "at_most_one", "nth") for c in an.calls)
            rep.req(uniq, "dependencies:unique", "a version found by iterating the packages may only be used if it is the only one", g.j["span"])
    sorted_sources(F, rep)
    rep.floor("calls_scanned", ncalls, 2000)

def ty_core(ty): return re.sub(r"(&('[a-z_0-9]+ )?(mut )?)", "", ty)
def is_local(F, fn): return fn in F.bodies or fn.startswith("bindgen::")
def t_dest_ordered(b, bb):
    t = b.term(bb); return len(t[3]) == 1 and bool(ORDERED.search(b.locals[t[3][0]]))
def sorted_later(b, d):
    """some sort call takes a reference to local d"""
    al = {d}; ch = True
    while ch:
        ch = False
        for x in b.reach:
            for s in b.blocks[x]["s"]:
                if s[0] == "=" and len(s[1]) == 1 and s[1][0] not in al:
                    for y in s[2][1:]:
                        pl = op_place(y) if isinstance(y, dict) else (y if isinstance(y, list) and y and isinstance(y[0], int) else None)
                        if pl and pl[0] in al: al.add(s[1][0]); ch = True
            t = b.term(x)
            if t[0] == "call":
                fn, _, _ = callee(t)
                if short(fn) in ("deref_mut", "as_mut_slice", "deref") and t[2] and op_place(t[2][0]) and op_place(t[2][0])[0] in al and t[3][0] not in al: al.add(t[3][0]); ch = True
    for x in b.calls:
        t = b.term(x); fn, _, _ = callee(t)
        if short(fn).startswith("sort") and t[2] and op_place(t[2][0]) and op_place(t[2][0])[0] in al: return True
    return False

def root_fn(F, b):
    while b.is_closure and b.parent in F.bodies: b = F.bodies[b.parent]
    return b

def sorted_sources(F, rep):
    """the hash-ordered source list is only consumed where it is sorted"""
    rd = {root_fn(F, b).id for b, bb, k in field_uses(F).get(("Bindings", "source_files"), []) if k == "r"}
    n = 0
    for i in sorted(rd):
        b = F.bodies[i]
        if b.j.get("derived"): continue
        n += 1
        an = An(F, b, (), rep)
        uses = [c for c in an.calls if c.nargs and c.name in ("iter", "into_iter", "join", "first", "last", "get", "index") and "Bindings.source_files" in avs_str(c.earg(0))]
        if not uses: continue
        srt = [c for c in an.calls if c.name.startswith("sort")]
        bt = [c for c in an.calls if c.name in ("collect", "from_iter") and ORDERED.search(dest_ty(c))]
        rep.req(bool(srt) or bool(bt), "sources:sorted", f"{short(b.id)} uses the source list in hash order", b.j["span"])
    rep.floor("source_list_readers", n, 1)

def dest_ty(c):
    d = c.term[3]
    return c.ctx.body.locals[d[0]] if len(d) == 1 else ""

