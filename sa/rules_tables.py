"""C25 primitive spellings (and helpers to compose decision tables of small functions)."""
import itertools
from .mir import short, strip_generics
from .flow import strip, marks, av_str, avs_str
from .graph import *
from .q import An, describe
from .rules_io import SAn, strs

def tree(eng, avs):
    """a value as (variant, {field: tree}) / ('str', s) / ('int', n); None when it is not one definite value"""
    xs = {strip(a): a for a in eng.expand(avs)}
    if not xs: return None
    out = []
    for x in xs:
        if x[0] == "K" and x[1] in ("str", "int"): t = (x[1], x[2])
        elif x[0] == "K" and x[1] == "none": t = ("var", x[2].split("::")[-1], ())
        elif x[0] == "A" and eng.agg(x)[0] == "adt":
            k, adt, var, names, ops = eng.agg(x)
            fs = tuple((n, tree(eng, eng.operand(x[1], o))) for n, o in zip(names, ops))
            t = ("var", var, fs, short(adt))
        else: return None
        if t not in out: out.append(t)
    return out[0] if len(out) == 1 else None
def assume_tree(t, prefix, out=None):
    out = {} if out is None else out
    if t is None: return out
    if t[0] == "str": out[prefix] = ("s", t[1])
    elif t[0] == "int": out[prefix] = ("i", t[1])
    else:
        out[prefix] = ("v", t[1])
        for n, x in t[2]:
            head = f"{t[3]}::{t[1]}" if t[3] != t[1] else t[3]
            assume_tree(x, f"{prefix}/{head}.{n}", out)
    return out

INT = {"c_short": "short", "c_int": "int", "c_long": "long", "c_longlong": "long long", "c_ushort": "unsigned short", "c_uint": "unsigned int", "c_ulong": "unsigned long", "c_ulonglong": "unsigned long long",
       "ssize_t": "ssize_t", "size_t": "size_t", "RawFd": "int", "isize": "S", "intptr_t": "S", "usize": "U", "uintptr_t": "U",
       "NonZeroUSize": "U", "NonZeroISize": "S"}
for n in (8, 16, 32, 64):
    for s, u in (("i", ""), ("u", "u")):
        for name in (f"{s}{n}", f"{u}int{n}_t", f"NonZero{s.upper()}{n}"): INT[name] = f"{u}int{n}_t"
PRIM = {"c_void": "void", "c_char": "char", "c_schar": "signed char", "c_uchar": "unsigned char", "c_float": "float", "c_double": "double", "ptrdiff_t": "ptrdiff_t", "VaList": "...",
        "bool": "bool", "char": "uint32_t", "f32": "float", "f64": "double", **INT}
PTR = {"S": ("intptr_t", "ptrdiff_t"), "U": ("uintptr_t", "size_t")}
REPRS = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"]
# what the standard headers declare
HDR = {"stdint.h": {f"{u}int{n}_t" for u in ("", "u") for n in (8, 16, 32, 64)} | {"intptr_t", "uintptr_t"}, "stdbool.h": {"bool"}, "stddef.h": {"size_t", "ptrdiff_t"}, "stdlib.h": {"size_t", "ssize_t"}, "stdarg.h": {"va_list"}}
HDR.update({"cstdint": HDR["stdint.h"], "cstddef": HDR["stddef.h"], "cstdlib": HDR["stdlib.h"], "cstdarg": {"va_list"}, "ostream": {"size_t", "ptrdiff_t"}})
BUILTIN = {"void", "char", "signed char", "unsigned char", "short", "int", "long", "long long", "unsigned short", "unsigned int", "unsigned long", "unsigned long long", "float", "double", "..."}

def c25(F, rep):
    rep.rule("decision tables by constant propagation: every recognised type name is pushed through PrimitiveType::maybe and the resulting value through to_repr_c for both settings of usize_is_size_t, and compared with the C type of the same width and signedness; the same for every integer representation of an enum; every primitive type of a declaration is spelled by that table; the includes and imports written for each language declare every spelling")
    mb = F.fn("PrimitiveType::maybe"); tc = F.fn("PrimitiveType::to_repr_c"); tr = F.fn("PrimitiveType::to_repr_rust")
    for nm, b in (("maybe", mb), ("to_repr_c", tc), ("to_repr_rust", tr)):
        if b is None: rep.bad(f"anchor:{nm}", f"PrimitiveType::{nm} not found")
    if not (mb and tc and tr): return
    # names the code recognises
    seen = set()
    an = SAn(F, mb, rep)
    for c in an.calls:
        if c.name in ("eq", "ne") and c.nargs == 2: seen |= strs(c.earg(0)) | strs(c.earg(1))
    for x in sorted(seen - set(PRIM)): 
        if x: rep.bad(f"name:unreviewed:{x}", f"{x!r} is recognised as a primitive type but has no reviewed C type", mb.j["span"])
    def spell(fn, t, size_t):
        a = assume_tree(t, "arg0"); a["arg1/Config.usize_is_size_t"] = ("i", size_t)
        an = SAn(F, fn, rep, assume=a)
        v = an.retvals()
        return next(iter(v))[1] if v and len(v) == 1 and next(iter(v))[0] == "s" else None
    done = {}; rust = {}
    for name, want in PRIM.items():
        an = SAn(F, mb, rep, assume={"arg0": ("s", name)})
        t = tree(an.eng, an.eng.local(an.root, 0)); st = an.eng.optstate(an.root, {"c": [0]})
        if st != {"Some"} or t is None or t[0] != "var":
            rep.bad(f"name:{name}", f"{name} is not recognised as one fixed primitive type ({describe(an.eng, an.eng.local(an.root, 0))[:120]})", mb.j["span"]); continue
        rep.ok(f"name:{name}")
        for sz in (0, 1):
            key = (t, sz)
            if key not in done: done[key] = spell(tc, t, sz)
            w = PTR[want][sz] if want in PTR else want
            rep.req(done[key] == w, f"spell:{name}:{sz}", f"{name} is emitted as {done[key]!r} (usize_is_size_t={bool(sz)}), expected {w!r}", tc.j["span"])
        if t not in rust: rust[t] = spell(tr, t, 0)
        # the mangled spelling names the same type again
        if rust[t] is None: rep.bad(f"rust:{name}", f"{name} has no fixed name in mangled types", tr.j["span"]); continue
        if rust[t] in PRIM: rep.req(PRIM[rust[t]] == want, f"rust:{name}", f"{name} is mangled as {rust[t]}, a different type", tr.j["span"])
    zs = {}
    for t, n in rust.items():
        k = tuple(x for x in t[2] if x[0] != "zeroable")
        zs.setdefault(n, set()).add((t[1], k))
    for n, ts in zs.items(): rep.req(len(ts) == 1, f"rust:unique:{n}", f"{len(ts)} different primitive types are mangled as {n}", tr.j["span"])
    rep.floor("names", len(done), 50)
    # unknown names are not primitives
    for x in ("", "Foo", "c_intx", "U8", "NonZero", "va_list"):
        an = SAn(F, mb, rep, assume={"arg0": ("s", x)})
        rep.req(an.eng.optstate(an.root, {"c": [0]}) == {"None"}, f"name:other:{x}", f"{x!r} is taken for a primitive type", mb.j["span"])
    # NonZero names are non-zeroable, others zeroable
    enum_repr(F, rep, spell)
    uses(F, rep, tc, tr)
    includes(F, rep)

def enum_repr(F, rep, spell):
    tp = F.fn("ReprType::to_primitive"); tc = F.fn("PrimitiveType::to_repr_c")
    ld = F.fn("Repr::load")
    if tp is None or ld is None: rep.bad("anchor:ReprType", "ReprType::to_primitive / Repr::load not found"); return
    for r in REPRS:
        # the integer type recorded for this name
        from .scn import hooks, idents, text, option
        an = SAn(F, ld, rep, hook=hooks(idents({"repr"}), text(r), option("get_ident", "Some")), adts={"Meta": "Path"})
        ts = set()
        from .rules_cfg import all_ctxs
        for c in all_ctxs(an.live_calls()):
            lv = an.eng.live(c)
            for bb in lv:
                for i, s in enumerate(c.body.blocks[bb]["s"]):
                    if s[0] == "=" and s[2][0] == "adt" and short(s[2][1]) == "ReprType":
                        names = [f[0] if isinstance(f, (list, tuple)) else f for f in F.adt("ReprType")["variants"][0][1]]
                        ts.add(tuple((n, tree(an.eng, an.eng.operand(c, o))) for n, o in zip(names, s[2][4])))
        if len(ts) != 1 or any(x is None for _, x in next(iter(ts))):
            rep.bad(f"repr:{r}", f"#[repr({r})] does not record one fixed integer type", ld.j["span"]); continue
        t = ("var", "ReprType", next(iter(ts)), "ReprType")
        an = SAn(F, tp, rep, assume=assume_tree(t, "arg0"))
        p = tree_assumed(an, an.eng.local(an.root, 0))
        for sz in (0, 1):
            got = spell(tc, p, sz); w = PTR[INT[r]][sz] if INT[r] in PTR else INT[r]
            rep.req(got == w, f"repr:{r}:{sz}", f"an enum of #[repr({r})] has the C type {got!r}, expected {w!r}", tp.j["span"])

def tree_assumed(an, avs):
    """as tree, with assumed inputs replaced by their values"""
    e = an.eng
    def go(avs):
        xs = {strip(a) for a in e.expand(avs)}
        if len(xs) != 1: return None
        x = next(iter(xs))
        if x[0] == "P":
            v = e.assume.get(av_str(x))
            if v is None: return None
            return {"s": ("str", v[1]), "i": ("int", v[1]), "v": ("var", v[1], (), None)}[v[0]]
        if x[0] == "A" and e.agg(x)[0] == "adt":
            k, adt, var, names, ops = e.agg(x)
            return ("var", var, tuple((n, go(e.operand(x[1], o))) for n, o in zip(names, ops)), short(adt))
        return tree(e, avs)
    return go(avs)

def uses(F, rep, tc, tr):
    """declarations and enum sizes use the C table, nothing else does; mangling uses the Rust names"""
    cs = [(b, bb) for b in F.bodies.values() if b.kind == "fn" for bb in b.calls if callee(b.term(bb))[0] == tc.id or callee(b.term(bb))[1] == tc.id]
    rep.floor("to_repr_c_uses", len(cs), 3)
    for b, bb in [(b, bb) for b in F.bodies.values() if b.kind == "fn" for bb in b.calls if tr.id in callee(b.term(bb))[:2]]:
        rep.req(owned(F, b, lambda x: "mangle" in x.id), f"rustname:{root_of(F, b).id}", f"{short(b.id)} uses the Rust name of a primitive outside of mangling", b.term(bb)[5])
    # CDecl: the type name of a primitive
    bt = F.fn("CDecl::build_type")
    if bt is None: rep.bad("anchor:CDecl::build_type", "CDecl::build_type not found"); return
    ty = next((i for i in range(1, bt.argc + 1) if "ir::ty::Type" in bt.locals[i]), None)
    if ty is None: rep.bad("anchor:build_type:ty", "CDecl::build_type takes no type"); return
    an = SAn(F, bt, rep, stop={"to_repr_c", "build_type"}, assume={f"arg{ty - 1}": ("v", "Primitive")})
    from .rules_cfg import all_ctxs
    ws = []
    for c in an.ctxs():
        for bb in an.eng.live(c):
            for s in c.body.blocks[bb]["s"]:
                if s[0] == "=" and any(isinstance(e, (list, tuple)) and str(e[-1]) == "type_name" or (isinstance(e, str) and "type_name" in e) for e in s[1][1:]): ws.append((c, s))
    calls = [c for c in an.live_calls() if any(t[0] == "local" and t[1] is tc for t in c.targets)]
    ok = len(calls) >= 1 and all(any(av_str(a).startswith(f"arg{ty - 1}/Type::Primitive") for a in c.earg(0)) for c in calls)
    rep.req(ok, "decl:primitive", "a declaration of a primitive type is spelled by to_repr_c of that type", bt.j["span"])

def header_names(texts):
    import re
    out = set()
    for t in texts:
        m = re.match(r"\s*#include <([^>]*)>", t)
        if m: out.add(m.group(1))
    return out

def includes(F, rep):
    hs = [b for b in F.bodies.values() if b.name == "write_headers" and not b.is_closure and b.kind == "fn" and "language_backend" in b.id]
    cl = next((b for b in hs if "CLike" in b.id or "clike" in b.id), None); cy = next((b for b in hs if "Cython" in b.id), None)
    if cl is None or cy is None: rep.bad("anchor:write_headers", "the header writers of the back ends were not found"); return
    need = {PTR[w][sz] if w in PTR else w for w in PRIM.values() for sz in (0, 1)} - BUILTIN
    pre = "arg0/CLikeLanguageBackend.config/Config"
    for lang in ("C", "Cxx"):
        for sz in (0, 1):
            an = SAn(F, cl, rep, assume={f"{pre}.language": ("v", lang), f"{pre}.usize_is_size_t": ("i", sz), f"{pre}.no_includes": ("i", 0)})
            have = set()
            hdrs = set()
            for c in an.live_calls():
                ss = written(an.eng, c)
                gs = [a for a in c.dguards() if a.kind not in ("via", "iter")]
                if ss and (len(ss) == 1 or any(a.kind == "iter" for a in c.dguards())) and not gs: hdrs |= header_names(ss)
            for h in hdrs: have |= HDR.get(h, set())
            if lang == "Cxx": have |= {"bool"}
            want = {PTR[w][sz] if w in PTR else w for w in PRIM.values()} - BUILTIN
            for t in sorted(want):
                rep.req(t in have, f"include:{lang}:{t}:{sz}", f"{t} may be emitted in {lang} (usize_is_size_t={bool(sz)}) but no written include declares it", cl.j["span"])
            rep.floor(f"headers_{lang}", len(hdrs), 4)
    an = SAn(F, cy, rep, assume={"arg0/CythonLanguageBackend.config/Config.no_includes": ("i", 0)})
    words = set()
    import re
    for c in an.live_calls():
        for s in written(an.eng, c):
            if "cimport" in s or "ctypedef" in s: words |= set(re.findall(r"\w+", s))
    for t in sorted(need - {"size_t", "ssize_t", "ptrdiff_t"}):      # known to Cython itself
        rep.req(t in words, f"include:Cython:{t}", f"{t} may be emitted in Cython but is neither imported nor defined", cy.j["span"])

def written(eng, c):
    """constant texts a writer call may write, constant arguments filled in"""
    if c.name == "write" and c.nargs > 1: return strs(c.earg(1))
    if c.name != "write_fmt" or c.nargs < 2: return set()
    out = set()
    for a in c.earg(1):
        ps = fmt_pieces(eng, a)
        if ps is None: continue
        cur = {""}
        for p in ps:
            alts = {p[1]} if p[0] == "s" else strs(eng.expand(p[1])) or {"\x01"}
            cur = {x + y for x in cur for y in alts}
        out |= cur
    return out
