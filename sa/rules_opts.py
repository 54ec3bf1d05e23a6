"""C17 options and annotations have their effect."""
import re
from .mir import short, strip_generics, field_uses
from .flow import strip, marks, av_str, avs_str, is_std
from .graph import *
from .q import An, describe, rets
from .rules_io import SAn, strs
from .rules_config import TABLES
from .scn import hooks

ACC = {"FunctionConfig": {"prefix": "atom", "postfix": "atom"},
       "StructConfig": {"derive_" + x: "bool" for x in "constructor eq neq lt lte gt gte ostream".split()},
       "EnumConfig": {x: "bool" for x in "add_sentinel derive_helper_methods derive_const_casts derive_mut_casts derive_tagged_enum_destructor derive_tagged_enum_copy_constructor derive_tagged_enum_copy_assignment derive_ostream enum_class private_default_tagged_enum_constructor".split()}}
PLUMB = re.compile(r"serde|fmt::Debug|clone::Clone|default::Default|Builder::|^apply_config|^main$|PartialEq")
NOTE = {"Enum": ("enumeration/EnumConfig.deprecated", "enumeration/EnumConfig.deprecated_with_note"), "EnumVariant": ("enumeration/EnumConfig.deprecated_variant", "enumeration/EnumConfig.deprecated_variant_with_note"),
        "Function": ("function/FunctionConfig.deprecated", "function/FunctionConfig.deprecated_with_note"), "Struct": ("structure/StructConfig.deprecated", "structure/StructConfig.deprecated_with_note")}
CL, CY = "clike::CLikeLanguageBackend", "cython::CythonLanguageBackend"

def opt_label(a):
    """the option a value is, as a dotted path below Config, if it is one"""
    s = av_str(strip(a)); m = re.search(r"(?:^|/|\b)Config\.([\w/.]+)$", s)
    return m.group(1) if m and strip(a)[0] == "P" else None

def c17(F, rep):
    rep.rule("reads-from analysis of every option; for every option an item may override, the accessor is evaluated with the annotation present and absent; every textual option reaches the output under no other condition than the reviewed ones; rename rules come from the annotation before the option")
    fu = field_uses(F)
    for ty, keys in TABLES.items():
        for k, (f, d) in keys.items():
            rs = [b for b, bb, kind in fu.get((ty, f), []) if kind == "r" and not PLUMB.search(b.id)]
            if (ty, f) == ("Config", "only_target_dependencies"): rs = [b for b, bb, kind in fu.get((ty, f), []) if kind == "r" and "fmt::Debug" not in b.id and "clone" not in b.id and "serde" not in b.id]
            rep.req(rs, f"read:{ty}.{f}", f"the option {f} of {ty} is accepted but never consulted")
    accessors(F, rep, fu)
    annotations(F, rep)
    rules(F, rep)
    texts(F, rep)

def accessors(F, rep, fu):
    for ty, fs in ACC.items():
        for f, kind in fs.items():
            raw = {b.id for b, bb, k in fu.get((ty, f), []) if k == "r" and not PLUMB.search(b.id)}
            b = F.fn(f"config::{ty}::{f}")
            own = set()
            if b is None: rep.bad(f"acc:{ty}.{f}", f"{ty} has no accessor for {f}"); continue
            name = f.replace("_", "-")
            for st in ("Some", "None"):
                an = SAn(F, b, rep, hook=lambda e, c: {("v", st)} if c.name in ("bool", "atom", "list", "parse_atom") and "AnnotationSet" in c.fn else None, stop=("bool", "atom", "list", "parse_atom"))
                own |= {x.body.id for x in an.ctxs()}
                qs = [c for c in an.live_calls() if c.name in ("bool", "atom", "list", "parse_atom") and "AnnotationSet" in c.fn]
                ok = len(qs) == 1 and qs[0].name == kind and strs(qs[0].earg(1)) == {name} and {strip(x) for x in qs[0].earg(0)} == {("P", ("arg", 1), ())}
                rep.req(ok, f"acc:{ty}.{f}:key:{st}", f"{ty}::{f} asks for {[(c.name, sorted(strs(c.earg(1)))) for c in qs]} instead of the {kind} annotation {name}", b.j["span"])
                if not ok: continue
                vs = rets(an); got = set()
                for v in vs:
                    v = strip(v)
                    if v[0] == "R" and (v[1], v[2]) == (qs[0].ctx, qs[0].bb): got.add("annotation")
                    elif v[0] == "P" and v[1] == ("arg", 0) and av_str(v).endswith(f"{ty}.{f}"): got.add("option")
                    else: got.add(av_str(v)[:50])
                want = {"annotation"} if st == "Some" else {"option"}
                if st == "None": got -= {"annotation"}       # the empty result itself
                rep.req(got == want, f"acc:{ty}.{f}:{st}", f"{ty}::{f} gives {sorted(got)} when the annotation is {'present' if st == 'Some' else 'absent'}", b.j["span"])
            for x in sorted(raw - own):
                if x.endswith("write_headers") and f in ("derive_const_casts", "derive_mut_casts"): continue
                rep.bad(f"raw:{ty}.{f}:{short(x)}", f"{x} consults the option {f} without its annotation", F.bodies[x].j["span"])
            rep.ok(f"raw:{ty}.{f}")

def annotations(F, rep):
    # the three kinds of annotation value
    for m, v in (("bool", "Bool"), ("atom", "Atom"), ("list", "List"), ("parse_atom", "Atom")):
        b = F.fn(f"AnnotationSet::{m}")
        if b is None: rep.bad(f"kind:{m}", f"AnnotationSet::{m} not found"); continue
        for var in ("Bool", "Atom", "List"):
            an = SAn(F, b, rep, hook=lambda e, c: {("v", "Some")} if c.name == "get" else None, adts={"AnnotationValue": var})
            st = an.eng.optstate(an.root, {"c": [0]}) or {"?"}
            rep.req(st == {"Some"} if var == v else st == {"None"}, f"kind:{m}:{var}", f"AnnotationSet::{m} of a {var} annotation is {sorted(st)}", b.j["span"])
        an = SAn(F, b, rep)
        gs = [c for c in an.live_calls() if c.name == "get"]
        rep.req(len(gs) == 1 and {strip(x) for x in gs[0].earg(1)} == {("P", ("arg", 1), ())}, f"kind:{m}:name", f"AnnotationSet::{m} does not look up the name it was given", b.j["span"])
        an = SAn(F, b, rep, hook=lambda e, c: {("v", "None")} if c.name == "get" else None)
        rep.req((an.eng.optstate(an.root, {"c": [0]}) or {"?"}) == {"None"}, f"kind:{m}:absent", f"AnnotationSet::{m} of an absent annotation is not None", b.j["span"])
    b = F.fn("AnnotationSet::must_use")
    if b is None: rep.bad("must_use", "AnnotationSet::must_use not found")
    else:
        for lang in ("C", "Cxx", "Cython"):
            for mu in (0, 1):
                an = SAn(F, b, rep, assume={"arg0/AnnotationSet.must_use": ("i", mu), "arg1/Config.language": ("v", lang)})
                rep.req(an.retvals() == {("i", int(mu and lang != "Cython"))}, f"must_use:{lang}:{mu}", f"must_use is {an.retvals()} for {lang} with the attribute {'present' if mu else 'absent'}", b.j["span"])
    b = F.fn("AnnotationSet::should_export")
    if b is not None:
        for st, val, want in (("None", 0, 1), ("Some", 0, 1), ("Some", 1, 0)):
            an = SAn(F, b, rep, hook=lambda e, c: ({("v", st)} if c.name == "bool" else {("i", val if st == "Some" else 0)} if c.name == "unwrap_or" else None), stop=("bool",))
            q = [c for c in an.live_calls() if c.name == "bool"]
            rep.req(len(q) == 1 and strs(q[0].earg(1)) == {"no-export"}, "no-export:key", "should_export does not ask for no-export", b.j["span"])
    # deprecation notes
    b = F.fn("AnnotationSet::deprecated_note")
    if b is None: rep.bad("note", "AnnotationSet::deprecated_note not found"); return
    for kind, (plain, noted) in NOTE.items():
        for empty in (1, 0):
            def h(e, c):
                if c.name == "is_empty": return {("i", empty)}
                if c.name in ("as_deref", "as_ref"):
                    if any("AnnotationSet.deprecated" in av_str(x) for x in c.earg(0)): return {("v", "Some")}
            an = SAn(F, b, rep, hook=h, assume={"arg2": ("v", kind), "arg1/Config.language": ("v", "C")})
            labs = {opt_label(x) for x in rets(an)} - {None}
            for x in rets(an):
                x = strip(x)
                if x[0] == "R" and short(callee(x[1].body.term(x[2]))[0]) in ("replace", "replacen", "map", "map_or", "into", "from"):
                    labs |= {opt_label(y) for y in an.eng.expand(an.eng.operand(x[1], x[1].body.term(x[2])[2][0]))} - {None}
            want = {plain if empty else noted}
            rep.req(labs == want, f"note:{kind}:{'plain' if empty else 'noted'}", f"a deprecated {kind} {'without' if empty else 'with'} a note is marked by {sorted(labs)}, documented: {want}", b.j["span"])
    an = SAn(F, b, rep, assume={"arg1/Config.language": ("v", "Cython")})
    rep.req("Some" not in (an.eng.optstate(an.root, {"c": [0]}) or {"Some"}), "note:cython", "a deprecation marker is produced for Cython", b.j["span"])

RULES = [("<bindgen::ir::structure::Struct as bindgen::ir::item::Item>::rename_for_config", "rename-all", "structure/StructConfig.rename_fields", "StructMember"),
         ("<bindgen::ir::union::Union as bindgen::ir::item::Item>::rename_for_config", "rename-all", "structure/StructConfig.rename_fields", "StructMember"),
         ("<bindgen::ir::enumeration::Enum as bindgen::ir::item::Item>::rename_for_config", "rename-all", "enumeration/EnumConfig.rename_variants", "EnumVariant"),
         ("bindgen::ir::function::Function::rename_for_config", "rename-all", "function/FunctionConfig.rename_args", "FunctionArg"),
         ("bindgen::ir::enumeration::EnumVariant::load", "rename-variant-name-fields", "enumeration/EnumConfig.rename_variant_name_fields", None),
         ("bindgen::ir::constant::Constant::write", "rename-associated-constant", "structure/StructConfig.rename_associated_constant", None)]
HEAVY = ("parse_atom", "apply", "write", "load", "rename_for_config", "write_documentation", "to_condition", "write_before", "write_after", "write_literal", "is_valid", "export_name", "write_declaration", "simplify_standard_types", "to_repr_c", "load_syn_ty",
         "escape", "from_syn", "resolve_declaration_types", "write_field", "new_line", "bindings_exist", "struct_is_transparent", "enum_exists", "rename", "can_be_constexpr", "cxx_tuple", "struct_exists", "replace_self_with", "variant_name", "to_string", "mangle_path")
def rules(F, rep):
    for fn, key, opt, ident in RULES:
        b = F.bodies.get(fn) or next((x for i, x in F.bodies.items() if strip_generics(i) == strip_generics(fn) or i.startswith(fn)), None)
        k0 = f"rule:{short(fn) if 'impl' in fn else fn.split('::')[-3] if ' as ' not in fn else fn.split(' as ')[0].split('::')[-1]}:{key}"
        if b is None: rep.bad(k0, f"{fn} not found"); continue
        for st in ("Some", "None"):
            an = SAn(F, b, rep, hook=lambda e, c: {("v", st)} if c.name == "parse_atom" and strs(c.earg(1)) == {key} else None, stop=HEAVY)
            aps = [c for c in an.live_calls() if c.name == "apply" and "RenameRule" in c.fn]
            got = set(); seen = 0
            for c in aps:
                vs = c.earg(0); labs = set()
                for v in vs:
                    v = strip(v); l = opt_label(v)
                    if l: labs.add(l)
                    elif v[0] == "R" and short(callee(v[1].body.term(v[2]))[0]) == "parse_atom":
                        t = v[1].body.term(v[2]); labs |= {"@" + s for s in strs(an.eng.expand(an.eng.operand(v[1], t[2][1])))}
                    elif v[0] == "K" and v[1] == "none": pass
                    else: labs.add(av_str(v)[:50])
                if not labs & {opt, "@" + key}: continue
                seen += 1; got |= labs
            want = {"@" + key} if st == "Some" else {opt}
            if st == "None": got -= {"@" + key}
            rep.req(seen and got == want, f"{k0}:{st}", f"with the annotation {key} {'present' if st == 'Some' else 'absent'} names are rewritten by {sorted(got) or 'no rule'} instead of {sorted(want)}", b.j["span"])

def guard_labels(c, more=()):
    out = set()
    for r in [repr(a) for a in c.guards()] + list(more):
        ls = re.findall(r"Config\.([\w]+(?:/\w+Config\.\w+)*)", r)
        if ls: out |= {l.split("/")[-1].split(".")[-1] for l in ls}
        else: out.add("?" + r[:80])
    return out

def optfilters(an, pred):
    """what the Option::filter calls a value matching pred went through require, as guard atoms"""
    out = set()
    for c in an.calls:
        if c.name in ("filter", "take_if") and "option::Option" in c.fn and any(pred(v) for v in c.earg(0)):
            at = set()
            for s, k in an.eng.sub_contexts(c.ctx, c.bb): at |= an.eng.ret_bool(s, True, 0)
            out |= {repr(a) for a in at} or {"filter()"}
    return out

INC = {"no_includes", "sys_includes", "includes", "after_includes", "language", "cimports"}
TEXTS = [  # (back end, method, option or literal, options its output may depend on)
  (CL, "write_headers", "header", {"header"}), (CL, "write_headers", "include_guard", {"include_guard", "language"}), (CL, "write_headers", "autogen_warning", {"autogen_warning"}),
  (CL, "write_headers", "sys_includes", INC), (CL, "write_headers", "includes", INC), (CL, "write_headers", "after_includes", INC),
  (CL, "write_headers", "'/* Package version: ", {"package_version"}), (CL, "write_headers", "'#pragma once", {"pragma_once"}), (CL, "write_headers", "'/* Generated with cbindgen:", {"include_version"}),
  (CY, "write_headers", "header", {"header"}), (CY, "write_headers", "autogen_warning", {"autogen_warning"}), (CY, "write_headers", "after_includes", INC), (CY, "write_headers", "cimports", INC),
  (CY, "write_headers", "'''' Package version: ", {"package_version"}), (CY, "write_headers", "'/* Generated with cbindgen:", {"include_version"}),
  ("", "write_trailer", "trailer", {"trailer"}), (CY, "open_namespaces", "cython/CythonConfig.header", {"header"}),
]
FN = ("Function.extern_decl)=False", "?iter(arg2/Bindings.functions", "is_empty)=False", "AnnotationSet::should_export(", "unwrap_or(none:")
DC = ("CDeclarator::", " CDeclarator)=", "?iter(")
MU = ("AnnotationSet::must_use(", "AnnotationSet.must_use")
ITEMS = [  # (back end, method, option, options, other conditions, conditions that must be there)
  (CL, "write_functions", "FunctionConfig.must_use", {"args", "language", "line_length", "must_use"}, FN + MU, MU[:0]), (CL, "write_functions", "FunctionConfig.prefix", {"args", "line_length", "prefix"}, FN, ()),
  (CL, "write_functions", "FunctionConfig.postfix", {"args", "line_length", "postfix"}, FN, ()), (CL, "write_functions", "FunctionConfig.swift_name_macro", {"args", "line_length", "swift_name_macro", "language"}, FN + ("Function.args", "Function.self_type_path", "Function.path"), ()),
  (CL, "write_struct", "StructConfig.must_use", {"language", "must_use"}, MU, ()), (CL, "write_enum", "EnumConfig.must_use", {"language", "must_use"}, MU, ()),
  (CL, "write_enum", "StructConfig.must_use", {"language", "must_use"}, MU + ("Enum.tag is_some)=True",), ()),
  (CL, "write_globals", "Config.using_namespaces", {"language", "using_namespaces"}, ("Bindings.globals is_empty)=False", "Bindings.functions is_empty)=False"), ()),
  (CL, "open_namespaces", "Config.namespace", {"namespace", "namespaces", "language", "cpp_compat"}, (), ()), (CL, "open_namespaces", "Config.namespaces", {"namespace", "namespaces", "language", "cpp_compat"}, (), ()),
  *[(CL, m, "FunctionConfig.no_return", {"language", "no_return"}, DC + ("never_return",), ()) for m in ("write_static", "write_functions")],
  *[(CL, m, "PtrConfig." + x, {"language", "non_null_attribute", "nullable_attribute"}, DC, ()) for m in ("write_static", "write_functions") for x in ("non_null_attribute", "nullable_attribute")],
]
def items(F, rep, cache):
    for be, m, what, opts, others, need in ITEMS:
        b = entry(F, be, m); key = f"item:{be.split('::')[0]}:{m}:{what}"
        if b is None: rep.bad(key, f"{m} of {be} not found"); continue
        if b.id not in cache: cache[b.id] = An(F, b, rep=rep, maxdepth=6)
        an = cache[b.id]; best = None; lack = None
        oth = others + (FN + ("Bindings.functions", ) if m == "write_functions" else ())
        op = opts | ({"args", "line_length", "prefix", "postfix", "must_use", "language"} if m == "write_functions" else set())
        pred = lambda v: av_str(strip(v)).endswith(what)
        for c in an.calls:
            if c.name != "write_fmt": continue
            if not any(p[0] != "s" and any(pred(v) for v in an.eng.expand(p[1])) for x in c.earg(1) for p in fmt_pieces(an.eng, x) or ()): continue
            fl = optfilters(an, pred); gs = guard_labels(c, fl); rs = [repr(a) for a in c.guards()] + list(fl)
            extra = {g for g in gs - op if not (g.startswith("?bool(int:") or any(o in g for o in oth))}
            if best is None or len(extra) < len(best): best = extra
            if any(n not in " ".join(rs) for n in need): lack = need
        # the guards of item-level texts follow the layout of the emitting function (control dependences), so only their presence is decided
        rep.req(best is not None and (m != "write_globals" or not best), key, f"{what} is {'never written' if best is None else 'written only subject to ' + ', '.join(sorted(best))}", b.j["span"])
        if need and best is not None: rep.req(lack is None, key + ":when", f"{what} is written without the condition {', '.join(need)}", b.j["span"])

class Suffix(dict):
    """assumptions about every value whose access path ends so"""
    def _k(self, k): return next((x for x in dict.keys(self) if k.endswith(x)), None)
    def __contains__(self, k): return self._k(k) is not None
    def __getitem__(self, k): return dict.__getitem__(self, self._k(k))
    def get(self, k, d=None): return self[k] if k in self else d

DSTOP = ("write_type", "write_horizontal_source_list", "write_vertical_source_list", "escape", "write")
def declarators(F, rep):
    """the attributes of a declarator, in every combination of the properties they announce"""
    b = next((x for i, x in F.bodies.items() if i.endswith("CDecl::write") and x.kind == "fn"), None)
    if b is None: rep.bad("decl", "CDecl::write not found"); return
    A = "Config.pointer/PtrConfig."; N = "Config.function/FunctionConfig.no_return"
    cases = [("Ptr", {"is_nullable": n, "is_ref": r}, {A + "non_null_attribute": nn, A + "nullable_attribute": nu}) for n in (0, 1) for r in (0, 1) for nn in ("Some", "None") for nu in ("Some", "None")]
    cases += [("Func", {"never_return": n}, {N: s}) for n in (0, 1) for s in ("Some", "None")]
    for var, flags, opts in cases:
        for lang in ("C", "Cxx", "Cython"):
            asm = Suffix({"." + f: ("i", v) for f, v in flags.items()}); asm["Config.language"] = ("v", lang)
            an = SAn(F, b, rep, assume=asm, opts=Suffix(opts), adts={"CDeclarator": var}, stop=DSTOP)
            got = set()
            for c in an.live_calls():
                if c.name not in ("write_fmt", "write", "write_str"): continue
                for x in c.earg(c.nargs - 1):
                    vals = [v for q in fmt_pieces(an.eng, x) or () if q[0] != "s" for v in an.eng.expand(q[1])] if c.name == "write_fmt" else [x]
                    got |= {o for o in opts for v in vals if av_str(strip(v)).endswith(o)}
            if var == "Ptr": want = {A + "nullable_attribute"} if flags["is_nullable"] else set() if flags["is_ref"] else {A + "non_null_attribute"}
            else: want = {N} if flags["never_return"] else set()
            want = {o for o in want if opts[o] == "Some" and lang != "Cython"}
            desc = ", ".join(f"{k}={v}" for k, v in flags.items()); st = "".join(v[0] for v in opts.values())
            rep.req(got == want, f"decl:{var}:{desc}:{st}:{lang}", f"a {var} declarator with {desc} is written in {lang} with {sorted(x.split('.')[-1] for x in got) or 'no attribute'} instead of {sorted(x.split('.')[-1] for x in want) or 'none'} (attributes configured: {[k.split('.')[-1] for k, v in opts.items() if v == 'Some']})", b.j["span"])

DOC = {"C": {"/*", " */"}, "Doxy": {"/**", " *", " */"}, "C99": {"//"}, "Cxx": {"///"}}
def docs(F, rep):
    """comments follow the documentation options"""
    for be, langs, styles in ((CL, ("C", "Cxx"), ("C", "C99", "Doxy", "Cxx", "Auto")), (CY, ("Cython",), ("Auto", "C"))):
        b = entry(F, be, "write_documentation")
        nm = be.split("::")[0]
        if b is None: rep.bad(f"doc:{nm}", f"write_documentation of {be} not found"); continue
        for on in (0, 1):
            for lang in langs:
                for style in styles:
                    for ln in ("Short", "Full"):
                        an = SAn(F, b, rep, hook=lambda e, c: {("i", 0)} if c.name == "is_empty" and any("doc_comment" in av_str(x) for x in c.earg(0)) else None, stop=("new_line", "write", "write_fmt"),
                                 assume=Suffix({"Config.language": ("v", lang), "Config.documentation": ("i", on), "Config.documentation_style": ("v", style), "Config.documentation_length": ("v", ln)}))
                        lits = set(); text = False; ends = set()
                        for c in an.live_calls():
                            if c.name in ("write", "write_fmt", "write_str", "write_raw_block"):
                                for x in c.earg(c.nargs - 1):
                                    ps = fmt_pieces(an.eng, x) if c.name == "write_fmt" else [("s", t) for t in strs([x])]
                                    for q in ps or ():
                                        if q[0] == "s": lits.add(q[1])
                                        else:
                                            vs = an.eng.expand(q[1]); lits |= strs(vs)
                                            text = text or any("doc_comment" in av_str(v) for v in vs)
                            if c.name == "index" and c.nargs == 2 and any("doc_comment" in av_str(v) for v in c.earg(0)):
                                ends |= {v for v in c.earg(1) if not (strip(v)[0] == "K" and strip(v)[1] == "int" and strip(v)[2] == 0)}
                            if c.name == "take" and c.nargs == 2 and any("doc_comment" in av_str(v) for v in c.earg(0)): ends |= set(c.earg(1))
                            if c.name in ("skip", "step_by", "filter", "skip_while", "take_while", "rev") and c.nargs and is_std(c.fn) and any("doc_comment" in av_str(v) for v in c.earg(0)): rep.bad(f"doc:{nm}:{c.name}", "lines of a comment are left out or reordered", c.span)
                        key = f"doc:{nm}:{on}:{lang}:{style}:{ln}"
                        lits.discard("")
                        want = set() if not on else {"#"} if lang == "Cython" else DOC[style if style != "Auto" else "Doxy" if lang == "C" else "Cxx"]
                        rep.req(lits == want and text == bool(on), key, f"a comment with documentation={bool(on)}, style {style} in {lang} is written with the marks {sorted(lits)} {'' if text else 'and without its text '}instead of {sorted(want)}", b.j["span"])
                        if on and ends:
                            ok = {1 if strip(v)[0] == "K" and strip(v)[1] == "int" and strip(v)[2] == 1 else 0 for v in ends}
                            rep.req(ok == ({1} if ln == "Short" else {0}), key + ":length", f"a comment is cut at {[av_str(v) for v in ends]} with documentation_length = {ln}", b.j["span"])

def entry(F, be, m):
    for i, b in F.bodies.items():
        if b.kind != "fn" or not i.endswith("::" + m) or "LanguageBackend" not in i: continue
        if be and be in i or not be and "<" not in i: return b
def texts(F, rep):
    cache = {}
    for be, m, what, allowed in TEXTS:
        b = entry(F, be, m)
        key = f"text:{be.split('::')[0]}:{m}:{what}"
        if b is None: rep.bad(key, f"{m} of {be or 'the back ends'} not found"); continue
        if b.id not in cache: cache[b.id] = An(F, b, rep=rep, maxdepth=6)
        an = cache[b.id]
        best = None
        pred = lambda v: bool(re.sub(r"/\(\)\.\d$", "", av_str(strip(v))).endswith("Config." + what) if "/" in what else re.search(r"Config\." + what + r"(?:/\(\)\.\d)?$", av_str(strip(v))))
        for c in an.calls:
            if c.name not in ("write_fmt", "write", "write_str"): continue
            hit = False
            for x in c.earg(c.nargs - 1):
                ps = fmt_pieces(an.eng, x) if c.name == "write_fmt" else None
                if what[0] == "'":
                    lits = "".join(p[1] for p in ps if p[0] == "s") if ps else "".join(strs([x]))
                    hit = hit or what[1:] in lits
                else:
                    for p in ps or ():
                        if p[0] != "s": hit = hit or any(pred(v) for v in an.eng.expand(p[1]))
            if not hit: continue
            extra = guard_labels(c, optfilters(an, pred)) - allowed
            extra = {e for e in extra if not e.startswith("?bool(int:")}
            if best is None or len(extra) < len(best): best = extra
        rep.req(best is not None and not best, key, f"{what} is {'never written' if best is None else 'written only subject to ' + ', '.join(sorted(best))}", b.j["span"])
    items(F, rep, cache)
    declarators(F, rep)
    docs(F, rep)
