"""C16 configuration files: keys, spellings, defaults."""
import re
from .mir import short, strip_generics
from .flow import strip, av_str, avs_str, is_std
from .graph import *
from .q import An, describe, rets
from .rules_io import SAn, strs
from .rules_tables import tree
from .scn import hooks

# documented tables: key -> (field, default).  S: not set; []: empty collection; {..}: nested table; a name: that value
N, E = "unset", "empty"
def T(x): return ("table", x)
TABLES = {
 "Config": {"header": ("header", N), "includes": ("includes", E), "sys_includes": ("sys_includes", E), "after_includes": ("after_includes", N), "trailer": ("trailer", N),
   "include_guard": ("include_guard", N), "pragma_once": ("pragma_once", 0), "no_includes": ("no_includes", 0), "package_version": ("package_version", 0), "autogen_warning": ("autogen_warning", N),
   "include_version": ("include_version", 0), "namespace": ("namespace", N), "namespaces": ("namespaces", N), "using_namespaces": ("using_namespaces", N), "braces": ("braces", "SameLine"),
   "line_length": ("line_length", 100), "tab_width": ("tab_width", 2), "line_endings": ("line_endings", "LF"), "language": ("language", "Cxx"), "cpp_compat": ("cpp_compat", 0), "style": ("style", "Both"),
   "sort_by": ("sort_by", "None"), "usize_is_size_t": ("usize_is_size_t", 0), "parse": ("parse", T("ParseConfig")), "export": ("export", T("ExportConfig")), "macro_expansion": ("macro_expansion", T("MacroExpansionConfig")),
   "layout": ("layout", T("LayoutConfig")), "fn": ("function", T("FunctionConfig")), "struct": ("structure", T("StructConfig")), "enum": ("enumeration", T("EnumConfig")), "const": ("constant", T("ConstantConfig")),
   "defines": ("defines", E), "documentation": ("documentation", 1), "documentation_style": ("documentation_style", "Auto"), "documentation_length": ("documentation_length", "Full"),
   "ptr": ("pointer", T("PtrConfig")), "only_target_dependencies": ("only_target_dependencies", 0), "cython": ("cython", T("CythonConfig"))},
 "ExportConfig": {"include": ("include", E), "exclude": ("exclude", E), "rename": ("rename", E), "pre_body": ("pre_body", E), "body": ("body", E), "prefix": ("prefix", N), "item_types": ("item_types", E),
   "renaming_overrides_prefixing": ("renaming_overrides_prefixing", 0), "mangle": ("mangle", T("MangleConfig"))},
 "MangleConfig": {"rename_types": ("rename_types", "None"), "remove_underscores": ("remove_underscores", 0)},
 "LayoutConfig": {"packed": ("packed", N), "aligned_n": ("aligned_n", N)},
 "FunctionConfig": {"prefix": ("prefix", N), "postfix": ("postfix", N), "must_use": ("must_use", N), "deprecated": ("deprecated", N), "deprecated_with_note": ("deprecated_with_note", N), "args": ("args", "Auto"),
   "rename_args": ("rename_args", "None"), "swift_name_macro": ("swift_name_macro", N), "sort_by": ("sort_by", N), "no_return": ("no_return", N)},
 "StructConfig": {"rename_fields": ("rename_fields", "None"), "associated_constants_in_body": ("associated_constants_in_body", 0), "rename_associated_constant": ("rename_associated_constant", "None"),
   "must_use": ("must_use", N), "deprecated": ("deprecated", N), "deprecated_with_note": ("deprecated_with_note", N),
   **{"derive_" + x: ("derive_" + x, 0) for x in "constructor eq neq lt lte gt gte ostream".split()}},
 "EnumConfig": {"rename_variants": ("rename_variants", "None"), "rename_variant_name_fields": ("rename_variant_name_fields", "SnakeCase"), "add_sentinel": ("add_sentinel", 0), "prefix_with_name": ("prefix_with_name", 0),
   "cast_assert_name": ("cast_assert_name", N), "must_use": ("must_use", N), "deprecated": ("deprecated", N), "deprecated_with_note": ("deprecated_with_note", N), "deprecated_variant": ("deprecated_variant", N),
   "deprecated_variant_with_note": ("deprecated_variant_with_note", N), "enum_class": ("enum_class", 1), "private_default_tagged_enum_constructor": ("private_default_tagged_enum_constructor", 0),
   **{"derive_" + x: ("derive_" + x, 0) for x in "helper_methods const_casts mut_casts tagged_enum_destructor tagged_enum_copy_constructor tagged_enum_copy_assignment ostream".split()}},
 "ConstantConfig": {"allow_static_const": ("allow_static_const", 1), "allow_constexpr": ("allow_constexpr", 1), "sort_by": ("sort_by", N)},
 "MacroExpansionConfig": {"bitflags": ("bitflags", 0)},
 "ParseExpandConfig": {"crates": ("crates", E), "all_features": ("all_features", 0), "default_features": ("default_features", 1), "features": ("features", N), "profile": ("profile", "Debug")},
 "ParseConfig": {"parse_deps": ("parse_deps", 0), "include": ("include", N), "exclude": ("exclude", E), "expand": ("expand", T("ParseExpandConfig")), "clean": ("clean", 0), "extra_bindings": ("extra_bindings", E)},
 "PtrConfig": {"non_null_attribute": ("non_null_attribute", N), "nullable_attribute": ("nullable_attribute", N)},
 "CythonConfig": {"header": ("header", N), "cimports": ("cimports", E)},
}
def both(*names): return {s: n for n in names for s in (n, re.sub(r"(?<=[a-z])(?=[A-Z])", "_", n).lower())}
RENAME = {"none": "None", "None": "None"}
for v, xs in {"GeckoCase": "mGeckoCase GeckoCase gecko_case", "LowerCase": "lowercase LowerCase lower_case", "UpperCase": "UPPERCASE UpperCase upper_case", "PascalCase": "PascalCase pascal_case",
              "CamelCase": "camelCase CamelCase camel_case", "SnakeCase": "snake_case SnakeCase", "ScreamingSnakeCase": "SCREAMING_SNAKE_CASE ScreamingSnakeCase screaming_snake_case",
              "QualifiedScreamingSnakeCase": "QUALIFIED_SCREAMING_SNAKE_CASE QualifiedScreamingSnakeCase qualified_screaming_snake_case"}.items():
    for x in xs.split(): RENAME[x] = v
# enumerated values: spelling -> variant, and whether the spelling is matched regardless of case
ENUMS = {
 "Language": ({**{x: "Cxx" for x in "cxx Cxx CXX cpp Cpp CPP c++ C++".split()}, "c": "C", "C": "C", "cython": "Cython", "Cython": "Cython"}, False),
 "LineEndingStyle": ({"native": "Native", "lf": "LF", "crlf": "CRLF", "cr": "CR"}, True),
 "Braces": (both("SameLine", "NextLine"), False), "Layout": (both("Horizontal", "Vertical", "Auto"), False),
 "DocumentationStyle": ({"c": "C", "c99": "C99", "cxx": "Cxx", "c++": "Cxx", "doxy": "Doxy", "auto": "Auto"}, True),
 "DocumentationLength": ({"short": "Short", "full": "Full"}, True), "Style": (both("Both", "Tag", "Type"), False),
 "ItemType": ({"constants": "Constants", "globals": "Globals", "enums": "Enums", "structs": "Structs", "unions": "Unions", "typedefs": "Typedefs", "opaque": "OpaqueItems", "functions": "Functions"}, True),
 "SortKey": ({"name": "Name", "none": "None"}, True), "Profile": (both("Debug", "Release"), False), "RenameRule": (RENAME, False),
}
COLL = {"new", "default", "with_capacity"}
CASE = {"to_lowercase": str.lower, "to_ascii_lowercase": str.lower, "to_uppercase": str.upper, "to_ascii_uppercase": str.upper, "trim": str.strip}

def one_s(e, c, i):
    v = e.avvals(c.arg(i))
    return next(iter(v))[1] if v and len(v) == 1 and next(iter(v))[0] == "s" else None
def case(e, c):
    """string functions of one known string"""
    if c.name in CASE and c.nargs == 1:
        s = one_s(e, c, 0)
        if s is not None: return {("s", CASE[c.name](s))}
    if c.name in ("eq_ignore_ascii_case", "starts_with", "ends_with", "strip_prefix") and c.nargs == 2:
        s = one_s(e, c, 0); t = one_s(e, c, 1)
        if s is not None and t is not None:
            if c.name == "strip_prefix": return {("v", "Some" if s.startswith(t) else "None")}
            return {("i", int(s.lower() == t.lower() if c.name.startswith("eq") else s.startswith(t) if c.name == "starts_with" else s.endswith(t)))}

def impl_bodies(F, ty, what):
    return [b for i, b in F.bodies.items() if i.endswith("::" + what) and re.search(r"(?:for |<)(?:[\w:]*::)?" + ty + r"(?:>| as )", i) and "eserialize" in i]

def derived(F, ty):
    key = mp = None
    for i, b in F.bodies.items():
        if f"for bindgen::config::{ty}>::deserialize::" not in i: continue
        if "__FieldVisitor" in i and i.endswith("::visit_str"): key = b
        if "__Visitor" in i and i.endswith("::visit_map"): mp = b
    return key, mp

def given(a):
    """the call that produced the value of the key, if a is such a value"""
    a = strip(a)
    if a[0] == "P" and isinstance(a[1], tuple) and a[1][0] == "R": a = a[1]
    if a[0] == "R" and short(callee(a[1].body.term(a[2]))[0]) == "next_value": return (a[1], a[2])

def c16(F, rep):
    rep.rule("finite-domain propagation over the expanded deserialisers: every key of every table is pushed through the key recogniser and the resulting key through the map visitor to the field that receives the value; every other key seen anywhere is refused; every spelling (and case variant) of every enumerated value is pushed through its parser; the value each field has when its key is missing is the documented default")
    nk = 0
    for ty, keys in TABLES.items():
        kb, mb = derived(F, ty)
        if kb is None or mb is None: rep.bad(f"{ty}:anchor", f"{ty} has no field-by-field deserialiser"); continue
        an0 = SAn(F, kb, rep)
        seen = set()
        for c in an0.calls:
            if c.name in ("eq", "ne") and c.nargs == 2: seen |= strs(c.earg(0)) | strs(c.earg(1))
        for x in sorted(seen - set(keys)): rep.bad(f"{ty}:key:{x}", f"{ty} accepts the undocumented key {x!r}", kb.j["span"])
        fields = {}
        for k, (f, d) in keys.items():
            an = SAn(F, kb, rep, assume={"arg1": ("s", k)})
            t = tree(an.eng, an.eng.local(an.root, 0)); st = an.eng.optstate(an.root, {"c": [0]})
            if st != {"Ok"} or t is None or t[0] != "var": rep.bad(f"{ty}:key:{k}", f"the key {k!r} of {ty} is not accepted", kb.j["span"]); continue
            if t[1] in fields.values(): rep.bad(f"{ty}:key:{k}", f"the key {k!r} of {ty} is taken for another key", kb.j["span"]); continue
            fields[k] = t[1]; rep.ok(f"{ty}:key:{k}"); nk += 1
        n = 0
        # a key is recognised by comparing it with a constant, and those were collected above; the rest are representatives
        near = {f for f, _ in keys.values()} | {"config_path", "zzz", "", next(iter(keys)).upper(), next(iter(keys)).replace("_", "-"), next(iter(keys)) + "s"}
        for k in sorted(near - set(keys)):
            an = SAn(F, kb, None, assume={"arg1": ("s", k)})
            if an.eng.optstate(an.root, {"c": [0]}) != {"Err"}: rep.bad(f"{ty}:unknown", f"{ty} does not reject the unknown key {k!r}", kb.j["span"]); break
            n += 1
        else: rep.ok(f"{ty}:unknown")
        # where each key's value goes
        for k, v in fields.items():
            an = SAn(F, mb, rep, adts={"__Field": v}, stop=lambda b, c: b.name == "default")
            got, other = set(), set()
            lv = {(c.ctx, c.bb) for c in an.live_calls() if c.name == "next_value"}
            for a in rets(an):
                a = strip(a)
                if a[0] != "A" or short(an.eng.agg(a)[1]) != ty: continue
                for nm, o in zip(*an.eng.agg(a)[3:5]):
                    if any(given(x) in lv for x in an.eng.expand(an.eng.operand(a[1], o))): got.add(nm)
            rep.req(got == {keys[k][0]}, f"{ty}:store:{k}", f"the value of {k!r} in {ty} is stored in {', '.join(sorted(got)) or 'no option'} instead of {keys[k][0]}", mb.j["span"])
        # the value of a key that is missing
        an = SAn(F, mb, rep)
        vals = {}
        for a in rets(an):
            a = strip(a)
            if a[0] == "A" and short(an.eng.agg(a)[1]) == ty:
                for nm, o in zip(*an.eng.agg(a)[3:5]): vals.setdefault(nm, set()).update(x for x in an.eng.expand(an.eng.operand(a[1], o)) if not given(x))
        docd = {f: d for f, d in keys.values()}
        for f, avs in vals.items():
            if f not in docd:
                rep.req(f == "config_path", f"{ty}:undocumented:{f}", f"the option {f} of {ty} has no reviewed key", mb.j["span"]); continue
            check_default(rep, an.eng, f"{ty}:default:{f}", f"the default of {f} in {ty}", avs, docd[f], mb)
        for f in sorted(set(docd) - set(vals)): rep.bad(f"{ty}:default:{f}", f"the option {f} of {ty} is never produced", mb.j["span"])
        db = F.fn(f"<bindgen::config::{ty} as std::default::Default>::default")
        if db is None: rep.bad(f"{ty}:Default", f"{ty} has no Default"); continue
        an = SAn(F, db, rep)
        for a in rets(an):
            a = strip(a)
            if a[0] != "A": rep.bad(f"{ty}:Default", f"the default of {ty} is not built field by field", db.j["span"]); continue
            for nm, o in zip(*an.eng.agg(a)[3:5]):
                if nm in docd: check_default(rep, an.eng, f"{ty}:Default:{nm}", f"Default of {nm} in {ty}", an.eng.expand(an.eng.operand(a[1], o)), docd[nm], db)
    rep.floor("keys", nk, 100)
    enums(F, rep); expand(F, rep); files(F, rep)

def check_default(rep, eng, key, what, avs, want, body):
    kinds = set()
    for a in avs:
        a = strip(a)
        if a[0] == "K" and a[1] == "none": kinds.add(N)
        elif a[0] == "K" and a[1] == "int": kinds.add(a[2])
        elif a[0] == "A" and eng.agg(a)[0] == "adt":
            ag = eng.agg(a); kinds.add(("table", short(ag[1])) if short(ag[1]) in TABLES else ag[2])
        elif a[0] == "R":
            t = a[1].body.term(a[2]); fn = callee(t)[0]
            if short(fn) in COLL: kinds.add("std")
            else: kinds.add("call " + short(fn))
        else: kinds.add(av_str(a)[:60])
    bad = {k for k in kinds if not (k == want or k == "std" and want in (N, E, 0) or k == N)}
    ok = not bad and (want in kinds or "std" in kinds)
    rep.req(ok, key, f"{what} is {', '.join(map(str, sorted(kinds, key=str)))}, documented: {want}", body.j["span"])

def enums(F, rep):
    foreign = {"", " ", "zzz", "C", "None", "Name", "auto", "lf", "both", "debug", "prefix", "same-line"}
    for ty, (table, nocase) in ENUMS.items():
        fb = next((b for i, b in F.bodies.items() if re.match(r"<bindgen::\w+::" + ty + r" as std::str::FromStr>::from_str$", i)), None)
        if fb is None: rep.bad(f"{ty}:anchor", f"{ty} has no parser"); continue
        def run(s):
            an = SAn(F, fb, rep, assume={"arg0": ("s", s)}, hook=case)
            return tree(an.eng, an.eng.local(an.root, 0)), an.eng.optstate(an.root, {"c": [0]})
        seen = set()
        for c in SAn(F, fb, rep).calls:
            if c.name in ("eq", "ne", "eq_ignore_ascii_case") and c.nargs == 2: seen |= strs(c.earg(0)) | strs(c.earg(1))
        for s in sorted(seen - set(table)):
            t, st = run(s)
            if st != {"Err"}: rep.bad(f"{ty}:spelling:{s}", f"{s!r} is accepted as a {ty} but is not documented", fb.j["span"])
        for s, v in table.items():
            for x in ({s, s.upper(), s.title()} if nocase else {s}):
                t, st = run(x)
                rep.req(st == {"Ok"} and t is not None and t[0] == "var" and t[1] == v, f"{ty}:spelling:{x}", f"the {ty} spelling {x!r} gives {'an error' if st == {'Err'} else t and t[1]}, documented: {v}", fb.j["span"])
        ok = True
        for s in sorted(foreign | {y for x in sorted(table)[::3] for y in (x.upper(), x.title(), x + "x", x[:-1], " " + x)}):
            if s in table or nocase and s.lower() in table: continue
            t, st = run(s)
            if st != {"Err"}: ok = False; rep.bad(f"{ty}:other:{s}", f"{s!r} is accepted as a {ty}", fb.j["span"])
        if ok: rep.ok(f"{ty}:other")
        if ty == "RenameRule":
            an = SAn(F, fb, rep, assume={"arg0": ("s", "prefix:ab")}, hook=case)
            good = an.eng.optstate(an.root, {"c": [0]}) == {"Ok"}; why = "is refused"
            rv = rets(an)
            for a in rv:
                a = strip(a)
                if a[0] != "A" or an.eng.agg(a)[2] != "Prefix": good = False; why = "is not a prefix rule"; continue
                vs = an.eng.expand(an.eng.operand(a[1], an.eng.agg(a)[4][0]))
                if not vs or not rest_of(an, vs): good = False; why = f"keeps {describe(an.eng, vs)[:80]} instead of what follows the colon"
            rep.req(good and rv, f"{ty}:prefix", f"'prefix:' followed by text {why}", fb.j["span"])
        # the deserialiser is that parser
        vb = next((b for i, b in F.bodies.items() if i.endswith("::visit_str") and re.match(r"<<bindgen::\w+::" + ty + r" as serde::Deserialize", i)), None)
        if vb is None: rep.bad(f"{ty}:read", f"{ty} is not read from a string", fb.j["span"]); continue
        for st in ("Ok", "Err"):
            an = SAn(F, vb, rep, hook=lambda e, c: {("v", st)} if c.name in ("parse", "from_str") else None, stop=("from_str",))
            ps = [c for c in an.live_calls() if c.name in ("parse", "from_str")]
            good = len(ps) == 1 and {strip(x) for x in ps[0].arg(0)} == {("P", ("arg", 1), ())} and an.eng.optstate(an.root, {"c": [0]}) == {st}
            if st == "Ok": good = good and all(strip(a)[0] == "R" and (strip(a)[1], strip(a)[2]) == (ps[0].ctx, ps[0].bb) for a in rets(an))
            rep.req(good, f"{ty}:read:{st}", f"reading a {ty} from the configuration is not its parser's {st} result", vb.j["span"])

def rest_of(an, vs):
    """the text of the argument after "prefix:" and nothing else"""
    eng = an.eng; n = 0
    for c in an.live_calls():
        if c.name in ("index", "get", "split_at", "strip_prefix", "trim_start_matches", "split_off", "drain", "splitn", "split_once", "replace", "trim") and c.nargs == 2:
            if not any(strip(x) == ("P", ("arg", 0), ()) or strip(x)[0] == "K" and strip(x)[1] == "str" for x in c.earg(0)): continue
            if c.name == "strip_prefix": ok = strs(c.earg(1)) == {"prefix:"}
            elif c.name in ("index", "get"): ok = bool(c.earg(1)) and all(is_from7(eng, x) for x in c.earg(1)) and not other_range(c.ctx.body)
            elif c.name == "split_once": ok = c.earg(1) and {strip(x)[2] for x in c.earg(1) if strip(x)[0] == "K"} <= {":", 58}
            else: ok = False
            if not ok: return False
            n += 1
    return n >= 1
def is_from7(eng, x):
    x = strip(x)
    if x[0] == "K" and x[1] == "int": return x[2] == 7
    return x[0] == "R" and short(callee(x[1].body.term(x[2]))[0]) == "len" and strs(eng.expand(eng.operand(x[1], x[1].body.term(x[2])[2][0]))) == {"prefix:"}
def other_range(b):
    """a range other than `n..` is built in this body"""
    return re.search(r"ops::(?:range::)?Range(?!From)\w*", str(b.blocks)) is not None

def expand(F, rep):
    b = next((b for i, b in F.bodies.items() if "ParseExpandVisitor" in i and i.endswith("::visit_seq")), None)
    m = next((b for i, b in F.bodies.items() if "ParseExpandVisitor" in i and i.endswith("::visit_map")), None)
    if b is None or m is None: rep.bad("expand:anchor", "the two forms of parse.expand are not read"); return
    want = {"all_features": 1, "default_features": 1, "features": N, "profile": "Debug"}
    an = SAn(F, b, rep)
    n = 0
    for a in rets(an):
        a = strip(a)
        if a[0] != "A" or short(an.eng.agg(a)[1]) != "ParseExpandConfig": continue
        n += 1
        for nm, o in zip(*an.eng.agg(a)[3:5]):
            vs = an.eng.expand(an.eng.operand(a[1], o))
            if nm == "crates":
                ok = bool(vs) and all(strip(x)[0] == "R" and short(callee(strip(x)[1].body.term(strip(x)[2]))[0]) == "deserialize" for x in vs)
                rep.req(ok, "expand:list:crates", f"the crates of a list form of parse.expand are {describe(an.eng, vs)[:80]}, not the list", b.j["span"])
            else: check_default(rep, an.eng, f"expand:list:{nm}", f"{nm} of the list form of parse.expand", vs, want.get(nm), b)
    rep.req(n, "expand:list", "the list form of parse.expand gives no setting", b.j["span"])
    an = SAn(F, m, rep, stop=("deserialize",))
    rs = rets(an)
    rep.req(bool(rs) and all(strip(x)[0] == "R" and short(callee(strip(x)[1].body.term(strip(x)[2]))[0]) == "deserialize" for x in rs), "expand:table", "the table form of parse.expand is not read as that table", m.j["span"])
    w = [c for i, x in F.bodies.items() if "ParseConfig>::deserialize" in i and "__DeserializeWith" in i for c in x.calls() if short(callee(x.term(c))[0]) == "retrocomp_parse_expand_config_deserialize"] if False else \
        [i for i, x in F.bodies.items() if "for bindgen::config::ParseConfig>::deserialize" in i and any("retrocomp_parse_expand_config_deserialize" in callee(x.term(c))[0] for c in call_blocks(x))]
    rep.req(w, "expand:routed", "parse.expand is not read by the function that accepts both forms", m.j["span"])

def call_blocks(b): return [i for i in range(len(b.blocks)) if b.term(i)[0] == "call"]

def is_toml(e, x):
    """the given folder joined with cbindgen.toml"""
    x = strip(x)
    if x[0] != "R": return False
    t = x[1].body.term(x[2])
    if short(callee(t)[0]) != "join" or len(t[2]) != 2: return False
    return strs(e.expand(e.operand(x[1], t[2][1]))) == {"cbindgen.toml"} and {strip(y) for y in e.expand(e.operand(x[1], t[2][0]))} == {("P", ("arg", 0), ())}

def files(F, rep):
    b = F.fn("Config::from_file")
    if b is None: rep.bad("file:anchor", "Config::from_file not found"); return
    READ = ("read_to_string",)
    for rd in ("Ok", "Err"):
        for ps in ("Ok", "Err"):
            an = SAn(F, b, rep, hook=lambda e, c: {("v", rd)} if c.name == "read_to_string" else {("v", ps)} if c.name == "from_str" and c.fn.startswith("toml") else None)
            st = an.eng.optstate(an.root, {"c": [0]}); want = "Ok" if rd == ps == "Ok" else "Err"
            rep.req((st or set()) - {"None"} == {want}, f"file:{rd}:{ps}", f"Config::from_file returns {sorted(st or ())} when reading gives {rd} and parsing {ps}", b.j["span"])
    an = SAn(F, b, rep)
    ps = [c for c in an.live_calls() if c.fn.startswith("toml")]
    ok = len(ps) == 1 and all(strip(x)[0] == "R" and short(callee(strip(x)[1].body.term(strip(x)[2]))[0]) == "read_to_string" for x in ps[0].earg(0))
    rep.req(ok, "file:text", "what is parsed as the configuration is not the text of the given file", b.j["span"])
    r = F.fn("Config::from_root_or_default")
    if r is None: rep.bad("root:anchor", "Config::from_root_or_default not found"); return
    for ex in (0, 1):
        def there(e, c):
            if c.name in ("exists", "is_file") and c.nargs and all(is_toml(e, x) for x in c.earg(0)): return {("i", ex)}
        an = SAn(F, r, rep, hook=there, stop=("from_file", "default"))
        ns = {c.name for c in an.live_calls()} & {"from_file", "default"}
        for c in an.live_calls():
            if c.name == "from_file": rep.req(all(is_toml(an.eng, x) for x in c.earg(0)), "root:path", "the configuration of a crate is not read from its cbindgen.toml", r.j["span"])
        rep.req(ns == ({"from_file"} if ex else {"default"}), f"root:{ex}", f"with{'' if ex else 'out'} a cbindgen.toml in the crate the configuration comes from {sorted(ns)}", r.j["span"])
