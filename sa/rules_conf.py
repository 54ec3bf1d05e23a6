"""C19 builder, C18 command line, C16 configuration files, C17 options and annotations."""
import re
from .mir import short, strip_generics, field_uses
from .flow import strip, marks, av_str, avs_str, is_std
from .graph import *
from .q import An, describe, rets
from .rules_traversal import method
from .rules_io import SAn, strs
from .scn import *
from .eff import effects, always

C = "config."
# method -> (setting, operation, value): the documented meaning of every builder method
BUILDER = {
    "with_header": (C + "header", "set", "1"), "with_no_includes": (C + "no_includes", "set", True),
    "with_include": (C + "includes", "push", "1"), "with_sys_include": (C + "sys_includes", "push", "1"),
    "with_after_include": (C + "after_includes", "set", "1"), "with_trailer": (C + "trailer", "set", "1"),
    "with_include_guard": (C + "include_guard", "set", "1"), "with_pragma_once": (C + "pragma_once", "set", "1"),
    "with_autogen_warning": (C + "autogen_warning", "set", "1"), "with_include_version": (C + "include_version", "set", "1"),
    "with_namespace": (C + "namespace", "set", "1"), "with_namespaces": (C + "namespaces", "set", "1"),
    "with_using_namespaces": (C + "using_namespaces", "set", "1"), "with_braces": (C + "braces", "set", "1"),
    "with_line_length": (C + "line_length", "set", "1"), "with_tab_width": (C + "tab_width", "set", "1"),
    "with_language": (C + "language", "set", "1"), "with_cpp_compat": (C + "cpp_compat", "set", "1"), "with_style": (C + "style", "set", "1"),
    "include_item": (C + "export.include", "push", "1"), "exclude_item": (C + "export.exclude", "push", "1"),
    "rename_item": (C + "export.rename", "insert", ("1", "2")), "with_item_prefix": (C + "export.prefix", "set", "1"),
    "with_parse_deps": (C + "parse.parse_deps", "set", "1"), "with_parse_include": (C + "parse.include", "set", "1"),
    "with_parse_exclude": (C + "parse.exclude", "set", "1"), "with_parse_expand": (C + "parse.expand.crates", "set", "1"),
    "with_parse_expand_all_features": (C + "parse.expand.all_features", "set", "1"),
    "with_parse_expand_default_features": (C + "parse.expand.default_features", "set", "1"),
    "with_parse_expand_features": (C + "parse.expand.features", "set", "1"), "with_parse_expand_profile": (C + "parse.expand.profile", "set", "1"),
    "with_parse_extra_bindings": (C + "parse.extra_bindings", "set", "1"), "with_only_target_dependencies": (C + "only_target_dependencies", "set", "1"),
    "with_documentation": (C + "documentation", "set", "1"), "with_target_os_define": (C + "defines", "insert", (["target_os = ", 1], "2")),
    "with_define": (C + "defines", "insert", ([1, " = ", 2], "3")), "with_config": ("config", "set", "1"), "with_std_types": ("std_types", "set", "1"),
    "with_src": ("srcs", "push", "1"), "with_crate": ("lib", "set", ("tup", "1", None)), "with_crate_and_name": ("lib", "set", ("tup", "1", "2")),
    "with_cargo": ("lib_cargo", "set", "1"), "with_lockfile": ("lockfile", "set", "1"), "with_line_endings": (C + "line_endings", "set", "1"),
}
PUSH = {"push", "extend", "extend_from_slice", "push_back", "append"}

def is_arg(avs, i): return frozenset(avs) == {("P", ("arg", int(i)), ())}
def dotted(path): return ".".join(x.rsplit(".", 1)[1] for x in path)

def fmt_is(eng, avs, want):
    """the value is a formatted string with exactly these pieces (text or argument index)"""
    for a in eng.expand(avs):
        a = strip(a)
        if a[0] != "R": return False
        t = a[1].body.term(a[2])
        if short(callee(t)[0]) not in ("format", "must_use") or not t[2]: return False
        for x in eng.expand(eng.operand(a[1], t[2][0])):
            ps = fmt_pieces(eng, x)
            if ps is None: return None
            got = []
            for p in ps:
                vs = eng.expand(p[1]) if p[0] != "s" else ()
                if p[0] == "s" or len(vs) == 1 and strs(vs):
                    tx = p[1] if p[0] == "s" else next(iter(strs(vs)))
                    if got and isinstance(got[-1], str): got[-1] += tx
                    else: got.append(tx)
                else:
                    if len(vs) != 1 or strip(next(iter(vs)))[0] != "P" or p[2] != "new_display": return False
                    s = strip(next(iter(vs)))
                    if s[1][0] != "arg" or s[2]: return False
                    got.append(s[1][1])
            if got != want: return False
    return True

def value_is(eng, avs, want):
    avs = eng.expand(avs)
    if want is True: return eng.avvals(avs) == {("i", 1)}
    if want is None: return bool(avs) and all(strip(a)[0] == "K" and strip(a)[1] == "none" for a in avs)
    if isinstance(want, list): return fmt_is(eng, avs, want) is not False
    if isinstance(want, tuple) and want[0] == "tup":
        for a in avs:
            s = strip(a)
            if s[0] != "A": return False
            g = eng.agg(s)
            if len(g[4]) != len(want) - 1: return False
            if not all(value_is(eng, eng.operand(s[1], o), w) for o, w in zip(g[4], want[1:])): return False
        return bool(avs)
    return is_arg(avs, want)

def c19(F, rep):
    rep.rule("write-set analysis: for every public configuration method of the builder the set of places it writes below the builder (stores, mutating calls, rebuilt fields), the origin of each written value and the absence of a condition; the whole builder is handed back; generate consumes every setting: sources, crate, lock file, standard types, configuration")
    ms = [b for b in F.bodies.values() if b.kind == "fn" and not b.is_closure and strip_generics(str(b.j.get("impl_self"))).endswith("builder::Builder") and b.argc and strip_generics(b.locals[0]).endswith("builder::Builder") and not b.j.get("trait_fn")]
    known = 0
    for b in ms:
        if b.argc < 1 or not strip_generics(b.locals[1]).endswith("builder::Builder") or b.locals[1].startswith("&"): continue
        an = SAn(F, b, rep)
        es = effects(an)
        bad = [x for x in es if x.op == "return"]
        rep.req(not bad, f"returns:{b.name}", f"{b.name} hands back something other than the builder it was called on", b.j["span"])
        es = [x for x in es if x.op != "return"]
        if b.name not in BUILDER:
            rep.req(len({x.path for x in es}) <= 1 or not any(x.path for x in es), f"single:{b.name}", f"{b.name} changes several settings: {sorted({dotted(x.path) for x in es})}", b.j["span"])
            continue
        known += 1
        path, op, val = BUILDER[b.name]
        stray = [x for x in es if dotted(x.path) != path]
        rep.req(not stray, f"only:{b.name}", f"{b.name} also changes {sorted({dotted(x.path) for x in stray})}", (stray or es or [None])[0].span if es else b.j["span"])
        mine = [x for x in es if dotted(x.path) == path]
        if not rep.req(bool(mine), f"sets:{b.name}", f"{b.name} does not change {path}", b.j["span"]): continue
        opok = all(x.op in PUSH if op == "push" else x.op == op or op == "set" and x.op in ("insert", "replace", "clone_from", "clone_into") and x.call is not None and "Option" in x.call.selfty + x.call.fn for x in mine)
        rep.req(opok, f"op:{b.name}", f"{b.name} changes {path} by {sorted({x.op for x in mine})}, documented to {'add to' if op != 'set' else 'set'} it", mine[0].span)
        for x in mine:
            if op == "insert" and x.call is not None and x.call.nargs == 3:
                good = value_is(an.eng, x.call.earg(1), val[0]) and value_is(an.eng, x.call.earg(2), val[1])
            else: good = value_is(an.eng, x.vals, val)
            rep.req(good, f"value:{b.name}", f"{b.name} puts {describe(an.eng, x.vals)[:100]} into {path}", x.span)
        # on every path: some write on every way to the return
        rep.req(always(an, mine), f"always:{b.name}", f"{b.name} changes {path} only on some paths", mine[0].span)
    rep.floor("builder_methods", known, 42)
    new = method(F, "Builder", "new")
    if new is not None:
        an = SAn(F, new, rep, stop=lambda b, c: b.name == "default")
        for a in rets(an):
            s = strip(a)
            if s[0] != "A": continue
            g = dict(zip(an.eng.agg(s)[3], an.eng.agg(s)[4]))
            for f, want in (("std_types", {("i", 1)}), ("lib", "none"), ("lib_cargo", "none"), ("lockfile", "none")):
                if f not in g: continue
                vs = an.eng.expand(an.eng.operand(s[1], g[f]))
                rep.req(an.eng.avvals(vs) == want if want != "none" else value_is(an.eng, vs, None), f"new:{f}", f"a new builder starts with {f} = {describe(an.eng, vs)}", new.j["span"])
    # ---- generate
    b = method(F, "Builder", "generate")
    if b is None: rep.bad("anchor:generate", "Builder::generate not found"); return
    stop = lambda x, c: x.name in ("parse_src", "parse_lib", "extend_with", "add_std_types", "generate") or x.id.endswith("Cargo::load") or x.id.endswith("Parse::new") or x.id.endswith("Bindings::new")
    O = lambda lib, car: {"*/Builder.lib": lib, "*/Builder.lib_cargo": car}
    for st in (0, 1):
        an = SAn(F, b, rep, stop=stop, hook=option("var", "Err"), assume={"arg0/Builder.std_types": ("i", st)})
        got = any(c.name == "add_std_types" for c in an.live_calls())
        rep.req(got == bool(st), f"generate:std_types:{st}", f"with std_types {'on' if st else 'off'} the standard types are {'' if got else 'not '}added", b.j["span"])
    B = ("arg", 0); CF = "Builder.config"
    P = lambda *p: frozenset([("P", B, p)])
    for lib, car in (("Some", "None"), ("None", "Some"), ("None", "None")):
        an = SAn(F, b, rep, stop=stop, hook=option("var", "Err"), opts=O(lib, car))
        calls = an.live_calls()
        ps = [c for c in calls if c.name == "parse_src"]
        rep.req(bool(ps) and all(c.earg(0) == P("Builder.srcs") and c.earg(1) == P(CF) for c in ps), f"generate:srcs:{lib}{car}", "not every source file of the builder is parsed with the builder's configuration", b.j["span"])
        for c in ps:
            gs = [a for a in c.dguards() if a.kind not in ("iter",) and not benign(a)]
            rep.req(not gs, "generate:srcs:always", f"source files are parsed only under {gs[:2]}", c.span)
        pl = [c for c in calls if c.name == "parse_lib"]
        rep.req(bool(pl) == (lib == "Some" or car == "Some"), f"generate:lib:{lib}{car}", f"a crate is {'' if pl else 'not '}parsed with lib {lib} and cargo {car}", b.j["span"])
        for c in pl: rep.req(c.earg(1) == P(CF), f"generate:lib:config:{lib}", f"the crate is parsed with {describe(an.eng, c.earg(1))} as configuration", c.span)
        if car == "Some":
            for c in pl: rep.req(c.earg(0) == P("Builder.lib_cargo"), "generate:lib:cargo", f"the crate parsed is {describe(an.eng, c.earg(0))}", c.span)
        if lib == "Some":
            ld = [c for c in calls if c.fn.endswith("Cargo::load")]
            want = [P("Builder.lib", "().0"), P("Builder.lockfile"), P("Builder.lib", "().1"), P(CF, "Config.parse", "ParseConfig.parse_deps"), P(CF, "Config.parse", "ParseConfig.clean"), P(CF, "Config.only_target_dependencies"), None]
            lb = next((x for x in F.bodies.values() if x.id.endswith("Cargo::load")), None)
            order = ["crate_dir", "lock_file", "binding_crate_name", "use_cargo_lock", "clean", "only_target_dependencies", "existing_metadata_file"]
            pos = {dict(lb.j["names"]).get(i + 1): i for i in range(lb.argc)} if lb else {}
            rep.req(bool(ld), "generate:load", "the crate is not loaded", b.j["span"])
            for c in ld:
                for i, (nm, w) in enumerate(zip(order, want)):
                    j = pos.get(nm, i)
                    if j >= c.nargs: continue
                    vs = c.earg(j)
                    rep.req(value_is(an.eng, vs, None) if w is None else vs == w, f"generate:load:{nm}", f"the crate is loaded with {nm} = {describe(an.eng, vs)}", c.span)
        ex = [c for c in calls if c.name == "extend_with"]
        for src in ps + pl:
            rep.req(any(("R", src.ctx, src.bb) in [strip(x) for x in c.earg(1)] for c in ex), f"generate:merge:{src.name}:{lib}", f"what {src.name} found is not merged into the result", src.span)
        gen = [c for c in calls if c.name == "generate" and "Library" in c.fn]
        rep.req(bool(gen), "generate:library", "the library is not generated", b.j["span"])
        for c in gen:
            for a in c.earg(0):
                s = strip(a)
                if s[0] != "A": rep.bad("generate:library:value", f"generated from {av_str(s)}", c.span); continue
                g = dict(zip(an.eng.agg(s)[3], an.eng.agg(s)[4]))
                for f, o in g.items():
                    vs = an.eng.expand(an.eng.operand(s[1], o))
                    if f == "config": ok = vs == P(CF)
                    else: ok = bool(vs) and all(strip(v)[0] == "P" and strip(v)[2] == ("Parse." + f,) and not marks(v) for v in vs)
                    rep.req(ok, f"generate:library:{f}", f"the library's {f} is {describe(an.eng, vs)[:100]}", c.span)

def benign(a):
    """a condition whose other outcome leaves with an error or is the nested-run test"""
    return a.kind in ("variant", "is") and str(a.val) in ("Continue", "Ok", "Break", "Err") or "is_ok" in str(a.fn) or "var" in str(a.fn) or "branch" in str(a)

# ------------------------------------------------------------------ C18
OVERRIDE = {"lang": ("language", "Language"), "cpp-compat": ("cpp_compat", True), "only-target-dependencies": ("only_target_dependencies", True),
            "package-version": ("package_version", True), "style": ("style", "Style"), "profile": ("parse.expand.profile", "Profile"), "d": ("parse.parse_deps", True),
            "clean": ("parse.clean", True)}
# option -> (short, long, kind)
OPTIONS = {"v": ("v", None, "count"), "verify": (None, "verify", "flag"), "config": ("c", "config", "path"), "lang": ("l", "lang", "string"),
           "package-version": (None, "package-version", "flag"), "cpp-compat": (None, "cpp-compat", "flag"), "only-target-dependencies": (None, "only-target-dependencies", "flag"),
           "style": ("s", "style", "string"), "d": ("d", "parse-dependencies", "flag"), "clean": (None, "clean", "flag"), "INPUT": (None, None, "path"),
           "crate": (None, "crate", "string"), "out": ("o", "output", "path"), "lockfile": (None, "lockfile", "path"), "metadata": (None, "metadata", "path"),
           "profile": (None, "profile", "string"), "quiet": ("q", "quiet", "flag"), "depfile": (None, "depfile", "path"), "symfile": (None, "symfile", "string")}
ACCESS = ("get_flag", "get_one", "try_get_one", "contains_id", "try_contains_id", "get_count", "try_get_many", "get_many", "get_raw", "value_source", "remove_one", "try_remove_one")
def cli(c): return "clap" in c.fn and "ArgMatches" in c.fn and c.name in ACCESS
def cli_hook(given, count=0):
    def hook(e, c):
        if not cli(c): return None
        n = strs(c.earg(1)); g = int(bool(n) and n <= set(given))
        if c.name == "get_flag": return {("i", g)}
        if c.name == "contains_id": return {("i", g)}
        if c.name == "get_count": return {("i", count)}
        return {("v", "Some" if g else "None"), ("v", "Ok")}
    return hook
def option_of(eng, avs):
    """ids of the options a value was read from"""
    out = set()
    for a in eng.expand(avs):
        s = strip(a)
        if s[0] == "R":
            t = s[1].body.term(s[2]); fn = callee(t)[0]
            if "ArgMatches" in fn: out |= strs(eng.expand(eng.operand(s[1], t[2][1])))
            else: out.add("?" + short(fn))
        else: out.add("?" + av_str(s)[:40])
    return out

def c18(F, rep):
    rep.rule("constant propagation through argument handling under 'only this option is given' for every option, for a file and for a directory input: the stores into the loaded configuration are exactly the option's setting with the option's value; the overridden configuration is what generation gets; crate loading receives the remaining options; option declarations (names, kinds, accepted values) match the accesses and the value parsers; main's handling of input, output, dependency, symbol, verify and verbosity options")
    lb = F.fn("load_bindings"); m = F.bodies.get("main")
    if lb is None or m is None: rep.bad("anchor:load_bindings", "main or load_bindings not found"); return
    stop = lambda x, c: x.name in ("from_file", "from_root_or_default", "find_crate_dir", "binding_crate_ref", "default", "from_str") or x.id.endswith(("Cargo::load", "Builder::generate"))
    SRC = ("from_file", "from_root_or_default")
    def run(given, isdir, assume=None):
        return SAn(F, lb, rep, stop=stop, assume=assume, hook=hooks(cli_hook(given), bools(is_dir=isdir, is_file=1 - isdir, exists=1)))
    def folds(given, isdir, path, labels_, want):
        """the stored value as a function of the previous one: want(v) for v = false, true"""
        for v in (0, 1):
            an = run(given, isdir, {"call:" + f + "/" + "/".join(labels_): ("i", v) for f in SRC})
            got = [an.eng.avvals(x[1]) for x in config_effects(an) if x[0] == path]
            if any(g != {("i", want(v))} for g in got) or (not got and want(v) != v): return False
        return True
    def config_effects(an):
        """{(setting, value description)} written into the loaded configuration"""
        out = []
        for ctx in an.ctxs():
            if any(x.parent is not None and x.bb is not None and x.bb not in an.eng.live(x.parent) for x in ctx.chain()): continue
            for (bb, i, pl, rv) in an.eng.stores(ctx):
                if bb not in an.eng.live(ctx): continue
                ps = set()
                for a in an.eng.expand(an.eng.place(ctx, pl)):
                    s = strip(a)
                    if s[0] == "P" and s[1][0] == "R" and short(callee(s[1][1].body.term(s[1][2]))[0]) in SRC and s[2]: ps.add(s[2])
                vals = an.eng.expand(an.eng.callres(ctx, bb) if rv[0] == "callres" else an.eng.rvalue(ctx, bb, i, rv))
                for p in ps: out.append((dotted(p), vals, ctx.body.j["span"], (ctx, bb), p))
        return out
    def val_ok(an, vals, want, opt):
        if want is True: return an.eng.avvals(vals) == {("i", 1)} or option_of(an.eng, vals) == {opt}
        for a in vals:
            s = strip(a)
            if s[0] != "R": return False
            t = s[1].body.term(s[2])
            if short(callee(t)[0]) not in ("from_str", "parse"): return False
            if want not in str(t[1].get("k", {}).get("self", "")) + str(t[1].get("k", {}).get("targs", "")) + str(callee(t)[1]): return False
            if option_of(an.eng, an.eng.operand(s[1], t[2][0])) != {opt}: return False
        return bool(vals)
    for isdir in (0, 1):
        md = "directory" if isdir else "file"
        for opt in [None] + sorted(OVERRIDE) + sorted(set(OPTIONS) - set(OVERRIDE) - {"v", "INPUT"}):
            an = run([opt] if opt else [], isdir)
            es = config_effects(an)
            want = OVERRIDE.get(opt)
            # only a flag can be folded with its previous value
            isbool = lambda vals: not any(strip(a)[0] == "A" and an.eng.agg(strip(a))[0] == "adt" for a in vals)
            stray = [x for x in es if (want is None or x[0] != want[0]) and not (isbool(x[1]) and folds([opt] if opt else [], isdir, x[0], x[4], lambda v: v))]
            rep.req(not stray, f"override:{md}:{opt}:only", f"with {'only option ' + opt if opt else 'no option'} given for a {md}, {sorted({x[0] for x in stray})} of the configuration file is replaced", stray[0][2] if stray else lb.j["span"])
            if want is not None:
                mine = [x for x in es if x[0] == want[0]]
                rep.req(bool(mine), f"override:{md}:{opt}:set", f"option {opt} does not replace the setting {want[0]} for a {md}", lb.j["span"])
                for x in mine: rep.req(val_ok(an, x[1], want[1], opt) or want[1] is True and folds([opt], isdir, x[0], x[4], lambda v: 1), f"override:{md}:{opt}:value", f"option {opt} sets {want[0]} to {describe(an.eng, x[1])[:90]}", x[2])
            # the configuration generation gets is the loaded one, after the overrides
            calls = an.live_calls()
            gen = [c for c in calls if c.fn.endswith("Builder::generate")]
            rep.req(bool(gen), f"generate:{md}:{opt}", f"no bindings are generated from a {md}", lb.j["span"])
            cfg = builder_stores(an, "Builder.config")
            src = {short(callee(s[1].body.term(s[2]))[0]) if s[0] == "R" else av_str(s) for v, _ in cfg for s in map(strip, v)}
            exp = {"from_file"} if opt == "config" else {"from_root_or_default"}
            rep.req(bool(cfg) and src == exp, f"config:{md}:{opt}", f"bindings of a {md} are generated with {sorted(src)} as configuration, expected {sorted(exp)}", lb.j["span"])
            if want is not None:
                for x in es:
                    for v, at in cfg:
                        rep.req(before(an, x[3], at), f"order:{md}:{opt}", f"option {opt} is applied after the configuration was handed over", x[2])
            if opt == "config":
                ff = [c for c in calls if c.name == "from_file"]
                rep.req(bool(ff) and all(option_of(an.eng, c.earg(0)) == {"config"} for c in ff), f"config:{md}:path", "the configuration file is not the one named by --config", lb.j["span"])
            if isdir:
                lc = builder_stores(an, "Builder.lib_cargo")
                rep.req(bool(lc) and all(s[0] == "R" and callee(s[1].body.term(s[2]))[0].endswith("Cargo::load") for v, _ in lc for s in map(strip, v)), f"crate:{opt}", "the crate of a directory input is not what is generated from", lb.j["span"])
            else:
                rep.req(any(c.name in PUSH and any(s[0] == "P" and s[1] == ("arg", 0) for s in map(strip, c.earg(1))) for c in calls if c.nargs == 2), f"source:{opt}", "the file given as input is not what is parsed", lb.j["span"])
    # ---- crate loading
    an = run(["lockfile", "crate", "clean", "only-target-dependencies", "metadata"], 1)
    ld = [c for c in an.live_calls() if c.fn.endswith("Cargo::load")]
    rep.req(bool(ld), "load", "the crate is not loaded", lb.j["span"])
    lbody = next((x for x in F.bodies.values() if x.id.endswith("Cargo::load")), None)
    order = ["crate_dir", "lock_file", "binding_crate_name", "use_cargo_lock", "clean", "only_target_dependencies", "existing_metadata_file"]
    pos = {dict(lbody.j["names"]).get(i + 1): i for i in range(lbody.argc)} if lbody else {}
    for c in ld:
        for nm, opt in (("lock_file", "lockfile"), ("binding_crate_name", "crate"), ("existing_metadata_file", "metadata"), ("only_target_dependencies", "only-target-dependencies")):
            vs = c.earg(pos.get(nm, order.index(nm)))
            rep.req(option_of(an.eng, vs) == {opt} or opt in OVERRIDE and an.eng.avvals(vs) == {("i", 1)} or opt in OVERRIDE and setting(vs, OVERRIDE[opt][0]), f"load:{opt}", f"the crate is loaded with {nm} = {sorted(option_of(an.eng, vs))}, expected option {opt}", c.span)
        vs = c.earg(pos.get("crate_dir", 0))
        rep.req(is_arg(vs, 0), "load:crate_dir", f"the crate is loaded from {describe(an.eng, vs)}", c.span)
        vs = c.earg(pos.get("use_cargo_lock", 3))
        rep.req(an.eng.avvals(vs) == {("i", 1)} or setting(vs, "parse.parse_deps"), "load:use_cargo_lock", f"the lock file is used only under {describe(an.eng, vs)}", c.span)
        # settings of the file that loading depends on
        for nm, path, opt in (("clean", "parse.clean", "clean"), ("only_target_dependencies", "only_target_dependencies", "only-target-dependencies")):
            vs = c.earg(pos.get(nm, order.index(nm)))
            late = [x for x in an.live_calls() if nm == "clean" and x.name == "set_clean" and x.nargs == 2 and setting(x.earg(1), path)]
            rep.req(setting(vs, path) or bool(late) or any(setting(v, path) for v, _ in cargo_stores(an, "Cargo." + nm)), f"load:{nm}:file", f"the crate is loaded with {nm} = {sorted(option_of(an.eng, vs))}: the configuration file's {path} is ignored", c.span)
    an = run([], 1)
    rr = [c for c in an.live_calls() if c.name == "from_root_or_default"]
    rep.req(any(any(s[0] == "R" and short(callee(s[1].body.term(s[2]))[0]) == "find_crate_dir" for s in map(strip, c.earg(0))) for c in rr), "config:crate-dir", "the configuration is not searched in the directory of the crate", lb.j["span"])
    an = run([], 0)
    rr = [c for c in an.live_calls() if c.name == "from_root_or_default"]
    rep.req(bool(rr) and all(any(s[0] == "R" and short(callee(s[1].body.term(s[2]))[0]) == "parent" for s in map(strip, c.earg(0))) for c in rr), "config:file-dir", "the configuration is not searched in the directory of the input file", lb.j["span"])
    # ---- declarations
    decl = declarations(F, m, rep)
    rep.floor("options", len(decl), 19)
    for o, (sh, lg, kind) in OPTIONS.items():
        d = decl.get(o) or next((x for k, x in decl.items() if lg is not None and x.get("long") == lg or sh is not None and x.get("short") == sh), None)
        if not rep.req(d is not None, f"decl:{o}", f"option {lg or o} is not declared", m.j["span"]): continue
        rep.req(d.get("long") == lg and d.get("short") == sh, f"decl:{o}:names", f"option {o} is spelled -{d.get('short')} --{d.get('long')}, documented as -{sh} --{lg}", d["span"])
        rep.req(d["kind"] == kind, f"decl:{o}:kind", f"option {o} takes a {d['kind']}, documented as {kind}", d["span"])
    used = set()
    for b in F.bodies.values():
        if b.kind != "fn": continue
        sites = [bb for bb in b.calls if "ArgMatches" in callee(b.term(bb))[0] and short(callee(b.term(bb))[0]) in ACCESS]
        if not sites: continue
        an = An(F, b, lambda x, c: True, rep)
        for c in an.calls:
            if c.ctx is not an.root or not cli(c): continue
            ids = strs(c.earg(1))
            if not ids: ids = set()
            for o in ids:
                used.add(o)
                d = decl.get(o)
                if not rep.req(d is not None, f"use:{root_of(F, b).id}:{o}", f"{short(b.id)} asks for an option {o} that is not declared", c.span): continue
                need = {"get_flag": "flag", "get_count": "count"}.get(c.name)
                if c.name in ("get_one", "try_get_one", "get_many", "try_get_many", "remove_one"):
                    t = (c.const.get("targs") or ["?"])[-1]
                    need = "path" if "PathBuf" in t else "string" if "String" in t else t
                if need: rep.req(d["kind"] == need, f"use:{root_of(F, b).id}:{o}:{c.name}", f"{short(b.id)} reads option {o} as {need}, declared as {d['kind']}", c.span)
    # helpers that take the option's name: the names passed to them
    for b in F.bodies.values():
        if b.kind == "fn":
            for bb, i, s, tmpl, sp in literals(F, b):
                if s in decl and b is not m: used.add(s)
    for o, d in decl.items(): rep.req(o in used, f"used:{o}", f"option {o} is declared but never consulted", d["span"])
    # ---- accepted values
    for o, (path, ty) in OVERRIDE.items():
        if ty is True or o not in decl: continue
        fs = next((b for b in F.bodies.values() if b.name == "from_str" and short(strip_generics(str(b.j.get("impl_self")))) == ty), None)
        if fs is None: rep.bad(f"parse:{o}", f"no parser for {ty}"); continue
        vals = decl[o].get("values") or set()
        rep.req(bool(vals), f"values:{o}", f"option {o} accepts any value, its parser does not", decl[o]["span"])
        for v in sorted(vals):
            an = SAn(F, fs, rep, assume={"arg0": ("s", v)})
            st = an.eng.optstate(an.root, {"c": [0]})
            rep.req(st == {"Ok"}, f"values:{o}:{v}", f"option {o} accepts {v!r}, which the parser of {ty} rejects", fs.j["span"])
    main_flow(F, rep, m)

def setting(avs, path):
    ps = [dotted(strip(a)[2]) for a in avs if strip(a)[0] == "P"]
    return path in ps
def builder_stores(an, lab): return [(v, at) for v, at, _ in place_stores(an, lab)]
def cargo_stores(an, lab): return [(v, at) for v, at, _ in place_stores(an, lab)]
def place_stores(an, lab):
    out = []
    for ctx in an.ctxs():
        if any(x.parent is not None and x.bb is not None and x.bb not in an.eng.live(x.parent) for x in ctx.chain()): continue
        for (bb, i, pl, rv) in an.eng.stores(ctx):
            if bb not in an.eng.live(ctx): continue
            fs = [x for x in pl[1:] if isinstance(x, list) and x[0] == "f"]
            if fs and an.eng.plabel(fs[-1])[0] == lab:
                out.append((an.eng.expand(an.eng.callres(ctx, bb) if rv[0] == "callres" else an.eng.rvalue(ctx, bb, i, rv)), (ctx, bb), pl))
        for bb in an.eng.live(ctx):
            for i, s in enumerate(ctx.body.blocks[bb]["s"]):
                if s[0] == "=" and s[2][0] == "adt" and short(strip_generics(s[2][1])) == lab.split(".")[0]:
                    n = lab.split(".")[1]
                    if n in s[2][3]:
                        vs = an.eng.expand(an.eng.operand(ctx, s[2][4][s[2][3].index(n)]))
                        if not all(strip(v)[0] == "K" or strip(v)[0] == "R" and short(callee(strip(v)[1].body.term(strip(v)[2]))[0]) == "default" for v in vs): out.append((vs, (ctx, bb), s[1]))
    return out
def before(an, a, b):
    """a cannot run after b (positions in the inlined tree)"""
    def chain(p):
        out = []
        ctx, bb = p
        while ctx is not None: out.append((ctx, bb)); bb = ctx.bb; ctx = ctx.parent
        return list(reversed(out))
    for (c1, x), (c2, y) in zip(chain(a), chain(b)):
        if c1 is not c2: return True
        if x != y: return not c1.body.reaches(y, x)
    return True

def declarations(F, m, rep):
    """{option id: {short, long, kind, values, span}} from the argument builder chains"""
    an = An(F, m, lambda x, c: x.name in ("load_bindings", "write_to_file", "generate_depfile", "generate_symfile", "write"), rep)
    arg = [c for c in an.calls if c.fn.startswith("clap::Arg::")]
    by = {(c.ctx, c.bb): c for c in arg}
    def root(c, d=0):
        if c.name == "new": return c
        for a in c.arg(0):
            s = strip(a)
            if s[0] == "R" and (s[1], s[2]) in by and d < 30: return root(by[(s[1], s[2])], d + 1)
        # a method the engine takes for a transparent one
        pl = op_place(c.term[2][0])
        for dd in c.ctx.body.defs.get(pl[0], ()) if pl else ():
            if (c.ctx, dd[0]) in by and d < 30: return root(by[(c.ctx, dd[0])], d + 1)
        return None
    decl = {}
    info = {}
    for c in arg:
        r = root(c)
        if r is None: continue
        x = info.setdefault((r.ctx, r.bb), {"id": strs(r.earg(0)), "span": r.span, "kind": "string", "short": None, "long": None})
        if c.name == "long": x["long"] = next(iter(strs(c.earg(1))), "?")
        elif c.name == "short":
            v = [strip(a) for a in c.earg(1)]
            x["short"] = chr(v[0][2]) if v and v[0][0] == "K" and isinstance(v[0][2], int) else str(v[0][2]) if v and v[0][0] == "K" else "?"
        elif c.name == "action":
            s = describe(an.eng, c.earg(1))
            x["kind"] = "flag" if "SetTrue" in s else "count" if "Count" in s else x["kind"] if "Set" in s or "Append" in s else s
        elif c.name == "value_parser":
            vs = strs(c.earg(1))
            if vs: x["values"] = vs
            else:
                for a in c.earg(1):
                    s = strip(a)
                    if s[0] == "R":
                        k = s[1].body.term(s[2])[1].get("k", {})
                        tx = str(k)
                        if "PathBuf" in tx: x["kind"] = "path"
                        for ar in s[1].body.term(s[2])[2]:
                            if "PathBuf" in s[1].body.locals[op_place(ar)[0]] if op_place(ar) else False: x["kind"] = "path"
    added = set()
    for x in info.values():
        for o in x["id"]: decl[o] = x
    return decl

def main_flow(F, rep, m):
    stop = {"load_bindings", "write_to_file", "generate_depfile", "generate_symfile", "write"}
    def run(given, count=0, load="Ok", extra=None):
        return SAn(F, m, rep, stop=stop, hook=hooks(cli_hook(given, count), option("load_bindings", load), extra or bools(write_to_file=0)))
    def where(an, names): return [c for c in an.live_calls() if c.name in names and ("Bindings" in c.fn or c.name == "load_bindings" or c.name == "exit")]
    for given in ([], ["out"], ["out", "depfile"], ["out", "symfile"], ["depfile"], ["symfile"], ["out", "depfile", "symfile"]):
        an = run(given); k = "+".join(given) or "none"
        for nm, need in (("write_to_file", {"out"}), ("generate_depfile", {"out", "depfile"}), ("generate_symfile", {"out", "symfile"})):
            cs = where(an, (nm,)); want = need <= set(given)
            rep.req(bool(cs) == want, f"main:{nm}:{k}", f"with options {given} {nm} is {'not ' if want else ''}called", m.j["span"])
            for c in cs:
                got = [option_of(an.eng, c.earg(i)) for i in range(1, c.nargs)]
                exp = {"write_to_file": [{"out"}], "generate_depfile": [{"out"}, {"depfile"}], "generate_symfile": [{"symfile"}]}[nm]
                rep.req(got == exp, f"main:{nm}:args", f"{nm} gets the options {got}, expected {exp}", c.span)
        w = [c for c in where(an, ("write",))]
        rep.req(bool(w) == ("out" not in given), f"main:stdout:{k}", f"with options {given} the bindings are {'' if w else 'not '}written to standard output", m.j["span"])
        for c in w: rep.req("stdout" in describe(an.eng, c.earg(1)), "main:stdout:target", f"without --output the bindings go to {describe(an.eng, c.earg(1))}", c.span)
    # verify needs a file: nothing may be generated
    for o in [None] + sorted(set(OPTIONS) - {"out", "verify"}):
        an = run(["verify"] + ([o] if o else []))
        rep.req(not where(an, ("load_bindings", "write")) and bool(where(an, ("exit",))), f"main:verify:stdout:{o}", f"--verify without --output {'and with ' + o if o else ''} does not stop before generating", m.j["span"])
    # input
    for given in ([], ["INPUT"]):
        an = run(given)
        for c in where(an, ("load_bindings",)):
            vs = c.earg(0)
            # without the option the fallback is what is left
            ds = {("cwd" if s[0] == "R" and short(callee(s[1].body.term(s[2]))[0]) == "current_dir" else next(iter(option_of(an.eng, frozenset([s]))))) for s in map(strip, vs)}
            rep.req(ds == {"cwd", "INPUT"} or ds == ({"INPUT"} if given else {"cwd"}), f"main:input:{'given' if given else 'none'}", f"the input is {sorted(ds)}", c.span)
            st = an.eng.optstate(an.root, {"c": [0]})
    # verbosity
    for given, count, want in (([], 0, "Warn"), ([], 1, "Info"), ([], 2, "Trace"), ([], 3, "Trace"), (["quiet"], 0, "Error"), (["quiet"], 2, "Error")):
        an = run(given, count)
        lv = {x for c in an.live_calls() if c.name == "set_max_level" for x in re.findall(r"LevelFilter::(\w+)", describe(an.eng, c.earg(0)))}
        lg = {x for c in an.live_calls() if c.name == "set_logger" for x in re.findall(r"(\w+)Logger", describe(an.eng, c.earg(0)))}
        rep.req(lv == {want}, f"main:level:{'q' if given else ''}{count}", f"verbosity {'quiet ' if given else ''}{count} logs at {sorted(lv)}, documented {want}", m.j["span"])
        for l in lg:
            en = next((b for b in F.bodies.values() if b.name == "enabled" and short(strip_generics(str(b.j.get("impl_self")))) == l + "Logger"), None)
            if en is None: continue
            a2 = SAn(F, en, rep)
            tx = " ".join(describe(a2.eng, c.earg(i)) for c in a2.calls for i in range(c.nargs))
            got = set(re.findall(r"(?:Level::|')?\b(Error|Warn|Info|Debug|Trace)\b", tx))
            rep.req(not got or got == {want}, f"main:logger:{want}", f"{l}Logger lets through {sorted(got)} messages", en.j["span"])
