"""C14 file update, C15 nested runs, C20 effects, C21 dependency file, C22 line endings."""
import re
from .mir import short, strip_generics, field_uses
from .flow import strip, marks, avs_str, av_str, is_std
from .cover import Shape
from .q import An, rets, describe
from .ccp import SEngine
from .rules_traversal import method, rbb
from .graph import *

MARK = "_CBINDGEN_IS_RUNNING"

class SAn(An):
    """analysis under assumptions"""
    def __init__(self, F, body, rep=None, stop=(), **kw):
        self.F = F; self.body = body
        st = stop if callable(stop) else (lambda b, c: b.name in stop or b.id in stop)
        self.eng = SEngine(F, stop=lambda b, c: st(b, c) and b is not body, **kw)
        self.root = self.eng.entry(body)
        self.calls = self.eng.analyse(self.root)
        self.shape = Shape(F, ())
        if rep:
            rep.fn(body)
            for c in self.ctxs(): rep.fn(c.body)
    def retvals(self): return self.eng.lvals(self.root, 0)
    def returns(self):
        lv = self.eng.live(self.root)
        return any(self.body.term(b)[0] == "ret" for b in lv)
    def live_calls(self): return [c for c in self.calls if c.bb in self.eng.live(c.ctx) and all(x.parent is None or x.bb is None or x.bb in self.eng.live(x.parent) for x in c.ctx.chain())]

def strs(avs): return {strip(a)[2] for a in avs if strip(a)[0] == "K" and strip(a)[1] == "str"}

# ------------------------------------------------------------------ C20
FORBIDDEN = re.compile(r"^(std::fs::(remove_|rename|copy|hard_link|soft_link|set_permissions|write$|File::(set_len|set_permissions|set_times|options|create_new)|OpenOptions::(append|create_new)|DirBuilder::create)|std::net::|std::os::(unix|linux|windows|fd)|std::env::(set_current_dir|set_var|remove_var)|std::process::(abort|Command::(spawn|exec|status|pre_exec|uid|gid))|std::thread::(spawn|scope|Builder)|std::io::(copy)|.*::libc::)")
CREATE = re.compile(r"^(std::fs::(File::create$|create_dir|OpenOptions::(open|create|write|truncate))|std::fs::write$)")
def is_effect_create(fn): return bool(CREATE.match(strip_generics(fn)))
WRITERS = is_named("Bindings::write_to_file", "Bindings::generate_depfile", "Bindings::generate_symfile")
SPAWNERS = is_named("cargo_expand::expand", "cargo_metadata::metadata", "cargo_metadata::discover_target")
CRATES = {"clap", "core", "std", "alloc", "heck", "indexmap", "log", "proc_macro2", "quote", "serde", "serde_json", "syn", "toml", "tempfile", "hashbrown", "serde_core", "toml_datetime", "unicode_ident"}

def c20(F, rep):
    rep.rule("call sites of effectful std APIs (file creation, directory creation, processes, temporary directories) are owned by the reviewed functions on every call chain; deleting, renaming, linking, permission, network, cwd and raw OS APIs are not called; created paths come from the caller's path argument; programs are cargo and rustc or their environment overrides; no foreign functions, no unsafe OS calls, only known crates")
    n = ncalls = 0
    for b in F.bodies.values():
        if b.kind != "fn": continue
        for bb in b.calls:
            t = b.term(bb); fn, res, k = callee(t); ncalls += 1
            sf = strip_generics(fn)
            key = f"{root_of(F, b).id}:{short(fn)}"
            if FORBIDDEN.match(sf) or FORBIDDEN.match(strip_generics(res)):
                rep.bad(f"forbidden:{key}", f"{short(b.id)} calls {fn}", t[5]); continue
            if CREATE.match(sf):
                n += 1
                rep.req(owned(F, b, WRITERS), f"create:{key}", f"{short(b.id)} creates files outside of writing bindings, dependency file or symbol file ({fn})", t[5])
            elif sf.startswith("std::process::Command::"):
                n += 1
                rep.req(owned(F, b, SPAWNERS), f"process:{key}", f"{short(b.id)} handles a process outside of metadata, host discovery and expansion ({fn})", t[5])
            elif "tempfile::" in sf:
                n += 1
                rep.req(owned(F, b, is_named("cargo_expand::expand")), f"temp:{key}", f"{short(b.id)} creates a temporary directory ({fn})", t[5])
                if short(fn) in ("keep", "into_path", "persist", "disable_cleanup"): rep.bad(f"temp-kept:{key}", f"the temporary directory is kept ({fn})", t[5])
            elif sf.startswith("std::process::exit"):
                n += 1
                rep.req("bindgen::" not in root_of(F, b).id, f"exit:{key}", f"{short(b.id)} ends the process", t[5])
            c = sf.split("::")[0].lstrip("<&")
            if c and c not in CRATES and not fn_local(F, fn) and re.match(r"^[a-z_0-9]+$", c) and "::" in sf:
                rep.bad(f"crate:{c}", f"call into an unreviewed crate: {fn}", t[5])
            if k.get("extern") or k.get("foreign"): rep.bad(f"foreign:{key}", f"foreign function {fn} called", t[5])
    # origins of the created paths
    for ty in ("write_to_file", "generate_depfile", "generate_symfile"):
        b = method(F, "Bindings", ty)
        if b is None: rep.bad(f"anchor:{ty}", f"Bindings::{ty} not found"); continue
        an = An(F, b, {"write", "write_with_backend", "write_bindings"}, rep)
        outarg = b.argc - 1
        for c in an.calls:
            if not CREATE.match(strip_generics(c.fn)): continue
            if c.name in ("create", "open", "write") and ("File::" in c.fn or "OpenOptions" in c.fn) and c.nargs:
                vs = c.earg(0 if "File::" in c.fn else c.nargs - 1)
                rep.req(bool(vs) and all(strip(x)[0] == "P" and strip(x)[1] == ("arg", outarg) and strip(x)[2] == () or path_of(an, x, outarg) for x in vs),
                        f"path:{ty}:{c.name}", f"{ty} creates {describe(an.eng, vs)} instead of the requested path", c.span)
            if c.name.startswith("create_dir"):
                vs = c.earg(0)
                rep.req(bool(vs) and all(parent_of(an, x, outarg) for x in vs), f"path:{ty}:dir", f"{ty} creates a directory that is not the parent of the requested path ({describe(an.eng, vs)})", c.span)
    # programs
    for nm, prog, env in (("cargo_expand::expand", "cargo", "CARGO"), ("cargo_metadata::metadata", "cargo", "CARGO"), ("cargo_metadata::discover_target", "rustc", "RUSTC")):
        b = F.fn(nm)
        if b is None: rep.bad(f"anchor:{nm}", f"{nm} not found"); continue
        an = An(F, b, {"discover_target"}, rep)
        for c in an.calls:
            if c.fn.endswith("Command::new"):
                vs = c.earg(0); ok = True
                for a in vs:
                    x = strip(a)
                    if x[0] == "K" and x[1] == "str" and x[2] == prog: continue
                    if x[0] == "R":
                        cc = [d for d in an.calls if d.ctx is x[1] and d.bb == x[2]]
                        if cc and cc[0].name in ("var", "var_os") and strs(cc[0].earg(0)) == {env}: continue
                    ok = False
                rep.req(ok and prog in strs(vs), f"program:{nm}", f"{short(nm)} starts {describe(an.eng, vs)}, expected {prog} or ${env}", c.span)
    rep.notes["calls_scanned"] = ncalls
    rep.floor("effect_sites", n, 30)

def fn_local(F, fn): return fn in F.bodies or fn.split("::")[0] in ("bindgen", "logging", "main", "load_bindings", "apply_config_overrides") or fn.startswith("<bindgen") or any(fn == x or fn.startswith(x + "::") for x in ())

def path_of(an, av, arg):
    """the path argument behind as_ref/Path::new/to_path_buf"""
    x = strip(av)
    if x[0] == "P" and x[1] == ("arg", arg): return True
    if x[0] == "R":
        for c in an.calls:
            if c.ctx is x[1] and c.bb == x[2] and c.name in ("as_ref", "new", "to_path_buf", "from", "into", "to_owned", "borrow") and c.nargs:
                return all(path_of(an, y, arg) for y in c.earg(0))
    return False
def parent_of(an, av, arg):
    x = strip(av)
    if x[0] != "R": return False
    for c in an.calls:
        if c.ctx is x[1] and c.bb == x[2]:
            if c.name == "parent": return all(path_of(an, y, arg) for y in c.earg(0))
            if c.name in ("as_ref", "new", "to_path_buf", "to_owned"): return all(parent_of(an, y, arg) for y in c.earg(0))
    return False

# ------------------------------------------------------------------ C15
def c15(F, rep):
    rep.rule("with the marker variable set, Builder::generate returns bindings with the inert flag and reaches no parsing, metadata, process or file call; without it the flag is false; every file-creating or writing call reachable from a public method of Bindings holds only when the flag is false; every expansion command gets the same marker unconditionally before it runs")
    g = F.fn("Builder::generate")
    if g is None: rep.bad("anchor:Builder::generate", "Builder::generate not found"); return
    def hook(state):
        def h(e, c):
            if c.name in ("var", "var_os") and c.nargs and strs(e.expand(c.arg(0))) == {MARK}: return {("v", state if c.name == "var" else {"Ok": "Some", "Err": "None"}[state])}
            return None
        return h
    stop = {"parse_src", "parse_lib", "extend_with", "add_std_types", "load", "generate"}
    an = SAn(F, g, rep, stop=stop, hook=hook("Ok"))
    reads = [c for c in an.calls if c.name in ("var", "var_os") and MARK in strs(c.earg(0))]
    rep.req(bool(reads), "generate:marker", f"generation must look for the marker {MARK}", g.j["span"])
    bad = [c for c in an.live_calls() if is_effectful(c) or any(t[0] == "local" and t[1].name in ("parse_src", "parse_lib", "load", "generate", "parse_crate", "parse_mod", "metadata", "expand") and t[1] is not g for t in c.targets)]
    for c in bad: rep.bad(f"generate:nested:{c.name}", f"in a nested run generation still calls {c.fn}", c.span)
    rep.req(an.returns(), "generate:nested:returns", "in a nested run generation must return inert bindings", g.j["span"])
    def noop(a):
        e = a.eng
        vs = e.expand(e.project(rets(a), "Bindings.noop", None, False))
        return e.avvals(vs), vs
    v, av = noop(an)
    rep.req(v == {("i", 1)}, "generate:nested:inert", f"bindings of a nested run must be inert (flag is {describe(an.eng, av)})", g.j["span"])
    lg = F.fn("Library::generate")
    a2 = SAn(F, lg, rep, stop=lambda b, c: b.name != "new", hook=hook("Err"))
    v, av = noop(a2)
    rep.req(v == {("i", 0)}, "generate:normal:active", f"bindings of a normal run must not be inert (flag is {describe(a2.eng, av)})", lg.j["span"])
    # every store / construction of the flag elsewhere
    for b, bb, kind in field_uses(F).get(("Bindings", "noop"), []):
        if kind == "w": rep.bad(f"flag-store:{root_of(F, b).id}", f"{short(b.id)} changes the inert flag afterwards", b.j["span"])
    # writers
    n = 0
    for b in F.bodies.values():
        if b.kind != "fn" or b.is_closure or short(strip_generics(b.j.get("impl_self", ""))) != "Bindings" or b.j.get("of_trait"): continue
        if b.name == "new": continue
        an = An(F, b, {"write_bindings"}, rep)
        for c in an.calls:
            if not (is_effectful(c) or c.name == "write_bindings"): continue
            if not b.j.get("pub", True): continue
            n += 1
            ok = any(a.kind == "bool" and a.val is False and any(strip(x)[0] == "P" and strip(x)[1] == ("arg", 0) and strip(x)[2] == ("Bindings.noop",) for x in a.subj) for a in c.dguards())
            rep.req(ok, f"inert:{b.name}:{short(c.fn)}", f"Bindings::{b.name} reaches {c.fn} even when the bindings are inert", c.span)
    rep.floor("guarded_effects", n, 8)
    # marker on expansion
    x = F.fn("cargo_expand::expand")
    if x is None: rep.bad("anchor:expand", "cargo_expand::expand not found"); return
    an = An(F, x, (), rep)
    out = [c for c in an.calls if c.fn.endswith(("Command::output", "Command::status", "Command::spawn"))]
    env = [c for c in an.calls if c.name == "env" and "Command" in c.fn and c.nargs == 3 and strs(c.earg(1)) == {MARK}]
    rep.req(bool(out), "expand:runs", "no expansion command found", x.j["span"])
    from .rules_expand import sequences
    sq = sequences(SAn(F, x, rep))
    rep.req(bool(sq), "expand:sequence", "no path of the expansion runs a command", x.j["span"])
    for q in sq:
        r = next(i for i, y in enumerate(q) if y[0] == "run")
        m = [i for i, y in enumerate(q[:r]) if y[0] == "env" and y[1] == MARK]
        rep.req(bool(m) and not any(y[0] in ("env_clear", "env_remove") for y in q[m[0]:r]), "expand:marker", "an expansion process can start without the recursion marker", out[0].span if out else x.j["span"])
    for o in out:
        for e in env:
            same = {strip(a) for a in e.earg(0)} & {strip(a) for a in o.earg(0)}
            rep.req(bool(same), "expand:marker-command", "the marker is set on another command than the one that runs", e.span)

EFFECT = re.compile(r"^(std::fs::(File::(create|create_new|options|set_len)|create_dir|write$|remove|rename|copy|OpenOptions)|std::process::Command::(output|status|spawn|new))")
def is_effectful(c): return bool(EFFECT.match(strip_generics(c.fn)))

# ------------------------------------------------------------------ C14
def c14(F, rep):
    rep.rule("write_to_file is evaluated for each combination of (path is a file, contents equal): a file is created exactly when absent or different, the full new bindings are written then, and the return value is the constant true exactly then; the comparison is over the complete buffers; main exits non-zero exactly when verification was asked and a change was reported, or when loading failed")
    b = method(F, "Bindings", "write_to_file")
    if b is None: rep.bad("anchor:write_to_file", "Bindings::write_to_file not found"); return
    probe = An(F, b, {"write", "write_with_backend"}, rep)
    # the comparison
    def buf_kind(an, avs):
        """'old' if filled by reading the path, 'new' if filled by Bindings::write"""
        ks = set()
        def whole_read(x):
            if x[0] == "R" and x[1].body.term(x[2])[1].get("k", {}).get("fn", "") in ("std::fs::read", "std::fs::read_to_string"): ks.add("old")
        for a in avs:
            x = strip(a)
            if marks(a): ks.add("partial")
            if x[0] == "L":
                for c in an.calls:
                    if c.name in ("read_to_end", "read_to_string") and any(strip(y) == x for i in range(c.nargs) for y in c.arg(i)): ks.add("old")
                    if c.name in ("write", "write_with_backend", "write_bindings") and any(strip(y) == x for i in range(c.nargs) for y in c.arg(i)) and any(t[0] == "local" for t in c.targets): ks.add("new")
                for y in an.eng.local(x[1], x[2]): whole_read(y)
            whole_read(x)
        return ks
    def content_cmp(e, an_calls, c):
        if c.name not in ("eq", "ne") or c.nargs != 2: return False
        k0, k1 = buf_kind_e(e, an_calls, c, 0), buf_kind_e(e, an_calls, c, 1)
        return {frozenset(k0), frozenset(k1)} == {frozenset(["old"]), frozenset(["new"])}
    def buf_kind_e(e, calls, c, i):
        class A: pass
        a = A(); a.calls = calls; a.eng = e
        return buf_kind(a, c.arg(i))
    cmps = [c for c in probe.calls if content_cmp(probe.eng, probe.calls, c)]
    rep.req(bool(cmps), "compare:whole", "the complete old contents must be compared with the complete new bindings", b.j["span"])
    cmpkeys = {(c.ctx.body.id, c.bb) for c in cmps}
    slicing = [c for c in probe.calls if c.name in ("index", "get", "split_at", "truncate", "starts_with", "ends_with", "chunks", "take", "windows", "trim", "trim_ascii", "iter", "retain", "lines", "split", "drain", "resize") and any("old" in buf_kind(probe, c.arg(i)) or "new" in buf_kind(probe, c.arg(i)) for i in range(c.nargs))]
    for c in slicing: rep.bad(f"compare:partial:{c.name}", f"only part of the contents takes part in the comparison ({c.name})", c.span)
    def run(isfile, same):
        def h(e, c):
            if c.name in ("is_file", "exists", "try_exists") and not any(t[0] == "local" for t in c.targets): return {("i", int(isfile))}
            if (c.ctx.body.id, c.bb) in cmpkeys: return {("i", int(same == (c.name == "eq")))}
            return None
        return SAn(F, b, rep, stop={"write", "write_with_backend"}, hook=h, assume={"arg0/Bindings.noop": ("i", 0)})
    for isfile, same, want in ((0, 0, True), (1, 0, True), (1, 1, False)):
        an = run(isfile, same); lc = an.live_calls()
        name = "absent" if not isfile else ("same" if same else "different")
        cr = [c for c in lc if is_effect_create(c.fn) and not c.name.startswith("create_dir")]
        rep.req(bool(cr) == want, f"{name}:file", f"previous file {name}: the file must {'be' if want else 'not be'} opened for writing", b.j["span"])
        v = an.retvals()
        rep.req(v == {("i", int(want))}, f"{name}:reports", f"previous file {name}: must report {want} (reports {v})", b.j["span"])
        for c in cr:
            if "OpenOptions" in c.fn: rep.req(any(x.name == "truncate" for x in lc), f"{name}:truncate", "an existing file must be truncated when rewritten", c.span)
        if want:
            files = {(c.ctx, c.bb) for c in cr}
            wr = []
            for c in lc:
                if c.name in ("write", "write_with_backend") and any(t[0] == "local" for t in c.targets):
                    if any(strip(y)[0] == "R" and (strip(y)[1], strip(y)[2]) in files for i in range(1, c.nargs) for y in c.earg(i)): wr.append(c)
                if c.name == "write_all" and c.nargs == 2 and any(strip(y)[0] == "R" and (strip(y)[1], strip(y)[2]) in files for y in c.earg(0)) and buf_kind(an, c.arg(1)) == {"new"}: wr.append(c)
                if c.fn == "std::fs::write" and buf_kind(an, c.arg(1)) == {"new"}: wr.append(c)
            lv = an.eng.live(an.root)
            ok = bool(wr) and not avoid_live(an, [rbb(w) for w in wr], lv)
            rep.req(ok, f"{name}:content", f"previous file {name}: the complete new bindings must be written to the file on every path", b.j["span"])
        else:
            wr = [c for c in lc if c.name in ("set_len", "rename", "copy", "remove_file", "set_modified")]
            rep.req(not wr, f"{name}:untouched", "an unchanged file must not be touched", b.j["span"])
    # main
    m = F.bodies.get("main")
    if m is None: return        # library target
    def mrun(load, verify, changed):
        def h(e, c):
            if c.name == "load_bindings": return {("v", load)}
            if c.name == "get_flag" and strs(e.expand(c.arg(c.nargs - 1))) == {"verify"}: return {("i", verify)}
            if c.name == "write_to_file": return {("i", changed)}
            if c.name in ("get_one", "try_get_one") and strs(e.expand(c.arg(c.nargs - 1))) == {"out"}: return {("v", "Some")}
            return None
        return SAn(F, m, rep, stop={"load_bindings", "write_to_file", "generate_depfile", "generate_symfile", "write"}, hook=h)
    for load, verify, changed in (("Err", 0, 0), ("Err", 1, 0), ("Ok", 0, 0), ("Ok", 0, 1), ("Ok", 1, 0), ("Ok", 1, 1)):
        an = mrun(load, verify, changed)
        ld = [c for c in an.live_calls() if c.name == "load_bindings"]
        if not ld: rep.bad("anchor:load_bindings", "main does not load bindings", m.j["span"]); return
        ex = [c for c in an.live_calls() if c.name == "exit" and "process" in c.fn and c.ctx is an.root and m.reaches(ld[0].bb, c.bb) or (c.name == "exit" and c.ctx is not an.root)]
        codes = [an.eng.avvals(c.earg(0)) for c in ex]
        lv = an.eng.live(an.root)
        # is the normal end of main reachable after loading
        normal = reach_live(m, ld[0].bb, lv)
        fail = load == "Err" or (verify and changed)
        key = f"main:{load}:verify{verify}:changed{changed}"
        if fail: rep.req(bool(ex) and all(x and ("i", 0) not in x for x in codes) and not normal, key, f"main must exit with failure when load={load}, verify={verify}, changed={changed} (exit codes {codes}, continues: {normal})", m.j["span"])
        else: rep.req(normal and not ex, key, f"main must succeed when load={load}, verify={verify}, changed={changed} (exit codes {codes})", m.j["span"])

def reach_live(body, start, lv):
    st = [start]; seen = {start}
    while st:
        x = st.pop()
        if body.term(x)[0] == "ret": return True
        for s in body.succ(x):
            if s in lv and s not in seen: seen.add(s); st.append(s)
    return False
def avoid_live(an, blocks, lv):
    body = an.body; st = [0]; seen = {0}
    while st:
        x = st.pop()
        if x in blocks: continue
        if body.term(x)[0] == "ret": return True
        for s in body.succ(x):
            if s in lv and s not in seen: seen.add(s); st.append(s)
    return False

# ------------------------------------------------------------------ C21
READ = re.compile(r"^(std::fs::(File::open$|read$|read_to_string$|OpenOptions::open)|std::path::Path::read)")
def c21(F, rep):
    rep.rule("every call in the parser that opens or reads a file is followed, on every path that does not return an error, by an insertion of the same path into the source cache; the source list is all keys of that cache, is appended (never replaced or filtered) when parses are merged and reaches the bindings unchanged; the dependency file writes the header path first, then every source and the configuration path, canonicalised, sorted and with spaces escaped; a loaded configuration file records its own path")
    n = 0
    # 1. reads in the parser module
    for b in F.bodies.values():
        if b.kind != "fn" or b.is_closure: continue
        inparser = root_of(F, b).id.startswith(("bindgen::parser::", "<bindgen::parser::"))
        if not inparser: continue
        if not any(READ.match(strip_generics(callee(b.term(x))[0])) for x in b.calls) and not any(READ.match(strip_generics(callee(c.term(x))[0])) for c in F.children.get(b.id, ()) for x in c.calls): continue
    # analyse from the parser's methods with helpers inlined, recursion cut
    done = set()
    roots = [b for b in F.bodies.values() if b.kind == "fn" and not b.is_closure and short(strip_generics(b.j.get("impl_self", ""))) == "Parser"]
    names = {"process_mod", "parse_crate", "parse_mod", "load_syn_crate_mod", "parse_expand_crate", "expand_crate"}
    sites = {}
    for b in roots:
        an = An(F, b, lambda x, c: x.name in names, rep)
        for c in an.calls:
            if not READ.match(strip_generics(c.fn)): continue
            if "cargo" in c.ctx.body.id: continue
            key = f"read:{root_of(F, c.ctx.body).id}:{c.name}"
            sites.setdefault((c.ctx.body.id, c.bb), []).append((b, an, c, key))
    for k, lst in sites.items():
        ok = False; n += 1
        for b, an, c, key in lst:
            path = {strip(x) for x in c.earg(0) if strip(x)[0] == "P"}
            ins = []
            for d in an.calls:
                if d.name == "insert" and d.nargs >= 2 and any("Parser.cache_src" in avs_str(d.earg(i)) for i in range(d.nargs)):
                    if d.nargs == 3 and {strip(x) for x in d.earg(1)} & path: ins.append(d)
                    elif d.nargs == 2: # vacant entry
                        en = [e for e in an.calls if e.name == "entry" and "Parser.cache_src" in avs_str(e.earg(0)) and {strip(x) for x in e.earg(1)} & path]
                        if en: ins.append(d)
                elif d.name in ("or_insert", "or_insert_with", "insert_entry") and any(e.name == "entry" and "Parser.cache_src" in avs_str(e.earg(0)) and {strip(x) for x in e.earg(1)} & path for e in an.calls): ins.append(d)
                elif d.name == "insert" and d.nargs == 2 and "VacantEntry" in d.fn:
                    en = [e for e in an.calls if e.name == "entry" and "Parser.cache_src" in avs_str(e.earg(0)) and {strip(x) for x in e.earg(1)} & path]
                    if en: ins.append(d)
            if ins and not escapes_ok(an, rbb(c), {rbb(d) for d in ins}): ok = True
        b, an, c, key = lst[0]
        rep.req(ok, key, f"{short(b.id)} reads {describe(an.eng, c.earg(0))} without recording it in the source cache on every successful path", c.span)
    rep.floor("source_reads", n, 1)
    # file reads elsewhere: manifest, lock, metadata and configuration only
    for b in F.bodies.values():
        if b.kind != "fn": continue
        for bb in b.calls:
            if READ.match(strip_generics(callee(b.term(bb))[0])) and (b.id, bb) not in sites:
                rep.req(owned(F, b, is_named("cargo_lock::lock", "cargo_toml::manifest", "cargo_metadata::metadata", "Config::from_file", "Bindings::write_to_file")),
                        f"other-read:{root_of(F, b).id}", f"{short(b.id)} reads a file that is not recorded as an input", b.term(bb)[5])
    # removal from the cache
    for b, bb, kind in field_uses(F).get(("Parser", "cache_src"), []):
        r = root_of(F, b)
        for x in b.calls:
            t = b.term(x); nm = short(callee(t)[0])
            if nm in ("remove", "clear", "retain", "drain", "remove_entry") and t[2] and (op_place(t[2][0]) or [None])[0] is not None and "HashMap<std::path::PathBuf" in b.locals[op_place(t[2][0])[0]]:
                rep.bad(f"cache-removal:{r.id}", f"{short(r.id)} removes entries of the source cache", t[5])
    # 2. source list = all keys
    for nm in ("parser::parse_src", "parser::parse_lib"):
        b = F.fn(nm)
        if b is None: rep.bad(f"anchor:{nm}", f"{nm} not found"); continue
        an = An(F, b, names, rep)
        e = an.eng
        st = [(ctx, bb, i, rv) for ctx in an.ctxs() for (bb, i, pl, rv) in e.stores(ctx) if isinstance(pl[-1], list) and pl[-1][0] == "f" and e.plabel(pl[-1])[0] == "Parse.source_files"]
        ok = False
        for ctx, bb, i, rv in st:
            vs = e.expand(e.callres(ctx, bb) if rv[0] == "callres" else e.rvalue(ctx, bb, i, rv))
            whole = bool(vs) and not any(marks(x) for x in vs) and keys_of_cache(an, vs)
            after = all(not an.body.reaches(rbbx(ctx, bb), rbb(c)) for c in an.named("parse_mod", "parse_crate"))
            uncond = not [a for a in e.guards(ctx, bb) if a.kind not in ("opt",)]
            ok = ok or (whole and after and uncond)
        if not st:
            # built directly into the returned value
            vs = e.expand(e.project(rets(an), "Parse.source_files", None, False))
            ok = bool(vs) and keys_of_cache(an, vs)
        rep.req(ok, f"list:{short(nm)}", f"{short(nm)}: the source list must be all keys of the source cache, taken after parsing", b.j["span"])
    # 3. merge
    b = method(F, "Parse", "extend_with")
    if b is None: rep.bad("anchor:extend_with", "Parse::extend_with not found")
    else:
        an = An(F, b, (), rep)
        ap = [c for c in an.calls if c.name in ("extend_from_slice", "extend", "append", "push") and an.has_path(c, 0, ("Parse.source_files",)) and any(p == ("Parse.source_files",) and not m for p, m in an.paths(c, 1, root=1))]
        an.must(rep, "merge:sources", ap, "merging two parses must append the other's source files")
        for ctx in an.ctxs():
            for (bb, i, pl, rv) in an.eng.stores(ctx):
                if isinstance(pl[-1], list) and pl[-1][0] == "f" and an.eng.plabel(pl[-1])[0] == "Parse.source_files": rep.bad("merge:replaced", "merging replaces the source files collected so far", b.j["span"])
    # 4. provenance up to the bindings
    g = F.fn("Builder::generate"); l = F.fn("Library::generate")
    if g is None or l is None: rep.bad("anchor:generate", "generate functions not found")
    else:
        an = An(F, g, {"parse_src", "parse_lib", "extend_with", "add_std_types", "load", "generate"}, rep)
        ln = [c for c in an.calls if c.name == "generate"]
        ok = False
        for c in ln:
            vs = an.eng.expand(an.eng.project(c.earg(0), "Library.source_files", None, False))
            ok = bool(vs) and not any(marks(x) for x in vs)
            rep.req(ok, "flow:library", f"the library gets the whole source list (gets {describe(an.eng, vs)})", c.span)
            sf = [d for d in an.calls if d.name in ("extend_from_slice", "extend", "append") and any("Builder.srcs" in avs_str(d.earg(i)) for i in range(1, d.nargs)) and any("source_files" in avs_str(d.arg(0)) or any(strip(y)[0] == "L" for y in d.arg(0)) for _ in [0])]
            rd = [d for d in an.calls if d.name in ("clear", "truncate", "retain", "drain", "pop", "remove", "dedup_by", "split_off") and d.nargs and "ource_files" in avs_str(d.earg(0))]
            rep.req(not rd, "flow:kept", "source files are removed from the list", g.j["span"])
        rep.req(bool(ln), "flow:generate", "Builder::generate must run the library", g.j["span"])
        a2 = An(F, l, lambda x, c: x.name != "new", rep)
        vs = a2.eng.expand(a2.eng.project(rets(a2), "Bindings.source_files", None, False))
        rep.req(bool(vs) and all(strip(x)[0] == "P" and strip(x)[2] == ("Library.source_files",) and not marks(x) for x in vs), "flow:bindings", f"the bindings get the library's source list (get {describe(a2.eng, vs)})", l.j["span"])
    # 5. configuration path
    cf = F.fn("Config::from_file")
    if cf is None: rep.bad("anchor:from_file", "Config::from_file not found")
    else:
        an = An(F, cf, (), rep); e = an.eng
        st = []
        for ctx in an.ctxs():
            for (bb, i, pl, rv) in e.stores(ctx):
                if isinstance(pl[-1], list) and pl[-1][0] == "f" and e.plabel(pl[-1])[0] == "Config.config_path":
                    st.append((ctx, bb, e.expand(e.callres(ctx, bb) if rv[0] == "callres" else e.rvalue(ctx, bb, i, rv))))
        oks = [x for x in st if x[2] and all(path_of(an, y, 0) for y in x[2])]
        rep.req(bool(oks) and all(not ok_return_avoids(an, rbbx(c, bb)) for c, bb, _ in oks), "config:path", "a configuration read from a file must record that file's path", cf.j["span"])
    depfile(F, rep)

def rbbx(ctx, bb):
    while ctx.parent is not None and ctx.bb is not None: bb = ctx.bb; ctx = ctx.parent
    return bb
def keys_of_cache(an, vs):
    s = avs_str(vs)
    if "Parser.cache_src" in s: return True
    # context is a local of this function: keys() taken on the cache field's contents
    return any(c.name in ("keys", "into_keys", "iter") and HASHP.search(c.ctx.body.locals[op_place(c.term[2][0])[0]]) for c in an.calls if c.nargs and op_place(c.term[2][0])) and not any(c.name in ("filter", "filter_map", "take", "skip", "take_while", "skip_while", "step_by") for c in an.calls)
HASHP = re.compile(r"Hash(Map|Set)<std::path::PathBuf")
def escapes_ok(an, start, blocks):
    """a non-error return is reachable from start without passing blocks (error returns construct Err / from_residual)"""
    body = an.body; st = list(body.succ(start)); seen = set(st)
    while st:
        x = st.pop()
        if x in blocks or x not in body.returning: continue
        if is_err_block(body, x): continue
        if body.term(x)[0] == "ret": return True
        for s in body.succ(x):
            if s not in seen: seen.add(s); st.append(s)
    return False
def is_err_block(body, x):
    blk = body.blocks[x]
    if any(s[0] == "=" and s[2][0] == "adt" and s[2][2] in ("Err",) for s in blk["s"]): return True
    t = blk["t"]
    return t[0] == "call" and short(callee(t)[0]) == "from_residual"
def ok_return_avoids(an, block):
    body = an.body; st = [0]; seen = {0}
    while st:
        x = st.pop()
        if x == block or is_err_block(body, x): continue
        if body.term(x)[0] == "ret": return True
        for s in body.succ(x):
            if s not in seen: seen.add(s); st.append(s)
    return False

def escaped(an, avs):
    """the text went through replace(' ', "\\ ")"""
    out = bool(avs)
    for a in avs:
        x = strip(a)
        if x[0] != "R": return False
        c = [d for d in an.calls if d.ctx is x[1] and d.bb == x[2]]
        if not c: return False
        c = c[0]
        if c.name == "replace" and c.nargs == 3:
            frm = {strip(y)[2] for y in c.earg(1) if strip(y)[0] == "K"}; to = strs(c.earg(2))
            if frm in ({32}, {" "}) and to == {"\\ "}: continue
        return False
    return out

def depfile(F, rep):
    b = method(F, "Bindings", "generate_depfile")
    if b is None: rep.bad("anchor:depfile", "Bindings::generate_depfile not found"); return
    an = An(F, b, (), rep); e = an.eng
    reps = [c for c in an.calls if c.name == "replace"]
    for c in reps:
        frm = {strip(y)[2] for y in c.earg(1) if strip(y)[0] == "K"}; to = strs(c.earg(2))
        rep.req(frm in ({32}, {" "}) and to == {"\\ "}, "depfile:escape", f"spaces are escaped with a backslash (replaces {frm} by {to})", c.span)
    def origin(c):
        s = describe(e, c.earg(0))
        out = set()
        seen = set()
        def go(avs, d=0, part=""):
            for a in e.expand(avs):
                x = strip(a)
                p = "!" if part or [m for m in marks(a) if m != "rev"] else ""
                if (x, p) in seen or d > 8: continue
                seen.add((x, p))
                if x[0] == "P":
                    if x[1][0] == "arg" and x[1][1] == 1: out.add("header")
                    elif x[1][0] == "arg" and x[1][1] == 2: out.add("depfile")
                    elif "Bindings.source_files" in x[2]: out.add("sources" + p)
                    elif "Config.config_path" in x[2]: out.add("config" + p)
                    elif x[1][0] == "R": go(frozenset([x[1]]), d + 1, p)
                elif x[0] == "R":
                    for q in an.calls:
                        if q.ctx is x[1] and q.bb == x[2]:
                            for i in range(q.nargs): go(q.earg(i), d + 1, p)
                elif x[0] == "T":
                    for y in x[1]: go(y, d + 1, p)
                elif x[0] == "A":
                    for o in e.agg(x)[4]: go(e.operand(x[1], o), d + 1, p)
        go(c.earg(0)); return out
    esc = {}
    for c in reps:
        for o in origin(c): esc.setdefault(o, []).append(c)
    rep.req("header" in esc, "depfile:header", "the header path must be written, with spaces escaped", b.j["span"])
    rep.req("sources" in esc, "depfile:sources", f"every source file must be written, with spaces escaped (sees {sorted(esc)})", b.j["span"])
    rep.req("config" in esc, "depfile:config", f"the configuration file must be written, with spaces escaped (sees {sorted(esc)})", b.j["span"])
    for o in esc:
        if o.endswith("!"): rep.bad(f"depfile:partial:{o}", f"only some of the {o} are written", b.j["span"])
    # every text written that is not constant comes from an escaped value
    wr = [c for c in an.calls if c.name in ("write_all", "write_fmt", "write", "write_str") and c.nargs >= 2 and "fs::File" in (c.selfty + c.fn)]
    wr += [c for c in an.calls if c.name in ("write_all", "write_fmt") and c.nargs >= 2 and c not in wr]
    rep.floor("depfile_writes", len(wr), 3)
    for c in an.calls:
        if c.nargs and c.name in ("dedup_by_key", "dedup_by", "retain", "retain_mut", "truncate", "pop", "remove", "swap_remove", "drain", "clear", "split_off", "resize", "extract_if", "pop_front", "pop_back", "pop_first", "pop_last") and "PathBuf" in c.ctx.body.locals[op_place(c.term[2][0])[0] if op_place(c.term[2][0]) else 0]:
            rep.bad(f"depfile:removed:{c.name}", f"inputs are removed from the list before it is written ({c.name})", c.span)
    srcw = [c for c in reps if "sources" in origin(c)]
    hdr = [c for c in reps if "header" in origin(c)]
    if srcw and hdr:
        ok = all(not b.reaches(rbb(s), rbb(h)) or b.dominates(rbb(h), rbb(s)) for s in srcw for h in hdr)
        hw = [c for c in wr if rbb(c) > -1 and any(b.dominates(rbb(h), rbb(c)) for h in hdr)]
        first = [c for c in wr if not any(b.dominates(rbb(x), rbb(c)) and rbb(x) != rbb(c) for x in wr)]
        fo = any("header" in origin_any(an, c, origin) for c in first)
        rep.req(ok and fo, "depfile:order", "the header must be written before the sources", b.j["span"])
    srt = [c for c in an.calls if c.name.startswith("sort")]
    bt = [c for c in an.calls if c.name in ("collect", "from_iter") and "BTree" in (c.ctx.body.locals[c.term[3][0]] if len(c.term[3]) == 1 else "")]
    rep.req(bool(srt or bt), "depfile:sorted", "the inputs must be written in sorted order", b.j["span"])
    for s in srt:
        ok = all(b.dominates(rbb(s), rbb(w)) or not b.reaches(rbb(s), rbb(w)) for w in srcw) and not [a for a in s.dguards() if not noop_atom(a)]
        rep.req(ok, "depfile:sort-first", "sorting must precede writing", s.span)
    for name, key in (("sources", "depfile:always"), ):
        for c in srcw:
            g = [a for a in c.dguards() if not noop_atom(a) and a.kind not in ("iter",)]
            g = [a for a in g if not (a.kind == "opt" and "parent" in avs_str(a.subj)) and not (a.kind == "call" and short(a.fn) == "exists")]
            rep.req(not g, key, f"sources are only written under {g}", c.span)

def origin_any(an, c, origin):
    """origins of everything that goes into a write call"""
    out = set()
    for d in an.calls:
        if d.name == "replace" and rbb(d) != rbb(c) and an.body.reaches(rbb(d), rbb(c)): out |= origin(d)
    return out
def noop_atom(a): return a.kind == "bool" and any(strip(x)[0] == "P" and strip(x)[2] == ("Bindings.noop",) for x in a.subj)

# ------------------------------------------------------------------ C22
QUERYFN = set("""trim_matches trim_start_matches trim_end_matches ends_with starts_with contains split splitn rsplit lines find rfind matches eq ne
strip_suffix strip_prefix split_once rsplit_once split_terminator trim replace is_char_boundary split_inclusive""".split())
def c22(F, rep):
    rep.rule("no string literal or format template containing CR or LF occurs in code that can reach the generated bindings, except the table of line endings; the underlying output of the writer is used only by the writer itself, whose line break writes exactly the configured ending; documentation is split into lines before it is written")
    n = 0
    own = lambda b: is_named("LineEndingStyle::as_str", "Bindings::generate_depfile", "Bindings::generate_symfile")(b) or b.id.startswith("<logging::") or "Error as std::fmt::Display>::fmt" in b.id or "as std::fmt::Debug>::fmt" in b.id or b.j.get("derived") or "as std::error::Error" in b.id
    for b in F.bodies.values():
        if b.kind not in ("fn", "const", "static", "promoted"): pass
        r = root_of(F, b) if b.kind == "fn" else b
        for bb, i, text, tmpl, sp in literals(F, b):
            n += 1
            if "\n" not in text and "\r" not in text: continue
            key = f"literal:{r.id}:{text.strip()[:30]!r}"
            if b.kind == "fn" and (owned(F, b, own) or "bindgen::" not in r.id): rep.ok(key, sp); continue        # the executable's own functions write no bindings
            if query_use(b, bb, i) or diagnostic(F, b, bb): rep.ok(key, sp); continue
            rep.bad(key, f"{short(r.id)} contains the line break of {text!r}, which bypasses the configured line ending", sp)
        # chars
        if b.kind == "fn":
            for bb in b.calls:
                t = b.term(bb); nm = short(callee(t)[0])
                for o in t[2]:
                    k = o.get("k", {})
                    if k.get("ty") == "char" and k.get("int") in ("10", "13", 10, 13):
                        rep.req(nm in QUERYFN and nm != "replace", f"char:{r.id}:{nm}", f"{short(r.id)} passes a line break character to {nm}", t[5])
    rep.floor("literals", n, 900)
    # the raw output is used only inside of the writer
    m = 0
    for b, bb, kind in field_uses(F).get(("SourceWriter", "out"), []):
        m += 1
        ty = short(strip_generics(root_of(F, b).j.get("impl_self", "")))
        rep.req(ty in ("SourceWriter", "InnerWriter"), f"raw-output:{root_of(F, b).id}", f"{short(b.id)} writes around the source writer", b.j["span"])
    rep.floor("raw_output_uses", m, 3)
    nl = method(F, "SourceWriter", "new_line")
    if nl is None: rep.bad("anchor:new_line", "SourceWriter::new_line not found")
    else:
        an = An(F, nl, {"as_str"}, rep)
        ws = [c for c in an.calls if c.name in ("write_all", "write", "write_fmt") and c.nargs >= 2]
        good = []
        for c in ws:
            vs = c.earg(1)
            for a in vs:
                x = strip(a)
                if x[0] == "R" and any(d.ctx is x[1] and d.bb == x[2] and d.name == "as_str" and "LineEndingStyle" in d.fn and all("Config.line_endings" in av_str(y) for y in d.earg(0)) for d in an.calls): good.append(c)
                else: rep.bad("new_line:text", f"a line break writes {describe(an.eng, vs)} instead of the configured ending", c.span)
        an.must(rep, "new_line:ending", good, "a line break must write the configured ending")
        rep.req(len(good) <= 1, "new_line:once", "a line break writes one ending", nl.j["span"])
    # raw writers inside SourceWriter other than new_line write text handed in
    for b in F.bodies.values():
        if b.kind != "fn" or short(strip_generics(b.j.get("impl_self", ""))) not in ("SourceWriter", "InnerWriter"): continue
        for bb in b.calls:
            t = b.term(bb); fn, res, k = callee(t)
            if short(fn) == "as_str" and "LineEnding" in fn: rep.req(b.name == "new_line", f"ending-use:{b.name}", f"{b.name} writes a line ending of its own", t[5])
    # the table
    ls = method(F, "LineEndingStyle", "as_str")
    if ls is None: rep.bad("anchor:as_str", "LineEndingStyle::as_str not found")
    else:
        for v, want in (("LF", "\n"), ("CR", "\r"), ("CRLF", "\r\n")):
            an = SAn(F, ls, rep, assume={"arg0": ("v", v)})
            rep.req(an.retvals() == {("s", want)}, f"ending:{v}", f"line ending {v} is {an.retvals()}", ls.j["span"])
        an = SAn(F, ls, rep, assume={"arg0": ("v", "Native")})
        rv = an.retvals()
        if rv is None:
            # the native ending may be defined through one of the others
            rv = set()
            for a in rets(an):
                x = strip(a)
                if x[0] == "K" and x[1] == "str": rv.add(("s", x[2])); continue
                cs = [c for c in an.calls if x[0] == "R" and c.ctx is x[1] and c.bb == x[2] and any(t[0] == "local" and t[1] is ls for t in c.targets)]
                vs = an.eng.avvals(cs[0].earg(0)) if cs else None
                if vs and vs <= {("v", "LF"), ("v", "CRLF")}: rv |= {("s", {"LF": "\n", "CRLF": "\r\n"}[v]) for _, v in vs}
                else: rv.add(("?", av_str(a)))
        rep.req(bool(rv) and rv <= {("s", "\n"), ("s", "\r\n")}, "ending:Native", f"the native line ending is {rv}", ls.j["span"])
    # documentation lines
    g = [b for b in F.bodies.values() if b.kind == "fn" and b.name == "get_comment_lines"]
    for b in g:
        an = An(F, b, (), rep)
        app = [c for c in an.calls if c.name in ("push", "extend", "append", "extend_from_slice", "collect") and c.nargs >= 1 and not any(t[0] == "local" for t in c.targets)]
        sp = [c for c in an.calls if c.name in ("split", "lines", "split_terminator", "split_inclusive")]
        ok = bool(sp) and all(c.name == "lines" or {strip(y)[2] for y in c.earg(1) if strip(y)[0] == "K"} & {10, "\n"} for c in sp)
        rep.req(ok, "docs:split", "documentation must be split at its line breaks before it is written", b.j["span"])
    rep.req(bool(g), "anchor:get_comment_lines", "get_comment_lines not found")

def query_use(b, bb, i):
    """the literal is only an argument of a query call"""
    if isinstance(i, tuple): return short(callee(b.term(bb))[0]) in QUERYFN
    d = b.blocks[bb]["s"][i][1]
    if len(d) != 1: return False
    from .rules_err import uses
    us = uses(b).get(d[0], [])
    def ok(u):
        kind, x, idx, (p, t) = u
        if kind == "call": return short(callee(t)[0]) in QUERYFN
        if kind == "stmt" and len(t[1]) == 1: return all(ok(v) for v in uses(b).get(t[1][0], []))
        return False
    return bool(us) and all(ok(u) for u in us)
def diagnostic(F, b, bb):
    """the text goes to a log or panic: the block leads straight to one"""
    x = bb
    for _ in range(14):
        t = b.term(x)
        if t[0] == "call":
            fn = callee(t)[0]
            if fn.startswith("log::") or "panic" in fn or short(fn) in ("expect", "_eprint"): return True
            if short(fn) not in ("new", "new_display", "new_debug", "from_str", "new_const", "loc", "new_v1", "display", "to_string_lossy", "as_ref", "deref"): return False
        s = b.succ(x)
        if len(s) != 1: return not s
        x = s[0]
    return False
