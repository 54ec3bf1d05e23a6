"""C27: the expansion command mirrors the configuration."""
import re, itertools
from .mir import short
from .flow import strip, marks, av_str, avs_str, is_std
from .graph import *
from .q import An
from .rules_io import SAn, strs
from .rules_cfg import leaves
from .rules_expr import partial
from .seq import Seq

EXP = "arg0/Parser.config/Config.parse/ParseConfig.expand/ParseExpandConfig."
CLEAN = "arg0/Parser.lib/Cargo.clean"
BUILD = {"push_str", "push", "extend", "write_str", "write_fmt", "add_assign", "insert_str", "append"}

def parts(an, avs, seen=None):
    """paths and constants a string or path is put together from: {(origin, partial?)}"""
    seen = set() if seen is None else seen
    out = set()
    for a in an.eng.expand(avs):
        s = strip(a); p = bool([m for m in partial(a) if m not in ("map", "once", "from_fn", "intersperse")])
        if s in seen: continue
        seen.add(s)
        if s[0] == "K": out.add((repr(s[2]), p))
        elif s[0] == "P" and s[1][0] == "R": out |= {(x, p or q) for x, q in parts(an, frozenset([s[1]]), seen)} | {(av_str(s), p)}
        elif s[0] == "P": out.add((av_str(s), p))
        elif s[0] == "R":
            t = s[1].body.term(s[2]); out.add(("call:" + short(callee(t)[0] or "?"), p))
            for o in t[2]: out |= {(x, p or q) for x, q in parts(an, an.eng.operand(s[1], o), seen)}
            for c in an.live_calls():      # text added later
                if c.name in BUILD and c.nargs >= 2 and any(strip(x) == s for x in c.earg(0)):
                    out |= parts(an, c.earg(1), seen)
        elif s[0] == "A":
            for o in an.eng.agg(s)[-1]:
                if isinstance(o, dict): out |= {(x, p or q) for x, q in parts(an, an.eng.operand(s[1], o), seen)}
        elif s[0] == "L": out |= {(x, p or q) for x, q in parts(an, an.eng.contents(s), seen)}
    return out

def token(an, avs):
    """what one argument of the command is"""
    ks = set()
    for a in an.eng.expand(avs):
        s = strip(a)
        if s[0] == "K" and s[1] == "str": ks.add(s[2])
        else: ks.add(None)
    if len(ks) == 1 and None not in ks: return next(iter(ks))
    ps = parts(an, avs)
    paths = {x for x, _ in ps}
    tag = set()
    for x, q in ps:
        if x.startswith(EXP + "features"): tag.add("<features>" + ("!" if q else ""))
        elif "Cargo.manifest_path" in x: tag.add("<manifest>")
        elif x.endswith("PackageRef.name"): tag.add("<name>" + ("!" if q else ""))
        elif "PackageRef.version" in x: tag.add("<version>")
        elif x == "call:tempdir" or x == "call:path" and "call:tempdir" in paths: tag.add("<tempdir>")
        elif x == "'CARGO_EXPAND_TARGET_DIR'": tag.add("<CARGO_EXPAND_TARGET_DIR>")
        elif x == "'OUT_DIR'": tag.add("<OUT_DIR>")
        elif x == "'CARGO'": tag.add("<CARGO>")
        elif x == "'cargo'": tag.add("cargo")
    return "+".join(sorted(tag)) or "?"

def is_cmd(c): return "process::Command" in c.fn and "CommandExt" not in c.fn
VALUED = {"--manifest-path", "--features", "-p", "--package", "-F", "--profile", "--target-dir", "--target"}

def sequences(an):
    """every sequence of command operations on a feasible path that runs the command"""
    cache = {}
    def ev(c):
        k = (c.ctx, c.bb)
        if k in cache: return cache[k]
        r = None
        if c.name == "from_residual": r = {("err",)}          # the run is over
        elif is_cmd(c):
            if c.name == "arg": r = {("arg", token(an, c.earg(1)))}
            elif c.name == "args":
                r = {("args",) + tuple(list_tokens(an, c.arg(1)))}
            elif c.name == "env": r = {("env", token(an, c.earg(1)), token(an, c.earg(2)))}
            elif c.name in ("env_remove", "env_clear", "current_dir", "envs", "arg0"): r = {(c.name,)}
            elif c.name in ("output", "spawn", "status"): r = {("run", c.name)}
            elif c.name == "new": r = {("new", token(an, c.earg(0)))}
        cache[k] = r
        return r
    s = Seq(an, ev, lambda st, y: st + (y,) if len(st) < 60 and y not in st[-3:] else st)
    ex = s.run(an.root, ())
    return [x for x in ex if any(y[0] == "run" for y in x) and ("err",) not in x[:[y[0] for y in x].index("run")]]
def list_tokens(an, avs):
    out = []
    if len(avs) == 1 and strip(next(iter(avs)))[0] == "L": avs = an.eng.expand(avs)
    for a in avs:
        s = strip(a)
        if s[0] == "A" and an.eng.agg(s)[0] != "adt":
            for o in an.eng.agg(s)[-1]: out.append(token(an, an.eng.operand(s[1], o)))
        else: out.append(token(an, frozenset([a])))
    return out

def parse_cmd(seq):
    """{option: value}, environment, trailing arguments"""
    flat = []; env = {}; prog = None; run = None; bad = []
    for y in seq:
        if y[0] == "arg": flat.append(y[1])
        elif y[0] == "args": flat += y[1:]
        elif y[0] == "env": env[y[1]] = y[2]
        elif y[0] == "new": prog = y[1]
        elif y[0] == "run": run = y[1]; break
        else: bad.append(y[0])
    opts = {}; i = 1; tail = []
    while i < len(flat):
        t = flat[i]
        if t == "--": tail = flat[i + 1:]; break
        if t in VALUED: opts[t] = flat[i + 1] if i + 1 < len(flat) else None; i += 2
        elif re.match(r"--[\w-]+=", t): k, v = t.split("=", 1); opts[k] = v; i += 1
        else: opts[t] = True; i += 1
    return prog, (flat[0] if flat else None), opts, tail, env, bad

def c27(F, rep):
    rep.rule("constant propagation through Parser::parse_expand_crate and everything it calls for every combination of all_features, default_features, features, profile, package version and target-directory source: the complete sequence of operations on the process::Command of every feasible path is read off and compared, as an option map, with the configuration; every feature is written, separated; ownership dataflow: the TempDir is not dropped before the process has finished; an empty result is an error carrying cargo's diagnostics")
    bs = [b for b in F.bodies.values() if b.name == "parse_expand_crate" and not b.is_closure and b.kind == "fn"]
    if len(bs) != 1: rep.bad("anchor:parse_expand_crate", "the expansion step of the parser was not found"); return
    b = bs[0]; n = 0
    def scen(af, df, feat, prof, ver, tgt, index=None, empty=None):
        def hook(eng, c):
            if c.name == "var" and "env" in c.fn:
                s = strs(c.earg(0))
                if s == {"CARGO_EXPAND_TARGET_DIR"}: return {("v", "Ok" if tgt == "CARGO_EXPAND_TARGET_DIR" else "Err")}
                if s == {"OUT_DIR"}: return {("v", "Ok" if tgt in ("OUT_DIR", "CARGO_EXPAND_TARGET_DIR") else "Err")}
            if c.name == "var_os" and "env" in c.fn:
                s = strs(c.earg(0))
                if s == {"CARGO_EXPAND_TARGET_DIR"}: return {("v", "Some" if tgt == "CARGO_EXPAND_TARGET_DIR" else "None")}
                if s == {"OUT_DIR"}: return {("v", "Some" if tgt in ("OUT_DIR", "CARGO_EXPAND_TARGET_DIR") else "None")}
            if empty is not None and c.name in ("is_empty", "len") and any("Output.stdout" in av_str(x) or "Output.stdout" in str([av_str(y) for y in leaves(eng, frozenset([x]))]) for x in c.earg(0)):
                return {("i", empty if c.name == "is_empty" else 1 - empty)}
            if index is not None and c.name == "is_empty" and "String" in c.fn and not any(strip(x)[0] == "P" and EXP in av_str(x) for x in c.earg(0)): return {("i", int(index == 0))}
        asm = {EXP + "all_features": ("i", af), EXP + "default_features": ("i", df), EXP + "profile": ("v", prof), CLEAN: ("i", int(tgt == "clean"))}
        if index is not None: asm["index"] = ("i", index)
        return SAn(F, b, rep, stop={"process_mod"}, assume=asm, opts={EXP + "features": feat, "arg1/PackageRef.version": ver}, hook=hook)
    for af, df, feat, prof, ver in itertools.product((0, 1), (0, 1), ("Some", "None"), ("Debug", "Release"), ("Some", "None")):
        an = scen(af, df, feat, prof, ver, "none"); n += 1
        sq = sequences(an)
        what = f"all_features={bool(af)}, default_features={bool(df)}, features={'given' if feat == 'Some' else 'none'}, profile={prof}"
        key = f"cmd:{af}{df}:{feat}:{prof}:{ver}"
        if not rep.req(bool(sq), key + ":run", f"with {what} no command is run", b.j["span"]): continue
        for s in sq:
            prog, sub, o, tail, env, bad = parse_cmd(s)
            rep.req(prog in ("<CARGO>+cargo", "cargo", "<CARGO>") and sub == "rustc" and not bad, "cmd:program", f"the expansion runs {prog} {sub} {bad or ''}", b.j["span"])
            rep.req(("--all-features" in o) == bool(af), key + ":all", f"with {what} the command has{' ' if '--all-features' in o else ' no '}--all-features", b.j["span"])
            rep.req(("--no-default-features" in o) == (not df), key + ":default", f"with {what} the command has{' ' if '--no-default-features' in o else ' no '}--no-default-features", b.j["span"])
            fv = o.get("--features", o.get("-F"))
            rep.req(fv == ("<features>" if feat == "Some" else None), key + ":features", f"with {what} the command's features are {fv}", b.j["span"])
            rel = "--release" in o or o.get("--profile") == "release"
            rep.req(rel == (prof == "Release") and (o.get("--profile") in ((None, "release") if prof == "Release" else ("check", "dev", None))), key + ":profile", f"with {what} the command has {'--release ' if '--release' in o else ''}{'--profile ' + str(o.get('--profile')) if '--profile' in o else ''}", b.j["span"])
            rep.req(o.get("--manifest-path") == "<manifest>", "cmd:manifest", f"the command's manifest path is {o.get('--manifest-path')}", b.j["span"])
            want = "<name>+<version>" if ver == "Some" else "<name>"
            pk = o.get("-p", o.get("--package"))
            rep.req(pk == want, f"cmd:package:{ver}", f"the expanded package is given as {pk}, expected {want}", b.j["span"])
            rep.req("--lib" in o and "-Zunpretty=expanded" in tail, "cmd:expanded", "the library target is expanded", b.j["span"])
            known = {"--all-features", "--no-default-features", "--features", "-F", "--release", "--profile", "--manifest-path", "-p", "--package", "--lib", "--verbose", "-v", "-q", "--quiet", "--color"}
            rep.req(not set(o) - known, "cmd:other", f"the command has further options {sorted(map(str, set(o) - known))}", b.j["span"])
            rep.req(not any("TARGET" in k or "BUILD_DIR" in k for k in env), "target:none", "without clean, CARGO_EXPAND_TARGET_DIR and OUT_DIR the default target directory is used", b.j["span"])
    for tgt, want in (("clean", "<tempdir>"), ("CARGO_EXPAND_TARGET_DIR", "<CARGO_EXPAND_TARGET_DIR>"), ("OUT_DIR", "<OUT_DIR>")):
        an = scen(0, 1, "None", "Debug", "None", tgt)
        sq = sequences(an)
        rep.req(bool(sq), f"target:{tgt}:run", f"no command is run ({tgt})", b.j["span"])
        for s in sq:
            env = parse_cmd(s)[4]
            for v in ("CARGO_TARGET_DIR", "CARGO_BUILD_BUILD_DIR"):
                rep.req(env.get(v) == want, f"target:{tgt}:{v}", f"the expansion's {v} is {env.get(v)}, expected {want} ({tgt})", b.j["span"])
            if tgt == "OUT_DIR":
                js = [c for c in an.live_calls() if c.name in ("join", "push") and "path" in c.fn.lower() and any("'OUT_DIR'" == x for x, _ in parts(an, c.earg(0)))]
                rep.req(bool(js), "target:OUT_DIR:own", "the expansion has a directory of its own below OUT_DIR", b.j["span"])
    # features are separated
    an = scen(0, 1, "Some", "Debug", "None", "none", index=1)
    ids = {}
    for c in an.live_calls():
        if c.name in BUILD and c.nargs >= 2 and "String" in (c.fn + c.selfty):
            if any(x.startswith(EXP + "features") for x, _ in parts(an, c.earg(1))): ids[(c.ctx, c.bb)] = ("feat",)
            else:
                ks = {strip(a)[2] for a in c.earg(1) if strip(a)[0] == "K"}
                if ks and ks <= {" ", ",", 32, 44}: ids[(c.ctx, c.bb)] = ("sep",)
    if ("feat",) in ids.values():
        s = Seq(an, lambda c: ids.get((c.ctx, c.bb)), lambda st, y: None if (st, y) in (("start", ("feat",)), ("feat", ("feat",))) else y[0])
        s.run(an.root, "start")
        rep.req(not s.errors, "features:separated", "a feature is appended to the previous one without a separator", b.j["span"])
    js = [c for c in an.live_calls() if c.name in ("join", "concat") and c.nargs and any(x.startswith(EXP + "features") for x, _ in parts(an, c.earg(0)))]
    for c in js:
        rep.req(c.name == "join" and strs(c.earg(1)) <= {" ", ","} and bool(strs(c.earg(1))), "features:separated", f"the features are joined with {sorted(strs(c.earg(1))) if c.nargs > 1 else 'nothing'}", c.span)
    rep.req(("feat",) in ids.values() or bool(js), "features:written", "the features are not written to the command", b.j["span"])
    # outcome
    for empty in (1, 0):
        an = scen(0, 1, "None", "Debug", "None", "none", empty=empty)
        pf = [c for c in an.live_calls() if c.name in ("parse_file", "parse_str") and "syn" in c.fn]
        if empty:
            rep.req(not pf, "outcome:empty", "an empty expansion is parsed as if it were a crate", b.j["span"])
            ps = {x for x, _ in parts(an, an.eng.local(an.root, 0))}
            errs = [(c, s) for c in ctxs_of(an) for bb in an.eng.live(c) for s in c.body.blocks[bb]["s"] if s[0] == "=" and s[2][0] == "adt" and s[2][2] == "Compile"]
            ok = bool(errs) and all(any("Output.stderr" in x for x, _ in parts(an, an.eng.operand(c, s[2][4][0]))) for c, s in errs)
            rep.req(ok, "outcome:diagnostics", "the error of an empty expansion carries cargo's diagnostics", b.j["span"])
        else:
            rep.req(bool(pf) and all(any("Output.stdout" in x for x, _ in parts(an, c.earg(0))) and not any(q for _, q in parts(an, c.earg(0))) for c in pf), "outcome:source", "what is parsed is the expansion", b.j["span"])
    rep.floor("scenarios", n, 32)
    tempdirs(F, rep)
def ctxs_of(an):
    return [c for c in an.ctxs() if all(x.parent is None or x.bb is None or x.bb in an.eng.live(x.parent) for x in c.chain())]

def tempdirs(F, rep):
    runs = set()
    for b in F.bodies.values():
        if any(callee(b.term(bb))[0] in ("std::process::Command::output", "std::process::Command::status", "std::process::Child::wait", "std::process::Child::wait_with_output") for bb in b.calls): runs.add(b.id)
    ch = True
    while ch:
        ch = False
        for b in F.bodies.values():
            if b.id not in runs and any(callee(b.term(bb))[1] in runs for bb in b.calls): runs.add(b.id); ch = True
    n = 0
    for b in F.bodies.values():
        if b.kind != "fn": continue
        own = [bb for bb in b.calls if len(b.term(bb)[3]) == 1 and "tempfile::TempDir" in b.locals[b.term(bb)[3][0]] and not any("TempDir" in b.locals[(op_place(o) or [0])[0]] and "m" in o for o in b.term(bb)[2])]
        for start in own:
            n += 1
            isrun = lambda bb: callee(b.term(bb))[1] in runs or callee(b.term(bb))[0] in ("std::process::Command::output", "std::process::Command::status", "std::process::Child::wait", "std::process::Child::wait_with_output")
            any_run = any(isrun(bb) for bb in b.calls if bb != start)
            seen = set(); work = [(b.term(start)[4], b.term(start)[3][0], False)]; bad = None
            while work and bad is None:
                bb, o, ran = work.pop()
                if bb is None or (bb, o, ran) in seen: continue
                seen.add((bb, o, ran))
                for s in b.blocks[bb]["s"]:
                    if s[0] != "=" : continue
                    for q in moved(s[2]):
                        if q[0] == o and "TempDir" in b.locals[s[1][0]]: o = s[1][0]; break
                t = b.term(bb)
                if t[0] == "drop" and t[1][0] == o and len(t[1]) == 1:
                    if not ran and (any(b.reaches(bb, x) for x in b.calls if x != start and isrun(x)) or (not any_run and not b.locals[0].startswith("std::result::Result"))): bad = t
                    if not ran: 
                        for x in b.succ(bb): work.append((x, -1, ran))
                        continue
                if t[0] == "call":
                    gone = False
                    for a in t[2]:
                        if "m" in a and a["m"][0] == o:
                            if short(callee(t)[0] or "") == "drop" and not ran: bad = t
                            elif len(t[3]) == 1 and "TempDir" in b.locals[t[3][0]] and "TempDir>>::" not in "": o = t[3][0]
                            else: gone = True
                    if isrun(bb) and bb != start: ran = True
                    if gone: continue
                    work.append((t[4], o, ran))
                else:
                    for x in b.succ(bb): work.append((x, o, ran))
            rep.req(bad is None, f"tempdir:{root_of(F, b).id}", f"{short(root_of(F, b).id)} removes the temporary target directory before the process has run", b.term(start)[5])
    rep.floor("tempdirs", n, 1)
def moved(rv):
    """places moved by an rvalue"""
    def walk(x):
        if isinstance(x, dict):
            if "m" in x: yield x["m"]
        elif isinstance(x, list):
            for y in x: yield from walk(y)
    return list(walk(rv))
