"""C30 conditions -> preprocessor expressions."""
import re
from .mir import short, strip_generics
from .flow import strip, marks, av_str, avs_str
from .graph import *
from .q import An, describe
from .rules_io import SAn, strs
from .rules_cfg import leaves, all_ctxs, shape
from .seq import Seq
from .rules_err import is_log

ORDERLESS = {"rev", "cloned", "copied", "iter", "into_iter", "enumerate", "peekable", "by_ref", "fuse", "boxed", "collect"}
def partial(av):
    """marks that drop or change elements"""
    return [m for m in marks(av) if m not in ORDERLESS]

def toks(s): return [x for x in re.findall(r"\x01|\w+|\|\||&&|==|!=|[^\s\w]", s)]

def write_events(eng, c, hole):
    """token tuples a writer call may write"""
    if "SourceWriter" not in c.fn: return None
    out = set()
    if c.name == "write" and c.nargs == 2:
        for a in c.earg(1):
            x = strip(a)
            if x[0] == "K" and x[1] == "str": out.add(tuple(toks(x[2])))
            else: out.add((hole(frozenset([a])),))
        return out
    if c.name == "write_fmt" and c.nargs == 2:
        for a in c.earg(1):
            ps = fmt_pieces(eng, a)
            if ps is None: out.add(("?",)); continue
            cur = {()}
            for p in ps:
                if p[0] == "s": alts = {tuple(toks(p[1]))}
                else:
                    alts = set()
                    for y in eng.expand(p[1]):
                        y0 = strip(y)
                        alts.add(tuple(toks(y0[2])) if y0[0] == "K" and y0[1] == "str" else (hole(frozenset([y])),))
                    alts = alts or {("?",)}
                cur = {x + y for x in cur for y in alts}
            out |= cur
        return out
    return None

def run_grammar(an, event, delta, start, accept):
    def step(st, sym):
        for tk in sym:
            st = delta.get((st, tk))
            if st is None: return None
        return st
    s = Seq(an, event, step)
    ex = s.run(an.root, start)
    return s.errors + [(x, "end", an.body.j["span"]) for x in ex if x not in accept]

def grammar(words):
    """delta of a fixed token sequence"""
    return {(i, w): i + 1 for i, w in enumerate(words)}, 0, {len(words)}

def c30(F, rep):
    rep.rule("decision tables: which condition each cfg form is parsed into; which condition each form is translated to (every operand, same connective, defines looked up by name and value, missing ones reported); token grammar of the written expression per language over all feasible paths")
    parse(F, rep); translate(F, rep); write(F, rep); keys(F, rep)

# ---------------------------------------------------------------- parsing
def parse(F, rep):
    bs = [b for b in F.bodies.values() if b.name == "parse" and not b.is_closure and "ir::cfg::Cfg" in b.id and b.kind == "fn"]
    if len(bs) != 1: rep.bad("anchor:Cfg::parse", "the parser of cfg expressions was not found"); return
    b = bs[0]
    cases = [("Path", None, "Boolean"), ("NameValue", None, "Named"), ("List", "not", "Not"), ("List", "all", "All"), ("List", "any", "Any"), ("List", "target", None), ("List", "", None)]
    for form, word, want in cases:
        def hook(eng, c, form=form, word=word):
            if c.name == "parse" and "ParseBuffer" in c.fn: return {("v", form)}
            if c.name == "is_ident" and c.nargs == 2:
                s = strs(c.earg(1))
                if len(s) == 1: return {("i", int(s == {word}))}
            if c.name in ("eq", "ne") and c.nargs == 2:
                s = strs(c.earg(0)) | strs(c.earg(1))
                if len(s) == 1: return {("i", int((s == {word}) == (c.name == "eq")))}
        an = SAn(F, b, rep, hook=hook, opts={})
        got = {}
        for c in ctxs_live(an):
            for bb in an.eng.live(c):
                for s in c.body.blocks[bb]["s"]:
                    if s[0] == "=" and s[2][0] == "adt" and short(s[2][1]) == "Cfg": got.setdefault(s[2][2], []).append((c, s))
        tag = word if word is not None else form
        rep.req(set(got) == ({want} if want else set()), f"parse:{form}:{tag}", f"cfg form {form} {word or ''} becomes {sorted(got) or 'an error'}, expected {want or 'an error'}", b.j["span"])
        if want is None or set(got) != {want}: continue
        for c, s in got[want]:
            ops = [an.eng.operand(c, o) for o in s[2][4]]
            if want in ("Not", "All", "Any"):
                ls = [x for o in ops for x in leaves(an.eng, o)]
                src = [x for x in ls if x[0] == "R" and "parse_args" in callee(x[1].body.term(x[2]))[0]]
                # the whole list, nothing dropped
                mk = [m for o in ops for a in an.eng.expand(o) for m in partial(a)]
                rep.req(bool(src) and not mk, f"parse:{tag}:operands", f"every operand of {word}() is kept ({mk or 'operands not taken from the arguments'})", b.j["span"])
            if want == "Named":
                ok = len(ops) == 2
                if ok:
                    k = roots(an.eng, ops[0]); v = roots(an.eng, ops[1])
                    ok = any("path" in x for x in k) and any("value" in x or "lit" in x.lower() for x in v) and not any("MetaNameValue.value" in x for x in k) and not any("MetaNameValue.path" in x for x in v)
                rep.req(ok, "parse:Named:fields", "a name = \"value\" condition keeps its name and its value, in that order", b.j["span"])

def roots(eng, avs):
    out = set()
    for x in leaves(eng, avs): out.add(av_str(x))
    return out
def ctxs_live(an):
    lv = []
    for c in an.ctxs():
        if all(x.parent is None or x.bb is None or x.bb in an.eng.live(x.parent) for x in c.chain()): lv.append(c)
    return lv

# ---------------------------------------------------------------- translation
def translate(F, rep):
    bs = [b for b in F.bodies.values() if b.name == "to_condition" and not b.is_closure and b.kind == "fn" and "ir::cfg::Cfg" in b.id and "Option" not in b.id]
    if len(bs) != 1: rep.bad("anchor:to_condition", "the translation of conditions was not found"); return
    b = bs[0]
    def conds(an):
        got = {}
        for c in ctxs_live(an):
            for bb in an.eng.live(c):
                for s in c.body.blocks[bb]["s"]:
                    if s[0] == "=" and s[2][0] == "adt" and short(s[2][1]) == "Condition": got.setdefault(s[2][2], []).append((c, s))
        return got
    for leaf in ("Boolean", "Named"):
        for found in ("Some", "None"):
            def hook(eng, c, found=found):
                if c.nargs and "Option<" in dest_ty(c) and "option::Option" not in c.fn and any("Config.defines" in av_str(a) for a in c.earg(0)): return {("v", found)}
            an = SAn(F, b, rep, assume={"arg0": ("v", leaf)}, hook=hook, stop={"load"})
            got = conds(an); st = an.eng.optstate(an.root, {"c": [0]})
            if found == "Some":
                rep.req(set(got) == {"Define"}, f"leaf:{leaf}:define", f"a {leaf} condition becomes {sorted(got)}", b.j["span"])
                for c, s in got.get("Define", ()):
                    avs = an.eng.expand(an.eng.operand(c, s[2][4][0]))
                    rep.req(bool(avs) and all("Config.defines" in av_str(a) for a in avs), f"leaf:{leaf}:value", f"the define of a condition is the configured one (is {avs_str(avs)})", b.j["span"])
                # compared by the parts of the leaf
                want = {f"arg0/Cfg::{leaf}.{i}" for i in range(2 if leaf == "Named" else 1)}
                cmpd = set()
                for c in an.live_calls():
                    if c.name not in ("eq", "ne", "cmp", "get", "get_key_value", "eq_ignore_ascii_case") or c.nargs < 2: continue
                    for i in (0, 1):
                        other = roots_all(an.eng, c.earg(1 - i))
                        if not any("Config.defines" in x or "call:load" in x for x in other): continue
                        if c.name == "eq_ignore_ascii_case": rep.bad(f"leaf:{leaf}:case", "defines are looked up without regard to case", c.span)
                        for a in agg_parts(an.eng, c.earg(i)): cmpd.add(a)
                vs = {v for c in an.live_calls() if c.name in ("eq", "ne") for i in (0, 1) for v in agg_vars(an.eng, c.earg(i))}
                if vs: rep.req(vs == {leaf}, f"leaf:{leaf}:key", f"a {leaf} condition is looked up as {sorted(vs)}", b.j["span"])
                wrong = {v for c in an.live_calls() if c.name in ("eq", "ne", "cmp", "eq_ignore_ascii_case") and c.nargs >= 2 for i in (0, 1) for x in roots_all(an.eng, c.earg(i)) for v in re.findall(r"DefineKey::(\w+)", x)
                         if any(w in agg_set(an.eng, c.earg(1 - i)) for w in want)}
                rep.req(wrong <= {leaf}, f"leaf:{leaf}:kind", f"a {leaf} condition is matched by a configured {sorted(wrong - {leaf})} key", b.j["span"])
                rep.req(want <= cmpd, f"leaf:{leaf}:lookup", f"the define of a {leaf} condition is found by comparing {sorted(cmpd) or 'nothing'} with the configured keys, expected {sorted(want)}", b.j["span"])
            else:
                rep.req(not got and st == {"None"}, f"leaf:{leaf}:missing", f"a {leaf} condition without a define becomes {sorted(got)}", b.j["span"])
                must_log(F, an, rep, f"leaf:{leaf}:warn", b)
    for con in ("Any", "All"):
        for k, more in ((0, 0), (1, 0), (2, 0), (5, 0), (0, 3), (1, 3), (2, 3), (5, 4), (1000, 7)):
            def hook(eng, c, k=k, more=more):
                if c.name not in ("len", "is_empty"): return
                own = bool(c.earg(0)) and all(av_str(strip(a)) == f"arg0/Cfg::{con}.0" and not partial(a) for a in c.earg(0))
                n = k + (more if own else 0)         # operands in the source, of which `more` have no define
                return {("i", n)} if c.name == "len" else {("i", int(n == 0))}
            an = SAn(F, b, rep, assume={"arg0": ("v", con)}, hook=hook)
            e = an.eng; kinds = set()
            avs = e.expand(e.local(an.root, 0)); st = e.optstate(an.root, {"c": [0]})
            for a in avs:
                s = strip(a)
                if s[0] == "A" and e.agg(s)[0] == "adt": kinds.add(e.agg(s)[2])
                elif s[0] == "K" and s[1] == "none": kinds.add("None")
                else: kinds.add("operand")
            want = {0: ({"None"}, {"operand"}), 1: ({"operand"}, {con})}.get(k, ({con},))
            rep.req(kinds in want, f"list:{con}:{min(k, 2)}{'+' if more else ''}", f"{con.lower()}() of {k} translatable operands{f' and {more} others' if more else ''} becomes {sorted(kinds)}, expected {sorted(want[0])}", b.j["span"])
            if k == 2 and not more:
                kids = [c for c in an.live_calls() if c.name == "to_condition"]
                rep.req(bool(kids) and all(any(av_str(strip(a)) == f"arg0/Cfg::{con}.0" and not partial(a) for a in c.earg(0)) for c in kids), f"list:{con}:operands", f"every operand of {con.lower()}() is translated", b.j["span"])
                for a in avs:
                    s = strip(a)
                    if s[0] == "A" and e.agg(s)[0] == "adt":
                        cont = [x for o in e.agg(s)[-1] for x in leaves(e, e.operand(s[1], o))]
                        mk = [m for o in e.agg(s)[-1] for x in e.expand(e.operand(s[1], o)) for m in partial(x)]
                        rep.req(any(x[0] == "R" and short(callee(x[1].body.term(x[2]))[0]) == "to_condition" for x in cont) and not [m for m in mk if m not in ("filter_map", "flat_map", "flatten", "map")], f"list:{con}:kept", f"all translated operands of {con.lower()}() are kept ({mk})", b.j["span"])
    for child in ("Some", "None"):
        def hook(eng, c, child=child):
            if c.name == "to_condition": return {("v", child)}
        an = SAn(F, b, rep, assume={"arg0": ("v", "Not")}, hook=hook)
        got = conds(an); st = an.eng.optstate(an.root, {"c": [0]})
        kids = [c for c in an.live_calls() if c.name == "to_condition"]
        if child == "Some":
            ok = set(got) == {"Not"} and st == {"Some"} and len(kids) >= 1 and all(any(av_str(strip(a)) == "arg0/Cfg::Not.0" for a in c.earg(0)) for c in kids)
            ret = {an.eng.agg(strip(a))[2] if strip(a)[0] == "A" else "its operand, not negated" for a in an.eng.expand(an.eng.local(an.root, 0)) if not av_str(strip(a)).endswith("Condition::Not.0")}
            for c, s in got.get("Not", ()):
                xs = an.eng.expand(an.eng.operand(c, s[2][4][0]))
                ok = ok and bool(xs) and all(strip(a)[0] == "R" and short(callee(strip(a)[1].body.term(strip(a)[2]))[0]) == "to_condition" for a in xs)
            rep.req(ok and ret == {"Not"}, "not:kept", f"not(x) becomes {sorted(ret)} of its operand", b.j["span"])
        else: rep.req(st == {"None"}, "not:missing", f"not(x) of a dropped operand becomes {sorted(st or ['unknown'])}, expected no condition", b.j["span"])

def dest_ty(c):
    t = c.ctx.body.term(c.bb)
    return c.ctx.body.locals[t[3][0]] if len(t[3]) == 1 else ""
def roots_all(eng, avs):
    out = {av_str(strip(a)) for a in eng.expand(avs)}
    for x in leaves(eng, avs): out.add(av_str(x))
    return out
def agg_parts(eng, avs):
    for a in eng.expand(avs):
        s = strip(a)
        if s[0] == "A" and eng.agg(s)[0] == "adt":
            for o in eng.agg(s)[-1]:
                for x in eng.expand(eng.operand(s[1], o)): yield av_str(strip(x))
        else: yield av_str(s)
def agg_set(eng, avs): return set(agg_parts(eng, avs))
def agg_vars(eng, avs):
    for a in eng.expand(avs):
        s = strip(a)
        if s[0] == "A" and eng.agg(s)[0] == "adt" and short(eng.agg(s)[1]) == "DefineKey": yield eng.agg(s)[2]

def must_log(F, an, rep, key, b):
    """every feasible path to a return reports (the log macro's own level test excepted)"""
    def event(c): return ("log",) if is_log(c.fn, callee(c.ctx.body.term(c.bb))[2]) else None
    s = Seq(an, event, lambda st, sym: "logged")
    ex = s.run(an.root, "start")
    rep.req("start" not in ex and bool(ex), key, "a condition without a configured define is dropped without a report", b.j["span"])

# ---------------------------------------------------------------- writing
def write(F, rep):
    b = F.fn("Condition::write")
    if b is None: rep.bad("anchor:Condition::write", "Condition::write not found"); return
    n = 0
    for lang in ("C", "Cxx", "Cython"):
        cy = lang == "Cython"
        for var in ("Define", "Any", "All", "Not"):
            def mk(extra=None):
                a = {"arg0": ("v", var), "arg1/Config.language": ("v", lang)}
                a.update(extra or {})
                return SAn(F, b, rep, stop=lambda x, c: "SourceWriter" in x.id, assume=a)
            def evs(an):
                def hole(avs):
                    xs = {av_str(strip(a)) for a in avs}
                    return "X" if xs == {f"arg0/Condition::{var}.0"} and var == "Define" else "?"
                def event(c):
                    if any(t[0] == "local" and t[1] is b for t in c.targets):
                        ok = c.nargs and all(av_str(strip(a)) == f"arg0/Condition::{var}.0" and not set(partial(a)) - {"once"} for a in c.earg(0)) and c.earg(0)
                        if ok and not any(partial(a) for a in c.earg(0)): full.append(c)
                        return ("C",) if ok else ("?",)
                    return write_events(an.eng, c, hole)
                return event
            an = mk(); n += 1; full = []
            sep = {"Any": "or" if cy else "||", "All": "and" if cy else "&&"}.get(var)
            key = f"write:{lang}:{var}"; what = f"the {lang} text of {var}"
            if var == "Define": g = grammar(["X"] if cy else ["defined", "(", "X", ")"])
            elif var == "Not": g = grammar(["not", "C"] if cy else ["!", "C"])
            if sep is None:
                errs = run_grammar(an, evs(an), *g)
                rep.req(not errs, key, f"{what} is not {' '.join(w for (i, w), _ in sorted(g[0].items()))} ({errs[:1]})", b.j["span"]); continue
            strict = {(0, "("): 1, (1, "C"): 2, (2, sep): 3, (3, "C"): 2, (2, ")"): 4, (1, ")"): 4}
            errs = run_grammar(an, evs(an), strict, 0, {4})
            if errs:
                idx = []
                a0 = mk({"index": ("i", 0)}); idx += run_grammar(a0, evs(a0), {(0, "("): 1, (1, "C"): 1, (1, ")"): 4}, 0, {4})
                for i in (1, 2, 3):
                    ai = mk({"index": ("i", i)}); idx += run_grammar(ai, evs(ai), {(0, "("): 1, (1, sep): 2, (2, "C"): 1, (1, ")"): 4}, 0, {4})
                errs = idx
                if idx and not any(a.kind == "cmp" and uses_index(an, a) for c in an.live_calls() for a in c.dguards()):
                    # a flag of its own: the separator may be left out once
                    errs = run_grammar(an, evs(an), {(0, "("): 1, (1, "C"): 1, (1, sep): 3, (3, "C"): 1, (1, ")"): 4}, 0, {4})
            rep.req(not errs, key, f"{what} is not ( operand {sep} operand ... ) ({errs[:1]})", b.j["span"])
            rep.req(bool(full), key + ":all", f"{what} does not write every operand", b.j["span"])
    rep.floor("expressions", n, 12)
def uses_index(an, a): return "index" in str(a.args) or "index" in avs_str(a.subj) if a.subj is not None else False

def keys(F, rep):
    """configured keys: `name` or `name = value`"""
    b = F.fn("DefineKey::load")
    if b is None: rep.ok("keys:inlined"); return
    an = An(F, b, (), rep)
    n = 0
    for c in an.ctxs():
        for bb in c.body.reach:
            for s in c.body.blocks[bb]["s"]:
                if s[0] == "=" and s[2][0] == "adt" and short(s[2][1]) == "DefineKey":
                    var = s[2][2]; ops = [an.eng.expand(an.eng.operand(c, o)) for o in s[2][4]]
                    if var == "Boolean":
                        rep.req(all(av_str(strip(a)) == "arg0" for a in ops[0]), "keys:boolean", "a key without a value is taken whole", b.j["span"])
                    elif var == "Named":
                        n += 1
                        sites = [sorted({site(x) for a in o for x in [strip(a)] if site(x)}) for o in ops]
                        ok = len(sites) == 2 and sites[0] and sites[1] and sites[0] != sites[1] and all(x[0] < y[0] or x[1] < y[1] for x in sites[0] for y in sites[1])
                        rep.req(ok or sites == [[], []], "keys:order", "the name of a key stands before `=` and its value after it", b.j["span"])
    rep.floor("named_keys", n, 1)
def site(x):
    """position of a piece of the split key: (order of the split call, element)"""
    idx = 0
    while x[0] == "P":
        m = re.findall(r"\.(\d+)$", av_str(x)); idx = int(m[0]) if m else idx
        x = x[1]
    return (x[2], idx) if x[0] == "R" else None
