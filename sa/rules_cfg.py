"""C08: conditions of modules, dependencies and items combine and never leak."""
import re
from .mir import short, strip_generics
from .flow import is_std, Engine, strip, av_str, avs_str, EMPTY
from .graph import *
from .ts import TS, Sym
from .q import An, describe
from .rules_traversal import method
from .rules_io import SAn

KINDS = ("Enum", "Struct", "Union", "OpaqueItem", "Typedef", "Static", "Function", "Constant", "EnumVariant", "Field")
STACK = "Parser.cfg_stack"

def leaves(eng, avs, depth=0, seen=None):
    seen = set() if seen is None else seen
    for a in eng.expand(avs):
        s = strip(a)
        if s in seen or depth > 8: continue
        seen.add(s); yield s
        if s[0] == "R":
            t = s[1].body.term(s[2])
            for o in t[2]: yield from leaves(eng, eng.operand(s[1], o), depth + 1, seen)
        elif s[0] == "P" and s[1][0] == "R": yield from leaves(eng, frozenset([s[1]]), depth + 1, seen)

def paths_of(avs): return {av_str(strip(a)) for a in avs if strip(a)[0] == "P"}

class Conj:
    """condition value as a set of alternatives, each a set of conjuncts"""
    def __init__(self, eng): self.e = eng
    def dnf(self, avs, depth=0):
        out = set()
        for a in self.e.expand(avs):
            s = strip(a)
            if s[0] == "K" and s[1] == "none": out.add(frozenset()); continue
            if s[0] == "R" and depth < 10:
                t = s[1].body.term(s[2]); fn, res, k = callee(t); nm = short(fn)
                if nm == "append" and "Cfg" in fn:
                    for x in self.dnf(self.e.operand(s[1], t[2][0]), depth + 1):
                        for y in self.dnf(self.e.operand(s[1], t[2][1]), depth + 1): out.add(x | y)
                    continue
                if nm == "load" and "Cfg" in fn:
                    out.add(frozenset(("load", p) for p in paths_of(self.e.expand(self.e.operand(s[1], t[2][0]))))); continue
            if s[0] == "P": out.add(frozenset({("in", av_str(s))})); continue
            out.add(frozenset({("?", av_str(s))}))
        return out

def aggregates(F, eng, ctxs, kinds):
    for c in ctxs:
        for bb in c.body.reach:
            for i, s in enumerate(c.body.blocks[bb]["s"]):
                if s[0] == "=" and s[2][0] == "adt" and short(s[2][1]) in kinds and s[2][2] == short(s[2][1]):
                    a = F.adt(short(s[2][1]))
                    names = [f[0] if isinstance(f, (list, tuple)) else f for f in a["variants"][0][1]]
                    yield short(s[2][1]), c, bb, dict(zip(names, s[2][4])), s
def all_ctxs(calls):
    out = {}
    for c in calls:
        x = c.ctx
        while x is not None and x not in out: out[x] = 1; x = x.parent
    return list(out)

def c08(F, rep):
    rep.rule("typestate: every function that touches the condition stack pushes a condition exactly when it pops it afterwards (paths that abort with an error excepted), nested modules and dependencies are parsed while their condition is on the stack; origin dataflow from the module loader to every constructed item: its condition is the conjunction of the module's condition, of every enclosing impl, extern block or macro, and of the attributes its documentation and annotations are loaded from; decision tables of Cfg::join, Cfg::append and Cfg::load")
    stack(F, rep)
    loaders(F, rep)
    combine(F, rep)
    deps(F, rep)

def touches(F):
    """{root body: [(body, bb, method)]} of calls on the condition stack"""
    out = {}
    for b in F.bodies.values():
        if b.kind != "fn": continue
        e = None
        for bb in b.calls:
            t = b.term(bb); fn, res, k = callee(t)
            if not t[2]: continue
            pl = op_place(t[2][0])
            if not pl: continue
            l = b.locals[pl[0]] if pl[0] < len(b.locals) else ""
            if "Cfg>" not in l and "Cfg]" not in l and "Parser" not in l: continue
            if e is None: e = Engine(F, stop=lambda x, c: True, maxdepth=1); r = e.entry(b)
            avs = e.expand(e.operand(r, t[2][0]))
            if any(STACK in av_str(a) for a in avs) and not any(av_str(a).split(STACK)[-1] for a in avs if STACK in av_str(a)):
                out.setdefault(root_of(F, b).id, []).append((b, bb, short(fn)))
    return out

READS = {"join", "deref", "as_slice", "is_empty", "len", "iter", "as_ref", "clone", "to_owned", "index", "into_iter"}
def stack(F, rep):
    tch = touches(F)
    pushers = {r for r, l in tch.items() if any(x[2] == "push" for x in l)}
    for r, l in tch.items():
        for b, bb, nm in l:
            if nm not in READS and nm not in ("push", "pop", "deref_mut"): rep.bad(f"stack:op:{r}:{nm}", f"{short(r)} changes the condition stack with {nm}", b.term(bb)[5])
    # direct assignments to the stack
    from .mir import field_uses
    for (adt, f), uses in field_uses(F).items():
        if adt == "Parser" and f == "cfg_stack":
            for b, bb, kd in (u[:3] for u in uses):
                if kd == "w" and root_of(F, b).id in pushers: rep.bad(f"stack:assign:{b.id}", f"{short(b.id)} replaces the condition stack", b.j["span"])
    rep.req(len(pushers) >= 1, "stack:pushers", "no function pushes conditions of modules and dependencies")
    touching = set(tch)
    memo = {}
    nested = [0]
    def net(bid):
        """exit depths of a function with respect to the stack"""
        if bid in memo: return memo[bid]
        memo[bid] = {0}
        b = F.bodies[bid]
        eng = Engine(F, stop=lambda x, c: not x.is_closure and x.id not in touching, maxdepth=4)
        eng2 = Engine(F, stop=lambda x, c: "ir::cfg" in x.id or x.name in PARSERS, maxdepth=3)
        root = eng2.entry(b); eng2.analyse(root)
        sym = Sym(eng2, F)
        own = {}
        for x, bb, nm in tch[bid]:
            if x is b: own[bb] = nm
            else: rep.bad(f"stack:closure:{bid}", f"{short(bid)} changes the condition stack inside a closure", x.term(bb)[5]) if nm in ("push", "pop") else None
        problems = []
        def events(ctx, bb):
            if ctx is not root: return None
            t = b.term(bb); fn, res, k = callee(t); nm = short(fn)
            if own.get(bb) == "push": return lambda st, f: [((st + 1) if st != "err" else st, None)]
            if own.get(bb) == "pop": return lambda st, f: [((st - 1) if st != "err" else st, None)]
            if nm == "from_residual": return lambda st, f: [("err", None)]
            tgt = res if res in F.bodies else fn
            if tgt in touching and tgt != bid and tgt not in pushers: return None
            if bid in pushers and is_parse(F, tgt, own) and any(x == "push" for x in own.values()):
                def h(st, f, bb=bb, span=t[5], nm=nm):
                    nested[0] += 1
                    if st == 0 and not after_loop(b, bb, own): return [(st, None)]
                    if st == 0 and not any(v == frozenset({"None"}) for v in f.values()): problems.append((nm, span))
                    return [(st, None)]
                return h
            return None
        ts = TS(eng2, F, events, limit=lambda st: st != "err" and abs(st) > 3)
        ex = ts.run(root, 0)
        out = {st for st, f in ex}
        if any(e[0] in ("growth", "budget") for e in ts.errors): out.add(99)
        memo[bid] = out
        for nm, span in problems: rep.bad(f"stack:unprotected:{bid}:{nm}", f"{short(bid)} calls {nm} for a nested module or dependency whose condition is not on the stack", span)
        return out
    for bid in sorted(touching):
        b = F.bodies[bid]; rep.fn(b)
        o = net(bid)
        rep.req(not (o - {0, "err"}), f"stack:balance:{bid}", f"{short(bid)} may return with the condition stack changed (a condition is pushed without being popped, or the reverse)", b.j["span"])
        for x, bb, nm in tch[bid]:
            if nm != "push" or x is not b: continue
            an = An(F, b, lambda y, c: "ir::cfg" in y.id or y.name in PARSERS or y.name == "dependencies", rep)
            t = b.term(bb)
            src = [strip(a) for a in an.eng.expand(an.eng.operand(an.root, t[2][1]))]
            good = bool(src) and all(origin_ok(an.eng, a) or param_ok(F, b, a) for a in src)
            rep.req(good, f"stack:value:{bid}", f"the pushed condition must come from the attributes of the nested module or from the dependency (is {avs_str(frozenset(src))})", t[5])
    rep.floor("nested_parses", nested[0], 3)
    rep.floor("stack_functions", len(touching), 2)

PARSERS = ("parse_mod", "process_mod", "parse_crate", "parse_expand_crate", "load_syn_crate_mod")
def is_parse(F, tgt, own):
    b = F.bodies.get(tgt)
    return b is not None and b.locals[0].startswith("std::result::Result<") and any("Parser<" in l and "&mut" in l for l in b.locals[1:b.argc + 1])
def after_loop(b, bb, own):
    """the call belongs to the loop that pushes"""
    ps = [x for x, nm in own.items() if nm == "push"]
    return any(b.in_cycle(p) and b.in_cycle(bb) and same_cycle(b, p, bb) for p in ps)
def same_cycle(b, p, q):
    def reach(s):
        seen = set(); st = [s]
        while st:
            x = st.pop()
            for y in b.succ(x):
                if y not in seen: seen.add(y); st.append(y)
        return seen
    return q in reach(p) and p in reach(q)
def param_ok(F, b, a, depth=0):
    """a parameter of an extracted helper: every caller must pass an admissible condition"""
    if a[0] != "P" or a[1][0] != "arg" or a[2] or depth > 3: return False
    i = a[1][1]; sites = 0
    for r in [F.bodies[x] for x in callers(F).get(b.id, ())]:
        an = An(F, r, lambda y, c: y is b or "ir::cfg" in y.id or y.name in PARSERS or y.name == "dependencies")
        for c in an.calls:
            if any(t[0] == "local" and t[1] is b for t in c.targets) and i < c.nargs:
                sites += 1
                src = [strip(x) for x in c.earg(i)]
                if not src or not all(origin_ok(an.eng, x) or (x[0] == "K" and x[1] == "none") or param_ok(F, r, x, depth + 1) for x in src): return False
    return sites > 0
def origin_ok(eng, a):
    if a[0] == "P" and a[1][0] == "R": return origin_ok(eng, a[1])
    if a[0] != "R": return False
    t = a[1].body.term(a[2]); fn, res, k = callee(t); nm = short(fn)
    if nm == "load" and "Cfg" in fn: return any(".attrs" in p and "ItemMod" in p for p in paths_of(eng.expand(eng.operand(a[1], t[2][0]))))
    return nm == "dependencies"

def loaders(F, rep):
    b = method(F, "Parse", "load_syn_crate_mod") or F.fn("Parse::load_syn_crate_mod")
    if b is None: rep.bad("anchor:load_syn_crate_mod", "Parse::load_syn_crate_mod not found"); return
    eng = Engine(F, stop=lambda x, c: "ir::cfg::" in x.id or (x.name == "load" and ("AnnotationSet" in x.id or "Documentation" in x.id)), maxdepth=12)
    root = eng.entry(b, {}); calls = eng.analyse(root); cj = Conj(eng)
    marg = [i for i, l in enumerate(b.locals[1:b.argc + 1]) if "ir::cfg::Cfg" in l]
    if not rep.req(len(marg) == 1, "loader:param", "the module loader takes the module's condition", b.j["span"]): return
    MOD = ("in", f"arg{marg[0]}")
    n = {}
    for kind, c, bb, ops, s in aggregates(F, eng, all_ctxs(calls), KINDS + ("LiteralStructField",)):
        rep.fn(c.body)
        if "cfg" not in ops: continue
        span = c.body.j["span"]
        alts = cj.dnf(eng.operand(c, ops["cfg"]))
        if kind == "LiteralStructField":
            src = {p for a in leaves(eng, eng.operand(c, ops["value"])) for p in [av_str(a)] if "FieldValue." in p}
            if not src: continue
            n[kind] = n.get(kind, 0) + 1
            ok = all(any(x[0] == "load" and "FieldValue.attrs" in x[1] for x in alt) for alt in alts) and alts
            rep.req(bool(ok), "literal:field", "a field of a struct literal records the condition of its own attributes", span); continue
        own = set()
        for f in ("annotations", "documentation"):
            if f not in ops: continue
            for a in leaves(eng, eng.operand(c, ops[f])):
                if a[0] == "R":
                    t = a[1].body.term(a[2]); fn = callee(t)[0]
                    if short(fn) in ("load", "load_attrs", "parse") or True:
                        for o in t[2]:
                            own |= {p for p in paths_of(eng.expand(eng.operand(a[1], o))) if p.endswith(".attrs")}
                elif a[0] == "P" and av_str(a).endswith(".attrs"): own.add(av_str(a))
                elif a[0] == "P":
                    m = re.match(r"(.*?/\w+\.attrs)/", av_str(a))
                    if m: own.add(m.group(1))
        if not own and any_syn(eng, c, ops): own = {None}
        if not own: continue
        n[kind] = n.get(kind, 0) + 1
        tag = f"{kind}:{'/'.join(sorted({x.split('/')[-1] for x in own if x}))}:{root_of(F, c.body).name}:{chain_tag(c)}"
        if own == {None}:
            rep.req(all(alts), f"cond:{tag}", f"a {kind} built from source records no condition", span); continue
        if kind == "Struct" and all("Variant.attrs" in x for x in own): continue      # body of a variant, emitted inside the variant
        for p in sorted(own):
            need = {("load", p)}
            if kind != "Field": need.add(MOD)
            # enclosing impl / extern blocks / macro invocations
            for m in re.finditer(r"(?:ItemImpl|ItemForeignMod)\.(?=items)", p): need.add(("load", p[:m.end()] + "attrs"))
            macro = []
            if kind != "Field" and not p.startswith("arg"):
                for x in c.chain():
                    for i in range(1, x.body.argc + 1):
                        if "syn::ItemMacro" in x.body.locals[i]:
                            macro += [q + "/ItemMacro.attrs" for q in paths_of(eng.expand(eng.local(x, i)))]
                for a in eng_roots(eng, c, ops):
                    for z in leaves(eng, frozenset([a])):
                        if z[0] == "P" and "ItemMacro." in av_str(z): macro.append(av_str(z).split("ItemMacro.")[0] + "ItemMacro.attrs")
            for m in set(macro): need.add(("load", m))
            miss = [sorted(need - alt) for alt in alts if need - alt] or ([] if alts else [sorted(need)])
            extra = [x for alt in alts for x in alt if x[0] == "?"]
            what = ", ".join("the module" if x == MOD else short_attr(x[1]) for x in (miss[0] if miss else ()))
            rep.req(not miss and not extra, f"cond:{tag}", f"a {kind} loaded from {short_attr(p)} does not record the condition of {what or extra}", span)
    rep.notes["constructed"] = n
    for k in KINDS: rep.floor(f"constructed_{k}", n.get(k, 0), 1)

def short_attr(p): return (p or "").split("/")[-1]
def chain_tag(c): return "<".join(x.body.name for x in c.chain() if not x.body.is_closure)[:60]
def any_syn(eng, c, ops): return False
def eng_roots(eng, c, ops):
    out = set()
    for f in ("annotations", "documentation", "path", "cfg"):
        if f in ops:
            for a in leaves(eng, eng.operand(c, ops[f])):
                if a[0] == "P" and a[1][0] == "R": out.add(a[1])
                if a[0] == "R": out.add(a)
    return out

def combine(F, rep):
    ap = F.fn("Cfg::append"); jo = F.fn("Cfg::join"); lo = F.fn("Cfg::load")
    for nm, b in (("append", ap), ("join", jo), ("load", lo)):
        if b is None: rep.bad(f"anchor:Cfg::{nm}", f"Cfg::{nm} not found")
    if ap is not None:
        for p in ("None", "Some"):
            for c in ("None", "Some"):
                an = SAn(F, ap, rep, opts={"arg0": p, "arg1": c})
                got = shape(an.eng, an.eng.local(an.root, 0)); st = an.eng.optstate(an.root, {"c": [0]})
                want = {("None", "None"): set(), ("None", "Some"): {"arg1"}, ("Some", "None"): {"arg0"}, ("Some", "Some"): {"All", "arg0", "arg1"}}[(p, c)]
                wst = {"None"} if not want else {"Some"}
                alts = [shape(an.eng, frozenset([a])) for a in an.eng.expand(an.eng.local(an.root, 0))] if want else []
                if p == c == "Some" and got == want:       # one list filled step by step: every step is taken
                    lists = [x for x in an.live_calls() if x.name in ("push", "extend", "insert", "extend_from_slice", "append") and is_std(x.fn) and x.nargs >= 2]
                    for r in ("arg0", "arg1"):
                        sites = [x for x in lists if any(av_str(strip(a)).split("/")[0] == r for a in x.earg(x.nargs - 1))]
                        from .eff import always, Eff
                        direct = any(r in shape(an.eng, frozenset([a])) for a in list_heads(an.eng, an.eng.local(an.root, 0)))
                        if sites and not direct: rep.req(always(an, [Eff((), "push", (), x.ctx, x.bb, None, x.span) for x in sites]), f"append:step:{r}", f"append leaves out the {'parent' if r == 'arg0' else 'child'} under some condition", ap.j["span"])
                rep.req((got == want or not want) and st == wst and all({"arg0", "arg1"} & want <= x for x in alts), f"append:{p}:{c}", f"append(parent {p}, child {c}) gives {sorted(st or ['?'])} of {sorted(got)}, expected {sorted(want) or 'nothing'}", ap.j["span"])
    if jo is not None:
        for empty in (0, 1):
            def hook(eng, c): 
                if c.name == "is_empty": return {("i", empty)}
                if c.name == "len": return {("i", 0 if empty else 2)}
            an = SAn(F, jo, rep, hook=hook)
            got = shape(an.eng, an.eng.local(an.root, 0))
            rep.req(got == (set() if empty else {"All", "arg0"}), f"join:{'empty' if empty else 'some'}", f"join of {'no' if empty else 'several'} conditions gives {sorted(got)}", jo.j["span"])
    if lo is not None:
        an = An(F, lo, (), rep)
        ps = [c for c in an.calls if c.name == "push" and any(strip(a)[0] == "R" or strip(a)[0] == "P" for a in c.earg(1))]
        fm = [c for c in an.calls if c.name in ("filter_map", "flat_map", "find_map") and is_std(c.fn)]
        if not ps and fm:       # collected by an iterator adaptor: the parse is the collecting step
            ps = [c for c in an.calls if c.name.startswith("parse_") and c.ctx.via in ("filter_map", "flat_map") and any(strip(a)[:3] == ("R", c.ctx, c.bb) for a in an.eng.expand(an.eng.local(c.ctx, 0)))]
            rep.req(not any(c.name == "find_map" for c in fm), "load:all", "every cfg attribute is collected", lo.j["span"])
        rep.req(len(ps) >= 1, "load:push", "Cfg::load collects the conditions of the attributes", lo.j["span"])
        for c in ps:
            gs = c.dguards()
            it = any(a.kind == "iter" and any(av_str(x) == "arg0" or av_str(x).startswith("~") and "arg0" in av_str(x) for x in a.subj) for a in gs)
            idn = any(short(a.fn or "") == "is_ident" and a.val in (True, 1) and any("cfg" in strs_of(x) for x in a.args) for a in gs)
            other = [a for a in gs if not (a.kind in ("iter", "variant", "via") or short(a.fn or "") == "is_ident" or a.kind == "opt" or (a.kind == "test" and a.fn in ("is_some", "is_ok")))]
            rep.req(idn, "load:cfg", "only cfg attributes are collected, and all of them", c.span)
            rep.req(not other, "load:extra", f"a cfg attribute is skipped under {other[:2]}", c.span)
            if c.name != "push": continue
            src = {strip(a) for a in c.earg(1)}
            rep.req(all("parse_args" in str([callee(x[1].body.term(x[2]))[0] for x in leaves(an.eng, frozenset([a])) if x[0] == "R"]) for a in src), "load:parsed", "the collected condition is the parsed attribute argument", c.span)
        every_cfg(F, lo, rep)
        for k in (0, 1, 2, 3):
            def hook(eng, c):
                if c.name == "len": return {("i", k)}
                if c.name == "is_empty": return {("i", int(k == 0))}
            an = SAn(F, lo, rep, hook=hook)
            e = an.eng
            avs = e.expand(e.local(an.root, 0))
            st = e.optstate(an.root, {"c": [0]})
            kinds = set()
            popped = bool(avs) and all(re.match(r"~(pop|first|last|next)\b", av_str(a)) for a in avs)      # of the empty list: None
            for a in avs:
                s = strip(a)
                if s[0] == "A" and e.agg(s)[0] == "adt": kinds.add(e.agg(s)[2])
                elif s[0] == "K" and s[1] == "none": kinds.add("None")
                else: kinds.add("element")
            want = {0: {"None"}, 1: {"element"}}.get(k, {"All"})
            rep.req(kinds == want or (k == 1 and kinds == {"All"}) or (k == 0 and popped), f"load:count{min(k, 2)}", f"with {k} cfg attributes the condition is {sorted(kinds)}, expected {sorted(want)}", lo.j["span"])
def list_heads(eng, avs):
    """elements a list literal is created with (nothing pushed later)"""
    for a in eng.expand(avs):
        s = strip(a)
        if s[0] == "A":
            for o in eng.agg(s)[-1]:
                if isinstance(o, dict):
                    for x in eng.expand(eng.operand(s[1], o)):
                        y = strip(x)
                        if y[0] == "A" and eng.agg(y)[0] != "adt":
                            for z in eng.agg(y)[-1]:
                                if isinstance(z, dict): yield from eng.expand(eng.operand(y[1], z))
                        elif y[0] != "L": yield x

def every_cfg(F, lo, rep):
    """a cfg attribute that parses is collected, whatever else was"""
    from .seq import Seq
    def hook(eng, c):
        if c.name == "is_ident": return {("i", 1)}
        if c.name == "parse_args" or c.name == "parse_args_with": return {("v", "Ok")}
        if c.name == "ok" and "Result" in c.fn: return {("v", "Some")}
        if c.name in ("is_ok", "is_some") and is_std(c.fn): return {("i", 1)}
    an = SAn(F, lo, rep, hook=hook, assume={"arg0/Attribute.meta": ("v", "List")})
    pushes = [c for c in an.live_calls() if c.name == "push" and any("parse_args" in str([callee(x[1].body.term(x[2]))[0] for x in leaves(an.eng, frozenset([a])) if x[0] == "R"]) for a in c.earg(c.nargs - 1))]
    if pushes:
        ids = {(c.ctx, c.bb) for c in pushes}
        def event(c):
            if (c.ctx, c.bb) in ids: return ("push",)
            if c.name == "next" and any("arg0" in av_str(a) for a in c.earg(0)): return ("next",)
        s = Seq(an, event, lambda st, y: (None if st == "got" else "got") if y == ("next",) else "idle")
        s.run(an.root, "idle")
        rep.req(not s.errors, "load:every", "a cfg attribute that parses is left out under some condition", lo.j["span"])
    for c in an.live_calls():
        if c.name.startswith("parse_args") and c.ctx.via in ("filter_map", "flat_map"):
            st = an.eng.optstate(c.ctx, {"c": [0]})
            rep.req(st is None or "None" not in st, "load:every", "a cfg attribute that parses is left out under some condition", lo.j["span"])
def strs_of(avs): return {strip(a)[2] for a in avs if strip(a)[0] == "K" and strip(a)[1] == "str"}

def shape(eng, avs, depth=0):
    """constructors and arguments a condition is made of"""
    out = set()
    for a in eng.expand(avs):
        s = strip(a)
        if s[0] == "A" and eng.agg(s)[0] == "adt" and depth < 4:
            g = eng.agg(s); out.add(g[2])
            for o in g[-1]:
                out |= shape(eng, eng.operand(s[1], o), depth + 1) if isinstance(o, dict) else set()
        elif s[0] == "A" and depth < 4:
            g = eng.agg(s)
            for o in g[-1]: out |= shape(eng, eng.operand(s[1], o), depth + 1) if isinstance(o, dict) else set()
        elif s[0] == "P": out.add(av_str(s).split("/")[0])
        elif s[0] == "K" and s[1] == "none": pass
        elif s[0] == "R" and depth < 6:
            t = s[1].body.term(s[2])
            if short(callee(t)[0]) in ("append", "join") and "Cfg" in callee(t)[0]: out.add("join")
            for o in t[2]: out |= shape(eng, eng.operand(s[1], o), depth + 1)
        elif s[0] == "L":
            out |= shape(eng, eng.contents(s), depth + 1) if depth < 6 else {"?"}
        else: out.add(av_str(s))
    return out

def deps(F, rep):
    b = F.fn("Cargo::dependencies")
    if b is None: rep.bad("anchor:Cargo::dependencies", "Cargo::dependencies not found"); return
    an = An(F, b, lambda x, c: x.name == "load_metadata", rep)
    hits = [c for c in an.calls if c.name == "load_metadata"]
    used = False
    for body in [b] + [x for x in F.bodies.values() if x.is_closure and root_of(F, x) is b]:
        for bb in body.calls:
            t = body.term(bb)
            for o in [t[1]] + t[2]:
                k = o.get("k", {}) or {}
                if short(k.get("fn") or "") == "load_metadata": used = True
    rep.req(used or bool(hits), "deps:metadata", "the condition of a dependency is read from its manifest entry", b.j["span"])
    lm = F.fn("Cfg::load_metadata")
    if lm is None: rep.bad("anchor:Cfg::load_metadata", "Cfg::load_metadata not found"); return
    an = An(F, lm, (), rep)
    tgt = [c for c in an.calls if c.name in ("parse_str",)]
    rep.req(bool(tgt) and all(any("Dependency.target" in av_str(x) for x in c.earg(0)) for c in tgt), "deps:target", "the dependency's target is what is parsed", lm.j["span"])
    from .rules_expr import partial
    for a in an.eng.expand(an.eng.local(an.root, 0)):
        mk = [m for m in partial(a) if m not in ("map", "and_then", "ok", "as_ref")]
        rep.req(not mk, "deps:kept", f"the condition of a dependency is dropped in some cases ({mk})", lm.j["span"])
    def hk(eng, c):
        if c.name == "is_ident": return {("i", 1)}
        if c.name in ("parse_str", "parse_args"): return {("v", "Ok")}
    an1 = SAn(F, lm, rep, opts={"arg0/Dependency.target": "Some"}, hook=hk)
    an1b = [c for c in an1.live_calls() if c.name == "parse_args"]
    rep.req(bool(an1b), "deps:cfg", "the argument of cfg(...) is the condition of the dependency", lm.j["span"])
    an0 = SAn(F, lm, rep, opts={"arg0/Dependency.target": "None"})
    rep.req(an0.eng.optstate(an0.root, {"c": [0]}) in ({"None"}, {"None", "Err"}), "deps:unconditional", "a dependency without target has no condition", lm.j["span"])
    lits = [s for c in all_ctxs(an.calls) for bb in c.body.reach for s in c.body.blocks[bb]["s"] if s[0] == "=" and s[2][0] == "adt" and short(s[2][1]) == "Cfg"]
    rep.req(any(s[2][2] == "Boolean" for s in lits), "deps:literal", "a literal target name becomes a condition of that name", lm.j["span"])
