"""C10 nesting balance, C09 condition brackets."""
import re
from .mir import short, strip_generics
from .flow import Engine, strip, marks, avs_str, av_str, is_std
from .q import An, describe
from .ccp import SEngine
from .rules_traversal import method, rbb
from .graph import *
from .ts import TS, Sym, mentions

PRIM = {"open_brace": ("brace", 1), "close_brace": ("brace", -1), "push_tab": ("tab", 1), "pop_tab": ("tab", -1),
        "push_set_spaces": ("tab", 1), "pop_set_spaces": ("tab", -1)}
TOK = ("brace", "tab", "{", "#if")
BACKENDS = ("CLikeLanguageBackend", "CythonLanguageBackend")

def is_writer(l): return "SourceWriter<" in l
def writer_body(b): return any(is_writer(l) for l in b.locals[1:b.argc + 1])
def opaque_writer(b):
    """writer functions the value analysis does not enter (they return nothing)"""
    return writer_body(b) and (b.locals[0] == "()" or in_writer_impl(b))
def in_writer_impl(b):
    while b.is_closure and b.parent in b.facts.bodies: b = b.facts.bodies[b.parent]
    return short(strip_generics(b.j.get("impl_self", ""))) in ("SourceWriter", "InnerWriter")

def texts(eng, ctx, bb):
    """constant texts a writer call may write: list of strings ('{}' holes removed), or None if not a text write"""
    t = ctx.body.term(bb); fn, res, k = callee(t)
    nm = short(fn)
    if "SourceWriter" not in fn and "SourceWriter" not in res: return None
    if nm == "write" and len(t[2]) == 2:
        return [strip(a)[2] for a in eng.expand(eng.operand(ctx, t[2][1])) if strip(a)[0] == "K" and strip(a)[1] == "str"]
    if nm == "write_fmt" and len(t[2]) == 2:
        out = []
        for a in eng.expand(eng.operand(ctx, t[2][1])):
            a = strip(a)
            if a[0] == "K" and a[1] == "str": out.append(a[2]); continue
            if a[0] != "R": continue
            ct = a[1].body.term(a[2])
            if not ct[2]: continue
            for x in eng.expand(eng.operand(a[1], ct[2][0])):
                x = strip(x)
                if x[0] == "K" and x[1] == "bytes": out.append("".join(s if q == "s" else "\x01" for q, s in template(x[2])))
                elif x[0] == "K" and x[1] == "str": out.append(x[2])
        return out
    return None
def tokens(s):
    s = re.sub(r'"(\\.|[^"\\])*"', '""', s)
    s = re.sub(r"'[{}]'", "''", s)
    r = [0, 0]
    code = re.sub(r"//.*|/\*.*?\*/", "", s)
    r[0] = code.count("{") - code.count("}")
    m = re.match(r"\s*#\s*(ifdef|ifndef|if|endif)\b", s)
    if m: r[1] = -1 if m.group(1) == "endif" else 1
    return r

class Balance:
    def __init__(self, F, rep):
        self.F = F; self.rep = rep; self.memo = {}; self.busy = set(); self.sites = 0
    def unit(self, body, subst):
        """set of net vectors of a writer function, or None while being computed (recursion: assumed balanced)"""
        key = (body.id, tuple(sorted(subst.items())))
        if key in self.memo: return self.memo[key]
        if key in self.busy: return None
        self.busy.add(key)
        try: r = self.compute(body, subst)
        finally: self.busy.discard(key)
        self.memo[key] = r
        return r
    def targets(self, ctx, bb):
        """bodies a call passing a SourceWriter may run: [(body, subst)]"""
        eng = self.eng_of[ctx]
        t = ctx.body.term(bb); fn, k, tg = eng.resolve(ctx, t[1])
        out = []
        for x in tg:
            if x[0] == "local": out.append((x[1], x[2]))
        if not out and fn in self.F.bodies and fn != "<fnptr>":
            st = eng.subst_ty(ctx, (k or {}).get("self", ""))
            out.append((self.F.bodies[fn], {"Self": st}))
            if not any(b in st for b in BACKENDS): out += [(i, {}) for i in self.F.trait_impls.get(fn, [])]
        elif not out: out += [(i, {}) for i in self.F.trait_impls.get(fn, [])]
        return [(b, s) for b, s in out if writer_body(b) and not (in_writer_impl(b) and b.name in PRIM)]
    def compute(self, body, subst):
        F = self.F; me = self
        eng = Engine(F, stop=lambda b, c: opaque_writer(b), maxdepth=6)
        root = eng.entry(body, subst)
        if not hasattr(self, "eng_of"): self.eng_of = {}
        class Map(dict):
            def __missing__(s, k): return eng
        saved = self.eng_of; self.eng_of = Map()
        eng.analyse(root)
        evm = {}
        zero = (0,) * len(TOK)
        def add(st, vec, span, fnid):
            ns = tuple(a + b for a, b in zip(st, vec))
            return ns
        def events(ctx, bb):
            if (ctx, bb) in evm: return evm[(ctx, bb)]
            evm[(ctx, bb)] = None
            t = ctx.body.term(bb); fn, res, k = callee(t); nm = short(fn)
            vecs = None
            if "SourceWriter" in strip_args(fn) and nm in PRIM:
                p, d = PRIM[nm]; vecs = {tuple(d if x == p else 0 for x in TOK)}
            elif nm in ("open_namespaces", "close_namespaces") and "LanguageBackend" in fn: vecs = None
            else:
                tx = texts(eng, ctx, bb)
                if tx:
                    vs = {(0, 0) + tuple(tokens(s)) for s in tx}
                    if vs != {zero}: vecs = vs
                    if len(vs) > 1: me.rep.bad(f"choice:{root_of(F, ctx.body).id}:{sorted(tx)[0][:20]}", f"one write may open or close a different number of blocks: {tx}", t[5])
                elif any(is_writer(ty_of(ctx, o)) for o in t[2]):
                    me.eng_of = Map()
                    for b, s in me.targets(ctx, bb):
                        r = me.unit(b, s)
                        me.eng_of = Map()
                        if r is None: continue
                        if isinstance(r, str): continue
                        if any(v != zero for v, _ in r): vecs = "inline"
            if vecs == "inline": return None
            if vecs is not None and vecs != {zero}:
                me.sites += 1
                def h(st, f, vecs=vecs): return [(tuple(a + b for a, b in zip(st, v)), None) for v in vecs]
                evm[(ctx, bb)] = h
                return h
            return None
        subm = {}
        def inline(ctx, bb):
            """unbalanced callees are simulated in place"""
            if (ctx, bb) in subm: return subm[(ctx, bb)]
            subm[(ctx, bb)] = ()
            t = ctx.body.term(bb); fn, res, k = callee(t); nm = short(fn)
            if not any(is_writer(ty_of(ctx, o)) for o in t[2]): return ()
            if "SourceWriter" in strip_args(fn) and nm in PRIM: return ()
            if nm in ("open_namespaces", "close_namespaces") and "LanguageBackend" in fn: return ()
            out = []
            me.eng_of = Map()
            for b, s in me.targets(ctx, bb):
                r = me.unit(b, s); me.eng_of = Map()
                if r is None or isinstance(r, str): continue
                if any(v != zero for v, _ in r) and not any(x.body is b for x in ctx.chain()):
                    c = eng.mk(b, [eng.operand(ctx, o) for o in t[2]], ctx, bb, s)
                    if c is not None and c.depth < 12: out.append(c)
            subm[(ctx, bb)] = tuple(out)
            return subm[(ctx, bb)]
        ts = TS(eng, F, events, inline, limit=lambda st: any(abs(x) > 6 for x in st))
        ex = ts.run(root, zero, language_facts(body, subst))
        self.eng_of = saved
        growth = [e for e in ts.errors if e[0] == "growth"]
        if growth: return "growth:" + growth[0][2]
        if any(e[0] == "budget" for e in ts.errors): return "budget"
        return sorted({(st, "") for st, f in ex})

def strip_args(fn):
    return fn.rsplit("::", 1)[0] if "::" in fn else fn
def ty_of(ctx, op):
    pl = op.get("c") or op.get("m")
    return ctx.body.locals[pl[0]] if pl and len(pl) == 1 else ""

LANGS = {"CLikeLanguageBackend": frozenset(("C", "Cxx")), "CythonLanguageBackend": frozenset(("Cython",))}
LANGKEY = ("d", ("k", frozenset({("CFG", ("Config.language",))})))
def language_facts(body, subst):
    """a back end only runs for its own languages (obligation checked by dispatch())"""
    who = subst.get("Self", "") + " " + body.j.get("impl_self", "")
    for be, ls in LANGS.items():
        if be in who: return {LANGKEY: ls}
    return {}
def dispatch(F, rep):
    from .rules_io import SAn
    b = method(F, "Bindings", "write")
    if b is None: rep.bad("anchor:Bindings::write", "Bindings::write not found"); return
    for lang in ("C", "Cxx", "Cython"):
        an = SAn(F, b, rep, stop={"write_with_backend", "write_bindings", "write_headers", "new"}, assume={"arg0/Bindings.config/Config.language": ("v", lang)})
        got = set()
        for c in an.live_calls():
            for be in BACKENDS:
                if be in strip_generics(c.fn) or be in c.fn: got.add(be)
        want = {be for be, ls in LANGS.items() if lang in ls}
        rep.req(got == want, f"dispatch:{lang}", f"bindings in {lang} are written by {sorted(got) or 'no back end'}, expected {sorted(want)}", b.j["span"])

def fmtvec(v): return ", ".join(f"{n:+d} {t}" for n, t in zip(v, ("brace block", "indentation", "literal brace", "preprocessor conditional")) if n)

def c10(F, rep):
    rep.rule("path-sensitive typestate: every function that receives the writer has net effect zero on open braces, indentation levels, literal braces and preprocessor conditionals on every path (branches correlated by what they test); a function with another net effect is simulated inside each of its callers; namespaces are opened and closed by mirror-image loops under the same tests")
    bal = Balance(F, rep); zero = (0,) * len(TOK)
    units = []
    for b in F.bodies.values():
        if b.kind != "fn" or not writer_body(b): continue
        if in_writer_impl(b) and (b.name in PRIM or b.name in ("write", "write_fmt", "write_raw_block", "new_line", "new_line_if_not_start", "spaces", "line_length_for_align")): continue
        if b.name in ("open_namespaces", "close_namespaces") or b.name == "open_close_namespaces": continue
        if b.j.get("of_trait") and "LanguageBackend" in b.id and not b.j.get("trait_fn"):
            for be in BACKENDS:
                t = next((i.j["impl_self"] for l in F.trait_impls.values() for i in l if be in i.j.get("impl_self", "")), None)
                if t is None: rep.bad(f"anchor:{be}", f"{be} implements no back-end method"); continue
                if any(be in i.j.get("impl_self", "") for i in F.trait_impls.get(b.id, [])): continue
                units.append((b, {"Self": t}, be))
        else: units.append((b, {}, ""))
    open_ = {}
    cs = callers(F)
    for b, s, be in units:
        r = bal.unit(b, s); rep.fn(b)
        key = f"balance:{b.id}" + (f"[{be}]" if be else "")
        if isinstance(r, str):
            rep.bad(key, f"{short(b.id)} opens or closes blocks an unbounded number of times ({r})" if r.startswith("growth") else f"{short(b.id)}: {r}", b.j["span"]); continue
        bad = [v for v, _ in r if v != zero]
        if not bad: rep.ok(key, b.j["span"]); continue
        up = [x for x in cs.get(root_of(F, b).id, ()) if x != b.id and writer_body(F.bodies[x])]
        if b.j.get("trait_fn"): up += [x for x in cs.get(b.j["trait_fn"], ()) if writer_body(F.bodies[x])]
        if b.is_closure or not up: rep.bad(key, f"{short(b.id)} ends with {fmtvec(bad[0])} on some path", b.j["span"])
        else: open_[b.id] = bad
    rep.notes["unbalanced_helpers"] = sorted(short(x) for x in open_)
    rep.notes["simulated_sites"] = bal.sites
    rep.floor("writer_functions", len(units), 50)
    rep.floor("nesting_operations", bal.sites, 60)
    dispatch(F, rep)
    namespaces(F, rep)
    primitives(F, rep)

def namespaces(F, rep):
    wb = F.fn("LanguageBackend::write_bindings")
    for be in BACKENDS:
        fs = {}
        for nm in ("open_namespaces", "close_namespaces"):
            c = [i for l in F.trait_impls.values() for i in l if i.name == nm and be in i.j.get("impl_self", "")]
            if len(c) != 1: rep.bad(f"anchor:{be}:{nm}", f"{be}::{nm} not found"); continue
            fs[nm] = c[0]
        if len(fs) != 2: continue
        desc = {}
        for nm, b in fs.items():
            sign = 1 if nm.startswith("open") else -1
            eng = SEngine(F, stop=lambda x, c: in_writer_impl(x), maxdepth=6)
            root = eng.entry(b); calls = eng.analyse(root); rep.fn(b)
            loop = set(); flat = {}
            for c in calls:
                if c.bb not in eng.live(c.ctx): continue
                vec = None
                if is_std(c.fn) and c.name in ("push", "extend", "insert", "append", "pop", "remove", "truncate", "retain", "clear", "drain", "skip", "take", "skip_while", "take_while", "step_by", "split_off", "extend_from_slice"):
                    # which namespaces take part
                    loop.add((c.name, tuple(describe(eng, c.arg(i)) for i in range(1, c.nargs)), frozenset(guard_keys(eng, c)))); continue
                if "SourceWriter" in strip_args(c.fn) and c.name in PRIM: p, d = PRIM[c.name]; vec = {(p, d)}
                else:
                    tx = texts(eng, c.ctx, c.bb)
                    if tx:
                        vec = set()
                        for s in tx:
                            t = tokens(s)
                            if t[0]: vec.add(("{", t[0]))
                            if t[1]: vec.add(("#if", t[1]))
                if not vec: continue
                inl = c.ctx.body.in_cycle(c.bb)
                for p, d in vec:
                    g = frozenset(x for x in guard_keys(eng, c) )
                    if inl:
                        coll = frozenset(x for a in c.dguards() if a.kind == "iter" for x in describe(eng, a.subj).replace("~rev~", "").split("|"))
                        loop.add((p, d * sign, coll, g))
                    else: flat.setdefault(p, []).append((d * sign, g))
            net = {}
            for p, l in flat.items():
                by = {}
                for d, g in l: by[g] = by.get(g, 0) + d
                net[p] = frozenset((g, d) for g, d in by.items() if d)
            desc[nm] = (frozenset(loop), frozenset((p, x) for p, x in net.items() if x))
        o, c = desc["open_namespaces"], desc["close_namespaces"]
        rep.req(o[0] == c[0], f"namespaces:{be}:loop", f"the blocks opened per namespace are not mirrored by the closing side: {sorted(map(str, o[0] ^ c[0]))[:2]}", fs["close_namespaces"].j["span"])
        rep.req(o[1] == c[1], f"namespaces:{be}:flat", f"opening and closing of namespaces differ: {sorted(map(str, o[1] ^ c[1]))[:2]}", fs["close_namespaces"].j["span"])
        rep.req(bool(o[0] or o[1]), f"namespaces:{be}:some", "no namespace block found", fs["open_namespaces"].j["span"])
    if wb is None: rep.bad("anchor:write_bindings", "LanguageBackend::write_bindings not found"); return
    calls = {}
    for bb in wb.calls: calls.setdefault(short(callee(wb.term(bb))[0]), []).append(bb)
    op, cl = calls.get("open_namespaces", []), calls.get("close_namespaces", [])
    ok = len(op) == 1 and len(cl) == 1 and not wb.cdep.get(op[0]) and not wb.cdep.get(cl[0]) and wb.dominates(op[0], cl[0])
    rep.req(ok, "namespaces:once", "namespaces must be opened and closed exactly once, unconditionally", wb.j["span"])
    if ok:
        inside = ("write_primitive_constants", "write_items", "write_non_primitive_constants", "write_globals", "write_functions")
        for nm in inside:
            for bb in calls.get(nm, []): rep.req(wb.dominates(op[0], bb) and wb.dominates(bb, cl[0]), f"namespaces:inside:{nm}", f"{nm} must happen between opening and closing the namespaces", wb.term(bb)[5])
        for nm, where in (("write_headers", "before"), ("write_footers", "after"), ("write_trailer", "after")):
            for bb in calls.get(nm, []):
                good = wb.dominates(bb, op[0]) if where == "before" else wb.dominates(cl[0], bb)
                rep.req(good, f"namespaces:{nm}", f"{nm} must be {where} the namespaces", wb.term(bb)[5])

def guard_keys(eng, c):
    out = set()
    for a in c.dguards():
        if a.kind in ("iter", "via"): continue
        if a.kind == "call" and a.fn == "eq": pass
        v = a.val
        if a.subj and all(strip(x)[0] == "K" for x in a.subj): continue
        out.add((a.kind, a.fn or "", describe(eng, a.subj), tuple(describe(eng, x) for x in a.args), v if not isinstance(v, set) else tuple(sorted(v))))
    return out

def primitives(F, rep):
    """open_brace / close_brace are inverse for every language and brace style; tabs push and pop one level"""
    from .rules_io import SAn
    for nm, field in (("open_brace", 1), ("close_brace", -1)):
        b = method(F, "SourceWriter", nm)
        if b is None: rep.bad(f"anchor:{nm}", f"SourceWriter::{nm} not found"); continue
        for lang in ("C", "Cxx", "Cython"):
            for br in ("SameLine", "NextLine"):
                for semi in ((0, 1) if nm == "close_brace" else (0,)):
                    an = SAn(F, b, rep, stop={"push_tab", "pop_tab", "push_set_spaces", "pop_set_spaces", "write", "write_fmt", "new_line"},
                             assume={"arg0/SourceWriter.bindings/Bindings.config/Config.language": ("v", lang), "arg0/SourceWriter.bindings/Bindings.config/Config.braces": ("v", br), "arg1": ("i", semi)})
                    t = n = 0; tx = []
                    for c in an.live_calls():
                        if c.name in PRIM: t += PRIM[c.name][1]
                        x = texts(an.eng, c.ctx, c.bb)
                        if x: tx += x
                    txt = "".join(tx)
                    want = {1: "{", -1: "}"}[field] if lang != "Cython" else ""
                    got = re.sub(r"[^{}]", "", txt)
                    rep.req(t == field and got == want, f"primitive:{nm}:{lang}:{br}" + (f":{semi}" if nm == "close_brace" else ""), f"{nm} for {lang}/{br} changes the indentation by {t} and writes {txt!r}", b.j["span"])
                    if nm == "close_brace" and lang != "Cython": rep.req((";" in txt) == bool(semi), f"primitive:{nm}:{lang}:{br}:semicolon{semi}", f"close_brace writes {txt!r} when a semicolon is {'asked' if semi else 'not asked'}", b.j["span"])
    for nm, op in (("push_tab", "push"), ("push_set_spaces", "push"), ("pop_tab", "pop"), ("pop_set_spaces", "pop")):
        b = method(F, "SourceWriter", nm)
        if b is None: rep.bad(f"anchor:{nm}", f"SourceWriter::{nm} not found"); continue
        an = An(F, b, (), rep)
        cs = [c for c in an.calls if c.name in ("push", "pop", "truncate", "clear", "insert", "remove") and c.nargs and any("SourceWriter.spaces" in av_str(a) for a in c.earg(0))]
        rep.req(len(cs) == 1 and cs[0].name == op and all(a.kind in ("test",) for a in cs[0].guards()), f"primitive:{nm}", f"{nm} must {op} exactly one indentation level", b.j["span"])
