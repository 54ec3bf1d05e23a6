"""C09: what is written for a conditional item lies between its own opening and closing directive."""
import re
from .mir import short, strip_generics
from .flow import Engine, strip, marks, av_str, avs_str
from .graph import *
from .ts import TS, Sym
from .rules_traversal import method
from .rules_out import is_writer, writer_body, opaque_writer, in_writer_impl, ty_of, strip_args, BACKENDS, LANGS, LANGKEY, dispatch

KINDS = ("Enum", "Struct", "Union", "OpaqueItem", "Typedef", "Static", "Function", "Constant", "EnumVariant", "Field")
MEMBER = ("EnumVariant", "Field")
SILENT = {"new_line", "new_line_if_not_start", "push_tab", "pop_tab", "push_set_spaces", "pop_set_spaces", "line_length_for_align", "bindings", "spaces", "push", "new", "into_inner"}

def kind_of(ty):
    m = re.match(r"^(?:&(?:'[\w_]+ )?(?:mut )?)+bindgen::ir::[\w:]*::(\w+)$", strip_generics(ty).strip()) or re.match(r"^(?:&(?:'[\w_]+ )?(?:mut )?)+bindgen::ir::[\w:]*::(\w+)(?:<.*>)?$", ty.strip())
    return m.group(1) if m and m.group(1) in KINDS else None
def params(b):
    return {i: kind_of(l) for i, l in enumerate(b.locals[1:b.argc + 1]) if kind_of(l)}

class Unit:
    def __init__(s, body, subst, lang):
        s.body = body; s.subst = subst; s.lang = lang
        s.bare = set(); s.calls = []; s.problems = []; s.nout = 0; s.ncond = 0; s.member = []

class Brackets:
    def __init__(self, F, rep):
        self.F = F; self.rep = rep; self.memo = {}; self.busy = set()
        self.plain = {}
    def directive_free(self, b, seen=None):
        """a writer function that takes no conditional item and in which no directive of a condition is written"""
        if b.id in self.plain: return self.plain[b.id]
        self.plain[b.id] = True
        r = True
        if params(b): r = False
        fam = [x for x in self.F.bodies.values() if root_of(self.F, x) is root_of(self.F, b)] if r else []
        for x in fam:
            for bb in x.calls:
                fn, res, k = callee(x.term(bb))
                if short(fn) in ("write_before", "write_after"): r = False
                y = self.F.bodies.get(res) or self.F.bodies.get(fn)
                if y is not None and y is not b and writer_body(y) and not in_writer_impl(y) and not params(y) and not self.directive_free(y): r = False
        self.plain[b.id] = r
        return r
    def unit(self, body, subst, lang):
        key = (body.id, tuple(sorted(subst.items())), lang)
        if key in self.memo: return self.memo[key]
        if key in self.busy: return None
        self.busy.add(key)
        try: u = self.compute(body, subst, lang)
        finally: self.busy.discard(key)
        self.memo[key] = u
        return u
    def compute(self, body, subst, lang):
        F = self.F; u = Unit(body, subst, lang); me = self
        eng = Engine(F, stop=lambda b, c: (opaque_writer(b) and not b.is_closure) or b.name == "to_condition", maxdepth=6)
        root = eng.entry(body, subst); eng.analyse(root)
        sym = Sym(eng, F)
        pr = params(body)
        def canon(avs):
            return frozenset(sym.canon1(strip(a)) for a in eng.expand(avs))
        def condkey(ctx, op):
            out = set()
            for a in eng.expand(eng.operand(ctx, op)):
                a = strip(a)
                if a[0] == "R":
                    t = a[1].body.term(a[2]); fn, k, tg = eng.resolve(a[1], t[1])
                    if short(fn) == "to_condition":
                        out |= set(canon(eng.operand(a[1], t[2][0]))); continue
                out.add(sym.canon1(a))
            return frozenset(out)
        def targets(ctx, bb):
            t = ctx.body.term(bb); fn, k, tg = eng.resolve(ctx, t[1])
            out = [(x[1], x[2]) for x in tg if x[0] == "local"]
            if not out and fn in F.bodies and fn != "<fnptr>":
                st = eng.subst_ty(ctx, (k or {}).get("self", ""))
                out.append((F.bodies[fn], {"Self": st}))
                if not any(b in st for b in BACKENDS): out += [(i, {}) for i in F.trait_impls.get(fn, [])]
            elif not out: out += [(i, {}) for i in F.trait_impls.get(fn, [])]
            return [(b, s) for b, s in out if writer_body(b)]
        cbm = {}
        def callbacks(ctx, bb):
            """closures (or function values) run by this call that receive the writer"""
            if (ctx, bb) not in cbm:
                t = ctx.body.term(bb); fn, k, tg = eng.resolve(ctx, t[1])
                subs = eng.sub_contexts(ctx, bb) if any(x[0] in ("dyncall", "ptrcall") for x in tg) or ("SourceWriter" in strip_args(callee(t)[0])) else []
                cbm[(ctx, bb)] = tuple(c for c, kd in subs if writer_body(c.body) and (c.body.is_closure or kd == "inline") and not in_writer_impl(c.body))
            return cbm[(ctx, bb)]
        def classify(ctx, bb):
            """'before'|'after'|'out'|'silent'|'sub' """
            t = ctx.body.term(bb); fn, res, k = callee(t); nm = short(fn)
            if nm == "write_before" and "Condition" in fn: return "before"
            if nm == "write_after" and "Condition" in fn: return "after"
            if not any(is_writer(ty_of(ctx, o)) for o in t[2]): return None
            if callbacks(ctx, bb): return "sub" if nm == "try_write" or "SourceWriter" not in strip_args(fn) else "list"
            if "SourceWriter" in strip_args(fn): return "silent" if nm in SILENT else "out"
            tg = targets(ctx, bb)
            if not tg: return "out"
            # a whole function with its own bracket discipline, or a plain output helper
            if all(me.directive_free(b) for b, s in tg): return "out"
            if any(params(b) for b, s in tg): return "unit"
            return "sub"
        cl = {}
        def cls(ctx, bb):
            if (ctx, bb) not in cl: cl[(ctx, bb)] = classify(ctx, bb)
            return cl[(ctx, bb)]
        evm = {}
        def events(ctx, bb):
            if (ctx, bb) in evm: return evm[(ctx, bb)]
            evm[(ctx, bb)] = None
            c = cls(ctx, bb); t = ctx.body.term(bb)
            if c == "before":
                k = condkey(ctx, t[2][0]); u.ncond += 1
                def h(st, f, k=k): return [(st + (k,), None)]
                evm[(ctx, bb)] = h
            elif c == "after":
                k = condkey(ctx, t[2][0])
                def h(st, f, k=k, span=t[5], fn=ctx.body):
                    if st and st[-1] == k: return [(st[:-1], None)]
                    return [(st[:-1] if st else st, ("mismatch", short(fn.id), span))]
                evm[(ctx, bb)] = h
            return evm[(ctx, bb)]
        subm = {}
        def inline(ctx, bb):
            if (ctx, bb) in subm: return subm[(ctx, bb)]
            subm[(ctx, bb)] = ()
            c = cls(ctx, bb)
            if c not in ("sub", "unit", "list"): return ()
            if callbacks(ctx, bb):
                subm[(ctx, bb)] = callbacks(ctx, bb); return subm[(ctx, bb)]
            t = ctx.body.term(bb); out = []
            for b, s in targets(ctx, bb):
                if me.directive_free(b): continue
                x = me.unit(b, s, lang)
                if x is None: continue
                if c == "unit" and x.net_zero: continue
                if c == "sub" and x.net_zero and not has_closure(b): continue
                n = eng.mk(b, [eng.operand(ctx, o) for o in t[2]], ctx, bb, s)
                if n is not None and n.depth < 12: out.append(n)
            subm[(ctx, bb)] = tuple(out)
            return subm[(ctx, bb)]
        def has_closure(b): return any("closure" in l or re.match(r"^(?:&(?:mut )?)?[A-Z]\w?$", l) for l in b.locals[1:b.argc + 1])
        ts = TS(eng, F, events, inline, limit=lambda st: len(st) > 5)
        ex = ts.run(root, (), {LANGKEY: lang})
        u.net_zero = all(st == () for st, f in ex) and not any(e[0] == "mismatch" for e in ts.errors)
        if not u.net_zero:
            u.problems = [e for e in ts.errors if e[0] == "mismatch"] or [("open", short(body.id), body.j["span"])]
        if any(e[0] in ("growth", "budget") for e in ts.errors): u.problems.append(("growth", short(body.id), body.j["span"]))
        # coverage of the output calls
        mine = {i: ("P", ("arg", i), (f"{k}.cfg",)) for i, k in pr.items()}
        def inside(states, owner):
            return all(any(owner in k for k in st) for st in states)
        uncovered = {i: [] for i in mine}
        done = set()
        for (ctx, bb), states in list(ts.at.items()):
            if ctx.body.term(bb)[0] != "call": continue
            c = cls(ctx, bb); t = ctx.body.term(bb)
            if c in (None, "silent", "before", "after"): continue
            if c == "sub" and inline(ctx, bb): continue
            if c == "unit" and inline(ctx, bb): continue
            if c in ("out", "list"):
                u.nout += 1
                for i in mine:
                    if not inside(states, mine[i]): uncovered[i].append(t[5])
                self.members(eng, sym, u, ctx, bb, t, states)
                continue
            for b, s in targets(ctx, bb):
                bp = params(b)
                x = self.unit(b, s, lang)
                items = {j: canon(eng.operand(ctx, t[2][j])) for j in bp if j < len(t[2])}
                u.calls.append((b, s, t[5], items, states))
                bare = (x.bare if x is not None else set()) if bp else set()
                # every way of covering the callee's item: inside one of its parameters' regions
                if bp and bare >= set(bp):
                    okp = False
                    for j in bp:
                        own = {("P", a[1], a[2] + (f"{bp[j]}.cfg",)) for a in items.get(j, ()) if a[0] == "P"}
                        if own and len(own) == len(items[j]) and all(inside(states, o) for o in own): okp = True
                    if not okp:
                        # the same item passed on: this function is bare too
                        same = [i for i in mine for j in bp if items.get(j) == frozenset({("P", ("arg", i), ())})]
                        if same:
                            for i in same: uncovered[i].append(t[5])
                        elif not (lang == frozenset(("Cython",)) and all(k in MEMBER for k in bp.values())):
                            u.problems.append(("uncovered", f"{short(b.id)} writes a {'/'.join(sorted(set(bp.values())))} without its own condition and {short(body.id)} calls it outside the condition of that item", t[5]))
                # a part of an item (the body of a variant, a field) is text of that item, whatever the callee does with the part's own condition
                for j in items:
                    for a in items[j]:
                        if a[0] != "P": continue
                        for i in mine:
                            if pr[i] == "EnumVariant" and a[1] == ("arg", i) and a[2] and not inside(states, mine[i]): uncovered[i].append(t[5])
                        ix = [n for n, l in enumerate(a[2]) if l == "Enum.variants"]
                        if ix and len(a[2]) > ix[-1] + 1 and lang != frozenset(("Cython",)):
                            key = ("P", a[1], a[2][:ix[-1] + 1] + ("EnumVariant.cfg",))
                            u.member.append((key, t[5]))
                            if not inside(states, key): u.problems.append(("member", f"{short(body.id)} writes the body of an enum variant outside the variant's condition", t[5]))
                # something of another item inside an open condition
                for j in items:
                    for st in states:
                        for k in st:
                            for o in k:
                                if o[0] == "P" and all(a[0] == "P" for a in items[j]) and not any(a[0] == "P" and a[1] == o[1] and a[2][:len(o[2]) - 1] == o[2][:-1] for a in items[j]):
                                    u.problems.append(("foreign", f"{short(body.id)} writes another item ({short(b.id)}) inside an open condition", t[5]))
        u.bare = {i for i in mine if uncovered[i]}
        if mine and len(u.bare) < len(mine): u.bare = set()       # one of several parameters carries the condition
        u.where = [s for i in uncovered for s in uncovered[i]][:3]
        return u
    def members(self, eng, sym, u, ctx, bb, t, states):
        """text derived from an element of Enum.variants needs that element's own condition"""
        if u.lang == frozenset(("Cython",)): return
        for i, o in enumerate(t[2]):
            if is_writer(ty_of(ctx, o)): continue
            for a in self.leaves(eng, eng.operand(ctx, o)):
                c = sym.canon1(strip(a))
                if c[0] != "P": continue
                p = c[2]
                ix = [n for n, l in enumerate(p) if l == "Enum.variants"]
                if not ix or len(p) == ix[-1] + 1: continue       # the list as a whole
                key = ("P", c[1], p[:ix[-1] + 1] + ("EnumVariant.cfg",))
                u.member.append((key, t[5]))
                if not all(any(key in k for k in st) for st in states):
                    u.problems.append(("member", f"{short(u.body.id)} writes text of an enum variant outside the variant's condition", t[5]))
    def leaves(self, eng, avs, depth=0, seen=None):
        """origins of what is written, through format arguments and formatted strings"""
        seen = set() if seen is None else seen
        for a in eng.expand(avs):
            s = strip(a)
            if s in seen or depth > 8: continue
            seen.add(s)
            if s[0] == "R":
                t = s[1].body.term(s[2])
                for o in t[2]: yield from self.leaves(eng, eng.operand(s[1], o), depth + 1, seen)
            elif s[0] == "A":
                g = eng.agg(s)
                yield s
                if g[0] in ("array", "tuple"):
                    for o in g[-1]: yield from self.leaves(eng, eng.operand(s[1], o) if isinstance(o, dict) else frozenset(), depth + 1, seen)
            else: yield s

def c09(F, rep):
    rep.rule("path-sensitive typestate with a stack of conditions: an opening directive pushes the condition (identified by the item whose cfg it was computed from), a closing directive must pop the same one, every function is neutral; every output call of a function that receives a conditional item is inside that item's condition, or every caller passes the item inside it; text of an enum variant is written inside the variant's own condition")
    br = Brackets(F, rep)
    n = nout = ncond = 0
    units = []
    for b in F.bodies.values():
        if b.kind != "fn" or not writer_body(b) or in_writer_impl(b): continue
        if b.name in ("write_before", "write_after") : continue
        if "ir::cfg" in b.id: continue
        if b.j.get("of_trait") and "LanguageBackend" in b.id and not b.j.get("trait_fn"):
            for be in BACKENDS:
                t = next((i.j["impl_self"] for l in F.trait_impls.values() for i in l if be in i.j.get("impl_self", "")), None)
                if t is None: rep.bad(f"anchor:{be}", f"{be} implements no back-end method"); continue
                if any(be in i.j.get("impl_self", "") for i in F.trait_impls.get(b.id, [])): continue
                units.append((b, {"Self": t}, be))
        else:
            be = next((x for x in BACKENDS if x in b.j.get("impl_self", "") or x in b.id), "")
            units.append((b, {}, be))
    cs = callers(F)
    values = fn_values(F)
    bare_by_value = {}
    for b, s, be in units:
        for lang in ([LANGS[be]] if be else [LANGS["CLikeLanguageBackend"], LANGS["CythonLanguageBackend"]]):
            u = br.unit(b, s, lang); rep.fn(b)
            if u is None: continue
            n += 1; nout += u.nout; ncond += u.ncond
            tag = f"{b.id}[{'/'.join(sorted(lang))}]"
            probs = u.problems
            if not u.net_zero and [x for x in probs if x[0] in ("open", "mismatch")] and any(writer_body(F.bodies[x]) for x in cs.get(root_of(F, b).id, ()) if x != b.id) and not b.is_closure:
                probs = [x for x in probs if x[0] not in ("open", "mismatch")]   # simulated inside its callers
            if any(x[0] in ("open", "mismatch") for x in probs): rep.bad(f"pair:{tag}", f"an opening directive in {short(b.id)} is not closed, or closed by a different condition", probs[0][2])
            else: rep.ok(f"pair:{tag}", b.j["span"])
            for kd, msg, span in probs:
                if kd in ("uncovered", "foreign", "member", "growth"): rep.bad(f"{kd}:{tag}:{msg[:40] if kd == 'uncovered' else ''}", msg, span)
            if params(b) or u.member:
                rep.req(not [x for x in probs if x[0] in ("uncovered", "foreign", "member")], f"covered:{tag}", probs[0][1] if probs else "", b.j["span"])
            # used as a function value, or run as a closure by a list writer: must bring its own condition
            if params(b) and u.bare and (b.is_closure or b.id in values):
                kinds = set(params(b).values())
                exempt = lang == LANGS["CythonLanguageBackend"] and kinds <= set(MEMBER)
                if not exempt: rep.bad(f"bare-value:{tag}", f"{short(b.id)} writes a {'/'.join(sorted(kinds))} without its condition although it is passed around as a writer function", (u.where or [b.j["span"]])[0])
            # exported entry points nobody calls with the item in its region
            if params(b) and u.bare and not b.is_closure and b.id not in values:
                up = [x for x in cs.get(b.id, ()) if x != b.id]
                if b.j.get("trait_fn"): up += list(cs.get(b.j["trait_fn"], ()))
                rep.req(bool(up), f"entry:{tag}", f"{short(b.id)} writes an item without its condition and nothing encloses it", (u.where or [b.j["span"]])[0])
    rep.floor("writer_functions", n, 60)
    rep.floor("output_calls", nout, 200)
    rep.floor("opening_directives", ncond, 20)
    dispatch(F, rep)
    directives(F, rep)

def fn_values(F):
    """functions used as values (passed or stored), not only called"""
    out = set()
    def ops(x):
        if isinstance(x, dict):
            if "k" in x: yield x["k"]
        elif isinstance(x, list):
            for y in x: yield from ops(y)
    for b in F.bodies.values():
        for blk in b.blocks:
            for s in blk["s"]:
                if s[0] == "=":
                    for k in ops(s[2]):
                        for nm in names_of(k): out.add(nm)
            t = blk["t"] if "t" in blk else None
            if t and t[0] == "call":
                for k in ops(t[2]):
                    for nm in names_of(k): out.add(nm)
    return out
def names_of(k):
    for key in ("fn", "res"):
        v = k.get(key)
        if isinstance(v, str): yield v

def directives(F, rep):
    """text of the directives: on their own line, complete, nothing without a condition"""
    from .rules_io import SAn
    from .rules_out import texts, PRIM
    fs = {nm: [b for b in F.bodies.values() if b.name == nm and "ir::cfg" in b.id and writer_body(b) and "Option" in b.j.get("impl_self", "")] for nm in ("write_before", "write_after")}
    for nm, l in fs.items():
        if len(l) != 1: rep.bad(f"anchor:{nm}", f"ConditionWrite::{nm} for Option<Condition> not found"); continue
        b = l[0]
        cond = next((im for im in F.bodies.values() if im.name == "write" and "ir::cfg" in im.id and writer_body(im)), None)
        if cond is None: rep.bad("anchor:Condition::write", "Condition::write not found"); continue
        for lang in ("C", "Cxx", "Cython"):
            for opt in ("Some", "None"):
                an = SAn(F, b, rep, stop=lambda x, c: in_writer_impl(x) or x is cond, assume={"arg1/Config.language": ("v", lang)}, opts={"arg0": opt})
                seq = []
                calls = [c for c in an.live_calls()]
                for c in order(an, calls):
                    if c.name in PRIM or c.name in ("new_line", "new_line_if_not_start"): seq.append(c.name)
                    elif any(x[0] == "local" and x[1] is cond for x in c.targets): seq.append("COND")
                    else:
                        tx = texts(an.eng, c.ctx, c.bb)
                        if tx: seq.append(("T", tx[0].strip()) if len(set(tx)) == 1 else ("T", "?"))
                if opt == "None": want = []
                elif lang == "Cython": want = [("T", "IF"), "COND", "open_brace"] if nm == "write_before" else ["close_brace"]
                else: want = [("T", "#if"), "COND", "new_line"] if nm == "write_before" else ["new_line", ("T", "#endif")]
                got = [x for x in seq if x not in ("push_set_spaces", "pop_set_spaces", "push_tab", "pop_tab")]
                rep.req(got == want, f"directive:{nm}:{lang}:{opt}", f"{nm} for {lang} with{'out' if opt == 'None' else ''} a condition writes {got}, expected {want}", b.j["span"])

def order(an, calls):
    """call sites of an acyclic function in execution order"""
    def key(c):
        ch = []
        x, bb = c.ctx, c.bb
        while x is not None and bb is not None: ch.append((x, bb)); bb = x.bb; x = x.parent
        return list(reversed(ch))
    import functools
    def cmp(a, b):
        for (x, p), (y, q) in zip(key(a), key(b)):
            if x is y and p == q: continue
            if x is not y: return 0
            return -1 if q in reach(x.body, p) else 1
        return 0
    memo = {}
    def reach(body, b):
        k = (body.id, b)
        if k not in memo:
            seen = set(); st = [b]
            while st:
                z = st.pop()
                for s in body.succ(z):
                    if s not in seen: seen.add(s); st.append(s)
            memo[k] = seen
        return memo[k]
    return sorted(calls, key=functools.cmp_to_key(cmp))
