"""Interprocedural access-path origins with virtual inlining of helpers and closures.

Abstract values (AV):
  ('P', root, path)   value read from `root` through the field labels in `path`;
                      root = ('arg', i) of the entry function or ('R', ctx, bb) an opaque call result
  ('L', ctx, local)   reference to an owned local (expanded lazily to its contents)
  ('K', kind, value)  constant (str/int/fn/const/static/none/bytes)
  ('A', ctx, bb, idx) aggregate built at that statement
  ('C', id, ctx, bb, idx) closure value
  ('T', (fs,...))     synthetic tuple (enumerate, zip)
  ('R', ctx, bb)      result of an opaque call
  ('B', ctx, bb, idx) other computed value
  ('M', mark, av)     av restricted by a partial selection (filter, take, first, ...)
"""
import re
from .mir import short, strip_generics

EMPTY = frozenset()
STD = ("std::", "core::", "alloc::", "indexmap::")

IDENT = set("""deref deref_mut as_ref as_mut as_deref as_deref_mut borrow borrow_mut iter iter_mut into_iter
next next_back clone cloned copied to_owned to_vec into into_owned from unwrap expect unwrap_unchecked ok err
branch from_output from_residual as_str as_slice as_mut_slice as_bytes as_path to_string to_str into_string
into_boxed_str peekable peek fuse by_ref collect into_inner get_ref values values_mut keys into_values
into_keys drain unwrap_or_default as_mut_str as_os_str to_path_buf into_path_buf to_string_lossy as_mut_ptr
into_vec into_boxed_slice leak from_iter to_ref get_mut_ref as_mut_vec unwrap_err expect_err flatten
transpose map_err inspect_err inspect into_iterator must_use from_str_radix index index_mut or_default""".split())
PARTIAL = set("""filter skip skip_while take_while step_by find nth last first get get_mut min_by max_by
min_by_key max_by_key min max pop pop_front pop_back rfind split_first split_last nth_back first_mut last_mut
split_at chunks windows swap_remove get_index get_full remove partition""".split())
UNION01 = set("or unwrap_or or_insert get_or_insert chain ok_or xor".split())
CLORET = set("""map filter_map flat_map and_then find_map map_while then""".split())
CLORET_PLUS0 = set("""unwrap_or_else or_else ok_or_else or_insert_with get_or_insert_with""".split())
MUTATORS = set("""push push_back push_front insert extend extend_from_slice append push_str insert_str clone_from
write_str add replace set extend_one insert_full entry""".split())

def is_std(p): return p.startswith(STD) or p.startswith("<std::") or p.startswith("<core::") or p.startswith("<alloc::")

class Ctx:
    __slots__ = ("body", "binds", "parent", "bb", "subst", "depth", "clo", "n", "via")
    cnt = 0
    def __init__(self, body, binds, parent, bb, subst, depth, clo=None, via=None):
        self.body = body; self.binds = binds; self.parent = parent; self.bb = bb
        self.subst = subst; self.depth = depth; self.clo = clo; self.via = via
        Ctx.cnt += 1; self.n = Ctx.cnt
    def __repr__(self): return f"c{self.n}:{short(self.body.id)}"
    def chain(self):
        c = self
        while c: yield c; c = c.parent

COLL = ("std::vec::Vec<", "std::collections::", "indexmap::", "alloc::vec::Vec<")
class Call:
    __slots__ = ("ctx", "bb", "fn", "const", "targets", "eng")
    def __init__(self, eng, ctx, bb, fn, const, targets):
        self.eng = eng; self.ctx = ctx; self.bb = bb; self.fn = fn; self.const = const; self.targets = targets
    @property
    def name(self): return short(self.fn) if self.fn else "?"
    @property
    def term(self): return self.ctx.body.term(self.bb)
    @property
    def nargs(self): return len(self.term[2])
    def arg(self, i): return self.eng.operand(self.ctx, self.term[2][i])
    def earg(self, i): return self.eng.expand(self.arg(i))
    @property
    def span(self): return self.term[5]
    @property
    def selfty(self): return self.const.get("self", "") if self.const else ""
    def guards(self): return self.eng.guards(self.ctx, self.bb)
    def dguards(self): return self.eng.dguards(self.ctx, self.bb)
    def __repr__(self): return f"{self.fn}@{self.span}"

class Atom:
    __slots__ = ("kind", "subj", "val", "fn", "args", "ctx", "bb")
    def __init__(self, kind, subj=EMPTY, val=None, fn=None, args=(), ctx=None, bb=None):
        self.kind = kind; self.subj = subj; self.val = val; self.fn = fn; self.args = args
        self.ctx = ctx; self.bb = bb
    def key(self): return (self.kind, self.subj, self.val, self.fn, tuple(self.args))
    def __eq__(self, o): return self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self):
        a = ",".join(avs_str(x) for x in self.args)
        return f"{self.kind}({avs_str(self.subj)}{' ' + self.fn if self.fn else ''}{'(' + a + ')' if a else ''})={self.val}"

def label(adt, variant, name):
    a = short(adt) if adt != "()" else "()"
    if variant and variant != a: return f"{a}::{variant}.{name}"
    return f"{a}.{name}"

def strip(av):
    while av[0] == "M": av = av[2]
    return av
def marks(av):
    r = []
    while av[0] == "M": r.append(av[1]); av = av[2]
    return r

def av_str(av):
    k = av[0]
    if k == "P":
        r = av[1]
        rs = f"arg{r[1]}" if r[0] == "arg" else av_str(r)
        return rs + "".join("/" + p for p in av[2])
    if k == "K": return f"{av[1]}:{av[2]!r}"
    if k == "L": return f"&{av[1]}.{av[2]}"
    if k == "R":
        t = av[1].body.term(av[2]); f = t[1].get("k", {}).get("fn", "?")
        return f"call:{short(f)}"
    if k == "A": return "agg@%s:%d" % (av[1], av[2])
    if k == "C": return f"closure:{short(av[1])}"
    if k == "T": return "(" + ",".join(avs_str(x) for x in av[1]) + ")"
    if k == "M": return f"~{av[1]}~" + av_str(av[2])
    return k
def avs_str(s):
    return "|".join(sorted(av_str(a) for a in s)) if not isinstance(s, str) else s

class Engine:
    def __init__(self, facts, stop=None, maxdepth=9, maxctx=20000):
        self.F = facts
        self.stop = stop or (lambda body, ctx: False)
        self.maxdepth = maxdepth; self.maxctx = maxctx; self.nctx = 0
        self.memo = {}; self.busy = set(); self.cut = set()
        self.child = {}
        self.content = {}      # (ctx, local) -> [(ctx, operand)]
        self.pcontent = {}     # (ctx, local) -> [(label, ctx, rv, bb, idx)]
        self.local_crate = {}
        for a in facts.adts: self.local_crate[a] = True

    # ------------------------------------------------------------ contexts
    def entry(self, body, subst=None):
        binds = [frozenset([("P", ("arg", i), ())]) for i in range(body.argc)]
        return Ctx(body, binds, None, None, subst or {}, 0)
    def mk(self, body, binds, parent, bb, subst, clo=None, via=None):
        key = (body.id, tuple(binds), parent, bb, clo, via)
        c = self.child.get(key)
        if c is None:
            self.nctx += 1
            if self.nctx > self.maxctx: return None
            c = Ctx(body, binds, parent, bb, subst, parent.depth + 1 if parent else 0, clo, via)
            self.child[key] = c
        return c
    def subst_ty(self, ctx, s):
        for k, v in ctx.subst.items():
            if k in s: s = re.sub(r"(?<![\w:])" + re.escape(k) + r"(?!\w)", lambda m: v, s)
        return s

    # ------------------------------------------------------------ callee resolution
    def norm_ty(self, s):
        s = re.sub(r"'[a-z_]+ ?", "", s)
        s = s.replace("&mut ", "").replace("&", "").strip()
        return s
    def resolve(self, ctx, func):
        """-> (fn path, const, [targets]); target = ('local', body, subst) | ('clo', av)"""
        if "k" in func and "fn" in func["k"]:
            k = func["k"]; fn = k["fn"]; res = k.get("res")
            b = None
            if res is not None: b = self.F.bodies.get(res)
            if b is None and res is None or (b is not None and b.j.get("of_trait") and k.get("self")):
                st = self.norm_ty(self.subst_ty(ctx, k.get("self", "")))
                c = [x for x in self.F.trait_impls.get(fn, []) if strip_generics(self.norm_ty(x.j.get("impl_self", ""))) == strip_generics(st)]
                if len(c) == 1: b = c[0]
                elif not c and b is None:
                    # inherited default method of a known type
                    d = self.F.bodies.get(fn)
                    if d is not None and d.j.get("of_trait") and st and not re.match(r"^(Self|dyn .*|impl .*|[A-Z][A-Z0-9]?)$", st): b = d
            if b is not None and b.j.get("derived") and b.name in ("clone", "eq", "ne", "cmp", "partial_cmp", "hash", "fmt"):
                return (b.j.get("trait_fn") or "std::clone::Clone::" + b.name, k, [])
            if b is not None and b.is_closure and short(fn) in ("call", "call_mut", "call_once"): return (b.id, k, [("dyncall",)])
            if b is not None:
                sub = {}
                gs = b.j.get("generics", [])
                ta = [self.subst_ty(ctx, t) for t in k.get("targs", [])]
                if len(gs) == len(ta): sub = dict(zip(gs, ta))
                elif b.j.get("impl_self") and k.get("self"):
                    # trait-resolved impl fn: args are the trait's; match the impl self type's generics
                    m1 = re.search(r"<(.*)>$", b.j["impl_self"]); m2 = re.search(r"<(.*)>$", self.subst_ty(ctx, k["self"]))
                    if m1 and m2 and "," not in m1.group(1): sub = {m1.group(1): m2.group(1)}
                return (b.id, k, [("local", b, sub)])
            if short(fn) in ("call", "call_mut", "call_once") and "ops::" in fn:
                return (fn, k, [("dyncall",)])
            return (res or fn, k, [])
        # call through a local (fn pointer)
        return ("<fnptr>", None, [("ptrcall",)])

    # ------------------------------------------------------------ evaluation
    def operand(self, ctx, op):
        if "c" in op: return self.place(ctx, op["c"])
        if "m" in op: return self.place(ctx, op["m"])
        return self.konst(ctx, op["k"])
    def konst(self, ctx, k):
        if "fn" in k: return frozenset([("K", "fn", k.get("res") or k["fn"])])
        if "str" in k: return frozenset([("K", "str", k["str"])])
        if "int" in k: return frozenset([("K", "int", int(k["int"]))])
        if "bytes" in k: return frozenset([("K", "bytes", bytes(k["bytes"]))])
        if "promoted" in k:
            b = self.F.bodies.get(f"{k['of']}::promoted[{k['promoted']}]")
            if b is not None:
                c = self.mk(b, [], ctx, None, ctx.subst)
                if c: return self.local(c, 0)
        if "static" in k: return frozenset([("K", "static", k["static"])])
        if "const" in k:
            b = self.F.bodies.get(k["const"])
            if b is not None and b.kind == "const" and ctx.depth < self.maxdepth:
                c = self.mk(b, [], ctx, None, ctx.subst)
                if c:
                    r = self.local(c, 0)
                    if r: return r
            return frozenset([("K", "const", k["const"])])
        return frozenset([("K", "zst", k.get("ty", "?"))])

    def local(self, ctx, l):
        key = (ctx, l)
        if key in self.memo: return self.memo[key]
        if key in self.busy:
            self.cut.add(key); return EMPTY
        self.busy.add(key)
        out = set()
        b = ctx.body
        if 1 <= l <= b.argc and l - 1 < len(ctx.binds): out |= ctx.binds[l - 1]
        for (bb, idx, proj, rv) in self.defs_of(ctx, l):
            if proj: continue
            if rv[0] == "callres": out |= self.callres(ctx, bb)
            else: out |= self.rvalue(ctx, bb, idx, rv)
        if (ctx, l) in self.content and b.locals[l].startswith(COLL):
            # a collection carries what was put into it when it is moved
            out = {x for x in out if not self.fresh(x)}
            for (c2, op) in self.content[(ctx, l)]: out |= self.operand(c2, op)
        self.busy.discard(key)
        r = frozenset(out)
        self.cut.discard(key)
        if not (self.cut & self.busy): self.memo[key] = r
        return r

    def fresh(self, av):
        """an empty collection just constructed"""
        if av[0] != "R": return False
        fn = av[1].body.term(av[2])[1].get("k", {}).get("fn", "")
        return short(fn) in ("new", "with_capacity", "default") and (is_std(fn) or fn.startswith("indexmap::"))
    def defs_of(self, ctx, l): return ctx.body.defs.get(l, ())
    def blocks_of(self, ctx): return ctx.body.calls
    def rvalue(self, ctx, bb, idx, rv):
        k = rv[0]
        if k == "use": return self.operand(ctx, rv[1])
        if k == "ref":
            pl = rv[1]
            if len(pl) == 1:
                # reference to a local: alias
                ty = ctx.body.locals[pl[0]]
                if 1 <= pl[0] <= ctx.body.argc and pl[0] not in ctx.body.defs:
                    return self.local(ctx, pl[0])
                if ty.startswith("&") and pl[0] in ctx.body.defs and len(ctx.body.defs[pl[0]]) == 1:
                    return self.local(ctx, pl[0])
                return frozenset([("L", ctx, pl[0])])
            return self.place(ctx, pl)
        if k == "cast": return self.operand(ctx, rv[1])
        if k == "adt":
            adt, var = rv[1], rv[2]
            if is_std(adt):
                if not rv[4]: return frozenset([("K", "none", short(adt) + "::" + var)])
                out = set()
                for o in rv[4]: out |= self.operand(ctx, o)
                return frozenset(out)
            return frozenset([("A", ctx, bb, idx)])
        if k in ("tup", "arr"):
            return frozenset([("A", ctx, bb, idx)])
        if k == "closure": return frozenset([("C", rv[1], ctx, bb, idx)])
        if k == "repeat": return self.operand(ctx, rv[1])
        return frozenset([("B", ctx, bb, idx)])

    def agg(self, av):
        """(kind, adt, variant, names, operands) of an aggregate AV"""
        rv = av[1].body.blocks[av[2]]["s"][av[3]][2]
        if rv[0] == "adt": return ("adt", rv[1], rv[2], rv[3], rv[4])
        if rv[0] == "tup": return ("tup", "()", "", [str(i) for i in range(len(rv[1]))], rv[1])
        return ("arr", "[]", "", [str(i) for i in range(len(rv[1]))], rv[1])

    def contents(self, av):
        """one-level expansion of an ('L', ctx, local)"""
        ctx, l = av[1], av[2]
        out = set(self.local(ctx, l))
        key = ("cont", ctx, l)
        if key in self.busy: return frozenset(out)
        self.busy.add(key)
        if (ctx, l) in self.content and ctx.body.locals[l].startswith(COLL): out = {x for x in out if not self.fresh(x)}
        for (c2, op) in self.content.get((ctx, l), ()):
            out |= self.operand(c2, op)
        self.busy.discard(key)
        return frozenset(out)
    def expand(self, avs, depth=0):
        """expand all L and array aggregates (recursively)"""
        out = set(); seen = set(); st = list(avs)
        while st:
            a = st.pop()
            if a in seen: continue
            seen.add(a)
            ms = marks(a); b = strip(a)
            def add(xs):
                for x in xs:
                    for m in reversed(ms): x = ("M", m, x)
                    st.append(x)
            if b[0] == "L": add(self.contents(b))
            elif b[0] == "A" and self.agg(b)[0] == "arr":
                for o in self.agg(b)[4]: add(self.operand(b[1], o))
            else: out.add(a)
        return frozenset(out)

    def project(self, avs, lab, idx, std):
        """field projection"""
        if std: return avs      # std wrappers are transparent
        out = set()
        for a in avs:
            k = a[0]
            if k == "M":
                for x in self.project(frozenset([a[2]]), lab, idx, std): out.add(("M", a[1], x))
            elif k == "P": out.add(("P", a[1], a[2] + (lab,)))
            elif k == "R": out.add(("P", a, (lab,)))
            elif k == "L":
                found = False
                for (lb, c2, rv, bb, i2) in self.pcontent.get((a[1], a[2]), ()):
                    if lb == lab:
                        out |= self.rvalue(c2, bb, i2, rv) if rv[0] != "callres" else self.callres(c2, bb)
                for (bb, i2, proj, rv) in self.defs_of(a[1], a[2]):
                    if len(proj) == 1 and isinstance(proj[0], list) and proj[0][0] == "f" and self.plabel(proj[0])[0] == lab:
                        out |= self.rvalue(a[1], bb, i2, rv) if rv[0] != "callres" else self.callres(a[1], bb)
                out |= self.project(self.contents(a), lab, idx, std)
            elif k == "A":
                kind, adt, var, names, ops = self.agg(a)
                if kind == "arr":
                    for o in ops: out |= self.project(self.operand(a[1], o), lab, idx, std)
                else:
                    nm = lab.rsplit(".", 1)[1]
                    if label(adt, var, nm) == lab and nm in names:
                        out |= self.operand(a[1], ops[names.index(nm)])
            elif k == "C":
                rv = a[2].body.blocks[a[3]]["s"][a[4]][2]
                if idx < len(rv[2]): out |= self.operand(a[2], rv[2][idx])
            elif k == "T":
                if idx < len(a[1]): out |= a[1][idx]
            elif k == "K":
                pass
            else: out.add(a)
        return frozenset(out)
    def plabel(self, e):
        _, idx, name, adt, var = e
        if adt == "()": return ("()." + name, idx, False)
        if adt.startswith("closure:"): return ("clo." + name, idx, False)
        return (label(adt, var, name), idx, is_std(adt) and not adt.endswith("process::Output"))

    def place(self, ctx, pl):
        l = pl[0]
        proj = pl[1:]
        if not proj: return self.local(ctx, l)
        cur = None
        i = 0
        # owned local with field projection: consider partial stores
        if proj and isinstance(proj[0], list) and proj[0][0] in ("f", "v"):
            cur = frozenset([("L", ctx, l)]) if l in ctx.body.defs or not (1 <= l <= ctx.body.argc) else self.local(ctx, l)
        else: cur = self.local(ctx, l)
        for e in proj:
            if e == "*": continue
            if isinstance(e, list):
                if e[0] == "f":
                    lab, idx, std = self.plabel(e)
                    cur = self.project(cur, lab, idx, std)
                elif e[0] == "ci":
                    cur = frozenset(("M", "index", x) for x in self.elems(cur))
                elif e[0] == "i":
                    cur = self.elems(cur)
                elif e[0] == "sub":
                    cur = frozenset(("M", "slice", x) for x in cur)
        return cur
    def elems(self, avs):
        return avs

    # ---- calls
    def callargs(self, ctx, bb):
        return ctx.body.term(bb)[2]
    def enter(self, ctx, bb, body, subst, binds, clo=None, via=None):
        if ctx.depth + 1 > self.maxdepth: return None
        if any(c.body is body for c in ctx.chain()): return None
        if self.stop(body, ctx): return None
        return self.mk(body, binds, ctx, bb, subst, clo, via)
    def closure_ctx(self, ctx, bb, av, params, via=None):
        """context for running closure / fn item `av` with param AV sets at call site (ctx, bb)"""
        a = strip(av)
        if a[0] == "L":
            r = []
            for x in self.contents(a): r += self.closure_ctx(ctx, bb, x, params, via)
            return r
        if a[0] == "C":
            b = self.F.bodies.get(a[1])
            if b is None: return []
            n = b.argc - 1
            ps = list(params[:n]) + [EMPTY] * (n - len(params))
            c = self.enter(ctx, bb, b, a[2].subst, [frozenset([a])] + ps, a, via)
            return [c] if c else []
        if a[0] == "K" and a[1] == "fn":
            b = self.F.bodies.get(a[2])
            if b is None: return []
            ps = list(params[:b.argc]) + [EMPTY] * (b.argc - len(params))
            c = self.enter(ctx, bb, b, {}, ps, None, via)
            return [c] if c else []
        return []
    def is_clo(self, av):
        a = strip(av)
        if a[0] == "L":
            return any(self.is_clo(x) for x in self.local(a[1], a[2]) if x != a)
        return a[0] == "C" or (a[0] == "K" and a[1] == "fn")

    def std_params(self, name, ctx, args, ci):
        """AV sets for the params of the closure passed as argument index ci to std fn `name`"""
        a0 = self.operand(ctx, args[0]) if ci != 0 and args else EMPTY
        if name in ("fold", "try_fold", "rfold"):
            return [self.operand(ctx, args[1]) if len(args) > 1 else EMPTY, a0]
        if name in ("sort_by", "sort_unstable_by", "max_by", "min_by", "dedup_by", "is_sorted_by"): return [a0, a0]
        if name in ("unwrap_or_else", "or_else", "ok_or_else", "map_or_else") and ci == 1: return [a0]
        if name == "retain" and False: return [a0]
        if name in ("retain",):
            # maps pass (key, value), sequences pass (elem)
            return [a0, a0]
        return [a0, a0, a0]

    def sub_contexts(self, ctx, bb):
        """contexts entered by the call at (ctx, bb): [(ctx, kind)]"""
        key = ("sub", ctx, bb)
        if key in self.memo: return self.memo[key]
        if key in self.busy: return []
        self.busy.add(key)
        t = ctx.body.term(bb)
        fn, k, targets = self.resolve(ctx, t[1])
        out = []
        args = t[2]
        inlined = False
        for tg in targets:
            if tg[0] == "local":
                binds = [self.operand(ctx, a) for a in args]
                c = self.enter(ctx, bb, tg[1], tg[2], binds)
                if c is not None:
                    out.append((c, "inline")); inlined = True
            elif tg[0] in ("dyncall", "ptrcall"):
                if tg[0] == "dyncall":
                    f = self.operand(ctx, args[0])
                    tup = self.operand(ctx, args[1]) if len(args) > 1 else EMPTY
                    params = [self.project(tup, f"().{i}", i, False) for i in range(6)]
                else:
                    f = self.operand(ctx, t[1]) if ("c" in t[1] or "m" in t[1]) else EMPTY
                    params = [self.operand(ctx, a) for a in args]
                for av in f:
                    for c in self.closure_ctx(ctx, bb, av, params):
                        out.append((c, "inline")); inlined = True
        if not inlined and not any(tg[0] == "local" for tg in targets):
            nm = short(fn) if fn else ""
            for i, a in enumerate(args):
                avs = self.operand(ctx, a)
                for av in avs:
                    if self.is_clo(av):
                        for c in self.closure_ctx(ctx, bb, av, self.std_params(nm, ctx, args, i), via=nm):
                            out.append((c, "closure"))
        elif not inlined:
            # opaque local callee (stopped or recursive): its closure arguments still run
            for i, a in enumerate(args):
                for av in self.operand(ctx, a):
                    if strip(av)[0] == "C" or (strip(av)[0] == "L" and self.is_clo(av)):
                        for c in self.closure_ctx(ctx, bb, av, [EMPTY] * 4, via="opaque"):
                            out.append((c, "closure"))
        self.busy.discard(key)
        if not (self.cut & self.busy): self.memo[key] = out
        return out

    def callres(self, ctx, bb):
        t = ctx.body.term(bb)
        fn, k, targets = self.resolve(ctx, t[1])
        args = t[2]
        subs = self.sub_contexts(ctx, bb)
        inl = [c for c, kd in subs if kd == "inline"]
        if inl:
            out = set()
            for c in inl: out |= self.local(c, 0)
            return frozenset(out)
        if any(tg[0] == "local" for tg in targets):
            return frozenset([("R", ctx, bb)])
        nm = short(fn) if fn else ""
        if not args: return frozenset([("R", ctx, bb)])
        clos = [c for c, kd in subs if kd == "closure"]
        def a(i): return self.operand(ctx, args[i]) if i < len(args) else EMPTY
        if nm in IDENT:
            if nm in ("index", "index_mut") and len(args) > 1:
                x = args[1]
                if "k" in x: return frozenset(("M", "index", y) for y in a(0))
                pl = x.get("m") or x.get("c")
                if pl and len(pl) == 1 and ctx.body.locals[pl[0]].startswith("std::ops::Range") and "RangeFull" not in ctx.body.locals[pl[0]]: return frozenset(("M", "slice", y) for y in a(0))
            if nm == "next" and not ctx.body.in_cycle(bb):
                return frozenset(("M", "once", y) for y in a(0))
            return a(0)
        if nm == "box_assume_init_into_vec_unsafe":
            x = bb
            for _ in range(8):
                for i, st in enumerate(ctx.body.blocks[x]["s"]):
                    if st[0] == "=" and len(st[1]) > 2 and st[1][1] == "*" and st[2][0] == "arr": return frozenset([("A", ctx, x, i)])
                pr = ctx.body.pred(x)
                if len(pr) != 1: break
                x = pr[0]
            return a(0)
        if nm == "new" and len(args) == 1 and is_std(fn) and any(w in fn for w in ("Box", "Rc", "Arc", "Cell", "Mutex")): return a(0)
        if nm == "take":
            if len(args) == 1: return a(0)
            return frozenset(("M", "take", y) for y in a(0))
        if nm in ("rev", "sort", "sorted"): return frozenset(y if strip(y)[0] in ("K", "R", "B") else ("M", "rev", y) for y in a(0))
        if nm == "enumerate": return frozenset([("T", (frozenset([("K", "index", "i")]), a(0)))])
        if nm == "zip": return frozenset([("T", (a(0), a(1)))])
        if nm == "skip" and len(args) == 2: return frozenset(("M", "skip[" + avs_str(self.expand(a(1))) + "]", y) for y in a(0))
        if nm in PARTIAL: return frozenset(("M", nm, y) for y in a(0))
        if nm in UNION01: return a(0) | a(1)
        if nm in CLORET and clos:
            out = set()
            for c in clos:
                for y in self.local(c, 0):
                    if nm in ("filter_map", "find_map", "map_while", "flat_map") and y == ("K", "none", "Option::None"): continue
                    out.add(("M", nm, y) if nm in ("filter_map", "find_map", "map_while") and nm != "filter_map" else y)
            return frozenset(out)
        if nm in CLORET_PLUS0:
            out = set(a(0))
            for c in clos: out |= self.local(c, 0)
            return frozenset(out)
        if nm in ("map_or", "map_or_else", "fold", "try_fold"):
            out = set(a(1)) if nm != "map_or_else" else set()
            for c in clos: out |= self.local(c, 0)
            return frozenset(x for x in out if not self.is_clo(x))
        if nm == "once" and is_std(fn): return a(0)
        if nm == "then_some": return a(1)
        if nm in ("replace",) and "mem::" in fn: return a(0)
        return frozenset([("R", ctx, bb)])

    # ------------------------------------------------------------ walking
    def walk(self, root):
        """all calls of the inlined call tree (each context once)"""
        out = []; seen = set(); st = [root]
        while st:
            ctx = st.pop()
            if ctx in seen: continue
            seen.add(ctx)
            for bb in self.blocks_of(ctx):
                t = ctx.body.term(bb)
                fn, k, tg = self.resolve(ctx, t[1])
                out.append(Call(self, ctx, bb, fn, k, tg))
                for c, kd in self.sub_contexts(ctx, bb): st.append(c)
        return out
    def stores(self, ctx):
        """assignments through a projection: (bb, idx, place, rv)"""
        for b in sorted(ctx.body.reach):
            for i, s in enumerate(ctx.body.blocks[b]["s"]):
                if s[0] == "=" and len(s[1]) > 1: yield (b, i, s[1], s[2])
            t = ctx.body.term(b)
            if t[0] == "call" and len(t[3]) > 1: yield (b, None, t[3], ["callres"])
    def analyse(self, root):
        """walk, collect container contents, walk again"""
        for rnd in range(2):
            calls = self.walk(root)
            content = {}; pcontent = {}
            ctxs = []
            for c in calls:
                if c.ctx not in ctxs: pass
            seen = set()
            for c in calls:
                if c.name in MUTATORS and not any(t[0] == "local" for t in c.targets) and c.nargs >= 2 and "::str::" not in c.fn:
                    for av in c.arg(0):
                        a = strip(av)
                        if a[0] == "L":
                            for i in range(1, c.nargs): content.setdefault((a[1], a[2]), []).append((c.ctx, c.term[2][i]))
                if c.name == "clone_into" and c.nargs == 2:
                    for av in c.arg(1):
                        a = strip(av)
                        if a[0] == "L": content.setdefault((a[1], a[2]), []).append((c.ctx, c.term[2][0]))
                if c.ctx not in seen:
                    seen.add(c.ctx)
            allctx = {c.ctx for c in calls} | {root}
            for cx in allctx:
                for (bb, i, pl, rv) in self.stores(cx):
                    if pl[1] != "*": continue
                    rest = [e for e in pl[1:] if e != "*"]
                    for av in self.local(cx, pl[0]):
                        a = strip(av)
                        if a[0] != "L": continue
                        if not rest:
                            if rv[0] == "use": content.setdefault((a[1], a[2]), []).append((cx, rv[1]))
                            else: content.setdefault((a[1], a[2]), []).append((cx, {"c": None, "rv": (bb, i, rv)}))
                        elif len(rest) == 1 and isinstance(rest[0], list) and rest[0][0] == "f":
                            pcontent.setdefault((a[1], a[2]), []).append((self.plabel(rest[0])[0], cx, rv, bb, i))
            self.content = {k: [x for x in v if "rv" not in x[1]] for k, v in content.items()}
            self.pcontent = pcontent
            self.rvcontent = {k: [x for x in v if "rv" in x[1]] for k, v in content.items()}
            self.refreshed()
        return self.walk(root)
    def refreshed(self): self.memo.clear()

    # ------------------------------------------------------------ guards
    def guards(self, ctx, bb):
        """atoms controlling execution of (ctx, bb) relative to the entry"""
        out = set()
        c, b = ctx, bb
        while c is not None:
            out |= self.cdep_atoms(c, b)
            b = c.bb; c = c.parent
            if b is None: break
        return out
    def dguards(self, ctx, bb):
        """atoms that hold whenever (ctx, bb) executes (edge dominance, exact inside loops)"""
        out = set(); c, b = ctx, bb
        while c is not None and b is not None:
            for a, ss in self.edge_guards(c, b): out |= self.switch_atoms(c, a, ss)
            b = c.bb; c = c.parent
        return out
    def edge_guards(self, ctx, b): return ctx.body.edge_guards(b)
    def cdep_atoms(self, ctx, b):
        by = {}
        for (a, s) in ctx.body.cdeps(b): by.setdefault(a, set()).add(s)
        out = set()
        for a, ss in by.items():
            if len(ss) < len([x for x in ctx.body.succ(a) if x in ctx.body.returning]) or len(ss) == 1:
                out |= self.switch_atoms(ctx, a, ss)
        return out
    def switch_atoms(self, ctx, a, ss):
        t = ctx.body.term(a)
        if t[0] != "switch": return set()
        vals = [int(v) for v, x in t[2] if x in ss]
        other = t[3] in ss
        return self.cond(ctx, t[1], vals, other, [int(v) for v, _ in t[2]], t[4], a)
    def cond(self, ctx, op, vals, other, listed, ty, bb, depth=0):
        if ty == "bool":
            truth = not (0 in vals) if not (other and 0 in listed) else True
            if other and 0 not in listed: truth = False
            return self.boolean(ctx, op, truth, bb, depth)
        pl = op.get("c") or op.get("m")
        if pl and len(pl) == 1:
            out = set()
            for (db, di, proj, rv) in self.defs_of(ctx, pl[0]):
                if rv[0] == "discr":
                    names = [n for n, v in rv[3]]
                    chosen = [n for n, v in rv[3] if int(v) in vals]
                    if other: chosen += [n for n, v in rv[3] if int(v) not in listed]
                    subj = self.expand(self.place(ctx, rv[1]))
                    kind = "variant"
                    sh = short(rv[2])
                    if sh in ("Option", "Result", "ControlFlow", "Cow") and is_std(rv[2]):
                        kind = "opt"
                        src = rv[1][0]
                        for (d2b, d2i, p2, r2) in self.defs_of(ctx, src):
                            if r2[0] == "callres":
                                f = ctx.body.term(d2b)[1].get("k", {}).get("fn", "")
                                if short(f) in ("next", "next_back"): kind = "iter"
                    out.add(Atom(kind, subj, tuple(sorted(set(chosen))), sh, (), ctx, bb))
                    continue
                out.add(Atom("int", self.expand(self.operand(ctx, op)), (tuple(vals), other), None, (), ctx, bb))
            if out: return out
        return {Atom("int", self.expand(self.operand(ctx, op)), (tuple(vals), other), None, (), ctx, bb)}
    def boolean(self, ctx, op, truth, bb, depth=0):
        if depth > 12: return {Atom("deep")}
        if "k" in op: return set()
        pl = op.get("c") or op.get("m")
        if len(pl) > 1:
            return {Atom("bool", self.expand(self.place(ctx, pl)), truth, None, (), ctx, bb)}
        l = pl[0]
        out = set()
        ds = [d for d in self.defs_of(ctx, l) if not d[2]]
        if not ds and 1 <= l <= ctx.body.argc:
            return {Atom("bool", self.expand(self.local(ctx, l)), truth, None, (), ctx, bb)}
        for (db, di, proj, rv) in ds:
            k = rv[0]
            if k == "callres": out |= self.bool_call(ctx, db, truth, depth)
            elif k == "use":
                o = rv[1]
                if "k" in o:
                    v = o["k"].get("int")
                    if v is not None and (int(v) != 0) == truth and len(ds) > 1:
                        out |= self.cdep_atoms(ctx, db)
                else: out |= self.boolean(ctx, o, truth, bb, depth + 1)
                if len(ds) > 1 and "k" not in o:
                    out |= self.cdep_atoms(ctx, db)
            elif k == "un" and rv[1] == "Not": out |= self.boolean(ctx, rv[2], not truth, bb, depth + 1)
            elif k == "bin":
                if rv[1] in ("BitAnd", "BitOr"):
                    out |= self.boolean(ctx, rv[2], truth, bb, depth + 1) | self.boolean(ctx, rv[3], truth, bb, depth + 1)
                else:
                    out.add(Atom("cmp", EMPTY, truth, rv[1], (self.expand(self.operand(ctx, rv[2])), self.expand(self.operand(ctx, rv[3]))), ctx, bb))
            elif k == "cast": out.add(Atom("other", self.operand(ctx, rv[1]), truth, "cast", (), ctx, bb))
            else: out.add(Atom("other", EMPTY, truth, k, (), ctx, bb))
        return out
    def bool_call(self, ctx, bb, truth, depth):
        t = ctx.body.term(bb)
        fn, k, tg = self.resolve(ctx, t[1])
        inl = [c for c, kd in self.sub_contexts(ctx, bb) if kd == "inline"]
        if inl:
            out = set()
            for c in inl:
                out |= self.ret_bool(c, truth, depth + 1)
                out.add(Atom("via", EMPTY, truth, fn, tuple(self.expand(self.operand(ctx, a)) for a in t[2]), ctx, bb))
            return out
        nm = short(fn)
        if nm in ("is_some", "is_ok", "is_none", "is_err", "is_empty") and is_std(fn):
            return {Atom("test", self.expand(self.operand(ctx, t[2][0])), truth, nm, (), ctx, bb)}
        if nm in ("eq", "ne") and len(t[2]) == 2:
            xs = [self.expand(self.operand(ctx, a)) for a in t[2]]
            for i in (0, 1):
                if len(xs[i]) == 1:
                    av = next(iter(xs[i]))
                    if av[0] == "A":
                        g = self.agg(av)
                        if g[0] == "adt" and not g[4] and g[1] in self.F.adts:
                            allv = [v for v, _ in self.F.adts[g[1]]["variants"]]
                            pos = truth == (nm == "eq")
                            vals = (g[2],) if pos else tuple(sorted(v for v in allv if v != g[2]))
                            return {Atom("variant", xs[1 - i], vals, short(g[1]), (), ctx, bb)}
            return {Atom("call", EMPTY, truth == (nm == "eq"), "eq", tuple(sorted(xs, key=avs_str)), ctx, bb)}
        out = {Atom("call", EMPTY, truth, fn, tuple(self.expand(self.operand(ctx, a)) for a in t[2]), ctx, bb)}
        # any/all/is_some_and/map_or: the predicate closure's conditions take part
        for c, kd in self.sub_contexts(ctx, bb):
            if kd == "closure": out |= self.ret_bool(c, truth if nm != "map_or" else truth, depth + 1)
        return out
    def ret_bool(self, c, truth, depth):
        return self.boolean(c, {"c": [0]}, truth, None, depth)
