"""C13 error flow: the error of every fallible call reaches a return, a panic, an exit or (reviewed kinds only) a log."""
import re
from .mir import short, strip_generics, _places
from .rules_global import callee, op_place

RES = re.compile(r"^std::result::Result<")
PANIC = set("unwrap expect unwrap_err expect_err unwrap_unchecked".split())
FOLLOW = set("map_err map and_then or_else or and inspect_err inspect as_ref as_mut as_deref copied cloned transpose clone into_iter".split())
SWALLOW = set("ok unwrap_or unwrap_or_default unwrap_or_else is_ok is_err is_ok_and is_err_and iter flatten map_or map_or_else err into_ok".split())
# a failing query is an answer, not a failed operation
QUERY = re.compile(r"^(std::env::VarError|std::num::Parse(Int|Float)Error|std::num::IntErrorKind|std::num::TryFromIntError|std::str::ParseBoolError|std::char::ParseCharError|usize|clap::parser::MatchesError|clap::parser::error::MatchesError|std::path::StripPrefixError|<T as std::str::FromStr>::Err|std::convert::Infallible|!|std::fmt::Error)$")
LOADERR = ("std::string::String", "syn::Error")      # one item (or attribute) of the source could not be used: logged, generation continues

def split_args(s):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([{": d += 1
        elif c in ">)]}" and not (c == ">" and i and s[i-1] == "-"): d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
def err_ty(ty):
    m = re.match(r"^(?:&(?:'[a-z_0-9]+ )?(?:mut )?)*std::result::Result<(.*)>$", ty)
    if not m: return None
    a = split_args(m.group(1))
    return a[1] if len(a) == 2 else None

def uses(body):
    """local -> [(kind, bb, idx, detail)]"""
    if hasattr(body, "_uses"): return body._uses
    u = {}
    for bb in body.reach:
        blk = body.blocks[bb]
        for i, s in enumerate(blk["s"]):
            if s[0] != "=": continue
            ps = []; _places(s[2], ps)
            if s[2][0] in ("ref", "discr", "len", "rawref") and isinstance(s[2][1], list): ps.append(s[2][1])
            for x in s[2][1:]:
                if isinstance(x, list) and len(x) == 1 and isinstance(x[0], int): ps.append(x)
            for p in ps: u.setdefault(p[0], []).append(("stmt", bb, i, (p, s)))
        t = blk["t"]
        if t[0] == "call":
            for ai, o in enumerate(t[2]):
                p = op_place(o)
                if p: u.setdefault(p[0], []).append(("call", bb, ai, (p, t)))
        elif t[0] == "switch":
            p = op_place(t[1])
            if p: u.setdefault(p[0], []).append(("switch", bb, None, (p, t)))
    body._uses = u
    return u

LOGFN = re.compile(r"(^|::)(log|_eprint|__private_api::log|log_impl)$")
def is_log(fn, k=None):
    """a log macro: its level test counts, since the filter is the user's choice"""
    if k and str(k.get("self", "")).startswith("log::Level") and short(fn) in ("le", "ge", "lt", "gt", "partial_cmp", "eq"): return True
    return bool(LOGFN.search(fn)) or fn.startswith("log::")

class Flow:
    def __init__(self, F): self.F = F; self.memo = {}; self.lg = {}
    def logs(self, b, depth=0):
        """the function logs on every returning path (helpers included)"""
        if b.id in self.lg: return self.lg[b.id]
        self.lg[b.id] = False
        r = b.returning and not self.escapes(b, [0], set(), True, depth + 1) if depth < 4 else False
        self.lg[b.id] = bool(r)
        return self.lg[b.id]
    def handled_block(self, b, x, allow_log, depth):
        blk = b.blocks[x]
        for s in blk["s"]:
            if s[0] == "=" and s[2][0] == "adt" and s[2][2] == "Err" and strip_generics(s[2][1]).endswith("Result"): return True
        t = blk["t"]
        if t[0] == "call":
            fn, res, k = callee(t)
            if short(fn) == "from_residual": return True
            if allow_log:
                if is_log(fn, k): return True
                tb = self.F.bodies.get(res) or self.F.bodies.get(fn)
                if tb is not None and depth < 4 and self.logs(tb, depth): return True
        return False
    def escapes(self, b, starts, stop, allow_log, depth=0):
        """a path from `starts` to a return (or back to `stop`) without handling; blocks on it"""
        seen = set(starts); st = list(starts)
        while st:
            x = st.pop()
            if x not in b.returning: continue          # diverges: panic or exit
            if self.handled_block(b, x, allow_log, depth): continue
            if b.term(x)[0] == "ret": return True
            for s in b.succ(x):
                if s in stop: return True
                if s not in seen: seen.add(s); st.append(s)
        return False
    def log_edge_ok(self, b, starts):
        """log levels below `warn` may be filtered; the statement only asks for a logged diagnostic"""
        return True
    def fate(self, b, l, ety, allow_log, seen=None):
        """set of problems ('dropped' | 'swallowed:<fn>' | 'ignored-branch') for a Result held in local l"""
        seen = seen if seen is not None else set()
        if (b.id, l) in seen: return set()
        seen.add((b.id, l))
        if l == 0: return set()
        us = uses(b).get(l, [])
        probs = set(); good = False; any_use = False
        for kind, bb, i, (p, x) in us:
            any_use = True
            if kind == "call":
                t = x; fn, res, k = callee(t); nm = short(fn)
                if nm == "branch" or nm in PANIC: continue
                if nm in ("drop", "forget", "drop_in_place"): probs.add("dropped"); continue
                tb = self.F.bodies.get(res) or self.F.bodies.get(fn)
                if tb is not None and tb.argc > i:
                    probs |= self.fate(tb, i + 1, ety, allow_log, seen); continue
                if nm in FOLLOW:
                    if len(t[3]) == 1: probs |= self.fate(b, t[3][0], ety, allow_log, seen)
                    continue
                if nm in SWALLOW:
                    if nm == "unwrap_or_else" and self.closure_logs(b, t, allow_log): continue
                    if nm == "map_or_else" and self.closure_logs(b, t, allow_log): continue
                    if nm in ("is_err", "is_ok") and self.bool_handled(b, t, nm, allow_log): continue
                    if nm == "ok" and len(t[3]) == 1 and self.option_handled(b, t[3][0], allow_log): continue
                    probs.add(f"swallowed by {nm}"); continue
                # handed to something else whole (collected, stored, formatted)
                continue
            if kind == "stmt":
                st = x; rv = st[2]
                if rv[0] == "discr" and len(p) == 1 or (rv[0] == "discr" and all(e == "*" for e in p[1:])):
                    d = st[1][0]
                    for k2, b2, i2, (p2, t2) in uses(b).get(d, []):
                        if k2 != "switch": continue
                        names = {n: int(v) for n, v in rv[3]}
                        errt = [tg for v, tg in t2[2] if int(v) == names.get("Err", 1)] or [t2[3]]
                        okt = [tg for v, tg in t2[2] if int(v) == names.get("Ok", 0)] or [t2[3]]
                        if errt == okt: probs.add("ignored branch"); continue
                        if self.escapes(b, errt, {b2}, allow_log): probs.add("ignored branch")
                    continue
                if rv[0] in ("use", "ref", "cast") and len(p) == 1 and len(st[1]) == 1:
                    probs |= self.fate(b, st[1][0], ety, allow_log, seen); continue
                if len(p) > 1: continue        # payload access behind a discriminant test
                continue
        if not any_use: probs.add("dropped")
        return probs
    def closure_logs(self, b, t, allow_log):
        """the fallback closure logs or diverges"""
        for o in t[2][1:]:
            p = op_place(o)
            if p is None:
                fnid = o.get("k", {}).get("fn"); tb = self.F.bodies.get(fnid)
                if tb is not None and (not tb.returning or (allow_log and self.logs(tb))): return True
                continue
            for (bb, i, proj, rv) in b.defs.get(p[0], ()):
                if rv[0] == "closure":
                    tb = self.F.bodies.get(rv[1])
                    if tb is not None and (not tb.returning or (allow_log and self.logs(tb))): return True
            ty = b.locals[p[0]]
            for c in self.F.children.get(b.id, ()):
                pass
        return False
    def bool_handled(self, b, t, nm, allow_log):
        d = t[3][0]
        for k2, b2, i2, (p2, t2) in uses(b).get(d, []):
            if k2 != "switch": continue
            zero = [tg for v, tg in t2[2] if int(v) == 0]
            one = [tg for v, tg in t2[2] if int(v) != 0] or [t2[3]]
            errt = zero if nm == "is_ok" else one
            if not self.escapes(b, errt, {b2}, allow_log): return True
        return False
    def option_handled(self, b, l, allow_log):
        """`.ok()` followed by a handled None (ok_or, expect, match with an error arm)"""
        for kind, bb, i, (p, x) in uses(b).get(l, []):
            if kind == "call":
                fn, res, k = callee(x); nm = short(fn)
                if nm in ("unwrap", "expect", "ok_or", "ok_or_else"): return True
            elif kind == "stmt" and x[2][0] == "discr":
                d = x[1][0]
                for k2, b2, i2, (p2, t2) in uses(b).get(d, []):
                    if k2 != "switch": continue
                    names = {n: int(v) for n, v in x[2][3]}
                    nt = [tg for v, tg in t2[2] if int(v) == names.get("None", 0)] or [t2[3]]
                    if not self.escapes(b, nt, {b2}, allow_log): return True
            elif kind == "stmt" and x[2][0] in ("use",) and len(x[1]) == 1:
                if self.option_handled(b, x[1][0], allow_log): return True
        return False

def skip_body(b):
    return b.kind != "fn" or b.j.get("derived") or "::_::" in b.id or "_serde" in b.id

def c13(F, rep):
    rep.rule("for every call whose result is a Result: the value is returned, propagated with ?, unwrapped, or branched on with an error side that returns an error, panics or exits; "
             "errors of loading a single source item (String, syn::Error) may instead be logged on every path of the error side; a failing lookup (environment variable, number or attribute parse used as a test, clap query, binary search) is an answer and exempt; "
             "parsing a whole file is never a mere lookup; buffered writers to files are flushed before they are dropped; the status or the output of a started process decides an error")
    fl = Flow(F); n = 0
    LOGGED_OK = {"cargo_lock::Error"}     # a missing lock file only narrows dependency search; documented, warned
    for b in F.bodies.values():
        if skip_body(b): continue
        rep.fn(b)
        for bb in b.calls:
            t = b.term(bb); fn, res, k = callee(t)
            if len(t[3]) != 1: continue
            ety = err_ty(b.locals[t[3][0]])
            if ety is None: continue
            if short(fn) in FOLLOW and fn.startswith(("std::", "core::")) and t[2]:
                p = op_place(t[2][0])
                if p and err_ty(b.locals[p[0]]): continue        # continuation of an earlier value
            whole = short(fn) in ("parse_file",) or "syn::File" in b.locals[t[3][0]]
            if QUERY.match(ety): rep.count("queries"); continue
            if ety == "syn::Error" and not whole:
                rep.count("attribute_queries")
                continue
            n += 1
            allow_log = ety == "std::string::String" or any(ety.endswith(x) for x in LOGGED_OK)
            if ety == "std::string::String" and short(strip_generics(b.locals[t[3][0]].split("<", 1)[1].split(",")[0])) == "Config": allow_log = False
            pr = fl.fate(b, t[3][0], ety, allow_log)
            if pr == {"ignored branch"} and none_reported(F, fl, b): pr = set()
            if pr and any(w in root_id(F, b) and strip_generics(res).endswith(c) for w, c in REVIEWED): pr = set()
            key = f"result:{b.id}:{short(fn)}:{ety}"
            rep.req(not pr, key, f"{short(root_id(F, b))}: the error of {fn} is {', '.join(sorted(pr))}", t[5])
    # swallowing adaptors applied where no call result is in sight (closure parameters, iterators of results)
    for b in F.bodies.values():
        if skip_body(b): continue
        for bb in b.calls:
            t = b.term(bb); fn, res, k = callee(t)
            nm = short(fn)
            for o in t[2]:
                p = op_place(o)
                if p is None:
                    f = o.get("k", {}).get("fn", "")
                    if re.match(r"^std::result::Result(::)?<.*>::(ok|unwrap_or_default|is_ok|err)$", f) or re.match(r"^std::result::Result::(ok|unwrap_or_default|is_ok)$", strip_generics(f)):
                        m = re.search(r"Result::?<(.*)>::", f); e = split_args(m.group(1))[-1] if m else ""
                        if not (QUERY.match(e) or e == "syn::Error"):
                            rep.bad(f"adaptor:{b.id}:{nm}", f"{short(b.id)} passes {f} to {nm}: errors of a sequence are dropped", t[5])
            if nm == "flatten" and len(t[3]) == 1 and "Result<" in b.locals[t[3][0]] and "Iterator" in fn:
                m = [e for e in re.findall(r"Result<[^<>]*(?:<[^<>]*>[^<>]*)*, ([A-Za-z_:]+)>", b.locals[t[3][0]])]
                if any(not QUERY.match(e) and e != "syn::Error" for e in m): rep.bad(f"adaptor:{b.id}:flatten", f"{short(b.id)} flattens a sequence of results", t[5])
        # Result parameters of closures
        if b.is_closure:
            for l in range(1, b.argc + 1):
                ety = err_ty(b.locals[l])
                if ety and not QUERY.match(ety) and ety != "syn::Error":
                    pr = fl.fate(b, l, ety, ety == "std::string::String")
                    rep.req(not pr, f"closure:{b.id}:{l}", f"{short(root_id(F, b))}: a closure's {ety} is {', '.join(sorted(pr))}", b.j["span"])
    flush(F, rep); process(F, rep)
    rep.floor("fallible_calls", n, 140)

# (where, callee): bitflags - the struct expanded from the same attributes is loaded afterwards and reports the same error;
# OpaqueItem - the fallback after a load of the same attributes that already failed and was logged
REVIEWED = [("bitflags", "Repr::load"), ("OpaqueItem", "AnnotationSet::load")]

def none_reported(F, fl, b):
    """b answers None on failure and every caller reports a None"""
    if not b.locals[0].startswith("std::option::Option<"): return False
    sites = [(c, x) for c in F.bodies.values() if c.kind == "fn" for x in c.calls if callee(c.term(x))[1] == b.id]
    def ok(c, l):
        if fl.option_handled(c, l, True): return True
        for kind, bb, i, (p, x) in uses(c).get(l, []):
            if kind == "stmt" and x[2][0] in ("ref", "use") and len(x[1]) == 1 and ok(c, x[1][0]): return True
            if kind == "call" and short(callee(x)[0]) in ("is_none", "is_some") and fl.bool_handled(c, x, "is_ok" if short(callee(x)[0]) == "is_some" else "is_err", True): return True
        return False
    return bool(sites) and all(len(c.term(x)[3]) == 1 and ok(c, c.term(x)[3][0]) for c, x in sites)

def root_id(F, b):
    while b.is_closure and b.parent in F.bodies: b = F.bodies[b.parent]
    return b.id

def flush(F, rep):
    n = 0
    for b in F.bodies.values():
        if skip_body(b): continue
        for bb in b.calls:
            t = b.term(bb); fn, res, k = callee(t)
            if not (short(fn) in ("new", "with_capacity") and "BufWriter" in fn or "LineWriter" in fn and short(fn) == "new"): continue
            n += 1
            fl = [x for x in b.calls if short(callee(b.term(x))[0]) in ("flush", "into_inner", "into_parts")]
            bad = avoid(b, bb, set(fl))
            rep.req(not bad, f"flush:{b.id}", f"{short(b.id)}: a buffered writer is dropped without flushing, so a failed write is lost", t[5])
    rep.notes["buffered_writers"] = n

def avoid(b, start, blocks):
    """a return is reachable from start without passing `blocks`"""
    st = [s for s in b.succ(start)]; seen = set(st)
    while st:
        x = st.pop()
        if x in blocks or x not in b.returning: continue
        if b.term(x)[0] == "ret": return True
        for s in b.succ(x):
            if s not in seen: seen.add(s); st.append(s)
    return False

def process(F, rep):
    """every started process: its output's status or stdout decides between success and an error"""
    from .q import An
    from .flow import avs_str
    n = 0
    for b in F.bodies.values():
        if skip_body(b) or b.is_closure: continue
        has = [bb for bb in b.calls if re.search(r"process::Command::(output|status|spawn)$", callee(b.term(bb))[0])]
        for bb in has:
            n += 1
            an = An(F, b, (), rep)
            tests = [c for c in an.calls if c.name in ("success", "is_empty", "code") and c.nargs and any(w in avs_str(c.earg(0)) for w in ("Output", "call:output", "call:status", "call:from_utf8"))]
            rep.req(bool(tests) or none_reported(F, Flow(F), b), f"process:{b.id}", f"{short(b.id)}: neither status nor output of the started process is examined", b.term(bb)[5])
    rep.floor("processes", n, 3)
