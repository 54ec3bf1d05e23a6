"""Traversal coverage: every type-bearing position of an item reaches the pass's sink."""
import re
from .mir import short, strip_generics
from .flow import Engine, strip, marks, avs_str, av_str

TRANSPARENT = {"Vec", "Option", "Box", "Rc", "Arc", "Cow", "RefCell", "VecDeque", "IndexSet", "HashSet", "BTreeSet"}
MAPS = {"HashMap", "IndexMap", "BTreeMap"}

def split_args(s):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([": d += 1
        elif c in ")]" or (c == ">" and s[i-1] != "-"): d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def parse_ty(s):
    s = s.strip()
    while s.startswith("&"):
        s = re.sub(r"^&('[a-z_]+ )?(mut )?", "", s).strip()
    if s.startswith("("): return ("()", split_args(s[1:-1]))
    m = re.match(r"^([\w:]+)<(.*)>$", s)
    if m: return (m.group(1), [a for a in split_args(m.group(2)) if not a.startswith("'")])
    return (s, [])

class Shape:
    """type structure of the crate's data types"""
    def __init__(self, facts, bases):
        self.F = facts; self.bases = set(bases); self.skip = set()
        self.byid = facts.adts
        self.maplabels = set()
        for a in facts.adts.values():
            if a['kind'] == 'enum': VARIANTS.setdefault(short(a['id']), {v for v, _ in a['variants']})
            for v, fs in a["variants"]:
                for f, ty, _ in fs:
                    h, args = parse_ty(ty)
                    while short(h) in TRANSPARENT and args: h, args = parse_ty(args[0])
                    if short(h) in MAPS: self.maplabels.add(self.lab(a, v, f))
        self._carrier = {}
    @staticmethod
    def lab(adt, var, f):
        n = short(adt["id"])
        return f"{n}::{var}.{f}" if var != n else f"{n}.{f}"
    def positions(self, ty):
        """[(path suffix, adt id, args)] of local ADTs inside std wrappers of ty"""
        h, args = parse_ty(ty)
        sh = short(h)
        if h == "()":
            r = []
            for i, a in enumerate(args):
                for s, t, g in self.positions(a): r.append(((f"().{i}",) + s, t, g))
            return r
        if h in self.byid: return [((), h, args)]
        if sh in TRANSPARENT and args: return self.positions(args[0])
        if sh in MAPS and len(args) >= 2: return self.positions(args[1])
        return []
    def fields(self, adtid, args):
        """[(label, variant, field, ty)] with generics substituted (single parameter T)"""
        a = self.byid[adtid]
        for v, fs in a["variants"]:
            for f, ty, _ in fs:
                if args: ty = re.sub(r"(?<![\w:])T(?!\w)", lambda m: args[0], ty)
                yield self.lab(a, v, f), v, f, ty
    def carries(self, adtid, args=(), seen=()):
        n = short(adtid)
        if n in self.bases: return True
        key = (adtid, tuple(args))
        if key in self._carrier: return self._carrier[key]
        if key in seen: return False
        r = False
        for lab, v, f, ty in self.fields(adtid, args):
            if lab in self.skip: continue
            for s, t, g in self.positions(ty):
                if self.carries(t, g, seen + (key,)): r = True; break
            if r: break
        if r or not seen: self._carrier[key] = r
        return r
    def norm(self, path):
        out = []
        for p in path:
            if p == "().1" and out and out[-1] in self.maplabels: continue
            out.append(p)
        return tuple(out)

def self_paths(avs, root=0, shape=None):
    """[(path, marks)] of the values read from argument `root`"""
    r = []
    for a in avs:
        m = marks(a); b = strip(a)
        if b[0] == "P" and b[1] == ("arg", root):
            r.append((shape.norm(b[2]) if shape else b[2], m))
    return r

class Sink:
    def __init__(self, call, path, mk): self.call = call; self.path = path; self.marks = mk

def residual(shape, call, path, allow, root=0):
    """atoms guarding the call that neither belong to walking `path` nor are allowed"""
    out = []
    for a in call.guards():
        if a.kind in ("iter", "via"): continue
        if a.kind in ("variant", "opt", "test", "bool"):
            ps = self_paths(a.subj, root, shape)
            if ps and len(ps) == len(a.subj) and a.kind != "bool":
                ok = True
                for p, m in ps:
                    if path[:len(p)] != p: ok = False; break
                    if a.kind == "variant" and len(path) > len(p):
                        nx = path[len(p)]
                        if "::" in nx:
                            v = nx.split("::")[1].rsplit(".", 1)[0]
                            if v not in a.val: ok = False
                    # a test of the visited value itself leaves some of its values out
                    if a.kind == "variant" and len(path) == len(p) and not (VARIANTS.get(a.fn) and VARIANTS[a.fn] <= set(a.val)): ok = False
                    if a.kind == "opt" and not (set(a.val) & {"Some", "Ok", "Continue", "Borrowed", "Owned"}): ok = False
                    if a.kind == "test" and a.val != (a.fn in ("is_some", "is_ok")): ok = False
                if ok: continue
        if allow and allow(a): continue
        out.append(a)
    return out

def atom_key(a):
    return (a.kind, a.fn, avs_str(a.subj), tuple(avs_str(x) for x in a.args))

VARIANTS = {"Option": {"Some", "None"}, "Result": {"Ok", "Err"}}

def tautology(clauses):
    """clauses: list of frozenset of (key, val); True if some disjunct is empty after merging complements"""
    cl = set(clauses)
    while True:
        if frozenset() in cl: return True
        new = set()
        L = list(cl)
        for i in range(len(L)):
            for j in range(i + 1, len(L)):
                d = L[i] ^ L[j]
                if len(d) == 2:
                    (k1, v1), (k2, v2) = d
                    if k1 != k2: continue
                    if v1 is True and v2 is False or v1 is False and v2 is True: x = L[i] & L[j]
                    elif isinstance(v1, tuple) and isinstance(v2, tuple) and k1[0] in ("variant", "opt"):
                        u = set(v1) | set(v2)
                        full = VARIANTS.get(k1[1])
                        x = L[i] & L[j]
                        if not (full and full <= u): x = x | {(k1, tuple(sorted(u)))}
                    else: continue
                    if x not in cl: new.add(x)
        if not new: return False
        cl |= new

class Coverage:
    """one pass family"""
    def __init__(self, facts, rep, family, bases, allow=None, skip=(), sinkself=0, delegates=None, extra_stop=()):
        self.F = facts; self.rep = rep
        self.family = set(family)          # method names that continue the traversal
        self.shape = Shape(facts, bases)
        self.allow = allow; self.skip = set(skip)
        self.shape.skip = self.skip
        self.extra_stop = set(extra_stop)
        self.done = set(); self.queue = []
        self.methods = 0; self.sinks = 0
    def stop(self, body, ctx):
        return body.name in self.family or body.name in self.extra_stop
    def impls(self, adtid):
        return [b for b in self.F.bodies.values() if b.kind == "fn" and b.name in self.family
                and strip_generics(b.j.get("impl_self", "")) == adtid]
    def run(self, body, adtid, args=(), root=0, skip_fields=(), base_paths=(), only=None, desc=None):
        """check `body`, whose argument `root` is (a reference to) the ADT"""
        eng = Engine(self.F, stop=lambda b, c: self.stop(b, c) and b is not body)
        calls = eng.analyse(eng.entry(body))
        sinks = []
        for c in calls:
            if c.name in self.family and c.targets and c.nargs:
                for p, m in self_paths(c.earg(0), root, self.shape):
                    sinks.append(Sink(c, p, m))
            # recursive call of the method under analysis or of family methods through trait objects
        self.sinks += len(sinks); self.methods += 1
        self.rep.fn(body)
        self.eng = eng; self.calls = calls
        desc = desc or f"{short(adtid)}::{body.name}"
        a = self.byid(adtid)
        for lab, v, f, ty in self.shape.fields(adtid, args):
            if only is not None and lab not in only: continue
            if lab in self.skip or lab in skip_fields: continue
            for s, t, g in self.shape.positions(ty):
                if not self.shape.carries(t, g): continue
                self.need(desc, body, (lab,) + s, t, g, sinks, root)
        return sinks
    def byid(self, i): return self.F.adts[i]
    def need(self, desc, body, path, t, g, sinks, root, depth=0):
        path = self.shape.norm(path)
        hit = [s for s in sinks if s.path == path]
        pstr = "/".join(path)
        key = f"{desc}:{pstr}"
        if hit:
            full = [s for s in hit if not [m for m in s.marks if m != 'rev']]
            if not full:
                self.rep.bad(key, f"only part of {pstr} is visited ({','.join(hit[0].marks)}) at {hit[0].call.span}", hit[0].call.span)
                return
            cl = []
            for s in full:
                r = residual(self.shape, s.call, path, self.allow, root)
                cl.append(frozenset((atom_key(a), a.val) for a in r))
            if tautology(cl):
                self.rep.ok(key, full[0].call.span)
                for s in full:
                    for tg in s.call.targets:
                        if tg[0] == "local": self.enqueue(tg[1])
            else:
                rs = min(cl, key=len)
                self.rep.bad(key, f"{pstr} is visited only under: " + "; ".join(f"{k[0]} {k[1] or ''}({k[2]}{','.join(k[3])})={v}" for k, v in sorted(rs, key=str)), full[0].call.span)
            return
        if short(t) in self.shape.bases or depth > 6:
            self.rep.bad(key, f"{pstr} ({short(t)}) is never visited by {desc} or its helpers", body.j["span"])
            return
        any_ = False
        if not any(s.path[:len(path)] == path for s in sinks):
            # nothing below this position is visited: one obligation, not one per leaf
            self.rep.bad(key, f"{pstr} ({short(t)}) is never visited by {desc} or its helpers", body.j["span"])
            return
        for lab, v, f, ty in self.shape.fields(t, g):
            if lab in self.skip: continue
            for s, t2, g2 in self.shape.positions(ty):
                if self.shape.carries(t2, g2):
                    any_ = True
                    self.need(desc, body, path + (lab,) + s, t2, g2, sinks, root, depth + 1)
    def enqueue(self, body):
        if body.id in self.done: return
        self.done.add(body.id); self.queue.append(body)
    def drain(self, special=None):
        while self.queue:
            b = self.queue.pop()
            if special and special(b, self): continue
            t = strip_generics(b.j.get("impl_self", ""))
            if t not in self.F.adts:
                self.rep.bad(f"{b.id}:receiver", f"cannot identify the type visited by {b.id}", b.j["span"]); continue
            self.run(b, t)
