"""Scenario tables: a function analysed under fixed facts about its input (attribute shapes, names compared,
variants, options); what stays reachable is compared with what the scenario calls for."""
from .mir import short
from .flow import strip, av_str, is_std
from .rules_io import SAn, strs

def hooks(*hs):
    hs = [h for h in hs if h]
    def hook(e, c):
        for h in hs:
            v = h(e, c)
            if v is not None: return v
    return hook
def bools(**kw):
    """results of named predicates"""
    return lambda e, c: {("i", int(kw[c.name]))} if c.name in kw and kw[c.name] in (0, 1, True, False) else None
def idents(names):
    """which names the attribute path is"""
    def h(e, c):
        if c.name == "is_ident" and c.nargs == 2:
            n = strs(c.earg(1))
            if n: return {("i", int(x in names)) for x in n}
    return h
def text(value, only=None):
    """outcome of comparing any text with a constant"""
    def h(e, c):
        if c.name in ("eq", "ne") and c.nargs == 2 and is_std(c.fn):
            ks = [strs(c.earg(0)), strs(c.earg(1))]
            k = [x for x in ks if x]
            if len(k) == 1 and len(k[0]) == 1:
                return {("i", int((next(iter(k[0])) == value) == (c.name == "eq")))}
    return h
def option(name, state):
    return lambda e, c: {("v", state)} if c.name == name else None

def sinks(an, fields, names=("push", "try_insert", "insert", "extend", "extend_from_slice", "append")):
    """live calls that add to one of the named collection fields: {(field, call)}"""
    out = []
    for c in an.live_calls():
        if c.name not in names or not c.nargs: continue
        for a in c.earg(0):
            x = strip(a)
            if x[0] == "P" and x[2] and x[2][-1] in fields: out.append((x[2][-1], c))
    return out
