"""Obligations, violations and evidence of one check run."""
class Report:
    def __init__(self, pid):
        self.pid = pid; self.obl = {}; self.viol = {}; self.fns = set(); self.notes = {}; self.rules = []
        self.sites = 0
    def fn(self, b): self.fns.add(b.id)
    def ok(self, key, where=""):
        if key not in self.obl: self.obl[key] = (True, where)
    def bad(self, key, msg, where=""):
        self.obl[key] = (False, where)
        if key not in self.viol: self.viol[key] = (msg, where)
    def req(self, cond, key, msg, where=""):
        if cond: self.ok(key, where)
        else: self.bad(key, msg, where)
        return cond
    def count(self, k, n=1): self.notes[k] = self.notes.get(k, 0) + n
    def floor(self, what, n, least):
        """instance-count floor: fewer instances than confirmed by hand means the rule lost its subject"""
        self.notes[what] = n
        self.req(n >= least, f"floor:{what}", f"only {n} {what} found (at least {least} were confirmed on the reference tree): the rule no longer sees its subject", "")
    def rule(self, text): self.rules.append(text)
