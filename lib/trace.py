"""Histories of operations, as the trace specifications read them."""
class Rec:
    def __init__(self, name, now=0, durable=False, **meta):
        self.name = name; self.ops = []; self.nows = [now]; self.meta = dict(meta, durable=durable)
        self.dirty = False       # a return happened in the current step
        self.fresh = True        # nothing recorded in the current step yet
    @property
    def s(self): return len(self.nows)
    def step(self, now=None):
        self.nows.append(self.nows[-1] if now is None else now); self.dirty = False; self.fresh = True
    def time(self, now):
        if self.nows[-1] != now:
            if self.fresh and not any(o["r"] is None for o in self.ops[-40:]): self.nows[-1] = now
            else: self.step(now)
    def call(self, k, **a):
        if self.dirty: self.step()
        o = dict(k=k, c=self.s, r=None, **a); self.ops.append(o); self.fresh = False
        return o
    def ret(self, o, **a):
        o.update(a); o["r"] = self.s; self.dirty = True; self.fresh = False; return o
    def one(self, k, **a):
        """an event alone in its own step"""
        if not self.fresh: self.step()
        o = self.call(k, **a); self.ret(o); self.step(); return o
    def lost(self, o, w=None):
        """the request will never be answered: it may take effect up to now"""
        o["w_"] = o.get("w_", o["k"]); o["r"] = self.s; o["lost"] = True
        self.dirty = True
    def drop(self, o): self.ops = [x for x in self.ops if x is not o]
    def export(self):
        n = len(self.nows)
        steps = [dict(now=t, open=[], close=[]) for t in self.nows]
        ops = []
        for o in self.ops:
            assert o["r"] is not None, o
            ops.append(o); i = len(ops)
            for s in range(o["c"], o["r"] + 1): steps[s - 1]["open"].append(i)
            if not o.get("lost"): steps[o["r"] - 1]["close"].append(i)
        return dict(self.meta, name=self.name, steps=steps, ops=ops)
