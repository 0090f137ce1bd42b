"""C07: the operators' truth rule (vc/ops.py) and the evaluation of and/or (vc/ev.py)."""
from . import ops, ev
from .suite import BaseSuite


class Suite(BaseSuite):
    PROPS = ("C07",)
    def __init__(self, tier):
        super().__init__(tier)
        self.o, self.e = ops.Suite(tier), ev.Suite(tier)
        self.ASSUME = self.o.ASSUME + self.e.ASSUME; self.TRUST = list(dict.fromkeys(self.o.TRUST + self.e.TRUST))
        self.BOUNDED = "; ".join(b for b in (self.o.BOUNDED, self.e.BOUNDED) if b) if getattr(self.o, "BOUNDED", None) else self.e.BOUNDED
    def tasks(self, prop): return self.o.tasks(prop) + self.e.tasks(prop)
    def prepare(self):
        err = None
        for s in (self.o, self.e):
            try: s.prepare()
            except Exception as x: err = x; s.exe = None
        if self.o.exe is None and self.e.exe is None: raise err
    def search(self, prop, seconds, rng, hints=()):
        n = 0
        for s in (self.o, self.e):
            if s.exe is None: continue
            s.known = getattr(self, "known", ())
            r, k = s.search(prop, seconds / 2, rng, hints)
            n += k
            self.known_seen = list(self.known_seen) + list(s.known_seen)
            if r is not None: return r, n
        return None, n


def model_hints(model):
    try: return ops.model_hints(model)
    except Exception: return []
