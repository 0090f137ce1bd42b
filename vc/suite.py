"""Common parts of the per-property suites: confirmation of failed obligations on the real code."""
import os, time
from . import ast as A
from .core import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ["clang 18 AST of the current source is what the compiler compiles (tools/astx.cpp exports it mechanically)",
         "vc/core.py statement and expression semantics", "z3 5.3 / cvc5 1.1.2"]


class BaseSuite:
    PROPS = ()
    TU = None             # translation unit exported
    HARNESS = None        # (name, main.cpp, [sources])
    TRUST = TRUST
    ASSUME = []
    FIDELITY_S = 4
    SAN = True            # or "thread"
    BATCH = 2000
    known_seen = ()

    def __init__(self, tier):
        self.tier = tier
        self._a = None

    @property
    def a(self):
        if self._a is None: self._a = A.export(self.TU if os.path.isabs(self.TU) else (f"{VERIF}/{self.TU}" if self.TU.startswith("drivers/") else f"{A.REPO}/{self.TU}"))
        return self._a

    def relevant(self, prop, ob):
        return ob["tag"] == prop or ob["tag"] in ("safety", "ub", "termination")

    def prepare(self):
        from . import harness as H
        name, main, srcs = self.HARNESS
        self.exe = H.build(name, f"{VERIF}/{main}", [f"{A.REPO}/{s}" for s in srcs], san=self.SAN)

    # -- to be provided: gen(prop, rng, hints) -> iterator of input lines; judge(prop, line, out) -> None or problem text
    def search(self, prop, seconds, rng, hints=()):
        from . import harness as H
        end = time.time() + seconds
        tried = 0
        gen = self.gen(prop, rng, hints)
        done = False
        self.known_seen = []
        while not done and time.time() < end:
            batch = []
            for t in gen:
                batch.append(t)
                if len(batch) >= self.BATCH: break
            else: done = True
            if not batch: break
            res = H.run_batch(self.exe, batch)
            for t, g in zip(batch, res):
                if g is None: continue
                tried += 1
                d = self.judge(prop, t, g)
                if d:
                    k = self.match_known(t, d)
                    if k is not None:
                        if k not in self.known_seen: self.known_seen.append(k)
                        continue
                    t, d = self.shrink(prop, t, d)
                    return {"input": t, "problem": d, "how_to_replay": f"one line of input to {self.HARNESS[1]} built with {', '.join(self.HARNESS[2])}"}, tried
        return None, tried

    def match_known(self, line, problem):
        for k in getattr(self, "known", ()):
            if k.get("input") is not None and k["input"] == line: return k
        return None

    def shrink(self, prop, t, d): return t, d

    def hints(self, failed):
        return [h for f in failed for h in f.get("hints", [])]
