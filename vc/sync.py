"""C26: the string pool under concurrency, by lock ownership.

Every plain field of StringPool is owned by the mutex: reading it needs the lock (shared or exclusive), writing it the exclusive
lock. Whenever a thread gets the lock, the fields have changed arbitrarily, except that the class invariant of C12 holds and that
entries are only ever added (rely); whoever held the lock exclusively must have kept to that (guarantee). Every operation ends in one
critical section which meets the operation's sequential contract for the state at its beginning, and changes nothing outside of
it: the section is where the operation takes effect (linearization point). Hence every schedule equals a sequential one."""
import z3
from .core import *
from . import sp, builtins as BI
from .sp import Pool, SP, THIS, OTHER, LIMIT, FIRST, IA, qall, AMap
from .builtins import LOWER
from .suite import BaseSuite, TRUST

LOCKS = {"std::unique_lock": 2, "std::lock_guard": 2, "std::scoped_lock": 2, "std::shared_lock": 1}


class LockV(V):
    """a lock object: what it locks, how, and whether it owns it now (None: as soon as it is a variable)"""
    def __init__(self, mutexes, mode, owned): self.mutexes, self.mode, self.owned = mutexes, mode, owned


class SyncEx(Ex):
    unit = None
    def get(self, lv):
        self.unit and self.unit.access(lv, 1)
        return super().get(lv)
    def set(self, lv, v):
        self.unit and self.unit.access(lv, 2)
        return super().set(lv, v)
    def ub(self, cond, what): self.assume(cond)      # C12, C13


class Sync(Pool):
    def __init__(self, ast, stats=None):
        super().__init__(ast, stats)
        old = self.ex
        ex = self.ex = SyncEx(ast, stats, mode="int", rounds=2)
        ex.prover.timeout = 15000
        ex.cfg.update(old.cfg); ex.cfg.update({"dtors": True, "scoped": self.scoped, "termination": False, "opeq": self.opeq})
        ex.loop_candidates = self.candidates
        self.install()
        ex.unit = self
        self.tag = "C26"
        self.guarded = set()
        for f, t in self.fields.items():
            n = ex.T(t).get("n", "")
            if "mutex" in n: self.mutex = f
            elif "atomic" not in n: self.guarded.add(f)
        self.locksetup()
        self.more_candidates = self.more

    def opeq(self, ex, x, y):
        if isinstance(x, AMap) and isinstance(y, AMap): return z3.Bool(ex.fresh_name("maps_equal"))
        return None

    def begin(self):
        super().begin()
        self.modes, self.begins, self.private, self.sections = {}, {}, set(), []

    # ---- ghost state
    def shared_pool(self, name, own):
        lv = self.fresh_pool(name, own)
        self.assume_wf(self.st(lv))
        self.modes[lv.root] = self.ex.new_lv(self.ex.iconst(0, 32, True), name + ".lock")
        self.roots = getattr(self, "roots", {})
        return lv

    def mode(self, root): return Ex.get(self.ex, self.modes[root]).t

    def access(self, lv, need):
        ex = self.ex
        if not lv.path or lv.path[0] not in self.guarded or getattr(self, "modes", None) is None or lv.root not in self.modes: return
        if lv.root in self.private: return
        if need == 2: self.writes = getattr(self, "writes", set()) | {(lv.root, len(self.sections))}
        ex.check(self.mode(lv.root) >= need, f"{ex.where()}: {lv.path[0]} is {'written holding the exclusive lock' if need == 2 else 'read holding the lock'}", "C26")

    def extends(self, a, b, fresh=True):
        """b has everything a has (an obligation if fresh: for arbitrary entries; else an assumption)"""
        ex = self.ex
        if fresh:
            j = z3.Int(ex.fresh_name("anyindex")); i0 = z3.Int(ex.fresh_name("anyid")); k0 = z3.Const(ex.fresh_name("anykey"), Str)
        else: j, i0, k0 = z3.Int("j?"), z3.Int("i?"), z3.Const("k?", Str)
        cs = [("no stored text is dropped", None, z3.And(b["n"] >= a["n"], b["next"] >= a["next"])),
              ("stored texts stay unchanged", (j, a["txt"][j]), z3.Implies(z3.And(j >= 0, j < a["n"]), b["txt"][j] == a["txt"][j])),
              ("ids already handed out resolve to the same text", (i0, a["i"]["pres"][i0]), z3.Implies(a["i"]["pres"][i0], z3.And(b["i"]["pres"][i0], b["i"]["idx"][i0] == a["i"]["idx"][i0]))),
              ("known strings keep their id", (k0, a["k"]["pres"][k0]), z3.Implies(a["k"]["pres"][k0], z3.And(b["k"]["pres"][k0], b["k"]["id"][k0] == a["k"]["id"][k0])))]
        if fresh: return [(n, c) for n, _, c in cs]
        return [c if q is None else qall([q[0]], c, patterns=[q[1]]) for _, q, c in cs]

    def acquire(self, mlv, mode, waits=True, together=()):
        ex = self.ex
        root = mlv.root
        if root in self.private: return
        if root not in self.modes or mlv.path != (self.mutex,): raise Unsupported("lock of an unknown mutex")
        if ex.nested: raise Unsupported("lock taken in a loop")
        if waits:
            ex.check(self.mode(root) == 0, f"{ex.where()}: no thread waits for a lock it holds", "C26")
            for r in self.modes:
                if r is not root and r not in self.private and r not in together:
                    ex.check(self.mode(r) == 0, f"{ex.where()}: no thread waits for a pool's lock while holding another's", "C26")
        lv = LV(root)
        a = self.st(lv)
        s = Ex.get(ex, lv)
        new = dict(s.fields)
        for f in self.fields:
            if f in self.guarded: new[f] = ex.havoc_value(s.fields[f], f"{root.name}.{f}") if not isinstance(s.fields[f], AMap) else sp.amap_fresh(ex, s.fields[f].kind, f"{root.name}.{f}")
        Ex.set(ex, lv, StructV(s.rec, new))
        b = self.st(lv)
        ex.assume(z3.And(b["n"] >= 0, b["n"] < 2 ** 62))
        self.assume_wf(b)
        for c in self.extends(a, b, False): ex.assume(c)
        Ex.set(ex, self.modes[root], ex.iconst(mode, 32, True))
        self.begins[root] = b
        self.sections.append((root, mode, b))

    def release(self, mlv):
        ex = self.ex
        root = mlv.root
        if root in self.private: return
        if root not in self.modes: raise Unsupported("unlock of an unknown mutex")
        if ex.nested: raise Unsupported("lock released in a loop")
        ex.check(self.mode(root) >= 1, f"{ex.where()}: releases only a lock it holds", "C26")
        self.guarantee(root)
        Ex.set(ex, self.modes[root], ex.iconst(0, 32, True))
        self.ends[root] = self.st(LV(root))

    def guarantee(self, root):
        if not self.full: return
        ex = self.ex
        a, b = self.begins.get(root), self.st(LV(root))
        if a is None: return
        for n, c in self.extends(a, b): ex.check(c, f"{ex.where()}, when the lock is released: {n}", "C26")
        self.check_wf(b, f"{ex.where()}, when the lock is released")

    full = False

    # ---- library
    def locksetup(self):
        ex, B = self.ex, self.ex.builtins
        def mk(nm, mode):
            def ctor(ex_, tid, a, n):
                ms, owned = [], None
                for x in a:
                    v = ex.load(x)
                    if isinstance(v, LockV):
                        if isinstance(x, LV): ex.set(x, LockV((), mode, False))     # moved from
                        return v
                    if not isinstance(v, OpaqueV) or v.tag != "lock": raise Unsupported("lock argument")
                    if isinstance(v.data, str): 
                        if v.data not in ("defer_lock", "adopt_lock"): raise Unsupported(v.data)
                        owned = v.data == "adopt_lock"
                    elif isinstance(x, LV) and x.path: ms.append(x)
                    else: raise Unsupported("lock argument")
                return LockV(tuple(ms), mode, owned)
            return ctor
        for nm, mode in LOCKS.items(): ex.ctor_models[nm] = mk(nm, mode)
        for nm in ("std::defer_lock_t", "std::adopt_lock_t"): ex.ctor_models[nm] = lambda ex_, tid, a, n: ex.load(a[0]) if a else NotImplemented
        def lock(ex_, this, waits=True, together=()):
            l = ex.get(this)
            if not isinstance(l, LockV) or l.owned: raise Unsupported("lock()")
            for m in l.mutexes: self.acquire(m, l.mode, waits, together)
            ex.set(this, LockV(l.mutexes, l.mode, True))
        def std_lock(ex_, fid, this, a, n):
            ls = [ex.get(x) for x in a]
            if not all(isinstance(l, LockV) for l in ls): raise Unsupported("std::lock")
            rs = [m.root for l in ls for m in l.mutexes]
            ex.check(z3.BoolVal(len({id(r) for r in rs}) == len(rs)), f"{ex.where()}: locks different mutexes", "C26")
            for x in a: lock(ex_, x, True, rs)
            return VOID
        B["std::lock"] = std_lock
        for nm in LOCKS:
            B[nm + "::lock"] = lambda ex_, fid, this, a, n: (lock(ex_, this), VOID)[1]
            def unlock(ex_, fid, this, a, n):
                l = ex.get(this)
                for m in l.mutexes: self.release(m)
                ex.set(this, LockV(l.mutexes, l.mode, False)); return VOID
            B[nm + "::unlock"] = unlock
            def assign(ex_, fid, this, a, n):
                v, l = ex.load(a[0]), ex.get(this)
                if not isinstance(v, LockV) or not isinstance(l, LockV): raise Unsupported("lock assignment")
                if isinstance(a[0], LV): ex.set(a[0], LockV((), v.mode, False))
                if l.owned:
                    for m in l.mutexes: self.release(m)
                if v.owned is None:
                    for m in v.mutexes: self.acquire(m, v.mode)
                    v = LockV(v.mutexes, v.mode, True)
                ex.set(this, v); return this
            B[nm + "::operator="] = assign
            B[nm + "::owns_lock"] = B[nm + "::operator bool"] = lambda ex_, fid, this, a, n: z3.BoolVal(bool(ex.get(this).owned))
        for nm in ("std::shared_mutex", "std::mutex", "std::shared_timed_mutex"):
            B[nm + "::lock"] = lambda ex_, fid, this, a, n: (self.acquire(this, 2), VOID)[1]
            B[nm + "::lock_shared"] = lambda ex_, fid, this, a, n: (self.acquire(this, 1), VOID)[1]
            B[nm + "::unlock"] = B[nm + "::unlock_shared"] = lambda ex_, fid, this, a, n: (self.release(this), VOID)[1]
        find = B["std::unordered_map::find"]
        def find2(ex_, fid, this, a, n):
            it = find(ex_, fid, this, a, n)
            if this.root in self.modes and this.root not in self.private: it.sec = len(self.sections)
            return it
        B["std::unordered_map::find"] = find2
        self.same = lambda it: getattr(it, "sec", None) in (None, len(self.sections)) 

    def iter_deref(self, ex, it):
        if hasattr(self, "same"): ex.check(z3.BoolVal(self.same(it)), f"{ex.where()}: an iterator is used only in the critical section it comes from", "C26")
        return super().iter_deref(ex, it)

    def iter_eq(self, ex, x, y):
        for it in (x, y):
            if hasattr(self, "same") and isinstance(it, IterV): ex.check(z3.BoolVal(self.same(it)), f"{ex.where()}: an iterator is used only in the critical section it comes from", "C26")
        return super().iter_eq(ex, x, y)

    def scoped(self, ex, lv, ty):
        if ty.get("n") not in LOCKS: return None
        l = ex.get(lv)
        if not isinstance(l, LockV): raise Unsupported("lock object")
        if l.owned is None:
            rs = [m.root for m in l.mutexes] if ty["n"] == "std::scoped_lock" else []
            for m in l.mutexes: self.acquire(m, l.mode, True, rs)
            ex.set(lv, LockV(l.mutexes, l.mode, True))
        def end(lv):
            l = ex.get(lv)
            if l.owned:
                for m in l.mutexes: self.release(m)
        return end

    def more(self, ex, ctx, out, var): pass

    # ---- units
    def start(self):
        self.begin()
        self.writes, self.ends = set(), {}
        self.roots = {}

    def finish(self, me, nm):
        """the operation takes effect in its last critical section"""
        ex = self.ex
        ex.check(self.mode(me.root) == 0, f"{nm}: no lock is kept", "C26")
        secs = [i for i, (r, m, b) in enumerate(self.sections) if r is me.root]
        for r, k in self.writes:
            if r is me.root: ex.check(z3.BoolVal(bool(secs) and k == secs[-1] + 1), f"{nm}: changes the pool in its last critical section only", "C26")
        return secs

    def run_emplace(self):
        ex = self.ex
        f = self.method("emplace"); ex.stats.functions.append(f"{SP}::emplace")
        self.full = True
        def run(ex):
            self.start()
            me = self.shared_pool("pool", THIS)
            x = z3.Const("str", Str); k = LOWER(x)
            arg = ex.new_lv(ViewV(BI.StrBase(x), z3.IntVal(0), BI.SLEN(x)), "str")
            thrown = r = None
            try: r = ex.inline(f, me, [arg])
            except CppThrow as e: thrown = e
            secs = self.finish(me, "emplace")
            if not secs: raise Unsupported("no critical section")
            s0, s = self.begins[me.root], self.ends.get(me.root) or self.st(me)
            had, full = s0["k"]["pres"][k], s0["next"] == LIMIT
            i0 = z3.Int(ex.fresh_name("anyid")); k0 = z3.Const(ex.fresh_name("anykey"), Str)
            if thrown is not None:
                ex.check(z3.And(z3.Not(had), full), "emplace: an error only for a string which is new at that moment, with all ids used up", "C26")
                return
            r = ex.load(r)
            ex.check(z3.Implies(had, z3.And(r.t == s0["k"]["id"][k], s["next"] == s0["next"], s["k"]["pres"][k0] == s0["k"]["pres"][k0], s["i"]["pres"][i0] == s0["i"]["pres"][i0])), "emplace: a string known at the moment it takes effect gives its id and changes nothing", "C26")
            ex.check(z3.Implies(z3.Not(had), z3.And(z3.Not(s0["i"]["pres"][r.t]), s["i"]["pres"][r.t], s["txt"][s["i"]["idx"][r.t]] == x)), "emplace: a new string gets an id nobody has, and it resolves to the string", "C26")
            ex.check(z3.And(s["k"]["pres"][k], s["k"]["id"][k] == r.t), "emplace: the string is found under the returned id", "C26")
            ex.check(z3.Implies(k0 != k, s["k"]["pres"][k0] == s0["k"]["pres"][k0]), "emplace: no other string is added", "C26")
        ex.explore(run, cover="emplace")

    def run_lookup(self):
        ex = self.ex
        g = self.method("get"); rs = self.method("resolve"); hi = self.method("highest")
        ex.stats.functions += [f"{SP}::{n}" for n in ("get", "resolve", "highest", "size", "bytes", "hits", "misses")]
        self.full = True
        def last(me, nm):
            if not self.finish(me, nm): raise Unsupported("no critical section")
            ex.check(z3.BoolVal(not self.writes), f"{nm}: changes nothing", "C26")
            return self.begins[me.root]
        def run(ex):
            self.start(); me = self.shared_pool("pool", THIS)
            x = z3.Const("str", Str); k = LOWER(x)
            r = ex.load(ex.inline(g, me, [ex.new_lv(ViewV(BI.StrBase(x), z3.IntVal(0), BI.SLEN(x)), "str")]))
            s0 = last(me, "get")
            ex.check(r.t == z3.If(s0["k"]["pres"][k], s0["k"]["id"][k], 0), "get: the string's id at the moment it takes effect, or Empty", "C26")
        ex.explore(run, cover="get")
        def run(ex):
            self.start(); me = self.shared_pool("pool", THIS)
            i = ex.ifresh("id", 16, False)
            r = ex.load(ex.inline(rs, me, [ex.new_lv(i, "id")]))
            if not isinstance(r, OptV): raise Unsupported("resolve result")
            s0 = last(me, "resolve")
            ex.check(r.has == s0["i"]["pres"][i.t], "resolve: a text exactly for ids that exist at the moment it takes effect", "C26")
            if r.val is not None:
                own, idx = self.loc(r.val)
                ex.check(z3.Implies(r.has, z3.And(own == THIS, idx == s0["i"]["idx"][i.t])), "resolve: the pool's stored text of that id", "C26")
        ex.explore(run, cover="resolve")
        def run(ex):
            self.start(); me = self.shared_pool("pool", THIS)
            r = ex.load(ex.inline(hi, me, []))
            if "nextId_" in self.guarded:
                s0 = last(me, "highest")
                ex.check(r.t == s0["next"] - 1, "highest: one below the next id at the moment it takes effect", "C26")
        ex.explore(run, cover="highest")
        for nm in ("size", "bytes", "hits", "misses"):
            fs = [f for f in self.a.byname.get(f"{SP}::{nm}", []) if f in self.a.funcs]
            for f in fs:
                def run(ex, f=f, nm=nm):
                    self.start(); me = self.shared_pool("pool", THIS)
                    ex.inline(f, me, []); self.finish(me, nm)
                ex.explore(run, cover=nm)

    def run_other(self):
        """one critical section, in which all accesses lie: the sequential contract (C12, C13) applies to it"""
        ex, B = self.ex, self.ex.builtins
        for c in ("Serializer", "Deserializer"): ex.ctor_models[f"bitsery::{c}"] = lambda ex_, tid, a, n: OpaqueV("ser")
        for m in ("value2b", "text1b"):
            B[f"bitsery::Serializer::{m}"] = lambda ex_, fid, this, a, n: (ex.load(a[0]), VOID)[1]
            def rd(ex_, fid, this, a, n):
                ex.set(a[0], ex.havoc_value(ex.get(a[0]), "read")); return VOID
            B[f"bitsery::Deserializer::{m}"] = rd
        B["bitsery::Deserializer::adapter"] = lambda ex_, fid, this, a, n: ex.new_lv(OpaqueV("adapter"))
        for c in ("InputStreamAdapter", "BasicInputStreamAdapter"): B[f"bitsery::{c}::error"] = lambda ex_, fid, this, a, n: ex.ifresh("error", 32, True)
        def one(me, nm):
            secs = self.finish(me, nm)
            ex.check(z3.BoolVal(len(secs) == 1), f"{nm}: one critical section", "C26")
        def unit(f, nm, other=False):
            ex.stats.functions.append(f"{SP}::{nm}")
            def run(ex):
                self.start(); me = self.shared_pool("pool", THIS)
                args = []; pools = [me]
                for p in self.a.decls[f]["params"]:
                    pt = ex.T(p["t"]); byref = pt["k"] == "ref"
                    q = ex.T(pt["to"]) if byref else pt
                    if q.get("n") == SP:
                        o = self.shared_pool("other", OTHER); pools.append(o); args.append(o)
                    elif q["k"] == "rec" and "stream" in q["n"]: args.append(ex.new_lv(OpaqueV("stream"), "stream"))
                    else:
                        v = ex.fresh(pt["to"] if byref else p["t"], p["n"]); args.append(ex.new_lv(v, p["n"]) if byref else v)
                try: ex.inline(f, me, args)
                except CppThrow: pass
                for q in pools: one(q, nm)
            ex.explore(run, cover=nm)
        for nm in ("addStaticKey", "write", "read", "operator=="):
            for f in self.a.byname.get(f"{SP}::{nm}", []):
                if f in self.a.funcs: unit(f, nm)
        c = next((m for m in self.a.decls[self.rec]["methods"] if self.a.decls[m].get("ctor") == "copy" and m in self.a.funcs), None)
        if c is None: raise Unsupported("no user-provided copy constructor")
        ex.stats.functions.append(f"{SP}::StringPool(const StringPool&)")
        def run(ex):
            self.start()
            o = self.shared_pool("other", OTHER)
            me = ex.new_lv(StructV(self.rec, {}), "pool"); self.owner[me.root] = THIS; self.private.add(me.root)
            try: ex.inline(c, me, [o])
            except CppThrow: pass
            one(o, "copy")
        ex.explore(run, cover="copy")
        known = {"emplace", "get", "resolve", "highest", "size", "bytes", "hits", "misses", "addStaticKey", "write", "read", "operator=="}
        for m in self.a.decls[self.rec]["methods"]:
            d = self.a.decls[m]
            if m in self.a.funcs and d["dk"] == "CXXMethod" and not d.get("defaulted") and d["n"] not in known and d.get("access") != "private": ex.stats.assumptions.add(f"StringPool::{d['n']} is not under contract")


class Suite(BaseSuite):
    PROPS = ("C26",)
    TU = "src/model/string-pool.cpp"
    HARNESS = ("sync", "harness/sync.cpp", ["src/exception-handler.cpp", "src/model/string-pool.cpp"])
    SAN = "thread"
    BATCH = 40
    TRUST = TRUST + ["contracts of std::shared_mutex and its lock classes; std::atomic operations are race free", "contracts of std::unordered_map, std::deque (references stay valid) in vc/sp.py"]
    ASSUME = ["the pool's sequential contracts (C12, C13) hold for one critical section each", "constructors run before the pool is shared, its destructor after",
              "texts returned by resolve are never written again (C12: stored texts stay unchanged)"]
    BOUNDED = "otherwise: random operations of 2 to 4 threads on the real code under ThreadSanitizer, results compared with every sequential meaning"

    def tasks(self, prop):
        a = self.a
        return [("emplace", lambda st: Sync(a, st).run_emplace()), ("lookups", lambda st: Sync(a, st).run_lookup()), ("other operations", lambda st: Sync(a, st).run_other())]

    def prepare(self):
        from . import harness as H
        super().prepare()
        out = H.run_batch(self.exe, ["h"])
        if isinstance(out[0], tuple) and "FATAL" in out[0][1]:      # ThreadSanitizer does not start here
            self.SAN = True; super().prepare()

    OPS = ["e", "g", "r", "h", "z", "b", "w", "=", "c", "R"]
    def gen(self, prop, rng, hints):
        W = ["a", "A", "b", "ab", "AB", "name", "NAME", "x" * 30]
        def op(k):
            if k in "eg": return k + rng.choice(W) + (str(rng.randrange(40)) if rng.random() < .7 else "")
            if k == "r": return k + str(rng.choice((0, 1, 128, 129, 130, 140, 160)))
            return k
        for k in self.OPS:      # every operation against interning
            yield "|".join([";".join(op(k) for _ in range(30)), ";".join(op("e") for _ in range(60))])
        while True:
            yield "|".join(";".join(op(rng.choice("eeeeggrrhzbw=cR")) for _ in range(rng.randrange(5, 40))) for _ in range(rng.randrange(2, 5)))

    def judge(self, prop, line, out):
        """whatever the schedule: one id per string, one string per id, ids consecutive"""
        if isinstance(out, tuple): return f"crash: {out[1]}"
        ids, res = {}, {}
        static = {"": 0, "$sum": 1, "$val": 2, "$idx": 3}
        T = out.split("|")
        L = line.split("|")
        if len(T) != len(L): return f"{len(T)} outcomes: {out[:200]}"
        emitted = {o[1:].lower() for t in L for o in t.split(";") if o[0] == "e"}
        for t, o in zip(L, T):
            mine = {}; hi = 127; n = 4
            for op, g in zip(t.split(";"), o.split(";")):
                k, x = op[0], op[1:].lower()
                if k == "e" or k == "g" and g != "0":
                    if k == "g" and x not in emitted: return f"{op}: found an id {g} for a string nobody inserted"
                    if ids.setdefault(x, g) != g: return f"{op}: id {g} instead of {ids[x]}"
                    if k == "e": mine[x] = g; hi = max(hi, int(g))
                if k == "g" and g == "0" and x in mine: return f"{op}: not found although this thread inserted it"
                if k == "r" and g != "none":
                    y = bytes.fromhex(g).decode() if g != "-" else ""
                    if op in ("r0", "r1") and y != ("" if op == "r0" else "$sum"): return f"{op}: {y!r}"
                    if int(x) >= 128:
                        if res.setdefault(x, y) != y: return f"{op}: {y!r} instead of {res[x]!r}"
                if k == "r" and g == "none" and x in mine.values(): return f"{op}: no text although this thread inserted it"
                if k == "h":
                    if int(g) < hi: return f"highest {g} although this thread got {hi}"
                    hi = max(hi, int(g))
                if k == "z":
                    if int(g) < max(n, 4 + len(mine)): return f"size {g}"
                    n = int(g)
                if k in "w=cR" and g != "ok": return f"{op}: {g}"
        if sorted(int(g) for g in ids.values()) != list(range(128, 128 + len(ids))) and set(ids) == emitted: return f"ids {sorted(ids.values())[:50]} are not consecutive"
        for i, y in res.items():
            if ids.get(y.lower()) != i: return f"id {i} resolves to {y!r}, whose id is {ids.get(y.lower())}"
        return None
