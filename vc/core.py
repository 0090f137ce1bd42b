"""Verification-condition generator: symbolic execution of the exported AST,
function by function, callees by contract where they have one, loops cut by
invariants, every branch explored.  No bound on inputs or iterations."""
import time, itertools
import z3
from .ast import AST, strip_targs

z3.set_param("smt.random_seed", 7)


class Unsupported(Exception):
    """The construct is outside the modelled subset: proof undecided (never a violation)."""


class PathEnd(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class BreakEx(Exception): pass
class ContinueEx(Exception): pass


class CppThrow(Exception):
    def __init__(self, ty, val=None, where=None): self.ty, self.val, self.where = ty, val, where


# ---------------------------------------------------------------- sorts
_Str = z3.Datatype("Str")
_Str.declare("nil")
_Str.declare("snoc", ("init", _Str), ("last", z3.IntSort()))
Str = _Str.create()


def str_const(bs):
    t = Str.nil
    for b in bs:
        b = b - 256 if b > 127 else b
        t = Str.snoc(t, z3.IntVal(b))
    return t


# ---------------------------------------------------------------- values
class V:
    def __repr__(self): return f"{type(self).__name__}({', '.join(f'{k}={v}' for k, v in self.__dict__.items())})"


class I(V):
    __slots__ = ("t", "w", "sg")
    def __init__(self, t, w, sg): self.t, self.w, self.sg = t, w, sg
    def __repr__(self): return f"I({self.t}:{'i' if self.sg else 'u'}{self.w})"


class D(V):
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"D({self.t})"


class StrV(V):
    def __init__(self, t): self.t = t


class ViewV(V):
    """string_view into an abstract base: chars are base.at(off+i), i<len"""
    def __init__(self, base, off, ln): self.base, self.off, self.len = base, off, ln


class CStr(V):
    def __init__(self, b): self.b = bytes(b)


class OptV(V):
    def __init__(self, has, val): self.has, self.val = has, val


class PairV(V):
    def __init__(self, first, second): self.first, self.second = first, second


class VarV(V):
    """std::variant: alts = list of type ids, idx = z3 Int term, vals = {i: value}"""
    def __init__(self, alts, idx, vals): self.alts, self.idx, self.vals = alts, idx, vals


class StructV(V):
    def __init__(self, rec, fields): self.rec, self.fields = rec, fields
    def with_(self, k, v):
        f = dict(self.fields); f[k] = v
        return StructV(self.rec, f)


class SeqV(V):
    """append-only abstract sequence as a snoc-list term of a datatype, with an element encoder"""
    def __init__(self, enc, t): self.enc, self.t = enc, t


class ArrV(V):
    """constant-size sequence of values"""
    def __init__(self, items): self.items = list(items)


class VecV(V):
    """array-mode vector: length term + leaf arrays (struct of arrays)"""
    def __init__(self, ety, n, leaves, cap=None): self.ety, self.n, self.leaves = ety, n, leaves


class MapV(V):
    """constant associative container"""
    def __init__(self, items): self.items = items


class IterV(V):
    def __init__(self, cont, idx, key=None): self.cont, self.idx, self.key = cont, idx, key


class P(V):
    """pointer: lv (None: null); null = condition under which it is null; off for arrays"""
    def __init__(self, lv, null=None, off=None): self.lv, self.null, self.off = lv, null, off


class ClosV(V):
    def __init__(self, cls, op, caps, this): self.cls, self.op, self.caps, self.this = cls, op, caps, this


class FnV(V):
    """std::function / callable given by a python function or closure"""
    def __init__(self, fn, has=True): self.fn, self.has = fn, has


class FuncRef(V):
    def __init__(self, fid): self.fid = fid


class OpaqueV(V):
    def __init__(self, tag, data=None): self.tag, self.data = tag, data


VOID = OpaqueV("void")


# ---------------------------------------------------------------- lvalues
class Root:
    _n = itertools.count()
    def __init__(self, v, name="", tid=None, ordn=None):
        self.v, self.name, self.tid, self.ord = v, name, tid, ordn


class LV:
    __slots__ = ("root", "path")
    def __init__(self, root, path=()): self.root, self.path = root, tuple(path)
    def sub(self, k): return LV(self.root, self.path + (k,))
    def __repr__(self): return f"LV({self.root.name}#{self.root.ord}{self.path})"
    def same(self, o): return self.root is o.root and len(self.path) == len(o.path) and all(
        (a == b if not isinstance(a, tuple) else (isinstance(b, tuple) and a[0] == b[0] and (a[1].eq(b[1])))) for a, b in zip(self.path, o.path))


def sv_get(ex, v, k):
    if isinstance(v, StructV):
        if k not in v.fields:
            raise Unsupported(f"no field {k} in struct")
        return v.fields[k]
    if isinstance(v, PairV):
        return v.first if k in ("first", 0) else v.second
    if isinstance(v, OptV):
        return v.val
    if isinstance(v, VarV):
        return v.vals[k[1]]
    if isinstance(v, ArrV):
        i = k[1]
        return v.items[ex.concrete_int(i)]
    if isinstance(v, VecV):
        return ex.vec_get(v, k[1])
    if isinstance(v, OpaqueV) and isinstance(v.data, dict):
        return v.data[k]
    if hasattr(v, "sget"): return v.sget(ex, k)
    raise Unsupported(f"member {k} of {type(v).__name__}")


def sv_with(ex, v, path, new):
    if not path:
        return new
    k, rest = path[0], path[1:]
    if isinstance(v, VecV):
        return ex.vec_set(v, k[1], rest, new)
    if isinstance(v, StructV):
        return v.with_(k, sv_with(ex, v.fields.get(k), rest, new))
    if isinstance(v, PairV):
        if k in ("first", 0):
            return PairV(sv_with(ex, v.first, rest, new), v.second)
        return PairV(v.first, sv_with(ex, v.second, rest, new))
    if isinstance(v, OptV):
        return OptV(v.has, sv_with(ex, v.val, rest, new))
    if isinstance(v, VarV):
        vals = dict(v.vals); vals[k[1]] = sv_with(ex, v.vals.get(k[1]), rest, new)
        return VarV(v.alts, v.idx, vals)
    if isinstance(v, ArrV):
        items = list(v.items); i = ex.concrete_int(k[1]); items[i] = sv_with(ex, items[i], rest, new)
        return ArrV(items)
    if isinstance(v, OpaqueV) and isinstance(v.data, dict):
        d = dict(v.data); d[k] = sv_with(ex, d.get(k), rest, new)
        return OpaqueV(v.tag, d)
    if hasattr(v, "swith"): return v.swith(ex, k, rest, new)
    raise Unsupported(f"write {k} into {type(v).__name__}")


# ---------------------------------------------------------------- spec functions
class Spec:
    """A mathematical function given by a definitional equation; unfolded on demand,
    a fixed number of times per obligation (sound for any number)."""
    registry = {}

    def __init__(self, name, args, ret, defn, axioms=None):
        self.f = z3.Function(name, *args, ret)
        self.args = args
        self._tmpl = None
        self.defn = defn
        self.axioms = axioms
        Spec.registry[self.f.get_id()] = self
        self.name = name

    def __call__(self, *a):
        return self.f(*a)

    def template(self):
        if self._tmpl is None or self._tmpl[2] is not self.defn:
            vs = [z3.Const(f"{self.name}${i}", s) for i, s in enumerate(self.args)]
            self._tmpl = (vs, self.f(*vs) == self.defn(*vs), self.defn)
        return self._tmpl

    def unfolded(self, t):
        vs, eq, _ = self.template()
        return z3.substitute(eq, *zip(vs, t.children()))


def collect_apps(terms, seen):
    out = []
    stack = list(terms)
    visited = collect_apps.visited
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            s = Spec.registry.get(t.decl().get_id())
            if s is not None:
                out.append((s, t))
            stack.extend(t.children())
    return out


collect_apps.visited = None


def unfold(terms, rounds):
    seen = set()
    keep = []  # keep z3 terms alive so ids are stable
    defs = []
    frontier = list(terms)
    for r in range(rounds):
        apps = collect_apps(frontier, seen)
        if not apps:
            break
        new = []
        for s, t in apps:
            eqs = []
            if s.defn is not None:
                eqs.append(s.unfolded(t))
            if s.axioms is not None:
                eqs.extend(s.axioms(t, *t.children()))
            new.extend(eqs)
        keep.extend(new)
        defs.extend(new)
        frontier = new
    return defs


# ---------------------------------------------------------------- solver front
class Stats:
    def __init__(self):
        self.obligations = 0; self.discharged = 0; self.failed = []; self.solver_s = 0.0
        self.by = {"z3": 0, "cvc5": 0, "syntactic": 0}; self.queries = 0; self.labels = {}
        self.functions = []; self.contracts = set(); self.inlined = set(); self.builtins = set(); self.loops = []
        self.assumptions = set(); self.unsupported = []; self.paths = 0; self.covers = 0; self.max_query_s = 0.0; self.cover_fail = []


class Ob:
    def __init__(self, label, status, tag, model=None, pc=None, goal=None, where=None, info=None, smt=None):
        self.label, self.status, self.tag, self.model, self.where, self.info = label, status, tag, model, where, info
        self.pc, self.goal, self.smt = pc, goal, smt


def cvc5_check(smt2, tmo):
    try:
        import cvc5
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit", str(int(tmo * 1000)))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + smt2, "x")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = c.invoke(slv, sm)
            if r.strip() in ("sat", "unsat", "unknown"):
                res = r.strip()
        return res or "unknown"
    except Exception as e:  # back end not usable for this query
        return "unknown"


class Prover:
    def __init__(self, stats, timeout=20000, rounds=3):
        self.stats, self.timeout, self.rounds = stats, timeout, rounds
        self.extra = []

    def prove(self, pc, goal, rounds=None, timeout=None, alt=True):
        """returns (status, model, smt2); status in proved / refuted / unknown"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.stats.by["syntactic"] += 1
            return "proved", None, None
        t0 = time.time()
        base = list(pc) + list(self.extra) + [z3.Not(goal)]
        res = None
        for rd in ([rounds] if rounds else [self.rounds, self.rounds + 3]):
            s = z3.Solver()
            s.set("timeout", timeout or self.timeout)
            s.add(*base)
            s.add(*unfold(base, rd))
            self.stats.queries += 1
            t1 = time.time()
            r = s.check()
            self.stats.max_query_s = max(self.stats.max_query_s, time.time() - t1)
            if r == z3.unsat:
                self.stats.solver_s += time.time() - t0
                self.stats.by["z3"] += 1
                return "proved", None, None
            if r == z3.sat:
                res = ("refuted", s.model(), None)
                # a model of the finitely-unfolded problem may be spurious: retry deeper once
                continue
            if not alt:
                res = ("unknown", None, None); continue
            c = cvc5_check(s.to_smt2(), (timeout or self.timeout) / 1000)
            if c == "unsat":
                self.stats.solver_s += time.time() - t0
                self.stats.by["cvc5"] += 1
                return "proved", None, None
            res = ("unknown", None, None)
        self.stats.solver_s += time.time() - t0
        return res


# ---------------------------------------------------------------- executor
class Frame:
    def __init__(self, fid, this=None, clos=None):
        self.fid, self.this, self.clos, self.vars = fid, this, clos, {}


class Ex:
    def __init__(self, ast: AST, stats=None, mode="int", fp="real", timeout=20000, rounds=3):
        self.a = ast
        self.stats = stats or Stats()
        self.mode, self.fp = mode, fp
        self.prover = Prover(self.stats, timeout, rounds)
        self.contracts = {}      # qualified name -> python contract(ex, node, fid, this, args) or None
        self.builtins = {}
        from . import builtins as B
        B.install(self)
        self.loop_candidates = None   # fn(ex, entry) -> [(name, fn())], [(name, variant)]
        self.max_inline = 60
        self.unroll_limit = 0    # >0 : bounded mode (counterexample search only)
        self.overflow_checks = True
        self.noinline = set()
        self.cfg = {}
        self.deadline = None
        self.loop_cache = {}
        self.ovr_cache = {}
        self.locals = []

    # ---- path control
    def reset(self, prefix):
        self.prefix, self.trail, self.idx = list(prefix), [], 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.cfg.get("feas_ms", 3000))
        self.journal = []
        self.frames = []
        self.ordn = 0
        self.fresh_n = 0
        self.roots = {}
        self.nested = 0
        self.ncache, self.memo = {}, {}
        self.writes = None
        self.statics = {}
        self.globals = {}
        self.thread = 0          # the thread the code runs on: thread-local variables are kept per thread
        self.depth = 0
        self.trace = []
        self.spec_stack = []

    def fresh_name(self, base):
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"

    def new_root(self, v, name="", tid=None):
        self.ordn += 1
        r = Root(v, name, tid, self.ordn)
        self.roots[self.ordn] = r
        return r

    def new_lv(self, v, name="", tid=None):
        return LV(self.new_root(v, name, tid))

    def explore(self, run, max_paths=20000, cover=None):
        """run every feasible path; `cover` names the unit: at least one of its complete paths has to be satisfiable"""
        pend = [[]]
        n = 0
        covered = cover is None
        ended = 0
        while pend:
            prefix = pend.pop()
            self.reset(prefix)
            self.pend_out = pend
            n += 1
            if n > max_paths:
                raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of this unit exhausted")
            try:
                run(self)
                ended += 1
                if not covered and ended <= 8:
                    s = z3.Solver(); s.set("timeout", 3000)
                    s.add(*self.pc); s.add(*unfold(self.pc, 1))
                    if s.check() != z3.unsat: covered = True
            except PathEnd:
                pass
            except CppThrow as e:
                try: self.check(z3.BoolVal(False), f"{cover or 'function'}: {e.ty} is thrown where the contract allows no exception", "safety")
                except PathEnd: pass
        self.stats.paths += n
        if covered: self.stats.covers += cover is not None
        elif cover is not None: self.stats.cover_fail.append(f"no complete path of {cover} is satisfiable")
        return n

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def feasible(self, c):
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        self.stats.queries += 1
        t0 = time.time()
        r = self.solver.check(c)
        self.stats.solver_s += time.time() - t0
        return r != z3.unsat

    def entails(self, c):
        """cheap check used only to pick simpler but equivalent terms"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        t0 = time.time()
        self.stats.queries += 1
        r = self.solver.check(z3.Not(c))
        self.stats.solver_s += time.time() - t0
        return r == z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.idx < len(self.prefix):
            d = self.prefix[self.idx]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c))
            if not ft and not ff:
                raise PathEnd()
            d = ft
            if ft and ff:
                self.pend_out.append(self.trail + [False])
        self.idx += 1
        self.trail.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """nondeterministic choice 0..n-1, all explored"""
        if self.idx < len(self.prefix):
            d = self.prefix[self.idx]
        else:
            d = 0
            for k in range(1, n):
                self.pend_out.append(self.trail + [k])
        self.idx += 1
        self.trail.append(d)
        return d

    @property
    def replaying(self):
        return self.idx < len(self.prefix)

    # ---- obligations
    def check(self, goal, label, tag="safety", info=None, rounds=None, timeout=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.nested or self.replaying:
            if tag == "safety":
                self.assume(goal)
            return True
        st, model, smt = self.prover.prove(self.pc, goal, rounds=rounds, timeout=timeout)
        self.stats.obligations += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if st == "proved":
            self.stats.discharged += 1
            if tag == "safety":
                self.assume(goal)
            return True
        self.stats.failed.append(Ob(label, st, tag, model, list(self.pc), goal, list(self.trail), info))
        if tag == "safety":
            if not self.feasible(goal):
                raise PathEnd()
            self.assume(goal)
        return False

    def entail_ob(self, goal, rounds=None, extra=(), timeout=8000):
        st, m, _ = self.prover.prove(self.pc + list(extra), goal, rounds=rounds or self.prover.rounds, timeout=self.cfg.get("cand_ms", timeout), alt=False)
        return st == "proved"

    # ---- arithmetic
    def iconst(self, n, w, sg):
        n = int(n) & ((1 << w) - 1)
        if sg and n >= 1 << (w - 1): n -= 1 << w
        if self.mode == "bv":
            return I(z3.BitVecVal(n, w), w, sg)
        return I(z3.IntVal(n), w, sg)

    def ifresh(self, name, w, sg):
        nm = self.fresh_name(name)
        if self.mode == "bv":
            return I(z3.BitVec(nm, w), w, sg)
        t = z3.Int(nm)
        self.assume(self.in_range(t, w, sg))
        return I(t, w, sg)

    @staticmethod
    def in_range(t, w, sg):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        return z3.And(t >= lo, t <= hi)

    def wrap(self, t, w, sg):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return self.iconst(t.as_long(), w, sg).t
        if self.entails(self.in_range(t, w, sg)):
            return t
        m = 1 << w
        if sg:
            h = 1 << (w - 1)
            return ((t + h) % m) - h
        return t % m

    def cast_int(self, v, w, sg):
        if isinstance(v, z3.BoolRef):
            if self.mode == "bv":
                return I(z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), w, sg)
            return I(z3.If(v, z3.IntVal(1), z3.IntVal(0)), w, sg)
        if not isinstance(v, I):
            raise Unsupported(f"int cast of {type(v).__name__}")
        if self.mode == "bv":
            if w == v.w: return I(v.t, w, sg)
            if w < v.w: return I(z3.Extract(w - 1, 0, v.t), w, sg)
            return I(z3.SignExt(w - v.w, v.t) if v.sg else z3.ZeroExt(w - v.w, v.t), w, sg)
        if w > v.w and (not v.sg or sg) or (w == v.w and sg == v.sg):
            return I(v.t, w, sg)
        return I(self.wrap(v.t, w, sg), w, sg)

    def as_bool(self, v):
        if isinstance(v, z3.BoolRef): return v
        if isinstance(v, I): return v.t != 0
        if isinstance(v, P):
            if v.lv is None and v.null is None: return z3.BoolVal(False)
            return z3.BoolVal(True) if v.null is None else z3.Not(v.null)
        if isinstance(v, CStr): return z3.BoolVal(True)
        if isinstance(v, D): return z3.Not(self.fp_zero(v))
        raise Unsupported(f"bool of {type(v).__name__}")

    def fp_zero(self, v):
        return z3.fpIsZero(v.t) if self.fp == "fp" else v.t == 0

    def ub(self, cond, what):
        if self.overflow_checks:
            self.check(cond, f"{self.where()}: {what}", "ub" if self.cfg.get("ub_soft") else "safety")

    def where(self):
        for f in reversed(self.frames):
            if f.fid is not None and f.fid in self.a.decls:
                return self.a.fname(f.fid)
        return "?"

    def arith(self, op, a, b, w, sg):
        """a, b : I of the same computation type"""
        x, y = a.t, b.t
        bv = self.mode == "bv"
        if op in ("+", "-", "*"):
            r = x + y if op == "+" else x - y if op == "-" else x * y
            if bv:
                if sg:
                    if op == "+": ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
                    elif op == "-": ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
                    else: ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
                    self.ub(ok, f"signed overflow in {op}")
                return I(r, w, sg)
            if sg:
                r = z3.simplify(r)
                self.ub(self.in_range(r, w, sg), f"signed overflow in {op}")
                return I(r, w, sg)
            return I(self.wrap(r, w, sg), w, sg)
        if op in ("/", "%"):
            self.ub(y != 0, f"division by zero in {op}")
            if bv:
                if sg:
                    mn = z3.BitVecVal(1 << (w - 1), w)
                    self.ub(z3.Not(z3.And(x == mn, y == z3.BitVecVal(-1, w))), f"signed overflow in {op}")
                    return I(x / y if op == "/" else z3.SRem(x, y), w, sg)
                return I(z3.UDiv(x, y) if op == "/" else z3.URem(x, y), w, sg)
            if sg:
                self.ub(z3.Not(z3.And(x == -(1 << (w - 1)), y == -1)), f"signed overflow in {op}")
                q = z3.If(x >= 0, z3.If(y >= 0, x / y, -(x / -y)), z3.If(y >= 0, -((-x) / y), (-x) / (-y)))
                return I(q if op == "/" else x - y * q, w, sg)
            return I(x / y if op == "/" else x % y, w, sg)
        if op in ("&", "|", "^"):
            if bv:
                return I({"&": x & y, "|": x | y, "^": x ^ y}[op], w, sg)
            xs, ys = z3.simplify(x), z3.simplify(y)
            if z3.is_int_value(xs) and z3.is_int_value(ys):
                m = (1 << w) - 1
                p, q = xs.as_long() & m, ys.as_long() & m
                return self.iconst({"&": p & q, "|": p | q, "^": p ^ q}[op], w, sg)
            if op == "&":
                for c, o in ((xs, y), (ys, x)):
                    if z3.is_int_value(c):
                        k = c.as_long()
                        if k >= 0 and (k & (k + 1)) == 0:
                            return I(o % (k + 1), w, sg)
            fx = z3.Int2BV(x, w); fy = z3.Int2BV(y, w)
            return I(z3.BV2Int({"&": fx & fy, "|": fx | fy, "^": fx ^ fy}[op], sg), w, sg)
        raise Unsupported(f"arith {op}")

    def shift(self, op, a, b):
        w, sg = a.w, a.sg
        if self.mode == "bv":
            amt = self.cast_int(b, w, False).t if b.w <= w else z3.Extract(w - 1, 0, b.t)
            lim = z3.ULT(b.t, z3.BitVecVal(w, b.w))
            self.ub(lim, f"shift amount out of range in {op}")
            if op == "<<": return I(a.t << amt, w, sg)
            return I(a.t >> amt if sg else z3.LShR(a.t, amt), w, sg)
        k = z3.simplify(b.t)
        self.ub(z3.And(b.t >= 0, b.t < w), f"shift amount out of range in {op}")
        if z3.is_int_value(k):
            m = 1 << k.as_long()
            if op == "<<": return I(self.wrap(a.t * m, w, sg), w, sg)
            return I(a.t / m, w, sg)
        raise Unsupported("symbolic shift in int mode")

    def compare(self, op, a, b):
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
            if op == "==": return a == b
            if op == "!=": return a != b
            a = self.cast_int(a, 32, True); b = self.cast_int(b, 32, True)
        if isinstance(a, I) and isinstance(b, I):
            x, y = a.t, b.t
            if op == "==": return x == y
            if op == "!=": return x != y
            if self.mode == "bv" and not a.sg:
                return {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}[op](x, y)
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        if isinstance(a, D) and isinstance(b, D):
            x, y = a.t, b.t
            if self.fp == "fp":
                return {"==": z3.fpEQ, "!=": lambda p, q: z3.Not(z3.fpEQ(p, q)), "<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}[op](x, y)
            if op == "==": return x == y
            if op == "!=": return x != y
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        if isinstance(a, (P, CStr)) and isinstance(b, (P, CStr)) and op in ("==", "!="):
            e = self.ptr_eq(a, b)
            return e if op == "==" else z3.Not(e)
        raise Unsupported(f"compare {op} {type(a).__name__} {type(b).__name__}")

    def ptr_eq(self, a, b):
        if isinstance(a, CStr) or isinstance(b, CStr):
            if isinstance(a, CStr) and isinstance(b, CStr): return z3.BoolVal(a is b)
            return z3.BoolVal(False)
        na = a.null if a.null is not None else z3.BoolVal(a.lv is None)
        nb = b.null if b.null is not None else z3.BoolVal(b.lv is None)
        if a.lv is None or b.lv is None:
            return z3.And(na, nb) if (a.lv is None and b.lv is None) else (nb if a.lv is None else na)
        return z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), self.lv_eq(a.lv, b.lv)))

    def lv_eq(self, a, b):
        if a.root is not b.root or len(a.path) != len(b.path):
            return z3.BoolVal(False)
        cs = []
        for x, y in zip(a.path, b.path):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "e":
                cs.append(x[1] == y[1])
            elif x != y:
                return z3.BoolVal(False)
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def concrete_int(self, t):
        if isinstance(t, int): return t
        if isinstance(t, I): t = t.t
        t = z3.simplify(t)
        if z3.is_int_value(t): return t.as_long()
        if z3.is_bv_value(t): return t.as_long()
        raise Unsupported("symbolic index where a constant is needed")

    # ---- lvalue access
    def get(self, lv):
        v = lv.root.v
        if v is None and lv.path:
            raise Unsupported(f"read of uninitialised {lv}")
        for k in lv.path:
            v = sv_get(self, v, k)
        if v is None:
            raise Unsupported(f"read of uninitialised {lv}")
        return v

    def set(self, lv, v):
        r = lv.root
        self.journal.append((r, r.v))
        if self.writes is not None:
            self.writes.add((r.ord, tuple(k if not isinstance(k, tuple) or k[0] not in ("e", "e2") else ("e*",) for k in lv.path)))
            self.write_roots[r.ord] = r
        r.v = sv_with(self, r.v, lv.path, v)

    def undo(self, mark):
        while len(self.journal) > mark:
            r, v = self.journal.pop()
            r.v = v

    # ---- array-mode vectors
    def leaf_types(self, tid, prefix=()):
        """[(path, tid)] scalar leaves of a type"""
        ty = self.a.T(tid)
        if ty["k"] == "rec":
            d = self.a.decls[ty["d"]]
            if d.get("scope"):
                out = []
                for b in d.get("bases", []):
                    out += self.leaf_types(b, prefix)
                for f in d.get("fields", []):
                    out += self.leaf_types(f["t"], prefix + (f["n"],))
                return out
            if ty["n"] == "std::pair":
                ta = d["targs"]
                return self.leaf_types(ta[0]["t"], prefix + ("first",)) + self.leaf_types(ta[1]["t"], prefix + ("second",))
        return [(prefix, tid)]

    def scalar_sort(self, tid):
        ty = self.a.T(tid)
        if ty["k"] in ("int", "enum"):
            return z3.BitVecSort(ty["w"]) if self.mode == "bv" else z3.IntSort()
        if ty["k"] == "bool": return z3.BoolSort()
        if ty["k"] == "float": return z3.Float64() if self.fp == "fp" else z3.RealSort()
        if ty["k"] == "rec" and ty["n"] == "std::basic_string": return Str
        h = self.cfg.get("scalar_sort")
        if h:
            s = h(self, ty)
            if s is not None: return s
        raise Unsupported(f"element sort of {ty.get('s')}")

    def scalar_wrap(self, tid, t):
        ty = self.a.T(tid)
        if ty["k"] in ("int", "enum"): return I(t, ty["w"], ty.get("sg", False))
        if ty["k"] == "bool": return t
        if ty["k"] == "float": return D(t)
        if ty["k"] == "rec" and ty["n"] == "std::basic_string": return StrV(t)
        h = self.cfg.get("scalar_wrap")
        if h:
            return h(self, ty, t)
        raise Unsupported("scalar_wrap")

    def scalar_unwrap(self, v):
        if isinstance(v, z3.BoolRef): return v
        if isinstance(v, (I, D, StrV)): return v.t
        h = self.cfg.get("scalar_unwrap")
        if h:
            return h(self, v)
        raise Unsupported(f"scalar_unwrap {type(v).__name__}")

    def isort(self):
        return z3.BitVecSort(64) if self.mode == "bv" else z3.IntSort()

    def vec_fresh(self, ety, name, n=None):
        n = n if n is not None else self.ifresh(name + ".size", 64, False).t
        leaves = {p: z3.Const(self.fresh_name(f"{name}[]" + ".".join(map(str, p))), z3.ArraySort(self.isort(), self.scalar_sort(t)))
                  for p, t in self.leaf_types(ety)}
        return VecV(ety, n, leaves)

    def vec_get(self, v, i):
        lt = self.leaf_types(v.ety)
        if len(lt) == 1 and lt[0][0] == ():
            return self.scalar_wrap(v.ety, z3.Select(v.leaves[()], i))
        def build(tid, prefix):
            ty = self.a.T(tid)
            if ty["k"] == "rec":
                d = self.a.decls[ty["d"]]
                if d.get("scope"):
                    fs = {}
                    for b in d.get("bases", []):
                        fs.update(build(b, prefix).fields)
                    for f in d["fields"]:
                        fs[f["n"]] = build(f["t"], prefix + (f["n"],))
                    return StructV(ty["d"], fs)
                if ty["n"] == "std::pair":
                    ta = d["targs"]
                    return PairV(build(ta[0]["t"], prefix + ("first",)), build(ta[1]["t"], prefix + ("second",)))
            t = z3.Select(v.leaves[prefix], i)
            w = self.scalar_wrap(tid, t)
            if isinstance(w, I) and self.mode != "bv":
                self.range_hint(t, w)
            return w
        return build(v.ety, ())

    def range_hint(self, t, w):
        """elements of machine type are in range (type invariant of the storage)"""
        self.assume(self.in_range(t, w.w, w.sg))

    def vec_set(self, v, i, rest, new):
        leaves = dict(v.leaves)
        def put(prefix, val):
            if isinstance(val, StructV):
                for k, x in val.fields.items():
                    put(prefix + (k,), x)
            elif isinstance(val, PairV):
                put(prefix + ("first",), val.first); put(prefix + ("second",), val.second)
            else:
                if prefix not in leaves:
                    raise Unsupported(f"vec leaf {prefix}")
                leaves[prefix] = z3.Store(leaves[prefix], i, self.scalar_unwrap(val))
        put(tuple(k if k not in (0, 1) else ("first", "second")[k] for k in rest), new)
        return VecV(v.ety, v.n, leaves)

    # ---- fresh symbolic values by type
    def fresh(self, tid, name):
        h = self.cfg.get("fresh")
        if h:
            r = h(self, tid, name)
            if r is not None: return r
        ty = self.a.T(tid)
        k = ty["k"]
        if k in ("int", "enum"): return self.ifresh(name, ty["w"], ty.get("sg", False))
        if k == "bool": return z3.Bool(self.fresh_name(name))
        if k == "float": return D(z3.Const(self.fresh_name(name), z3.Float64() if self.fp == "fp" else z3.RealSort()))
        if k == "rec":
            n = ty["n"]; d = self.a.decls[ty["d"]]
            if n == "std::basic_string": return StrV(z3.Const(self.fresh_name(name), Str))
            if n == "std::pair": return PairV(self.fresh(d["targs"][0]["t"], name + ".first"), self.fresh(d["targs"][1]["t"], name + ".second"))
            if n == "std::optional": return OptV(z3.Bool(self.fresh_name(name + ".has")), self.fresh(d["targs"][0]["t"], name + ".val"))
            if n in ("std::vector", "std::deque", "sfl::segmented_vector"): return self.vec_fresh(d["targs"][0]["t"], name)
            if d.get("scope"):
                fs = {}
                for b in d.get("bases", []):
                    fs.update(self.fresh(b, name).fields)
                for f in d["fields"]:
                    fs[f["n"]] = self.fresh(f["t"], name + "." + f["n"])
                return StructV(ty["d"], fs)
            if n == "std::variant":
                alts = [x["t"] for x in d["targs"]]
                idx = z3.Int(self.fresh_name(name + ".idx"))
                self.assume(z3.And(idx >= 0, idx < len(alts)))
                return VarV(alts, idx, {i: self.fresh(t, f"{name}.{i}") for i, t in enumerate(alts)})
            if n == "std::monostate": return OpaqueV("monostate")
        raise Unsupported(f"fresh value of type {ty.get('s')}")

    def havoc_value(self, v, name, path=()):
        """fresh value of the same shape; path may contain 'e*' markers"""
        if path:
            k, rest = path[0], path[1:]
            if hasattr(v, "havoc_elem") and k == ("e*",): return v.havoc_elem(self, name, tuple(rest))
            if isinstance(v, VecV):
                if k == ("e*",):
                    leaves = dict(v.leaves)
                    rest = tuple(rest)
                    for p in leaves:
                        if p[:len(rest)] == rest:
                            leaves[p] = z3.Const(self.fresh_name(f"{name}[]"), leaves[p].sort())
                    return VecV(v.ety, v.n, leaves)
            if isinstance(v, StructV):
                return v.with_(k, self.havoc_value(v.fields[k], f"{name}.{k}", rest))
            if isinstance(v, PairV):
                if k in ("first", 0): return PairV(self.havoc_value(v.first, name, rest), v.second)
                return PairV(v.first, self.havoc_value(v.second, name, rest))
            if isinstance(v, OptV): return OptV(v.has, self.havoc_value(v.val, name, rest))
            if isinstance(v, OpaqueV) and isinstance(v.data, dict):
                d = dict(v.data); d[k] = self.havoc_value(d[k], name, rest); return OpaqueV(v.tag, d)
            return self.havoc_value(v, name)
        if isinstance(v, I): return self.ifresh(name, v.w, v.sg)
        if isinstance(v, z3.BoolRef): return z3.Bool(self.fresh_name(name))
        if isinstance(v, D): return D(z3.Const(self.fresh_name(name), v.t.sort()))
        if isinstance(v, StrV): return StrV(z3.Const(self.fresh_name(name), Str))
        if isinstance(v, SeqV): return SeqV(v.enc, z3.Const(self.fresh_name(name), v.t.sort()))
        if isinstance(v, ViewV):
            off = self.ifresh(name + ".off", 64, False).t; ln = self.ifresh(name + ".len", 64, False).t
            return ViewV(v.base, off, ln)
        if isinstance(v, StructV): return StructV(v.rec, {k: self.havoc_value(x, f"{name}.{k}") for k, x in v.fields.items()})
        if isinstance(v, PairV): return PairV(self.havoc_value(v.first, name), self.havoc_value(v.second, name))
        if isinstance(v, OptV): return OptV(z3.Bool(self.fresh_name(name + ".has")), self.havoc_value(v.val, name) if v.val is not None else None)
        if isinstance(v, VecV): return self.vec_fresh(v.ety, name)
        if isinstance(v, OpaqueV) and isinstance(v.data, dict):
            return OpaqueV(v.tag, {k: self.havoc_value(x, f"{name}.{k}") for k, x in v.data.items()})
        if isinstance(v, OpaqueV) and isinstance(v.data, z3.ExprRef): return OpaqueV(v.tag, z3.Const(self.fresh_name(name), v.data.sort()))
        h = self.cfg.get("havoc")
        if h:
            r = h(self, v, name)
            if r is not None: return r
        raise Unsupported(f"havoc of {type(v).__name__}")

    # ---- types
    def T(self, tid): return self.a.T(tid)

    def tint(self, tid):
        ty = self.T(tid)
        return ty["w"], ty.get("sg", False)

    def default_value(self, tid):
        ty = self.T(tid)
        k = ty["k"]
        if k in ("int", "enum"): return self.iconst(0, ty["w"], ty.get("sg", False))
        if k == "bool": return z3.BoolVal(False)
        if k == "float": return D(z3.FPVal(0.0, z3.Float64()) if self.fp == "fp" else z3.RealVal(0))
        if k in ("ptr", "nullptr"): return P(None)
        if k == "rec":
            return self.builtin_construct(tid, [], None)
        if k == "array":
            return ArrV([self.default_value(ty["to"]) for _ in range(ty["size"])])
        raise Unsupported(f"default value of {ty.get('s')}")

    # ---- calls
    def call(self, fid, this, args, node=None):
        """args: list of (node-evaluated) values/LVs already bound per parameter type"""
        qn = self.a.fname(fid)
        c = self.contracts.get(qn)
        if c is not None:
            r = c(self, fid, this, args)
            if r is not NotImplemented:
                if not self.nested: self.stats.contracts.add(qn)
                return r
        d = self.a.decls[fid]
        body = self.a.funcs.get(fid)
        if body is not None and qn not in self.noinline:
            return self.inline(fid, this, args)
        b = self.builtins.get(qn)
        if b is not None:
            r = b(self, fid, this, args, node)
            if r is not NotImplemented:
                self.stats.builtins.add(qn)
                return r
        if d.get("ctor") or d.get("dk") == "CXXConstructor":
            r = self.implicit_ctor(fid, this, args, node)
            if r is not NotImplemented: return r
        raise Unsupported(f"call to {qn} without body, contract or model")

    def implicit_ctor(self, fid, this, args, node):
        d = self.a.decls[fid]
        if d.get("ctor") in ("copy", "move") and len(args) == 1:
            self.set(this, self.load(args[0]))
            return VOID
        if d.get("ctor") == "default" and not args:
            rec = self.a.decls[d["parent"]]
            if rec.get("scope"):
                self.init_fields_default(this, rec)
                return VOID
        return NotImplemented

    def final_overrider(self, rec, fid):
        """the function a virtual call of `fid` on an object of dynamic class `rec` reaches"""
        key = (rec, fid)
        c = self.ovr_cache
        if key in c: return c[key]
        def overrides(m):
            if m == fid: return True
            return any(overrides(o) for o in self.a.decls[m].get("overrides", []) or [] if o in self.a.decls)
        def find(rr):
            d = self.a.decls[rr]
            for m in d.get("methods", []):
                if m in self.a.decls and overrides(m): return m
            for b in d.get("bases", []):
                x = find(self.a.T(b)["d"])
                if x is not None: return x
            return None
        c[key] = find(rec)
        return c[key]

    def virtual_target(self, fid, this):
        v = self.peek(this)
        if isinstance(v, StructV):
            t = self.final_overrider(v.rec, fid)
            if t is not None: return t
        return fid

    def dtor_of(self, tid):
        """user-provided destructor of a class of the repository, if it has a body"""
        ty = self.T(tid)
        if ty["k"] != "rec": return None
        for m in self.a.decls[ty["d"]].get("methods", []):
            if m in self.a.decls and self.a.decls[m]["dk"] == "CXXDestructor" and m in self.a.funcs: return m
        return None

    def inline(self, fid, this, args, clos=None):
        f = self.a.funcs[fid]
        if len(self.frames) > self.max_inline:
            raise Unsupported(f"inline depth exceeded at {self.a.fname(fid)}")
        rec = self.cfg.get("recurse")
        if rec:
            r = rec(self, fid, this, args, clos)
            if r is not NotImplemented: return r
        if sum(1 for fr in self.frames if fr.fid == fid) > 1:
            raise Unsupported(f"recursive call of {self.a.fname(fid)} without a contract")
        self.stats.inlined.add(self.a.fname(fid))
        fr = Frame(fid, this, clos)
        for p, a in zip(f["params"], args):
            ty = self.T(p["t"])
            if ty["k"] == "ref":
                fr.vars[p["d"]] = a if isinstance(a, LV) else self.new_lv(a, p["n"], ty["to"])
            else:
                fr.vars[p["d"]] = self.new_lv(self.load(a), p["n"], p["t"])
        self.frames.append(fr)
        try:
            d = self.a.decls[fid]
            if d["dk"] == "CXXConstructor":
                self.ctor_inits(f, d, this)
            try:
                self.st(f["body"])
            except ReturnEx as r:
                return r.v
            return VOID
        finally:
            self.frames.pop()

    def init_fields_default(self, this, rec, skip=()):
        fs = {}
        cur = this.root.v
        for k in this.path:
            cur = sv_get(self, cur, k) if cur is not None else None
        if not isinstance(cur, StructV):
            self.set_raw(this, StructV(rec["id"], {}))
        for f in rec.get("fields", []):
            if f["n"] in skip: continue
            if "init" in f:
                self.frames.append(Frame(None, this))
                try:
                    self.set(this.sub(f["n"]), self.init_value(f["init"], f["t"]))
                finally:
                    self.frames.pop()
            else:
                ty = self.T(f["t"])
                if ty["k"] == "rec":
                    self.set(this.sub(f["n"]), self.default_value(f["t"]))
                else:
                    self.set(this.sub(f["n"]), self.uninit(f["t"], f["n"]))

    def uninit(self, tid, name):
        try:
            return self.fresh(tid, "uninit_" + name)
        except Unsupported:
            return None

    def set_raw(self, lv, v):
        self.set(lv, v)

    def ctor_inits(self, f, d, this):
        rec = self.a.decls[d["parent"]]
        for i in f.get("inits", []):
            if i.get("deleg"):
                self.set(this, self.rv(i["e"]))
                return
        cur = this.root.v
        for k in this.path:
            cur = sv_get(self, cur, k) if cur is not None else None
        if not isinstance(cur, StructV):
            self.set(this, StructV(rec["id"], {}))
        for i in f.get("inits", []):
            if "base" in i:
                bt = self.T(i["base"])
                e = i["e"]
                bd = self.a.decls[bt["d"]]
                if bd.get("scope"):
                    v = self.rv(e)
                    if isinstance(v, StructV):
                        st = self.get(this)
                        ff = dict(st.fields); ff.update(v.fields)
                        self.set(this, StructV(st.rec, ff))
                continue
            m = i.get("m")
            fld = next((x for x in rec["fields"] if x["n"] == m), None)
            ft = fld["t"] if fld else None
            ty = self.T(ft)
            if ty["k"] == "ref":
                v = self.ev(i["e"])
                v = P(v) if isinstance(v, LV) else P(self.new_lv(v, m))
                v.isref = True
            else:
                v = self.init_value(i["e"], ft)
            self.set(this.sub(m), v)
        inited = {i.get("m") for i in f.get("inits", [])}
        st = self.get(this)
        for fld in rec.get("fields", []):
            if fld["n"] not in inited and fld["n"] not in st.fields:
                self.set(this.sub(fld["n"]), self.default_value(fld["t"]) if self.T(fld["t"])["k"] == "rec" else self.uninit(fld["t"], fld["n"]))

    def load(self, x):
        return self.get(x) if isinstance(x, LV) else x

    def call_closure(self, v, args, node=None, fid=None):
        if isinstance(v, FnV):
            h = self.cfg.get("call_fn")
            if h:
                r = h(self, v, args)
                if r is not NotImplemented: return r
            if isinstance(v.fn, (ClosV, FnV)): return self.call_closure(v.fn, args, node)
            return v.fn(self, args)
        if isinstance(v, ClosV):
            op = fid if fid is not None else v.op
            if op not in self.a.funcs:      # generic lambda called from library code: pick the instantiation for these arguments
                specs = [m for m in (self.a.decls[v.cls].get("callspecs") or []) if m in self.a.funcs]
                specs = [m for m in specs if self.args_fit(m, args)] if len(specs) > 1 else specs
                if len(specs) != 1: raise Unsupported("generic lambda instantiation")
                op = specs[0]
            return self.inline(op, v.this, args, clos=v)
        if isinstance(v, FuncRef):
            return self.call(v.fid, None, args, node)
        if isinstance(v, StructV):
            rec = self.a.decls[v.rec]
            ops = [m for m in rec.get("methods", []) if self.a.decls[m].get("oo") == "()" and m in self.a.funcs]
            if fid is not None:
                return self.call(fid, self.new_lv(v, "functor"), args, node)
            if len(ops) == 1:
                return self.call(ops[0], self.new_lv(v, "functor"), args, node)
        raise Unsupported(f"call of {type(v).__name__}")

    def args_fit(self, fid, args):
        ps = self.a.funcs[fid]["params"]
        if len(ps) != len(args): return False
        for p, a in zip(ps, args):
            v = self.load(a); ty = self.T(self.a.noref(p["t"]))
            if isinstance(v, I) and not (ty["k"] in ("int", "enum") and ty["w"] == v.w): return False
            if isinstance(v, D) and ty["k"] != "float": return False
            if isinstance(v, StrV) and not (ty["k"] == "rec" and ty["n"] == "std::basic_string"): return False
            if isinstance(v, z3.BoolRef) and ty["k"] != "bool": return False
        return True

    def bind_args(self, arg_nodes, fid):
        """evaluate call arguments per parameter kind"""
        d = self.a.decls[fid]
        ps = d.get("params", [])
        out = []
        for i, n in enumerate(arg_nodes):
            pt = self.T(ps[i]["t"]) if i < len(ps) else None
            if pt is not None and pt["k"] == "ref":
                out.append(self.ev(n))
            else:
                out.append(self.rv(n))
        return out

    # ---- statements
    def st(self, n):
        if n is None: return
        if callable(n): return n()
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m: return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        if not self.cfg.get("dtors"):
            for c in n["c"]: self.st(c)
            return
        mark = len(self.locals)
        def unwind():
            while len(self.locals) > mark:
                lv, m = self.locals.pop()
                if callable(m): m(lv)
                else: self.inline(m, lv, [])
        try:
            for c in n["c"]: self.st(c)
        except PathEnd:
            raise
        except Exception:
            unwind(); raise
        unwind()

    def s_NullStmt(self, n): pass

    def s_DeclStmt(self, n):
        for v in n["decls"]: self.decl_var(v)

    def s_VarDecl(self, v): self.decl_var(v)

    def decl_var(self, v):
        fr = self.frames[-1]
        ty = self.T(v["t"])
        if v.get("static"):
            key = (v["d"], self.thread) if v.get("tls") else v["d"]
            if key not in self.statics:
                self.statics[key] = self.new_lv(self.init_value(v["init"], v["t"]), v["n"], v["t"])
            fr.vars[v["d"]] = self.statics[key]
            return
        if ty["k"] == "ref":
            x = self.ev(v["init"])
            fr.vars[v["d"]] = x if isinstance(x, LV) else self.new_lv(x, v["n"], ty["to"])
        elif "init" in v:
            if ty["k"] == "rec" and ty["n"] == "std::function":      # may capture itself
                fr.vars[v["d"]] = lv = self.new_lv(None, v["n"], v["t"])
                self.set(lv, self.init_value(v["init"], v["t"]))
            else: fr.vars[v["d"]] = self.new_lv(self.init_value(v["init"], v["t"]), v["n"], v["t"])
        else:
            fr.vars[v["d"]] = self.new_lv(self.uninit(v["t"], v["n"]) if ty["k"] != "rec" else self.default_value(v["t"]), v["n"], v["t"])
        if self.cfg.get("dtors") and ty["k"] == "rec":
            h = self.cfg.get("scoped")       # what happens when a library object goes out of scope
            m = h(self, fr.vars[v["d"]], ty) if h else None
            if m is None: m = self.dtor_of(v["t"])
            if m is not None: self.locals.append((fr.vars[v["d"]], m))
        if "bindings" in v:
            base = fr.vars[v["d"]]
            bv = self.get(base)
            for i, b in enumerate(v["bindings"]):
                if isinstance(bv, PairV):
                    fr.vars[b["d"]] = base.sub("first" if i == 0 else "second")
                    if "hold" in b: fr.vars[b["hold"]["d"]] = fr.vars[b["d"]]
                elif isinstance(bv, StructV):
                    rec = self.a.decls[bv.rec]
                    fr.vars[b["d"]] = base.sub(rec["fields"][i]["n"])
                else:
                    raise Unsupported("structured binding of " + type(bv).__name__)
                tgt = self.get(fr.vars[b["d"]])
                if isinstance(tgt, P) and getattr(tgt, "isref", False): fr.vars[b["d"]] = tgt.lv

    def init_value(self, n, tid):
        ty = self.T(tid)
        if n["k"] == "InitListExpr":
            return self.init_list(n, tid)
        v = self.rv(n)
        return self.coerce(v, tid)

    def coerce(self, v, tid):
        ty = self.T(tid)
        if ty["k"] == "bool" and not isinstance(v, z3.BoolRef): return self.as_bool(v)
        if ty["k"] == "array" and isinstance(v, CStr):
            return ArrV([self.iconst(b, 8, True) for b in v.b + b"\0"])
        return v

    def init_list(self, n, tid):
        ty = self.T(tid)
        if ty["k"] == "array":
            items = [self.init_value(c, ty["to"]) for c in n["c"]]
            while len(items) < ty["size"]:
                items.append(self.init_value(n["filler"], ty["to"]) if "filler" in n else self.default_value(ty["to"]))
            return ArrV(items)
        if ty["k"] == "rec":
            d = self.a.decls[ty["d"]]
            if ty["n"] == "std::initializer_list":
                return ArrV([self.rv(c) for c in n["c"]])
            fs = {}
            items = list(n["c"])
            for b in d.get("bases", []):
                c = items.pop(0)
                v = self.rv(c) if c["k"] != "InitListExpr" else self.init_list(c, b)
                if isinstance(v, StructV): fs.update(v.fields)
            for f, c in zip(d.get("fields", []), items):
                if self.T(f["t"])["k"] == "ref":
                    x = self.ev(c); x = P(x if isinstance(x, LV) else self.new_lv(x)); x.isref = True
                    fs[f["n"]] = x
                else:
                    fs[f["n"]] = self.init_value(c, f["t"])
            return StructV(ty["d"], fs)
        if len(n["c"]) == 0: return self.default_value(tid)
        if len(n["c"]) == 1: return self.coerce(self.rv(n["c"][0]), tid)
        raise Unsupported("init list")

    def cond(self, n):
        return self.branch(self.as_bool(self.rv(n)))

    def s_IfStmt(self, n):
        if "init" in n: self.st(n["init"])
        if "constexpr" in n and "cval" in n:
            if n["cval"]: self.st(n["then"])
            elif "else" in n: self.st(n["else"])
            return
        if "cvar" in n: self.st(n["cvar"])
        if self.cond(n["cond"]): self.st(n["then"])
        elif "else" in n: self.st(n["else"])

    def s_ReturnStmt(self, n):
        c = n.get("c", [])
        fr = self.frames[-1]
        if not c or c[0] is None:
            raise ReturnEx(VOID)
        fid = fr.fid
        rt = self.T(self.a.decls[fid]["ret"]) if fid is not None else None
        if rt is not None and rt["k"] == "ref":
            raise ReturnEx(self.ev(c[0]))
        if rt is not None and rt["k"] == "void":
            self.ev(c[0]); raise ReturnEx(VOID)
        if c[0]["k"] == "InitListExpr":
            raise ReturnEx(self.init_list(c[0], self.a.decls[fid]["ret"]))
        v = self.rv(c[0])
        if rt is not None: v = self.coerce(v, self.a.decls[fid]["ret"])
        raise ReturnEx(v)

    def s_BreakStmt(self, n): raise BreakEx()
    def s_ContinueStmt(self, n): raise ContinueEx()

    def s_SwitchStmt(self, n):
        if "init" in n: self.st(n["init"])
        if "cvar" in n: self.st(n["cvar"])
        v = self.rv(n["cond"])
        items = []   # flat list of ('case', valnode) / ('default',) / ('stmt', s)
        def flat(s):
            if s["k"] == "CaseStmt": items.append(("case", s["v"])); flat(s["sub"])
            elif s["k"] == "DefaultStmt": items.append(("default",)); flat(s["sub"])
            else: items.append(("stmt", s))
        body = n["body"]
        for s in (body["c"] if body["k"] == "CompoundStmt" else [body]): flat(s)
        start = None; dflt = None
        for i, it in enumerate(items):
            if it[0] == "default": dflt = i
            if it[0] == "case":
                cv = self.rv(it[1])
                if self.branch(self.compare("==", v, cv)):
                    start = i; break
        if start is None: start = dflt
        if start is None: return
        try:
            for it in items[start:]:
                if it[0] == "stmt": self.st(it[1])
        except BreakEx:
            pass

    def s_CXXTryStmt(self, n):
        try:
            self.st(n["body"])
        except CppThrow as e:
            for h in n["handlers"]:
                if "var" not in h or self.exc_matches(e.ty, h["ct"]):
                    fr = self.frames[-1]
                    if "var" in h:
                        fr.vars[h["var"]["d"]] = self.new_lv(e.val if e.val is not None else OpaqueV("exc"), h["var"]["n"])
                    self.cur_exc = e
                    return self.st(h["body"])
            raise

    STD_EXC = {"std::runtime_error": ["std::exception"], "std::out_of_range": ["std::logic_error", "std::exception"],
               "std::logic_error": ["std::exception"], "std::overflow_error": ["std::runtime_error", "std::exception"],
               "std::invalid_argument": ["std::logic_error", "std::exception"], "std::exception": [],
               "std::bad_variant_access": ["std::exception"], "std::length_error": ["std::logic_error", "std::exception"]}

    def exc_matches(self, thrown, ct):
        name = self.a.recname(ct)
        if name == thrown: return True
        bases = list(self.STD_EXC.get(thrown, []))
        for r in self.a.rec_by_name.get(thrown, []):
            for b in self.a.decls[r].get("bases", []):
                bn = self.a.T(b)["n"]; bases += [bn] + self.STD_EXC.get(bn, [])
        return name in bases

    # ---- loops
    def s_DoStmt(self, n):
        try:
            self.st(n["body"])
        except BreakEx: return
        except ContinueEx: pass
        self.loop(n, n["cond"], n["body"], None)

    def s_WhileStmt(self, n):
        if "cvar" in n: raise Unsupported("while with condition variable")
        self.loop(n, n["cond"], n["body"], None)

    def s_ForStmt(self, n):
        if "init" in n: self.st(n["init"])
        self.loop(n, n.get("cond"), n["body"], n.get("inc"))

    def s_CXXForRangeStmt(self, n):
        if "init" in n: self.st(n["init"])
        self.st(n["range"])
        rng = n["range"]["decls"][0]["d"]
        lv = self.frames[-1].vars[rng]
        v = self.get(lv)
        if isinstance(v, (ArrV, MapV)):
            lvd = n["var"]["decls"][0]
            items = v.items
            for i in range(len(items)):
                el = lv.sub(("e", i)) if isinstance(v, ArrV) else self.new_lv(PairV(*items[i]), "kv")
                self.bind_loop_var(lvd, el)
                try: self.st(n["body"])
                except BreakEx: break
                except ContinueEx: pass
            return
        h = self.cfg.get("range_for")
        if h and h(self, n, lv, v) is not NotImplemented:
            return
        if isinstance(v, (VecV, SeqV)) or "begin" not in n or self.is_builtin_container(v):
            ir = self.new_lv(self.iconst(0, 64, False), "__i")
            def cnd(): 
                return self.compare("<", self.get(ir), I(self.seq_len(self.get(lv)), 64, False))
            def inc():
                self.set(ir, I(z3.simplify(self.get(ir).t + 1), 64, False))
            lvd = n["var"]["decls"][0]
            def pre():
                self.bind_loop_var(lvd, self.seq_elem(lv, self.get(ir).t))
            self.loop(n, cnd, n["body"], inc, pre=pre, extra={"index": ir, "range": lv})
            return
        self.st(n["begin"]); self.st(n["end"])
        self.loop(n, n["cond"], n["body"], n["inc"], pre=lambda: self.st(n["var"]), extra={"range": lv})

    def is_builtin_container(self, v): return isinstance(v, (ViewV, StrV))

    def seq_len(self, v):
        if isinstance(v, VecV): return v.n
        if isinstance(v, ViewV): return v.len
        h = self.cfg.get("seq_len")
        if h: return h(self, v)
        raise Unsupported(f"length of {type(v).__name__}")

    def seq_elem(self, lv, i):
        v = self.get(lv)
        if isinstance(v, VecV): return lv.sub(("e", i))
        if isinstance(v, ViewV): return self.new_lv(I(v.base.at(z3.simplify(v.off + i)), 8, True), "c")
        h = self.cfg.get("seq_elem")
        if h: return h(self, lv, v, i)
        raise Unsupported(f"element of {type(v).__name__}")

    def bind_loop_var(self, vd, el):
        fr = self.frames[-1]
        ty = self.T(vd["t"])
        if ty["k"] == "ref": fr.vars[vd["d"]] = el
        else: fr.vars[vd["d"]] = self.new_lv(self.get(el), vd["n"])
        if "bindings" in vd:
            base = fr.vars[vd["d"]]
            for i, b in enumerate(vd["bindings"]):
                bv = self.get(base)
                key = ("first", "second")[i] if isinstance(bv, PairV) else self.a.decls[bv.rec]["fields"][i]["n"]
                fr.vars[b["d"]] = base.sub(key)
                if "hold" in b: fr.vars[b["hold"]["d"]] = fr.vars[b["d"]]

    def run_cond(self, cond):
        if cond is None: return z3.BoolVal(True)
        if callable(cond): return cond()
        return self.as_bool(self.rv(cond))

    def run_inc(self, inc):
        if inc is None: return
        if callable(inc): inc()
        else: self.ev(inc)

    def static_trip(self, n, cond): return None

    def loop(self, n, cond, body, inc, pre=None, extra=None):
        # 1. concrete unrolling while the condition is decided by the path (bounded constant loops)
        limit = self.cfg.get("concrete_unroll", 64)
        it = 0
        if self.unroll_limit:
            while True:
                if it >= self.unroll_limit: raise PathEnd()
                it += 1
                if not self.branch(self.run_cond(cond)): return
                if pre: pre()
                try: self.st(body)
                except BreakEx: return
                except ContinueEx: pass
                self.run_inc(inc)
        endless = isinstance(cond, dict) and cond.get("k") in ("CXXBoolLiteralExpr", "IntegerLiteral")
        while it < limit and self.cfg.get("unroll_concrete", True) and not endless:
            mark = len(self.journal); ntrail = len(self.trail)
            c = None
            if cond is None: break
            # try to decide the condition syntactically, without branching
            save = self.nobranch
            self.nobranch = True
            try:
                c = z3.simplify(self.run_cond(cond))
            except (NoBranch, Unsupported):
                c = None
            finally:
                self.nobranch = save
                self.undo(mark)
            if c is None or not (z3.is_true(c) or z3.is_false(c)): break
            if z3.is_false(c):
                self.run_cond(cond)
                return
            self.run_cond(cond)
            it += 1
            if pre: pre()
            try: self.st(body)
            except BreakEx: return
            except ContinueEx: pass
            self.run_inc(inc)
        self.cut_loop(n, cond, body, inc, pre, extra)

    nobranch = False
    ncache, memo = {}, {}

    def cut_loop(self, n, cond, body, inc, pre, extra):
        if self.loop_candidates is None:
            raise Unsupported(f"loop without invariant at line {n.get('l')} in {self.where()}")
        entry_roots = {}
        # ---- determine the write set by fixpoint over nested exploration
        key = (tuple(self.trail), n.get("l"), n["k"], self.nested, len(self.frames))
        cached = self.ncache.get(key) if self.nested else self.loop_cache.get(key)
        # what an earlier round of an enclosing loop found here is where the search starts (every survivor is proved again)
        memo = self.memo.setdefault(key, {}) if self.nested else {}
        outer_memo = self.memo
        if cached is None:
            self.memo = memo.setdefault("w", {})
            H = memo["H"] = self.loop_writes(n, cond, body, inc, pre, memo.get("H", ()))
        else:
            H = cached[0]
        ctx = LoopCtx(self, n, H, extra or {})
        cands, variants = self.loop_candidates(self, ctx)
        # each candidate: (name, closure evaluated at the current state -> BoolRef | None)
        ctx.at_entry = True
        if cached is None:
            alive = []
            for nm, f in cands:
                try: c = f()
                except Unsupported: continue
                if c is None: continue
                if "alive" in memo and nm not in memo["alive"]: continue
                if self.entail_ob(c): alive.append(nm)
            vs = [nm for nm, _ in variants]
            self.memo = memo.setdefault("h", {})
            alive, vs, nob = self.houdini(n, cond, body, inc, pre, H, ctx, cands, variants, alive, vs)
            memo["alive"] = set(alive)
            self.memo = outer_memo
            if self.nested: self.ncache[key] = (H, alive, vs)
            if not self.nested:
                self.loop_cache[key] = (H, alive, vs)
                self.stats.obligations += nob; self.stats.discharged += nob
                self.stats.labels["loop invariants (initiation+preservation)"] = self.stats.labels.get("loop invariants (initiation+preservation)", 0) + nob
                self.stats.loops.append({"fn": self.where(), "line": n.get("l"), "invariants": alive, "variants": vs})
                if self.cfg.get("termination", True):
                    self.check(z3.BoolVal(bool(vs)), f"{self.where()}: loop terminates (a decreasing variant exists)", "termination")
        else:
            _, alive, vs = cached
        # ---- continue with an arbitrary iteration
        self.havoc_set(H, ctx)
        for nm, f in cands:
            if nm in alive:
                c = f()
                if c is not None: self.assume(c)
        if not self.branch(self.run_cond(cond)):
            return
        if pre: pre()
        try:
            self.st(body)
        except BreakEx:
            return
        except ContinueEx:
            pass
        raise PathEnd()   # preservation was established in houdini()

    def havoc_set(self, H, ctx):
        done = set()
        for (o, path) in sorted(H, key=lambda x: (x[0], len(x[1]), str(x[1]))):
            if any((o, path[:i]) in done for i in range(len(path))): continue
            done.add((o, path))
            r = self.roots[o]
            self.journal.append((r, r.v))
            r.v = self.havoc_value(r.v, f"{r.name}@L{ctx.n.get('l')}", path)

    def loop_writes(self, n, cond, body, inc, pre, H0=()):
        H = set(H0)
        saved_w = self.writes
        saved_wr = getattr(self, "write_roots", {})
        limit_ord = self.ordn + 1
        for _ in range(8):
            W = set(); self.writes = W; self.write_roots = {}
            def one():
                if H:
                    fake = LoopCtx(self, n, H, {})
                    self.havoc_set(H, fake)
                if not self.branch(self.run_cond(cond)): raise PathEnd()
                if pre: pre()
                try: self.st(body)
                except (BreakEx,): raise PathEnd()
                except ContinueEx: pass
                self.run_inc(inc)
            self.explore_nested(one)
            new = {(o, p) for (o, p) in W if o < limit_ord}
            if saved_w is not None: saved_w |= new
            if new <= H: break
            H |= new
        else:
            raise Unsupported("loop write set does not stabilise")
        self.writes = saved_w
        self.write_roots = saved_wr
        return H

    def explore_nested(self, run, on_end=None):
        """explore all paths of `run` from the current state, restoring it afterwards"""
        sv = (self.prefix, self.trail, self.idx, getattr(self, "pend_out", None), self.pc, self.solver, list(self.frames), self.fresh_n, self.ordn)
        mark = len(self.journal)
        pend = [[]]
        count = 0
        base_vars = [dict(f.vars) for f in self.frames]
        statics = dict(self.statics)
        ncache, self.ncache = self.ncache, {}
        while pend:
            p = pend.pop()
            count += 1
            if count > 4000: raise Unsupported("too many paths in loop body")
            self.prefix, self.trail, self.idx, self.pend_out = list(p), [], 0, pend
            self.fresh_n, self.ordn = sv[7], sv[8]
            self.pc = list(sv[4])
            self.solver = z3.Solver(); self.solver.set("timeout", self.cfg.get("feas_ms", 3000)); self.solver.add(*self.pc)
            self.nested += 1
            try:
                run()
                if on_end: on_end()
            except (PathEnd, ReturnEx, CppThrow):
                pass
            finally:
                self.nested -= 1
                self.undo(mark)
                self.frames = list(sv[6])
                for f, bv in zip(self.frames, base_vars): f.vars = dict(bv)
                self.statics = dict(statics)
        self.prefix, self.trail, self.idx, self.pend_out, self.pc, self.solver = sv[:6]
        self.frames = sv[6]
        self.fresh_n, self.ordn = sv[7], sv[8]
        self.ncache = ncache

    def houdini(self, n, cond, body, inc, pre, H, ctx, cands, variants, alive, vs):
        cd = dict(cands); vd = dict(variants)
        nob = len(alive)
        for rnd in range(40):
            bad = set(); badv = set(); cnt = [0]
            def one():
                self.havoc_set(H, ctx)
                own = {}
                for nm in alive:
                    c = cd[nm]()
                    if c is None: continue
                    if ctx.is_spec(nm): own[nm] = c      # "result unchanged" facts: each is its own induction hypothesis
                    else: self.assume(c)
                v0 = {}
                for v in vs:
                    try: v0[v] = vd[v]()
                    except Unsupported: badv.add(v)
                if not self.branch(self.run_cond(cond)): raise PathEnd()
                if pre: pre()
                try: self.st(body)
                except BreakEx: raise PathEnd()
                except ContinueEx: pass
                self.run_inc(inc)
                for nm in alive:
                    if nm in bad: continue
                    try: c = cd[nm]()
                    except Unsupported: bad.add(nm); continue
                    cnt[0] += 1
                    if c is None or not self.entail_ob(c, extra=[own[nm]] if nm in own else ()): bad.add(nm)
                for v in vs:
                    if v in badv: continue
                    try: x = vd[v]()
                    except Unsupported: badv.add(v); continue
                    if x is None or v0.get(v) is None: badv.add(v); continue
                    cnt[0] += 1
                    dec = z3.And(z3.ULT(x, v0[v])) if z3.is_bv(x) else z3.And(x < v0[v], v0[v] >= 0)
                    if not self.entail_ob(dec): badv.add(v)
            self.explore_nested(one)
            if not bad and not badv:
                return alive, vs, nob + cnt[0]
            if self.cfg.get("debug_loops"): print("houdini drop", n.get("l"), bad, badv)
            alive = [a for a in alive if a not in bad]
            vs = [v for v in vs if v not in badv]
        raise Unsupported("houdini did not converge")

    # ---- expressions
    def ev(self, n):
        k = n["k"]
        if "cv" in n and "lv" not in n:
            ty = self.T(n["t"])
            if ty["k"] in ("int", "enum"): return self.iconst(int(n["cv"]), ty["w"], ty.get("sg", False))
            if ty["k"] == "bool": return z3.BoolVal(int(n["cv"]) != 0)
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported(f"expression {k} at line {n.get('l')} in {self.where()}")
        return m(n)

    def rv(self, n):
        return self.load(self.ev(n))

    def fsort(self, tid):
        """sort of a floating point type; a value of a narrower type is kept as the double it equals"""
        w = self.T(tid).get("w")
        if w == 64: return z3.Float64()
        if w == 32 and self.fp == "fp": return z3.Float32()
        raise Unsupported(f"{w} bit floating point type")

    def fwide(self, t):
        return D(t if t.sort() == z3.Float64() else z3.fpFPToFP(z3.RNE(), t, z3.Float64()))

    def e_IntegerLiteral(self, n):
        w, sg = self.tint(n["t"]); return self.iconst(int(n["v"]), w, sg)

    def e_CharacterLiteral(self, n):
        w, sg = self.tint(n["t"]); return self.iconst(n["v"], w, sg)

    def e_CXXBoolLiteralExpr(self, n): return z3.BoolVal(n["v"])

    def e_FloatingLiteral(self, n):
        return D(z3.FPVal(n["v"], z3.Float64()) if self.fp == "fp" else z3.RealVal(repr(n["v"])))

    def e_StringLiteral(self, n): return self.strlit(n)

    def strlit(self, n):
        return CStr(bytes(n["v"]))

    def e_PredefinedExpr(self, n): return CStr(b"?")
    def e_CXXNullPtrLiteralExpr(self, n): return P(None)
    def e_GNUNullExpr(self, n): return P(None)
    def e_ConstantExpr(self, n): return self.ev(n["c"][0])
    def e_ExprWithCleanups(self, n): return self.ev(n["c"][0])
    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n["c"][0])
        return v if isinstance(v, LV) else self.new_lv(v, "tmp", n["t"])
    def e_CXXDefaultArgExpr(self, n): return self.ev(n["e"])
    def e_CXXDefaultInitExpr(self, n): return self.ev(n["e"])
    def e_SubstNonTypeTemplateParmExpr(self, n): return self.ev(n["c"][0])
    def e_StdInitList(self, n):
        c = n["c"][0]
        while c["k"] in ("MaterializeTemporaryExpr",): c = c["c"][0]
        if c["k"] == "InitListExpr":
            return ArrV([self.rv(x) if x["k"] != "InitListExpr" else self.init_list(x, x["t"]) for x in c["c"]])
        return self.rv(c)
    def e_InitListExpr(self, n): return self.init_list(n, n["t"])
    def e_CXXScalarValueInitExpr(self, n): return self.default_value(n["t"])
    def e_ImplicitValueInitExpr(self, n): return self.default_value(n["t"])
    def e_RequiresExpr(self, n): return z3.BoolVal(True)
    def e_SourceLocExpr(self, n):
        ty = self.T(n["t"])
        if ty["k"] == "int": return self.iconst(0, ty["w"], ty["sg"])
        return CStr(b"?")
    def e_UnaryExprOrTypeTraitExpr(self, n): raise Unsupported("sizeof")
    def e_CXXTypeidExpr(self, n):
        return OpaqueV("typeid", self.a.T(n["tt"]).get("n") if "tt" in n else None)
    def e_CXXNoexceptExpr(self, n): raise Unsupported("noexcept")

    def e_CXXThisExpr(self, n):
        fr = self.frames[-1]
        this = fr.this
        if fr.clos is not None and fr.clos.this is not None: this = fr.clos.this
        if this is None: raise Unsupported("this")
        return P(this)

    def lookup(self, d):
        fr = self.frames[-1]
        if d in fr.vars: return fr.vars[d]
        if fr.clos is not None and d in fr.clos.caps: return fr.clos.caps[d]
        dec = self.a.decls[d]
        if dec.get("tls"): return self.lookup_global((d, self.thread), dec)
        if d in self.statics: return self.statics[d]
        return self.lookup_global(d, dec)

    def lookup_global(self, d, dec):
        if d in self.statics: return self.statics[d]
        if dec.get("global"):
            if d in self.globals: return self.globals[d]
            h = self.cfg.get("global")
            if h:
                v = h(self, dec)
                if v is not None:
                    self.globals[d] = self.new_lv(v, dec["n"]); return self.globals[d]
            if "init" in dec:
                self.frames.append(Frame(None))
                try: v = self.init_value(dec["init"], dec["t"])
                finally: self.frames.pop()
                self.globals[d] = self.new_lv(v, dec["n"], dec["t"])
                return self.globals[d]
        lib = self.LIBVARS.get(dec.get("qn"))
        if lib:
            self.globals[d] = self.new_lv(OpaqueV(lib, dec["n"]), dec["n"]); return self.globals[d]
        raise Unsupported(f"unknown variable {dec.get('qn')}")

    LIBVARS = {"std::nullopt": "nullopt", "std::defer_lock": "lock", "std::adopt_lock": "lock", "std::try_to_lock": "lock", "std::in_place": "in_place"}

    def e_DeclRefExpr(self, n):
        dec = self.a.decls[n["d"]]
        if "ev" in n:
            w, sg = self.tint(n["t"]); return self.iconst(int(n["ev"]), w, sg)
        if dec["dk"] in ("Function", "CXXMethod", "CXXConversion"): return FuncRef(n["d"])
        if dec["dk"] == "Binding" and n["d"] not in self.frames[-1].vars:
            pass
        lv = self.lookup(n["d"])
        return lv

    def e_MemberExpr(self, n):
        dec = self.a.decls[n["d"]]
        if dec["dk"] in ("Function", "CXXMethod", "CXXConversion", "CXXDestructor"):
            return ("method", n["d"], self.this_of(n))
        if dec["dk"] == "Var":
            return self.lookup(n["d"])
        base = self.this_of(n)
        if isinstance(base, LV):
            lv = base.sub(n["n"])
            fv = self.peek(lv)
            if isinstance(fv, P) and getattr(fv, "isref", False): return fv.lv
            return lv
        return sv_get(self, base, n["n"])

    def peek(self, lv):
        v = lv.root.v
        for k in lv.path:
            if v is None: return None
            if isinstance(v, StructV):
                v = v.fields.get(k)
            elif isinstance(v, VecV):
                return None
            else:
                try: v = sv_get(self, v, k)
                except Unsupported: return None
        return v

    def this_of(self, n):
        b = self.ev(n["c"][0])
        if n["arrow"]:
            b = self.load(b)
            return self.deref(b)
        return b

    def deref(self, p):
        if isinstance(p, P):
            nul = p.null if p.null is not None else z3.BoolVal(p.lv is None)
            self.ub(z3.Not(nul), "null pointer dereference")
            if p.lv is None: raise PathEnd()
            return p.lv
        if isinstance(p, CStr): return self.new_lv(self.iconst(p.b[0] if p.b else 0, 8, True))
        h = self.cfg.get("deref")
        if h:
            r = h(self, p)
            if r is not None: return r
        raise Unsupported(f"deref of {type(p).__name__}")

    def e_ArraySubscriptExpr(self, n):
        b = self.ev(n["c"][0]); i = self.rv(n["c"][1])
        bv = self.load(b)
        if isinstance(bv, P) and bv.lv is not None:
            b = bv.lv; bv = self.get(b)
        if isinstance(bv, CStr):
            k = self.concrete_int(i); s = bv.b + b"\0"
            return self.iconst(s[k], 8, True)
        if isinstance(bv, ArrV) and isinstance(b, LV):
            self.ub(z3.And(i.t >= 0, i.t < len(bv.items)), "array index in bounds")
            return b.sub(("e", self.concrete_int(i)))
        raise Unsupported("array subscript")

    # casts
    def e_ImplicitCastExpr(self, n): return self.cast(n)
    def e_CXXStaticCastExpr(self, n): return self.cast(n)
    def e_CStyleCastExpr(self, n): return self.cast(n)
    def e_CXXFunctionalCastExpr(self, n): return self.cast(n)
    def e_CXXReinterpretCastExpr(self, n): return self.cast(n)
    def e_CXXConstCastExpr(self, n): return self.cast(n)
    def e_CXXDynamicCastExpr(self, n):
        h = self.cfg.get("dynamic_cast")
        if h: return h(self, n)
        raise Unsupported("dynamic_cast")

    def cast(self, n):
        ck = n["ck"]; c = n["c"][0]
        if ck == "LValueToRValue":
            return self.load(self.ev(c))
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "UserDefinedConversion", "ConstructorConversion"):
            v = self.ev(c)
            if "lv" not in n and isinstance(v, LV) and ck == "NoOp" and "lv" not in c: return self.load(v)
            return v
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
            return self.ev(c)
        if ck == "ArrayToPointerDecay":
            v = self.ev(c)
            if isinstance(v, CStr): return v
            if isinstance(v, LV):
                if isinstance(self.peek(v), CStr): return self.peek(v)
                return P(v)
            return v
        if ck == "ToVoid":
            self.ev(c); return VOID
        if ck == "IntegralCast":
            ty = self.T(n["t"]); return self.cast_int(self.rv(c), ty["w"], ty.get("sg", False))
        if ck == "IntegralToBoolean": return self.as_bool(self.rv(c))
        if ck in ("PointerToBoolean", "FloatingToBoolean"): return self.as_bool(self.rv(c))
        if ck in ("NullToPointer",): return P(None)
        if ck == "NullToMemberPointer": return P(None)
        if ck == "IntegralToFloating":
            v = self.rv(c)
            if isinstance(v, z3.BoolRef): v = self.cast_int(v, 32, True)
            h = self.cfg.get("int_to_float")
            if h: return h(self, v, self.fsort(n["t"]))
            if self.fp == "fp":
                t = v.t if self.mode == "bv" else z3.Int2BV(v.t, v.w)
                so = self.fsort(n["t"])
                return self.fwide(z3.fpSignedToFP(z3.RNE(), t, so) if v.sg else z3.fpUnsignedToFP(z3.RNE(), t, so))
            self.fsort(n["t"])
            return D(z3.ToReal(v.t))
        if ck == "FloatingToIntegral":
            v = self.rv(c); w, sg = self.tint(n["t"])
            if self.fp == "fp" and self.mode == "bv":
                lo = z3.FPVal(-(2.0 ** (w - 1)) if sg else 0.0, z3.Float64()); hi = z3.FPVal(2.0 ** (w - 1) if sg else 2.0 ** w, z3.Float64())
                self.ub(z3.And(z3.fpGEQ(v.t, lo), z3.fpLT(v.t, hi)), "floating value out of range of integer type")
                return I(z3.fpToSBV(z3.RTZ(), v.t, z3.BitVecSort(w)) if sg else z3.fpToUBV(z3.RTZ(), v.t, z3.BitVecSort(w)), w, sg)
            raise Unsupported("float to int")
        if ck == "FloatingCast":
            v = self.rv(c)
            return self.fwide(z3.fpFPToFP(z3.RNE(), v.t, self.fsort(n["t"]))) if self.fsort(n["t"]) != z3.Float64() else v
        if ck == "BitCast":
            v = self.ev(c)
            h = self.cfg.get("bitcast")
            if h:
                r = h(self, n, v)
                if r is not None: return r
            tt = self.T(n["t"])
            if tt["k"] == "ptr" and isinstance(self.load(v), P):
                p = self.load(v)
                to = self.T(tt["to"])
                q = P(p.lv, p.null, p.off); q.castto = tt["to"]
                return q
            return v
        if ck == "LValueBitCast":
            raise Unsupported("LValueBitCast")
        raise Unsupported(f"cast {ck}")

    def e_UnaryOperator(self, n):
        op = n["op"]; c = n["c"][0]
        if op == "&":
            v = self.ev(c)
            if isinstance(v, LV): return P(v)
            return v
        if op == "*":
            v = self.rv(c)
            if isinstance(v, P) and getattr(v, "castto", None) is not None and v.lv is not None:
                x = self.get(v.lv); ty = self.T(v.castto)
                if isinstance(x, I) and ty["k"] == "int" and ty["w"] == x.w:
                    return self.new_lv(self.cast_int(x, ty["w"], ty["sg"]), "reint", v.castto)
                if isinstance(x, I): raise Unsupported("reinterpreting load")
            if isinstance(v, (FuncRef,)): return v
            return self.deref(v)
        if op == "!":
            return z3.Not(self.as_bool(self.rv(c)))
        if op in ("++", "--"):
            lv = self.ev(c)
            v = self.get(lv)
            if isinstance(v, I):
                one = self.iconst(1, v.w, v.sg)
                if v.w < 32:   # promoted to int, then converted back
                    r = self.cast_int(I(v.t + 1 if op == "++" else v.t - 1, 32, True) if self.mode != "bv" else I(v.t + one.t if op == "++" else v.t - one.t, v.w, v.sg), v.w, v.sg)
                else:
                    r = self.arith("+" if op == "++" else "-", v, one, v.w, v.sg)
            elif isinstance(v, D):
                r = D(v.t + 1 if op == "++" else v.t - 1)
            else:
                raise Unsupported("++ on " + type(v).__name__)
            self.set(lv, r)
            return v if n.get("post") else lv
        v = self.rv(c)
        if op == "-":
            if isinstance(v, D): return D(-v.t if self.fp == "real" else z3.fpNeg(v.t))
            return self.arith("-", self.iconst(0, v.w, v.sg), v, v.w, v.sg)
        if op == "+": return v
        if op == "~":
            if self.mode == "bv": return I(~v.t, v.w, v.sg)
            return I((-v.t - 1) if v.sg else ((1 << v.w) - 1 - v.t), v.w, v.sg)
        raise Unsupported(f"unary {op}")

    def e_BinaryOperator(self, n):
        op = n["op"]; l, r = n["c"]
        if op == "=":
            rvv = self.rv(r) if r["k"] != "InitListExpr" else self.init_list(r, r["t"])
            lv = self.ev(l)
            if not isinstance(lv, LV): raise Unsupported("assignment target")
            self.set(lv, self.coerce(rvv, n["t"]))
            return lv
        if op == ",":
            self.ev(l); return self.ev(r)
        if op in ("&&", "||"):
            a = self.as_bool(self.rv(l))
            a_s = z3.simplify(a)
            if op == "&&":
                if z3.is_false(a_s): return a_s
                if z3.is_true(a_s): return self.as_bool(self.rv(r))
            else:
                if z3.is_true(a_s): return a_s
                if z3.is_false(a_s): return self.as_bool(self.rv(r))
            b = self.speculate(a_s if op == "&&" else z3.Not(a_s), r, boolean=True)
            if b is not None:
                return z3.And(a_s, b) if op == "&&" else z3.Or(a_s, b)
            if self.branch(a_s):
                return self.as_bool(self.rv(r)) if op == "&&" else z3.BoolVal(True)
            return z3.BoolVal(False) if op == "&&" else self.as_bool(self.rv(r))
        a = self.rv(l); b = self.rv(r)
        return self.binop(op, a, b, n["t"], n)

    def speculate(self, guard, node, boolean=False):
        """evaluate a side-effect-free expression under a guard without forking; None if not possible"""
        mark = len(self.journal)
        pcn = len(self.pc)
        sv = self.nobranch
        limit = self.ordn + 1
        nf = len(self.stats.failed); nob = self.stats.obligations; nd = self.stats.discharged
        if not self.feasible(guard):
            return z3.BoolVal(False) if boolean else None
        self.solver.push()
        self.pc.append(guard); self.solver.add(guard)
        self.nobranch = True
        frames = list(self.frames)
        ok = False
        extra = []
        try:
            v = self.rv(node)
            if any(r.ord < limit for r, _ in self.journal[mark:]):
                return None
            ok = True
            extra = self.pc[pcn + 1:]
            return self.as_bool(v) if boolean else v
        except (NoBranch, CppThrow, PathEnd):
            return None
        finally:
            self.nobranch = sv
            self.frames = frames
            self.solver.pop()
            del self.pc[pcn:]
            for x in extra: self.assume(z3.Implies(guard, x))
            if not ok:
                self.undo(mark)
                if len(self.stats.failed) > nf or self.stats.obligations > nob:
                    del self.stats.failed[nf:]
                    self.stats.obligations, self.stats.discharged = nob, nd

    def binop(self, op, a, b, tid, n=None):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.compare(op, a, b)
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef) and op in ("&", "|", "^"):
            a, b = self.cast_int(a, 32, True), self.cast_int(b, 32, True)
        if isinstance(a, I) and isinstance(b, I):
            if op in ("<<", ">>"): return self.shift(op, a, b)
            return self.arith(op, a, b, a.w, a.sg)
        if isinstance(a, D) and isinstance(b, D):
            if self.fp == "fp":
                rm = z3.RNE()
                t = {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}[op](rm, a.t, b.t)
                so = self.fsort(tid) if tid is not None and self.T(tid)["k"] == "float" else t.sort()
                return D(t) if so == t.sort() else self.fwide(z3.fpFPToFP(rm, t, so))     # exact: rounding twice is innocuous here
            return D(self.real_op(op, a.t, b.t))
        if isinstance(a, P) and isinstance(b, I) and op in ("+", "-"):
            raise Unsupported("pointer arithmetic")
        raise Unsupported(f"binary {op} on {type(a).__name__}, {type(b).__name__}")

    def real_op(self, op, x, y):
        if op == "+": return x + y
        if op == "-": return x - y
        # multiplication/division of doubles in real mode: uninterpreted (no property depends on the value)
        f = z3.Function("rmul" if op == "*" else "rdiv", z3.RealSort(), z3.RealSort(), z3.RealSort())
        xs, ys = z3.simplify(x), z3.simplify(y)
        if op == "*" and (z3.is_rational_value(xs) or z3.is_rational_value(ys)): return x * y
        r = f(x, y)
        if op == "/":
            self.assume(z3.Implies(y != 0, (r == 1) == (x == y)))    # division facts used for the exponent test
        return r

    def e_CompoundAssignOperator(self, n):
        op = n["op"][:-1]
        lv = self.ev(n["c"][0]); b = self.rv(n["c"][1])
        a = self.get(lv)
        ct = self.T(n["ct"])
        if ct["k"] == "int" and not isinstance(a, D):
            av = self.cast_int(a, ct["w"], ct["sg"])
            r = self.shift(op, av, b) if op in ("<<", ">>") else self.arith(op, av, self.cast_int(b, ct["w"], ct["sg"]), ct["w"], ct["sg"])
            lt = self.T(n["t"])
            r = self.as_bool(r) if lt["k"] == "bool" else self.cast_int(r, lt["w"], lt.get("sg", False))
        elif ct["k"] == "float":
            if isinstance(a, I): raise Unsupported("int op= float")
            if isinstance(b, I): b = D(z3.ToReal(b.t))
            r = self.binop(op, a, b, n["t"])
        else:
            raise Unsupported("compound assign")
        self.set(lv, r)
        return lv

    def e_ConditionalOperator(self, n):
        c = self.as_bool(self.rv(n["c"][0]))
        cs = z3.simplify(c)
        if z3.is_true(cs): return self.ev(n["c"][1])
        if z3.is_false(cs): return self.ev(n["c"][2])
        if "lv" not in n:
            x = self.speculate(cs, n["c"][1])
            if x is not None:
                y = self.speculate(z3.Not(cs), n["c"][2])
                if y is not None:
                    m = self.merge(cs, x, y)
                    if m is not None: return m
        return self.ev(n["c"][1]) if self.branch(cs) else self.ev(n["c"][2])

    def merge(self, c, x, y):
        if isinstance(x, I) and isinstance(y, I) and x.w == y.w: return I(z3.If(c, x.t, y.t), x.w, x.sg)
        if isinstance(x, z3.BoolRef) and isinstance(y, z3.BoolRef): return z3.If(c, x, y)
        if isinstance(x, D) and isinstance(y, D): return D(z3.If(c, x.t, y.t))
        return None

    def e_LambdaExpr(self, n):
        caps = {}
        this = None
        for c in n["caps"]:
            if c["kind"] in ("this", "*this"):
                fr = self.frames[-1]
                this = fr.clos.this if fr.clos is not None and fr.clos.this is not None else fr.this
                continue
            if "d" not in c: raise Unsupported("VLA capture")
            if c.get("ic"):
                v = self.ev(c["init"])
                caps[c["d"]] = v if (c["kind"] == "ref" and isinstance(v, LV)) else self.new_lv(self.load(v), c["n"])
            elif c["kind"] == "ref":
                caps[c["d"]] = self.lookup(c["d"])
            else:
                caps[c["d"]] = self.new_lv(self.get(self.lookup(c["d"])), c["n"])
        return ClosV(n["cls"], n["op"], caps, this)

    def e_CXXThrowExpr(self, n):
        c = n["c"][0] if n.get("c") else None
        if c is None:
            raise self.cur_exc
        v = self.ev(c)
        name = self.a.recname(c["t"])
        raise CppThrow(name, self.load(v))

    def e_CallExpr(self, n):
        cs = n["c"]
        if "f" not in n:
            f = self.rv(cs[0])
            return self.call_closure(f, [self.ev(x) for x in cs[1:]], n)
        fid = n["f"]
        args = self.bind_args(cs[1:], fid)
        return self.retwrap(self.call(fid, None, args, n), n)

    def retwrap(self, r, n):
        return r

    def e_UserDefinedLiteral(self, n):
        return self.call(n["f"], None, self.bind_args(n["c"][1:], n["f"]), n)

    def e_CXXMemberCallExpr(self, n):
        cs = n["c"]
        me = cs[0]
        while me["k"] != "MemberExpr":
            if me["k"] in ("ImplicitCastExpr", "CXXStaticCastExpr"): me = me["c"][0]; continue
            raise Unsupported("member call through " + me["k"])
        fid = n["f"]
        this = self.this_of(me)
        if not isinstance(this, LV): this = self.new_lv(this, "tmp", me["c"][0].get("t"))
        args = self.bind_args(cs[1:], fid)
        d = self.a.decls[fid]
        if d.get("virt") and not me.get("qual"):
            h = self.cfg.get("virtual")
            if h:
                r = h(self, fid, this, args, n)
                if r is not NotImplemented: return r
            t = self.virtual_target(fid, this)
            if t != fid: return self.call(t, this, args, n)
            if self.cfg.get("virtual_static", True) is False:
                raise Unsupported("virtual call " + self.a.fname(fid))
        if d["dk"] == "CXXConversion" or not isinstance(self.peek(this), (ClosV, FnV)):
            return self.call(fid, this, args, n)
        return self.call_closure(self.get(this), args, n, fid if fid in self.a.funcs else None)

    def e_CXXOperatorCallExpr(self, n):
        cs = n["c"]
        if "f" not in n: raise Unsupported("operator call")
        fid = n["f"]
        d = self.a.decls[fid]
        if d.get("method") and not d.get("static"):
            this = self.ev(cs[1])
            if not isinstance(this, LV): this = self.new_lv(this, "tmp", cs[1].get("t"))
            args = self.bind_args(cs[2:], fid)
            v = self.peek(this)
            if n["oo"] == "()" and isinstance(v, (ClosV, FnV, FuncRef)):
                return self.call_closure(v, args, n, fid if (isinstance(v, ClosV) and fid in self.a.funcs) else None)
            if n["oo"] == "=" and fid not in self.a.funcs and d.get("assign") and self.a.decls[d["parent"]].get("scope"):
                self.set(this, self.load(args[0])); return this
            if d.get("virt"):
                h = self.cfg.get("virtual")
                if h:
                    r = h(self, fid, this, args, n)
                    if r is not NotImplemented: return r
                fid = self.virtual_target(fid, this)
            return self.call(fid, this, args, n)
        return self.call(fid, None, self.bind_args(cs[1:], fid), n)

    def e_CXXConstructExpr(self, n):
        return self.construct(n)
    def e_CXXInheritedCtorInitExpr(self, n):
        """inherited constructor: the base's constructor with this constructor's arguments"""
        fr = self.frames[-1]; fid = n["f"]; d = self.a.decls[fid]
        if fid not in self.a.funcs: raise Unsupported("inherited constructor")
        this = self.new_lv(None, "base", n["t"])
        self.inline(fid, this, [fr.vars[p["d"]] for p in self.a.funcs[fr.fid]["params"]])
        return self.get(this)
    def e_CXXTemporaryObjectExpr(self, n):
        return self.construct(n)

    def construct(self, n):
        fid = n["f"]
        ty = self.T(n["t"])
        if ty["k"] == "array":
            raise Unsupported("array construction")
        d = self.a.decls[ty["d"]]
        if n.get("copy") or n.get("move"):
            c = n["c"][0]
            if fid not in self.a.funcs or self.a.decls[fid].get("defaulted") or self.a.decls[fid].get("implicit"):
                if not self.cfg.get("explicit_copies"):
                    return self.copied(self.rv(c), n)
        if fid in self.a.funcs or self.contracts.get(self.a.fname(fid)):
            this = self.new_lv(None, d.get("n", ""), n["t"])
            c = self.contracts.get(self.a.fname(fid))
            if c is not None:
                r = c(self, fid, this, self.bind_args(n["c"], fid))
                if r is not NotImplemented: return self.get(this)
            self.inline(fid, this, self.bind_args(n["c"], fid))
            return self.get(this)
        if d.get("scope"):
            if not n["c"]:
                this = self.new_lv(StructV(ty["d"], {}), d.get("n", ""), n["t"])
                for b in d.get("bases", []):
                    bv = self.default_value(b)
                    if isinstance(bv, StructV):
                        self.set(this, StructV(ty["d"], {**self.get(this).fields, **bv.fields}))
                self.init_fields_default(this, d)
                if n.get("zero"):
                    st = self.get(this)
                    for f in d.get("fields", []):
                        if "init" not in f and self.T(f["t"])["k"] != "rec":
                            st = st.with_(f["n"], self.default_value(f["t"]))
                    return st
                return self.get(this)
        args = self.bind_args(n["c"], fid)
        return self.builtin_construct(n["t"], args, n)

    def copied(self, v, n): return v

    def builtin_construct(self, tid, args, n):
        ty = self.T(tid)
        b = self.ctor_models.get(ty["n"])
        if b is None:
            d = self.a.decls[ty["d"]]
            if d.get("scope") and not args:
                this = self.new_lv(StructV(ty["d"], {}), d.get("n", ""), tid)
                for fm in d.get("methods", []):
                    md = self.a.decls[fm]
                    if md.get("ctor") == "default" and fm in self.a.funcs:
                        self.inline(fm, this, []); return self.get(this)
                for bb in d.get("bases", []):
                    bv = self.default_value(bb)
                    if isinstance(bv, StructV): self.set(this, StructV(ty["d"], {**self.get(this).fields, **bv.fields}))
                self.init_fields_default(this, d)
                return self.get(this)
            raise Unsupported(f"construction of {ty['n']}")
        r = b(self, tid, [a for a in args], n)
        if r is NotImplemented:
            raise Unsupported(f"construction of {ty['n']} from {[type(self.load(a)).__name__ for a in args]}")
        self.stats.builtins.add(ty["n"] + "::ctor")
        return r

    def e_CXXNewExpr(self, n):
        h = self.cfg.get("new")
        if h: return h(self, n)
        raise Unsupported("new")

    def e_CXXDeleteExpr(self, n):
        h = self.cfg.get("delete")
        if h: return h(self, n)
        raise Unsupported("delete")

    def e_CXXBindTemporaryExpr(self, n): return self.ev(n["c"][0])
    def e_ParenExpr(self, n): return self.ev(n["c"][0])


class NoBranch(Exception):
    pass


_orig_branch = Ex.branch


def _branch(self, cond):
    if self.nobranch and not isinstance(cond, bool):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.entails(c): return True
        if self.entails(z3.Not(c)): return False
        raise NoBranch()
    return _orig_branch(self, cond)


Ex.branch = _branch


class LoopCtx:
    def is_spec(self, nm): return nm in self.spec_names
    """What invariant templates may talk about: objects written by the loop, by type; entry values."""
    def __init__(self, ex, n, H, extra):
        self.ex, self.n, self.H, self.extra = ex, n, H, extra
        self.cells = []
        for (o, p) in sorted(H, key=lambda x: (x[0], str(x[1]))):
            r = ex.roots[o]
            self.cells.append((LV(r, [k for k in p if k != ("e*",)]) if ("e*",) not in p else LV(r, p[:p.index(("e*",))]), p))
        self.entry = {}
        self.spec_names = set()

    def written(self, cls):
        out = []
        for lv, p in self.cells:
            v = self.ex.peek(lv)
            if isinstance(v, cls): out.append(lv)
        return out
