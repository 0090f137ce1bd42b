"""C11: the helper split() (function.cpp) against a recursive definition over the string."""
import z3
from .core import *
from . import builtins as BI
from .builtins import to_str, SLEN, SUBSTR

PL = z3.Datatype("Pieces"); PL.declare("none"); PL.declare("add", ("front", PL), ("piece", Str)); PL = PL.create()
INT, BOOL = z3.IntSort(), z3.BoolSort()
NPOS = (1 << 64) - 1
FIND = z3.Function("find", Str, Str, INT, INT)          # first occurrence of the second string at or after a position, or NPOS


def step(o, w, a, rm, b):
    e = FIND(w, a, b)
    def add(n): return z3.If(z3.Or(n != 0, z3.Not(rm)), PL.add(o, SUBSTR(w, b, n)), o)
    return z3.If(e != NPOS, REST(add(e - b), w, a, rm, e + SLEN(a)), add(SLEN(w) - b))


# pieces found so far, followed by those of the text from position b on
rest = Spec("split_rest", [PL, Str, Str, BOOL, INT], PL, step)
REST = rest.f


class PcV(V):
    """std::vector<std::string>"""
    def __init__(self, t): self.t = t


class Split:
    def __init__(self, ast, stats, fid):
        self.a, self.fid = ast, fid
        ex = self.ex = Ex(ast, stats, mode="int", timeout=15000, rounds=2)
        ex.cfg.update({"ub_soft": True, "havoc": lambda ex, v, name: PcV(z3.Const(ex.fresh_name(name), PL)) if isinstance(v, PcV) else None,
                       "fresh": lambda ex, tid, name: PcV(z3.Const(ex.fresh_name(name), PL)) if ast.T(tid).get("n") == "std::vector" else None})
        ex.loop_candidates = self.candidates
        B = ex.builtins
        def whole(v):
            v = ex.load(v)
            t = to_str(ex, v)
            if z3.is_app(t) and t.decl().eq(SUBSTR): raise Unsupported("search in a part of the text")
            return t
        def find(ex, fid, this, a, n):
            w, p = whole(this), ex.load(a[1]).t if len(a) > 1 else z3.IntVal(0)
            x = ex.load(a[0])
            s = whole(x)
            r = FIND(w, s, p)
            ex.assume(z3.Or(r == NPOS, z3.And(p <= r, r + SLEN(s) <= SLEN(w))))
            return I(r, 64, False)
        for k in ("basic_string_view", "basic_string"): B[f"std::{k}::find"] = find
        ex.ctor_models["std::vector"] = lambda ex, tid, a, n: PcV(PL.none) if not a else ex.load(a[0])
        ex.ctor_models["std::back_insert_iterator"] = lambda ex, tid, a, n: ex.load(a[0])
        def push(ex, fid, this, a, n):
            v = ex.get(this)
            if len(a) == 1: s = to_str(ex, a[0])
            else: raise Unsupported("emplace_back")
            ex.set(this, PcV(PL.add(v.t, s))); return VOID
        for k in ("push_back", "emplace_back"): B["std::vector::" + k] = push
        B["std::back_inserter"] = lambda ex, fid, this, a, n: OpaqueV("back_inserter", a[0])
        I_ = "std::back_insert_iterator::operator"
        B[I_ + "*"] = lambda ex, fid, this, a, n: this
        B[I_ + "++"] = lambda ex, fid, this, a, n: ex.new_lv(ex.get(this), "out")
        def put(ex, fid, this, a, n):
            push(ex, fid, ex.get(this).data, a, n); return this
        B[I_ + "="] = put

    def candidates(self, ex, ctx):
        out, var = [], []
        w, a, rm = self.w, self.at, self.rm
        vecs, ints = [], []
        for o in sorted(ex.roots):
            r = ex.roots[o]
            if isinstance(r.v, PcV): vecs.append(LV(r, ()))
            elif isinstance(r.v, I) and r.v.w == 64: ints.append(LV(r, ()))
        for i, n in enumerate(ints):
            c = lambda n=n: ex.get(n).t
            v0 = ex.get(n).t
            nm = f"{n.root.name}{i}"
            out.append((f"{nm} within the text", lambda c=c: z3.And(c() >= 0, c() <= SLEN(w))))
            out.append((f"{nm} unchanged", lambda c=c, v0=v0: c() == v0))
            out.append((f"{nm} is the next separator", lambda c=c: z3.Or([c() == FIND(w, a, ex.get(m).t) for m in ints if m is not n] or [z3.BoolVal(False)])))
            for j, v in enumerate(vecs):
                out.append((f"vector {j}: the pieces are those before {nm}", lambda c=c, v=v: REST(ex.get(v).t, w, a, rm, c()) == REST(PL.none, w, a, rm, 0)))
            var.append((f"text after {nm}", lambda c=c: SLEN(w) - c()))
        return out, var

    def run(self):
        ex = self.ex
        nm = self.a.fname(self.fid)
        ex.stats.functions.append(nm)
        def run(ex):
            w, a, rm = self.w, self.at, self.rm = z3.Const("text", Str), z3.Const("separator", Str), z3.Bool("removeEmpty")
            for s in (w, a): ex.assume(z3.And(SLEN(s) >= 0, SLEN(s) < 1 << 62, (SLEN(s) == 0) == (s == Str.nil)))
            ex.assume(SUBSTR(w, 0, SLEN(w)) == w)
            view = lambda s: ViewV(BI.StrBase(s), z3.IntVal(0), SLEN(s))
            args = []
            for p, v in zip(self.a.decls[self.fid]["params"], (view(w), view(a), rm)):
                pt = self.a.T(p["t"])
                args.append(ex.new_lv(v, p["n"]) if pt["k"] == "ref" else v)
            r = ex.load(ex.inline(self.fid, None, args))
            if not isinstance(r, PcV): raise Unsupported("result of split")
            want = z3.If(w == Str.nil, PL.none, z3.If(a == Str.nil, PL.add(PL.none, w), REST(PL.none, w, a, rm, 0)))
            ex.check(r.t == want, f"{nm}: exactly the pieces between the separators, in order", "C11")
        ex.explore(run, cover=nm)


def tasks(a):
    out = []
    for k in ("simfil::split", "simfil::(anonymous namespace)::split"):
        for f in a.byname.get(k, []):
            if f in a.funcs and len(a.decls[f]["params"]) == 3: out.append((f"split", lambda st, f=f: Split(a, st, f).run()))
    return out[:1]
