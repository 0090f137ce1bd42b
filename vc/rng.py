"""C19: integer ranges (IRange, IRangeType in types.h / types.cpp)."""
import z3
from .core import *
from . import builtins as BI
from . import ops as O
from .ops import Ops, F64, RNE
from .suite import BaseSuite, TRUST
from .trans import Trans

LIM = 2 ** 63


class Range(Ops):
    """bv/IEEE mode: the loop-free members"""
    def __init__(self, ast, stats=None):
        super().__init__(ast, stats)
        ex = self.ex
        ex.cfg["virtual"] = self.virt
        ex.cfg["new"] = lambda ex, n: P(ex.new_lv(ex.rv(n["init"]) if n.get("init") else ex.default_value(n["at"]), "heap", n["at"]))
        ex.cfg["global"] = self.glob
        self.irec = ast.rec_by_name["simfil::IRange"][0]
        self.trec = ast.rec_by_name["simfil::IRangeType"][0]

    def glob(self, ex, dec):
        if dec.get("qn") == "simfil::IRangeType::Type": return StructV(self.trec, {"ident": StrV(str_const(b"irange"))})
        return None

    def virt(self, ex, fid, this, args, n): return NotImplemented

    def type_lv(self):
        ex = self.ex
        for d, dec in self.a.decls.items():
            if dec.get("qn") == "simfil::IRangeType::Type":
                if d not in ex.globals: ex.globals[d] = ex.new_lv(self.glob(ex, dec), "Type")
                return ex.globals[d]
        raise Unsupported("IRangeType::Type")

    def rng(self, nm):
        b, e = z3.BitVec(nm + ".begin", 64), z3.BitVec(nm + ".end", 64)
        return StructV(self.irec, {"begin": I(b, 64, True), "end": I(e, 64, True)}), b, e

    def fn(self, name, pred=lambda d: True):
        for f in self.a.byname.get("simfil::IRangeType::" + name, []):
            if pred(self.a.decls[f]): return f
        raise Unsupported(f"IRangeType::{name} not found")

    def tname(self, t):
        ty = self.a.T(t)
        if ty["k"] == "ref": ty = self.a.T(ty["to"])
        return ty.get("n", "")

    def inside(self, b, e, v):
        lo, hi = z3.If(b < e, b, e), z3.If(b < e, e, b)
        return z3.And(lo <= v, v <= hi)

    def run_binary(self):
        ex = self.ex
        T = {}
        for f in self.a.byname.get("simfil::IRangeType::binaryOp", []):
            ps = [self.tname(p["t"]) for p in self.a.decls[f]["params"]]
            T["range first" if ps[1] == "simfil::IRange" else "value first"] = f
        if len(T) != 2: raise Unsupported("IRangeType::binaryOp overloads")
        for side, f in T.items():
            ex.stats.functions.append(f"simfil::IRangeType::binaryOp ({side})")
            for op in ("==", "!="):
                for k in ["N", "B", "I", "F", "S", "O", "A", "R", "T"]:
                    def run(ex, k=k, op=op):
                        self.meta_calls = []; self.meta_res = None
                        me = self.type_lv()
                        sv, b, e = self.rng("range")
                        self_ = ex.new_lv(sv, "range")
                        if k == "R":
                            ov, b2, e2 = self.rng("other")
                            v, _ = self.value("T", "v")
                            tr = self.a.rec_by_name["simfil::TransientObject"][0]
                            i = next(j for j, kk in self.kind_of_alt.items() if kk == "T")
                            v = v.with_("value", VarV(self.alts, z3.IntVal(i), {i: StructV(tr, {"meta": P(me), "data": P(ex.new_lv(ov, "other"))})}))
                            exp = z3.And(b == b2, e == e2)
                        else:
                            v, kv = self.value(k, "v")
                            if k == "I": exp = self.inside(b, e, kv[1])
                            elif k == "F":
                                lo, hi = z3.If(b < e, b, e), z3.If(b < e, e, b)
                                exp = z3.And(z3.fpLEQ(z3.fpSignedToFP(RNE, lo, F64), kv[1]), z3.fpLEQ(kv[1], z3.fpSignedToFP(RNE, hi, F64)))
                            else: exp = z3.BoolVal(False)
                        if op == "!=": exp = z3.Not(exp)
                        vl = ex.new_lv(v, "v")
                        o = CStr(op.encode())
                        args = [BI.to_view(ex, o)] if hasattr(BI, "to_view") else [o]
                        label = f"range {op} {k} ({side})"
                        try: got = self.decode(ex.inline(f, me, args + ([self_, vl] if side == "range first" else [vl, self_])))
                        except CppThrow as x: got = ("throw", x.ty, None)
                        self.expect(label, "C19", ("B", exp), got)
                    ex.explore(run, cover=f"binaryOp {side} {op} {k}")

    def run_rest(self):
        ex = self.ex
        irec = self.a.decls[self.irec]
        for nm in ("low", "high"):
            f = next((m for m in irec["methods"] if self.a.decls[m]["n"] == nm), None)
            if f is None or f not in self.a.funcs: continue     # inlined where used
            ex.stats.functions.append(f"simfil::IRange::{nm}")
            def run(ex, nm=nm, f=f):
                sv, b, e = self.rng("r")
                r = ex.inline(f, ex.new_lv(sv), [])
                exp = z3.If(b < e, b, e) if nm == "low" else z3.If(b < e, e, b)
                ex.check(r.t == exp, f"IRange::{nm}", "C19")
            ex.explore(run, cover="IRange::" + nm)
        f = self.fn("make")
        ex.stats.functions.append("simfil::IRangeType::make")
        def run(ex):
            a, b = z3.BitVec("a", 64), z3.BitVec("b", 64)
            v = ex.inline(f, self.type_lv(), [I(a, 64, True), I(b, 64, True)])
            k, t = self.decode(v)
            ex.check(z3.BoolVal(k == "T"), "IRangeType::make: a user-defined value", "C19")
            if k != "T": return
            m, d = t.fields["meta"], t.fields["data"]
            ex.check(z3.BoolVal(m.lv is not None and m.lv.root is self.type_lv().root), "IRangeType::make: of the range type", "C19")
            r = ex.get(d.lv)
            ex.check(z3.And(r.fields["begin"].t == a, r.fields["end"].t == b), "IRangeType::make: with these bounds", "C19")
        keep = ex.contracts.pop("simfil::TransientObject::TransientObject")
        ex.cfg["explicit_copies"] = False
        ex.explore(run, cover="make")
        ex.contracts["simfil::TransientObject::TransientObject"] = keep
        f = self.fn("unaryOp")
        ex.stats.functions.append("simfil::IRangeType::unaryOp")
        for op, k in (("typeof", "S"), ("?", "B"), ("string", "S"), ("#", "I"), ("-", None), ("~", None)):
            def run(ex, op=op, k=k):
                sv, b, e = self.rng("r")
                try: got = self.decode(ex.inline(f, self.type_lv(), [BI.to_view(ex, CStr(op.encode())) if hasattr(BI, "to_view") else CStr(op.encode()), ex.new_lv(sv)]))
                except CppThrow as x: got = ("throw", x.ty, None)
                if k is None: ex.check(z3.BoolVal(got[0] == "throw"), f"range {op}: not supported", "C19")
                else:
                    ex.check(z3.BoolVal(got[0] == k), f"range {op}: kind of result", "C19")
                    if op == "?": ex.check(got[1] if got[0] == "B" else z3.BoolVal(False), "range is true", "C19")
            ex.explore(run, cover="unaryOp " + op)


class Unpack(Ops):
    """exact integers, obligations at every overflow: the loop of unpack"""
    def __init__(self, ast, stats=None):
        super().__init__(ast, stats)
        contracts, cfg = self.ex.contracts, self.ex.cfg
        ex = self.ex = Ex(ast, stats, mode="int", fp="real", timeout=20000, rounds=1)
        ex.contracts.update(contracts)
        ex.cfg["ub_soft"] = True
        ex.loop_candidates = self.candidates
        self.irec = ast.rec_by_name["simfil::IRange"][0]
        self.trec = ast.rec_by_name["simfil::IRangeType"][0]

    def candidates(self, ex, ctx):
        out, var = [], []
        n = lambda: ex.get(self.n).t
        b, e = self.b, self.e
        s = z3.If(b <= e, 1, -1)
        D_ = z3.If(b <= e, e - b, b - e)
        out.append(("not stopped", lambda: z3.Not(ex.get(self.stop))))
        out.append(("n >= 0", lambda: n() >= 0))
        for k in (0, 1): out.append((f"n <= size {-1 + k}", lambda k=k: n() <= D_ + k))
        done = set()
        for r in [ex.roots[o] for o in sorted(ex.roots)]:
            if r.v is None or r.ord in (self.n.root.ord, self.stop.root.ord): continue
            def walk(v, path):
                if isinstance(v, StructV):
                    for k, x in v.fields.items(): walk(x, path + (k,))
                elif isinstance(v, I): done.add((r.ord, path))
            walk(r.v, ())
        for o, path in sorted(done, key=str):
            lv = LV(ex.roots[o], path)
            v0 = ex.get(lv).t
            w, sg = ex.get(lv).w, ex.get(lv).sg
            nm = f"{ex.roots[o].name}{path}"
            cur = lambda lv=lv: ex.get(lv).t
            out.append((f"{nm} unchanged", lambda cur=cur, v0=v0: cur() == v0))
            out.append((f"{nm} is the next value", lambda cur=cur: cur() == b + s * n()))
            out.append((f"{nm} is the last value", lambda cur=cur: cur() == b + s * (n() - 1)))
            out.append((f"{nm} counts", lambda cur=cur, v0=v0: cur() == v0 + n()))
            out.append((f"{nm} counts down", lambda cur=cur, v0=v0: cur() == v0 - n()))
            if not sg and w == 64:
                out.append((f"{nm} is the next value as unsigned", lambda cur=cur: (cur() - (b + s * n())) % (1 << 64) == 0))
                out.append((f"{nm} is the rest", lambda cur=cur: cur() == D_ - n()))
        var.append(("values left", lambda: D_ + 1 - n()))
        return out, var

    def run(self):
        ex, a = self.ex, self.a
        f = next((f for f in a.byname.get("simfil::IRangeType::unpack", [])), None)
        if f is None: raise Unsupported("IRangeType::unpack not found")
        ex.stats.functions.append("simfil::IRangeType::unpack")
        def run(ex):
            b, e = self.b, self.e = z3.Int("begin"), z3.Int("end")
            for x in (b, e): ex.assume(z3.And(x >= -LIM, x < LIM))
            self.n = ex.new_lv(I(z3.IntVal(0), 64, True), "n"); self.stop = ex.new_lv(z3.BoolVal(False), "stop")
            s = z3.If(b <= e, 1, -1)
            size = z3.If(b <= e, e - b, b - e) + 1
            def cb(ex_, args, n=None):
                ex.check(z3.Not(ex.get(self.stop)), "unpack: no value after the consumer stopped", "C19")
                k, t = self.decode(args[0])
                ex.check(z3.BoolVal(k == "I"), "unpack: yields integers", "C19")
                if k == "I":
                    ex.check(t == b + s * ex.get(self.n).t, "unpack: next integer from the first bound towards the second", "C19")
                    ex.check(ex.get(self.n).t < size, "unpack: within the bounds", "C19")
                ex.set(self.n, I(ex.get(self.n).t + 1, 64, True))
                go = z3.Bool(ex.fresh_name("continue"))
                ex.set(self.stop, z3.Not(go))
                return go
            ex.inline(f, ex.new_lv(StructV(self.trec, {"ident": StrV(str_const(b"irange"))})), [ex.new_lv(StructV(self.irec, {"begin": I(b, 64, True), "end": I(e, 64, True)}), "self"), FnV(cb)])
            ex.check(z3.Or(ex.get(self.stop), ex.get(self.n).t == size), "unpack: complete unless stopped", "C19")
        ex.explore(run, cover="unpack")


class Suite(BaseSuite):
    PROPS = ("C19",)
    TU = "drivers/types.cpp"
    HARNESS = ("range", "harness/range.cpp", ["src/exception-handler.cpp", "src/model/model.cpp", "src/model/nodes.cpp", "src/model/string-pool.cpp", "src/types.cpp", "src/value.cpp"])
    TRUST = TRUST + ["assumed contracts of std::variant, std::function (vc/builtins.py)"]
    ASSUME = ["a range compared with a float compares in IEEE doubles", "the consumer of unpack may do anything but change the range"]

    def tasks(self, prop):
        a = self.a
        return [("binaryOp", lambda st: Range(a, st).run_binary()), ("make, unaryOp, low, high", lambda st: Range(a, st).run_rest()), ("unpack", lambda st: Unpack(a, st).run())]

    EDGE = [-LIM, -LIM + 1, -LIM + 2, -LIM + 5, LIM - 1, LIM - 2, LIM - 5, 0, 1, -1, 2, -2, 3, 5, 10, -10, 2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 2 ** 53, 2 ** 62, -2 ** 62]

    def gen(self, prop, rng, hints):
        E_ = self.EDGE
        small = range(-4, 5)
        for a in small:
            for b in small:
                for lim in (0, 1, 3, 50): yield f"u {a} {b} {lim}"
                yield f"q {a} {b}"
                for v in range(-6, 7): yield f"e {a} {b} {v}"
        for a in E_:
            for b in E_:
                for lim in (0, 1, 2, 7): yield f"u {a} {b} {lim}"
                yield f"l {a} {b}"
                for v in (a, b, a + 1, a - 1, b + 1, b - 1, 0, LIM - 1, -LIM):
                    if -LIM <= v < LIM: yield f"e {a} {b} {v}"
                for c in (a, b):
                    for d in (a, b, 0): yield f"r {a} {b} {c} {d}"
        while True:
            r = lambda: rng.choice(E_) if rng.random() < .3 else rng.randrange(-300, 300) if rng.random() < .7 else rng.randrange(-LIM, LIM)
            a, b = r(), r()
            if rng.random() < .4: b = max(-LIM, min(LIM - 1, a + rng.randrange(-600, 600)))
            yield f"u {a} {b} {rng.choice((0, 1, 5, 10000))}"
            yield f"e {a} {b} {max(-LIM, min(LIM - 1, rng.choice((a, b, (a + b) // 2, r())) + rng.randrange(-2, 3)))}"
            yield f"r {a} {b} {rng.choice((a, b, r()))} {rng.choice((a, b, r()))}"

    def judge(self, prop, line, out):
        if isinstance(out, tuple): return f"crash: {out[1]}"
        w = line.split(" "); a, b = int(w[1]), int(w[2])
        if w[0] in "uq":
            lim = int(w[3]) if w[0] == "u" else 0
            cap = lim or 2000
            s = 1 if a <= b else -1
            n = abs(b - a) + 1
            exp = [a + s * i for i in range(min(n, cap))]
            return None if out == " ".join(map(str, exp)) else f"yields {out[:200]} instead of {' '.join(map(str, exp))[:200]}"
        if w[0] == "e":
            v = int(w[3]); x = min(a, b) <= v <= max(a, b)
            exp = f"{int(x)}{int(x)}{int(not x)}{int(not x)}"
            return None if out == exp else f"== == != != give {out} instead of {exp}"
        if w[0] == "r":
            x = (a, b) == (int(w[3]), int(w[4]))
            exp = f"{int(x)}{int(not x)}"
            return None if out == exp else f"== != of two ranges give {out} instead of {exp}"
        if w[0] == "l": return None if out == f"irange true {a}..{b}" else out
