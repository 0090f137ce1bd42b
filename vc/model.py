"""C15-C17, C22, C24: model pool, nodes, JSON conversion (model/*.h, src/model/*.cpp)."""
import z3
from .core import *
from . import builtins as BI
from . import modelgen as G
from .suite import BaseSuite, TRUST

IA = z3.IntSort()
NS = "simfil::"
NULL, UINT16, INT16, BOOL, SCALAR, OBJECTS, ARRAYS, INT64, DOUBLE, STRING = range(10)
T_NULL, T_BOOL, T_INT, T_FLOAT, T_STRING, T_OBJECT, T_ARRAY = 1, 2, 3, 4, 5, 7, 8   # ValueType
A_NULL, A_BOOL, A_INT, A_FLOAT, A_STR, A_VIEW = range(6)                             # ScalarValueType


def fa(vs, body, patterns=()):
    try: return z3.ForAll(vs, body, patterns=list(patterns))
    except z3.Z3Exception: return z3.ForAll(vs, body)


class ArenaV(V):
    """an array arena by its contract (C14): a sequence of sequences"""
    def __init__(self, ety, n, size, leaves): self.ety, self.n, self.size, self.leaves = ety, n, size, leaves
    def row(self, a): return VecV(self.ety, self.size[a], {p: x[a] for p, x in self.leaves.items()})
    def sget(self, ex, k):
        if k == "heads_": return VecV(self.ety, self.n, {})
        return ex.vec_get(self.row(k[1]), k[2])
    def havoc_elem(self, ex, name, rest):
        return ArenaV(self.ety, self.n, self.size, {p: z3.Const(ex.fresh_name(name + "[]"), x.sort()) if p[:len(rest)] == rest else x for p, x in self.leaves.items()})
    def swith(self, ex, k, rest, new):
        r = ex.vec_set(self.row(k[1]), k[2], rest, new)
        return ArenaV(self.ety, self.n, self.size, {p: z3.Store(self.leaves[p], k[1], x) for p, x in r.leaves.items()})


class RowV(V):
    """one array of an arena"""
    def __init__(self, lv, a): self.lv, self.a = lv, a


class DataV(V):
    """std::string as a byte sequence: length and a function from positions"""
    def __init__(self, n, at): self.n, self.at = n, at


class TextBase:
    """characters of a text given by its identity up to letter case"""
    def __init__(self, key): self.key = key
    def at(self, i): raise Unsupported("characters of an abstract text")


class ArrBase:
    def __init__(self, at): self.at_ = at
    def at(self, i): return self.at_(i)


def vt(ex, name):
    """value of ValueType::name from the source"""
    raise NotImplementedError


class Model:
    def __init__(self, ast, stats=None):
        self.a = ast
        ex = self.ex = Ex(ast, stats, mode="int", fp="fp", rounds=1)
        ex.prover.timeout = 20000
        ex.cfg["feas_ms"] = 500; ex.cfg["cand_ms"] = 500
        ex.cfg["havoc"] = self.havoc
        ex.cfg["fresh"] = self.fresh_hook
        ex.cfg["range_for"] = self.range_for
        ex.loop_candidates = self.candidates
        ex.contracts[NS + "raise"] = self.raise_contract
        R = lambda n: (ast.rec_by_name.get(NS + n) or [None])[0]
        self.pool_rec, self.node_rec, self.addr_rec, self.impl_rec = R("ModelPool"), R("ModelNode"), R("ModelNodeAddress"), R("ModelPool::Impl")
        if None in (self.pool_rec, self.node_rec, self.addr_rec, self.impl_rec): raise Unsupported("model classes not found")
        self.pool = None
        self.install()

    # ---- environment
    def raise_contract(self, ex, fid, this, args):
        d = ex.a.decls[fid]
        raise CppThrow(ex.T(d["targs"][0]["t"]).get("n", "exception"), OpaqueV("exception"))

    def havoc(self, ex, v, name):
        if isinstance(v, ArenaV):
            return ArenaV(v.ety, z3.Int(ex.fresh_name(name + ".n")), z3.Const(ex.fresh_name(name + ".size"), v.size.sort()), {p: z3.Const(ex.fresh_name(name), x.sort()) for p, x in v.leaves.items()})
        if isinstance(v, VarV):
            idx = z3.Int(ex.fresh_name(name + ".idx"))
            ex.assume(z3.And(idx >= 0, idx < len(v.alts)))
            return VarV(v.alts, idx, {i: ex.fresh(t, f"{name}.{i}") for i, t in enumerate(v.alts)})
        if isinstance(v, P):
            if self.pool is None: return None
            alts = [P(None), P(self.pool), P(ex.new_lv(OpaqueV("elsewhere"), "elsewhere"))]
            if v.lv is not None and v.lv.root is not self.pool.root: alts.append(v)
            return alts[ex.choose(len(alts))]
        if isinstance(v, OpaqueV): return v if v.data is None else None
        return None

    def fresh_hook(self, ex, tid, name):
        ty = ex.T(tid)
        if ty["k"] != "rec": return None
        if ty["n"] == NS + "ArrayArena":
            et = ex.a.decls[ty["d"]]["targs"][0]["t"]
            return ArenaV(et, z3.Int(ex.fresh_name(name + ".n")), z3.Const(ex.fresh_name(name + ".size"), z3.ArraySort(IA, IA)),
                          {p: z3.Const(ex.fresh_name(f"{name}[]" + ".".join(map(str, p))), z3.ArraySort(IA, z3.ArraySort(IA, ex.scalar_sort(t)))) for p, t in ex.leaf_types(et)})
        if ty["n"] == "std::shared_ptr": return P(self.strings_lv)
        if ty["n"] == "std::basic_string_view":
            n = z3.Int(ex.fresh_name(name + ".size")); f = z3.Function(ex.fresh_name(name), IA, IA)
            ex.assume(n >= 0)
            return ViewV(ArrBase(lambda i: f(i)), z3.IntVal(0), n)
        if ty["n"] == "std::basic_string":
            n = z3.Int(ex.fresh_name(name + ".size")); f = z3.Function(ex.fresh_name(name), IA, IA)
            ex.assume(n >= 0)
            return DataV(n, lambda i: f(i))
        return None

    def range_for(self, ex, n, lv, v):
        """for over an arena (its arrays) and over an array of an arena (its elements), by the iterators' contracts (C14)"""
        if not isinstance(v, (ArenaV, RowV)): return NotImplemented
        i = ex.new_lv(I(z3.IntVal(0), 64, False), "#i")
        cnt = (lambda: ex.get(lv).n) if isinstance(v, ArenaV) else (lambda: ex.get(v.lv).size[v.a])
        d = n["var"]["decls"][0]
        def pre():
            ex.bind_loop_var(d, ex.new_lv(RowV(lv, ex.get(i).t), "row") if isinstance(v, ArenaV) else v.lv.sub(("e2", v.a, ex.get(i).t)))
        ex.loop(n, lambda: ex.get(i).t < cnt(), n["body"], lambda: ex.set(i, I(ex.get(i).t + 1, 64, False)), pre=pre, extra={"row": i, "rows": v, "count": cnt})
        return True
    def candidates(self, ex, ctx): return self.cands(ctx) if getattr(self, "cands", None) else ([], [])

    def addr_lin(self):
        """contracts of ModelNodeAddress (proved in bit-vector arithmetic by run_addr)"""
        ex, Q = self.ex, NS + "ModelNodeAddress::"
        def ctor(ex_, fid, this, args):
            if len(args) != 2: return NotImplemented
            c, i = ex.load(args[0]).t, ex.load(args[1]).t
            ex.set(this, StructV(self.addr_rec, {"value_": I((i * 256) % 2 ** 32 + c, 32, False)})); return VOID
        def v(this): return ex.get(this.sub("value_")).t
        ex.contracts[Q + "ModelNodeAddress"] = ctor
        ex.contracts[Q + "column"] = lambda ex_, f, this, a: I(v(this) % 256, 8, False)
        ex.contracts[Q + "index"] = lambda ex_, f, this, a: I(v(this) / 256, 32, False)
        ex.contracts[Q + "uint16"] = lambda ex_, f, this, a: I((v(this) / 256) % 65536, 16, False)
        ex.contracts[Q + "int16"] = lambda ex_, f, this, a: I(((v(this) / 256) % 65536 + 32768) % 65536 - 32768, 16, True)
        ex.contracts[Q + "operator bool"] = lambda ex_, f, this, a: v(this) != 0

    def install(self):
        ex, B, ctor = self.ex, self.ex.builtins, self.ex.ctor_models
        self.addr_lin()
        B["std::enable_shared_from_this::shared_from_this"] = lambda ex_, fid, this, a, n: P(this)
        ctor["fmt::basic_string_view"] = lambda ex_, tid, a, n: OpaqueV("separator")
        text = lambda ex_, fid, this, a, n: StrV(z3.Const(ex.fresh_name("message"), Str))
        B["fmt::format"] = text
        B["std::exception::what"] = text
        B["fmt::join"] = lambda ex_, fid, this, a, n: OpaqueV("joined")
        oldview = ctor["std::basic_string_view"]
        def view_ctor(ex_, tid, a, n):
            if a and isinstance(ex.load(a[0]), DataV):
                d = ex.load(a[0]); return ViewV(ArrBase(d.at), z3.IntVal(0), d.n)
            return oldview(ex_, tid, a, n)
        ctor["std::basic_string_view"] = view_ctor
        def strop(name, f):
            old = B.get("std::basic_string::" + name)
            def g(ex_, fid, this, a, n):
                v = ex.peek(this)
                if isinstance(v, DataV): return f(this, v, a)
                return old(ex_, fid, this, a, n) if old else NotImplemented
            B["std::basic_string::" + name] = g
        def append(this, d, a):
            x = ex.load(a[0])
            if not isinstance(x, ViewV) or len(a) != 1: raise Unsupported("append to a string")
            n0, at0, b, off = d.n, d.at, x.base, x.off
            ex.set(this, DataV(z3.simplify(n0 + x.len), lambda i: z3.If(i < n0, at0(i), b.at(off + i - n0)))); return this
        for k in ("operator+=", "append"): strop(k, append)
        for k in ("size", "length"): strop(k, lambda this, d, a: I(d.n, 64, False))
        strop("operator basic_string_view", lambda this, d, a: ViewV(ArrBase(d.at), z3.IntVal(0), d.n))
        strop("reserve", lambda this, d, a: VOID)
        strop("shrink_to_fit", lambda this, d, a: VOID)
        strop("clear", lambda this, d, a: (ex.set(this, DataV(z3.IntVal(0), d.at)), VOID)[1])
        # ---- arenas by contract
        def arena(name):
            def d(f):
                def g(ex_, fid, this, args):
                    v = ex.peek(this)
                    return f(this, v, args, fid) if isinstance(v, ArenaV) else NotImplemented
                ex.contracts[NS + "ArrayArena::" + name] = g
                return f
            return d
        def valid(v, a, what): ex.check(z3.And(a >= 0, a < v.n), f"{what}: of an array that exists", self.tag, None)
        @arena("new_array")
        def _(this, v, a, fid):
            n = v.n
            ex.set(this, ArenaV(v.ety, z3.simplify(n + 1), z3.Store(v.size, n, 0), v.leaves))
            t = ex.T(ex.a.decls[fid]["ret"]); return I(n, t["w"], t.get("sg", False))
        def push(this, v, a, fid):
            k = ex.load(a[0]).t
            valid(v, k, "append")
            x = ex.load(a[1]) if len(a) == 2 and not isinstance(ex.load(a[1]), I) else ex.make(v.ety, a[1:])
            i = v.size[k]
            ex.set(this, ArenaV(v.ety, v.n, z3.Store(v.size, k, i + 1), v.leaves))
            lv = this.sub(("e2", k, i))
            ex.set(lv, x)
            return lv
        arena("push_back")(push); arena("emplace_back")(push)
        @arena("at")
        def _(this, v, a, fid):
            k, i = ex.load(a[0]).t, ex.load(a[1]).t
            valid(v, k, "at")
            if ex.branch(z3.And(i >= 0, i < v.size[k])): return this.sub(("e2", k, i))
            raise CppThrow("std::out_of_range", OpaqueV("exception"))
        @arena("size")
        def _(this, v, a, fid):
            t = ex.T(ex.a.decls[fid]["ret"])
            if not a: return I(v.n, t["w"], t.get("sg", False))
            k = ex.load(a[0]).t
            valid(v, k, "size")
            return I(v.size[k], t["w"], t.get("sg", False))
        @arena("clear")
        def _(this, v, a, fid): ex.set(this, ArenaV(v.ety, z3.IntVal(0), v.size, v.leaves)); return VOID
        @arena("shrink_to_fit")
        def _(this, v, a, fid): return VOID
        @arena("iterate")
        def _(this, v, a, fid):
            k = ex.load(a[0]).t
            valid(v, k, "iterate")
            f = a[1]
            i = ex.new_lv(I(z3.IntVal(0), 64, False), "#i")
            def body():
                ix = ex.get(i).t
                r = ex.call_closure(ex.load(f), [this.sub(("e2", k, ix))])
                if isinstance(r, z3.BoolRef) and not ex.branch(r): raise BreakEx()
            self.iter_state = (this, k, i)
            ex.loop({"k": "iterate", "l": 0}, lambda: ex.get(i).t < v.size[k], body, lambda: ex.set(i, I(ex.get(i).t + 1, 64, False)), extra={"iterate": i, "arena": this, "array": k})
            return VOID

    # ---- state
    def fresh_pool(self, name="pool"):
        ex = self.ex
        if not hasattr(self, "tag"): self.tag = "C16"
        self.strings_lv = ex.new_lv(OpaqueV("string pool"), name + ".strings")
        fs = {}
        for f in ex.a.decls[self.impl_rec]["fields"]: fs[f["n"]] = ex.fresh(f["t"], name + "." + f["n"])
        impl = ex.new_lv(StructV(self.impl_rec, fs), name + ".impl")
        pool = ex.new_lv(StructV(self.pool_rec, {"impl_": P(impl)}), name)
        self.assume_caps(self.st(pool))
        self.pool = pool
        return pool

    def st(self, pool):
        f = self.ex.get(self.ex.get(pool).fields["impl_"].lv).fields["columns_"].fields
        return dict(roots=f["roots_"], i64=f["i64_"], dbl=f["double_"], data=f["stringData_"], strs=f["strings_"], objs=f["objectMemberArrays_"], arrs=f["arrayMemberArrays_"])

    def col_lv(self, pool, n): return self.ex.get(pool).fields["impl_"].lv.sub("columns_").sub(n)

    def assume_caps(self, s):
        """precondition: no column outgrows the 24 bits of an address, the string data not 32 bits"""
        ex = self.ex
        for k in ("roots", "i64", "dbl", "strs"): ex.assume(z3.And(s[k].n >= 0, s[k].n < 2 ** 24 - 1))
        for k in ("objs", "arrs"):
            ex.assume(z3.And(s[k].n >= 0, s[k].n < 2 ** 24 - 1))
            a = z3.Int("a?")
            ex.assume(fa([a], z3.And(s[k].size[a] >= 0, s[k].size[a] < 2 ** 31), patterns=[s[k].size[a]]))
        ex.assume(s["data"].n < 2 ** 31)
        # the type of the columns' elements and the invariant of string ranges (kept by newValue, see run_new)
        i = z3.Int("i?")
        o, l = s["strs"].leaves[("offset_",)], s["strs"].leaves[("length_",)]
        ex.assume(fa([i], z3.Implies(z3.And(i >= 0, i < s["strs"].n), self.str_ok(s, i)), patterns=[o[i]]))
        for arr, w, sg in ((s["i64"].leaves[()], 64, True),):
            ex.assume(fa([i], ex.in_range(arr[i], w, sg), patterns=[arr[i]]))

    def str_ok(self, s, i):
        o, l = s["strs"].leaves[("offset_",)], s["strs"].leaves[("length_",)]
        return z3.And(o[i] >= 0, l[i] >= 0, o[i] + l[i] <= s["data"].n)

    def dangling(self, s, a):
        col, idx = a % 256, a / 256
        return z3.Or(z3.And(col == INT64, idx >= s["i64"].n), z3.And(col == DOUBLE, idx >= s["dbl"].n), z3.And(col == STRING, idx >= s["strs"].n), col > STRING)

    def denotes(self, s, a, typ, val, data=None):
        """the address a stands for a scalar of this type and value (VarV or ScalarValueType index + term) in state s"""
        col, idx = a % 256, a / 256
        u = idx % 65536
        out = []
        V_ = lambda k, c: z3.And(val.idx == k, c(val.vals[k]) if k in val.vals else z3.BoolVal(False))
        out.append(z3.Implies(z3.Or(col == UINT16), z3.And(typ == T_INT, V_(A_INT, lambda x: x.t == u))))
        out.append(z3.Implies(col == INT16, z3.And(typ == T_INT, V_(A_INT, lambda x: x.t == z3.If(u >= 32768, u - 65536, u)))))
        out.append(z3.Implies(col == BOOL, z3.And(typ == T_BOOL, V_(A_BOOL, lambda x: x == (u != 0)))))
        out.append(z3.Implies(col == INT64, z3.And(typ == T_INT, V_(A_INT, lambda x: x.t == s["i64"].leaves[()][idx]))))
        out.append(z3.Implies(col == DOUBLE, z3.And(typ == T_FLOAT, V_(A_FLOAT, lambda x: x.t == s["dbl"].leaves[()][idx]))))
        j = z3.Int(self.ex.fresh_name("anychar"))
        def sv(x):
            if not isinstance(x, ViewV): return z3.BoolVal(False)
            o, l = s["strs"].leaves[("offset_",)][idx], s["strs"].leaves[("length_",)][idx]
            return z3.And(x.len == l, z3.Implies(z3.And(j >= 0, j < l), x.base.at(x.off + j) == s["data"].at(o + j)))
        def anystr():
            alts = [z3.And(val.idx == k, sv(v)) for k, v in val.vals.items() if k in (A_STR, A_VIEW)]
            return z3.Or(*alts) if alts else z3.BoolVal(False)
        out.append(z3.Implies(col == STRING, z3.And(typ == T_STRING, anystr())))
        out.append(z3.Implies(col == NULL, z3.And(typ == T_NULL, val.idx == A_NULL)))
        out.append(z3.Implies(col == OBJECTS, z3.And(typ == T_OBJECT, val.idx == A_NULL)))
        out.append(z3.Implies(col == ARRAYS, z3.And(typ == T_ARRAY, val.idx == A_NULL)))
        return z3.And(*out)

    def fn(self, name, pred=lambda d: True):
        r = [f for f in self.a.byname.get(NS + name, []) if f in self.a.funcs and pred(self.a.decls[f])]
        if not r: raise Unsupported(f"{name} not found")
        return r

    def one(self, name, pred=lambda d: True):
        r = self.fn(name, pred)
        if len(r) != 1: raise Unsupported(f"{len(r)} functions {name}")
        return r[0]

    def method(self, rec, name, pred=lambda d: True):
        """method of a class (or the nearest base that has it)"""
        d = self.a.decls[rec]
        for m in d.get("methods", []):
            if m in self.a.decls and self.a.decls[m]["n"] == name and m in self.a.funcs and pred(self.a.decls[m]): return m
        for b in d.get("bases", []):
            r = self.method(self.a.T(b)["d"], name, pred)
            if r is not None: return r
        return None

    def vcall(self, lv, name, args=(), pred=lambda d: True):
        """virtual call on an object of its dynamic class"""
        m = self.method(self.ex.get(lv).rec, name, pred)
        if m is None: raise Unsupported(f"{name} of {self.a.decls[self.ex.get(lv).rec]['n']}")
        return self.ex.call(m, lv, list(args))

    # ---- node values
    def fresh_addr(self, name="addr"):
        ex = self.ex
        v = ex.ifresh(name, 32, False)
        return StructV(self.addr_rec, {"value_": v}), v.t

    def node(self, pool, addr, name="node"):
        """an unresolved node"""
        ex = self.ex
        d = {f["n"]: f["t"] for f in self.a.decls[self.node_rec]["fields"]}
        return ex.new_lv(StructV(self.node_rec, {"data_": ex.default_value(d["data_"]), "model_": P(pool), "addr_": addr}), name)

    def ptr_addr(self, v):
        """address in a model_ptr"""
        if not isinstance(v, StructV) or "data_" not in v.fields: raise Unsupported("no node pointer")
        x = v.fields["data_"]
        return x.fields["addr_"].fields["value_"].t, x

    # ---- T1: addresses
    def run_addr(self):
        ex = self.ex
        ex.mode = "bv"
        for k in list(ex.contracts):
            if "ModelNodeAddress" in k: del ex.contracts[k]
        Q = "ModelNodeAddress::"
        ctor = self.one(Q + "ModelNodeAddress", lambda d: len(d["params"]) == 2)
        def run(ex):
            b = lambda v: z3.BV2Int(v.t, False)
            c, i = ex.ifresh("col", 8, False), ex.ifresh("idx", 32, False)
            lv = ex.new_lv(None, "addr")
            ex.inline(ctor, lv, [ex.new_lv(c), ex.new_lv(i)])
            v = ex.get(lv.sub("value_")).t
            ex.check(v == (z3.ZeroExt(24, c.t) + i.t * 256), "address: value is index * 256 + column (mod 2^32)", "C15")
            a = ex.ifresh("any", 32, False)
            ex.set(lv, StructV(self.addr_rec, {"value_": a}))
            g = lambda n, *ar: ex.load(ex.inline(self.one(Q + n), lv, list(ar)))
            ex.check(z3.ZeroExt(24, g("column").t) == z3.URem(a.t, z3.BitVecVal(256, 32)), "address: column is value mod 256", "C15")
            ex.check(g("index").t == z3.UDiv(a.t, z3.BitVecVal(256, 32)), "address: index is value / 256", "C15")
            u = z3.URem(z3.UDiv(a.t, z3.BitVecVal(256, 32)), z3.BitVecVal(65536, 32))
            ex.check(z3.ZeroExt(16, g("uint16").t) == u, "address: uint16 is the index mod 2^16", "C15")
            ex.check(g("int16").t == z3.Extract(15, 0, u), "address: int16 is the two's complement of uint16", "C15")
            ex.check(ex.as_bool(g("operator bool")) == (a.t != 0), "address: true unless all zero", "C15")
            # encoding loses nothing
            ex.assume(z3.ULT(i.t, z3.BitVecVal(2 ** 24, 32)))
            ex.set(lv, StructV(self.addr_rec, {"value_": I(v, 32, False)}))
            ex.check(g("column").t == c.t, "address: the column of a new address", "C15")
            ex.check(g("index").t == i.t, "address: the index of a new address", "C15")
            n = ex.ifresh("newcol", 8, False)
            g("setColumn", ex.new_lv(n))
            ex.check(z3.And(g("column").t == n.t, g("index").t == i.t), "address: setColumn keeps the index", "C15")
        ex.stats.functions += [NS + Q + x for x in ("ModelNodeAddress(column, index)", "column", "index", "setColumn", "uint16", "int16", "operator bool")]
        ex.explore(run, cover="address")

    # ---- T2: new values
    def later(self, s0, pool):
        """any later state of the model: columns only grow (proved for every mutator by run_frame)"""
        ex = self.ex
        for k, n in (("i64", "i64_"), ("dbl", "double_"), ("strs", "strings_")):
            old = s0[k]
            new = ex.vec_fresh(old.ety, "later." + n)
            j = z3.Int("j?")
            ex.assume(z3.And(new.n >= old.n, new.n < 2 ** 24))
            for p in old.leaves: ex.assume(fa([j], z3.Implies(z3.And(j >= 0, j < old.n), new.leaves[p][j] == old.leaves[p][j]), patterns=[new.leaves[p][j]]))
            ex.set(self.col_lv(pool, n), new)
        d = s0["data"]
        n = z3.Int(ex.fresh_name("later.size")); f = z3.Function(ex.fresh_name("later.char"), IA, IA)
        ex.assume(z3.And(n >= d.n, n < 2 ** 31))
        ex.set(self.col_lv(pool, "stringData_"), DataV(n, lambda i: z3.If(i < d.n, d.at(i), f(i))))

    def kept(self, s0, s, label, tag="C15"):
        """existing entries of every column stay what they were"""
        ex = self.ex
        j, k = z3.Int(ex.fresh_name("anyentry")), z3.Int(ex.fresh_name("anymember"))
        for c in ("roots", "i64", "dbl", "strs"):
            if s[c] is s0[c]: continue
            ex.check(z3.And(s[c].n >= s0[c].n, *[z3.Implies(z3.And(j >= 0, j < s0[c].n), s[c].leaves[p][j] == s0[c].leaves[p][j]) for p in s0[c].leaves]), f"{label}: keeps the {c} column's entries", tag)
        ex.check(z3.And(s["data"].n >= s0["data"].n, z3.Implies(z3.And(j >= 0, j < s0["data"].n), s["data"].at(j) == s0["data"].at(j))), f"{label}: keeps the string data", tag)
        ex.check(z3.Implies(z3.And(j >= 0, j < s["strs"].n), self.str_ok(s, j)), f"{label}: strings lie within the string data", tag)
        for c in ("objs", "arrs"):
            ex.check(z3.And(s[c].n >= s0[c].n, z3.Implies(z3.And(j >= 0, j < s0[c].n, k >= 0, k < s0[c].size[j]), z3.And(s[c].size[j] >= s0[c].size[j], *[s[c].leaves[p][j][k] == s0[c].leaves[p][j][k] for p in s0[c].leaves]))),
                     f"{label}: keeps the members of the {c}", tag)

    def resolve_real(self, pool, nd, then):
        """ModelPool::resolve with a callback that looks at the resolved node"""
        ex = self.ex
        fid = self.one("ModelPool::resolve")
        got = []
        def cb(ex_, f, this, args):
            got.append(1); then(args[0]); return VOID
        ex.contracts[NS + "Model::ResolveFn::operator()"] = cb
        rec = self.a.rec_by_name[NS + "Model::ResolveFn"][0]
        ex.inline(fid, pool, [nd, ex.new_lv(StructV(rec, {}), "callback")])
        return got

    def look(self, pool, addr):
        """type and value a resolved node shows"""
        ex = self.ex
        r = {}
        def then(x):
            lv = x if isinstance(x, LV) else ex.new_lv(x)
            r["rec"] = ex.get(lv).rec
            r["type"] = ex.load(self.vcall(lv, "type"))
            r["value"] = ex.load(self.vcall(lv, "value"))
            r["lv"] = ex.get(lv)
        got = self.resolve_real(pool, self.node(pool, addr), then)
        r["calls"] = len(got)
        return r

    def run_new(self, what):
        ex = self.ex
        self.tag = "C15"
        kinds = {"int64_t": ("ModelPool::newValue", "int"), "double": ("ModelPool::newValue", "float"), "string_view": ("ModelPool::newValue", "rec"),
                 "bool": ("Model::newSmallValue", "bool"), "int16_t": ("Model::newSmallValue", ("int", True)), "uint16_t": ("Model::newSmallValue", ("int", False))}
        qn, k = kinds[what]
        def is_it(d):
            t = self.a.T(self.a.noref(d["params"][0]["t"]))
            return t["k"] == "int" and (t["w"], t.get("sg", False)) == (16, k[1]) if isinstance(k, tuple) else t["k"] == k
        fid = self.one(qn, is_it)
        ex.stats.functions.append(f"{NS}{qn}({what})")
        def run(ex):
            pool = self.fresh_pool()
            s0 = self.st(pool)
            if what == "string_view":
                f = z3.Function("text", IA, IA); n = z3.Int("length")
                ex.assume(z3.And(n >= 0, n < 2 ** 30))
                x = ViewV(ArrBase(lambda i: f(i)), z3.IntVal(0), n)
            elif what == "double": x = D(z3.Const("value", z3.Float64()))
            elif what == "bool": x = z3.Bool("value")
            else: x = ex.ifresh("value", {"int64_t": 64}.get(what, 16), what != "uint16_t")
            r = ex.load(ex.inline(fid, pool, [ex.new_lv(x, "value")]))
            s1 = self.st(pool)
            a, nd = self.ptr_addr(r)
            label = f"new value ({what})"
            ex.check(a != 0, f"{label}: the node is not null", "C15")
            m = nd.fields["model_"]
            ex.check(z3.BoolVal(isinstance(m, P) and m.lv is not None and m.lv.root is pool.root), f"{label}: the node belongs to the model", "C15")
            # fresh address: not one of an existing column entry
            col, idx = a % 256, a / 256
            j = z3.Int(ex.fresh_name("anyentry"))
            for c, cc in (("i64", INT64), ("dbl", DOUBLE), ("strs", STRING)):
                ex.check(z3.Implies(col == cc, z3.And(idx >= s0[c].n, idx < s1[c].n)), f"{label}: the address is that of a new entry", "C15")
            ex.check(z3.Or(col == UINT16, col == INT16, col == BOOL, col == INT64, col == DOUBLE, col == STRING), f"{label}: the address is a scalar's", "C15")
            self.kept(s0, s1, label)
            # now and at any later time the node shows the value
            self.later(s1, pool)
            l = self.look(pool, StructV(self.addr_rec, {"value_": I(a, 32, False)}))
            ex.check(z3.BoolVal(l["calls"] == 1), f"{label}: the node resolves", "C15")
            if l["calls"] != 1: return
            t, v = l["type"].t, l["value"]
            if not isinstance(v, VarV): raise Unsupported("value of a node")
            if what == "bool": ex.check(z3.And(t == T_BOOL, v.idx == A_BOOL, v.vals[A_BOOL] == x if A_BOOL in v.vals else False), f"{label}: reads back unchanged", "C15")
            elif what == "double": ex.check(z3.And(t == T_FLOAT, v.idx == A_FLOAT, v.vals[A_FLOAT].t == x.t if A_FLOAT in v.vals else False), f"{label}: reads back unchanged", "C15")
            elif what == "string_view":
                y = v.vals.get(A_VIEW) or v.vals.get(A_STR)
                q = z3.Int(ex.fresh_name("anychar"))
                ok = isinstance(y, ViewV)
                ex.check(z3.And(t == T_STRING, y.len == n) if ok else z3.BoolVal(False), f"{label}: reads back with its length", "C15")
                if ok: ex.check(z3.Implies(z3.And(q >= 0, q < n), y.base.at(y.off + q) == f(q)), f"{label}: every character reads back unchanged", "C15")
            else: ex.check(z3.And(t == T_INT, v.idx == A_INT, v.vals[A_INT].t == x.t if A_INT in v.vals else False), f"{label}: reads back unchanged", "C15")
        ex.explore(run, cover=f"new value {what}")

    # ---- T3: resolve
    def run_resolve(self, prop):
        ex = self.ex
        self.tag = prop
        ex.stats.functions += [NS + x for x in ("ModelPool::resolve", "Model::resolve", "ValueNode::type", "ModelNodeBase::value", "ModelNodeBase::type", "SmallValueNode::value", "SmallValueNode::type", "BaseObject::BaseObject", "BaseArray::BaseArray")]
        def run(ex):
            pool = self.fresh_pool()
            s0 = self.st(pool)
            addr, a = self.fresh_addr()
            col = a % 256
            ex.assume(col != SCALAR)     # the column of free-standing values: no address of a pool refers to it
            try: l = self.look(pool, addr)
            except CppThrow:
                ex.check(self.dangling(s0, a), "resolve: fails only for references to nothing", prop)
                return
            ex.check(z3.Not(self.dangling(s0, a)), "resolve: a reference to nothing is an error", prop)
            ex.check(z3.BoolVal(l["calls"] == 1), "resolve: calls back once", prop)
            if l["calls"] != 1: return
            ex.check(self.denotes(s0, a, l["type"].t, l["value"]), "resolve: the node shows the type and value its address stands for", prop)
            f = l["lv"].fields
            m = f["model_"]
            ex.check(z3.BoolVal(isinstance(m, P) and m.lv is not None and m.lv.root is pool.root), "resolve: the node belongs to the model", prop)
            ex.check(z3.Implies(z3.Or(col < SCALAR, col == OBJECTS, col == ARRAYS), f["addr_"].fields["value_"].t == a), "resolve: the node keeps its address", prop)
            if "storage_" in f:
                want = self.col_lv(pool, "objectMemberArrays_") if ex.branch(col == OBJECTS) else self.col_lv(pool, "arrayMemberArrays_")
                p = f["storage_"]
                ex.check(z3.BoolVal(isinstance(p, P) and p.lv is not None and p.lv.same(want)), "resolve: an object or array uses its own member storage", prop)
                ex.check(f["members_"].t == a / 256, "resolve: an object or array uses its own members", prop)
            else: ex.check(z3.And(col != OBJECTS, col != ARRAYS), "resolve: objects and arrays have members", prop)
            self.unchanged(pool, s0, "resolve", prop)
        ex.explore(run, cover="resolve")

    # ---- T4: views (C16)
    def rec(self, n):
        r = self.a.rec_by_name.get(NS + n)
        if not r: raise Unsupported(f"class {n}")
        return r[0]

    def view(self, pool, kind):
        """a view of an existing object or array"""
        ex = self.ex
        ext = kind == "Object"
        s = self.st(pool)["objs" if ext else "arrs"]
        m = ex.ifresh("members", 32, True)
        ex.assume(z3.And(m.t >= 0, m.t < s.n))
        d = {f["n"]: f["t"] for f in self.a.decls[self.node_rec]["fields"]}
        st = self.col_lv(pool, "objectMemberArrays_" if ext else "arrayMemberArrays_")
        lv = ex.new_lv(StructV(self.rec(kind), {"data_": ex.default_value(d["data_"]), "model_": P(pool), "addr_": self.fresh_addr()[0], "storage_": P(st), "members_": m}), kind.lower())
        return lv, m.t

    def elem(self, s, kind, m, i):
        """(name, address) of a member"""
        if kind == "Object": return s["objs"].leaves[("name_",)][m][i], s["objs"].leaves[("node_", "value_")][m][i]
        return None, s["arrs"].leaves[("value_",)][m][i]

    def size(self, s, kind, m): return s["objs" if kind == "Object" else "arrs"].size[m]

    def is_model(self, p, pool):
        return z3.BoolVal(isinstance(p, P) and p.lv is not None and p.lv.root is pool.root and not p.lv.path)

    def is_null_ptr(self, v):
        a, nd = self.ptr_addr(v)
        return z3.And(a == 0, z3.BoolVal(isinstance(nd.fields["model_"], P) and nd.fields["model_"].lv is None))

    def refers(self, v, pool, addr):
        a, nd = self.ptr_addr(v)
        return z3.And(a == addr, self.is_model(nd.fields["model_"], pool))

    def begin(self, tag="C16"):
        self.tag = tag
        self.cands = None
        pool = self.fresh_pool()
        return pool, self.st(pool)

    def run_view(self, kind):
        """size, at, keyAt, type of an object or array"""
        ex = self.ex
        rec = self.rec(kind)
        ex.stats.functions += [f"{NS}Base{kind}::{n}" for n in ("size", "at", "type")] + ([f"{NS}BaseObject::keyAt"] if kind == "Object" else [])
        def run(ex):
            pool, s0 = self.begin()
            lv, m = self.view(pool, kind)
            n = self.size(s0, kind, m)
            L = kind.lower()
            ex.check(ex.load(self.vcall(lv, "size")).t == n, f"{L}: size is the number of members", "C16")
            ex.check(ex.load(self.vcall(lv, "type")).t == (T_OBJECT if kind == "Object" else T_ARRAY), f"{L}: type", "C16")
            i = ex.ifresh("i", 64, True)
            inside = z3.And(i.t >= 0, i.t < n)
            name, addr = self.elem(s0, kind, m, i.t)
            if kind == "Object":
                k = ex.load(self.vcall(lv, "keyAt", [ex.new_lv(i)]))
                ex.check(k.t == z3.If(inside, name, 0), "object: the key at a position is the member's name, none outside", "C16")
            r = ex.load(self.vcall(lv, "at", [ex.new_lv(i)]))
            ex.check(z3.Implies(inside, self.refers(r, pool, addr)), f"{L}: position i gives member i", "C16")
            ex.check(z3.Implies(z3.Not(inside), self.is_null_ptr(r)), f"{L}: a position outside gives nothing", "C16")
            self.unchanged(pool, s0, f"{L} access", "C16")
        ex.explore(run, cover=kind)

    def arena_cands(self, extra):
        """invariants of the loop over an arena row: extra(index) -> candidates"""
        ex = self.ex
        def f(ctx):
            i = ctx.extra.get("iterate") or ctx.extra.get("index")
            if i is None: return [], []
            it = lambda: ex.get(i).t
            out = [("index >= 0", lambda: it() >= 0)]
            if "array" in ctx.extra:
                n = lambda: ex.get(ctx.extra["arena"]).size[ctx.extra["array"]]
                out.append(("index <= size", lambda: it() <= n()))
                var = [("elements left", lambda: n() - it())]
            else:
                n = lambda: ex.seq_len(ex.get(ctx.extra["range"]))
                out.append(("index <= size", lambda: it() <= n()))
                var = [("elements left", lambda: n() - it())]
            return out + extra(ctx, it), var
        return f

    def ptr_cells(self):
        """model pointers among the local objects"""
        ex = self.ex
        for o in sorted(ex.roots):
            v = ex.roots[o].v
            if isinstance(v, StructV) and isinstance(v.fields.get("data_"), StructV) and "addr_" in v.fields["data_"].fields: yield LV(ex.roots[o])

    def run_get(self):
        ex = self.ex
        ex.stats.functions.append(NS + "BaseObject::get")
        def run(ex):
            pool, s0 = self.begin()
            lv, m = self.view(pool, "Object")
            n = self.size(s0, "Object", m)
            f = ex.ifresh("field", 16, False)
            j = z3.Int(ex.fresh_name("anyposition"))
            ex.assume(z3.And(j >= 0, j < n))
            nm = lambda i: self.elem(s0, "Object", m, i)[0]
            def extra(ctx, it):
                out = [("no earlier member has the name", lambda: z3.Implies(z3.And(j >= 0, j < it()), nm(j) != f.t))]
                for p in self.ptr_cells(): out.append((f"{p.root.name} is null", lambda p=p: self.is_null_ptr(ex.get(p))))
                return out
            self.cands = self.arena_cands(extra)
            fid = self.method(self.rec("Object"), "get", lambda d: self.a.T(self.a.noref(d["params"][0]["t"]))["k"] == "int") or self.method(self.a.T(self.a.decls[self.rec("Object")]["bases"][0])["d"], "get")
            r = ex.load(ex.call(fid, lv, [ex.new_lv(f, "field")]))
            k = self.iter_state[2] if getattr(self, "iter_state", None) else None
            if k is None: raise Unsupported("get does not iterate over the members")
            ix = ex.get(k).t
            found = z3.And(ix >= 0, ix < n, nm(ix) == f.t)
            ex.check(z3.Implies(found, self.refers(r, pool, self.elem(s0, "Object", m, ix)[1])), "object: a name gives a member of that name", "C16")
            ex.check(z3.Implies(z3.And(found, nm(j) == f.t), j >= ix), "object: a name gives the first member of that name", "C16")
            ex.check(z3.Implies(z3.Not(found), z3.And(nm(j) != f.t, self.is_null_ptr(r))), "object: a name no member has gives nothing", "C16")
            self.unchanged(pool, s0, "object get", "C16")
        ex.explore(run, cover="get")

    def abstract_resolve(self, pool):
        """contract of Model::resolve: one call with the view of the address, unless it refers to nothing (see run_resolve)"""
        ex = self.ex
        base = self.rec("ModelNodeBase")
        fn = next(m for m in self.a.decls[self.rec("Model::ResolveFn")]["methods"] if m in self.a.decls and self.a.decls[m].get("oo") == "()")
        def resolve(ex_, fid, this, args):
            nd = ex.get(args[0])
            d = {f["n"]: f["t"] for f in self.a.decls[self.node_rec]["fields"]}
            a = nd.fields["addr_"]
            x = ex.new_lv(StructV(base, {"data_": ex.default_value(d["data_"]), "model_": nd.fields["model_"], "addr_": a}), "resolved")
            cb = args[1]
            ex.call(ex.virtual_target(fn, cb), cb, [x])
            return VOID
        ex.contracts[NS + "ModelPool::resolve"] = resolve
        ex.contracts[NS + "Model::resolve"] = resolve
        # the resolved node's own functions as functions of its address
        A = lambda this: ex.get(this.sub("addr_").sub("value_")).t
        F = lambda n, *s: z3.Function(n, *s)
        self.af = dict(type=F("type_of", IA, IA), size=F("size_of", IA, IA), key=F("key_of", IA, IA, IA), at=F("at_of", IA, IA, IA), get=F("get_of", IA, IA, IA), val=F("value_of", IA, IA), it=F("iterate_of", IA, z3.BoolSort()))
        def ptr(ret, addr, this):
            ty = ex.T(ret)
            d = {f["n"]: f["t"] for f in self.a.decls[self.node_rec]["fields"]}
            ex.assume(z3.And(addr >= 0, addr < 2 ** 32))
            return StructV(ty["d"], {"data_": StructV(self.node_rec, {"data_": ex.default_value(d["data_"]), "model_": P(pool), "addr_": StructV(self.addr_rec, {"value_": I(addr, 32, False)})})})
        def con(n, f):
            ex.contracts[NS + "ModelNodeBase::" + n] = lambda ex_, fid, this, args: f(this, args, ex.a.decls[fid]["ret"])
        def ranged(t, w, sg): ex.assume(ex.in_range(t, w, sg)); return I(t, w, sg)
        con("type", lambda this, a, r: ranged(self.af["type"](A(this)), ex.T(r)["w"], ex.T(r).get("sg", False)))
        con("size", lambda this, a, r: ranged(self.af["size"](A(this)), 32, False))
        con("keyAt", lambda this, a, r: ranged(self.af["key"](A(this), ex.load(a[0]).t), 16, False))
        con("at", lambda this, a, r: ptr(r, self.af["at"](A(this), ex.load(a[0]).t), this))
        con("get", lambda this, a, r: ptr(r, self.af["get"](A(this), ex.load(a[0]).t), this))
        def value(this, a, r):
            alts = [x["t"] for x in ex.a.decls[ex.T(r)["d"]]["targs"]]
            return VarV(alts, z3.IntVal(A_INT), {A_INT: ranged(self.af["val"](A(this)), 64, True)})
        con("value", value)
        self.iterated = []
        def it(this, a, r):
            self.iterated.append((A(this), a[0])); return self.af["it"](A(this))
        con("iterate", it)

    def run_dispatch(self):
        """ModelNode: every view function gives what the resolved node gives"""
        ex = self.ex
        self.tag = "C16"
        names = ("type", "size", "keyAt", "at", "get", "value", "iterate")
        ex.stats.functions += [NS + "ModelNode::" + n for n in names]
        for name in names:
            def run(ex, name=name):
                pool, s0 = self.begin()
                self.abstract_resolve(pool)
                addr, a = self.fresh_addr()
                lv = self.node(pool, addr)
                i = ex.ifresh("arg", 16 if name == "get" else 64, name != "get")
                fid = self.method(self.node_rec, name)
                cbrec = self.rec("ModelNode::IterCallback")
                cb = ex.new_lv(StructV(cbrec, {}), "cb")
                args = [cb] if name == "iterate" else [ex.new_lv(i)] if name in ("keyAt", "at", "get") else []
                r = ex.load(ex.inline(fid, lv, args))
                L = f"node {name}: as its resolved node"
                if name in ("at", "get"): ex.check(self.refers(r, pool, self.af[name](a, i.t)), L, "C16")
                elif name == "value": ex.check(z3.And(r.idx == A_INT, r.vals[A_INT].t == self.af["val"](a)) if isinstance(r, VarV) and A_INT in r.vals else z3.BoolVal(False), L, "C16")
                elif name == "iterate":
                    ex.check(z3.BoolVal(len(self.iterated) == 1 and self.iterated[0][1] is cb or len(self.iterated) == 1 and self.iterated[0][1].same(cb)), "node iterate: iterates its resolved node once", "C16")
                    ex.check(ex.as_bool(r) == self.af["it"](a), L, "C16")
                elif name == "keyAt": ex.check(r.t == self.af["key"](a, i.t), L, "C16")
                else: ex.check(r.t == self.af[name](a), L, "C16")
                self.unchanged(pool, s0, "node access", "C16")
            ex.explore(run, cover="dispatch " + name)

    def run_iterate(self, kind):
        """iterate: calls back with each member in order until told to stop"""
        ex = self.ex
        ex.stats.functions.append(f"{NS}Base{kind}::iterate")
        def run(ex):
            pool, s0 = self.begin()
            self.abstract_resolve(pool)
            lv, m = self.view(pool, kind)
            n = self.size(s0, kind, m)
            q = z3.Int("q?"); ad = self.elem(s0, kind, m, q)[1]
            ex.assume(fa([q], z3.Implies(z3.And(q >= 0, q < n), ad != 0), patterns=[ad]))     # members refer to nodes (run_append, C22)
            count = ex.new_lv(I(z3.IntVal(0), 64, False), "#calls"); stopped = ex.new_lv(z3.BoolVal(False), "#stopped")
            cbrec = self.rec("ModelNode::IterCallback")
            cb = ex.new_lv(StructV(cbrec, {}), "cb")
            L = kind.lower()
            def call(ex_, fid, this, args):
                N = ex.get(count).t
                x = ex.get(args[0])
                ex.check(z3.Not(ex.get(stopped)), f"{L} iterate: no call after the callback asked to stop", "C16")
                ex.check(z3.And(N < n, x.fields["addr_"].fields["value_"].t == self.elem(s0, kind, m, N)[1], self.is_model(x.fields["model_"], pool)), f"{L} iterate: the k-th call is with member k", "C16")
                ex.set(count, I(N + 1, 64, False))
                r = z3.Bool(ex.fresh_name("goon"))
                ex.set(stopped, z3.Not(r))
                return r
            ex.contracts[NS + "ModelNode::IterCallback::operator()"] = call
            def extra(ctx, it):
                out = [("calls = index", lambda: ex.get(count).t == it()), ("not stopped", lambda: z3.Not(ex.get(stopped)))]
                for o in sorted(ex.roots):
                    if isinstance(ex.roots[o].v, z3.BoolRef) and not ex.roots[o].name.startswith("#"):
                        b = LV(ex.roots[o]); out += [(f"{b.root.name}@{o} true", lambda b=b: ex.get(b)), (f"{b.root.name}@{o} = not stopped", lambda b=b: ex.get(b) == z3.Not(ex.get(stopped)))]
                return out
            self.cands = self.arena_cands(extra)
            r = ex.load(self.vcall(lv, "iterate", [cb]))
            N, S = ex.get(count).t, ex.get(stopped)
            ex.check(z3.Implies(z3.Not(S), N == n), f"{L} iterate: every member is visited unless stopped", "C16")
            ex.check(ex.as_bool(r) == z3.Not(S), f"{L} iterate: tells whether it was stopped", "C16")
            self.unchanged(pool, s0, f"{L} iterate", "C16")
        ex.explore(run, cover="iterate " + kind)

    def run_iters(self):
        """fieldNames(), fields() and begin()/end()"""
        ex = self.ex
        self.tag = "C16"
        Q = "ModelNode::"
        def run(ex, cls, b, e):
            pool, s0 = self.begin()
            self.abstract_resolve(pool)
            addr, a = self.fresh_addr()
            lv = ex.new_lv(StructV(self.rec("ModelNodeBase"), ex.get(self.node(pool, addr)).fields), "node")
            first = ex.new_lv(ex.load(ex.call(self.method(self.node_rec, b), lv, [])), "first")
            last = ex.new_lv(ex.load(ex.call(self.method(self.node_rec, e), lv, [])), "last")
            rec = ex.get(first).rec
            M = lambda oo, pred=lambda d: True: next((m for m in self.a.decls[rec]["methods"] if m in self.a.funcs and self.a.decls[m].get("oo") == oo and pred(self.a.decls[m])), None)
            if M("*") is None or M("++") is None or M("==") is None: raise Unsupported("iterator operators")
            n = self.af["size"](a); ex.assume(z3.And(n >= 0, n < 2 ** 32))
            # an iterator after k steps: the one before with its index moved by ++ (checked below)
            ints = [f for f, v in ex.get(first).fields.items() if isinstance(v, I)]
            if len(ints) != 1: raise Unsupported("iterator state")
            ix = ints[0]
            ex.check(ex.get(first).fields[ix].t == 0, f"{cls}: starts with the first member", "C16")
            ex.check(ex.get(last).fields[ix].t == n, f"{cls}: ends after the last member", "C16")
            k = ex.ifresh("k", 64, True); ex.assume(z3.And(k.t >= 0, k.t < n))
            cur = ex.new_lv(ex.get(first).with_(ix, k), "it")
            ex.check(z3.Not(ex.as_bool(ex.load(ex.call(M("=="), cur, [last])))), f"{cls}: not at the end before the last member", "C16")
            if M("!="): ex.check(ex.as_bool(ex.load(ex.call(M("!="), cur, [last]))), f"{cls}: differs from the end before the last member", "C16")
            v = ex.load(ex.call(M("*"), cur, []))
            key, at = self.af["key"](a, k.t), self.af["at"](a, k.t)
            if cls == "StringIdIterator": ex.check(v.t == key, f"{cls}: position k gives the name of member k", "C16")
            elif cls == "FieldIterator": ex.check(z3.And(v.first.t == key, self.refers(v.second, pool, at)), f"{cls}: position k gives name and value of member k", "C16")
            else: ex.check(self.refers(v, pool, at), f"{cls}: position k gives member k", "C16")
            ex.call(M("++"), cur, [])
            ex.check(ex.get(cur).fields[ix].t == k.t + 1, f"{cls}: ++ moves to the next member", "C16")
            p = [f for f, v in ex.get(first).fields.items() if isinstance(v, P)]
            ex.check(z3.BoolVal(all(ex.get(cur).fields[f].lv is not None and ex.get(cur).fields[f].lv.root is lv.root for f in p)), f"{cls}: stays with its node", "C16")
            ex.set(cur, ex.get(first).with_(ix, I(n, 64, True)))
            ex.check(ex.as_bool(ex.load(ex.call(M("=="), cur, [last]))), f"{cls}: the end is reached after the last member", "C16")
            if M("!="): ex.check(z3.Not(ex.as_bool(ex.load(ex.call(M("!="), cur, [last])))), f"{cls}: equals the end after the last member", "C16")
        for cls, b, e in (("StringIdIterator", "fieldNamesBegin", "fieldNamesEnd"), ("FieldIterator", "fieldsBegin", "fieldsEnd"), ("ChildIterator", "begin", "end")):
            ex.stats.functions.append(f"{NS}ModelNode::{cls}, {b}, {e}")
            ex.explore(lambda ex, c=(cls, b, e): run(ex, *c), cover=cls)

    # ---- T5: building (C16)
    def pool_strings(self):
        """contract of StringPool::emplace (C12) as seen by the model: the id of a text"""
        ex = self.ex
        self.names = []
        def emplace(ex_, fid, this, args):
            i = z3.Int(ex.fresh_name("id")); ex.assume(z3.And(i >= 0, i < 65536))
            self.names.append((ex.load(args[0]), i))
            return I(i, 16, False)
        ex.contracts[NS + "StringPool::emplace"] = emplace

    def appended(self, pool, s0, s1, kind, m, label, want):
        """exactly one member more, at the end, the others and everything else unchanged"""
        ex = self.ex
        c = "objs" if kind == "Object" else "arrs"
        n = s0[c].size[m]
        ex.check(s1[c].size[m] == n + 1, f"{label}: one member more", "C16")
        name, addr = self.elem(s1, kind, m, n)
        ex.check(want(name, addr), f"{label}: the new member is the last one", "C16")
        ex.check(addr != 0, f"{label}: the new member is a node", "C16")
        o = z3.Int(ex.fresh_name("other"))
        ex.check(z3.Implies(o != m, s1[c].size[o] == s0[c].size[o]), f"{label}: other {kind.lower()}s keep their size", "C16")
        ex.check(s1[c].n == s0[c].n, f"{label}: no new {kind.lower()}", "C16")
        d = "arrs" if kind == "Object" else "objs"
        ex.check(z3.BoolVal(s1[d] is s0[d] and s1["roots"] is s0["roots"]), f"{label}: touches nothing else", "C16")
        self.kept(s0, s1, label, "C16")

    def run_append(self):
        ex = self.ex
        self.tag = "C16"
        R = self.rec
        fs = [(k, m) for k, cls in (("Object", ("Object", "BaseObject")), ("Array", ("Array", "BaseArray"))) for c in cls for n in ("addBool", "addField", "addFieldInternal", "append", "appendInternal") for m in self.a.byname.get(f"{NS}{c}::{n}", []) if m in self.a.funcs]
        if len(fs) < 12: raise Unsupported("member functions that append")
        for kind, fid in fs:
            d = self.a.decls[fid]
            ps = d["params"][1:] if kind == "Object" else d["params"]
            if len(ps) != 1: raise Unsupported(d["qn"])
            ty = self.a.T(self.a.noref(ps[0]["t"]))
            label = f"{d['qn'].split('::')[-2].split('<')[0]}::{d['n']}({ty.get('s', ty['k'])[:24]})"
            ex.stats.functions.append(NS + label)
            def run(ex, kind=kind, fid=fid, ty=ty, label=label, ps=ps):
                pool, s0 = self.begin()
                self.pool_strings()
                lv, m = self.view(pool, kind)
                args = []
                if kind == "Object":
                    nm = ViewV(ArrBase(lambda i: z3.Function("fieldname", IA, IA)(i)), z3.IntVal(0), z3.IntVal(7)); args.append(ex.new_lv(nm, "name"))
                k = ty["k"]
                x = None
                if k == "rec" and ty["n"] == "std::basic_string_view":
                    ln = z3.Int("length"); ex.assume(z3.And(ln >= 0, ln < 2 ** 30))
                    fch = z3.Function("text", IA, IA)
                    x = ViewV(ArrBase(lambda i: fch(i)), z3.IntVal(0), ln)
                elif k == "rec":
                    addr, a = self.fresh_addr()
                    ex.assume(a != 0)
                    x = StructV(ty["d"], {"data_": ex.get(self.node(pool, addr))})
                elif k == "float": x = D(z3.Const("value", z3.Float64()))
                elif k == "bool": x = z3.Bool("value")
                else: x = ex.ifresh("value", ty["w"], ty.get("sg", False))
                args.append(ex.new_lv(x, "value"))
                ex.inline(fid, lv, args)
                s1 = self.st(pool)
                def want(name, addr):
                    c = []
                    if kind == "Object":
                        c.append(z3.BoolVal(len(self.names) == 1 and isinstance(self.names[0][0], ViewV) and self.names[0][0].base is nm.base))
                        if self.names: c.append(name == self.names[0][1])
                    if k == "rec" and not isinstance(x, ViewV): c.append(addr == a)
                    else:
                        alts = {"bool": (T_BOOL, A_BOOL), "int": (T_INT, A_INT), "float": (T_FLOAT, A_FLOAT), "rec": (T_STRING, A_VIEW)}[k]
                        v = VarV([], z3.IntVal(alts[1]), {alts[1]: x})
                        c.append(z3.Not(self.dangling(s1, addr))); c.append(self.denotes(s1, addr, z3.IntVal(alts[0]), v))
                        c.append(z3.And(addr % 256 != SCALAR))
                    return z3.And(*c)
                self.appended(pool, s0, s1, kind, m, label, want)
            ex.explore(run, cover=label)

    def run_extend(self, kind):
        ex = self.ex
        self.tag = "C16"
        fid = self.one(f"{kind}::extend")
        ex.stats.functions.append(f"{NS}{kind}::extend")
        def run(ex):
            pool, s0 = self.begin()
            lv, m = self.view(pool, kind)
            ov, o = self.view(pool, kind)
            ex.assume(ex.get(ov.sub("addr_").sub("value_")).t != 0)
            c = "objs" if kind == "Object" else "arrs"
            n, k = s0[c].size[m], s0[c].size[o]
            ex.assume(z3.And(n + k < 2 ** 31))
            paths = list(s0[c].leaves)
            j, q = z3.Int("j?"), z3.Int(ex.fresh_name("other"))
            cur = lambda: self.st(pool)[c]
            iv = lambda ctx: [LV(ex.roots[r]) for r in sorted({r for r, _ in ctx.H}) if isinstance(ex.roots[r].v, I) and not ex.roots[r].name.startswith("#")]
            def cands(ctx):
                out, var = [], []
                for i in iv(ctx):
                    it = lambda i=i: ex.get(i).t
                    nm = i.root.name
                    out += [(f"{nm} bounds", lambda it=it: z3.And(it() >= 0, it() <= k)), (f"size grew by {nm}", lambda it=it: cur().size[m] == n + it())]
                    for p in paths:
                        out.append((f"copied up to {nm} {p}", lambda it=it, p=p: fa([j], z3.Implies(z3.And(j >= n, j < n + it()), cur().leaves[p][m][j] == s0[c].leaves[p][o][j - n]), patterns=[cur().leaves[p][m][j]])))
                    var.append((f"left after {nm}", lambda it=it: k - it()))
                out += [("arrays", lambda: cur().n == s0[c].n), ("other sizes", lambda: fa([j], z3.Implies(j != m, cur().size[j] == s0[c].size[j]), patterns=[cur().size[j]]))]
                for p in paths:
                    b = z3.Int("b?")
                    out.append((f"members kept {p}", lambda p=p: fa([b, j], z3.Implies(z3.And(b >= 0, b < s0[c].n, j >= 0, j < s0[c].size[b]), cur().leaves[p][b][j] == s0[c].leaves[p][b][j]), patterns=[cur().leaves[p][b][j]])))
                return out, var
            self.cands = cands
            w = ex.new_lv(StructV(self.a.T(self.a.noref(self.a.decls[fid]["params"][0]["t"]))["d"], {"data_": ex.get(ov)}), "other")
            ex.inline(fid, lv, [w])
            s1 = self.st(pool)
            i = z3.Int(ex.fresh_name("position"))
            L = f"{kind}::extend"
            ex.check(s1[c].size[m] == n + k, f"{L}: as many members more as the other has", "C16")
            for p in paths: ex.check(z3.Implies(z3.And(i >= 0, i < k), s1[c].leaves[p][m][n + i] == s0[c].leaves[p][o][i]), f"{L}: the other's members follow in order", "C16")
            ex.check(z3.Implies(q != m, s1[c].size[q] == s0[c].size[q]), f"{L}: other {kind.lower()}s keep their size", "C16")
            self.kept(s0, s1, L, "C16")
        ex.explore(run, cover="extend " + kind)

    def run_roots(self, tag="C16"):
        ex = self.ex
        for n in ("ModelPool::addRoot", "ModelPool::root", "ModelPool::numRoots", "ModelPool::newObject", "ModelPool::newArray", "ModelPool::resolveObject", "ModelPool::resolveArray"):
            fid = self.one(n)
            ex.stats.functions.append(NS + n)
            def run(ex, n=n, fid=fid):
                pool, s0 = self.begin(tag)
                L = n.split("::")[1]
                if L == "addRoot":
                    addr, a = self.fresh_addr(); ex.assume(a != 0)
                    w = ex.new_lv(StructV(self.a.T(self.a.noref(self.a.decls[fid]["params"][0]["t"]))["d"], {"data_": ex.get(self.node(pool, addr))}), "node")
                    ex.inline(fid, pool, [w])
                    s1 = self.st(pool)
                    ex.check(z3.And(s1["roots"].n == s0["roots"].n + 1, s1["roots"].leaves[("value_",)][s0["roots"].n] == a), "addRoot: appends the node", tag)
                    self.kept(s0, s1, "addRoot", tag)
                elif L == "numRoots":
                    ex.check(ex.load(ex.inline(fid, pool, [])).t == s0["roots"].n, "numRoots: the number of roots", tag)
                elif L == "root":
                    i = ex.ifresh("i", 64, False)
                    inside = i.t < s0["roots"].n
                    try: r = ex.load(ex.inline(fid, pool, [ex.new_lv(i)]))
                    except CppThrow:
                        ex.check(z3.Not(inside), "root: an error only outside", tag); return
                    ex.check(z3.And(inside, self.refers(r, pool, s0["roots"].leaves[("value_",)][i.t])), "root: i gives root i", tag)
                elif L in ("newObject", "newArray"):
                    cap = ex.ifresh("capacity", 64, False); ex.assume(cap.t < 2 ** 30)
                    r = ex.load(ex.inline(fid, pool, [cap]))
                    s1 = self.st(pool); c, col, st = ("objs", OBJECTS, "objectMemberArrays_") if L == "newObject" else ("arrs", ARRAYS, "arrayMemberArrays_")
                    k = s0[c].n
                    ex.check(self.refers(r, pool, k * 256 + col), f"{L}: a new node", tag)
                    ex.check(z3.And(s1[c].n == k + 1, s1[c].size[k] == 0), f"{L}: it is empty", tag)
                    f = r.fields["data_"].fields
                    ex.check(z3.And(z3.BoolVal(f["storage_"].lv is not None and f["storage_"].lv.same(self.col_lv(pool, st))), f["members_"].t == k), f"{L}: it uses its own members", tag)
                    self.kept(s0, s1, L, tag)
                else:
                    addr, a = self.fresh_addr(); ex.assume(a != 0)
                    w = ex.new_lv(StructV(self.a.T(self.a.noref(self.a.decls[fid]["params"][0]["t"]))["d"], {"data_": ex.get(self.node(pool, addr))}), "node")
                    col, st = (OBJECTS, "objectMemberArrays_") if L == "resolveObject" else (ARRAYS, "arrayMemberArrays_")
                    try: r = ex.load(ex.inline(fid, pool, [w]))
                    except CppThrow:
                        ex.check(a % 256 != col, f"{L}: an error only for other nodes", tag); return
                    f = r.fields["data_"].fields
                    ex.check(a % 256 == col, f"{L}: only for its kind of node", tag)
                    ex.check(z3.And(self.refers(r, pool, a), z3.BoolVal(f["storage_"].lv is not None and f["storage_"].lv.same(self.col_lv(pool, st))), f["members_"].t == a / 256), f"{L}: the view of that node", tag)
            ex.explore(run, cover=n)

    # ---- T6: serialization (C17)
    def run_fields(self):
        """every serialize function passes each of its fields once, with the field's width"""
        ex = self.ex
        self.tag = "C17"
        seen = []
        for q, width in ((f"{NS}ModelNodeAddress::serialize", None), (f"{NS}BaseObject::Field::serialize", None), (f"{NS}ModelPool::Impl::StringRange::serialize", None)):
            fs = [f for f in self.a.byname.get(q, []) if f in self.a.funcs]
            if len(fs) < 2: raise Unsupported(f"{q} not instantiated for reading and writing")
            ex.stats.functions.append(q)
            for fid in fs:
                def run(ex, fid=fid, q=q):
                    d = self.a.decls[fid]
                    lv = ex.new_lv(StructV(d["parent"], {f["n"]: ex.fresh(f["t"], f["n"]) for f in self.a.decls[d["parent"]]["fields"]}), "x")
                    before = ex.get(lv)
                    order = []
                    def val(w):
                        def c(ex_, f, this, args):
                            a = args[0]; v = ex.load(a)
                            ok = isinstance(a, LV) and a.root is lv.root and isinstance(v, I) and v.w == w * 8
                            ex.check(z3.BoolVal(ok), f"{q}: passes its own fields with their width", "C17")
                            order.append(tuple(a.path)); return VOID
                        return c
                    for k in ("Serializer", "Deserializer"):
                        for w in (1, 2, 4, 8): ex.contracts[f"bitsery::{k}::value{w}b"] = val(w)
                        def obj(ex_, f, this, args):
                            ms = [m for m in self.a.byname.get(NS + self.a.decls[ex.get(args[0]).rec]["qn"].split(NS, 1)[1] + "::serialize", []) if m in self.a.funcs and self.a.T(self.a.noref(self.a.decls[m]["params"][0]["t"]))["d"] == self.a.decls[f]["parent"]]
                            if len(ms) != 1: raise Unsupported("serialize of a field")
                            return ex.inline(ms[0], args[0], [this])
                        ex.contracts[f"bitsery::{k}::object"] = obj
                    s = ex.new_lv(OpaqueV("serializer"), "s")
                    ex.inline(fid, lv, [s])
                    want = [tuple(p) for p, _ in ex.leaf_types_of(before)] if hasattr(ex, "leaf_types_of") else self.leaves(before)
                    ex.check(z3.BoolVal(sorted(order, key=str) == sorted(want, key=str)), f"{q}: every field exactly once", "C17")
                    seen.append((q, order))
                    ex.check(z3.BoolVal(all(o == order for q_, o in seen if q_ == q)), f"{q}: read and write use the same order", "C17")
                ex.explore(run, cover=q)

    def leaves(self, v, path=()):
        if isinstance(v, StructV): return [x for k, y in v.fields.items() for x in self.leaves(y, path + (k,))]
        return [path]

    def run_rw(self):
        """write and read go through the same columns, all of them, in the same order"""
        ex = self.ex
        self.tag = "C17"
        fs = [f for f in self.a.byname.get(NS + "ModelPool::Impl::readWrite", []) if f in self.a.funcs]
        if len(fs) < 2: raise Unsupported("readWrite not instantiated for reading and writing")
        ex.stats.functions += [NS + "ModelPool::Impl::readWrite", NS + "ModelPool::write", NS + "ModelPool::read"]
        seen = []
        cols = self.a.decls[self.impl_rec]["fields"]
        for fid in fs:
            def run(ex, fid=fid):
                pool, s0 = self.begin("C17")
                got = []
                def con(kind):
                    def c(ex_, f, this, args):
                        a = args[0]
                        got.append((kind, tuple(a.path)))
                        if kind in ("container", "text1b"):
                            m = ex.load(args[1]).t if len(args) > 1 else z3.IntVal(2 ** 62)
                            ex.check(m >= 2 ** 32 - 1, "readWrite: no limit on the size of a column", "C17")
                        return VOID
                    return c
                for k in ("Serializer", "Deserializer"):
                    for n in ("container", "text1b", "ext", "object"): ex.contracts[f"bitsery::{k}::{n}"] = con(n)
                impl = ex.get(pool).fields["impl_"].lv
                ex.inline(fid, impl, [ex.new_lv(OpaqueV("serializer"), "s")])
                want = sorted(("columns_", c) for c in ex.get(impl).fields["columns_"].fields)
                ex.check(z3.BoolVal(sorted(p for _, p in got) == want), "readWrite: every column exactly once", "C17")
                ty = {"objectMemberArrays_": "ext", "arrayMemberArrays_": "ext", "stringData_": "text1b"}
                ex.check(z3.BoolVal(all(k == ty.get(p[-1], "container") or (k == "object" and ty.get(p[-1]) == "ext") for k, p in got)), "readWrite: each column by its kind", "C17")
                seen.append(got)
                ex.check(z3.BoolVal(all(g == got for g in seen)), "readWrite: reading and writing use the same columns in the same order", "C17")
                self.unchanged(pool, s0, "readWrite (besides the serializer)", "C17")
            ex.explore(run, cover="readWrite")
        for n in ("write", "read"):
            fid = self.one("ModelPool::" + n)
            def run(ex, n=n, fid=fid):
                pool, s0 = self.begin("C17")
                calls = []
                ex.contracts[NS + "ModelPool::Impl::readWrite"] = lambda ex_, f, this, args: (calls.append(this), VOID)[1]
                for k in ("bitsery::Serializer", "bitsery::Deserializer"):
                    ex.contracts[k + "::" + k.split("::")[1]] = lambda ex_, f, this, args: (ex.set(this, OpaqueV("serializer")), VOID)[1]
                    ex.contracts[k + "::adapter"] = lambda ex_, f, this, args: ex.new_lv(OpaqueV("adapter"))
                err = ex.ifresh("error", 32, True)
                ex.contracts["bitsery::InputStreamAdapter::error"] = lambda ex_, f, this, args: err
                stream = ex.new_lv(OpaqueV("stream"), "stream")
                try: ex.inline(fid, pool, [stream])
                except CppThrow:
                    ex.check(z3.And(z3.BoolVal(n == "read"), err.t != 0), f"{n}: fails only if the stream is broken", "C17"); return
                ex.check(z3.BoolVal(len(calls) == 1 and calls[0].root is ex.get(pool).fields["impl_"].lv.root), f"{n}: passes the model's columns once", "C17")
                if n == "read": ex.check(err.t == 0, "read: a broken stream is an error", "C17")
            ex.explore(run, cover=n)

    def run_arena_ext(self, write):
        """the arena format: number of arrays, then per array its size and elements; written and read exactly so"""
        ex = self.ex
        self.tag = "C17"
        ex.cfg["feas_ms"] = 100
        nm = "bitsery::ext::ArrayArenaExt::" + ("serialize" if write else "deserialize")
        fs = [f for f in self.a.byname.get(nm, []) if f in self.a.funcs]
        if not fs: raise Unsupported(nm)
        ex.stats.functions.append(nm)
        for fid in fs:
            def run(ex, fid=fid):
                pool, s0 = self.begin("C17")
                at = self.a.T(self.a.noref(self.a.decls[fid]["params"][1]["t"]))
                et = self.a.decls[at["d"]]["targs"][0]["t"]
                c = "objs" if self.a.T(et)["n"].endswith("Field") else "arrs"
                col = self.col_lv(pool, "objectMemberArrays_" if c == "objs" else "arrayMemberArrays_")
                src = s0[c]
                a_ = z3.Int("a?")
                ex.assume(src.n < 2 ** 24)
                L = f"arena {'write' if write else 'read'}"
                gi = ex.new_lv(I(z3.IntVal(-1), 64, True), "#gi"); gj = ex.new_lv(I(z3.IntVal(-1), 64, True), "#gj")
                G = lambda: (ex.get(gi).t, ex.get(gj).t)
                def named(t, nm):
                    t = z3.simplify(t)
                    if z3.is_int_value(t) or z3.is_const(t): return t
                    c = z3.Int(ex.fresh_name(nm)); ex.assume(c == t); return c
                def go(i, j): ex.set(gi, I(named(i, "gi"), 64, True)); ex.set(gj, I(named(j, "gj"), 64, True))
                def value4b(ex_, f, this, args):
                    i, j = G()
                    what = z3.If(i == -1, src.n, src.size[i])
                    ex.check(z3.And(j == -1, i < src.n), f"{L}: a number only where the format has one", "C17")
                    if write: ex.check(ex.load(args[0]).t == what, f"{L}: the number the format has there", "C17")
                    else: ex.set(args[0], I(named(what, "number"), 32, ex.load(args[0]).sg))
                    go(z3.If(i == -1, 0, z3.If(src.size[i] == 0, i + 1, i)), z3.If(z3.And(i >= 0, src.size[i] > 0), 0, -1))
                    return VOID
                def elem(ex_, args):
                    i, j = G()
                    ex.check(z3.And(i >= 0, i < src.n, j >= 0, j < src.size[i]), f"{L}: an element only where the format has one", "C17")
                    if write:
                        x = ex.get(args[1])
                        for p in src.leaves:
                            y = x
                            for k in p: y = y.fields[k]
                            ex.check(y.t == src.leaves[p][i][j], f"{L}: the element the format has there", "C17")
                    else:
                        ex.set(args[1], ex.vec_get(src.row(i), j))
                    last = j + 1 == src.size[i]
                    go(z3.If(last, i + 1, i), z3.If(last, -1, j + 1))
                    return VOID
                for k in ("Serializer", "Deserializer"): ex.contracts[f"bitsery::{k}::value4b"] = value4b
                if not write: ex.set(col, ArenaV(src.ety, z3.IntVal(0), z3.Const("nosizes", src.size.sort()), {p: z3.Const(f"none{n_}", x.sort()) for n_, (p, x) in enumerate(src.leaves.items())}))
                cur = lambda: ex.get(col)
                b, j_ = z3.Int("b?"), z3.Int("j?")
                def cands(ctx):
                    out, var = [], []
                    ints = [LV(ex.roots[o]) for o in sorted(ex.roots) if isinstance(ex.roots[o].v, I) and not ex.roots[o].name.startswith("#")]
                    wr = {o for o, _ in ctx.H}
                    for x in ints:
                        X = lambda x=x: ex.get(x).t
                        xn = f"{x.root.name}@{x.root.ord}"
                        out += [(f"{xn} = format array, before its size", lambda X=X: z3.And(G()[0] == X(), G()[1] == -1)), (f"{xn} >= 0", lambda X=X: X() >= 0),
                                (f"{xn} <= arrays", lambda X=X: X() <= src.n)]
                        if not write: out += [(f"{xn} arrays read", lambda X=X: cur().n == X()), (f"{xn} being read", lambda X=X: cur().n == X() + 1)]
                        var.append((f"arrays after {xn}", lambda X=X: src.n - X()))
                        for y in ints:
                            if y.root is x.root: continue
                            Y = lambda y=y: ex.get(y).t
                            yn = f"{y.root.name}@{y.root.ord}"
                            out += [(f"{xn}, {yn} = format position", lambda X=X, Y=Y: z3.And(Y() >= 0, Y() <= src.size[X()], z3.If(Y() < src.size[X()], z3.And(G()[0] == X(), G()[1] == Y()), z3.And(G()[0] == X() + 1, G()[1] == -1))))]
                            if not write: out.append((f"{yn} elements of {xn} read", lambda X=X, Y=Y: z3.And(cur().size[X()] == Y(), fa([j_], z3.Implies(z3.And(j_ >= 0, j_ < Y()), z3.And(*[cur().leaves[p][X()][j_] == src.leaves[p][X()][j_] for p in src.leaves])), patterns=[src.leaves[p][X()][j_] for p in src.leaves]))))
                            var.append((f"elements {yn} of {xn}", lambda X=X, Y=Y: src.size[X()] - Y()))
                        if not write:
                            out.append((f"arrays before {xn} equal", lambda X=X: fa([b], z3.Implies(z3.And(b >= 0, b < X()), cur().size[b] == src.size[b]), patterns=[src.size[b]])))
                            for p in src.leaves: out.append((f"elements before {xn} equal {p}", lambda X=X, p=p: fa([b, j_], z3.Implies(z3.And(b >= 0, b < X(), j_ >= 0, j_ < src.size[b]), cur().leaves[p][b][j_] == src.leaves[p][b][j_]), patterns=[src.leaves[p][b][j_]])))
                    out.append(("not at the header", lambda: G()[0] >= 0))
                    return out, var
                self.cands = cands
                ex.inline(fid, ex.new_lv(OpaqueV("ext"), "ext"), [ex.new_lv(OpaqueV("serializer"), "s"), col, ex.new_lv(FnV(elem), "fnc")])
                i, j = G()
                ex.check(z3.And(i == src.n, j == -1), f"{L}: goes through the whole format", "C17")
                if write: self.unchanged(pool, s0, L, "C17")
                else:
                    new = cur()
                    b1, j1 = z3.Int(ex.fresh_name("array")), z3.Int(ex.fresh_name("position"))
                    ex.check(new.n == src.n, f"{L}: as many arrays", "C17")
                    ex.check(z3.Implies(z3.And(b1 >= 0, b1 < src.n), new.size[b1] == src.size[b1]), f"{L}: arrays of the same size", "C17")
                    for p in src.leaves: ex.check(z3.Implies(z3.And(b1 >= 0, b1 < src.n, j1 >= 0, j1 < src.size[b1]), new.leaves[p][b1][j1] == src.leaves[p][b1][j1]), f"{L}: the same elements", "C17")
            ex.explore(run, cover=nm)

    def run_setstrings(self):
        """another string pool: every member keeps its name"""
        ex = self.ex
        self.tag = "C17"
        fid = self.one("ModelPool::setStrings")
        ex.cfg["feas_ms"] = 100
        ex.stats.functions.append(NS + "ModelPool::setStrings")
        def run(ex):
            pool, s0 = self.begin("C17")
            new = ex.new_lv(OpaqueV("other string pool"), "newstrings")
            B = z3.BoolSort()
            oldhas, oldtext = z3.Function("oldhas", IA, B), z3.Function("oldtext", IA, IA)
            newid, newtext, newhas = z3.Function("newid", IA, IA), z3.Function("newtext", IA, IA), z3.Function("newhas", IA, B)
            k = z3.Int("k?")
            # emplace (C12): an id that resolves to the text, the same for every call; ids given out stay valid
            ex.assume(fa([k], z3.And(newid(k) >= 0, newid(k) < 65536, newtext(newid(k)) == k, newhas(newid(k))), patterns=[newid(k)]))
            same = z3.Bool("same")
            ex.assume(z3.Implies(same, fa([k], z3.And(newhas(k) == oldhas(k), newtext(k) == oldtext(k)), patterns=[oldtext(k)])))
            ex.assume(z3.Implies(same, fa([k], z3.And(newhas(k) == oldhas(k), newtext(k) == oldtext(k)), patterns=[newtext(k)])))
            key = lambda v: v.base.key if isinstance(v, ViewV) and isinstance(v.base, TextBase) else None
            def resolve(ex_, f, this, args):
                i = ex.load(args[0]).t
                old = this.root is self.strings_lv.root
                return OptV(oldhas(i) if old else newhas(i), ViewV(TextBase(oldtext(i) if old else newtext(i)), z3.IntVal(0), z3.Int(ex.fresh_name("len"))))
            ex.contracts[NS + "StringPool::resolve"] = resolve
            def emplace(ex_, f, this, args):
                t = key(ex.load(args[0]))
                if t is None or this.root is not new.root: raise Unsupported("emplace of another text")
                return I(newid(t), 16, False)
            ex.contracts[NS + "StringPool::emplace"] = emplace
            ex.contracts[NS + "StringPool::operator=="] = lambda ex_, f, this, args: same
            c0 = s0["objs"]
            nk, ak = ("name_",), ("node_", "value_")
            tr = lambda x: z3.If(oldhas(x), newid(oldtext(x)), x)
            cur = lambda: self.st(pool)["objs"]
            b, j = z3.Int("b?"), z3.Int("j?")
            def state(done): return fa([b, j], z3.Implies(z3.And(b >= 0, j >= 0), cur().leaves[nk][b][j] == z3.If(done(b, j), tr(c0.leaves[nk][b][j]), c0.leaves[nk][b][j])), patterns=[cur().leaves[nk][b][j]])
            def cands(ctx):
                i = ctx.extra.get("row")
                if i is None: return [], []
                it = lambda: ex.get(i).t
                n = ctx.extra["count"]
                rows = ctx.extra["rows"]
                if isinstance(rows, ArenaV):
                    inv = lambda: state(lambda b, j: z3.And(b < it(), j < c0.size[b]))
                else:
                    inv = lambda: state(lambda b, j: z3.And(z3.Or(b < rows.a, z3.And(b == rows.a, j < it())), j < c0.size[b]))
                return [("index bounds", lambda: z3.And(it() >= 0, it() <= n())), ("names translated so far", inv),
                        ("sizes", lambda: fa([b], cur().size[b] == c0.size[b], patterns=[cur().size[b]])), ("arrays", lambda: cur().n == c0.n),
                        ("addresses", lambda: fa([b, j], cur().leaves[ak][b][j] == c0.leaves[ak][b][j], patterns=[cur().leaves[ak][b][j]]))], [("left", lambda: n() - it())]
            self.cands = cands
            self.alts = [P(new)]
            ex.inline(fid, pool, [ex.new_lv(P(new), "strings")])
            p = ex.get(ex.get(pool).fields["impl_"].lv).fields["strings_"]
            ex.check(z3.BoolVal(isinstance(p, P) and p.lv is not None and p.lv.root is new.root), "setStrings: the model uses the new pool", "C17")
            c1 = cur()
            a1, j1 = z3.Int(ex.fresh_name("object")), z3.Int(ex.fresh_name("position"))
            m = z3.And(a1 >= 0, a1 < c0.n, j1 >= 0, j1 < c0.size[a1])
            x0, x1 = c0.leaves[nk][a1][j1], c1.leaves[nk][a1][j1]
            ex.check(z3.Implies(z3.And(m, oldhas(x0)), z3.And(newhas(x1), newtext(x1) == oldtext(x0))), "setStrings: every member keeps its name", "C17")
            ex.check(z3.Implies(m, z3.And(c1.leaves[ak][a1][j1] == c0.leaves[ak][a1][j1], c1.size[a1] == c0.size[a1])), "setStrings: every member keeps its value", "C17")
        ex.explore(run, cover="setStrings")

    # ---- T7: validation (C22)
    def ref_ok(self, s, a):
        col, idx = a % 256, a / 256
        return z3.And(a != 0, z3.Not(self.dangling(s, a)), z3.Implies(col == OBJECTS, idx < s["objs"].n), z3.Implies(col == ARRAYS, idx < s["arrs"].n))

    def members_ok(self, s, kind, m, upto):
        j = z3.Int("j?")
        nm, ad = self.elem(s, kind, m, j)
        ok = self.ref_ok(s, ad) if nm is None else z3.And(self.nameok(nm), self.ref_ok(s, ad))
        return fa([j], z3.Implies(z3.And(j >= 0, j < upto), ok), patterns=[ad])

    def validated(self, s, a):
        col, idx = a % 256, a / 256
        return z3.And(self.ref_ok(s, a), z3.Implies(col == OBJECTS, self.members_ok(s, "Object", idx, s["objs"].size[idx])), z3.Implies(col == ARRAYS, self.members_ok(s, "Array", idx, s["arrs"].size[idx])))

    def run_check(self, body):
        """checkForErrors: no error reported -> every reference is good; recursion by the contract of the node check"""
        ex = self.ex
        self.tag = "C22"
        ex.cfg["feas_ms"] = 200
        fid = self.one("ModelPool::checkForErrors")
        ex.stats.functions.append(NS + "ModelPool::checkForErrors" + (" (check of one node)" if body else ""))
        self.nameok = z3.Function("names_a_string", IA, z3.BoolSort())
        names = {OBJECTS: "Object", ARRAYS: "Array"}
        def run(ex):
            pool, s0 = self.begin("C22")
            A = lambda this: ex.get(this.sub("addr_").sub("value_")).t
            def guard(a):
                if ex.branch(self.dangling(s0, a)): raise CppThrow("std::runtime_error", OpaqueV("exception"))
            T = z3.Function("type_of_free_value", IA, IA)
            def typ(ex_, f, this, args):
                a = A(this); guard(a); c = a % 256
                t = z3.Int(ex.fresh_name("type"))
                ex.assume(t == z3.If(c == OBJECTS, T_OBJECT, z3.If(c == ARRAYS, T_ARRAY, z3.If(c == SCALAR, T(a), z3.If(c == BOOL, T_BOOL, z3.If(c == NULL, T_NULL, z3.If(c == DOUBLE, T_FLOAT, z3.If(c == STRING, T_STRING, T_INT))))))))
                ex.assume(z3.And(T(a) != T_OBJECT, T(a) != T_ARRAY))
                ty = ex.T(ex.a.decls[f]["ret"]); return I(t, ty["w"], ty.get("sg", False))
            ex.contracts[NS + "ModelNode::type"] = typ
            def kind(a):
                guard(a)
                if ex.branch(a % 256 == OBJECTS):
                    ex.check(a / 256 < s0["objs"].n, "check: looks only into objects that exist", "C22"); return "Object"
                if ex.branch(a % 256 == ARRAYS):
                    ex.check(a / 256 < s0["arrs"].n, "check: looks only into arrays that exist", "C22"); return "Array"
                return None
            def size(ex_, f, this, args):
                a = A(this); k = kind(a)
                return I(z3.IntVal(0) if k is None else self.size(s0, k, a / 256), 32, False)
            ex.contracts[NS + "ModelNode::size"] = size
            def member(this, args):
                a = A(this); k = kind(a); i = ex.load(args[0]).t
                if k is None or not ex.branch(z3.And(i >= 0, i < self.size(s0, k, a / 256))): return None
                return self.elem(s0, k, a / 256, i)
            def keyat(ex_, f, this, args):
                e = member(this, args)
                t = z3.IntVal(0) if e is None or e[0] is None else e[0]
                ex.assume(z3.And(t >= 0, t < 65536))
                return I(t, 16, False)
            ex.contracts[NS + "ModelNode::keyAt"] = keyat
            d = {f["n"]: f["t"] for f in self.a.decls[self.node_rec]["fields"]}
            def ptr(ret, a):
                return StructV(ex.T(ret)["d"], {"data_": StructV(self.node_rec, {"data_": ex.default_value(d["data_"]), "model_": P(None) if a is None else P(pool), "addr_": StructV(self.addr_rec, {"value_": I(z3.IntVal(0) if a is None else a, 32, False)})})})
            def at(ex_, f, this, args):
                e = member(this, args)
                if e is not None: ex.assume(z3.And(e[1] >= 0, e[1] < 2 ** 32))
                return ptr(ex.a.decls[f]["ret"], None if e is None else e[1])
            ex.contracts[NS + "ModelNode::at"] = at
            def resolve(ex_, f, this, args):
                guard(A(args[0])); return VOID
            ex.contracts[NS + "ModelPool::resolve"] = resolve
            ex.contracts[NS + "Model::resolve"] = resolve
            ex.contracts[NS + "StringPool::resolve"] = lambda ex_, f, this, args: OptV(self.nameok(ex.load(args[0]).t), ViewV(ArrBase(lambda i: z3.IntVal(0)), z3.IntVal(0), z3.IntVal(0)))
            def errs():
                for o in sorted(ex.roots):
                    if ex.roots[o].name == "errors" and isinstance(ex.roots[o].v, VecV): return LV(ex.roots[o])
                for o in sorted(ex.roots):
                    if isinstance(ex.roots[o].v, VecV) and not ex.roots[o].name.startswith("pool"): return LV(ex.roots[o])
                raise Unsupported("list of errors")
            E = lambda: ex.get(errs()).n
            state = {"body": False, "E0": None, "a": None, "in": False}
            ex.cfg["termination"] = not body          # the loops on the way to the first check are the business of checkForErrors
            def call(ex_, v, a):
                if len(a) != 1 or state["in"] : return NotImplemented
                x = ex.load(a[0])
                addr, nd = self.ptr_addr(x)
                if body and not state["body"]:
                    if ex.nested: raise PathEnd()     # loops around the first check: checked in checkForErrors
                    state["body"] = ex.cfg["termination"] = True
                    ex.set(errs(), ex.havoc_value(ex.get(errs()), "errors")); ex.assume(E() >= 0)
                    b, t = self.fresh_addr("node")
                    null = ex.choose(2)
                    e0 = E(); state["E0"], state["a"] = e0, t
                    p = StructV(x.rec, {"data_": nd.with_("addr_", b).with_("model_", P(None) if null else P(pool))})
                    ex.call_closure(v.fn, [ex.new_lv(p, "node")])
                    ex.check(E() >= e0, "check of a node: keeps the errors found before", "C22")
                    ex.check(z3.Implies(E() == e0, z3.BoolVal(False) if null else self.validated(s0, t)), "check of a node: a reference that is broken, or a member of it that is, is reported", "C22")
                    raise PathEnd()
                # contract of the check of one node
                m = nd.fields["model_"]
                if not isinstance(m, P): raise Unsupported("model of a node")
                e0 = E(); e1 = z3.Int(ex.fresh_name("errors"))
                ex.assume(e1 >= e0)
                good = z3.BoolVal(False) if m.lv is None else self.validated(s0, addr)
                ex.assume(z3.Implies(e1 == e0, good))
                v0 = ex.get(errs()); ex.set(errs(), VecV(v0.ety, e1, {p: z3.Const(ex.fresh_name("errors[]"), x_.sort()) for p, x_ in v0.leaves.items()}))
                return VOID
            ex.cfg["call_fn"] = call
            def cands(ctx):
                out, var = [], []
                base = state["E0"] if state["body"] else z3.IntVal(0)
                good = lambda c: z3.Implies(E() == base, c)
                out.append(("errors kept", lambda: E() >= base))
                cells = []
                for o in sorted(ex.roots):
                    v = ex.roots[o].v
                    if isinstance(v, I) and v.w >= 32: cells.append((ex.roots[o].name + f"@{o}", LV(ex.roots[o])))
                    if isinstance(v, StructV):
                        for k, x in v.fields.items():
                            if isinstance(x, I) and v.rec != self.addr_rec and o in {q for q, _ in ctx.H}: cells.append((f"{ex.roots[o].name}@{o}.{k}", LV(ex.roots[o]).sub(k)))
                for nm, lv in cells:
                    X = lambda lv=lv: ex.get(lv).t
                    out.append((f"{nm} >= 0", lambda X=X: X() >= 0))
                    lim = []
                    if state["body"]:
                        a = state["a"]
                        for k, c in (("Object", OBJECTS), ("Array", ARRAYS)):
                            n = lambda k=k: self.size(s0, k, a / 256)
                            out.append((f"{nm} <= members ({k})", lambda X=X, n=n, c=c: z3.Implies(a % 256 == c, X() <= n())))
                            out.append((f"members before {nm} checked ({k})", lambda X=X, k=k, c=c: z3.Implies(a % 256 == c, good(self.members_ok(s0, k, a / 256, X())))))
                            var.append((f"members after {nm} ({k})", lambda X=X, n=n, c=c: z3.If(a % 256 == c, n() - X(), 0)))
                    else:
                        b = z3.Int("b?")
                        for k, c, col in (("Object", "objs", OBJECTS), ("Array", "arrs", ARRAYS)):
                            out.append((f"{nm} <= {c}", lambda X=X, c=c: X() <= s0[c].n))
                            out.append((f"{c} before {nm} checked", lambda X=X, k=k, c=c: good(fa([b], z3.Implies(z3.And(b >= 0, b < X()), self.members_ok(s0, k, b, s0[c].size[b])), patterns=[s0[c].size[b]]))))
                            var.append((f"{c} after {nm}", lambda X=X, c=c: s0[c].n - X()))
                        r = s0["roots"]
                        out += [(f"{nm} <= roots", lambda X=X: X() <= r.n), (f"roots before {nm} checked", lambda X=X: good(fa([b], z3.Implies(z3.And(b >= 0, b < X()), self.ref_ok(s0, r.leaves[("value_",)][b])), patterns=[r.leaves[("value_",)][b]])))]
                        var.append((f"roots after {nm}", lambda X=X: r.n - X()))
                if not state["body"]:
                    b = z3.Int("b?")
                    for k, c in (("Object", "objs"), ("Array", "arrs")): out.append((f"{c} checked", lambda k=k, c=c: good(fa([b], z3.Implies(z3.And(b >= 0, b < s0[c].n), self.members_ok(s0, k, b, s0[c].size[b])), patterns=[s0[c].size[b]]))))
                return out, var
            self.cands = cands
            r = ex.load(ex.inline(fid, pool, []))
            if body: return
            ok = r.n == 0
            k, j = z3.Int(ex.fresh_name("container")), z3.Int(ex.fresh_name("position"))
            for kd, c in (("Object", "objs"), ("Array", "arrs")):
                nm, ad = self.elem(s0, kd, k, j)
                inside = z3.And(ok, k >= 0, k < s0[c].n, j >= 0, j < s0[c].size[k])
                ex.check(z3.Implies(inside, self.ref_ok(s0, ad)), f"checkForErrors: a {kd.lower()} member that refers to nothing is reported", "C22")
                if nm is not None: ex.check(z3.Implies(inside, self.nameok(nm)), "checkForErrors: a member name that is no string is reported", "C22")
            ex.check(z3.Implies(z3.And(ok, k >= 0, k < s0["roots"].n), self.ref_ok(s0, s0["roots"].leaves[("value_",)][k])), "checkForErrors: a root that refers to nothing is reported", "C22")
            self.unchanged(pool, s0, "checkForErrors", "C22")
        ex.explore(run, cover="checkForErrors")

    def run_validate(self):
        ex = self.ex
        self.tag = "C22"
        fid = self.one("ModelPool::validate")
        ex.stats.functions.append(NS + "ModelPool::validate")
        def run(ex):
            pool, s0 = self.begin("C22")
            got = []
            def check(ex_, f, this, args):
                v = ex.vec_fresh(ex.a.decls[ex.T(ex.a.decls[f]["ret"])["d"]]["targs"][0]["t"], "errors"); ex.assume(v.n >= 0); got.append(v); return v
            ex.contracts[NS + "ModelPool::checkForErrors"] = check
            thrown = False
            try: ex.inline(fid, pool, [])
            except CppThrow: thrown = True
            ex.check(z3.BoolVal(len(got) == 1), "validate: checks for errors", "C22")
            if got: ex.check((got[0].n > 0) == z3.BoolVal(thrown), "validate: fails exactly if there are errors", "C22")
        ex.explore(run, cover="validate")

    def unchanged(self, pool, s0, label, tag):
        s = self.st(pool)
        ok = all(s[k] is s0[k] for k in s)
        if ok: self.ex.check(z3.BoolVal(True), f"{label}: changes nothing in the model", tag)
        else: self.kept(s0, s, label, tag)


class Suite(BaseSuite):
    PROPS = ("C15", "C16", "C17", "C22")
    TU = "drivers/model.cpp"
    HARNESS = ("model", "harness/model.cpp", ["src/exception-handler.cpp", "src/model/model.cpp", "src/model/nodes.cpp", "src/model/json.cpp", "src/model/string-pool.cpp", "src/value.cpp", "src/types.cpp"])
    TRUST = TRUST + ["assumed contracts of std::string, std::string_view, std::variant, std::shared_ptr, std::function, sfl::segmented_vector (vc/builtins.py, vc/model.py)"]
    ASSUME = ["no column has 2^24 entries or more, the string data less than 2^31 bytes, no array 2^31 members", "array arenas by their contract (C14), string pool by its contract (C12)",
              "nodes are used on one thread"]
    BOUNDED = "models of up to ~80 operations built, shown, reloaded and compared with an executed specification"
    BATCH = 400

    def tasks(self, prop):
        a = self.a
        T = lambda n, f: (n, lambda st: f(Model(a, st)))
        if prop == "C15":
            return [T("address", lambda m: m.run_addr())] + [T(f"newValue {k}", lambda m, k=k: m.run_new(k)) for k in ("int64_t", "double", "string_view", "bool", "int16_t", "uint16_t")] + [T("resolve", lambda m: m.run_resolve("C15"))]
        if prop == "C16":
            return [T(f"{k} view", lambda m, k=k: m.run_view(k)) for k in ("Object", "Array")] + [T("Object get", lambda m: m.run_get()), T("node dispatch", lambda m: m.run_dispatch())] + \
                   [T(f"{k} iterate", lambda m, k=k: m.run_iterate(k)) for k in ("Object", "Array")] + [T("iterators", lambda m: m.run_iters()), T("resolve", lambda m: m.run_resolve("C16")), T("append", lambda m: m.run_append()), T("roots", lambda m: m.run_roots())] + [T(f"{k} extend", lambda m, k=k: m.run_extend(k)) for k in ("Object", "Array")]
        if prop == "C17":
            return [T("element formats", lambda m: m.run_fields()), T("columns", lambda m: m.run_rw()), T("arena write", lambda m: m.run_arena_ext(True)), T("arena read", lambda m: m.run_arena_ext(False)), T("setStrings", lambda m: m.run_setstrings())]
        if prop == "C22":
            return [T("check of one node", lambda m: m.run_check(True)), T("checkForErrors", lambda m: m.run_check(False)), T("validate", lambda m: m.run_validate()), T("resolve", lambda m: m.run_resolve("C22"))]
        return []

    def gen(self, prop, rng, hints): return G.gen(prop, rng, hints)
    def judge(self, prop, line, out): return G.judge(prop, line, out)

    def shrink(self, prop, t, d):
        from . import harness as H
        if ";" not in t: return t, d
        def bad(x):
            try: return self.judge(prop, x, H.run_batch(self.exe, [x])[0])
            except Exception: return None
        ops = t.split(";"); i = len(ops) - 1; n = 0
        while i >= 0 and n < 150:
            if ops[i].split()[0] not in ("i", "d", "s", "b", "h", "u", "o", "y"):
                c = ops[:i] + ops[i + 1:]; n += 1
                b = bad(";".join(c))
                if b: ops, d = c, b
            i -= 1
        return ";".join(ops), d
