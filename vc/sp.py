"""C12, C13: the string pool (model/string-pool.h/.cpp)."""
import z3, re
from .core import *
from . import builtins as BI
from .builtins import to_str, LOWER
from .suite import BaseSuite, TRUST

IA = z3.IntSort()
DP = z3.Datatype("DataPtr"); DP.declare("mk", ("own", IA), ("idx", IA)); DP = DP.create()
FOREIGN, THIS, OTHER = 0, 1, 2
SP = "simfil::StringPool"
FIRST, LIMIT = 128, 65535


class StoreBase(BI.StrBase):
    """view of a whole string stored at index idx of owner own"""
    def __init__(self, t, own, idx): super().__init__(t); self.own, self.idx = own, idx


class AMap(V):
    """associative container: arrays over its key sort. kind: 'key' (lower-cased text), 'id', 'data'"""
    def __init__(self, kind, a): self.kind, self.a = kind, a
    def with_(self, **kw):
        d = dict(self.a); d.update(kw); return AMap(self.kind, d)


SHAPE = {"key": (Str, {"pres": z3.BoolSort(), "id": IA, "own": IA, "idx": IA}), "id": (IA, {"pres": z3.BoolSort(), "own": IA, "idx": IA}),
         "data": (DP, {"pres": z3.BoolSort(), "own": IA, "idx": IA})}


def qall(vs, body, patterns):
    """forall with the given pattern where it is one (a select from a constant array is not)"""
    pats = [p for p in (z3.simplify(p) for p in patterns) if z3.is_app(p) and p.num_args() > 0 and any(occurs(v, p) for v in vs) and no_ite(p)]
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


def occurs(v, t): return t.eq(v) or any(occurs(v, c) for c in t.children())
def no_ite(t): return t.decl().kind() not in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ) and all(no_ite(c) for c in t.children())


def amap_fresh(ex, kind, name):
    ks, fs = SHAPE[kind]
    return AMap(kind, {f: z3.Const(ex.fresh_name(f"{name}.{f}"), z3.ArraySort(ks, s)) for f, s in fs.items()})


def amap_empty(ex, kind):
    m = amap_fresh(ex, kind, "empty")
    return m.with_(pres=z3.K(SHAPE[kind][0], z3.BoolVal(False)))


class Pool:
    def __init__(self, ast, stats=None):
        self.a = ast
        ex = self.ex = Ex(ast, stats, mode="int", rounds=2)
        self.ex.prover.timeout = 15000
        ex.cfg["feas_ms"] = 250
        ex.cfg["havoc"] = lambda ex, v, name: amap_fresh(ex, v.kind, name) if isinstance(v, AMap) else v if isinstance(v, IterV) else None
        ex.cfg["iter_deref"] = self.iter_deref
        ex.cfg["iter_eq"] = self.iter_eq
        ex.cfg["range_for"] = self.range_for
        ex.loop_candidates = self.candidates
        self.rec = (ast.rec_by_name.get(SP) or [None])[0]
        if self.rec is None: raise Unsupported("StringPool not found")
        self.fields = {f["n"]: f["t"] for f in ast.decls[self.rec]["fields"]}
        need = {"idForString_", "stringForId_", "storedStrings_", "nextId_"}
        if not need <= set(self.fields): raise Unsupported("fields of StringPool")
        self.install()
        self.tag = "C12"

    # ---- state
    def fresh_pool(self, name, own):
        ex = self.ex
        fs = {}
        for f, t in self.fields.items():
            ty = ex.T(t)
            if f == "idForString_": v = amap_fresh(ex, "key", name + ".ids")
            elif f == "stringForId_": v = amap_fresh(ex, "id", name + ".strs")
            elif f == "storedStrings_": v = ex.fresh(t, name + ".store")
            elif f == "nextId_": v = I(z3.Int(ex.fresh_name(name + ".next")), 16, False)
            elif ty["k"] == "rec" and "atomic" in ty["n"]: v = ex.ifresh(name + "." + f, 64, True)
            elif ty["k"] == "rec" and "mutex" in ty["n"]: v = OpaqueV("lock")
            else: v = ex.fresh(t, name + "." + f)
            fs[f] = v
        lv = ex.new_lv(StructV(self.rec, fs), name)
        self.owner[lv.root] = own
        ex.assume(z3.And(fs["storedStrings_"].n >= 0, fs["storedStrings_"].n < 2 ** 62))
        return lv

    def st(self, lv):
        """state of a pool as plain terms"""
        s = self.ex.get(lv)
        f = s.fields
        return dict(k=f["idForString_"].a, i=f["stringForId_"].a, n=f["storedStrings_"].n, txt=f["storedStrings_"].leaves[()], next=f["nextId_"].t, me=z3.IntVal(self.owner[lv.root]))

    def wf_key(self, s, k):
        K, I_ = s["k"], s["i"]
        x, d = K["idx"][k], K["id"][k]
        return z3.Implies(K["pres"][k], z3.And(K["own"][k] == s["me"], x >= 0, x < s["n"], LOWER(s["txt"][x]) == k, d >= 0, d < s["next"], I_["pres"][d], I_["idx"][d] == x))

    def wf_id(self, s, i):
        K, I_ = s["k"], s["i"]
        x = I_["idx"][i]; k = LOWER(s["txt"][x])
        return z3.Implies(I_["pres"][i], z3.And(I_["own"][i] == s["me"], x >= 0, x < s["n"], i >= 0, i < s["next"], K["pres"][k], K["id"][k] == i, K["idx"][k] == x))

    def wf_next(self, s): return z3.And(s["next"] >= FIRST, s["next"] <= LIMIT)

    def assume_wf(self, s):
        ex = self.ex
        k = z3.Const("k?", Str); i = z3.Int("i?")
        ex.assume(self.wf_next(s))
        ex.assume(qall([k], self.wf_key(s, k), patterns=[s["k"]["pres"][k]]))
        ex.assume(qall([i], self.wf_id(s, i), patterns=[s["i"]["pres"][i]]))

    def check_wf(self, s, label, tag=None):
        ex = self.ex
        tag = tag or self.tag
        k0 = z3.Const(ex.fresh_name("anykey"), Str); i0 = z3.Int(ex.fresh_name("anyid"))
        ex.check(self.wf_next(s), f"{label}: the next id stays in range", tag)
        ex.check(self.wf_key(s, k0), f"{label}: every key has an id below the next id that resolves to the key's own stored text", tag)
        ex.check(self.wf_id(s, i0), f"{label}: every id resolves to a stored text that is found under that id", tag)

    # ---- library
    def view_of(self, lv):
        """view of a std::string lvalue"""
        ex = self.ex
        t = ex.get(lv).t
        if len(lv.path) == 2 and lv.path[0] == "storedStrings_" and isinstance(lv.path[1], tuple) and lv.root in self.owner:
            return ViewV(StoreBase(t, z3.IntVal(self.owner[lv.root]), lv.path[1][1]), z3.IntVal(0), BI.SLEN(t))
        return ViewV(BI.StrBase(t), z3.IntVal(0), BI.SLEN(t))

    def as_view(self, x):
        ex = self.ex
        if isinstance(x, LV):
            v = ex.get(x)
            if isinstance(v, StrV): return self.view_of(x)
            return v
        return x

    def loc(self, v):
        """owner and index of the storage a view refers to"""
        if isinstance(v, ViewV) and isinstance(v.base, StoreBase) and z3.is_int_value(z3.simplify(v.off)) and z3.simplify(v.off).as_long() == 0: return v.base.own, v.base.idx
        return z3.IntVal(FOREIGN), z3.Int(self.ex.fresh_name("foreign"))

    def view_to(self, own, idx):
        """view of the text stored at idx of owner own"""
        t = z3.IntVal(0)
        txts = {o: self.ex.get(LV(r)).fields["storedStrings_"].leaves[()] for r, o in self.owner.items() if r.v is not None}
        o = z3.simplify(own)
        if z3.is_int_value(o) and o.as_long() in txts: tt = txts[o.as_long()][idx]
        else:
            tt = z3.Const(self.ex.fresh_name("sometext"), Str)
            for k, a in txts.items(): tt = z3.If(own == k, a[idx], tt)
        return ViewV(StoreBase(tt, own, idx), z3.IntVal(0), BI.SLEN(tt))

    def keyterm(self, m, x):
        ex = self.ex
        if m.kind == "key": return LOWER(to_str(ex, self.as_view(x)))
        v = ex.load(x)
        if m.kind == "id":
            if not isinstance(v, I): raise Unsupported("id key")
            return v.t
        if isinstance(v, OpaqueV) and v.tag == "data": return DP.mk(*v.data)
        raise Unsupported("character pointer")

    def element(self, m, k):
        own, idx = m.a["own"][k], m.a["idx"][k]
        if m.kind == "key": return PairV(self.view_to(own, idx), I(m.a["id"][k], 16, False))
        if m.kind == "id": return PairV(I(k, 16, False), self.view_to(own, idx))
        return PairV(OpaqueV("data", (DP.own(k), DP.idx(k))), self.view_to(own, idx))

    def put(self, this, k, keyv, val):
        """insert or overwrite"""
        ex = self.ex
        m = ex.get(this)
        a = dict(m.a)
        a["pres"] = z3.Store(a["pres"], k, True)
        if m.kind == "key":
            own, idx = self.loc(keyv)
            a["id"] = z3.Store(a["id"], k, ex.cast_int(ex.load(val), 16, False).t)
        else: own, idx = self.loc(self.as_view(val))
        a["own"] = z3.Store(a["own"], k, own); a["idx"] = z3.Store(a["idx"], k, idx)
        ex.set(this, AMap(m.kind, a))

    def iter_deref(self, ex, it):
        m = ex.get(it.cont)
        if isinstance(m, AMap):
            if self.ex.cfg.get("check_end", True): ex.ub(m.a["pres"][it.idx], "dereference of a valid iterator")
            if m.kind == "key":   # the mapped value can be assigned through the iterator: not modelled, so hand out a copy
                pass
            return ex.new_lv(self.element(m, it.idx), "entry")
        return None

    def iter_eq(self, ex, x, y):
        if isinstance(x.idx, str) or isinstance(y.idx, str):
            o = y if isinstance(x.idx, str) else x
            m = ex.get(o.cont)
            if isinstance(m, AMap): return z3.Not(m.a["pres"][o.idx])
        return None

    def install(self):
        ex, B = self.ex, self.ex.builtins
        ctor = ex.ctor_models
        oldmap = ctor["std::unordered_map"]
        def map_ctor(ex_, tid, a, n):
            if a and not all(isinstance(ex.load(x), OpaqueV) for x in a):
                v = ex.load(a[0])
                return v if isinstance(v, AMap) else NotImplemented
            d = ex.a.decls[ex.T(tid)["d"]]
            kt, vt = ex.T(d["targs"][0]["t"]), ex.T(d["targs"][1]["t"])
            if kt["k"] == "rec" and kt["n"] == "std::basic_string_view" and vt["k"] == "int": return amap_empty(ex, "key")
            if kt["k"] == "int" and vt["k"] == "rec" and vt["n"] == "std::basic_string_view": return amap_empty(ex, "id")
            if kt["k"] == "ptr": return amap_empty(ex, "data")
            raise Unsupported("map type")
        ctor["std::unordered_map"] = map_ctor
        oldview = ctor["std::basic_string_view"]
        def view_ctor(ex_, tid, a, n):
            if a and isinstance(a[0], LV) and isinstance(ex.get(a[0]), StrV): return self.view_of(a[0])
            return oldview(ex_, tid, a, n)
        ctor["std::basic_string_view"] = view_ctor
        B["std::basic_string::operator basic_string_view"] = lambda ex_, fid, this, a, n: self.view_of(this)
        def sdata(ex_, fid, this, a, n):
            v = self.as_view(this)
            own, idx = self.loc(v)
            return OpaqueV("data", (own, idx))
        for c in ("std::basic_string::data", "std::basic_string_view::data", "std::basic_string::c_str"): B[c] = sdata
        M = "std::unordered_map::"
        def find(ex_, fid, this, a, n):
            m = ex.get(this)
            return IterV(this, self.keyterm(m, a[0]))
        B[M + "find"] = find
        B[M + "end"] = B[M + "cend"] = lambda ex_, fid, this, a, n: IterV(this, "end")
        def contains(ex_, fid, this, a, n):
            m = ex.get(this); c = m.a["pres"][self.keyterm(m, a[0])]
            return c if ex.a.fname(fid).endswith("contains") else I(z3.If(c, 1, 0), 64, False)
        B[M + "contains"] = B[M + "count"] = contains
        def emplace(ex_, fid, this, a, n):
            m = ex.get(this)
            k = self.keyterm(m, a[0])
            kv = self.as_view(a[0]) if m.kind == "key" else None
            if len(a) != 2: raise Unsupported("emplace arguments")
            new = ex.branch(z3.Not(m.a["pres"][k]))
            if new: self.put(this, k, kv, a[1])
            return PairV(IterV(this, k), z3.BoolVal(new))
        B[M + "emplace"] = B[M + "try_emplace"] = emplace
        def insert(ex_, fid, this, a, n):
            p = ex.load(a[0])
            if len(a) != 1 or not isinstance(p, PairV): raise Unsupported("insert")
            return emplace(ex_, fid, this, [p.first, p.second], n)
        B[M + "insert"] = insert
        def assign(ex_, fid, this, a, n):
            m = ex.get(this)
            k = self.keyterm(m, a[0])
            new = ex.branch(z3.Not(m.a["pres"][k]))
            if new or m.kind != "key": self.put(this, k, self.as_view(a[0]) if m.kind == "key" else None, a[1])
            else: ex.set(this, m.with_(id=z3.Store(m.a["id"], k, ex.cast_int(ex.load(a[1]), 16, False).t)))
            return PairV(IterV(this, k), z3.BoolVal(new))
        B[M + "insert_or_assign"] = assign
        def index(ex_, fid, this, a, n):
            m = ex.get(this)
            k = self.keyterm(m, a[0])
            kv = self.as_view(a[0]) if m.kind == "key" else None
            if ex.branch(z3.Not(m.a["pres"][k])):
                self.put(this, k, kv, I(z3.IntVal(0), 16, False) if m.kind == "key" else ViewV(BI.ConstBase(b""), z3.IntVal(0), z3.IntVal(0)))
            return this.sub(("m", k))
        B[M + "operator[]"] = index
        def at(ex_, fid, this, a, n):
            m = ex.get(this); k = self.keyterm(m, a[0])
            if ex.branch(m.a["pres"][k]): return this.sub(("m", k))
            raise CppThrow("std::out_of_range", OpaqueV("exception"))
        B[M + "at"] = at
        def clear(ex_, fid, this, a, n):
            m = ex.get(this); ex.set(this, m.with_(pres=z3.K(SHAPE[m.kind][0], z3.BoolVal(False)))); return VOID
        B[M + "clear"] = clear
        B[M + "size"] = lambda ex_, fid, this, a, n: ex.ifresh("mapsize", 64, False)
        B[M + "reserve"] = lambda ex_, fid, this, a, n: VOID
        B[M + "empty"] = lambda ex_, fid, this, a, n: z3.Bool(ex.fresh_name("mapempty"))
        def erase(ex_, fid, this, a, n):
            m = ex.get(this); k = self.keyterm(m, a[0])
            ex.set(this, m.with_(pres=z3.Store(m.a["pres"], k, False))); return ex.ifresh("erased", 64, False)
        B[M + "erase"] = erase
        # element access through an lvalue ("m", key)
        def sget(ex_, m, k): p = self.element(m, k[1]); return p.second
        AMap.sget = lambda m, ex_, k: self.element(m, k[1]).second
        def swith(m, ex_, k, rest, new):
            if rest: raise Unsupported("write into a map element")
            a = dict(m.a)
            if m.kind == "key": a["id"] = z3.Store(a["id"], k[1], new.t)
            else:
                own, idx = self.loc(new)
                a["own"] = z3.Store(a["own"], k[1], own); a["idx"] = z3.Store(a["idx"], k[1], idx)
            return AMap(m.kind, a)
        AMap.swith = swith
        # deque copy assignment keeps the texts: fresh storage of the copying pool
        for nm in ("std::deque::operator=",):
            def deq(ex_, fid, this, a, n):
                ex.set(this, ex.load(a[0])); return this
            B[nm] = deq
        def mapassign(ex_, fid, this, a, n):
            ex.set(this, ex.load(a[0])); return this
        B[M + "operator="] = mapassign
        def vassign(ex_, fid, this, a, n):
            ex.set(this, self.as_view(a[0])); return this
        B["std::basic_string_view::operator="] = vassign
        # atomics and locks (one thread)
        for c in ("std::__atomic_base", "std::atomic"):
            B[c + "::operator++"] = B[c + "::operator--"] = B[c + "::operator+="] = B[c + "::fetch_add"] = B[c + "::operator-="] = lambda ex_, fid, this, a, n: (ex.set(this, ex.ifresh("counter", 64, True)), ex.get(this))[1]
            B[c + "::load"] = B[c + "::operator long"] = B[c + "::operator __int_type"] = lambda ex_, fid, this, a, n: ex.get(this)
            def aset(ex_, fid, this, a, n):
                ex.set(this, ex.cast_int(ex.load(a[0]), 64, True)); return ex.get(this)
            B[c + "::operator="] = B[c + "::store"] = aset
        ctor["std::atomic"] = ctor["std::__atomic_base"] = lambda ex_, tid, a, n: ex.cast_int(ex.load(a[0]), 64, True) if a else ex.iconst(0, 64, True)

    # raise<E>: contract (C20)
    def raise_contract(self, ex, fid, this, args):
        d = ex.a.decls[fid]
        raise CppThrow(ex.T(d["targs"][0]["t"]).get("n", "exception"), OpaqueV("exception"))

    def method(self, name, pred=lambda d: True):
        for f in self.a.byname.get(f"{SP}::{name}", []):
            if f in self.a.funcs and pred(self.a.decls[f]): return f
        raise Unsupported(f"StringPool::{name} not found")

    def begin(self):
        self.owner = {}
        self.ex.locals = []
        self.ex.contracts["simfil::raise"] = self.raise_contract

    # ---- loops over maps
    def range_for(self, ex, n, lv, v):
        if not isinstance(v, AMap): return NotImplemented
        ks = SHAPE[v.kind][0]
        vis = ex.new_lv(OpaqueV("visited", z3.K(ks, z3.BoolVal(False))), "visited")
        def cnd():
            vv = ex.get(vis).data
            k = z3.Const("k?", ks)
            c = z3.Bool(ex.fresh_name("more"))
            cur = z3.Const(ex.fresh_name("cur"), ks)
            m = ex.get(lv)
            ex.assume(z3.Implies(z3.Not(c), qall([k], z3.Implies(m.a["pres"][k], vv[k]), patterns=[m.a["pres"][k]])))
            ex.assume(z3.Implies(c, z3.And(m.a["pres"][cur], z3.Not(vv[cur]))))
            cnd.cur = cur
            return c
        lvd = n["var"]["decls"][0]
        def pre():
            cur = cnd.cur
            ex.bind_loop_var(lvd, ex.new_lv(self.element(ex.get(lv), cur), "entry"))
            ex.set(vis, OpaqueV("visited", z3.Store(ex.get(vis).data, cur, True)))
        ex.loop(n, cnd, n["body"], None, pre=pre, extra={"visited": vis, "map": lv})
        return True

    # ---- invariants
    def candidates(self, ex, ctx):
        out, var = [], []
        vis = ctx.extra.get("visited")
        if vis is not None:
            src = ex.get(ctx.extra["map"])
            ks = SHAPE[src.kind][0]
            k = z3.Const("k?", ks)
            V_ = lambda: ex.get(vis).data
            out.append(("visited only what is there", lambda: qall([k], z3.Implies(V_()[k], src.a["pres"][k]), patterns=[V_()[k]])))
            for lv, _ in ctx.cells:
                m = ex.peek(lv)
                if not isinstance(m, AMap) or m.kind != src.kind: continue
                M = lambda lv=lv: ex.get(lv).a
                out.append((f"{lv.path} has exactly the visited keys", lambda M=M: qall([k], M()["pres"][k] == V_()[k], patterns=[M()["pres"][k]])))
                fs = ["idx"] + (["id"] if src.kind == "key" else [])
                out.append((f"{lv.path} agrees with the source", lambda M=M, fs=fs: qall([k], z3.Implies(V_()[k], z3.And(M()["own"][k] == THIS, *[M()[f][k] == src.a[f][k] for f in fs])), patterns=[M()["pres"][k]])))
            var.append(("entries left", lambda: self.left(V_())))
        for lv, _ in ctx.cells:
            m = ex.peek(lv)
            if isinstance(m, AMap) and m.kind == "data":
                for lv2, _ in ctx.cells:
                    i = ex.peek(lv2)
                    if not isinstance(i, I) or i.w < 32: continue
                    j = z3.Int("j?")
                    for o in (OTHER, THIS):
                        D_ = lambda lv=lv: ex.get(lv).a
                        out.append((f"views of the first {ex.roots[lv2.root.ord].name} strings ({o})", lambda D_=D_, lv2=lv2, o=o: qall([j], z3.Implies(z3.And(j >= 0, j < ex.get(lv2).t), z3.And(
                            D_()["pres"][DP.mk(o, j)], D_()["own"][DP.mk(o, j)] == THIS, D_()["idx"][DP.mk(o, j)] == j)), patterns=[D_()["pres"][DP.mk(o, j)]])))
        self.int_candidates(ex, ctx, out, var)
        h = getattr(self, "more_candidates", None)
        if h: h(ex, ctx, out, var)
        return out, var

    left_f = z3.Function("unvisited", z3.ArraySort(Str, z3.BoolSort()), IA)
    def left(self, v):
        """number of unvisited entries: decreases when an unvisited one is visited (assumed: finite containers)"""
        ex = self.ex
        f = z3.Function(f"unvisited_{v.sort()}", v.sort(), IA)
        ex.stats.assumptions.add("a range-for over a std::unordered_map visits every entry once and ends")
        t = f(v)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE: ex.assume(z3.And(f(v.arg(0)) >= 1, t == f(v.arg(0)) - 1))
        else: ex.assume(t >= 0)
        return t

    def int_candidates(self, ex, ctx, out, var):
        for lv, _ in ctx.cells:
            v = ex.peek(lv)
            if isinstance(v, I) and lv.path == ():
                v0 = v.t
                out.append((f"{lv.root.name} not negative", lambda lv=lv: ex.get(lv).t >= 0))
                for nm, b in self.bounds(ex):
                    out.append((f"{lv.root.name} <= {nm}", lambda lv=lv, b=b: ex.get(lv).t <= b))
                    var.append((f"{nm} - {lv.root.name}", lambda lv=lv, b=b: b - ex.get(lv).t))

    def bounds(self, ex):
        return [(f"size of {r.name}", LV(r).root.v.fields["storedStrings_"].n) for r in self.owner if r.v is not None and isinstance(r.v, StructV) and "storedStrings_" in r.v.fields]

    # ---- units
    def run_emplace(self):
        ex = self.ex
        f = self.method("emplace")
        ex.stats.functions.append(f"{SP}::emplace")
        def run(ex):
            self.begin()
            me = self.fresh_pool("pool", THIS)
            s0 = self.st(me)
            self.assume_wf(s0)
            x = z3.Const("str", Str)
            arg = ex.new_lv(ViewV(BI.StrBase(x), z3.IntVal(0), BI.SLEN(x)), "str")
            k = LOWER(x)
            thrown = None; r = None
            try: r = ex.inline(f, me, [arg])
            except CppThrow as e: thrown = e
            s = self.st(me)
            had = s0["k"]["pres"][k]
            j = z3.Int(ex.fresh_name("anyindex")); i0 = z3.Int(ex.fresh_name("anyid")); k0 = z3.Const(ex.fresh_name("anykey"), Str)
            full = s0["next"] == LIMIT
            ex.check(s["n"] >= s0["n"], "emplace: no stored text is dropped", "C12")
            ex.check(z3.Implies(z3.And(j >= 0, j < s0["n"]), s["txt"][j] == s0["txt"][j]), "emplace: stored texts stay unchanged", "C12")
            ex.check(z3.Implies(s0["i"]["pres"][i0], z3.And(s["i"]["pres"][i0], s["i"]["idx"][i0] == s0["i"]["idx"][i0])), "emplace: ids already handed out resolve to the same text", "C12")
            ex.check(z3.Implies(s0["k"]["pres"][k0], z3.And(s["k"]["pres"][k0], s["k"]["id"][k0] == s0["k"]["id"][k0])), "emplace: known strings keep their id", "C12")
            if thrown is not None:
                ex.check(z3.And(z3.Not(had), full), "emplace: an error only for a new string when the ids are used up", "C12")
                ex.check(z3.And(s["n"] == s0["n"], s["next"] == s0["next"], s["k"]["pres"][k0] == s0["k"]["pres"][k0], s["i"]["pres"][i0] == s0["i"]["pres"][i0]), "emplace: the pool is unchanged after the error", "C12")
                self.check_wf(s, "emplace, after the error")
                return
            r = ex.load(r)
            ex.check(z3.Or(had, z3.Not(full)), "emplace: used up ids are reported", "C12")
            ex.check(z3.Implies(had, z3.And(r.t == s0["k"]["id"][k], s["next"] == s0["next"], s["k"]["pres"][k0] == s0["k"]["pres"][k0], s["i"]["pres"][i0] == s0["i"]["pres"][i0])), "emplace: a known string (in any letter case) gives its id and changes nothing", "C12")
            ex.check(z3.Implies(z3.Not(had), z3.And(z3.Not(s0["i"]["pres"][r.t]), r.t >= FIRST)), "emplace: a new string gets an id nobody has", "C12")
            ex.check(z3.Implies(z3.Not(had), z3.And(s["i"]["pres"][r.t], s["txt"][s["i"]["idx"][r.t]] == x)), "emplace: the new id resolves to exactly the string", "C12")
            ex.check(z3.And(s["k"]["pres"][k], s["k"]["id"][k] == r.t), "emplace: the string is found under the returned id", "C12")
            ex.check(z3.Implies(k0 != k, s["k"]["pres"][k0] == s0["k"]["pres"][k0]), "emplace: no other string is added", "C12")
            ex.check(z3.Implies(i0 != r.t, s["i"]["pres"][i0] == s0["i"]["pres"][i0]), "emplace: no other id is added", "C12")
            self.check_wf(s, "emplace")
        ex.explore(run, cover="emplace")

    def run_lookup(self):
        ex = self.ex
        g = self.method("get"); rs = self.method("resolve"); hi = self.method("highest")
        ex.stats.functions += [f"{SP}::get", f"{SP}::resolve", f"{SP}::highest"]
        def unchanged(me, s0, label):
            s = self.st(me)
            j = z3.Int(ex.fresh_name("anyindex")); i0 = z3.Int(ex.fresh_name("anyid")); k0 = z3.Const(ex.fresh_name("anykey"), Str)
            ex.check(z3.And(s["n"] == s0["n"], s["next"] == s0["next"], s["txt"][j] == s0["txt"][j], s["k"]["pres"][k0] == s0["k"]["pres"][k0], z3.Implies(s0["k"]["pres"][k0], s["k"]["id"][k0] == s0["k"]["id"][k0]),
                            s["i"]["pres"][i0] == s0["i"]["pres"][i0], z3.Implies(s0["i"]["pres"][i0], s["i"]["idx"][i0] == s0["i"]["idx"][i0])), f"{label}: changes nothing", "C12")
        def run(ex):
            self.begin()
            me = self.fresh_pool("pool", THIS); s0 = self.st(me); self.assume_wf(s0)
            x = z3.Const("str", Str)
            arg = ex.new_lv(ViewV(BI.StrBase(x), z3.IntVal(0), BI.SLEN(x)), "str")
            r = ex.load(ex.inline(g, me, [arg]))
            k = LOWER(x)
            ex.check(r.t == z3.If(s0["k"]["pres"][k], s0["k"]["id"][k], 0), "get: the string's id, or Empty if it was never inserted", "C12")
            unchanged(me, s0, "get")
        ex.explore(run, cover="get")
        def run(ex):
            self.begin()
            me = self.fresh_pool("pool", THIS); s0 = self.st(me); self.assume_wf(s0)
            i = ex.ifresh("id", 16, False)
            r = ex.load(ex.inline(rs, me, [ex.new_lv(i, "id")]))
            if not isinstance(r, OptV): raise Unsupported("resolve result")
            ex.check(r.has == s0["i"]["pres"][i.t], "resolve: a text exactly for ids that exist", "C12")
            if r.val is not None:
                own, idx = self.loc(r.val)
                ex.check(z3.Implies(r.has, z3.And(own == THIS, idx == s0["i"]["idx"][i.t])), "resolve: the pool's stored text of that id", "C12")
            else: ex.check(z3.Not(r.has), "resolve: a value", "C12")
            unchanged(me, s0, "resolve")
        ex.explore(run, cover="resolve")
        def run(ex):
            self.begin()
            me = self.fresh_pool("pool", THIS); s0 = self.st(me); self.assume_wf(s0)
            r = ex.load(ex.inline(hi, me, []))
            ex.check(r.t == s0["next"] - 1, "highest: one below the next id", "C12")
            unchanged(me, s0, "highest")
        ex.explore(run, cover="highest")

    def run_static(self):
        ex = self.ex
        f = self.method("addStaticKey")
        ex.stats.functions += [f"{SP}::addStaticKey", f"{SP}::StringPool()"]
        def run(ex):
            self.begin()
            me = self.fresh_pool("pool", THIS); s0 = self.st(me); self.assume_wf(s0)
            i = ex.ifresh("id", 16, False)
            x = z3.Const("value", Str); k = LOWER(x)
            ex.assume(z3.And(i.t < FIRST, z3.Not(s0["i"]["pres"][i.t]), z3.Not(s0["k"]["pres"][k])))
            ex.inline(f, me, [i, ex.new_lv(StrV(x), "value")])
            s = self.st(me)
            ex.check(z3.And(s["i"]["pres"][i.t], s["txt"][s["i"]["idx"][i.t]] == x, s["k"]["pres"][k], s["k"]["id"][k] == i.t), "addStaticKey: maps id and text to each other", "C12")
            j = z3.Int(ex.fresh_name("anyindex")); i0 = z3.Int(ex.fresh_name("anyid")); k0 = z3.Const(ex.fresh_name("anykey"), Str)
            ex.check(z3.Implies(z3.And(j >= 0, j < s0["n"]), s["txt"][j] == s0["txt"][j]), "addStaticKey: stored texts stay unchanged", "C12")
            ex.check(z3.Implies(s0["i"]["pres"][i0], z3.And(s["i"]["pres"][i0], s["i"]["idx"][i0] == s0["i"]["idx"][i0])), "addStaticKey: other ids resolve to the same text", "C12")
            ex.check(z3.Implies(s0["k"]["pres"][k0], z3.And(s["k"]["pres"][k0], s["k"]["id"][k0] == s0["k"]["id"][k0])), "addStaticKey: known strings keep their id", "C12")
            self.check_wf(s, "addStaticKey")
        ex.explore(run, cover="addStaticKey")
        c = next((m for m in self.a.decls[self.rec]["methods"] if self.a.decls[m]["dk"] == "CXXConstructor" and m in self.a.funcs and not self.a.decls[m]["params"]), None)
        if c is None: raise Unsupported("default constructor")
        def run(ex):
            self.begin()
            me = ex.new_lv(StructV(self.rec, {}), "pool"); self.owner[me.root] = THIS
            ex.inline(c, me, [])
            s = self.st(me)
            for i, b in ((0, b""), (1, b"$sum"), (2, b"$val"), (3, b"$idx")):
                t = str_const(b)
                ex.check(z3.And(s["i"]["pres"][i], s["txt"][s["i"]["idx"][i]] == t, s["k"]["pres"][LOWER(t)], s["k"]["id"][LOWER(t)] == i), f"StringPool(): id {i} is '{b.decode()}'", "C12", rounds=8)
            i0 = z3.Int(ex.fresh_name("anyid"))
            ex.check(z3.Implies(i0 >= 4, z3.Not(s["i"]["pres"][i0])), "StringPool(): no other ids", "C12")
            ex.check(s["next"] == FIRST, "StringPool(): dynamic ids start at 128", "C12")
            k0 = z3.Const(ex.fresh_name("anykey"), Str)
            ex.check(self.wf_key(s, k0), "StringPool(): keys", "C12", rounds=8); ex.check(self.wf_id(s, i0), "StringPool(): ids", "C12", rounds=8)
        ex.explore(run, cover="StringPool()")

    def run_casefold(self):
        """equality and hash depend on the lower-cased texts only, and equality is equality of them"""
        ex = self.ex
        eq = next((f for f in self.a.byname.get("simfil::detail::CaseInsensitiveEqual::operator()", []) if f in self.a.funcs), None)
        hs = next((f for f in self.a.byname.get("simfil::detail::CaseInsensitiveHash::operator()", []) if f in self.a.funcs), None)
        if eq is None or hs is None: raise Unsupported("hash or equality not found")
        ex.stats.functions += ["simfil::detail::CaseInsensitiveEqual::operator()", "simfil::detail::CaseInsensitiveHash::operator()"]
        B = ex.builtins
        for c, v in (("begin", "sbegin"), ("end", "end"), ("cbegin", "sbegin"), ("cend", "end")):
            B["std::basic_string_view::" + c] = lambda ex_, fid, this, a, n, v=v: IterV(this, v)
        def std_equal(ex_, fid, this, a, n):
            its = [ex.load(x) for x in a[:-1]]; f = ex.load(a[-1])
            if len(its) not in (3, 4) or not all(isinstance(i, IterV) for i in its): return NotImplemented
            if len(its) != 4: raise Unsupported("std::equal without the end of the second range")
            b1, e1, b2, e2 = its
            if [i.idx for i in its] != ["sbegin", "end", "sbegin", "end"] or b1.cont.root is not e1.cont.root or b2.cont.root is not e2.cont.root: raise Unsupported("std::equal of partial ranges")
            # assumed contract of std::equal: same length and the predicate holds at every position
            x, y = ex.ifresh("c1", 8, True), ex.ifresh("c2", 8, True)
            r = ex.as_bool(ex.load(ex.call_closure(f, [ex.new_lv(x), ex.new_lv(y)])))
            ok = ex.check(r == (BI.lower_c(x.t) == BI.lower_c(y.t)), "CaseInsensitiveEqual: two characters are equal exactly if their lower-case forms are", "C12")
            v1, v2 = ex.get(b1.cont), ex.get(b2.cont)
            return LOWER(v1.base.t) == LOWER(v2.base.t)
        B["std::equal"] = std_equal
        def run(ex):
            self.begin()
            x, y = z3.Const("x", Str), z3.Const("y", Str)
            vw = lambda t: ex.new_lv(ViewV(BI.StrBase(t), z3.IntVal(0), BI.SLEN(t)), "view")
            r = ex.as_bool(ex.load(ex.inline(eq, ex.new_lv(StructV(self.a.decls[eq]["parent"], {}), "eq"), [vw(x), vw(y)])))
            ex.check(r == (LOWER(x) == LOWER(y)), "CaseInsensitiveEqual: equality up to letter case", "C12")
        ex.explore(run, cover="CaseInsensitiveEqual")
        # hash: the loop body is run with two characters that agree in lower case; the state after must agree
        f = self.a.funcs[hs]
        def run(ex):
            self.begin()
            res = []
            def range_for(ex_, n, lv, v):
                if not isinstance(v, ViewV): return NotImplemented
                c = [I(z3.Int("c1"), 8, True), I(z3.Int("c2"), 8, True)]
                for x in c: ex.assume(z3.And(x.t >= -128, x.t <= 127))
                ex.assume(BI.lower_c(c[0].t) == BI.lower_c(c[1].t))
                # write set of the body: scalars; havoc them to one common arbitrary state
                H = ex.loop_writes(n, lambda: z3.BoolVal(True), n["body"], None, lambda: ex.bind_loop_var(n["var"]["decls"][0], ex.new_lv(ex.ifresh("c", 8, True), "c")))
                ctx = LoopCtx(ex, n, H, {})
                ex.havoc_set(H, ctx)
                start = {lv_: ex.get(lv_) for lv_, _ in ctx.cells}
                outs = []
                for x in c:
                    for lv_, v_ in start.items(): ex.set(lv_, v_)
                    ex.bind_loop_var(n["var"]["decls"][0], ex.new_lv(x, "c"))
                    ex.st(n["body"])
                    outs.append([ex.get(lv_) for lv_, _ in ctx.cells])
                for (lv_, _), p, q in zip(ctx.cells, *outs):
                    ex.check(ex.compare("==", p, q), f"CaseInsensitiveHash: {lv_.root.name} does not depend on letter case", "C12")
                for lv_, v_ in start.items(): ex.set(lv_, ex.havoc_value(v_, "after"))
                return True
            keep = ex.cfg["range_for"]; ex.cfg["range_for"] = range_for
            try:
                x = z3.Const("x", Str)
                ex.inline(hs, ex.new_lv(StructV(self.a.decls[hs]["parent"], {}), "hash"), [ex.new_lv(ViewV(BI.StrBase(x), z3.IntVal(0), BI.SLEN(x)), "view")])
            finally: ex.cfg["range_for"] = keep
        bv = Ex(self.a, ex.stats, mode="bv")
        # arithmetic of the hash is in machine words
        old = self.ex
        self.ex = bv
        bv.cfg.update(old.cfg)
        bv.loop_candidates = old.loop_candidates
        ex = bv
        def lower_bv(ex_, fid, this, a, n):
            c = ex.load(a[0]); return I(z3.If(z3.And(c.t >= 65, c.t <= 90), c.t + 32, c.t), c.w, c.sg)
        def run_bv(ex):
            self.begin()
            def range_for(ex_, n, lv, v):
                if not isinstance(v, ViewV): return NotImplemented
                c = [I(z3.BitVec("c1", 8), 8, True), I(z3.BitVec("c2", 8), 8, True)]
                low = lambda t: z3.If(z3.And(t >= 65, t <= 90), t + 32, t)
                ex.assume(low(c[0].t) == low(c[1].t))
                H = ex.loop_writes(n, lambda: z3.BoolVal(True), n["body"], None, lambda: ex.bind_loop_var(n["var"]["decls"][0], ex.new_lv(ex.ifresh("c", 8, True), "c")))
                ctx = LoopCtx(ex, n, H, {})
                ex.havoc_set(H, ctx)
                start = [(lv_, ex.get(lv_)) for lv_, _ in ctx.cells]
                outs = []
                for x in c:
                    for lv_, v_ in start: ex.set(lv_, v_)
                    ex.bind_loop_var(n["var"]["decls"][0], ex.new_lv(x, "c"))
                    ex.st(n["body"])
                    outs.append([ex.get(lv_) for lv_, _ in ctx.cells])
                for (lv_, _), p, q in zip(ctx.cells, *outs):
                    ex.check(ex.compare("==", p, q), f"CaseInsensitiveHash: {lv_.root.name} does not depend on letter case", "C12")
                for lv_, v_ in start: ex.set(lv_, ex.havoc_value(v_, "after"))
                return True
            ex.cfg["range_for"] = range_for
            x = z3.Const("x", Str)
            ex.inline(hs, ex.new_lv(StructV(self.a.decls[hs]["parent"], {}), "hash"), [ex.new_lv(ViewV(BI.StrBase(x), z3.IntVal(0), z3.BitVec("len", 64)), "view")])
        bv.explore(run_bv, cover="CaseInsensitiveHash")
        self.ex = old

    def run_copy(self):
        ex = self.ex
        self.tag = "C13"
        c = next((m for m in self.a.decls[self.rec]["methods"] if self.a.decls[m].get("ctor") == "copy" and m in self.a.funcs), None)
        if c is None: raise Unsupported("no user-provided copy constructor")
        ex.stats.functions.append(f"{SP}::StringPool(const StringPool&)")
        def run(ex):
            self.begin()
            other = self.fresh_pool("other", OTHER); s0 = self.st(other); self.assume_wf(s0)
            me = ex.new_lv(StructV(self.rec, {}), "pool"); self.owner[me.root] = THIS
            thrown = None
            try: ex.inline(c, me, [other])
            except CppThrow as e: thrown = e
            ex.check(z3.BoolVal(thrown is None), "copy: never fails", "C13")
            if thrown is not None: return
            s, so = self.st(me), self.st(other)
            i0 = z3.Int(ex.fresh_name("anyid")); k0 = z3.Const(ex.fresh_name("anykey"), Str); j = z3.Int(ex.fresh_name("anyindex"))
            ex.check(s["i"]["pres"][i0] == s0["i"]["pres"][i0], "copy: has exactly the ids of the original", "C13")
            ex.check(z3.Implies(s0["i"]["pres"][i0], s["txt"][s["i"]["idx"][i0]] == s0["txt"][s0["i"]["idx"][i0]]), "copy: every id resolves to the same text", "C13")
            ex.check(z3.Implies(s0["i"]["pres"][i0], s["i"]["own"][i0] == THIS), "copy: resolved texts belong to the copy", "C13")
            ex.check(s["k"]["pres"][k0] == s0["k"]["pres"][k0], "copy: has exactly the strings of the original", "C13")
            ex.check(z3.Implies(s0["k"]["pres"][k0], z3.And(s["k"]["id"][k0] == s0["k"]["id"][k0], s["k"]["own"][k0] == THIS)), "copy: every string is found under the same id, in the copy's own storage", "C13")
            ex.check(s["next"] == s0["next"], "copy: continues with the same next id", "C13")
            self.check_wf(s, "copy", "C13")
            ex.check(z3.And(so["n"] == s0["n"], so["txt"][j] == s0["txt"][j], so["next"] == s0["next"], so["k"]["pres"][k0] == s0["k"]["pres"][k0], so["i"]["pres"][i0] == s0["i"]["pres"][i0], so["i"]["idx"][i0] == s0["i"]["idx"][i0]), "copy: the original is unchanged", "C13")
        ex.explore(run, cover="copy")

    # ---- serialization: the stream is a count followed by (id, text) pairs
    def run_write(self):
        ex = self.ex
        self.tag = "C13"
        f = self.method("write")
        ex.stats.functions.append(f"{SP}::write")
        cnt = Spec("cnt_ids", [z3.ArraySort(IA, z3.BoolSort()), IA, IA], IA, None)
        cnt.defn = lambda a, lo, hi: z3.If(hi <= lo, 0, cnt.f(a, lo, hi - 1) + z3.If(a[hi - 1], 1, 0))
        B = ex.builtins
        def s_lv(this): return self.stream
        def value2b(ex_, fid, this, a, n):
            st = ex.get(self.stream); v = ex.load(a[0])
            ph = st.data["phase"].t
            if ex.branch(ph == 0):
                ex.set(self.stream, OpaqueV("stream", dict(st.data, phase=I(z3.IntVal(1), 32, True), count=v)))
            else:
                ex.check(ph == 1, "write: a text follows every id", "C13")
                ex.set(self.stream, OpaqueV("stream", dict(st.data, phase=I(z3.IntVal(2), 32, True), id=v)))
            return VOID
        def text1b(ex_, fid, this, a, n):
            st = ex.get(self.stream); s0 = self.s0
            ex.check(st.data["phase"].t == 2, "write: an id precedes every text", "C13")
            v = self.as_view(a[0]); own, idx = self.loc(v)
            i = st.data["id"].t; W = st.data["written"].data
            ex.check(z3.And(i >= self.off, s0["i"]["pres"][i], z3.Not(W[i])), "write: writes only existing ids from the offset on, each once", "C13")
            ex.check(z3.And(own == THIS, idx == s0["i"]["idx"][i]), "write: writes the text of that id", "C13")
            if len(a) > 1: ex.check(ex.load(a[1]).t >= 65535, "write: texts up to 64 kB are written in full", "C13")
            ex.set(self.stream, OpaqueV("stream", dict(st.data, phase=I(z3.IntVal(1), 32, True), written=OpaqueV("set", z3.Store(W, i, True)), n=I(st.data["n"].t + 1, 64, False))))
            return VOID
        B["bitsery::Serializer::value2b"] = value2b; B["bitsery::Serializer::text1b"] = text1b
        ex.ctor_models["bitsery::Serializer"] = lambda ex_, tid, a, n: OpaqueV("ser")
        def more(ex_, ctx, out, var):
            st = lambda: ex.get(self.stream).data
            s0 = self.s0
            j = z3.Int("j?")
            A0 = s0["i"]["pres"]
            for k in (0, 1): out.append((f"phase {k}", lambda k=k: st()["phase"].t == k))
            for lv, _ in ctx.cells:
                v = ex.peek(lv)
                if not isinstance(v, I) or lv.path or v.sg and v.w < 32: continue
                cur = lambda lv=lv: ex.get(lv).t
                out.append((f"{lv.root.name} in sweep", lambda cur=cur: z3.And(cur() >= self.off, z3.Or(cur() == self.off, cur() <= s0["next"]))))
                out.append((f"{lv.root.name}: everything below is written", lambda cur=cur: qall([j], z3.Implies(z3.And(j >= self.off, j < cur(), A0[j]), st()["written"].data[j]), patterns=[A0[j]])))
                out.append((f"{lv.root.name}: nothing from it on is written", lambda cur=cur: qall([j], z3.Implies(j >= cur(), z3.Not(st()["written"].data[j])), patterns=[st()["written"].data[j]])))
                out.append((f"{lv.root.name}: written counts below", lambda cur=cur: st()["n"].t == cnt.f(A0, self.off, cur())))
                var.append((f"{lv.root.name} to the end", lambda cur=cur: s0["next"] - cur()))
                for lv2, _ in ctx.cells:
                    v2 = ex.peek(lv2)
                    if lv2 is lv or not isinstance(v2, I) or lv2.path: continue
                    c2 = lambda lv2=lv2: ex.get(lv2).t
                    out.append((f"{lv2.root.name} counts below {lv.root.name}", lambda cur=cur, c2=c2: c2() == cnt.f(A0, self.off, cur())))
                    out.append((f"{lv2.root.name} at most {lv.root.name}", lambda cur=cur, c2=c2: c2() <= cur() - self.off))
            c0 = st()["count"].t
            out.append(("announced number unchanged", lambda: st()["count"].t == c0))
            out.append(("ids below offset unwritten", lambda: qall([j], z3.Implies(j < self.off, z3.Not(st()["written"].data[j])), patterns=[st()["written"].data[j]])))
        self.more_candidates = more
        def run(ex):
            self.begin()
            me = self.fresh_pool("pool", THIS); s0 = self.s0 = self.st(me); self.assume_wf(s0)
            off = ex.ifresh("offset", 16, False); self.off = off.t
            self.stream = ex.new_lv(OpaqueV("stream", {"phase": I(z3.IntVal(0), 32, True), "count": I(z3.IntVal(0), 16, False), "id": I(z3.IntVal(0), 16, False), "n": I(z3.IntVal(0), 64, False), "written": OpaqueV("set", z3.K(IA, z3.BoolVal(False)))}), "stream")
            ex.inline(f, me, [ex.new_lv(OpaqueV("ostream"), "out"), off])
            st = ex.get(self.stream).data
            i0 = z3.Int(ex.fresh_name("anyid"))
            ex.check(st["phase"].t == 1, "write: ends after a complete entry", "C13")
            ex.check(z3.Implies(z3.And(s0["i"]["pres"][i0], i0 >= self.off), st["written"].data[i0]), "write: every id from the offset on is written", "C13")
            ex.check(st["n"].t == st["count"].t, "write: announces the number of entries it writes", "C13")
            s = self.st(me); k0 = z3.Const(ex.fresh_name("anykey"), Str)
            ex.check(z3.And(s["next"] == s0["next"], s["n"] == s0["n"], s["i"]["pres"][i0] == s0["i"]["pres"][i0], s["i"]["idx"][i0] == s0["i"]["idx"][i0], s["k"]["pres"][k0] == s0["k"]["pres"][k0]), "write: changes nothing", "C13")
        ex.explore(run, cover="write")

    def run_read(self):
        """reading entries of a pool S into a pool T whose entries are all S's: T gains exactly those entries"""
        ex = self.ex
        self.tag = "C13"
        f = self.method("read")
        ex.stats.functions.append(f"{SP}::read")
        B = ex.builtins
        eid = z3.Function("entry_id", IA, IA); etxt = z3.Function("entry_text", IA, Str)
        def value2b(ex_, fid, this, a, n):
            st = ex.get(self.stream); ph = st.data["phase"].t
            if ex.branch(ph == 0): v, nx = self.count, 1
            else:
                ex.check(z3.And(ph == 1, st.data["pos"].t < self.count), "read: reads an id where one was written", "C13")
                v, nx = eid(st.data["pos"].t), 2
            ex.set(a[0], I(v, 16, False))
            ex.set(self.stream, OpaqueV("stream", dict(st.data, phase=I(z3.IntVal(nx), 32, True))))
            return VOID
        def text1b(ex_, fid, this, a, n):
            st = ex.get(self.stream)
            ex.check(st.data["phase"].t == 2, "read: reads a text where one was written", "C13")
            if len(a) > 1: ex.check(ex.load(a[1]).t >= 65535, "read: texts up to 64 kB are read in full", "C13")
            ex.set(a[0], StrV(etxt(st.data["pos"].t)))
            ex.set(self.stream, OpaqueV("stream", {"phase": I(z3.IntVal(1), 32, True), "pos": I(st.data["pos"].t + 1, 64, False)}))
            return VOID
        B["bitsery::Deserializer::value2b"] = value2b; B["bitsery::Deserializer::text1b"] = text1b
        ex.ctor_models["bitsery::Deserializer"] = lambda ex_, tid, a, n: OpaqueV("deser")
        B["bitsery::Deserializer::adapter"] = lambda ex_, fid, this, a, n: ex.new_lv(OpaqueV("adapter"))
        for c in ("InputStreamAdapter", "BasicInputStreamAdapter"):
            B[f"bitsery::{c}::error"] = lambda ex_, fid, this, a, n: ex.iconst(0, 32, True)
        j = z3.Int("j?"); k = z3.Const("k?", Str)
        def sub(T, S):
            """T's entries are S's"""
            return [qall([j], z3.Implies(T["i"]["pres"][j], z3.And(S["i"]["pres"][j], T["txt"][T["i"]["idx"][j]] == S["txt"][S["i"]["idx"][j]])), patterns=[T["i"]["pres"][j]])]
        def inv(t0):
            T = self.st(self.me)
            pos = ex.get(self.stream).data["pos"].t
            return {
                "next": self.wf_next(T),
                "wf keys": qall([k], self.wf_key(T, k), patterns=[T["k"]["pres"][k]]),
                "wf ids": qall([j], self.wf_id(T, j), patterns=[T["i"]["pres"][j]]),
                "entries of the source": sub(T, self.S)[0],
                "old ids kept": qall([j], z3.Implies(t0["i"]["pres"][j], z3.And(T["i"]["pres"][j], T["i"]["idx"][j] == t0["i"]["idx"][j])), patterns=[t0["i"]["pres"][j]]),
                "old texts kept": qall([j], z3.Implies(z3.And(j >= 0, j < t0["n"]), T["txt"][j] == t0["txt"][j]), patterns=[T["txt"][j]]),
                "only read ids added": qall([j], z3.Implies(z3.And(T["i"]["pres"][j], z3.Not(t0["i"]["pres"][j])), z3.Exists([k2], z3.And(k2 >= 0, k2 < pos, eid(k2) == j))), patterns=[T["i"]["pres"][j]]),
                "store grows": z3.And(T["n"] >= t0["n"], T["n"] <= t0["n"] + pos),
                "read so far": qall([j], z3.Implies(z3.And(j >= 0, j < pos), T["i"]["pres"][eid(j)]), patterns=[eid(j)]),
                "phase 1": ex.get(self.stream).data["phase"].t == 1,
                "pos in range": z3.And(pos >= 0, pos <= self.count),
            }
        k2 = z3.Int("m?")
        def more(ex_, ctx, out, var):
            for nm in ("next", "wf keys", "wf ids", "entries of the source", "old ids kept", "old texts kept", "store grows", "read so far", "phase 1", "pos in range"):
                out.append((nm, lambda nm=nm: inv(self.t0)[nm]))
            for lv, _ in ctx.cells:
                v = ex.peek(lv)
                if isinstance(v, I) and not lv.path:
                    out.append((f"{lv.root.name} is the position", lambda lv=lv: ex.get(lv).t == ex.get(self.stream).data["pos"].t))
                    out.append((f"{lv.root.name} counts down", lambda lv=lv: ex.get(lv).t == self.count - ex.get(self.stream).data["pos"].t))
            var.append(("entries left", lambda: self.count - ex.get(self.stream).data["pos"].t))
        self.more_candidates = more
        def run(ex):
            self.begin()
            me = self.me = self.fresh_pool("pool", THIS); t0 = self.t0 = self.st(me); self.assume_wf(t0)
            src = self.fresh_pool("source", OTHER); S = self.S = self.st(src); self.assume_wf(S)
            for c in sub(t0, S): ex.assume(c)
            self.count = ex.ifresh("entries", 16, False).t
            # contract of write: distinct ids of the source with their texts
            ex.assume(qall([j], z3.Implies(z3.And(j >= 0, j < self.count), z3.And(S["i"]["pres"][eid(j)], etxt(j) == S["txt"][S["i"]["idx"][eid(j)]], eid(j) >= 0, eid(j) < LIMIT)), patterns=[eid(j)]))
            self.stream = ex.new_lv(OpaqueV("stream", {"phase": I(z3.IntVal(0), 32, True), "pos": I(z3.IntVal(0), 64, False)}), "stream")
            thrown = None
            try: ex.inline(f, me, [ex.new_lv(OpaqueV("istream"), "in")])
            except CppThrow as e: thrown = e
            ex.check(z3.BoolVal(thrown is None), "read: a complete stream is read without error", "C13")
            if thrown is not None: return
            T = self.st(me)
            e0 = z3.Int(ex.fresh_name("anyentry")); i0 = z3.Int(ex.fresh_name("anyid")); k0 = z3.Const(ex.fresh_name("anykey"), Str)
            ex.check(ex.get(self.stream).data["pos"].t == self.count, "read: reads every entry", "C13")
            ex.check(z3.Implies(z3.And(e0 >= 0, e0 < self.count), z3.And(T["i"]["pres"][eid(e0)], T["txt"][T["i"]["idx"][eid(e0)]] == etxt(e0))), "read: every written id resolves to its text", "C13")
            ex.check(z3.Implies(z3.And(e0 >= 0, e0 < self.count), z3.And(T["k"]["pres"][LOWER(etxt(e0))], T["k"]["id"][LOWER(etxt(e0))] == eid(e0))), "read: every written string is found under its id", "C13")
            ex.check(z3.Implies(T["i"]["pres"][i0], z3.And(S["i"]["pres"][i0], T["txt"][T["i"]["idx"][i0]] == S["txt"][S["i"]["idx"][i0]])), "read: no other meaning for any id", "C13")
            ex.check(z3.Implies(t0["i"]["pres"][i0], z3.And(T["i"]["pres"][i0], T["i"]["idx"][i0] == t0["i"]["idx"][i0])), "read: ids the pool had are kept", "C13")
            self.check_wf(T, "read", "C13")
        ex.explore(run, cover="read")


def lc(b): return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


class PoolModel:
    def __init__(self):
        self.byid = {}; self.bykey = {}; self.next = FIRST
        for i, b in ((0, b""), (1, b"$sum"), (2, b"$val"), (3, b"$idx")): self.add(i, b)
    def add(self, i, b): self.byid[i] = b; self.bykey[lc(b)] = i
    def copy(self):
        p = PoolModel.__new__(PoolModel); p.byid = dict(self.byid); p.bykey = dict(self.bykey); p.next = self.next; return p
    def emplace(self, b):
        k = lc(b)
        if k in self.bykey: return str(self.bykey[k])
        if self.next == LIMIT: return "error"
        i = self.next; self.next += 1; self.add(i, b); return str(i)


def parse_stream(h):
    b = bytes.fromhex("" if h == "-" else h)
    n = b[0] | b[1] << 8; p = 2; out = []
    for _ in range(n):
        i = b[p] | b[p + 1] << 8; p += 2
        l = b[p]
        if l < 0x80: p += 1
        elif l < 0xC0: l = (l & 0x7f) << 8 | b[p + 1]; p += 2
        else: l = (l & 0x3f) << 24 | b[p + 1] << 16 | b[p + 2] << 8 | b[p + 3]; p += 4
        out.append((i, b[p:p + l])); p += l
    if p != len(b): raise ValueError
    return out


class Suite(BaseSuite):
    PROPS = ("C12", "C13")
    TU = "src/model/string-pool.cpp"
    HARNESS = ("sp", "harness/sp.cpp", ["src/exception-handler.cpp", "src/model/string-pool.cpp"])
    BATCH = 300
    TRUST = TRUST + ["contracts of std::unordered_map, std::deque (references stay valid), std::equal, bitsery (values are read back as written) in vc/sp.py"]
    ASSUME = ["one thread (locks and atomics are not modelled)", "C locale: letter case is ASCII", "addStaticKey is used with an unused id below 128 and a new string, before use (documented)",
              "a serialized pool is read into a pool whose entries are the written pool's (new, or an earlier state)", "texts of at most 64 kB"]

    def tasks(self, prop):
        a = self.a
        if prop == "C12": return [("emplace", lambda st: Pool(a, st).run_emplace()), ("get, resolve, highest", lambda st: Pool(a, st).run_lookup()),
                                  ("addStaticKey, constructor", lambda st: Pool(a, st).run_static()), ("letter case", lambda st: Pool(a, st).run_casefold())]
        return [("copy", lambda st: Pool(a, st).run_copy()), ("write", lambda st: Pool(a, st).run_write()), ("read", lambda st: Pool(a, st).run_read())]

    W = [b"", b"a", b"A", b"b", b"ab", b"AB", b"aB", b"name", b"Name", b"NAME", b"$sum", b"$SUM", b"x" * 15, b"x" * 16, b"X" * 16, b"y" * 40, b"\xc3\xa4", b"\xc3\x84", b"a\x00b", b"A\x00B", b"a\x00", b"[", b"{", b"@", b"`", b"z", b"Z", b"_"]

    def gen(self, prop, rng, hints):
        hx = lambda b: b.hex() or "-"
        W = self.W
        for x in W:
            for y in W: yield f"n 0;e 0 {hx(x)};g 0 {hx(y)};e 0 {hx(y)};r 0 128;r 0 129;r 0 130;h 0;z 0"
        for n in (65404, 65405, 65406, 65407, 65408, 65409, 70000):
            yield f"n 0;f 0 {n} 61;h 0;z 0;e 0 6e65;g 0 6e65;e 0 {b'a5'.hex()};r 0 65534;r 0 65535;e 0 6e65;h 0;z 0;c 1 0;h 1;r 1 65534;e 1 6e66;w 0 65530;w 0 65535;n 2;R 2 0 0;h 2;r 2 65534;= 2 0"
        for off in (0, 1, 3, 4, 100, 127, 128, 129, 130, 131, 65535):
            yield f"n 0;k 0 5 {hx(b'Static')};e 0 6162;e 0 {'78' * 40};e 0 {'7a' * 200};w 0 {off};n 1;R 1 0 {off};r 1 5;r 1 128;r 1 129;r 1 130;e 1 6e6577;= 0 1;h 1;z 1"
        while True:
            ops = ["n 0"]
            live = {0}
            nsrc = {0: 0}
            for _ in range(rng.randrange(3, 26)):
                i = rng.choice(sorted(live))
                w = lambda: hx(rng.choice(W) if rng.random() < .6 else bytes(rng.choice(b"aAbB\x00zZ19") for _ in range(rng.choice((0, 1, 2, 3, 20, 130)))))
                c = rng.random()
                if c < .35: ops.append(f"e {i} {w()}")
                elif c < .45: ops.append(f"g {i} {w()}")
                elif c < .6: ops.append(f"r {i} {rng.choice((0, 1, 3, 4, 5, 127, 128, 129, 130, 131, 135, 65535))}")
                elif c < .64: ops.append(f"k {i} {rng.randrange(4, 128)} {hx(bytes(rng.choice(b'stuvw') for _ in range(9)))}")
                elif c < .74:
                    j = rng.randrange(4)
                    if j != i: ops.append(f"c {j} {i}"); live.add(j)
                elif c < .84:
                    j = rng.randrange(4)
                    if j != i: ops += [f"n {j}", f"R {j} {i} {rng.choice((0, 0, 0, 4, 128, 129, 131))}"]; live.add(j)
                elif c < .88 and len(live) > 1: ops.append(f"d {i}"); live.discard(i)
                elif c < .92: ops.append(f"w {i} {rng.choice((0, 1, 4, 128, 130, 65535))}")
                elif c < .95: ops += [f"h {i}", f"z {i}"]
                else: ops.append(f"= {i} {rng.choice(sorted(live))}")
            for i in sorted(live): ops += [f"r {i} {q}" for q in (0, 3, 128, 129, 131)]
            yield ";".join(ops)

    def judge(self, prop, line, out):
        if isinstance(out, tuple): return f"crash: {out[1]}"
        p = {}
        got = out.split(";")
        unh = lambda h: b"" if h == "-" else bytes.fromhex(h)
        own12 = prop == "C12"
        copied = set()
        for op, g in zip(line.split(";"), got):
            w = op.split(" "); k, i = w[0], int(w[1])
            # failures of pools that are copies or read back belong to C13, all others to C12
            exp = ""
            if k == "n": p[i] = PoolModel(); copied.discard(i)
            elif k == "d": p.pop(i, None)
            elif k == "c":
                j = int(w[2])
                if j in p and j != i: p[i] = p[j].copy(); copied.add(i)
            elif i not in p: exp = "none"
            elif k == "e": exp = p[i].emplace(unh(w[2]))
            elif k == "g": exp = str(p[i].bykey.get(lc(unh(w[2])), 0))
            elif k == "r": x = p[i].byid.get(int(w[2])); exp = "none" if x is None else (x.hex() or "-")
            elif k == "k":
                b = unh(w[3]); n = int(w[2])
                if n in p[i].byid or lc(b) in p[i].bykey or n >= FIRST: return None      # outside the documented use
                p[i].add(n, b)
            elif k == "f":
                n = int(w[2]); pre = unh(w[3]); c = 0; full = False
                for c in range(n):
                    if p[i].emplace(pre + str(c).encode()) == "error": full = True; break
                else: c = n
                exp = ("full" if full else "ok") + str(c)
            elif k == "w":
                copied.add(i) if False else None
                exp_set = sorted((a, b) for a, b in p[i].byid.items() if a >= int(w[2]))
                try: ok = sorted(parse_stream(g)) == exp_set
                except Exception: ok = False
                if prop == "C13" and not ok: return f"after '{op}': the stream does not hold exactly the strings with ids from the offset on: {g[:200]}"
                continue
            elif k == "R":
                j = int(w[2])
                if j in p:
                    t, s = p[i], p[j]
                    if any(s.byid.get(a) != b for a, b in t.byid.items()): return None
                    for a, b in s.byid.items():
                        if a >= int(w[3]) and a not in t.byid: t.add(a, b); t.next = max(t.next, a + 1)
                    copied.add(i)
            elif k == "=": exp = "none" if int(w[2]) not in p else str(int(p[i].bykey == p[int(w[2])].bykey))
            elif k == "h": exp = str(p[i].next - 1)
            elif k == "z": exp = str(len(p[i].bykey))
            if g != exp:
                mine = (i in copied or "!" in g and copied) if not own12 else i not in copied
                return f"after '{op}': {g[:200]} instead of {exp[:200] or 'nothing'}" if mine else None
        return None
