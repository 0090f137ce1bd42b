"""C23: overlays (src/overlay.cpp): every member function against a map from names to values over the wrapped value."""
import json
import z3
from .core import *
from . import builtins as BI
from . import ev
from .ev import Val, Node, NILN, AVal, NP, NodeV, F, INT, BOOL, vnode, tag, ntag, nsize, nget, nat, nkey
from .suite import BaseSuite, TRUST

ON, ST = "simfil::OverlayNode", "simfil::OverlayNodeStorage"
scal = F("scalar_of", Val, Val)            # Value::getScalar
vnn = F("node_showing", Val, Node)         # ValueNode(scalar)
nval = F("node_value", Node, Val); niter = F("node_iterate", Node, INT, BOOL)


class OMap(V):
    """std::map<StringId, Value>"""
    def __init__(self, has, val): self.has, self.val = has, val
    def sget(self, ex, k): return AVal(self.val[k[1]])
    def swith(self, ex, k, rest, new):
        if rest or not isinstance(new, AVal): raise Unsupported("write into an overlay's field")
        return OMap(self.has, z3.Store(self.val, k[1], new.t))


class Scal(V):
    def __init__(self, t): self.t = t


class Ov(ev.Eval):
    def __init__(self, ast, stats):
        m = {}
        rec = ast.rec_by_name.get(ON, [None])[0]; srec = ast.rec_by_name.get(ST, [None])[0]
        if rec is None or srec is None: raise Unsupported("OverlayNode not found")
        self.rec, self.srec, self.m = rec, srec, m
        for f in ast.decls[rec]["methods"]:
            d = ast.decls[f]
            if f in ast.funcs and not d.get("defaulted"): m.setdefault(d["n"], []).append(f)
        if "get" not in m: raise Unsupported("OverlayNode::get not found")
        super().__init__(ast, stats, m["get"][0], "spec", None)
        ex = self.ex
        ex.cfg["termination"] = True; ex.cfg.pop("recurse", None)
        C = ex.contracts
        for k in (f"{ON}::set",): C.pop(k, None)
        fs = {f["n"]: ast.T(f["t"]) for f in ast.decls[srec]["fields"]}
        self.vf = next((n for n, t in fs.items() if t.get("n") == "simfil::Value"), None)
        self.mf = next((n for n, t in fs.items() if t.get("n") in ("std::map", "std::unordered_map")), None)
        if self.vf is None or self.mf is None: raise Unsupported("fields of OverlayNodeStorage")
        C["simfil::Value::getScalar"] = lambda ex, f, t, A: Scal(scal(ex.get(t).t))
        def vn(ex, f, t, A):
            v = ex.load(A[0])
            if not isinstance(v, Scal) or len(A) != 1: raise Unsupported("ValueNode")
            n = vnn(v.t); ex.assume(n != NILN); ex.set(t, NodeV(n)); return VOID
        C["simfil::ValueNode::ValueNode"] = vn
        B = ex.builtins
        def key(m, a):
            k = ex.load(a)
            if not isinstance(k, I): raise Unsupported("overlay key")
            return k.t
        def omap(this):
            m = ex.get(this)
            if not isinstance(m, OMap): raise Unsupported("map")
            return m
        for M in ("std::map::", "std::unordered_map::"):
            B[M + "find"] = B[M + "lower_bound"] = lambda ex_, fid, this, a, n: IterV(this, key(omap(this), a[0]))
            del B[M + "lower_bound"]
            B[M + "end"] = B[M + "cend"] = lambda ex_, fid, this, a, n: IterV(this, "end")
            def contains(ex_, fid, this, a, n):
                c = omap(this).has[key(0, a[0])]
                return c if ex.a.fname(fid).endswith("contains") else I(z3.If(c, 1, 0), 64, False)
            B[M + "contains"] = B[M + "count"] = contains
            def put(this, k, v, over):
                m = omap(this); new = ex.branch(z3.Not(m.has[k]))
                if isinstance(v, LV): v = ex.load(v)
                if not isinstance(v, AVal): raise Unsupported("overlay value")
                if new or over: ex.set(this, OMap(z3.Store(m.has, k, True), z3.Store(m.val, k, v.t)))
                return PairV(IterV(this, k), z3.BoolVal(new))
            B[M + "insert_or_assign"] = lambda ex_, fid, this, a, n: put(this, key(0, a[0]), a[1], True)
            def emplace(ex_, fid, this, a, n):
                if len(a) != 2: raise Unsupported("emplace")
                return put(this, key(0, a[0]), a[1], False)
            B[M + "emplace"] = B[M + "try_emplace"] = emplace
            def insert(ex_, fid, this, a, n):
                p = ex.load(a[0])
                if len(a) != 1 or not isinstance(p, PairV): raise Unsupported("insert")
                return put(this, key(0, p.first), p.second, False)
            B[M + "insert"] = insert
            def at(ex_, fid, this, a, n):
                k = key(0, a[0])
                if ex.branch(omap(this).has[k]): return this.sub(("m", k))
                raise CppThrow("std::out_of_range", OpaqueV("exception"))
            B[M + "at"] = at
            def erase(ex_, fid, this, a, n):
                m = omap(this); v = ex.load(a[0]); k = v.idx if isinstance(v, IterV) else key(0, a[0])
                ex.set(this, OMap(z3.Store(m.has, k, False), m.val)); return ex.ifresh("erased", 64, False)
            B[M + "erase"] = erase
            B[M + "empty"] = lambda ex_, fid, this, a, n: self.isempty(omap(this))
            B[M + "size"] = lambda ex_, fid, this, a, n: self.msize(omap(this))
        def iter_eq(ex_, x, y):
            for o, e in ((x, y), (y, x)):
                if isinstance(e.idx, str): return z3.Not(ex.get(o.cont).has[o.idx]) if not isinstance(o.idx, str) else z3.BoolVal(True)
            return x.idx == y.idx
        ex.cfg["iter_eq"] = iter_eq
        def iter_deref(ex_, it):
            m = omap(it.cont)
            if isinstance(it.idx, str) or not ex.entails(m.has[it.idx]): ex.check(z3.BoolVal(not isinstance(it.idx, str)) if isinstance(it.idx, str) else m.has[it.idx], "no access past the end of the overlay's fields", "C23")
            return PairV(I(it.idx, 16, False), it.cont.sub(("m", it.idx)))
        ex.cfg["iter_deref"] = iter_deref
        def map_ctor(ex_, tid, a, n):
            if a: raise Unsupported("map constructor")
            return OMap(z3.K(INT, z3.BoolVal(False)), z3.K(INT, ev.UNDEF))
        ex.ctor_models["std::map"] = ex.ctor_models["std::unordered_map"] = map_ctor
        def make_shared(ex_, fid, this, a, n):
            t = ex.a.decls[fid]["targs"][0]["t"]
            if ex.a.recname(t) != ST: raise Unsupported("make_shared")
            lv = ex.new_lv(StructV(self.srec, {}), "storage")
            c = [f for f in self.ctors(self.srec) if len(ex.a.decls[f]["params"]) == len(a)]
            if len(c) != 1: raise Unsupported("constructor of OverlayNodeStorage")
            ex.inline(c[0], lv, a)
            self.made.append(lv)
            return P(lv)
        B["std::make_shared"] = make_shared
        # bases: what the classes above keep (model.cpp, nodes.cpp: C16)
        def node_ctor(ex_, f, t, A):
            v0 = ex.load(A[0])
            if len(A) == 1 and isinstance(v0, StructV) and "model_" in v0.fields:
                ex.set(t, StructV(self.rec, dict(v0.fields))); return VOID
            if len(A) == 1 and isinstance(v0, OpaqueV) and v0.tag == "anynode":
                ex.set(t, StructV(self.rec, {"model_": P(self.storage), "addr_": OpaqueV("addr")})); self.fromnode = True; return VOID
            if isinstance(v0, P):
                ex.set(t, StructV(self.rec, {"model_": v0, "addr_": ex.load(A[1]) if len(A) > 1 else None})); return VOID
            raise Unsupported("base of OverlayNode")
        for b in ("simfil::MandatoryDerivedModelNodeBase::MandatoryDerivedModelNodeBase", "simfil::ModelNodeBase::ModelNodeBase"): C[b] = node_ctor
        self.fids = m

    def ctors(self, rec):
        a = self.a
        return [f for f in a.decls[rec]["methods"] if a.decls[f]["dk"] == "CXXConstructor" and a.decls[f].get("ctor") not in ("copy", "move") and f in a.funcs]

    def isempty(self, m):
        b = z3.Bool(self.ex.fresh_name("empty"))
        k = z3.Int("any_key"); self.ex.assume(b == z3.ForAll([k], z3.Not(m.has[k])))
        return b
    def msize(self, m):
        n = self.ex.ifresh("fields", 64, False); k = z3.Int("any_key")
        self.ex.assume((n.t == 0) == z3.ForAll([k], z3.Not(m.has[k]))); return n

    def node_call(self, t, nm, args):
        ex = self.ex
        ex.check(t == vnode(self.base), "only the wrapped value's node is asked", "C23")
        if nm == "at": return NP(nat(t, ex.load(args[0]).t))
        if nm == "value": return Scal(nval(t))
        if nm == "iterate":
            cb = args[0]
            ex.check(z3.BoolVal(isinstance(cb, LV) and cb.root is self.cb.root), "the children are handed to the caller's callback", "C23")
            self.iterated += 1
            return z3.Bool("iterate_result")
        return super().node_call(t, nm, args)

    def setup(self, base=None):
        ex = self.ex
        self.axioms(); self.active = []; self.sem = None; self.made = []; self.iterated = 0; self.fromnode = False
        self.base = z3.Const("base", Val); self.known_val(self.base)
        self.has = z3.Const("overlaid", z3.ArraySort(INT, BOOL)); self.vals = z3.Const("overlay_values", z3.ArraySort(INT, Val))
        fs = {}
        for f in self.a.decls[self.srec]["fields"]:
            fs[f["n"]] = AVal(self.base) if f["n"] == self.vf else OMap(self.has, self.vals) if f["n"] == self.mf else ex.fresh(f["t"], f["n"])
        self.storage = ex.new_lv(StructV(self.srec, fs), "storage")
        return ex.new_lv(StructV(self.rec, {"model_": P(self.storage), "addr_": OpaqueV("addr")}), "overlay")

    def state(self, has, val, label, base=None, st=None):
        ex = self.ex
        v = ex.get(st or self.storage)
        b, m = v.fields.get(self.vf), v.fields.get(self.mf)
        if not isinstance(b, AVal) or not isinstance(m, OMap): raise Unsupported("state of the overlay")
        ex.check(b.t == (base if base is not None else self.base), f"{label}: the wrapped value is kept", "C23")
        k = z3.Int("k")
        ex.check(z3.ForAll([k], m.has[k] == has[k]), f"{label}: exactly the fields that were set are overlaid", "C23")
        ex.check(z3.ForAll([k], z3.Implies(has[k], m.val[k] == val[k])), f"{label}: every overlaid field has the value set last", "C23")

    def run(self, nm):
        ex, a = self.ex, self.a
        fs = self.m.get(nm)
        if not fs: raise Unsupported(f"OverlayNode::{nm} not found")
        for f in fs:
            ex.stats.functions.append(f"{ON}::{nm}")
            def run(ex, f=f):
                this = self.setup()
                d = a.decls[f]
                hasn = vnode(self.base) != NILN; n = vnode(self.base)
                L = f"OverlayNode::{nm}"
                def key(name, w=16, sg=False): return ex.new_lv(ex.ifresh(name, w, sg), name)
                if nm == "set":
                    k = key("key"); c = z3.Const("child", Val); self.known_val(c)
                    ex.inline(f, this, [k, ex.new_lv(AVal(c), "child")])
                    kt = ex.get(k).t
                    self.state(z3.Store(self.has, kt, True), z3.Store(self.vals, kt, c), L)
                    return
                if nm == "get":
                    k = key("key"); kt = ex.get(k).t
                    r = ex.load(ex.inline(f, this, [k]))
                    c = self.vals[kt]
                    want = z3.If(self.has[kt], z3.If(vnode(c) != NILN, vnode(c), vnn(scal(c))), z3.If(hasn, nget(n, kt), NILN))
                    ex.check(self.node(r) == want, f"{L}: an overlaid field's value, the wrapped node's for every other name", "C23")
                elif nm == "type":
                    r = ex.load(ex.inline(f, this, []))
                    ex.check(r.t == self.enum["Object"], f"{L}: an object", "C23")
                elif nm == "value":
                    r = ex.load(ex.inline(f, this, []))
                    if not isinstance(r, Scal): raise Unsupported("value()")
                    ex.check(r.t == scal(self.base), f"{L}: the wrapped value's", "C23")
                elif nm == "size":
                    r = ex.load(ex.inline(f, this, []))
                    ex.check(r.t == z3.If(hasn, nsize(n), 0), f"{L}: the wrapped node's", "C23")
                elif nm == "at":
                    i = ex.ifresh("i", 64, True)
                    r = ex.load(ex.inline(f, this, [i]))
                    ex.check(self.node(r) == z3.If(hasn, nat(n, i.t), NILN), f"{L}: the wrapped node's children", "C23")
                elif nm == "keyAt":
                    i = ex.ifresh("i", 64, True)
                    r = ex.load(ex.inline(f, this, [i]))
                    ex.check(r.t == z3.If(hasn, nkey(n, i.t), 0), f"{L}: the wrapped node's names", "C23")
                elif nm == "iterate":
                    self.cb = ex.new_lv(OpaqueV("callback"), "cb")
                    r = ex.load(ex.inline(f, this, [self.cb]))
                    ex.check(z3.If(hasn, z3.BoolVal(self.iterated == 1), z3.BoolVal(self.iterated == 0)), f"{L}: the wrapped node's children, once", "C23")
                    ex.check(ex.as_bool(r) == z3.If(hasn, z3.Bool("iterate_result"), True), f"{L}: whether they were all taken", "C23")
                self.state(self.has, self.vals, L)
            ex.explore(run, cover=f"OverlayNode::{nm}")

    def node(self, r):
        if isinstance(r, NP): return r.t
        if isinstance(r, NodeV): return r.t
        raise Unsupported("node result")

    def run_make(self):
        ex, a = self.ex, self.a
        for f in self.ctors(self.rec):
            d = a.decls[f]
            ex.stats.functions.append(f"{ON}::{d['n']}")
            pt = a.T(d["params"][0]["t"]); pt = a.T(pt["to"]) if pt["k"] == "ref" else pt
            fromval = pt.get("n") == "simfil::Value"
            def run(ex, f=f, fromval=fromval):
                self.setup()
                this = ex.new_lv(None, "new"); ex.set(this, StructV(self.rec, {}))
                if fromval:
                    v = z3.Const("wrapped", Val); self.known_val(v)
                    ex.inline(f, this, [ex.new_lv(AVal(v), "v")])
                    m = ex.get(this).fields.get("model_")
                    ok = isinstance(m, P) and m.lv is not None and any(m.lv.root is x.root for x in self.made)
                    ex.check(z3.BoolVal(ok), "OverlayNode(value): has storage of its own", "C23")
                    if ok: self.state(z3.K(INT, z3.BoolVal(False)), z3.K(INT, ev.UNDEF), "OverlayNode(value)", base=v, st=m.lv)
                    ad = ex.get(this).fields.get("addr_")
                    if isinstance(ad, StructV):
                        x = next(iter(ad.fields.values()))
                        ex.check(x.t != 0, "OverlayNode(value): is not the null node", "C23")
                else:
                    ex.inline(f, this, [ex.new_lv(OpaqueV("anynode"), "n")])
                    m = ex.get(this).fields.get("model_")
                    ex.check(z3.BoolVal(isinstance(m, P) and m.lv is not None and m.lv.root is self.storage.root), "OverlayNode(node): the same storage", "C23")
            ex.explore(run, cover="OverlayNode")

    def run_resolve(self):
        ex, a = self.ex, self.a
        fs = [f for f in a.decls[self.srec]["methods"] if a.decls[f]["n"] == "resolve" and f in a.funcs]
        if not fs: raise Unsupported("OverlayNodeStorage::resolve not found")
        ex.stats.functions.append(f"{ST}::resolve")
        def run(ex):
            self.setup()
            got = []
            old = self.virtual
            def virt(ex_, fid, this, args, n):
                v = ex.peek(this)
                if isinstance(v, OpaqueV) and v.tag == "resolvefn": got.append(ex.load(args[0])); return VOID
                return NotImplemented
            ex.cfg["virtual"] = virt
            ex.inline(fs[0], self.storage, [ex.new_lv(OpaqueV("anynode"), "n"), ex.new_lv(OpaqueV("resolvefn"), "cb")])
            ex.check(z3.BoolVal(len(got) == 1), "OverlayNodeStorage::resolve: calls back once", "C23")
            ok = got and isinstance(got[0], StructV) and got[0].rec == self.rec and isinstance(got[0].fields.get("model_"), P) and got[0].fields["model_"].lv.root is self.storage.root
            ex.check(z3.BoolVal(bool(ok)), "OverlayNodeStorage::resolve: with the overlay over this storage", "C23")
        ex.explore(run, cover="resolve")


METHODS = ["set", "get", "type", "value", "size", "at", "keyAt", "iterate"]
NAMES = ["a", "b", "A", "name", "x", "$sum", "$val", "$idx", ""]
SCALARS = ["i0", "i5", "i-9000000000000000000", "b1", "b0", "n", "u", "s", "sabc", "v", "vxyz", "d1.5"]
DOCS = ['{}', '[]', '{"a":1}', '{"a":1,"b":{"x":2},"name":"n"}', '[1,2,3]', '5', '"str"', 'null', 'true', '[[1],[2,{"a":3}]]', '{"b":null,"x":[]}', '1.5', '{"a":{"a":{"a":1}}}']


class Suite(BaseSuite):
    PROPS = ("C23",)
    TU = "drivers/eval.cpp"
    HARNESS = ("overlay", "harness/overlay.cpp", ["src/exception-handler.cpp", "src/overlay.cpp", "src/types.cpp", "src/value.cpp", "src/model/model.cpp", "src/model/nodes.cpp", "src/model/string-pool.cpp", "src/model/json.cpp"])
    ASSUME = ["the wrapped node is any model node by its contract (C16); an overlay's storage is only changed through OverlayNode::set", "ValueNode(scalar) shows that scalar (C15/C16); Value::getScalar as used everywhere", "assumed contracts of std::map, std::shared_ptr, std::make_shared"]
    BOUNDED = "otherwise: random overlay histories on the real code, compared with a dictionary"

    def tasks(self, prop):
        a = self.a
        return [(f"OverlayNode::{m}", lambda st, m=m: Ov(a, st).run(m)) for m in METHODS] + [("OverlayNode constructors", lambda st: Ov(a, st).run_make()), ("OverlayNodeStorage::resolve", lambda st: Ov(a, st).run_resolve())]

    # ---- base ; s<name>=<value> ; g (dump).   value: scalar, or j<json>
    def value(self, rng): return rng.choice(SCALARS) if rng.random() < .5 else "j" + rng.choice(DOCS)

    def gen(self, prop, rng, hints):
        for b in SCALARS + ["j" + d for d in DOCS]:
            yield b
            for v in SCALARS + ["j" + d for d in DOCS]: yield f"{b}\ta={v}"
            yield f"{b}\ta=i5\ta=i6"; yield f"{b}\ta=i5\tb=i6\ta=sabc\tx=n"; yield f"{b}\ta=j[1]\ta=u"
            yield f"{b}\t^\ta=i1"; yield f"{b}\ta=i1\t^\tb=i2"; yield f"{b}\ta=i1\t^\ta=i2"
        while True:
            ops = [self.value(rng)]
            for _ in range(rng.randrange(0, 7)):
                ops.append("^" if rng.random() < .12 else f"{rng.choice(NAMES)}={self.value(rng)}")
            yield "\t".join(ops)

    SEP = (",", ":")
    def show(self, v):
        """what a node over a value shows: (type, scalar, node json or None)"""
        k = v[0]
        if k == "j":
            x = json.loads(v[1:])
            if isinstance(x, dict): return ("O", "-")
            if isinstance(x, list): return ("A", "-")
            if x is None: return ("N", "-")
            if isinstance(x, bool): return ("B", f"b{int(x)}")
            if isinstance(x, int): return ("I", f"i{x}")
            if isinstance(x, float): return ("F", f"d{x}")
            return ("S", f"s{x}")
        return {"i": ("I", v), "b": ("B", v), "n": ("N", "-"), "u": ("N", "-"), "s": ("S", v), "v": ("S", "s" + v[1:]), "d": ("F", v)}[k]

    def dump(self, v):
        """the children of the node of a value: [(key, shown)]"""
        if v[0] != "j": return []
        x = json.loads(v[1:])
        js = lambda y: json.dumps(y, separators=self.SEP)
        if isinstance(x, dict): return [(k, "j" + js(x[k])) for k in sorted(x)]
        if isinstance(x, list): return [("", "j" + js(y)) for y in x]
        return []

    def expect(self, line):
        w = line.split("\t")
        levels = [(w[0], {})]
        for op in w[1:]:
            if op == "^": levels.append((None, {}))
            else:
                n, v = op.split("=", 1)
                levels[-1][1][n.lower()] = v
        base = levels[0][0]
        kids = self.dump(base)
        fields = {k.lower(): v for k, v in kids if k} if base[0] == "j" and isinstance(json.loads(base[1:]), dict) else {}
        for _, o in levels: fields.update(o)
        s = self.show(base)
        out = ["O", s[1], str(len(kids))]
        out.append("at:" + " ".join(f"{k}={self.text(v)}" for k, v in kids))
        out.append("it:" + " ".join(self.text(v) for k, v in kids) + "/1")
        out.append("stop:" + (" ".join(self.text(v) for k, v in kids[:1])) + ("/0" if kids else "/1"))
        out.append("get:" + " ".join(f"{n}={self.text(fields[n.lower()]) if n.lower() in fields else '0'}" for n in NAMES))
        return "|".join(out)

    def text(self, v):
        t, s = self.show(v)
        return t + s + ("" if t not in "OA" else str(len(self.dump(v))))

    def judge(self, prop, line, out):
        if isinstance(out, tuple): return f"crash: {out[1]}"
        e = self.expect(line)
        return None if out == e else f"{out!r} instead of {e!r}"

    def shrink(self, prop, t, d):
        from . import harness as H
        ops = t.split("\t"); i = 1
        while i < len(ops):
            c = ops[:i] + ops[i + 1:]
            r = H.run_batch(self.exe, ["\t".join(c)])[0]
            p = self.judge(prop, "\t".join(c), r) if r is not None else None
            if p: ops, d = c, p
            else: i += 1
        return "\t".join(ops), d
