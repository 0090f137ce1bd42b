"""C18: ownership of user-defined values (transient.h, typed-meta-type.h); C20: raise<T> (exception-handler)."""
import z3
from .core import *
from . import builtins as BI
from .builtins import to_str
from .suite import BaseSuite, TRUST

TO = "simfil::TransientObject"


class Trans:
    def __init__(self, ast, stats=None):
        self.a = ast
        ex = self.ex = Ex(ast, stats, mode="int", rounds=1)
        ex.cfg["dtors"] = True
        ex.cfg["explicit_copies"] = True
        ex.cfg["virtual"] = self.virtual
        ex.cfg["new"] = self.new
        ex.cfg["delete"] = self.delete
        rec = ast.rec_by_name.get(TO, [None])[0]
        if rec is None: raise Unsupported("TransientObject not found")
        self.rec = rec
        self.fields = {f["n"]: f["t"] for f in ast.decls[rec]["fields"]}
        if set(self.fields) != {"meta", "data"}: raise Unsupported("shape of TransientObject")
        self.mrec = ast.rec_by_name["simfil::MetaType"][0]
        self.m = {}
        for f in ast.decls[rec]["methods"]:
            d = ast.decls[f]
            if d["dk"] == "CXXConstructor": k = {"copy": "copy ctor", "move": "move ctor"}.get(d.get("ctor"), "ctor")
            elif d["dk"] == "CXXDestructor": k = "dtor"
            elif d["n"] == "operator=":
                k = "move assignment" if "&&" in ast.types[d["params"][0]["t"]].get("s", "") or ast.types[d["params"][0]["t"]].get("rv") else "copy assignment"
            else: continue
            if f in ast.funcs and not d.get("defaulted"): self.m[k] = f
        self.tags = "C18"

    # -- ghost heap of payloads
    def payload(self, meta, of=None):
        lv = self.ex.new_lv(OpaqueV("payload"), "payload")
        self.heap[lv.root] = [True, meta, of]
        return lv

    def virtual(self, ex, fid, this, args, n):
        nm = ex.a.fname(fid)
        if not nm.startswith("simfil::MetaType::") and "::~" not in nm: return NotImplemented
        meth = nm.split("::")[-1]
        ex.stats.contracts.add(nm)
        def obj():
            p = ex.load(args[0])
            ok = isinstance(p, P) and p.lv is not None and p.lv.root in self.heap
            live = ok and self.heap[p.lv.root][0]
            same = ok and self.heap[p.lv.root][1] is this.root
            ex.check(z3.BoolVal(bool(ok)), f"MetaType::{meth} gets an object (not null)", "C18")
            if ok: ex.check(z3.BoolVal(live), f"MetaType::{meth} gets an object that still exists", "C18")
            if ok: ex.check(z3.BoolVal(same), f"MetaType::{meth} gets an object of its own type", "C18")
            if not ok: raise PathEnd()
            return p.lv
        if meth == "init":
            if ex.choose(2): raise CppThrow("std::runtime_error", OpaqueV("exception"))
            return P(self.payload(this.root))
        if meth == "copy":
            src = obj()
            if ex.choose(2): raise CppThrow("std::runtime_error", OpaqueV("exception"))
            return P(self.payload(this.root, of=src.root))
        if meth == "deinit":
            self.heap[obj().root][0] = False
            return VOID
        return NotImplemented

    def new(self, ex, n):
        if n.get("array") or n.get("place"): raise Unsupported("array or placement new")
        v = ex.rv(n["init"]) if n.get("init") else ex.default_value(n["at"])
        lv = ex.new_lv(v, "heap", n["at"])
        self.heap[lv.root] = [True, None, None]
        return P(lv)

    def delete(self, ex, n):
        p = ex.rv(n["c"][0])
        if not isinstance(p, P): raise Unsupported("delete")
        if p.lv is None: return VOID
        ex.check(z3.BoolVal(p.lv.root in self.heap and self.heap[p.lv.root][0] and not p.lv.path), "delete of an existing object", "C18")
        if p.lv.root in self.heap: self.heap[p.lv.root][0] = False
        return VOID

    def obj(self, state, name):
        ex = self.ex
        if state == "null": meta = data = P(None)
        else:
            m = self.metas[state]
            meta, data = P(m), P(self.payload(m.root))
        return ex.new_lv(StructV(self.rec, {"meta": meta, "data": data}), name, None)

    def wf(self, owners, label):
        """class invariant of every owner, exclusive ownership, no leaks"""
        ex = self.ex
        seen = {}
        for nm, v in owners:
            m, d = v.fields.get("meta"), v.fields.get("data")
            if not isinstance(m, P) or not isinstance(d, P): raise Unsupported("TransientObject fields")
            mn, dn = m.lv is None, d.lv is None
            ex.check(z3.BoolVal(mn == dn), f"{label}: {nm} has both a type and an object or neither", "C18")
            if not dn:
                h = self.heap.get(d.lv.root)
                ex.check(z3.BoolVal(h is not None and h[0]), f"{label}: {nm} refers to an object that exists", "C18")
                if h: ex.check(z3.BoolVal(mn or h[1] is m.lv.root), f"{label}: {nm}'s type is the one its object was made by", "C18")
                ex.check(z3.BoolVal(d.lv.root not in seen), f"{label}: {nm} shares its object with nobody", "C18", info=str(seen.get(d.lv.root)))
                seen[d.lv.root] = nm
        ex.check(z3.BoolVal(all(not h[0] or r in seen for r, h in self.heap.items())), f"{label}: every existing object has an owner (nothing leaks)", "C18")

    def run_special(self, kind):
        if kind not in self.m: raise Unsupported(f"no user-provided {kind}")
        ex, fid = self.ex, self.m[kind]
        ex.stats.functions.append(f"{TO} {kind}")
        binary = "assign" in kind
        sts = ["null", "A", "B"]
        cases = [(None, m) for m in ("A",)] if kind == "ctor" else [(s, None) for s in sts] if kind == "dtor" else [(None, s) for s in sts] if "ctor" in kind else \
            [(s, o) for s in sts for o in sts + ["self"]]
        for st, ot in cases:
            def run(ex, st=st, ot=ot):
                ex.locals = []
                self.heap = {}
                self.metas = {k: ex.new_lv(StructV(self.mrec, {"ident": StrV(z3.Const("ident" + k, Str))}), "meta" + k) for k in "AB"}
                label = f"{kind} ({st or 'new'}{', ' + ot if ot else ''})"
                this = self.obj(st, "this") if st is not None else ex.new_lv(None, "this")
                if st is None:
                    ex.set(this, StructV(self.rec, {}))
                other = this if ot == "self" else self.obj(ot, "other") if ot and kind != "ctor" else None
                before = ex.get(this) if st is not None else None
                obefore = ex.get(other) if other is not None else None
                args = [P(self.metas["A"])] if kind == "ctor" else [other] if other is not None else []
                thrown = None; ret = None
                try:
                    ret = ex.inline(fid, this, args)
                except CppThrow as e: thrown = e
                owners = []
                if kind != "dtor" and not (st is None and thrown): owners.append(("the object", ex.get(this)))
                if other is not None and other is not this: owners.append(("the other object", ex.get(other)))
                if isinstance(ret, StructV): owners.append(("the returned object", ret))
                self.wf(owners, label + (" after an exception" if thrown else ""))
                if thrown: return
                now = ex.get(this)
                root = lambda v: v.fields["data"].lv.root if v.fields["data"].lv is not None else None
                if kind == "ctor":
                    ex.check(z3.BoolVal(root(now) is not None), f"{label}: owns a new object", "C18")
                elif "copy" in kind:
                    ex.check(z3.BoolVal((root(obefore) is None) == (root(now) is None)), f"{label}: the copy is empty exactly if its source is", "C18")
                    if ot == "self":
                        ex.check(z3.BoolVal(root(now) is root(before) or (root(now) is not None and self.heap[root(now)][2] is root(before))), f"{label}: keeps its value", "C18")
                    else:
                        if root(now) is not None: ex.check(z3.BoolVal(self.heap[root(now)][2] is root(obefore)), f"{label}: the copy is made from its source", "C18")
                        ex.check(z3.BoolVal(root(ex.get(other)) is root(obefore)), f"{label}: the source keeps its object", "C18")
                elif "move" in kind:
                    src = root(obefore)
                    got = root(now)
                    # moved, or copied from the source: both preserve the value
                    ex.check(z3.BoolVal(got is src or (got is not None and self.heap[got][2] is src)), f"{label}: takes over the value", "C18")
            ex.explore(run, cover=f"{kind} {st} {ot}")

    # -- TypedMetaType<T>
    def run_typed(self):
        ex = self.ex
        ex.contracts.clear()
        fs = {}
        for f in self.a.funcs:
            d = self.a.decls[f]
            par = self.a.decls.get(d.get("parent"))
            if par and par.get("qn", "").startswith("simfil::TypedMetaType") and par.get("targs") and self.a.T(par["targs"][0]["t"]).get("n") == "simfil::IRange" and d["n"] in ("init", "copy", "deinit", "get"):
                fs.setdefault(d["n"], []).append((f, par))
        if set(fs) != {"init", "copy", "deinit", "get"}: raise Unsupported("TypedMetaType members not found")
        irec = self.a.rec_by_name["simfil::IRange"][0]
        def rng(nm): return StructV(irec, {"begin": ex.ifresh(nm + ".b", 64, True), "end": ex.ifresh(nm + ".e", 64, True)})
        def meta(par): return ex.new_lv(StructV(par["id"], {"ident": StrV(z3.Const("ident", Str))}), "type")
        same = lambda x, y: z3.And(*[ex.compare("==", x.fields[k], y.fields[k]) for k in ("begin", "end")])
        for nm, l in fs.items():
            for f, par in l:
                ex.stats.functions.append(f"simfil::TypedMetaType::{nm}")
                def run(ex, nm=nm, f=f, par=par):
                    self.heap = {}; ex.locals = []
                    me = meta(par)
                    if nm == "init":
                        p = ex.inline(f, me, [])
                        ok = isinstance(p, P) and p.lv is not None and p.lv.root in self.heap
                        ex.check(z3.BoolVal(ok and self.heap[p.lv.root][0] and len(self.heap) == 1), "TypedMetaType::init: makes one new object", "C18")
                    elif nm == "copy":
                        v = rng("src")
                        src = ex.new_lv(v, "src"); self.heap[src.root] = [True, None, None]
                        p = ex.inline(f, me, [P(src)])
                        ok = isinstance(p, P) and p.lv is not None and p.lv.root is not src.root and p.lv.root in self.heap
                        ex.check(z3.BoolVal(ok and len(self.heap) == 2), "TypedMetaType::copy: makes one new object", "C18")
                        if ok: ex.check(same(ex.get(p.lv), v), "TypedMetaType::copy: equal to its source", "C18")
                        ex.check(z3.BoolVal(self.heap[src.root][0]), "TypedMetaType::copy: source kept", "C18"); ex.check(same(ex.get(src), v), "TypedMetaType::copy: source unchanged", "C18")
                    elif nm == "deinit":
                        src = ex.new_lv(rng("src"), "src"); self.heap[src.root] = [True, None, None]
                        oth = ex.new_lv(rng("oth"), "oth"); self.heap[oth.root] = [True, None, None]
                        ex.inline(f, me, [P(src)])
                        ex.check(z3.BoolVal(not self.heap[src.root][0] and self.heap[oth.root][0]), "TypedMetaType::deinit: destroys exactly its object", "C18")
                    else:
                        d0 = ex.new_lv(rng("src"), "src")
                        other = meta(par)
                        mine = ex.choose(2)
                        o = ex.new_lv(StructV(self.rec, {"meta": P(me if mine else other), "data": P(d0)}), "o")
                        p = ex.inline(f, me, [o])
                        ex.check(z3.BoolVal(isinstance(p, P) and ((p.lv is not None and p.lv.root is d0.root) if mine else p.lv is None)), "TypedMetaType::get: the object exactly if it is of this type", "C18")
                ex.explore(run, cover="TypedMetaType::" + nm)


KINDS = ["ctor", "copy ctor", "move ctor", "copy assignment", "move assignment", "dtor"]


class Suite(BaseSuite):
    PROPS = ("C18",)
    TU = "drivers/types.cpp"
    HARNESS = ("trans", "harness/trans.cpp", ["src/exception-handler.cpp", "src/model/model.cpp", "src/model/nodes.cpp", "src/model/string-pool.cpp", "src/types.cpp", "src/value.cpp"])
    ASSUME = ["contract assumed for a user's MetaType: init and copy return a new object of that type or throw, deinit destroys its argument and does not throw", "a TransientObject is only changed through its own members (its fields are public)"]

    def tasks(self, prop):
        a = self.a
        t = [(k, lambda st, k=k: Trans(a, st).run_special(k)) for k in KINDS]
        t.append(("TypedMetaType", lambda st: Trans(a, st).run_typed()))
        return t

    # operations over 4 slots of TransientObject ("o"), 4 of Value ("v")
    OPS = ["n", "c", "a", "m", "M", "d", "w", "t", "N", "C", "A", "V", "W", "D", "x", "X"]

    def gen(self, prop, rng, hints):
        import itertools
        R = range(3)
        base = []
        for k in ("r0", "r1"):
            yield f"n 0 {k}"
        small = ["a 0 0", "A 0 0", "M 0 0", "a 0 1", "M 0 1", "c 1 0", "m 1 0", "c 0 1", "m 2 1", "d 0", "d 1", "w 0 7", "t 1 a 1 0", "t 1 c 2 0", "V 0 0", "W 1 0", "C 1 0", "A 1 0", "x 0 1", "D 0"]
        for pre in (["n 0 r0"], ["n 0 r1"], ["n 0 r0", "n 1 r1"], ["n 0 r1", "n 1 r1"]):
            for s in itertools.product(small, repeat=2):
                yield ";".join(pre + list(s))
        while True:
            n = rng.randrange(3, 14)
            s = [f"n {rng.randrange(3)} r{rng.randrange(2)}"]
            for _ in range(n):
                o = rng.choice(self.OPS)
                i, j = rng.randrange(4), rng.randrange(4)
                if o in "n": s.append(f"n {i} r{rng.randrange(2)}")
                elif o in "N": s.append(f"t 1 n {i} r{rng.randrange(2)}")
                elif o == "w": s.append(f"w {i} {rng.randrange(1000)}")
                elif o == "t": s.append(f"t 1 {rng.choice('ca')} {i} {j}")
                elif o in "dD": s.append(f"{o} {i}")
                else: s.append(f"{o} {i} {j}")
            yield ";".join(s)

    def spec(self, line):
        """value of every slot after each operation: None no object, 'e' empty, int the payload; '?' after being moved from"""
        o = [None] * 4; v = [None] * 4
        for op in line.split(";"):
            w = op.split(" ")
            k, i = w[0], int(w[1])
            j = int(w[2]) if len(w) > 2 and k not in "nw" else None
            if k == "n": o[i] = (0, w[2])
            elif k == "d": o[i] = None
            elif k == "D": v[i] = None
            elif k == "w":
                if isinstance(o[i], tuple): o[i] = (int(w[2]), o[i][1])
            elif k in "cm":
                if i == j or o[j] is None: continue
                x = o[j]
                o[i] = x
                if k == "m": o[j] = "?"
            elif k in "aM":
                if o[i] is None or o[j] is None: continue
                x = o[j]
                if k == "M" and i == j: o[i] = "?" if o[i] == "?" else o[i]; continue
                o[i] = x
                if k == "M": o[j] = "?"
            elif k == "V":
                if o[j] is not None: v[i] = o[j]
            elif k == "W":
                if v[j] is not None: o[i] = v[j]
            elif k == "C":
                if v[j] is not None and i != j: v[i] = v[j]
            elif k == "A":
                if v[i] is not None and v[j] is not None: v[i] = v[j]
            elif k == "x":
                if v[j] is not None and i != j: v[i] = v[j]; v[j] = "?"
            elif k == "X":
                if v[i] is not None and v[j] is not None and i != j: v[i], v[j] = v[j], "?"
        return o, v

    def judge(self, prop, line, out):
        if isinstance(out, tuple): return f"crash: {out[1]}"
        w = out.split("|")
        if w[0]: return w[0]
        if "t 1" in line: return None     # values after an exception are not specified beyond validity (the harness checks that)
        o, v = self.spec(line)
        for nm, exp, got in (("object", o, w[1].split(" ")), ("value", v, w[2].split(" "))):
            for i in range(4):
                e = exp[i]
                if e is None:
                    if got[i] != "-": return f"{nm} {i} exists although it was destroyed"
                elif isinstance(e, tuple) and len(e) == 2:
                    if got[i] != f"{e[1]}:{e[0]}": return f"{nm} {i} is {got[i]} instead of {e[1]}:{e[0]}"
        return None

    def shrink(self, prop, t, d):
        from . import harness as H
        ops = t.split(";"); i = 0
        while i < len(ops) and len(ops) > 1:
            c = ops[:i] + ops[i + 1:]
            r = H.run_batch(self.exe, [";".join(c)])[0]
            p = self.judge(prop, ";".join(c), r)
            if p: ops, d = c, p
            else: i += 1
        return ";".join(ops), d
