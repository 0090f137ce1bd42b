"""C24: JSON and models (src/model/json.cpp, ModelNode::toJson).

build() is checked against the relation represents(node, document), unfolded one level: kind, scalar value, number of members, name and
value of member i. toJson() is checked against the node's views (type, value, size, keyAt, at: C15, C16), one level as well; recursive
calls go by contract. The lemma closes the circle by induction on the document: what toJson gives for a node which represents a document
is that document. Adding and reading members is by the contracts of C16, names by that of the string pool (C12)."""
import z3
from .core import *
from . import builtins as BI
from .suite import BaseSuite, TRUST
from . import modelgen as G

NS = "simfil::"
Doc = z3.DeclareSort("Document"); Node = z3.DeclareSort("JNode")
INT, BOOL = z3.IntSort(), z3.BoolSort()
F64 = z3.Float64()
F = z3.Function
KIND = dict(null=0, object=1, array=2, string=3, boolean=4, number_integer=5, number_unsigned=6, number_float=7)
jkind = F("doc_kind", Doc, INT); jbool = F("doc_bool", Doc, BOOL); jint = F("doc_int", Doc, INT); juint = F("doc_uint", Doc, INT)
jflt = F("doc_float", Doc, F64); jstr = F("doc_text", Doc, Str); jlen = F("doc_size", Doc, INT)
jkey = F("doc_name", Doc, INT, Str); jval = F("doc_member", Doc, INT, Doc)
dbl = F("nearest_double", INT, F64)
ntype = F("jnode_type", Node, INT); nbool = F("jnode_bool", Node, BOOL); nint = F("jnode_int", Node, INT); nflt = F("jnode_float", Node, F64)
nstr = F("jnode_text", Node, Str); nsize = F("jnode_size", Node, INT); nid = F("jnode_id", Node, INT, INT); nat = F("jnode_member", Node, INT, Node)
text = F("text_of_id", INT, Str); npos = F("jnode_position", Node, Str, INT)
NIL = z3.Const("no_jnode", Node)
reps = F("represents", Node, Doc, BOOL)
tj = F("json_of", Node, Doc)


def nkey(n, i): return text(nid(n, i))
def allof(q, body, *pats): return z3.ForAll([q], body, patterns=list(pats)) if pats else z3.ForAll([q], body)


class JIn(V):
    """a document"""
    def __init__(self, t): self.t = t


class Items(V):
    def __init__(self, t): self.t = t


class JIt(V):
    """iterator over the members of a document"""
    def __init__(self, t, i): self.t, self.i = t, i


class Leaf(V):
    """a json value being made: null, bool, int, float, string"""
    def __init__(self, kind, t): self.kind, self.t = kind, t


class JObj(V):
    def __init__(self, has, val): self.has, self.val = has, val
    def sget(self, ex, k): return JIn(self.val[k[1]])
    def swith(self, ex, k, rest, new):
        if rest: raise Unsupported("write into a member")
        if not isinstance(new, JIn): new = JIn(z3.Const(ex.fresh_name("made"), Doc))      # a value made here, not one of a node
        return JObj(z3.Store(self.has, k[1], True), z3.Store(self.val, k[1], new.t))
    def havoc_elem(self, ex, name, rest): return JObj(z3.Const(ex.fresh_name(name + ".has"), self.has.sort()), z3.Const(ex.fresh_name(name + ".val"), self.val.sort()))


class JArr(V):
    def __init__(self, n, at): self.n, self.at = n, at


class NP(V):
    """pointer to a node"""
    def __init__(self, t): self.t = t


class NodeV(V):
    def __init__(self, t, model): self.t, self.model = t, model
    def sget(self, ex, k):
        if k == "model_": return P(self.model)
        raise Unsupported(f"field {k} of a node")


class Built(V):
    """object or array under construction: its members so far"""
    def __init__(self, kind, n, keys, vals): self.kind, self.n, self.keys, self.vals = kind, n, keys, vals


class BP(V):
    """pointer to one of those"""
    def __init__(self, lv): self.lv = lv


class Json:
    def __init__(self, ast, stats=None):
        self.a = ast
        ex = self.ex = Ex(ast, stats, mode="int", fp="fp", rounds=1)
        ex.prover.timeout = 20000
        ex.cfg.update({"feas_ms": 500, "cand_ms": 1000, "havoc": self.havoc, "range_for": self.range_for, "termination": False, "int_to_float": self.int_to_float})
        ex.loop_candidates = self.candidates
        self.E = {c["n"]: int(c["v"]) for d in ast.decls.values() if d.get("dk") == "Enum" and d["qn"] == NS + "ValueType" for c in d["consts"]}
        C = {c["n"]: int(c["v"]) for d in ast.decls.values() if d.get("dk") == "Enum" and d["qn"] == NS + "ModelPool::ColumnId" for c in d["consts"]}
        C |= {c["n"]: int(c["v"]) for d in ast.decls.values() if d.get("dk") == "Enum" and d["qn"].startswith(NS + "Model::") for c in d["consts"]}
        self.null_column = C.get("Null")
        if not self.E or self.null_column is None: raise Unsupported("enumerations of the model")
        self.frozen = set()
        self.install()

    def int_to_float(self, ex, v, sort):
        if v.w != 64 or sort != F64: raise Unsupported("conversion of an integer to this floating point type")
        return D(dbl(v.t))

    # ---- ghost machinery
    def havoc(self, ex, v, name):
        if isinstance(v, JObj): return v.havoc_elem(ex, name, ())
        if isinstance(v, JArr):
            n = z3.Int(ex.fresh_name(name + ".n")); ex.assume(n >= 0); return JArr(n, z3.Const(ex.fresh_name(name + ".at"), v.at.sort()))
        if isinstance(v, Built):
            n = z3.Int(ex.fresh_name(name + ".n")); ex.assume(n >= 0)
            return Built(v.kind, n, z3.Const(ex.fresh_name(name + ".names"), v.keys.sort()), z3.Const(ex.fresh_name(name + ".members"), v.vals.sort()))
        if isinstance(v, NP): return NP(z3.Const(ex.fresh_name(name), Node))
        if isinstance(v, JIn): return JIn(z3.Const(ex.fresh_name(name), Doc))
        if isinstance(v, JIt): return JIt(v.t, z3.Int(ex.fresh_name(name)))
        if isinstance(v, (P, OpaqueV, BP)): return v
        return None

    def range_for(self, ex, n, lv, v):
        if not isinstance(v, (JIn, Items)): return NotImplemented
        t = v.t
        if isinstance(t, LV):
            i = ex.new_lv(I(z3.IntVal(0), 64, False), "#i"); m = ex.ifresh("members", 64, False)
            d = n["var"]["decls"][0]
            def pre():
                k = z3.Const(ex.fresh_name("name"), Str)
                ex.bind_loop_var(d, ex.new_lv(PairV(StrV(k), JIn(ex.get(t).val[k])), "element"))
            ex.loop(n, lambda: ex.get(i).t < m.t, n["body"], lambda: ex.set(i, I(ex.get(i).t + 1, 64, False)), pre=pre)
            return True
        if not ex.entails(z3.Or(jkind(t) == KIND["object"], jkind(t) == KIND["array"])): raise Unsupported("iteration over a scalar")
        i = ex.new_lv(I(z3.IntVal(0), 64, False), "#i")
        d = n["var"]["decls"][0]
        def pre():
            k = ex.get(i).t
            el = JIn(jval(t, k))
            self.known_doc(jval(t, k))
            if isinstance(v, Items):
                if not ex.entails(jkind(t) == KIND["object"]): raise Unsupported("items() of an array")
                el = PairV(StrV(jkey(t, k)), el)
            ex.bind_loop_var(d, ex.new_lv(el, "element"))
        ex.loop(n, lambda: ex.get(i).t < jlen(t), n["body"], lambda: ex.set(i, I(ex.get(i).t + 1, 64, False)), pre=pre, extra={"doc": t, "i": i})
        return True

    def candidates(self, ex, ctx):
        out = []
        ints = [(lv, p) for lv, p in ctx.cells if isinstance(ex.peek(lv), I)]
        q = z3.Int("q?"); kk = z3.Const("k?", Str)
        if "i" in ctx.extra and not any(lv.root is ctx.extra["i"].root for lv, _ in ints): ints.append((ctx.extra["i"], ()))
        D = ctx.extra.get("doc") if "doc" in ctx.extra else getattr(self, "doc", None)
        N = getattr(self, "nd", None)
        ints += [(lv, p) for lv, p in ctx.cells if isinstance(ex.peek(lv), JIt)]
        for lv, p in ints:
            nm = f"{lv.root.name}{p}#{lv.root.ord}"
            c = lambda lv=lv: ex.get(lv).i if isinstance(ex.get(lv), JIt) else ex.get(lv).t
            out.append((nm + " >= 0", lambda c=c: c() >= 0))
            if D is not None: out.append((nm + " <= size", lambda c=c: c() <= jlen(D)))
            if N is not None: out.append((nm + " <= node size", lambda c=c: c() <= nsize(N)))
            for o in ctx.written(Built):
                v = lambda o=o: ex.get(o)
                out.append((f"members = {nm}", lambda v=v, c=c: v().n == c()))
                if D is not None:
                    out.append((f"names so far {nm}", lambda v=v, c=c: allof(q, z3.Implies(z3.And(q >= 0, q < c()), v().keys[q] == jkey(D, q)))))
                    out.append((f"members so far {nm}", lambda v=v, c=c: allof(q, z3.Implies(z3.And(q >= 0, q < c()), reps(v().vals[q], jval(D, q))))))
            for o in ctx.written(JObj):
                v = lambda o=o: ex.get(o)
                if N is None: continue
                pos = npos(N, kk)
                out.append((f"fields = first {nm}", lambda v=v, c=c: allof(kk, v().has[kk] == z3.And(pos >= 0, pos < c(), nkey(N, pos) == kk), v().has[kk])))
                out.append((f"values of first {nm}", lambda v=v, c=c: allof(kk, z3.Implies(z3.And(pos >= 0, pos < c(), nkey(N, pos) == kk), v().val[kk] == tj(nat(N, pos))), v().val[kk])))
            for o in ctx.written(JArr):
                v = lambda o=o: ex.get(o)
                if N is None: continue
                out.append((f"elements = {nm}", lambda v=v, c=c: v().n == c()))
                out.append((f"values of first {nm}", lambda v=v, c=c: allof(q, z3.Implies(z3.And(q >= 0, q < c()), v().at[q] == tj(nat(N, q))), v().at[q])))
        for lv, p in ctx.cells:
            if isinstance(ex.peek(lv), z3.BoolRef): out.append((f"{lv.root.name}{p}#{lv.root.ord} false", lambda lv=lv: z3.Not(ex.get(lv))))
        return out, []

    def known_doc(self, d):
        ex = self.ex
        ex.assume(z3.And(jkind(d) >= 0, jkind(d) <= 7, jlen(d) >= 0, jlen(d) < 2 ** 31, ex.in_range(jint(d), 64, True), ex.in_range(juint(d), 64, False)))

    # ---- library and callees
    def install(self):
        ex, B, C, ctor = self.ex, self.ex.builtins, self.ex.contracts, self.ex.ctor_models
        J = "nlohmann::basic_json::"
        E = self.E
        def doc(this):
            v = ex.get(this)
            if isinstance(v, JIn): return v.t
            raise Unsupported("document")
        B[J + "type"] = lambda ex_, fid, this, a, n: I(jkind(doc(this)), 8, False)
        for nm, ks in dict(is_null=("null",), is_object=("object",), is_array=("array",), is_string=("string",), is_boolean=("boolean",), is_number=("number_integer", "number_unsigned", "number_float"),
                           is_number_integer=("number_integer", "number_unsigned"), is_number_unsigned=("number_unsigned",), is_number_float=("number_float",), is_structured=("object", "array")).items():
            B[J + nm] = lambda ex_, fid, this, a, n, ks=ks: z3.Or(*[jkind(doc(this)) == KIND[k] for k in ks])
        def size(ex_, fid, this, a, n):
            v = ex.get(this)
            if isinstance(v, JArr): return I(v.n, 64, False)
            return I(z3.If(jkind(doc(this)) == 0, 0, z3.If(z3.Or(jkind(doc(this)) == 1, jkind(doc(this)) == 2), jlen(doc(this)), 1)), 64, False)
        B[J + "size"] = size
        B[J + "empty"] = lambda ex_, fid, this, a, n: size(ex_, fid, this, a, n).t == 0
        B[J + "items"] = lambda ex_, fid, this, a, n: Items(this if isinstance(ex.get(this), JObj) else doc(this))
        def index(ex_, fid, this, a, n):
            v = ex.get(this); k = ex.load(a[0])
            if isinstance(v, JIn) and isinstance(k, I):
                if not ex.entails(z3.And(jkind(v.t) == KIND["array"], k.t >= 0, k.t < jlen(v.t))): raise Unsupported("element")
                self.known_doc(jval(v.t, k.t)); return ex.new_lv(JIn(jval(v.t, k.t)), "element")
            if isinstance(v, JObj) and not isinstance(k, I): return this.sub(("e2", self.str_of(a[0])))
            raise Unsupported("json []")
        B[J + "operator[]"] = B[J + "at"] = index
        def get(ex_, fid, this, a, n):
            t = doc(this)
            ty = ex.T(ex.a.decls[fid]["targs"][0]["t"])
            is_ = lambda k: ex.entails(jkind(t) == KIND[k])
            kind = next((k for k in KIND if is_(k)), None)
            if kind is None: raise Unsupported("kind of the document")
            if ty["k"] == "bool" and kind == "boolean": return jbool(t)
            if ty["k"] == "int":
                x = {"number_integer": jint, "number_unsigned": juint}.get(kind)
                if x is None: raise Unsupported("json get")
                return I(ex.wrap(x(t), ty["w"], ty.get("sg", False)), ty["w"], ty.get("sg", False))
            if ty["k"] == "float" and ty.get("w", 64) == 32 and kind == "number_float": return ex.fwide(z3.fpFPToFP(z3.RNE(), jflt(t), z3.Float32()))
            if ty["k"] == "ref": ty = ex.T(ty["to"])
            if ty["k"] == "float" and ty.get("w", 64) == 64:
                if kind == "number_float": return D(jflt(t))
                if kind == "number_integer": return D(dbl(jint(t)))
                if kind == "number_unsigned": return D(dbl(juint(t)))
            if ty.get("n", "").startswith("std::basic_string") and kind == "string": return StrV(jstr(t))
            raise Unsupported("json get")
        for nm in ("get", "get_ref", "get_ptr"): B[J + nm] = get
        del B[J + "get_ptr"]
        def iterator(end):
            def f(ex_, fid, this, a, n):
                t = doc(this)
                if not ex.entails(z3.Or(jkind(t) == KIND["object"], jkind(t) == KIND["array"])): raise Unsupported("iterator of a scalar")
                return JIt(t, jlen(t) if end else z3.IntVal(0))
            return f
        for nm in ("begin", "cbegin"): B[J + nm] = iterator(False)
        for nm in ("end", "cend"): B[J + nm] = iterator(True)
        IT = "nlohmann::detail::iter_impl::"
        def it(x):
            v = ex.load(x)
            if isinstance(v, JIt): return v
            raise Unsupported("json iterator")
        def element(ex_, fid, this, a, n):
            v = it(this); ex.check(z3.And(v.i >= 0, v.i < jlen(v.t)), f"{ex.where()}: only members that exist", "C24")
            self.known_doc(jval(v.t, v.i)); lv = ex.new_lv(JIn(jval(v.t, v.i)), "element")
            return P(lv) if ex.a.fname(fid).endswith("operator->") else lv
        for nm in ("operator*", "operator->", "value"): B[IT + nm] = element
        def itkey(ex_, fid, this, a, n):
            v = it(this)
            if not ex.entails(jkind(v.t) == KIND["object"]): raise Unsupported("key() of an array")
            ex.check(z3.And(v.i >= 0, v.i < jlen(v.t)), f"{ex.where()}: only members that exist", "C24")
            return ex.new_lv(StrV(jkey(v.t, v.i)), "name")
        B[IT + "key"] = itkey
        def step(ex_, fid, this, a, n):
            v = it(this); ex.set(this, JIt(v.t, v.i + 1)); return v if a else this
        B[IT + "operator++"] = step
        def same_it(neg):
            def f(ex_, fid, this, a, n):
                x, y = it(this if this is not None else a[0]), it(a[-1])
                if not x.t.eq(y.t): raise Unsupported("iterators of different documents")
                return x.i != y.i if neg else x.i == y.i
            return f
        B[IT + "operator=="] = same_it(False); B[IT + "operator!="] = same_it(True)
        def parse(ex_, fid, this, a, n): return JIn(self.doc)
        B[J + "parse"] = parse
        # making json values
        E0 = z3.K(Str, z3.BoolVal(False))
        def mk_object(ex_, fid, this, a, n): return JObj(E0, z3.Const(ex.fresh_name("members"), z3.ArraySort(Str, Doc)))
        def mk_array(ex_, fid, this, a, n):
            return JArr(z3.IntVal(0), z3.Const(ex.fresh_name("elements"), z3.ArraySort(INT, Doc)))
        def mk(f):
            def g(ex_, fid, this, a, n):
                r = f(ex_, fid, this, a, n)
                for x in a:
                    v = ex.load(x)
                    if isinstance(v, ArrV) and not v.items: continue
                    if not isinstance(v, ArrV) or not isinstance(r, JArr): raise Unsupported("json initializer list")
                    for e in v.items:
                        e = ex.load(e)
                        r = JArr(r.n + 1, z3.Store(r.at, r.n, e.t if isinstance(e, JIn) else z3.Const(ex.fresh_name("made"), Doc)))
                return r
            return g
        B[J + "object"] = mk(mk_object); B[J + "array"] = mk(mk_array)
        ctor["nlohmann::detail::json_ref"] = lambda ex_, tid, a, n: ex.load(a[0])
        ctor["std::initializer_list"] = lambda ex_, tid, a, n: ex.load(a[0]) if a else ArrV([])
        def json_ctor(ex_, tid, a, n):
            if not a: return Leaf("null", None)
            v = ex.load(a[0])
            if isinstance(v, (JIn, Leaf, JObj, JArr)): return v
            if isinstance(v, z3.BoolRef): return Leaf("bool", v)
            if isinstance(v, I): return Leaf("int" if v.sg else "uint", v.t)
            if isinstance(v, D): return Leaf("float", v.t)
            if isinstance(v, (StrV, ViewV, CStr)): return Leaf("string", BI.to_str(ex, a[0]))
            if isinstance(v, P) and v.lv is None or isinstance(v, OpaqueV) and v.tag in ("nullptr", "monostate"): return Leaf("null", None)
            raise Unsupported(f"json of {type(v).__name__}")
        ctor["nlohmann::basic_json"] = json_ctor
        def assign(ex_, fid, this, a, n): ex.set(this, ex.load(a[0])); return this
        B[J + "operator="] = assign
        def contains(ex_, fid, this, a, n):
            v = ex.get(this)
            if not isinstance(v, JObj): raise Unsupported("contains")
            c = v.has[self.str_of(a[0])]
            return c if ex.a.fname(fid).endswith("contains") else I(z3.If(c, 1, 0), 64, False)
        B[J + "contains"] = B[J + "count"] = contains
        def push(ex_, fid, this, a, n):
            v, x = ex.get(this), ex.load(a[0])
            if isinstance(v, JIn): ex.set(this, JIn(z3.Const(ex.fresh_name("made"), Doc))); return this
            if not isinstance(v, JArr) or not isinstance(x, JIn): raise Unsupported("push_back of json")
            ex.set(this, JArr(v.n + 1, z3.Store(v.at, v.n, x.t))); return this
        B[J + "push_back"] = B[J + "emplace_back"] = push
        def emplace(ex_, fid, this, a, n):
            v, x = ex.get(this), ex.load(a[1])
            if not isinstance(v, JObj) or not isinstance(x, JIn): raise Unsupported("json emplace")
            k = self.str_of(a[0]); new = ex.branch(z3.Not(v.has[k]))
            if new: ex.set(this, JObj(z3.Store(v.has, k, True), z3.Store(v.val, k, x.t)))
            return PairV(OpaqueV("iterator"), z3.BoolVal(new))
        B[J + "emplace"] = emplace
        # model pointers
        def mp_ctor(ex_, f, t, A):
            vs = [ex.load(x) for x in A]
            if not vs or (isinstance(vs[0], P) and vs[0].lv is None) or (isinstance(vs[0], OpaqueV) and vs[0].tag == "nullptr"): ex.set(t, NP(NIL)); return VOID
            rec = ex.a.decls[f]; cls = (ex.a.fname(f), rec)
            if isinstance(vs[0], (NP, BP)): ex.set(t, vs[0]); return VOID
            raise Unsupported("model_ptr")
        C[NS + "model_ptr::model_ptr"] = mp_ctor
        C[NS + "model_ptr::operator="] = lambda ex_, f, t, A: (ex.set(t, ex.load(A[0])), t)[1]
        C[NS + "model_ptr::operator bool"] = lambda ex_, f, t, A: ex.get(t).t != NIL if isinstance(ex.get(t), NP) else z3.BoolVal(True)
        def arrow(ex_, f, t, A):
            v = ex.get(t)
            if isinstance(v, BP): return v.lv
            ex.check(v.t != NIL, f"{ex.where()}: no access through a null pointer", "C24")
            return ex.new_lv(NodeV(v.t, self.model), "node")
        C[NS + "model_ptr::operator->"] = lambda ex_, f, t, A: P(arrow(ex_, f, t, A))
        C[NS + "model_ptr::operator*"] = arrow
        def mp_make(ex_, f, t, A):
            if len(A) != 2: raise Unsupported("model_ptr::make")
            ad = ex.load(A[1])
            if not isinstance(ad, StructV) or "value_" not in ad.fields: raise Unsupported("address")
            n = self.new_node("made"); v = ad.fields["value_"].t
            ex.assume(z3.Implies(z3.And(v % 256 == self.null_column, v != 0), z3.And(n != NIL, ntype(n) == E["Null"])))
            return NP(n)
        C[NS + "model_ptr::make"] = mp_make
        arec = (self.a.rec_by_name.get(NS + "ModelNodeAddress") or [None])[0]
        def addr_ctor(ex_, fid, this, args):
            if len(args) != 2: return NotImplemented
            ex.set(this, StructV(arec, {"value_": I((ex.load(args[1]).t * 256) % 2 ** 32 + ex.load(args[0]).t, 32, False)})); return VOID
        C[NS + "ModelNodeAddress::ModelNodeAddress"] = addr_ctor
        B["std::enable_shared_from_this::shared_from_this"] = lambda ex_, fid, this, a, n: P(this)
        # values
        def scalar(v):
            n = self.new_node("value"); ex.assume(n != NIL)
            if isinstance(v, z3.BoolRef): ex.assume(z3.And(ntype(n) == E["Bool"], nbool(n) == v))
            elif isinstance(v, I): ex.assume(z3.And(ntype(n) == E["Int"], nint(n) == v.t))
            elif isinstance(v, D): ex.assume(z3.And(ntype(n) == E["Float"], nflt(n) == v.t))
            elif isinstance(v, (StrV, ViewV, CStr)): ex.assume(z3.And(ntype(n) == E["String"], nstr(n) == BI.to_str(ex, ex.new_lv(v, "text"))))
            else: raise Unsupported("value of a node")
            return n
        for cls in ("Model", "ModelPool"):
            C[f"{NS}{cls}::newSmallValue"] = C[f"{NS}{cls}::newValue"] = lambda ex_, f, t, A: NP(scalar(ex.load(A[0])))
        def new(kind):
            def f(ex_, fid, t, A):
                return BP(ex.new_lv(Built(kind, z3.IntVal(0), z3.Const(ex.fresh_name("names"), z3.ArraySort(INT, Str)), z3.Const(ex.fresh_name("members"), z3.ArraySort(INT, Node))), kind))
            return f
        C[NS + "ModelPool::newObject"] = new("Object"); C[NS + "ModelPool::newArray"] = new("Array")
        def add(this, k, x):
            b = ex.get(this)
            if not isinstance(b, Built) or this.root in self.frozen: raise Unsupported("object under construction")
            v = ex.load(x)
            n = self.node_of(v) if isinstance(v, (NP, BP)) else scalar(v)
            ex.check(n != NIL, f"{ex.where()}: a member is a node", "C24")
            ex.set(this, Built(b.kind, b.n + 1, b.keys if k is None else z3.Store(b.keys, b.n, self.str_of(k)), z3.Store(b.vals, b.n, n)))
            return this
        for c in ("BaseObject", "Object"): C[f"{NS}{c}::addField"] = lambda ex_, f, t, A: add(t, A[0], A[1])
        for c in ("BaseArray", "Array"): C[f"{NS}{c}::append"] = lambda ex_, f, t, A: add(t, None, A[0])
        # a node's views
        Q = NS + "ModelNode::"
        def nd(this):
            v = ex.get(this)
            if not isinstance(v, NodeV): raise Unsupported("node")
            return v.t
        C[Q + "type"] = lambda ex_, f, t, A: I(ntype(nd(t)), 8, False)
        C[Q + "size"] = lambda ex_, f, t, A: I(nsize(nd(t)), 32, False)
        def member(t, A):
            i = ex.load(A[0]).t; n = nd(t)
            ex.check(z3.And(i >= 0, i < nsize(n)), f"{ex.where()}: only members that exist", "C24")
            return n, i
        def at(ex_, f, t, A):
            n, i = member(t, A); return NP(nat(n, i))
        C[Q + "at"] = at
        def key(ex_, f, t, A):
            n, i = member(t, A); ex.assume(ex.in_range(nid(n, i), 16, False)); return I(nid(n, i), 16, False)
        C[Q + "keyAt"] = key
        def value(ex_, f, t, A):
            n = nd(t)
            ty = ex.T(ex.a.decls[f]["ret"])
            alts = [x["t"] for x in ex.a.decls[ty["d"]]["targs"]] if "t" in ex.a.decls[ty["d"]]["targs"][0] else None
            vals = {}; idx = z3.IntVal(0)
            strs = []
            for i, at_ in enumerate(alts):
                at = ex.T(at_)
                if at["k"] == "bool": vals[i] = nbool(n); idx = z3.If(ntype(n) == E["Bool"], i, idx)
                elif at["k"] == "int": vals[i] = I(nint(n), 64, True); idx = z3.If(ntype(n) == E["Int"], i, idx); ex.assume(ex.in_range(nint(n), 64, True))
                elif at["k"] == "float": vals[i] = D(nflt(n)); idx = z3.If(ntype(n) == E["Float"], i, idx)
                elif at.get("n") == "std::basic_string": vals[i] = StrV(nstr(n)); strs.append(i)
                elif at.get("n") == "std::basic_string_view": vals[i] = ViewV(BI.StrBase(nstr(n)), z3.IntVal(0), BI.SLEN(nstr(n))); strs.append(i)
                else: vals[i] = OpaqueV("monostate")
            if strs:
                owned = z3.Bool(ex.fresh_name("owned_text"))
                idx = z3.If(ntype(n) == E["String"], z3.If(owned, strs[0], strs[-1]), idx)
            return VarV(alts, idx, vals)
        C[Q + "value"] = value
        C[Q + "toJson"] = lambda ex_, f, t, A: JIn(tj(nd(t)))
        for c in ("Model", "ModelPool"): C[f"{NS}{c}::lookupStringId"] = lambda ex_, f, t, A: OptV(z3.BoolVal(True), ViewV(BI.StrBase(text(ex.load(A[0]).t)), z3.IntVal(0), BI.SLEN(text(ex.load(A[0]).t))))

    def str_of(self, x):
        ex = self.ex
        v = ex.load(x)
        if isinstance(v, ViewV) and isinstance(v.base, BI.StrBase) and z3.is_int_value(z3.simplify(v.off)) and z3.simplify(v.off).as_long() == 0: 
            if ex.entails(v.len == BI.SLEN(v.base.t)): return v.base.t
        return BI.to_str(ex, x)

    def new_node(self, nm): return z3.Const(self.ex.fresh_name(nm), Node)

    def node_of(self, v):
        """the node a pointer refers to; building it ends here"""
        if isinstance(v, NP): return v.t
        ex = self.ex
        b = ex.get(v.lv); self.frozen.add(v.lv.root)
        n = self.new_node(b.kind); q = z3.Int("q?")
        ex.assume(z3.And(n != NIL, ntype(n) == self.E[b.kind], nsize(n) == b.n))
        ex.assume(allof(q, z3.Implies(z3.And(q >= 0, q < b.n), z3.And(nat(n, q) == b.vals[q], *([nkey(n, q) == b.keys[q]] if b.kind == "Object" else []))), nat(n, q)))
        return n

    def represents(self, n, d, q=None):
        """one level: (label, claim)"""
        E = self.E; k = jkind(d)
        if q is None: q = z3.Int(self.ex.fresh_name("anymember"))
        inr = z3.And(q >= 0, q < jlen(d))
        imax = 2 ** 63 - 1
        K = lambda nm, c: z3.Implies(k == KIND[nm], c)
        return [("a node", n != NIL), ("null", K("null", ntype(n) == E["Null"])), ("a boolean", K("boolean", z3.And(ntype(n) == E["Bool"], nbool(n) == jbool(d)))),
                ("a float", K("number_float", z3.And(ntype(n) == E["Float"], nflt(n) == jflt(d)))),
                ("a negative integer", K("number_integer", z3.And(ntype(n) == E["Int"], nint(n) == jint(d)))),
                ("an integer", K("number_unsigned", z3.Implies(juint(d) <= imax, z3.And(ntype(n) == E["Int"], nint(n) == juint(d))))),
                ("an integer above the integer range", K("number_unsigned", z3.Implies(juint(d) > imax, z3.And(ntype(n) == E["Float"], nflt(n) == dbl(juint(d)))))),
                ("a string", K("string", z3.And(ntype(n) == E["String"], nstr(n) == jstr(d)))),
                ("an array", K("array", z3.And(ntype(n) == E["Array"], nsize(n) == jlen(d)))),
                ("an array's element", K("array", z3.Implies(inr, reps(nat(n, q), jval(d, q))))),
                ("an object", K("object", z3.And(ntype(n) == E["Object"], nsize(n) == jlen(d)))),
                ("an object's names in order", K("object", z3.Implies(inr, nkey(n, q) == jkey(d, q)))),
                ("an object's member", K("object", z3.Implies(inr, reps(nat(n, q), jval(d, q)))))]

    # ---- units
    def begin(self):
        self.frozen = set(); self.doc = self.nd = None
        self.model = self.ex.new_lv(OpaqueV("pool"), "model")

    def run_build(self):
        ex = self.ex
        fs = [f for f in self.a.byname.get(NS + "json::build", []) if f in self.a.funcs]
        if len(fs) != 1: raise Unsupported("json::build not found")
        f = fs[0]
        ex.stats.functions.append(NS + "json::build")
        def rec(ex_, fid, this, A):
            d = ex.load(A[0]).t
            n = self.new_node("built"); ex.assume(z3.And(n != NIL, reps(n, d)))
            return NP(n)
        def run(ex):
            self.begin()
            d = self.doc = z3.Const("document", Doc); self.known_doc(d)
            ex.contracts[NS + "json::build"] = rec
            r = ex.load(ex.inline(f, None, [ex.new_lv(JIn(d), "j"), self.model]))
            n = self.node_of(r)
            for l, c in self.represents(n, d): ex.check(c, f"json::build: the node represents the document ({l})", "C24")
        ex.explore(run, cover="build")
        ex.contracts.pop(NS + "json::build", None)

    def run_parse(self):
        ex = self.ex
        fs = [f for f in self.a.byname.get(NS + "json::parse", []) if f in self.a.funcs]
        if not fs: raise Unsupported("json::parse not found")
        for f in fs:
            ex.stats.functions.append(NS + "json::parse")
            def run(ex, f=f):
                self.begin()
                d = self.doc = z3.Const("document", Doc); self.known_doc(d)
                roots = []
                def build(ex_, fid, this, A):
                    n = self.new_node("built"); ex.assume(z3.And(n != NIL, reps(n, ex.load(A[0]).t)))
                    return NP(n)
                ex.contracts[NS + "json::build"] = build
                def add(ex_, fid, this, A): roots.append((this.root, self.node_of(ex.load(A[0])))); return VOID
                ex.contracts[NS + "ModelPool::addRoot"] = add
                ex.contracts[NS + "ModelPool::validate"] = ex.contracts[NS + "Model::validate"] = lambda ex_, fid, this, A: VOID
                ex.builtins["std::make_shared"] = lambda ex_, fid, this, a, n: P(self.model)
                args = []
                for p in self.a.decls[f]["params"]:
                    t = self.a.T(p["t"]); q = self.a.T(t["to"]) if t["k"] == "ref" else t
                    v = P(self.model) if q.get("n") == "std::shared_ptr" else OpaqueV("text")
                    args.append(ex.new_lv(v, p["n"]))
                r = ex.inline(f, None, args)
                if ex.T(self.a.decls[f]["ret"])["k"] != "void":
                    r = ex.load(r); ex.check(z3.BoolVal(isinstance(r, P) and r.lv is not None and r.lv.root is self.model.root), "json::parse: returns the model it filled", "C24")
                ex.check(z3.BoolVal(len(roots) == 1 and roots[0][0] is self.model.root), "json::parse: the document becomes the only new root", "C24")
                for _, n in roots: ex.check(reps(n, d), "json::parse: the root represents the document", "C24")
            ex.explore(run, cover="parse")

    def run_tojson(self):
        ex = self.ex; E = self.E
        f = next((f for f in self.a.byname.get(NS + "ModelNode::toJson", []) if f in self.a.funcs), None)
        if f is None: raise Unsupported("toJson not found")
        ex.stats.functions.append(NS + "ModelNode::toJson")
        def run(ex):
            self.begin()
            n = self.nd = z3.Const("node", Node); q = z3.Int("q?")
            ex.assume(z3.And(n != NIL, nsize(n) >= 0, nsize(n) < 2 ** 31, ntype(n) >= 0, z3.Or(*[ntype(n) == E[k] for k in ("Null", "Bool", "Int", "Float", "String", "Object", "Array")])))
            ex.assume(allof(q, z3.Implies(z3.And(q >= 0, q < nsize(n)), z3.And(nat(n, q) != NIL, npos(n, nkey(n, q)) == q)), nat(n, q)))
            ex.assume(allof(q, z3.Implies(z3.And(q >= 0, q < nsize(n)), z3.And(nat(n, q) != NIL, npos(n, nkey(n, q)) == q)), nid(n, q)))
            r = ex.load(ex.inline(f, ex.new_lv(NodeV(n, self.model), "node"), []))
            L = "toJson: "
            t = ntype(n)
            if isinstance(r, JIn): raise Unsupported("result of toJson")
            kinds = {"null": "Null", "bool": "Bool", "int": "Int", "float": "Float", "string": "String"}
            if isinstance(r, Leaf):
                if r.kind not in kinds: ex.check(z3.BoolVal(False), L + "an integer becomes a signed number", "C24"); return
                ex.check(t == E[kinds[r.kind]], L + "a scalar becomes a json value of its kind", "C24")
                if r.kind != "null": ex.check(r.t == {"bool": nbool, "int": nint, "float": nflt, "string": nstr}[r.kind](n), L + "a scalar keeps its value", "C24")
            elif isinstance(r, JArr):
                j = z3.Int(ex.fresh_name("anyelement"))
                ex.check(z3.And(t == E["Array"], r.n == nsize(n)), L + "an array becomes an array of the same size", "C24")
                ex.check(z3.Implies(z3.And(j >= 0, j < r.n), r.at[j] == tj(nat(n, j))), L + "an array's elements in order", "C24")
            elif isinstance(r, JObj):
                k = z3.Const(ex.fresh_name("anyname"), Str); p = npos(n, k)
                ex.check(t == E["Object"], L + "an object becomes an object", "C24")
                ex.check(r.has[k] == z3.And(p >= 0, p < nsize(n), nkey(n, p) == k), L + "an object's names", "C24")
                ex.check(z3.Implies(r.has[k], r.val[k] == tj(nat(n, p))), L + "an object's values", "C24")
            else: raise Unsupported("result of toJson")
        ex.explore(run, cover="toJson")

    def run_lemma(self):
        """toJson of what represents a document is the document (one step of the induction)"""
        ex = self.ex; E = self.E
        ex.stats.functions.append("lemma: toJson after build")
        same = F("same_document", Doc, Doc, BOOL)
        def run(ex):
            self.begin()
            n, d = z3.Const("node", Node), z3.Const("document", Doc); self.known_doc(d)
            q = z3.Int("q?"); inr = z3.And(q >= 0, q < jlen(d))
            for l, c in self.represents(n, d, q): ex.assume(allof(q, c, nat(n, q)) if "'s" in l else c)
            ex.assume(allof(q, z3.Implies(z3.And(inr, reps(nat(n, q), jval(d, q))), same(tj(nat(n, q)), jval(d, q))), nat(n, q)))     # induction
            k = jkind(d)
            has, val = z3.Const("has", z3.ArraySort(Str, BOOL)), z3.Const("val", z3.ArraySort(Str, Doc))
            kk = z3.Const("k?", Str); p = npos(n, kk)
            ex.assume(allof(q, z3.Implies(inr, npos(n, nkey(n, q)) == q), nat(n, q)))
            ex.assume(allof(kk, has[kk] == z3.And(p >= 0, p < nsize(n), nkey(n, p) == kk), has[kk]))
            ex.assume(allof(kk, z3.Implies(has[kk], val[kk] == tj(nat(n, p))), val[kk]))
            i = z3.Int("any"); x = z3.Const("anyname", Str)
            ii = z3.And(i >= 0, i < jlen(d), nat(n, i) == nat(n, i)); touch = nat(n, i) != NIL
            ex.check(z3.Implies(z3.And(k == KIND["array"], ii), z3.Or(same(tj(nat(n, i)), jval(d, i)))), "lemma: an array's elements are the document's", "C24")
            ex.check(z3.Implies(z3.And(k == KIND["object"], ii), z3.And(has[jkey(d, i)], z3.Implies(z3.Or(touch, z3.Not(touch)), same(val[jkey(d, i)], jval(d, i))))), "lemma: an object has every member of the document", "C24")
            ex.check(z3.Implies(z3.And(k == KIND["object"], has[x], z3.Or(nat(n, npos(n, x)) == NIL, nat(n, npos(n, x)) != NIL)), z3.And(npos(n, x) >= 0, npos(n, x) < jlen(d), jkey(d, npos(n, x)) == x)), "lemma: an object has no other members", "C24")
        ex.explore(run, cover="lemma")


class Suite(BaseSuite):
    PROPS = ("C24",)
    TU = "drivers/model.cpp"
    HARNESS = ("model", "harness/model.cpp", ["src/exception-handler.cpp", "src/model/model.cpp", "src/model/nodes.cpp", "src/model/json.cpp", "src/model/string-pool.cpp", "src/value.cpp", "src/types.cpp"])
    TRUST = TRUST + ["contract of nlohmann::json (vc/jsn.py): parsing and printing text is the library's", "the nearest double of an integer is what nlohmann::json converts it to"]
    ASSUME = ["nodes and pools by their contracts (C15, C16), names by that of the string pool (C12)", "names that differ only by letter case, and names of several spellings in one document, are outside the property",
              "documents nest no deeper than the stack allows"]
    BOUNDED = "random documents converted there and back on the real code, compared as documents"
    BATCH = 400

    def tasks(self, prop):
        a = self.a
        T = lambda n, f: (n, lambda st: f(Json(a, st)))
        return [T("build", lambda j: j.run_build()), T("parse", lambda j: j.run_parse()), T("toJson", lambda j: j.run_tojson()), T("lemma", lambda j: j.run_lemma())]

    def gen(self, prop, rng, hints): return G.gen(prop, rng, hints)
    def judge(self, prop, line, out): return G.judge(prop, line, out)
