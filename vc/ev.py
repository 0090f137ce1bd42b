"""The evaluation of queries (src/simfil.cpp, src/function.cpp): C07, C09, C10, C11, C21.

Every expression class and every built-in function is executed symbolically against the contract of its children: a child
expression delivers a sequence of values - determined by the child, the phase and the current value - one after the other to
the callback it is given until that asks it to stop, and may then fail; a function delivers a sequence determined by its
arguments.  The consumer of the expression under proof is arbitrary: it may stop at any time."""
import z3
from . import ast as A
from .core import *
from . import builtins as BI
from .builtins import to_str
from . import evalref as R
from .suite import BaseSuite, TRUST, VERIF

Val = z3.DeclareSort("Val"); Node = z3.DeclareSort("Node"); Obj = z3.DeclareSort("Obj")
INT, BOOL = z3.IntSort(), z3.BoolSort()
F = z3.Function
tag = F("tag", Val, INT); vnode = F("node_of", Val, Node); vbo = F("bool_of", Val, BOOL); vint = F("int_of", Val, INT); vstr = F("str_of", Val, Str)
vobj = F("obj_of", Val, Obj)
NILN = z3.Const("no_node", Node)
UNDEF, NULLV = z3.Const("UNDEF", Val), z3.Const("NULL", Val)
mkbool = F("mkbool", BOOL, Val); mkint = F("mkint", INT, Val); mkstr = F("mkstr", Str, Val); mkobj = F("mkobj", Obj, Val); mkfield = F("mkfield", Node, Val)
mkscal = F("mkscal", INT, Val)
ntag = F("node_type", Node, INT); nsize = F("node_size", Node, INT); nchild = F("node_child", Node, INT, Node); nget = F("node_get", Node, INT, Node); nat = F("node_at", Node, INT, Node)
nkey = F("node_key", Node, INT, INT)
poolid = F("pool_id", Str, INT); known = F("pool_known", INT, BOOL); ptext = F("pool_text", INT, Str)
N = F("child_count", INT, INT, Val, INT); X = F("child_value", INT, INT, Val, INT, Val); ERR = F("child_fails", INT, INT, Val, BOOL)
UN = F("unpack_count", Obj, INT); UX = F("unpack_value", Obj, INT, Val)
truth = F("truth", Val, BOOL)
ovval = F("overlay", Val, Val, Val, Val, Val)
estr = F("expr_text", INT, Str)
_T = z3.Datatype("Trace"); _T.declare("nil"); _T.declare("app", ("prev", _T), ("last", Val)); Trace = _T.create()
LIMN = 2 ** 31 - 2
app = Trace.app
IDF = Spec("child_values", [Trace, INT, INT, Val, INT], Trace, lambda T, c, ph, v, k: z3.If(k <= 0, T, app(IDF(T, c, ph, v, k - 1), X(c, ph, v, k - 1))))
UNF = Spec("unpacked_values", [Trace, Obj, INT], Trace, lambda T, o, k: z3.If(k <= 0, T, app(UNF(T, o, k - 1), UX(o, k - 1))))
FNID = z3.IntVal(-100)


def metaop(kind, ts):
    sig = "".join(str(t.sort())[0] for t in ts)
    return F(f"meta_{kind}_{sig}", *[t.sort() for t in ts], Val)(*ts), F(f"metafails_{kind}_{sig}", *[t.sort() for t in ts], BOOL)(*ts)


class AVal(V):
    def __init__(self, t): self.t = t
    def sget(self, ex, k):
        if k == "type": return I(tag(self.t), ex.s.tagw[0], ex.s.tagw[1])
        if k == "node": return NP(vnode(self.t))
        raise Unsupported(f"member {k} of a value")


class NP(V):
    """model_ptr<ModelNode>"""
    def __init__(self, t): self.t = t


class NodeV(V):
    def __init__(self, t): self.t = t


class OvPtr(V):
    def __init__(self, lv): self.lv = lv


class ExprV(V):
    def __init__(self, c): self.c = c


class TObj(V):
    """TransientObject"""
    def __init__(self, t): self.t = t
    def sget(self, ex, k):
        if k == "meta": return P(ex.new_lv(OpaqueV("meta", self.t), "meta"))
        raise Unsupported(f"member {k} of an object")


class ArgsV(V):
    """std::vector<ExprPtr>: n expressions, the j-th is child j"""
    def __init__(self, n): self.n = n
    def sget(self, ex, k):
        p = P(ex.new_lv(ExprV(z3.simplify(k[1])), "arg")); return p


class ValsV(V):
    """const std::vector<Value> field"""
    f = F("const_value", INT, Val)
    def __init__(self, n): self.n = n
    def sget(self, ex, k): return AVal(self.f(k[1]))


SPN = F("split_count", Str, Str, BOOL, INT); SPX = F("split_piece", Str, Str, BOOL, INT, Str)
class PiecesV(V):
    """std::vector<std::string>: the pieces of a split string"""
    def __init__(self, a, b, r, n): self.a, self.b, self.r, self.n = a, b, r, n
    def sget(self, ex, k): return StrV(SPX(self.a, self.b, self.r, k[1]))
    def swith(self, ex, k, rest, new): return self      # elements are moved out of it one after the other and not read again


class NamesV(V):
    """field names of a node"""
    def __init__(self, node): self.node = node


class EvEx(Ex):
    def leaf_types(self, tid, prefix=()):
        ty = self.a.T(tid)
        if ty["k"] == "rec" and ty["n"] == "simfil::Value": return [(prefix, tid)]
        return super().leaf_types(tid, prefix)

    def is_builtin_container(self, v): return isinstance(v, (ViewV, StrV, ArgsV, ValsV, NamesV, PiecesV)) or super().is_builtin_container(v)

    def seq_len(self, v):
        if isinstance(v, (ArgsV, ValsV, PiecesV)): return v.n
        if isinstance(v, NamesV):
            self.assume(z3.And(nsize(v.node) >= 0, nsize(v.node) < LIMN)); return nsize(v.node)
        return super().seq_len(v)

    def seq_elem(self, lv, i):
        v = self.get(lv)
        if isinstance(v, (ArgsV, ValsV, PiecesV)): return lv.sub(("e", i))
        if isinstance(v, NamesV): return self.new_lv(I(nkey(v.node, i), 16, False), "name")
        return super().seq_elem(lv, i)

    def ptr_eq(self, a, b):
        def meta(p):
            v = p.lv.root.v if isinstance(p, P) and p.lv is not None and not p.lv.path else None
            return v if isinstance(v, OpaqueV) and v.tag in ("meta", "metatype") else None
        x, y = meta(a), meta(b)
        if x is not None and y is not None:
            if x.tag == y.tag: return super().ptr_eq(a, b)
            if x.tag == "metatype": x, y = y, x
            return F("object_is_a_" + y.data, Obj, BOOL)(x.data)
        return super().ptr_eq(a, b)

    def isval(self, tid): return self.a.recname(tid) == "simfil::Value"

    def moved(self, lv):
        v = self.get(lv)
        if isinstance(v, AVal):
            m = z3.Const(self.fresh_name("moved_from"), Val)
            self.assume(tag(m) == tag(v.t))
            self.set(lv, AVal(m))

    def construct(self, n):
        if (n.get("move") or n.get("copy")) and self.isval(n["t"]):
            x = self.ev(n["c"][0])
            if isinstance(x, LV):
                v = self.get(x)
                if n.get("move"): self.moved(x)
                return v
            return x
        return super().construct(n)

    def e_CXXOperatorCallExpr(self, n):
        if n.get("oo") == "=" and "f" in n:
            d = self.a.decls[n["f"]]
            if d.get("parent") is not None and self.a.decls.get(d["parent"], {}).get("qn") == "simfil::Value":
                src = self.bind_args(n["c"][2:], n["f"])[0]
                dst = self.ev(n["c"][1])
                v = self.load(src)
                if not isinstance(v, AVal): raise Unsupported("assignment to a value")
                mv = self.T(d["params"][0]["t"])
                if isinstance(src, LV) and d.get("assign") == "move": self.moved(src)
                self.set(dst, v); return dst
        return super().e_CXXOperatorCallExpr(n)


class Eval:
    """One expression class or function."""
    def __init__(self, ast, stats, fid, mode, phase=None):
        """mode: 'proto' (arbitrary consumer) or 'spec' (a consumer that takes everything); phase: None (any), 0 compilation, 1 evaluation"""
        self.a, self.fid, self.mode, self.phase = ast, fid, mode, phase
        ex = self.ex = EvEx(ast, stats, mode="int", timeout=10000, rounds=2)
        ex.s = self
        ex.cfg.update({"ub_soft": True, "feas_ms": 1000, "cand_ms": 2500, "termination": False, "virtual": self.virtual, "unroll_concrete": False, "havoc": self.havoc, "fresh": self.fresh,
                       "scalar_sort": lambda ex, ty: Val if ty["n"] == "simfil::Value" else None, "scalar_wrap": lambda ex, ty, t: AVal(t),
                       "scalar_unwrap": lambda ex, v: v.t, "recurse": self.recurse, "global": self.glob})
        ex.loop_candidates = self.candidates
        self.enum = {c["n"]: int(c["v"]) for d in ast.decls.values() if d.get("dk") == "Enum" and d["qn"] == "simfil::ValueType" for c in d["consts"]}
        if not self.enum: raise Unsupported("enum ValueType")
        vr = ast.rec_by_name.get("simfil::Value", [None])[0]
        if vr is None: raise Unsupported("class Value")
        tf = next((f for f in ast.decls[vr]["fields"] if f["n"] == "type"), None)
        if tf is None: raise Unsupported("Value::type")
        ty = ast.T(tf["t"]); self.tagw = (ty["w"], ty.get("sg", False))
        self.res_enum = {c["n"]: int(c["v"]) for d in ast.decls.values() if d.get("dk") == "Enum" and d["qn"] == "simfil::Result" for c in d["consts"]}
        rt = ast.T(ast.decls[fid]["ret"])
        self.resw = (rt["w"], rt.get("sg", False)) if rt["k"] in ("int", "enum") else (32, False)
        pe = {c["n"]: int(c["v"]) for d in ast.decls.values() if d.get("dk") == "Enum" and d["qn"] == "simfil::Context::Phase" for c in d["consts"]}
        self.PH = pe
        self.keys = {}
        for d in ast.decls.values():
            if d.get("dk") == "Enum" and (d.get("qn") or "").startswith("simfil::StringPool"):
                for c in d["consts"]:
                    if c["n"].startswith("Overlay"): self.keys[c["n"][7:]] = int(c["v"])
        if set(self.keys) != {"Sum", "Value", "Index"}: raise Unsupported("overlay keys")
        self.contracts()

    # ------------------------------------------------------------ values
    def axioms(self):
        E = self.enum; ex = self.ex
        ex.assume(z3.And(tag(UNDEF) == E["Undef"], vnode(UNDEF) == NILN, tag(NULLV) == E["Null"], vnode(NULLV) == NILN))

    def known_val(self, t):
        """facts about every value"""
        ex = self.ex; E = self.enum
        ex.assume(z3.And(tag(t) >= 0, tag(t) < len(E)))
        ex.assume(z3.Implies(tag(t) == E["Bool"], truth(t) == vbo(t)))
        ex.assume(z3.Implies(tag(t) == E["Null"], z3.Not(truth(t))))
        ex.assume(z3.Implies(tag(t) == E["Undef"], z3.Not(truth(t))))
        ex.assume(z3.Implies(z3.Or(*[tag(t) == E[k] for k in ("Int", "Float", "String", "TransientObject")]), truth(t)))
        return AVal(t)

    def of(self, kind, arg):
        ex, E = self.ex, self.enum
        f = {"Bool": mkbool, "Int": mkint, "String": mkstr, "TransientObject": mkobj}[kind]
        g = {"Bool": vbo, "Int": vint, "String": vstr, "TransientObject": vobj}[kind]
        t = f(arg)
        ex.assume(z3.And(tag(t) == E[kind], vnode(t) == NILN, g(t) == arg))
        return self.known_val(t)

    def field(self, n):
        t = mkfield(n)
        self.ex.assume(z3.And(vnode(t) == n, tag(t) == ntag(n)))
        return self.known_val(t)

    def make(self, v):
        ex = self.ex
        if isinstance(v, z3.BoolRef): return self.of("Bool", v)
        if isinstance(v, I):
            return self.of("Int", v.t)
        if isinstance(v, (StrV, ViewV, CStr)): return self.of("String", to_str(ex, v))
        if isinstance(v, TObj): return self.of("TransientObject", v.t)
        if isinstance(v, D):
            t = z3.Const(ex.fresh_name("float_value"), Val); ex.assume(z3.And(tag(t) == self.enum["Float"], vnode(t) == NILN)); return self.known_val(t)
        if isinstance(v, AVal): return v
        raise Unsupported(f"value from {type(v).__name__}")

    def fresh_val(self, name): return self.known_val(z3.Const(self.ex.fresh_name(name), Val))

    def havoc(self, ex, v, name):
        if isinstance(v, AVal): return self.fresh_val(name)
        if isinstance(v, NP): return NP(z3.Const(ex.fresh_name(name), Node))
        if isinstance(v, IterV) and isinstance(v.idx, z3.ExprRef): return IterV(v.cont, z3.Int(ex.fresh_name(name)))
        if isinstance(v, OvPtr): raise Unsupported("overlay changed by a loop it outlives")
        if isinstance(v, P) and v.lv is None: return None
        return None

    def fresh(self, ex, tid, name):
        ty = self.a.T(tid)
        if ty["k"] == "rec" and ty["n"] == "simfil::Value": return self.fresh_val(name)
        return None

    def glob(self, ex, dec):
        if dec["qn"].endswith("Type::Type"): return OpaqueV("metatype", dec["qn"])
        return None

    # ------------------------------------------------------------ contracts
    def contracts(self):
        ex, a = self.ex, self.a
        C, E = ex.contracts, self.enum
        def st(name, f): C["simfil::Value::" + name] = f
        st("undef", lambda ex, f, t, A: AVal(UNDEF)); st("null", lambda ex, f, t, A: AVal(NULLV))
        st("t", lambda ex, f, t, A: self.of("Bool", z3.BoolVal(True))); st("f", lambda ex, f, t, A: self.of("Bool", z3.BoolVal(False)))
        st("make", lambda ex, f, t, A: self.make(ex.load(A[0]))); st("strref", lambda ex, f, t, A: self.make(ex.load(A[0])))
        def model(ex, f, t, A):
            v = self.fresh_val("model"); ex.assume(z3.And(tag(v.t) == E["Object"], vnode(v.t) == NILN, z3.Not(truth(v.t)))); return v
        st("model", model)
        def field(ex, f, t, A):
            v = ex.load(A[0])
            if isinstance(v, NodeV) or isinstance(v, NP): return self.field(v.t)
            if isinstance(v, OvPtr): return self.ov_value(v.lv)
            raise Unsupported("Value::field")
        st("field", field)
        def ctor(ex, f, t, A):
            d = a.decls[f]
            vs = [ex.load(x) for x in A]
            if len(vs) == 1 and isinstance(vs[0], AVal):
                if d.get("ctor") == "move" and isinstance(A[0], LV): ex.moved(A[0])
                ex.set(t, vs[0]); return VOID
            if len(vs) == 1 and isinstance(vs[0], I):
                k = z3.simplify(vs[0].t)
                if z3.is_int_value(k) and k.as_long() == E["Undef"]: ex.set(t, AVal(UNDEF)); return VOID
                if z3.is_int_value(k) and k.as_long() == E["Null"]: ex.set(t, AVal(NULLV)); return VOID
                v = self.fresh_val("value"); ex.assume(z3.And(tag(v.t) == vs[0].t, vnode(v.t) == NILN)); ex.set(t, v); return VOID
            if len(vs) == 2 and isinstance(vs[0], I):
                k = z3.simplify(vs[0].t)
                v = self.make(vs[1])
                if not (z3.is_int_value(k) and ex.entails(tag(v.t) == k)): raise Unsupported("Value(type, value)")
                ex.set(t, v); return VOID
            if len(vs) == 1:
                v = self.make(vs[0]); ex.set(t, v); return VOID
            raise Unsupported("constructor of Value")
        C["simfil::Value::Value"] = ctor
        st("isa", lambda ex, f, t, A: tag(ex.get(t).t) == ex.load(A[0]).t)
        st("isBool", lambda ex, f, t, A: z3.And(tag(ex.get(t).t) == E["Bool"], vbo(ex.get(t).t) == ex.load(A[0])))
        def as_(ex, f, t, A):
            v = ex.get(t).t
            k = int(a.decls[f]["targs"][0]["i"])
            nm = next(n for n, i in E.items() if i == k)
            if nm == "String": return StrV(vstr(v))
            if not ex.branch(tag(v) == k): raise CppThrow("std::bad_variant_access")
            if nm == "Bool": return vbo(v)
            if nm == "Int":
                ex.assume(ex.in_range(vint(v), 64, True)); return I(vint(v), 64, True)
            if nm == "TransientObject": return ex.new_lv(TObj(vobj(v)), "obj")
            raise Unsupported("Value::as")
        st("as", as_)
        st("toString", lambda ex, f, t, A: StrV(z3.Const(ex.fresh_name("text"), Str)))
        st("stringViewValue", lambda ex, f, t, A: P(ex.new_lv(StrV(vstr(ex.get(t).t)), "sv"), null=z3.Or(tag(ex.get(t).t) != E["String"], z3.Bool(ex.fresh_name("owns")))))
        # pointers to nodes
        C["simfil::model_ptr::operator bool"] = lambda ex, f, t, A: (ex.get(t).t != NILN) if isinstance(ex.get(t), NP) else z3.BoolVal(True)
        def arrow(ex, f, t, A):
            v = ex.get(t)
            if isinstance(v, OvPtr): return v.lv
            if not ex.branch(v.t != NILN): raise CppThrow("std::runtime_error", "null")
            return ex.new_lv(NodeV(v.t), "node")
        C["simfil::model_ptr::operator->"] = lambda ex, f, t, A: P(arrow(ex, f, t, A))
        C["simfil::model_ptr::operator*"] = arrow
        def mp_ctor(ex, f, t, A):
            vs = [ex.load(x) for x in A]
            if not vs or (isinstance(vs[0], P) and vs[0].lv is None) or (isinstance(vs[0], OpaqueV) and vs[0].tag == "nullptr"): ex.set(t, NP(NILN)); return VOID
            if isinstance(vs[0], (NP, OvPtr)): ex.set(t, vs[0]); return VOID
            if isinstance(vs[0], NodeV): ex.set(t, NP(vs[0].t)); return VOID
            raise Unsupported("model_ptr")
        C["simfil::model_ptr::model_ptr"] = mp_ctor
        def mp_set(ex, f, t, A): ex.set(t, ex.load(A[0])); return t
        C["simfil::model_ptr::operator="] = mp_set
        def mp_make(ex, f, t, A):
            v = ex.load(A[0])
            if not isinstance(v, AVal): raise Unsupported("overlay over no value")
            none = AVal(z3.Const("no_overlay", Val))
            return OvPtr(ex.new_lv(OpaqueV("overlay", {"base": v, **{self.keys[k]: none for k in ("Sum", "Value", "Index")}}), "overlay"))
        C["simfil::model_ptr::make"] = mp_make
        def ov_set(ex, f, t, A):
            k = ex.load(A[0]); k = z3.simplify(k.t)
            if not z3.is_int_value(k): raise Unsupported("overlay key")
            if k.as_long() not in self.keys.values(): raise Unsupported("overlay key")
            ex.set(t.sub(k.as_long()), ex.load(A[1])); return VOID
        C["simfil::OverlayNode::set"] = ov_set
        # environment
        C["simfil::Environment::warn"] = lambda ex, f, t, A: VOID
        C["simfil::Environment::trace"] = lambda ex, f, t, A: VOID
        C["simfil::Environment::strings"] = lambda ex, f, t, A: P(ex.new_lv(OpaqueV("pool"), "pool"))
        C["simfil::Environment::findFunction"] = lambda ex, f, t, A: P(ex.new_lv(OpaqueV("function"), "function"), null=z3.Bool("function_unknown"))
        C["simfil::StringPool::get"] = lambda ex, f, t, A: self.sid(poolid(to_str(ex, ex.load(A[0]))))
        def resolve(ex, f, t, A):
            i = ex.load(A[0]).t
            return OptV(known(i), StrV(ptext(i)))
        C["simfil::StringPool::resolve"] = resolve
        C["simfil::raise"] = self.c_raise
        C["simfil::Expr::eval"] = self.child_eval
        C["simfil::UnaryOperatorDispatcher::dispatch"] = self.c_unary
        C["simfil::BinaryOperatorDispatcher::dispatch"] = self.c_binary
        C["simfil::valueType2String"] = lambda ex, f, t, A: StrV(z3.Const(ex.fresh_name("text"), Str))
        for nm in ("simfil::IRangeType::make",):
            pass
        B = ex.builtins
        B["std::chrono::_V2::steady_clock::now"] = B["std::chrono::steady_clock::now"] = lambda ex, fid, this, x, n: OpaqueV("time")
        for nm in ("std::chrono::operator-", "std::chrono::duration_cast"): B[nm] = lambda ex, fid, this, x, n: OpaqueV("time")
        C["fmt::format"] = lambda ex, f, t, A: StrV(z3.Const(ex.fresh_name("text"), Str))
        ex.ctor_models["fmt::basic_format_string"] = lambda ex, tid, x, n: ex.load(x[0])
        for nm in ("IRangeType", "ReType"): C[f"simfil::{nm}::make"] = self.c_tmake
        def tcopy(ex, f, t, A):
            v = ex.load(A[0])
            if not isinstance(v, TObj): raise Unsupported("TransientObject")
            ex.set(t, v); return VOID
        C["simfil::TransientObject::TransientObject"] = tcopy
        C["simfil::split"] = C["simfil::(anonymous namespace)::split"] = self.c_split

    def ov_value(self, lv):
        d = self.ex.get(lv).data; K = self.keys
        t = ovval(d["base"].t, d[K["Sum"]].t, d[K["Value"]].t, d[K["Index"]].t)
        self.ex.assume(z3.And(vnode(t) != NILN, tag(t) == self.enum["Object"]))
        return self.known_val(t)

    def sid(self, t):
        self.ex.assume(z3.And(t >= 0, t < 65536)); return I(t, 16, False)

    def c_raise(self, ex, fid, this, args):
        ta = self.a.decls[fid].get("targs") or []
        raise CppThrow(self.a.recname(ta[0]["t"]) if ta and "t" in ta[0] else "?")

    def c_tmake(self, ex, fid, this, args):
        """a value of a user-defined type: determined by the arguments (or an error)"""
        ts = []
        for x in args:
            v = ex.load(x)
            ts.append(v.t if isinstance(v, I) else to_str(ex, v))
        nm = self.a.decls[self.a.decls[fid]["parent"]]["n"]
        if nm == "ReType" and ex.branch(F("make_fails_" + nm, *[t.sort() for t in ts], BOOL)(*ts)):
            self.fail("std::regex_error")
        return self.of("TransientObject", F("make_" + nm, *[t.sort() for t in ts], Obj)(*ts))

    def c_split(self, ex, fid, this, args):
        """the pieces of a string: a sequence determined by the arguments"""
        a, b = (to_str(ex, ex.load(x)) for x in args[:2]); r = ex.load(args[2])
        n = SPN(a, b, r); ex.assume(z3.And(n >= 0, n < LIMN))
        return PiecesV(a, b, r, n)

    def fail(self, what):
        """an operand's own error"""
        self.gset(failed=z3.BoolVal(True))
        raise CppThrow("std::runtime_error", what)

    def opname(self, fid):
        d = self.a.decls[self.a.decls[fid]["parent"]]
        return self.a.recname(d["targs"][0]["t"])

    def un(self, op, v):
        """(result, fails) of a unary operator on a term"""
        ex, E = self.ex, self.enum
        if op.endswith("::OperatorBool"): return z3.If(tag(v) == E["Undef"], UNDEF, mkbool(truth(v))), z3.BoolVal(False)
        return F("un_" + op, Val, Val)(v), F("unfails_" + op, Val, BOOL)(v)

    def c_unary(self, ex, fid, this, args):
        v = ex.load(args[0]).t; op = self.opname(fid)
        if op.endswith("::OperatorBool"):
            if ex.branch(tag(v) == self.enum["Undef"]): return AVal(UNDEF)
            return self.of("Bool", truth(v))
        r, e = self.un(op, v)
        ex.assume(z3.Implies(tag(v) == self.enum["Undef"], z3.And(r == UNDEF, z3.Not(e))))
        if ex.branch(e): self.fail("operator")
        return self.known_val(r)

    def bin(self, op, l, r): return F("bin_" + op, Val, Val, Val)(l, r), F("binfails_" + op, Val, Val, BOOL)(l, r)

    def c_binary(self, ex, fid, this, args):
        l, r = ex.load(args[0]).t, ex.load(args[1]).t; op = self.opname(fid)
        x, e = self.bin(op, l, r)
        u = z3.Or(tag(l) == self.enum["Undef"], tag(r) == self.enum["Undef"])
        ex.assume(z3.Implies(u, z3.And(x == UNDEF, z3.Not(e))))
        if ex.branch(e): self.fail("operator")
        return self.known_val(x)

    def virtual(self, ex, fid, this, args, n):
        v = ex.peek(this); nm = self.a.decls[fid]["n"]
        if isinstance(v, OpaqueV) and v.tag == "consumer": return self.consumer(args)
        if isinstance(v, NodeV): return self.node_call(v.t, nm, args)
        if isinstance(v, ExprV):
            if nm == "toString": return StrV(estr(v.c))
            if nm == "constant": return F("expr_constant", INT, BOOL)(v.c)
            raise Unsupported("Expr::" + nm)
        if isinstance(v, OpaqueV) and v.tag == "meta": return self.meta_call(v.data, nm, args)
        if isinstance(v, OpaqueV) and v.tag == "function":
            if nm == "eval": return self.deliver(FNID, args[0], args[1], args[3], False)
            raise Unsupported("Function::" + nm)
        if isinstance(v, OpaqueV) and v.tag == "debug": return VOID
        return NotImplemented

    def node_call(self, t, nm, args):
        ex = self.ex
        if nm == "type":
            ex.assume(z3.And(ntag(t) >= 0, ntag(t) < len(self.enum))); return I(ntag(t), *self.tagw)
        if nm == "size":
            ex.assume(z3.And(nsize(t) >= 0, nsize(t) < 2 ** 31)); return I(nsize(t), 32, False)
        if nm == "get": return NP(nget(t, ex.load(args[0]).t))
        if nm == "at": return NP(nat(t, ex.load(args[0]).t))
        if nm == "keyAt": return self.sid(nkey(t, ex.load(args[0]).t))
        if nm == "fieldNames": return NamesV(t)
        if nm == "iterate":
            cb = args[0]
            ex.assume(z3.And(nsize(t) >= 0, nsize(t) < 2 ** 31))
            k = self.loop("node", None, None, t, nsize(t), lambda i: self.call_cb(cb, [ex.new_lv(NodeV(self.child(t, i)), "child")]))
            return z3.BoolVal(not k)
        raise Unsupported("ModelNode::" + nm)

    def child(self, t, i):
        c = nchild(t, i)
        self.ex.assume(c != NILN)
        return c

    def call_cb(self, cb, args):
        """True if the callback asks to stop"""
        ex = self.ex
        v = ex.load(cb)
        if isinstance(v, (ClosV, FnV)): r = ex.call_closure(v, args)
        elif isinstance(v, StructV):
            op = next((m for m in self.a.decls[v.rec].get("methods", []) if self.a.decls[m].get("oo") == "()" and m in self.a.funcs), None)
            if op is None: raise Unsupported("callback")
            r = ex.call(op, cb, args)
        else: raise Unsupported("callback")
        r = ex.load(r)
        if isinstance(r, z3.BoolRef): return not ex.branch(r)
        if isinstance(r, I): return ex.branch(r.t == self.res_enum["Stop"])
        raise Unsupported("callback result")

    def meta_call(self, obj, nm, args):
        ex = self.ex
        if nm == "unpack":
            cb = args[1]
            ex.assume(z3.And(UN(obj) >= 0, UN(obj) < LIMN))
            if not self.loop("unpack", None, None, obj, UN(obj), lambda i: self.call_cb(cb, [self.known_val(UX(obj, i))])) and ex.branch(F("unpack_fails", Obj, BOOL)(obj)): self.fail("unpack")
            return VOID
        if nm in ("unaryOp", "binaryOp"):
            ts = []
            for x in args:
                v = ex.load(x)
                if isinstance(v, AVal): ts.append(v.t)
                elif isinstance(v, TObj): ts.append(v.t)
                else: ts.append(to_str(ex, v))
            r, e = metaop(nm, ts)
            if ex.branch(e): self.fail("operator")
            return self.known_val(r)
        raise Unsupported("MetaType::" + nm)

    # ------------------------------------------------------------ streams
    def ctx_phase(self, ctx):
        c = self.ex.load(ctx)
        if not isinstance(c, StructV): raise Unsupported("Context")
        return c.fields["phase"].t, c.fields["env"]

    def g(self): return self.ex.get(self.G).data
    def gset(self, **kw): self.ex.set(self.G, OpaqueV("ghost", {**self.g(), **kw}))

    def same_ctx(self, ctx, what):
        ph, env = self.ctx_phase(ctx)
        self.ex.check(ph == self.ph, f"{what} in the phase of the evaluation", "C10")
        self.ex.check(z3.BoolVal(isinstance(env, P) and env.lv is not None and env.lv.root is self.env.root), f"{what} in the environment of the evaluation", "C09")

    def child_eval(self, ex, fid, this, args):
        v = ex.get(this)
        if not isinstance(v, ExprV): raise Unsupported("Expr::eval of " + type(v).__name__)
        return self.deliver(v.c, args[0], args[1], args[2], True)

    def deliver(self, c, ctx, val, res, nonempty):
        """the contract of a subexpression's or function's eval"""
        ex = self.ex
        self.same_ctx(ctx, "subexpressions are evaluated")
        v = ex.load(val)
        if not isinstance(v, AVal): raise Unsupported("value of eval")
        ph, v = self.ph, v.t
        n = N(c, ph, v)
        ex.assume(z3.And(n >= 0, n < LIMN))
        if nonempty: ex.assume(z3.Or(ERR(c, ph, v), n >= 1))
        def one(i):
            x = X(c, ph, v, i); self.known_val(x)
            self.active[-1]["x"] = x
            self.delivered(x)
            ph2 = ex.load(ctx)
            r = self.call_virtual_res(res, ph2, AVal(x))
            return ex.branch(r.t == self.res_enum["Stop"])
        stopped = self.loop("child", c, v, None, n, one)
        if stopped: return I(z3.IntVal(self.res_enum["Stop"]), *self.resw)
        if ex.branch(ERR(c, ph, v)): self.fail("child")
        return I(z3.IntVal(self.res_enum["Continue"]), *self.resw)

    def delivered(self, x):
        g = self.g(); ex = self.ex
        d = g["del"].t + 1
        ex.assume(d < LIMN)
        self.gset(**{"del": I(d, 64, True), "taint": z3.Or(g["taint"], self.bare_undef(x)), "du": z3.Or(g["du"], tag(x) == self.enum["Undef"])})

    def bare_undef(self, x): return z3.And(tag(x) == self.enum["Undef"], vnode(x) == NILN)

    def call_virtual_res(self, res, ctx, v):
        ex = self.ex
        p = ex.load(res) if isinstance(res, LV) else res
        if isinstance(p, OpaqueV) and p.tag == "consumer": return self.consumer([ctx, v])
        if isinstance(p, StructV):
            base = next((m for m in self.a.decls[p.rec].get("methods", []) if self.a.decls[m].get("oo") == "()"), None)
            if base is None: raise Unsupported("result function")
            lv = res if isinstance(res, LV) else ex.new_lv(p, "res")
            return ex.load(ex.call(base, lv, [ctx, v]))
        raise Unsupported("result function " + type(p).__name__)

    def consumer(self, args):
        ex = self.ex
        v = ex.load(args[1]).t
        g = self.g()
        ex.check(z3.Not(g["S"]), "no value is delivered after the consumer asked to stop", "C09")
        self.same_ctx(args[0], "values are delivered")
        und = self.bare_undef(v)
        if self.mode == "spec" and self.phase == self.PH["Compilation"]:
            ex.check(z3.Or(und, g["U"], z3.Not(g["taint"])), "nothing is delivered after an undefined operand but undefined", "C10")
            for nm, f in self.frontier():
                ex.check(z3.Implies(z3.And(und, z3.Not(g["U"])), f()), "what precedes an undefined value is what evaluation delivers", "C10")
        stop = z3.Bool(ex.fresh_name("stop")) if self.mode == "proto" else z3.BoolVal(False)
        cnt = g["cnt"].t + 1
        ex.assume(cnt < LIMN)
        self.gset(T=OpaqueV("trace", Trace.app(g["T"].data, v)), E=z3.BoolVal(True), S=stop, cnt=I(cnt, 64, True), U=z3.Or(g["U"], und))
        R = self.res_enum
        return I(z3.If(stop, z3.IntVal(R["Stop"]), z3.IntVal(R["Continue"])), *self.resw)

    def frontier(self):
        """what has been delivered so far is what evaluation delivers for the values seen so far"""
        sem = self.sem
        def f():
            T = self.g()["T"].data
            if not self.active: return T == Trace.nil
            cs = []
            for i, en in enumerate(self.active):
                up = self.active[i - 1] if i else None
                t = sem.at(en, up, en["T0"], self.ex.get(en["k"]).t)
                if t is None: t = en["T0"]
                cs.append((self.active[i + 1]["T0"] if i + 1 < len(self.active) else T) == t)
            cs.append(self.active[0]["T0"] == sem.root(self.active[0]["c"]))
            return z3.Or(T == Trace.nil, z3.And(*cs))
        return [("frontier", f)]

    # ------------------------------------------------------------ loops
    def loop(self, kind, c, v, src, n, one):
        """for k in 0..n-1: one(k); true if one asked to stop"""
        ex = self.ex
        kr = ex.new_lv(I(z3.IntVal(0), 64, True), "k")
        st = {"stop": False}
        if c is None and kind == "child": raise Unsupported("stream")
        ent = {"kind": kind, "c": c, "v": v, "src": src, "k": kr, "T0": self.g()["T"].data, "n": n, "x": None}
        ent["outer"] = self.active[-1]["x"] if self.active else None; ent["up"] = self.active[-1] if self.active else None
        def cond():
            st["stop"] = False
            return ex.get(kr).t < n
        def body():
            self.active.append(ent)
            try:
                s = one(ex.get(kr).t)
            except CppThrow:
                if not self.err_active: self.err_active = list(self.active)
                raise
            finally:
                self.active.remove(ent)
            if s:
                st["stop"] = True
                raise BreakEx()
        def inc(): ex.set(kr, I(z3.simplify(ex.get(kr).t + 1), 64, True))
        node = {"k": "Stream", "l": f"{kind}{c if c is not None else ''}"}
        ex.loop(node, cond, body, inc, extra={"ent": ent})
        if st["stop"] and self.sem is not None and self.sem.after_stop is not None:
            l = self.sem.after_stop(ent, ex.get(kr).t)
            if l is not None: ex.assume(l)
        return st["stop"]

    def lengths(self):
        """lengths of the sequences at hand"""
        ex, out = self.ex, []
        if self.count is not None: out.append(("count", self.count))
        for fr in ex.frames:
            for nm, lv in fr.vars.items():
                v = ex.peek(lv) if isinstance(lv, LV) else lv
                if isinstance(v, PiecesV): out.append(("pieces", v.n))
                if isinstance(v, NamesV): out.append(("names", nsize(v.node)))
        return out[:3]

    def positions(self, ctx):
        """(name, () -> position, the sequence or None): the variables that may run over a sequence"""
        ex = self.ex
        out = []
        idx = ctx.extra.get("index"); ent = ctx.extra.get("ent")
        if idx is not None: out.append(("i", lambda: ex.get(idx).t, ex.get(ctx.extra["range"])))
        if ent: return out
        for lv in ctx.written(I):
            if lv.root.ord == self.G.root.ord or (idx is not None and lv.root is idx.root): continue
            out.append((f"{lv.root.name}{lv.path}", lambda lv=lv: ex.get(lv).t, None))
        for lv in ctx.written(IterV):
            it = ex.get(lv)
            if isinstance(it.idx, z3.ExprRef): out.append((f"{lv.root.name}{lv.path}", lambda lv=lv: ex.get(lv).idx, ex.get(it.cont)))
        return out

    def candidates(self, ex, ctx):
        out = []
        g = self.g
        ent = ctx.extra.get("ent")
        if ent: out.append(("k >= 0", lambda: ex.get(ent["k"]).t >= 0)); out.append(("k <= n", lambda: ex.get(ent["k"]).t <= z3.If(ent["n"] >= 0, ent["n"], 0)))
        idx = ctx.extra.get("index")
        for pn, pi, rng in self.positions(ctx):
            out.append((f"{pn} >= 0", lambda pi=pi: pi() >= 0))
            for ln, n in ([("n", ex.seq_len(rng))] if rng is not None else self.lengths()): out.append((f"{pn} <= {ln}", lambda pi=pi, n=n: pi() <= n))
            out.append((f"emitted after the first at {pn}", lambda pi=pi: z3.Or(pi() == 0, g()["E"])))
        out.append(("not stopped", lambda: z3.Not(g()["S"])))
        E0 = g()["E"]; S0 = g()["S"]
        out.append(("once emitted, emitted", lambda: z3.Implies(E0, g()["E"])))
        out.append(("stop was not lost", lambda: z3.Implies(S0, g()["S"])))
        out.append(("emitted counts", lambda: g()["E"] == (g()["cnt"].t > 0)))
        out.append(("stopped after a value", lambda: z3.Implies(g()["S"], g()["E"])))
        out.append(("cnt >= 0", lambda: g()["cnt"].t >= 0))
        out.append(("delivered >= 0", lambda: g()["del"].t >= 0))
        d0 = g()["del"].t
        out.append(("delivered grows", lambda: g()["del"].t >= d0))
        if ent: out.append(("emitted after the first", lambda: z3.Or(ex.get(ent["k"]).t == 0, g()["E"])))
        out.append(("trace", lambda: g()["E"] == (g()["T"].data != Trace.nil)))
        gr = self.G.root.ord
        for lv in ctx.written(z3.BoolRef):
            if lv.root.ord == gr: continue
            nm = f"{lv.root.name}{lv.path}"
            b = lambda lv=lv: ex.get(lv)
            b0 = ex.get(lv)
            out.append((f"{nm} == emitted", lambda b=b: b() == g()["E"])); out.append((f"{nm} == stopped", lambda b=b: b() == g()["S"])); out.append((f"{nm} == not stopped", lambda b=b: b() == z3.Not(g()["S"])))
            out.append((f"{nm} unchanged", lambda b=b, b0=b0: b() == b0)); out.append((f"not {nm}", lambda b=b: z3.Not(b()))); out.append((nm, lambda b=b: b()))
            out.append((f"{nm} == tainted", lambda b=b: b() == g()["taint"]))
        for lv in ctx.written(I):
            if lv.root.ord == gr or (ent and lv.root is ent["k"].root) or (idx is not None and lv.root is idx.root): continue
            nm = f"{lv.root.name}{lv.path}"
            x = lambda lv=lv: ex.get(lv).t
            x0 = ex.get(lv).t
            out.append((f"{nm} zero iff nothing emitted", lambda x=x: (x() == 0) == z3.Not(g()["E"])))
            out.append((f"{nm} == cnt", lambda x=x: x() == g()["cnt"].t))
            R = self.res_enum
            out.append((f"{nm} Stop iff stopped", lambda x=x: (x() == R["Stop"]) == g()["S"]))
            out.append((f"{nm} is a result", lambda x=x: z3.Or(x() == R["Stop"], x() == R["Continue"])))
            out.append((f"{nm} unchanged", lambda x=x, x0=x0: x() == x0))
            out.append((f"0 <= {nm} <= delivered", lambda x=x: z3.And(x() >= 0, x() <= g()["del"].t)))
            out.append((f"-1 <= {nm} <= delivered", lambda x=x: z3.And(x() >= -1, x() <= g()["del"].t - 1)))
            if ent:
                out.append((f"{nm} counts", lambda x=x, x0=x0: x() == x0 + ex.get(ent["k"]).t))
        out += self.more(ex, ctx, ent, idx)
        return out, []

    def more(self, ex, ctx, ent, idx):
        sem = self.sem
        if sem is None: return []
        out = []
        g = self.g
        T0 = g()["T"].data
        T = lambda: g()["T"].data
        out.append(("T unchanged", lambda: T() == T0))
        out.append(("nothing failed", lambda: z3.Not(g()["failed"])))
        for fl in ("du", "taint", "U"): out.append((f"{fl} stays", lambda fl=fl, x=g()[fl]: z3.Implies(x, g()[fl])))
        rng = None
        if ent:
            k = lambda: ex.get(ent["k"]).t
            up = ent["up"]
            if sem.at(ent, up, T0, z3.IntVal(0)) is not None: out.append(("T == values so far", lambda: T() == sem.at(ent, up, T0, k())))
        poss = self.positions(ctx)
        for pn, i, rng in poss:
            if sem.index is not None: out.append((f"T == elements up to {pn}", lambda i=i: T() == sem.index(T0, i())))
            if sem.names is not None and isinstance(rng, NamesV): out.append((f"T == names so far up to {pn}", lambda i=i, rng=rng: T() == sem.names(T0, rng.node, i())))
        argpos = [(pn, i) for pn, i, rng in poss if rng is None or isinstance(rng, ArgsV)]
        stream = ent if ent and ent["kind"] == "child" else None
        gr = self.G.root.ord
        if sem.qb is not None:
            for lv in ctx.written(z3.BoolRef):
                if lv.root.ord == gr: continue
                b = lambda lv=lv: ex.get(lv); b0 = b()
                nm = f"{lv.root.name}{lv.path}"
                if stream: out.append((f"{nm} decides the values left", lambda b=b, b0=b0: sem.comb(b0, sem.qb(stream["c"], stream["v"], z3.IntVal(0))) == sem.comb(b(), sem.qb(stream["c"], stream["v"], k()))))
                for pn, i in argpos: out.append((f"{nm} decides the arguments left from {pn}", lambda b=b, i=i: sem.qa(z3.IntVal(0)) == sem.comb(b(), sem.qa(i()))))
        for lv in ctx.written(I):
            if lv.root.ord == gr: continue
            x = lambda lv=lv: ex.get(lv).t; x0 = x()
            nm = f"{lv.root.name}{lv.path}"
            if sem.names is not None and self.active and self.active[-1]["x"] is not None:
                nd = vnode(self.active[-1]["x"])
                out.append((f"0 <= {nm} <= size", lambda x=x, nd=nd: z3.And(x() >= 0, x() <= nsize(nd))))
                out.append((f"T == names up to {nm}", lambda x=x, nd=nd: T() == sem.names(T0, nd, x())))
            if sem.cc is not None and stream: out.append((f"{nm} counts true values", lambda x=x, x0=x0: x() == x0 + sem.cc(stream["c"], stream["v"], k())))
            if sem.cc is not None:
                for pn, i in argpos:
                    if pn != nm: out.append((f"{nm} counts over arguments up to {pn}", lambda x=x, i=i: x() == sem.ca(i())))
        for lv in ctx.written(AVal):
            if lv.root.ord == gr: continue
            c = lambda lv=lv: ex.get(lv).t; c0 = c()
            nm = f"{lv.root.name}{lv.path}"
            if stream:
                out.append((f"{nm} == last value", lambda c=c, c0=c0: c() == z3.If(k() <= 0, c0, X(stream["c"], self.ph, stream["v"], k() - 1))))
                out.append((f"type of {nm}", lambda c=c: z3.And([z3.Implies(k() >= 1, tag(c()) != self.enum["Undef"])])))
                for kd in ("Int", "String", "Bool"):
                    out.append((f"{nm} is {kd}", lambda c=c, kd=kd: z3.Implies(k() >= 1, tag(c()) == self.enum[kd])))
                if sem.acc is not None: out.append((f"{nm} == folded so far", lambda c=c: c() == sem.acc(k())))
            out.append((f"{nm} unchanged", lambda c=c, c0=c0: c() == c0))
        if stream: out.append(("single value", lambda: k() <= 1))
        if self.phase == self.PH["Compilation"]:
            D = lambda: z3.Or(g()["taint"], g()["U"])
            ghost = ("nothing failed", "T unchanged", "du stays", "taint stays", "U stays")
            out = [(nm, f) for nm, f in out if nm in ghost] + [(nm + " (unless undefined)", lambda f=f: z3.Or(D(), f())) for nm, f in out if nm not in ghost[:1]]
            out.append(("taint shows", lambda: z3.Implies(g()["taint"], g()["U"])))
            out.append(("not tainted", lambda: z3.Not(g()["taint"])))
            out.append(("nothing undefined delivered", lambda: z3.Not(g()["U"])))
        return out

    def subscript_ops(self): return self.ops_named("OperatorSubscript")
    def add_ops(self): return self.ops_named("OperatorAdd")
    def ops_named(self, nm): return ["simfil::" + nm]

    # ------------------------------------------------------------ recursion over the tree of nodes
    REC = None
    def node_param(self, fid):
        """index of the parameter that is a node, if it is a function that walks nodes"""
        for i, p in enumerate(self.a.funcs[fid]["params"]):
            ty = self.a.T(p["t"])
            if ty["k"] == "ref": ty = self.a.T(ty["to"])
            if ty.get("n") == "simfil::ModelNode": return i
        return None

    def contract_result(self, fid, H, ctx, T0, node, g0):
        """the effect of a call of the recursive function: what it writes, under its postcondition"""
        ex = self.ex
        ex.havoc_set(H, ctx)
        r = ex.fresh(self.a.decls[fid]["ret"], "walk")
        for nm, f in self.rec_post(ctx, T0, node, g0): ex.assume(f(r))
        return r

    def rec_ints(self, ctx):
        gr = self.G.root.ord
        return [lv for lv in ctx.written(I) if lv.root.ord != gr]

    def rec_pre(self, ctx):
        ex, g = self.ex, self.g
        out = [("not stopped", lambda: z3.Not(g()["S"])), ("nothing failed", lambda: z3.Not(g()["failed"])), ("emitted counts", lambda: g()["E"] == (g()["cnt"].t > 0)), ("cnt", lambda: g()["cnt"].t >= 0), ("trace", lambda: g()["E"] == (g()["T"].data != Trace.nil))]
        for lv in self.rec_ints(ctx): out.append((f"{lv.root.name} counts", lambda lv=lv: z3.And((ex.get(lv).t == 0) == z3.Not(g()["E"]), ex.get(lv).t >= 0, ex.get(lv).t <= g()["cnt"].t)))
        return out

    def rec_post(self, ctx, T0, node, g0):
        ex, g, R = self.ex, self.g, self.res_enum
        out = [("stopped after a value", lambda r: z3.Implies(g()["S"], g()["E"])), ("emitted counts", lambda r: g()["E"] == (g()["cnt"].t > 0)), ("cnt", lambda r: g()["cnt"].t >= g0["cnt"].t), ("grows", lambda r: z3.Implies(g0["E"], g()["E"])),
               ("trace", lambda r: g()["E"] == (g()["T"].data != Trace.nil)),
               ("stops", lambda r: (r.t == R["Stop"]) == g()["S"]), ("result", lambda r: z3.Or(r.t == R["Stop"], r.t == R["Continue"]))]
        for lv in self.rec_ints(ctx): out.append((f"{lv.root.name} counts", lambda r, lv=lv: z3.And((ex.get(lv).t == 0) == z3.Not(g()["E"]), ex.get(lv).t >= 0, ex.get(lv).t <= g()["cnt"].t)))
        if self.mode == "spec":
            out.append(("not stopped", lambda r: z3.Not(g()["S"]))); out.append(("nothing failed", lambda r: z3.Not(g()["failed"])))
            out.append(("walks the tree below the node", lambda r: g()["T"].data == self.walk(T0, node)))
        return out

    def recurse(self, ex, fid, this, args, clos=None):
        i = self.node_param(fid)
        if i is None: return NotImplemented
        nm = self.a.fname(fid)
        if not any(fr.fid == fid for fr in ex.frames):
            if self.REC is not None: return NotImplemented
            self.REC, self.recursive = "probe", False
            ex.explore_nested(lambda: ex.inline(fid, this, self.anyargs(fid, args, i), clos))
            self.REC = None
            if not self.recursive: return NotImplemented
            return self.rec_first(fid, this, args, i, clos)
        node = ex.load(args[i])
        if not isinstance(node, NodeV): raise Unsupported("recursion over something else")
        if self.REC is None: return NotImplemented
        if self.REC == "probe":
            self.recursive = True
            raise PathEnd()
        H, ctx = self.REC
        if H is None: raise Unsupported("recursion")
        g0 = self.g()
        for x, f in self.rec_pre(ctx): ex.check(f(), f"{nm}: recursive call: {x}", "C09")
        return self.contract_result(fid, H, ctx, g0["T"].data, node.t, g0)

    def anyargs(self, fid, args, i):
        """arguments of an arbitrary call: any node, any depth of nesting"""
        ex = self.ex
        out = []
        for k, (x, p) in enumerate(zip(args, self.a.funcs[fid]["params"])):
            if k == i:
                t = z3.Const("any_node", Node); ex.assume(t != NILN); out.append(ex.new_lv(NodeV(t), "node"))
            elif isinstance(ex.load(x), I):
                v = ex.ifresh("depth", ex.load(x).w, ex.load(x).sg); ex.assume(z3.And(v.t >= 0, v.t < LIMN)); out.append(v)
            else: out.append(x)
        return out

    def rec_first(self, fid, this, args, i, clos):
        ex = self.ex
        from .core import LoopCtx
        nm = self.a.fname(fid)
        node = ex.load(args[i])
        if not isinstance(node, NodeV): raise Unsupported("walk over something else")
        n = {"k": "Rec", "l": nm}
        anyargs = lambda: self.anyargs(fid, args, i)
        H = set()
        for _ in range(8):
            ctx = LoopCtx(ex, n, H, {}); self.REC = (H, ctx)
            def body():
                ex.havoc_set(H, ctx)
                ex.inline(fid, this, anyargs(), clos)
            H2 = ex.loop_writes(n, lambda: z3.BoolVal(True), body, None, None, H)
            if H2 == H: break
            H = H2
        else: raise Unsupported("write set of a recursion does not stabilise")
        ctx = LoopCtx(ex, n, H, {}); self.REC = (H, ctx)
        if ex.choose(2) == 0:
            # its body, for every node and every state it may be called in
            ex.havoc_set(H, ctx)
            for x, f in self.rec_pre(ctx): ex.assume(f())
            a = anyargs(); g0 = self.g(); nd = ex.load(a[i]).t
            self.active, act = [], self.active
            try: r = ex.load(ex.inline(fid, this, a, clos))
            except CppThrow as e:
                if not g0.get("failed"): ex.check(z3.Not(self.g()["S"]), f"{nm}: no error after the consumer asked to stop", "C09")
                raise PathEnd()
            for x, f in self.rec_post(ctx, g0["T"].data, nd, g0): ex.check(f(r), f"{nm}: {x}", self.post_tag(x))
            raise PathEnd()
        g0 = self.g()
        for x, f in self.rec_pre(ctx): ex.check(f(), f"{nm}: call: {x}", "C09")
        r = self.contract_result(fid, H, ctx, g0["T"].data, node.t, g0)
        self.REC = None
        return r

    def post_tag(self, x): return "C21" if x.startswith("walks") else "C09"

    # ------------------------------------------------------------ the run
    def start(self, ex):
        self.axioms()
        self.active = []; self.err_active = []; self.sem = None; self.REC = None; self.nchildren = 0; self.name = None; self.ids = []; self.count = None
        self.G = ex.new_lv(OpaqueV("ghost", {"T": OpaqueV("trace", Trace.nil), "S": z3.BoolVal(False), "E": z3.BoolVal(False), "cnt": I(z3.IntVal(0), 64, True), "del": I(z3.IntVal(0), 64, True),
                                             "taint": z3.BoolVal(False), "U": z3.BoolVal(False), "failed": z3.BoolVal(False), "du": z3.BoolVal(False)}), "ghost")
        self.env = ex.new_lv(OpaqueV("env", {"stringPool": P(ex.new_lv(OpaqueV("pool"), "pool")), "debug": P(ex.new_lv(OpaqueV("debug"), "debug"), null=z3.BoolVal(True))}), "env")
        cr = self.a.rec_by_name.get("simfil::Context", [None])[0]
        if cr is None: raise Unsupported("class Context")
        if self.phase is None:
            ph = z3.Int("phase"); ex.assume(z3.Or(*[ph == x for x in self.PH.values()]))
        else: ph = z3.IntVal(self.phase)
        self.ph = ph
        pf = next(f for f in self.a.decls[cr]["fields"] if f["n"] == "phase")
        pt = self.a.T(pf["t"])
        self.ctx = StructV(cr, {"env": P(self.env), "phase": I(ph, pt["w"], pt.get("sg", False))})
        self.val = z3.Const("val", Val)
        self.known_val(self.val)
        self.res = ex.new_lv(OpaqueV("consumer"), "consumer")

    def this_value(self, ex):
        """the object, as its constructor makes it from subexpressions numbered -1, -2, ... in the order of the parameters"""
        rec = self.a.decls[self.fid]["parent"]
        if self.a.fname(self.fid) == "simfil::Expr::eval": return ExprV(z3.IntVal(-1))
        if self.is_fn(): return StructV(rec, {})
        a = self.a
        best = None
        for m in a.decls[rec].get("methods", []):
            d = a.decls[m]
            if d["dk"] != "CXXConstructor" or m not in a.funcs or d.get("ctor") in ("copy", "move"): continue
            vs = [self.ctor_arg(p, k) for k, p in enumerate(d["params"])]
            if any(v is None for v in vs): continue
            if best is None or len(vs) > len(best[1]): best = (m, vs)
        if best is None: raise Unsupported(f"constructor of {a.decls[rec]['n']}")
        this = ex.new_lv(None, "this", None)
        ex.set(this, StructV(rec, {}))
        ex.inline(best[0], this, [ex.new_lv(v(), "arg") for v in best[1]])
        def fields(r):
            for b in self.a.decls[r].get("bases", []):
                yield from fields(self.a.T(b)["d"])
            yield from self.a.decls[r].get("fields", [])
        self.ids = []
        for f in fields(rec):
            ty = a.T(f["t"])
            if not f.get("mut") and not ("mutable" in f): pass
            if ty["k"] == "ptr": ex.set(this.sub(f["n"]), P(ex.new_lv(OpaqueV("function"), f["n"]), null=z3.Bool("not_resolved")))
            elif ty["k"] == "int" and ty["w"] == 16 and self.name is not None:
                x = ex.ifresh("this." + f["n"], ty["w"], ty["sg"])
                ex.set(this.sub(f["n"]), x); ex.assume(z3.Or(x.t == 0, x.t == poolid(self.name)))      # the id it has looked up
                self.ids.append(f["n"])
        self.this = this
        return ex.get(this)

    def ctor_arg(self, p, k):
        a, ex = self.a, self.ex
        ty = a.T(p["t"])
        if ty["k"] == "ref": ty = a.T(ty["to"])
        nm = ty.get("n")
        def expr(): self.nchildren += 1; return P(ex.new_lv(ExprV(z3.IntVal(-self.nchildren)), "child"))
        def name(): self.name = z3.Const("this.name", Str); return StrV(self.name)
        if nm == "std::unique_ptr": return expr
        if nm == "std::basic_string": return name
        if nm == "simfil::Value": return lambda: self.known_val(z3.Const("this.constant", Val))
        if nm == "simfil::Token":
            def tok():
                d = a.decls[ty["d"]]
                fs = {}
                for f in d["fields"]:
                    fv = ex.fresh(f["t"], "token." + f["n"])
                    if isinstance(fv, VarV):
                        n = next(i for i, t in enumerate(fv.alts) if a.T(t).get("n") == "std::basic_string") if fv.alts and not isinstance(fv.alts[0], dict) else None
                        if n is None: raise Unsupported("Token")
                        fv = VarV(fv.alts, z3.IntVal(n), {n: name()})
                    fs[f["n"]] = fv
                return StructV(ty["d"], fs)
            return tok
        if nm == "std::vector":
            et = a.T(a.decls[ty["d"]]["targs"][0]["t"])
            def vec():
                n = z3.Int("this.count"); self.count = n
                ex.assume(z3.And(n >= 0, n < LIMN))
                if et.get("n") == "simfil::Value":
                    ex.assume(n >= 1)      # checked where it is constructed
                    return ValsV(n)
                return ArgsV(n)
            return vec
        return None

    def is_fn(self): return self.a.fname(self.fid).endswith("::eval") and len(self.a.decls[self.fid]["params"]) == 4

    def run_proto(self):
        ex = self.ex
        nm = self.a.fname(self.fid)
        ex.stats.functions.append(nm)
        def run(ex):
            self.start(ex)
            this = ex.new_lv(self.this_value(ex), "this")
            if self.is_fn():
                n = z3.Int("args.size"); ex.assume(z3.And(n >= 0, n < LIMN)); self.count = n
                args = [self.ctx, AVal(self.val), ex.new_lv(ArgsV(n), "args"), self.res]
            else: args = [self.ctx, AVal(self.val), self.res]
            try:
                r = ex.load(ex.inline(self.fid, this, args))
            except CppThrow as e:
                ex.check(z3.Not(self.g()["S"]), f"{nm}: no error after the consumer asked to stop", "C09")
                return
            self.end_proto(nm, r)
        ex.explore(run, cover=nm)

    def run_spec(self, tagname):
        from .evspec import Sem
        ex = self.ex
        nm = self.a.fname(self.fid)
        ex.stats.functions.append(nm)
        par = self.a.decls[self.a.decls[self.fid]["parent"]]
        op = None
        if par.get("targs") and "t" in par["targs"][0]: op = self.a.recname(par["targs"][0]["t"])
        comp = self.phase == self.PH["Compilation"]
        self.tagname = tagname
        def run(ex):
            self.start(ex)
            this = ex.new_lv(self.this_value(ex), "this")
            if self.is_fn():
                n = z3.Int("args.size"); ex.assume(z3.And(n >= 0, n < LIMN)); self.count = n
                args = [self.ctx, AVal(self.val), ex.new_lv(ArgsV(n), "args"), self.res]
            else: args = [self.ctx, AVal(self.val), self.res]
            sem = self.sem = Sem(self, par["n"], op)
            try:
                ex.load(ex.inline(self.fid, this, args))
            except CppThrow as e:
                g = self.g()
                al = sem.allowed() if callable(sem.allowed) else sem.allowed
                ex.check(z3.Or(g["failed"], al), f"{nm}: an error is an operand's or one the definition asks for", tagname)
                return
            g = self.g()
            if comp:
                ex.check(z3.Implies(g["taint"], g["U"]), f"{nm}: an undefined operand makes the result undefined", tagname)
                if sem.needs_val: ex.check(z3.Implies(self.bare_undef(self.val), g["U"]), f"{nm}: an undefined value makes the result undefined", tagname)
                ex.check(z3.Or(g["U"], g["T"].data == sem.final), f"{nm}: without undefined operands delivers what evaluation delivers", tagname)
            else:
                und = z3.And(g["du"], g["T"].data == Trace.app(Trace.nil, UNDEF)) if sem.undef_ok else z3.BoolVal(False)
                ex.check(z3.Or(und, g["T"].data == sem.final), f"{nm}: delivers what its definition says", tagname)
            ex.check(z3.Not(g["failed"]), f"{nm}: an operand's error is reported", tagname)
            for f in self.ids:
                x = ex.get(this.sub(f)).t
                ex.check(z3.Or(x == 0, x == poolid(self.name)), f"{nm}: {f} is the id of the name", tagname)
        ex.explore(run, cover=nm)

    def end_proto(self, nm, r):
        ex, g, R = self.ex, self.g(), self.res_enum
        ex.check((r.t == R["Stop"]) == g["S"], f"{nm}: reports a stop exactly if its consumer asked for one", "C09")
        if not self.is_fn(): ex.check(g["E"], f"{nm}: delivers at least one value", "C09")
        ex.check(z3.Or(r.t == R["Stop"], r.t == R["Continue"]), f"{nm}: returns a result", "C09")


def targets(a):
    """(name, function id) of every expression class's and built-in function's evaluation"""
    out = []
    def derived(rec, base):
        return any(a.T(b).get("n") == base or derived(a.T(b)["d"], base) for b in a.decls[rec].get("bases", []) if "d" in a.T(b) and a.T(b)["d"] in a.decls)
    for fid in a.funcs:
        d = a.decls[fid]
        if d.get("parent") not in a.decls: continue
        p = d["parent"]
        if d.get("n") == "ieval" and derived(p, "simfil::Expr") or d.get("n") == "eval" and derived(p, "simfil::Function"):
            t = a.decls[p].get("targs")
            nm = a.fname(fid) + (f"<{a.recname(t[0]['t'])}>" if t and "t" in t[0] else "")
            out.append((nm.replace("simfil::", ""), fid))
    return sorted(out)


class Suite(BaseSuite):
    PROPS = ("C09", "C10", "C11", "C21")
    TU = "drivers/eval.cpp"
    HARNESS = ("eval", "harness/eval.cpp", ["src/exception-handler.cpp", "src/simfil.cpp", "src/parser.cpp", "src/function.cpp", "src/environment.cpp", "src/overlay.cpp", "src/types.cpp", "src/value.cpp", "src/token.cpp",
                                            "src/model/model.cpp", "src/model/nodes.cpp", "src/model/string-pool.cpp", "src/model/json.cpp"])
    ASSUME = ["what a subexpression delivers depends only on the expression, the phase and the value it is evaluated on (expressions keep no state between evaluations besides caches of their own name lookups)",
              "numbers of values and nesting depths stay below 2^31", "$sum seen by a $sum subexpression with several values is not modelled while the subexpression runs (the folding over the input's values is)",
              "operators, user-defined types, model nodes, string pool and overlay by their contracts (C05-C07, C12, C16, C19, C23); truth of range and regular expression values is true",
              "string_view::find returns a position that depends only on its arguments, within the text; compiled regular expressions are functions of their arguments", "Environment::warn and ::trace do not change what is delivered"]
    TRUST = TRUST + ["assumed contracts of std::function, std::unique_ptr, std::vector, std::string (vc/builtins.py, vc/ev.py)"]

    def tasks(self, prop):
        a = self.a
        out = []
        if prop == "C09": out += [(nm, lambda st, f=f: Eval(a, st, f, "proto").run_proto()) for nm, f in targets(a)]
        pe = {c["n"]: int(c["v"]) for d in a.decls.values() if d.get("dk") == "Enum" and d["qn"] == "simfil::Context::Phase" for c in d["consts"]}
        for nm, f in targets(a):
            for ph in pe:
                if prop == "C10" or ph == "Evaluation" and prop == spec_prop(nm):
                    out.append((f"{nm} ({ph})", lambda st, f=f, ph=ph: Eval(a, st, f, "spec", pe[ph]).run_spec(prop)))
        if prop == "C11":
            from . import split
            out += split.tasks(a)
        return out

    BATCH = 1500
    BOUNDED = "otherwise: random queries and documents on the real code, compared with a reference interpreter (vc/evalref.py)"
    def gen(self, prop, rng, hints): return R.lines(prop, rng)
    def judge(self, prop, line, out): return R.judge(prop, line, out)
    def shrink(self, prop, t, d): return R.shrink(self, prop, t, d)


def spec_prop(nm):
    cls = nm.split("::")[0]
    if cls.endswith("Fn"): return "C11"
    if cls in ("AndExpr", "OrExpr"): return "C07"
    return "C21"
