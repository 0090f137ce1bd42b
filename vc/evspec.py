"""What every expression class and built-in function delivers, as a function of what its subexpressions deliver.

For a subexpression c evaluated on a value v: N(c,ph,v) values X(c,ph,v,0..).  The sequences delivered are terms of the
datatype Trace; loops over a subexpression's values are folds."""
import z3
from .core import *
from .builtins import str_const
from . import ev as E
from .ev import Val, Node, Obj, INT, BOOL, F, Trace, app, N, X, UN, UX, ERR, tag, vnode, vint, vstr, vobj, vbo, truth, UNDEF, NULLV, NILN, mkbool, mkint, mkstr, mkobj, mkfield, ntag, nsize, nchild, nget, nat, nkey, poolid, known, ptext, IDF, UNF, FNID, ovval, SPN, SPX

If, And, Or, Not = z3.If, z3.And, z3.Or, z3.Not
nil = Trace.nil


class Sem:
    """semantics of one class; `ev` is the run"""
    def __init__(self, ev, cls, op):
        self.e, self.cls, self.op = ev, cls, op
        self.ph, self.val = ev.ph, ev.val
        self.u = f"{cls}{op or ''}{z3.simplify(ev.ph)}$"
        self.lemmas = []
        self.sel = None
        build = getattr(self, "m_" + cls, None)
        if build is None: raise Unsupported(f"no specification of {cls}")
        self.inner = {}     # child (or 'unpack' / 'node') -> fold below another subexpression: (T0, outer value, k) -> Trace
        self.outer = {}     # child -> fold: (T0, k) -> Trace
        self.allowed = z3.BoolVal(False)
        self.needs_val = False
        self.final = build()

    def t(self, k): return self.e.enum[k]
    def fold(self, name, sorts, item, step):
        f = None
        def d(T, *p):
            k = p[-1]; q = p[:-1]
            return If(k <= 0, T, step(f(T, *q, k - 1), item(q, k - 1), q, k - 1))
        f = Spec(self.u + name, [Trace] + sorts + [INT], Trace, d)
        return f
    def undef(self, x): return tag(x) == self.t("Undef")
    def true(self, x): return And(Not(self.undef(x)), truth(x))
    def n(self, c, v): return N(c, self.ph, v)
    def x(self, c, v, k): return X(c, self.ph, v, k)
    def ensure(self, t): return If(t == nil, app(nil, NULLV), t)
    def one(self, x): return app(nil, x)
    def idf(self, T, c, v, k): return IDF(T, z3.IntVal(c) if isinstance(c, int) else c, self.ph, v, k)

    # ---- operators
    def m_UnaryExpr(self):
        A = self.fold("a", [], lambda q, k: self.x(-1, self.val, k), lambda T, x, q, k: app(T, self.e.un(self.op, x)[0]))
        self.outer[-1] = A
        return A(nil, self.n(-1, self.val))

    def pairs(self, step2, right_value=lambda x: None, inner_n=None):
        """step2(T, left, right) for every left and, for it, every right value"""
        rv = lambda l: self.val
        I = self.fold("i", [Val], lambda q, k: self.x(-2, rv(q[0]), k), lambda T, x, q, k: step2(T, q[0], x))
        A = self.fold("a", [], lambda q, k: self.x(-1, self.val, k), lambda T, x, q, k: I(T, x, self.n(-2, rv(x))))
        self.outer[-1] = A; self.inner[-2] = I
        return A(nil, self.n(-1, self.val))

    def m_BinaryExpr(self): return self.pairs(lambda T, l, r: app(T, self.e.bin(self.op, l, r)[0]))

    def meta(self, kind, *ts):
        return E.metaop(kind, ts)[0]
    def m_UnaryWordOpExpr(self):
        A = self.fold("a", [], lambda q, k: self.x(-1, self.val, k), lambda T, x, q, k: app(T, If(self.undef(x), x, self.meta("unaryOp", self.e.name, vobj(x)))))
        self.outer[-1] = A
        w = self.wit
        self.allowed = lambda: And(Not(self.undef(w(-1))), tag(w(-1)) != self.t("TransientObject"))
        return A(nil, self.n(-1, self.val))
    def m_BinaryWordOpExpr(self):
        T_ = self.t("TransientObject"); nm = self.e.name
        f = lambda l, r: If(Or(self.undef(l), self.undef(r)), UNDEF, If(tag(l) == T_, self.meta("binaryOp", nm, vobj(l), r), self.meta("binaryOp", nm, l, vobj(r))))
        w = self.wit
        self.allowed = lambda: And(Not(self.undef(w(-1))), Not(self.undef(w(-2))), tag(w(-1)) != T_, tag(w(-2)) != T_)
        return self.pairs(lambda T, l, r: app(T, f(l, r)))
    def wit(self, c):
        """the value of subexpression c at hand where an error was raised"""
        for en in self.e.err_active:
            if en["kind"] == "child" and en["c"] is not None and z3.is_int_value(z3.simplify(en["c"])) and z3.simplify(en["c"]).as_long() == c: return en["x"]
        return UNDEF

    def logic(self, keep):
        A = self.fold("a", [], lambda q, k: self.x(-1, self.val, k), lambda T, x, q, k: If(Or(self.undef(x), keep(x)), app(T, x), self.idf(T, -2, self.val, self.n(-2, self.val))))
        self.outer[-1] = A
        self.inner[-2] = lambda T, o, k: self.idf(T, -2, self.val, k)
        return A(nil, self.n(-1, self.val))
    def m_AndExpr(self): return self.logic(lambda x: Not(truth(x)))
    def m_OrExpr(self): return self.logic(lambda x: truth(x))

    def m_UnpackExpr(self):
        A = self.fold("a", [], lambda q, k: self.x(-1, self.val, k), lambda T, x, q, k: If(tag(x) == self.t("TransientObject"), UNF(T, vobj(x), UN(vobj(x))), app(T, x)))
        self.outer[-1] = A
        self.inner["unpack"] = lambda T, o, k: UNF(T, vobj(o), k)
        return self.ensure(A(nil, self.n(-1, self.val)))

    # ---- constants
    def m_ConstExpr(self): return self.one(z3.Const("this.constant", Val))
    def m_MultiConstExpr(self):
        A = self.fold("a", [], lambda q, k: E.ValsV.f(k), lambda T, x, q, k: app(T, x))
        self.index = A
        return A(nil, self.e.count)

    # ---- paths
    def skip(self, x): return Or(self.undef(x), And(tag(x) == self.t("Null"), vnode(x) == NILN))
    def m_PathExpr(self):
        I = self.fold("i", [Val], lambda q, k: self.x(-2, q[0], k), lambda T, x, q, k: If(self.skip(x), T, app(T, x)))
        A = self.fold("a", [], lambda q, k: self.x(-1, self.val, k), lambda T, x, q, k: If(self.skip(x), T, I(T, x, self.n(-2, x))))
        self.outer[-1] = A; self.inner[-2] = I
        return self.ensure(A(nil, self.n(-1, self.val)))
    def m_SubExpr(self):
        I = self.fold("i", [Val], lambda q, k: self.x(-2, q[0], k), lambda T, x, q, k: If(self.true(x), app(T, q[0]), T))
        A = self.fold("a", [], lambda q, k: self.x(-1, self.val, k), lambda T, x, q, k: I(T, x, self.n(-2, x)))
        self.outer[-1] = A; self.inner[-2] = I
        return self.ensure(A(nil, self.n(-1, self.val)))
    def m_SubscriptExpr(self):
        def sub(T, l, i):
            nd = If(tag(i) == self.t("Int"), nat(vnode(l), vint(i)), If(tag(i) == self.t("String"), If(poolid(vstr(i)) != 0, nget(vnode(l), poolid(vstr(i))), NILN), NILN))
            op = next((o for o in self.e.subscript_ops()), None)
            return If(vnode(l) != NILN, If(nd != NILN, app(T, mkfield(nd)), T), app(T, self.e.bin(op, l, i)[0]))
        return self.ensure(self.pairs(sub))
    def m_FieldExpr(self):
        nd = vnode(self.val); nm = self.e.name
        self.needs_val = True
        got = nget(nd, poolid(nm))
        return self.one(If(self.undef(self.val), self.val, If(nm == str_const(b"_"), self.val, If(nd == NILN, NULLV, If(poolid(nm) == 0, NULLV, If(got == NILN, NULLV, mkfield(got)))))))
    def m_AnyChildExpr(self):
        A = self.fold("n", [Node], lambda q, k: mkfield(nchild(q[0], k)), lambda T, x, q, k: app(T, x))
        self.inner["node"] = lambda T, nd, k: A(T, nd, k)
        self.needs_val = True
        nd = vnode(self.val)
        return If(Or(nd == NILN, nsize(nd) == 0), self.one(NULLV), A(nil, nd, nsize(nd)))
    def m_WildcardExpr(self):
        W = Spec(self.u + "walk", [Trace, Node], Trace, lambda T, n: If(ntag(n) == self.t("Null"), T, WN(app(T, mkfield(n)), n, nsize(n))))
        WN = Spec(self.u + "walk_children", [Trace, Node, INT], Trace, lambda T, n, k: If(k <= 0, T, W(WN(T, n, k - 1), nchild(n, k - 1))))
        self.inner["node"] = lambda T, nd, k: WN(T, nd, k)
        self.e.walk = W
        self.needs_val = True
        nd = vnode(self.val)
        return self.ensure(If(nd == NILN, nil, W(nil, nd)))

    def m_CallExpression(self):
        self.outer["fn"] = lambda T, k: self.idf(T, FNID, self.val, k)
        self.allowed = lambda: z3.Bool("function_unknown")
        return self.ensure(self.idf(nil, FNID, self.val, N(FNID, self.ph, self.val)))

    # ---- functions
    def count_ok(self, lo, hi=None): return And(self.e.count >= lo, self.e.count <= hi) if hi is not None else self.e.count >= lo
    def bare(self, x): return And(self.undef(x), vnode(x) == NILN)
    def arg_ok(self, j, kind):
        x = lambda k: self.x(z3.IntVal(j), self.val, k)
        n = self.n(z3.IntVal(j), self.val)
        und = (lambda q: self.undef(q)) if z3.simplify(self.ph == self.e.PH["Compilation"]).eq(z3.BoolVal(True)) else (lambda q: z3.BoolVal(False))
        return And(n >= 1, Or(und(x(0)), And(tag(x(0)) == self.t(kind), Or(n == 1, und(x(1))))))
    def arg(self, j, k=0): return self.x(z3.IntVal(j), self.val, z3.IntVal(k))
    def args_checked(self, lo, hi, *kinds):
        self.undef_ok = True
        """errors are for a wrong number of arguments or an argument that is not a single value of its type"""
        cs = [self.count_ok(lo, hi)] + [z3.Implies(self.e.count > j, self.arg_ok(j, kd)) for j, kd in kinds]
        self.allowed = lambda: Not(And(*cs))

    def m_AnyFn(self): return self.quantifier(True)
    def m_EachFn(self): return self.quantifier(False)
    def quantifier(self, any_):
        comb = (lambda a, b: Or(a, b)) if any_ else (lambda a, b: And(a, b))
        B = Spec(self.u + "b", [INT, Val, INT], BOOL, lambda c, v, k: If(k >= self.n(c, v), z3.BoolVal(not any_), comb(self.true(self.x(c, v, k)), B(c, v, k + 1))))
        A = Spec(self.u + "ba", [INT], BOOL, lambda j: If(j >= self.e.count, z3.BoolVal(not any_), comb(B(j, self.val, z3.IntVal(0)), A(j + 1))))
        self.qb, self.qa, self.comb = B, A, comb
        self.allowed = lambda: self.e.count < 1
        return self.one(mkbool(A(z3.IntVal(0))))
    def m_CountFn(self):
        C = Spec(self.u + "c", [INT, Val, INT], INT, lambda c, v, k: If(k <= 0, 0, C(c, v, k - 1) + If(self.true(self.x(c, v, k - 1)), 1, 0)))
        CA = Spec(self.u + "ca", [INT], INT, lambda j: If(j <= 0, 0, CA(j - 1) + C(j - 1, self.val, self.n(j - 1, self.val))))
        self.cc, self.ca = C, CA
        self.allowed = lambda: self.e.count < 1
        return self.one(mkint(CA(self.e.count)))
    def m_ArrFn(self):
        A = Spec(self.u + "args", [Trace, INT], Trace, lambda T, j: If(j <= 0, T, self.idf(A(T, j - 1), j - 1, self.val, self.n(j - 1, self.val))))
        self.index = A
        self.outer["arg"] = lambda T, c, k: self.idf(T, c, self.val, k)
        self.root = lambda c: A(nil, c)
        return If(self.e.count == 0, self.one(NULLV), A(nil, self.e.count))
    def m_TraceFn(self):
        self.outer["arg"] = lambda T, c, k: self.idf(T, c, self.val, k)
        self.args_checked(1, None, (1, "Int"), (2, "String"))
        return self.idf(nil, 0, self.val, self.n(z3.IntVal(0), self.val))
    def m_RangeFn(self):
        self.args_checked(2, 2, (0, "Int"), (1, "Int"))
        return self.one(mkobj(F("make_IRangeType", INT, INT, Obj)(vint(self.arg(0)), vint(self.arg(1)))))
    def m_ReFn(self):
        isre = F("object_is_a_simfil::ReType::Type", Obj, BOOL)
        f = lambda x: If(self.undef(x), UNDEF, If(tag(x) == self.t("String"), mkobj(F("make_ReType", Str, Obj)(vstr(x))), x))
        A = self.fold("a", [], lambda q, k: self.x(z3.IntVal(0), self.val, k), lambda T, x, q, k: app(T, f(x)))
        self.outer["arg"] = lambda T, c, k: A(T, k)
        w = self.wit
        self.allowed = lambda: Or(self.e.count != 1, And(Not(self.undef(w(0))), tag(w(0)) != self.t("String"), Not(And(tag(w(0)) == self.t("TransientObject"), isre(vobj(w(0)))))))
        return A(nil, self.n(z3.IntVal(0), self.val))
    def m_SplitFn(self):
        self.args_checked(2, None, (0, "String"), (1, "String"), (2, "Bool"))
        a, b = vstr(self.arg(0)), vstr(self.arg(1)); r = Not(If(self.e.count >= 3, vbo(self.arg(2)), z3.BoolVal(True)))
        A = self.fold("s", [Str, Str, BOOL], lambda q, k: mkstr(SPX(q[0], q[1], q[2], k)), lambda T, x, q, k: app(T, x))
        self.index = lambda T, k: A(T, a, b, r, k)
        return A(nil, a, b, r, SPN(a, b, r))
    def m_SelectFn(self):
        self.args_checked(2, None, (1, "Int"), (2, "Int"))
        i, c0 = vint(self.arg(1)), If(self.e.count >= 3, vint(self.arg(2)), 1)
        c = If(c0 <= 0, 2 ** 31 - 1, c0)
        S = self.fold("sel", [INT, INT], lambda q, k: self.x(z3.IntVal(0), self.val, k), lambda T, x, q, k: If(And(k >= q[0], k - q[0] < q[1]), app(T, x), T))
        self.outer["arg"] = lambda T, cc, k: S(T, i, c, k)
        self.sel = (S, i, c)
        # proved by induction in a task of its own: nothing after the window is delivered
        self.after_stop = lambda ent, k: z3.Implies(And(k >= i + c, k <= ent["n"]), S(ent["T0"], i, c, ent["n"]) == S(ent["T0"], i, c, k))
        return S(nil, i, c, self.n(z3.IntVal(0), self.val))
    def m_SumFn(self):
        cnt = self.e.count; z0, z1, z2 = (z3.IntVal(k) for k in range(3))
        init = If(cnt == 3, self.x(z2, self.val, self.n(z2, self.val) - 1), mkint(z0))
        add = next(iter(self.e.add_ops()))
        def step(acc, x, k):
            t = ovval(x, acc, x, mkint(k))
            return If(cnt >= 2, self.x(z1, t, self.n(z1, t) - 1), If(tag(acc) == self.t("Null"), x, self.e.bin(add, acc, x)[0]))
        S = Spec(self.u + "sum", [INT], Val, lambda k: If(k <= 0, init, step(S(k - 1), self.x(z0, self.val, k - 1), k - 1)))
        self.acc = S
        self.allowed = lambda: Not(self.count_ok(1, 3))
        return self.one(S(self.n(z0, self.val)))
    def m_KeysFn(self):
        KN = self.fold("k", [Node], lambda q, k: nkey(q[0], k), lambda T, x, q, k: If(known(x), app(T, mkstr(ptext(x))), T))
        A = self.fold("a", [], lambda q, k: self.x(z3.IntVal(0), self.val, k), lambda T, x, q, k: If(vnode(x) != NILN, KN(T, vnode(x), nsize(vnode(x))), T))
        self.outer["arg"] = lambda T, c, k: A(T, k)
        self.names = KN
        self.allowed = lambda: self.e.count != 1
        return A(nil, self.n(z3.IntVal(0), self.val))

    # ---- what holds at a loop
    index = names = acc = qb = cc = after_stop = None
    undef_ok = False
    root = staticmethod(lambda c: nil)

    def at(self, ent, outer, T0, k):
        """T after k values of the stream of loop `ent`, begun with T0"""
        c = ent["c"]
        c = z3.simplify(c) if c is not None else None
        kd = ent["kind"]
        if kd == "unpack": return self.inner["unpack"](T0, ent["outer"], k) if "unpack" in self.inner and ent.get("outer") is not None else None
        if kd == "node": return self.inner["node"](T0, ent["src"], k) if "node" in self.inner else None
        if z3.is_int_value(c):
            c_ = c.as_long()
            if c_ == FNID.as_long(): return self.outer["fn"](T0, k) if "fn" in self.outer else None
            if c_ in self.outer and outer is None: return self.outer[c_](T0, k)
            if c_ in self.inner and outer is not None: return self.inner[c_](T0, outer["x"], k)
            if c_ < 0: return None
        if "arg" in self.outer and outer is None: return self.outer["arg"](T0, c, k)
        return None
