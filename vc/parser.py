"""C08, C25: the parser (src/parser.cpp, the parselets and compile() in src/simfil.cpp).

Ghost state: the tokens t(0..n-1), of which exactly the last is the end marker (C01), and for every expression the tokens it
spans and the lowest precedence of an operator at its left and right edge (lopen, ropen).  An operator of precedence q may take
an expression with ropen >= q to its left and one with lopen > q to its right: there is exactly one tree over given tokens
for which that holds at every operator."""
import z3
from . import ast as A
from .core import *
from . import builtins as BI
from .builtins import to_str
from . import ev
from .ev import Val, AVal, F, INT, BOOL, EvEx
from . import evalref as R
from .suite import BaseSuite, TRUST

Tree = z3.DeclareSort("Expression")
tt = F("token_type", INT, INT); tstr = F("token_text", INT, Str); tint = F("token_int", INT, INT)
e0 = F("first_token", Tree, INT); e1 = F("end_token", Tree, INT); lo = F("lopen", Tree, INT); ro = F("ropen", Tree, INT)
ety = F("expression_type", Tree, INT); econst = F("is_constant", Tree, BOOL)
INF = 100
PRECS = {"DOT": 12, "LBRACE": 11, "LBRACK": 10, "OP_BOOL": 9, "OP_UNPACK": 9, "OP_CAST": 7, "WORD": 7, "OP_TIMES": 6, "OP_DIV": 6, "OP_MOD": 6, "OP_ADD": 5, "OP_SUB": 5,
         "OP_LSHIFT": 4, "OP_RSHIFT": 4, "OP_BITAND": 4, "OP_BITOR": 4, "OP_BITXOR": 4, "OP_LT": 3, "OP_LTEQ": 3, "OP_GT": 3, "OP_GTEQ": 3, "OP_EQ": 2, "OP_NOT_EQ": 2, "OP_AND": 1, "OP_OR": 1}
BINARY = {"OP_TIMES": "Mul", "OP_DIV": "Div", "OP_MOD": "Mod", "OP_ADD": "Add", "OP_SUB": "Sub", "OP_LSHIFT": "Shl", "OP_RSHIFT": "Shr", "OP_BITAND": "BitAnd", "OP_BITOR": "BitOr", "OP_BITXOR": "BitXor",
          "OP_LT": "Lt", "OP_LTEQ": "LtEq", "OP_GT": "Gt", "OP_GTEQ": "GtEq", "OP_EQ": "Eq", "OP_NOT_EQ": "Neq"}
PREFIX_OPS = {"OP_SUB": "Negate", "OP_BITINV": "BitInv", "OP_NOT": "Not", "OP_LEN": "Len", "OP_TYPEOF": "Typeof"}
PREFIX = ["C_TRUE", "C_FALSE", "C_NULL", "INT", "FLOAT", "STRING", "REGEXP", "LPAREN", "LBRACE", "LBRACK", "WORD", "SELF", "WILDCARD", "OP_TIMES"] + list(PREFIX_OPS)
CLOSE = {"LPAREN": "RPAREN", "LBRACE": "RBRACE", "LBRACK": "RBRACK"}
CASTS = {b"bool": "Bool", b"int": "AsInt", b"float": "AsFloat", b"string": "AsString"}


class PExpr(V):
    """an expression: its ghost attributes and, where it was just made, what it was made of"""
    def __init__(self, t, made=None): self.t, self.made = t, made


class TokV(V):
    def __init__(self, i): self.i = i
    def sget(self, ex, k):
        if k == "type": return I(tt(self.i), 32, False)
        if k == "value": return TokVal(self.i)
        if k in ("begin", "end"): return ex.ifresh("token." + k, 64, False)
        raise Unsupported(f"member {k} of a token")


class TokVal(V):
    def __init__(self, i): self.i = i


class ToksV(V):
    """std::vector<Token>"""
    def __init__(self, n): self.n = n
    def sget(self, ex, k): return TokV(k[1])


class PMap(V):
    """the parselets of a parser"""
    def __init__(self, kind, d=None): self.kind, self.d = kind, d     # d: token type -> pointer (while compile() fills it); None: the documented ones
    def sget(self, ex, k):
        if self.d is None or k[1] not in self.d: raise Unsupported("parselet")
        return self.d[k[1]]
    def swith(self, ex, k, rest, new):
        if rest or self.d is None: raise Unsupported("write into a parselet")
        return PMap(self.kind, {**self.d, k[1]: new})


class ExprsV(V):
    """std::vector<ExprPtr>: n expressions, separated by commas, from token s to token e"""
    def __init__(self, n, s, e, first=None): self.n, self.s, self.e, self.first = n, s, e, first


class Par(ev.Eval):
    def __init__(self, ast, stats):
        byname = ast.byname
        self.f = {}
        for nm in ("parsePrecedence", "parseInfix"):
            l = [f for f in byname.get("simfil::Parser::" + nm, []) if f in ast.funcs]
            if len(l) != 1: raise Unsupported(f"Parser::{nm} not found")
            self.f[nm] = l[0]
        super().__init__(ast, stats, self.f["parsePrecedence"], "spec", None)
        ex = self.ex
        self.tok = {c["n"]: int(c["v"]) for d in ast.decls.values() if d.get("dk") == "Enum" and d["qn"] == "simfil::Token::Type" for c in d["consts"]}
        self.exprty = {c["n"]: int(c["v"]) for d in ast.decls.values() if d.get("dk") == "Enum" and d["qn"] == "simfil::Expr::Type" for c in d["consts"]}
        if not self.tok or not self.exprty: raise Unsupported("enum Token::Type")
        miss = [k for k in list(PRECS) + PREFIX + list(CLOSE.values()) + ["NIL", "COMMA"] if k not in self.tok]
        if miss: raise Unsupported(f"token types {miss}")
        self.rec = ast.rec_by_name.get("simfil::Parser", [None])[0]
        if self.rec is None: raise Unsupported("class Parser")
        ex.cfg.update({"dtors": True, "termination": False, "ub_soft": False, "global": None, "havoc": self.havoc2, "unroll_concrete": True})
        ex.cfg.pop("recurse", None)
        ex.loop_candidates = self.cands
        ex.cfg["iter_eq"] = self.iter_eq; ex.cfg["iter_deref"] = self.iter_deref
        self.install()

    # ---------------------------------------------------------------- specification
    def Q(self, t):
        r = z3.IntVal(0)
        for k, p in PRECS.items(): r = z3.If(t == self.tok[k], p, r)
        return r
    def pfx(self, t): return z3.Or(*[t == self.tok[k] for k in PREFIX])

    # ---------------------------------------------------------------- state
    def start(self, names=()):
        ex = self.ex
        self.axioms()
        self.active = []; self.sem = None; self.log = []; self.rank = None; self.made_nodes = []
        n = self.n = z3.Int("tokens"); ex.assume(z3.And(n >= 1, n < 2 ** 31, tt(n - 1) == self.tok["NIL"]))
        ex.assume(z3.ForAll([x := z3.Int("x")], z3.Implies(z3.And(x >= 0, x < n - 1), z3.And(tt(x) > 0, tt(x) < len(self.tok))), patterns=[tt(x)]))
        self.G = ex.new_lv(OpaqueV("ghost", {"failed": z3.BoolVal(False)}), "ghost")
        self.env = ex.new_lv(OpaqueV("env"), "env")
        fs = {}
        for f in self.a.decls[self.rec]["fields"]:
            ty = self.a.T(f["t"]); nm = ty.get("n")
            if nm == "std::vector": fs[f["n"]] = ToksV(n); self.fvec = f["n"]
            elif nm == "std::unordered_map" or nm == "std::map":
                fs[f["n"]] = PMap("prefix" if "refix" in f["n"] else "infix")
            elif ty["k"] == "ptr": fs[f["n"]] = P(self.env)
            elif ty["k"] == "int" and ty["w"] == 64:
                fs[f["n"]] = ex.ifresh("pos", 64, False); self.fpos = f["n"]
            else: fs[f["n"]] = ex.fresh(f["t"], f["n"])
        ctxf = next((f for f in self.a.decls[self.rec]["fields"] if self.a.T(f["t"]).get("n") == "simfil::Parser::Context"), None)
        if ctxf is None: raise Unsupported("Parser::Context")
        cd = self.a.decls[self.a.T(ctxf["t"])["d"]]
        self.fctx = (ctxf["n"], cd["fields"][0]["n"])
        self.p = ex.new_lv(StructV(self.rec, fs), "parser")
        ex.assume(z3.And(self.pos >= 0, self.pos <= n - 1))
        self.inpath0 = self.inpath

    @property
    def pos(self): return self.ex.get(self.p.sub(self.fpos)).t
    @property
    def inpath(self): return self.ex.get(self.p.sub(self.fctx[0]).sub(self.fctx[1]))
    def setpos(self, t): self.ex.set(self.p.sub(self.fpos), I(t, 64, False))
    def cur(self): return tt(self.pos)

    def tree(self, made=None, name="e"):
        t = z3.Const(self.ex.fresh_name(name), Tree)
        self.ex.assume(z3.And(ety(t) >= 0, ety(t) < len(self.exprty), lo(t) >= 0, lo(t) <= INF, ro(t) >= 0, ro(t) <= INF))
        return PExpr(t, made)
    def ptr(self, e): return P(self.ex.new_lv(e, "expr"))
    def expr(self, v):
        v = self.ex.load(v)
        if isinstance(v, P):
            if v.lv is None: return None
            v = self.ex.get(v.lv)
        if not isinstance(v, PExpr): raise Unsupported("expression")
        return v

    def havoc2(self, ex, v, name):
        if isinstance(v, P) and v.lv is not None and isinstance(ex.peek(v.lv), PExpr): return self.ptr(self.tree(name=name))
        if isinstance(v, ExprsV): return ExprsV(z3.Int(ex.fresh_name("count")), z3.Int(ex.fresh_name("from")), z3.Int(ex.fresh_name("to")))
        if isinstance(v, TokV): return TokV(z3.Int(ex.fresh_name("token")))
        if isinstance(v, IterV) and not isinstance(v.idx, str): return IterV(v.cont, z3.Int(ex.fresh_name("it")))
        return self.havoc(ex, v, name)

    def cands(self, ex, ctx):
        out = []
        if not getattr(self, "p", None): return [], []
        p0, ip0 = self.pos, self.inpath
        out.append(("pos grows", lambda: self.pos >= p0)); out.append(("pos inside", lambda: self.pos <= self.n - 1)); out.append(("in path unchanged", lambda: self.inpath == ip0))
        out.append(("nothing failed", lambda: z3.Not(self.g()["failed"])))
        from .core import P as PP
        for lv in ctx.written(PP):
            v = ex.get(lv)
            if v.lv is None or not isinstance(ex.peek(v.lv), PExpr): continue
            t = lambda lv=lv: ex.get(ex.get(lv).lv).t
            t0 = t()
            nm = lv.root.name
            out.append((f"{nm} starts where it did", lambda t=t, t0=t0: e0(t()) == e0(t0)))
            out.append((f"{nm} ends here", lambda t=t: e1(t()) == self.pos))
            out.append((f"operators after {nm} bind looser", lambda t=t: self.Q(self.cur()) <= ro(t())))
            for fr in ex.frames:
                for d, x in fr.vars.items():
                    w = ex.peek(x) if isinstance(x, LV) else x
                    if isinstance(w, I) and w.w == 32 and w.sg: out.append((f"lopen({nm}) > {d}", lambda t=t, w=w: lo(t()) > w.t))
        for lv in ctx.written(ExprsV):
            v = lambda lv=lv: ex.get(lv)
            s0 = self.pos; v0 = v()
            out.append(("list is not empty", lambda v=v: v().n >= 1)); out.append(("list ends here", lambda v=v: v().e == self.pos)); out.append(("list starts where it did", lambda v=v, v0=v0: v().s == v0.s))
            out.append(("list", lambda v=v, s0=s0: z3.And(v().n >= 0, z3.Or(z3.And(v().n == 0, self.pos == s0), z3.And(v().n >= 1, v().s == s0, v().e == self.pos - 1, tt(v().e) == self.tok["COMMA"])))))
        return out, []

    # ---------------------------------------------------------------- library
    def install(self):
        ex, a = self.ex, self.a
        C, B = ex.contracts, ex.builtins
        C["simfil::raise"] = self.c_raise
        def at(ex_, fid, this, x, n):
            v = ex.get(this)
            if isinstance(v, ToksV):
                i = ex.load(x[0]).t
                ex.check(z3.And(i >= 0, i < v.n), "no token is read outside the token list", "C25")
                ex.assume(z3.And(i >= 0, i < v.n))
                return this.sub(("e", i))
            return NotImplemented
        old = {k: B.get("std::vector::" + k) for k in ("operator[]", "size", "empty", "begin", "end", "emplace_back", "push_back", "at", "back", "front")}
        def vec(name, f):
            def g(ex_, fid, this, x, n):
                r = f(ex_, fid, this, x, n)
                if r is NotImplemented and old.get(name): return old[name](ex_, fid, this, x, n)
                return r
            B["std::vector::" + name] = g
        vec("operator[]", at)
        def vat(ex_, fid, this, x, n):
            v = ex.get(this)
            if not isinstance(v, ToksV): return NotImplemented
            i = ex.load(x[0]).t
            if not ex.branch(z3.And(i >= 0, i < v.n)): raise CppThrow("std::out_of_range")
            return this.sub(("e", i))
        vec("at", vat)
        def size(ex_, fid, this, x, n):
            v = ex.get(this)
            return I(v.n, 64, False) if isinstance(v, (ToksV, ExprsV)) else NotImplemented
        vec("size", size)
        def empty(ex_, fid, this, x, n):
            v = ex.get(this)
            return v.n == 0 if isinstance(v, (ToksV, ExprsV)) else NotImplemented
        vec("empty", empty)
        def vback(ex_, fid, this, x, n):
            v = ex.get(this)
            if not isinstance(v, ToksV): return NotImplemented
            return this.sub(("e", v.n - 1))
        vec("back", vback)
        def push(ex_, fid, this, x, n):
            v = ex.get(this)
            if not isinstance(v, ExprsV): return NotImplemented
            e = self.expr(x[0])
            self.moved_from(x[0])
            ex.check(z3.BoolVal(e is not None), "an argument is an expression", "C25")
            if e is None: raise PathEnd()
            if ex.branch(v.n == 0): ex.set(this, ExprsV(v.n + 1, e0(e.t), e1(e.t), e))
            else:
                ex.check(z3.And(tt(v.e) == self.tok["COMMA"], e0(e.t) == v.e + 1), "arguments are separated by one comma and kept in order", "C08")
                ex.set(this, ExprsV(v.n + 1, v.s, e1(e.t), v.first))
            return VOID
        vec("emplace_back", push); vec("push_back", push)
        oldv = ex.ctor_models.get("std::vector")
        def vctor(ex_, tid, x, n):
            d = a.decls[a.T(tid)["d"]]
            et = a.T(d["targs"][0]["t"])
            if et.get("n") == "std::unique_ptr":
                if not x: return ExprsV(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
                v = ex.load(x[0])
                if isinstance(v, ExprsV): return v
            if et.get("n") == "simfil::Token" and x:
                v = ex.load(x[0])
                if isinstance(v, ToksV): return v
            return oldv(ex_, tid, x, n) if oldv else NotImplemented
        ex.ctor_models["std::vector"] = vctor
        # tokens
        def tctor(ex_, fid, this, x):
            v = ex.load(x[0])
            if len(x) == 1 and isinstance(v, TokV): ex.set(this, v); return VOID
            raise Unsupported("constructor of Token")
        C["simfil::Token::Token"] = tctor
        C["simfil::Token::toString"] = lambda ex_, f, t, x: StrV(z3.Const(ex.fresh_name("text"), Str))
        oldget = B.get("std::get")
        def get(ex_, fid, this, x, n):
            v = ex.load(x[0])
            if not isinstance(v, TokVal): return oldget(ex_, fid, this, x, n)
            ty = a.T(a.decls[fid]["targs"][0]["t"]); T = self.tok; t = tt(v.i)
            kind = "string" if ty.get("n") == "std::basic_string" else "int" if ty["k"] == "int" else "double"
            holds = {"string": z3.Or(t == T["STRING"], t == T["WORD"], t == T["REGEXP"]), "int": t == T["INT"], "double": t == T["FLOAT"]}[kind]
            ex.check(holds, "a token's value is read as what the token holds", "C25")
            if kind == "string": return StrV(tstr(v.i))
            if kind == "int":
                ex.assume(ex.in_range(tint(v.i), 64, True)); return I(tint(v.i), 64, True)
            return OpaqueV("float", v.i)
        B["std::get"] = get
        # parselets
        M = "std::unordered_map::"
        def find(ex_, fid, this, x, n):
            m = ex.get(this)
            if not isinstance(m, PMap): raise Unsupported("map")
            return IterV(this, ex.load(x[0]).t)
        B[M + "find"] = find
        B[M + "end"] = B[M + "cend"] = lambda ex_, fid, this, x, n: IterV(this, "end")
        def contains(ex_, fid, this, x, n):
            c = self.has(ex.get(this), ex.load(x[0]).t)
            return c if a.fname(fid).endswith("contains") else I(z3.If(c, 1, 0), 64, False)
        B[M + "contains"] = B[M + "count"] = contains
        def mat(ex_, fid, this, x, n):
            k = ex.load(x[0]).t
            if not ex.branch(self.has(ex.get(this), k)): raise CppThrow("std::out_of_range")
            return ex.new_lv(self.parselet(ex.get(this), k), "parselet")
        B[M + "at"] = mat
        def index(ex_, fid, this, x, n):
            m = ex.get(this)
            k = z3.simplify(ex.load(x[0]).t)
            if not isinstance(m, PMap) or m.d is None or not z3.is_int_value(k): raise Unsupported("parselet table")
            k = k.as_long()
            if k not in m.d: ex.set(this, PMap(m.kind, {**m.d, k: P(None)}))
            return this.sub(("m", k))
        B[M + "operator[]"] = index
        def emplace(ex_, fid, this, x, n):
            m = ex.get(this)
            k = z3.simplify(ex.load(x[0]).t)
            if not isinstance(m, PMap) or m.d is None or not z3.is_int_value(k) or len(x) != 2: raise Unsupported("parselet table")
            k = k.as_long()
            if k not in m.d or a.fname(fid).endswith("assign"): ex.set(this, PMap(m.kind, {**m.d, k: ex.load(x[1])}))
            return VOID
        B[M + "emplace"] = B[M + "try_emplace"] = B[M + "insert_or_assign"] = emplace
        def map_ctor(ex_, tid, x, n):
            if x: raise Unsupported("map")
            return PMap("?", {})
        ex.ctor_models["std::unordered_map"] = map_ctor
        # unique_ptr: a moved-from one is null
        oldu = ex.ctor_models["std::unique_ptr"]
        def uctor(ex_, tid, x, n):
            r = oldu(ex_, tid, x, n)
            if x and isinstance(r, P): self.moved_from(x[0])
            return r
        ex.ctor_models["std::unique_ptr"] = uctor
        for c in ("std::unique_ptr",):
            def uset(ex_, fid, this, x, n):
                v = ex.load(x[0])
                if isinstance(v, OpaqueV) and v.tag == "nullptr": v = P(None)
                if not isinstance(v, P): raise Unsupported("unique_ptr")
                self.moved_from(x[0]); ex.set(this, v); return this
            B[c + "::operator="] = uset
        B["std::make_unique"] = self.make_unique
        C["simfil::simplifyOrForward"] = C["simfil::(anonymous namespace)::simplifyOrForward"] = self.c_simplify
        C["simfil::Parser::parsePrecedence"] = lambda ex_, f, t, x: self.c_precedence(x, t)
        C["simfil::Parser::parseInfix"] = lambda ex_, f, t, x: self.c_infix(x, t)
        C["simfil::tokenize"] = lambda ex_, f, t, x: self.c_tokenize(x)
        C["simfil::isSymbolWord"] = C["simfil::(anonymous namespace)::isSymbolWord"] = lambda ex_, f, t, x: F("is_symbol", Str, BOOL)(to_str(ex, ex.load(x[0])))
        def findc(ex_, f, t, x):
            s = to_str(ex, ex.load(x[0]))
            v = F("constant_named", Str, Val)(s); self.known_val(v)
            return P(ex.new_lv(AVal(v), "constant"), null=z3.Not(F("is_constant_name", Str, BOOL)(s)))
        C["simfil::Environment::findConstant"] = findc

    def moved_from(self, x):
        ex = self.ex
        if isinstance(x, LV):
            v = ex.get(x)
            if isinstance(v, P) and v.lv is not None and isinstance(ex.peek(v.lv), PExpr): ex.set(x, P(None))

    def has(self, m, k):
        if not isinstance(m, PMap): raise Unsupported("map")
        if m.d is not None: return z3.Or(*[k == x for x in m.d]) if m.d else z3.BoolVal(False)
        return self.pfx(k) if m.kind == "prefix" else self.Q(k) > 0

    def parselet(self, m, k): return P(self.ex.new_lv(OpaqueV("parselet", (m.kind, k)), "parselet"))

    def iter_eq(self, ex, x, y):
        for o, e in ((x, y), (y, x)):
            if isinstance(e.idx, str): return z3.Not(self.has(ex.get(o.cont), o.idx)) if not isinstance(o.idx, str) else z3.BoolVal(True)
        return x.idx == y.idx

    def iter_deref(self, ex, it):
        m = ex.get(it.cont)
        ex.check(z3.BoolVal(False) if isinstance(it.idx, str) else self.has(m, it.idx), "no access past the end of the parselets", "C25")
        if isinstance(it.idx, str): raise PathEnd()
        return PairV(I(it.idx, 32, False), self.parselet(m, it.idx))

    def c_raise(self, ex, fid, this, args):
        ta = self.a.decls[fid].get("targs") or []
        raise CppThrow(self.a.recname(ta[0]["t"]) if ta and "t" in ta[0] else "?")

    def subfail(self):
        self.gset(failed=z3.BoolVal(True))
        raise CppThrow("std::runtime_error", "operand")

    def derived(self, rec, base):
        return any(self.a.T(b).get("n") == base or ("d" in self.a.T(b) and self.a.T(b)["d"] in self.a.decls and self.derived(self.a.T(b)["d"], base)) for b in self.a.decls[rec].get("bases", []))

    def make_unique(self, ex_, fid, this, x, n):
        ex, a = self.ex, self.a
        ty = a.T(a.decls[fid]["targs"][0]["t"]); rec = ty["d"]; d = a.decls[rec]
        if self.derived(rec, "simfil::Expr"):
            op = a.recname(d["targs"][0]["t"]) if d.get("targs") and "t" in d["targs"][0] else None
            args = []
            for y in x:
                v = ex.load(y)
                if isinstance(v, P):
                    e = self.expr(v)
                    ex.check(z3.BoolVal(e is not None), f"{d['n']} is made of existing expressions", "C25")
                    if e is None: raise PathEnd()
                    self.moved_from(y); v = e
                args.append(v)
            if len(args) == 1 and d["n"] == "ConstExpr" and not isinstance(args[0], AVal):
                v = args[0]
                if isinstance(v, OpaqueV) and v.tag == "float": args = [OpaqueV("float", v.data)]
                else: args = [self.make(v)]
            return self.ptr(self.tree((d["n"], op, args), d["n"]))
        if self.derived(rec, "simfil::PrefixParselet") or self.derived(rec, "simfil::InfixParselet"):
            lv = ex.new_lv(StructV(rec, {}), "parselet")
            if x:
                cs = [f for f in d.get("methods", []) if a.decls[f]["dk"] == "CXXConstructor" and f in a.funcs and a.decls[f].get("ctor") not in ("copy", "move") and len(a.decls[f]["params"]) == len(x)]
                vs = [ex.load(y) for y in x]
                cs = [f for f in cs if a.recname(a.decls[f]["params"][0]["t"]) == "simfil::Value"] if isinstance(vs[0], AVal) else cs
                if len(cs) != 1: raise Unsupported("constructor of a parselet")
                ex.inline(cs[0], lv, [ex.new_lv(v, "arg") for v in vs])
            return P(lv)
        return NotImplemented

    def c_simplify(self, ex_, fid, this, x):
        """gives the expression or a constant equal to it (C10)"""
        ex = self.ex
        e = self.expr(x[1])
        self.moved_from(x[1])
        if e is None: return P(None)
        if ex.branch(F("folding_fails", Tree, BOOL)(e.t)): self.subfail()
        r = self.tree(e.made)
        ex.assume(z3.And(e0(r.t) == e0(e.t), e1(r.t) == e1(e.t), lo(r.t) == lo(e.t), ro(r.t) == ro(e.t)))
        r.same = e
        return self.ptr(r)

    def c_tokenize(self, x):
        if self.ex.branch(z3.Bool("text_is_no_token_sequence")): self.subfail()
        return ToksV(self.n)

    # ---------------------------------------------------------------- contracts of the parser's functions
    def is_p(self, t):
        v = self.ex.get(t) if isinstance(t, LV) else None
        if not isinstance(t, LV) or not isinstance(v, StructV) or v.rec != self.rec: raise Unsupported("parser")

    def called(self, rank, what):
        if self.rank is not None: self.ex.check(rank < self.rank, f"{what}: recursion gets closer to the end of the text", "C25")

    def advance(self, least):
        """the parser has read on"""
        ex = self.ex
        p = z3.Int(ex.fresh_name("pos")); ex.assume(z3.And(p >= least, p <= self.n - 1)); self.setpos(p)

    def result(self, start, lopen, ret=None):
        ex = self.ex
        e = self.tree()
        ex.assume(z3.And(e0(e.t) == start, e1(e.t) == self.pos, self.Q(self.cur()) <= ro(e.t)))
        if lopen is not None: ex.assume(lopen(lo(e.t)))
        return e

    def rank_prec(self, pos): return 3 * (self.n - pos) + 1
    def rank_infix(self, pos): return 3 * (self.n - pos)
    def rank_parselet(self, pos): return 3 * (self.n - pos) + 2

    def c_precedence(self, x, this):
        ex = self.ex
        self.is_p(this)
        p = ex.load(x[0]).t; pos = self.pos
        opt = ex.as_bool(ex.load(x[1])) if len(x) > 1 else z3.BoolVal(False)
        ex.check(z3.And(p >= 0, p < INF), "parsePrecedence is called with a precedence", "C25")
        ex.check(z3.And(pos >= 0, pos <= self.n - 1), "parsing goes on before the end of the text", "C25")
        self.called(self.rank_prec(pos), "parsePrecedence")
        rec = {"p": p, "pos": pos, "inpath": self.inpath}
        if ex.branch(z3.Not(self.pfx(tt(pos)))):
            if ex.branch(opt):
                self.log.append({**rec, "r": None}); return P(None)
            self.subfail()
        if ex.choose(2): self.subfail()
        self.advance(pos + 1)
        e = self.result(pos, lambda l: l > p)
        ex.assume(self.Q(self.cur()) <= p)
        self.log.append({**rec, "r": e, "end": self.pos})
        return self.ptr(e)

    def c_infix(self, x, this):
        ex = self.ex
        self.is_p(this)
        l = self.expr(x[0]); self.moved_from(x[0])
        p = ex.load(x[1]).t; pos = self.pos
        ex.check(z3.BoolVal(l is not None), "parseInfix: there is an expression", "C25")
        if l is None: raise PathEnd()
        ex.check(z3.And(p >= 0, pos >= 0, pos <= self.n - 1), "parsing goes on before the end of the text", "C25")
        ex.check(z3.And(e1(l.t) == pos, self.Q(tt(pos)) <= ro(l.t), lo(l.t) > p), "parseInfix: the expression ends here and binds tighter than what follows", "C08")
        self.called(self.rank_infix(pos), "parseInfix")
        if ex.choose(2): self.subfail()
        self.advance(pos)
        e = self.result(e0(l.t), lambda q: q > p)
        ex.assume(self.Q(self.cur()) <= p)
        self.log.append({"infix": l, "p": p, "pos": pos, "r": e})
        return self.ptr(e)

    def virtual(self, ex, fid, this, args, n):
        v = ex.peek(this); nm = self.a.decls[fid]["n"]
        if isinstance(v, OpaqueV) and v.tag == "parselet":
            kind, k = v.data
            if nm == "precedence": return I(self.Q(k), 32, True)
            if nm == "parse": return self.c_parselet(kind, k, args)
            raise Unsupported("parselet::" + nm)
        if isinstance(v, PExpr):
            if nm == "type": return I(ety(v.t), 32, False)
            if nm == "constant": return econst(v.t)
            if nm == "toString": return StrV(z3.Const(ex.fresh_name("text"), Str))
            raise Unsupported("Expr::" + nm)
        return NotImplemented

    def c_parselet(self, kind, k, args):
        ex = self.ex
        self.is_p(args[0])
        infix = len(args) == 3
        ex.check(z3.BoolVal(infix == (kind == "infix")), "parselets are called as what they are", "C25")
        tokv = ex.load(args[-1]); pos = self.pos
        if not isinstance(tokv, TokV): raise Unsupported("token")
        ex.check(z3.And(tt(tokv.i) == k, self.has(PMap(kind), k)), f"a {kind} parselet is called for a token it is made for", "C08")
        ex.check(pos == tokv.i + 1, f"a {kind} parselet is called right after its token", "C08")
        ex.check(pos <= self.n - 1, "parsing goes on before the end of the text", "C25")
        self.called(self.rank_parselet(pos), "parselet")
        if infix:
            l = self.expr(args[1]); self.moved_from(args[1])
            ex.check(z3.BoolVal(l is not None), "an infix operator has a left operand", "C25")
            if l is None: raise PathEnd()
            ex.check(e1(l.t) == tokv.i, "the left operand ends at the operator", "C08")
            ex.check(self.Q(k) <= ro(l.t), "the left operand binds at least as tight as the operator", "C08")
        if ex.choose(2): self.subfail()
        self.advance(pos)
        if infix: e = self.result(e0(l.t), lambda q: q == z3.If(self.Q(k) <= lo(l.t), self.Q(k), lo(l.t)))
        else: e = self.result(tokv.i, lambda q: q == INF)
        return self.ptr(e)

    # ---------------------------------------------------------------- obligations
    def run(self, fn, cover):
        ex = self.ex
        def run(ex):
            self.start(); fn()
        ex.explore(run, cover=cover)

    def guarded(self, f, allowed, label):
        """f(); an error it raises itself must be one the language asks for"""
        ex = self.ex
        try: return f()
        except CppThrow as e:
            if getattr(e, "val", None) == "operand" or self.is_failed(): raise PathEnd()
            ex.check(allowed(), f"{label}: no text of the language is refused", "C08", info=str(e.ty))
            raise PathEnd()
    def is_failed(self):
        g = self.g()["failed"]
        return z3.is_true(z3.simplify(g))

    def run_precedence(self):
        ex = self.ex
        fid = self.f["parsePrecedence"]; ex.stats.functions.append("simfil::Parser::parsePrecedence")
        np = len(self.a.decls[fid]["params"])
        def go():
            p = ex.ifresh("p", 32, True); ex.assume(z3.And(p.t >= 0, p.t < INF))
            opt = z3.Bool("optional"); pos = self.pos
            self.rank = self.rank_prec(pos)
            L = "Parser::parsePrecedence"
            r = self.guarded(lambda: ex.load(ex.inline(fid, self.p, [p, opt][:np])), lambda: z3.And(z3.Not(opt), z3.Not(self.pfx(tt(pos)))), L)
            e = self.expr(r)
            if e is None:
                ex.check(z3.And(opt, z3.Not(self.pfx(tt(pos))), self.pos == pos), f"{L}: yields nothing only where no expression starts, and reads nothing", "C08")
                return
            self.post(e, pos, p.t, L)
            ex.check(self.pos > pos, f"{L}: reads on", "C25")
        self.run(go, "parsePrecedence")

    def post(self, e, start, p, L):
        ex = self.ex
        ex.check(z3.And(e0(e.t) == start, e1(e.t) == self.pos), f"{L}: the expression spans exactly the tokens read", "C08")
        ex.check(z3.And(self.pos >= 0, self.pos <= self.n - 1), f"{L}: never reads past the end marker", "C25")
        ex.check(lo(e.t) > p, f"{L}: no operator in reach of its left binds looser than asked for", "C08")
        ex.check(z3.And(self.Q(self.cur()) <= p, self.Q(self.cur()) <= ro(e.t)), f"{L}: takes every operator that belongs to the expression", "C08")
        ex.check(self.inpath == self.inpath0, f"{L}: leaves the path context as it was", "C08")

    def run_infix(self):
        ex = self.ex
        fid = self.f["parseInfix"]; ex.stats.functions.append("simfil::Parser::parseInfix")
        ex.cfg["termination"] = False
        def go():
            p = ex.ifresh("p", 32, True); ex.assume(z3.And(p.t >= 0, p.t < INF)); pos = self.pos
            l = self.tree(name="left")
            ex.assume(z3.And(e1(l.t) == pos, self.Q(tt(pos)) <= ro(l.t), lo(l.t) > p.t))
            self.rank = self.rank_infix(pos)
            L = "Parser::parseInfix"
            r = self.guarded(lambda: ex.load(ex.inline(fid, self.p, [ex.new_lv(self.ptr(l), "left"), p])), lambda: z3.BoolVal(False), L)
            e = self.expr(r)
            ex.check(z3.BoolVal(e is not None), f"{L}: yields an expression", "C25")
            if e is None: return
            self.post(e, e0(l.t), p.t, L)
        self.run(go, "parseInfix")

    # ---- compile(): the tables
    def compile_fid(self):
        l = [f for f in self.a.byname.get("simfil::compile", []) if f in self.a.funcs]
        if len(l) != 1: raise Unsupported("compile not found")
        return l[0]

    def tables(self):
        """executes compile() up to where the parser starts: {kind: {token type: parselet}}"""
        ex = self.ex
        class Stop(Exception): pass
        got = {}
        def stop(ex_, f, t, x):
            for k, m in ex.get(t).fields.items():
                if isinstance(m, PMap): got["prefix" if "refix" in k else "infix"] = {k2: ex.get(p.lv) for k2, p in m.d.items() if isinstance(p, P) and p.lv is not None}
            raise Stop
        frames, failed = list(ex.frames), None
        old = {k: ex.contracts[k] for k in ("simfil::Parser::parsePrecedence", "simfil::tokenize")}
        ex.contracts["simfil::Parser::parsePrecedence"] = stop
        ex.contracts["simfil::tokenize"] = lambda ex_, f, t, x: ToksV(self.n)
        try: ex.inline(self.compile_fid(), None, [self.env, ViewV(BI.StrBase(z3.Const("text", Str)), z3.IntVal(0), BI.SLEN(z3.Const("text", Str))), z3.BoolVal(False), z3.BoolVal(False)])
        except Stop: pass
        finally: ex.contracts.update(old)
        ex.frames[:] = frames
        if set(got) != {"prefix", "infix"}: raise Unsupported("parselet tables of compile()")
        return got

    def probe(self):
        got = {}
        def run(ex):
            self.start(); got.update(self.tables())
        self.ex.explore(run)
        if not got: raise Unsupported("parselet tables of compile()")
        return got

    def run_tables(self):
        ex = self.ex
        got = self.probe()
        ex.stats.functions.append("simfil::compile")
        inv = {v: k for k, v in self.tok.items()}
        def run(ex):
            self.start()
            for kind, doc in (("prefix", set(PREFIX)), ("infix", set(PRECS))):
                have = {inv.get(k, str(k)) for k in got[kind]}
                ex.check(z3.BoolVal(have == doc), f"the {kind} operators are the language's", "C08", info=str(sorted(have ^ doc)))
            for k, v in got["infix"].items():
                m = self.method(v.rec, "precedence", 0)
                r = ex.load(ex.inline(m, ex.new_lv(v, "parselet"), []))
                ex.check(r.t == PRECS.get(inv[k], -1), f"precedence of {inv[k]}", "C08", info=str(r.t))
        ex.explore(run, cover="tables")

    def method(self, rec, name, np):
        def find(r):
            for f in self.a.decls[r].get("methods", []):
                d = self.a.decls[f]
                if d["n"] == name and len(d["params"]) == np and f in self.a.funcs: return f
            for b in self.a.decls[r].get("bases", []):
                t = self.a.T(b)
                if "d" in t and t["d"] in self.a.decls:
                    x = find(t["d"])
                    if x is not None: return x
            return None
        f = find(rec)
        if f is None: raise Unsupported(f"{self.a.decls[rec]['n']}::{name}")
        return f

    def run_parselet(self, kind, k, rec):
        ex, a, T = self.ex, self.a, self.tok
        name = next(n for n, v in T.items() if v == k)
        fid = self.method(rec, "parse", 3 if kind == "infix" else 2)
        L = f"{a.decls[rec]['n']}::parse ({kind} {name})"
        ex.stats.functions.append(f"simfil::{a.decls[rec]['n']}::parse")
        infix = kind == "infix"
        q = PRECS.get(name)
        def go():
            obj = self.tables()[kind][k]
            i = z3.Int("i"); pos = self.pos
            ex.assume(z3.And(i >= 0, pos == i + 1, tt(i) == k))
            self.rank = self.rank_parselet(pos)
            this = ex.new_lv(obj, "this")
            args = [self.p]
            l = None
            if infix:
                l = self.tree(name="left")
                ex.assume(z3.And(e0(l.t) >= 0, e0(l.t) < i, e1(l.t) == i, q <= ro(l.t)))
                args.append(ex.new_lv(self.ptr(l), "left"))
            args.append(ex.new_lv(TokV(i), "token"))
            self.log = []
            r = self.guarded(lambda: ex.load(ex.inline(fid, this, args)), lambda: self.may_fail(kind, name, i, l), L)
            e = self.expr(r)
            ex.check(z3.BoolVal(e is not None), f"{L}: yields an expression", "C25")
            if e is None: return
            ex.check(z3.And(self.pos >= pos, self.pos <= self.n - 1), f"{L}: never reads past the end marker", "C25")
            ex.check(self.inpath == self.inpath0, f"{L}: leaves the path context as it was", "C08")
            self.shape(kind, name, i, l, e, L)
        self.run(go, L)

    def may_fail(self, kind, name, i, l):
        """the text is not in the language"""
        ex, T = self.ex, self.tok
        last = self.log[-1] if self.log else None
        if kind == "infix" and name in ("LBRACK", "LBRACE"):
            if not self.log: return ety(l.t) == self.exprty["FIELD"]      # a[..]: see Expr::type of the operand
            return self.cur() != T[CLOSE[name]]
        if name in CLOSE: return self.cur() != T[CLOSE[name]]
        if name == "OP_CAST":
            return z3.And(tt(i + 1) != T["C_NULL"], z3.Or(tt(i + 1) != T["WORD"], z3.And(*[tstr(i + 1) != str_const(x) for x in [b"null"] + list(CASTS)])))
        if kind == "prefix" and name == "WORD": return z3.And(tt(i + 1) == T["LPAREN"], self.cur() != T["RPAREN"], self.cur() != T["COMMA"])
        if name == "REGEXP": return z3.BoolVal(True)       # not a regular expression
        return z3.BoolVal(False)

    def shape(self, kind, name, i, l, e, L):
        """the expression made is the one this token stands for"""
        ex, T = self.ex, self.tok
        m = e.made
        ok = lambda c, what: ex.check(c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c)), f"{L}: {what}", "C08")
        pos = self.pos
        is_ = lambda x, y: isinstance(x, PExpr) and isinstance(y, PExpr) and x.t.eq(y.t)
        def node(cls, op=None, n=None):
            good = m is not None and m[0] == cls and (op is None or m[1] == "simfil::Operator" + op) and (n is None or len(m[2]) == n)
            ok(good, f"makes {cls}{'<' + op + '>' if op else ''}")
            return m[2] if good else None
        def operand(p, inpath=None):
            """the one operand read after the operator"""
            ok(len(self.log) == 1 and self.log[0].get("r") is not None, "reads one operand")
            if len(self.log) != 1 or self.log[0].get("r") is None: return None
            c = self.log[0]
            ok(c["pos"] == i + 1, "the operand starts right after the operator")
            ok(c["end"] == pos, "nothing but the operand is read")
            ok(c["p"] == p, "the operand is read with the operator's precedence")
            ok(c["inpath"] == (self.inpath0 if inpath is None else z3.BoolVal(inpath)), "names in the operand are looked up as the language says")
            # groups: what follows binds looser than the operator and its operand
            ok(z3.And(self.Q(self.cur()) <= p, self.Q(self.cur()) <= ro(c["r"].t), lo(c["r"].t) > p), "the operand is all that binds tighter")
            return c["r"]
        def inner(first):
            """an expression in brackets"""
            ok(len(self.log) == 1 and self.log[0].get("r") is not None, "reads one expression")
            if len(self.log) != 1 or self.log[0].get("r") is None: return None
            c = self.log[0]
            ok(z3.And(c["pos"] == first, c["p"] == 0, c["end"] == pos - 1, tt(pos - 1) == T[CLOSE[name]]), "reads one expression and its closing bracket")
            ok(z3.Not(c["inpath"]), "names in brackets are not names in the path")
            return c["r"]
        const = lambda v: node("ConstExpr", n=1)
        if kind == "infix":
            q = PRECS[name]
            if name in BINARY or name in ("OP_AND", "OP_OR"):
                r = operand(q)
                a = node("BinaryExpr", BINARY[name], 2) if name in BINARY else node({"OP_AND": "AndExpr", "OP_OR": "OrExpr"}[name], n=2)
                if a and r: ok(is_(a[0], l) and is_(a[1], r), "left and right operand in their places")
            elif name == "DOT":
                r = operand(q, True); a = node("PathExpr", n=2)
                if a and r: ok(is_(a[0], l) and is_(a[1], r), "left and right operand in their places")
            elif name in ("LBRACE", "LBRACK"):
                r = inner(i + 1); a = node({"LBRACE": "SubExpr", "LBRACK": "SubscriptExpr"}[name], n=2)
                if a and r: ok(is_(a[0], l) and is_(a[1], r), "left and inner operand in their places")
            elif name in ("OP_BOOL", "OP_UNPACK"):
                a = node("UnaryExpr", "Bool", 1) if name == "OP_BOOL" else node("UnpackExpr", n=1)
                if a: ok(is_(a[0], l), "applies to its operand")
                ok(z3.And(pos == i + 1, z3.BoolVal(not self.log)), "reads nothing more")
            elif name == "OP_CAST":
                ok(z3.And(pos == i + 2, z3.BoolVal(not self.log)), "reads the type name only")
                w = tstr(i + 1); null = z3.Or(tt(i + 1) == T["C_NULL"], w == str_const(b"null"))
                if m is None: ok(False, "makes a conversion"); return
                if m[0] == "ConstExpr": ok(z3.And(null, m[2][0].t == ev.NULLV), "only a cast to null is null")
                else:
                    ok(m[0] == "UnaryExpr" and m[1] in ["simfil::Operator" + x for x in CASTS.values()] and is_(m[2][0], l), "converts its operand")
                    cs = [w == str_const(k) for k, o in CASTS.items() if m[1] == "simfil::Operator" + o]
                    ok(z3.And(tt(i + 1) == T["WORD"], *cs) if cs else False, "converts to the type named")
            elif name == "WORD":
                ok(len(self.log) == 1, "tries to read one operand")
                if len(self.log) != 1: return
                c = self.log[0]
                if c["r"] is not None:
                    r = operand(q); a = node("BinaryWordOpExpr", n=3)
                    if a and r: ok(is_(a[1], l) and is_(a[2], r) and isinstance(a[0], TokV) and a[0].i.eq(i), "left and right operand in their places")
                else:
                    a = node("UnaryWordOpExpr", n=2)
                    if a: ok(is_(a[1], l) and isinstance(a[0], TokV) and a[0].i.eq(i), "applies to its operand")
                    ok(z3.And(pos == i + 1, z3.Not(self.pfx(tt(i + 1)))), "reads nothing more, as no operand follows")
            return
        if name in PREFIX_OPS:
            r = operand(8); a = node("UnaryExpr", PREFIX_OPS[name], 1)
            if a and r: ok(is_(a[0], r), "applies to its operand")
            return
        if name == "LPAREN":
            r = inner(i + 1)
            if r: ok(is_(e, r), "yields the expression in the parentheses"); return
        field = lambda x, s: isinstance(x, PExpr) and x.made is not None and x.made[0] == "FieldExpr" and len(x.made[2]) == 1 and s(x.made[2][0])
        under = lambda v: isinstance(v, (StrV, CStr, ViewV)) and ex.entails(to_str(ex, v) == str_const(b"_"))
        if name in ("LBRACE", "LBRACK"):
            r = inner(i + 1); a = node({"LBRACE": "SubExpr", "LBRACK": "SubscriptExpr"}[name], n=2)
            if a and r: ok(is_(a[1], r) and field(a[0], under), "applies to the current node")
            return
        if name == "WORD" and m is not None and m[0] == "CallExpression":
            a = m[2]; good = len(a) == 2 and isinstance(a[1], ExprsV)
            ok(good, "a call has a name and arguments")
            if good:
                ok(to_str(ex, a[0]) == tstr(i), "calls the function named")
                v = a[1]
                ok(z3.And(tt(i + 1) == T["LPAREN"], tt(pos - 1) == T["RPAREN"], z3.If(v.n == 0, pos == i + 3, z3.And(v.s == i + 2, v.e == pos - 1))), "the arguments are all that is in the parentheses, in order")
                for c in self.log: ok(z3.And(c["p"] == 0, z3.Not(c["inpath"])), "an argument is a whole expression, outside of the path")
            return
        ok(z3.And(pos == i + 1, z3.BoolVal(not self.log)), "reads one token")
        if name in ("C_TRUE", "C_FALSE", "C_NULL", "INT", "STRING", "FLOAT", "REGEXP"):
            a = const(0)
            if not a: return
            v = a[0]
            if name == "FLOAT": ok(isinstance(v, OpaqueV) and v.tag == "float" and ex.entails(v.data == i), "the literal's value"); return
            t = v.t; E = self.enum
            if name == "C_NULL": ok(t == ev.NULLV, "null")
            elif name == "INT": ok(z3.And(ev.tag(t) == E["Int"], ev.vint(t) == tint(i)), "the literal's value")
            elif name == "STRING": ok(z3.And(ev.tag(t) == E["String"], ev.vstr(t) == tstr(i)), "the literal's value")
            elif name == "REGEXP": ok(z3.And(ev.tag(t) == E["TransientObject"], ev.vobj(t) == F("make_ReType", Str, ev.Obj)(tstr(i))), "the regular expression written")
            else: ok(z3.And(ev.tag(t) == E["Bool"], ev.vbo(t) == z3.BoolVal(name == "C_TRUE")), "the constant")
            return
        if name == "SELF": ok(m is not None and field(PExpr(e.t, m), under), "the current node"); return
        if name == "WILDCARD": node("WildcardExpr", n=0); return
        if name == "OP_TIMES": node("AnyChildExpr", n=0); return
        if name == "WORD":
            s = tstr(i); sym = z3.And(z3.Not(self.inpath0), F("is_symbol", Str, BOOL)(s)); con = z3.And(z3.Not(self.inpath0), z3.Not(sym), F("is_constant_name", Str, BOOL)(s))
            call = tt(i + 1) == T["LPAREN"]
            ok(z3.Not(call), "a word followed by a parenthesis is a call")
            if m is None: ok(False, "makes an expression"); return
            if m[0] == "ConstExpr":
                t = m[2][0].t
                ok(z3.Or(z3.And(sym, ev.tag(t) == self.enum["String"], ev.vstr(t) == s), z3.And(con, t == F("constant_named", Str, Val)(s))), "a symbol stands for its name, a constant for its value")
            else:
                a = node("FieldExpr", n=1)
                if a: ok(z3.And(z3.Not(sym), z3.Not(con), to_str(ex, a[0]) == s), "any other word names a field")

    def run_compile(self):
        ex, a = self.ex, self.a
        ex.stats.functions.append("simfil::compile"); ex.stats.functions.append("simfil::Parser::Parser")
        fid = self.compile_fid()
        L = "compile"
        def go():
            txt = z3.Const("text", Str)
            any_, wild = z3.Bool("any"), z3.Bool("autoWildcard")
            self.rank = None
            # the parser compile() makes has these tokens from the first on
            made = []
            oldp = self.is_p
            def is_p(t):
                v = ex.get(t)
                if not isinstance(v, StructV) or v.rec != self.rec: raise Unsupported("parser")
                if not made:
                    made.append(t); self.p = t
                    ex.check(self.pos == 0, "compile: parsing starts at the first token", "C08")
                    ex.check(z3.Not(self.inpath), "compile: parsing starts outside of a path", "C08")
                    tv = v.fields.get(self.fvec)
                    ex.check(z3.BoolVal(isinstance(tv, ToksV)), "compile: parses the text's tokens", "C08")
                elif not made[0].same(t): raise Unsupported("second parser")
            self.is_p = is_p
            try:
                r = self.guarded(lambda: ex.load(ex.inline(fid, None, [self.env, ViewV(BI.StrBase(txt), z3.IntVal(0), BI.SLEN(txt)), any_, wild])), lambda: self.cur() != self.tok["NIL"], L)
            finally: self.is_p = oldp
            e = self.expr(r)
            ex.check(z3.BoolVal(e is not None), f"{L}: yields an expression", "C25")
            if e is None: return
            ex.check(z3.And(self.pos == self.n - 1), f"{L}: accepts a text only as a whole", "C25")
            calls = [c for c in self.log if c.get("r") is not None]
            ok = len(calls) == 1
            ex.check(z3.BoolVal(ok), f"{L}: parses one expression", "C08")
            if not ok: return
            c = calls[0]; root = c["r"]
            ex.check(z3.And(c["p"] == 0, c["pos"] == 0), f"{L}: parses the whole text with the lowest precedence", "C08")
            m = e.made
            x = e
            is_any = m is not None and m[0] == "CallExpression"
            ex.check(any_ == z3.BoolVal(is_any), f"{L}: asks for any result exactly if told to", "C08")
            if is_any:
                v = m[2][1] if len(m[2]) == 2 else None
                good = isinstance(v, ExprsV) and v.first is not None and ex.entails(z3.And(v.n == 1, to_str(ex, m[2][0]) == str_const(b"any")))
                ex.check(z3.BoolVal(good), f"{L}: any of the expression's results", "C08")
                if not good: return
                x = v.first
            w = x.made is not None and x.made[0] == "BinaryExpr"
            if w: ex.check(z3.BoolVal(x.made[1] == "simfil::OperatorEq" and isinstance(x.made[2][0], PExpr) and x.made[2][0].made is not None and x.made[2][0].made[0] == "WildcardExpr" and isinstance(x.made[2][1], PExpr) and x.made[2][1].t.eq(root.t)), f"{L}: looks the constant up everywhere", "C08")
            else: ex.check(z3.BoolVal(x.t.eq(root.t)), f"{L}: is the expression parsed", "C08")
            ex.check(z3.And(wild, econst(root.t)) == z3.BoolVal(w), f"{L}: wraps exactly constants, if told to", "C08")
        self.run(go, "compile")


class Suite(BaseSuite):
    PROPS = ("C08", "C25")
    TU = "drivers/eval.cpp"
    HARNESS = ev.Suite.HARNESS
    ASSUME = ["the tokens are the text's (C01-C04): the last, and only the last, is the end marker; a word, string or regexp token holds a string",
              "folding a constant expression does not change what it means (C10)", "nesting depth and expression size are bounded by the stack",
              "which words are symbols (isSymbolWord) is compared on concrete texts only", "std::regex rejects what is no regular expression by an exception"]
    TRUST = TRUST + ["assumed contracts of std::vector, std::unordered_map, std::unique_ptr, std::function, std::get (vc/parser.py)"]
    BOUNDED = "otherwise: random token sequences on the real code, compared with a reference parser (vc/evalref.py)"
    BATCH = 1500

    def relevant(self, prop, ob): return ob["tag"] == prop or ob["tag"] in ("safety", "ub", "termination")

    def tasks(self, prop):
        a = self.a
        out = [("Parser::parsePrecedence", lambda st: Par(a, st).run_precedence()), ("Parser::parseInfix", lambda st: Par(a, st).run_infix()),
               ("compile: tables", lambda st: Par(a, st).run_tables()), ("compile", lambda st: Par(a, st).run_compile())]
        from .core import Stats
        p = Par(a, Stats())
        for kind, d in p.probe().items():
            inv = {v: k for k, v in p.tok.items()}
            for k, obj in d.items():
                if inv[k] not in (PREFIX if kind == "prefix" else PRECS): continue       # reported by the tables
                out.append((f"{a.decls[obj.rec]['n']} ({kind} {inv[k]})", lambda st, kind=kind, k=k, rec=obj.rec: Par(a, st).run_parselet(kind, k, rec)))
        return out

    def gen(self, prop, rng, hints): return R.soups(prop, rng)
    def judge(self, prop, line, out): return R.judge_parse(prop, line, out)
    def shrink(self, prop, t, d): return R.shrink(self, prop, t, d)
