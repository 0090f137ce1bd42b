"""Contracts of the operator dispatchers (include/simfil/operator.h, value.h): C05, C06, C07."""
import z3, struct, os
from . import ast as A
from .core import *
from . import builtins as BI
from .builtins import to_str, mkcat, int2str, SLEN, fp2str, slen64, substr64
from .suite import BaseSuite, TRUST, VERIF

KINDS = ["U", "N", "B", "I", "F", "S", "O", "A", "M", "T"]      # M: Object without a node (reads as null), T: user-defined value
NUL = ("N", "M"); NODE = ("O", "A")
ENUM = {"U": "Undef", "N": "Null", "B": "Bool", "I": "Int", "F": "Float", "S": "String", "O": "Object", "A": "Array", "M": "Object", "T": "TransientObject"}
F64 = z3.Float64()
RNE = z3.RNE()
BV64 = z3.BitVecSort(64)
scan_i_ok = z3.Function("scan_i_ok", Str, z3.BoolSort()); scan_i = z3.Function("scan_i", Str, BV64)
scan_f_ok = z3.Function("scan_f_ok", Str, z3.BoolSort()); scan_f = z3.Function("scan_f", Str, F64)
substr = z3.Function("substr", Str, z3.IntSort(), z3.IntSort(), Str)
strlt = z3.Function("str_less", Str, Str, z3.BoolSort())
node_size = z3.BitVec("node_size", 32)
BIN = {"OperatorAdd": "+", "OperatorSub": "-", "OperatorMul": "*", "OperatorDiv": "/", "OperatorMod": "%", "OperatorEq": "==", "OperatorNeq": "!=", "OperatorLt": "<",
       "OperatorLtEq": "<=", "OperatorGt": ">", "OperatorGtEq": ">=", "OperatorSubscript": "[]", "OperatorBitAnd": "&", "OperatorBitOr": "|", "OperatorBitXor": "^", "OperatorShl": "<<", "OperatorShr": ">>"}
UN = {"OperatorNegate": "-", "OperatorBool": "?", "OperatorNot": "not", "OperatorBitInv": "~", "OperatorLen": "#", "OperatorTypeof": "typeof", "OperatorAsInt": "int", "OperatorAsFloat": "float", "OperatorAsString": "string"}
COMPARE = ("==", "!=", "<", "<=", ">", ">=")


# ---------------------------------------------------------------- the specification
# a value is (kind, term); outcomes: ("U",) ("N",) ("B",t) ("I",t) ("F",t) ("S",t) or ("E", condition-free error) ; conditional outcomes: ("if", cond, a, b)
def b(c): return ("B", c if z3.is_expr(c) else z3.BoolVal(c))
def s(x): return ("S", str_const(x) if isinstance(x, bytes) else x)
UNDEF, NULL, ERR = ("U",), ("N",), ("E", "operands")
DIVZERO = ("E", "zero")
def tof(v): return v[1] if v[0] == "F" else z3.fpSignedToFP(RNE, v[1], F64)
def asstr(v):
    if v[0] == "B": return z3.If(v[1], str_const(b"true"), str_const(b"false"))
    if v[0] == "I": return int2str(z3.BV2Int(v[1], True))
    if v[0] == "F": return fp2str(v[1])
    if v[0] == "S": return v[1]
    return str_const(b"null") if v[0] in NUL else Str.nil


def num(l, r): return l[0] in "IF" and r[0] in "IF"


def spec_bin(op, l, r):
    if l[0] == "U" or r[0] == "U": return UNDEF
    if op in COMPARE: return b(compare(op, l, r))
    if op == "+":
        if l[0] == "S" and r[0] == "S": return s(mkcat(l[1], r[1]))
        if l[0] == "S" and r[0] not in NODE: return s(mkcat(l[1], asstr(r)))
        if r[0] == "S" and l[0] not in NODE: return s(mkcat(asstr(l), r[1]))
        if l[0] in NUL or r[0] in NUL: return NULL
        if (l[0] in NODE or l[0] == "S") and (r[0] in NODE or r[0] == "S"): return NULL
    if l[0] in NUL or r[0] in NUL: return NULL
    if op in "+-*" and num(l, r):
        if l[0] == r[0] == "I": return ("I", l[1] + r[1] if op == "+" else l[1] - r[1] if op == "-" else l[1] * r[1])
        x, y = tof(l), tof(r)
        return ("F", z3.fpAdd(RNE, x, y) if op == "+" else z3.fpSub(RNE, x, y) if op == "-" else z3.fpMul(RNE, x, y))
    if op == "/" and num(l, r):
        if l[0] == r[0] == "I": return ("if", r[1] == 0, DIVZERO, ("I", l[1] / r[1]))     # two's complement: MIN / -1 wraps to MIN
        return ("if", z3.fpIsZero(tof(r)), DIVZERO, ("F", z3.fpDiv(RNE, tof(l), tof(r))))
    if op == "%" and l[0] == r[0] == "I": return ("if", r[1] == 0, DIVZERO, ("I", z3.SRem(l[1], r[1])))
    if l[0] == r[0] == "I":
        x, y = l[1], r[1]
        if op == "&": return ("I", x & y)
        if op == "|": return ("I", x | y)
        if op == "^": return ("I", x ^ y)
        big = z3.UGE(y, z3.BitVecVal(64, 64))
        if op == "<<": return ("I", z3.If(big, z3.BitVecVal(0, 64), x << y))
        if op == ">>": return ("I", z3.If(big, z3.BitVecVal(0, 64), z3.LShR(x, y)))
    if op == "[]" and l[0] == "S" and r[0] == "I":
        i = r[1]
        return ("if", z3.And(i >= 0, i < slen64(l[1])), s(substr64(l[1], i, z3.BitVecVal(1, 64))), NULL)     # lengths are below 2^63
    return ERR


def compare(op, l, r):
    """truth of a comparison of two defined values"""
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    if op == "!=": return z3.Not(compare("==", l, r))
    if op == ">": return compare("<", r, l)
    if op == ">=": return compare("<=", r, l)
    if l[0] in NUL and r[0] in NUL: return F if op == "<" else T
    if l[0] == r[0] == "I": return {"==": lambda: l[1] == r[1], "<": lambda: l[1] < r[1], "<=": lambda: l[1] <= r[1]}[op]()
    if num(l, r): return {"==": z3.fpEQ, "<": z3.fpLT, "<=": z3.fpLEQ}[op](tof(l), tof(r))
    if l[0] == r[0] == "S": return l[1] == r[1] if op == "==" else strlt(l[1], r[1]) if op == "<" else z3.Or(l[1] == r[1], strlt(l[1], r[1]))
    if l[0] == r[0] == "B" and op == "==": return l[1] == r[1]
    return F


def truth(v):
    if v[0] == "B": return v[1]
    return z3.BoolVal(v[0] not in NUL)


TYPENAME = {"N": b"null", "M": b"null", "B": b"bool", "I": b"int", "F": b"float", "S": b"string", "O": b"model", "A": b"model"}
TWO63 = z3.FPVal(2.0 ** 63, F64)


def spec_un(op, v):
    k = v[0]
    if k == "U": return UNDEF
    if op == "?": return b(truth(v))
    if op == "not": return b(z3.Not(truth(v)))
    if op == "-": return ("I", -v[1]) if k == "I" else ("F", z3.fpNeg(v[1])) if k == "F" else ERR
    if op == "~": return ("I", ~v[1]) if k == "I" else NULL if k in NUL else ERR
    if op == "#":
        if k in NUL: return NULL
        if k == "S": return ("I", slen64(v[1]))
        return ("I", z3.ZeroExt(32, node_size)) if k in NODE else ERR
    if op == "typeof": return s(TYPENAME[k])
    if op == "int":
        if k == "B": return ("I", z3.If(v[1], z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
        if k == "I": return v
        if k == "F": return ("I", z3.If(z3.fpIsNaN(v[1]), z3.BitVecVal(0, 64), z3.If(z3.fpGEQ(v[1], TWO63), z3.BitVecVal(2 ** 63 - 1, 64),
                                 z3.If(z3.fpLT(v[1], z3.fpNeg(TWO63)), z3.BitVecVal(2 ** 63, 64), z3.fpToSBV(z3.RTZ(), v[1], BV64)))))
        if k == "S": return ("I", z3.If(scan_i_ok(v[1]), scan_i(v[1]), z3.BitVecVal(0, 64)))
        return ("I", z3.BitVecVal(0, 64))
    if op == "float":
        zero = z3.FPVal(0.0, F64)
        if k == "B": return ("F", z3.If(v[1], z3.FPVal(1.0, F64), zero))
        if k in "IF": return ("F", tof(v))
        if k == "S": return ("F", z3.If(scan_f_ok(v[1]), scan_f(v[1]), zero))
        return ("F", zero)
    if op == "string": return s(asstr(v))
    raise KeyError(op)


# ---------------------------------------------------------------- the code
class Ops:
    def __init__(self, ast, stats=None):
        self.a = ast
        ex = self.ex = Ex(ast, stats, mode="bv", fp="fp", timeout=30000, rounds=1)
        ex.cfg["ub_soft"] = True
        self.rec = ast.rec_by_name.get("simfil::Value", [None])[0]
        if self.rec is None: raise Unsupported("class Value not found")
        self.fields = {f["n"]: f["t"] for f in ast.decls[self.rec]["fields"]}
        if set(self.fields) != {"type", "value", "node"}: raise Unsupported("shape of class Value")
        e = ast.T(self.fields["type"])
        self.enum = {c["n"]: int(c["v"]) for d in ast.decls.values() if d.get("dk") == "Enum" and d["qn"] == "simfil::ValueType" for c in d["consts"]}
        self.alts = [x["t"] for x in ast.decls[ast.T(self.fields["value"])["d"]]["targs"]]
        self.kind_of_alt = {}
        for i, t in enumerate(self.alts):
            ty = ast.T(t)
            self.kind_of_alt[i] = "B" if ty["k"] == "bool" else "I" if ty["k"] == "int" else "F" if ty["k"] == "float" else {"std::basic_string": "S", "std::basic_string_view": "V", "std::monostate": "N"}.get(ty.get("n"), "T")
        ex.contracts["simfil::raise"] = self.c_raise
        for n in ("unaryOp", "binaryOp"): ex.contracts["simfil::MetaType::" + n] = self.c_meta
        ex.contracts["simfil::ModelNode::size"] = lambda ex, fid, this, args: I(node_size, 32, False)
        ex.cfg["virtual"] = self.virtual
        ex.contracts["simfil::TransientObject::TransientObject"] = self.c_tcopy
        ex.builtins["sscanf"] = ex.builtins["std::sscanf"] = self.b_sscanf

    def virtual(self, ex, fid, this, args, n):
        c = ex.contracts.get(ex.a.fname(fid))
        return c(ex, fid, this, args) if c else NotImplemented

    def c_raise(self, ex, fid, this, args):
        t = ex.a.decls[fid]["targs"][0]["t"]
        name = ex.a.T(t)["n"]
        if name == "simfil::InvalidOperandsError":
            ctor = [m for m in ex.a.decls[ex.a.T(t)["d"]]["methods"] if ex.a.decls[m]["dk"] == "CXXConstructor" and m in ex.a.funcs and len(ex.a.decls[m]["params"]) == 1 and not ex.a.decls[m].get("ctor")]
            obj = ex.new_lv(StructV(ex.a.T(t)["d"], {"operatorName": StrV(to_str(ex, args[0]))}))
            raise CppThrow(name, ex.get(obj))
        msg = None
        if args:
            v = ex.load(args[0])
            if isinstance(v, (StrV, CStr, ViewV)): msg = to_str(ex, v)
        raise CppThrow(name, OpaqueV("exception", msg))

    def c_tcopy(self, ex, fid, this, args):
        v = ex.load(args[0]); ex.set(this, v); return VOID

    def c_meta(self, ex, fid, this, args):
        self.meta_calls.append((ex.a.decls[fid]["n"], [ex.load(x) for x in args]))
        k = ex.choose(3)
        if k == 2: raise CppThrow("simfil::InvalidOperandsError", StructV(ex.a.rec_by_name["simfil::InvalidOperandsError"][0], {"operatorName": StrV(str_const(b"<metaop>"))}))
        r, self.meta_res = (self.value("S" if k == 0 else "I", "mr"))
        return r

    def b_sscanf(self, ex, fid, this, a, n):
        src, f = ex.load(a[0]), ex.load(a[1])
        out = ex.load(a[2])
        if not (isinstance(src, OpaqueV) and src.tag == "cstr" and isinstance(f, CStr)): raise Unsupported("sscanf")
        if f.b == b"%lld": ok, v = scan_i_ok(src.data), I(scan_i(src.data), 64, True)
        elif f.b == b"%lf": ok, v = scan_f_ok(src.data), D(scan_f(src.data))
        else: raise Unsupported("sscanf format")
        old = ex.get(out.lv)
        ex.set(out.lv, ex.merge(ok, v, old))
        return I(z3.If(ok, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), 32, True)

    def value(self, k, name):
        """an arbitrary value of one kind: (StructV, (kind, term))"""
        ex = self.ex
        node = ex.default_value(self.fields["node"])
        i, term, alt = 0, None, OpaqueV("monostate")
        if k == "B": term = z3.Bool(name); alt = term
        elif k == "I": term = z3.BitVec(name, 64); alt = I(term, 64, True)
        elif k == "F": term = z3.Const(name + ".f", F64); alt = D(term)
        elif k in ("S", "V"): term = z3.Const(name + ".s", Str); alt = StrV(term) if k == "S" else ViewV(BI.StrBase(term), z3.IntVal(0), SLEN(term))
        elif k == "T": alt = self.transient(name)
        want = {"S": "S", "V": "V", "B": "B", "I": "I", "F": "F", "T": "T"}.get(k)
        if want: i = next(j for j, kk in self.kind_of_alt.items() if kk == want)
        if k in NODE: node = self.live_node(node)
        kk = "S" if k == "V" else k
        v = StructV(self.rec, {"type": ex.iconst(self.enum[ENUM[kk]], *ex.tint(self.fields["type"])),
                               "value": VarV(self.alts, z3.IntVal(i), {i: alt}), "node": node})
        return v, (kk, term)

    def transient(self, name):
        ex = self.ex
        rec = ex.a.rec_by_name["simfil::TransientObject"][0]
        mrec = ex.a.rec_by_name["simfil::MetaType"][0]
        meta = ex.new_lv(StructV(mrec, {"ident": StrV(z3.Const(name + ".ident", Str))}), "meta")
        return StructV(rec, {"meta": P(meta), "data": P(ex.new_lv(OpaqueV("payload"), "data"))})

    def live_node(self, node):
        """a node whose pool pointer and address are set"""
        d = node.fields["data_"]
        f = dict(d.fields)
        f["model_"] = P(self.ex.new_lv(OpaqueV("pool"), "pool"))
        ad = f["addr_"]
        t = z3.BitVec("addr", 32)
        self.ex.assume(t != 0)
        f["addr_"] = StructV(ad.rec, {"value_": I(t, 32, False)})
        return StructV(node.rec, {"data_": StructV(d.rec, f)})

    def decode(self, v):
        """StructV(Value) -> (kind, term)"""
        ex = self.ex
        v = ex.load(v)
        t = z3.simplify(v.fields["type"].t)
        if not (z3.is_bv_value(t) or z3.is_int_value(t)): raise Unsupported("result type not determined")
        name = {n: k for k, n in self.enum.items()}[t.as_long()]
        k = next(k for k, n in ENUM.items() if n == name)
        if k in ("U", "N", "O", "A", "M"): return (k, None)
        var = v.fields["value"]
        i = z3.simplify(var.idx).as_long()
        ak = self.kind_of_alt[i]
        x = var.vals[i]
        if k == "S" and ak in ("S", "V"): return ("S", to_str(ex, x))
        if ak != k: return ("?", f"type {name} with a value of another kind")
        if k == "T": return (k, x)
        return (k, x if k == "B" else x.t)

    def expect(self, label, tag, spec, got):
        """one obligation: the outcome is the specified one"""
        ex = self.ex
        if spec[0] == "if":
            if ex.branch(spec[1]): return self.expect(label, tag, spec[2], got)
            return self.expect(label, tag, spec[3], got)
        if spec[0] == "E":
            ex.check(z3.BoolVal(got[0] == "throw" and got[1] == "std::runtime_error"), f"{label}: error is reported", tag, info=str(got)[:200])
            return
        if got[0] == "throw":
            ex.check(z3.BoolVal(False), f"{label}: no error", tag, info=str(got)[:200]); return
        k, t = got
        ex.check(z3.BoolVal(k == spec[0]), f"{label}: kind of result", tag, info=f"{k} instead of {spec[0]}")
        if k == spec[0] and len(spec) > 1 and spec[1] is not None:
            ex.check(t == spec[1], f"{label}: value of result", tag)

    def dispatcher(self, cls, op):
        for f in self.a.byname.get(f"simfil::{cls}::dispatch", []):
            d = self.a.decls[self.a.decls[f]["parent"]]
            if self.a.T(d["targs"][0]["t"]).get("n") == "simfil::" + op: return f
        raise Unsupported(f"{cls}<{op}>::dispatch not found")

    def names_op(self, msg, name):
        """the message contains the operator's textual name as a literal part"""
        if msg is None: return False
        return name.encode() in flat(msg)

    def run(self, op, prop):
        binary = op in BIN
        cls = "BinaryOperatorDispatcher" if binary else "UnaryOperatorDispatcher"
        fid = self.dispatcher(cls, op)
        nm = (BIN if binary else UN)[op]
        ex = self.ex
        ex.stats.functions.append(f"simfil::{cls}<{op}>::dispatch")
        kinds = KINDS + ["V"]
        for kl in kinds:
            for kr in (kinds if binary else [None]):
                if kl == "V" and kr not in ("S", "I", "V", None): continue
                if kr == "V" and kl not in ("S", "I", "V"): continue
                def run(ex, kl=kl, kr=kr):
                    self.meta_calls = []; self.meta_res = None
                    lv, l = self.value(kl, "l")
                    args = [ex.new_lv(lv, "lhs")]
                    if binary:
                        rv, r = self.value(kr, "r"); args.append(ex.new_lv(rv, "rhs"))
                    ks = kl + (kr or "")
                    label = f"{nm} {l[0]}" + (f" {r[0]}" if binary else "")
                    if "S" in (l[0], r[0] if binary else "") and binary and l[0] == r[0] == "S":
                        ex.assume(z3.And(z3.Or(l[1] == r[1], strlt(l[1], r[1]), strlt(r[1], l[1])), z3.Not(z3.And(strlt(l[1], r[1]), strlt(r[1], l[1]))), z3.Implies(l[1] == r[1], z3.And(z3.Not(strlt(l[1], r[1])), z3.Not(strlt(r[1], l[1]))))))
                    try: got = self.decode(ex.inline(fid, None, args))
                    except CppThrow as e: got = ("throw", e.ty, e.val.data if isinstance(e.val, OpaqueV) else None)
                    tag = self.tag(op)
                    if "T" in ks:
                        if "U" in ks and binary:
                            self.expect(label, tag, UNDEF, got); return
                        want = "unaryOp" if not binary else "binaryOp"
                        if got[0] == "throw":
                            ex.check(z3.BoolVal(got[1] == "std::runtime_error"), f"{label}: an unsupported operand is reported as an error", tag); return
                        calls = [c for c in self.meta_calls if c[0] == want]
                        ex.check(z3.BoolVal(len(calls) >= 1 and any(isinstance(x, (CStr, ViewV)) for x in calls[0][1]) and to_str(ex, calls[0][1][0]).eq(to_str(ex, CStr(nm.encode())))), f"{label}: handled by the type's own operator of that name", tag)
                        if self.meta_res: ex.check(z3.BoolVal(got[0] == self.meta_res[0]) if got[0] != self.meta_res[0] else got[1] == self.meta_res[1], f"{label}: result of the type's own operator", tag)
                        return
                    sp = spec_bin(nm, l, r) if binary else spec_un(nm, l)
                    self.expect(label, tag, sp, got)
                    if sp == ERR and got[0] == "throw": ex.check(z3.BoolVal(self.names_op(got[2], nm)), f"{label}: error names the operator", tag)
                ex.explore(run, cover=f"{nm} {kl} {kr or ''}")

    @staticmethod
    def tag(op):
        if op in ("OperatorEq", "OperatorNeq", "OperatorLt", "OperatorLtEq", "OperatorGt", "OperatorGtEq"): return "C05"
        if op in ("OperatorBool", "OperatorNot"): return "C07"
        return "C06"

    def lemmas(self):
        """consistency of comparisons, stated over the specification the code was proved against"""
        ex = self.ex
        def run(ex):
            ks = [k for k in KINDS if k not in ("U", "T")]
            for kl in ks:
                for kr in ks:
                    l, r = self.value(kl, "l")[1], self.value(kr, "r")[1]
                    c = lambda op, x=l, y=r: compare(op, x, y)
                    pre = []
                    if kl == kr == "S":
                        a_, b_ = l[1], r[1]
                        pre = [z3.Or(a_ == b_, strlt(a_, b_), strlt(b_, a_)), z3.Not(z3.And(strlt(a_, b_), strlt(b_, a_))), z3.Implies(a_ == b_, z3.Not(strlt(a_, b_)))]
                    def ob(g, what):
                        st, m, _ = ex.prover.prove(list(ex.pc) + pre, g)
                        ex.stats.obligations += 1
                        if st == "proved": ex.stats.discharged += 1
                        else: ex.stats.failed.append(Ob(f"lemma {what} for {kl} {kr}", st, "C05", m))
                    ob(c("!=") == z3.Not(c("==")), "!= is the negation of ==")
                    ob(c(">") == compare("<", r, l), "> is < with swapped operands")
                    ob(c(">=") == compare("<=", r, l), ">= is <= with swapped operands")
                    ob(c("==") == compare("==", r, l), "== is symmetric")
                    if (kl in "IFS" and kr in "IFS") or (kl in NUL and kr in NUL): ob(c("<=") == z3.Or(c("<"), c("==")), "<= is < or ==")
                    if (kl in "IFS" and kr in "IFS") and (kl == "S") == (kr == "S"):
                        nan = z3.Or(*[z3.fpIsNaN(v[1]) for v in (l, r) if v[0] == "F"] or [z3.BoolVal(False)])
                        ob(z3.Or(nan, z3.PbEq([(c("<"), 1), (c("=="), 1), (c(">"), 1)], 1)), "exactly one of <, ==, >")
                    if kl != kr and not (kl in "IF" and kr in "IF") and not (kl in NUL and kr in NUL):
                        ob(z3.And(z3.Not(c("==")), z3.Not(c("<")), z3.Not(c("<="))), "different kinds are never equal or ordered")
        ex.reset([]); ex.pend_out = []
        run(ex)


def flat(t):
    """the literal characters of a concatenation term, unknown parts dropped"""
    t = z3.simplify(t)
    out = []
    seen = 0
    def walk(x):
        if z3.is_app(x) and x.decl().eq(Str.snoc):
            walk(x.arg(0)); c = x.arg(1)
            out.append(c.as_long() & 255 if z3.is_int_value(c) else 0)
        elif z3.is_app(x) and x.num_args():
            for y in x.children(): walk(y)
    walk(t)
    return bytes(out)


# ---------------------------------------------------------------- execution
def f2h(x): return struct.pack(">d", x).hex()
def h2f(h): return struct.unpack(">d", bytes.fromhex(h))[0]


class Suite(BaseSuite):
    PROPS = ("C05", "C06", "C07")
    TU = "drivers/ops.cpp"
    HARNESS = ("ops", "harness/ops.cpp", ["src/exception-handler.cpp", "src/model/model.cpp", "src/model/nodes.cpp", "src/model/string-pool.cpp", "src/types.cpp", "src/value.cpp"])
    ASSUME = ["doubles are IEEE-754 binary64, round to nearest even (SMT floating point)", "assumed contracts: std::string comparison is a total order; std::to_string, sscanf and substr are uninterpreted",
              "user-defined types' own operators (MetaType::unaryOp/binaryOp) are arbitrary", "InvalidOperandsError's constructor stores the name it is given",
              "simfil::raise<T>() always throws T (its own contract is property C20)", "std::bad_alloc is not modelled"]
    TRUST = TRUST + ["assumed contracts of std::variant, std::get, std::string, std::shared_ptr (vc/builtins.py)"]

    def tasks(self, prop):
        ops = [o for o in list(BIN) + list(UN) if Ops.tag(o) == prop]
        t = [(o, lambda st, o=o: Ops(self.a, st).run(o, prop)) for o in ops]
        if prop == "C05": t.append(("lemmas", lambda st: Ops(self.a, st).lemmas()))
        self.a
        return t

    # spec executed: z3 folds constants
    def term(self, w):
        k, x = w[0], w[1:]
        if k == "B": return ("B", z3.BoolVal(x == "1"))
        if k == "I": return ("I", z3.BitVecVal(int(x), 64))
        if k == "F": return ("F", z3.fpBVToFP(z3.BitVecVal(int(x, 16), 64), F64))
        if k == "S": return ("S", bytes.fromhex(x))
        return (k, None)

    def expected(self, op, l, r):
        """(kind, value) or 'E' or None when unspecified"""
        lt, rt = self.term(l), self.term(r) if r is not None else None
        def ev(sp):
            if sp[0] == "if": 
                c = z3.simplify(sp[1])
                return ev(sp[2] if z3.is_true(c) else sp[3])
            if sp[0] == "E": return ("E", sp[1])
            if len(sp) == 1: return (sp[0], None)
            t = z3.simplify(sp[1]) if z3.is_expr(sp[1]) else sp[1]
            if sp[0] == "B": return ("B", z3.is_true(t))
            if sp[0] == "I": return ("I", t.as_signed_long()) if z3.is_bv_value(t) else ("I", None)
            if sp[0] == "F":
                if z3.is_fp_value(t) or z3.is_fprm_value(t):
                    if t.isNaN(): return ("F", "nan")
                    bv = z3.simplify(z3.fpToIEEEBV(t)); return ("F", format(bv.as_long(), "016x"))
                return ("F", None)
            return (sp[0], None)
        str_ = [v for v in (lt, rt) if v is not None and v[0] == "S"]
        if str_: return self.expected_str(op, lt, rt)
        return ev(spec_bin(op, lt, rt) if rt is not None else spec_un(op, lt))

    def expected_str(self, op, l, r):
        if r is None:
            x = l[1]
            if op == "?": return ("B", True)
            if op == "not": return ("B", False)
            if op == "#": return ("I", len(x))
            if op == "typeof": return ("S", b"string")
            if op == "string": return ("S", x)
            if op in ("int", "float"): return (op[0].upper(), None)
            return ("E", "operands")
        if l[0] == "U" or r[0] == "U": return ("U", None)
        both = l[0] == r[0] == "S"
        if op in COMPARE:
            if not both: return ("B", op == "!=")
            a_, b_ = l[1], r[1]
            return ("B", {"==": a_ == b_, "!=": a_ != b_, "<": a_ < b_, "<=": a_ <= b_, ">": a_ > b_, ">=": a_ >= b_}[op])
        if op == "+":
            if both: return ("S", l[1] + r[1])
            if l[0] in NODE or r[0] in NODE: return ("N", None)
            def st(v):
                if v[0] == "S": return v[1]
                if v[0] in NUL: return b"null"
                if v[0] == "B": return b"true" if z3.is_true(v[1]) else b"false"
                if v[0] == "I": return str(v[1].as_signed_long()).encode()
                return None
            x, y = st(l), st(r)
            return ("S", x + y if x is not None and y is not None else None)
        if l[0] in NUL or r[0] in NUL: return ("N", None)
        if op == "[]" and l[0] == "S" and r[0] == "I":
            i = r[1].as_signed_long()
            return ("S", l[1][i:i + 1]) if 0 <= i < len(l[1]) else ("N", None)
        return ("E", "operands")

    INTS = [0, 1, -1, 2, 3, -2, 7, 10, -10, 62, 63, 64, 65, 127, 128, 255, 256, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1, -63, -64, 1 << 40, 4294967295, -3, 1000000007]
    FLTS = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, -2.5, 1e10, 1e300, -1e300, 1e-300, 5e-324, 9007199254740992.0, 9007199254740993.0, 9.223372036854775e18, 9.223372036854775807e18, -9.223372036854775808e18, -9.3e18, float("inf"), float("-inf"), float("nan"), 63.0, 64.0, 3.0, 7.0]
    STRS = [b"", b"a", b"b", b"ab", b"abc", b"A", b"1", b"-5", b"1.5", b"null", b"true", b"\x00", b"\xff", b"zz", b"12abc", b" 3", b"e", b"1e3"]

    def atoms(self):
        return ["U", "N", "B0", "B1", "O", "A", "M"] + [f"I{i}" for i in self.INTS] + ["F" + f2h(x) for x in self.FLTS] + ["S" + x.hex() for x in self.STRS]

    def gen(self, prop, rng, hints):
        yield from hints
        at = self.atoms()
        ops = [(v, True) for k, v in BIN.items() if Ops.tag(k) == prop] + [(v, False) for k, v in UN.items() if Ops.tag(k) == prop]
        for o, bi in ops:
            if not bi:
                for x in at: yield f"u {o} {x}"
        pairs = [(x, y) for x in at for y in at]
        rng.shuffle(pairs)
        reps = [a_ for a_ in at if a_[0] in "UNBOAM"] + ["I3", "F" + f2h(2.5), "S" + b"ab".hex()]
        for o, bi in ops:
            if bi:
                for x in reps:
                    for y in reps: yield f"b {o} {x} {y}"
        for x, y in pairs:
            for o, bi in ops:
                if bi: yield f"b {o} {x} {y}"
        while True:
            def rnd():
                c = rng.random()
                if c < .4: return f"I{rng.getrandbits(64) - 2 ** 63 if rng.random() < .5 else rng.randrange(-70, 70)}"
                if c < .7: return "F" + (f2h(rng.uniform(-100, 100)) if rng.random() < .5 else format(rng.getrandbits(64), "016x"))
                if c < .85: return "S" + bytes(rng.choice(b"ab0-.\xff\0") for _ in range(rng.randrange(5))).hex()
                return rng.choice(at)
            for o, bi in ops:
                yield f"b {o} {rnd()} {rnd()}" if bi else f"u {o} {rnd()}"

    def judge(self, prop, line, out):
        w = line.split(" ")
        exp = self.expected(w[1], w[2], w[3] if len(w) > 3 else None)
        if isinstance(out, tuple): return f"crash: {out[1]}; specified: {exp}"
        o = out.split(" ", 1)
        if o[0] == "ERR":
            if exp[0] != "E": return f"error {o[1]!r} instead of {exp}"
            typ, msg = o[1].split(" ", 1) if " " in o[1] else (o[1], "")
            if typ != "runtime_error": return f"throws {typ}"
            if exp[1] == "operands" and w[1] not in bytes.fromhex(msg).decode("latin-1"): return "the error does not name the operator"
            return None
        k, x = o[1][0], o[1][1:]
        if exp[0] == "E": return f"{o[1]} instead of an error"
        if k != exp[0]: return f"kind {k} instead of {exp}"
        if exp[1] is None: return None
        got = {"B": lambda: x == "1", "I": lambda: int(x), "F": lambda: "nan" if h2f(x) != h2f(x) else x, "S": lambda: bytes.fromhex(x)}[k]()
        return None if got == exp[1] else f"{got!r} instead of {exp[1]!r}"


def model_hints(model):
    out = []
    vals = {}
    for d in model.decls():
        if d.arity() == 0: vals[d.name()] = model[d]
    def w(n):
        r = []
        if n in vals:
            v = vals[n]
            if z3.is_bv_value(v) and v.size() == 64: r.append(f"I{v.as_signed_long()}")
            if z3.is_bool(v): r.append("B1" if z3.is_true(v) else "B0")
        if n + ".f" in vals:
            bv = z3.simplify(z3.fpToIEEEBV(vals[n + ".f"]))
            if z3.is_bv_value(bv): r.append("F" + format(bv.as_long(), "016x"))
        return r
    ls, rs = w("l"), w("r")
    for l in ls:
        for o in UN.values(): out.append(f"u {o} {l}")
        for r in rs:
            for o in BIN.values(): out.append(f"b {o} {l} {r}")
    return out
