"""Specification of the tokenizer (src/token.cpp) and the contracts of its functions.

Text = bytes inp(0..N-1) (uninterpreted: every text of every length).  Every scan
function's contract is a mathematical function of (position); loops are tail-recursive
specification functions and each C++ loop is proved to compute the same thing by the
invariant "result still to come is unchanged" (spec(entry state) == spec(current state))."""
import z3
from .core import *
from . import builtins as BI
from .builtins import is_alpha, is_digit, is_alnum, is_xdigit, is_space, LOWER, SLEN

IS = z3.IntSort()
N = z3.Int("N")
Inp = Spec("inp", [IS], IS, None, axioms=lambda t, i: [t >= -128, t <= 127])   # bytes are signed chars
inp = Inp.f


def C(c): return z3.IntVal(ord(c))


def at(i): return z3.If(z3.And(i >= 0, i < N), inp(i), 0)


# ---- datatypes
_Tok = z3.Datatype("Tok")
_Tok.declare("tok", ("ty", IS), ("vk", IS), ("sv", Str), ("iv", IS), ("tb", IS), ("te", IS))
Tok = _Tok.create()
_Toks = z3.Datatype("Toks")
_Toks.declare("tnil")
_Toks.declare("tsnoc", ("tinit", _Toks), ("tlast", Tok))
Toks = _Toks.create()
_SR = z3.Datatype("SR")
_SR.declare("none")
_SR.declare("some", ("t", Tok), ("p", IS))
_SR.declare("fail")
SR = _SR.create()
_TR = z3.Datatype("TR")
_TR.declare("toks", ("l", Toks))
_TR.declare("tfail")
TR = _TR.create()

VK_NONE, VK_STR, VK_INT, VK_FLT = 0, 1, 2, 3
I64MAX = (1 << 63) - 1

# token type numbers are read from the enum in the current source
TYPES = {}


def ty(n): return z3.IntVal(TYPES[n])


def T_(t, vk, sv, iv, b, e): return Tok.tok(t if z3.is_expr(t) else ty(t), z3.IntVal(vk), sv, iv, b, e)


# ---- whitespace
Ws = Spec("Ws", [IS], IS, lambda p: z3.If(is_space(at(p)), Ws(p + 1), p))

# ---- words
KEYWORDS = {"_": "SELF", "and": "OP_AND", "or": "OP_OR", "not": "OP_NOT", "typeof": "OP_TYPEOF",
            "true": "C_TRUE", "false": "C_FALSE", "null": "C_NULL", "as": "OP_CAST"}


def word_token(b, p, acc):
    low = LOWER(acc)
    t = T_("WORD", VK_STR, acc, z3.IntVal(0), b, p)
    for k, v in KEYWORDS.items():
        t = z3.If(low == str_const(k.encode()), T_(v, VK_NONE, Str.nil, z3.IntVal(0), b, p), t)
    return SR.some(t, p)


def word_char(c): return z3.Or(is_alnum(c), c == C("_"), c == C("\\"))
def word_start(c): return z3.Or(is_alpha(c), c == C("_"), c == C("\\"), c == C("$"))


WB = Spec("WordBody", [IS, IS, Str], SR, lambda b, p, a: z3.If(
    at(p) == C("\\"),
    z3.If(p + 1 >= N, SR.fail, WL(b, p + 2, Str.snoc(a, inp(p + 1)))),
    WL(b, p + 1, Str.snoc(a, inp(p)))))
WL = Spec("WordRest", [IS, IS, Str], SR, lambda b, p, a: z3.If(z3.And(p < N, word_char(at(p))), WB(b, p, a), word_token(b, p, a)))


def spec_word(p): return z3.If(word_start(at(p)), WB(p, p, Str.nil), SR.none)


# ---- strings
def esc(c): return z3.If(c == C("n"), 10, z3.If(c == C("r"), 13, z3.If(c == C("t"), 9, c)))


# kind: 0 plain, 1 raw, 2 regexp
SK = Spec("StrRest", [IS, IS, IS, IS, Str], SR, lambda k, q, b, p, a: z3.If(
    p >= N, SR.fail, z3.If(
        inp(p) == q, SR.some(z3.If(k == 2, T_("REGEXP", VK_STR, a, z3.IntVal(0), b, p + 1), T_("STRING", VK_STR, a, z3.IntVal(0), b, p + 1)), p + 1), z3.If(
            inp(p) == C("\\"), z3.If(p + 1 >= N, SR.fail, z3.If(k == 0, SK(k, q, b, p + 2, Str.snoc(a, esc(inp(p + 1)))),
                                                             z3.If(inp(p + 1) == q, SK(k, q, b, p + 2, Str.snoc(a, q)), SK(k, q, b, p + 1, Str.snoc(a, C("\\")))))),
            SK(k, q, b, p + 1, Str.snoc(a, inp(p)))))))


def is_quote(c): return z3.Or(c == C("'"), c == C('"'))


def str_raw(p): return z3.And(z3.Or(at(p) == C("r"), at(p) == C("R")), is_quote(at(p + 1)))
def str_re(p): return z3.And(z3.Or(z3.And(at(p) == C("r"), at(p + 1) == C("e")), z3.And(at(p) == C("R"), at(p + 1) == C("E"))), is_quote(at(p + 2)))


def spec_string(p):
    q = lambda k, o: SK(z3.IntVal(k), at(p + o), p + o, p + o + 1, Str.nil)
    return z3.If(str_raw(p), q(1, 1), z3.If(str_re(p), q(2, 2), z3.If(is_quote(at(p)), q(0, 0), SR.none)))


# ---- numbers
def digval(c): return z3.If(is_digit(c), c - 48, z3.If(z3.And(c >= 97, c <= 102), c - 87, c - 55))


def num_char(c, base): return z3.Or(is_digit(c), z3.And(base > 10, is_xdigit(c)))


def flt(b, p): return SR.some(T_("FLOAT", VK_FLT, Str.nil, z3.IntVal(0), b, p), p)
def bad_tail(p): return z3.Or(is_alpha(at(p)), at(p) == C("."))


# exponent digits; z: all digits so far are zero ; after = what follows depends on k: 0 = fraction seen, 1 = plain
Ex_ = Spec("Exponent", [IS, IS, IS, IS, z3.BoolSort()], SR, lambda k, b, n, p, z: z3.If(
    is_digit(at(p)), Ex_(k, b, n, p + 1, z3.And(z, at(p) == 48)),
    z3.If(k == 0, z3.If(bad_tail(p), SR.fail, flt(b, p)), num_int(b, n, p, z))))


def num_int(b, n, p, z):
    return z3.If(z3.Not(z), flt(b, p), z3.If(bad_tail(p), SR.fail, SR.some(T_("INT", VK_INT, Str.nil, n, b, p), p)))


def is_e(c): return z3.Or(c == C("e"), c == C("E"))


def num_exp(k, b, n, p):
    t = z3.BoolVal(True)
    stop = z3.If(bad_tail(p), SR.fail, flt(b, p)) if k == 0 else num_int(b, n, p, t)
    return z3.If(is_e(at(p)), z3.If(at(p + 1) == C("-"), Ex_(z3.IntVal(k), b, n, p + 2, t), Ex_(z3.IntVal(k), b, n, p + 1, t)), stop)


Fr = Spec("Fraction", [IS, IS], SR, lambda b, p: z3.If(is_digit(at(p)), Fr(b, p + 1), num_exp(0, b, z3.IntVal(0), p)))

Dg = Spec("Digits", [IS, IS, IS, IS], SR, None)
# multiplication by the base is linear in each case
Dg.defn = (lambda base, b, p, n: (lambda nb: z3.If(
    num_char(at(p), base),
    z3.If(z3.And(base == 2, digval(at(p)) > 1), SR.fail,
          z3.If(nb + digval(at(p)) > I64MAX, SR.fail, Dg(base, b, p + 1, nb + digval(at(p))))),
    z3.If(at(p) == C("."), z3.If(base != 10, SR.fail, Fr(b, p + 1)), num_exp(1, b, n, p))))(
        z3.If(base == 16, 16 * n, z3.If(base == 2, 2 * n, 10 * n))))


def spec_number(p):
    z = z3.IntVal(0)
    hx = z3.And(at(p) == C("0"), at(p + 1) == C("x"))
    bn = z3.And(at(p) == C("0"), at(p + 1) == C("b"))
    return z3.If(hx, z3.If(is_xdigit(at(p + 2)), Dg(z3.IntVal(16), p, p + 2, z), SR.fail), z3.If(
        bn, z3.If(is_digit(at(p + 2)), Dg(z3.IntVal(2), p, p + 2, z), SR.fail), z3.If(
            z3.Or(is_digit(at(p)), z3.And(at(p) == C("."), is_digit(at(p + 1)))), Dg(z3.IntVal(10), p, p, z), SR.none)))


# ---- operators and punctuation: the longest entry that matches
OPS = {"(": "LPAREN", ")": "RPAREN", "{": "LBRACE", "}": "RBRACE", "[": "LBRACK", "]": "RBRACK", ",": "COMMA", ":": "COLON",
       "...": "OP_UNPACK", "**": "WILDCARD", ".": "DOT", "+": "OP_ADD", "-": "OP_SUB", "*": "OP_TIMES", "/": "OP_DIV", "%": "OP_MOD",
       "<<": "OP_LSHIFT", ">>": "OP_RSHIFT", "~": "OP_BITINV", "|": "OP_BITOR", "&": "OP_BITAND", "#": "OP_LEN", "^": "OP_BITXOR",
       "?": "OP_BOOL", "<=": "OP_LTEQ", "<": "OP_LT", ">=": "OP_GTEQ", ">": "OP_GT", "==": "OP_EQ", "!=": "OP_NOT_EQ", "=": "OP_EQ"}


def spec_syntax(p):
    r = SR.none
    for o in sorted(OPS, key=len):           # longest tested first (outermost)
        m = z3.And(*[at(p + i) == C(ch) for i, ch in enumerate(o)])
        r = z3.If(m, SR.some(T_(OPS[o], VK_NONE, Str.nil, z3.IntVal(0), p, p + len(o)), p + len(o)), r)
    return r


# ---- the token sequence
def scan(p):
    n, s, w, o = spec_number(p), spec_string(p), spec_word(p), spec_syntax(p)
    return z3.If(n == SR.none, z3.If(s == SR.none, z3.If(w == SR.none, o, w), s), n)


ScanN = Spec("specNumber", [IS], SR, lambda p: spec_number(p))
ScanS = Spec("specString", [IS], SR, lambda p: spec_string(p))
ScanW = Spec("specWord", [IS], SR, lambda p: spec_word(p))
ScanO = Spec("specSyntax", [IS], SR, lambda p: spec_syntax(p))


def scan_(p):
    n, s, w, o = ScanN(p), ScanS(p), ScanW(p), ScanO(p)
    return z3.If(n == SR.none, z3.If(s == SR.none, z3.If(w == SR.none, o, w), s), n)


def eof(l): return Toks.tsnoc(l, T_("NIL", VK_NONE, Str.nil, z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)))


Tz = Spec("tokens_from", [IS, Toks], TR, lambda p, l: z3.If(p >= N, TR.toks(eof(l)), (lambda q: (lambda r: z3.If(
    SR.is_some(r), Tz(SR.p(r), Toks.tsnoc(l, SR.t(r))), z3.If(SR.is_fail(r), TR.tfail, z3.If(q >= N, TR.toks(eof(l)), TR.tfail))))(scan_(q)))(Ws(p))))


# =====================================================================  contracts on the code
def encode_token(ex, v):
    """StructV(Token) -> Tok term"""
    v = ex.load(v)
    f = v.fields
    val = f["value"]
    idx = z3.simplify(val.idx)
    if not z3.is_int_value(idx): raise Unsupported("token value alternative not determined")
    k = idx.as_long()
    t = ex.a.T(val.alts[k])
    x = val.vals.get(k)
    sv, iv, vk = Str.nil, z3.IntVal(0), VK_NONE
    if t["k"] == "rec" and t["n"] == "std::basic_string": vk, sv = VK_STR, x.t
    elif t["k"] == "int": vk, iv = VK_INT, x.t
    elif t["k"] == "float": vk = VK_FLT
    return Tok.tok(f["type"].t, z3.IntVal(vk), sv, iv, f["begin"].t, f["end"].t)


def decode_token(ex, t):
    rec = ex.token_rec
    d = ex.a.decls[rec]
    fl = {f["n"]: f for f in d["fields"]}
    return StructV(rec, {"type": I(Tok.ty(t), 32, False), "value": OpaqueV("tokvalue", t),
                         "begin": I(Tok.tb(t), 64, False), "end": I(Tok.te(t), 64, False), "$tok": OpaqueV("tok", t)})


class TokEnc:
    nil = Toks.tnil
    def snoc(self, l, t): return Toks.tsnoc(l, t)
    def encode(self, ex, v):
        v = ex.load(v)
        if "$tok" in v.fields: return v.fields["$tok"].data
        return encode_token(ex, v)


class Tokenizer:
    """Contracts of token.cpp.  run() discharges every function's obligations."""
    SCANS = {"simfil::scanNumber": ScanN, "simfil::scanStringLiteral": ScanS, "simfil::scanWord": ScanW, "simfil::scanSyntax": ScanO}

    def __init__(self, ast, stats=None, timeout=20000):
        self.a = ast
        self.ex = ex = Ex(ast, stats, mode="int", fp="real", timeout=timeout, rounds=2)
        tok = ast.rec_by_name.get("simfil::Token")
        if not tok: raise Unsupported("struct Token not found")
        ex.token_rec = tok[0]
        TYPES.clear()
        for d in ast.decls.values():
            if d.get("dk") == "Enum" and d["qn"] == "simfil::Token::Type":
                for e in d["consts"]: TYPES[e["n"]] = int(e["v"])
        missing = [x for x in set(OPS.values()) | set(KEYWORDS.values()) | {"NIL", "INT", "FLOAT", "STRING", "REGEXP", "WORD"} if x not in TYPES]
        if missing: raise Unsupported(f"token types not found: {missing}")
        ex.contracts["simfil::raise"] = self.c_raise
        ex.loop_candidates = self.candidates
        ex.cfg["vec_ctor"] = self.vec_ctor
        ex.cfg["seq_len"] = self.seq_len
        self.scanner = ast.rec_by_name.get("simfil::Scanner")
        self.modular = {}
        for n, sp in self.SCANS.items():
            if self.has_scanner_sig(n): self.modular[n] = sp
        self.ws = self.has_scanner_sig("simfil::skipWhitespace")
        if self.has_shape():
            for n, sp in self.modular.items():
                ex.contracts[n] = self.scan_contract(sp)
            if self.ws: ex.contracts["simfil::skipWhitespace"] = self.ws_contract
        else:
            self.modular = {}; self.ws = False

    # Scanner's representation invariant: sv_ is orig_ without its first pos_ characters
    def has_shape(self):
        if not self.scanner: return False
        d = self.a.decls[self.scanner[0]]
        return {f["n"] for f in d["fields"]} == {"orig_", "sv_", "pos_"}

    def has_scanner_sig(self, n):
        ids = self.a.byname.get(n, [])
        if len(ids) != 1: return False
        ps = self.a.funcs[ids[0]]["params"]
        return len(ps) == 1 and self.a.recname(ps[0]["t"]) == "simfil::Scanner"

    def c_raise(self, ex, fid, this, args):
        t = ex.a.decls[fid]["targs"][0]["t"]
        raise CppThrow(ex.a.T(t)["n"])

    def base(self):
        if not hasattr(self, "_b"):
            self._b = BI.InpBase("inp")
        return self._b

    def scanner_at(self, p):
        ex = self.ex
        return StructV(self.scanner[0], {"orig_": ViewV(self.base(), z3.IntVal(0), N), "sv_": ViewV(self.base(), p, z3.simplify(N - p)), "pos_": I(p, 64, False)})

    def repr_inv(self, sc):
        sv, o, pos = sc.fields["sv_"], sc.fields["orig_"], sc.fields["pos_"].t
        return z3.And(sv.off == pos, sv.len == N - pos, pos >= 0, pos <= N, o.off == 0, o.len == N)

    def world(self):
        self.ex.assume(N >= 0)
        self.ex.assume(N <= (1 << 31) - 1)    # assumption: expression text shorter than 2 GiB

    # -- callee contracts used at call sites
    def scan_contract(self, sp):
        def c(ex, fid, this, args):
            lv = args[0]
            sc = ex.get(lv)
            ex.check(self.repr_inv(sc), f"{ex.where()}: scanner invariant holds before {ex.a.fname(fid)}", "safety")
            p = sc.fields["pos_"].t
            r = sp(p)
            if ex.branch(SR.is_none(r)): return OptV(z3.BoolVal(False), None)
            if ex.branch(SR.is_fail(r)): raise CppThrow("std::runtime_error")
            p2 = SR.p(r)
            ex.assume(z3.And(p2 > p, p2 <= N))     # established as a postcondition lemma
            self.advance(lv, p2)
            return OptV(z3.BoolVal(True), decode_token(ex, SR.t(r)))
        return c

    def ws_contract(self, ex, fid, this, args):
        lv = args[0]
        sc = ex.get(lv)
        ex.check(self.repr_inv(sc), f"{ex.where()}: scanner invariant holds before {ex.a.fname(fid)}", "safety")
        q = Ws(sc.fields["pos_"].t)
        ex.assume(z3.And(q >= sc.fields["pos_"].t, q <= N))
        self.advance(lv, q)
        return VOID

    def advance(self, lv, p):
        n = self.scanner_at(p)
        for f in ("sv_", "pos_"): self.ex.set(lv.sub(f), n.fields[f])

    def vec_ctor(self, ex, tid, a, n):
        d = ex.a.decls[ex.T(tid)["d"]]
        if ex.a.recname(d["targs"][0]["t"]) == "simfil::Token" and not a: return SeqV(TokEnc(), Toks.tnil)
        return None

    def seq_len(self, ex, v):
        if isinstance(v, SeqV): 
            t = z3.Function("toks_len", Toks, IS)(v.t); ex.assume(t >= 0)
            return t
        raise Unsupported("length")

    # -- invariant catalogue: by the types of the objects the loop writes
    def candidates(self, ex, ctx):
        lvs = [lv for lv, p in ctx.cells]
        # expand to scalar cells
        cells = {}
        for r in [ex.roots[o] for o in sorted(ex.roots)]:
            if r.v is None: continue
            def walk(v, path):
                if isinstance(v, StructV) and "$tok" not in v.fields:
                    for k, x in v.fields.items(): walk(x, path + (k,))
                elif isinstance(v, (I, StrV, ViewV, SeqV, D)) or isinstance(v, z3.BoolRef):
                    cells[(r.ord, path)] = (LV(r, path), v)
            walk(r.v, ())
        def written(key):
            return any(key[0] == o and key[1][:len(p)] == tuple(p)[:len(key[1])] for (o, p) in ctx.H)
        W = {k: x for k, x in cells.items() if written(k)}
        K = {k: x for k, x in cells.items() if not written(k)}
        ints = [(k, x) for k, x in W.items() if isinstance(x[1], I)]
        views = [(k, x) for k, x in W.items() if isinstance(x[1], ViewV)]
        strs = [(k, x) for k, x in W.items() if isinstance(x[1], StrV)]
        seqs = [(k, x) for k, x in W.items() if isinstance(x[1], SeqV)]
        dbls = [(k, x) for k, x in W.items() if isinstance(x[1], D)]
        out, var = [], []
        def cur(k): return ex.get(LV(ex.roots[k[0]], k[1]))
        nm = lambda k: f"{ex.roots[k[0]].name}{''.join('.' + str(p) for p in k[1])}"
        # positions: views into the text
        for k, (lv, v0) in views:
            if not isinstance(v0.base, BI.InpBase): continue
            e0 = z3.simplify(v0.off + v0.len)
            out.append((f"{nm(k)} ends where the text ends", lambda k=k, e0=e0: cur(k).off + cur(k).len == e0))
            out.append((f"{nm(k)} is within the text", lambda k=k: z3.And(cur(k).off >= 0, cur(k).len >= 0)))
            out.append((f"{nm(k)} only advances", lambda k=k, o=v0.off: cur(k).off >= o))
            out.append((f"{nm(k)} has advanced", lambda k=k, o=v0.off: cur(k).off > o))
            var.append((f"length of {nm(k)}", lambda k=k: cur(k).len))
        for k, (lv, v0) in ints:
            out.append((f"{nm(k)} is non-negative", lambda k=k: cur(k).t >= 0))
            out.append((f"{nm(k)} is at least its entry value", lambda k=k, v0=v0: cur(k).t >= v0.t))
            out.append((f"{nm(k)} is within the text", lambda k=k: z3.And(cur(k).t >= 0, cur(k).t <= N)))
            for k2, (l2, w0) in views:
                dlt = z3.simplify(v0.t - w0.off)
                out.append((f"{nm(k)} moves with {nm(k2)}", lambda k=k, k2=k2, dlt=dlt: cur(k).t - cur(k2).off == dlt))
                # a counter of steps is bounded by the text, so it cannot overflow
                out.append((f"{nm(k)} grows no faster than {nm(k2)}", lambda k=k, k2=k2, v0=v0, w0=w0: cur(k).t - v0.t <= cur(k2).off - w0.off))
            var.append((f"text left after {nm(k)}", lambda k=k: N - cur(k).t))
        # the position terms
        poss = [(nm(k), (lambda k=k: cur(k).off)) for k, x in views if isinstance(x[1].base, BI.InpBase)] or \
               [(nm(k), (lambda k=k: cur(k).t)) for k, x in ints if x[1].w == 64]
        consts = [(nm(k), x[1].t) for k, x in K.items() if isinstance(x[1], I) and x[1].w == 64 and x[1].sg]
        cvals = {}
        for n_, t in consts: cvals.setdefault(z3.simplify(t).sexpr(), (n_, z3.simplify(t)))
        c64 = [(n_, t) for n_, t in cvals.values()]
        bools = [(nm(k), x[1]) for k, x in K.items() if isinstance(x[1], z3.BoolRef)]
        def eqv(label, mk):
            try: e = mk()
            except Unsupported: return
            ctx.spec_names.add(label)
            out.append((label, lambda e=e, mk=mk: mk() == e))
        for pn, pf in poss:
            eqv(f"Ws({pn}) unchanged", lambda pf=pf: Ws(pf()))
            b0 = z3.Int("begin!any")
            z0 = z3.Int("n!any")
            for sk, (sl, s0) in strs:
                sf = lambda sk=sk: cur(sk).t
                eqv(f"WordRest(begin,{pn},{nm(sk)}) unchanged", lambda pf=pf, sf=sf: WL(self.B(ex), pf(), sf()))
                eqv(f"WordBody(begin,{pn},{nm(sk)}) unchanged", lambda pf=pf, sf=sf: WB(self.B(ex), pf(), sf()))
                for kd in (0, 1, 2):
                    eqv(f"StrRest({kd},quote,begin,{pn},{nm(sk)}) unchanged",
                        lambda pf=pf, sf=sf, kd=kd: SK(z3.IntVal(kd), self.Q(ex), self.B2(ex), pf(), sf()))
            for qk, (ql, q0) in seqs:
                eqv(f"tokens_from({pn},{nm(qk)}) unchanged", lambda pf=pf, qk=qk: Tz(pf(), cur(qk).t))
            for base in (10, 16, 2):
                for ik, (il, i0) in ints:
                    if i0.w != 64: continue
                    eqv(f"Digits({base},begin,{pn},{nm(ik)}) unchanged", lambda pf=pf, base=base, ik=ik: Dg(z3.IntVal(base), self.B(ex), pf(), cur(ik).t))
            nn = self.NN(ex)
            eqv(f"Fraction(begin,{pn}) unchanged", lambda pf=pf: Fr(self.B(ex), pf()))
            for dk, (dl, d0) in dbls:
                out.append((f"{nm(dk)} is non-negative", lambda dk=dk: cur(dk).t >= 0))
                for kk in (0, 1):
                    for nname, nt in c64 if kk == 1 else [("0", z3.IntVal(0))]:
                        eqv(f"Exponent({kk},begin,{nname},{pn},{nm(dk)}==0) unchanged",
                            lambda pf=pf, dk=dk, kk=kk, nt=nt: Ex_(z3.IntVal(kk), self.B(ex), nt, pf(), cur(dk).t == 0))
        if ex.cfg.get("debug_cands"): print([n for n, _ in out])
        return out, var

    # the start of the token being scanned, and the quote, as the contract under proof sees them
    def B(self, ex): return getattr(ex, "spec_begin", z3.IntVal(0))
    def B2(self, ex): return getattr(ex, "spec_sbegin", self.B(ex))
    def Q(self, ex): return getattr(ex, "spec_quote", z3.IntVal(39))
    def NN(self, ex): return z3.IntVal(0)

    # -- obligations
    def run_scan(self, name, sp):
        ex = self.ex
        fid = self.a.byname[name][0]
        p = z3.Int("p")
        saved = ex.contracts.pop(name, None)
        ex.stats.functions.append(name)

        def run(ex):
            self.world()
            ex.assume(z3.And(p >= 0, p <= N))
            ex.spec_begin = p
            ex.spec_sbegin = z3.If(str_raw(p), p + 1, z3.If(str_re(p), p + 2, p))
            ex.spec_quote = at(ex.spec_sbegin)
            lv = ex.new_lv(self.scanner_at(p), "s")
            spec = sp.defn(p)
            try:
                r = ex.load(ex.inline(fid, None, [lv]))
            except CppThrow as e:
                ex.check(SR.is_fail(spec), f"{name}: rejects (throws) only where the text is malformed", "C01")
                ex.check(z3.BoolVal(ex.exc_is(e, "std::runtime_error")) if hasattr(ex, "exc_is") else z3.BoolVal(True), f"{name}: failure is a std::runtime_error", "C01")
                return
            sc = ex.get(lv)
            ex.check(self.repr_inv(sc), f"{name}: scanner invariant re-established", "C01")
            has = z3.simplify(r.has)
            if not ex.branch(has):
                ex.check(SR.is_none(spec), f"{name}: returns nothing only where no such token starts", "C02")
                ex.check(sc.fields["pos_"].t == p, f"{name}: consumes no input when it returns nothing", "C01")
                return
            t = encode_token(ex, r.val)
            ex.check(SR.is_some(spec), f"{name}: a token is produced only where the text has one", "C02")
            st = SR.t(spec)
            isome = SR.is_some(spec)
            ex.check(z3.Implies(isome, sc.fields["pos_"].t == SR.p(spec)), f"{name}: consumes exactly the token's text", "C01")
            ex.check(z3.Implies(isome, z3.And(Tok.tb(t) == Tok.tb(st), Tok.te(t) == Tok.te(st))), f"{name}: token range is the consumed text", "C01")
            ex.check(z3.Implies(isome, Tok.ty(t) == Tok.ty(st)), f"{name}: token type", "C02")
            ex.check(z3.Implies(isome, Tok.vk(t) == Tok.vk(st)), f"{name}: kind of token value", "C02")
            ex.check(z3.Implies(z3.And(isome, Tok.vk(st) == VK_STR), Tok.sv(t) == Tok.sv(st)), f"{name}: string value of the token", "C03")
            ex.check(z3.Implies(z3.And(isome, Tok.vk(st) == VK_INT), Tok.iv(t) == Tok.iv(st)), f"{name}: integer value of the token", "C04")
        try:
            n = ex.explore(run, cover=name)
        finally:
            if saved: ex.contracts[name] = saved
        return n

    def run_ws(self):
        ex = self.ex
        name = "simfil::skipWhitespace"
        fid = self.a.byname[name][0]
        p = z3.Int("p")
        saved = ex.contracts.pop(name, None)
        ex.stats.functions.append(name)
        def run(ex):
            self.world(); ex.assume(z3.And(p >= 0, p <= N)); ex.spec_begin = p
            lv = ex.new_lv(self.scanner_at(p), "s")
            try: ex.inline(fid, None, [lv])
            except CppThrow:
                ex.check(False, f"{name}: never throws", "C01"); return
            sc = ex.get(lv)
            ex.check(self.repr_inv(sc), f"{name}: scanner invariant re-established", "C01")
            ex.check(sc.fields["pos_"].t == Ws(p), f"{name}: skips exactly the white space", "C01")
        try: ex.explore(run, cover=name)
        finally:
            if saved: ex.contracts[name] = saved

    def run_tokenize(self):
        ex = self.ex
        name = "simfil::tokenize"
        fid = self.a.byname[name][0]
        ex.stats.functions.append(name)
        def run(ex):
            self.world()
            v = ViewV(self.base(), z3.IntVal(0), N)
            spec = Tz(z3.IntVal(0), Toks.tnil)
            try:
                r = ex.load(ex.inline(fid, None, [v]))
            except CppThrow as e:
                ex.check(TR.is_tfail(spec), f"{name}: throws only if the text is malformed", "C01")
                return
            ex.check(TR.is_toks(spec), f"{name}: malformed text is rejected", "C01")
            ex.check(z3.Implies(TR.is_toks(spec), r.t == TR.l(spec)), f"{name}: the result is the token sequence of the whole text, in order, then one EOF", "C01")
        ex.explore(run, cover=name)

    def run_tostring(self):
        ex = self.ex
        table = {v: k for k, v in OPS.items() if k != "="}
        table.update({v: k for k, v in KEYWORDS.items()})
        table.update({"NIL": "EOF", "INT": "<int>", "FLOAT": "<float>", "STRING": "<string>", "REGEXP": "<regexp>", "WORD": "<word>"})
        ids = self.a.byname.get("simfil::Token::toString", [])
        st = [f for f in ids if len(self.a.funcs[f]["params"]) == 1]
        me = [f for f in ids if len(self.a.funcs[f]["params"]) == 0]
        if len(st) != 1 or len(me) != 1: raise Unsupported("Token::toString signatures")
        ex.stats.functions += ["simfil::Token::toString(Type)", "simfil::Token::toString()"]
        o = Oracle()
        for name, num in TYPES.items():
            want = table.get(name)
            if want is None: continue
            def run(ex, num=num, name=name, want=want):
                r = ex.load(ex.inline(st[0], None, [I(z3.IntVal(num), 32, False)]))
                ex.check(BI.to_str(ex, r) == str_const(want.encode()), f"simfil::Token::toString(Type): text of {name} is its spelling", "C02")
            ex.explore(run)
            if name in OPS.values() or name in KEYWORDS.values():
                got = o.tokens(want.encode())
                ex.reset([])
                ex.check(z3.BoolVal(got is not None and len(got) == 2 and got[0][0] == name), f"lemma: the spelling of {name} scans back to {name}", "C02")
            def run2(ex, num=num, name=name, want=want):
                d = ex.a.decls[ex.token_rec]
                vt = next(f["t"] for f in d["fields"] if f["n"] == "value")
                alts = [x["t"] for x in ex.a.decls[ex.T(vt)["d"]]["targs"]]
                vals = {i: ex.fresh(t, "v") for i, t in enumerate(alts)}
                kinds = {"rec": None}
                def alt(pred): return next(i for i, t in enumerate(alts) if pred(ex.T(t)))
                si, ii, fi = alt(lambda t: t["n"] == "std::basic_string" if t["k"] == "rec" else False), alt(lambda t: t["k"] == "int"), alt(lambda t: t["k"] == "float")
                i = {"INT": ii, "FLOAT": fi, "STRING": si, "REGEXP": si, "WORD": si}.get(name, 0)
                tok = ex.new_lv(StructV(ex.token_rec, {"type": I(z3.IntVal(num), 32, False), "value": VarV(alts, z3.IntVal(i), {i: vals[i]}), "begin": ex.ifresh("b", 64, False), "end": ex.ifresh("e", 64, False)}), "tok")
                try: r = ex.load(ex.inline(me[0], tok, []))
                except CppThrow:
                    ex.check(False, f"simfil::Token::toString(): does not throw for {name}", "C02"); return
                q = str_const(b"'")
                exp = {"INT": lambda: BI.int2str(vals[ii].t), "FLOAT": lambda: BI.real2str(vals[fi].t), "WORD": lambda: vals[si].t,
                       "STRING": lambda: BI.mkcat(BI.mkcat(q, vals[si].t), q), "REGEXP": lambda: BI.mkcat(BI.mkcat(str_const(b"re'"), vals[si].t), q)}.get(name, lambda: str_const(want.encode()))()
                ex.check(BI.to_str(ex, r) == exp, f"simfil::Token::toString(): text of a {name} token", "C02")
            ex.explore(run2)

    def lemmas(self):
        """facts about the specification the contracts use or the properties claim; induction on the text left"""
        ex = self.ex
        pr = ex.prover
        def step(label, goal, hyps=(), rounds=1, tag="C01"):
            ex.reset([])
            for h in hyps: ex.assume(h)
            ex.check(goal, "lemma: " + label, tag, rounds=rounds)
        dom = lambda p: z3.And(p >= 0, p <= N)
        def good(r, lo, b=None):
            """a scanned token: ends after lo, inside the text, range = [b, end of consumed text)"""
            g = z3.And(SR.p(r) > lo if b is None else SR.p(r) > lo, SR.p(r) <= N, Tok.te(SR.t(r)) == SR.p(r))
            if b is not None: g = z3.And(g, Tok.tb(SR.t(r)) == b)
            return z3.Implies(SR.is_some(r), g)
        def induct(label, sp, consts, P, pos):
            body = sp.defn(*consts)
            hyps = [N >= 0, sp.f(*consts) == body]
            # hypotheses for the recursive calls, guarded by the decreasing measure N - position
            group = self._group
            seen = set()
            from .core import collect_apps
            for s_, t in collect_apps([body], seen):
                if s_ in group:
                    a = t.children(); g_P, g_pos = group[s_]
                    hyps.append(z3.Implies(z3.And(dom(a[g_pos]), a[g_pos] > consts[pos]), g_P(t, *a)))
                elif s_.axioms is not None: hyps += s_.axioms(t, *t.children())
            step(label, P(sp.f(*consts), *consts), hyps, rounds=1)
        p, b, n, k, q, base = z3.Ints("p b n k q base"); a = z3.Const("a", Str); zz = z3.Bool("zz")
        # white space
        PW = lambda r, p: z3.Implies(dom(p), z3.And(r >= p, r <= N))
        self._group = {Ws: (PW, 0)}
        induct("white space is skipped forwards, never past the end", Ws, [p], PW, 0)
        # words (two mutually recursive functions; WordRest may stop at once)
        PL = lambda r, b, p, a: z3.Implies(z3.And(dom(p), b < p), good(r, b, b))
        # WordBody consumes at least one character, so its measure is taken one position later
        PB = lambda r, b, p, a: z3.Implies(z3.And(dom(p), p < N, b <= p), good(r, b, b))
        body_rest = lambda: [z3.Implies(z3.And(dom(x), x > p), PL(WL(b, x, y), b, x, y)) for x, y in ((p + 1, Str.snoc(a, inp(p))), (p + 2, Str.snoc(a, inp(p + 1))))]
        step("a word token covers the text it consumed (body)", PB(WB(b, p, a), b, p, a), [N >= 0, WB(b, p, a) == WB.defn(b, p, a)] + body_rest())
        step("a word token covers the text it consumed (rest)", PL(WL(b, p, a), b, p, a), [N >= 0, WL(b, p, a) == WL.defn(b, p, a), PB(WB(b, p, a), b, p, a)])
        step("a word starts where scanning starts", z3.Implies(dom(p), good(ScanW(p), p, p)), [N >= 0, ScanW(p) == ScanW.defn(p), PB(WB(p, p, Str.nil), p, p, Str.nil)])
        # strings
        PS = lambda r, k, q, b, p, a: z3.Implies(z3.And(dom(p), b < p), good(r, b, b))
        self._group = {SK: (PS, 3)}
        induct("a string token covers quote to quote", SK, [k, q, b, p, a], PS, 3)
        hy = [PS(SK(z3.IntVal(kk), at(p + o), p + o, p + o + 1, Str.nil), 0, 0, p + o, p + o + 1, 0) for kk, o in ((0, 0), (1, 1), (2, 2))]
        r = ScanS(p)
        step("only a raw or regexp prefix may precede a string's range", z3.Implies(dom(p), z3.And(good(r, p), z3.Implies(SR.is_some(r), z3.Or(
            Tok.tb(SR.t(r)) == p, z3.And(str_raw(p), Tok.tb(SR.t(r)) == p + 1), z3.And(str_re(p), Tok.tb(SR.t(r)) == p + 2))))), [N >= 0, r == ScanS.defn(p)] + hy)
        # numbers
        PE = lambda r, k, b, n, p, z: z3.Implies(z3.And(dom(p), b < p), good(r, b, b))
        PF = lambda r, b, p: z3.Implies(z3.And(dom(p), b < p), good(r, b, b))
        PD = lambda r, base, b, p, n: z3.Implies(z3.And(dom(p), b <= p, z3.Or(b < p, num_char(at(p), base), at(p) == C("."))), good(r, b, b))
        self._group = {Ex_: (PE, 3)}
        induct("a number with exponent covers the text it consumed", Ex_, [k, b, n, p, zz], PE, 3)
        self._group = {Ex_: (PE, 3), Fr: (PF, 1)}
        induct("a number with fraction covers the text it consumed", Fr, [b, p], PF, 1)
        self._group = {Ex_: (PE, 3), Fr: (PF, 1), Dg: (PD, 2)}
        induct("a number covers the text it consumed", Dg, [base, b, p, n], PD, 2)
        hy = [PD(Dg(z3.IntVal(ba), p, p + o, z3.IntVal(0)), z3.IntVal(ba), p, p + o, z3.IntVal(0)) for ba, o in ((10, 0), (16, 2), (2, 2))]
        step("a number starts where scanning starts", z3.Implies(dom(p), good(ScanN(p), p, p)), [N >= 0, ScanN(p) == ScanN.defn(p)] + hy)
        # value of an integer literal never exceeds the machine integer
        PV = lambda r, base, b, p, n: z3.Implies(z3.And(n >= 0, n <= I64MAX, SR.is_some(r), Tok.ty(SR.t(r)) == ty("INT")), z3.And(Tok.iv(SR.t(r)) >= 0, Tok.iv(SR.t(r)) <= I64MAX))
        PVE = lambda r, k, b, n, p, z: PV(r, 0, b, p, n)
        PVF = lambda r, b, p: z3.Implies(SR.is_some(r), Tok.ty(SR.t(r)) != ty("INT"))
        PVE0 = lambda r, k, b, n, p, z: z3.And(PVE(r, k, b, n, p, z), z3.Implies(z3.And(k == 0, SR.is_some(r)), Tok.ty(SR.t(r)) != ty("INT")))
        self._group = {Ex_: (PVE0, 3)}
        induct("an integer literal's value is representable (exponent)", Ex_, [k, b, n, p, zz], lambda r, k, b, n, p, z: z3.Implies(dom(p), PVE0(r, k, b, n, p, z)), 3)
        self._group = {Ex_: (PVE0, 3), Fr: (PVF, 1)}
        induct("a literal with a fraction is a float", Fr, [b, p], lambda r, b, p: z3.Implies(z3.And(dom(p), p < N), PVF(r, b, p)) if False else z3.Implies(dom(p), PVF(r, b, p)), 1)
        # operators
        step("an operator token covers its spelling", z3.Implies(dom(p), good(ScanO(p), p, p)), [N >= 0, ScanO(p) == ScanO.defn(p)])
        step("no operator at the end of the text", z3.Implies(p >= N, z3.And(ScanO(p) == SR.none, ScanW(p) == SR.none, ScanS(p) == SR.none, ScanN(p) == SR.none)),
             [N >= 0, p >= 0] + [f(p) == f.defn(p) for f in (ScanO, ScanW, ScanS, ScanN)])

    def run(self, log=None):
        import time
        for n, sp in list(self.modular.items()):
            t = time.time(); k = self.run_scan(n, sp)
            if log: log(f"{n}: {k} paths {time.time()-t:.1f}s")
        if self.ws:
            t = time.time(); self.run_ws()
            if log: log(f"ws {time.time()-t:.1f}s")
        t = time.time(); self.run_tokenize()
        if log: log(f"tokenize {time.time()-t:.1f}s")


# =====================================================================  the specification, executed
class Oracle:
    def __init__(self):
        from .conc import Compiled
        self.text = b""
        def inp_(i): b = self.text[i]; return b - 256 if b > 127 else b
        self.c = Compiled({"inp": inp_})
        self.ns = self.c.ns
        self.names = {v: k for k, v in TYPES.items()}

    def tokens(self, text):
        """list of (type, kind, string bytes, int, begin, end) or None when the text is malformed"""
        from .conc import bytes_of, list_of
        self.text = text
        self.ns["N"] = len(text)
        self.ns_fix()
        r = self.c.call(Tz, 0, ("tnil",))
        if r[0] == "tfail": return None
        out = []
        for t in list_of(r[1], "tnil", "tsnoc"):
            _, ty_, vk, sv, iv, b, e = t
            out.append((self.names[ty_], vk, bytes_of(sv), iv, b, e))
        return out

    def ns_fix(self): pass


class Suite:
    """properties C01-C04 on src/token.cpp"""
    PROPS = ("C01", "C02", "C03", "C04")
    SRC = ["src/token.cpp", "src/exception-handler.cpp"]
    TRUST = ["clang 18 AST of the current source is what the compiler compiles (tools/astx.cpp exports it mechanically)",
             "vc/core.py statement and expression semantics",
             "assumed contracts of libstdc++ calls used by token.cpp (vc/builtins.py): string_view, string push_back/concatenation, optional, variant, unordered_map::find, isalpha & co. in the C locale, negative chars classify as false",
             "z3 5.3 / cvc5 1.1.2"]
    ASSUME = ["expression text is shorter than 2 GiB", "doubles are treated as reals in the exponent test (pow(10,e)==1 iff e==0); the numeric value of FLOAT tokens is not specified",
              "std::bad_alloc is not modelled", "simfil::raise<T>() always throws T (its own contract is property C20)"]

    def __init__(self, tier):
        from . import ast as A
        self.tier = tier
        self.a = A.export(f"{A.REPO}/src/token.cpp")

    def tasks(self, prop):
        T = Tokenizer(self.a)
        out = []
        for n, sp in T.modular.items():
            out.append((n, lambda st, n=n, sp=sp: Tokenizer(self.a, st).run_scan(n, sp)))
        if T.ws: out.append(("simfil::skipWhitespace", lambda st: Tokenizer(self.a, st).run_ws()))
        out.append(("simfil::tokenize", lambda st: Tokenizer(self.a, st).run_tokenize()))
        if prop == "C02": out.append(("simfil::Token::toString", lambda st: Tokenizer(self.a, st).run_tostring()))
        out.append(("lemmas", lambda st: Tokenizer(self.a, st).lemmas()))
        return out

    def relevant(self, prop, ob):
        if ob["label"].startswith("lemma"): return True
        fn = ob["label"].split(":")[2] if ob["label"].startswith("simfil::") else ""
        if ob["tag"] in ("safety", "termination", "ub"): return prop == "C01" or (prop == "C04" and "overflow" in ob["label"])
        if ob["tag"] == prop: return True
        own = {"C02": ("scanWord", "scanSyntax", "Token"), "C03": ("scanStringLiteral",), "C04": ("scanNumber",)}.get(prop, ())
        return any(ob["label"].startswith("simfil::" + o) for o in own)

    # ---- concrete confirmation on the real code
    def prepare(self):
        from . import harness as H, ast as A
        self.exe = H.build("tok", f"{VERIF_DIR}/harness/tok.cpp", [f"{A.REPO}/{s}" for s in self.SRC])
        Tokenizer(self.a)
        self.oracle = Oracle()

    def expected(self, text):
        return self.oracle.tokens(text)

    def diff(self, prop, text, got):
        """None if the real result agrees with the specification as far as `prop` is concerned"""
        exp = self.oracle.tokens(text)
        if got is None: return None
        if isinstance(got, tuple): return f"crash: {got[1]}" if prop in ("C01",) or (prop == "C04" and "overflow" in got[1]) else None
        names = self.oracle.names
        act = None
        if got.startswith("OK"):
            act = []
            for w in got.split()[1:]:
                ty_, vk, val, b, e, ts = w.split(":")
                vk = int(vk)
                act.append((names.get(int(ty_), ty_), vk, bytes.fromhex(val) if vk == 1 else b"", int(val) if vk == 2 else 0, int(b), int(e)))
        elif got != "ERR runtime_error":
            return f"throws something else than std::runtime_error" if prop == "C01" else None
        hasq = any(c in text for c in b"'\""); hasd = any(48 <= c <= 57 for c in text)
        if (exp is None) != (act is None):
            if prop in ("C01", "C02") or (prop == "C03" and hasq) or (prop == "C04" and hasd):
                return "malformed text accepted" if exp is None else "well-formed text rejected"
            return None
        if exp is None: return None
        if prop == "C01":
            if len(exp) != len(act): return f"{len(act)} tokens instead of {len(exp)}"
            for x, y in zip(exp, act):
                if x[4:] != y[4:]: return f"token range {y[4:]} instead of {x[4:]}"
        for x, y in zip(exp, act):
            if x == y: continue
            if prop == "C02" and (x[0], x[1]) != (y[0], y[1]): return f"token {y[0]} instead of {x[0]}"
            if prop == "C02" and x[0] == "WORD" and x != y: return f"word {y[2]!r} instead of {x[2]!r}"
            if prop == "C03" and ({x[0], y[0]} & {"STRING", "REGEXP"}): return f"{y[0]} {y[2]!r} instead of {x[0]} {x[2]!r}"
            if prop == "C04" and ({x[0], y[0]} & {"INT"}): return f"{y[0]} {y[3]} instead of {x[0]} {x[3]}"
            break
        return None

    def pieces(self):
        lits = set()
        ints = set()
        def walk(n):
            if isinstance(n, dict):
                if n.get("k") == "StringLiteral": lits.add(bytes(n["v"]))
                if n.get("k") == "CharacterLiteral" and 0 <= n["v"] < 256: lits.add(bytes([n["v"]]))
                if n.get("k") == "IntegerLiteral": ints.add(int(n["v"]))
                for v in n.values(): walk(v)
            elif isinstance(n, list):
                for v in n: walk(v)
        for f in self.a.funcs.values(): walk(f["body"])
        base = [o.encode() for o in OPS] + [k.encode() for k in KEYWORDS] + [k.upper().encode() for k in KEYWORDS]
        base += [b"r'", b're"', b"R'", b"RE'", b"'", b'"', b"\\", b"\\n", b"\\t", b"\\'", b"a", b"z", b"A", b"Z", b"_", b"$", b"0", b"1", b"7", b"9", b"0x", b"0b",
                 b"F", b"f", b"e", b"E", b".", b"-", b" ", b"\t", b"\n", b"\r", b"\v", b"\f", b"\0", b"\x80", b"\xff", b"\xc3\xa9", b"1e", b"1.5", b"1e0", b"1e-0", b"10", b"0b10", b"0x1F",
                 b"9223372036854775807", b"9223372036854775808", b"9223372036854775806", b"922337203685477580", b"0x7fffffffffffffff", b"0x8000000000000000", b"0b" + b"1" * 63, b"0b1" + b"0" * 63, b"18446744073709551616", b"99999999999999999999"]
        for i in ints:
            if 0 < i < 256: base.append(bytes([i]))
            base.append(str(i).encode()); base.append(b"1" * min(i, 300) if i < 300 else b"")
        return sorted(set(base) | {l for l in lits if l and len(l) < 40})

    def inputs(self, rng, n, hints=()):
        ps = self.pieces()
        for h in hints: yield h
        for p in ps: yield p
        i = 0
        while i < n:
            i += 1
            k = rng.choice((1, 2, 2, 2, 3, 3, 4, 5, 8))
            t = b"".join(rng.choice(ps) for _ in range(k))
            m = rng.random()
            if m < 0.15 and t: j = rng.randrange(len(t)); t = t[:j] + bytes([rng.randrange(256)]) + t[j + 1:]
            elif m < 0.25: t = t[:rng.randrange(len(t) + 1)]
            elif m < 0.3: q = rng.choice([b"'", b'"']); t = rng.choice([b"", b"r", b"re", b"RE", b"R"]) + q + t + q
            elif m < 0.33: t = b"" .join(bytes([c]) * rng.choice((1, 1, 2, 3, 17, 70)) for c in t[:6])
            yield t

    def search(self, prop, seconds, rng, hints=(), n=None):
        """run the real tokenizer; returns (failure or None, inputs tried)"""
        import time
        from . import harness as H
        end = time.time() + seconds
        tried = 0
        gen = self.inputs(rng, 10 ** 9 if n is None else n, hints)
        done = False
        seen = set()
        while not done and (time.time() < end or n is not None):
            batch = []
            for t in gen:
                if t in seen: continue
                seen.add(t); batch.append(t)
                if len(batch) >= 3000: break
            else: done = True
            if not batch: break
            res = H.run_batch(self.exe, [b.hex() for b in batch])
            for t, g in zip(batch, res):
                tried += 1
                d = self.diff(prop, t, g)
                if d: 
                    t, d = self.shrink(prop, t, d)
                    return self.failure(prop, t, d), tried
        return None, tried

    def shrink(self, prop, t, d):
        from . import harness as H
        again = True
        while again and len(t) > 1:
            again = False
            cands = [t[:i] + t[i + 1:] for i in range(len(t))]
            for c, g in zip(cands, H.run_batch(self.exe, [c.hex() for c in cands])):
                x = self.diff(prop, c, g)
                if x: t, d, again = c, x, True; break
        return t, d

    def failure(self, prop, t, d):
        return {"input": t.decode("latin-1"), "input_hex": t.hex(), "problem": d, "expected": repr(self.oracle.tokens(t)),
                "how_to_replay": "feed input_hex to harness/tok.cpp built with src/token.cpp and src/exception-handler.cpp; expected = specification in vc/tok.py executed"}

    def hints(self, failed):
        return [bytes.fromhex(h) for f in failed for h in f.get("hints", [])]


def model_hints(model):
    """candidate texts from a solver model"""
    out = []
    try:
        n = model.eval(N, model_completion=True).as_long()
        p = model.eval(z3.Int("p"), model_completion=True).as_long()
        for lo in (0, p):
            hi = min(n, lo + 48)
            b = bytes(model.eval(inp(z3.IntVal(i)), model_completion=True).as_long() & 255 for i in range(lo, hi))
            out.append(b.hex())
    except Exception:
        pass
    return out


import os
VERIF_DIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
