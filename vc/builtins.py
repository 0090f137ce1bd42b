"""Assumed contracts of the C/C++ library functions the code calls (trusted base).
Each model is the documented effect; where a call has a precondition the model
emits an obligation for it."""
import z3
from .core import *

# ---- string theory: uninterpreted with ADT constructors nil / snoc
cat = Spec("cat", [Str, Str], Str, None)
viewstr = z3.Function("viewstr", z3.IntSort(), z3.IntSort(), Str)
int2str = z3.Function("int2str", z3.IntSort(), Str)
real2str = z3.Function("real2str", z3.RealSort(), Str)
fp2str = z3.Function("fp2str", z3.Float64(), Str)
slen64 = z3.Function("slen64", Str, z3.BitVecSort(64))      # length of a string where machine integers are bit vectors
substr64 = z3.Function("substr64", Str, z3.BitVecSort(64), z3.BitVecSort(64), Str)
opaque_str = z3.Const("some_message_text", Str)


def lower_c(c):
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


lower = Spec("lower", [Str], Str, lambda s: z3.If(Str.is_nil(s), Str.nil, Str.snoc(LOWER(Str.init(s)), lower_c(Str.last(s)))))
LOWER = lower.f
slen = Spec("slen", [Str], z3.IntSort(), lambda s: z3.If(Str.is_nil(s), 0, 1 + SLEN(Str.init(s))), lambda t, s: [t >= 0])
SLEN = slen.f
SUBSTR = z3.Function("substr", Str, z3.IntSort(), z3.IntSort(), Str)       # part of a string: position, length
# s1 ++ s2 by recursion on the second operand
cat.defn = lambda a, b: z3.If(Str.is_nil(b), a, Str.snoc(CAT(a, Str.init(b)), Str.last(b)))
CAT = cat.f


def mkcat(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    def parts(t):
        out = []
        while z3.is_app(t) and t.decl().eq(Str.snoc):
            out.append(t.arg(1)); t = t.arg(0)
        return t, out[::-1]
    base, cs = parts(b)
    if z3.is_app(base) and base.decl().eq(Str.nil):
        t = a
        for c in cs: t = Str.snoc(t, c)
        return t
    if z3.is_app(a) and a.decl().eq(Str.nil): return b
    return CAT(a, b)


def is_alpha(c): return z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))
def is_digit(c): return z3.And(c >= 48, c <= 57)
def is_alnum(c): return z3.Or(is_alpha(c), is_digit(c))
def is_xdigit(c): return z3.Or(is_digit(c), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))
def is_space(c): return z3.Or(c == 32, z3.And(c >= 9, c <= 13))
def is_upper(c): return z3.And(c >= 65, c <= 90)


class InpBase:
    """bytes of an arbitrary string_view: uninterpreted function of the index"""
    def __init__(self, name="inp"):
        self.f = z3.Function(name, z3.IntSort(), z3.IntSort()); self.name = name
    def at(self, i):
        return self.f(z3.simplify(i))


class StrBase:
    """view of a whole std::string"""
    def __init__(self, t): self.t = t
    def at(self, i): return z3.Function("char_at", Str, z3.IntSort(), z3.IntSort())(self.t, i)


class ConstBase:
    def __init__(self, b): self.b = b
    def at(self, i):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            k = i.as_long(); b = self.b[k]
            return z3.IntVal(b - 256 if b > 127 else b)
        t = z3.IntVal(0)
        for k, b in enumerate(self.b): t = z3.If(i == k, b - 256 if b > 127 else b, t)
        return t


def to_str(ex, v):
    v = ex.load(v)
    if isinstance(v, StrV): return v.t
    if isinstance(v, CStr): return str_const(v.b)
    if isinstance(v, ViewV):
        off, ln = z3.simplify(v.off), z3.simplify(v.len)
        if isinstance(v.base, StrBase):
            t = v.base.t
            return t if z3.is_int_value(off) and off.as_long() == 0 and ln.eq(z3.simplify(SLEN(t))) else SUBSTR(t, off, ln)
        if isinstance(v.base, ConstBase):
            if not z3.is_int_value(off) or not z3.is_int_value(ln): raise Unsupported("part of a constant")
            return str_const(v.base.b[off.as_long():off.as_long() + ln.as_long()])
        return viewstr(v.off, v.len)
    if isinstance(v, I) and v.w == 8: return Str.snoc(Str.nil, v.t)
    h = ex.cfg.get("to_str")
    if h:
        r = h(ex, v)
        if r is not None: return r
    raise Unsupported(f"string from {type(v).__name__}")


def idx_int(ex, t):
    return z3.BV2Int(t) if z3.is_bv(t) else t


def u64(ex, t):
    if isinstance(t, int): return ex.iconst(t, 64, False)
    if ex.mode == "bv" and not z3.is_bv(t): t = z3.Int2BV(t, 64)
    return I(t, 64, False)


def bool_int(ex, c):
    return ex.cast_int(c, 32, True)


def install(ex):
    B = ex.builtins
    ctor = ex.ctor_models = {}

    def reg(*names):
        def d(f):
            for n in names: B[n] = f
            return f
        return d

    # --- ctype (assumption: "C" locale; negative char values classify as false)
    def ctype(name, pred):
        @reg(name, "std::" + name)
        def f(ex, fid, this, a, n):
            c = ex.load(a[0]).t
            if z3.is_bv(c): c = z3.BV2Int(c, True)
            if len(a) > 1: return pred(c)
            return bool_int(ex, pred(c))
    for nm, p in (("isalpha", is_alpha), ("isdigit", is_digit), ("isalnum", is_alnum), ("isxdigit", is_xdigit), ("isspace", is_space), ("isupper", is_upper)):
        ctype(nm, p)

    @reg("tolower", "std::tolower")
    def _(ex, fid, this, a, n):
        c = ex.load(a[0])
        if ex.mode == "bv": 
            return I(z3.If(z3.And(c.t >= 65, c.t <= 90), c.t + 32, c.t), c.w, c.sg)
        return I(lower_c(c.t), c.w, c.sg)

    @reg("strlen", "std::strlen", "__builtin_strlen", "std::char_traits::length")
    def _(ex, fid, this, a, n):
        v = ex.load(a[0])
        if isinstance(v, CStr): return ex.iconst(len(v.b), 64, False)
        raise Unsupported("strlen")

    @reg("std::move", "std::forward", "std::as_const", "std::__addressof")
    def _(ex, fid, this, a, n):
        if len(a) != 1: return NotImplemented
        return a[0]

    @reg("std::addressof")
    def _(ex, fid, this, a, n): return P(a[0])

    @reg("std::min", "std::max")
    def _(ex, fid, this, a, n):
        nm = ex.a.fname(fid)
        x, y = ex.load(a[0]), ex.load(a[1])
        lt = ex.compare("<", y, x) if nm == "std::min" else ex.compare("<", x, y)
        m = ex.merge(lt, y, x)
        if m is None: raise Unsupported("min/max")
        return ex.new_lv(m, "minmax")

    @reg("std::swap")
    def _(ex, fid, this, a, n):
        x, y = ex.get(a[0]), ex.get(a[1]); ex.set(a[0], y); ex.set(a[1], x); return VOID

    @reg("__assert_fail")
    def _(ex, fid, this, a, n):
        ex.check(z3.BoolVal(False), f"{ex.where()}: assertion holds", "safety")
        raise PathEnd()

    @reg("pow", "std::pow")
    def _(ex, fid, this, a, n):
        x, y = ex.load(a[0]), ex.load(a[1])
        if isinstance(x, I): x = D(z3.ToReal(x.t)) 
        if isinstance(y, I): y = D(z3.ToReal(y.t)) if ex.fp == "real" else y
        if ex.fp != "real": raise Unsupported("pow")
        f = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        t = f(x.t, y.t)
        ex.assume(z3.Implies(y.t >= 0, z3.And(t >= 1, (t == 1) == (y.t == 0))))
        return D(t)

    # --- std::string
    def string_ctor(ex, tid, a, n):
        a = [ex.load(x) for x in a]
        a = [x for x in a if not (isinstance(x, OpaqueV) and x.tag in ("allocator", "less"))]
        if not a: return StrV(Str.nil)
        if len(a) == 1:
            return StrV(to_str(ex, a[0]))
        return NotImplemented
    ctor["std::basic_string"] = string_ctor
    for nm in ("std::allocator", "std::hash", "std::equal_to", "std::less", "std::locale"):
        ctor[nm] = (lambda t: (lambda ex, tid, a, n: OpaqueV(t)))("allocator")
    for nm in ("std::runtime_error", "std::out_of_range", "std::overflow_error", "std::logic_error", "std::exception", "std::invalid_argument", "std::length_error"):
        ctor[nm] = lambda ex, tid, a, n: OpaqueV("exception", to_str(ex, a[0]) if a else None)
    ctor["std::monostate"] = lambda ex, tid, a, n: OpaqueV("monostate")
    for nm in ("std::unique_lock", "std::shared_lock", "std::lock_guard", "std::scoped_lock", "std::shared_mutex", "std::mutex"):
        ctor[nm] = lambda ex, tid, a, n: OpaqueV("lock")

    @reg("std::lock", "std::unique_lock::unlock", "std::shared_lock::unlock", "std::unique_lock::lock", "std::shared_lock::lock")
    def _(ex, fid, this, a, n): return VOID

    @reg("std::exception::what", "std::runtime_error::what")
    def _(ex, fid, this, a, n): return OpaqueV("cstr")

    @reg("std::basic_string::push_back")
    def _(ex, fid, this, a, n):
        s = ex.get(this); c = ex.load(a[0])
        ct = z3.BV2Int(c.t, True) if z3.is_bv(c.t) else c.t
        ex.set(this, StrV(Str.snoc(s.t, ct))); return VOID

    @reg("std::basic_string::operator+=", "std::basic_string::append")
    def _(ex, fid, this, a, n):
        ex.set(this, StrV(mkcat(ex.get(this).t, to_str(ex, a[0])))); return this

    @reg("std::basic_string::operator=")
    def _(ex, fid, this, a, n):
        ex.set(this, StrV(to_str(ex, a[0]))); return this

    @reg("std::basic_string::size", "std::basic_string::length")
    def _(ex, fid, this, a, n):
        if ex.mode == "bv":
            t = slen64(ex.get(this).t); ex.assume(z3.ULT(t, z3.BitVecVal(2 ** 63, 64)))
            return I(t, 64, False)
        t = SLEN(ex.get(this).t); ex.assume(t >= 0)
        return u64(ex, t)

    @reg("std::basic_string::empty")
    def _(ex, fid, this, a, n): return ex.get(this).t == Str.nil

    @reg("std::basic_string::clear")
    def _(ex, fid, this, a, n): ex.set(this, StrV(Str.nil)); return VOID

    @reg("std::basic_string::reserve", "std::basic_string::shrink_to_fit", "std::vector::reserve")
    def _(ex, fid, this, a, n): return VOID

    @reg("std::basic_string::back")
    def _(ex, fid, this, a, n):
        s = ex.get(this); ex.ub(z3.Not(Str.is_nil(s.t)), "back() of non-empty string"); return ex.new_lv(I(Str.last(s.t), 8, True))

    @reg("std::basic_string::c_str", "std::basic_string::data")
    def _(ex, fid, this, a, n): return OpaqueV("cstr", ex.get(this).t)

    @reg("std::basic_string::operator basic_string_view")
    def _(ex, fid, this, a, n):
        t = ex.get(this).t
        return ViewV(StrBase(t), z3.IntVal(0), SLEN(t))

    ex.substr = SUBSTR

    @reg("std::basic_string::substr")
    def _(ex, fid, this, a, n):
        s = ex.get(this).t
        p = ex.load(a[0]); c = ex.load(a[1])
        if ex.mode == "bv":
            ex.assume(z3.ULT(slen64(s), z3.BitVecVal(2 ** 63, 64)))
            if ex.branch(z3.ULE(p.t, slen64(s))): return StrV(substr64(s, p.t, c.t))
            raise CppThrow("std::out_of_range")
        if ex.branch(p.t <= SLEN(s)):
            rest = SLEN(s) - p.t
            return StrV(SUBSTR(s, p.t, z3.simplify(z3.If(c.t < rest, c.t, rest))))
        raise CppThrow("std::out_of_range")

    @reg("std::operator+")
    def _(ex, fid, this, a, n):
        return StrV(mkcat(to_str(ex, a[0]), to_str(ex, a[1])))

    @reg('std::literals::string_literals::operator""s', 'std::operator""s', 'std::string_literals::operator""s')
    def _(ex, fid, this, a, n): return StrV(to_str(ex, a[0]))

    @reg("std::to_string")
    def _(ex, fid, this, a, n):
        v = ex.load(a[0])
        if isinstance(v, D): return StrV(fp2str(v.t) if ex.fp == "fp" else real2str(v.t))
        if isinstance(v, z3.BoolRef): v = ex.cast_int(v, 32, True)
        return StrV(int2str(z3.BV2Int(v.t, v.sg) if z3.is_bv(v.t) else v.t))

    strlt = z3.Function("str_less", Str, Str, z3.BoolSort())
    ex.strlt = strlt

    def is_stringish(ex, x):
        return isinstance(ex.load(x), (StrV, CStr, ViewV))

    def opeq(ex, fid, this, a, n):
        if this is not None: a = [this] + list(a)
        x, y = ex.load(a[0]), ex.load(a[1])
        if isinstance(x, (StrV, CStr, ViewV)) and isinstance(y, (StrV, CStr, ViewV)):
            return to_str(ex, x) == to_str(ex, y)
        if isinstance(x, IterV) and isinstance(y, IterV):
            return ex.iter_eq(x, y)
        if isinstance(x, P) or isinstance(y, P):
            return ex.ptr_eq(x, y)
        h = ex.cfg.get("opeq")
        if h:
            r = h(ex, x, y)
            if r is not None: return r
        return NotImplemented
    for nm in ("std::operator==", "std::__detail::operator==", "__gnu_cxx::operator==", "std::_Deque_iterator::operator=="):
        B[nm] = opeq

    def opne(ex, fid, this, a, n):
        r = opeq(ex, fid, this, a, n)
        return r if r is NotImplemented else z3.Not(r)
    for nm in ("std::operator!=", "__gnu_cxx::operator!=", "std::__detail::operator!="):
        B[nm] = opne

    ctor["std::__cmp_cat::__unspec"] = lambda ex, tid, a, n: OpaqueV("zero")

    def rel(op):
        def f(ex, fid, this, a, n):
            o = ex.load(a[0]); z = ex.load(a[1])
            if isinstance(o, OpaqueV) and o.tag == "ordering":
                x, y = o.data
                if op == "<": return strlt(x, y)
                if op == ">": return strlt(y, x)
                return z3.Or(x == y, strlt(x, y)) if op == "<=" else z3.Or(x == y, strlt(y, x))
            x, y = to_str(ex, a[0]), to_str(ex, a[1])
            if op == "<": return strlt(x, y)
            if op == ">": return strlt(y, x)
            # total order: x <= y  <=>  x == y or x < y
            return z3.Or(x == y, strlt(x, y)) if op == "<=" else z3.Or(x == y, strlt(y, x))
        return f
    for op in ("<", "<=", ">", ">="): B["std::operator" + op] = rel(op)

    @reg("std::operator<=>")
    def _(ex, fid, this, a, n):
        return OpaqueV("ordering", (to_str(ex, a[0]), to_str(ex, a[1])))

    # --- string_view
    def view_ctor(ex, tid, a, n):
        a = [ex.load(x) for x in a]
        if not a: return ViewV(ConstBase(b""), z3.IntVal(0), z3.IntVal(0))
        v = a[0]
        if isinstance(v, ViewV): return v
        if isinstance(v, CStr): return ViewV(ConstBase(v.b), z3.IntVal(0), z3.IntVal(len(v.b)))
        if isinstance(v, StrV): return ViewV(StrBase(v.t), z3.IntVal(0), SLEN(v.t))
        if isinstance(v, OpaqueV): return v
        return NotImplemented
    ctor["std::basic_string_view"] = view_ctor

    @reg("std::basic_string_view::size", "std::basic_string_view::length")
    def _(ex, fid, this, a, n): return I(ex.get(this).len, 64, False)

    @reg("std::basic_string_view::empty")
    def _(ex, fid, this, a, n): return ex.get(this).len == 0

    @reg("std::basic_string_view::operator[]", "std::basic_string_view::at")
    def _(ex, fid, this, a, n):
        v = ex.get(this); i = ex.load(a[0])
        ex.ub(z3.And(i.t >= 0, i.t < v.len), "string_view index in bounds")
        return ex.new_lv(ex_byte(ex, v.base.at(z3.simplify(v.off + i.t))), "ch")

    @reg("std::basic_string_view::front")
    def _(ex, fid, this, a, n):
        v = ex.get(this)
        ex.ub(v.len > 0, "front() of non-empty view")
        return ex.new_lv(ex_byte(ex, v.base.at(z3.simplify(v.off))), "ch")

    @reg("std::basic_string_view::back")
    def _(ex, fid, this, a, n):
        v = ex.get(this)
        ex.ub(v.len > 0, "back() of non-empty view")
        return ex.new_lv(ex_byte(ex, v.base.at(z3.simplify(v.off + v.len - 1))), "ch")

    def ex_byte(ex, t):
        ex.assume(z3.And(t >= -128, t <= 127))
        return I(t, 8, True)
    ex.byte = lambda t: ex_byte(ex, t)

    @reg("std::basic_string_view::remove_prefix")
    def _(ex, fid, this, a, n):
        v = ex.get(this); k = ex.load(a[0])
        ex.ub(z3.And(k.t >= 0, k.t <= v.len), "remove_prefix within the view")
        ex.set(this, ViewV(v.base, z3.simplify(v.off + k.t), z3.simplify(v.len - k.t))); return VOID

    @reg("std::basic_string_view::remove_suffix")
    def _(ex, fid, this, a, n):
        v = ex.get(this); k = ex.load(a[0])
        ex.ub(z3.And(k.t >= 0, k.t <= v.len), "remove_suffix within the view")
        ex.set(this, ViewV(v.base, v.off, z3.simplify(v.len - k.t))); return VOID

    NPOS = (1 << 64) - 1

    @reg("std::basic_string_view::substr")
    def _(ex, fid, this, a, n):
        v = ex.get(this); p = ex.load(a[0]).t; c = ex.load(a[1]).t if len(a) > 1 else z3.IntVal(NPOS)
        if ex.branch(p > v.len): raise CppThrow("std::out_of_range")
        rest = v.len - p
        ln = z3.simplify(z3.If(c < rest, c, rest))
        return ViewV(v.base, z3.simplify(v.off + p), ln)

    def view_eq_const(ex, v, p, c, b):
        """substr(p, c) == b as one formula"""
        rest = v.len - p
        ln = z3.If(c < rest, c, rest)
        cs = [ln == len(b)]
        for i, x in enumerate(b):
            t = v.base.at(z3.simplify(v.off + p + i))
            cs.append(t == (x - 256 if x > 127 else x))
        return z3.And(*cs)

    @reg("std::basic_string_view::compare")
    def _(ex, fid, this, a, n):
        v = ex.get(this)
        if len(a) == 1:
            p, c, s = z3.IntVal(0), v.len, ex.load(a[0])
        elif len(a) == 3:
            p, c, s = ex.load(a[0]).t, ex.load(a[1]).t, ex.load(a[2])
        else: return NotImplemented
        if ex.branch(p > v.len): raise CppThrow("std::out_of_range")
        if isinstance(s, ViewV) and isinstance(s.base, ConstBase): s = CStr(s.base.b)
        if not isinstance(s, CStr): return NotImplemented
        r = z3.Int(ex.fresh_name("cmp"))
        ex.assume((r == 0) == view_eq_const(ex, v, p, c, s.b))
        return I(r, 32, True)

    @reg("std::basic_string_view::starts_with")
    def _(ex, fid, this, a, n):
        v = ex.get(this); s = ex.load(a[0])
        if isinstance(s, I): s = CStr(bytes([ex.concrete_int(s) & 255]))
        if isinstance(s, ViewV) and isinstance(s.base, ConstBase): s = CStr(s.base.b)
        if not isinstance(s, CStr): return NotImplemented
        return view_eq_const(ex, v, z3.IntVal(0), z3.IntVal(len(s.b)), s.b)

    # --- pair / optional / variant
    def pair_ctor(ex, tid, a, n):
        d = ex.a.decls[ex.T(tid)["d"]]
        if len(a) == 2:
            return PairV(conv(ex, a[0], d["targs"][0]["t"]), conv(ex, a[1], d["targs"][1]["t"]))
        if len(a) == 1:
            v = ex.load(a[0])
            if isinstance(v, PairV): return PairV(conv(ex, v.first, d["targs"][0]["t"]), conv(ex, v.second, d["targs"][1]["t"]))
        if not a: return PairV(ex.default_value(d["targs"][0]["t"]), ex.default_value(d["targs"][1]["t"]))
        return NotImplemented
    ctor["std::pair"] = pair_ctor

    @reg("std::make_pair")
    def _(ex, fid, this, a, n): return PairV(ex.load(a[0]), ex.load(a[1]))

    def conv(ex, v, tid):
        """implicit conversion of a value to type tid (library element construction)"""
        ty = ex.T(tid)
        if ty["k"] == "ref":
            p = P(v if isinstance(v, LV) else ex.new_lv(v)); p.isref = True
            return p
        v = ex.load(v)
        if ty["k"] in ("int", "enum") and isinstance(v, (I, z3.BoolRef)): return ex.cast_int(v, ty["w"], ty.get("sg", False))
        if ty["k"] == "bool": return ex.as_bool(v)
        if ty["k"] == "rec" and ty["n"] == "std::basic_string": return StrV(to_str(ex, v))
        if ty["k"] == "rec" and ty["n"] == "std::basic_string_view": return view_ctor(ex, tid, [v], None)
        return v
    ex.conv = conv

    def opt_ctor(ex, tid, a, n):
        if not a: return OptV(z3.BoolVal(False), None)
        v = ex.load(a[0])
        if isinstance(v, OptV): return v
        if isinstance(v, StructV) and ex.a.decls[v.rec]["n"] == "nullopt_t": return OptV(z3.BoolVal(False), None)
        if isinstance(v, OpaqueV) and v.tag == "nullopt": return OptV(z3.BoolVal(False), None)
        et = ex.a.decls[ex.T(tid)["d"]]["targs"][0]["t"]
        return OptV(z3.BoolVal(True), conv(ex, v, et))
    ctor["std::optional"] = opt_ctor
    ctor["std::nullopt_t"] = lambda ex, tid, a, n: OpaqueV("nullopt")

    @reg("std::optional::operator bool", "std::optional::has_value")
    def _(ex, fid, this, a, n): return ex.get(this).has

    @reg("std::optional::operator*", "std::optional::value")
    def _(ex, fid, this, a, n):
        ex.ub(ex.get(this).has, "optional has a value"); return this.sub("val")

    @reg("std::optional::operator->")
    def _(ex, fid, this, a, n):
        ex.ub(ex.get(this).has, "optional has a value"); return P(this.sub("val"))

    @reg("std::optional::operator=")
    def _(ex, fid, this, a, n):
        v = ex.load(a[0])
        ex.set(this, v if isinstance(v, OptV) else (OptV(z3.BoolVal(False), None) if isinstance(v, OpaqueV) and v.tag == "nullopt" else OptV(z3.BoolVal(True), v))); return this

    @reg("std::optional::emplace")
    def _(ex, fid, this, a, n):
        et = ex.a.decls[ex.a.decls[fid]["parent"]]["targs"][0]["t"]
        ex.set(this, OptV(z3.BoolVal(True), ex.make(et, a))); return this.sub("val")

    @reg("std::optional::reset")
    def _(ex, fid, this, a, n): ex.set(this, OptV(z3.BoolVal(False), None)); return VOID

    def make(et, a, n=None):
        """construct T from arguments (emplace)"""
        ty = ex.T(et)
        if ty["k"] == "rec":
            d = ex.a.decls[ty["d"]]
            if d.get("scope"):
                if len(a) == 1:
                    v = ex.load(a[0])
                    if isinstance(v, StructV) and v.rec == ty["d"]: return v
                    if ex.cfg.get("scalar_sort") and ex.cfg["scalar_sort"](ex, ty) is not None and hasattr(v, "t"):
                        arg = n["c"][1] if n and len(n.get("c", ())) == 2 else {}
                        if isinstance(a[0], LV) and hasattr(ex, "moved") and arg.get("lv") == 2: ex.moved(a[0])
                        return v
                cand = [m for m in d.get("methods", []) if ex.a.decls[m]["dk"] == "CXXConstructor" and m in ex.a.funcs
                        and not ex.a.decls[m].get("ctor") in ("copy", "move") and len(ex.a.decls[m]["params"]) == len(a)]
                cand = [m for m in cand if all(type_fits(p["t"], ex.load(x)) for p, x in zip(ex.a.decls[m]["params"], a))]
                if len(cand) == 1:
                    this = ex.new_lv(None, d["n"], et)
                    ex.inline(cand[0], this, a); return ex.get(this)
                if not a: return ex.default_value(et)
                if d.get("agg"):
                    return StructV(ty["d"], {f["n"]: conv(ex, x, f["t"]) for f, x in zip(d["fields"], a)})
                raise Unsupported(f"emplace of {ty['n']}")
        if not a: return ex.default_value(et)
        if len(a) == 1: return conv(ex, a[0], et)
        return ex.builtin_construct(et, a, None)
    ex.make = make

    def type_fits(tid, v):
        ty = ex.T(ex.a.noref(tid))
        k = ty["k"]
        if isinstance(v, z3.BoolRef): return k in ("bool", "int")
        if isinstance(v, I): return k in ("int", "enum", "float")
        if isinstance(v, D): return k == "float"
        if isinstance(v, (StrV, CStr, ViewV)): return k == "rec" and ty["n"] in ("std::basic_string", "std::basic_string_view") or (k == "ptr" and isinstance(v, CStr))
        if isinstance(v, StructV): return k == "rec" and ty["d"] == v.rec
        if isinstance(v, P): return k == "ptr" or k == "rec"
        return True

    def variant_alt(ex, alts, v, argt):
        """which alternative a converting construction picks"""
        if argt is not None:
            at = ex.a.unqual(ex.a.noref(argt))
            for i, t in enumerate(alts):
                if ex.a.unqual(t) == at: return i
        for i, t in enumerate(alts):
            ty = ex.T(t)
            if isinstance(v, z3.BoolRef) and ty["k"] == "bool": return i
            if isinstance(v, I) and ty["k"] == "int": return i
            if isinstance(v, D) and ty["k"] == "float": return i
            if isinstance(v, (StrV, CStr)) and ty["k"] == "rec" and ty["n"] == "std::basic_string": return i
            if isinstance(v, ViewV) and ty["k"] == "rec" and ty["n"] == "std::basic_string_view": return i
            if isinstance(v, StructV) and ty["k"] == "rec" and ty["d"] == v.rec: return i
        for i, t in enumerate(alts):
            ty = ex.T(t)
            if isinstance(v, OpaqueV) and v.tag == "monostate" and ty["k"] == "rec" and ty["n"] == "std::monostate": return i
        raise Unsupported("variant alternative")

    def variant_ctor(ex, tid, a, n, argt=None):
        d = ex.a.decls[ex.T(tid)["d"]]
        alts = [x["t"] for x in d["targs"]]
        if not a: return VarV(alts, z3.IntVal(0), {0: ex.default_value(alts[0])})
        v = ex.load(a[0])
        if isinstance(v, VarV): return v
        if isinstance(v, OpaqueV) and v.tag == "in_place": raise Unsupported("in_place")
        if argt is None and n is not None and n.get("f") is not None:
            ps = ex.a.decls[n["f"]].get("params", [])
            if ps: argt = ps[0]["t"]
        i = variant_alt(ex, alts, v, argt)
        return VarV(alts, z3.IntVal(i), {i: conv(ex, v, alts[i])})
    ctor["std::variant"] = variant_ctor

    @reg("std::variant::operator=")
    def _(ex, fid, this, a, n):
        d = ex.a.decls[ex.a.decls[fid]["parent"]]
        alts = [x["t"] for x in d["targs"]]
        v = ex.load(a[0])
        if isinstance(v, VarV): ex.set(this, v); return this
        ps = ex.a.decls[fid]["params"]
        i = variant_alt(ex, alts, v, ps[0]["t"])
        ex.set(this, VarV(alts, z3.IntVal(i), {i: conv(ex, v, alts[i])})); return this

    def alt_index(ex, fid, v):
        ta = ex.a.decls[fid]["targs"][0]
        if "t" in ta:
            want = ex.a.unqual(ta["t"])
            for i, t in enumerate(v.alts):
                if ex.a.unqual(t) == want: return i
            raise Unsupported("get<T>")
        return int(ta["i"])

    @reg("std::get")
    def _(ex, fid, this, a, n):
        v = ex.load(a[0])
        if isinstance(v, PairV):
            i = int(ex.a.decls[fid]["targs"][0]["i"])
            return a[0].sub("first" if i == 0 else "second") if isinstance(a[0], LV) else (v.first if i == 0 else v.second)
        i = alt_index(ex, fid, v)
        if ex.branch(v.idx == i):
            lv = a[0] if isinstance(a[0], LV) else ex.new_lv(v)
            return lv.sub(("alt", i))
        raise CppThrow("std::bad_variant_access")

    @reg("std::get_if")
    def _(ex, fid, this, a, n):
        p = ex.load(a[0])
        if p.lv is None: return P(None)
        v = ex.get(p.lv); i = alt_index(ex, fid, v)
        if ex.branch(v.idx == i): return P(p.lv.sub(("alt", i)))
        return P(None)

    @reg("std::holds_alternative")
    def _(ex, fid, this, a, n):
        v = ex.load(a[0]); i = alt_index(ex, fid, v); return v.idx == i

    @reg("std::variant::index")
    def _(ex, fid, this, a, n): return u64(ex, ex.get(this).idx)

    @reg("std::visit")
    def _(ex, fid, this, a, n):
        if len(a) != 2: raise Unsupported("visit arity")
        fv = ex.load(a[0]); lv = a[1] if isinstance(a[1], LV) else ex.new_lv(a[1], "var")
        v = ex.get(lv)
        for i in range(len(v.alts)):
            if ex.branch(v.idx == i):
                arg = lv.sub(("alt", i))
                return dispatch_visitor(ex, a[0], fv, arg, v.alts[i])
        raise PathEnd()

    def dispatch_visitor(ex, flv, fv, arg, alt):
        want = ex.a.unqual(alt)
        if isinstance(fv, ClosV):
            rec = ex.a.decls[fv.cls]
            specs = rec.get("callspecs")
            cands = specs if specs is not None else [rec["callop"]]
        else:
            rec = ex.a.decls[fv.rec]
            cands = [m for m in rec["methods"] if ex.a.decls[m].get("oo") == "()"]
        exact = [m for m in cands if m in ex.a.funcs and ex.a.unqual(ex.a.noref(ex.a.decls[m]["params"][0]["t"])) == want]
        if not exact: raise Unsupported("visitor overload")
        m = exact[0]
        if isinstance(fv, ClosV): return ex.inline(m, fv.this, [arg], clos=fv)
        return ex.inline(m, flv if isinstance(flv, LV) else ex.new_lv(fv), [arg])
    ex.dispatch_visitor = dispatch_visitor

    # --- constant maps
    def map_ctor(ex, tid, a, n):
        for x in a:
            v = ex.load(x)
            if isinstance(v, ArrV):
                return MapV([(p.first, p.second) for p in v.items])
            if isinstance(v, MapV): return v
        if not a or all(isinstance(ex.load(x), OpaqueV) for x in a): return MapV([])
        return NotImplemented
    for nm in ("std::unordered_map", "std::map"): ctor[nm] = map_ctor

    def key_eq(ex, k, key):
        if isinstance(k, I): return k.t == key.t
        return to_str(ex, k) == to_str(ex, key)

    @reg("std::unordered_map::find", "std::map::find")
    def _(ex, fid, this, a, n):
        m = ex.get(this); key = ex.load(a[0])
        if not isinstance(m, MapV): return ex.map_op("find", fid, this, a, n)
        for i, (k, v) in enumerate(m.items):
            if ex.branch(key_eq(ex, k, key)): return IterV(this, i)
        return IterV(this, "end")

    @reg("std::unordered_map::contains", "std::map::contains", "std::unordered_map::count", "std::map::count")
    def _(ex, fid, this, a, n):
        m = ex.get(this); key = ex.load(a[0])
        if not isinstance(m, MapV): return ex.map_op("contains", fid, this, a, n)
        c = z3.Or(*[key_eq(ex, k, key) for k, v in m.items]) if m.items else z3.BoolVal(False)
        return c if ex.a.fname(fid).endswith("contains") else u64(ex, z3.If(c, 1, 0))

    @reg("std::unordered_map::at", "std::map::at")
    def _(ex, fid, this, a, n):
        m = ex.get(this); key = ex.load(a[0])
        if not isinstance(m, MapV): return ex.map_op("at", fid, this, a, n)
        for i, (k, v) in enumerate(m.items):
            if ex.branch(key_eq(ex, k, key)): return ex.new_lv(v)
        raise CppThrow("std::out_of_range")

    @reg("std::unordered_map::end", "std::map::end", "std::unordered_map::cend", "std::map::cend")
    def _(ex, fid, this, a, n): return IterV(this, "end")

    def iter_eq(x, y):
        xe, ye = isinstance(x.idx, str) and x.idx == "end", isinstance(y.idx, str) and y.idx == "end"
        if xe or ye:
            if xe and ye: return z3.BoolVal(True)
            o = y if xe else x
            if getattr(o, "end_cond", None) is not None: return o.end_cond
            if isinstance(o.idx, int): return z3.BoolVal(False)
        h = ex.cfg.get("iter_eq")
        if h:
            r = h(ex, x, y)
            if r is not None: return r
        xi, yi = x.idx, y.idx
        if isinstance(xi, int) and isinstance(yi, int): return z3.BoolVal(xi == yi)
        return xi == yi
    ex.iter_eq = iter_eq

    def iter_deref(ex, fid, this, a, n):
        it = ex.get(this)
        if isinstance(it, P): return it.lv
        if isinstance(it.idx, int):
            m = ex.get(it.cont)
            if isinstance(m, MapV):
                k, v = m.items[it.idx]; return ex.new_lv(PairV(k, v), "entry")
            return it.cont.sub(("e", it.idx))
        if isinstance(it.idx, str) and it.idx == "end":
            ex.ub(z3.BoolVal(False), "dereference of end iterator"); raise PathEnd()
        h = ex.cfg.get("iter_deref")
        if h:
            r = h(ex, it)
            if r is not None: return r
        return ex.seq_elem(it.cont, it.idx)
    def iter_arrow(ex, fid, this, a, n): return P(iter_deref(ex, fid, this, a, n))
    for nm in ("std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator", "__gnu_cxx::__normal_iterator", "std::_Deque_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator"):
        B[nm + "::operator->"] = iter_arrow; B[nm + "::operator*"] = iter_deref
    def iter_inc(ex, fid, this, a, n):
        it = ex.get(this)
        idx = it.idx + 1 if isinstance(it.idx, int) else z3.simplify(it.idx + 1)
        ex.set(this, IterV(it.cont, idx)); return it if a else this
    for nm in ("__gnu_cxx::__normal_iterator::operator++", "std::_Deque_iterator::operator++"): B[nm] = iter_inc

    # --- whole-string transform
    @reg("std::basic_string::begin", "std::basic_string::end", "std::basic_string::cbegin", "std::basic_string::cend")
    def _(ex, fid, this, a, n): return IterV(this, "sbegin" if ex.a.fname(fid).endswith("begin") else "end")

    @reg("std::transform")
    def _(ex, fid, this, a, n):
        b, e, o, f = [ex.load(x) for x in a]
        if not (isinstance(b, IterV) and b.idx == "sbegin" and e.idx == "end" and b.cont.same(e.cont)): return NotImplemented
        if not (isinstance(o, IterV) and o.idx == "sbegin"): return NotImplemented
        src = ex.get(b.cont)
        c = ex.ifresh("tc", 8, True)
        r = ex.call_closure(f, [ex.new_lv(c)])
        r = ex.cast_int(ex.load(r), 8, True)
        if not o.cont.same(b.cont):
            return NotImplemented
        if ex.entail_ob(r.t == lower_c(c.t)):
            ex.set(o.cont, StrV(LOWER(src.t)))
        else:
            name = ex.fresh_name("map")
            f2 = z3.Function(name, Str, Str)
            sp = Spec(name, [Str], Str, None)
            body = r.t
            sp.defn = lambda s: z3.If(Str.is_nil(s), Str.nil, Str.snoc(sp.f(Str.init(s)), z3.substitute(body, (c.t, Str.last(s)))))
            ex.set(o.cont, StrV(sp.f(src.t)))
        return IterV(o.cont, "end")

    # --- sequences
    def vec_ctor(ex, tid, a, n):
        h = ex.cfg.get("vec_ctor")
        if h:
            r = h(ex, tid, a, n)
            if r is not None: return r
        if not a: 
            et = ex.a.decls[ex.T(tid)["d"]]["targs"][0]["t"]
            return VecV(et, ex.iconst(0, 64, False).t, {p: z3.Const(ex.fresh_name("vec[]"), z3.ArraySort(ex.isort(), ex.scalar_sort(t))) for p, t in ex.leaf_types(et)})
        if len(a) == 1 and isinstance(ex.load(a[0]), (VecV, SeqV)): return ex.load(a[0])
        return NotImplemented
    for nm in ("std::vector", "std::deque", "sfl::segmented_vector"): ctor[nm] = vec_ctor

    VECS = ("std::vector", "std::deque", "sfl::segmented_vector")

    def seq_push(ex, this, v):
        s = ex.get(this)
        if isinstance(s, SeqV):
            ex.set(this, SeqV(s.enc, s.enc.snoc(s.t, s.enc.encode(ex, v)))); return
        if isinstance(s, VecV):
            i = s.n
            nv = ex.vec_set(s, i, (), v)
            ex.set(this, VecV(nv.ety, z3.simplify(i + 1), nv.leaves)); return
        raise Unsupported("push_back on " + type(s).__name__)
    ex.seq_push = seq_push

    for c in VECS:
        def pb(ex, fid, this, a, n):
            s = ex.get(this)
            v = ex.load(a[0])
            if isinstance(s, VecV): v = conv(ex, v, s.ety)
            seq_push(ex, this, v); return VOID
        B[c + "::push_back"] = pb
        def eb(ex, fid, this, a, n):
            s = ex.get(this)
            et = s.ety if isinstance(s, VecV) else ex.a.decls[ex.a.decls[fid]["parent"]]["targs"][0]["t"]
            v = ex.make(et, a, n)
            seq_push(ex, this, v)
            s2 = ex.get(this)
            if isinstance(s2, VecV): return this.sub(("e", z3.simplify(s2.n - 1)))
            return VOID
        B[c + "::emplace_back"] = eb
        def size(ex, fid, this, a, n):
            s = ex.get(this)
            return I(ex.seq_len(s), 64, False)
        B[c + "::size"] = size
        def empty(ex, fid, this, a, n): return ex.seq_len(ex.get(this)) == 0
        B[c + "::empty"] = empty
        def index(ex, fid, this, a, n):
            s = ex.get(this); i = ex.load(a[0]).t
            ln = ex.seq_len(s)
            ex.ub(z3.ULT(i, ln) if z3.is_bv(i) else z3.And(i >= 0, i < ln), "container index in bounds")
            if isinstance(s, VecV): return this.sub(("e", z3.simplify(i)))
            return ex.seq_elem(this, z3.simplify(i))
        B[c + "::operator[]"] = index
        def at(ex, fid, this, a, n):
            s = ex.get(this); i = ex.load(a[0]).t
            ln = ex.seq_len(s)
            if ex.branch(z3.ULT(i, ln) if z3.is_bv(i) else z3.And(i >= 0, i < ln)):
                if isinstance(s, VecV): return this.sub(("e", z3.simplify(i)))
                return ex.seq_elem(this, z3.simplify(i))
            raise CppThrow("std::out_of_range")
        B[c + "::at"] = at
        def clear(ex, fid, this, a, n):
            s = ex.get(this)
            if isinstance(s, SeqV): ex.set(this, SeqV(s.enc, s.enc.nil)); return VOID
            ex.set(this, VecV(s.ety, ex.iconst(0, 64, False).t, s.leaves)); return VOID
        B[c + "::clear"] = clear
        def resize(ex, fid, this, a, n):
            s = ex.get(this); k = ex.load(a[0]).t
            # elements beyond the old size are value-initialised; existing ones keep their value
            dv = ex.default_value(s.ety)
            leaves = {}
            def leafval(p):
                v = dv
                for x in p: v = sv_get(ex, v, x)
                return ex.scalar_unwrap(v)
            for p, arr in s.leaves.items():
                j = z3.Const(ex.fresh_name("j"), ex.isort())
                na = z3.Const(ex.fresh_name("resized" + ".".join(map(str, p))), arr.sort())
                lv = leafval(p)
                lt = (z3.ULT if ex.mode == "bv" else (lambda a_, b_: a_ < b_))
                ex.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(lt(j, s.n), z3.Select(arr, j), lv), patterns=[z3.Select(na, j)]))
                leaves[p] = na
            ex.set(this, VecV(s.ety, k, leaves)); return VOID
        B[c + "::resize"] = resize
        B[c + "::shrink_to_fit"] = lambda ex, fid, this, a, n: VOID
        B[c + "::reserve"] = lambda ex, fid, this, a, n: VOID
        def back(ex, fid, this, a, n):
            s = ex.get(this); ln = ex.seq_len(s)
            ex.ub(ln != 0, "back() of a non-empty container")
            return this.sub(("e", z3.simplify(ln - 1)))
        B[c + "::back"] = back
        def begin(ex, fid, this, a, n): return IterV(this, z3.IntVal(0))
        def end(ex, fid, this, a, n): return IterV(this, ex.seq_len(ex.get(this)))
        for k in ("begin", "cbegin"): B[f"{c}::{k}"] = begin
        for k in ("end", "cend"): B[f"{c}::{k}"] = end
    # fmt::format with plain {} for integers and strings
    def fmt_ctor(ex, tid, a, n):
        v = ex.load(a[0])
        return v if isinstance(v, (CStr, ViewV, StrV)) else NotImplemented
    ctor["fmt::basic_format_string"] = fmt_ctor
    @reg("fmt::format")
    def _(ex, fid, this, a, n):
        f = ex.load(a[0])
        if not isinstance(f, CStr): raise Unsupported("format string")
        parts = f.b.split(b"{}")
        if len(parts) != len(a) or b"{" in b"".join(parts) or b"}" in b"".join(parts): raise Unsupported("format string " + repr(f.b))
        r = str_const(parts[0])
        for x, p in zip(a[1:], parts[1:]):
            x = ex.load(x)
            if isinstance(x, I): t = int2str(x.t if z3.is_int(x.t) else z3.BV2Int(x.t, x.sg))
            else: t = to_str(ex, x)
            r = mkcat(r, t)
            if p: r = mkcat(r, str_const(p))
        return StrV(r)
    # std::function
    def fn_ctor(ex, tid, a, n):
        if not a: return FnV(None, z3.BoolVal(False))
        v = ex.load(a[0])
        if isinstance(v, FnV): return v
        return FnV(v, z3.BoolVal(True))
    ctor["std::function"] = fn_ctor
    @reg("std::function::operator bool")
    def _(ex, fid, this, a, n): return ex.get(this).has
    @reg("std::function::operator()")
    def _(ex, fid, this, a, n): return ex.call_closure(ex.get(this), a, n)
    @reg("std::function::operator=")
    def _(ex, fid, this, a, n):
        v = ex.load(a[0]); ex.set(this, v if isinstance(v, FnV) else FnV(v, z3.BoolVal(True))); return this
    # --- shared_ptr / unique_ptr as plain pointers (ownership is not modelled)
    def sp_ctor(ex, tid, a, n):
        if not a: return P(None)
        v = ex.load(a[0])
        if isinstance(v, P): return v
        if isinstance(v, OpaqueV) and v.tag == "nullptr": return P(None)
        return NotImplemented
    for nm in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr"): ctor[nm] = sp_ctor
    for c in ("std::shared_ptr", "std::__shared_ptr", "std::unique_ptr", "std::__shared_ptr_access"):
        B[c + "::operator bool"] = lambda ex, fid, this, a, n: ex.as_bool(ex.get(this))
        B[c + "::get"] = lambda ex, fid, this, a, n: ex.get(this)
        B[c + "::operator->"] = lambda ex, fid, this, a, n: ex.get(this)
        B[c + "::operator*"] = lambda ex, fid, this, a, n: ex.deref(ex.get(this))
        def spset(ex, fid, this, a, n):
            v = ex.load(a[0])
            if not isinstance(v, P): raise Unsupported("smart pointer assignment")
            ex.set(this, v); return this
        B[c + "::operator="] = spset
        def spreset(ex, fid, this, a, n):
            ex.set(this, ex.load(a[0]) if a else P(None)); return VOID
        B[c + "::reset"] = spreset
        def sprelease(ex, fid, this, a, n):
            v = ex.get(this); ex.set(this, P(None)); return v
        B[c + "::release"] = sprelease
