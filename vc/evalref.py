"""Reference interpreter and reference parser of the query language, used only to look for failing inputs on the real
code (the proofs do not depend on it).

Expressions are tuples; values are (type, payload, node).  Streams are Python generators: a consumer that stops simply
does not ask for the next value."""
import json, math, struct, random
from .core import Unsupported


class Err(Exception): pass       # an error reported to the user
class Skip(Exception): pass      # outside what the reference describes


class Node:
    __slots__ = ("t", "v", "ch", "keys", "over")
    def __init__(self, t, v=None, ch=(), keys=None): self.t, self.v, self.ch, self.keys, self.over = t, v, list(ch), keys, None
    def get(self, name):
        if self.over is not None:
            if name in self.over: return self.over[name]
            return self.v.get(name) if self.v else None
        if self.keys is None: return None
        for k, c in zip(self.keys, self.ch):
            if k.lower() == name.lower(): return c
        return None
    def at(self, i):
        if self.over is not None: return self.v.at(i) if self.v else None
        return self.ch[i] if self.t in "OA" and 0 <= i < len(self.ch) else None
    def kids(self): return (self.v.kids() if self.v else []) if self.over is not None else self.ch
    def names(self): return (self.v.names() if self.v else []) if self.over is not None else self.keys if self.keys is not None else [""] * len(self.ch)


def build(j):
    if j is None: return Node("N")
    if j is True or j is False: return Node("B", j)
    if isinstance(j, int): return Node("I", j)
    if isinstance(j, float): return Node("F", j)
    if isinstance(j, str): return Node("S", j)
    if isinstance(j, list): return Node("A", None, [build(x) for x in j])
    ks = sorted(j)
    return Node("O", None, [build(j[k]) for k in ks], ks)


def unbuild(n):
    if n.over is not None: raise Skip
    if n.t == "A": return [unbuild(c) for c in n.ch]
    if n.t == "O": return {k: unbuild(c) for k, c in zip(n.keys, n.ch)}
    return n.v


def field(n): return (n.t, n.v if n.t in "BIFS" else None, n)
NULL = ("N", None, None); UNDEF = ("U", None, None)
def B(x): return ("B", bool(x), None)
def I(x): return ("I", wrap(x), None)
def S(x): return ("S", x, None)
def Fl(x): return ("F", x, None)
def wrap(x):
    x &= 2 ** 64 - 1
    return x - 2 ** 64 if x >= 2 ** 63 else x
def truth(v): return v[0] not in "NU" and not (v[0] == "B" and not v[1])


def tostr(v):
    t, p = v[0], v[1]
    if t == "N": return "null"
    if t == "B": return "true" if p else "false"
    if t == "I": return str(p)
    if t == "F": return "%f" % p
    if t == "S": return p
    if t in "OA": return ""
    if t == "T": return f"{p[1]}..{p[2]}" if p[0] == "irange" else p[1]
    raise Skip


def toint(s):
    s = s.lstrip(" \t\n\v\f\r"); i = 0
    if i < len(s) and s[i] in "+-": i += 1
    j = i
    while j < len(s) and s[j].isdigit(): j += 1
    if j == i: return 0
    return max(-2 ** 63, min(2 ** 63 - 1, int(s[:j])))


def unop(op, v):
    t, p = v[0], v[1]
    if t == "U": return UNDEF
    if t == "T":
        if op == "typeof": return S(p[0])
        if op == "?": return B(True)
        if op == "string": return S(tostr(v))
        if op == "#" and p[0] == "irange": return I(max(p[1], p[2]) - min(p[1], p[2]))
        raise Err
    if op == "?": return B(truth(v))
    if op == "not": return B(not truth(v))
    if op == "typeof": return S({"N": "null", "B": "bool", "I": "int", "F": "float", "S": "string"}.get(t, "model"))
    if op == "-":
        if t == "I": return I(-p)
        if t == "F": return Fl(-p)
        raise Err
    if op == "~":
        if t == "I": return I(~p)
        if t == "N": return NULL
        raise Err
    if op == "#":
        if t == "S": return I(len(p))
        if t in "OA": return I(len(v[2].kids()))
        if t == "N": return NULL
        raise Err
    if op == "int":
        if t == "B": return I(int(p))
        if t == "I": return I(p)
        if t == "F": return I(0 if p != p else 2 ** 63 - 1 if p >= 2.0 ** 63 else -2 ** 63 if p < -2.0 ** 63 else int(p))
        if t == "S": return I(toint(p))
        return I(0)
    if op == "float":
        if t == "B": return Fl(float(p))
        if t in "IF": return Fl(float(p))
        if t == "S":
            try: return Fl(float(p)) if p and p[0] not in "in" and "_" not in p else Fl(0.0)
            except ValueError: raise Skip
        return Fl(0.0)
    if op == "string": return S(tostr(v))
    raise Skip


def lt(a, b, eq):
    t = (a[0], b[0])
    if t == ("N", "N"): return eq
    if (a[0] in "IF" and b[0] in "IF") or t == ("S", "S"):
        x, y = a[1], b[1]
        if t != ("I", "I") and a[0] != "S": x, y = float(x), float(y)
        return x <= y if eq else x < y
    return False


def eq(a, b):
    t = (a[0], b[0])
    if t == ("N", "N"): return True
    if a[0] in "IF" and b[0] in "IF":
        return a[1] == b[1] if t == ("I", "I") else float(a[1]) == float(b[1])
    if t in (("S", "S"), ("B", "B")): return a[1] == b[1]
    return False


def binop(op, a, b):
    if a[0] == "U" or b[0] == "U": return UNDEF
    if a[0] == "T" or b[0] == "T":
        x, y = (a, b) if a[0] == "T" else (b, a)
        if x[1][0] != "irange" or (b[0] == "T" and b[1][0] != "irange"): raise Skip
        if op not in ("==", "!="): raise Err
        lo, hi = min(x[1][1:]), max(x[1][1:])
        r = lo <= y[1] <= hi if y[0] in "IF" else x[1] == y[1] if y[0] == "T" else False
        return B(r if op == "==" else not r)
    ta, tb = a[0], b[0]
    if ta in "OA" and a[2] is None: ta = "N"
    if tb in "OA" and b[2] is None: tb = "N"
    num = ta in "IF" and tb in "IF"
    if op == "==": return B(eq(a, b))
    if op == "!=": return B(not eq(a, b))
    if op in ("<", "<=", ">", ">="):
        if op[0] == ">": a, b = b, a
        return B(lt(a, b, len(op) == 2))
    if op in ("+", "-", "*", "/", "%"):
        if op == "+" and "S" in (ta, tb):
            if ta in "OA" or tb in "OA": return NULL
            return S(tostr(a) + tostr(b))
        if op == "+" and ta in "OA" and tb in "OA": return NULL
        if "N" in (ta, tb): return NULL
        if not num or (op == "%" and (ta, tb) != ("I", "I")): raise Err
        x, y = a[1], b[1]
        if op in "/%" and y == 0: raise Err
        if (ta, tb) == ("I", "I"):
            if op == "+": return I(x + y)
            if op == "-": return I(x - y)
            if op == "*": return I(x * y)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return I(q) if op == "/" else I(x - q * y)
        x, y = float(x), float(y)
        try: return Fl({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]())
        except OverflowError: raise Skip
    if op in ("&", "|", "^", "<<", ">>"):
        if "N" in (ta, tb): return NULL
        if (ta, tb) != ("I", "I"): raise Err
        x, y = a[1] & (2 ** 64 - 1), b[1] & (2 ** 64 - 1)
        return I({"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y if y < 64 else 0, ">>": lambda: x >> y if y < 64 else 0}[op]())
    if op == "[]":
        if "N" in (ta, tb): return NULL
        if (ta, tb) == ("S", "I"): return S(a[1][b[1]]) if 0 <= b[1] < len(a[1]) else NULL
        raise Err
    raise Skip


BUDGET = 20000
POOL = set()         # field names known to the model at hand
def names_of(j):
    if isinstance(j, dict): return {k.lower() for k in j} | {n for x in j.values() for n in names_of(x)}
    if isinstance(j, list): return {n for x in j for n in names_of(x)}
    return set()
class Interp:
    def __init__(self): self.left = BUDGET
    def tick(self):
        self.left -= 1
        if self.left < 0: raise Skip
    def ensured(self, g, ph):
        n = 0
        for x in g: n += 1; yield x
        if not n: yield UNDEF if ph == "C" else NULL
    def ensured_null(self, g):
        n = 0
        for x in g: n += 1; yield x
        if not n: yield NULL

    def ev(self, e, ph, v):
        self.tick()
        k = e[0]
        return getattr(self, "e_" + k)(e, ph, v)

    def e_const(self, e, ph, v): yield e[1]
    def e_asnull(self, e, ph, v): yield NULL
    def e_multi(self, e, ph, v): yield from e[1]
    def e_field(self, e, ph, v):
        nm = e[1]
        if v[0] == "U": yield v; return
        if nm == "_": yield v; return
        if v[2] is None: yield NULL; return
        s = v[2].get(nm)
        yield field(s) if s is not None else UNDEF if ph == "C" and nm.lower() in POOL else NULL
    def e_star(self, e, ph, v):
        if ph == "C": yield UNDEF; return
        if v[2] is None or not v[2].kids(): yield NULL; return
        for c in v[2].kids(): self.tick(); yield field(c)
    def walk(self, n):
        self.tick()
        if n.t == "N" and n.over is None: return
        yield field(n)
        for c in n.kids(): yield from self.walk(c)
    def e_wild(self, e, ph, v):
        if ph == "C": yield UNDEF; return
        yield from self.ensured(self.walk(v[2]) if v[2] is not None else (), ph)
    def e_path(self, e, ph, v):
        def g():
            for x in self.ev(e[1], ph, v):
                if x[0] == "U":
                    if ph == "C": yield x
                    continue
                if x[0] == "N" and x[2] is None: continue
                for y in self.ev(e[2], ph, x):
                    if y[0] == "U":
                        if ph == "C": yield y
                        continue
                    if y[0] == "N" and y[2] is None: continue
                    yield y
        return self.ensured(g(), ph)
    def e_sub(self, e, ph, v):
        def g():
            for x in self.ev(e[1], ph, v):
                if ph == "C" and x[0] == "U": yield x; continue
                for y in self.ev(e[2], ph, x):
                    if y[0] == "U":
                        if ph == "C": yield UNDEF
                        continue
                    if truth(y): yield x
        return self.ensured(g(), ph)
    def e_index(self, e, ph, v):
        def g():
            for x in self.ev(e[1], ph, v):
                for i in self.ev(e[2], ph, v):
                    if ph == "C" and i[0] == "U": yield i; continue
                    if x[2] is not None:
                        n = x[2].at(i[1]) if i[0] == "I" else x[2].get(i[1]) if i[0] == "S" else None
                        if n is not None: yield field(n)
                    else: yield binop("[]", x, i)
        return self.ensured(g(), ph)
    def e_un(self, e, ph, v):
        for x in self.ev(e[2], ph, v): yield unop(e[1], x)
    def e_bin(self, e, ph, v):
        for x in self.ev(e[2], ph, v):
            for y in self.ev(e[3], ph, v): yield binop(e[1], x, y)
    def e_uword(self, e, ph, v):
        for x in self.ev(e[2], ph, v):
            if x[0] == "U": yield x
            else: raise Err
    def e_bword(self, e, ph, v):
        for x in self.ev(e[2], ph, v):
            for y in self.ev(e[3], ph, v):
                if x[0] == "U" or y[0] == "U": yield UNDEF
                else: raise Err
    def e_and(self, e, ph, v, keep=False):
        for x in self.ev(e[1], ph, v):
            if x[0] == "U" or truth(x) == keep: yield x
            else: yield from self.ev(e[2], ph, v)
    def e_or(self, e, ph, v): return self.e_and(e, ph, v, True)
    def e_unpack(self, e, ph, v):
        def g():
            for x in self.ev(e[1], ph, v):
                if x[0] == "T":
                    if x[1][0] != "irange": raise Skip
                    a, b = x[1][1:]
                    while True:
                        self.tick(); yield I(a)
                        if a == b: break
                        a += 1 if a < b else -1
                else: yield x
        return self.ensured_null(g())

    # ---- functions
    def e_call(self, e, ph, v):
        f = getattr(self, "f_" + {"all": "each"}.get(e[1], e[1]), None)
        if f is None: raise Err
        return self.ensured_null(f(e[2], ph, v))
    def f_any(self, a, ph, v, want=True):
        if not a: raise Err
        r = not want
        for x in a:
            for y in self.ev(x, ph, v):
                if ph == "C" and y[0] == "U": yield UNDEF; return
                if truth(y) == want: r = want; break
            if r == want: break
        yield B(r)
    def f_each(self, a, ph, v): return self.f_any(a, ph, v, False)
    def f_count(self, a, ph, v):
        if not a: raise Err
        n = 0
        for x in a:
            for y in self.ev(x, ph, v):
                if ph == "C" and y[0] == "U": yield UNDEF; return
                n += truth(y)
        yield I(n)
    def single(self, a, j, ph, v, kind, default=None):
        if j >= len(a):
            if default is None: raise Err
            return default
        out = UNDEF; n = 0
        for y in self.ev(a[j], ph, v):
            if y[0] == "U": return y
            n += 1
            if n > 1 or y[0] != kind: raise Err
            out = y
        return out
    def f_range(self, a, ph, v):
        if len(a) != 2: raise Err
        x, y = self.single(a, 0, ph, v, "I"), self.single(a, 1, ph, v, "I")
        if "U" in (x[0], y[0]): yield UNDEF; return
        yield ("T", ("irange", x[1], y[1]), None)
    def f_re(self, a, ph, v):
        raise Skip
        yield
    def f_arr(self, a, ph, v):
        if not a: yield NULL
        for x in a: yield from self.ev(x, ph, v)
    def f_split(self, a, ph, v):
        s = self.single(a, 0, ph, v, "S"); p = self.single(a, 1, ph, v, "S"); k = self.single(a, 2, ph, v, "B", B(True))
        if "U" in (s[0], p[0], k[0]): yield UNDEF; return
        if not s[1]: return
        for x in (s[1].split(p[1]) if p[1] else [s[1]]):
            if x or k[1]: yield S(x)
    def f_select(self, a, ph, v):
        if len(a) < 1: raise Err
        i = self.single(a, 1, ph, v, "I"); c = self.single(a, 2, ph, v, "I", I(1))
        if "U" in (i[0], c[0]): yield UNDEF; return
        i, c = i[1], c[1]
        if c <= 0: c = 2 ** 31 - 1
        n = -1
        for x in self.ev(a[0], ph, v):
            n += 1
            if ph == "C" and x[0] == "U": yield x; continue
            if n >= i and n - i >= c: return
            if n >= i: yield x
    def f_sum(self, a, ph, v):
        if not 1 <= len(a) <= 3: raise Err
        s = I(0)
        if len(a) == 3:
            for x in self.ev(a[2], ph, v):
                if ph == "C" and x[0] == "U": yield UNDEF; return
                s = x
        n = 0
        for x in self.ev(a[0], ph, v):
            if ph == "C" and x[0] == "U": yield UNDEF; return
            if len(a) >= 2:
                o = Node("O", x[2]); 
                def w(y):
                    if y[2] is not None: return y[2]
                    if y[0] == "T": raise Skip
                    return Node(y[0], y[1])
                o.over = {"$sum": w(s), "$val": w(x), "$idx": Node("I", n)}; n += 1
                for y in self.ev(a[1], ph, field(o)):
                    if ph == "C" and y[0] == "U": yield UNDEF; return
                    o.over["$sum"] = w(y); s = y
            else: s = x if s[0] == "N" else binop("+", s, x)
        yield s
    def f_keys(self, a, ph, v):
        if len(a) != 1: raise Err
        for x in self.ev(a[0], ph, v):
            if ph == "C" and x[0] == "U": yield x; continue
            if x[2] is not None:
                for k in x[2].names(): self.tick(); yield S(k)
    def f_trace(self, a, ph, v):
        if not a: raise Err
        i = self.single(a, 1, ph, v, "I", I(-1)); s = self.single(a, 2, ph, v, "S", S(""))
        if ph == "C": yield UNDEF; return
        if "U" in (i[0], s[0]): raise Skip
        yield from self.ev(a[0], ph, v)


def printed(v):
    n = "@" if v[2] is not None else ""
    t, p = v[0], v[1]
    if t == "U": return n + "U"
    if t == "N": return n + "N"
    if t == "B": return n + ("B1" if p else "B0")
    if t == "I": return n + "I" + str(p)
    if t == "F": return n + "F" + struct.pack(">d", p).hex()
    if t == "S": return n + "S" + p.encode().hex()
    if t == "T": return "T" + tostr(v).encode().hex()
    return n + t + json.dumps(unbuild(v[2]), separators=(",", ":"), sort_keys=True).encode().hex()


def outcome(e, ph, v):
    """(printed values, 'C' or 'E')"""
    it = Interp(); out = []
    try:
        for x in it.ev(e, ph, v):
            out.append(x)
            if len(out) > 2500: raise Skip
        return out, "C"
    except Err: return out, "E"
    except RecursionError: raise Skip


def subs(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and e[0] not in ("const", "field"): yield from subs(x)
        elif isinstance(x, list) and e[0] == "call":
            for y in x: yield from subs(y)


def may_fail_to_compile(e):
    return any(outcome(x, "C", UNDEF)[1] == "E" for x in subs(e))


def fold(e):
    """the expression with constant subexpressions replaced as the compiler does"""
    k = e[0]
    if k in ("const", "multi", "field", "star", "wild"): return e
    if k == "asnull": return ("const", NULL)
    if k == "call": r = (k, e[1], [fold(x) for x in e[2]])
    else: r = (k,) + tuple(fold(x) if isinstance(x, tuple) else x for x in e[1:])
    if k == "path": return r
    vs = []
    for x in Interp().ev(r, "C", UNDEF):
        if x[0] == "U" and x[2] is None: return r
        vs.append(x)
        if len(vs) > 10000: return r
    if not vs: return r
    return ("const", vs[0]) if len(vs) == 1 else ("multi", vs)


def show(e):
    k = e[0]
    s = lambda x: "<transient>" if x[0] == "T" else tostr(x)
    if k == "const": return '"' + e[1][1] + '"' if e[1][0] == "S" else s(e[1])
    if k == "multi": return "{" + " ".join(s(x) for x in e[1]) + "}"
    if k == "field": return e[1]
    if k == "star": return "*"
    if k == "wild": return "**"
    if k == "call": return "(" + " ".join([e[1]] + [show(x) for x in e[2]]) + ")"
    if k in ("un", "uword"): return f"({e[1]} {show(e[2])})"
    if k in ("bin", "bword"): return f"({e[1]} {show(e[2])} {show(e[3])})"
    if k == "unpack": return f"(... {show(e[1])})"
    return "(" + {"path": ".", "sub": "sub", "index": "index", "and": "and", "or": "or"}[k] + f" {show(e[1])} {show(e[2])})"


# ---------------------------------------------------------------- text
def text(e):
    """query text of an (unfolded) expression, fully parenthesised"""
    k = e[0]
    p = lambda x: text(x) if x[0] in ("const", "field", "star", "wild", "call") and not (x[0] == "const" and x[1][0] in "IF" and x[1][1] < 0) else "(" + text(x) + ")"
    if k == "const":
        t, v = e[1][0], e[1][1]
        if t == "N": return "null"
        if t == "B": return "true" if v else "false"
        if t == "S": return '"' + v + '"'
        if t == "F": return repr(v)
        return str(v)
    if k == "field": return e[1]
    if k == "star": return "*"
    if k == "wild": return "**"
    if k == "call": return e[1] + "(" + ", ".join(text(x) for x in e[2]) + ")"
    if k == "un":
        if e[1] in ("int", "float", "string"): return p(e[2]) + " as " + e[1]
        if e[1] == "?": return p(e[2]) + "?"
        return e[1] + " " + p(e[2])
    if k == "bin": return p(e[2]) + " " + e[1] + " " + p(e[3])
    if k == "uword": return p(e[2]) + " " + e[1]
    if k == "bword": return p(e[2]) + " " + e[1] + " " + p(e[3])
    if k in ("and", "or"): return p(e[1]) + " " + k + " " + p(e[2])
    if k == "asnull": return p(e[1]) + " as null"
    if k == "unpack": return ("(" + text(e[1]) + ")" if e[1][0] == "const" else p(e[1])) + "..."
    if k == "path": return p(e[1]) + "." + ("(" + text(e[2]) + ")" if e[2][0] == "const" else p(e[2]))
    if k == "sub": return p(e[1]) + "{" + text(e[2]) + "}"
    if k == "index": return p(e[1]) + "[" + text(e[2]) + "]"
    raise Unsupported(k)


# ---------------------------------------------------------------- parser
import re
TOK = re.compile(r"""\s*(?:(?P<num>\d+(?:\.\d+)?)(?![\w.]*[.\w])|(?P<num2>\d+)(?=\.\.\.)|(?P<str>"[^"\\]*")|(?P<word>[A-Za-z_$]\w*)|(?P<op>\.\.\.|\*\*|==|!=|<=|>=|<<|>>|[-+*/%&|^~#?.,()\[\]{}<>=]))""")
WORDOPS = {"and", "or", "not", "as", "typeof", "true", "false", "null", "_"}
BINP = {"*": 6, "/": 6, "%": 6, "+": 5, "-": 5, "<<": 4, ">>": 4, "&": 4, "|": 4, "^": 4, "<": 3, "<=": 3, ">": 3, ">=": 3, "==": 2, "=": 2, "!=": 2, "and": 1, "or": 1}


def lex(s):
    out = []; i = 0
    while True:
        while i < len(s) and s[i] == " ": i += 1
        if i >= len(s): return out + [("end", "")]
        m = TOK.match(s, i)
        if (s[i] == "." and s[i + 1:i + 2].isdigit()) or (m and m["num2"]): raise Skip
        if not m: raise Skip
        i = m.end()
        if m["num"] or m["num2"]: out.append(("num", m["num"] or m["num2"]))
        elif m["str"]: out.append(("str", m["str"][1:-1]))
        elif m["word"]: out.append(("op" if m["word"] in WORDOPS else "word", m["word"]))
        else: out.append(("op", m["op"]))


class Parse:
    """the documented grammar; raises Err where the text is not in the language"""
    def __init__(self, s): self.t = lex(s); self.i = 0; self.inpath = False; self.n = 0
    def cur(self): return self.t[self.i]
    def op(self, x): return self.cur() == ("op", x)
    def next(self): 
        t = self.cur()
        if t[0] == "end": raise Err
        self.i += 1
        return t
    def prec(self):
        k, s = self.cur()
        if k == "word": return 7
        if k != "op": return 0
        if s in BINP: return BINP[s]
        return {".": 12, "{": 11, "[": 10, "?": 9, "...": 9, "as": 7}.get(s, 0)
    def closed(self, f):
        o, self.inpath = self.inpath, False
        r = f(); self.inpath = o
        return r
    def to(self, x):
        r = self.expr(0)
        if not self.op(x): raise Err
        self.i += 1
        return r
    def list(self, x):
        a = []
        if self.op(x): self.i += 1; return a
        while True:
            a.append(self.expr(0))
            if self.op(x): self.i += 1; return a
            if not self.op(","): raise Err
            self.i += 1
    def starts(self):
        k, s = self.cur()
        return k in ("num", "str", "word") or (k == "op" and s in ("true", "false", "null", "-", "~", "not", "#", "typeof", "(", "{", "[", "_", "**", "*"))
    def expr(self, p, opt=False):
        self.n += 1
        if self.n > 4000: raise Skip
        if not self.starts():
            if opt: return None
            raise Err
        k, s = self.next()
        if k == "num": e = ("const", Fl(float(s)) if "." in s else I(int(s)) if int(s) < 2 ** 63 else Skip)
        elif k == "str": e = ("const", S(s))
        elif k == "word":
            if self.op("("):
                self.i += 1
                e = ("call", s, self.closed(lambda: self.list(")")))
            elif not self.inpath and any(c.isupper() for c in s) and all(c.isupper() or c == "_" or c.isdigit() for c in s): e = ("const", S(s))
            else: e = ("field", s)
        elif s in ("true", "false"): e = ("const", B(s == "true"))
        elif s == "null": e = ("const", NULL)
        elif s == "_": e = ("field", "_")
        elif s == "*": e = ("star",)
        elif s == "**": e = ("wild",)
        elif s in ("-", "~", "not", "#", "typeof"): e = ("un", s, self.expr(8))
        elif s == "(": e = self.closed(lambda: self.to(")"))
        elif s == "[": e = self.closed(lambda: ("index", ("field", "_"), self.to("]")))
        elif s == "{": e = self.closed(lambda: ("sub", ("field", "_"), self.to("}")))
        while self.prec() > p:
            q = self.prec(); k, s = self.next()
            if k == "word":
                r = self.expr(7, True)
                e = ("uword", s, e) if r is None else ("bword", s, e, r)
            elif s == ".":
                o, self.inpath = self.inpath, True
                r = self.expr(12); self.inpath = o
                e = ("path", e, r)
            elif s == "{": e = self.closed(lambda: ("sub", e, self.to("}")))
            elif s == "[": e = self.closed(lambda: ("index", e, self.to("]")))
            elif s == "?": e = ("un", "?", e)
            elif s == "...": e = ("unpack", e)
            elif s == "as":
                k, s = self.next()
                if (k, s) == ("op", "null"): e = ("asnull", e)
                elif k == "word" and s in ("int", "float", "string"): e = ("un", s, e)
                elif k == "word" and s == "bool": e = ("un", "?", e)
                else: raise Err
            elif s in ("and", "or"): e = (s, e, self.expr(1))
            else: e = ("bin", "==" if s == "=" else s, e, self.expr(q))
        return e
    def whole(self):
        e = self.expr(0)
        if self.cur()[0] != "end": raise Err
        return e


def parse(s):
    """expression, or None where the text is not in the language"""
    try: return Parse(s).whole()
    except Err: return None


# ---------------------------------------------------------------- generation and judgement
DOCS = [{"a": 1, "b": {"c": 2, "d": [1, 2, 3]}, "s": "x.y..z", "e": "", "n": None, "t": True, "f": False},
        {"a": [{"b": 1}, {"b": None}, {"c": 3}], "b": [[1, 2], []], "s": "abc", "n": {"a": None}},
        {"a": {"a": {"a": 5, "b": "p"}, "b": 2.5}, "b": [0, -1, 7], "c": "a", "d": ["a", "b"]},
        {}, [1, [2, [3, None]], {"a": 4}], 5, {"b": 3, "a": [1, 2, 3, 4], "s": "1,2", "t": [True, False, None, 0]}]
NAMES = ["a", "b", "c", "d", "s", "n", "t", "_"]


class Gen:
    def __init__(self, rng, prop): self.r, self.p = rng, prop
    def const(self):
        r = self.r
        return ("const", r.choice([NULL, B(True), B(False), I(0), I(1), I(2), I(r.randint(0, 9)), S(""), S("a"), S("."), S("x.y..z"), Fl(2.5)]))
    def ints(self): return ("const", I(self.r.choice([0, 1, 2, 3, 5])))
    def leaf(self):
        r = self.r.random()
        if r < .45: return ("field", self.r.choice(NAMES))
        if r < .55: return ("star",)
        if r < .6: return ("wild",)
        return self.const()
    def stream(self, d):
        """something likely to have several values"""
        r = self.r.random()
        if r < .3: return ("unpack", ("call", "range", [self.ints(), self.ints()]))
        if r < .4: return ("star",)
        if r < .5: return ("path", ("field", self.r.choice("ab")), ("star",))
        if r < .7: return ("call", "arr", [self.expr(d - 1) for _ in range(self.r.randint(0, 3))])
        if r < .8: return ("wild",)
        return self.expr(d - 1)
    def expr(self, d):
        r = self.r
        if d <= 0: return self.leaf()
        kinds = {"C11": ["call"] * 10 + ["leaf", "bin", "path"], "C21": ["path"] * 5 + ["sub"] * 4 + ["index"] * 3 + ["leaf"] * 2 + ["unpack", "bin", "un", "call"],
                 "C07": ["and", "or", "not", "?", "sub"] * 3 + ["leaf", "bin", "path"]}.get(self.p, ["call"] * 5 + ["path"] * 3 + ["sub", "index", "and", "or", "unpack", "bin", "bin", "un", "leaf", "word"])
        k = r.choice(kinds)
        sub = lambda: self.expr(d - 1)
        if k == "leaf": return self.leaf()
        if k == "path": return ("path", sub(), r.choice([("field", r.choice(NAMES)), ("field", r.choice(NAMES)), ("star",), ("wild",), sub()]))
        if k == "sub": return ("sub", sub(), sub())
        if k == "index": return ("index", sub(), r.choice([self.ints(), ("const", S(r.choice("abc"))), sub()]))
        if k in ("and", "or"): return (k, self.stream(d) if r.random() < .3 else sub(), sub())
        if k in ("not", "?"): return ("un", k, sub())
        if k == "un": return ("un", r.choice(["?", "not", "typeof", "int", "string", "-", "#", "~"]), sub())
        if k == "bin": return ("bin", r.choice(["+", "+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "&", "<<"]), sub(), sub())
        if k == "unpack": return ("unpack", self.stream(d))
        if k == "word": return ("uword", "foo", sub()) if r.random() < .3 else ("asnull", sub()) if r.random() < .3 else ("path", sub(), sub())
        f = r.choice(["any", "each", "all", "count", "range", "arr", "split", "select", "sum", "keys", "trace"])
        if f in ("any", "each", "all", "count", "arr"): a = [self.stream(d) for _ in range(r.choice([1, 1, 2, 3]))]
        elif f == "range": a = [r.choice([self.ints(), sub()]), r.choice([self.ints(), sub()])]
        elif f == "split": a = [r.choice([("field", "s"), ("const", S(r.choice(["x.y..z", "", ".a.", "aXbXc", "..", "aaa"]))), sub()]), r.choice([("const", S(r.choice([".", "X", "", "a", ".."]))), sub()])] + ([r.choice([("const", B(r.random() < .5)), sub()])] if r.random() < .5 else [])
        elif f == "select":
            big = ("const", I(r.choice([2 ** 63 - 1, 2 ** 63 - 2, 2 ** 31 - 1, 2 ** 31])))
            a = [self.stream(d), r.choice([self.ints()] * 4 + [("un", "-", r.choice([big, ("const", I(1))])), big, sub()])] + ([r.choice([self.ints(), ("const", I(2)), big, ("un", "-", big), sub()])] if r.random() < .6 else [])
        elif f == "sum":
            a = [self.stream(d)]
            if r.random() < .5: a.append(r.choice([("bin", "+", ("field", "$sum"), ("field", "$val")), ("bin", "+", ("bin", "*", ("const", I(10)), ("field", "$sum")), ("field", "$idx")), ("bin", "-", ("field", "$val"), ("field", "$sum")), ("field", "$sum"), ("field", "$val"), ("path", ("field", "$val"), ("field", "b")), ("call", "arr", [("field", "$sum"), ("field", "$val")]), ("call", "arr", [("field", "$val"), ("bin", "+", ("field", "$sum"), ("field", "$idx"))]), sub()]))
            if len(a) == 2 and r.random() < .6: a.append(r.choice([self.ints(), ("const", S("z")), ("const", NULL), sub()]))
        elif f == "keys": a = [r.choice([("field", "_"), self.stream(d), sub()])]
        else: a = [self.stream(d)] + ([r.choice([self.ints(), sub()])] if r.random() < .4 else [])
        if r.random() < .03: a = a[:-1] if r.random() < .5 else a + [self.leaf()]
        return ("call", f, a)


def hexs(s): return s.encode().hex()


def lines(prop, rng):
    g = Gen(rng, prop)
    while True:
        d = rng.choice(DOCS)
        yield hexs(json.dumps(d)) + "\t" + hexs(text(g.expr(rng.choice([1, 2, 2, 3])))) + rng.choice(["", "", "", "", "\tw", "\ta", "\twa"])


def judge(prop, line, out):
    f = line.split("\t"); fl = f[2] if len(f) > 2 else ""
    if isinstance(out, tuple): return None if "did not terminate" in out[1] and prop not in ("C09", "C25") else f"crash: {out[1]}"
    q = bytes.fromhex(f[1]).decode(); w = out.split(" ")
    if w[0] in ("JE", "NULL"): return None
    if prop == "C09":
        if w[0] != "OK": return None
        parts = out.split(" | ", 1)[1]
        vals, res, rest = split3(parts)
        n = len(vals.split())
        if "badctx" in res: return f"{q}: a result is delivered with another context"
        if res[0] == "S": return f"{q}: the evaluation reports a stop although its consumer never asked for one"
        if res[0] == "C" and n == 0: return f"{q}: the evaluation completes without a value"
        for i, s in enumerate(x for x in rest.split() if not x.startswith("trace:")):
            if s.rstrip("!").lstrip("0123456789") not in ("S",): return f"{q}: the consumer stopped after value {i + 1}, the evaluation reports {s}"
            if s[:-1] not in ("0",) and not s.startswith("0"): return f"{q}: the consumer is called {s} times after it stopped after value {i + 1}"
            if "!" in s: return f"{q}: other values with a consumer that stops after value {i + 1}"
        return None
    try:
        doc = json.loads(bytes.fromhex(f[0])); POOL.clear(); POOL.update(names_of(doc) | {"$sum", "$val", "$idx", ""})
        e = parse(q)
        if e is None: return None if w[0] == "CE" else f"{q}: is not in the language, but compiles"
        if "w" in fl:
            try: k = fold(e)[0]
            except Err: k = None
            if k in ("const", "multi"): e = ("bin", "==", ("wild",), e)
        if "a" in fl: e = ("call", "any", [e])
        if w[0] == "CE":
            return None if may_fail_to_compile(e) else f"{q}: does not compile, although every constant part of it has a value"
        try:
            vs, res = outcome(e, "E", field(build(doc)))
            exp = [printed(v) for v in vs][:3000]
        except RecursionError: return None
        vals, r, _ = split3(out.split(" | ", 1)[1])
        got = vals.split()
        r = {"X": "E"}.get(r[0], r[0])
        if got != exp or (r == "E") != (res == "E"):
            k = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            return f"{q} on {bytes.fromhex(f[0]).decode()}: value {k}: got {got[k:k + 3]} ({len(got)} values, {'error' if r == 'E' else 'completed'}), expected {exp[k:k + 3]} ({len(exp)} values, {'error' if res == 'E' else 'completed'})"
    except (Skip, RecursionError): return None
    return None


def split3(s):
    a = s.split("|")
    return [a[0].strip(), a[1].strip(), a[2].strip() if len(a) > 2 else ""]


# ---------------------------------------------------------------- C08, C25: texts
WORDS = ["a", "b", "_", "1", "2", "0", "2.5", '"x"', '""', "true", "false", "null", "ABC", "foo", "and", "or", "not", "as", "int", "string", "float", "bool", "typeof", "any(", "count(", "f(", "sum(",
         "+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "~", "<", "<=", ">", ">=", "==", "=", "!=", "#", "?", "...", ".", ",", "(", ")", "[", "]", "{", "}", "**"]


class Soup:
    def __init__(self, rng): self.r = rng
    def atom(self, d):
        r = self.r; x = r.random()
        if x < .45: return r.choice(["a", "b", "c", "_", "*", "**", "1", "2", "3", "2.5", '"x"', "true", "null", "ABC"])
        if x < .6 and d > 0: return "(" + self.mix(d - 1) + ")"
        if x < .7 and d > 0: return r.choice(["any", "count", "foo", "arr", "each"]) + "(" + ", ".join(self.mix(d - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))) + ")"
        if x < .75 and d > 0: return r.choice(["[%s]", "{%s}"]) % self.mix(d - 1)
        return r.choice("abc")
    def operand(self, d):
        r = self.r; s = self.atom(d)
        for _ in range(r.choice([0, 0, 0, 1, 2])): s = r.choice(["- ", "~ ", "not ", "# ", "typeof "]) + s
        for _ in range(r.choice([0, 0, 0, 0, 1, 2, 3])):
            s += r.choice([".a", ".B", ".*", ".(" + self.mix(d - 1) + ")" if d > 0 else ".b", "[" + (self.mix(d - 1) if d > 0 else "0") + "]", "{" + (self.mix(d - 1) if d > 0 else "a") + "}", " ?", " ...", " as int", " as string", " as null", " as bool", " as float", ".f(A, b)", " foo"] + ([".- b[" + self.mix(d - 1) + "]", ".# A{" + self.mix(d - 1) + "}", ".not f(" + self.mix(d - 1) + ")"] if d > 0 else [".- ABC"]))
        return s
    def mix(self, d):
        r = self.r; s = self.operand(d)
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            s += " " + r.choice(["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "=", "!=", "and", "or", "foo", "bar"]) + " " + self.operand(d)
        return s


def soups(prop, rng):
    g = Soup(rng)
    while True:
        x = rng.random(); k = rng.choice(["", "", "", "\tw", "\ta", "\twa"])
        if prop == "C25" and x < .25: s = "".join(rng.choice("ab1.()[]{}\"'\\/r*+-#?_ ,<>=!&|^~%$\t\n") for _ in range(rng.randint(0, 14)))
        elif x < (.55 if prop == "C25" else .15): s = " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 9)))
        else:
            s = g.mix(rng.choice([0, 1, 1, 2]))
            if rng.random() < (.4 if prop == "C25" else .1):         # damage it
                t = s.split(" "); i = rng.randrange(len(t)); y = rng.random()
                if y < .4: del t[i]
                elif y < .7: t.insert(i, rng.choice(WORDS))
                else: t[i] = rng.choice(WORDS)
                s = " ".join(t)
        yield hexs("5") + "\t" + hexs(s) + k


def judge_parse(prop, line, out):
    f = line.split("\t"); fl = f[2] if len(f) > 2 else ""
    q = bytes.fromhex(f[1]).decode()
    if isinstance(out, tuple):
        if "did not terminate" in out[1]: return f"{q!r}: {out[1]}" if prop == "C25" else None
        return f"{q!r}: crash: {out[1]}" if prop == "C25" else None
    w = out.split(" ")
    if w[0] == "NULL": return f"{q!r}: compiles to nothing"
    if w[0] == "JE": return None
    try:
        e = parse(q)
        if e is None: return f"{q!r}: is not in the language, but compiles" if w[0] == "OK" else None
        if prop == "C25": return None
        bad = may_fail_to_compile(e)
        if w[0] == "CE": return None if bad else f"{q!r}: is in the language, but does not compile"
        try: e = fold(e)
        except Err: return None
        if "w" in fl and e[0] in ("const", "multi"): e = ("bin", "==", ("wild",), e)
        if "a" in fl: e = fold(("call", "any", [e]))
        got, exp = bytes.fromhex(w[1]).decode(), show(e)
        return None if got == exp else f"{q!r}: parses as {got}, the language says {exp}"
    except (Skip, RecursionError): return None


def shrink(suite, prop, line, problem):
    """a shorter text that fails too"""
    from . import harness as H
    f = line.split("\t"); q = bytes.fromhex(f[1]).decode(errors="replace")
    t = re.findall(r'\s+|"[^"]*"|\w+|\.\.\.|\*\*|[<>=!]=|<<|>>|.', q); n = 0; w = max(1, len(t) // 2)
    end = __import__("time").time() + 20
    while w >= 1 and n < 300 and __import__("time").time() < end:
        i = 0; any_ = False
        while i < len(t) and n < 300:
            c = t[:i] + t[i + w:]; n += 1
            x = "\t".join([f[0], hexs("".join(c))] + f[2:])
            try:
                r = H.run_batch(suite.exe, [x])[0]
                p = suite.judge(prop, x, r) if r is not None else None
            except Exception: p = None
            if p: t, problem, line, any_ = c, p, x, True
            else: i += w
        if not any_ or w > 1: w = w // 2 if w > 1 else (0 if not any_ else 1)
    return line, problem
