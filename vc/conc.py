"""Executes the specification functions on concrete inputs (the same definitions the
proofs use, compiled to Python), so that a failed obligation can be confirmed by running
the real code and comparing with what the specification says."""
import sys
import z3
from .core import Spec

sys.setrecursionlimit(200000)


class Compiled:
    def __init__(self, env):
        """env: names -> python callables/values for the uninterpreted symbols (e.g. inp, N)"""
        self.ns = dict(env)
        self.ns["_div"] = lambda a, b: a // b if b else 0
        self.done = set()

    def fn(self, spec):
        nm = "S_" + "".join(c if c.isalnum() else "_" for c in spec.name)
        if spec.name not in self.done:
            self.done.add(spec.name)
            vs, eq, _ = spec.template()
            body = self.src(eq.arg(1), {v.decl().name(): f"a{i}" for i, v in enumerate(vs)})
            code = f"def {nm}({', '.join('a%d' % i for i in range(len(vs)))}):\n  return {body}\n"
            exec(code, self.ns)
        return nm

    def call(self, spec, *args):
        return self.ns[self.fn(spec)](*args)

    def expr(self, term, names=()):
        """compile a term over the given constants into a python function"""
        m = {n.decl().name(): f"v{i}" for i, n in enumerate(names)}
        return eval(f"lambda {', '.join(m.values())}: {self.src(term, m)}", self.ns)

    def src(self, t, env):
        if z3.is_int_value(t): return f"({t.as_long()})"
        if z3.is_rational_value(t): return f"({t.numerator_as_long()}/{t.denominator_as_long()})"
        if z3.is_bv_value(t): return f"({t.as_long()})"
        if z3.is_true(t): return "True"
        if z3.is_false(t): return "False"
        d = t.decl(); k = d.kind(); ch = t.children()
        s = lambda x: self.src(x, env)
        K = z3
        if k == K.Z3_OP_ITE: return f"({s(ch[1])} if {s(ch[0])} else {s(ch[2])})"
        if k == K.Z3_OP_AND: return "(" + " and ".join(map(s, ch)) + ")"
        if k == K.Z3_OP_OR: return "(" + " or ".join(map(s, ch)) + ")"
        if k == K.Z3_OP_NOT: return f"(not {s(ch[0])})"
        if k == K.Z3_OP_IMPLIES: return f"((not {s(ch[0])}) or {s(ch[1])})"
        if k in (K.Z3_OP_EQ, K.Z3_OP_IFF): return f"({s(ch[0])} == {s(ch[1])})"
        if k == K.Z3_OP_DISTINCT: return f"({s(ch[0])} != {s(ch[1])})"
        ops = {K.Z3_OP_LE: "<=", K.Z3_OP_LT: "<", K.Z3_OP_GE: ">=", K.Z3_OP_GT: ">"}
        if k in ops: return f"({s(ch[0])} {ops[k]} {s(ch[1])})"
        ar = {K.Z3_OP_ADD: "+", K.Z3_OP_SUB: "-", K.Z3_OP_MUL: "*"}
        if k in ar: return "(" + f" {ar[k]} ".join(map(s, ch)) + ")"
        if k == K.Z3_OP_UMINUS: return f"(-{s(ch[0])})"
        if k in (K.Z3_OP_IDIV, K.Z3_OP_DIV): return f"_div({s(ch[0])}, {s(ch[1])})"
        if k == K.Z3_OP_MOD: return f"({s(ch[0])} % {s(ch[1])})"
        if k == K.Z3_OP_TO_REAL: return s(ch[0])
        if k == K.Z3_OP_DT_CONSTRUCTOR:
            return "(" + repr(d.name()) + "," + "".join(s(x) + "," for x in ch) + ")"
        if k in (K.Z3_OP_DT_RECOGNISER, K.Z3_OP_DT_IS):
            so = ch[0].sort()
            for i in range(so.num_constructors()):
                if so.recognizer(i).eq(d) or d.name().endswith(so.constructor(i).name()) or d.params() and getattr(d.params()[0], "name", lambda: "")() == so.constructor(i).name():
                    return f"({s(ch[0])}[0] == {so.constructor(i).name()!r})"
            raise NotImplementedError(str(d))
        if k == K.Z3_OP_DT_ACCESSOR:
            so = ch[0].sort()
            for i in range(so.num_constructors()):
                for j in range(so.constructor(i).arity()):
                    if so.accessor(i, j).eq(d): return f"{s(ch[0])}[{j + 1}]"
        if k == K.Z3_OP_UNINTERPRETED:
            if not ch:
                return env.get(d.name(), d.name())
            sp = Spec.registry.get(d.get_id())
            nm = d.name()
            if sp is not None and sp.defn is not None: nm = self.fn(sp)
            return f"{nm}({', '.join(map(s, ch))})"
        raise NotImplementedError(f"{t.sexpr()[:100]} kind {k}")


def bytes_of(s):
    out = []
    while s[0] == "snoc":
        out.append(s[2] & 255); s = s[1]
    return bytes(out[::-1])


def list_of(s, nil, snoc):
    out = []
    while s[0] == snoc:
        out.append(s[2]); s = s[1]
    return out[::-1]
