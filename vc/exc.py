"""C20: raise<T> and the installed handler (exception-handler.h / .cpp)."""
import z3
from .core import *
from . import builtins as BI
from .builtins import to_str
from .suite import BaseSuite, TRUST

TH = "simfil::ThrowHandler"
tname = z3.Function("typeid_name", Str, Str)


class Exc:
    def __init__(self, ast, stats=None):
        self.a = ast
        ex = self.ex = Ex(ast, stats, mode="int", rounds=1)
        ex.builtins["std::type_info::name"] = lambda ex, fid, this, a, n: StrV(tname(str_const((ex.get(this).data or "").encode())))
        for k in ("std::exception::what", "std::runtime_error::what", "std::logic_error::what"):
            ex.builtins[k] = self.what

    def message(self, v):
        if isinstance(v, OpaqueV): return v.data if v.data is not None else str_const(b"std::exception")
        return str_const(b"std::exception")           # a class derived from std::exception without its own what()

    def what(self, ex, fid, this, a, n):
        return StrV(self.message(ex.get(this)))

    def fn(self, nm):
        l = self.a.byname.get(f"{TH}::{nm}")
        if not l: raise Unsupported(f"ThrowHandler::{nm} not found")
        return l[0]

    def singleton(self):
        i = self.ex.inline(self.fn("instance"), None, [])
        if not isinstance(i, LV): raise Unsupported("ThrowHandler::instance")
        return i

    def handler_cell(self):
        """the field the handler is kept in"""
        i = self.singleton()
        v = self.ex.get(i)
        fs = [k for k, x in v.fields.items() if isinstance(x, FnV)]
        if len(fs) != 1: raise Unsupported("ThrowHandler fields")
        return i.sub(fs[0])

    def run_handler(self):
        ex = self.ex
        ex.stats.functions += [f"{TH}::{n}" for n in ("instance", "set", "get")]
        def run(ex):
            i, j = self.singleton(), self.singleton()
            ex.check(z3.BoolVal(i.root is j.root and i.path == j.path), "ThrowHandler::instance: always the same object", "C20")
            ex.thread = 1
            j = self.singleton()
            ex.thread = 0
            ex.check(z3.BoolVal(i.root is j.root and i.path == j.path), "ThrowHandler::instance: the same object in every thread", "C20")
            c = self.handler_cell()
            ex.check(z3.Not(ex.as_bool(ex.get(c).has)) if ex.get(c).has is not True else z3.BoolVal(False), "initially there is no handler", "C20")
            old, new = FnV(lambda *x: VOID, z3.Bool("old")), FnV(lambda *x: VOID, z3.Bool("new"))
            ex.set(c, old)
            def get():
                r = ex.inline(self.fn("get"), i, [])
                return ex.load(r)
            ex.check(z3.BoolVal(get() is old or get().fn is old.fn), "ThrowHandler::get returns the installed handler", "C20")
            ex.inline(self.fn("set"), i, [new])
            ex.thread = 1          # installed in one thread, looked up in another
            g = get()
            ex.thread = 0
            ex.check(z3.BoolVal(g is new or (g.fn is new or getattr(g, "fn", None) is new.fn)), "ThrowHandler::set replaces the handler", "C20")
        ex.explore(run, cover="ThrowHandler")

    def run_raise(self):
        ex = self.ex
        fs = self.a.byname.get("simfil::raise", [])
        if not fs: raise Unsupported("raise not instantiated")
        for f in fs:
            d = self.a.decls[f]
            ty = self.a.T(d["targs"][0]["t"]).get("n")
            desc = f"raise<{ty}>({', '.join(self.a.types[p['t']].get('s', '?') for p in d['params'])})"
            ex.stats.functions.append("simfil::" + desc)
            for pres, thread in ((False, 0), (True, 0), (True, 1)):
                def run(ex, pres=pres, thread=thread):
                    calls = []
                    c = self.handler_cell()
                    def h(ex_, args, n=None):
                        calls.append([to_str(ex, a) for a in args]); return VOID
                    has = z3.Bool("handler_installed")
                    ex.set(c, FnV(h, has)); ex.assume(has if pres else z3.Not(has))
                    args = []
                    for i, p in enumerate(d["params"]):
                        s = z3.Const(f"arg{i}", Str)
                        pt = self.a.T(p["t"]); pt = self.a.T(pt["to"]) if pt["k"] == "ref" else pt
                        v = StrV(s) if pt.get("n") == "std::basic_string" else ViewV(BI.StrBase(s), z3.IntVal(0), BI.SLEN(s)) if pt.get("n") == "std::basic_string_view" else CStr(b"some message text here ok")
                        args.append(ex.new_lv(v, f"arg{i}"))
                    thrown = None
                    ex.thread = thread     # a handler installed in thread 0 is called for errors of any thread
                    try: ex.inline(f, None, args)
                    except CppThrow as e: thrown = e
                    ex.check(z3.BoolVal(thrown is not None), f"{desc}: throws", "C20")
                    if thrown is None: return
                    ex.check(z3.BoolVal(thrown.ty == ty), f"{desc}: throws an exception of that type", "C20", info=str(thrown.ty))
                    want = str_const(b"std::exception") if ty == "simfil::InvalidOperandsError" else to_str(ex, args[0])
                    v = thrown.val
                    if isinstance(v, OpaqueV): ex.check(self.message(v) == want, f"{desc}: the exception has the message it was raised with", "C20")
                    elif isinstance(v, StructV): ex.check(to_str(ex, v.fields["operatorName"]) == to_str(ex, args[0]), f"{desc}: the exception has the operator it was raised with", "C20")
                    ex.check(z3.BoolVal(len(calls) == (1 if pres else 0)), f"{desc}: the handler is called {'exactly once' if pres else 'never when there is none'}", "C20", info=str(len(calls)))
                    if pres and calls:
                        ex.check(calls[0][0] == tname(str_const(ty.encode())), f"{desc}: the handler gets the type's name", "C20")
                        ex.check(calls[0][1] == want, f"{desc}: the handler gets the message", "C20")
                ex.explore(run, cover=f"{desc} handler={pres} thread={thread}")


class Suite(BaseSuite):
    PROPS = ("C20",)
    TU = "drivers/exc.cpp"
    HARNESS = ("exc", "harness/exc.cpp", ["src/exception-handler.cpp", "src/model/model.cpp", "src/model/nodes.cpp", "src/model/string-pool.cpp", "src/types.cpp", "src/value.cpp"])
    ASSUME = ["the handler returns normally; what a throwing handler does is not specified", "assumed contract: what() of a standard exception is its constructor's message", "handlers are not replaced while another thread raises an error (the handler is not synchronized)"]

    def tasks(self, prop):
        a = self.a
        return [("ThrowHandler", lambda st: Exc(a, st).run_handler()), ("raise", lambda st: Exc(a, st).run_raise())]

    KIND = ["runtime_error", "runtime_error_s", "runtime_error_l", "out_of_range", "overflow_error", "operands", "own", "plain", "two"]
    OPS = ["index", "mod", "arity"]

    def gen(self, prop, rng, hints):
        # sequences of (t prefix: in another thread): s<k> install handler k, c remove it, r<kind>:<message> raise, o<kind> an error raised inside the library
        R = [f"r{k}:{m}" for k in self.KIND for m in ("", "x", "hello world", "a" * 40)] + [f"o{k}" for k in self.OPS]
        for r in R:
            for pre in ("", "s1", "s1;s2", "s1;c", "c", "s1;c;s2"):
                yield ";".join(x for x in (pre, r) if x)
                yield ";".join(x for x in (pre, r, r) if x)
                yield ";".join(x for x in (pre, "t" + r) if x)
                if pre: yield ";".join(x for x in ("t" + pre, r) if x)
        while True:
            yield ";".join(rng.choice(("", "", "t")) + rng.choice(R + ["s1", "s2", "s3", "c"]) for _ in range(rng.randrange(1, 9)))

    def judge(self, prop, line, out):
        if isinstance(out, tuple): return f"crash: {out[1]}"
        h = 0; exp = []
        line = ";".join(op.removeprefix("t") for op in line.split(";"))     # in which thread makes no difference
        for op in line.split(";"):
            if op[0] == "s": h = int(op[1:])
            elif op == "c": h = 0
            else:
                if op[0] == "o":
                    k, m = {"index": ("out_of_range", "Index out of range"), "mod": ("runtime_error", "Division by zero"), "arity": ("runtime_error", "Invalid operands for operator +")}[op[1:]]
                    nested = op == "oarity"
                else: k, m = op[1:].split(":", 1); nested = False
                exp.append((h, k, m, nested))
        got = out.split(";") if out else []
        if len(got) != len(exp): return f"{len(got)} outcomes instead of {len(exp)}: {out}"
        NAME = {"runtime_error": "St13runtime_error", "runtime_error_s": "St13runtime_error", "runtime_error_l": "St13runtime_error", "out_of_range": "St12out_of_range", "overflow_error": "St14overflow_error",
                "operands": "N6simfil20InvalidOperandsErrorE", "own": "3Own", "plain": "5Plain", "two": "3Two"}
        for g, (h, k, m, nested) in zip(got, exp):
            calls, thrown, msg = g.split("|")
            calls = [c for c in calls.split("&") if c]
            w = m
            if k == "operands": w = "std::exception"
            if k == "plain": w = ""
            if k == "two": w = m + "2"
            t = w if k != "plain" else m
            if thrown != NAME[k]: return f"throws {thrown} instead of {NAME[k]}"
            if m and nested is False and "o" + k not in self.OPS and msg != t and not line.split(";")[0].startswith("o") and k not in ("operands",): return f"message {msg!r} instead of {t!r}"
            if nested: 
                if h and not calls: return "handler not called"
                continue
            if h == 0:
                if calls: return f"handler called although none is installed: {calls}"
            else:
                if len(calls) != 1: return f"handler called {len(calls)} times"
                n, a, b, before = calls[0].split("~")
                if n != str(h): return f"handler {n} called instead of {h}"
                if a != thrown: return f"handler told {a} but {thrown} is thrown"
                if b != msg and k != "plain": return f"handler told message {b!r} but it is {msg!r}"
                if k == "plain" and b != "": return f"handler told message {b!r}"
                if before != "1": return "handler called after the exception was thrown"
        return None
