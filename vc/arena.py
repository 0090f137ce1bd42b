"""C14: array arena (model/arena.h)."""
import z3
from .core import *
from . import builtins as BI
from .suite import BaseSuite, TRUST

IA = z3.IntSort()
AR = "simfil::ArrayArena"
CHUNK = ("offset", "capacity", "size", "next", "last")


def qall(vs, body, *patterns):
    return z3.ForAll(vs, body, patterns=list(patterns))


class Ghost:
    """owner/base of continuation chunks; owner/position of every slot; slot of every (array, position)"""
    def __init__(self, owner, base, so, si, s): self.owner, self.base, self.so, self.si, self.s = owner, base, so, si, s


class Arena:
    def __init__(self, ast, stats=None):
        self.a = ast
        ex = self.ex = Ex(ast, stats, mode="int", rounds=1)
        ex.prover.timeout = 20000
        ex.cfg["feas_ms"] = 500; ex.cfg["cand_ms"] = 1500
        ex.cfg["havoc"] = self.havoc
        ex.cfg["new"] = self.place
        ex.loop_candidates = self.candidates
        ex.contracts["simfil::raise"] = self.raise_contract
        self.rec = next((r for r in ast.rec_by_name.get(AR, []) if any(f["n"] == "heads_" for f in ast.decls[r].get("fields", []))), None)
        if self.rec is None: raise Unsupported("ArrayArena not found")
        self.fields = {f["n"]: f["t"] for f in ast.decls[self.rec]["fields"]}
        if not {"heads_", "continuations_", "data_"} <= set(self.fields): raise Unsupported("fields of ArrayArena")
        self.cur_a = None

    def raise_contract(self, ex, fid, this, args):
        d = ex.a.decls[fid]
        raise CppThrow(ex.T(d["targs"][0]["t"]).get("n", "exception"), OpaqueV("exception"))

    def place(self, ex, n):
        if not n.get("place"): raise Unsupported("new")
        p = ex.rv(n["place"][0])
        lv = ex.deref(p)
        ex.set(lv, ex.coerce(ex.rv(n["init"]), n["at"]) if n.get("init") else ex.default_value(n["at"]))
        return P(lv)

    # ---- state
    def st(self, me):
        f = self.ex.get(me).fields
        d = dict(nh=f["heads_"].n, nc=f["continuations_"].n, nd=f["data_"].n, data=f["data_"].leaves[()])
        for k in CHUNK:
            d["h" + k] = f["heads_"].leaves[(k,)]; d["c" + k] = f["continuations_"].leaves[(k,)]
        return d

    def fresh_arena(self):
        ex = self.ex
        fs = {f: ex.fresh(t, f) for f, t in self.fields.items()}
        me = ex.new_lv(StructV(self.rec, fs), "arena")
        s = self.st(me)
        F = lambda n, *a: z3.Function(n, *([IA] * (a[0] + 1)))
        g = Ghost(F("owner", 1), F("base", 1), F("slotowner", 1), F("slotpos", 1), F("slot", 2))
        # capacity precondition: everything stays far from the 32-bit limits
        ex.assume(z3.And(s["nh"] >= 0, s["nc"] >= 0, s["nd"] >= 0, s["nh"] < 2 ** 31 - 1, s["nc"] < 2 ** 31 - 1, s["nd"] < 2 ** 31))
        self.assume_inv(s, g)
        return me, s, g

    def total(self, s, g, a): return z3.If(s["hlast"][a] == -1, s["hcapacity"][a], g.base(s["hlast"][a]) + s["ccapacity"][s["hlast"][a]])

    def inv_head(self, s, g, a):
        nx, la = s["hnext"][a], s["hlast"][a]
        return z3.Implies(z3.And(a >= 0, a < s["nh"]), z3.And(
            s["hoffset"][a] >= 0, s["hcapacity"][a] >= 0, s["hsize"][a] >= 0, s["hoffset"][a] + s["hcapacity"][a] <= s["nd"],
            (nx == -1) == (la == -1), z3.Implies(la == -1, s["hsize"][a] <= s["hcapacity"][a]),
            z3.Implies(la != -1, z3.And(nx >= 0, nx < s["nc"], g.owner(nx) == a, g.base(nx) == s["hcapacity"][a], s["hcapacity"][a] >= 1,
                                       la >= 0, la < s["nc"], g.owner(la) == a, s["hsize"][a] == g.base(la) + s["csize"][la], s["cnext"][la] == -1))))

    def inv_cont(self, s, g, c):
        nx, o = s["cnext"][c], g.owner(c)
        return z3.Implies(z3.And(c >= 0, c < s["nc"]), z3.And(
            o >= 0, o < s["nh"], s["ccapacity"][c] >= 1, s["coffset"][c] >= 0, s["coffset"][c] + s["ccapacity"][c] <= s["nd"],
            s["csize"][c] >= 0, s["csize"][c] <= s["ccapacity"][c], g.base(c) >= s["hcapacity"][o], g.base(c) + s["csize"][c] <= s["hsize"][o],
            (nx == -1) == (s["hlast"][o] == c), s["hlast"][o] != -1,
            z3.Implies(nx != -1, z3.And(nx > c, nx < s["nc"], g.owner(nx) == o, g.base(nx) == g.base(c) + s["ccapacity"][c], s["csize"][c] == s["ccapacity"][c]))))

    def inv_hslot(self, s, g, a, k):
        return z3.Implies(z3.And(a >= 0, a < s["nh"], s["hoffset"][a] <= k, k < s["hoffset"][a] + s["hcapacity"][a]), z3.And(g.so(k) == a, g.si(k) == k - s["hoffset"][a]))

    def inv_cslot(self, s, g, c, k):
        return z3.Implies(z3.And(c >= 0, c < s["nc"], s["coffset"][c] <= k, k < s["coffset"][c] + s["ccapacity"][c]), z3.And(g.so(k) == g.owner(c), g.si(k) == g.base(c) + k - s["coffset"][c]))

    def inv_slot(self, s, g, k):
        return z3.Implies(z3.And(k >= 0, k < s["nd"]), z3.And(g.so(k) >= 0, g.so(k) < s["nh"], g.si(k) >= 0, g.si(k) < self.total(s, g, g.so(k)), g.s(g.so(k), g.si(k)) == k))

    def assume_inv(self, s, g):
        a, c, k = z3.Ints("a? c? k?")
        A = self.ex.assume
        A(qall([a], self.inv_head(s, g, a), s["hoffset"][a]))
        A(qall([c], self.inv_cont(s, g, c), s["coffset"][c]))
        A(qall([a, k], self.inv_hslot(s, g, a, k), z3.MultiPattern(s["hoffset"][a], g.so(k))))
        A(qall([c, k], self.inv_cslot(s, g, c, k), z3.MultiPattern(s["coffset"][c], g.so(k))))
        A(qall([k], self.inv_slot(s, g, k), g.so(k)))

    def head_inst(self, s, g, a):
        """instances of the invariant for an array and the chunks its head refers to"""
        A = self.ex.assume
        A(self.inv_head(s, g, a))
        for c in (s["hlast"][a], s["hnext"][a]): A(self.inv_cont(s, g, c))

    def cont_inst(self, s, g, c):
        A = self.ex.assume
        A(self.inv_cont(s, g, c)); A(self.inv_cont(s, g, s["cnext"][c])); A(self.inv_head(s, g, g.owner(c)))

    def slot_inst(self, s, g, k):
        A = self.ex.assume
        A(self.inv_slot(s, g, k)); self.head_inst(s, g, g.so(k))

    def check_inv(self, s, g, label, touch=()):
        ex = self.ex
        a, c, k = (z3.Int(ex.fresh_name(n)) for n in ("anyarray", "anychunk", "anyslot"))
        if touch:
            s0, g0 = touch
            self.head_inst(s0, g0, a); self.cont_inst(s0, g0, c); self.slot_inst(s0, g0, k)
            ex.assume(self.inv_hslot(s0, g0, a, k)); ex.assume(self.inv_cslot(s0, g0, c, k)); self.head_inst(s0, g0, g0.owner(c))
        ex.check(self.inv_head(s, g, a), f"{label}: every array's first chunk, size and links stay consistent", "C14")
        ex.check(self.inv_cont(s, g, c), f"{label}: every continuation chunk belongs to one array and is linked in order", "C14")
        ex.check(self.inv_hslot(s, g, a, k), f"{label}: the slots of a first chunk belong to its array only", "C14")
        ex.check(self.inv_cslot(s, g, c, k), f"{label}: the slots of a continuation chunk belong to its array only", "C14")
        ex.check(self.inv_slot(s, g, k), f"{label}: every slot belongs to exactly one position of one array", "C14")

    def kept(self, s0, g0, s, g, label, but=None):
        """no element of any array moves or changes; sizes stay"""
        ex = self.ex
        a, i = z3.Int(ex.fresh_name("otherarray")), z3.Int(ex.fresh_name("position"))
        ex.assume(z3.And(a >= 0, a < s0["nh"], i >= 0, i < s0["hsize"][a]))
        k = z3.Int(ex.fresh_name("slotof"))
        # (a, i) lies in some slot k: given by at()'s contract
        ex.assume(z3.And(k >= 0, k < s0["nd"], g0.so(k) == a, g0.si(k) == i))
        self.slot_inst(s0, g0, k); self.head_inst(s0, g0, a)
        ex.check(z3.And(g.so(k) == a, g.si(k) == i, g.s(a, i) == k, k < s["nd"]), f"{label}: elements of every array keep their place", "C14")
        ex.check(s["data"][k] == s0["data"][k], f"{label}: elements of every array keep their value", "C14")
        ex.check(z3.Implies(z3.BoolVal(True) if but is None else a != but, s["hsize"][a] == s0["hsize"][a]), f"{label}: other arrays keep their size", "C14")
        ex.check(s["nh"] >= s0["nh"], f"{label}: no array is lost", "C14")

    # ---- loops over chunks
    def havoc(self, ex, v, name):
        if not isinstance(v, P): return None
        lv = self.me
        c = ex.choose(3)
        if c == 0: return P(lv.sub("heads_").sub(("e", self.cur_a)))
        if c == 1:
            c = z3.Int(ex.fresh_name("chunk"))
            self.cont_inst(self.s0, self.g, c)
            return P(lv.sub("continuations_").sub(("e", c)))
        return P(None)

    def chunk_of(self, p):
        """(head?, index) of a chunk pointer; None for null"""
        if p.lv is None: return None
        path = p.lv.path
        if p.lv.root is not self.me.root or len(path) != 2 or path[0] not in ("heads_", "continuations_"): raise Unsupported("chunk pointer")
        return path[0] == "heads_", path[1][1]

    def base_of(self, ch): return z3.IntVal(0) if ch[0] else self.g.base(ch[1])
    def own(self, ch):
        s = self.s0
        return ch[1] == self.cur_a if ch[0] else z3.And(ch[1] >= 0, ch[1] < s["nc"], self.g.owner(ch[1]) == self.cur_a)

    def candidates(self, ex, ctx):
        out, var = [], []
        ptrs = [LV(ex.roots[o]) for o in sorted(ex.roots) if isinstance(ex.roots[o].v, P) and ex.roots[o].name != "this"]
        ptrs = [p for p in ptrs if self.is_chunk(ex.get(p))]
        written = {o for o, _ in ctx.H}
        ints = [LV(ex.roots[o]) for o in sorted(ex.roots) if isinstance(ex.roots[o].v, I) and (o in written or ex.roots[o].name in ("i", "remaining", "index"))]
        T = z3.BoolVal(True)
        for p in ptrs:
            ch = lambda p=p: self.chunk_of(ex.get(p))
            nm = p.root.name
            out.append((f"{nm} is a chunk of the array", lambda ch=ch: T if ch() is None else self.own(ch())))
            out.append((f"{nm} not null", lambda ch=ch: z3.BoolVal(ch() is not None)))
            var.append((f"chunks after {nm}", lambda ch=ch: z3.IntVal(0) if ch() is None else self.s0["nc"] + 1 if ch()[0] else self.s0["nc"] - ch()[1]))
            for x in ints:
                v = lambda x=x: ex.get(x).t
                xn = x.root.name
                tgt = self.pos
                if tgt is not None:
                    out.append((f"{xn} = position - base({nm})", lambda ch=ch, v=v: T if ch() is None else v() + self.base_of(ch()) == tgt))
                out.append((f"{xn} = base({nm})", lambda ch=ch, v=v: v() == (self.s0["hsize"][self.cur_a] if ch() is None else self.base_of(ch()))))
                if getattr(self, "n", None) is not None:
                    N = lambda: ex.get(self.n).t
                    out.append((f"{xn} = count - base({nm})", lambda ch=ch, v=v: T if ch() is None else v() + self.base_of(ch()) == N()))
                    if ch() is not None:
                        c0 = ex.get(p)
                        size = lambda ch=ch: (self.s0["hsize"] if ch()[0] else self.s0["csize"])[ch()[1]]
                        cap = lambda ch=ch: (self.s0["hcapacity"] if ch()[0] else self.s0["ccapacity"])[ch()[1]]
                        out.append((f"{xn} <= fill of {nm}", lambda ch=ch, v=v, size=size, cap=cap: T if ch() is None else z3.And(v() <= size(), v() <= cap())))
                        var.append((f"elements left in {nm} from {xn}", lambda ch=ch, v=v, size=size: z3.IntVal(0) if ch() is None else size() - v()))
        for x in ints:
            xn = x.root.name
            out.append((f"{xn} >= 0", lambda x=x: ex.get(x).t >= 0))
            if getattr(self, "n", None) is not None:
                out.append((f"{xn} is the count", lambda x=x: ex.get(x).t == ex.get(self.n).t))
                out.append((f"{xn} <= size", lambda x=x: ex.get(x).t <= self.s0["hsize"][self.cur_a]))
                var.append((f"elements after {xn}", lambda x=x: self.s0["hsize"][self.cur_a] - ex.get(x).t))
        if getattr(self, "stop", None) is not None: out.append(("not stopped", lambda: z3.Not(ex.get(self.stop))))
        return out, var

    def is_chunk(self, p):
        try: return p.lv is None or self.chunk_of(p) is not None
        except Unsupported: return False

    # ---- functions
    def fn(self, name, pred=lambda d: True):
        r = []
        for f in self.a.byname.get(f"{AR}::{name}", []):
            if f in self.a.funcs and self.a.decls[f].get("parent") == self.rec and pred(self.a.decls[f]): r.append(f)
        if not r: raise Unsupported(f"ArrayArena::{name} not found")
        return r

    def begin(self):
        self.n = self.stop = self.pos = None
        self.me, self.s0, self.g = self.fresh_arena()

    def any_array(self):
        ex = self.ex
        a = ex.ifresh("array", 32, True)
        ex.assume(z3.And(a.t >= 0, a.t < self.s0["nh"]))
        self.cur_a = a.t
        self.head_inst(self.s0, self.g, a.t)
        ex.assume(self.s0["hsize"][a.t] < 2 ** 31)
        return ex.new_lv(a, "a"), a.t

    def unchanged(self, label):
        s0, s = self.s0, self.st(self.me)
        j = z3.Int(self.ex.fresh_name("any"))
        self.ex.check(z3.And(*[s[k] == s0[k] for k in ("nh", "nc", "nd")], *[s[k][j] == s0[k][j] for k in s0 if z3.is_array(s0[k])]), f"{label}: changes nothing", "C14")

    def run_new(self):
        ex = self.ex
        for f in self.fn("new_array"):
            ex.stats.functions.append(f"{AR}::new_array")
            def run(ex):
                self.begin()
                s0, g0 = self.s0, self.g
                c = ex.ifresh("initialCapacity", 64, False)
                ex.assume(c.t < 2 ** 30)
                r = ex.load(ex.inline(f, self.me, [c])).t
                s = self.st(self.me)
                n = s0["nh"]
                ex.check(r == n, "new_array: the index of a new array", "C14")
                ex.check(s["nh"] == n + 1, "new_array: one more array", "C14")
                ex.check(s["hsize"][r] == 0, "new_array: it is empty", "C14")
                g = Ghost(g0.owner, g0.base, lambda k: z3.If(k < s0["nd"], g0.so(k), n), lambda k: z3.If(k < s0["nd"], g0.si(k), k - s0["nd"]),
                          lambda a, i: z3.If(a == n, s0["nd"] + i, g0.s(a, i)))
                self.check_inv(s, g, "new_array", (s0, g0))
                self.kept(s0, g0, s, g, "new_array")
            ex.explore(run, cover="new_array")

    def run_append(self, name):
        ex = self.ex
        for f in self.fn(name):
            ex.stats.functions.append(f"{AR}::{name}")
            def run(ex):
                self.begin()
                s0, g0 = self.s0, self.g
                al, a = self.any_array()
                x = ex.ifresh("value", 64, True)
                ps = ex.a.decls[f]["params"]
                arg = ex.new_lv(x, "value")
                for i_ in range(1, len(ps)):
                    t = ex.T(ps[i_]["t"]); t = ex.T(t["to"]) if t["k"] == "ref" else t
                    if t["k"] == "int" and t["w"] != 64:
                        x = ex.ifresh("value", t["w"], t.get("sg", False)); arg = ex.new_lv(x, "value")
                tot = self.total(s0, g0, a)
                r = ex.inline(f, self.me, [al, arg])
                if not isinstance(r, LV): raise Unsupported(f"{name} returns no reference")
                if r.root is not self.me.root or len(r.path) != 2 or r.path[0] != "data_":
                    ex.check(z3.BoolVal(False), f"{name}: returns the stored element", "C14"); return
                k = r.path[1][1]
                s = self.st(self.me)
                n = s0["hsize"][a]
                grown = s["nd"] != s0["nd"]
                N0 = s0["nd"]
                nc0 = s0["nc"]
                g = Ghost(lambda c: z3.If(c < nc0, g0.owner(c), a), lambda c: z3.If(c < nc0, g0.base(c), tot),
                          lambda q: z3.If(q < N0, g0.so(q), a), lambda q: z3.If(q < N0, g0.si(q), q - N0 + tot),
                          lambda b, i: z3.If(z3.And(grown, b == a, i >= tot), N0 + i - tot, g0.s(b, i)))
                self.slot_inst(s0, g0, k)
                ex.check(z3.And(k >= 0, k < s["nd"], g.so(k) == a, g.si(k) == n, g.s(a, n) == k), f"{name}: the new element is the array's next one", "C14")
                ex.check(s["data"][k] == x.t, f"{name}: the new element has the given value", "C14")
                ex.check(s["hsize"][a] == n + 1, f"{name}: the array grows by one", "C14")
                ex.check(s["nh"] == s0["nh"], f"{name}: no array is added or removed", "C14")
                self.check_inv(s, g, name, (s0, g0))
                self.kept(s0, g0, s, g, name, but=a)
            ex.explore(run, cover=name)

    def run_at(self):
        ex = self.ex
        for f in self.fn("at"):
            ex.stats.functions.append(f"{AR}::at" + (" const" if self.a.decls[f].get("const") else ""))
            def run(ex):
                self.begin()
                s0, g = self.s0, self.g
                al, a = self.any_array()
                i = ex.ifresh("i", 64, False)
                self.pos = i.t
                inside = i.t < s0["hsize"][a]
                try: r = ex.inline(f, self.me, [al, ex.new_lv(i, "i")])
                except CppThrow as e:
                    ex.check(z3.Not(inside), "at: an error only outside the size", "C14")
                    ex.check(z3.BoolVal(e.ty == "std::out_of_range"), "at: std::out_of_range", "C14")
                    return
                ex.check(inside, "at: access outside the size is an error", "C14")
                if not isinstance(r, LV) or r.root is not self.me.root or len(r.path) != 2 or r.path[0] != "data_":
                    ex.check(z3.BoolVal(False), "at: a reference to the stored element", "C14"); return
                k = r.path[1][1]
                self.slot_inst(s0, g, k)
                ex.check(z3.And(k >= 0, k < s0["nd"], g.so(k) == a, g.si(k) == i.t), "at: index i gives the slot of the i-th appended element", "C14")
                self.unchanged("at")
            ex.explore(run, cover="at")

    def run_size(self):
        ex = self.ex
        for f in self.fn("size"):
            one = len(self.a.decls[f]["params"]) == 1
            ex.stats.functions.append(f"{AR}::size({'a' if one else ''})")
            def run(ex):
                self.begin()
                if one:
                    al, a = self.any_array()
                    r = ex.load(ex.inline(f, self.me, [al]))
                    ex.check(r.t == self.s0["hsize"][a], "size: the number of appended elements", "C14")
                else:
                    r = ex.load(ex.inline(f, self.me, []))
                    ex.check(r.t == self.s0["nh"], "size: the number of arrays", "C14")
                self.unchanged("size")
            ex.explore(run, cover="size")
        f = self.fn("clear")[0]
        ex.stats.functions.append(f"{AR}::clear")
        def run(ex):
            self.begin()
            ex.inline(f, self.me, [])
            s = self.st(self.me)
            ex.check(z3.And(s["nh"] == 0, s["nc"] == 0, s["nd"] == 0), "clear: nothing is left", "C14")
        ex.explore(run, cover="clear")

    def run_iterate(self, which):
        ex = self.ex
        for f in self.fn("iterate"):
            lam = self.a.decls[f]["params"][1]["t"]
            ty = ex.T(lam); ty = ex.T(ty["to"]) if ty["k"] == "ref" else ty
            kind = {"drv::Sink": "bool", "drv::SinkIdx": "index", "drv::SinkVoid": "void"}.get(ty.get("n"))
            if kind != which: continue
            ex.stats.functions.append(f"{AR}::iterate ({kind} callback)")
            def run(ex):
                self.begin()
                s0, g = self.s0, self.g
                al, a = self.any_array()
                self.n = ex.new_lv(I(z3.IntVal(0), 64, False), "n"); self.stop = ex.new_lv(z3.BoolVal(False), "stop")
                def cb(ex_, fid, this, args, n=None):
                    ex.check(z3.Not(ex.get(self.stop)), "iterate: no element after the callback stopped", "C14")
                    lv = args[0]
                    N = ex.get(self.n).t
                    if not isinstance(lv, LV) or lv.root is not self.me.root or len(lv.path) != 2 or lv.path[0] != "data_":
                        ex.check(z3.BoolVal(False), "iterate: yields stored elements", "C14")
                    else:
                        k = lv.path[1][1]
                        self.slot_inst(s0, g, k)
                        ex.check(z3.And(g.so(k) == a, g.si(k) == N, N < s0["hsize"][a]), "iterate: yields the array's next element", "C14")
                    if len(args) > 1: ex.check(ex.load(args[1]).t == N, "iterate: with its index", "C14")
                    ex.set(self.n, I(N + 1, 64, False))
                    if kind != "bool": return VOID
                    go = z3.Bool(ex.fresh_name("continue"))
                    ex.set(self.stop, z3.Not(go))
                    return go
                for c in ("drv::Sink::operator()", "drv::SinkIdx::operator()", "drv::SinkVoid::operator()"): ex.contracts[c] = cb
                ex.inline(f, self.me, [al, ex.new_lv(StructV(ty["d"], {}), "lambda")])
                ex.check(z3.Or(ex.get(self.stop), ex.get(self.n).t == s0["hsize"][a]), "iterate: visits every element unless stopped", "C14")
                self.unchanged("iterate")
            ex.explore(run, cover="iterate " + kind)

    def run_iterators(self):
        """begin/end/++/!=/*: index arithmetic over at()"""
        ex = self.ex
        calls = []
        def at_c(ex_, fid, this, args):
            a, i = ex.load(args[0]).t, ex.load(args[1]).t
            ok = z3.And(a >= 0, a < self.s0["nh"], i >= 0, i < self.s0["hsize"][a])
            ex.check(ok, "iterator: dereferenced inside the array only", "C14")
            k = self.g.s(a, i)
            ex.assume(z3.And(k >= 0, k < self.s0["nd"]))
            return self.me.sub("data_").sub(("e", k))
        IT = f"{AR}::ArrayIterator"
        def op(rec, name):
            for m in ex.a.decls[rec]["methods"]:
                if m in ex.a.funcs and ex.a.decls[m]["n"] == name: return m
            raise Unsupported(f"iterator {name}")
        begins = [f for f in self.fn("begin") if len(self.a.decls[f]["params"]) == 1]
        for b in begins:
            const = self.a.decls[b].get("const")
            e = next(f for f in self.fn("end") if len(self.a.decls[f]["params"]) == 1 and self.a.decls[f].get("const") == const)
            ex.stats.functions.append(f"{AR}::begin/end(a){' const' if const else ''}, ArrayIterator::operator*, ++, ==, !=")
            def run(ex):
                self.begin()
                ex.contracts[f"{AR}::at"] = at_c
                s0, g = self.s0, self.g
                al, a = self.any_array()
                it = ex.new_lv(ex.load(ex.inline(b, self.me, [al])), "it"); end = ex.new_lv(ex.load(ex.inline(e, self.me, [al])), "end")
                rec = ex.get(it).rec
                n = s0["hsize"][a]
                same = ex.as_bool(ex.load(ex.inline(op(rec, "operator=="), it, [end])))
                ex.check(same == (n == 0), "iterators: begin equals end exactly for the empty array", "C14")
                diff = ex.as_bool(ex.load(ex.inline(op(rec, "operator!="), it, [end])))
                ex.check(diff == (n != 0), "iterators: != is the negation of ==", "C14")
                # an arbitrary position, reached by any number of increments
                fld = next((k for k, v in ex.get(it).fields.items() if isinstance(v, I) and v.w == 64), None)
                if fld is None: raise Unsupported("iterator position")
                i = ex.ifresh("i", 64, False)
                ex.assume(i.t < n)
                ex.check(ex.get(it.sub(fld)).t == 0, "iterators: begin is position 0", "C14")
                ex.check(ex.get(end.sub(fld)).t == n, "iterators: end is the position after the last", "C14")
                ex.set(it.sub(fld), i)
                diff = ex.as_bool(ex.load(ex.inline(op(rec, "operator!="), it, [end])))
                ex.check(diff, "iterators: no position before the end equals the end", "C14")
                r = ex.inline(op(rec, "operator*"), it, [])
                ok = isinstance(r, LV) and r.root is self.me.root and len(r.path) == 2
                ex.check(r.path[1][1] == g.s(a, i.t) if ok else z3.BoolVal(False), "iterators: * gives the element at the position", "C14")
                ex.inline(op(rec, "operator++"), it, [])
                ex.check(ex.get(it.sub(fld)).t == i.t + 1, "iterators: ++ moves to the next position", "C14")
                diff = ex.as_bool(ex.load(ex.inline(op(rec, "operator!="), it, [end])))
                ex.check(diff == (i.t + 1 != n), "iterators: the end is reached exactly after the last element", "C14")
                self.unchanged("iterators")
            ex.explore(run, cover="iterators")
        # range() and its begin/end/size/[]
        f = self.fn("range")[0]
        ex.stats.functions += [f"{AR}::range", f"{AR}::ArrayRange::begin, end, size, operator[]"]
        def run(ex):
            self.begin()
            ex.contracts[f"{AR}::at"] = at_c
            s0, g = self.s0, self.g
            al, a = self.any_array()
            r = ex.new_lv(ex.load(ex.inline(f, self.me, [al])), "range")
            rec = ex.get(r).rec
            ex.check(ex.load(ex.inline(op(rec, "size"), r, [])).t == s0["hsize"][a], "range: its size is the array's", "C14")
            i = ex.ifresh("i", 64, False); ex.assume(i.t < s0["hsize"][a])
            x = ex.inline(op(rec, "operator[]"), r, [ex.new_lv(i, "i")])
            ok = isinstance(x, LV) and x.root is self.me.root and len(x.path) == 2
            ex.check(x.path[1][1] == g.s(a, i.t) if ok else z3.BoolVal(False), "range: [i] is the i-th element", "C14")
            for nm, want in (("begin", 0), ("end", s0["hsize"][a])):
                it = ex.load(ex.inline(op(rec, nm), r, []))
                fld = next((v for k, v in it.fields.items() if isinstance(v, I) and v.w == 64), None)
                arr = next((v for k, v in it.fields.items() if isinstance(v, I) and v.w == 32), None)
                ex.check(z3.And(fld.t == want, arr.t == a), f"range: {nm} is the array's {nm}", "C14")
        ex.explore(run, cover="range")
        # iteration over all arrays
        f0 = next(f for f in self.fn("begin") if not self.a.decls[f]["params"] and not self.a.decls[f].get("const"))
        e0 = next(f for f in self.fn("end") if not self.a.decls[f]["params"] and not self.a.decls[f].get("const"))
        ex.stats.functions += [f"{AR}::begin/end()", f"{AR}::ArrayArenaIterator::operator*, ++, ==, !=, begin, end"]
        def run(ex):
            self.begin()
            ex.contracts[f"{AR}::at"] = at_c
            s0 = self.s0
            it = ex.new_lv(ex.load(ex.inline(f0, self.me, [])), "it"); end = ex.new_lv(ex.load(ex.inline(e0, self.me, [])), "end")
            rec = ex.get(it).rec
            fld = next((k for k, v in ex.get(it).fields.items() if isinstance(v, I) and v.w == 32), None)
            if fld is None: raise Unsupported("iterator position")
            ex.check(ex.get(it.sub(fld)).t == 0, "arena iterators: begin is array 0", "C14")
            ex.check(ex.get(end.sub(fld)).t == s0["nh"], "arena iterators: end is after the last array", "C14")
            i = ex.ifresh("i", 32, True); ex.assume(z3.And(i.t >= 0, i.t < s0["nh"]))
            self.cur_a = i.t
            ex.set(it.sub(fld), i)
            ex.check(ex.as_bool(ex.load(ex.inline(op(rec, "operator!="), it, [end]))), "arena iterators: not at the end before the last array", "C14")
            ex.check(z3.Not(ex.as_bool(ex.load(ex.inline(op(rec, "operator=="), it, [end])))), "arena iterators: == is the negation of !=", "C14")
            r = ex.load(ex.inline(op(rec, "operator*"), it, []))
            def its(v): return [x for x in v.fields.values() if isinstance(x, StructV)]
            for x, want in zip(its(r), (0, s0["hsize"][i.t])):
                p = next(v for v in x.fields.values() if isinstance(v, I) and v.w == 64); q = next(v for v in x.fields.values() if isinstance(v, I) and v.w == 32)
                ex.check(z3.And(p.t == want, q.t == i.t), "arena iterators: * is the range of that array", "C14")
            for nm, want in (("begin", 0), ("end", s0["hsize"][i.t])):
                x = ex.load(ex.inline(next(m for m in ex.a.decls[rec]["methods"] if m in ex.a.funcs and ex.a.decls[m]["n"] == nm), it, []))
                p = next(v for v in x.fields.values() if isinstance(v, I) and v.w == 64); q = next(v for v in x.fields.values() if isinstance(v, I) and v.w == 32)
                ex.check(z3.And(p.t == want, q.t == i.t), f"arena iterators: {nm}() of that array", "C14")
            ex.inline(op(rec, "operator++"), it, [])
            ex.check(ex.get(it.sub(fld)).t == i.t + 1, "arena iterators: ++ moves to the next array", "C14")
        ex.explore(run, cover="arena iterators")


class Suite(BaseSuite):
    PROPS = ("C14",)
    TU = "drivers/arena.cpp"
    HARNESS = ("arena", "harness/arena.cpp", ["src/exception-handler.cpp"])
    TRUST = TRUST + ["assumed contract of sfl::segmented_vector (a sequence whose elements keep their place; vc/builtins.py)"]
    ASSUME = ["fewer than 2^31 elements, chunks and arrays per arena; initial capacity below 2^30", "array indices are ones new_array returned",
              "iterate's callback does not change the arena", "one thread (the locking code is off unless ARRAY_ARENA_THREAD_SAFE is defined)"]
    BOUNDED = "sequences of up to ~60 operations on up to 8 arrays (up to ~1000 elements) executed and compared with a list of lists"

    def tasks(self, prop):
        a = self.a
        return [("new_array", lambda st: Arena(a, st).run_new()), ("push_back", lambda st: Arena(a, st).run_append("push_back")), ("emplace_back", lambda st: Arena(a, st).run_append("emplace_back")),
                ("at", lambda st: Arena(a, st).run_at()), ("size, clear", lambda st: Arena(a, st).run_size()), *[(f"iterate ({k})", lambda st, k=k: Arena(a, st).run_iterate(k)) for k in ("bool", "index", "void")], ("iterators", lambda st: Arena(a, st).run_iterators())]

    def gen(self, prop, rng, hints):
        def reads(n): return [f"{k} {a}" for a in range(n) for k in ("s", "I", "v", "b", "B", "r")] + ["S", "o"]
        for c in (0, 1, 2, 3, 4, 7):
            for d in (0, 1, 2, 5):
                for m in range(1, 20, 3):
                    ops = [f"n {c}", f"n {d}"]
                    for i in range(m): ops += [f"{'pe'[i % 2]} 0 {i}", f"{'ep'[i % 2]} 1 {100 + i}"]
                    ops += [f"{k} {a} {i}" for a in (0, 1) for i in (0, m - 1, m, m // 2, m + 1, 1 << 40) for k in "aA"] + reads(2) + [f"i {a} {l}" for a in (0, 1) for l in (0, 1, 2, 3, m, m - 1)]
                    yield ";".join(ops)
        while True:
            n = 0; ops = []; sizes = []
            for _ in range(rng.randrange(2, 60)):
                k = rng.random()
                if n == 0 or (k < .15 and n < 8): ops.append(f"n {rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 8, 16, 31, 33, 64, 65, 100))}"); n += 1; sizes.append(0); continue
                a = rng.randrange(n)
                if k < .6: ops.append(f"{rng.choice('pe')} {a} {rng.randrange(-2**63, 2**63) if rng.random() < .3 else rng.randrange(100)}"); sizes[a] += 1
                elif k < .68:
                    m = rng.choice((1, 2, 3, 10, 63, 64, 65, 200)); ops.append(f"P {a} {m}"); sizes[a] += m
                elif k < .78: ops.append(f"{rng.choice('aA')} {a} {rng.choice((0, sizes[a], max(0, sizes[a] - 1), rng.randrange(sizes[a] + 2)))}")
                elif k < .82 and sizes[a]: ops.append(f"w {a} {rng.randrange(sizes[a])} {rng.randrange(1000, 2000)}")
                elif k < .9: ops.append(f"i {a} {rng.choice((0, 1, 2, sizes[a], rng.randrange(sizes[a] + 2)))}")
                elif k < .985: ops.append(rng.choice((f"s {a}", "S", f"I {a}", f"v {a}", f"b {a}", f"B {a}", f"r {a}", "o", "h")))
                else: ops.append("c"); n = 0; sizes = []
            yield ";".join(ops + reads(n))

    def judge(self, prop, line, out):
        if isinstance(out, tuple): return f"crash: {out[1]}"
        A = []; exp = []
        j = lambda xs: "".join(f"{x}," for x in xs)
        for op in line.split(";"):
            w = op.split(); k = w[0]; a = int(w[1]) if len(w) > 1 else 0; v = int(w[2]) if len(w) > 2 else 0
            if k == "n": exp.append(str(len(A))); A.append([])
            elif k in "pe": A[a].append(v); exp.append(str(v))
            elif k == "P": A[a] += [a * 100000 + i for i in range(v)]; exp.append("")
            elif k == "s": exp.append(str(len(A[a])))
            elif k == "S": exp.append(str(len(A)))
            elif k in "aA": exp.append(str(A[a][v]) if v < len(A[a]) else "range")
            elif k == "w": A[a][v] = int(w[3]); exp.append("")
            elif k == "i": exp.append(j(A[a][:v] if v else A[a]))
            elif k == "I": exp.append("".join(f"{x},@{i}," for i, x in enumerate(A[a])))
            elif k in "vbB": exp.append(j(A[a]))
            elif k == "r": exp.append(f"{len(A[a])}:" + j(A[a]) + j(A[a]))
            elif k == "o": exp.append("".join("[" + j(x) + "]" for x in A))
            elif k == "c": A = []; exp.append("")
            else: exp.append("")
        got = out.split(";")[:-1]
        if got == exp: return None
        for o, g, e in zip(line.split(";"), got, exp):
            if g != e: return f"'{o}' gives {g[:150]} instead of {e[:150]}"
        return "number of results"

    def shrink(self, prop, t, d):
        from . import harness as H
        def bad(x):
            try: return self.judge(prop, x, H.run_batch(self.exe, [x])[0])
            except Exception: return None
        ops = t.split(";")
        i = len(ops) - 1
        n = 0
        while i >= 0 and n < 150:
            if not ops[i].startswith("n"):
                c = ops[:i] + ops[i + 1:]
                n += 1
                b = bad(";".join(c))
                if b: ops, d = c, b
            i -= 1
        return ";".join(ops), d
