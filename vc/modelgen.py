"""C15-C17, C22, C24: inputs for harness/model.cpp and the expected outputs (the specification executed)."""
import json, struct, math

I64 = (-2**63, 2**63 - 1)
SMALL = {"u": ("Int", lambda v: v & 0xffff), "h": ("Int", lambda v: (v + 2**15) % 2**16 - 2**15), "b": None}
hexs = lambda s: s.encode("latin-1").hex() or "-"
NAMES = ["", "a", "b", "name", "x y", "zz", "id", "other0", "\xe9", "val", "n1", "n2", "n3"]
EDGE = [0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, -32768, -32769, 65534, 65535, 65536, 65537, 2**24 - 1, 2**24, 2**31 - 1, 2**31, -2**31, 2**32, 2**32 - 1, 2**53, 2**53 + 1, 2**63 - 1, -2**63, -2**63 + 1, -65535, -65536, 98303, 98304]
DBL = [0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, math.inf, -math.inf, math.nan, 2.0**53, 65535.0, -32768.0, 1 / 3]


def dhex(x): return struct.pack(">d", x).hex()
def rnd_int(r):
    k = r.random()
    return r.choice(EDGE) if k < .4 else r.randrange(-70000, 70000) if k < .75 else r.randrange(*I64)
def rnd_dbl(r): return dhex(r.choice(DBL)) if r.random() < .6 else f"{r.getrandbits(64):016x}"
def rnd_str(r):
    if r.random() < .003: return "".join(chr(97 + i % 23) for i in range(r.choice((255, 256, 65535, 65536, 70000))))
    return r.choice(("", "a", "\0", "abc", "\xff\x00x", "aa", "x" * r.randrange(1, 40), "".join(chr(r.randrange(256)) for _ in range(r.randrange(6)))))


class M:
    """a model: handles, containers, roots; what every view must show"""
    def __init__(self):
        self.h = []; self.cont = []; self.roots = []; self.spell = {}; self.names = []; self.addr = []; self.bad = False; self.unknown = set(); self.static = {"": "-"}
        self.cidx = {}
    def name(self, hx):
        k = bytes.fromhex("" if hx == "-" else hx).lower()
        if k == b"": hx = "-"
        self.spell.setdefault(k, hx)
        if k not in self.names: self.names.append(k)
        return k
    def brief(self, n):
        if n is None: return "none"
        if n[0] == "v": return n[1]
        return n[0] + str(self.cidx.get((n[0], n[1]), "?"))
    def node(self, n): return n[1] if n[0] == "v" else "Object:null" if n[0] == "O" else "Array:null"
    def mem(self, n): return self.cont[n[1]] if n[0] in "OA" else []
    def views(self, n):
        ms = self.mem(n); k = len(ms); o = n[0] == "O"
        at = lambda i: self.brief(ms[i][1]) if 0 <= i < k else "none"
        key = lambda i: (self.spell[ms[i][0]] if o and 0 <= i < k else "-")
        r = f"{self.node(n)} n{k} at" + "".join(" " + at(i) for i in range(-2, k + 2)) + " none/-" * 4
        r += " key" + "".join(" " + key(i) for i in range(-2, k + 2))
        r += " get" + "".join(" " + (self.brief(next((m[1] for m in ms if m[0] == x), None)) if o else "none") for x in self.names)
        r += " it" + "".join(" " + self.brief(m[1]) for m in ms) + " true"
        for s in (1, 2, 3): r += f" {min(s, k)}" + ("f" if k >= s else "t")
        r += " names" + "".join(" " + key(i) for i in range(k))
        r += " fields" + "".join(" " + key(i) + "=" + at(i) for i in range(k))
        r += " range" + "".join(" " + at(i) for i in range(k))
        return r
    def deep(self, n):
        if n is None: return "none"
        if n[0] == "v": return n[1]
        if n[0] == "O": return "{" + "".join(f"{self.spell[k]}={self.deep(v)}," for k, v in self.mem(n)) + "}"
        return "[" + "".join(self.deep(v) + "," for _, v in self.mem(n)) + "]"
    def js(self, n):
        if n[0] == "O": return {bytes.fromhex(self.spell[k].replace("-", "")).decode("latin-1"): self.js(v) for k, v in self.mem(n)}
        if n[0] == "A": return [self.js(v) for _, v in self.mem(n)]
        t, v = n[1].split(":")
        return None if v == "null" else v == "b1" if t == "Bool" else int(v[1:]) if t == "Int" else struct.unpack(">d", bytes.fromhex(v[1:]))[0] if t == "Float" else bytes.fromhex(v[1:].replace("-", "")).decode("latin-1")


def val(k, x):
    if k == "i": return ("v", f"Int:i{int(x)}")
    if k == "h": return ("v", f"Int:i{(int(x) + 2**15) % 2**16 - 2**15}")
    if k == "u": return ("v", f"Int:i{int(x) & 0xffff}")
    if k == "d": return ("v", f"Float:d{x}")
    if k == "b": return ("v", f"Bool:b{x}")
    if k == "s": return ("v", f"String:s{x}")


def same_json(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, dict): return a.keys() == b.keys() and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, list): return len(a) == len(b) and all(same_json(x, y) for x, y in zip(a, b))
    if isinstance(a, float): return struct.pack("d", a) == struct.pack("d", b) or (a != a and b != b)
    return a == b


def pint(s): return int(s) if I64[0] <= int(s) <= I64[1] else float(s)


def json_deep(j):
    if j is None: return "Null:null"
    if isinstance(j, bool): return f"Bool:b{int(j)}"
    if isinstance(j, int): return f"Int:i{j}"
    if isinstance(j, float): return f"Float:d{dhex(j)}"
    u = lambda s: s.encode("utf-8").hex() or "-"
    if isinstance(j, str): return "String:s" + u(j)
    if isinstance(j, list): return "[" + "".join(json_deep(x) + "," for x in j) + "]"
    return "{" + "".join(f"{u(k)}={json_deep(j[k])}," for k in sorted(j, key=lambda s: s.encode("utf-8"))) + "}"


def judge(prop, line, out):
    if isinstance(out, tuple): return f"crash: {out[1]}"
    outs = out.split(";")[:-1]
    ops = line.split(";")
    if len(outs) != len(ops): return "number of results"
    m = M(); seen = {}
    dang = False; cyc = False
    for op, g in zip(ops, outs):
        w = op.split(); k = w[0]; e = None
        hs = lambda i: m.h[int(w[i])] if int(w[i]) < len(m.h) else "error"
        if k in ("i", "d", "s", "b", "h", "u", "o", "y"):
            if k in "oy":
                n = ("O" if k == "o" else "A", len(m.cont)); m.cont.append([])
                m.cidx[n] = g.split(".")[-1]
            else: n = val(k, w[1])
            if "." not in g: return f"'{op}' gives {g}"
            if g in seen and (seen[g] != n or n[0] != "v"): return f"'{op}': address {g} is already that of {seen[g]}"
            seen[g] = n
            m.h.append(n); m.addr.append(g)
        elif k[0] == "f":
            o = hs(1)
            if o == "error" or o[0] != "O": e = "error"
            else:
                v = hs(3) if k == "f" else val(k[1], w[3])
                nm = m.name(w[2])
                if v == "error": e = "error"
                else: m.mem(o).append((nm, v)); e = ""
                if k in ("fi", "fd", "fs"): m.unknown.add(k[1])
        elif k[0] == "p":
            o = hs(1)
            if o == "error" or o[0] != "A": e = "error"
            else:
                v = hs(2) if k == "p" else val(k[1], w[2])
                if v == "error": e = "error"
                else: m.mem(o).append((None, v)); e = ""
                if k in ("pi", "pd", "ps"): m.unknown.add(k[1])
        elif k in "xX":
            a, b = hs(1), hs(2); t = "O" if k == "x" else "A"
            if a == "error" or b == "error" or a[0] != t or b[0] != t: e = "error"
            else: m.mem(a).extend(list(m.mem(b))); e = ""
        elif k == "R":
            n = hs(1)
            if n != "error": m.roots.append(n); e = ""
        elif k == "v": e = m.node(hs(1)) if hs(1) != "error" else "error"
        elif k == "V": e = m.views(hs(1)) if not dang else None
        elif k == "O":
            n = hs(1)
            e = None if dang or n == "error" else "error" if n[0] == "v" else m.views(n)
        elif k == "g":
            n = hs(1); key = bytes.fromhex(w[2].replace("-", "")).lower()
            e = None if dang or n == "error" else "error" if n[0] != "O" else m.brief(next((x[1] for x in m.mem(n) if x[0] == key), None))
        elif k == "D": e = f"{len(m.roots)}:" + "".join(m.deep(r) + "|" for r in m.roots) if not dang else None
        elif k == "Q":
            i = int(w[1]); e = None if dang else m.brief(m.roots[i]) if 0 <= i < len(m.roots) else "error"
        elif k in "WZ": e = ""
        elif k == "E": e = None if dang is None else "11" if dang else "00"
        elif k in ("e", "F", "q"):
            col, idx = (int(w[1]), int(w[2])) if k == "q" else (int(w[2]), int(w[3]))
            if k != "q":
                o = hs(1)
                if o == "error" or o[0] != ("A" if k == "e" else "O"): return None
            ad = f"{col}.{idx}"
            n = seen.get(ad)
            if n is None and col < 4: pass
            elif n is None:
                # dangling for sure if behind everything known in that column
                if (col == 7 and "i" in m.unknown) or (col == 8 and "d" in m.unknown) or (col == 9 and "s" in m.unknown):
                    if idx < 10**6: return None
                dang = True
            if k == "F" and int(w[4]) == 60000: dang = True
            # contents are no longer tracked
            if k == "e" : m.mem(o).append((None, n or ("v", "?")))
            elif k == "F": m.mem(o).append((m.name("-"), n or ("v", "?")))
            else: m.roots.append(n or ("v", "?"))
            e = ""
        elif k == "J":
            src = bytes.fromhex(w[1]).decode("utf-8")
            try: j = json.loads(src, parse_int=pint)
            except ValueError: continue
            if g == "error": return f"'{op}': {src[:200]} is not loaded"
            if g.startswith(("roots", "overload")): return f"{src[:200]}: {g[:300]}"
            a, b, d = g.split(",", 2)
            try: ja, jb = json.loads(bytes.fromhex(a), parse_int=pint), json.loads(bytes.fromhex(b), parse_int=pint)
            except ValueError: return f"{src[:200]} gives no JSON"
            if not same_json(ja, j): return f"{src[:200]} gives {bytes.fromhex(a)[:200]}"
            if not same_json(jb, [j]): return f"{src[:200]}: the model gives {bytes.fromhex(b)[:200]}"
            e = a + "," + b + "," + json_deep(j)
        elif k == "j":
            n = hs(1)
            try: want = m.js(n)
            except Exception: continue
            if g == "error": return f"'{op}' gives an error"
            got = json.loads(bytes.fromhex(g), parse_int=pint)
            if not same_json(got, want): return f"'{op}' gives {json.dumps(got)[:200]} instead of {json.dumps(want)[:200]}"
        elif k == "A":
            col, idx, nc = map(int, w[1:4])
            i16 = (idx % 65536 + 2**15) % 2**16 - 2**15
            e = f"{col}.{idx}.{idx & 0xffff}.{i16}.{int(col != 0 or idx != 0)}.{nc}.{idx}"
        elif k == "c": m.__init__(); seen = {}; e = "0"; dang = False
        if e is not None and g != e: return f"'{op}' gives {g[:300]} instead of {e[:300]}"
    return None


def build(r, n, views="V", dups=True, full=True):
    """a random acyclic model; parents first or children first"""
    ops = []; kinds = []; tot = 0
    up = r.random() < .5
    names = r.sample(NAMES, r.randrange(1, len(NAMES)))
    used = {}
    size = {}
    for _ in range(n):
        k = r.random()
        conts = [i for i, x in enumerate(kinds) if x in "OA"]
        if not kinds or k < .25: ops.append(r.choice((f"o {r.choice((0, 1, 2, 3, 9))}", f"y {r.choice((0, 1, 2, 3, 9))}"))); kinds.append("O" if ops[-1][0] == "o" else "A"); size[len(kinds) - 1] = 0
        elif k < .5:
            kk = r.choice("iiidsbhu")
            ops.append({"i": lambda: f"i {rnd_int(r)}", "d": lambda: f"d {rnd_dbl(r)}", "s": lambda: f"s {hexs(rnd_str(r))}", "b": lambda: f"b {r.randrange(2)}", "h": lambda: f"h {r.randrange(-2**15, 2**15)}", "u": lambda: f"u {r.randrange(2**16)}"}[kk]()); kinds.append("v")
        elif conts and k < .93:
            c = r.choice(conts)
            if size[c] > 200: continue
            t = r.random(); o = kinds[c] == "O"
            if t < .45:
                tg = [i for i in range(len(kinds)) if kinds[i] == "v" or (i > c if up else i < c)]
                if not tg: continue
                x = r.choice(tg); sfx = ""; arg = str(x)
            elif t < .55:
                oc = [i for i in conts if kinds[i] == kinds[c] and i != c and (i > c if up else i < c)]
                if not oc: continue
                x = r.choice(oc); ops.append(f"{'x' if o else 'X'} {c} {x}"); size[c] += size[x]; continue
            else:
                sfx = r.choice("bihuds")
                arg = {"i": lambda: rnd_int(r), "d": lambda: rnd_dbl(r), "s": lambda: hexs(rnd_str(r)), "b": lambda: r.randrange(2), "h": lambda: r.randrange(-2**15, 2**15), "u": lambda: r.randrange(2**16)}[sfx]()
            size[c] += 1
            if o:
                nm = r.choice(names)
                if nm in used and r.random() < .2: nm = nm.upper() if nm.isascii() else nm
                if nm not in used: used[nm.lower() if nm.isascii() else nm] = 1
                ops.append(f"f{sfx} {c} {hexs(nm)} {arg}")
            else: ops.append(f"p{sfx} {c} {arg}")
        else:
            x = r.randrange(len(kinds)); ops.append(f"R {x}")
    return ops, kinds


def rnd_json(r, d=0, used=None):
    k = r.random()
    if d > 4 or k < .5:
        return r.choice((lambda: None, lambda: r.random() < .5, lambda: rnd_int(r), lambda: r.choice((0.0, -0.0, 1.0, 1e300, -1.5, 1e-5, 123456.789, 5e-324)), lambda: r.choice(("", "a", "\u00e9\u20ac", "x\ny\"\\", "\0", "\U0001f600", "null", "1")),
                         lambda: r.choice((2**63, 2**64 - 1, 2**63 - 1, -2**63, 65535, 65536, -32768, -32769))))()
    if k < .75: return [rnd_json(r, d + 1) for _ in range(r.choice((0, 1, 2, 3, 8)))]
    ks = r.sample(["", "a", "b", "name", "x y", "zz", "\u00e9", "_", "0", "id", "A b", "typ", "null"], r.choice((0, 1, 2, 3, 8)))
    return {k: rnd_json(r, d + 1) for k in ks}


def dumps(j):
    return json.dumps(j, ensure_ascii=False)


def gen(prop, r, hints):
    if prop == "C15":
        for v in EDGE: yield f"i {v};i 1000000;v 0;s 6162;v 0;v 1;d 3ff0000000000000;b 1;v 0;v 1;v 2;v 3;v 4"
        for c in (0, 1, 2, 5, 7, 9, 127, 128, 255):
            for i in (0, 1, 255, 256, 32767, 32768, 65535, 65536, 2**23, 2**24 - 1): yield f"A {c} {i} {r.randrange(256)}"
        for v in list(range(-32770, -32700, 9)) + list(range(65500, 65550, 3)): yield f"i {v};i {v + 1};i {v + 2};v 0;v 1;v 2"
        while True:
            ops = []; n = 0
            for _ in range(r.randrange(2, 40)):
                k = r.choice("iidssbhuvvA")
                if k == "v":
                    if n: ops.append(f"v {r.randrange(n)}")
                elif k == "A": ops.append(f"A {r.randrange(256)} {r.randrange(2**24)} {r.randrange(256)}")
                else:
                    ops.append({"i": lambda: f"i {rnd_int(r)}", "d": lambda: f"d {rnd_dbl(r)}", "s": lambda: f"s {hexs(rnd_str(r))}", "b": lambda: f"b {r.randrange(2)}", "h": lambda: f"h {r.randrange(-2**15, 2**15)}", "u": lambda: f"u {r.randrange(2**16)}"}[k]()); n += 1
            if ops: yield ";".join(ops + [f"v {i}" for i in range(n)])
    elif prop == "C16":
        while True:
            ops, kinds = build(r, r.choice((5, 15, 40, 80)))
            c = [i for i, x in enumerate(kinds)]
            ops += [f"{k} {i}" for i in c for k in "VO"] + [f"g {i} {hexs(r.choice(NAMES))}" for i in c if kinds[i] == "O"]
            yield ";".join(ops)
    elif prop == "C17":
        while True:
            ops, kinds = build(r, r.choice((2, 8, 30, 80)))
            ops += [f"R {i}" for i in range(len(kinds)) if r.random() < .3]
            tail = ["D"] + [f"V {i}" for i in range(len(kinds))]
            more = []
            if r.random() < .4:
                m2, _ = build(r, 6)
                more = [f"o 2;fi {len(kinds)} {hexs('late')} 77777;fs {len(kinds)} {hexs('a')} 6c617465;V {len(kinds)}"]
            seq = ["W"] + tail
            if r.random() < .3: seq = ["W"] + seq
            if r.random() < .3: seq = [f"Z {r.randrange(3)} {r.choice(('r', ''))}".strip()] + tail + seq
            yield ";".join(ops + tail + seq + more + (["W"] + tail if more else []))
    elif prop == "C22":
        while True:
            ops, kinds = build(r, r.choice((2, 6, 12, 30)))
            if r.random() < .7: ops = [o for o in ops if o.split()[0] not in ("fi", "fd", "fs", "pi", "pd", "ps")]
            cnt = {7: 0, 8: 0, 9: 0, 5: 0, 6: 0}
            for o in ops:
                w = o.split()
                if w[0] == "i" and not -32768 <= int(w[1]) <= 65535: cnt[7] += 1
                if w[0] in "ds": cnt[8 if w[0] == "d" else 9] += 1
                if w[0] in "oy": cnt[5 if w[0] == "o" else 6] += 1
            ops.append("E")
            if r.random() < .85:
                conts = [i for i, x in enumerate(kinds) if x != "v"]
                col = r.choice((5, 6, 7, 8, 9, 5, 6, 7, 8, 9, 10, 11, 100, 128, 255, 1, 2, 3, 0))
                idx = (cnt[col] + r.choice((0, 0, 0, 1, 100, 2**24 - 1 - cnt[col]))) if col in cnt else r.randrange(2**16)
                if r.random() < .15 and col in (7, 8, 9) and cnt[col]: idx = r.randrange(cnt[col])
                k = r.random()
                if k < .3 or not conts: ops.append(f"q {col} {idx}")
                else:
                    c = r.choice(conts)
                    if kinds[c] == "A": ops.append(f"e {c} {col} {idx}")
                    elif k < .5: ops.append(f"F {c} 1 5 60000")
                    else: ops.append(f"F {c} {col} {idx} 0")
                if col == 0 and ops[-1][0] == "q": ops.pop()
            yield ";".join(ops + ["E"])
    elif prop == "C24":
        for s in ('null', 'true', 'false', '0', '-0.0', '1.0', '""', '[]', '{}', '[[]]', '{"a":{}}', '[null]', '{"a":null,"b":1}', '18446744073709551615', '9223372036854775808', '9223372036854775807', '-9223372036854775808', '-9223372036854775809', '1e5', '"\\u0000"'): yield "J " + s.encode().hex()
        while True:
            if r.random() < .8:
                yield "J " + dumps(rnd_json(r, r.choice((0, 0, 3)))).encode("utf-8").hex()
            else:
                j = {c: rnd_json(r, 3) for c in "ab"}
                yield "J " + dumps([rnd_json(r) for _ in range(3)] + [j]).encode("utf-8").hex()


def shrinkable(line): return ";" in line
