"""Loads the JSON that tools/astx.cpp exports (semantic clang AST of /repo's current source)."""
import json, os, subprocess, hashlib, sys, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CLANG = "clang++-18"
CXXFLAGS = ["-std=c++20", "-DSIMFIL_WITH_MODEL_JSON", "-include", f"{VERIF}/stubs/prelude.h",
            f"-I{REPO}/include", f"-I{VERIF}/stubs", f"-I{REPO}/src"]


class ExtractError(Exception):
    pass


def ensure_plugin():
    os.makedirs(BUILD, exist_ok=True)
    src = f"{VERIF}/tools/astx.cpp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    so = f"{BUILD}/astx-{h}.so"
    if not os.path.exists(so):
        flags = subprocess.check_output(["llvm-config-18", "--cppflags"], text=True).split()
        tmp = f"{so}.{os.getpid()}"
        subprocess.run([CLANG, "-fPIC", "-shared", "-O1", "-std=c++17", "-fno-rtti", *flags, src, "-o", tmp], check=True)
        os.rename(tmp, so)
    return so


def export(src, extra=()):
    """Run the exporter on one translation unit of the current tree; no caching across runs."""
    so = ensure_plugin()
    import tempfile
    fd, out = tempfile.mkstemp(suffix=".json", dir=BUILD)
    os.close(fd)
    a = "-plugin-arg-astx"
    cmd = [CLANG, "-fsyntax-only", "-w", f"-fplugin={so}", "-Xclang", "-plugin", "-Xclang", "astx"]
    for x in (f"out={out}", f"pre={REPO}/", f"pre={VERIF}/drivers/"):
        cmd += ["-Xclang", a, "-Xclang", x]
    cmd += CXXFLAGS + list(extra) + [src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        os.unlink(out)
        raise ExtractError(f"clang failed on {src}: {r.stderr[-2000:]}")
    try:
        with open(out) as f:
            d = json.load(f)
    finally:
        os.unlink(out)
    return AST(d, src)


class AST:
    def __init__(self, d, src=""):
        self.src = src
        self.decls = {}
        self.types = {}
        for t in d["tables"]:
            if "decl" in t:
                self.decls[t["decl"]["id"]] = t["decl"]
            else:
                self.types[t["type"]["id"]] = t["type"]
        self.funcs = {f["f"]: f for f in d["funcs"]}
        self.byname = {}
        for fid in self.funcs:
            self.byname.setdefault(self.fname(fid), []).append(fid)
        self.rec_by_name = {}
        for d_ in self.decls.values():
            if d_.get("dk", "").startswith(("CXXRecord", "ClassTemplateSpec")):
                self.rec_by_name.setdefault(d_["qn"], []).append(d_["id"])

    def fname(self, fid):
        return strip_targs(self.decls[fid].get("qn", ""))

    def find(self, qn, pred=None):
        r = [f for f in self.byname.get(qn, []) if pred is None or pred(self.decls[f])]
        return r

    def unqual(self, t):
        ty = self.types[t]
        if "uq" in ty:
            return ty["uq"]
        return t

    def T(self, t):
        """unqualified type dict"""
        ty = self.types[t]
        if "uq" in ty:
            ty = self.types[ty["uq"]]
        return ty

    def noref(self, t):
        ty = self.T(t)
        if ty.get("k") == "ref":
            return ty["to"]
        return t

    def is_const(self, t):
        return bool(self.types[t].get("const"))

    def recname(self, t):
        ty = self.T(self.noref(t))
        if ty.get("k") == "rec":
            return ty["n"]
        return None


def strip_targs(s):
    """drop template argument lists from a qualified name."""
    out = []
    depth = 0
    i = 0
    while i < len(s):
        if s.startswith("operator<", i) or s.startswith("operator>", i) or s.startswith("operator->", i):
            m = re.match(r"operator(<<=|>>=|<=>|->\*|->|<<|>>|<=|>=|<|>)", s[i:])
            if depth == 0:
                out.append(m.group(0))
            i += len(m.group(0))
            continue
        c = s[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)
