"""Builds small drivers against /repo's current sources and runs them on batches of inputs."""
import os, subprocess, hashlib, tempfile, time
from .ast import REPO, BUILD, CXXFLAGS, VERIF, CLANG
from concurrent.futures import ThreadPoolExecutor

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]


def build(name, main, srcs, opts=(), san=True, libs=("-lfmt", "-lpthread")):
    """compile main + the given sources of the current tree; object files live in a scratch directory"""
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix=f"h-{name}-", dir=BUILD)
    flags = ["-O1", "-g0", "-w", *CXXFLAGS, *(TSAN if san == "thread" else SAN if san else []), *opts]
    def one(i_s):
        i, s = i_s
        o = f"{d}/{i}.o"
        r = subprocess.run([CLANG, *flags, "-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode: raise BuildError(f"{s}: {r.stderr[-1500:]}")
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate([main] + list(srcs))))
    exe = f"{d}/{name}"
    r = subprocess.run([CLANG, *(TSAN if san == "thread" else SAN if san else []), *objs, "-o", exe, *libs], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-1500:])
    for o in objs: os.unlink(o)
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98", TSAN_OPTIONS="halt_on_error=1:exitcode=97")


def run_batch(exe, lines, timeout=40, per_crash=20):
    """one output line per input line; a crash or hang on an input yields ('CRASH', message) for that line"""
    out = []
    i = 0
    crashes = 0
    while i < len(lines):
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
        try:
            so, se = p.communicate(("\n".join(lines[i:]) + "\n").encode("latin-1"), timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            p.kill(); so, se = p.communicate(); hung = True
        got = so.decode("latin-1").split("\n")
        if got and not so.endswith(b"\n"): got = got[:-1]
        elif got and got[-1] == "": got = got[:-1]
        got = got[:len(lines) - i]
        out += got; i += len(got)
        if i < len(lines):
            msg = "did not terminate" if hung else se.decode("latin-1", "replace").strip().split("\n")
            if not hung:
                m = [x for x in msg if "runtime error" in x or "ERROR" in x or "terminate called" in x or "WARNING: ThreadSanitizer" in x]
                msg = (m or msg or ["?"])[0][:300] + f" (exit {p.returncode})"
            out.append(("CRASH", msg)); i += 1
            crashes += per_crash if hung else 1
            if crashes >= per_crash:
                out += [None] * (len(lines) - i); break
    return out
