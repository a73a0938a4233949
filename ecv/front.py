"""Front end: compiles /repo's current sources to one LLVM module."""
import glob
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get("ECV_REPO", "/repo")
CLANG = "/usr/bin/clang-18"
OPT = "/usr/bin/opt-18"
LINK = "/usr/bin/llvm-link-18"
HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ["-std=gnu11", "-O0", "-g", "-w", "-D_GNU_SOURCE", "-DNDEBUG", "-DGIT_COMMIT=\"x\"", "-fno-discard-value-names",
         "-Xclang", "-disable-O0-optnone", "-include", os.path.join(HERE, "ecv_pari.h")]


class BuildError(Exception):
    pass


def sources(repo=None):
    repo = repo or REPO
    s = sorted(glob.glob(repo + "/src/*.c") + glob.glob(repo + "/src/*/*.c"))
    return s + [repo + "/lib/sha1/sha1.c"]


def compile_ir(scratch, srcs=None, repo=None, extra=()):
    repo = repo or REPO
    srcs = srcs or sources(repo)
    outs = []

    def one(src):
        o = os.path.join(scratch, os.path.relpath(src, repo).replace("/", "_") + ".bc")
        r = subprocess.run([CLANG] + FLAGS + list(extra) + ["-I" + repo + "/src", "-I" + repo + "/lib", "-emit-llvm", "-c", src, "-o", o],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("%s: %s" % (src, r.stderr[-2000:]))
        return o

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, srcs))
    linked = os.path.join(scratch, "all.bc")
    r = subprocess.run([LINK, "-o", linked] + outs, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("link: " + r.stderr[-2000:])
    ll = os.path.join(scratch, "all.ll")
    r = subprocess.run([OPT, "-S", "-passes=mem2reg", linked, "-o", ll], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt: " + r.stderr[-2000:])
    return ll


def module(repo=None, srcs=None, extra=()):
    d = tempfile.mkdtemp(prefix="ecv_ir_")
    try:
        ll = compile_ir(d, srcs, repo, extra)
        return ir.parse_module(open(ll).read())
    finally:
        shutil.rmtree(d, ignore_errors=True)
