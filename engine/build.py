"""Compile a harness against /repo's current headers to normalised IR (never executed)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, "build"))
REPO = os.environ.get("VP_REPO", "/repo")
CLANG = "/usr/bin/clang++"


class BuildError(Exception):
    pass


class AnalysisBroken(Exception):
    """an anchor vanished or a rule matched nothing: neither a pass nor a violation"""


def ensure_tools():
    if all(os.path.exists(os.path.join(BUILD, t)) for t in ("irdump", "libpoly.so", "asttool")):
        return
    subprocess.check_call(["bash", os.path.join(ROOT, "setup.sh")])


FLAGS = ["-std=c++23", "-O1", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-fno-access-control", "-g",
         "-fstandalone-debug", "-Wno-everything"]


def compile_ir(src, defs=(), extra=(), keep=None, tmp=None):
    """returns path of the JSON dump; caller owns tmp"""
    ensure_tools()
    tag = "_".join([os.path.basename(src).split(".")[0]] + [d.replace("=", "-").replace("(", "").replace(")", "")
                                                            .replace("<", "").replace(">", "").replace(" ", "")
                                                            .replace("*", "").replace(",", "").replace(":", "") for d in defs])[:150]
    bc = os.path.join(tmp, tag + ".bc")
    js = os.path.join(tmp, tag + ".json")
    cmd = [CLANG] + FLAGS + ["-I", os.path.join(REPO, "include"), "-I", os.path.join(ROOT, "harness")] + \
        ["-D" + d for d in defs] + list(extra) + ["-c", "-emit-llvm", os.path.join(ROOT, "harness", src), "-o", bc]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stderr[-6000:])
    cmd = [os.path.join(BUILD, "irdump"), bc, js]
    if keep:
        cmd += ["-keep", keep]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("irdump: " + r.stderr[-3000:])
    os.unlink(bc)
    return js


def compile_keyed(src, defs=(), extra=(), keep=None, tmp=None):
    """compile for a key type without operator==; fall back to one that has it (consistent with
    the comparator) so that the remaining rules still see the code.  -> (json, had_to_fall_back)"""
    try:
        return compile_ir(src, defs, extra, keep, tmp), False
    except BuildError as e:
        try:
            return compile_ir(src, tuple(defs) + ("VP_KEY_HAS_EQ",), extra, keep, tmp), True
        except BuildError:
            raise e


def ast_dump(src, pattern, defs=(), norm=lambda l: l):
    """public members (canonical types) of the classes of a harness matching pattern"""
    ensure_tools()
    cmd = [os.path.join(BUILD, "asttool"), os.path.join(ROOT, "harness", src), pattern, "-std=c++23", "-w",
           "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "harness")] + ["-D" + d for d in defs]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stderr[-6000:])
    return [json.loads(norm(l)) for l in r.stdout.splitlines() if l.startswith("{")]


def make_pch(pre, flags, tmp):
    """precompiled common part of many witness programs"""
    h = os.path.join(tmp, "w%d.hpp" % abs(hash((pre, tuple(flags)))))
    with open(h, "w") as f:
        f.write(pre)
    cmd = [CLANG, "-std=c++23", "-w", "-I", os.path.join(REPO, "include"), "-x", "c++-header", h, "-o", h + ".pch"] + list(flags)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stderr[-3000:])
    return h + ".pch"


def try_compile(code, flags=(), pch=None):
    """type-check a program; -> list of diagnostics 'file:line: message' (empty: accepted)"""
    cmd = [CLANG, "-std=c++23", "-fsyntax-only", "-w", "-ferror-limit=5", "-I", os.path.join(REPO, "include"),
           "-I", os.path.join(ROOT, "harness")] + (["-include-pch", pch] if pch else []) + ["-x", "c++", "-"] + list(flags)
    r = subprocess.run(cmd, input=code, capture_output=True, text=True)
    errs = [l for l in r.stderr.splitlines() if " error: " in l]
    if r.returncode and not errs:
        raise AnalysisBroken("compiler failed: " + r.stderr[-1000:])
    return errs


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp_", dir=os.environ.get("VP_TMP", "/tmp"))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
