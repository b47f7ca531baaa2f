"""Extraction: compiles a contract file together with the headers and sources
of /repo's current working tree to LLVM IR (for the verifier) and to a native
program (for replay). Nothing is rewritten: the text that is verified is what
clang 18 makes of /repo's files."""
import hashlib
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"


class BuildError(Exception):
    pass


def config_hpp(dst):
    """config.hpp as CMake would generate it"""
    t = open(os.path.join(REPO, "config.hpp.in")).read()
    c = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"project\(obake VERSION ([\d.]+)", c)
    v = (m.group(1) if m else "0.0.0").split(".") + ["0", "0"]
    t = t.replace("@obake_VERSION@", ".".join(v[:3]))
    for k, n in zip(("MAJOR", "MINOR", "PATCH"), v):
        t = t.replace("@obake_VERSION_%s@" % k, n)
    t = re.sub(r"@[A-Z_]+@", "", t)
    d = os.path.join(dst, "obake")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "config.hpp"), "w") as f:
        f.write(t)


def flags(work):
    return ["-std=c++20", "-I", os.path.join(VERIF, "vf"), "-isystem", os.path.join(VERIF, "shim"), "-I", work, "-I",
            os.path.join(REPO, "include"), "-I", REPO, "-DVF_REPO=" + REPO, "-w", "-D_GLIBCXX_NO_VERBOSE_TERMINATE"]


def run(cmd, what):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stderr[:6000]))
    return p.stdout


def to_ir(src, work, extra=(), passes="sroa,early-cse,simplifycfg", out=None):
    base = os.path.join(out or work, os.path.basename(src).replace(".cpp", ""))
    ll, ll2 = base + ".ll", base + ".opt.ll"
    run([CLANG] + flags(work) + ["-DVF_VERIFY", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only",
                                 "-fno-vectorize", "-S", "-emit-llvm", src, "-o", ll] + list(extra), "compilation")
    run([OPT, "-passes=" + passes, "-S", ll, "-o", ll2], "opt")
    os.unlink(ll)
    return ll2


def native(src, work, extra=(), links=(), out=None):
    out = os.path.join(out or work, os.path.basename(src).replace(".cpp", ".native"))
    run([CLANG] + flags(work) + ["-DVF_NATIVE", "-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize=vptr,function",
                                 "-fsanitize-trap=undefined", "-D_GLIBCXX_ASSERTIONS", src, os.path.join(VERIF, "vf", "native.cpp"), os.path.join(VERIF, "vf", "native_stub.cpp"), "-o",
                                 out] + list(extra) + ["-lfmt", "-lpthread", "-ldl"] + list(links), "native compilation")
    return out
