"""Compile the current /repo sources to one LLVM IR module (nothing is executed).

The source list is read from /repo/CMakeLists.txt, the generated logging macro header is produced from the
current template, everything goes to a scratch directory outside /repo that is removed at exit."""
import atexit, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang-18"

class BuildError(Exception):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="rcutils-sa-")
        pid = os.getpid()
        def _rm(d=_scratch, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(_rm)
    return _scratch

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r

def source_list():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    txt = re.sub(r"#[^\n]*", "", txt)
    m = re.search(r"set\s*\(\s*rcutils_sources(.*?)\)", txt, re.S)
    if not m:
        raise BuildError("source list not found in CMakeLists.txt")
    out = []
    for tok in m.group(1).split():
        if tok == "${time_impl_c}":
            tok = "src/time_unix.c"
        if tok.endswith(".c"):
            out.append(tok)
    if len(out) < 20:
        raise BuildError("implausible source list: %r" % out)
    for f in out:
        if not os.path.exists(os.path.join(REPO, f)):
            raise BuildError("missing source " + f)
    return out

def gen_header():
    inc = os.path.join(scratch(), "gen", "include")
    hdr = os.path.join(inc, "rcutils", "logging_macros.h")
    if os.path.exists(hdr):
        return inc
    os.makedirs(os.path.dirname(hdr), exist_ok=True)
    code = ("import em; em.invoke(['-o', %r, '-D', 'rcutils_module_path=\"%s\"', %r])"
            % (hdr, REPO, os.path.join(REPO, "resource", "logging_macros.h.em")))
    r = run(["python3", "-B", "-c", code], cwd=scratch())
    if r.returncode != 0 or not os.path.exists(hdr):
        raise BuildError("logging_macros.h generation failed: " + r.stderr[-2000:])
    return inc

BASE = ["-std=gnu11", "-D_GNU_SOURCE", "-fPIC", "-DRCUTILS_BUILDING_DLL"]

def flags(fault=True, extra=()):
    f = list(BASE)
    if fault:
        f.append("-DRCUTILS_ENABLE_FAULT_INJECTION")
    f += ["-I" + os.path.join(REPO, "include"), "-I" + gen_header()]
    f += list(extra)
    return f

def compile_ir(src, out, fl):
    cmd = [CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-w"] + fl + \
          ["-emit-llvm", "-c", src, "-o", out]
    r = run(cmd)
    if r.returncode != 0:
        raise BuildError("cannot compile %s:\n%s" % (src, r.stderr[-3000:]))

def module(fault=True, extra_sources=(), extra=(), tag="all", sources=None, passes="mem2reg"):
    """Returns path of linked .bc and of its textual form."""
    d = os.path.join(scratch(), tag)
    os.makedirs(d, exist_ok=True)
    fl = flags(fault, extra)
    srcs = [os.path.join(REPO, s) for s in (source_list() if sources is None else sources)] + list(extra_sources)
    outs = []
    with ThreadPoolExecutor(8) as ex:
        futs = []
        for i, s in enumerate(srcs):
            o = os.path.join(d, "%02d_%s.bc" % (i, os.path.basename(s)[:-2]))
            outs.append(o)
            futs.append(ex.submit(compile_ir, s, o, fl))
        for f in futs:
            f.result()
    linked = os.path.join(d, "linked.bc")
    r = run(["llvm-link-18"] + outs + ["-o", linked])
    if r.returncode != 0:
        raise BuildError("llvm-link: " + r.stderr[-2000:])
    final = os.path.join(d, "final.bc")
    r = run(["opt-18", "-passes=" + passes, linked, "-o", final])
    if r.returncode != 0:
        raise BuildError("opt: " + r.stderr[-2000:])
    ll = os.path.join(d, "final.ll")
    r = run(["llvm-dis-18", final, "-o", ll])
    if r.returncode != 0:
        raise BuildError("llvm-dis: " + r.stderr[-2000:])
    return final, ll, srcs
