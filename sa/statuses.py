"""A02, status values: pairwise distinct, success is zero (macros evaluated by the compiler, nothing is executed)."""
import os, re, tempfile
from . import build, graph
H = "#include \"rcutils/types/rcutils_ret.h\"\n"
def check(o):
    d = build.scratch(); p = os.path.join(d, "ret.c"); open(p, "w").write(H)
    r = build.run([build.CLANG, "-dM", "-E", p] + build.flags(False))
    if r.returncode: raise build.BuildError(r.stderr[-500:])
    names = sorted(set(re.findall(r"#define (RCUTILS_RET_\w+)\s+\S", r.stdout)))
    vals = {}
    with open(p, "w") as f:
        f.write(H)
        for n in names: f.write("__attribute__((used)) static const long long V_%s = (%s);\n" % (n, n))
    out = p + ".ll"
    r = build.run([build.CLANG, "-S", "-emit-llvm", "-O0", p, "-o", out] + build.flags(False))
    if r.returncode: raise build.BuildError(r.stderr[-500:])
    for m in re.finditer(r"@V_(RCUTILS_RET_\w+) = internal (?:constant|global) i64 (-?\d+)|@V_(RCUTILS_RET_\w+) = internal (?:constant|global) i64 zeroinitializer", open(out).read()):
        vals[m.group(1) or m.group(3)] = int(m.group(2) or 0)
    where = (os.path.join(build.REPO, "include/rcutils/types/rcutils_ret.h"), 0, None)
    o.coverage["status_values"] = vals
    by = {}
    for n, v in sorted(vals.items()):
        o.ob(ok=v not in by)
        if v in by: graph.report(o, "status-values|%s|%s" % (by[v], n), "%s and %s have the same value %d" % (by[v], n, v), where)
        by.setdefault(v, n)
    ok = vals.get("RCUTILS_RET_OK") == 0
    o.ob(ok=ok)
    if not ok: graph.report(o, "status-values|ok", "RCUTILS_RET_OK is not 0", where)
