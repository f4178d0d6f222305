"""L08: user text is never interpreted as a format."""
import os
from .. import graph, formats, build, witness
TECHNIQUE = "interprocedural backward dataflow of every format argument over the LLVM IR plus the compilers' format type checking"
NOTE = ("Every call of a printf-style function (C library, the library's own wrappers found by propagation, log calls and output handlers) is an obligation: its format is a constant or a format parameter of a function that "
        "takes the matching arguments. Conversion types are decided by clang's format checker on every source file.")
RULE = "a format argument originates from constant text or is the forwarded format parameter of a printf-like function; conversions match their arguments"
EXPLAIN = "origins of the format argument at every printf-style call site, and compiler format diagnostics per source file"
PARAMNAMES = ("format", "fmt")
def check(o, tier):
    G = graph.load(); F = formats.Formats(G); n = 0; consts = 0
    for fn, i, k, c in F.sites:
        n += 1
        for kind, x in sorted(F.origin(fn, i.a[k]), key=str):
            if kind == "const": o.ob(); consts += 1; continue
            if kind == "other":
                o.ob(ok=False); graph.report(o, "%s|format|%s" % (fn, c), "the format given to %s() is %s" % (c, x), G.where(fn, i)); continue
            f = G.M.funcs[fn]; pn = f.params[x][1]
            ok = F.formatlike(fn, x) if c != "strftime" else False
            o.ob(ok=ok)
            if not ok: graph.report(o, "%s|forwards|%s" % (fn, pn), "%s() uses its argument '%s' as the format of %s() but takes no arguments for it" % (fn, pn, c), G.where(fn, i))
    o.coverage["format_call_sites"] = n; o.coverage["constant_formats"] = consts
    o.coverage["format_forwarding_functions"] = sorted(x for x in F.sink if x in G.M.funcs)
    # public functions that use a parameter as format must say so with the parameter's role
    files = [os.path.join(build.REPO, s) for s in build.source_list()]
    fl = [x for x in build.flags(True) if x != "-w"]
    def one(p):
        r = build.run([build.CLANG] + fl + ["-fsyntax-only", "-Wno-everything", "-Wformat", "-Wformat-extra-args", "-Wformat-insufficient-args", "-Wformat-invalid-specifier", "-Wformat-security", "-Wformat-zero-length", p])
        return p, r
    for p, r in witness.parallel([(one, p) for p in files]):
        bad = [l for l in r.stderr.splitlines() if "warning:" in l or "error:" in l]
        o.ob(ok=not bad)
        for l in bad:
            a = l.split(":", 3)
            if len(a) > 3 and "[-Wformat" in l: graph.report(o, "%s|types|%s" % (os.path.basename(p), a[3].split("warning: ")[-1].split(" [")[0][:60]), a[3].strip(), (a[0], int(a[1]) if a[1].isdigit() else 0, ""))
            else: o.inconclusive.append(l[:160])
    o.coverage["files_type_checked"] = len(files)
