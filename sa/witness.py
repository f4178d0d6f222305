"""Compile-time witnesses: small translation units whose diagnostics (or generated IR) decide a property of the headers."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from . import build
COMP = {("clang", "c"): [build.CLANG, "-std=c11"], ("clang", "c++"): ["clang++-18", "-std=c++17"], ("gcc", "c"): ["gcc", "-std=c11"], ("gcc", "c++"): ["g++", "-std=c++17"]}
_n = [0]
def inc(): return ["-I" + os.path.join(build.REPO, "include"), "-I" + build.gen_header()]
def put(text, ext):
    _n[0] += 1
    p = os.path.join(build.scratch(), "w%d.%s" % (_n[0], ext))
    with open(p, "w") as f: f.write(text)
    return p
def compile_(cc, lang, text, flags=(), out="/dev/null", emit="-S"):
    """(ok, [(file, line, severity, message, flag)])"""
    p = put(text, "c" if lang == "c" else "cpp")
    r = build.run(COMP[(cc, lang)] + inc() + ["-D_GNU_SOURCE"] + list(flags) + [emit, "-o", out, p])
    ds = []
    for l in r.stderr.splitlines():
        m = re.match(r"(.*?):(\d+)(?::\d+)?: (warning|error|fatal error): (.*?)(?: \[(-W[^\]]*)\])?$", l)
        if m: ds.append((m.group(1), int(m.group(2)), m.group(3), m.group(4), m.group(5) or ""))
    return r.returncode == 0, ds, p, r.stderr
def headers():
    base = os.path.join(build.REPO, "include"); out = []
    for d, _, fs in os.walk(os.path.join(base, "rcutils")):
        for f in fs:
            if f.endswith(".h"): out.append(os.path.relpath(os.path.join(d, f), base))
    out.append("rcutils/logging_macros.h")
    # implementation details of the atomics helper are not included directly
    return sorted(h for h in out if "/stdatomic_helper/" not in h)
def declarations():
    """functions the public headers declare: {name: (type, parameter types, attributes, file, line, static?)} from the type-checked program"""
    txt = "".join('#include "%s"\n' % h for h in headers())
    p = put(txt, "c")
    r = build.run([build.CLANG, "-std=gnu11", "-D_GNU_SOURCE", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json"] + inc() + [p])
    if r.returncode: raise build.BuildError("headers do not compile together:\n" + r.stderr[-1500:])
    t = json.loads(r.stdout); out = {}; cur = [None, 0]
    def track(loc):
        if not loc: return
        for l in (loc.get("spellingLoc"), loc.get("expansionLoc"), loc):
            if l and "file" in l: cur[0] = l["file"]
            if l and "line" in l: cur[1] = l["line"]
    def visit(d):
        track(d.get("loc")); track((d.get("range") or {}).get("begin")); 
        here = (cur[0], cur[1])
        track((d.get("range") or {}).get("end"))
        return here
    for d in t["inner"]:
        f, l = visit(d)
        if d["kind"] != "FunctionDecl" or "/rcutils/" not in (f or "") : continue
        n = d["name"]
        if not re.match(r"_?rcutils", n): continue
        ps = [x["type"]["qualType"] for x in d.get("inner", ()) if x["kind"] == "ParmVarDecl"]
        at = [x["kind"] for x in d.get("inner", ()) if x["kind"].endswith("Attr")]
        out[n] = {"type": d["type"]["qualType"], "params": ps, "attrs": set(at) | out.get(n, {}).get("attrs", set()), "file": f, "line": l,
                  "static": d.get("storageClass") == "static" or d.get("inline", False), "variadic": d.get("variadic", False)}
    return out
def null(t): return "*(__typeof__(%s) *)p_" % t
def parallel(jobs):
    with ThreadPoolExecutor(8) as ex: return [f.result() for f in [ex.submit(*j) for j in jobs]]
