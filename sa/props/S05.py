"""S05: rcutils_isalnum_no_locale is exact for every character value."""
import os
from .. import vg, graph, build
TECHNIQUE = "finite value-set dataflow (all 256 character values) through the type-checked function, for both char signedness conventions, C and C++"
NOTE = "The set of argument values reaching each return is propagated through every branch of the function's IR; constant tables are folded. A call to anything outside the function is reported, locale-dependent classification included."
RULE = "the argument values returned as true are exactly 0-9, A-Z and a-z"
EXPLAIN = "value sets of every path of the inline function in 4 configurations, 256 values each"
SRC = '#include "rcutils/isalnum_no_locale.h"\n#ifdef __cplusplus\nextern "C"\n#endif\nint w_alnum(char c) { return rcutils_isalnum_no_locale(c) ? 1 : 0; }\n'
WANT = frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)))
class Cant(Exception): pass
def ev(M, e, x):
    """value of an expression for argument byte x"""
    k = e[0]
    if k == "c": return e
    if e == ("sym", "arg0", 8): return vg.C(x, 8)
    if k == "not": return vg.not_(ev(M, e[1], x))
    if k in ("and1", "or1"):
        a, b = ev(M, e[1], x), ev(M, e[2], x)
        return vg.C(a[1] & b[1] if k == "and1" else a[1] | b[1], 1)
    if k == "bin": return vg.bin_(e[1], e[2], ev(M, e[3], x), ev(M, e[4], x))
    if k == "icmp": return vg.icmp(e[1], ev(M, e[3], x), ev(M, e[4], x), e[2])
    if k == "sel": return ev(M, e[2] if ev(M, e[1], x)[1] else e[3], x)
    if k in ("zext", "sext", "trunc"):
        a = ev(M, e[1], x); return vg.cast(k, a, a[2], e[2])
    if k == "cload":
        a = e[1]; off = 0
        while a[0] in ("addr", "idx"):
            if a[0] == "addr": off += a[2]; a = a[1]
            else: off += vg.sgn(ev(M, a[2], x)) * a[3]; a = a[1]
        g = M.globals[a[1]]
        if not 0 <= off < g.ty.size: raise Cant("reads outside the table %s" % a[1])
        v = vg.initval(g.init, g.ty, off, e[2])
        if v is None: raise Cant("unreadable table")
        return v
    raise Cant("value of unknown origin (%s)" % (e,))
def check(o, tier):
    hdr = (os.path.join(build.REPO, "include/rcutils/isalnum_no_locale.h"), 0, "rcutils_isalnum_no_locale")
    for lang in ("c", "c++"):
        for sg in ("-fsigned-char", "-funsigned-char"):
            p = os.path.join(build.scratch(), "s05.%s" % ("c" if lang == "c" else "cpp")); open(p, "w").write(SRC)
            M, D, ll = vg.modulefrom([p], extra=[sg], tag="s05" + lang.replace("+", "p") + sg[2])
            tag = "%s %s" % (lang, sg[2:])
            got = {}
            for path in vg.Walk(M, D).run("w_alnum"):
                calls = [e for e in path.ev if e[0] == "call"]
                for c in calls: o.ob(ok=False); graph.report(o, "call|%s" % (c[1],), "the classification depends on a call to %s()" % (c[1],), hdr)
                if path.kind != "ret" or calls: 
                    if path.kind != "ret": o.inconclusive.append("%s: a path does not return" % tag)
                    continue
                try:
                    for x in range(256):
                        if all(bool(ev(M, e, x)[1]) == t for e, t in path.conds): got.setdefault(x, set()).add(ev(M, path.ret, x)[1] & 0xffffffff)
                except Cant as e:
                    if "outside" in str(e): o.ob(ok=False); graph.report(o, "table|%s" % sg, str(e), hdr)
                    else: o.inconclusive.append("%s: %s" % (tag, e))
            for x in range(256):
                if x not in got: continue
                ok = got[x] == {1 if x in WANT else 0}; o.ob(ok=ok)
                if not ok: graph.report(o, "value|%d|%s" % (x, sg[2:]), "character value %d (%r) is classified %s (%s)" % (x, chr(x), "alphanumeric" if 1 in got[x] else "not alphanumeric", tag), hdr)
            o.coverage.setdefault("values_decided", {})[tag] = len(got)
