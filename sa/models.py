"""Effect summaries of external functions (libc, allocator callbacks) and of the library's own error reporting."""
import re
from . import dom
from .dom import const, var, sym, fresh
from .ir import Ty
from .interp import I, CI, P, NULL, TRUE, FALSE, Incomplete, Result

ALLOC_FIELDS = ("allocate", "deallocate", "reallocate", "zero_allocate", "state")
INTMAX = (1 << 31) - 1

def lin(eng, st, v, w=64):
    """unsigned reading(s) of an integer argument"""
    if v[0] == "b": return [(s, x[2]) for s, x in eng.cond_value(st, v[1], w)]
    if v[0] != "i": return [(st, var(fresh("arg", 0, (1 << w) - 1)))]
    return eng.as_unsigned(st, v)

def siteof(eng, st, ins):
    return tuple((f.fn.name, f.callins.line if f.callins else 0) for f in st.frames[-2:-1]) + ((st.frames[-1].fn.name, ins.line, ins.res),)

def new_block(eng, st, ins, size, origin, zero=False, ty=None):
    site = siteof(eng, st, ins)
    rid = eng.new_region("heap", "block@%s:%d" % (st.frames[-1].fn.name, ins.line), ty, size, None, {"site": site, "alloc": origin, "zero": zero, "loc": eng.loc(st, ins), "stack": eng.stack(st)})
    st.heap[rid] = "live"
    return rid

def alloc(eng, st, ins, size, origin, zero=False):
    out = []
    s2 = st.copy()
    rid = new_block(eng, st, ins, size, origin, zero)
    eng.event(st, "alloc", (rid, size, origin), ins)
    out.append((st, P(rid)))
    s2.flags["allocfail"] = s2.flags.get("allocfail", 0) + 1
    eng.event(s2, "allocfail", (size, origin, siteof(eng, s2, ins)), ins)
    out.append((s2, NULL))
    return out

def free(eng, st, ins, p, origin):
    if p[0] == "u":
        eng.event(st, "viol", ("uninit-free",), ins); return []
    if p[0] != "p":
        eng.event(st, "viol", ("bad-free", str(p[0])), ins); return []
    T, F = eng.peqn(st, p, NULL, ins)
    out = []
    for s in T:
        eng.event(s, "free", (0, origin), ins); out.append(s)
    for s in F:
        rid = p[1]; r = eng.R[rid]
        if s.heap.get(rid) == "freed":
            eng.event(s, "viol", ("double-free", r.name), ins); continue
        if r.kind in ("alloca", "global", "const", "byval"):
            eng.event(s, "viol", ("free-of-nonheap", r.name), ins); continue
        if not s.cs.prove_eq0(p[2]):
            eng.event(s, "viol", ("interior-free", r.name), ins); continue
        eng.event(s, "free", (rid, origin), ins)
        s.heap[rid] = "freed"
        out.append(s)
    return out

def realloc(eng, st, ins, p, size, origin):
    if p[0] != "p":
        eng.event(st, "viol", ("uninit-realloc",), ins); return []
    T, F = eng.peqn(st, p, NULL, ins)
    out = []
    for s in T: out += alloc(eng, s, ins, size, origin)
    for s in F:
        rid = p[1]; r = eng.R[rid]
        if s.heap.get(rid) == "freed":
            eng.event(s, "viol", ("use-after-free", "realloc", r.name), ins); continue
        if r.kind in ("alloca", "global", "const", "byval"):
            eng.event(s, "viol", ("free-of-nonheap", r.name), ins); continue
        if not s.cs.prove_eq0(p[2]):
            eng.event(s, "viol", ("interior-free", r.name), ins); continue
        s2 = s.copy()
        z = s.copy()
        if z.cs.assume_eq0(size):       # C semantics: resizing to zero bytes may release the block and return null
            z.heap[rid] = "freed"; eng.event(z, "free", (rid, origin), ins); out.append((z, NULL))
            if not s.cs.assume_neq0(size): continue
            s2 = s.copy()
        if not s2.cs.assume_neq0(size): continue
        s2.flags["allocfail"] = s2.flags.get("allocfail", 0) + 1
        eng.event(s2, "allocfail", (size, origin, siteof(eng, s2, ins)), ins)
        out.append((s2, NULL))
        # success
        old = r.extent
        if old is None and r.info.get("cstr"): old = dom.addc(eng.slen(rid), 1)
        cases = []
        if old is None: cases.append((s, size))
        elif s.cs.prove_le(dom.sub(old, size)): cases.append((s, old))
        elif s.cs.prove_le(dom.sub(size, old)): cases.append((s, size))
        else:
            s3 = s.copy()
            if s.cs.assume_le(dom.sub(old, size)): cases.append((s, old))
            if s3.cs.assume_le(dom.addc(dom.sub(size, old), 1)): cases.append((s3, size))
        for s4, ln in cases:
            n = new_block(eng, s4, ins, size, origin, False, r.ty)
            eng.event(s4, "realloc", (rid, n, size, origin), ins)
            eng.write_range(s4, n, const(0), ln, ("copy", rid, eng.log(s4, rid), const(0), s4.lver.get(rid, 0)))
            s4.heap[rid] = "freed"
            out.append((s4, P(n)))
    return out

# ------------------------------------------------------------------ allocator callbacks
def origin_key(eng, rid):
    """allocator identity: (container region, base offset of the allocator struct) of a function pointer/state symbol"""
    r = eng.R[rid]
    if not r.origin: return None
    crid, off, owner = r.origin
    if owner and owner[0] == "rcutils_allocator_s":
        fo = {"allocate": 0, "deallocate": 8, "reallocate": 16, "zero_allocate": 24, "state": 32}[owner[1]]
        return (crid, dom.addc(off, -fo)), owner[1]
    return None

def indirect(eng, st, cv, args, ins):
    ok = origin_key(eng, cv[1])
    if ok is None:
        r = eng.R[cv[1]]
        h = eng.models.get("__callback__")
        if h:
            o = h(eng, st, cv, args, ins)
            if o is not None: return o
        if ins.ty.k == "void":
            eng.event(st, "icall", (cv[1], tuple(args), None), ins); return [(st, None)]
        rv = eng.unknown(st, ins.ty, ("icall", Counter.next()))
        eng.event(st, "icall", (cv[1], tuple(args), rv), ins)
        return [(st, rv)]
    org, field = ok
    stv = args[-1]
    so = origin_key(eng, stv[1]) if stv[0] == "p" and stv[1] else None
    if so is None or so[1] != "state" or so[0][0] != org[0] or so[0][1] != org[1]:
        eng.event(st, "badstate", (field, org, stv), ins)
    eng.event(st, "aop", (field, org), ins)
    if field == "allocate":
        return [x for s, n in lin(eng, st, args[0]) for x in alloc(eng, s, ins, n, org)]
    if field == "zero_allocate":
        out = []
        for s, a in lin(eng, st, args[0]):
            for s2, b in lin(eng, s, args[1]): out += alloc(eng, s2, ins, dom.mul(a, b), org, True)
        return out
    if field == "reallocate":
        return [x for s, n in lin(eng, st, args[1]) for x in realloc(eng, s, ins, args[0], n, org)]
    if field == "deallocate":
        return [(s, None) for s in free(eng, st, ins, args[0], org)]
    raise Incomplete("call through allocator state")

class Counter:
    n = 0
    @classmethod
    def next(c):
        c.n += 1; return c.n

DEF = ("default", (0, ()))
def d_allocate(eng, st, args, ins): return [x for s, n in lin(eng, st, args[0]) for x in alloc(eng, s, ins, n, DEF)]
def d_zero(eng, st, args, ins):
    return [x for s, a in lin(eng, st, args[0]) for s2, b in lin(eng, s, args[1]) for x in alloc(eng, s2, ins, dom.mul(a, b), DEF, True)]
def d_realloc(eng, st, args, ins): return [x for s, n in lin(eng, st, args[1]) for x in realloc(eng, s, ins, args[0], n, DEF)]
def d_free(eng, st, args, ins): return [(s, None) for s in free(eng, st, ins, args[0], DEF)]

CH = ("cheap", (0, ()))
def c_malloc(eng, st, args, ins): return [x for s, n in lin(eng, st, args[0]) for x in alloc(eng, s, ins, n, CH)]
def c_calloc(eng, st, args, ins):
    return [x for s, a in lin(eng, st, args[0]) for s2, b in lin(eng, s, args[1]) for x in alloc(eng, s2, ins, dom.mul(a, b), CH, True)]
def c_realloc(eng, st, args, ins): return [x for s, n in lin(eng, st, args[1]) for x in realloc(eng, s, ins, args[0], n, CH)]
def c_free(eng, st, args, ins): return [(s, None) for s in free(eng, st, ins, args[0], CH)]

# ------------------------------------------------------------------ memory
def memcpy(eng, st, args, ins):
    d, s_, n = args[0], args[1], args[2]; out = []
    for s, ln in lin(eng, st, n):
        if ln == (0, ()): out.append((s, d)); continue
        if not eng.check_access(s, s_, ln, "load", ins): continue
        if not eng.check_access(s, d, ln, "store", ins): continue
        if d[0] == "p" and s_[0] == "p":
            if eng.R[d[1]].kind != "alloca": eng.event(s, "store", (d[1], d[2], ln, ("copyof", s_)), ins)
            eng.event(s, "memcpy", (d, s_, ln), ins)
            eng.write_range(s, d[1], d[2], ln, ("copy", s_[1], eng.log(s, s_[1]), s_[2], s.lver.get(s_[1], 0)))
        out.append((s, d if ins.ty.k != "void" else None))
    return [(s, v if ins.ty.k != "void" else None) for s, v in out]
def memset(eng, st, args, ins):
    d, c, n = args[0], args[1], args[2]; out = []
    for s, ln in lin(eng, st, n):
        if not eng.check_access(s, d, ln, "store", ins): continue
        if d[0] == "p":
            if eng.R[d[1]].kind != "alloca": eng.event(s, "store", (d[1], d[2], ln, ("fill", c)), ins)
            eng.write_range(s, d[1], d[2], ln, ("fill", c[2][0] & 255 if c[0] == "i" and not c[2][1] else None))
        out.append((s, d if ins.ty.k != "void" else None))
    return out

# ------------------------------------------------------------------ strings
def cstr(eng, st, p, ins, what="load"):
    """read access to a NUL-terminated string; returns length lin or None when the path cannot continue"""
    if p[0] != "p" and p[0] != "u":
        return None
    if not eng.check_access(st, p, 1, what, ins): return None
    L = eng.strlen(st, p)
    r = eng.R[p[1]]
    if r.extent is not None and not r.info.get("cstr"):
        if not st.cs.prove_le(dom.addc(dom.sub(dom.add(p[2], L), r.extent), 1)):
            eng.event(st, "oob", ("strread", p[1], p[2], dom.addc(L, 1), r.extent, True, False), ins)
    return L
def strid(eng, st, p):
    """canonical identity of the string at p (follows whole-string copies)"""
    rid, off = p[1], p[2]
    for _ in range(12):
        r = eng.R[rid]; lg = eng.log(st, rid) if _ == 0 else lg
        if r.kind == "const" and not off[1]:
            g = r.info["g"]
            if g.init[0] == "str":
                b = g.init[1]; i = b.find(b"\0", off[0])
                if i >= 0: return ("lit", b[off[0]:i])
            elif g.init[0] == "zero": return ("lit", b"")
        if not lg: return ("mem", rid, off)
        nxt = None
        rel = None
        for e in reversed(lg):
            if e[0] == "cell" and e[3][0] == "i" and e[3][2] == (0, ()) and e[2] == 1 and st.cs.prove_le(dom.sub(off, e[1])): rel = e[1]; continue
            if e[0] == "copy" and st.cs.prove_eq0(dom.sub(e[1], off)):
                L = eng.strlen_log(st, e[4], e[3], e[5], 1)
                if L is not None and e[2] is not None:
                    if st.cs.prove_le(dom.addc(dom.sub(L, e[2]), 1)): nxt = (e[3], e[5], e[4])
                    elif rel is not None and st.cs.prove_eq0(dom.sub(L, dom.sub(rel, off))): nxt = (e[3], e[5], e[4])
                    elif rel is None and st.cs.prove_le(dom.sub(e[2], L)):
                        whole = eng.strlen_log(st, lg, rid, off, 1)      # terminated by something written before
                        if whole is not None and st.cs.prove_eq0(dom.sub(L, whole)): nxt = (e[3], e[5], e[4])
            break
        if nxt is None:
            return ("mem", rid, off, st.lver.get(rid, 0)) if _ == 0 else ("memv", rid, off, hash(lg))
        rid, off, lg = nxt
    return ("mem", rid, off, st.lver.get(rid, 0))
def strlen(eng, st, args, ins):
    L = cstr(eng, st, args[0], ins)
    if L is None: return []
    return [(st, I(64, L))]
def strnlen(eng, st, args, ins):
    out = []
    for s, n in lin(eng, st, args[1]):
        p = args[0]
        T, F = eng.branchn(s, ("nz", n), ins)
        for s2 in F: out.append((s2, CI(64, 0)))
        for s2 in T:
            if p[0] != "p": continue
            r = eng.R[p[1]]
            if not eng.check_access(s2, p, 0 if r.info.get("strn") is not None else 1, "load", ins): continue
            # reads up to min(n, strlen+1) bytes: safe when n bytes are inside or the text is terminated inside
            L = eng.strlen_log(s2, eng.log(s2, p[1]), p[1], p[2], 0)
            ext = r.extent
            if r.info.get("strn") is not None and p[2] == (0, ()) and s2.cs.prove_le(dom.sub(n, r.info["strn"])) and L is None:
                v = sym(("strnlen", p[1], s2.lver.get(p[1], 0), p[2], n), 0, dom.MAXOBJ)
                s3 = s2.copy()
                if s2.cs.assume_eq0(dom.sub(var(v), n)) and s2.cs.assume_le(dom.sub(n, ext)): out.append((s2, I(64, n)))
                if s3.cs.assume_le(dom.addc(dom.sub(var(v), n), 1)) and s3.cs.assume_le(dom.addc(dom.sub(var(v), ext), 1)): out.append((s3, I(64, var(v))))
                continue
            if ext is not None and not s2.cs.prove_le(dom.sub(dom.add(p[2], n), ext)):
                if L is None or not s2.cs.prove_le(dom.addc(dom.sub(dom.add(p[2], L), ext), 1)):
                    eng.event(s2, "oob", ("strread", p[1], p[2], n, ext, True, False), ins)
            v = sym(("strnlen", p[1], s2.lver.get(p[1], 0), p[2], n), 0, dom.MAXOBJ)
            if L is not None:
                a, b = eng.cmpn(s2, "ule", I(64, L), I(64, n), ins)
                for x in a: out.append((x, I(64, L)))
                for x in b: out.append((x, I(64, n)))
            else:
                s2.cs.assume_le(dom.sub(var(v), n))
                out.append((s2, I(64, var(v))))
    return out
def cmpres(eng, st, key, ins):
    s = sym(key, -(1 << 31), INTMAX, {"strcmp": key, "name": "cmp"})
    return [(st, I(32, var(s)))]
def pstr(eng, p):
    return p
def strcmp(eng, st, args, ins):
    a, b = args
    if cstr(eng, st, a, ins) is None or cstr(eng, st, b, ins) is None: return []
    ia, ib = strid(eng, st, a), strid(eng, st, b)
    if ia == ib: return [(st, CI(32, 0))]
    if ia[0] == "lit" and ib[0] == "lit": return [(st, CI(32, (ia[1] > ib[1]) - (ia[1] < ib[1])))]
    if repr(ia) > repr(ib):
        s = sym(("strcmp", ib, ia), -(1 << 31) + 1, INTMAX, {"strcmp": ("strcmp", ib, ia)})
        return [(st, I(32, dom.scale(var(s), -1)))]
    return cmpres(eng, st, ("strcmp", ia, ib), ins)
def strncmp(eng, st, args, ins):
    a, b, n = args; out = []
    for s, ln in lin(eng, st, n):
        one = const(1) if s.cs.prove_le(dom.addc(dom.scale(ln, -1), 1)) else const(0)
        if one == const(0) and ln != const(0):
            z = s.copy()
            if z.cs.assume_eq0(ln): out.append((z, CI(32, 0)))      # comparing no characters touches nothing
            if not s.cs.assume_le(dom.addc(dom.scale(ln, -1), 1)): continue
        elif ln == const(0): out.append((s, CI(32, 0))); continue
        if not eng.check_access(s, a, 1, "load", ins) or not eng.check_access(s, b, 1, "load", ins): continue
        for p in (a, b):
            r = eng.R[p[1]]
            L = eng.strlen_log(s, eng.log(s, p[1]), p[1], p[2], 0)
            ext = r.extent
            if ext is not None and not s.cs.prove_le(dom.sub(dom.add(p[2], ln), ext)) and L is None:
                eng.event(s, "oob", ("strread", p[1], p[2], ln, ext, True, False), ins)
        ia, ib = strid(eng, s, a), strid(eng, s, b)
        la, lb = (eng.strlen_log(s, eng.log(s, p[1]), p[1], p[2], 0) if eng.R[p[1]].info.get("strn") is None else None for p in (a, b))
        sy = sym(("strncmp", ia, ib, ln), -(1 << 31), INTMAX, {"strcmp": ("strncmp", ia, ib, ln), "name": "cmp"})
        y = s.copy()
        if y.cs.assume_neq0(var(sy)): out.append((y, I(32, var(sy))))
        if s.cs.assume_eq0(var(sy)):
            # equal up to the limit: a text at least that long has a partner at least that long
            ok = True
            if la is not None and lb is not None:
                if s.cs.prove_le(dom.sub(ln, la)): ok = s.cs.assume_le(dom.sub(ln, lb))
                elif s.cs.prove_le(dom.sub(ln, lb)): ok = s.cs.assume_le(dom.sub(ln, la))
            if ok: out.append((s, CI(32, 0)))
    return out
def memcmp_(eng, st, args, ins):
    a, b, n = args; out = []
    for s, ln in lin(eng, st, n):
        if ln == const(0): out.append((s, CI(32, 0))); continue
        if not s.cs.prove_le(dom.addc(dom.scale(ln, -1), 1)):
            z = s.copy()
            if z.cs.assume_eq0(ln): out.append((z, CI(32, 0)))
            if not s.cs.assume_le(dom.addc(dom.scale(ln, -1), 1)): continue
        if not eng.check_access(s, a, ln, "load", ins) or not eng.check_access(s, b, ln, "load", ins): continue
        if a[0] != "p" or b[0] != "p": out += cmpres(eng, s, ("memcmp", Counter.next()), ins); continue
        out += cmpres(eng, s, ("memcmp", strid(eng, s, a), strid(eng, s, b), ln), ins)
    return out
def strcasecmp(eng, st, args, ins):
    a, b = args[0], args[1]
    if len(args) > 2:
        for p in (a, b):
            if p[0] != "p": return []
            r = eng.R[p[1]]; bounded = r.info.get("strn") is not None and p[2] == (0, ()) and not eng.log(st, p[1])
            if not eng.check_access(st, p, 0 if bounded else 1, "load", ins): return []
            if bounded:
                if not st.cs.prove_le(dom.sub(args[2][2], r.info["strn"])): eng.event(st, "oob", ("strread", p[1], p[2], args[2][2], r.extent, True, False), ins)
            elif cstr(eng, st, p, ins) is None: return []
        eng.event(st, "strcasecmp", (a, b, args[2]), ins)
        return cmpres(eng, st, ("strcasecmp", strid(eng, st, a), strid(eng, st, b), args[2][2]), ins)
    if cstr(eng, st, a, ins) is None or cstr(eng, st, b, ins) is None: return []
    eng.event(st, "strcasecmp", (a, b, args[2] if len(args) > 2 else None), ins)
    return cmpres(eng, st, ("strcasecmp", strid(eng, st, a), strid(eng, st, b), args[2][2] if len(args) > 2 else None), ins)
def memchr(eng, st, args, ins, last=False):
    p, c, n = args; out = []
    for s, ln in lin(eng, st, n):
        if p[0] == "p" and c[0] == "i" and c[2] == (0, ()) and not last and p[2] == (0, ()) and eng.R[p[1]].info.get("strn") is not None and not eng.log(s, p[1]) and s.cs.prove_le(dom.sub(ln, eng.R[p[1]].info["strn"])):
            # documented: readable up to the limit or up to a terminator
            if not eng.check_access(s, p, 0, "load", ins): continue
            ext = eng.R[p[1]].extent
            v = sym(("strnlen", p[1], s.lver.get(p[1], 0), p[2], ln), 0, dom.MAXOBJ)
            s3 = s.copy()
            if s.cs.assume_eq0(dom.sub(var(v), ln)) and s.cs.assume_le(dom.sub(ln, ext)):
                eng.event(s, "notfound", (p, ln, c, last), ins); out.append((s, NULL))
            if s3.cs.assume_le(dom.addc(dom.sub(var(v), ln), 1)) and s3.cs.assume_le(dom.addc(dom.sub(var(v), ext), 1)):
                eng.event(s3, "found", (p, ln, c, last, var(v)), ins); out.append((s3, P(p[1], var(v))))
            continue
        if p[0] == "p" and c[0] == "i" and c[2] == (0, ()) and not last and eng.nullness(s, p[1]) is not True:
            # search for the terminator of a string: bytes are examined in order, up to the terminator only
            L = eng.strlen_log(s, eng.log(s, p[1]), p[1], p[2], 0)
            if L is not None:
                if not eng.check_access(s, p, 0, "load", ins): continue
                a, b = eng.cmpn(s, "ult", I(64, L), I(64, ln), ins)
                for x in a:
                    eng.event(x, "found", (p, ln, c, last, L), ins); out.append((x, P(p[1], dom.add(p[2], L))))
                for x in b:
                    eng.event(x, "notfound", (p, ln, c, last), ins); out.append((x, NULL))
                continue
        if not eng.check_access(s, p, ln, "load", ins): continue
        if p[0] != "p": out.append((s, NULL)); continue
        o = sym(("memrchr" if last else "memchr", p[1], s.lver.get(p[1], 0), p[2], ln, c[2]), 0, dom.MAXOBJ, {"find": (p, ln, c, last)})
        s2 = s.copy()
        eng.event(s2, "notfound", (p, ln, c, last), ins); out.append((s2, NULL))
        if s.cs.assume_le(dom.addc(dom.sub(var(o), ln), 1)):
            eng.event(s, "found", (p, ln, c, last, var(o)), ins)
            out.append((s, P(p[1], dom.add(p[2], var(o)))))
    return out
def memrchr(eng, st, args, ins): return memchr(eng, st, args, ins, True)
def strstr(eng, st, args, ins):
    h, n = args
    L = cstr(eng, st, h, ins)
    if L is None: return []
    M = cstr(eng, st, n, ins)
    if M is None: return []
    ver = st.lver.get(h[1], 0)
    o = sym(("strstr", h[1], ver, h[2], n[1], n[2]), 0, dom.MAXOBJ, {"name": "strstr"})
    s2 = st.copy()
    eng.event(s2, "strstr", (h, n, None), ins)
    out = [(s2, NULL)]
    if st.cs.assume_le(dom.sub(dom.add(var(o), M), L)):
        eng.event(st, "strstr", (h, n, var(o)), ins)
        out.append((st, P(h[1], dom.add(h[2], var(o)))))
    return out
def strchr(eng, st, args, ins):
    h = args[0]; L = cstr(eng, st, h, ins)
    if L is None: return []
    o = sym(("strchr", h[1], st.lver.get(h[1], 0), h[2], args[1][2]), 0, dom.MAXOBJ)
    s2 = st.copy(); out = [(s2, NULL)]
    eng.event(s2, "strchr", (h, args[1], None), ins)
    if st.cs.assume_le(dom.addc(dom.sub(var(o), L), 1 if st.cs.prove_neq0(args[1][2]) else 0)):
        eng.event(st, "strchr", (h, args[1], var(o)), ins)
        out.append((st, P(h[1], dom.add(h[2], var(o)))))
    return out
def strcpy(eng, st, args, ins):
    d, s = args; L = cstr(eng, st, s, ins)
    if L is None or not eng.check_access(st, d, dom.addc(L, 1), "store", ins): return []
    if eng.R[d[1]].kind != "alloca": eng.event(st, "store", (d[1], d[2], dom.addc(L, 1), ("copyof", s)), ins)
    eng.event(st, "memcpy", (d, s, dom.addc(L, 1)), ins)
    eng.write_range(st, d[1], d[2], dom.addc(L, 1), ("copy", s[1], eng.log(st, s[1]), s[2], st.lver.get(s[1], 0)))
    return [(st, d)]
def strncpy(eng, st, args, ins):
    d, s, n = args; out = []
    for s1, ln in lin(eng, st, n):
        if not eng.check_access(s1, s, 1, "load", ins) or not eng.check_access(s1, d, ln, "store", ins): continue
        L = eng.strlen(s1, s)
        if eng.R[d[1]].kind != "alloca": eng.event(s1, "store", (d[1], d[2], ln, ("copyof", s)), ins)
        a, b = eng.cmpn(s1, "ult", I(64, L), I(64, ln), ins)
        for x in a:
            eng.write_range(x, d[1], d[2], ln, ("fill", 0))
            eng.write_range(x, d[1], d[2], dom.addc(L, 1), ("copy", s[1], eng.log(x, s[1]), s[2], x.lver.get(s[1], 0))); out.append((x, d))
        for x in b:
            eng.write_range(x, d[1], d[2], ln, ("copy", s[1], eng.log(x, s[1]), s[2], x.lver.get(s[1], 0))); out.append((x, d))
    return out
def toupper(eng, st, args, ins):
    v = args[0]
    if v[0] == "i":
        if v[2][1] and not st.cs.prove_le(dom.addc(dom.scale(v[2], -1), -1)):
            eng.event(st, "ctype-range", (v[2],), ins)
        if not v[2][1]: return [(st, CI(32, v[2][0] - 32 if 97 <= v[2][0] <= 122 else v[2][0]))]
        s = sym(("toupper", v[2]), -128, 255, {"toupper": v[2]})
        return [(st, I(32, var(s)))]
    return [(st, I(32, var(fresh("toupper", -128, 255))))]

# ------------------------------------------------------------------ formatted output
def vaid(eng, st, p):
    if p[0] != "p": return None
    return st.flags.get(("va", p[1]))
def va_start(eng, st, args, ins):
    p = args[0]; eng.event(st, "va_start", (p,), ins)
    k = ("va", p[1])
    if st.flags.get(k) and st.flags[k][0] != "ended": eng.event(st, "viol", ("va-restart",), ins)
    st.flags[k] = ("fresh", ("start", st.frames[-1].fn.name, len(st.frames)))
    return [(st, None)]
def va_copy(eng, st, args, ins):
    d, s = args; eng.event(st, "va_copy", (d, s), ins)
    v = vaid(eng, st, s)
    if v is None: v = ("fresh", ("param", s[1] if s[0] == "p" else None))
    if v[0] != "fresh": eng.event(st, "viol", ("va-copy-of-consumed",), ins)
    k = ("va", d[1])
    st.flags[k] = v
    return [(st, None)]
def va_end(eng, st, args, ins):
    p = args[0]; eng.event(st, "va_end", (p,), ins)
    k = ("va", p[1]); v = st.flags.get(k)
    if v is None or v[0] == "ended": eng.event(st, "viol", ("va-end-unstarted",), ins)
    st.flags[k] = ("ended", None)
    return [(st, None)]
def va_use(eng, st, p, ins):
    """consumes the argument list; returns its identity"""
    if p[0] != "p": return None
    k = ("va", p[1]); v = st.flags.get(k)
    if v is None: v = ("fresh", ("param", p[1]))
    if v[0] == "used": eng.event(st, "viol", ("va-list-used-twice",), ins)
    if v[0] == "ended": eng.event(st, "viol", ("va-list-used-after-end",), ins)
    st.flags[k] = ("used", v[1])
    return v[1]
def fmtlit(eng, st, p):
    if p[0] == "p" and eng.R[p[1]].kind == "const":
        i = strid(eng, st, p)
        if i[0] == "lit": return i[1]
    return None
# a constant format of plain conversions cannot fail
PLAIN = re.compile(r"([^%]|%s|%d|%zu|%%)*\0?", re.S)
def do_snprintf(eng, st, buf, size, fmt, argkey, ins, fname, fork=True, nofail=False):
    out = []
    if cstr(eng, st, fmt, ins) is None: return []
    fl = fmtlit(eng, st, fmt)
    fkey = fl if fl is not None else strid(eng, st, fmt)
    for s, n in lin(eng, st, size):
        if not (n == (0, ())):
            if buf[0] == "p" and eng.nullness(s, buf[1]) is True:
                if not s.cs.prove_le(n): eng.event(s, "viol", ("null-deref", "store", "printf buffer"), ins); continue
            elif not s.cs.prove_le(n) and not eng.check_access(s, buf, n, "store", ins): continue
        want = sym(("fmtlen", fkey, argkey), 0, INTMAX, {"name": "formatted-length", "fmtlen": (fkey, argkey)})
        eng.event(s, "printf", (fname, buf, n, fmt, fl, argkey), ins)
        isal = buf[0] != "p" or eng.R[buf[1]].kind == "alloca"
        if buf[0] == "p" and buf[1] and not isal: eng.event(s, "store", (buf[1], buf[2], n, ("fmt", fkey)), ins)
        def wr(x, L):
            if buf[0] == "p" and buf[1] and n != (0, ()):
                eng.write_range(x, buf[1], buf[2], dom.addc(L, 1), ("str", ("fmt", fkey, argkey), L))
        if not nofail:
            s2 = s.copy(); s2.flags["fmtfail"] = s2.flags.get("fmtfail", 0) + 1
            eng.event(s2, "fmtfail", (fl,), ins)
            if not (isinstance(fl, (str, bytes)) and PLAIN.fullmatch(fl if isinstance(fl, str) else fl.decode("latin1"))): s2.flags["fmthard"] = True
            if buf[0] == "p" and buf[1] and not s2.cs.prove_le(n): eng.write_range(s2, buf[1], buf[2], n, ("hv", ("fmtfail", Counter.next())))
            out.append((s2, CI(32, -1)))
        if not fork:
            L = fresh("fmtL", 0, INTMAX)
            s.cs.assume_le(dom.addc(dom.sub(var(L), n), 1)); wr(s, var(L)); out.append((s, I(32, var(want)))); continue
        T, F = eng.cmpn(s, "ult", I(64, var(want)), I(64, n), ins)
        for x in T: wr(x, var(want)); out.append((x, I(32, var(want))))
        for x in F:
            T2, F2 = eng.branchn(x, ("nz", n), ins)
            for y in T2:
                wr(y, dom.addc(n, -1)); eng.event(y, "trunc", (fname, n), ins); out.append((y, I(32, var(want))))
            for y in F2: out.append((y, I(32, var(want))))
    return out
def snprintf(eng, st, args, ins): return do_snprintf(eng, st, args[0], args[1], args[2], tuple(args[3:]), ins, "snprintf")
def vsnprintf(eng, st, args, ins):
    i = va_use(eng, st, args[3], ins)
    return do_snprintf(eng, st, args[0], args[1], args[2], ("va", i), ins, "vsnprintf")
def m_rcutils_snprintf(eng, st, args, ins):
    """library wrapper (its own body is analysed separately); fixed-size diagnostics buffers do not fork"""
    diag = args[0][0] == "p" and eng.R[args[0][1]].kind == "alloca" and args[1][0] == "i" and args[1][2] == (1024, ())
    return do_snprintf(eng, st, args[0], args[1], args[2], tuple(args[3:]), ins, "rcutils_snprintf", not diag, diag)
def m_rcutils_vsnprintf(eng, st, args, ins):
    i = va_use(eng, st, args[3], ins)
    return do_snprintf(eng, st, args[0], args[1], args[2], ("va", i), ins, "rcutils_vsnprintf")
# operations that report on the standard error stream instead of the error state
STDERR_FNS = {"rcutils_calculate_directory_size", "rcutils_calculate_directory_size_with_recursion", "rcutils_initialize_error_handling_thread_local_storage"}
def output(eng, st, args, ins):
    eng.event(st, "output", (ins.x[1], tuple(args)), ins)
    if st.frames[0].fn.name in STDERR_FNS: st.flags["out"] = True
    return [(st, None if ins.ty.k == "void" else I(ins.ty.w, var(fresh("out", -(1 << 31), INTMAX))))]
def fprintf(eng, st, args, ins):
    eng.event(st, "printf", ("fprintf", args[0], None, args[1], fmtlit(eng, st, args[1]), tuple(args[2:])), ins)
    return output(eng, st, args, ins)
def printf(eng, st, args, ins):
    eng.event(st, "printf", ("printf", None, None, args[0], fmtlit(eng, st, args[0]), tuple(args[1:])), ins)
    return output(eng, st, args, ins)

# ------------------------------------------------------------------ error state (summarised outside the E-properties)
def set_error_state(eng, st, args, ins):
    out = []
    for s in eng.peqn(st, args[0], NULL, ins)[1]:
        for s2 in eng.peqn(s, args[1], NULL, ins)[1]:
            cstr(eng, s2, args[0], ins)
            s2.flags["err"] = True
            eng.event(s2, "seterr", (args[0], args[1], args[2]), ins); out.append((s2, None))
    return out
def reset_error(eng, st, args, ins):
    st.flags["err"] = False; eng.event(st, "reseterr", (), ins); return [(st, None)]
def error_is_set(eng, st, args, ins):
    e = st.flags.get("err")
    if e is True: return [(st, TRUE)]
    if e is False: return [(st, FALSE)]
    s2 = st.copy(); s2.flags["err"] = False
    st.flags["err"] = True
    return [(st, TRUE), (s2, FALSE)]
def get_error_string(eng, st, args, ins):
    p = args[0]; L = fresh("errlen", 0, 1023)
    eng.write_range(st, p[1], p[2], const(1024), ("str", ("errstr", Counter.next()), var(L)))
    eng.event(st, "geterr", (), ins)
    return [(st, None)]
def assert_fail(eng, st, args, ins):
    eng.event(st, "assert", (fmtlit(eng, st, args[0]),), ins)
    r = Result(); r.st = st; r.ret = None; r.kind = "abort"; r.fn = st.frames[0].fn.name
    eng.sink.append(r)
    return []

# ------------------------------------------------------------------ operating system
def extptr(eng, st, ins, name, ty=None, ext=None, nullable=True, cstring=False):
    """fresh pointer produced by the system"""
    rid = eng.new_region("ext", name, ty, ext, None, {"cstr": True} if cstring else {})
    if nullable:
        s2 = st.copy(); s2.null[rid] = True
        st.null[rid] = False
        return (st, P(rid)), (s2, NULL)
    st.null[rid] = False
    return ((st, P(rid)),)
def getenv(eng, st, args, ins):
    if cstr(eng, st, args[0], ins) is None: return []
    nm = strid(eng, st, args[0])
    key = ("env", nm)
    kv = st.flags.get(key)
    if kv is not None and st.flags.get("envver") is None:
        return [(st, kv)]
    out = []
    rid = eng.region(("envptr", nm, st.flags.get("envver", 0)), "ext", "getenv(%s)" % (nm[1].decode() if nm[0] == "lit" else "?"), None, None, None, {"cstr": True})
    s2 = st.copy(); s2.null[rid] = True; st.null[rid] = False
    for s, v in ((st, P(rid)), (s2, NULL)):
        s.flags[key] = v
        eng.event(s, "getenv", (nm, v), ins); out.append((s, v))
    return out
def status(names, ok=0, bad=-1):
    def m(eng, st, args, ins):
        s2 = st.copy(); n = ins.x[1]
        eng.event(st, "sys", (n, tuple(args), True), ins); eng.event(s2, "sys", (n, tuple(args), False), ins)
        s2.flags["sysfail"] = s2.flags.get("sysfail", 0) + 1
        return [(st, CI(ins.ty.w, ok)), (s2, CI(ins.ty.w, bad))]
    return m
def setenv(eng, st, args, ins):
    for a in args[:2]:
        if a[0] == "p" and ins.x[1] == "setenv" or a is args[0]:
            if cstr(eng, st, a, ins) is None: return []
    st.flags["envver"] = st.flags.get("envver", 0) + 1
    return status(0)(eng, st, args, ins)
def errno_loc(eng, st, args, ins):
    rid = eng.region(("errno",), "ext", "errno", None, const(4)); st.null[rid] = False
    if not st.flags.get("errno_keep"): eng.write_range(st, rid, const(0), const(4), ("hv", ("errno", Counter.next())))
    return [(st, P(rid))]
def errno_loc_stable(eng, st, args, ins):
    rid = eng.region(("errno",), "ext", "errno", None, const(4)); st.null[rid] = False
    return [(st, P(rid))]
def tls(eng, st, args, ins): return [(st, args[0])]
def null_path(eng, st, args, ins):
    """the kernel rejects a null path: [failing result] for null, and the state in which the path is set"""
    out = []
    T, F = eng.peqn(st, args[0], NULL, ins)
    for s in T:
        eng.event(s, "sys", (ins.x[1], tuple(args), False), ins)
        s.flags["sysfail"] = s.flags.get("sysfail", 0) + 1
        out.append((s, CI(ins.ty.w, -1)))
    return out, F
def stat_(eng, st, args, ins):
    out, F = null_path(eng, st, args, ins)
    if not F: return out
    st = F[0]
    if cstr(eng, st, args[0], ins) is None: return out
    for s, v in status(0)(eng, st, args, ins):
        if v == CI(32, 0):
            if not eng.check_access(s, args[1], 144, "store", ins): continue
            eng.write_range(s, args[1][1], args[1][2], const(144), ("hv", ("stat", strid(eng, s, args[0]), Counter.next())))
            m, z = (eng.load(s, args[1][1], dom.addc(args[1][2], o), t)[0][1] for o, t in ((24, Ty("i", 4, 32)), (48, Ty("i", 8, 64))))
            eng.event(s, "stat", (ins.x[1], args[0], m, z), ins)
        out.append((s, v))
    return out
def path_status(eng, st, args, ins):
    out, F = null_path(eng, st, args, ins)
    for s in F:
        if cstr(eng, s, args[0], ins) is not None: out += status(0)(eng, s, args, ins)
    return out
def getcwd(eng, st, args, ins):
    out = []
    for s, n in lin(eng, st, args[1]):
        if not eng.check_access(s, args[0], n, "store", ins): continue
        s2 = s.copy(); eng.event(s2, "sys", ("getcwd", tuple(args), False), ins); out.append((s2, NULL))
        L = fresh("cwdlen", 1, dom.MAXOBJ)
        if s.cs.assume_le(dom.addc(dom.sub(var(L), n), 1)):
            eng.event(s, "sys", ("getcwd", tuple(args), True), ins)
            eng.write_range(s, args[0][1], args[0][2], dom.addc(var(L), 1), ("str", ("cwd", Counter.next()), var(L)))
            out.append((s, args[0]))
    return out
def opendir(eng, st, args, ins):
    if cstr(eng, st, args[0], ins) is None: return []
    out = []
    for s, v in extptr(eng, st, ins, "DIR"):
        eng.event(s, "open", ("dir", v[1]), ins)
        if v[1]: s.flags[("handle", v[1])] = "open"
        out.append((s, v))
    return out
def handle_use(eng, st, v, ins, what):
    if v[0] != "p" or eng.nullness(st, v[1]) is True:
        eng.event(st, "viol", ("null-handle", what), ins); return False
    if eng.nullness(st, v[1]) is None:
        eng.event(st, "deref?", (v[1], what), ins); st.null[v[1]] = False
    h = st.flags.get(("handle", v[1]))
    if h == "closed":
        eng.event(st, "viol", ("use-of-closed-handle", what), ins); return False
    return True
def closedir(eng, st, args, ins):
    if not handle_use(eng, st, args[0], ins, "closedir"): return []
    st.flags[("handle", args[0][1])] = "closed"; eng.event(st, "close", ("dir", args[0][1]), ins)
    return [(st, CI(32, 0))]
def readdir(eng, st, args, ins):
    if not handle_use(eng, st, args[0], ins, "readdir"): return []
    ty = None
    D = eng.D
    T = eng.dirent_type() if hasattr(eng, "dirent_type") else None
    # one entry buffer per stream, overwritten by each call; its name is a terminated string of at most 255 characters
    rid = eng.region(("dirent", args[0][1]), "ext", "dirent", T, const(280), None, {"strat": 19})
    s2 = st.copy(); st.null[rid] = False; st.lver[rid] = st.lver.get(rid, 0) + 1
    eng.event(st, "readdir", (args[0][1], rid), ins); eng.event(s2, "readdir", (args[0][1], 0), ins)
    return [(st, P(rid)), (s2, NULL)]
def dlopen(eng, st, args, ins):
    out = []
    for s, v in extptr(eng, st, ins, "dlhandle"):
        eng.event(s, "open", ("dl", v[1], tuple(args)), ins)
        if v[1]: s.flags[("handle", v[1])] = "open"
        out.append((s, v))
    return out
def dlclose(eng, st, args, ins):
    if not handle_use(eng, st, args[0], ins, "dlclose"): return []
    st.flags[("handle", args[0][1])] = "closed"; eng.event(st, "close", ("dl", args[0][1]), ins)
    out = status(0)(eng, st, args, ins)
    for s, v in out: s.flags[("closefailed", args[0][1])] = v != CI(32, 0)
    return out
def dlsym(eng, st, args, ins):
    if args[0] != NULL and not handle_use(eng, st, args[0], ins, "dlsym"): return []
    if cstr(eng, st, args[1], ins) is None: return []
    out = []
    for s, v in extptr(eng, st, ins, "symbol"):
        eng.event(s, "dlsym", (args[0], args[1], v), ins); out.append((s, v))
    return out
def dlerror(eng, st, args, ins):
    out = []
    for s, v in extptr(eng, st, ins, "dlerror", cstring=True):
        eng.event(s, "dlerror", (v,), ins); out.append((s, v))
    return out
def dlinfo(eng, st, args, ins):
    if not handle_use(eng, st, args[0], ins, "dlinfo"): return []
    out = []
    for s, v in status(0)(eng, st, args, ins):
        if v == CI(32, 0):
            p = args[2]
            if not eng.check_access(s, p, 8, "store", ins): continue
            rid = eng.new_region("ext", "link_map", eng.linkmap_type() if hasattr(eng, "linkmap_type") else None, const(40), None, {}); s.null[rid] = False
            eng.store(s, p[1], p[2], P(rid), 8)
        eng.event(s, "dlinfo", (args[0], rid if v == CI(32, 0) else 0), ins)
        out.append((s, v))
    return out
def isatty(eng, st, args, ins): return [(st, I(32, var(fresh("isatty", 0, 1))))]
def fileno(eng, st, args, ins):
    if not eng.check_access(st, args[0], 1, "load", ins): return []
    return [(st, I(32, var(fresh("fileno", -1, INTMAX))))]
def getpid(eng, st, args, ins):
    eng.event(st, "sys", ("getpid", (), True), ins)
    return [(st, I(32, var(sym(("getpid",), 1, INTMAX, {"name": "getpid()"}))))]
def otherid(eng, st, args, ins):
    n = ins.x[1]
    eng.event(st, "sys", (n, (), True), ins)
    return [(st, I(32, var(sym((n,), 0, INTMAX, {"name": n + "()"}))))]
def basename(eng, st, args, ins):
    p = args[0]; L = cstr(eng, st, p, ins)
    if L is None: return []
    # POSIX basename may modify its argument and returns a pointer into it or to "."
    ev = ("basename", strid(eng, st, p))
    s2 = st.copy()
    n = fresh("basenamelen", 1, dom.MAXOBJ)
    out = []
    # "." for an empty path
    if s2.cs.assume_eq0(L):
        rid = eng.region(("basedot",), "ext", "\".\"", None, const(2), None, {"cstr": True}); s2.null[rid] = False
        s2.cs.assume_eq0(dom.addc(eng.slen(rid), -1))
        eng.event(s2, "basename", (p, P(rid), ev[1], None), ins); out.append((s2, P(rid)))
    if st.cs.assume_le(dom.addc(dom.scale(L, -1), 1)):
        o = fresh("baseoff", 0, dom.MAXOBJ)
        st.cs.assume_le(dom.sub(dom.add(var(o), var(n)), L))
        if eng.R[p[1]].kind != "alloca": eng.event(st, "store", (p[1], p[2], L, ("basename", p)), ins)
        eng.write_range(st, p[1], dom.add(p[2], var(o)), dom.addc(var(n), 1), ("str", ("basename", Counter.next()), var(n)))
        q = P(p[1], dom.add(p[2], var(o)))
        eng.event(st, "basename", (p, q, ev[1], strid(eng, st, q)), ins); out.append((st, q))
    return out
def strerror_r(eng, st, args, ins):
    out = []
    for s, n in lin(eng, st, args[2]):
        if not s.cs.prove_le(n) and not eng.check_access(s, args[1], n, "store", ins): continue
        # GNU variant: returns a pointer to a static string or to the buffer
        rid = eng.new_region("ext", "strerror", None, None, None, {"cstr": True}); s.null[rid] = False
        eng.event(s, "strerror_r", tuple(args), ins)
        if ins.ty.k == "p":
            s2 = s.copy()
            out.append((s, P(rid)))
            L = fresh("selen", 0, dom.MAXOBJ)
            if s2.cs.assume_le(dom.addc(dom.sub(var(L), n), 1)):
                eng.write_range(s2, args[1][1], args[1][2], dom.addc(var(L), 1), ("str", ("strerror", Counter.next()), var(L)))
                out.append((s2, args[1]))
        else:
            L = fresh("selen", 0, dom.MAXOBJ); s2 = s.copy()
            if s.cs.assume_le(dom.addc(dom.sub(var(L), n), 1)):
                eng.write_range(s, args[1][1], args[1][2], dom.addc(var(L), 1), ("str", ("strerror", Counter.next()), var(L)))
                out.append((s, CI(32, 0)))
            out.append((s2, I(32, var(fresh("se", 1, INTMAX)))))
    return out
def clock_gettime(eng, st, args, ins):
    out = []
    for s, v in status(0)(eng, st, args, ins):
        if v == CI(32, 0):
            if not eng.check_access(s, args[1], 16, "store", ins): continue
            k = Counter.next()
            sec = sym(("tv_sec", k), -(1 << 63), (1 << 63) - 1, {"name": "tv_sec", "tv": "sec"}); ns = sym(("tv_nsec", k), -(1 << 63), (1 << 63) - 1, {"name": "tv_nsec", "tv": "nsec"})
            eng.store(s, args[1][1], args[1][2], I(64, var(sec)), 8); eng.store(s, args[1][1], dom.addc(args[1][2], 8), I(64, var(ns)), 8)
            eng.event(s, "clock", (args[0], sec, ns), ins)
        else:
            eng.event(s, "clock", (args[0], None, None), ins)
        out.append((s, v))
    return out
def localtime_r(eng, st, args, ins):
    if not eng.check_access(st, args[0], 8, "load", ins): return []
    s2 = st.copy(); eng.event(s2, "localtime", (args[0], False), ins)
    if not eng.check_access(st, args[1], 56, "store", ins): return []
    from .ir import Ty
    tv = eng.load(st, args[0][1], args[0][2], Ty("i", 8, 64))[0][1]
    eng.write_range(st, args[1][1], args[1][2], const(56), ("hv", ("localtime", Counter.next())))
    eng.event(st, "localtime", (tv, True), ins)
    return [(st, args[1]), (s2, NULL)]
def strftime(eng, st, args, ins):
    out = []
    for s, n in lin(eng, st, args[1]):
        if not eng.check_access(s, args[0], n, "store", ins): continue
        s2 = s.copy(); eng.write_range(s2, args[0][1], args[0][2], n, ("hv", ("strftime", Counter.next())))
        eng.event(s2, "strftime", (args, fmtlit(eng, s2, args[2]), None), ins); out.append((s2, CI(64, 0)))
        L = fresh("sfl", 1, dom.MAXOBJ)
        if s.cs.assume_le(dom.addc(dom.sub(var(L), n), 1)):
            eng.write_range(s, args[0][1], args[0][2], dom.addc(var(L), 1), ("str", ("strftime", Counter.next()), var(L)))
            eng.event(s, "strftime", (args, fmtlit(eng, s, args[2]), var(L)), ins); out.append((s, I(64, var(L))))
    return out
def absv(eng, st, args, ins):
    v = args[0]; w = ins.ty.w; out = []
    T, F = eng.cmpn(st, "slt", v, CI(w, 0), ins)
    for s in T:
        if not s.cs.prove_le(dom.addc(dom.scale(v[2], -1), -((1 << (w - 1)) - 1))):
            eng.event(s, "abs-overflow", (v[2],), ins)
        out.append((s, I(w, dom.scale(v[2], -1))))
    for s in F: out.append((s, v))
    return out
def qsort(eng, st, args, ins):
    eng.event(st, "qsort", tuple(args), ins)
    b = args[0]
    if b[0] == "p":
        eng.check_access(st, b, 0, "store", ins)
        for s, n in lin(eng, st, args[1]):
            for s2, e in lin(eng, s, args[2]):
                eng.event(s2, "store", (b[1], b[2], None, ("qsort",)), ins)
                eng.write_range(s2, b[1], const(0), None, ("hv", ("qsort", Counter.next())))
                return [(s2, None)]
    return [(st, None)]
def setvbuf(eng, st, args, ins):
    eng.event(st, "setvbuf", tuple(args), ins)
    return status(0)(eng, st, args, ins)
def expect(eng, st, args, ins): return [(st, args[0])]
def nop(eng, st, args, ins):
    if ins.ty.k == "void": return [(st, None)]
    return [(st, eng.unknown(st, ins.ty, ("nop", Counter.next())))]
def objectsize(eng, st, args, ins): return [(st, CI(ins.ty.w, -1))]
def unreachable_model(eng, st, args, ins): return []

BASE = {
    "__indirect__": indirect,
    "malloc": c_malloc, "calloc": c_calloc, "realloc": c_realloc, "free": c_free,
    "strlen": strlen, "strnlen": strnlen, "strcmp": strcmp, "strncmp": strncmp, "strcasecmp": strcasecmp, "strncasecmp": strcasecmp,
    "memchr": memchr, "memrchr": memrchr, "strstr": strstr, "strchr": strchr, "strcpy": strcpy, "strncpy": strncpy, "toupper": toupper,
    "memcpy": memcpy, "memmove": memcpy, "memset": memset, "memcmp": memcmp_,
    "llvm.memcpy.p0.p0.i64": memcpy, "llvm.memmove.p0.p0.i64": memcpy, "llvm.memset.p0.i64": memset,
    "snprintf": snprintf, "vsnprintf": vsnprintf, "printf": printf, "fprintf": fprintf, "fwrite": output, "fputs": output, "fflush": output, "vfprintf": output, "puts": output,
    "llvm.va_start": va_start, "llvm.va_copy": va_copy, "llvm.va_end": va_end, "llvm.va_start.p0": va_start, "llvm.va_copy.p0": va_copy, "llvm.va_end.p0": va_end,
    "__assert_fail": assert_fail, "abort": assert_fail,
    "getenv": getenv, "setenv": setenv, "unsetenv": setenv, "putenv": setenv, "__errno_location": errno_loc, "llvm.threadlocal.address.p0": tls,
    "stat": stat_, "lstat": stat_, "mkdir": path_status, "getcwd": getcwd, "opendir": opendir, "closedir": closedir, "readdir": readdir,
    "dlopen": dlopen, "dlclose": dlclose, "dlsym": dlsym, "dlerror": dlerror, "dlinfo": dlinfo,
    "isatty": isatty, "fileno": fileno, "getpid": getpid, "getppid": otherid, "getpgrp": otherid, "gettid": otherid, "getuid": otherid, "__xpg_basename": basename, "basename": basename, "strerror_r": strerror_r, "__xpg_strerror_r": strerror_r,
    "clock_gettime": clock_gettime, "localtime_r": localtime_r, "strftime": strftime, "llvm.abs.i64": absv, "llvm.abs.i32": absv, "llabs": absv, "labs": absv, "abs": absv,
    "qsort": qsort, "setvbuf": setvbuf, "llvm.expect.i64": expect, "llvm.expect.i1": expect,
    "llvm.lifetime.start.p0": nop, "llvm.lifetime.end.p0": nop, "llvm.objectsize.i64.p0": objectsize, "llvm.stacksave.p0": nop, "llvm.stackrestore.p0": nop,
    "llvm.assume": nop,
    # default allocator callbacks (allocator.c itself is analysed with these off)
    "__default_allocate": d_allocate, "__default_deallocate": d_free, "__default_reallocate": d_realloc, "__default_zero_allocate": d_zero,
    # error reporting
    "rcutils_set_error_state": set_error_state, "rcutils_reset_error": reset_error, "rcutils_error_is_set": error_is_set,
    "rcutils_get_error_string": get_error_string, "rcutils_snprintf": m_rcutils_snprintf,
}
for _n in ("unlink", "remove", "rmdir", "rename", "fopen", "open", "chmod", "truncate", "symlink", "link", "write", "creat"):
    BASE[_n] = status(0)

def logging_models():
    """log statements inside library functions: their effect is the E/L properties' subject, here they are no-ops"""
    def log(eng, st, args, ins):
        eng.event(st, "log", tuple(args), ins); return [(st, None)]
    def en(eng, st, args, ins): return [(st, FALSE if ins.ty.w == 1 else CI(ins.ty.w, 0))]
    return {"rcutils_log": log, "rcutils_log_internal": log, "rcutils_logging_logger_is_enabled_for": en, "rcutils_logging_initialize": lambda e, s, a, i: [(s, CI(32, 0))],
            "rcutils_logging_initialize_with_allocator": lambda e, s, a, i: [(s, CI(32, 0))]}
