"""Byte and character buffers (C06): recorded length and capacity, what is stored where, and who owns the storage."""
from . import api, dom, models, loops, spec
from .api import events
from .dom import const, var
from .values import *
from .ir import Ty
from .interp import NULL
from .os_rules import chk, ev_of
from .containers import Obj, eq, invariants, looped
from .arrays import every_at, every, lin
CA = "rcutils_char_array_s"; UA = "rcutils_uint8_array_s"
LEN, CAP, BUF = "buffer_length", "buffer_capacity", "buffer"

def le(st, a, b): return st.cs.prove_le(dom.sub(a, b))
def owned(E, st, o, at1=False):
    """True / False / None: does the array own its buffer (at entry, or at return)"""
    if o.struct != CA: return True
    if at1: v = E.load(st, o.p1[1], dom.addc(o.p1[2], o.off("owns_buffer")), Ty("i", 1, 8))[0][1]
    else: v = E.initial(st, o.p0[1], dom.addc(o.p0[2], o.off("owns_buffer")), Ty("i", 1, 8))
    if v[0] == "b": return v[1]
    if v[0] != "i": return None
    if st.cs.prove_eq0(v[2]): return False
    return True if loops.impossible(st, v[2]) else None
def region(p): return p[1] if p and p[0] == "p" else None

def ownership(ctx, r, o):
    """storage of the caller is neither released nor reallocated, and new storage is recorded as the array's own"""
    E = ctx.E; st = r.st; b0 = o.q0(BUF)
    if region(b0) and E.nullness(st, b0[1]) is not True:
        for s, x in every_at(E, st, events(st)):
            if x.k in ("free", "realloc") and x.d[0] == b0[1]:
                chk(ctx, owned(E, s, o) is True, "borrowed", x.k, "storage that belongs to the caller is %s" % ("released" if x.k == "free" else "reallocated"), r, x)
    b1 = o.q1(BUF)
    if not region(b1): return
    if b1[1] == b0[1]:
        w0, w1 = owned(E, st, o), owned(E, st, o, True)
        if w0 is not None and w1 is not None: chk(ctx, w0 == w1, "owner", "changed", "the ownership flag changes although the storage is the same", r)
        elif struct_written(E, st, o): chk(ctx, False, "owner", "changed", "the ownership flag is overwritten although the storage is the same", r)
    elif E.R[b1[1]].kind == "heap":
        chk(ctx, owned(E, st, o, True) is True, "owner", "new-storage", "storage allocated by the library is recorded as the caller's", r)
def struct_written(E, st, o):
    return o.struct == CA and any(x.k == "store" and x.d[0] == o.p1[1] and x.d[1] == dom.addc(o.p1[2], o.off("owns_buffer")) for x in events(st))

def stores_before(evs, rid): return [(k, x) for k, x in enumerate(evs) if x.k == "store" and x.d[0] == rid]
def kept_range(ctx, r, o, upto, what, msg):
    """bytes [0, upto) of the buffer at entry are those at return: same or reallocated storage, or a copy, and nothing written over them"""
    E = ctx.E; st = r.st; evs = events(st); b0, b1 = o.q0(BUF), o.q1(BUF)
    if st.cs.prove_eq0(upto) or region(b0) and E.nullness(st, b0[1]) is True: ctx.ob(True); return
    if not region(b1): chk(ctx, False, "content", what, msg, r); return
    ok = b1[1] == b0[1] or any(e.k == "realloc" and e.d[0] == b0[1] and e.d[1] == b1[1] for e in evs)
    done = [-1] if ok else [k for k, e in enumerate(evs) if e.k == "memcpy" and region(e.d[0]) == b1[1] and eq(st, e.d[0][2], b1[2]) and region(e.d[1]) == b0[1] and eq(st, e.d[1][2], b0[2]) and le(st, upto, e.d[2])]
    if not done:
        if looped(evs): ctx.inconclusive("content", what); return
        chk(ctx, False, "content", what, msg, r); return
    for s, x in every_at(E, st, evs[done[-1] + 1:]):
        if x.k == "store" and region(b1) == x.d[0] or x.k == "store" and done[-1] < 0 and x.d[0] == b0[1]:
            if x.d[0] == b0[1] and b1[1] != b0[1]: off = x.d[1]
            else: off = dom.sub(x.d[1], b1[2])
            ok = le(s, upto, off) or lin(x.d[2]) == const(0) or s.cs.prove_eq0(lin(x.d[2]))
            if not ok and any(e.k == "loop" for e in evs): ctx.inconclusive("content", what); continue
            chk(ctx, ok, "content", what, msg, r, x)
def last_write(evs, st, rid, off, n, after=0):
    """nothing writes into [off, off+n) of the region behind event number `after`"""
    for e in evs[after + 1:]:
        if e.k == "loop": return None
        if e.k == "store" and e.d[0] == rid:
            m = lin(e.d[2])
            if not (le(st, dom.add(off, n), e.d[1]) or le(st, dom.add(e.d[1], m), off)): return False
    return True
def copied(ctx, r, o, off, src, n, what, msg):
    """[off, off+n) of the buffer holds the n bytes at src"""
    st = r.st; evs = events(st); b1 = o.q1(BUF)
    if st.cs.prove_eq0(n): ctx.ob(True); return
    if not region(b1): chk(ctx, False, "content", what, msg, r); return
    at = dom.add(b1[2], off); maybe = False
    for k, e in enumerate(evs):
        if e.k == "memcpy" and region(e.d[0]) == b1[1] and region(e.d[1]) == src[1]:
            if eq(st, e.d[0][2], at) and eq(st, e.d[1][2], src[2]) and le(st, n, e.d[2]):
                w = last_write(evs, st, b1[1], at, n, k)
                if w: ctx.ob(True); return
                if w is None: maybe = True
        if e.k == "loop": maybe = True
    if maybe: ctx.inconclusive("content", what); return
    chk(ctx, False, "content", what, msg, r)
def zero_at(ctx, r, o, off, what, msg):
    E = ctx.E; st = r.st; b1 = o.q1(BUF)
    if not region(b1): chk(ctx, False, "terminator", what, msg, r); return
    at = dom.add(b1[2], off); maybe = False; evs = events(st)
    for k, e in reversed(list(enumerate(evs))):
        if e.k == "loop": maybe = True
        if e.k == "store" and e.d[0] == b1[1]:
            a = e.d[1]; m = lin(e.d[2]); v = e.d[3]
            if le(st, dom.addc(at, 1), a) or le(st, dom.add(a, m), at): continue
            z = eq(st, a, at) and v[0] == "i" and len(v) == 3 and st.cs.prove_eq0(v[2]) or v[0] == "fill" and v[1][0] == "i" and v[1][2] == const(0) and le(st, a, at) and le(st, dom.addc(at, 1), dom.add(a, m))
            if not z and isinstance(v, tuple) and v[0] == "copyof" and eq(st, dom.addc(dom.sub(at, a), 0), E.strlen(st, v[1])) : z = True
            if not z and maybe: break
            chk(ctx, z, "terminator", what, msg, r, e); return
    if maybe: ctx.inconclusive("terminator", what); return
    v = E.load(st, b1[1], at, Ty("i", 1, 8))[0][1]
    chk(ctx, v[0] == "i" and st.cs.prove_eq0(v[2]), "terminator", what, msg, r)

def c06(ctx):
    E = ctx.E; name = ctx.name; ca = "char_array" in name; S = CA if ca else UA; op = name.split("array_", 1)[1]; oks = 0
    for r in ctx.final():
        st = r.st; evs = events(st); c = ctx.cval(r)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if fact(ctx, st, param(ctx, 0)) is True:
            chk(ctx, c != 0, "accepts", "null", "a null array is accepted", r); continue
        invariants(ctx, r, (0,))
        o = Obj(ctx, r, 0, S)
        if op != "init": ownership(ctx, r, o)
        n0, c0 = o.i0(LEN), o.i0(CAP); n1, c1 = o.i1(LEN), o.i1(CAP); b0, b1 = o.q0(BUF), o.q1(BUF)
        if c != 0:
            if op in ("resize", "expand_as_needed") and ca or op in ("memcpy", "strcpy", "strncat", "strcat"):
                chk(ctx, eq(st, n0, n1) and eq(st, c0, c1) and same(st, b0, b1), "changed", "on-failure", "the array changes although the operation fails", r)
            if op in ("resize", "expand_as_needed", "memcpy", "strcpy", "strncat", "strcat"):
                from .api import bad_allocator
                ok = bool(st.flags.get("allocfail")) or bad_allocator(ctx, st) or op == "resize" and st.cs.prove_eq0(param(ctx, 1)[2]) or any(e.k == "wrap" for e in evs) or \
                    op == "expand_as_needed" and st.cs.prove_eq0(param(ctx, 1)[2])
                chk(ctx, ok, "rejects", "valid", "a valid request is rejected", r)
            continue
        oks += 1
        if n1 is None or c1 is None: ctx.inconclusive("fields", op); continue
        if op == "init":
            want = param(ctx, 1)[2]
            chk(ctx, eq(st, n1, const(0)), "length", op, "a new array is not empty", r)
            chk(ctx, eq(st, c1, want), "capacity", op, "a new array does not have the requested capacity", r)
            chk(ctx, owned(E, st, o, True) is True, "owner", "new-storage", "storage allocated by the library is recorded as the caller's", r)
            if not st.cs.prove_eq0(want):
                chk(ctx, region(b1) and E.R[b1[1]].kind == "heap", "storage", op, "a new array has no storage", r)
                if ca and region(b1): zero_at(ctx, r, o, const(0), op, "a new character array does not hold an empty text")
        elif op == "fini":
            chk(ctx, b1 == NULL or fact(ctx, st, b1) is True, "storage", op, "a finalised array still refers to storage", r)
            chk(ctx, eq(st, n1, const(0)), "length", op, "a finalised array has a length", r)
            chk(ctx, eq(st, c1, const(0)), "capacity", op, "a finalised array has a capacity", r)
        elif op == "resize":
            want = param(ctx, 1)[2]
            chk(ctx, eq(st, c1, want), "capacity", op, "the array does not have the requested capacity", r)
            both = eq(st, n1, n0) and le(st, n0, want) or eq(st, n1, want) and le(st, want, n0)
            if not both and minsym(n1, n0, want): both = True
            chk(ctx, both, "length", op, "the length is not the former one, cut to the new capacity", r)
            if not same(st, b0, b1) or stores_before(evs, region(b0)): kept_range(ctx, r, o, n1 if owned(E, st, o) is True else cut(st, n1), op, "content is lost by resizing")
        elif op == "expand_as_needed":
            want = param(ctx, 1)[2]
            chk(ctx, le(st, want, c1), "capacity", op, "the capacity is smaller than requested", r)
            chk(ctx, eq(st, n0, n1), "length", op, "the length changes by expanding", r)
            chk(ctx, le(st, c0, c1), "capacity", "shrinks", "the capacity shrinks by expanding", r)
            if not same(st, b0, b1) or stores_before(evs, region(b0)): kept_range(ctx, r, o, n1 if owned(E, st, o) is True else cut(st, n1), op, "content is lost by expanding")
        elif op in ("memcpy", "strcpy"):
            src = param(ctx, 1); n = param(ctx, 2)[2] if op == "memcpy" else dom.addc(E.strlen(st, src), 1)
            chk(ctx, eq(st, n1, n), "length", op, "the length is not the number of bytes copied", r)
            if op == "memcpy": copied(ctx, r, o, const(0), src, n, op, "the bytes are not copied completely to the start of the buffer")
            else:
                copied(ctx, r, o, const(0), src, dom.addc(n, -1), op, "the bytes are not copied completely to the start of the buffer")
                zero_at(ctx, r, o, dom.addc(n, -1), op, "the copied text is not terminated")
        elif op in ("strncat", "strcat"):
            src = param(ctx, 1)
            base = const(0) if st.cs.prove_eq0(n0) else dom.addc(n0, -1) if st.cs.prove_le(dom.addc(dom.scale(n0, -1), 1)) else None
            if base is None: ctx.inconclusive("text", op); continue
            n = E.strlen(st, src) if op == "strcat" else taken(ctx, st, src, param(ctx, 2)[2])
            if n is None: ctx.inconclusive("text", op + "-n"); continue
            end = dom.add(base, n)
            if not chk(ctx, eq(st, n1, dom.addc(end, 1)), "length", op, "the length is not that of both texts with the terminator", r): continue
            copied(ctx, r, o, base, src, n, op, "the text is not appended completely behind the existing one")
            zero_at(ctx, r, o, end, op, "the text is not terminated behind what was appended")
            kept_range(ctx, r, o, base, op, "the text already stored is lost")
        elif op == "vsprintf":
            fm = [(k, e) for k, e in enumerate(evs) if e.k == "printf"]
            if not fm: ctx.inconclusive("text", op); continue
            k, e = fm[-1]; fname, buf, n, fmt, literal, args = e.d
            chk(ctx, region(buf) == region(b1) and region(b1) is not None and eq(st, buf[2], b1[2]), "content", op, "the text is formatted into something other than the array's buffer", r, e)
            chk(ctx, same(st, fmt, param(ctx, 1)), "content", "format", "the text is formatted with another format", r, e)
            chk(ctx, args and args[0] == "va" and args[1] == ("param", param(ctx, 2)[1]) , "content", "arguments", "the text is formatted with other arguments", r, e)
            if n is None: chk(ctx, False, "content", "bound", "the text is formatted without a bound", r, e); continue
            chk(ctx, le(st, n1, n), "content", "complete", "the formatted text does not fit into the size given to the formatter", r, e)
            chk(ctx, le(st, n, c1), "content", "bound", "the formatter may write beyond the capacity", r, e)
            L = formatted(args)
            if L is not None: chk(ctx, eq(st, n1, dom.addc(L, 1)), "length", op, "the length is not that of the formatted text with the terminator", r)
            w = last_write(evs, st, region(b1), b1[2], n1, k + 1)
            if w is None: ctx.inconclusive("text", op)
            else: chk(ctx, w, "content", "overwritten", "the formatted text is overwritten", r)
    if ctx.final() and not oks: ctx.report("success", "never", "no path succeeds")
def cut(st, n): return const(0) if st.cs.prove_eq0(n) else dom.addc(n, -1)
def minsym(l, a, b):
    if l[0] or len(l[1]) != 1 or l[1][0][1] != 1: return False
    k = dom.SYMS[l[1][0][0]][0]
    return isinstance(k, tuple) and k[0] in ("min", "umin") and {k[-2], k[-1]} == {a, b}
def taken(ctx, st, src, n):
    """min(n, length of the text)"""
    if st.cs.prove_eq0(n): return const(0)
    for i, (k, lo, hi) in enumerate(dom.SYMS):
        if isinstance(k, tuple) and k[0] == "strnlen" and k[1] == src[1] and k[3] == src[2] and eq(st, k[4], n): return var(i)
    if ctx.E.R[src[1]].info.get("strn") is not None: return None
    L = ctx.E.strlen(st, src)
    if L is not None:
        if le(st, n, L): return n
        if le(st, L, n): return L
    return None
def formatted(args):
    for i, (k, lo, hi) in enumerate(dom.SYMS):
        if isinstance(k, tuple) and k[0] == "fmtlen" and k[2] == args: return var(i)
NAMES = ["rcutils_char_array_" + x for x in ("init", "fini", "resize", "expand_as_needed", "vsprintf", "memcpy", "strcpy", "strncat", "strcat")] + ["rcutils_uint8_array_" + x for x in ("init", "fini", "resize")]
