"""String copies and formatted strings (S02): what is copied, how much of it, and what the formatting wrappers pass on and report."""
from . import api, dom, models, loops
from .api import events
from .dom import const, var
from .values import *
from .ir import Ty
from .os_rules import chk
EINVAL = 22
def le(st, a, b): return st.cs.prove_le(dom.sub(a, b))
def eq(st, a, b): return st.cs.prove_eq0(dom.sub(a, b))
OPAQUE = ("loop", "join", "phi", "and", "or", "shl", "lshr", "udiv", "mem", "blend", "hull")
def known(st, l, depth=0):
    """every symbol of the value is one whose meaning the analysis knows (not the counter of a loop, a value read from memory or the result of bit operations)"""
    for s, _ in l[1]:
        k = dom.SYMS[s][0]
        if not isinstance(k, tuple): continue
        if k[0] == "trunc":
            if depth > 3 or not all(known(st, x, depth + 1) for x in lins(k[1:], [])): return False
        elif k[0] in OPAQUE: return False
    return True
LENGTH = ("strlen", "strlenb", "slen")
def failure(ctx, r, extra=()):
    """a documented reason for returning nothing"""
    st = r.st
    return st.flags.get("allocfail") or api.bad_allocator(ctx, st) or any(e.k in ("allocfail", "fmtfail") + extra for e in events(st))
def fresh(ctx, r, what):
    """the returned block was allocated on this path by the caller's allocator and not given back; its region and event index"""
    E = ctx.E; st = r.st; evs = events(st); p = r.ret
    if p[0] != "p": ctx.inconclusive("result", what); return None
    a = [k for k, e in enumerate(evs) if e.k == "alloc" and e.d[0] == p[1] or e.k == "realloc" and e.d[1] == p[1]]
    if not a:
        if E.R[p[1]].kind in ("join", "sym", "ext") and looped(evs): ctx.inconclusive("result", what); return None
        chk(ctx, False, "fresh", what, "the returned string is not newly allocated", r); return None
    gone = [e for e in evs if e.k == "free" and e.d[0] == p[1] or e.k == "realloc" and e.d[0] == p[1]]
    chk(ctx, not gone, "fresh", what, "the returned string has been given back to the allocator", r)
    chk(ctx, st.cs.prove_eq0(p[2]), "fresh", "offset", "the result does not point to the start of the allocated block", r)
    return p[1]
def looped(evs): return any(e.k in ("loop", "join") for e in evs)
def size_of(evs, rid):
    for e in reversed(evs):
        if e.k == "alloc" and e.d[0] == rid: return e.d[1]
        if e.k == "realloc" and e.d[1] == rid: return e.d[2]
def terminator(ctx, r, rid, at, what, rng=None):
    """the byte at `at` of the block is zero at return, and the last write before it (rng: texts written by formatting)"""
    E = ctx.E; st = r.st; evs = events(st); maybe = False
    for e in reversed(evs):
        if e.k == "loop": maybe = True
        if e.k == "store" and e.d[0] == rid:
            a, n, v = e.d[1], lin(e.d[2]), e.d[3]
            if le(st, dom.addc(at, 1), a) or le(st, dom.add(a, n), at): continue
            z = eq(st, a, at) and v[0] == "i" and st.cs.prove_eq0(v[2]) or v[0] == "fill" and v[1][0] == "i" and v[1][2] == const(0) and le(st, a, at) and le(st, dom.addc(at, 1), dom.add(a, n))
            if not z and v[0] == "copyof": z = terminated_copy(ctx, st, v[1], dom.sub(at, a))
            if not z and v[0] == "fmt":
                # the terminator that the formatting function wrote itself: within its size, at the length or at the cut
                z = any(eq(st, dom.addc(at, 1 - a[0]), x) for x in (n,)) and eq(st, a, const(0)) or any(eq(st, dom.sub(at, a), x) for x in lengths(evs))
            if not z and maybe: ctx.inconclusive("terminator", what); return
            chk(ctx, z, "terminator", what, "the copy does not end in a null character", r, e); return
    al = [e for e in evs if e.k == "aop" and e.d[0] in ("zero_allocate",)]
    if al: ctx.ob(True); return
    if maybe: ctx.inconclusive("terminator", what); return
    chk(ctx, False, "terminator", what, "the copy does not end in a null character", r)
def lin(x): return const(x) if isinstance(x, int) else x
def lengths(evs): return [e.d[4] for e in evs if e.k == "found"]
def terminated_copy(ctx, st, p, k):
    """is the byte k of the source text its terminator"""
    for e in events(st):
        if e.k == "found" and e.d[0] == p and e.d[2][0] == "i" and st.cs.prove_eq0(e.d[2][2]) and eq(st, e.d[4], k): return True
    l = strlen_of(ctx, st, p)
    return l is not None and eq(st, l, k)
def strlen_of(ctx, st, p):
    for i, (key, lo, hi) in enumerate(dom.SYMS):
        if isinstance(key, tuple) and key[0] in LENGTH and key[1] == p[1]:
            if key[0] == "slen" and p[2] == const(0) or p[2] in key[2:]: return var(i)
    return None

def extent(ctx, r, src, limit, L):
    """True / False / None: the first L bytes of src are its text, up to the limit (a linear value)"""
    E = ctx.E; st = r.st; evs = events(st)
    for e in evs:
        if e.k in ("found", "notfound") and e.d[0][1] == src[1] and eq(st, e.d[0][2], src[2]) and e.d[2][0] == "i" and st.cs.prove_eq0(e.d[2][2]) and not e.d[3]:
            if e.k == "found" and eq(st, e.d[4], L) and le(st, L, limit): return True
            if e.k == "notfound" and eq(st, e.d[1], limit) and eq(st, L, limit): return True
            if e.k == "found" and le(st, limit, e.d[4]) and eq(st, L, limit): return True
    for s, k in L[1]:
        key = dom.SYMS[s][0]
        if isinstance(key, tuple) and key[0] in LENGTH and key[1] == src[1] and eq(st, L, var(s)) and le(st, L, limit): return True
        if isinstance(key, tuple) and key[0] == "strnlen" and key[1] == src[1] and eq(st, L, var(s)):
            b = key[4] if len(key) > 4 else None
            return True if b is not None and (eq(st, lin(b), limit)) else None
    sl = [s for s, (key, lo, hi) in enumerate(dom.SYMS) if isinstance(key, tuple) and key[0] in LENGTH + ("strnlen",) and key[1] == src[1]]
    if any(eq(st, L, limit) and le(st, limit, var(s)) for s in sl): return True
    if any(eq(st, L, var(s)) and le(st, L, limit) for s in sl): return True
    return False if known(st, L) and not looped(evs) else None

def copies(ctx, limit):
    """rcutils_strdup (no limit) and rcutils_strndup"""
    E = ctx.E; oks = 0
    for e, st in E.found:
        if e.k == "oob" and e.d[0] == "load" and e.d[1] == param(ctx, 0)[1] or e.k == "strlen?" and e.d[0] == param(ctx, 0)[1]:
            ctx.report("content", "overread", "the source is read beyond its terminator or the given maximum", e.loc, e.stk)
    for r in ctx.final():
        st = r.st; evs = events(st); src = param(ctx, 0)
        if r.ret[0] != "p": ctx.inconclusive("result", "value"); continue
        lim = param(ctx, limit)[2] if limit is not None else const((1 << 64) - 1)
        if r.ret[1] == 0 or E.nullness(st, r.ret[1]) is True:
            chk(ctx, fact(ctx, st, src) is True or failure(ctx, r) or any(e.k == "wrap" for e in evs) or not st.cs.prove_le(dom.addc(lim, -(1 << 64) + 2)) and limit is not None and impossible_copy(ctx, r, lim),
                "refused", "valid", "nothing is returned although the source and the allocator are valid and memory is available", r); continue
        chk(ctx, fact(ctx, st, src) is False, "accepts", "null", "a null source is copied", r)
        rid = fresh(ctx, r, "copy")
        if rid is None: continue
        oks += 1
        size = size_of(evs, rid)
        # the copied range
        L = None; from_ = [e for e in evs if e.k == "memcpy" and e.d[0][0] == "p" and e.d[0][1] == rid]
        if not from_:
            f = [e for e in evs if e.k == "printf" and e.d[1][0] == "p" and e.d[1][1] == rid]
            z = [e for e in evs if e.k == "store" and e.d[0] == rid and e.d[3][0] == "copyof"]
            if z: from_ = z
            elif f or looped(evs): ctx.inconclusive("content", "copy"); continue
        if not from_:
            n = [e for e in evs if e.k in ("found", "notfound")]
            zero = extent(ctx, r, src, lim, const(0))
            if zero is None: ctx.inconclusive("content", "copy"); continue
            chk(ctx, zero, "content", "missing", "nothing is copied from the source", r)
            terminator(ctx, r, rid, const(0), "copy"); continue
        e = from_[-1]
        if e.k == "memcpy": d, s, L = e.d[0], e.d[1], e.d[2]
        else: d, s, L = ("p", rid, e.d[1]), e.d[3][1], lin(e.d[2])
        if s[0] != "p" or s[1] != src[1]:
            chk(ctx, False, "content", "source", "the copied bytes are not those of the given text", r, e); continue
        chk(ctx, eq(st, s[2], src[2]) and eq(st, d[2], const(0)), "content", "start", "the copy does not start at the beginning of the text", r, e)
        x = extent(ctx, r, src, lim, L)
        if x is False:
            # the terminator may be copied along with the text
            y = extent(ctx, r, src, lim, dom.addc(L, -1))
            if y is not False and terminated_copy(ctx, st, src, dom.addc(L, -1)): x = y; L = dom.addc(L, -1)
        if x is None: ctx.inconclusive("content", "length"); continue
        chk(ctx, x, "content", "length", "the copied length is not that of the text, limited to the requested maximum", r, e)
        if size is not None:
            # "exactly as long as the source" is a statement about the text; the block must hold it and its terminator
            chk(ctx, le(st, dom.addc(L, 1), size), "content", "size", "the block is too small for the text and its terminator", r)
        terminator(ctx, r, rid, L, "copy")
    return oks
def impossible_copy(ctx, r, lim):
    """refusing a limit of SIZE_MAX whose terminator is not found (its size cannot be represented)"""
    return any(e.k == "notfound" for e in events(r.st))

def formatted(ctx):
    E = ctx.E; oks = 0
    lim, f = param(ctx, 1)[2], param(ctx, 2)
    for r in ctx.final():
        st = r.st; evs = events(st)
        if r.ret[0] != "p": ctx.inconclusive("result", "value"); continue
        pr = [e for e in evs if e.k == "printf"]
        if r.ret[1] == 0 or E.nullness(st, r.ret[1]) is True:
            chk(ctx, fact(ctx, st, f) is True or st.cs.prove_eq0(lim) or failure(ctx, r), "refused", "valid", "nothing is returned although the arguments are valid, formatting works and memory is available", r); continue
        chk(ctx, fact(ctx, st, f) is False and loops.impossible(st, lim), "accepts", "invalid", "a null format or a limit of zero is accepted", r)
        rid = fresh(ctx, r, "format")
        if rid is None: continue
        oks += 1
        size = size_of(evs, rid)
        if any(e.k == "fmtfail" for e in evs): chk(ctx, False, "failure", "ignored", "a string is returned although formatting failed", r); continue
        w = [e for e in pr if e.d[1][0] == "p" and e.d[1][1] == rid]
        if not w:
            if any(e.k == "memcpy" or e.k == "loop" for e in evs): ctx.inconclusive("content", "formatted"); continue
            chk(ctx, False, "content", "formatted", "nothing is formatted into the result", r); continue
        for e in pr:
            own(ctx, r, e, f)
        e = w[-1]; n = e.d[2]
        mine = [i for i, (key, lo, hi) in enumerate(dom.SYMS) if isinstance(key, tuple) and key[0] == "fmtlen" and key[2] == e.d[5]]
        if not mine: ctx.inconclusive("content", "length"); continue
        l = var(mine[0])
        good = True
        for fits in (True, False):
            cs = st.cs.copy()
            if not cs.assume_le(dom.sub(dom.addc(l, 1), lim) if fits else dom.sub(lim, l)): continue
            good = good and (cs.prove_le(dom.sub(dom.addc(l, 1), n)) if fits else cs.prove_eq0(dom.sub(n, lim)))
        if not good and not known(st, n): ctx.inconclusive("content", "limit"); continue
        chk(ctx, good, "content", "limit", "the formatted string is cut although it fits the limit, or is longer than the limit", r, e)
        chk(ctx, eq(st, e.d[1][2], const(0)), "content", "start", "the text does not start at the beginning of the block", r, e)
        # the string ends where the text ends, or at the cut
        ends = (l, dom.addc(lim, -1))
        clean = True
        k = evs.index(e)
        for x in evs[k + 1:]:
            if x.k == "store" and x.d[0] == rid and x.d[3][0] != "fmt":
                if any(le(st, z, x.d[1]) for z in ends): continue
                if not known(st, x.d[1]): ctx.inconclusive("content", "overwritten"); clean = False; break
                chk(ctx, False, "content", "overwritten", "part of the formatted text is overwritten", r, x); clean = False; break
        if clean: ctx.ob(True)
    return oks
def own(ctx, r, e, f):
    """the call formats with the caller's format and arguments"""
    st = r.st; p, a = e.d[3], e.d[5]
    if p is None or p[0] != "p" or p[1] != f[1] or not eq(st, p[2], f[2]):
        if p is not None and text(ctx, st, p) == b"%s": ctx.inconclusive("arguments", "format"); return
        chk(ctx, False, "arguments", "format", "the format used is not the one given", r, e); return
    if isinstance(a, tuple) and a and a[0] == "va" and isinstance(a[1], tuple):
        if a[1] == ("start", ctx.name, 1) or a[1][0] == "param" and ctx.name.endswith("vsnprintf"): ctx.ob(True); return
        chk(ctx, False, "arguments", "passed", "the arguments used are not the ones given", r, e); return
    ctx.inconclusive("arguments", "passed")

def wrappers(ctx):
    E = ctx.E; oks = 0; v = ctx.name.endswith("vsnprintf")
    b, n, f = param(ctx, 0), param(ctx, 1)[2], param(ctx, 2)
    for r in ctx.final():
        st = r.st; evs = events(st)
        if r.ret is None or r.ret[0] != "i": ctx.inconclusive("result", "value"); continue
        nf, nb = fact(ctx, st, f), fact(ctx, st, b); z = True if st.cs.prove_eq0(n) else False if loops.impossible(st, n) else None
        bad = nf is True or (nb is True and z is False) or (nb is False and z is True)
        ret = r.ret[2]
        pr = [e for e in evs if e.k == "printf" and e.d[0] in ("vsnprintf", "snprintf")]
        if bad:
            chk(ctx, st.cs.prove_le(dom.addc(ret, 1)), "rejected", "result", "an invalid call does not return a negative number", r)
            x = errno_of(ctx, r)
            chk(ctx, x == EINVAL, "rejected", "errno", "an invalid call does not set errno to EINVAL", r)
            continue
        if not pr:
            chk(ctx, False, "accepted", "formatted", "a valid call formats nothing", r); continue
        oks += 1
        e = pr[-1]
        own(ctx, r, e, f)
        chk(ctx, same(st, e.d[1], b) or nb is True and (e.d[1][1] == 0 or fact(ctx, st, e.d[1]) is True), "arguments", "buffer", "the buffer passed on is not the one given", r, e)
        chk(ctx, eq(st, e.d[2], n) or not known(st, e.d[2]) and ctx.inconclusive("arguments", "size") is None, "arguments", "size", "the size passed on is not the one given", r, e)
        if any(x.k == "fmtfail" for x in evs):
            neg = st.cs.prove_le(dom.addc(ret, 1))
            chk(ctx, neg, "result", "failure", "a failure of formatting is not reported by a negative number", r, e); continue
        fl = [i for i, (key, lo, hi) in enumerate(dom.SYMS) if isinstance(key, tuple) and key[0] == "fmtlen" and key[2] == e.d[5]]
        good = any(eq(st, ret, var(i)) for i in fl)
        if not good and not known(st, ret): ctx.inconclusive("result", "length"); continue
        chk(ctx, good, "result", "length", "the full length of the formatted text is not returned", r, e)
        for x in evs[evs.index(e) + 1:]:
            if x.k == "store" and x.d[0] == b[1]:
                v0 = x.d[3]
                if v0[0] == "fmt": continue
                zero = v0[0] == "i" and st.cs.prove_eq0(v0[2])
                at = dom.sub(x.d[1], b[2])
                chk(ctx, zero and any(le(st, var(i), at) or eq(st, dom.addc(at, 1), n) for i in fl), "result", "overwritten", "part of the formatted text is overwritten", r, x)
    return oks
def errno_of(ctx, r):
    """the constant stored last into errno"""
    E = ctx.E; st = r.st; v = None
    for e in events(st):
        if e.k == "store" and E.R[e.d[0]].kind == "ext" and is_errno(E, e.d[0]): v = e.d[3]
    return st.cs.const_of(v[2]) if v is not None and v[0] == "i" else None
def is_errno(E, rid):
    R = E.R[rid]
    return "errno" in str((R.name, R.origin, R.info))

def rule(ctx):
    n = ctx.name
    k = copies(ctx, None) if n == "rcutils_strdup" else copies(ctx, 1) if n == "rcutils_strndup" else formatted(ctx) if "format_string" in n else wrappers(ctx)
    if not k: ctx.inconclusive("nothing", "accepted")
def s02(o):
    from . import driver
    driver.run(o, rule, ["rcutils_strdup", "rcutils_strndup", "rcutils_format_string_limit", "rcutils_snprintf", "rcutils_vsnprintf"], {"merge": False})
