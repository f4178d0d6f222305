"""Initialise / finalise protocol (C07) on path summaries."""
from . import api, dom, loops, spec
from .api import events
from .dom import const, var
from .values import *
from .ir import Ty
from .interp import NULL
from .os_rules import chk, ev_of
from .containers import eq
from .arrays import every, every_at
PTR = Ty("p", 8)
# what says that an object holds something: (struct, deciding pointer, further fields that go back to zero)
OBJ = {
    "array_list": ("rcutils_array_list_s", "impl", ()), "hash_map": ("rcutils_hash_map_s", "impl", ()), "string_map": ("rcutils_string_map_s", "impl", ()),
    "string_array": ("rcutils_string_array_s", "data", ("size",)), "char_array": ("rcutils_char_array_s", "buffer", ("buffer_length", "buffer_capacity")),
    "uint8_array": ("rcutils_uint8_array_s", "buffer", ("buffer_length", "buffer_capacity")), "shared_library": ("rcutils_shared_library_s", "lib_pointer", ("library_path",)),
}
EMPTY = {"array_list": (13,), "hash_map": (13,), "string_map": (0,), "string_array": (0,), "char_array": (0,), "uint8_array": (0,), "shared_library": (11,)}
REFUSES = {"array_list": (11,), "hash_map": (30,), "string_map": (30,), "shared_library": (11,)}
CREATE = {"rcutils_%s_init" % k: k for k in OBJ if k != "shared_library"}; CREATE["rcutils_load_shared_library"] = "shared_library"
DESTROY = {"rcutils_%s_fini" % k: k for k in OBJ if k != "shared_library"}; DESTROY["rcutils_unload_shared_library"] = "shared_library"
LOGF, LOGM, LOGV = "g_rcutils_logging_initialized", "g_rcutils_logging_severities_map", "g_rcutils_logging_severities_map_valid"

def offs(E, sn): return {f: v[0] for f, v in E.layout(sn).items()}
def zero(E, st, rid, off, n):
    """is every byte provably zero: True/False, None when unknown"""
    for k in range(0, n, 8):
        if n - k >= 8 and E.load_quiet(st, rid, dom.addc(off, k)) == NULL: continue
        for b in range(k, min(k + 8, n)):
            v = E.load(st, rid, dom.addc(off, b), Ty("i", 1, 8))[0][1]
            if v[0] == "p" and v == NULL or v[0] == "i" and st.cs.prove_eq0(v[2]) or v == ("b", False): continue
            return False
    return True
def empty(ctx): 
    """the functions that hand out zero-initialised objects"""
    E = ctx.E
    for r in ctx.final():
        st = r.st; v = r.ret; ps = list(E.args.values())
        if v is not None and v[0] == "p": chk(ctx, v == NULL or fact(ctx, st, v) is True, "zero", "returned", "a zero-initialised object is not all zero", r); continue
        if v is not None and v[0] == "agg":
            ok = all(x == NULL or x[0] == "i" and st.cs.prove_eq0(x[2]) for x in v[1]); chk(ctx, ok, "zero", "returned", "a zero-initialised object is not all zero", r); continue
        p = ps[0] if ps and ps[0][0] == "p" else None
        if p is None: 
            if v is not None and v[0] == "i": chk(ctx, st.cs.prove_eq0(v[2]), "zero", "returned", "a zero-initialised object is not all zero", r)
            else: ctx.inconclusive("zero", "returned")
            continue
        size = E.D.size(E.R[p[1]].ty)
        chk(ctx, zero(E, st, p[1], p[2], size), "zero", "returned", "a zero-initialised object is not all zero", r)
def key(ctx, r, k, at1):
    E = ctx.E; sn, f, more = OBJ[k]; p = param(ctx, 0); o = dom.addc(p[2], offs(E, sn)[f])
    return E.load_quiet(r.st, p[1], o) if at1 else E.initial(r.st, p[1], o, PTR)
def touched(ctx, r, also=()):
    """stores into the object handed in, or into what it refers to"""
    E = ctx.E; p = param(ctx, 0); ids = {p[1]} | set(also)
    return [e for e in every(E, events(r.st)) if e.k == "store" and (e.d[0] in ids or E.R[e.d[0]].origin and E.R[e.d[0]].origin[0] in ids)]
def create(ctx):
    E = ctx.E; k = CREATE[ctx.name]; sn, f, more = OBJ[k]; refused = 0; oks = 0
    for r in ctx.final():
        st = r.st; c = ctx.cval(r)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if null(ctx, st, 0): chk(ctx, c != 0, "accepts", "null", "a null object is accepted", r); continue
        b, a = key(ctx, r, k, False), key(ctx, r, k, True); was = fact(ctx, st, b)
        if k in REFUSES:
            if c == 0: oks += 1; chk(ctx, was is True, "accepts", "initialised", "an object is initialised without having been found uninitialised", r)
            if was is False:
                refused += 1
                if any(null(ctx, st, i) for i in range(1, len(E.args)) if param(ctx, i)[0] == "p"): chk(ctx, c != 0, "accepts", "initialised", "an initialised object is initialised again", r)
                else: chk(ctx, c in REFUSES[k] or c == 11 or c == 2, "accepts", "initialised", "an initialised object is initialised again, or refused with another status (%s)" % c, r)
                t = touched(ctx, r, {b[1]} - {0})
                chk(ctx, not t, "touches", "initialised", "an initialised object is modified although initialising it again is refused", r, t[0] if t else None)
        if c != 0:
            ok = same(st, a, b) or a == NULL or fact(ctx, st, a) is True
            chk(ctx, ok, "leftover", "failed", "after failing to initialise, the object still refers to something", r)
        else:
            ok = k not in REFUSES or fact(ctx, st, a) is False
            chk(ctx, ok, "object", "missing", "an initialised object does not refer to its data", r)
    if k in REFUSES and not refused and ctx.final(): chk(ctx, False, "accepts", "unchecked", "whether the object is initialised already is never found out", ctx.final()[0])
def destroy(ctx):
    E = ctx.E; k = DESTROY[ctx.name]; sn, f, more = OBJ[k]; gone = 0
    for r in ctx.final():
        st = r.st; c = ctx.cval(r); evs = events(st)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if null(ctx, st, 0): chk(ctx, c != 0, "accepts", "null", "a null object is accepted", r); continue
        b, a = key(ctx, r, k, False), key(ctx, r, k, True); was = fact(ctx, st, b); p = param(ctx, 0)
        done = c == 0 or any(e.k == "close" for e in evs)
        if was is True:
            gone += 1
            bad = k in ("char_array", "uint8_array", "shared_library") and api.bad_allocator(ctx, st)
            chk(ctx, c in EMPTY[k] or bad and c in (11, 2), "again", "status", "finalising an empty object returns %s" % c, r)
            fr = [e for e in every(E, evs) if e.k == "free" and e.d[0] and E.nullness(st, e.d[0]) is not True]
            chk(ctx, not fr, "again", "releases", "finalising an empty object releases something", r, fr[0] if fr else None)
            chk(ctx, a == NULL or same(st, a, b) or fact(ctx, st, a) is True, "again", "leftover", "finalising an empty object makes it refer to something", r)
            continue
        if c == 0 or k == "shared_library" and c == 2:
            chk(ctx, a == NULL or fact(ctx, st, a) is True, "leftover", f, "a finalised object still refers to its data, so that it cannot be initialised again", r)
            for g in more:
                o = dom.addc(p[2], offs(E, sn)[g])
                chk(ctx, zero(E, st, p[1], o, 8), "leftover", g, "%s of a finalised object is not back to zero" % g, r)
        elif not any(e.k in ("free", "realloc") for e in every(E, evs)):
            chk(ctx, same(st, a, b), "lost", f, "the object forgets its data although finalising fails", r)
    if not gone and ctx.final() and k not in ("char_array", "uint8_array"): ctx.inconclusive("again", "no path")
def gint(E, st, g, w=8):
    v = E.load(st, E.global_region(g), const(0), Ty("i", w // 8, w))[0][1]
    return v[2] if v[0] == "i" else const(int(v[1])) if v[0] == "b" else None
def gini(E, st, g):
    v = E.initial(st, E.global_region(g), const(0), Ty("i", 1, 8))
    return v[2] if v[0] == "i" else None
def yes(st, l): return loops.impossible(st, l)
def logging(ctx):
    E = ctx.E; up = "initialize" in ctx.name; seen = set()
    for g in (LOGF, LOGM):
        if g not in E.M.globals: ctx.inconclusive("globals", g); return
    for r in ctx.final():
        st = r.st; c = ctx.cval(r); evs = events(st)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        i0, i1 = gini(E, st, LOGF), gint(E, st, LOGF)
        m1 = E.load_quiet(st, E.global_region(LOGM), const(0)); m0 = E.initial(st, E.global_region(LOGM), const(0), PTR)
        if i0 is None or i1 is None: ctx.inconclusive("flag", "value"); continue
        on, off = yes(st, i0), st.cs.prove_eq0(i0)
        if not on and not off:
            chk(ctx, False, "flag", "unchecked", "whether the logging system is initialised is never found out", r); continue
        if on == up:      # nothing to do
            seen.add("again")
            chk(ctx, c == 0, "again", "status", "%s again returns %s" % ("initialising" if up else "shutting down", c), r)
            w = [e for e in every(E, evs) if e.k == "store" and E.R[e.d[0]].kind == "global"] + [e for e in every(E, evs) if e.k in ("alloc", "free", "setvbuf")]
            chk(ctx, not w and eq(st, i0, i1), "again", "effect", "%s again changes the logging system" % ("initialising" if up else "shutting down"), r, w[0] if w else None)
            continue
        if up:
            if c == 0:
                seen.add("ok")
                chk(ctx, yes(st, i1), "flag", "up", "the logging system is initialised but not marked so", r)
                chk(ctx, fact(ctx, st, m1) is False, "map", "up", "the logging system is initialised without a map for severities", r)
            else:
                chk(ctx, st.cs.prove_eq0(i1), "flag", "failed", "the logging system is marked as initialised although that failed", r)
                chk(ctx, m1 == NULL or fact(ctx, st, m1) is True or same(st, m0, m1), "map", "failed", "a map for severities is left behind although initialising failed", r)
        else:
            chk(ctx, st.cs.prove_eq0(i1), "flag", "down", "the logging system is still marked as initialised after shutdown", r)
            if c == 0:
                if LOGV not in E.M.globals or not st.cs.prove_eq0(gini(E, st, LOGV)): seen.add("ok")
                ok = m1 == NULL or fact(ctx, st, m1) is True
                if not ok and LOGV in E.M.globals and st.cs.prove_eq0(gini(E, st, LOGV)): ok = same(st, m0, m1)
                chk(ctx, ok, "map", "down", "the map for severities is left behind by shutdown", r)
    for x in ("again", "ok"):
        if x not in seen: ctx.report(x, "never", "no path of this kind exists: %s" % x)
LOGS = {"rcutils_logging_initialize_with_allocator": logging, "rcutils_logging_shutdown": logging}
def c07(ctx):
    n = ctx.name
    if n in CREATE: create(ctx)
    elif n in DESTROY: destroy(ctx)
    elif n in LOGS: logging(ctx)
    else: empty(ctx)
