"""String arrays (C05): slots emptied, released and compared, by covered ranges of slots."""
from . import api, dom, loops, scan, mem, spec
from .api import events
from .dom import const, var
from .values import *
from .ir import Ty
from .interp import NULL
from .os_rules import chk, ev_of
from .containers import Obj, eq, unknowns, invariants, writes
PTR = Ty("p", 8)
SA = "rcutils_string_array_s"

def zero_fill(v): return v == NULL or isinstance(v, tuple) and len(v) == 2 and v[0] == "fill" and v[1][0] == "i" and v[1][2] == const(0)
def lin(n): return n if isinstance(n, tuple) else const(n)
def div(l, n):
    if l[0] % n or any(k % n for _, k in l[1]): return None
    return l[0] // n, tuple((x, k // n) for x, k in l[1])
def ranges(E, st, evs, stride, facts, direct):
    """byte ranges of a block in which a fact was established: facts(state, events of an iteration) yields offsets of
    stride bytes for loops; direct(state, events) yields (offset, length) outside loops.  Second result: loop not understood"""
    R = [(o, dom.add(o, lin(n)), None) for o, n in direct(st, evs)]; unknown = False
    for l in evs:
        if l.k != "loop": continue
        stp = loops.steps(E, l); B = list(loops.backs(E, l)); some = False; touched = False
        F = [[o for o in facts(s, loops.since(E, s, hs0))] for hd, hs0, s, vals in B]
        touched = any(F)
        for it, (d, e) in stp.items():
            good = None
            for (hd, hs0, s, vals), f in zip(B, F):
                h = hd.hv.get(it)
                if h is None: good = set(); break
                g = set()
                for o in f:
                    x = dom.sub(o, dom.scale(h, stride))
                    if not x[1]: g.add(x[0])
                good = g if good is None else good & g
            for x in good or ():
                for hd, hs0, bs in loops.heads(E, l):
                    h = hd.hv.get(it)
                    if h is None: continue
                    some = True
                    a, b = (e, h) if d == 1 else (dom.addc(h, 1), dom.addc(e, 1))
                    R.append((dom.addc(dom.scale(a, stride), x), dom.addc(dom.scale(b, stride), x), l))
        if touched and not some and not all(F) and stp: continue       # some iterations establish nothing: understood
        if touched and not some: unknown = True
        if not stp and B: unknown = True
    return R, unknown
def null_stores(E, rid, zero=True):
    def facts(s, d): return [x.d[1] for x in d if x.k == "store" and x.d[0] == rid and zero_fill(x.d[3]) and lin(x.d[2]) == const(8)]
    def direct(st, evs):
        out = [(x.d[1], x.d[2]) for x in evs if x.k == "store" and x.d[0] == rid and zero_fill(x.d[3])]
        r = E.R[rid]
        if zero and r.kind == "heap" and r.info.get("zero") and r.extent is not None: out.append((const(0), r.extent))
        return out
    return facts, direct
def freed_slots(E, rid):
    """slots whose text was released, or that hold none"""
    def at(s, d):
        fr = {x.d[0] for x in d if x.k == "free"}; out = []
        for x, r in list(E.R.items()):
            if r.kind == "sym" and r.origin and r.origin[0] == rid and (x in fr or E.nullness(s, x) is True): out.append(r.origin[1])
        return out
    def direct(st, evs): return [(o, 8) for o in at(st, evs)]
    return at, direct
def covered(st, R, lo, hi): return scan.covered(st, R, lo, hi)

# ------------------------------------------------------------------ C05
class Pairs:
    """texts at the same position of two arrays; fact: equal"""
    n = None
    def __init__(s, E, a, b): s.E = E; s.a = a; s.b = b; s.p = NULL
    def items(s):
        for i, m in list(dom.META.items()):
            k = m.get("strcmp") if isinstance(m, dict) else None
            if not isinstance(k, tuple) or k[0] != "strcmp": continue
            x, y = s.place(k[1]), s.place(k[2])
            if x and y and x[0] != y[0] and x[1] == y[1]: yield x[1], (i, 1 if x[0] == 0 else -1)
    def place(s, k):
        if k[0] != "mem" or k[2] != const(0): return None
        o = s.E.R[k[1]].origin
        if not o: return None
        for w, p in enumerate((s.a, s.b)):
            if o[0] == p[1]:
                j = div(dom.sub(o[1], p[2]), 8)
                return (w, j) if j is not None else None
        return None
    def other(s, st, i): return st.cs.prove_eq0(var(i[0]))
    def hit(s, st, i): return loops.impossible(st, var(i[0]))
def sign(st, l):
    """-1, 0, 1 or None"""
    if st.cs.prove_eq0(l): return 0
    if st.cs.prove_le(dom.addc(l, 1)): return -1
    if st.cs.prove_le(dom.addc(dom.scale(l, -1), 1)): return 1
    return None
def cmp_(ctx):
    E = ctx.E
    for r in ctx.final():
        st = r.st; evs = events(st); c = ctx.cval(r)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        anynull = any(null(ctx, st, i) for i in range(3))
        if anynull or not all(nonnull(ctx, st, i) for i in range(3)):
            chk(ctx, c != 0, "accepts", "null", "a null argument is accepted", r); continue
        a, b = Obj(ctx, r, 0, SA), Obj(ctx, r, 1, SA); n, m = a.i0("size"), b.i0("size")
        X = Pairs(E, a.q0("data"), b.q0("data")); R, sc, unknown = scan.ranges(E, X, st, evs)
        if c != 0:
            if any(fact(ctx, st, x.q0("data")) is True for x in (a, b)): ctx.ob(True); continue
            ok = any(x.kind == "sym" and x.origin and x.origin[0] in (X.a[1], X.b[1]) and E.nullness(st, i) is True for i, x in E.R.items())
            if not ok and unknown: ctx.inconclusive("cmp", "rejects"); continue
            chk(ctx, ok, "rejects", "valid", "arrays without empty slots are not compared", r); continue
        got = final(ctx, st, param(ctx, 2))
        if got is None: ctx.inconclusive("cmp", "result"); continue
        s = sign(st, got)
        diff = [(ix, i, sg) for ix, (i, sg) in X.items() if X.hit(st, (i, sg)) and covered(st, R, const(0), ix)]
        if diff:
            ix, i, sg = diff[0]
            sv = sign(st, dom.scale(var(i), sg))
            ok = eq(st, got, dom.scale(var(i), sg)) or sv is not None and sv != 0 and s == sv
            if not ok and s is None and unknown: ctx.inconclusive("cmp", "sign"); continue
            chk(ctx, ok, "result", "pair", "the result does not have the sign of the first unequal pair", r)
            chk(ctx, all(st.cs.prove_le(dom.addc(dom.sub(ix, x), 1)) for x in (n, m)), "range", "pair", "a slot beyond the end of an array is compared", r)
            continue
        ok = covered(st, R, const(0), n) or covered(st, R, const(0), m)
        if not ok and unknown: ctx.inconclusive("cmp", "pairs"); continue
        if not chk(ctx, ok, "pairs", "equal", "a result is given although not every common pair was found equal and no first difference decides", r): continue
        d = dom.sub(n, m)
        ok = s == 0 and st.cs.prove_eq0(d) or s == -1 and st.cs.prove_le(dom.addc(d, 1)) or s == 1 and st.cs.prove_le(dom.addc(dom.scale(d, -1), 1))
        chk(ctx, bool(ok), "result", "sizes", "with all common pairs equal the result does not follow from the sizes", r)
def final(ctx, st, p):
    v = ctx.E.load(st, p[1], p[2], Ty("i", 4, 32))[0][1]
    return v[2] if v and v[0] == "i" else None

def order(ctx):
    """comparison of two slots for sorting: empty ones last"""
    E = ctx.E
    for r in ctx.final():
        st = r.st; a, b = (E.initial(st, param(ctx, i)[1], const(0), PTR) for i in range(2)); got = ctx.ret_int(r)
        na, nb = fact(ctx, st, a), fact(ctx, st, b)
        if got is None: ctx.inconclusive("order", "result"); continue
        s = sign(st, got)
        if na is True and nb is True: ok = s == 0; m = "two empty slots do not compare equal"
        elif na is True and nb is False: ok = s == 1; m = "an empty slot does not compare greater than a text"
        elif na is False and nb is True: ok = s == -1; m = "a text does not compare less than an empty slot"
        elif na is False and nb is False:
            ok = False; m = "two texts are not compared by their content"
            if s == 0 and same(st, a, b): ok = True
            for i, x in list(dom.META.items()):
                k = x.get("strcmp") if isinstance(x, dict) else None
                if not isinstance(k, tuple) or k[0] != "strcmp": continue
                def me(q, p): return q[0] == "mem" and q[1] == p[1]
                for sg, (p, q) in ((1, (a, b)), (-1, (b, a))):
                    if me(k[1], p) and me(k[2], q) and (eq(st, got, dom.scale(var(i), sg)) or s is not None and sign(st, dom.scale(var(i), sg)) == s): ok = True
        else:
            ok = s == 0 and (na is not False and nb is not False) and same(st, a, b)
            m = "the result does not depend on whether both slots are empty"
        chk(ctx, bool(ok), "order", "%s-%s" % (na, nb), m, r)

def init(ctx):
    E = ctx.E; oks = 0
    for r in ctx.final():
        st = r.st; c = ctx.cval(r)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        invariants(ctx, r)
        if c != 0: continue
        oks += 1; o = Obj(ctx, r, 0, SA); want = param(ctx, 1)[2]; d = o.q1("data")
        chk(ctx, eq(st, o.i1("size"), want), "size", "init", "a new array does not have the requested number of slots", r)
        if st.cs.prove_eq0(want): continue
        if d[0] != "p" or not d[1]: chk(ctx, False, "storage", "init", "a new array has no storage", r); continue
        f, g = null_stores(E, d[1]); R, unknown = ranges(E, st, events(st), 8, f, g)
        ok = covered(st, R, const(0), dom.scale(want, 8))
        if not ok and unknown: ctx.inconclusive("slots", "init"); continue
        chk(ctx, ok, "slots", "init", "a slot of a new array is not empty", r)
    if not oks: ctx.report("success", "never", "no path succeeds")

def resize(ctx):
    E = ctx.E; oks = 0
    for r in ctx.final():
        st = r.st; c = ctx.cval(r); evs = events(st)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        invariants(ctx, r)
        if null(ctx, st, 0): chk(ctx, c != 0, "accepts", "null", "a null array is accepted", r); continue
        o = Obj(ctx, r, 0, SA); n0, want = o.i0("size"), param(ctx, 1)[2]; d0, d1 = o.q0("data"), o.q1("data")
        if c != 0:
            chk(ctx, eq(st, o.i1("size"), n0) and same(st, d0, d1), "changed", "on-failure", "the array changes although resizing fails", r)
            f, g = null_stores(E, d0[1]); out = [x for x in every(E, evs) if x.k == "store" and x.d[0] == d0[1]] if d0[1] else []
            chk(ctx, not out, "slots", "on-failure", "slots are written although resizing fails", r, out[0] if out else None)
            fr = [x for x in every(E, evs) if x.k == "free" and E.R[x.d[0]].origin and E.R[x.d[0]].origin[0] == d0[1]] if d0[1] else []
            chk(ctx, not fr, "texts", "on-failure", "texts are released although resizing fails", r, fr[0] if fr else None)
            for e in stashed(evs, d0, (None, 0)):      # slots set aside may only be dropped
                sb = e.d[0][1]
                q = None
                for k, t in enumerate(evs):
                    if any(x.k == "free" and E.R[x.d[0]].origin and E.R[x.d[0]].origin[0] == sb for x in every(E, [t])): q = k; break
                if q is None: continue
                f, g = null_stores(E, sb, False); R, unknown = ranges(E, st, evs[:q], 8, f, g)
                ok = covered(st, R, e.d[0][2], dom.add(e.d[0][2], e.d[2]))
                if not ok and unknown: ctx.inconclusive("texts", "stash"); continue
                chk(ctx, ok, "texts", "stash", "texts still in the array are released although resizing fails", r)
            from .api import bad_allocator
            toobig = not st.cs.copy().assume_le(dom.addc(dom.scale(want, 8), 1 - (1 << 64)))
            chk(ctx, bool(st.flags.get("allocfail")) or toobig or bad_allocator(ctx, st), "rejects", "valid", "a valid request is rejected", r)
            continue
        oks += 1
        if not chk(ctx, eq(st, o.i1("size"), want), "size", "resize", "the array does not have the requested number of slots afterwards", r): continue
        if eq(st, want, n0):
            chk(ctx, same(st, d0, d1), "storage", "same", "the storage changes although the size does not", r); continue
        grow = st.cs.prove_le(dom.addc(dom.sub(n0, want), 1)); shrink = st.cs.prove_le(dom.addc(dom.sub(want, n0), 1))
        if not grow and not shrink: ctx.inconclusive("resize", "direction"); continue
        keep = n0 if grow else want
        # what stays
        if d1 != d0 and not st.cs.prove_eq0(keep) and E.nullness(st, d0[1]) is not True:
            ok = any(e.k == "realloc" and e.d[0] == d0[1] and e.d[1] == d1[1] for e in evs) or \
                any(e.k == "memcpy" and e.d[0][0] == "p" and e.d[0][1] == d1[1] and eq(st, e.d[0][2], const(0)) and e.d[1][1] == d0[1] and eq(st, e.d[1][2], const(0)) and st.cs.prove_le(dom.sub(dom.scale(keep, 8), e.d[2])) for e in evs)
            if not ok and any(e.k == "loop" for e in evs): ctx.inconclusive("slots", "moved")
            else: chk(ctx, ok, "slots", "lost", "the kept texts are not carried over to the new storage", r)
        if d1[0] == "p" and d1[1]:
            for s, x in every_at(E, st, evs):
                if x.k != "store" or x.d[0] != d1[1]: continue
                if any(m.k == "memcpy" and m.d[0][0] == "p" and m.d[0][1] == d1[1] and m.d[0][2] == x.d[1] for m in evs): continue
                ok = s.cs.prove_le(dom.sub(dom.scale(n0, 8), x.d[1])) and s.cs.prove_le(dom.sub(dom.add(x.d[1], lin(x.d[2])), dom.scale(want, 8)))
                chk(ctx, ok, "slots", "overwritten", "a slot is written that is not new", r, x)
        if grow:
            f, g = null_stores(E, d1[1]); R, unknown = ranges(E, st, evs, 8, f, g)
            ok = covered(st, R, dom.scale(n0, 8), dom.scale(want, 8))
            if not ok and unknown: ctx.inconclusive("slots", "new"); continue
            chk(ctx, ok, "slots", "new", "a new slot is not empty", r)
        else:
            R = []; unknown = False
            blocks = [(d0[1], const(0), None)] + [(e.d[0][1], dom.sub(e.d[1][2], e.d[0][2]), dom.add(e.d[1][2], e.d[2])) for e in stashed(evs, d0, d1)]
            if d1[1]: blocks.append((d1[1], const(0), None))
            for rid, sh, end in blocks:
                f, g = freed_slots(E, rid); q, u = ranges(E, st, evs, 8, f, g); unknown = unknown or u
                for a, b, l in q:
                    a = dom.add(a, sh); b = dom.add(b, sh)
                    if end is not None and not st.cs.prove_le(dom.sub(b, end)):
                        if not st.cs.prove_le(dom.sub(end, b)): continue
                        b = end
                    R.append((a, b, l))
            ok = covered(st, R, dom.scale(want, 8), dom.scale(n0, 8))
            if not ok and unknown: ctx.inconclusive("texts", "removed"); continue
            chk(ctx, ok, "texts", "removed", "the text of a removed slot is not released", r)
    if not oks: ctx.report("success", "never", "no path succeeds")
def stashed(evs, d0, d1): return [e for e in evs if e.k == "memcpy" and e.d[0][0] == "p" and e.d[1][0] == "p" and d0[1] and e.d[1][1] == d0[1] and e.d[0][1] not in (d0[1], d1[1])]
def every_at(E, st, evs, depth=4):
    for x in evs:
        yield st, x
        if x.k == "loop" and depth:
            for hd, hs0, s, vals in loops.backs(E, x): yield from every_at(E, s, loops.since(E, s, hs0), depth - 1)
def every(E, evs): return [x for s, x in every_at(E, None, evs)]
def fini(ctx):
    for r in ctx.final():
        c = ctx.cval(r); st = r.st
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if null(ctx, st, 0): chk(ctx, c != 0, "accepts", "null", "a null array is accepted", r); continue
        o = Obj(ctx, r, 0, SA)
        if c != 0: chk(ctx, same(st, o.q0("data"), o.q1("data")) and eq(st, o.i0("size"), o.i1("size")), "changed", "on-failure", "the array changes although finalising fails", r); continue
        d = o.q1("data")
        chk(ctx, d == NULL or fact(ctx, st, d) is True, "storage", "fini", "a finalised array still refers to storage", r)
        if fact(ctx, st, o.q0("data")) is False: chk(ctx, eq(st, o.i1("size"), const(0)), "size", "fini", "a finalised array is not empty", r)
OPS = {"rcutils_string_array_init": init, "rcutils_string_array_fini": fini, "rcutils_string_array_cmp": cmp_, "rcutils_string_array_resize": resize, "rcutils_string_array_sort_compare": order}
def c05(ctx): OPS[ctx.name](ctx)
