"""C04: string map operations against their specification, on path summaries and per-iteration loop facts."""
from . import dom, models, loops
from .api import events
from .dom import const, var
from .values import *
from .ir import Ty
from .interp import NULL
from .os_rules import chk, ev_of
from .containers import Obj, eq, writes, looped, invariants, origin, copied_to, unknowns, PTR

SM = "rcutils_string_map_s"; SMI = "rcutils_string_map_impl_s"; KVP = "key_value_pair"
def div16(lin):
    if lin[0] % 16 or any(k % 16 for s, k in lin[1]): return None
    return (lin[0] // 16, tuple((s, k // 16) for s, k in lin[1]))
def texts_equal(st, E, S, key, n):
    """what this path established about stored text S and the requested key of n characters: True equal, False different, None nothing"""
    L = E.strlen(st, ("p", S, const(0)))
    ls = eq(st, L, n) if L is not None else False
    def me(i, rid, off=const(0)): return i[0] == "mem" and i[1] == rid and i[2] == off
    for i, m in list(dom.META.items()):
        k = m.get("strcmp") if isinstance(m, dict) else None
        if not isinstance(k, tuple) or k[0] not in ("strcmp", "strncmp", "memcmp"): continue
        if not (me(k[1], S) and me(k[2], key[1], key[2]) or me(k[2], S) and me(k[1], key[1], key[2])): continue
        if st.cs.prove_eq0(var(i)):
            if k[0] == "strcmp": return True
            if ls and eq(st, k[3], n): return True
            if eq(st, k[3], dom.addc(n, 1)) and (ls or E.R[key[1]].info.get("cstr")): return True
        elif loops.impossible(st, var(i)):
            if k[0] == "strcmp" or st.cs.prove_le(dom.sub(k[3], n)) or st.cs.prove_le(dom.addc(dom.sub(k[3], n), -1)) and E.R[key[1]].info.get("cstr"): return False
    if L is not None and loops.impossible(st, dom.sub(L, n)): return False
    if ls and st.cs.prove_eq0(n): return True
    return None

class SMap:
    def __init__(s, ctx, r):
        s.ctx = ctx; s.E = ctx.E; s.r = r; s.st = r.st; s.o = Obj(ctx, r, 0, SM, SMI); s.evs = events(r.st)
        s.ok = s.o.p0[0] == "p" and s.E.nullness(s.st, s.o.p0[1]) is False
        if s.ok: s.pairs = s.o.q0("key_value_pairs"); s.cap = s.o.i0("capacity"); s.size = s.o.i0("size"); s.pairs1 = s.o.q1("key_value_pairs")
    def place(s, rid, f="key"):
        o = origin(s.E, rid)
        if not o or not o[2] or o[2][:2] != (KVP, f) or not s.ok or o[0] not in (s.pairs[1], s.pairs1[1]): return None
        return div16(dom.addc(o[1], 0 if f == "key" else -8))
    def keys(s):
        for rid in list(s.E.R):
            p = s.place(rid)
            if p is not None: yield rid, p
    def slot(s, f, i): return dom.addc(dom.scale(i, 16), 0 if f == "key" else 8)
    def initial(s, f, i): return s.E.initial(s.st, s.pairs[1], s.slot(f, i), PTR)
    def now(s, f, i): return s.E.load_quiet(s.st, s.pairs1[1], s.slot(f, i))
    def match(s, key, n):
        for rid, i in s.keys():
            if s.E.nullness(s.st, rid) is False and texts_equal(s.st, s.E, rid, key, n) is True: return i, rid
        return None
    def carried(s, key, n):
        """a verdict found inside a loop and carried out through its head: True / False / None (cannot say)"""
        E = s.E; res = []
        for e in s.evs:
            if e.k != "loop": continue
            for hd, hs0, b, vals in loops.backs(E, e):
                if loops.goes_on(E, e, vals): continue
                res.append(any(E.nullness(b, rid) is False and texts_equal(b, E, rid, key, n) is True for rid, i in s.keys()))
        return None if res and any(res) and not all(res) else bool(res) and all(res)
    def absent(s, key, n, test=None):
        """no stored key equals the requested one: True, False (definitely unproven), None (not understood)"""
        if s.st.cs.prove_eq0(s.size) or s.st.cs.prove_eq0(s.cap): return True
        test = test or (lambda b, rid: s.E.nullness(b, rid) is True or texts_equal(b, s.E, rid, key, n) is False)
        seen = False
        for e in s.evs:
            if e.k != "loop": continue
            cov = loops.covers(s.E, s.st, e, const(0), s.cap); touched = False; ok = True
            for hd, hs0, b, vals in loops.backs(s.E, e):
                hit = False
                for rid, i in s.keys():
                    here = any(eq(b, i, h) or eq(b, i, dom.addc(h, -1)) for it, h in hd.hv.items() if it in loops.steps(s.E, e))
                    if not here: continue
                    touched = True
                    if test(b, rid): hit = True
                if not hit: ok = False
            if not touched: continue
            seen = True
            if cov and ok: return True
        return False if seen or not looped(s.evs) else None
    def nextnull(s, i):
        """the slot holds no pair at entry"""
        k = s.initial("key", i)
        return k[0] == "p" and (not k[1] or s.E.nullness(s.st, k[1]) is True)
    def frees(s): return {e.d[0] for e in s.evs if e.k == "free"}
    def slotwrites(s):
        """writes into the pairs: (offset, length, event)"""
        return writes(s.evs, s.pairs1[1])

def keylen(ctx, st, key, i):
    return param(ctx, i)[2] if i is not None else ctx.E.strlen(st, key)

LENARG = {"rcutils_string_map_getn": 2, "rcutils_string_map_key_existsn": 2}
def fresh_copy(ctx, st, p, src):
    """p is storage allocated here that holds a complete copy of text src"""
    if p[0] != "p" or ctx.E.R[p[1]].kind != "heap" or p[2] != const(0): return None if p[0] != "p" else False
    L = ctx.E.strlen(st, src)
    for e in events(st):
        if e.k == "memcpy" and e.d[0][0] == "p" and e.d[0][1] == p[1] and e.d[0][2] == const(0) and same(st, e.d[1], src):
            if st.cs.prove_le(dom.sub(L, e.d[2])): 
                L2 = ctx.E.strlen(st, p)
                if L2 is not None and eq(st, L2, L): return True
    a = models.strid(ctx.E, st, p); b = models.strid(ctx.E, st, src)
    if a == b: return True
    L2 = ctx.E.strlen(st, p)
    if st.cs.prove_eq0(L) and st.cs.prove_eq0(L2): return True
    if looped_text(ctx, st, p): return None
    return False
def looped_text(ctx, st, p):
    """the text at p was put together in a loop"""
    return any(e[0] == "hv" for e in ctx.E.log(st, p[1]))

def c04(ctx):
    unk = unknowns(ctx); E = ctx.E; op = ctx.name[len("rcutils_string_map_"):]; oks = 0
    for r in ctx.final():
        st = r.st; c = ctx.cval(r); evs = events(st)
        if op == "copy": oks += c04_copy(ctx, r, c, evs); continue
        if op == "set": oks += c04_set(ctx, r, c, evs); continue
        invariants(ctx, r)
        if op == "fini": oks += c == 0; continue
        m = SMap(ctx, r); o = m.o
        if op == "init":
            if c == 0:
                oks += 1; o1 = m.o
                if o1.p1[0] != "p": ctx.inconclusive("impl", "unknown"); continue
                chk(ctx, eq(st, o1.i1("size"), const(0)), "size", "init", "a new map is not empty", r)
                cap1 = o1.i1("capacity")
                chk(ctx, cap1 is not None and st.cs.prove_le(dom.sub(param(ctx, 1)[2], cap1)), "capacity", "init", "a new map has less capacity than requested", r)
            continue
        bad = null(ctx, st, 0) or not m.ok
        if op in ("getn", "get", "key_exists", "key_existsn", "get_next_key"):
            if op.startswith("key"):
                v = r.ret
                hit = v[1] if v and v[0] == "b" and isinstance(v[1], bool) else None if c is None else bool(c)
            else: hit = fact(ctx, st, r.ret); hit = None if hit is None else not hit
            if hit is None and op.startswith("get") and r.ret[0] == "p": hit = True        # a slot value handed through
            if bad or (op != "get_next_key" and null(ctx, st, 1)):
                chk(ctx, hit is False, "accepts", "invalid", "something is found with an invalid argument", r); continue
            if hit is None: ctx.inconclusive("ret", "unknown"); continue
            key = param(ctx, 1)
            if op == "get_next_key": oks += c04_next(ctx, r, m, key, hit); continue
            n = keylen(ctx, st, key, LENARG.get(ctx.name)); f = m.match(key, n)
            if hit:
                oks += 1
                if f is None:
                    v = m.carried(key, n)
                    if v is None or v and op.startswith("get"): ctx.inconclusive("match", "carried"); continue
                    chk(ctx, v, "match", "unproven", "a key counts as found although not the whole text was found equal", r); continue
                if op.startswith("get"):
                    chk(ctx, same(st, r.ret, m.initial("value", f[0])), "value", "other", "the value returned is not the one stored for the key found", r)
            else:
                a = m.absent(key, n) if f is None else False
                if a is None: ctx.inconclusive("absent", "not-understood")
                else: chk(ctx, a, "absent", "unproven", "the key is reported missing although an equal one may be stored", r)
            continue
        if bad:
            chk(ctx, c != 0, "accepts", "invalid", "an uninitialised map is accepted", r); continue
        if op in ("get_size", "get_capacity"):
            if c == 0:
                got = E.load(st, param(ctx, 1)[1], param(ctx, 1)[2], Ty("i", 8, 64))[0][1]; oks += 1
                chk(ctx, got[0] == "i" and eq(st, got[2], o.i0(op[4:])), "reported", op, "the reported %s is not the map's" % op[4:], r)
            else: chk(ctx, null(ctx, st, 1), "rejects", "valid", "a valid request is rejected", r)
            continue
        size1 = o.i1("size"); cap1 = o.i1("capacity"); fr = m.frees()
        if op in ("unset", "set_no_resize"):
            key = param(ctx, 1)
            if null(ctx, st, 1) or (op == "set_no_resize" and null(ctx, st, 2)):
                chk(ctx, c != 0, "accepts", "null", "a null argument is accepted", r); continue
            n = keylen(ctx, st, key, None); f = m.match(key, n)
            chk(ctx, eq(st, cap1, m.cap) and m.pairs1 == m.pairs, "capacity", "changed", "the capacity changes", r)
        if op == "unset":
            if c == 0:
                oks += 1
                if f is None and m.carried(key, n) is not False: ctx.inconclusive("match", "carried"); continue
                if not chk(ctx, f is not None, "match", "unproven", "a pair is removed although not the whole key was found equal", r): continue
                chk(ctx, eq(st, size1, dom.addc(m.size, -1)), "size", "removal", "removing a pair does not subtract exactly one", r)
                for x in ("key", "value"):
                    v = m.initial(x, f[0]); w = m.now(x, f[0])
                    chk(ctx, v[0] == "p" and (v[1] in fr), "freed", x, "the %s of the removed pair is not released" % x, r)
                    chk(ctx, w == NULL or fact(ctx, st, w) is True, "slot", x, "the slot of the removed pair still holds a %s" % x, r)
                for off, ln, e in m.slotwrites():
                    chk(ctx, any(eq(st, off, m.slot(x, f[0])) for x in ("key", "value")), "writes", "elsewhere", "removing a pair changes another one", r, e)
            elif c == 32:
                a = m.absent(key, n) if f is None else False
                if a is None: ctx.inconclusive("absent", "not-understood")
                else: chk(ctx, a, "absent", "unproven", "the key is reported missing although an equal one may be stored", r)
                chk(ctx, eq(st, size1, m.size) and not fr and not m.slotwrites(), "changed", "on-failure", "a failed removal changes the map", r)
            else: chk(ctx, bool(st.flags.get("allocfail")) or bad_alloc(ctx, st), "rejects", "valid", "a valid request is rejected", r)
        elif op == "set_no_resize":
            val = param(ctx, 2)
            if c == 0:
                oks += 1
                if f is not None:
                    i = f[0]; chk(ctx, eq(st, size1, m.size), "size", "replace", "replacing a value changes the number of pairs", r)
                    v0 = m.initial("value", i)
                    if v0[0] == "p" and v0[1] and E.nullness(st, v0[1]) is not True: chk(ctx, v0[1] in fr, "freed", "old-value", "the replaced value is not released", r)
                    k = m.now("key", i); chk(ctx, same(st, k, m.initial("key", i)), "key", "replaced", "setting an existing key changes the stored key", r)
                else:
                    if m.carried(key, n) is not False: ctx.inconclusive("match", "carried"); continue
                    a = m.absent(key, n)
                    if a is None: ctx.inconclusive("absent", "not-understood")
                    else: chk(ctx, a, "absent", "unproven", "a second pair is stored for a key that may exist", r)
                    chk(ctx, eq(st, size1, dom.addc(m.size, 1)), "size", "new", "storing a new pair does not add exactly one", r)
                    i = None
                    for off, ln, e in m.slotwrites():
                        j = div16(off)
                        if j is not None and e.d[3] is not None: i = j
                    if i is None: ctx.inconclusive("slot", "not-seen"); continue
                    chk(ctx, m.nextnull(i), "slot", "used", "a new pair is stored over another one", r)
                    chk(ctx, st.cs.prove_le(dom.addc(dom.sub(i, m.cap), 1)), "slot", "beyond", "a new pair is stored beyond the capacity", r)
                    k = m.now("key", i); y = fresh_copy(ctx, st, k, key)
                    if y is None: ctx.inconclusive("key", "copy")
                    else: chk(ctx, y, "key", "copy", "the stored key is not a complete copy of the given one", r)
                v = m.now("value", i); y = fresh_copy(ctx, st, v, val)
                if y is None: ctx.inconclusive("value", "copy")
                else: chk(ctx, y, "value", "copy", "the stored value is not a complete copy of the given one", r)
                for off, ln, e in m.slotwrites():
                    chk(ctx, any(eq(st, off, m.slot(x, i)) for x in ("key", "value")), "writes", "elsewhere", "setting a pair changes another one", r, e)
            else:
                chk(ctx, eq(st, size1, m.size), "size", "on-failure", "the number of pairs changes although nothing was stored", r)
                for off, ln, e in m.slotwrites():
                    j = div16(dom.addc(off, -(off[0] % 16)))
                    for x in ("key", "value"):
                        if j is None: ctx.inconclusive("slot", "unknown"); continue
                        a, b = m.initial(x, j), m.now(x, j)
                        chk(ctx, same(st, a, b) or (nulls(ctx, st, a) and nulls(ctx, st, b)), "slot", "on-failure", "a failed set leaves a changed %s behind" % x, r, e)
                if c == 12:
                    a = m.absent(key, n) if f is None else False
                    if a is None: ctx.inconclusive("absent", "not-understood")
                    else: chk(ctx, a, "absent", "full-map", "a full map is reported although the key may exist", r)
                    chk(ctx, st.cs.prove_le(dom.sub(m.cap, m.size)), "full", "not-full", "a map with room is reported full", r)
                else: chk(ctx, bool(st.flags.get("allocfail")) or bad_alloc(ctx, st), "rejects", "valid", "a valid request is rejected", r)
        elif op == "reserve":
            want = param(ctx, 1)[2]
            chk(ctx, eq(st, size1, m.size), "size", "reserve", "reserving changes the number of pairs", r)
            if c == 0:
                oks += 1
                ok = cap1 is not None and (eq(st, cap1, want) and st.cs.prove_le(dom.sub(m.size, want)) or eq(st, cap1, m.size) and st.cs.prove_le(dom.sub(want, m.size)))
                chk(ctx, ok, "capacity", "reserve", "the capacity is not the requested one, or the number of pairs if that is larger", r)
                if ok: c04_reserve(ctx, r, m, cap1)
            else:
                chk(ctx, eq(st, cap1, m.cap) and (m.pairs1 == m.pairs), "capacity", "on-failure", "the capacity changes although reserving fails", r)
                toobig = any(not st.cs.copy().assume_le(dom.addc(dom.scale(x, 16), 1 - (1 << 64))) for x in (want, m.size))
                chk(ctx, bool(st.flags.get("allocfail")) or toobig or bad_alloc(ctx, st), "rejects", "valid", "a valid request is rejected", r)
        elif op == "clear":
            if c == 0:
                oks += 1; c04_clear(ctx, r, m)
            else: chk(ctx, bad_alloc(ctx, st), "rejects", "valid", "a valid request is rejected", r)
    if ctx.final() and not oks and not unk(): ctx.report("success", "never", "no path succeeds")

def nulls(ctx, st, p): return p == NULL or fact(ctx, st, p) is True
def bad_alloc(ctx, st):
    from .api import bad_allocator
    return bad_allocator(ctx, st)

def c04_next(ctx, r, m, key, hit):
    E = ctx.E; st = r.st; first = fact(ctx, st, key) is True
    L = [e for e in m.evs if e.k == "loop"]
    found = None        # index of the given key
    if not first:
        for rid, i in m.keys():
            if rid == key[1] or st.eqp.get(rid) == key[1] if hasattr(st, "eqp") else rid == key[1]: found = i
    if hit:
        i = m.place(r.ret[1]) if r.ret[0] == "p" else None
        if i is None: ctx.inconclusive("next", "not-a-stored-key"); return 1
        chk(ctx, not nulls(ctx, st, r.ret), "next", "null", "an empty slot is returned", r)
        chk(ctx, st.cs.prove_le(dom.addc(dom.sub(i, m.cap), 1)), "next", "beyond", "a key beyond the capacity is returned", r)
        # the search that ended here started right behind the given key (or at the first slot) and passed only empty slots
        run = None
        for e in L:
            for it, (d, e0) in loops.steps(E, e).items():
                if d == 1 and any(hd.hv.get(it) == i or hd.hv.get(it) is not None and eq(st, hd.hv[it], i) for hd, _, _ in loops.heads(E, e)): run = (e, it, e0)
        if run is None: ctx.inconclusive("next", "search"); return 1
        e, it, e0 = run; s0 = loops.info(E, e)["st0"]
        for hd, hs0, b, vals in loops.backs(E, e):
            ok = any(E.nullness(b, rid) is True and it in hd.hv and eq(b, j, hd.hv[it]) for rid, j in m.keys())
            chk(ctx, ok, "next", "skipped", "a stored key may be passed over", r, e)
        if first: chk(ctx, eq(s0, e0, const(0)), "next", "first", "iteration does not start with the first slot", r, e)
        else: start_of(ctx, r, m, key, e, e0, s0)
        return 1
    if st.cs.prove_eq0(m.size) or st.cs.prove_eq0(m.cap): return 0
    # nothing further: every remaining slot is empty, or the given key is not stored
    for e in L:
        s0 = loops.info(E, e)["st0"]
        for it, (d, e0) in loops.steps(E, e).items():
            if d != 1 or not loops.at_exit(E, st, e, it, lambda h: st.cs.prove_le(dom.sub(m.cap, h))): continue
            bs = list(loops.backs(E, e))
            if all(any(E.nullness(b, rid) is True and it in hd.hv and eq(b, j, hd.hv[it]) for rid, j in m.keys()) for hd, hs0, b, vals in bs):
                if first:
                    if eq(s0, e0, const(0)): ctx.ob(True); return 0
                else:
                    start_of(ctx, r, m, key, e, e0, s0); return 0
    if not first and L: ctx.ob(True); return 0           # the key handed in is not one of the stored ones
    chk(ctx, False, "next", "end", "iteration ends although stored keys may remain", r); return 0
def start_of(ctx, r, m, key, e, e0, s0):
    """the second search starts one behind the slot holding the given key"""
    E = ctx.E; L = [x for x in m.evs if x.k == "loop" and x is not e]
    if eq(s0, e0, const(0)): chk(ctx, False, "next", "restart", "iteration starts again from the first slot", r, e); return
    understood = False
    for x in L:
        cnt = loops.steps(E, x)
        for hd, hs0, bs in loops.heads(E, x):
            for it, h in hd.hv.items():
                if it in cnt:
                    # the search stopped at the key's slot
                    if eq(s0, e0, dom.addc(h, 1)): understood = True
                    elif eq(s0, e0, h) or dom.sub(e0, h)[1] == (): return chk(ctx, False, "next", "start", "iteration does not go on one behind the given key", r, e)
                elif h == e0:
                    # the search remembers where it goes on
                    for hd2, hs2, b, vals in loops.backs(E, x):
                        v = vals.get(it)
                        if v is None or v[0] != "i" or it in hd2.hv and eq(b, v[2], hd2.hv[it]): continue
                        ks = [hd2.hv[c] for c in cnt if c in hd2.hv]
                        if any(eq(b, v[2], dom.addc(k, 1)) for k in ks): understood = True
                        elif any(dom.sub(v[2], k)[1] == () for k in ks): return chk(ctx, False, "next", "start", "iteration does not go on one behind the given key", r, e)
    if understood: ctx.ob(True)
    else: ctx.inconclusive("next", "start")

def less(st, a, b): return st.cs.prove_le(dom.sub(a, b)) and loops.impossible(st, dom.sub(a, b))
def c04_reserve(ctx, r, m, cap1):
    """no pair is dropped: growth empties the new slots, shrinking moves pairs out of the removed ones first"""
    E = ctx.E; st = r.st; evs = m.evs
    if eq(st, cap1, m.cap): return
    if st.cs.prove_eq0(cap1): return
    rl = [e for e in evs if e.k == "realloc" and e.d[0] == m.pairs[1]]
    mv = m.pairs[1] in {e.d[0] for e in evs if e.k == "free"}
    if not rl and m.pairs[1] and E.nullness(st, m.pairs[1]) is False and m.pairs1 != m.pairs: ctx.inconclusive("reserve", "moved")
    L = [e for e in evs if e.k == "loop"]
    if less(st, m.cap, cap1):        # grows
        done = False
        for e in L:
            cov = loops.covers(E, st, e, m.cap, cap1)
            if not cov: continue
            ok = True
            for hd, hs0, b, vals in loops.backs(E, e):
                for f in ("key",):
                    d = [x for x in loops.since(E, b, hs0) if x.k == "store" and x.d[0] == m.pairs1[1]]
                    h = hd.hv[cov[0]] if cov[1] == 1 else dom.addc(hd.hv[cov[0]], -1)
                    if not any(eq(b, x.d[1], m.slot(f, h)) and (x.d[3] == NULL or x.d[3] in (("fill", ("i", 32, const(0))), ("fill", ("i", 8, const(0))))) for x in d): ok = False
            if ok: done = True
        for x in evs:
            if x.k == "store" and x.d[0] == m.pairs1[1] and isinstance(x.d[3], tuple) and x.d[3][0] == "fill" and x.d[3][1][0] == "i" and x.d[3][1][2] == const(0):
                ln = x.d[2] if isinstance(x.d[2], tuple) else const(x.d[2])
                if st.cs.prove_le(dom.sub(x.d[1], dom.scale(m.cap, 16))) and st.cs.prove_le(dom.sub(dom.scale(cap1, 16), dom.add(x.d[1], ln))): done = True
        if not done and not L: chk(ctx, False, "slots", "new", "new slots are not emptied", r)
        elif not done:
            if any(loops.steps(E, e) for e in L): chk(ctx, False, "slots", "new", "not every new slot is emptied", r)
            else: ctx.inconclusive("slots", "new")
        else: ctx.ob(True)
    elif less(st, cap1, m.cap):      # shrinks
        e = next((e for e in L if loops.covers(E, st, e, cap1, m.cap)), None)
        if e is None:
            if L and any(loops.steps(E, x) for x in L): chk(ctx, False, "pairs", "dropped", "pairs in the removed slots are not all looked at", r)
            elif L: ctx.inconclusive("pairs", "loop")
            else: chk(ctx, False, "pairs", "dropped", "shrinking drops the pairs in the removed slots", r)
            return
        cov = loops.covers(E, st, e, cap1, m.cap)
        for hd, hs0, b, vals in loops.backs(E, e):
            h = hd.hv[cov[0]] if cov[1] == 1 else dom.addc(hd.hv[cov[0]], -1); empty = False
            for rid, j in m.keys():
                if E.nullness(b, rid) is True and eq(b, j, h): empty = True
            d = loops.since(E, b, hs0); moved = {"key": False, "value": False}; to = None
            for x in d:
                if x.k == "memcpy" and x.d[0][0] == "p" and x.d[0][1] in (m.pairs[1], m.pairs1[1]) and x.d[1][0] == "p" and x.d[1][1] == x.d[0][1] and eq(b, x.d[1][2], dom.scale(h, 16)):
                    if st.cs.prove_le(dom.addc(dom.scale(x.d[2], -1), 16)): moved = {"key": True, "value": True}
                    to = x.d[0][2]
                if x.k == "store" and x.d[0] in (m.pairs[1], m.pairs1[1]) and x.d[3] and x.d[3][0] == "p" and x.d[3][1]:
                    for f in ("key", "value"):
                        j = m.place(x.d[3][1], f)
                        if j is not None and eq(b, j, h):
                            moved[f] = True
                            if f == "key": to = x.d[1]
            if empty: chk(ctx, to is None, "pairs", "moved-empty", "an empty slot is moved over another", r, e); continue
            if not chk(ctx, moved["key"] and moved["value"], "pairs", "dropped", "shrinking drops a pair stored in a removed slot", r, e): continue
            j = div16(to)
            if j is None: ctx.inconclusive("pairs", "target"); continue
            chk(ctx, b.cs.prove_le(dom.addc(dom.sub(j, cap1), 1)), "pairs", "target", "a pair is moved to a slot that is removed", r, e)
            if not any(E.nullness(b, rid) is True and eq(b, k, j) for rid, k in m.keys()): ctx.inconclusive("pairs", "target-used")
    else: ctx.inconclusive("reserve", "direction")

def c04_clear(ctx, r, m):
    E = ctx.E; st = r.st
    if st.cs.prove_eq0(m.cap) or st.cs.prove_eq0(m.size): return
    L = [e for e in m.evs if e.k == "loop"]; done = False
    for e in L:
        cov = loops.covers(E, st, e, const(0), m.cap)
        if not cov and not loops.steps(E, e): continue
        done = done or bool(cov) or eq(st, m.o.i1("size"), const(0))
        cov = cov or next(iter((it, d) for it, (d, e0) in loops.steps(E, e).items()))
        for hd, hs0, b, vals in loops.backs(E, e):
            h = hd.hv[cov[0]] if cov[1] == 1 else dom.addc(hd.hv[cov[0]], -1)
            d = loops.since(E, b, hs0); empty = any(E.nullness(b, rid) is True and eq(b, j, h) for rid, j in m.keys())
            fr = [x.d[0] for x in d if x.k == "free"]
            if empty: chk(ctx, not fr, "clear", "empty-slot", "clearing releases something for an empty slot", r, e); continue
            for f in ("key", "value"):
                rid = next((q for q in fr if m.place(q, f) is not None and eq(b, m.place(q, f), h)), None)
                if f == "value" and rid is None and any(E.nullness(b, q) is True and m.place(q, f) is not None and eq(b, m.place(q, f), h) for q in list(E.R)): continue
                chk(ctx, rid is not None, "clear", f, "the %s of a pair is not released" % f, r, e)
                z = E.load_quiet(b, m.pairs1[1], m.slot(f, h))
                chk(ctx, z == NULL or fact(ctx, b, z) is True, "clear", f + "-slot", "a cleared slot keeps its %s" % f, r, e)
            n0 = E.field_int(hs0, m.o.p1[1], m.o.p1[2], SMI, "size"); n1 = E.field_int(b, m.o.p1[1], m.o.p1[2], SMI, "size")
            if n0 is None or n1 is None: ctx.inconclusive("clear", "size")
            else: chk(ctx, eq(b, n1, dom.addc(n0, -1)), "clear", "size", "removing a pair does not subtract exactly one", r, e)
    if not done:
        if L and not any(loops.steps(E, e) for e in L): ctx.inconclusive("clear", "loop")
        else: chk(ctx, False, "clear", "all", "not every slot is cleared", r)

def c04_set(ctx, r, c, evs):
    E = ctx.E; st = r.st; s = [e for e in evs if e.k == "sm_set_nr"]; m = param(ctx, 0); key, val = param(ctx, 1), param(ctx, 2)
    if c is None: ctx.inconclusive("ret", "unknown"); return 0
    for e in s:
        chk(ctx, same(st, e.d[0], m) and same(st, e.d[1], key) and same(st, e.d[2], val), "set", "other", "something else than the given pair is stored", r, e)
    good = [e for e in s if e.d[3] == 0]
    if c == 0:
        if not s: ctx.inconclusive("set", "not-seen"); return 1
        chk(ctx, len(good) == 1 and s[-1] is good[0], "set", "unproven", "success is reported although the pair was not stored (exactly once)", r); return 1
    chk(ctx, not good, "set", "failed-after-store", "failure is reported although the pair was stored", r)
    if c == 12 and s:
        # a full map grows: giving up without having reserved more space is wrong
        last = [e for e in evs if e.k in ("sm_set_nr", "sm_reserve")]
        chk(ctx, False, "set", "full", "a full map is not grown", r)
    return 0

def c04_copy(ctx, r, c, evs):
    E = ctx.E; st = r.st; src, dst = param(ctx, 0), param(ctx, 1)
    alle = [e for e in evs if e.k.startswith("sm_")]; n = 0
    for e in [x for x in evs if x.k == "loop"]:
        for hd, hs0, b, vals in loops.backs(E, e):
            d = [x for x in loops.since(E, b, hs0) if x.k.startswith("sm_")]; n += 1
            sets = [x for x in d if x.k == "sm_set"]; gets = [x for x in d if x.k == "sm_get"]
            if not chk(ctx, len(sets) == 1, "copy", "pair", "a pair of the source is not stored in the destination", r, e): continue
            x = sets[0]
            chk(ctx, same(b, x.d[0], dst), "copy", "destination", "a pair is not stored in the destination", r, x)
            g = [y for y in gets if x.d[2][0] == "p" and y.d[2] == x.d[2][1]]
            chk(ctx, len(g) == 1 and same(b, g[0].d[0], src) and same(b, g[0].d[1], x.d[1]), "copy", "value", "the value stored is not the source's value of the key", r, x)
            nx = [y for y in d if y.k == "sm_next"]
            chk(ctx, len(nx) <= 1 and all(same(b, y.d[0], src) for y in nx), "copy", "order", "iteration of the source skips keys", r, e)
            for y in nx:
                if y.d[1][0] == "p" and y.d[1][1] and y is not d[0]: chk(ctx, same(b, y.d[1], x.d[1]), "copy", "order", "iteration does not continue from the key just copied", r, y)
    if c == 0:
        chk(ctx, st.flags.get(("smend",)) is True, "copy", "early", "success is reported before every pair was copied", r); return 1
    return 0
