"""Rules about the contents and bookkeeping of the containers, decided on path summaries: the values of the object's fields
at return compared with those at entry, and the exact ranges of its storage that were read or written."""
from . import dom, models, mem, spec, loops
from .api import events, result, first
from .dom import const, var
from .values import *
from .ir import Ty
from .interp import NULL
from .os_rules import chk, ev_of

PTR = Ty("p", 8)

class Obj:
    """one object behind a parameter: its fields at entry and at return"""
    def __init__(s, ctx, r, i, struct, impl=None):
        s.ctx = ctx; s.E = ctx.E; s.st = r.st; s.struct = struct; p = param(ctx, i); s.outer = p
        s.p0 = p; s.p1 = p
        if impl:
            s.p0 = s.E.initial(r.st, p[1], p[2], PTR); s.p1 = s.E.load_quiet(r.st, p[1], p[2])
            s.struct = impl
        s.L = s.E.layout(s.struct)
    def off(s, f): return s.L[f][0]
    def i0(s, f): return s.E.fsym(s.p0[1], s.p0[2], s.struct, f)
    def i1(s, f): return s.E.field_int(s.st, s.p1[1], s.p1[2], s.struct, f)
    def q0(s, f): return s.E.initial(s.st, s.p0[1], dom.addc(s.p0[2], s.off(f)), PTR)
    def q1(s, f): return s.E.load_quiet(s.st, s.p1[1], dom.addc(s.p1[2], s.off(f)))
    def kept(s): return s.p0 == s.p1
    def noimpl(s): return fact(s.ctx, s.st, s.p0) is True

def unknowns(ctx):
    """did this rule leave anything undecided since?"""
    n = len(ctx.out["inconclusive"])
    return lambda: len(ctx.out["inconclusive"]) > n
def eq(st, a, b): return a is not None and b is not None and st.cs.prove_eq0(dom.sub(a, b))
def writes(evs, rid, E=None):
    """stores into a region: (offset, length, event); copies are recorded as stores as well"""
    return [(e.d[1], const(e.d[2]) if isinstance(e.d[2], int) else e.d[2], e) for e in evs if e.k == "store" and e.d[0] == rid]
def looped(evs): return any(e.k == "loop" for e in evs)
def invariants(ctx, r, argi=None):
    """facts about the objects handed in hold again at return"""
    E = ctx.E; st = r.st; n = 0
    for i, v in enumerate(E.args.values()):
        if argi is not None and i not in argi: continue
        if v[0] != "p" or E.nullness(st, v[1]) is not False: continue
        r0 = E.R[v[1]]
        if r0.ty is None: continue
        sn = E.struct_of(r0.ty)
        if sn not in spec.LAYOUT: continue
        out = []; E.check_struct(st, v[1], const(0), sn, out); n += 1
        ctx.ob(not out)
        for what, s2, d in out:
            ctx.report("invariant", "%s.%s" % (s2, what.replace(" ", "-")), "leaves a %s with the fact '%s' broken" % (s2, what), ctx.last_loc(r))
    return n

# ------------------------------------------------------------------ C01
def c01(ctx):
    unk = unknowns(ctx); E = ctx.E; name = ctx.name; A = "rcutils_array_list_s"; I = "rcutils_array_list_impl_s"; oks = 0
    hasindex = name in ("rcutils_array_list_set", "rcutils_array_list_get", "rcutils_array_list_remove")
    dat = {"rcutils_array_list_add": 1, "rcutils_array_list_set": 2, "rcutils_array_list_get": 2, "rcutils_array_list_get_size": 1}.get(name)
    for r in ctx.final():
        st = r.st; evs = events(st); c = ctx.cval(r)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        invariants(ctx, r)
        if name == "rcutils_array_list_init":
            if c == 0:
                oks += 1; o = Obj(ctx, r, 0, A, I)
                chk(ctx, eq(st, o.i1("size"), const(0)), "size", "init", "a new list is not empty", r)
                chk(ctx, eq(st, o.i1("capacity"), param(ctx, 1)[2]), "capacity", "init", "a new list does not have the requested capacity", r)
                chk(ctx, eq(st, o.i1("data_size"), param(ctx, 2)[2]), "element", "init", "a new list does not have the requested element size", r)
            continue
        if name == "rcutils_array_list_fini":
            continue
        o = Obj(ctx, r, 0, A, I)
        if null(ctx, st, 0) or o.p0[0] != "p" or o.noimpl():
            chk(ctx, c != 0, "accepts", "invalid", "an uninitialised list is accepted", r); continue
        n0, cap0, ds = o.i0("size"), o.i0("capacity"), o.i0("data_size"); l0 = o.q0("list")
        idx = param(ctx, 1)[2] if hasindex else None
        if c != 0:
            ok = (dat is not None and null(ctx, st, dat)) or (idx is not None and st.cs.prove_le(dom.sub(n0, idx))) or bool(st.flags.get("allocfail"))
            if name == "rcutils_array_list_add" and not ok:      # a size that cannot be represented
                s2 = st.cs.copy(); ok = not s2.assume_le(dom.addc(dom.mul(dom.addc(cap0, 0), ds), -(1 << 62)))
            chk(ctx, ok, "rejects", "valid", "a valid request on an initialised list is rejected", r)
            chk(ctx, o.kept() and eq(st, o.i1("size"), n0), "size", "on-failure", "the size changes although the operation fails", r)
            w = writes(evs, l0[1])
            chk(ctx, not w, "writes", "on-failure", "elements are written although the operation fails", r, w[0][2] if w else None)
            continue
        oks += 1
        if dat is not None and not chk(ctx, nonnull(ctx, st, dat), "accepts", "null", "a null argument is accepted", r): continue
        if idx is not None and not chk(ctx, st.cs.prove_le(dom.addc(dom.sub(idx, n0), 1)), "accepts", "index", "an index that is not below the size is accepted", r): continue
        want = {"rcutils_array_list_add": 1, "rcutils_array_list_remove": -1}.get(name, 0)
        chk(ctx, o.kept() and eq(st, o.i1("size"), dom.addc(n0, want)), "size", "change", "the size does not change by exactly %d" % want, r)
        chk(ctx, eq(st, o.i1("data_size"), ds), "element", "change", "the element size changes", r)
        l1 = o.q1("list")
        if l1[0] != "p": ctx.inconclusive("list", "unknown"); continue
        w = [x for x in writes(evs, l1[1])]
        cp = [e for e in ev_of(evs, "memcpy") if e.d[1][0] == "p" and e.d[0][0] == "p"]
        def within(off, ln, lo, hi): return st.cs.prove_le(dom.sub(lo, off)) and st.cs.prove_le(dom.sub(dom.add(off, ln), hi))
        def copied(drid, doff, src, soff, ln):
            return any(e.d[0][1] == drid and eq(st, e.d[0][2], doff) and e.d[1][1] == src and eq(st, e.d[1][2], soff) and eq(st, e.d[2], ln) for e in cp)
        lp = looped(evs)
        def need(ok, kind, what, msg, e=None):
            if not ok and lp: ctx.inconclusive(kind, what); return
            chk(ctx, ok, kind, what, msg, r, e)
        if name == "rcutils_array_list_add":
            at = dom.mul(n0, ds); p = param(ctx, 1)
            for off, ln, e in w:
                need(within(off, ln, at, dom.add(at, ds)), "writes", "elsewhere", "adding writes outside the slot after the last element", e)
            need(copied(l1[1], at, p[1], p[2], ds), "element", "not-stored", "the element is not stored completely behind the existing ones")
            if l1[1] != l0[1]:
                g = [e for e in evs if e.k == "realloc" and e.d[0] == l0[1] and e.d[1] == l1[1]]
                need(bool(g) or copied(l1[1], const(0), l0[1], const(0), at), "element", "lost", "existing elements are not carried over to the new storage")
            else:
                chk(ctx, eq(st, o.i1("capacity"), cap0), "capacity", "kept", "the capacity changes without new storage", r)
        elif name == "rcutils_array_list_set":
            at = dom.mul(idx, ds); p = param(ctx, 2)
            for off, ln, e in w:
                need(within(off, ln, at, dom.add(at, ds)), "writes", "elsewhere", "overwriting touches another element", e)
            need(copied(l1[1], at, p[1], p[2], ds), "element", "not-stored", "the element is not stored completely at the index")
        elif name == "rcutils_array_list_get":
            at = dom.mul(idx, ds); p = param(ctx, 2)
            need(not w, "writes", "list", "reading modifies the list", w[0][2] if w else None)
            need(copied(p[1], p[2], l1[1], at, ds), "element", "not-read", "the element at the index is not copied completely to the output")
        elif name == "rcutils_array_list_remove":
            at = dom.mul(idx, ds); end = dom.mul(n0, ds); nx = dom.add(at, ds)
            for off, ln, e in w:
                need(within(off, ln, at, end), "writes", "elsewhere", "removing touches elements in front of the index or behind the last", e)
            last = eq(st, dom.addc(idx, 1), n0)
            if not last: need(copied(l1[1], at, l1[1], nx, dom.sub(end, nx)), "element", "not-moved", "the elements behind the removed one are not all moved down by one")
            elif w: need(all(within(off, ln, at, nx) for off, ln, e in w), "writes", "elsewhere", "removing the last element touches others", w[0][2])
        elif name == "rcutils_array_list_get_size":
            got = E.load(st, param(ctx, 1)[1], param(ctx, 1)[2], Ty("i", 8, 64))[0][1]
            chk(ctx, got[0] == "i" and eq(st, got[2], n0), "size", "reported", "the reported size is not the number of elements", r)
    if ctx.final() and not oks and not unk() and name != "rcutils_array_list_fini": ctx.report("success", "never", "no path succeeds")

# ------------------------------------------------------------------ C03
HM = "rcutils_hash_map_s"; HMI = "rcutils_hash_map_impl_s"; ENT = "rcutils_hash_map_entry_s"; ALI = "rcutils_array_list_impl_s"
def ones(k, seen=0):
    """number of leading positions known to be smeared in term symbol k: x | x>>1 | x>>2 ..."""
    key = dom.SYMS[k][0]
    if isinstance(key, tuple) and key[0] == "or" and len(key) >= 4:
        ops = [x for x in key[2:4]]
        for a, b in (ops, ops[::-1]):
            if len(b[1]) == 1 and b[0] == 0 and b[1][0][1] == 1:
                kb = dom.SYMS[b[1][0][0]][0]
                if isinstance(kb, tuple) and kb[0] in ("lshr", "udiv"):
                    src = kb[1] if isinstance(kb[1], tuple) else kb[2]; sh = shift_of(kb)
                    if sh is not None and src == a:
                        r = smear(a)
                        return r + sh if r >= sh else 1
    return 1
def shift_of(key):
    """right shift distance of a symbol key"""
    c = [x for x in key[1:] if not (isinstance(x, tuple) and x[1])][-1:] if True else None
    for x in reversed(key[1:]):
        v = x if isinstance(x, int) else x[0] if isinstance(x, tuple) and len(x) == 2 and x[1] == () else None
        if v is None: continue
        if key[0] == "lshr": return v
        return v.bit_length() - 1 if v > 0 and v & (v - 1) == 0 else None
    return None
def smear(lin):
    return ones(lin[1][0][0]) if lin[0] == 0 and len(lin[1]) == 1 and lin[1][0][1] == 1 else 1
def orterm(lin):
    return len(lin[1]) == 1 and isinstance(dom.SYMS[lin[1][0][0]][0], tuple) and dom.SYMS[lin[1][0][0]][0][0] == "or"
def pow2(st, lin):
    """the value is a power of two: constant, masked with its predecessor to zero, or a smeared value plus one"""
    c = st.cs.const_of(lin)
    if c is not None: return c > 0 and c & (c - 1) == 0
    for i, (key, lo, hi) in enumerate(dom.SYMS):
        if isinstance(key, tuple) and key[0] == "and" and st.cs.prove_eq0(var(i)):
            a, b = key[2], key[3]
            for x, y in ((a, b), (b, a)):
                if eq(st, dom.addc(x, -1), y) and eq(st, x, lin): return True
    m1 = dom.addc(lin, -1)
    if smear(m1) >= 64: return True
    for i, (key, lo, hi) in enumerate(dom.SYMS):
        if isinstance(key, tuple) and key[0] == "or" and ones(i) >= 64 and eq(st, var(i), m1): return True
    return False
def selects(lin, h, cap, st):
    """the value is hash modulo capacity"""
    if lin[0] != 0 or len(lin[1]) != 1 or lin[1][0][1] != 1: return False
    key = dom.SYMS[lin[1][0][0]][0]
    if key[0] == "urem": return eq(st, key[1], h) and eq(st, key[2] if isinstance(key[2], tuple) else const(key[2]), cap)
    if key[0] == "and":
        a, b = key[2], key[3]
        return (eq(st, a, h) and eq(st, b, dom.addc(cap, -1))) or (eq(st, b, h) and eq(st, a, dom.addc(cap, -1)))
    return False
def origin(E, rid): return E.R[rid].origin if rid else None
class Map:
    """helpers for one path of a hash map operation"""
    def __init__(s, ctx, r):
        s.ctx = ctx; s.E = ctx.E; s.r = r; s.st = r.st; s.o = Obj(ctx, r, 0, HM, HMI); s.evs = events(r.st)
        s.hf = s.o.q0("key_hashing_func"); s.cf = s.o.q0("key_cmp_func"); s.map = s.o.q0("map"); s.cap = s.o.i0("capacity")
    def hashed(s, key):
        """hash of the requested key computed by the user's function"""
        for e in s.evs:
            if e.k == "icall" and e.d[0] == s.hf[1] and e.d[1] and same(s.st, e.d[1][0], key) and e.d[2] and e.d[2][0] == "i": return e.d[2][2]
        return None
    def entry_of(s, keyreg):
        """(entry region, index, bucket impl, bucket offset) whose key field is this region"""
        o = origin(s.E, keyreg)
        if not o or not o[2] or o[2][:2] != (ENT, "key"): return None
        return s.place(o[0])
    def place(s, ent):
        o = origin(s.E, ent)
        if not o or not o[2] or o[2][1] != "*": return None
        l = origin(s.E, o[0]); 
        if not l or not l[2] or l[2][:2] != (ALI, "list"): return None
        b = origin(s.E, l[0])
        if not b or b[0] != s.map[1]: return None
        idx = div8(o[1]); bi = div8(b[1])
        return (ent, idx, l[0], bi)
    def bucket_size(s, impl): return s.E.fsym(impl, const(0), ALI, "size")
    def compared(s, st, evs, key):
        """comparisons of stored keys with the requested one: (place, result)"""
        out = []
        for e in evs:
            if e.k != "icall" or e.d[0] != s.cf[1] or len(e.d[1]) != 2: continue
            for a, b in (e.d[1], e.d[1][::-1]):
                if same(st, b, key) and a[0] == "p":
                    p = s.entry_of(a[1])
                    if p: out.append((p, e.d[2]))
        return out
    def match(s, key, H):
        """place of the entry this path found equal to the key"""
        for p, res in s.compared(s.st, s.evs, key):
            if res and res[0] == "i" and s.st.cs.prove_eq0(res[2]): return p
        return None
    def hash_of(s, ent): return s.E.fsym(ent, const(0), ENT, "hashed_key")
    def field(s, ent, f):
        return s.E.initial(s.st, ent, const(s.E.layout(ENT)[f][0]), PTR)
    def absent(s, key, H):
        """why no entry equals the key on this path: True, False (definitely wrong), None (not understood)"""
        st = s.st
        if st.cs.prove_eq0(s.o.i0("size")): return True
        if H is None: return None
        # an empty bucket
        for rid, x in s.E.R.items():
            if x.origin and x.origin[0] == s.map[1] and s.E.nullness(st, rid) is True and selects(div8(x.origin[1]), H, s.cap, st): return True
        seen = False
        for e in s.evs:
            if e.k != "loop": continue
            pl = None; bad = None; unknown = False; n = 0
            for hd, hs0, b, vals in loops.backs(s.E, e):
                n += 1; d = loops.since(s.E, b, hs0); ref = None
                for p, res in s.compared(b, d, key):
                    if res and res[0] == "i" and loops.impossible(b, res[2]): ref = p
                if ref is None:
                    for rid, x in s.E.R.items():
                        if x.ty is not None and rid in b.null and x.origin and x.origin[2] and x.origin[2][1] == "*":
                            p = s.place(rid)
                            if p and loops.impossible(b, dom.sub(s.hash_of(rid), H)): ref = p
                if ref is None: unknown = True
                else: pl = ref
            if pl is None: continue
            seen = True
            if not selects(pl[3], H, s.cap, st): return False
            if unknown: bad = "skips"
            c = loops.covers(s.E, st, e, const(0), s.bucket_size(pl[2]))
            if c is None: bad = "range"
            if bad: return False
            return True
        return None
    def verdict_not_carried(s, key):
        """the loops that compare entries carry nothing but counters from one iteration to the next"""
        n = 0
        for e in s.evs:
            if e.k == "loop" and s.compared(s.st, loops.inside(s.E, e), key):
                n += 1
                if any(k[0] != "int" or it[0] != "phi" for hd, hs0, b in loops.heads(s.E, e) for it, k in hd.key): return False
        return n > 0
def div8(lin):
    if lin[0] % 8 or any(k % 8 for x, k in lin[1]): return (1, ((0, 1 << 40),))
    return (lin[0] // 8, tuple((x, k // 8) for x, k in lin[1]))
def copied_to(m, drid, doff, src, ln):
    st = m.st
    for e in m.evs:
        if e.k == "memcpy" and e.d[0][0] == "p" and e.d[1][0] == "p" and e.d[0][1] == drid and eq(st, e.d[0][2], doff) and e.d[1][1] == src[1] and eq(st, e.d[1][2], src[2]) and eq(st, e.d[2], ln): return True
    return False

def c03(ctx):
    unk = unknowns(ctx); E = ctx.E; name = ctx.name; op = name[len("rcutils_hash_map_"):]; oks = 0
    for r in ctx.final():
        st = r.st
        if op == "key_exists":
            v = r.ret; b = v[1] if v and v[0] == "b" else None; c = None
            if v and v[0] == "i": b = {0: False, 1: True}.get(st.cs.const_of(v[2]))
            if b not in (True, False): ctx.inconclusive("ret", "unknown"); continue
        else:
            c = ctx.cval(r)
            if c is None: ctx.inconclusive("ret", "unknown"); continue
        invariants(ctx, r)
        if op == "init":
            if c != 0: continue
            oks += 1; o = Obj(ctx, r, 0, HM, HMI); ask = param(ctx, 1)[2]
            chk(ctx, eq(st, o.i1("size"), const(0)), "count", "init", "a new map is not empty", r)
            chk(ctx, eq(st, o.i1("key_size"), param(ctx, 2)[2]), "key-size", "init", "a new map does not have the requested key size", r)
            chk(ctx, eq(st, o.i1("data_size"), param(ctx, 3)[2]), "value-size", "init", "a new map does not have the requested value size", r)
            for f, i in (("key_hashing_func", 4), ("key_cmp_func", 5)):
                chk(ctx, same(st, o.q1(f), param(ctx, i)), f, "init", "a new map does not use the given function", r)
            cap = o.i1("capacity"); ok = pow2(st, cap)
            wr = [e.d[1] for e in events(st) if e.k == "wrap" and e.d[0] == "add"]
            if not ok and any(orterm(x) and smear(dom.addc(x, -1)) >= 64 for x in wr): continue      # every bit set: the sum is zero and not used
            if not ok and not orterm(cap) and not any(orterm(x) for x in wr) and not eq(st, cap, ask): ctx.inconclusive("capacity", "rounded")
            else: chk(ctx, ok, "capacity", "power-of-two", "the number of buckets is not made a power of two", r)
            continue
        if op == "fini": continue
        m = Map(ctx, r); o = m.o
        if null(ctx, st, 0) or o.p0[0] != "p" or o.noimpl():
            chk(ctx, (b is False) if op == "key_exists" else c != 0, "accepts", "invalid", "an uninitialised map is accepted", r); continue
        if op in ("get_size", "get_capacity"):
            if c == 0:
                got = E.load(st, param(ctx, 1)[1], param(ctx, 1)[2], Ty("i", 8, 64))[0][1]; oks += 1
                chk(ctx, got[0] == "i" and eq(st, got[2], o.i0(op[4:])), "reported", op, "the reported %s is not the map's" % op[4:], r)
            else: chk(ctx, null(ctx, st, 1), "rejects", "valid", "a valid request is rejected", r)
            continue
        key = param(ctx, 1); H = m.hashed(key); n0 = o.i0("size")
        if fact(ctx, st, key) is not True and H is not None: pass
        found = m.match(key, H) if H is not None else None
        if found is not None:
            chk(ctx, eq(st, m.hash_of(found[0]), H), "match", "hash", "an entry counts as found although its hash differs", r)
            if chk(ctx, selects(found[3], H, m.cap, st), "bucket", "lookup", "the bucket searched is not the hash modulo the bucket count", r) is False: continue
            for e in m.evs:              # a stored entry keeps its key and hash: later lookups and growth depend on them
                if e.k == "store" and e.d[0] == found[0] and op != "unset":
                    for f, was in (("hashed_key", ("i", 64, m.hash_of(found[0]))), ("key", m.field(found[0], "key"))):
                        if not eq(st, e.d[1], const(E.layout(ENT)[f][0])): continue
                        now = e.d[3]
                        kept = now == was or now[0] == "i" and was[0] == "i" and (eq(st, now[2], was[2]) or H is not None and eq(st, now[2], H))
                        if f == "key" and now[0] == "p" and E.R[now[1]].kind == "heap": kept = True      # a fresh copy of the key
                        chk(ctx, kept, "entry", f, "the %s of a stored entry is overwritten" % {"key": "key", "hashed_key": "hash"}[f], r, e)
        if op in ("get", "key_exists", "unset"):
            hit = {"get": c == 0, "key_exists": b if op == "key_exists" else None}.get(op)
            if op == "unset":
                fr = {e.d[0] for e in m.evs if e.k == "free"}; n1 = o.i1("size")
                hit = bool(fr) or not eq(st, n1, n0)
                if c != 0: chk(ctx, null(ctx, st, 1), "rejects", "valid", "a valid request is rejected", r); chk(ctx, not hit, "changed", "on-failure", "a failed request changes the map", r); continue
            elif op == "get" and c not in (0, 14):
                chk(ctx, null(ctx, st, 1) or null(ctx, st, 2), "rejects", "valid", "a valid request is rejected", r); continue
            elif op == "key_exists" and not b and null(ctx, st, 1): ctx.ob(True); continue
            if hit:
                oks += 1
                if found is None:
                    if H is not None and m.compared(st, m.evs, key) or not looped(m.evs) or m.verdict_not_carried(key): ctx.ob(False); ctx.report("match", "unproven", "success is reported without an entry whose key compares equal", ctx.last_loc(r))
                    else: ctx.inconclusive("match", "not-seen")
                    continue
            else:
                a = m.absent(key, H) if found is None else False
                if a is None: ctx.inconclusive("absent", "not-understood")
                else: chk(ctx, a, "absent", "unproven", "the key is reported missing although an equal entry may be stored", r)
                if op == "get":
                    w = writes(m.evs, param(ctx, 2)[1]); chk(ctx, not w, "output", "not-found", "the output is written although the key is missing", r)
                continue
        if op == "get":
            ent = found[0]
            chk(ctx, copied_to(m, param(ctx, 2)[1], param(ctx, 2)[2], m.field(ent, "value"), o.i0("data_size")), "value", "copy", "the value is not copied with exactly the configured size", r)
            chk(ctx, all(m.st.cs.prove_le(dom.sub(dom.add(off, ln), dom.add(param(ctx, 2)[2], o.i0("data_size")))) for off, ln, e in writes(m.evs, param(ctx, 2)[1])), "value", "more", "more than the value is written to the output", r)
        elif op == "unset":
            ent = found[0]; L1 = E.field_int(st, found[2], const(0), ALI, "size")
            chk(ctx, eq(st, n1, dom.addc(n0, -1)), "count", "removal", "removing a key does not subtract exactly one", r)
            chk(ctx, eq(st, L1, dom.addc(m.bucket_size(found[2]), -1)), "bucket", "removal", "the entry is not taken out of its bucket", r)
            lst = E.initial(st, found[2], const(E.layout(ALI)["list"][0]), PTR)
            mv = [e for e in m.evs if e.k == "memcpy" and e.d[0][0] == "p" and e.d[0][1] == lst[1]]
            es = E.fsym(found[2], const(0), ALI, "data_size")
            at = dom.mul(found[1], es); last = eq(st, dom.addc(found[1], 1), m.bucket_size(found[2])) or st.cs.prove_le(dom.sub(m.bucket_size(found[2]), dom.addc(found[1], 1)))
            okm = any(eq(st, e.d[0][2], at) or eq(st, e.d[0][2], dom.scale(found[1], 8)) for e in mv)
            chk(ctx, okm or (last and not mv), "bucket", "wrong-entry", "another entry than the one found is taken out of the bucket", r)
            for f in ("key", "value"): chk(ctx, m.field(ent, f)[1] in fr, "freed", f, "the %s copy of the removed entry is not released" % f, r)
            chk(ctx, ent in fr, "freed", "entry", "the removed entry is not released", r)
        elif op == "set": c03_set(ctx, r, m, c, key, H, found); oks += c == 0
        elif op == "get_next_key_and_data": oks += c03_next(ctx, r, m, c, found)
    if ctx.final() and not oks and not unk() and op not in ("fini",): ctx.report("success", "never", "no path succeeds")

def c03_set(ctx, r, m, c, key, H, found):
    E = ctx.E; st = r.st; o = m.o; val = param(ctx, 2); n0 = o.i0("size"); n1 = o.i1("size"); ds = o.i0("data_size"); ks = o.i0("key_size")
    if c != 0:
        chk(ctx, null(ctx, st, 1) or null(ctx, st, 2) or bool(st.flags.get("allocfail")), "rejects", "valid", "a valid request is rejected", r)
        chk(ctx, eq(st, n1, n0), "count", "on-failure", "the count changes although nothing was stored", r); return
    chk(ctx, not null(ctx, st, 1) and not null(ctx, st, 2), "accepts", "null", "a null argument is accepted", r)
    adds = [e for e in m.evs if e.k == "al_add"]; looprid = set()
    for i, x in E.loopinfo.items():
        for s, d in x[2]:
            for e in d:
                if e.k == "al_add": looprid.add(id(e))
    adds = [e for e in adds if id(e) not in looprid]
    if found is not None:
        chk(ctx, eq(st, n1, n0), "count", "replace", "replacing the value of a stored key changes the count", r)
        v = m.field(found[0], "value")
        chk(ctx, copied_to(m, v[1], v[2], val, ds), "value", "replace", "the new value is not copied over the old one with exactly the configured size", r)
        chk(ctx, not adds, "entry", "replace", "a second entry is stored for an existing key", r)
    else:
        a = m.absent(key, H)
        if a is None: ctx.inconclusive("absent", "not-understood")
        else: chk(ctx, a, "absent", "unproven", "a new entry is stored although an equal one may exist", r)
        chk(ctx, eq(st, n1, dom.addc(n0, 1)), "count", "new", "storing a new key does not add exactly one", r)
        if not adds: ctx.inconclusive("entry", "not-seen"); return
        chk(ctx, len(adds) == 1, "entry", "once", "the new entry is stored more than once", r)
        e = adds[0]; ent = e.d[1]
        if ent[0] != "p" or E.R[ent[1]].kind != "heap": ctx.inconclusive("entry", "unknown"); return
        b = E.R[e.d[2][1]] if e.d[2][0] == "p" else None
        chk(ctx, e.d[2][1] == m.map[1] and selects(div8(e.d[2][2]), H, m.cap, st) if H is not None else False, "bucket", "store", "the new entry is not put into the bucket its hash selects", r, e)
        L = E.layout(ENT); hk = E.load(st, ent[1], const(L["hashed_key"][0]), Ty("i", 8, 64))[0][1]
        chk(ctx, hk[0] == "i" and H is not None and eq(st, hk[2], H), "hash", "stored", "the stored hash is not the hash of the key", r)
        for f, src, ln in (("key", key, ks), ("value", val, ds)):
            p = E.load_quiet(st, ent[1], const(L[f][0]))
            if p[0] != "p": ctx.inconclusive(f, "unknown"); continue
            chk(ctx, copied_to(m, p[1], p[2], src, ln), f, "copy", "the %s is not copied with exactly the configured size" % f, r)
    # growth: either nothing changed or every entry went to the bucket its hash selects among the new ones
    cap1 = o.i1("capacity"); mp1 = o.q1("map")
    if mp1[0] == "p" and mp1[1] == m.map[1]:
        chk(ctx, eq(st, cap1, m.cap), "capacity", "kept", "the bucket count changes without a new bucket array", r); return
    d = dom.sub(cap1, dom.scale(m.cap, 2)); q = dom.sub(cap1, dom.scale(m.cap, 4))
    chk(ctx, eq(st, d, const(0)) or eq(st, q, const(0)), "capacity", "growth", "growing does not keep the bucket count a power of two", r)
    outer = None
    for e in m.evs:
        if e.k != "loop": continue
        if any(x.k == "al_add" for x in loops.inside(E, e)): outer = e
    if outer is None: ctx.inconclusive("growth", "no-loop"); return
    cov = loops.covers(E, st, outer, const(0), m.cap)
    chk(ctx, cov is not None, "growth", "buckets", "growing does not visit every old bucket", r, outer)
    for hd, hs0, s, vals in loops.backs(E, outer):
        d = loops.since(E, s, hs0); inner = [x for x in d if x.k == "loop"]
        for x in d:
            if x.k != "al_add": continue
            growth_add(ctx, r, m, s, x, mp1, cap1)
        for x in inner:
            pl = None
            for _, h2, s2, v2 in loops.backs(E, x):
                for y in loops.since(E, s2, h2):
                    if y.k == "al_add":
                        p = m.place(y.d[1][1]) if y.d[1][0] == "p" else None
                        if p:
                            pl = p; growth_add(ctx, r, m, s2, y, mp1, cap1)
                            ix = [(_.hv[it], d) for it, (d, e0) in loops.steps(E, x).items()]
                            if ix: chk(ctx, any(eq(s2, p[1], h) or eq(s2, p[1], dom.addc(h, -1)) for h, d in ix), "growth", "entry", "growing does not move the entry the loop has reached", r, y)
                        else: ctx.inconclusive("growth", "unknown-entry")
            if pl and loops.goes_on(E, outer, vals):
                chk(ctx, loops.covers(E, s, x, const(0), m.bucket_size(pl[2])) is not None, "growth", "entries", "growing does not move every entry of a bucket", r, x)
def growth_add(ctx, r, m, s, x, mp1, cap1):
    p = m.place(x.d[1][1]) if x.d[1][0] == "p" else None
    if not p: ctx.inconclusive("growth", "unknown-entry"); return
    if x.d[2][0] != "p" or x.d[2][1] != mp1[1]: return      # attempt that belongs to another path
    chk(ctx, selects(div8(x.d[2][2]), m.hash_of(p[0]), cap1, s), "growth", "bucket", "an entry is moved to a bucket its hash does not select", r, x)

def c03_next(ctx, r, m, c, found):
    E = ctx.E; st = r.st; o = m.o; prev = param(ctx, 1); first = null(ctx, st, 1); H = m.hashed(prev) if not first else None
    if c == 0:
        ks, ds = o.i0("key_size"), o.i0("data_size"); kp, dp = param(ctx, 2), param(ctx, 3); ent = None
        for e in m.evs:
            if e.k == "memcpy" and e.d[0][0] == "p" and e.d[0][1] == kp[1] and e.d[1][0] == "p":
                og = origin(E, e.d[1][1])
                if og and og[2] and og[2][:2] == (ENT, "key"): ent = og[0]; ln = e.d[2]
        if ent is None: ctx.inconclusive("entry", "unknown"); return 1
        chk(ctx, eq(st, ln, ks), "key", "copy", "the key is not copied with exactly the configured size", r)
        chk(ctx, copied_to(m, dp[1], dp[2], m.field(ent, "value"), ds), "value", "copy", "the value returned is not that of the returned key, or not of the configured size", r)
        p = m.place(ent)
        if p is None: ctx.inconclusive("entry", "place"); return 1
        if not first and not chk(ctx, found is not None, "previous", "missing", "iteration goes on although the previous key was not found", r): return 1
        if found is not None and p[3] == found[3]:
            chk(ctx, eq(st, p[1], dom.addc(found[1], 1)), "order", "bucket", "the entry after the previous one in its bucket is not the one returned", r)
        elif p[1][1]:
            hit = None
            for e in m.evs:
                if e.k != "loop": continue
                for hd, hs0, bs in loops.heads(E, e):
                    for it, h in hd.hv.items():
                        if h == p[1] and h[1]: hit = (e, hd, it, bs)
            if hit is None and found is not None and eq(st, p[1], dom.addc(found[1], 1)) and not eq(st, p[3], found[3]):
                chk(ctx, False, "order", "next-bucket", "iteration does not start with the first entry of the following buckets", r)
            elif hit is None: ctx.inconclusive("order", "index")
            else:
                e, hd, it, bs = hit; ent0 = loops.info(E, e)["entry"].get(it)
                chk(ctx, all(v.get(it, NULL)[0] == "i" and eq(s2, v[it][2], const(0)) for s2, v in bs), "order", "next-bucket", "iteration does not start with the first entry of the following buckets", r, e)
                want = dom.addc(found[1], 1) if found is not None else const(0)
                chk(ctx, ent0 is not None and ent0[0] == "i" and eq(loops.info(E, e)["st0"], ent0[2], want), "order", "bucket", "the entry after the previous one in its bucket is not the one visited next", r, e)
        else:
            chk(ctx, p[1] == const(0), "order", "first", "iteration does not start with the first entry of a bucket", r)
        outer = [e for e in m.evs if e.k == "loop" and any(d == 1 for d, _ in loops.steps(E, e).values()) and not m.compared(st, [x for _, h, s, _ in loops.backs(E, e) for x in loops.since(E, s, h)], prev)]
        if len(outer) == 1:
            start = found[3] if found is not None else const(0)
            ok = any(d == 1 and (eq(loops.info(E, outer[0])["st0"], e0, start)) for d, e0 in loops.steps(E, outer[0]).values())
            chk(ctx, ok, "order", "start", "iteration does not go on from the bucket of the previous key", r, outer[0])
        else: ctx.inconclusive("order", "loops")
        return 1
    if c == 50:
        if st.cs.prove_eq0(o.i0("size")): return 0
        if not first and not chk(ctx, found is not None, "previous", "missing", "iteration ends although the previous key was not found", r): return 0
        done = False; un = True
        for e in m.evs:
            if e.k != "loop": continue
            start = found[3] if found is not None else const(0)
            if loops.covers(E, st, e, start, m.cap): done = True
        chk(ctx, done, "order", "end", "iteration ends before the last bucket was visited", r)
        return 0
    if c == 14:
        if chk(ctx, not first, "previous", "null", "not-found is reported without a previous key", r):
            a = m.absent(prev, H) if found is None else False
            if a is None: ctx.inconclusive("absent", "not-understood")
            else: chk(ctx, a, "absent", "unproven", "the previous key is reported missing although it may be stored", r)
        return 0
    chk(ctx, null(ctx, st, 2) or null(ctx, st, 3), "rejects", "valid", "a valid request is rejected", r)
    return 0
