"""Rules of the memory-discipline group (M01-M04) over the path summaries of one operation."""
from . import dom, models, spec
from .interp import P, NULL
from .ir import Ty
PTR = Ty("p", 8)

USE = ("use-after-free", "double-free", "uninit-free", "bad-free", "uninit-realloc", "free-of-nonheap", "interior-free", "dangling")
# operations documented to take a fresh output object: what the object held before is not theirs to release
FRESH_OUT = {"rcutils_string_array_init", "rcutils_char_array_init", "rcutils_uint8_array_init", "rcutils_split", "rcutils_split_last"}

def is_null(E, st, rid):
    if rid == 0: return True
    n = E.nullness(st, rid)
    if n is not None: return n
    if E.R[rid].kind == "sym" and E.R[rid].origin and E.R[rid].origin[2] and (E.R[rid].origin[2][0], E.R[rid].origin[2][1]) in spec.NONNULLGE:
        x = st.copy(); E.set_null(x, rid, False)       # contradiction: it must be null
        return bool(x.cs.bad)
    return False

def owned_key(E, rid):
    """(struct, field) of an initial owned pointer"""
    r = E.R[rid]
    if r.kind != "sym" or not r.origin or r.info.get("unk"): return None
    o = r.origin[2]
    if o and (o[0], o[1]) in spec.OWNED: return (o[0], o[1])
    return None

def borrowed(E, st, rid):
    """char arrays whose buffer belongs to the caller"""
    r = E.R[rid]
    if owned_key(E, rid) != ("rcutils_char_array_s", "buffer"): return False
    L = E.layout("rcutils_char_array_s")
    base = dom.addc(r.origin[1], -L["buffer"][0])
    o, sz, t = L["owns_buffer"]
    from .ir import Ty
    v = E.initial(st, r.origin[0], dom.addc(base, o), Ty("i", 1, 8))
    if v[0] == "i" and st.cs.prove_eq0(v[2]): return True
    if v[0] == "b" and v[1] is False: return True
    return False

def roots_at(E, r):
    v = [] if r.ret is None else [r.ret]
    return v

def seeds(E, r):
    """everything the caller can still reach"""
    st = r.st
    vs = roots_at(E, r)
    for rid, x in list(E.R.items()):
        if x.kind in ("param", "global", "const", "ext") or (x.kind == "byval" and not x.info.get("attr") == "x"): vs.append(P(rid))
    for k in st.flags:
        if isinstance(k, tuple) and k[0] == "esc": vs.append(P(k[1]))
    return vs

def leaks(ctx):
    E = ctx.E
    for ev, st in E.found:
        if ev.k == "viol" and ev.d[0] == "leak":
            ctx.report("leak", "loop-" + site_fn(E, ev.d[2]), "block allocated in %s is lost on a path through the loop" % site_fn(E, ev.d[2]), ev.loc, ev.stk)
    for r in ctx.final():
        st = r.st
        reach = E.reachable(st, seeds(E, r))
        # blocks obtained by the operation
        for rid, v in st.heap.items():
            x = E.R[rid]
            if v != "live" or x.kind != "heap" or x.info.get("modelled"): continue
            ok = rid in reach or st.flags.get(("esc", rid)) or is_null(E, st, rid)
            ctx.ob(bool(ok))
            if not ok:
                loc = x.info.get("loc") or ctx.last_loc(r)
                ctx.report("leak", "block-" + site_fn(E, x.info.get("site")), "block allocated here is neither released nor reachable when %s returns %s" % (ctx.name, show_ret(ctx, r)), loc, x.info.get("stack", ()))
        # blocks owned by objects on entry whose slot was overwritten
        def lost(crid, off, k, why):
            p = E.initial(st, crid, off, PTR)
            if p[0] != "p" or not p[1]: return
            rid = p[1]
            ok = (st.heap.get(rid) == "freed" or is_null(E, st, rid) or rid in reach or st.flags.get(("esc", rid)) or borrowed(E, st, rid)
                  or paired_null(E, st, rid))
            ctx.ob(bool(ok))
            if not ok:
                ctx.report("leak", "%s.%s" % k, "block owned by %s (%s.%s) is %s when %s returns %s" % (ctx.desc(rid), k[0], k[1], why, ctx.name, show_ret(ctx, r)), ctx.last_loc(r))
        for crid, log in list(st.mem.items()):
            x = E.R[crid]
            if x.kind not in ("param", "sym", "byval", "global") or x.info.get("unk") or x.ty is None: continue
            if x.info.get("attr") == "sret" or (ctx.name in FRESH_OUT and x.kind == "param"): continue
            offs = set()
            for e in log:
                if e[0] == "cell" and e[2] == 8: offs.add(e[1])
                elif e[0] in ("fill", "copy") and e[2] is not None and dom.isconst(e[1]) and dom.isconst(e[2]):
                    for o in owned_slots(E, x.ty):
                        if e[1][0] <= o < e[1][0] + e[2][0]: offs.add(dom.const(o))
            for off in offs:
                t, ow = E.elem_type(crid, off)
                if not ow: continue
                k = (ow[0], E.role_of(ow[0], ow[1]))
                if k not in spec.OWNED: continue
                v = E.load_quiet(st, crid, off)
                if v[0] == "u" or (v[0] == "p" and E.R[v[1]].info.get("unk")): continue
                i = E.initial(st, crid, off, PTR)
                if v[0] == "p" and i[0] == "p" and v[1] == i[1]: continue
                lost(crid, off, k, "neither released nor kept")
        # owned fields of released single objects
        for crid, v in list(st.heap.items()):
            if v != "freed" or st.flags.get(("modfree", crid)): continue
            x = E.R[crid]
            sn = E.struct_of(x.ty)
            if sn is None or x.info.get("modelled") or x.kind == "heap" or x.info.get("unk"): continue
            if x.origin and x.origin[2] and ((x.origin[2][0], x.origin[2][1]) in spec.EXTENT or x.origin[2][1] == "*"): continue
            L = E.layout(sn) if sn in spec.LAYOUT else {}
            for (s2, fld) in spec.OWNED:
                if s2 != sn or fld not in L: continue
                p = E.load_quiet(st, crid, dom.const(L[fld][0]))
                if p[0] != "p" or is_null(E, st, p[1]) or st.heap.get(p[1]) == "freed" or p[1] in reach or st.flags.get(("esc", p[1])):
                    ctx.ob(True); continue
                if E.R[p[1]].info.get("unk") or E.R[p[1]].kind == "alloca": continue
                ctx.ob(False)
                ctx.report("leak", "%s.%s" % (sn, fld), "%s releases %s without releasing the block in its field %s" % (ctx.name, ctx.desc(crid), fld), ctx.last_loc(r))

def owned_slots(E, ty):
    """offsets of owned pointers inside one object of this type"""
    out = []
    def walk(t, base, depth):
        if depth > 3: return
        d = E.D.desc(t)
        if d[0] != "struct": return
        for n, o, mt in E.D.members(E.D.full(mt_id(E, t)) if False else t):
            if (d[1], E.role_of(d[1], n)) in spec.OWNED: out.append(base + o)
            walk(mt, base + o, depth + 1)
    try: walk(ty, 0, 0)
    except Exception: pass
    return out
def paired_null(E, st, rid):
    """the partner of a both-or-neither pair is known to be null"""
    r = E.R[rid]
    if not r.origin or not r.origin[2]: return False
    sn, f = r.origin[2][0], r.origin[2][1]
    if sn not in spec.PAIRED or f not in spec.PAIRED[sn]: return False
    a, b = spec.PAIRED[sn]
    L = E.layout(sn); base = dom.addc(r.origin[1], -L[f][0])
    q = E.fptr(st, r.origin[0], base, sn, b if f == a else a)
    return q[0] == "p" and is_null(E, st, q[1])
def moved(E, st, crid): return False
def known_used(E, st, rid): return True
def site_fn(E, site):
    if not site: return "?"
    return "/".join(x[0] for x in site)
def show_ret(ctx, r):
    c = ctx.cval(r)
    if c is not None: return str(c)
    if r.ret is not None and r.ret[0] == "p": return "NULL" if is_null(ctx.E, r.st, r.ret[1]) else "a pointer"
    return ""

def beyond_size(E, st, rid, off):
    """slot of a list's storage past the recorded number of elements"""
    r = E.R[rid]
    if not (r.origin and r.origin[2]) or (r.origin[2][0], r.origin[2][1]) != ("rcutils_array_list_impl_s", "list"): return False
    sz = E.field_int(st, r.origin[0], dom.const(0), "rcutils_array_list_impl_s", "size")
    if sz is None: return False
    return not st.cs.prove_le(dom.addc(dom.sub(off, dom.scale(sz, 8)), 8))

def uses(ctx):
    E = ctx.E
    for ev, st in E.found:
        if ev.k == "viol" and ev.d[0] in USE:
            ctx.ob(False)
            rid = next((x for x in ev.d[1:] if isinstance(x, str)), "")
            ctx.report(ev.d[0], "%s" % ev.loc[2], "%s of %s" % (ev.d[0], rid), ev.loc, ev.stk)
    for r in ctx.final():
        st = r.st
        if not any(v == "freed" for v in st.heap.values()): continue
        reach = E.reachable(st, seeds(E, r))
        if r.ret is not None and r.ret[0] == "p" and st.heap.get(r.ret[1]) == "freed":
            ctx.report("dangling", "return", "%s returns a released block" % ctx.name, ctx.last_loc(r))
        for rid in reach:
            if st.heap.get(rid) == "freed": continue
            x = E.R[rid]
            if x.kind in ("const",) or x.info.get("modelled"): continue
            slots = set()
            for e in st.mem.get(rid, ()):
                if e[0] == "cell" and e[3][0] == "p" and st.heap.get(e[3][1]) == "freed": slots.add(e[1])
            for k in E.by_origin.get(rid, ()):
                if st.heap.get(k) == "freed": slots.add(E.R[k].origin[1])
            for off in slots:
                v = E.load_quiet(st, rid, off)
                if beyond_size(E, st, rid, off): continue
                bad = v[0] == "p" and v[1] and st.heap.get(v[1]) == "freed" and not is_null(E, st, v[1])
                ctx.ob(not bad)
                if bad:
                    t, ow = E.elem_type(rid, off)
                    nm = E.role_of(ow[0], ow[1]) if ow else "[]"
                    ctx.report("dangling", "%s.%s" % (ow[0] if ow else ctx.desc(rid), nm),
                               "when %s returns %s, %s (%s) still refers to a released block" % (ctx.name, show_ret(ctx, r), ctx.desc(rid), nm), ctx.last_loc(r))
