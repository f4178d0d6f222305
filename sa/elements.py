"""Everything a finished container held is released: the loops in front of the release of an element block run over all its
elements and every iteration releases what its element owns (or the element owns nothing)."""
from . import api, dom, loops, mem
from .dom import const
from .ir import Ty
PTR = Ty("p", 8)
# element block (owner struct, field): (counting field, element size, offsets of owning pointers)
BLOCKS = {
    ("rcutils_string_array_s", "data"): ("size", 8, (0,)),
    ("rcutils_string_map_impl_s", "key_value_pairs"): ("capacity", 16, (0, 8)),
    ("rcutils_hash_map_impl_s", "map"): ("capacity", 8, (0,)),
    ("rcutils_array_list_impl_s", "list"): ("size", 8, (0,)),
}
FNS = ("rcutils_string_array_fini", "rcutils_string_map_fini", "rcutils_string_map_clear", "rcutils_hash_map_fini")

def block(E, rid):
    r = E.R.get(rid)
    if r is None or r.kind != "sym" or not r.origin or not r.origin[2] or r.info.get("unk"): return None
    o = r.origin[2]; k = (o[0], E.role_of(o[0], o[1]) if o[1] != "*" else "*")
    if k not in BLOCKS: return None
    if k == ("rcutils_array_list_impl_s", "list") and not r.info.get("elem_entry"): return None
    cnt, stride, slots = BLOCKS[k]
    L = E.layout(o[0])
    base = dom.addc(r.origin[1], -L[k[1]][0])
    return k, E.fsym(r.origin[0], base, o[0], cnt), stride, slots

def freed(evs):
    return {e.d[0] for e in evs if e.k == "free"}

def level(ctx, E, st, evs, fin, clear=()):
    """one sequence of events with the state at its end; fin: state in which facts are judged"""
    for n, ev in enumerate(evs):
        if ev.k != "free": continue
        one(ctx, E, st, evs[:n], ev.d[0], ev)
    for ev in evs:
        if ev.k != "loop": continue
        for hd, hs0, s, vals in loops.backs(E, ev):
            level(ctx, E, s, loops.since(E, s, hs0), s)

def one(ctx, E, st, before, rid, ev):
    b = block(E, rid)
    if b is None: return
    (sn, fld), n, stride, slots = b
    if st.cs.prove_le(n): ctx.ob(True); return        # nothing in it
    k = "%s.%s" % (sn, fld)
    cover(ctx, E, st, before, rid, n, stride, slots, k, ev)

def cover(ctx, E, st, before, rid, n, stride, slots, k, ev):
    ls = [e for e in before if e.k == "loop"]
    mine = []
    for l in ls:
        if any(E.R[f].origin and E.R[f].origin[0] == rid for hd, hs0, s, vals in loops.backs(E, l) for f in freed(loops.since(E, s, hs0))): mine.append(l)
    if not mine:
        if ls: ctx.inconclusive("elements", k); return
        ctx.ob(False)
        ctx.report("elements", "none-" + k, "%s is released, what its elements own is not" % ctx.desc(rid), ev.loc, ev.stk); return
    got = None; short = False
    for l in mine:
        I = loops.info(E, l)
        for it, (d, e) in loops.steps(E, l).items():
            dl = shift(E, l, rid, it, stride, slots)
            if dl is None: continue
            first = dom.addc(e, dl)
            if d == 1: ok = (I["st0"].cs.prove_le(first), loops.at_exit(E, st, l, it, lambda h: st.cs.prove_le(dom.sub(n, dom.addc(h, dl)))))
            else: ok = (I["st0"].cs.prove_le(dom.sub(dom.addc(n, -1), first)), loops.at_exit(E, st, l, it, lambda h: st.cs.prove_le(dom.addc(h, dl + 1))))
            if all(ok): got = (l, it, dl); break
            short = True
        if got: break
    if not got:
        if not short and len(mine) == 1 and same_one(E, mine[0], rid):
            ctx.ob(False)
            ctx.report("elements", "same-" + k, "every iteration releases the same element of %s" % ctx.desc(rid), ev.loc, ev.stk); return
        if not short or len(mine) > 1: ctx.inconclusive("elements", k); return
        ctx.ob(False)
        ctx.report("elements", "short-" + k, "the loop that releases what the elements of %s own does not visit all of them" % ctx.desc(rid), ev.loc, ev.stk); return
    l, it, dl = got
    for hd, hs0, s, vals in loops.backs(E, l):
        h = hd.hv.get(it)
        if h is None: ctx.inconclusive("elements", k); continue
        i = dom.addc(h, dl)
        evs = loops.since(E, s, hs0); fr = freed(evs)
        for o in slots:
            off = dom.addc(dom.scale(i, stride), o)
            c = [x for x in slot(E, s, rid, off) if x]
            ok = any(x in fr or mem.is_null(E, s, x) or mem.paired_null(E, s, x) for x in c)
            if not ok and len(slots) > 1:      # keys and values come in pairs
                ok = any(x and mem.is_null(E, s, x) for o2 in slots for x in slot(E, s, rid, dom.addc(dom.scale(i, stride), o2)))
            ctx.ob(bool(ok))
            if not ok: ctx.report("elements", "kept-%s-%d" % (k, o), "an iteration over the elements of %s neither releases what the element owns nor finds it empty" % ctx.desc(rid), ev.loc, ev.stk)
            for x in c:
                if x in fr: inner(ctx, E, s, evs, x, ev)

def slot(E, s, rid, off):
    """the values the slot may have held when the operation started, as far as the path looked at it"""
    p = E.initial(s, rid, off, PTR)
    out = [p[1]] if p[0] == "p" else []
    for x, r in list(E.R.items()):
        if r.kind == "sym" and r.origin and r.origin[0] == rid and x not in out and s.cs.prove_eq0(dom.sub(r.origin[1], off)): out.append(x)
    return out

def shift(E, l, rid, it, stride, slots):
    """which element an iteration releases, relative to the counter: element index = counter + shift"""
    for hd, hs0, s, vals in loops.backs(E, l):
        h = hd.hv.get(it)
        if h is None: continue
        for f in freed(loops.since(E, s, hs0)):
            o = E.R[f].origin
            if not o or o[0] != rid: continue
            for sl in slots:
                x = dom.sub(dom.addc(o[1], -sl), dom.scale(h, stride))
                if not x[1] and x[0] % stride == 0: return x[0] // stride
    return None

def same_one(E, l, rid):
    some = False
    for hd, hs0, s, vals in loops.backs(E, l):
        hv = {x for h in hd.hv.values() for x, _ in h[1]}
        for f in freed(loops.since(E, s, hs0)):
            o = E.R[f].origin
            if not o or o[0] != rid: continue
            if any(x in hv for x, _ in o[1][1]) or E.R[f].info.get("unk"): return False
            some = some or not o[1][1]
    return some

def inner(ctx, E, s, evs, rid, ev):
    """an entry goes with its key and value"""
    sn = E.struct_of(E.R[rid].ty)
    if sn != "rcutils_hash_map_entry_s": return
    L = E.layout(sn); fr = freed(evs)
    for f in ("key", "value"):
        ok = any(x == 0 or x in fr or mem.is_null(E, s, x) for x in slot(E, s, rid, const(L[f][0])))
        ctx.ob(bool(ok))
        if not ok: ctx.report("elements", "entry-" + f, "a hash map entry is released without its %s" % f, ev.loc, ev.stk)

def elements(ctx):
    E = ctx.E
    for r in ctx.final():
        if E.R and ctx.cval(r) not in (0, None): continue
        evs = api.events(r.st)
        level(ctx, E, r.st, evs, r.st)
        if ctx.name == "rcutils_string_map_clear":
            for rid in list(E.R):
                b = block(E, rid)
                if b is None: continue
                (sn, fld), n, stride, slots = b
                if r.st.null.get(rid) is True or r.st.cs.prove_le(n): continue
                last = next((e for e in reversed(evs) if e.k == "loop"), evs[-1] if evs else None)
                if last is None or not any(e.k == "loop" for e in evs):
                    ctx.report("elements", "none-%s.%s" % (sn, fld), "the pairs are not released", ctx.last_loc(r)); continue
                cover(ctx, E, r.st, evs, rid, n, stride, slots, "%s.%s" % (sn, fld), last)
