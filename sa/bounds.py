"""Rules of the bounds group (M05, M06) over the access obligations of one operation."""
from . import dom, models
from .undecided import undecided
ACC = ("oob", "uninit", "strlen?")

def global_bound(E, st, rid, off):
    """index into a global table bounded by a global counter of the table's entries"""
    if E.R[rid].kind != "global" or not off[1]: return False
    for c in st.cs.cons:
        if any(s == x for s, _ in off[1] for x, _ in c[1]):
            for x, k in c[1]:
                m = dom.SYMS[x][0]
                if isinstance(m, tuple) and m[0] == "init" and E.R[m[1]].kind == "global" and m[1] != rid: return True
    return False

def oobs(ctx, wrapped=None):
    E = ctx.E
    ctx.obs(E.nacc)
    for ev, st in E.found:
        if ev.k == "oob":
            kind, rid, off, size, ext, lo, hi = ev.d
            if E.R[rid].info.get("unk") or undecided("M05", ctx.name, "%s-%s" % (kind, ctx.desc(rid))) or global_bound(E, st, rid, off):
                ctx.inconclusive("oob", "%s-%s" % (kind, ctx.desc(rid)), ev); continue
            ctx.report("oob", "%s-%s" % (kind, ctx.desc(rid)), "%s at offset %s, size %s of %s (extent %s) is not provably inside the block" % (kind, dom.show(off), dom.show(size) if isinstance(size, tuple) else size, ctx.desc(rid), dom.show(ext) if ext else "?"), ev.loc, ev.stk)
        elif ev.k == "uninit":
            rid = ev.d[0]
            if undecided("M05", ctx.name, ctx.desc(rid)):
                ctx.inconclusive("uninit", ctx.desc(rid), ev); continue
            ctx.report("uninit", ctx.desc(rid), "bytes of %s are read before anything was stored there" % ctx.desc(rid), ev.loc, ev.stk)
        elif ev.k == "strlen?":
            rid = ev.d[0]
            if E.R[rid].info.get("unk") or undecided("M05", ctx.name, ctx.desc(rid)):
                ctx.inconclusive("unterminated", ctx.desc(rid), ev); continue
            ctx.report("unterminated", ctx.desc(rid), "%s is read as a string without a provable terminator" % ctx.desc(rid), ev.loc, ev.stk)
