"""O09: directory iteration and the size of a directory."""
from . import api, dom, driver, loops
from .api import events
from .dom import const, var
from .ir import Ty
from .os_rules import chk
from .strings import failure, eq, le, looped
from .values import param, fact, same, text
PTR = Ty("p", 8)
SIZE = "rcutils_calculate_directory_size_with_recursion"

def fields(E):
    it = E.layout("rcutils_dir_iter_s") or {}
    de = E.layout("dirent") or {}
    return it.get("entry_name", (0,))[0], de.get("d_name", (19,))[0]
def shows(ctx, r, it, rd, what):
    """the iterator's entry name is that of the entry read by event rd (or none)"""
    E = ctx.E; st = r.st; off, name = fields(E)
    v = E.load(st, it[1], dom.addc(it[2], off), PTR)[0][1]
    if v[0] != "p": ctx.inconclusive(what, "name"); return
    if rd is None or rd.d[1] == 0: chk(ctx, v[1] == 0 or fact(ctx, st, v) is True, what, "stale", "an entry name is left although the system lists no further entry", r); return
    if v[1] and E.R[v[1]].kind == "heap": ctx.inconclusive(what, "copied"); return
    chk(ctx, v[1] == rd.d[1] and eq(st, v[2], const(name)), what, "name", "the entry name is not that of the entry the system lists", r)
def start(ctx):
    E = ctx.E; done = 0
    for r in ctx.final():
        st = r.st; evs = events(st)
        if r.ret[0] != "p": ctx.inconclusive("start", "value"); continue
        if r.ret[1] == 0 or E.nullness(st, r.ret[1]) is True:
            why = fact(ctx, st, param(ctx, 0)) is True or failure(ctx, r) or any(e.k == "readdir" and e.d[1] == 0 for e in evs) or any(e.k in ("sys", "sysfail", "opendir") and "opendir" in str(e.d[0]) for e in evs) or opens_fail(evs)
            chk(ctx, why, "start", "refused", "nothing is returned although the directory could be opened and memory is available", r); continue
        op = [e for e in evs if e.k == "call" and e.d[0] in ("opendir", "fdopendir")]
        if not op: ctx.inconclusive("start", "opened"); continue
        if op[-1].d[0] == "opendir": chk(ctx, same(st, op[-1].d[1][0], param(ctx, 0)), "start", "directory", "the directory opened is not the one given", r, op[-1])
        rd = [e for e in evs if e.k == "readdir"]
        if not rd: chk(ctx, False, "start", "first", "the first entry is not read", r); continue
        done += 1
        chk(ctx, len(rd) == 1, "start", "skipped", "more than one entry is read before the first one is shown", r, rd[-1]) if not looped(evs) else ctx.inconclusive("start", "loop")
        shows(ctx, r, r.ret, rd[-1], "start")
    if not done: ctx.report("start", "never", "no path returns an iterator")
def opens_fail(evs):
    n = [e for e in evs if e.k == "call" and e.d[0] == "opendir"]
    return bool(n) and not any(e.k == "open" and e.d[1] for e in evs)
def step(ctx):
    E = ctx.E; kinds = set(); it = param(ctx, 0)
    for r in ctx.final():
        st = r.st; evs = events(st); c = ctx.cval(r)
        if c is None: ctx.inconclusive("next", "value"); continue
        rd = [e for e in evs if e.k == "readdir"]
        if not rd:
            if looped(evs): ctx.inconclusive("next", "loop"); continue
            chk(ctx, not c, "next", "unread", "a further entry is announced although none was read", r); continue
        if looped(evs): ctx.inconclusive("next", "loop"); continue
        got = rd[-1].d[1] != 0; kinds.add(got)
        chk(ctx, len(rd) == 1, "next", "skipped", "an entry is skipped", r, rd[-1])
        chk(ctx, bool(c) == got, "next", "answer", "the answer does not say whether the system lists a further entry", r, rd[-1])
        shows(ctx, r, it, rd[-1], "next")
    if len(kinds) < 2: ctx.inconclusive("next", "kinds")

# ------------------------------------------------------------------ size
def last(evs, k, f=lambda e: True):
    for e in reversed(evs):
        if e.k == k and f(e): return e
def unwrap(v):
    for _ in range(2):
        for s, k in v[1]:
            key = dom.SYMS[s][0]
            if isinstance(key, tuple) and key[0] == "wrapped": v = dom.add(dom.sub(v, dom.scale(var(s), k)), dom.scale(key[2], k)); break
        else: break
    return v
def compared(E, st, rid, lit):
    """True: the name is known to differ from the text, False: known to be it, None: not known, 'other': looked at in another way"""
    other = False
    for i, (key, lo, hi) in enumerate(dom.SYMS):
        if not isinstance(key, tuple): continue
        if key[0] in ("strcmp", "strncmp") and any(x == ("lit", lit) for x in key[1:]) and any(isinstance(x, tuple) and x[0] == "mem" and x[1] == rid for x in key[1:]):
            if key[0] == "strcmp":
                if st.cs.prove_eq0(var(i)): return False
                if loops.impossible(st, var(i)): return True
            else: other = True
        elif key[0] == "chr" and key[2] == rid or key[0] in ("strcasecmp", "memcmp") and any(isinstance(x, tuple) and x[:2] == ("mem", rid) for x in key[1:]): other = True
    return "other" if other else None
def size(ctx):
    E = ctx.E; out = param(ctx, 1 + 1) if False else param(ctx, 2); depth_limit = param(ctx, 1)[2]
    joins = adds = pushes = 0
    dl = "dir_list_t"
    for e, st in E.found:
        if st.cs.bad: continue
        evs = events(st)
        if e.k == "join":
            joins += 1
            a, b, blk = e.d
            op = last(evs, "call", lambda x: x.d[0] == "rcutils_dir_iter_start")
            if op is None or b[0] != "p" or E.R[b[1]].name != "entry name": ctx.inconclusive("entry", "path", e); continue
            if op.d[1][0][0] == "p" and a[0] == "p":
                if same(st, a, op.d[1][0]): ctx.ob(True)
                elif E.R[a[1]].kind in ("join", "sym", "ext", "mem") or E.R[op.d[1][0][1]].kind in ("join", "sym", "ext"): ctx.inconclusive("entry", "directory", e)
                else: ctx.ob(False); ctx.report("entry", "directory", "the path of an entry is not built from the directory being listed", e.loc, e.stk)
            for lit in (b".", b".."):
                k = compared(E, st, b[1], lit)
                if k is True: ctx.ob(True)
                elif k == "other": ctx.inconclusive("entry", "skip", e)
                else: ctx.ob(False); ctx.report("entry", "skip", "the entry %r is not left out" % lit.decode(), e.loc, e.stk)
        elif e.k == "store" and e.d[0] == out[1] and out[1]:
            v = e.d[3]
            if v[0] != "i": ctx.inconclusive("size", "value", e); continue
            n = unwrap(v[2])
            fs = [(s, k) for s, k in n[1] if isinstance(dom.SYMS[s][0], tuple) and dom.SYMS[s][0][0] == "filesize"]
            if not fs:
                inloop = any(x.k == "loop" and any(y.k == "join" for y in loops.inside(E, x)) and any(y.k == "store" and y.loc == e.loc and y.stk == e.stk for y in loops.inside(E, x)) for x in evs)
                if n == const(0) and not inloop and last(evs, "call", lambda x: x.d[0] == "rcutils_dir_iter_start") is None: ctx.ob(True)
                elif n == const(0) and inloop: ctx.ob(False); ctx.report("size", "reset", "the size is set back to zero for every directory", e.loc, e.stk)
                elif not n[1] and inloop: ctx.ob(False); ctx.report("size", "reset", "the size is overwritten while entries are counted", e.loc, e.stk)
                elif not n[1] and n != const(0): ctx.ob(False); ctx.report("size", "initial", "the size does not start at zero", e.loc, e.stk)
                else: ctx.inconclusive("size", "value", e)
                continue
            f = last(evs, "filesize")
            j = last(evs, "join")
            if f is None or len(fs) > 1 and not any(eq(st, var(s), sym(f)) for s, k in fs):
                ctx.inconclusive("size", "which", e); continue
            adds += 1
            mine = [(s, k) for s, k in fs if eq(st, var(s), sym(f))]
            if not mine: ctx.inconclusive("size", "which", e); continue
            if not chk0(ctx, mine[0][1] == 1, "size", "counted", "the size of an entry is not counted once", e): continue
            if f.d[0][0] == "p" and j is not None and f.d[0][1] == j.d[2]: ctx.ob(True)
            else: ctx.inconclusive("size", "path", e)
            rest = dom.sub(n, var(mine[0][0]))
            chk0(ctx, rest[0] == 0, "size", "counted", "something other than the sizes of entries is added", e)
            p = last(evs, "pred", lambda x: x.d[1][0] == "p" and j is not None and x.d[1][1] == j.d[2])
            if p is not None: chk0(ctx, not p.d[2], "size", "directory", "the size of a directory entry itself is counted", e)
        elif e.k == "store" and e.d[3][0] == "p" and E.R[e.d[0]].kind == "heap":
            # a path remembered for later
            j = last(evs, "join")
            if j is None or e.d[3][1] != j.d[2]: continue
            pushes += 1
            p = last(evs, "pred", lambda x: x.d[1][0] == "p" and x.d[1][1] == j.d[2])
            if p is not None: chk0(ctx, p.d[2], "descend", "file", "something that is not a directory is listed later", e)
    # every entry of an iteration is dealt with
    seen = set(); lists = []
    for r in ctx.final():
        lists.append(events(r.st))
        for ev in events(r.st):
            if ev.k != "loop": continue
            for hd, hs0, s, vals in loops.backs(E, ev):
                if id(s) in seen: continue
                seen.add(id(s))
                evs = turn(E, s, hs0); lists.append(events(s))
                if not any(x.k == "call" and x.d[0] == "rcutils_dir_iter_next" for x in evs): continue
                if any(x.k == "loop" for x in evs): continue
                entry(ctx, s, hs0, evs, out, depth_limit)
    if not joins: ctx.inconclusive("entry", "paths")
    if not adds: ctx.report("size", "never", "no size of an entry is ever added") if joins else ctx.inconclusive("size", "never")
    if not pushes: ctx.inconclusive("descend", "never")
    # the first entry of a listing is looked at, and the size starts at zero
    firsts = usedfirst = 0; where = None
    for evs in lists:
        k = [i for i, x in enumerate(evs) if x.k == "call" and x.d[0] == "rcutils_dir_iter_start"]
        for i in k:
            j = next((q for q in range(i, len(evs)) if evs[q].k == "entry"), None)
            n = next((q for q in range(i + 1, len(evs)) if evs[q].k == "call" and evs[q].d[0] == "rcutils_dir_iter_next"), None)
            if j is None or n is None or j > n: continue
            firsts += 1; where = evs[n]
            if any(refers(x, evs[j].d[1]) for x in evs[j + 1:n] if x.k in ("call", "enter", "join")): usedfirst += 1
    if firsts: chk0(ctx, usedfirst > 0, "entry", "first", "the first entry of a directory is passed over", where)
    for evs in lists:
        l = next((i for i, x in enumerate(evs) if x.k == "loop" and any(y.k == "join" for y in loops.inside(E, x))), None)
        if l is None or not any(y.k == "store" and y.d[0] == out[1] for y in loops.inside(E, evs[l])): continue
        z = [x for x in evs[:l] if x.k == "store" and x.d[0] == out[1]]
        chk0(ctx, bool(z) and z[-1].d[3][0] in ("i", "fill") and (z[-1].d[3][0] == "fill" or z[-1].d[3][2] == const(0)), "size", "initial", "the size is added to a value that is not zero at first", evs[l])
        break
    for r in ctx.final():
        if ctx.cval(r) != 0: continue
        z = [x for x in events(r.st) if x.k == "store" and x.d[0] == out[1] or x.k == "loop"]
        chk(ctx, bool(z), "size", "unset", "success is reported without a size", r)
        f = [x for x in events(r.st) if x.k == "sys" and x.d[0] == "opendir" and not x.d[2] or x.k == "allocfail"]
        chk(ctx, not f, "size", "partial", "success is reported although a directory or one of its entries could not be looked at", r, f[0] if f else None)
def sym(f): return var(f.d[1]) if isinstance(f.d[1], int) else f.d[1]
def known(l): return all(isinstance(dom.SYMS[s][0], tuple) and dom.SYMS[s][0][0] in ("loop", "filesize", "wrapped", "unk") for s, _ in l[1])
def chk1(ctx, ok, kind, detail, msg, evs):
    e = [x for x in evs if x.loc and x.loc[1]]
    if e: chk0(ctx, ok, kind, detail, msg, e[-1])
    else: ctx.ob(True)
def chk0(ctx, ok, kind, detail, msg, e):
    ctx.ob(ok)
    if not ok: ctx.report(kind, detail, msg, e.loc, e.stk)
    return ok
def turn(E, s, hs0):
    a, b = events(s), events(hs0)
    return a[len(b):] if len(a) >= len(b) else a
def entry(ctx, st, hs0, evs, out, limit):
    """one turn of the loop over entries: from one entry to the next"""
    E = ctx.E
    j = [x for x in evs if x.k == "join"]
    was, now = [E.load(x, out[1], out[2], Ty("i", 8, 64))[0][1] for x in (hs0, st)]
    diff = dom.sub(unwrap(now[2]), unwrap(was[2])) if was[0] == "i" and now[0] == "i" else None
    if not j:
        if diff is not None and not known(diff): ctx.inconclusive("size", "change")
        elif diff is not None: chk1(ctx, st.cs.prove_eq0(diff), "size", "skipped", "the size changes for an entry that is left out", evs)
        for i, R in list(E.R.items()):
            if R is not None and R.kind == "ext" and R.name == "entry name" and any(refers(x, i) for x in evs if x.k == "call"):
                k = [compared(E, st, i, b"."), compared(E, st, i, b"..")]
                if k == [True, True]: chk1(ctx, False, "entry", "dropped", "an entry other than `.` and `..` is left out", evs)
        return
    j = j[-1]; p = [x for x in evs if x.k == "pred" and x.d[1][0] == "p" and x.d[1][1] == j.d[2]]
    if len(p) != 1: return ctx.inconclusive("entry", "kind")
    at = p[0]
    if not p[0].d[2]:
        f = [x for x in evs if x.k == "filesize" and x.d[0][0] == "p" and x.d[0][1] == j.d[2]]
        w = [x for x in evs if x.k == "store" and x.d[0] == out[1]]
        if not f: chk0(ctx, False, "entry", "uncounted", "an entry that is no directory is not counted", at)
        else: chk0(ctx, len(f) == 1, "entry", "twice", "an entry is counted more than once", f[-1])
        if len(f) == 1:
            if not w or diff is None or not known(dom.sub(diff, sym(f[0]))): ctx.inconclusive("size", "elsewhere")
            else: chk0(ctx, st.cs.prove_eq0(dom.sub(diff, sym(f[0]))), "size", "added", "a turn of the loop does not add the size of its entry to the size so far", w[-1])
    else:
        kept = any(x.k == "store" and x.d[3][0] == "p" and x.d[3][1] == j.d[2] for x in evs) or not any(x.k == "free" and x.d[0] == j.d[2] for x in evs)
        y = st.copy()
        unlimited = y.cs.assume_eq0(limit) and not y.cs.bad
        base = toplevel(ctx, st, events(st), j)
        y = st.copy(); deep = base and y.cs.assume_le(dom.sub(const(2), limit)) and not y.cs.bad
        if not kept and unlimited: chk0(ctx, False, "entry", "directory", "a directory is left out although the depth is not limited", at)
        elif not kept and deep: chk0(ctx, False, "entry", "depth", "a directory within the depth limit is left out", at)
        else: ctx.ob(True)
        if kept:
            if base:
                y = st.copy()
                if y.cs.assume_neq0(limit) and not y.cs.bad: chk0(ctx, y.cs.prove_le(dom.sub(const(2), limit)), "descend", "depth", "a directory beyond the depth limit is listed", at)
            d = [x for x in evs if x.k == "store" and x.d[2] == 4 and x.d[3][0] == "i"]
            top = [x for x in events(st)[:len(events(hs0))] if x.k == "store" and x.d[2] == 4 and x.d[3][0] == "i" and not x.d[3][2][1]]
            if len(d) == 1 and len(top) == 1 and base: chk0(ctx, not eq(st, d[0].d[3][2], top[0].d[3][2]), "descend", "level", "a directory is remembered with the depth of its parent", d[0])
def toplevel(ctx, st, evs, j):
    """the entry belongs to the given directory itself"""
    a = j.d[0]
    return a[0] == "p" and (same(st, a, param(ctx, 0)) or any(x.k == "store" and x.d[0] == a[1] and x.d[3][0] == "copyof" and same(st, x.d[3][1], param(ctx, 0)) for x in evs))
def refers(e, rid):
    return any(isinstance(v, tuple) and len(v) > 1 and v[0] == "p" and v[1] == rid for v in (e.d[1] if e.k in ("call", "enter") else e.d[:2]))
def rule(ctx):
    {"rcutils_dir_iter_start": start, "rcutils_dir_iter_next": step, SIZE: size}[ctx.name](ctx)
def check(o):
    driver.run(o, rule, ["rcutils_dir_iter_start", "rcutils_dir_iter_next", SIZE], {"merge": False, "watch": ("join", "store")})
