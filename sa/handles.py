"""Directory streams and dynamic-library handles (O01), library objects and their names (O04)."""
from . import api, dom, driver, loops, models
from .api import events
from .dom import const, var
from .values import *
from .ir import Ty
from .interp import NULL
from .os_rules import chk, ev_of
from .containers import eq
from .arrays import every
PTR = Ty("p", 8)
KIND = {"dir": "directory stream", "dl": "library handle", "diriter": "directory iterator"}
def kept(ctx, r, h):
    """is the handle stored where the caller finds it: in the object returned or one handed in, or something it refers to"""
    E = ctx.E; st = r.st; evs = every(E, events(st))
    roots = {v[1] for v in E.args.values() if v[0] == "p" and v[1]}
    if r.ret is not None and r.ret[0] == "p" and r.ret[1]: roots.add(r.ret[1])
    if h in roots: return True
    edges = {}
    for e in evs:
        if e.k != "store" or not isinstance(e.d[3], tuple): continue
        v = E.load_quiet(st, e.d[0], e.d[1]) if e.d[1] is not None else None
        if v is not None and v[0] == "p" and v[1]: edges.setdefault(e.d[0], set()).add(v[1])
    seen = set(roots); todo = list(roots)
    for rid in list(edges):
        if E.R[rid].kind == "global" or E.R[rid].origin and E.R[rid].origin[0] in seen: seen.add(rid); todo.append(rid)
    freed = {e.d[0] for e in events(st) if e.k == "free"}
    while todo:
        x = todo.pop()
        if x in freed: continue
        for y in edges.get(x, ()):
            if y == h: return True
            if y not in seen: seen.add(y); todo.append(y)
    return False
def failing(ctx, r):
    c = ctx.cval(r)
    if r.ret is None: return False
    if r.ret[0] == "p": return r.ret == NULL or fact(ctx, r.st, r.ret) is True
    return ctx.returns_status() and c not in (0, None)
def o01(ctx):
    E = ctx.E; ids = set(); done = set()
    for e, st in E.found:
        if e.k == "viol" and (e.d[0] == "use-of-closed-handle" or e.d[0] == "double-free" and "iterator" in str(e.d[1])):
            ctx.ob(False); ctx.report("handle", "closed", "a closed handle is used (%s)" % e.d[1], e.loc, e.stk)
    for r in ctx.final():
        st = r.st; evs = events(st)
        for e in evs:
            if e.k == "open" and e.d[1]:
                h = e.d[1]; f = st.flags.get(("handle", h))
                n = len([x for x in evs if x.k == "close" and x.d[1] == h])
                if f == "closed":
                    if e.d[0] == "dl": chk(ctx, not kept(ctx, r, h), "handle", "dangling", "a library handle that was closed is still held by an object", r, e)
                    chk(ctx, n <= 1, "handle", "twice", "the %s is closed %d times" % (KIND[e.d[0]], n), r, e); continue
                if st.flags.get(("freed", h)) or any(x.k == "free" and x.d[0] == h for x in evs): 
                    chk(ctx, e.d[0] != "diriter", "handle", "freed", "the %s is released without being closed" % KIND[e.d[0]], r, e)
                    if e.d[0] == "diriter": continue
                k = kept(ctx, r, h)
                chk(ctx, k, "handle", "leaked", "the %s is neither closed nor handed to the caller" % KIND[e.d[0]], r, e)
                if k: chk(ctx, not failing(ctx, r), "handle", "failed", "the operation fails but leaves the %s open" % KIND[e.d[0]], r, e)
        for l in evs:
            if l.k != "loop" or id(l) in ids: continue
            ids.add(id(l))
            for hd, hs0, s, vals in loops.backs(E, l):
                for e in loops.since(E, s, hs0):
                    if e.k == "open" and e.d[1] and s.flags.get(("handle", e.d[1])) == "open":
                        held = any(v[0] == "p" and v[1] == e.d[1] for v in vals.values())
                        if held: ctx.inconclusive("handle", "carried")
                        else: chk(ctx, False, "handle", "leaked", "a %s opened in one round of a loop is still open in the next" % KIND[e.d[0]], r, e)
        if ctx.name in CLOSERS: closer(ctx, r, evs)
def at(ctx, p, sn, f):
    return dom.addc(p[2], ctx.E.layout(sn)[f][0])
def closer(ctx, r, evs):
    """the operation that ends an object closes the handle the object holds"""
    E = ctx.E; st = r.st; kind = CLOSERS[ctx.name]; p = param(ctx, 0); c = ctx.cval(r)
    if null(ctx, st, 0) or api.bad_allocator(ctx, st): return
    if kind == "dl":
        h = E.initial(st, p[1], at(ctx, p, "rcutils_shared_library_s", "lib_pointer"), PTR)
        path = E.initial(st, p[1], at(ctx, p, "rcutils_shared_library_s", "library_path"), PTR)
        if fact(ctx, st, h) is True or fact(ctx, st, path) is True: return      # holds nothing
    else:
        L = E.layout("rcutils_dir_iter_s"); s = E.initial(st, p[1], dom.addc(p[2], L["state"][0]), PTR)
        if fact(ctx, st, s) is True: return
        if fact(ctx, st, s) is None: 
            chk(ctx, False, "handle", "unchecked", "whether the iterator has a stream is not found out", r); return
        h = E.initial(st, s[1], const(0), PTR)
        if fact(ctx, st, h) is True: return
    cl = [e for e in evs if e.k == "close" and e.d[1] == h[1]]
    if cl and kind == "dl":
        chk(ctx, not same(st, E.load_quiet(st, p[1], at(ctx, p, "rcutils_shared_library_s", "lib_pointer")), h), "handle", "dangling", "a library handle that was closed is still held by the object", r, cl[0])
    chk(ctx, len(cl) == 1, "handle", "not-closed", "the %s the object holds is closed %d times" % (KIND[kind], len(cl)), r, cl[-1] if len(cl) > 1 else None)
CLOSERS = {"rcutils_unload_shared_library": "dl", "rcutils_dir_iter_end": "dir"}
# ------------------------------------------------------------------ O04
LIB = "rcutils_shared_library_s"
def fld(ctx, st, f, then=True):
    E = ctx.E; p = param(ctx, 0); o = at(ctx, p, LIB, f)
    return E.load_quiet(st, p[1], o) if then else E.initial(st, p[1], o, PTR)
def gone(ctx, st, v): return v == NULL or v is not None and fact(ctx, st, v) is True
def load(ctx):
    E = ctx.E; ok = 0
    for r in ctx.final():
        st = r.st; evs = events(st); c = ctx.cval(r)
        if null(ctx, st, 0): continue
        l0, l1, p0, p1 = (fld(ctx, st, "lib_pointer", False), fld(ctx, st, "lib_pointer"), fld(ctx, st, "library_path", False), fld(ctx, st, "library_path"))
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if c != 0:
            same_ = same(st, l0, l1) and same(st, p0, p1)
            clear = gone(ctx, st, l1) and (gone(ctx, st, p1) or same(st, p0, p1))
            chk(ctx, same_ or clear, "object", "failed", "after failing to load, the object holds a handle or a path", r); continue
        ok += 1
        op = [e for e in evs if e.k == "open" and e.d[0] == "dl"]
        good = [e for e in op if l1[0] == "p" and e.d[1] == l1[1] and e.d[1]]
        if not chk(ctx, len(good) == 1, "object", "handle", "a loaded library does not hold the handle that was opened", r): continue
        chk(ctx, same(st, good[0].d[2][0], param(ctx, 1)), "object", "which", "another library than the one named is opened", r, good[0])
        if not chk(ctx, p1 is not None and fact(ctx, st, p1) is False, "object", "path", "a loaded library does not hold a path", r): continue
        al = [e for e in evs if e.k in ("alloc", "realloc") and p1[1] in e.d[:2]]
        chk(ctx, E.R[p1[1]].kind == "heap" and bool(al), "object", "path-owned", "the path a loaded library holds is not its own copy", r)
        ident = models.strid(E, st, p1)
        names = [models.strid(E, st, param(ctx, 1))]
        for e in evs:
            if e.k == "dlinfo" and e.d[1] and same(st, e.d[0], l1):
                v = E.load_quiet(st, e.d[1], const(8))
                if v is not None and v[0] == "p": names.append(models.strid(E, st, v))
        if ident not in names:
            src = [e for e in evs if e.k == "memcpy" and e.d[0][1] == p1[1]]
            ctx.inconclusive("object", "path-text")
        else: ctx.ob(True)
        a = E.layout(LIB)["allocator"][0]; pa = param(ctx, 2); bad = None
        if pa[0] == "p":
            for k in range(0, E.D.size(E.structs()["rcutils_allocator_s"]) if "rcutils_allocator_s" in E.structs() else 40, 8):
                x = E.load_quiet(st, param(ctx, 0)[1], dom.addc(param(ctx, 0)[2], a + k)); y = E.initial(st, pa[1], dom.addc(pa[2], k), PTR)
                if x is None or not same(st, x, y): bad = k
            chk(ctx, bad is None, "object", "allocator", "a loaded library does not keep the allocator its path was made with", r)
    if not ok: ctx.inconclusive("object", "never")
def unload(ctx):
    E = ctx.E; ok = 0
    for r in ctx.final():
        st = r.st; evs = events(st); c = ctx.cval(r)
        if null(ctx, st, 0): continue
        l0, l1, p0, p1 = (fld(ctx, st, "lib_pointer", False), fld(ctx, st, "lib_pointer"), fld(ctx, st, "library_path", False), fld(ctx, st, "library_path"))
        cl = [e for e in evs if e.k == "close"]
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if not cl:
            chk(ctx, c != 0, "object", "kept", "unloading succeeds without closing the library", r)
            chk(ctx, same(st, l0, l1) and same(st, p0, p1) or gone(ctx, st, l0) and gone(ctx, st, l1) and not gone(ctx, st, p0) is None, "object", "refused", "refusing to unload changes the object", r)
            if not (gone(ctx, st, l0) or gone(ctx, st, p0) or api.bad_allocator(ctx, st)): chk(ctx, False, "object", "refused", "unloading a loaded library is refused", r)
            continue
        ok += 1
        chk(ctx, gone(ctx, st, l1) and gone(ctx, st, p1), "object", "cleared", "an unloaded library still holds its handle or path", r)
        fr = [e for e in evs if e.k == "free" and e.d[0] == p0[1]]
        chk(ctx, len(fr) == 1, "object", "path-released", "the path of an unloaded library is released %d times" % len(fr), r)
        bad = st.flags.get(("closefailed", cl[0].d[1]))
        chk(ctx, (c != 0) == bool(bad), "object", "status", "unloading %s although the system %s" % ("fails" if c else "succeeds", "reports an error" if bad else "closed the library"), r)
    if not ok: ctx.inconclusive("object", "never")
def name(ctx):
    E = ctx.E; ok = set()
    for r in ctx.final():
        st = r.st; evs = events(st); c = ctx.cval(r)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        nul = null(ctx, st, 0) or null(ctx, st, 1)
        size = param(ctx, 2)[2]; dbg = param(ctx, 3)
        d = {(1,): True, (0,): False}.get(tuple(truth(ctx, st, dbg, {})))
        pr = [e for e in evs if e.k == "printf" and e.d[1] is not None and same(st, e.d[1], param(ctx, 1))]
        wr = [e for e in evs if e.k == "store" and e.d[0] == param(ctx, 1)[1]]
        if nul:
            chk(ctx, c == 11 and not wr and not pr, "name", "null", "null arguments are accepted", r); continue
        n = E.strlen(st, param(ctx, 0))
        if c == 0:
            if not pr: 
                if wr: ctx.inconclusive("name", "how")
                else: chk(ctx, False, "name", "nothing", "a library name is reported without having been written", r)
                continue
            if len(pr) > 1: ctx.inconclusive("name", "how"); continue
            e = pr[0]; lit = e.d[4]
            if d is None: chk(ctx, False, "name", "debug", "the file name does not depend on whether the debug library is wanted", r, e); continue
            want = b"lib%sd.so" if d else b"lib%s.so"; extra = len(want) - 2
            ok.add(d)
            got = expand(E, st, lit, e.d[5])
            exp = [want[:3], ("arg", 0), want[5:]]
            if got is None: ctx.inconclusive("name", "format"); continue
            good = got == [b"lib", "name", want[5:]] if False else matches(ctx, st, got, want)
            chk(ctx, good, "name", "text", "the file name is not lib<name>%s.so" % ("d" if d else ""), r, e)
            lim = e.d[2]
            if lim is None or not st.cs.prove_le(dom.sub(lim, size)): chk(ctx, False, "name", "overrun", "more than the caller's buffer size may be written", r, e)
            else: ctx.ob(True)
            if lim is not None: 
                fits = st.cs.prove_le(dom.sub(dom.addc(n, extra + 1), lim))
                if good: chk(ctx, fits or not any(x.k == "trunc" for x in evs), "name", "truncated", "a file name may be cut off but reported as complete", r, e)
        elif c != 0:
            if any(e.k == "fmtfail" for e in evs) or any(isinstance(k, tuple) and k and k[0] == "fmtlen" and st.cs.prove_eq0(var(i)) for i, (k, lo, hi) in enumerate(dom.SYMS)): continue
            if pr and any(e.k == "trunc" for e in evs): 
                lim = pr[0].d[2]
                chk(ctx, lim is not None and st.cs.prove_le(dom.sub(size, lim)), "name", "refused", "a file name that fits the caller's buffer may be refused", r); continue
            if d is None:
                lo = 7
                if st.cs.prove_le(dom.sub(dom.addc(size, 1), dom.addc(n, 7))): continue
                ctx.inconclusive("name", "refused"); continue
            need = 8 if d else 7
            chk(ctx, st.cs.prove_le(dom.sub(dom.addc(size, 1), dom.addc(n, need))), "name", "refused", "a file name that fits the caller's buffer is refused", r)
    for d in (True, False):
        if d not in ok: ctx.inconclusive("name", "never-%s" % d)
def expand(E, st, lit, args):
    """pieces of a formatted text: literal bytes and arguments"""
    if lit is None: return None
    out = []; i = 0; k = 0; cur = b""
    while i < len(lit):
        if lit[i:i + 1] != b"%": cur += lit[i:i + 1]; i += 1; continue
        nx = lit[i + 1:i + 2]
        if nx == b"%": cur += b"%"; i += 2; continue
        if nx not in (b"s", b"c") or k >= len(args): return None
        a = args[k]; k += 1; i += 2
        if nx == b"c":
            c = st.cs.const_of(a[2]) if a[0] == "i" else None
            if c is None: return None
            cur += bytes([c & 255]); continue
        s = models.strid(E, st, a) if a[0] == "p" and a[1] else None
        if s and s[0] == "lit": cur += s[1]; continue
        out += [cur, ("arg", a)]; cur = b""
    out.append(cur)
    return out
def matches(ctx, st, got, want):
    return len(got) == 3 and got[0] == want[:3] and got[2] == want[5:] and isinstance(got[1], tuple) and same(st, got[1][1], param(ctx, 0))
def symbol(ctx):
    E = ctx.E; has = "has" in ctx.name; ok = 0
    todo = []
    for r in ctx.final():
        v = r.ret
        if v is not None and v[0] == "b" and not isinstance(v[1], bool):
            T, F = E.branchn(r.st.copy(), v[1])
            todo += [(r, x, ("b", True)) for x in T if not x.cs.bad] + [(r, x, ("b", False)) for x in F if not x.cs.bad]
        else: todo.append((r, r.st, v))
    for r, st, ret in todo:
        evs = events(st); r0 = r
        class r: pass
        r.st, r.ret, r.kind = st, ret, r0.kind
        if null(ctx, st, 0): bad = True
        else: bad = gone(ctx, st, fld(ctx, st, "lib_pointer", False)) or null(ctx, st, 1)
        ds = [e for e in evs if e.k == "dlsym"]
        if has: pos = r.ret is not None and (r.ret == ("b", True) or r.ret[0] == "i" and loops.impossible(st, r.ret[2])); neg = r.ret is not None and (r.ret == ("b", False) or r.ret[0] == "i" and st.cs.prove_eq0(r.ret[2]))
        else: neg = gone(ctx, st, r.ret); pos = not neg and r.ret is not None and fact(ctx, st, r.ret) is False
        if bad: chk(ctx, neg, "symbol", "accepts", "a symbol is looked up without a library or a name", r); continue
        if not pos and not neg: ctx.inconclusive("symbol", "result"); continue
        if pos:
            ok += 1
            good = [e for e in ds if same(st, e.d[0], fld(ctx, st, "lib_pointer", False)) and same(st, e.d[1], param(ctx, 1)) and fact(ctx, st, e.d[2]) is False and (has or same(st, e.d[2], r.ret))]
            chk(ctx, bool(good), "symbol", "other", "what is reported is not the symbol of this name in this library", r)
        else:
            found = [e for e in ds if fact(ctx, st, e.d[2]) is False]
            err = [e for e in evs if e.k == "dlerror" and fact(ctx, st, e.d[0]) is False and ds and evs.index(e) > evs.index(ds[0])]
            chk(ctx, not found or bool(err), "symbol", "missing", "a symbol that exists is reported as missing", r)
    if not ok: ctx.inconclusive("symbol", "never")
def loaded(ctx):
    for r in ctx.final():
        st = r.st
        if null(ctx, st, 0): continue
        h = fld(ctx, st, "lib_pointer", False); v = r.ret; E = ctx.E; sides = []
        if v is not None and v[0] == "b" and not isinstance(v[1], bool):
            T, F = E.branchn(st.copy(), v[1]); sides = [(x, True) for x in T] + [(x, False) for x in F]
        elif v is not None and v[0] == "b": sides = [(st, v[1])]
        else: ctx.inconclusive("loaded", "result")
        for x, yes in sides:
            g = fact(ctx, x, h)
            if x.cs.bad: continue
            chk(ctx, g is not None and yes == (g is False), "loaded", "wrong", "whether a library is loaded is reported wrongly", r)
O04 = {"rcutils_load_shared_library": load, "rcutils_unload_shared_library": unload, "rcutils_get_platform_library_name": name,
       "rcutils_get_symbol": symbol, "rcutils_has_symbol": symbol, "rcutils_is_shared_library_loaded": loaded}
def o04(ctx):
    from . import lifecycle as lc
    if ctx.name in lc.CREATE: lc.create(ctx)
    O04[ctx.name](ctx)
