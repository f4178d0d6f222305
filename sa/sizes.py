"""M06: no block is obtained with a size that wrapped around or was cut."""
from . import dom, driver, heap, spec
from .api import events
from .dom import const, var

def mentions(lin, depth=0):
    """symbols of wrapped or narrowed values, and whether they are reached through another operation"""
    out = []
    for s, _ in lin[1]:
        key = dom.SYMS[s][0]
        if not isinstance(key, tuple): continue
        if key[0] in ("wrapped", "trunc"): out.append((s, key, depth)); continue
        if depth > 4: continue
        for x in key[1:]:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple) and all(isinstance(y, tuple) and len(y) == 2 for y in x[1]): out += mentions(x, depth + 1)
    return out

def truelin(lin, depth=0):
    """the number meant, in unbounded arithmetic"""
    out = const(lin[0])
    for s, k in lin[1]:
        key = dom.SYMS[s][0]
        if isinstance(key, tuple) and key[0] == "wrapped" and depth < 8: out = dom.add(out, dom.scale(truelin(key[2], depth + 1), k))
        elif isinstance(key, tuple) and key[0] == "trunc" and depth < 8: out = dom.add(out, dom.scale(truelin(key[1], depth + 1), k))
        else: out = dom.add(out, dom.scale(var(s), k))
    return out

def modular(t):
    """the number with coefficients taken modulo the word size"""
    return (t[0], tuple((s, (k + (1 << 63)) % (1 << 64) - (1 << 63)) for s, k in t[1] if k % (1 << 64)))

def fitting(st, t, depth=0):
    """t is at most the largest value of a word, so that arithmetic modulo the word size gives exactly t"""
    if st.cs.prove_le(dom.addc(t, 1 - (1 << 64))): return True
    if depth > 2: return False
    prods = [(s, k, dom.SYMS[s][0][1:]) for s, k in t[1] if isinstance(dom.SYMS[s][0], tuple) and dom.SYMS[s][0][0] == "prod"]
    for c in {x for _, _, fs in prods for x in fs}:
        B = const(0); A = t
        for s, k, fs in prods:
            if c not in fs: continue
            rest = list(fs); rest.remove(c)
            if len(rest) != 1: break
            B = dom.add(B, dom.scale(var(rest[0]), k)); A = dom.sub(A, dom.scale(var(s), k))
        else:
            # t = A + c * B
            if st.cs.prove_le(B): 
                if fitting(st, A, depth + 1): return True
                continue
            for i, (key, lo, hi) in enumerate(dom.SYMS):
                # B <= x / c gives c * B <= x
                if isinstance(key, tuple) and key[0] == "udivs" and (st.cs.prove_eq0(dom.sub(key[2], B))) and st.cs.prove_le(dom.sub(var(c), var(i))) and fitting(st, dom.add(A, key[1]), depth + 1): return True
                if isinstance(key, tuple) and key[0] == "udivs" and key[2] == var(c) and st.cs.prove_le(dom.sub(B, var(i))) and fitting(st, dom.add(A, key[1]), depth + 1): return True
    return False

def m06(ctx):
    E = ctx.E; seen = set()
    def look(st, e):
        size = e.d[1] if e.k == "alloc" else e.d[2]
        if not (isinstance(size, tuple) and len(size) == 2): return
        m = mentions(size)
        if not m: ctx.ob(True); return
        if any(d for _, _, d in m): 
            ctx.inconclusive("size", "derived", e); return
        t = truelin(size)
        ok = st.cs.prove_le(dom.sub(t, size)) or all(k[0] == "wrapped" and k[1] == 64 for _, k, _ in m) and fitting(st, modular(t)) or any(k[0] == "trunc" for _, k, _ in m) and fits(st, m)
        ctx.ob(ok)
        if not ok:
            ctx.report("size", "wraps" if m[0][1][0] == "wrapped" else "cut", "a block is requested with a size that %s: %s stands for %s" % ("wrapped around" if m[0][1][0] == "wrapped" else "was cut", dom.show(size), dom.show(t)), e.loc, e.stk)
    for e, st in E.found:
        if e.k in ("alloc", "realloc") and not st.cs.bad: look(st, e)
def fits(st, m):
    for s, k, _ in m:
        if k[0] == "trunc":
            if not (st.cs.prove_le(dom.addc(k[1], 1 - (1 << k[2]))) and st.cs.prove_le(dom.scale(k[1], -1))): return False
        else: return False
    return True
def bare(M, D, name, opts):
    """engine that looks into the members of the default allocator instead of assuming what they do"""
    md = {k: v for k, v in driver.base_models(name).items() if not k.startswith("__default_")}
    return spec.SpecEngine(M, D, md, opts)
def members(ctx):
    """a member of the default allocator obtains at least what it was asked for"""
    E = ctx.E; a = list(E.args.values()); n = [v for v in a if v[0] == "i"]
    m06(ctx)
    if not n: return
    want = n[0][2]
    for x in n[1:]: want = dom.mul(want, x[2])
    for r in ctx.final():
        if r.ret is None or r.ret[0] != "p": ctx.inconclusive("result", "value"); continue
        if r.ret[1] == 0 or E.nullness(r.st, r.ret[1]) is True: ctx.ob(True); continue
        b = [e for e in events(r.st) if e.k in ("alloc", "realloc") and (e.d[0] if e.k == "alloc" else e.d[1]) == r.ret[1]]
        if not b: ctx.inconclusive("result", "block"); continue
        size = b[-1].d[1] if b[-1].k == "alloc" else b[-1].d[2]
        ok = r.st.cs.prove_le(dom.sub(want, size))
        ctx.ob(ok)
        if not ok: ctx.report("default", "size", "the default allocator gives a block of %s bytes where %s are requested" % (dom.show(size), dom.show(want)), b[-1].loc, b[-1].stk)
def check(o):
    W = {"merge": False, "watch": ("alloc", "realloc")}
    driver.run(o, m06, None, W)
    M = driver.load()[0]
    cov = dict(o.coverage)
    f = sorted(n for n in heap.defaults() if n in M.funcs and M.funcs[n].blocks and n not in driver.public(M))
    driver.run(o, members, f, W, mk=bare)
    o.coverage["default_allocator_members"] = f
    for k in ("functions", "complete_functions", "path_summaries"): o.coverage[k] += cov.get(k, 0)
    o.coverage["per_function"].update(cov.get("per_function", {}))
