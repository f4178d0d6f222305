"""S03: the tokens of rcutils_split and rcutils_split_last."""
from . import dom, driver, loops
from .api import events
from .dom import const, var
from .ir import Ty
from .os_rules import chk
from .values import param
I8 = Ty("i", 1, 8); PTR = Ty("p", 8); SZ = Ty("i", 8, 64)

def char(E, st, rid, off):
    v = E.load(st, rid, off, I8)
    return v[0][1][2] if len(v) == 1 and v[0][1][0] == "i" else None
def isdelim(E, st, rid, off, d):
    """True / False / None"""
    c = char(E, st, rid, off)
    if c is None: return None
    x = dom.sub(c, d)
    if st.cs.prove_eq0(x): return True
    res = False if loops.impossible(st, x) else None
    for i, (key, lo, hi) in enumerate(dom.SYMS):        # the same position under another name
        if isinstance(key, tuple) and key[0] == "chr" and key[2] == rid and st.cs.prove_eq0(dom.sub(key[3], off)):
            x = dom.sub(var(i), d)
            if st.cs.prove_eq0(x): return True          # (with res False: no execution takes this path)
            if loops.impossible(st, x): res = False
    return res
def eq(st, a, b): return st.cs.prove_eq0(dom.sub(a, b))
def le(st, a, b): return st.cs.prove_le(dom.sub(a, b))

def pieces(ctx, src):
    """copies of parts of the text into fresh blocks: (event, state, block, start, end, what, size given)"""
    E = ctx.E
    for e, st in E.found:
        if st.cs.bad: continue
        if e.k == "printf":
            fname, buf, n, fmt, lit, args = e.d
            if buf[0] != "p" or E.R[buf[1]].kind != "heap": continue
            a = list(args) if isinstance(args, tuple) and args and isinstance(args[0], tuple) else []
            if lit != b"%s" or len(a) != 1 or a[0][0] != "p" or a[0][1] != src[1]:
                if lit == b"%.*s" and len(a) == 2 and a[1][0] == "p" and a[1][1] == src[1] and a[0][0] == "i": yield e, st, buf, dom.sub(a[1][2], src[2]), dom.add(dom.sub(a[1][2], src[2]), whole(a[0][2]))
                continue
            o = dom.sub(a[0][2], src[2]); L = E.strlen(st, src)
            if n is None: end = L
            else:
                n = n if isinstance(n, tuple) else const(n)
                end = dom.addc(dom.add(o, n), -1)
                if le(st, L, end): end = L
                elif not le(st, end, L): continue
            yield e, st, buf, o, end
        elif e.k == "memcpy":
            d, s, n = e.d
            if d[0] != "p" or s[0] != "p" or s[1] != src[1] or E.R[d[1]].kind != "heap": continue
            o = dom.sub(s[2], src[2])
            yield e, st, d, o, dom.add(o, n if isinstance(n, tuple) else const(n))

def whole(v):
    """the value in front of its narrowing to int"""
    for _ in range(3):
        for s, k in v[1]:
            key = dom.SYMS[s][0]
            if isinstance(key, tuple) and key[0] in ("trunc", "wrapped"):
                lin = key[1] if key[0] == "trunc" else key[2]
                if isinstance(lin, tuple): v = dom.add(dom.sub(v, dom.scale(var(s), k)), dom.scale(lin, k)); break
        else: break
    return v

def scanned(ctx, src, dl):
    """loops over the text carried on two counters: start item's phi -> verdicts of its back edges"""
    E = ctx.E; out = {}
    for r in ctx.final():
        for ev in events(r.st):
            if ev.k != "loop": continue
            for hd, hs0, s, vals in loops.backs(E, ev):
                for it, h in hd.hv.items():
                    if it[0] != "phi" or it not in vals or vals[it][0] != "i" or len(h[1]) != 1: continue
                    out.setdefault(h[1][0][0], []).append((s, h, vals[it][2]))
    return out

def s03(ctx):
    E = ctx.E; src = param(ctx, 0); dl = param(ctx, 1)[2]; full = ctx.name == "rcutils_split"; toks = 0; blocks = {}
    back = scanned(ctx, src, dl); ai = 3
    for e, st, buf, o, end in pieces(ctx, src):
        toks += 1; blocks.setdefault(buf[1], []).append((o, end)); L = E.strlen(st, src); rid = src[1]
        if not eq(st, buf[2], const(0)): ctx.report("token", "place", "a token does not start at the beginning of its block", e.loc, e.stk)
        # end: in front of a delimiter, or the end of the text
        at = isdelim(E, st, rid, dom.add(src[2], end), dl) if le(st, dom.addc(end, 1), L) else None
        if at is True or eq(st, end, L): ctx.ob(True)
        elif isdelim(E, st, rid, dom.add(src[2], dom.addc(end, -1)), dl) is True and le(st, dom.addc(o, 1), end) and not eq(st, end, L) and full:
            ctx.ob(False); ctx.report("token", "delimiter", "a token includes the delimiter behind it", e.loc, e.stk)
        elif at is False and eq(st, dom.addc(end, 1), L): ctx.ob(False); ctx.report("token", "cut", "a token loses the last character of the text", e.loc, e.stk)
        elif at is False and (full or not loopy(end)) and (le(st, dom.addc(end, 1), L) or loops.impossible(st, dom.sub(end, L))):
            ctx.ob(False); ctx.report("token", "cut", "a token ends where the text goes on without a delimiter", e.loc, e.stk)
        elif any(le(st, dom.addc(end, k), L) and isdelim(E, st, rid, dom.add(src[2], dom.addc(end, k)), dl) is True or eq(st, dom.addc(end, k), L) and at is not True for k in (1, 2)) and at is None:
            ctx.ob(False); ctx.report("token", "cut", "a token ends before the character in front of the next delimiter", e.loc, e.stk)
        elif at is None and st.cs.const_of(dom.sub(end, o)) is not None and st.cs.const_of(dom.sub(end, o)) > 8:
            ctx.ob(False); ctx.report("token", "cut", "a token is cut at a fixed length", e.loc, e.stk)
        else: ctx.inconclusive("token", "end", e)
        # start: the beginning of the text or behind a delimiter
        if eq(st, o, const(0)):
            ctx.ob(True)
            if full and isdelim(E, st, rid, src[2], dl) is True and le(st, const(1), end): ctx.ob(False); ctx.report("token", "leading", "a token starts with the delimiter", e.loc, e.stk)
        elif isdelim(E, st, rid, dom.add(src[2], dom.addc(o, -1)), dl) is True: ctx.ob(True)
        elif not o[1] and o[0] > 0 and isdelim(E, st, rid, dom.add(src[2], dom.addc(o, -1)), dl) is False:
            ctx.ob(False); ctx.report("token", "start", "a token starts in the middle of a piece", e.loc, e.stk)
        elif isdelim(E, st, rid, dom.add(src[2], o), dl) is True and le(st, dom.addc(o, 1), end) and full:
            ctx.ob(False); ctx.report("token", "leading", "a token starts with the delimiter", e.loc, e.stk)
        elif len(o[1]) == 1 and o[1][0][1] == 1 and o[1][0][0] in back:
            for s, h, v in back[o[1][0][0]]:
                if v == h or s.cs.bad: continue
                first = dom.addc(v, o[0])
                if isdelim(E, s, rid, dom.add(src[2], dom.addc(first, -1)), dl) is True: ctx.ob(True)
                elif isdelim(E, s, rid, dom.add(src[2], first), dl) is True:
                    ctx.ob(False); ctx.report("token", "leading", "the next token starts with the delimiter", E_loc(ctx, s))
                elif isdelim(E, s, rid, dom.add(src[2], dom.addc(first, -2)), dl) is True and isdelim(E, s, rid, dom.add(src[2], dom.addc(first, -1)), dl) is not True:
                    ctx.ob(False); ctx.report("token", "start", "the next token leaves out the character behind the delimiter", E_loc(ctx, s))
                else: ctx.inconclusive("token", "start", e)
        else: ctx.inconclusive("token", "start", e)
        if full:
            ok = le(st, dom.addc(o, 1), end)
            if ok: ctx.ob(True)
            elif le(st, end, o) or le(st, dom.sub(end, o), const(0)): ctx.ob(False); ctx.report("token", "empty", "an empty token is stored", e.loc, e.stk)
            elif opaque(end): ctx.inconclusive("token", "length", e)
            else:
                # can it be empty on this path?
                x = st.copy()
                if x.cs.assume_le(dom.sub(end, o)) and not x.cs.bad and not loopy(o) and not loopy(end): ctx.ob(False); ctx.report("token", "empty", "an empty token can be stored", e.loc, e.stk)
                elif x.cs.bad: ctx.ob(True)
                else:
                    ctx.ob(False); ctx.report("token", "empty", "nothing keeps an empty token from being stored", e.loc, e.stk)
    failed = done = 0
    for r in ctx.final():
        st = r.st; c = ctx.cval(r); a = param(ctx, ai)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if a[0] != "p" or a[1] == 0 or E.nullness(st, a[1]) is not False: continue
        f = E.layout("rcutils_string_array_s") if hasattr(E, "layout") else None
        so, do = f["size"][0], f["data"][0]
        d = E.load(st, a[1], dom.addc(a[2], do), PTR)[0][1]; z = E.load(st, a[1], dom.addc(a[2], so), SZ)[0][1]
        evs = events(st)
        if c != 0:
            failed += 1
            ok = d[0] == "p" and (d[1] == 0 or E.nullness(st, d[1]) is True) and z[0] == "i" and st.cs.prove_eq0(z[2])
            chk(ctx, ok, "failure", "output", "after a failure the output array is not empty", r)
            continue
        done += 1
        if d[0] != "p" or z[0] != "i": continue
        k = st.cs.const_of(z[2])
        if d[1] == 0 or E.nullness(st, d[1]) is True: chk(ctx, k == 0 or st.cs.prove_eq0(z[2]), "success", "slots", "an array without storage has a size", r); continue
        if any(e.k == "loop" and writes_array(E, e, d[1]) for e in evs) or k is None or not 0 < k < 4: ctx.inconclusive("slots", "loop"); continue
        for i in range(k):
            v = E.load(st, d[1], dom.addc(d[2], 8 * i), PTR)[0][1]
            if v[0] != "p": ctx.inconclusive("slots", "value"); continue
            if not chk(ctx, v[1] != 0 and E.nullness(st, v[1]) is not True, "slot", "empty", "slot %d of the result holds no token" % i, r): continue
            if v[1] in blocks: ctx.ob(True)
            elif E.R[v[1]].kind == "heap" and not any(x[0] == "hv" for x in E.log(st, v[1])) and not any(x[0] in ("copy", "str") for x in E.log(st, v[1])) and not texts(evs, v[1]):
                chk(ctx, False, "slot", "text", "slot %d of the result holds no copied text" % i, r)
            else: ctx.inconclusive("slot", "text")
        if k == 2:
            # the two sides of one delimiter
            p = [E.load(st, d[1], dom.addc(d[2], 8 * i), PTR)[0][1] for i in (0, 1)]
            if all(x[0] == "p" and len(blocks.get(x[1], ())) == 1 for x in p):
                (o0, e0), (o1, e1) = blocks[p[0][1]][0], blocks[p[1][1]][0]
                chk(ctx, le(st, dom.addc(e0, 1), o1), "order", "sides", "the first token does not end in front of the second one", r)
    if not toks: ctx.inconclusive("token", "copies")
    if not done or not failed: ctx.report("paths", "missing", "no path %s" % ("succeeds" if not done else "fails"))

def E_loc(ctx, s):
    e = s.ev
    while e is not None:
        if e[0].loc and e[0].loc[1]: return e[0].loc
        e = e[1]
    return None
def loopy(lin): return any(isinstance(dom.SYMS[s][0], tuple) and dom.SYMS[s][0][0] in ("loop", "join", "hull", "blend") for s, _ in lin[1])
def opaque(lin): return any(isinstance(dom.SYMS[s][0], tuple) and dom.SYMS[s][0][0] in ("trunc", "wrapped", "udivs", "prod") for s, _ in lin[1])
def texts(evs, rid): return any(e.k in ("printf",) and e.d[1][0] == "p" and e.d[1][1] == rid or e.k == "memcpy" and e.d[0][0] == "p" and e.d[0][1] == rid for e in evs)
def writes_array(E, e, rid):
    return any(x.k == "store" and x.d[0] == rid for x in loops.inside(E, e))
def check(o): driver.run(o, s03, ["rcutils_split", "rcutils_split_last"], {"merge": False, "watch": ("printf", "memcpy")})
