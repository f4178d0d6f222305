"""Which positions of a text (or array) a path has examined and what it established about each of them: ranges covered by
loops whose every further iteration establishes the same fact at counter + shift, single positions, library scans."""
from . import api, dom, loops, values, strmap
from .dom import const, var

# ---------------------------------------------------------------- what the indexed things are
class Chars:
    n = None
    """characters of the text at pointer value p; fact: differs from the character c"""
    def __init__(s, E, p, c): s.E = E; s.p = p; s.c = c
    def items(s):
        for i, (k, lo, hi) in enumerate(dom.SYMS):
            if not isinstance(k, tuple) or len(k) != 4: continue
            if k[0] == "init" and k[1] == s.p[1] and k[3] == 1: yield dom.sub(k[2], s.p[2]), i
            elif k[0] == "chr" and k[1] == "init" and k[2] == s.p[1]: yield dom.sub(k[3], s.p[2]), i
    def other(s, st, i): return any(st.cs.prove_neq0(d) for d in s.diffs(i))
    def hit(s, st, i): return any(st.cs.prove_eq0(d) for d in s.diffs(i))
    def diffs(s, i):
        out = [dom.sub(var(i), s.c)]
        z = {k[1]: n for n, (k, lo, hi) in enumerate(dom.SYMS) if isinstance(k, tuple) and k[0] == "zext8" and k[1] in (var(i), s.c)}
        if var(i) in z and s.c in z: out.append(dom.sub(var(z[var(i)]), var(z[s.c])))
        elif var(i) in z and not s.c[1]: out.append(dom.addc(var(z[var(i)]), -(s.c[0] & 255)))
        return out
    def index(s, off):
        return dom.sub(off, s.p[2])
class Texts:
    n = None
    """texts an array of pointers at p refers to; fact: does not match (equal: whole text, else: begins with) the text key"""
    def __init__(s, E, p, key, equal): s.E = E; s.p = p; s.key = key; s.equal = equal
    def items(s):
        for rid, r in list(s.E.R.items()):
            if r.kind == "sym" and r.origin and r.origin[0] == s.p[1]:
                d = dom.sub(r.origin[1], s.p[2])
                if d[0] % 8 == 0 and all(k % 8 == 0 for _, k in d[1]): yield (d[0] // 8, tuple((x, k // 8) for x, k in d[1])), rid
    def verdict(s, st, rid, trivial=True):
        n = s.E.strlen(st, s.key)
        if s.equal: return strmap.texts_equal(st, s.E, rid, s.key, n)
        return begins(st, s.E, rid, s.key, n, trivial)
    def other(s, st, i): return s.verdict(st, i) is False
    def hit(s, st, i): return s.verdict(st, i) is True

def begins(st, E, S, key, n, trivial=True):
    """does the text S begin with the n characters of key, as far as the path established it"""
    def me(i, rid, off): return i[0] == "mem" and i[1] == rid and i[2] == off
    for i, m in list(dom.META.items()):
        k = m.get("strcmp") if isinstance(m, dict) else None
        if not isinstance(k, tuple) or k[0] not in ("strcmp", "strncmp", "memcmp"): continue
        if not (me(k[1], S, const(0)) and me(k[2], key[1], key[2]) or me(k[2], S, const(0)) and me(k[1], key[1], key[2])): continue
        if st.cs.prove_eq0(var(i)):
            if k[0] == "strcmp" or st.cs.prove_le(dom.sub(n, k[3])): return True
        elif loops.impossible(st, var(i)):
            if k[0] != "strcmp" and st.cs.prove_le(dom.sub(k[3], n)): return False
    if not trivial: return None
    if st.cs.prove_le(n): return True
    L = E.strlen(st, ("p", S, const(0)))
    if L is not None and st.cs.prove_le(dom.addc(dom.sub(L, n), 1)): return False
    return None

# ---------------------------------------------------------------- ranges
class Scan:
    def __init__(s): s.ranges = []; s.hits = []; s.within = []; s.unknown = False; s.seen = []
def by_loops(E, X, evs):
    """ranges loops on the path covered, positions they remembered as hits, and whether a loop was not understood"""
    out = Scan()
    for l in evs:
        if l.k == "loop": one_loop(E, X, l, out)
    return out
def into(E, l):
    """for every head the (head, state, values) of the iterations that lead to it"""
    I = loops.info(E, l); m = {}
    for hd, hs0, s, vals in loops.backs(E, l): m.setdefault(I["shape"](s, vals), []).append((hd, s, vals))
    return m
def one_loop(E, X, l, out):
    I = loops.info(E, l); st = loops.steps(E, l); m = into(E, l); understood = True; mine = {}
    for hd, hs0, bs in loops.heads(E, l):
        # heads an execution leaving at hd may have passed
        P = {hd.key}; todo = [hd.key]
        while todo:
            for src, s, vals in m.get(todo.pop(), ()):
                if src.key not in P: P.add(src.key); todo.append(src.key)
        B = [(src, s, vals) for k in P for src, s, vals in m.get(k, ())]
        some = False; looked = False; R = []
        for it, (d, e) in st.items():
            good = None; seen = None
            for src, s, vals in B:
                h = src.hv.get(it)
                if h is None: good = set(); break
                here = {}
                for ix, k in X.items():
                    x = dom.sub(ix, h)
                    if not x[1]: here[x[0]] = here.get(x[0]) or X.other(s, k)
                looked = looked or bool(here)
                g = {x for x, y in here.items() if y}
                good = g if good is None else good & g
                seen = set(here) if seen is None else seen & set(here)
            for x in good or ():
                h = hd.hv.get(it)
                if h is None: continue
                some = True
                if d == 1: R.append((dom.addc(e, x), dom.addc(h, x), l))
                else: R.append((dom.addc(h, x + 1), dom.addc(e, x + 1), l))
            if not good and seen: some = True      # looked at, nothing established: a range that covers nothing
        mine[hd.key] = R
        if B and not some and not (st and not looked): understood = False
    if not st and any(True for _ in loops.backs(E, l)): understood = strided(E, X, l)
    for R in mine.values(): out.ranges += R
    for hd, hs0, bs in loops.heads(E, l):
        for it, k in hd.key:
            if k[0] == "int" and it in hd.hv and m.get(hd.key):
                for x in (0, -1, 1): remembered(E, X, l, I, hd, it, x, m[hd.key], st, mine, out)
    syms = {k if isinstance(k, int) else k[0] for ix, k in X.items()}
    for hd, hs0, s, vals in loops.backs(E, l):     # a comparison's result carried into the next iteration
        if any(v[0] == "i" and any(x in syms and isinstance(dom.META.get(x), dict) for x, _ in v[2][1]) for v in vals.values()): understood = False
    if not understood: out.unknown = True
def remembered(E, X, l, I, hd, it, x, B, st, mine, out):
    """the item (plus x) is the position of a hit in every state that reaches the head"""
    new = []; keep = []
    v0 = I["entry"].get(it)
    if I["shape"](I["st0"], I["entry"]) == hd.key: return
    for src, s, vals in B:
        v = vals.get(it)
        if v is None or v[0] != "i": return
        if src.key == hd.key and eq(s, v[2], hd.hv[it]): keep.append((src, s, vals)); continue
        if not is_hit(E, X, s, (), dom.addc(v[2], x)): return
        new.append((src, s, vals, dom.addc(v[2], x)))
    if not new: return
    r = dom.addc(hd.hv[it], x)
    out.hits.append(r)
    if X.n is not None and all(inside(s, rr, X.n) for src, s, vals, rr in new): out.within.append(r)
    for c, (d, e) in st.items():
        if c not in hd.hv or any(src.hv.get(c) is None or c not in vals or vals[c][0] not in "ip" for src, s, vals in B): continue
        for y in (-1, 0, 1):
            ok = True
            for src, s, vals in keep:
                ok = ok and any(eq(s, ix, dom.addc(src.hv[c], y)) and X.other(s, k) for ix, k in X.items())
            for src, s, vals, rr in new:
                h2 = vals[c][2] if vals[c][0] == "i" else dom.addc(src.hv[c], d)
                lim = dom.sub(dom.addc(h2, y), dom.addc(rr, 1)) if d == 1 else dom.sub(rr, dom.addc(h2, y + 1))
                ok = ok and s.cs.prove_le(lim)
            if ok: out.ranges.append((dom.addc(r, 1), dom.addc(hd.hv[c], y), l) if d == 1 else (dom.addc(hd.hv[c], y + 1), r, l))
    for a, b, _ in [q for src, s, vals, rr in new for q in mine.get(src.key, ())]:
        if all(covered(s, mine.get(src.key, []), a, rr) for src, s, vals, rr in new): out.ranges.append((a, r, l))
        if all(covered(s, mine.get(src.key, []), dom.addc(rr, 1), b) for src, s, vals, rr in new): out.ranges.append((dom.addc(r, 1), b, l))
def eq(st, a, b): return st.cs.prove_eq0(dom.sub(a, b))
def strided(E, X, l):
    """a loop whose counters all move by more than one position while it looks at one position each time"""
    its = set()
    for hd, hs0, bs in loops.heads(E, l): its |= {it for it, k in hd.key if k[0] == "int" and it in hd.hv}
    for it in its:
        ds = set(); ix = set()
        for hd, hs0, s, vals in loops.backs(E, l):
            v = vals.get(it); h = hd.hv.get(it)
            if v is None or v[0] != "i" or h is None: return False
            d = dom.sub(v[2], h)
            if d[1]: ds.add(None); continue
            ds.add(d[0])
            for i, k in X.items():
                x = dom.sub(i, h)
                if not x[1]: ix.add(x[0])
        if len(ds) == 1 and None not in ds and ix and abs(next(iter(ds))) > len(ix): return True
    return False
def singles(E, X, st, holds):
    return [(ix, dom.addc(ix, 1), None) for ix, k in X.items() if holds(st, k)]
def by_library(E, X, st, evs):
    out = []
    if not isinstance(X, Chars): return out
    for ev in evs:
        if ev.k not in ("found", "notfound", "strchr") or ev.d[0][1] != X.p[1]: continue
        if ev.k == "strchr":
            p, c, o = ev.d
            if not same_char(st, c, X.c): continue
            lo = dom.sub(p[2], X.p[2]); L = E.strlen(st, p)
            if o is not None: out.append((lo, dom.add(lo, o), ev))
            elif L is not None: out.append((lo, dom.add(lo, L), ev))
            continue
        p, ln, c, last = ev.d[:4]
        if not same_char(st, c, X.c): continue
        lo = dom.sub(p[2], X.p[2])
        if ev.k == "notfound": out.append((lo, dom.add(lo, ln), ev))
        else:
            o = dom.add(lo, ev.d[4])
            out.append((lo, o, ev) if not last else (dom.addc(o, 1), dom.add(lo, ln), ev))
    return out
def same_char(st, c, d):
    if c is None or c[0] != "i": return False
    x = dom.sub(c[2], d)
    return st.cs.prove_eq0(x) or not x[1] and x[0] % 256 == 0
def ranges(E, X, st, evs):
    sc = by_loops(E, X, evs)
    return sc.ranges + singles(E, X, st, X.other) + by_library(E, X, st, evs), sc, sc.unknown
def covered(st, R, lo, hi, used=()):
    """every position in [lo, hi) lies in one of the ranges"""
    if st.cs.prove_le(dom.sub(hi, lo)): return True
    for n, (a, b, _) in enumerate(R):
        if n in used or not st.cs.prove_le(dom.sub(a, lo)): continue
        if covered(st, R, b, hi, used + (n,)): return True
    return False
def is_hit(E, X, st, evs, i, hits=()):
    if any(st.cs.prove_eq0(dom.sub(x, i)) for x in hits): return True
    for ix, k in X.items():
        if st.cs.prove_eq0(dom.sub(ix, i)) and X.hit(st, k): return True
    if isinstance(X, Chars):
        for ev in evs:
            if ev.k == "strchr" and ev.d[2] is not None and ev.d[0][1] == X.p[1] and same_char(st, ev.d[1], X.c) and st.cs.prove_eq0(dom.sub(dom.add(dom.sub(ev.d[0][2], X.p[2]), ev.d[2]), i)): return True
            if ev.k == "found" and ev.d[0][1] == X.p[1] and same_char(st, ev.d[2], X.c) and st.cs.prove_eq0(dom.sub(dom.add(dom.sub(ev.d[0][2], X.p[2]), ev.d[4]), i)): return True
    return False

# ---------------------------------------------------------------- S01
FIND = {"rcutils_find": (False, None), "rcutils_findn": (False, 2), "rcutils_find_last": (True, None), "rcutils_find_lastn": (True, 2)}
def find(ctx):
    E = ctx.E; last, nparam = FIND[ctx.name]
    for r in ctx.final():
        st = r.st; evs = api.events(st); p = values.param(ctx, 0); c = values.param(ctx, 1)[2]
        loc = ctx.last_loc(r)
        ret = ctx.ret_int(r)
        if ret is None: ctx.inconclusive("find", "result"); continue
        if values.fact(ctx, st, p) is not False:
            ok = st.cs.prove_eq0(dom.addc(ret, 1)) or ret == const(2 ** 64 - 1)
            ctx.ob(ok)
            if not ok: ctx.report("find", "null", "a null text yields a position", loc)
            continue
        n = values.param(ctx, nparam)[2] if nparam is not None else E.strlen(st, p)
        X = Chars(E, p, c); X.n = n
        R, sc, unknown = ranges(E, X, st, evs); hits = sc.hits
        if absent(ret):
            ok = covered(st, R, const(0), n) or nparam is None and st.cs.prove_eq0(c)
            if not ok and unknown: ctx.inconclusive("find", "absent"); continue
            ctx.ob(ok)
            if not ok: ctx.report("find", "absent", "'not found' is reported although not every position was compared with the delimiter", loc)
            continue
        ok = within(st, ret, n, sc)
        if not ok and unknown: ctx.inconclusive("find", "range"); continue
        ctx.ob(ok)
        if not ok: ctx.report("find", "range", "the returned position is not shown to lie inside the text", loc); continue
        ok = is_hit(E, X, st, evs, ret, hits)
        if not ok and unknown: ctx.inconclusive("find", "hit"); continue
        ctx.ob(ok)
        if not ok: ctx.report("find", "hit", "the character at the returned position is not the delimiter", loc); continue
        ok = covered(st, R, dom.addc(ret, 1), n) if last else covered(st, R, const(0), ret)
        if not ok and unknown: ctx.inconclusive("find", "order"); continue
        ctx.ob(ok)
        if not ok: ctx.report("find", "order", "positions %s the returned one may hold the delimiter" % ("after" if last else "before"), loc)
def absent(ret): return not ret[1] and ret[0] in (-1, 2 ** 64 - 1)

# ---------------------------------------------------------------- S06
def option(ctx):
    E = ctx.E; get = ctx.name == "rcutils_cli_get_option"
    b, e, key = (values.param(ctx, i) for i in range(3))
    for r in ctx.final():
        st = r.st; evs = api.events(st); loc = ctx.last_loc(r)
        n = next((var(i) for i, (k, lo, hi) in enumerate(dom.SYMS) if k == ("argcount", b[1])), None)
        if n is None:      # the range was never looked at
            ctx.ob(False); ctx.report("option", "range", "the result does not depend on the argument range", loc); continue
        X = Texts(E, b, key, not get); X.n = n
        R, sc, unknown = ranges(E, X, st, evs); hits = sc.hits
        v = r.ret
        out = [ix for s2, ix in looked_at(E, X, st, evs) if not inside(s2, ix, n)]
        ctx.ob(not out)
        if out: ctx.report("option", "outside", "an argument that is not shown to lie inside the range is examined", loc)
        if not get:
            c = ctx.cval(r)
            if c is None: ctx.inconclusive("option", "result"); continue
            if c: ok = any(X.hit(st, k) and inside(st, ix, n) for ix, k in X.items()) or any(within(st, h, n, sc) for h in hits); d = "present"; m = "presence is reported without an argument of the range that equals the option"
            else: ok = covered(st, R, const(0), n); d = "absent"; m = "absence is reported although not every argument of the range was compared with the option"
            if not ok and unknown: ctx.inconclusive("option", d); continue
            ctx.ob(ok)
            if not ok: ctx.report("option", d, m, loc)
            continue
        if v is None or v[0] != "p": ctx.inconclusive("option", "result"); continue
        null = v[1] == 0 or E.nullness(st, v[1]) is True
        hits = [ix for ix, k in [(ix, k) for ix, k in X.items() if X.hit(st, k)] + [(h, None) for h in hits] if covered(st, R, const(0), ix)]
        if null:
            o = E.R[v[1]].origin if v[1] else None
            ok = covered(st, R, const(0), n) or any(st.cs.prove_le(dom.sub(n, dom.addc(ix, 1))) for ix in hits) or any(nullslot(E, st, X, dom.addc(ix, 1)) or nullslot(E, st, X, ix) for ix in hits)
            d = "none"; m = "no value is returned although an argument may begin with the option and be followed by another one"
        else:
            o = E.R[v[1]].origin; ok = False
            d = "value"; m = "the returned text is not shown to be the argument right after the first one that begins with the option, inside the range"
            if o and o[0] == b[1] and v[2] == const(0):
                x = dom.sub(o[1], b[2])
                ok = any(st.cs.prove_eq0(dom.sub(x, dom.scale(dom.addc(ix, 1), 8))) and within(st, dom.addc(ix, 1), n, sc) for ix in hits)
        if not ok and unknown: ctx.inconclusive("option", d); continue
        ctx.ob(ok)
        if not ok: ctx.report("option", d, m, loc)
def looked_at(E, X, st, evs):
    """(state, position) of every argument whose text was compared"""
    out = [(st, ix) for ix, k in X.items() if X.verdict(st, k, False) is not None]
    for l in evs:
        if l.k != "loop": continue
        for hd, hs0, s, vals in loops.backs(E, l): out += [(s, ix) for ix, k in X.items() if X.verdict(s, k, False) is not None]
    return out
def nullslot(E, st, X, ix):
    for i, k in X.items():
        if st.cs.prove_eq0(dom.sub(i, ix)) and E.nullness(st, k) is True: return True
    return False
def within(st, ix, n, sc): return inside(st, ix, n) or any(st.cs.prove_eq0(dom.sub(ix, h)) for h in sc.within)
def inside(st, ix, n): return st.cs.prove_le(dom.scale(ix, -1)) and st.cs.prove_le(dom.addc(dom.sub(ix, n), 1))
