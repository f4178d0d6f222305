"""Facts about loops read off the fixpoint the engine found: counters, the range they cover, and what every iteration that
goes on has established."""
from . import dom
from .dom import const, var

def info(E, ev): return E.loopinfo[ev.d[2]][3]
def eq(st, a, b): return a is not None and b is not None and st.cs.prove_eq0(dom.sub(a, b))
def steps(E, ev):
    """counters of a loop: item -> (step, entry value); an item every back edge of every head changes by the same +1 or -1"""
    I = info(E, ev); out = {}
    items = set()
    for hd, hs0, backs in I["heads"]: items |= {it for it, k in hd.key if k[0] in ("int", "const") and it in hd.hv}
    offs = set()
    for hd, hs0, backs in I["heads"]: offs |= {it for it in hd.hv if it[0] == "off"}
    for it in offs:     # pointers that advance by whole elements
        n = I.get("strides", {}).get(it); base = I["entry"].get(it[1:])
        if not n or base is None or base[0] != "p" or base[2] != const(0): continue
        st = None; ok = True; b0 = const(0)
        for hd, hs0, backs in I["heads"]:
            for s, vals in backs:
                v = vals.get(it[1:]); h = hd.hv.get(it)
                if v is None or v[0] != "p" or v[1] != base[1] or h is None: ok = False; break
                d = dom.sub(dom.sub(v[2], base[2]), dom.scale(h, n))
                if d[1] or abs(d[0]) != n or st not in (None, d[0] // n): ok = False; break
                st = d[0] // n
            if not ok: break
        if ok and st: out[it] = (st, b0)
    for it in items:
        st = None; ok = True
        for hd, hs0, backs in I["heads"]:
            for s, vals in backs:
                v = vals.get(it); h = hd.hv.get(it)
                if v is None or v[0] != "i" or h is None: ok = False; break
                d = 1 if eq(s, v[2], dom.addc(h, 1)) else -1 if eq(s, v[2], dom.addc(h, -1)) else None
                if d is None or st not in (None, d): ok = False; break
                st = d
            if not ok: break
        e = I["entry"].get(it)
        if ok and st and e is not None and e[0] == "i": out[it] = (st, e[2])
    return out
def heads(E, ev): return info(E, ev)["heads"]
def at_exit(E, st, ev, it, test):
    """does some head's value of the item satisfy test(value) on this path"""
    return any(it in hd.hv and test(hd.hv[it]) for hd, hs0, backs in heads(E, ev))
def covers(E, st, ev, lo, hi):
    """item that runs from lo up to hi-1 (or hi-1 down to lo) completely on this path, else None"""
    I = info(E, ev)
    for it, (d, e) in steps(E, ev).items():
        if d == 1 and eq(I["st0"], e, lo) and at_exit(E, st, ev, it, lambda h: st.cs.prove_le(dom.sub(hi, h))): return it, 1
        if d == -1 and eq(I["st0"], e, hi) and at_exit(E, st, ev, it, lambda h: st.cs.prove_le(dom.sub(h, lo))): return it, -1
    return None
def since(E, s, hs0): return E.delta(s, hs0.ev)
def backs(E, ev):
    for hd, hs0, bs in heads(E, ev):
        for s, vals in bs: yield hd, hs0, s, vals
def impossible(st, lin_eq):
    """the equation lin = 0 cannot hold on this path"""
    c = st.cs.copy()
    return not c.assume_eq0(lin_eq) or c.bad
def inside(E, ev, depth=4):
    """all events of one iteration, nested loops included"""
    out = []
    for hd, hs0, s, vals in backs(E, ev):
        for x in since(E, s, hs0):
            out.append(x)
            if x.k == "loop" and depth: out += inside(E, x, depth - 1)
    return out
def goes_on(E, ev, vals):
    """the values carried round lead to a further iteration (not to a head that only leaves the loop)"""
    for hd, hs0, bs in heads(E, ev):
        if bs and all(k[0] != "const" or (it in vals and vals[it][0] == "i" and vals[it][2] == (k[1], ())) for it, k in hd.key): return True
    return False
