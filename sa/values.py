"""Value helpers over path summaries: argument access, equality, and enumeration of value classes of one symbol."""
from . import dom, models
from .dom import const, var
from .interp import NULL

def param(ctx, i):
    """value of the i-th declared parameter"""
    return list(ctx.E.args.values())[i]
def same(st, a, b):
    """the two values are provably equal"""
    if a is None or b is None or a[0] != b[0]: return False
    if a[0] == "p": return a[1] == b[1] and (a[1] == 0 or st.cs.prove_eq0(dom.sub(a[2], b[2])))
    if a[0] == "i":
        if st.cs.prove_eq0(dom.sub(a[2], b[2])): return True
        d = dom.sub(a[2], b[2])
        return not d[1] and d[0] % (1 << min(a[1], b[1])) == 0
    return a == b
def fact(ctx, st, p):
    """null / non-null fact about pointer value p (None if unknown)"""
    return ctx.E.nullness(st, p[1]) if p and p[0] == "p" and p[1] else True if p and p[0] == "p" else None
def null(ctx, st, i): return fact(ctx, st, param(ctx, i)) is True
def nonnull(ctx, st, i): return fact(ctx, st, param(ctx, i)) is False
def text(ctx, st, p):
    """bytes of the constant string p points to, else None"""
    if not p or p[0] != "p" or not p[1]: return None
    i = models.strid(ctx.E, st, p)
    return i[1] if i[0] == "lit" else None

def lins(k, out):
    """linear expressions mentioned in a symbol key"""
    if isinstance(k, tuple):
        if len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], tuple) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], int) for x in k[1]):
            out.append(k)
        else:
            for x in k: lins(x, out)
    return out
def ev(l, env):
    t = l[0]
    for s, k in l[1]:
        if s not in env: return None
        t += env[s] * k
    return t
def consistent(st, env):
    """(possible, exact): is the path possible when the symbols have the given values; exact is False when a symbol derived from them could not be evaluated.
    env is extended with the derived symbols."""
    cs = st.cs.copy(); exact = True
    for s, x in list(env.items()):
        if not cs.assume_eq0(dom.addc(var(s), -x)): return False, True
    for i, (key, lo, hi) in enumerate(dom.SYMS):
        if i in env or not isinstance(key, tuple): continue
        ls = lins(key[1:], [])
        if not any(s in env for l in ls for s, _ in l[1]): continue
        op = key[0]; v = None; vals = [ev(l, env) for l in ls]
        if None not in vals:
            if op in ("and", "or", "xor") and len(vals) >= 2 and isinstance(key[1], int):
                w = key[1]; m = (1 << w) - 1; v = vals[0] & m
                for y in vals[1:]: v = v & y if op == "and" else v | y if op == "or" else v ^ y
                v &= m
                if op != "and" and v >> (w - 1): v = None
            elif op == "shl" and len(vals) == 2: v = (vals[0] << vals[1]) & ((1 << key[1]) - 1) if vals[1] >= 0 else None
            elif op == "lshr" and len(vals) == 2 and vals[0] >= 0: v = vals[0] >> vals[1]
            elif op == "udiv" and len(key) == 3 and vals[0] >= 0:
                d = key[2] if isinstance(key[2], int) else vals[1]
                v = vals[0] // d if d else None
            elif op == "urem" and len(vals) == 2 and vals[1]: v = vals[0] % vals[1]
        if v is None: exact = False; continue
        env[i] = v
        if not cs.assume_eq0(dom.addc(var(i), -v)): return False, True
    return True, exact
def truth(ctx, st, v, env):
    """value of a boolean/integer result when the symbols have the given values: set of possible integers"""
    s2 = st.copy(); s2.cs = st.cs.copy()
    for s, x in env.items():
        if not s2.cs.assume_eq0(dom.addc(var(s), -x)): return set()
    if v[0] == "b":
        T, F = ctx.E.branchn(s2, v[1])
        return ({1} if any(not t.cs.bad for t in T) else set()) | ({0} if any(not t.cs.bad for t in F) else set())
    if v[0] == "i":
        c = s2.cs.const_of(v[2])
        return {c} if c is not None else {None}
    return {None}
