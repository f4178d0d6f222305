"""Numeric domain: symbolic linear forms and conjunctions of linear inequalities (convex polyhedra in constraint form).

Entailment is decided by interval bounds first, then by Fourier-Motzkin projection with integer tightening.
Everything that is not proved is treated as unknown."""
from fractions import Fraction
from math import gcd

SYMS = []          # id -> (name, lo, hi)
_INTERN = {}
META = {}          # sym id -> anything
PROD = {}          # sym id -> tuple of factor sym ids (monomial)

INF = None
MAXOBJ = (1 << 47) - 1

def sym(key, lo=None, hi=None, meta=None):
    """interned symbol"""
    i = _INTERN.get(key)
    if i is None:
        i = len(SYMS)
        SYMS.append((key, lo, hi))
        _INTERN[key] = i
        if meta is not None:
            META[i] = meta
    return i

_cnt = [0]
def reset():
    """forget all symbols: analyses of different operations are independent of each other and of their order"""
    del SYMS[:]; _INTERN.clear(); META.clear(); PROD.clear(); _CACHE.clear(); _cnt[0] = 0
def fresh(prefix, lo=None, hi=None, meta=None):
    _cnt[0] += 1
    return sym((prefix, "#", _cnt[0]), lo, hi, meta)

def const(c): return (c, ())
def var(s, k=1): return (0, ((s, k),))

def add(a, b):
    if not a[1]: return (a[0] + b[0], b[1])
    if not b[1]: return (a[0] + b[0], a[1])
    d = dict(a[1])
    for s, k in b[1]:
        v = d.get(s, 0) + k
        if v: d[s] = v
        else: del d[s]
    return (a[0] + b[0], tuple(sorted(d.items())))

def scale(a, k):
    if k == 0: return (0, ())
    if k == 1: return a
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))

def sub(a, b): return add(a, scale(b, -1))
def addc(a, c): return (a[0] + c, a[1])

def isconst(a): return not a[1]

def subst(a, m):
    """replace symbols by linear forms (m: sym -> lin)"""
    r = (a[0], ())
    for s, k in a[1]:
        r = add(r, scale(m[s], k) if s in m else (0, ((s, k),)))
    return r

def prod_sym(s1, s2):
    f1 = PROD.get(s1, (s1,)); f2 = PROD.get(s2, (s2,))
    f = tuple(sorted(f1 + f2))
    lo = None; hi = None
    l1, h1 = SYMS[s1][1:]; l2, h2 = SYMS[s2][1:]
    if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0: lo = l1 * l2
    if lo is not None and h1 is not None and h2 is not None: hi = h1 * h2
    i = sym(("prod",) + f, lo, hi)
    PROD[i] = f
    return i

def mul(a, b):
    if isconst(a): return scale(b, a[0])
    if isconst(b): return scale(a, b[0])
    r = (a[0] * b[0], ())
    r = add(r, scale((0, b[1]), a[0])); r = add(r, scale((0, a[1]), b[0]))
    for s, k in a[1]:
        for t, m in b[1]:
            r = add(r, (0, ((prod_sym(s, t), k * m),)))
    return r

def show(a):
    p = []
    for s, k in a[1]:
        n = symname(s)
        p.append(("%s" if k == 1 else "-%s" if k == -1 else "%d*%%s" % k) % n)
    if a[0] or not p: p.append(str(a[0]))
    return "+".join(p).replace("+-", "-")

def symname(s):
    k = SYMS[s][0]
    m = META.get(s)
    if isinstance(m, dict) and m.get("name"): return m["name"]
    if k and k[0] == "prod": return "*".join(symname(x) for x in k[1:])
    return "_".join(str(x) for x in k) if isinstance(k, tuple) else str(k)

# ------------------------------------------------------------------ Fourier-Motzkin
_CACHE = {}
STATS = {"q": 0, "fm": 0, "hit": 0}

def _norm(c, d):
    g = 0
    for k in d.values(): g = gcd(g, k)
    if g > 1:
        d = {s: k // g for s, k in d.items()}
        c = -((-c) // g)
    return c, d

def lp_unsat(cur, limit=400):
    """rational infeasibility of {terms: c} meaning c + sum(terms) <= 0, by the bounded-variable dual simplex"""
    lo = {}; hi = {}; rows = {}; nxt = [0]
    nb = []
    for key, c in cur.items():
        if len(key) == 1:
            s, k = key[0]
            b = Fraction(-c, k)
            if k > 0:
                if s not in hi or b < hi[s]: hi[s] = b
            elif s not in lo or b > lo[s]: lo[s] = b
        else: nb.append((key, c))
    slack = {}
    for key, c in nb:
        neg = key[0][1] < 0
        k2 = tuple((s, -k) for s, k in key) if neg else key
        v = slack.get(k2)
        if v is None:
            v = ("slack", len(slack)); slack[k2] = v; rows[v] = {s: Fraction(k) for s, k in k2}
        if neg:
            if v not in lo or c > lo[v]: lo[v] = Fraction(c)
        elif v not in hi or -c < hi[v]: hi[v] = Fraction(-c)
    val = {}
    vs = set(lo) | set(hi)
    for k2 in slack: vs.update(s for s, _ in k2)
    for v in vs:
        if v in lo and v in hi and lo[v] > hi[v]: return True
        if v in rows: continue
        l, h = lo.get(v), hi.get(v)
        val[v] = l if l is not None else (h if h is not None and h < 0 else Fraction(0))
        if h is not None and val[v] > h: val[v] = h
    order = {v: n for n, v in enumerate(sorted(vs, key=str))}
    for b, r in rows.items(): val[b] = sum(k * val[s] for s, k in r.items())
    for _ in range(limit):
        bad = None
        for b in rows:
            if (b in lo and val[b] < lo[b]) or (b in hi and val[b] > hi[b]):
                if bad is None or order[b] < order[bad]: bad = b
        if bad is None: return False
        r = rows[bad]; up = bad in lo and val[bad] < lo[bad]
        target = lo[bad] if up else hi[bad]
        ent = None
        for s in sorted(r, key=order.get):
            k = r[s]
            if not k: continue
            inc = (k > 0) == up
            if inc and (s not in hi or val[s] < hi[s]) or not inc and (s not in lo or val[s] > lo[s]):
                ent = s; break
        if ent is None: return True
        k = r.pop(ent); del rows[bad]
        theta = (target - val[bad]) / k
        inv = 1 / k
        nr = {s: -c * inv for s, c in r.items()}; nr[bad] = inv
        val[bad] = target; val[ent] += theta
        for b, row in rows.items():
            c = row.pop(ent, None)
            if c:
                val[b] += c * theta
                for s, q in nr.items():
                    x = row.get(s, 0) + c * q
                    if x: row[s] = x
                    else: row.pop(s, None)
        rows[ent] = nr
    return False

def fm_unsat(cons, cap=100):
    """cons: list of (c, terms) meaning c + sum <= 0.  True only if there is no integer solution."""
    cur = {}
    for c, t in cons:
        if not t:
            if c > 0: return True
            continue
        c, d = _norm(c, dict(t))
        key = tuple(sorted(d.items()))
        o = cur.get(key)
        if o is None or o < c: cur[key] = c
    # equalities by substitution
    for _ in range(60):
        eq = None
        for key, c in cur.items():
            nk = tuple((s, -k) for s, k in key)
            o = cur.get(nk)
            if o is not None and c + o > 0: return True     # contradiction
            if o is not None and o == -c:
                for s, k in key:
                    if abs(k) == 1: eq = (key, c, s, k); break
                if eq: break
        if not eq: break
        key, c, s, k = eq
        # s*k + rest + c = 0 -> s = -(rest+c)/k
        rest = {x: -y * k for x, y in key if x != s}; rc = -c * k
        new = {}
        for k2, c2 in cur.items():
            d2 = dict(k2); cc = d2.pop(s, 0)
            if cc:
                for x, y in rest.items():
                    v = d2.get(x, 0) + cc * y
                    if v: d2[x] = v
                    else: d2.pop(x, None)
                c2 = c2 + cc * rc
                if not d2:
                    if c2 > 0: return True
                    continue
                c2, d2 = _norm(c2, d2)
            kk = tuple(sorted(d2.items()))
            o = new.get(kk)
            if o is None or o < c2: new[kk] = c2
        cur = new
    while cur:
        cnt = {}
        for key in cur:
            for s, k in key:
                p = cnt.setdefault(s, [0, 0]); p[0 if k > 0 else 1] += 1
        best = min(cnt, key=lambda s: cnt[s][0] * cnt[s][1] - cnt[s][0] - cnt[s][1])
        pos = []; neg = []; new = {}
        for key, c in cur.items():
            d = dict(key); k = d.pop(best, 0)
            if k > 0: pos.append((k, c, d))
            elif k < 0: neg.append((-k, c, d))
            else: new[key] = c
        for kp, cp, dp in pos:
            for kn, cn, dn in neg:
                c = cp * kn + cn * kp
                d = {s: v * kn for s, v in dp.items()}
                for s, v in dn.items():
                    x = d.get(s, 0) + v * kp
                    if x: d[s] = x
                    else: d.pop(s, None)
                if not d:
                    if c > 0: return True
                    continue
                c, d = _norm(c, d)
                key = tuple(sorted(d.items()))
                o = new.get(key)
                if o is None or o < c: new[key] = c
        if len(new) > cap: return lp_unsat(cur)
        cur = new
    return False

def tight(a):
    """a <= 0 over the integers, divided by the common factor of its coefficients"""
    g = 0
    for _, k in a[1]:
        g = gcd(g, k)
        if g == 1: return a
    return (-(-a[0] // g), tuple((s, k // g) for s, k in a[1])) if g > 1 else a
class Store:
    """Conjunction of constraints of one abstract state (copied on fork)."""
    __slots__ = ("cons", "iv", "neq", "bad")
    def __init__(self):
        self.cons = (); self.iv = {}; self.neq = (); self.bad = False
    def copy(self):
        s = Store.__new__(Store); s.cons = self.cons; s.iv = self.iv; s.neq = self.neq; s.bad = self.bad
        return s
    def bounds(self, s):
        r = self.iv.get(s)
        if r is not None: return r
        _, lo, hi = SYMS[s]
        return (lo, hi)
    def upper(self, a):
        """interval upper bound of linear form or None"""
        u = a[0]
        for s, k in a[1]:
            lo, hi = self.bounds(s)
            b = hi if k > 0 else lo
            if b is None: return None
            u += k * b
        return u
    def lower(self, a):
        u = a[0]
        for s, k in a[1]:
            lo, hi = self.bounds(s)
            b = lo if k > 0 else hi
            if b is None: return None
            u += k * b
        return u
    def prove_le(self, a, depth=0):
        """is a <= 0 entailed?"""
        if not a[1]: return a[0] <= 0
        if len(a[1]) > 1: a = tight(a)
        u = self.upper(a)
        if u is not None and u <= 0: return True
        l = self.lower(a)
        if l is not None and l > 0: return False
        STATS["q"] += 1
        # direct match with a stored constraint
        for c in self.cons:
            if c[1] == a[1] and c[0] >= a[0]: return True
        prods = any(s in PROD for s, _ in a[1])
        if not self.cons and not prods: return False
        rel = self.relevant(a)
        if not rel and not prods: return False
        key = (a, tuple(rel), depth > 0)
        vs = set(s for s, _ in a[1])
        for c in rel: vs.update(s for s, _ in c[1])
        if depth == 0 and prods:
            fac = set()
            for s in vs:
                if s in PROD: fac.update(PROD[s])
            for s in self.iv:
                if s in PROD and s not in vs and fac & set(PROD[s]): vs.add(s)
            for s in list(vs):
                if s in PROD: vs.update(PROD[s])
        bl = []
        for s in vs:
            lo, hi = self.bounds(s)
            if lo is not None: bl.append((lo, ((s, -1),)))
            if hi is not None: bl.append((-hi, ((s, 1),)))
        key = (a, tuple(rel), tuple(bl), depth)
        r = _CACHE.get(key)
        if r is not None:
            STATS["hit"] += 1; return r
        STATS["fm"] += 1
        cons = list(rel) + bl + [addc(scale(a, -1), 1)]
        if depth == 0:
            pv = [s for s in vs if s in PROD]
            if pv: cons += self.lemmas(pv)
        r = fm_unsat(cons)
        if len(_CACHE) > 400000: _CACHE.clear()
        _CACHE[key] = r
        return r
    def lemmas(self, pv):
        """valid facts about monomials: x*d versus y*d, and x*d versus d"""
        out = []
        ps = [(p, PROD[p]) for p in pv]
        pvs = set(pv)
        for p, f in ps:
            for d in set(f):
                rest = list(f); rest.remove(d)
                if len(rest) != 1: continue
                x = rest[0]
                if (self.bounds(d)[0] or 0) < 0 and self.bounds(d)[0] is not None: continue
                if self.bounds(d)[0] is None: continue
                # x*d compared with constants: x >= k -> p >= k*d
                lx, hx = self.bounds(x)
                for k in (1, 2):
                    if (lx is not None and lx >= k) or self.prove_le(addc(var(x, -1), k), 1):
                        out.append((0, ((d, k), (p, -1))) if d < p else (0, tuple(sorted(((d, k), (p, -1))))))
                if self.prove_le(var(x, 1), 1): out.append((0, ((p, 1),)))
                if hx is not None and hx <= 4096 and hx >= 0: out.append((0, tuple(sorted(((p, 1), (d, -hx))))) if hx else (0, ((p, 1),)))
                for q, g in ps:
                    if q == p or d not in g: continue
                    r2 = list(g); r2.remove(d)
                    if len(r2) != 1: continue
                    y = r2[0]
                    if x == y: continue
                    for k in (2, 1, 0, -1):
                        # x + k <= y  ->  p + k*d <= q
                        if self.prove_le(addc(sub(var(x), var(y)), k), 1):
                            t = {p: 1, q: -1}
                            if k: t[d] = t.get(d, 0) + k
                            out.append((0, tuple(sorted((s, v) for s, v in t.items() if v))))
                            break
        # difference lemmas: x = y + z  is covered by distribution when built through mul()
        return out
    def relevant(self, a):
        vs = set(s for s, _ in a[1])
        for s in list(vs):
            if s in PROD: vs.update(PROD[s])
        rest = list(self.cons); out = []
        changed = True
        while changed and rest:
            changed = False; nr = []
            for c in rest:
                if any(s in vs for s, _ in c[1]):
                    out.append(c)
                    for s, _ in c[1]:
                        if s not in vs:
                            vs.add(s); changed = True
                            if s in PROD: vs.update(PROD[s])
                else: nr.append(c)
            rest = nr
        return out
    def prove_eq0(self, a):
        if not a[1]: return a[0] == 0
        return self.prove_le(a) and self.prove_le(scale(a, -1))
    def prove_neq0(self, a):
        if not a[1]: return a[0] != 0
        g = 0
        for _, k in a[1]: g = gcd(g, k)
        if g > 1:
            if a[0] % g: return True
            a = (a[0] // g, tuple((s, k // g) for s, k in a[1]))
        for n in self.neq:
            if n == a or n == scale(a, -1): return True
        return self.prove_le(addc(a, 1)) or self.prove_le(addc(scale(a, -1), 1))
    def assume_le(self, a):
        """add a <= 0; returns False when contradictory"""
        if not a[1]:
            if a[0] > 0: self.bad = True; return False
            return True
        if len(a[1]) > 1: a = tight(a)
        if self.prove_le(addc(scale(a, -1), 1)):      # entails a >= 1
            self.bad = True; return False
        if len(a[1]) == 1:
            s, k = a[1][0]
            lo, hi = self.bounds(s)
            if k > 0:
                b = (-a[0]) // k
                if hi is None or b < hi: hi = b
            else:
                # k*s + c <= 0, k<0  ->  s >= c/(-k)  -> ceil
                m = -k; b = -((-a[0]) // m)
                if lo is None or b > lo: lo = b
            if lo is not None and hi is not None and lo > hi:
                self.bad = True; return False
            iv = dict(self.iv); iv[s] = (lo, hi); self.iv = iv
        else:
            if a not in self.cons: self.cons = self.cons + (a,)
        # tighten with disequalities
        for n in self.neq:
            if n[1] == a[1] and n[0] == a[0]:
                return self.assume_le(addc(a, 1))
            m = scale(n, -1)
            if m == a: return self.assume_le(addc(a, 1))
        if len(a[1]) == 1:
            for n in self.neq:
                if len(n[1]) == 1 and n[1][0][0] == a[1][0][0]:
                    s, k = n[1][0]
                    if n[0] % k == 0:
                        v = -n[0] // k
                        lo, hi = self.bounds(s)
                        if lo == v: return self.assume_le((v + 1, ((s, -1),)))
                        if hi == v: return self.assume_le((-v + 1, ((s, 1),)))
        return True
    def assume_eq0(self, a):
        if not a[1]:
            if a[0] != 0: self.bad = True; return False
            return True
        if self.prove_neq0(a): self.bad = True; return False
        return self.assume_le(a) and self.assume_le(scale(a, -1))
    def assume_neq0(self, a):
        if not a[1]:
            if a[0] == 0: self.bad = True; return False
            return True
        g = 0
        for _, k in a[1]: g = gcd(g, k)
        if g > 1:
            if a[0] % g: return True
            a = (a[0] // g, tuple((s, k // g) for s, k in a[1]))
        if self.prove_le(a):
            return self.assume_le(addc(a, 1))
        if self.prove_le(scale(a, -1)):
            return self.assume_le(addc(scale(a, -1), 1))
        if a not in self.neq: self.neq = self.neq + (a,)
        return True
    def const_of(self, a):
        """constant value of a if it is fixed"""
        if not a[1]: return a[0]
        l = self.lower(a)
        if l is not None and l == self.upper(a): return l
        return None
