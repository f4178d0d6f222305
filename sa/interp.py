"""Path-sensitive abstract interpreter over the IR.

Abstract state: call stack, SSA environment, region memory (ordered write log per region, exact for provably
disjoint accesses), nullness of symbolic pointers, life-cycle typestate of blocks, linear-inequality store, event trace.
Loops are closed by fixpoint over a finite set of loop-head shapes with template invariants (no unrolling unless the
trip count is a compile-time constant)."""
import sys
from . import dom
from .dom import const, var, sym, fresh

sys.setrecursionlimit(20000)

class Incomplete(Exception):
    """the analysis could not cover everything (never reported as a pass)"""

# ------------------------------------------------------------------ values
NULL = ("p", 0, (0, ()))
def I(w, lin): return ("i", w, lin)
def CI(w, c): return ("i", w, (c, ()))
def P(rid, off=(0, ())): return ("p", rid, off)
TRUE = ("b", True); FALSE = ("b", False)

class Region:
    __slots__ = ("id", "kind", "name", "ty", "extent", "origin", "info", "elts")
    def __repr__(s): return "R%d:%s:%s" % (s.id, s.kind, s.name)

class Frame:
    __slots__ = ("fn", "env", "bi", "ii", "prev", "callins", "vregs")
    def copy(s):
        f = Frame.__new__(Frame); f.fn = s.fn; f.env = dict(s.env); f.bi = s.bi; f.ii = s.ii; f.prev = s.prev
        f.callins = s.callins; f.vregs = s.vregs
        return f

# facts about a path that a loop iteration establishes for everything after it
CARRIED = ("allocfail", "sysfail", "fmtfail", "fmthard", "err", "out", ("smend",))
class State:
    __slots__ = ("frames", "mem", "cs", "null", "heap", "ev", "peq", "flags", "inv", "lver", "tag")
    def copy(s):
        n = State.__new__(State)
        n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem); n.cs = s.cs.copy(); n.null = dict(s.null)
        n.heap = dict(s.heap); n.ev = s.ev; n.peq = s.peq; n.flags = dict(s.flags); n.inv = set(s.inv); n.lver = dict(s.lver); n.tag = s.tag
        return n
    def events(s):
        out = []; e = s.ev
        while e is not None:
            out.append(e[0]); e = e[1]
        out.reverse()
        return out

class Result:
    """one abstract path summary of an entry function"""
    __slots__ = ("st", "ret", "kind", "fn")

class Ev:
    __slots__ = ("k", "d", "loc", "stk")
    def __init__(s, k, d, loc, stk): s.k = k; s.d = d; s.loc = loc; s.stk = stk
    def __repr__(s): return "<%s %r @%s:%s>" % (s.k, s.d, (s.loc[0] or "?").split("/")[-1], s.loc[1])

class Head:
    pass
class _All:
    def __contains__(self, x): return True
ALL = _All()

class Engine:
    def __init__(self, M, D, models, opts=None):
        self.M = M; self.D = D; self.models = models
        self.R = {0: self._null_region()}
        self.rkeys = {}
        self.opts = {"max_states": 60000, "max_inline": 14, "unroll": 130}
        if opts: self.opts.update(opts)
        self.inline_off = set()
        self.sink = []
        self.nstates = 0
        self.loopcache = {}
        self.livecache = {}
        self.invariants = {}
        self.loopinfo = {}
        self.nsteps = 0
        self.assumed_nonnull = None
        self.derefs = None
        self.nacc = 0             # access obligations examined
        self.found = []           # (event, state) of every suspicious event
        self.visited = set()      # (fn, block) reached
        self.called = set()

    def _null_region(self):
        r = Region(); r.id = 0; r.kind = "null"; r.name = "NULL"; r.ty = None; r.extent = const(0); r.origin = None; r.info = {}; r.elts = None
        return r
    def region(self, key, kind, name, ty=None, extent=None, origin=None, info=None):
        rid = self.rkeys.get(key)
        if rid is not None: return rid
        r = Region(); r.id = len(self.R); r.kind = kind; r.name = name; r.ty = ty; r.extent = extent; r.origin = origin; r.info = info or {}; r.elts = None
        self.R[r.id] = r; self.rkeys[key] = r.id
        return r.id
    _rc = 0
    def new_region(self, kind, name, ty=None, extent=None, origin=None, info=None):
        Engine._rc += 1
        return self.region(("new", Engine._rc), kind, name, ty, extent, origin, info)

    # -------------------------------------------------------------- loops of a function
    def loops(self, fn):
        r = self.loopcache.get(fn.name)
        if r is not None: return r
        n = len(fn.blocks)
        # dominators
        order = []; seen = set(); stack = [(0, iter(fn.blocks[0].succs))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(fn.blocks[s].succs))); break
            else:
                order.append(b); stack.pop()
        order.reverse(); pos = {b: i for i, b in enumerate(order)}
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in fn.blocks[b].preds if p in idom]
                if not ps: continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while pos[x] > pos[y]: x = idom[x]
                        while pos[y] > pos[x]: y = idom[y]
                if idom.get(b) != x: idom[b] = x; ch = True
        def dom_(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in fn.blocks[b].succs:
                if s in pos and dom_(s, b):
                    L = loops.setdefault(s, set([s])); st = [b]
                    while st:
                        x = st.pop()
                        if x in L: continue
                        L.add(x); st.extend(p for p in fn.blocks[x].preds if p in pos)
        # irreducible edges are not expected
        for b in order:
            for s in fn.blocks[b].succs:
                if pos[s] <= pos[b] and not dom_(s, b):
                    raise Incomplete("irreducible control flow in " + fn.name)
        self.loopcache[fn.name] = loops
        return loops
    def livein(self, fn):
        """block -> set of value ids live on entry (phi operands are live at the predecessor's end)"""
        r = self.livecache.get(fn.name)
        if r is not None: return r
        n = len(fn.blocks); use = [set() for _ in range(n)]; deff = [set() for _ in range(n)]; live = [set() for _ in range(n)]; phiuse = {}
        def vs(o, acc):
            if isinstance(o, tuple):
                if o and o[0] == "v": acc.add(o[1])
                else:
                    for x in o: vs(x, acc)
            elif isinstance(o, list):
                for x in o: vs(x, acc)
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "phi":
                    deff[b.idx].add(i.res)
                    for pb, o in i.x: vs(o, phiuse.setdefault((pb, b.idx), set()))
                    continue
                acc = set(); vs(i.a, acc)
                if i.op == "call": vs(i.x, acc)
                use[b.idx] |= acc - deff[b.idx]; deff[b.idx].add(i.res)
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set()
                for s in b.succs:
                    out |= live[s]; out |= phiuse.get((b.idx, s), set())
                nl = use[b.idx] | (out - deff[b.idx])
                if nl != live[b.idx]: live[b.idx] = nl; ch = True
        self.livecache[fn.name] = live
        return live

    # -------------------------------------------------------------- events
    def loc(self, st, ins=None):
        f = st.frames[-1]
        if ins is None:
            ins = f.fn.blocks[f.bi].ins[min(f.ii, len(f.fn.blocks[f.bi].ins) - 1)]
        return (ins.file, ins.line, f.fn.name)
    def stack(self, st):
        out = []
        for f in st.frames[:-1]:
            c = f.callins
            out.append((f.fn.name, c.line if c else 0))
        return tuple(out)
    VK = frozenset(("viol", "oob", "deref?", "call?", "wrap", "strlen?", "badstate", "narrow", "viol?", "undefcmp", "uninit", "ctype-range", "abs-overflow"))
    def event(self, st, k, d, ins=None):
        if self.muted is not None: self.muted.append(k); return
        e = Ev(k, d, self.loc(st, ins), self.stack(st))
        st.ev = (e, st.ev)
        if k in self.VK: self.found.append((e, st))
        elif k in self.opts.get("watch", ()): self.found.append((e, st.copy()))

    # -------------------------------------------------------------- constants / operands
    def cval(self, o):
        k = o[0]
        if k == "c":
            w = o[2]; c = o[1]
            if w == 1: return TRUE if c else FALSE
            if c >> (w - 1): c -= 1 << w
            return ("i", w, (c, ()))
        if k == "null": return NULL
        if k == "f": return ("fn", o[1])
        if k == "g": return P(self.global_region(o[1]), const(o[2]))
        if k == "undef": return ("u",)
        if k == "zero": return self.zero(o[1])
        if k == "agg": return ("agg", tuple(self.cval(x) for x in o[1]))
        if k == "str": return ("cstr", o[1])
        if k == "cexpr":
            if o[1] == "ptrtoint": return self.ptr2int(self.cval(o[2][0]), 64)
            if o[1] == "inttoptr":
                v = self.cval(o[2][0]);
                if v[0] == "i" and v[2] == (0, ()): return NULL
                return P(self.region(("ic", v), "abs", "intptr"), const(0))
            return ("u",)
        if k in ("meta", "asm", "fp", "alias", "?"): return ("u",)
        raise Incomplete("operand %r" % (o,))
    def zero(self, t):
        if t.k == "i": return FALSE if t.w == 1 else CI(t.w, 0)
        if t.k == "p": return NULL
        if t.k == "s": return ("agg", tuple(self.zero(e) for e in t.elems))
        if t.k == "a": return ("zeroarr", t)
        return ("u",)
    def global_region(self, name):
        key = ("global", name)
        rid = self.rkeys.get(key)
        if rid is not None: return rid
        g = self.M.globals[name]
        ty = None; info = self.D.gvinfo(name)
        if info: ty = info[1]
        r = self.region(key, "const" if (g.const and g.hasinit) else "global", name, ty, const(g.ty.size), None, {"g": g})
        return r
    def val(self, st, o):
        if o[0] == "v":
            v = st.frames[-1].env.get(o[1])
            if v is None: raise Incomplete("use of undefined value in %s" % st.frames[-1].fn.name)
            return v
        return self.cval(o)

    # -------------------------------------------------------------- numeric helpers
    def as_unsigned(self, st, v):
        """[(state, lin)] with lin the unsigned reading of integer value v"""
        w = v[1]; lin = v[2]
        if not lin[1]: return [(st, const(lin[0] % (1 << w)))]
        if st.cs.prove_le(dom.scale(lin, -1)): return [(st, lin)]
        if st.cs.prove_le(dom.addc(lin, 1)): return [(st, dom.addc(lin, 1 << w))]
        s2 = st.copy(); out = []
        if st.cs.assume_le(dom.scale(lin, -1)): out.append((st, lin))
        if s2.cs.assume_le(dom.addc(lin, 1)): out.append((s2, dom.addc(lin, 1 << w)))
        return out
    def as_signed(self, st, v):
        w = v[1]; lin = v[2]; h = 1 << (w - 1)
        if not lin[1]:
            c = lin[0] % (1 << w)
            return [(st, const(c - (1 << w) if c >= h else c))]
        if st.cs.prove_le(dom.addc(lin, 1 - h)): return [(st, lin)]
        if st.cs.prove_le(dom.addc(dom.scale(lin, -1), h)): return [(st, dom.addc(lin, -(1 << w)))]
        s2 = st.copy(); out = []
        if st.cs.assume_le(dom.addc(lin, 1 - h)): out.append((st, lin))
        if s2.cs.assume_le(dom.addc(dom.scale(lin, -1), h)): out.append((s2, dom.addc(lin, -(1 << w))))
        return out
    def norm_result(self, st, w, lin, ins, opname, nsw=False):
        """result of + or * : faithful form, splitting on wrap-around where it is possible"""
        if not lin[1]:
            c = lin[0]
            if -(1 << (w - 1)) <= c < (1 << w): return [(st, ("i", w, lin))]
            self.event(st, "wrap", (opname, lin), ins)
            return [(st, ("i", w, const((c + (1 << (w - 1))) % (1 << w) - (1 << (w - 1)))))]
        hi = dom.addc(lin, 1 - (1 << w))
        lo = dom.addc(dom.scale(lin, -1), -(1 << (w - 1)))
        if nsw:
            st.cs.assume_le(dom.addc(lin, 1 - (1 << (w - 1)))); st.cs.assume_le(lo)
            return [] if st.cs.bad else [(st, ("i", w, lin))]
        okhi = st.cs.prove_le(hi); oklo = st.cs.prove_le(lo)
        if okhi and oklo: return [(st, ("i", w, lin))]
        out = []
        s2 = st.copy(); s3 = st.copy()
        if st.cs.assume_le(hi) and st.cs.assume_le(lo): out.append((st, ("i", w, lin)))
        if not okhi and s2.cs.assume_le(dom.addc(dom.scale(lin, -1), (1 << w))):
            self.event(s2, "wrap", (opname, lin), ins)
            f = sym(("wrapped", w, lin), 0, (1 << w) - 1)
            if opname == "add": s2.cs.assume_eq0(dom.addc(dom.sub(var(f), lin), 1 << w))
            out.append((s2, ("i", w, var(f))))
        if not oklo and s3.cs.assume_le(dom.addc(lin, (1 << (w - 1)) + 1)):
            self.event(s3, "wrap", (opname, lin), ins)
            f = sym(("wrapped", w, lin), 0, (1 << w) - 1)
            out.append((s3, ("i", w, var(f))))
        return out
    def ptr2int(self, v, w=64):
        if v[0] == "p":
            if v[1] == 0 and not v[2][1]: return ("i", w, v[2])
            return ("i", w, dom.add(var(sym(("addr", v[1]), 4096, dom.MAXOBJ, {"ptr": v[1]})), v[2]))
        if v[0] == "fn": return ("i", w, var(sym(("faddr", v[1]), 4096, dom.MAXOBJ)))
        return ("i", w, var(fresh("p2i", 0, (1 << w) - 1)))

    # -------------------------------------------------------------- conditions
    def branch(self, st, c, ins=None):
        """(true_state | None, false_state | None); st is consumed"""
        outs_t, outs_f = self.branchn(st, c, ins)
        return outs_t, outs_f
    def branchn(self, st, c, ins=None):
        if c is True: return [st], []
        if c is False: return [], [st]
        k = c[0]
        if k == "not":
            a, b = self.branchn(st, c[1], ins); return b, a
        if k in ("and", "or"):
            t1, f1 = self.branchn(st, c[1], ins)
            if k == "and":
                T = []; F = list(f1)
                for s in t1:
                    a, b = self.branchn(s, c[2], ins); T += a; F += b
                return T, F
            T = list(t1); F = []
            for s in f1:
                a, b = self.branchn(s, c[2], ins); T += a; F += b
            return T, F
        if k == "nz":       # linear form != 0
            lin = c[1]
            if st.cs.prove_neq0(lin): return [st], []
            if st.cs.prove_eq0(lin): return [], [st]
            s2 = st.copy(); T = []; F = []
            if st.cs.assume_neq0(lin): T.append(st)
            if s2.cs.assume_eq0(lin): F.append(s2)
            self.on_charcmp(T, F, lin)
            return [s for s in T if not s.cs.bad], [s for s in F if not s.cs.bad]
        if k == "cmp": return self.cmpn(st, c[1], c[2], c[3], ins)
        if k == "peq": return self.peqn(st, c[1], c[2], ins)
        if k == "?":        # unknown boolean
            s2 = st.copy(); return [st], [s2]
        raise Incomplete("cond %r" % (c,))
    def on_charcmp(self, T, F, lin):
        """T: char != const, F: char == const; refine string-length facts for characters of strings"""
        if len(lin[1]) != 1: return
        s, k = lin[1][0]
        m = dom.META.get(s)
        if not (isinstance(m, dict) and "strchar" in m): return
        off, SL = m["strchar"]
        iszero = lin[0] == 0
        for st in F:
            if iszero: st.cs.assume_le(dom.sub(SL, off))            # off >= SL
            else: st.cs.assume_le(dom.addc(dom.sub(off, SL), 1))    # some other char (assumes scanning inside string)
        if iszero:
            for st in T:
                if st.cs.prove_le(dom.sub(off, SL)): st.cs.assume_le(dom.addc(dom.sub(off, SL), 1))
    def cmpn(self, st, pred, a, b, ins=None):
        if pred in ("eq", "ne"):
            outs = self.eqn(st, a, b, ins)
            return outs if pred == "eq" else (outs[1], outs[0])
        T = []; F = []
        conv = self.as_signed if pred[0] == "s" else self.as_unsigned
        for s1, la in conv(st, a):
            for s2, lb in conv(s1, b):
                p = pred[1:]
                d = dom.sub(la, lb)
                if p == "gt": d = dom.sub(lb, la); p = "lt"
                elif p == "ge": d = dom.sub(lb, la); p = "le"
                le = dom.addc(d, 1) if p == "lt" else d       # true iff le <= 0
                if s2.cs.prove_le(le): T.append(s2); continue
                if s2.cs.prove_le(dom.addc(dom.scale(le, -1), 1)): F.append(s2); continue
                s3 = s2.copy()
                if s2.cs.assume_le(le): T.append(s2)
                if s3.cs.assume_le(dom.addc(dom.scale(le, -1), 1)): F.append(s3)
        return T, F
    def eqn(self, st, a, b, ins=None):
        """integer equality"""
        w = a[1]; d = dom.sub(a[2], b[2])
        if d == (0, ()): return [st], []
        # choose readings
        def rng(s, lin):
            return s.cs.lower(lin), s.cs.upper(lin)
        la, ha = rng(st, a[2]); lb, hb = rng(st, b[2])
        ok = False
        if la is not None and lb is not None and ha is not None and hb is not None:
            if la >= 0 and lb >= 0: ok = True
            elif ha < (1 << (w - 1)) and hb < (1 << (w - 1)): ok = True
        T = []; F = []
        if ok: combos = [(st, a[2], b[2])]
        else:
            conv = self.as_unsigned if w >= 64 else self.as_signed
            combos = [(s2, x, y) for s1, x in conv(st, a) for s2, y in conv(s1, b)]
        for s, x, y in combos:
            t, f = self.branchn(s, ("nz", dom.sub(x, y)), ins)
            T += f; F += t
        return T, F
    def nullness(self, st, rid):
        """True: null, False: non-null, None: unknown"""
        if rid == 0: return True
        r = self.R[rid]
        if r.kind in ("sym", "param", "ext"): return False if r.info.get("nonnull") else st.null.get(rid)
        return False
    def set_null(self, st, rid, isnull):
        r = self.R[rid]
        st.null[rid] = isnull
        if self.on_nullness: self.on_nullness(st, rid, isnull)
    on_nullness = None
    def peqn(self, st, a, b, ins=None):
        if a[0] == "u" or b[0] == "u":
            s2 = st.copy(); return [st], [s2]
        if a[0] == "fn" or b[0] == "fn":
            if a[0] == "fn" and b[0] == "fn":
                return ([st], []) if a[1] == b[1] else ([], [st])
            o = b if a[0] == "fn" else a; f = a if a[0] == "fn" else b
            if o[0] == "p":
                if o[1] == 0: return [], [st]
                if self.R[o[1]].kind in ("sym", "param", "ext"):
                    key = ("fneq", o[1], f[1]); kv = st.flags.get(key)
                    if kv is not None: return ([st], []) if kv else ([], [st])
                    s2 = st.copy(); st.flags[key] = True; st.null[o[1]] = False; s2.flags[key] = False
                    return [st], [s2]
            return [], [st]
        if a[0] != "p" or b[0] != "p":
            s2 = st.copy(); return [st], [s2]
        if a[1] == b[1]:
            d = dom.sub(a[2], b[2])
            t, f = self.branchn(st, ("nz", d), ins); return f, t
        if b[1] == 0 or a[1] == 0:
            p = a if b[1] == 0 else b; q = b if b[1] == 0 else a
            n = self.nullness(st, p[1])
            if n is False: return [], [st]
            if p[2] != (0, ()) or q[2] != (0, ()):
                return [], [st]
            if n is True: return [st], []
            s2 = st.copy()
            self.set_null(st, p[1], True); self.set_null(s2, p[1], False)
            T = [st] if not st.cs.bad else []; F = [s2] if not s2.cs.bad else []
            return T, F
        na, nb = self.nullness(st, a[1]), self.nullness(st, b[1])
        if na is True or nb is True:
            return self.peqn(st, NULL if na is True else a, NULL if nb is True else b, ins)
        ka, kb = self.R[a[1]].kind, self.R[b[1]].kind
        amb = ("sym", "param", "ext", "opaque")
        if ka in amb or kb in amb:
            if ("heap" in (ka, kb) or "alloca" in (ka, kb)) and not (ka in amb and kb in amb):
                other = b if ka in ("heap", "alloca") else a
                if self.R[other[1]].kind != "opaque": return [], [st]
            key = (a, b) if (a[1] < b[1]) else (b, a)
            for kk, vv in st.peq:
                if kk == key: return ([st], []) if vv else ([], [st])
            s2 = st.copy(); st.peq = st.peq + ((key, True),); s2.peq = s2.peq + ((key, False),)
            return [st], [s2]
        return [], [st]
    def tocond(self, v):
        if v[0] == "b": return v[1]
        if v[0] == "i": return ("nz", v[2])
        if v[0] == "u": return ("?",)
        raise Incomplete("tocond %r" % (v,))
    def cond_value(self, st, c, w):
        """materialise a condition as an integer 0/1: [(state, value)]"""
        t, f = self.branchn(st, c)
        return [(s, CI(w, 1)) for s in t] + [(s, CI(w, 0)) for s in f]

    # -------------------------------------------------------------- memory
    def log(self, st, rid):
        return st.mem.get(rid, ())
    def setlog(self, st, rid, log):
        st.mem[rid] = log; st.lver[rid] = st.lver.get(rid, 0) + 1
    def within(self, st, off, size, o2, len2):
        """[off,off+size) inside [o2,o2+len2) provably"""
        cs = st.cs
        if len2 is None: return True
        a = dom.sub(o2, off)
        if not cs.prove_le(a): return False
        return cs.prove_le(dom.sub(dom.addc(off, 0) if not isinstance(size, int) else dom.addc(off, size), dom.add(o2, len2)) if isinstance(size, int)
                           else dom.sub(dom.add(off, size), dom.add(o2, len2)))
    def disjoint(self, st, off, size, o2, len2):
        if isinstance(size, int): size = const(size)
        if isinstance(len2, int): len2 = const(len2)
        if len2 is None or size is None: return False
        d = dom.sub(off, o2)
        if not d[1] and not size[1] and not len2[1]:
            return d[0] >= len2[0] or -d[0] >= size[0]
        cs = st.cs
        if cs.prove_le(dom.sub(dom.add(off, size), o2)): return True
        return cs.prove_le(dom.sub(dom.add(o2, len2), off))
    def load(self, st, rid, off, t, ins=None):
        """[(state, value)] value of type t stored at rid+off"""
        if t.k in ("s", "a"):
            return [(st, ("agg", tuple(self.load(st, rid, dom.addc(off, o), e, ins)[0][1] for o, e in zip(t.offs, t.elems))))] if t.k == "s" else [(st, ("u",))]
        out = []
        if t.k == "p" and off[1] and self.opts.get("tables"):
            w = self.table_entries(st, rid, off, t)
            if w is not None: return w
        if t.k == "p" and off[1] and self.R[rid].kind in ("heap", "alloca"):
            # which of the known blocks is it
            for e in reversed(self.log(st, rid)):
                if e[0] != "cell":
                    if e[0] == "fill": continue
                    break
                if e[2] != t.size or e[3][0] != "p" or st.heap.get(e[3][1]) is None or self.disjoint(st, off, t.size, e[1], e[2]): continue
                if st.cs.prove_eq0(dom.sub(e[1], off)) or len(out) > 3: break
                s2 = st.copy()
                if s2.cs.assume_eq0(dom.sub(e[1], off)) and not s2.cs.bad: out.append((s2, self.load_log(s2, self.log(s2, rid), rid, off, t, 0, s2.lver.get(rid, 0))))
                if not st.cs.assume_neq0(dom.sub(e[1], off)) or st.cs.bad: return out
        v = self.load_log(st, self.log(st, rid), rid, off, t, 0, st.lver.get(rid, 0))
        if out: return out + [(st, v)]
        if t.k == "i" and t.w == 1 and v[0] == "i": v = ("b", ("nz", v[2]))
        if v[0] == "wrongkind": v = self.unknown(st, t, ("wk", rid, st.lver.get(rid, 0), off, t.size))
        return [(st, v)]
    def table_entries(self, st, rid, off, t):
        """pointer read from a constant table at a computed index: one state per entry that is not null"""
        r = self.R[rid]; g = r.info.get("g")
        if g is None or not (r.kind == "const" or r.info.get("ro")) or g.ty.k != "a" or g.ty.elt.k != "p" or g.init[0] != "agg" or g.ty.n > 256: return None
        if len([x for x in g.init[1] if x[0] not in ("null", "zero")]) > 12: return None
        out = []; rest = st.copy()
        for i, x in enumerate(g.init[1]):
            if x[0] in ("null", "zero"): continue
            s = st.copy(); d = dom.addc(off, -8 * i)
            if s.cs.assume_eq0(d) and not s.cs.bad:
                v = self.init_at(g.init, g.ty, 8 * i, t)
                if v is None: return None
                out.append((s, v))
            if rest is not None and (not rest.cs.assume_neq0(d) or rest.cs.bad): rest = None
        if rest is not None:
            if len(out) == 0 or any(x[0] in ("null", "zero") for x in g.init[1]): out.append((rest, NULL))
        return out
    def load_log(self, st, log, rid, off, t, depth, ver):
        size = t.size
        for e in reversed(log):
            k = e[0]
            if k == "cell":
                if e[1] == off:
                    if e[2] == size: return self.coerce(st, e[3], t, (rid, ver, off))
                    if e[2] > size and e[3][0] == "i":
                        if not e[3][2][1]:
                            c = e[3][2][0] % (1 << (8 * size))
                            return self.const_of_type(c, t)
                        return self.unknown(st, t, ("part", rid, ver, off, size))
                    return self.unknown(st, t, ("part", rid, ver, off, size))
                if self.disjoint(st, off, size, e[1], e[2]): continue
                if st.cs.prove_eq0(dom.sub(e[1], off)) and e[2] == size: return self.coerce(st, e[3], t, (rid, ver, off))
                return self.unknown(st, t, ("mix", rid, ver, off, size), rid, off)
            ln = e[2]
            if self.disjoint(st, off, size, e[1], ln): continue
            if self.within(st, off, size, e[1], ln):
                if k == "fill":
                    if e[3] == 0: return self.const_of_type(0, t)
                    if e[3] is None: return self.unknown(st, t, ("fill", rid, ver, off, size))
                    return self.const_of_type(int.from_bytes(bytes([e[3] & 255]) * size, "little"), t)
                if k == "copy":
                    srid, slog, soff = e[3], e[4], e[5]
                    return self.load_log(st, slog, srid, dom.add(soff, dom.sub(off, e[1])), t, depth + 1, e[6])
                if k == "str":
                    return self.strcell(st, rid, ("str", e[3], off), dom.sub(off, e[1]), e[4], t)
                if k == "hv":
                    return self.unknown(st, t, ("hv", e[3], rid, off, size), rid, off)
            return self.unknown(st, t, ("mix", rid, ver, off, size), rid, off)
        return self.initial(st, rid, off, t)
    def strcell(self, st, rid, key, rel, L, t):
        if t.size == 1:
            if st.cs.prove_eq0(dom.sub(rel, L)): return CI(8, 0)
            m = {"strchar": (rel, L)}
            s = sym(("chr",) + key, -128, 127, m)
            if st.cs.prove_le(dom.addc(dom.sub(rel, L), 1)):
                st.cs.assume_neq0(var(s))
            return I(8, var(s))
        return self.unknown(st, t, ("strw",) + key)
    def const_of_type(self, c, t):
        if t.k == "p": return NULL if c == 0 else P(self.region(("ic", c), "abs", "0x%x" % c))
        if t.k == "i":
            if t.w == 1: return TRUE if c & 1 else FALSE
            w = t.w
            if c >> (w - 1): c -= 1 << w
            return CI(w, c)
        return ("u",)
    def coerce(self, st, v, t, key):
        if t.k == "i":
            if v[0] == "i":
                if v[1] == t.w: return v
                return v if v[1] == t.w else self.unknown(st, t, ("co",) + key)
            if v[0] == "b": return v
            if v[0] == "p" or v[0] == "fn": return self.ptr2int(v, t.w)
            if v[0] == "u": return v
        if t.k == "p":
            if v[0] in ("p", "fn", "u"): return v
            if v[0] == "i":
                if v[2] == (0, ()): return NULL
                if len(v[2][1]) == 1:
                    s, k = v[2][1][0]; m = dom.META.get(s)
                    if k == 1 and isinstance(m, dict) and "ptr" in m: return P(m["ptr"], const(v[2][0]))
        if t.k == "f": return v
        return self.unknown(st, t, ("co",) + key)
    def unknown(self, st, t, key, rid=None, off=None):
        """deterministic unknown of a type"""
        if t.k == "p":
            ty = None
            origin = None
            if rid is not None:
                ty, owner = self.ptype(rid, off)
                origin = (rid, off, owner)
            r = self.region(("unk",) + key, "sym", "u", ty, None, origin, {"unk": True})
            self.touch(st, r)
            return P(r)
        if t.k == "i":
            if t.w == 1: return ("b", ("nz", var(sym(("unk",) + key, 0, 1))))
            lo, hi = (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1) if t.w < 64 else (0, (1 << 64) - 1)
            if rid is not None:
                d = self.scalar(rid, off)
                if d: lo, hi = d
            return I(t.w, var(sym(("unk",) + key, lo, hi)))
        return ("u",)
    def elem_type(self, rid, off):
        """(DI type of scalar at offset, owner) in region rid"""
        r = self.R[rid]
        if r.ty is None: return None, None
        D = self.D
        if isinstance(off, tuple) and not off[1]:
            c = off[0]
            sz = D.size(r.ty)
            if sz and c >= 0:
                if c < sz: return D.at(r.ty, c)
                return D.at(r.ty, c % sz)
            return None, None
        d = D.desc(r.ty)
        if d[0] == "array": return D.at(d[1], 0)
        if d[0] in ("ptr", "int"): return r.ty, None
        return None, None
    def ptype(self, rid, off):
        t, owner = self.elem_type(rid, off)
        if t is None: return None, owner
        d = self.D.desc(t)
        if d[0] == "ptr": return d[1], owner
        return None, owner
    def scalar(self, rid, off):
        t, owner = self.elem_type(rid, off)
        if t is None: return None
        d = self.D.desc(t)
        if d[0] == "int":
            if d[1] in ("bool", "_Bool"): return (0, 1)
            w = 8 * d[2]
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if d[3] else (0, (1 << w) - 1)
        return None
    def initial(self, st, rid, off, t):
        """content of a region where nothing was written on this path"""
        r = self.R[rid]
        if r.kind in ("alloca", "heap"):
            if r.info.get("zero"): return self.const_of_type(0, t)
            if r.info.get("lazy") is None:
                self.event(st, "uninit", (rid, off, t.size))
                return ("u",) if t.k != "i" else I(t.w, var(sym(("uninit", rid, off, t.size), -(1 << (t.w - 1)), (1 << (t.w - 1)) - 1))) if t.w > 1 else ("b", ("?",))
        if r.kind == "const" or (r.kind == "global" and r.info.get("ro")):
            g = r.info["g"]
            if not off[1]:
                v = self.init_at(g.init, g.ty, off[0], t)
                if v is not None: return v
            if t.k == "i" and t.size == 1 and g.init[0] == "str":
                b = g.init[1]
                if b and b[-1:] == b"\0" and b"\0" not in b[:-1]:
                    return self.strcell(st, rid, ("g", rid, off), off, const(len(b) - 1), t)
            return self.unknown(st, t, ("ginit", rid, off, t.size))
        if t.k == "i" and t.size == 1 and (r.info.get("cstr") or r.info.get("strn") is not None):
            return self.strcell(st, rid, ("init", rid, off), off, self.slen(rid), t)
        if t.k == "p":
            ty, owner = self.ptype(rid, off)
            nm = "%s%s" % (r.name, "->" + owner[1] if owner else "[%s]" % dom.show(off))
            rr = self.region(("init", rid, off, 8), "sym", nm, ty, None, (rid, off, owner), {})
            self.setup_ptr(rr)
            self.touch(st, rr)
            return P(rr)
        if t.k == "i":
            b = self.scalar(rid, off)
            if b is None: b = (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1) if t.w < 64 else (0, (1 << 64) - 1)
            tt, owner = self.elem_type(rid, off)
            nm = "%s%s" % (r.name, "->" + owner[1] if owner else "[%s]" % dom.show(off))
            s = sym(("init", rid, off, t.size), b[0], b[1], {"name": nm})
            if t.w == 1: return ("b", ("nz", var(s)))
            return I(t.w, var(s))
        return ("u",)
    def setup_ptr(self, rid):
        """static facts about a symbolic pointee: extent from its type, C-string by default for char"""
        r = self.R[rid]
        if r.extent is not None or r.ty is None: return
        d = self.D.desc(r.ty)
        if d[0] == "struct":
            sz = self.D.size(r.ty)
            if sz: r.extent = const(sz)
    def slen(self, rid):
        return var(sym(("slen", rid), 0, dom.MAXOBJ, {"name": "strlen(%s)" % self.R[rid].name}))
    def touch(self, st, rid):
        """instantiate object invariants for a typed pointee once per state"""
        pass
    def init_at(self, init, ty, off, t):
        k = init[0]
        if k == "zero" or k == "null": return self.const_of_type(0, t)
        if ty.k == "s":
            for o, e, x in zip(ty.offs, ty.elems, init[1] if k == "agg" else []):
                if o <= off < o + max(e.size, 1): return self.init_at(x, e, off - o, t)
            return None
        if ty.k == "a":
            es = ty.elt.size; i = off // es if es else 0
            if i >= ty.n or i < 0: return None
            if k == "str":
                if t.size == 1: return self.const_of_type(init[1][i], t)
                return None
            if k == "agg": return self.init_at(init[1][i], ty.elt, off - i * es, t)
            return None
        if off == 0 and ty.size == t.size:
            v = self.cval(init)
            return v
        return None
    def store(self, st, rid, off, v, size, ins=None):
        log = self.log(st, rid); out = []
        for e in log:
            if e[0] == "cell":
                if e[1] == off and e[2] <= size: continue
            elif e[1] == off and e[2] is not None and not e[2][1] and e[2][0] <= size: continue
            out.append(e)
        out.append(("cell", off, size, v))
        self.setlog(st, rid, tuple(out))
    def write_range(self, st, rid, off, ln, entry):
        """entry = ('fill',byte) | ('copy',srid,slog,soff,ver) | ('str',key,L) | ('hv',key); ln Lin or None"""
        log = self.log(st, rid); out = []
        for e in log:
            if ln is not None:
                l2 = const(e[2]) if e[0] == "cell" else e[2]
                if l2 is not None and self.within(st, e[1], l2, off, ln): continue
            elif ln is None: continue
            out.append(e)
        out.append((entry[0], off, ln) + tuple(entry[1:]))
        self.setlog(st, rid, tuple(out))

    # -------------------------------------------------------------- strings
    def strlen(self, st, p):
        """linear form for the length of the NUL-terminated string at p"""
        rid, off = p[1], p[2]; r = self.R[rid]
        L = self.strlen_log(st, self.log(st, rid), rid, off, 0)
        if L is not None: return L
        ver = st.lver.get(rid, 0)
        s = sym(("strlen", rid, ver, off), 0, dom.MAXOBJ, {"name": "strlen(%s+%s)" % (r.name, dom.show(off))})
        if r.extent is not None:
            st.cs.assume_le(dom.addc(dom.add(dom.sub(var(s), r.extent), off), 1))
        self.event(st, "strlen?", (rid, off))
        return var(s)
    def strlen_log(self, st, log, rid, off, depth, limit=None):
        r = self.R[rid]
        if r.info.get("strat") is not None and off == (r.info["strat"], ()): return var(sym(("slenat", rid, st.lver.get(rid, 0)), 0, 255, {"name": "strlen(d_name)"}))
        zero_at = None     # nearest known terminator after off from newer entries
        if not log and r.kind == "global" and not off[1] and hasattr(self, "textfields"):
            m = self.textfields(rid).get(off[0])
            if m is not None: return var(sym(("slenat", rid, st.lver.get(rid, 0), off[0]), 0, m - 1, {"name": "strlen(stored text)"}))
        for nth in range(len(log) - 1, -1, -1):
            e = log[nth]
            if e[0] == "cell":
                if e[2] == 1 and e[3][0] == "i" and e[3][2] == (0, ()):
                    d = dom.sub(e[1], off)
                    if d == (0, ()) or st.cs.prove_eq0(d): return const(0)
                    if st.cs.prove_le(dom.scale(d, -1)):
                        if zero_at is None or st.cs.prove_le(dom.sub(d, zero_at)): zero_at = d
                        continue
                    if st.cs.prove_le(dom.addc(d, 1)): continue
                    return None
                if self.disjoint(st, off, zero_at if zero_at is not None else None, e[1], e[2]): continue
                if st.cs.prove_le(dom.addc(dom.sub(e[1], off), e[2])): continue
                return None
            if e[0] == "fill" and e[3] == 0:
                if self.within(st, off, 1, e[1], e[2]): return const(0) if zero_at is None or True else None
                d = dom.sub(e[1], off)
                if st.cs.prove_le(dom.scale(d, -1)) and e[2] is not None and st.cs.prove_le(dom.addc(dom.scale(e[2], -1), 1)):
                    if zero_at is None or st.cs.prove_le(dom.sub(d, zero_at)): zero_at = d
                    continue
                return None
            if e[0] == "str":
                d = dom.sub(off, e[1])
                if st.cs.prove_le(dom.scale(d, -1)) and st.cs.prove_le(dom.sub(d, e[4])):
                    L = dom.sub(e[4], d)
                    return self.minlen(st, L, zero_at)
                if zero_at is not None and self.disjoint(st, off, zero_at, e[1], e[2]): continue
                return None
            if e[0] == "copy":
                srid, slog, soff = e[3], e[4], e[5]
                d = dom.sub(off, e[1])
                if st.cs.prove_le(dom.scale(d, -1)) and (e[2] is None or st.cs.prove_le(dom.sub(d, e[2]))):
                    L = self.strlen_log(st, slog, srid, dom.add(soff, d), depth + 1)
                    rem = dom.sub(e[2], d) if e[2] is not None else None
                    if L is not None:
                        if rem is None or st.cs.prove_le(dom.addc(dom.sub(L, rem), 1)): return self.minlen(st, L, zero_at)
                        if zero_at is not None and st.cs.prove_le(dom.sub(rem, L)):
                            # no terminator inside the copied part
                            if st.cs.prove_eq0(dom.sub(zero_at, rem)): return zero_at
                            if st.cs.prove_le(dom.sub(zero_at, rem)): return zero_at
                        if zero_at is None and depth < 4 and st.cs.prove_le(dom.sub(rem, L)):
                            # the text goes on behind the copied part
                            t = self.strlen_log(st, log[:nth], rid, dom.add(off, rem), depth + 1)
                            if t is not None: return dom.add(rem, t)
                    return None
                if zero_at is not None and self.disjoint(st, off, zero_at, e[1], e[2]): continue
                return None
            if zero_at is not None and self.disjoint(st, off, zero_at, e[1], e[2]): continue
            if e[0] == "hv" and zero_at is not None:       # unknown text, but with a known terminator behind it
                s_ = sym(("strlenb", rid, st.lver.get(rid, 0), off), 0, dom.MAXOBJ, {"name": "strlen(%s+%s)" % (r.name, dom.show(off))})
                st.cs.assume_le(dom.sub(var(s_), zero_at))
                return var(s_)
            if e[0] == "hv" and e[2] is not None and depth < 4 and st.cs.prove_le(dom.sub(e[1], off)):
                rem = dom.sub(dom.add(e[1], e[2]), off)
                if st.cs.prove_le(dom.scale(rem, -1)):
                    t = self.strlen_log(st, log[:nth], rid, dom.add(off, rem), depth + 1)
                    if t is not None:
                        s_ = sym(("strlenb", rid, st.lver.get(rid, 0), off), 0, dom.MAXOBJ, {"name": "strlen(%s+%s)" % (r.name, dom.show(off))})
                        st.cs.assume_le(dom.sub(var(s_), dom.add(rem, t)))
                        return var(s_)
            return None
        if r.kind == "const":
            g = r.info["g"]
            if not off[1] and g.init[0] == "str":
                b = g.init[1]; i = b.find(b"\0", off[0])
                if i >= 0: return self.minlen(st, const(i - off[0]), zero_at)
            if g.init[0] == "zero": return const(0)
            if off[1] and g.init[0] == "str":
                b = g.init[1]
                if b.find(b"\0") == len(b) - 1: return dom.sub(const(len(b) - 1), off)
            return None
        if r.kind in ("heap",) and r.info.get("zero") and zero_at is None: return const(0)
        if r.kind in ("sym", "param", "ext") or (r.kind == "heap" and r.info.get("cstr")):
            if r.info.get("cstr") is False: return zero_at
            SL = self.slen(rid)
            r.info["cstr"] = True
            if off == (0, ()): return self.minlen(st, SL, zero_at)
            if st.cs.prove_le(dom.scale(off, -1)) and st.cs.prove_le(dom.sub(off, SL)): return self.minlen(st, dom.sub(SL, off), zero_at)
            return None
        return None
    def minlen(self, st, L, z):
        if z is None: return L
        if st.cs.prove_le(dom.sub(L, z)): return L
        if st.cs.prove_le(dom.sub(z, L)): return z
        f = fresh("minlen", 0, dom.MAXOBJ)
        st.cs.assume_le(dom.sub(var(f), L)); st.cs.assume_le(dom.sub(var(f), z))
        return var(f)

    def must_nonnull(self, st, rid):
        """assuming the pointer null contradicts what is known"""
        x = st.copy()
        self.set_null(x, rid, True)
        return bool(x.cs.bad)
    # -------------------------------------------------------------- access obligations
    def check_access(self, st, p, size, kind, ins=None):
        """records violations for null/freed/out-of-bounds accesses; returns False if the path cannot continue"""
        if isinstance(size, int): size = const(size)
        self.nacc += 1
        if p[0] == "u":
            self.event(st, "viol", ("uninit-pointer", kind), ins); return False
        if p[0] == "fn": return True
        if p[0] != "p":
            return True
        rid = p[1]
        n = self.nullness(st, rid)
        r = self.R[rid]
        if n is True or rid == 0:
            self.event(st, "viol", ("null-deref", kind, r.name), ins); return False
        if n is None:
            if not self.must_nonnull(st, rid): self.event(st, "deref?", (rid, kind), ins)     # dereferenced without a null test
            st.null[rid] = False
            if self.on_nullness: self.on_nullness(st, rid, False)
            if st.cs.bad: return False
        if st.heap.get(rid) == "freed":
            self.event(st, "viol", ("use-after-free", kind, r.name), ins); return False
        ext = r.extent
        if ext is None and r.info.get("cstr"): ext = dom.addc(self.slen(rid), 1)
        if ext is not None:
            cs = st.cs
            lo = cs.prove_le(dom.scale(p[2], -1))
            hi = cs.prove_le(dom.sub(dom.add(p[2], size), ext))
            if size == (0, ()) : lo = hi = True
            if not (lo and hi) and self.restate(st, rid):
                lo = cs.prove_le(dom.scale(p[2], -1)); hi = cs.prove_le(dom.sub(dom.add(p[2], size), ext))
            if lo and not hi and r.info.get("strn") is not None:     # up to the limit or the terminator, whichever comes first
                e = dom.add(p[2], size)
                hi = cs.prove_le(dom.sub(e, r.info["strn"])) and cs.prove_le(dom.addc(dom.sub(e, self.slen(rid)), -1))
            if not (lo and hi) and not cs.prove_le(size):
                self.event(st, "oob", (kind, rid, p[2], size, ext, lo, hi), ins)
            else:
                self.event(st, "inb", (kind, rid), ins) if self.opts.get("log_inb") else None
        if kind == "store" and r.kind == "const":
            self.event(st, "viol", ("write-to-constant", kind, r.name), ins)
        return True

    def restate(self, st, rid):
        """facts that hold of every non-null block of this kind and a join may have lost; True if there were any"""
        return False
    # -------------------------------------------------------------- exploration
    def fork_limit(self):
        self.nstates += 1
        if self.nstates > self.opts["max_states"]: raise Incomplete("state budget exceeded")
    def run(self, work, ctx):
        """ctx None or (depth, fn, header, loop set).  Returns pending edges [(state, frm, to)] leaving or closing the loop."""
        pend = []
        work = list(work)
        while work:
            st = work.pop()
            self.step_block(st, ctx, work, pend)
            if not work and ctx is None and self.parked: work = self.release(pend)
        return pend
    parked = None
    def release(self, pend):
        """the parked group whose place is reached first, blended to few states"""
        k = min(self.parked, key=lambda k: self.parked_at[k])
        sts = self.parked.pop(k)
        out = self.blend(sts, k)
        work = []
        for s in out:
            if k[0] == "loop": s.flags[("passed", k)] = True; self.edge(s, k[1], k[2], None, work, pend)
            else: s.flags[("passed", k)] = True; work.append(s)
        return work
    def park(self, st, k):
        if st.flags.pop(("passed", k), False): return False
        self.parked_at.setdefault(k, k[-1])
        self.parked.setdefault(k, []).append(st); return True
    def blend(self, sts, k):
        """merges states that agree on path flags, the life cycle of blocks and the shape of live values; what differs
        becomes one unknown value inside the hull of the merged ones"""
        fn = sts[0].frames[-1].fn; blk = k[2] if k[0] == "loop" else k[1]
        live = set(self.livein(fn)[blk]) if k[0] == "loop" else None
        names0 = [x for x in sts[0].frames[-1].env]
        allnames = sorted(set(x for s in sts for x in s.frames[-1].env))
        if k[0] == "call": names = [x for x in allnames if self.live_after(fn, blk, k[2], x)]
        else: names = [x for x in allnames if x in live or self.phi_needs(fn, k, x)]
        params = set(p[0] for p in fn.params)
        def skey(s, v):
            if v is None: return None
            if v[0] == "p":
                r = self.R.get(v[1])
                if v[1] and r.kind == "heap": return ("heap", r.info.get("site"))
                if v[1] and r.kind in ("ext", "sym", "global", "const") and r.kind != "alloca" and (r.info.get("cstr") or r.kind in ("global", "const")) : return ("text", self.nullness(s, v[1]))
                return v
            if v[0] == "i": return ("int", v[1]) if v[2][1] else v
            if v[0] == "b": return ("b",) if v[1] not in (True, False) else v
            return v
        groups = {}; order = []
        for s in sts:
            env = s.frames[-1].env
            g = (tuple((x, skey(s, env.get(x)) if x not in params else env.get(x)) for x in names),
                 tuple(sorted(((repr(self.R[r].info.get("site")), v) for r, v in s.heap.items()))),
                 frozenset((a, b) for a, b in s.flags.items() if a[0] not in ("unroll", "env")))
            if g not in groups: groups[g] = []; order.append(g)
            groups[g].append(s)
        out = []
        for g in order:
            ss = groups[g]
            if len(ss) > 1:
                uniq = sorted(set(sites for sites in [tuple(sorted((repr(self.R[r].info.get("site")), r) for r in x.heap)) for x in ss]))
                if len(uniq) > 1 and any(len(set(a for a, _ in u)) != len(u) for u in uniq): out += ss; continue
                ss = [self.blend_group(ss, names, k)]
            out += ss
        return out
    def blend_group(self, ss, names, k):
        self.nblend = getattr(self, "nblend", 0) + 1; tag = ("blend", k, self.nblend)
        # blocks: one canonical region per allocation site
        ren = [dict() for _ in ss]
        sites = {}
        for i, x in enumerate(ss):
            for r in x.heap: sites.setdefault(repr(self.R[r].info.get("site")), {}).setdefault(i, []).append(r)
        for sk, per in sorted(sites.items()):
            ids = set(tuple(v) for v in per.values())
            if len(ids) == 1: continue
            rs = [per[i][0] for i in range(len(ss))]; r0 = self.R[rs[0]]
            exts = set(self.R[r].extent for r in rs)
            if len(exts) == 1: ext = next(iter(exts))
            elif None in exts: ext = None
            else:
                sy = var(sym(tag + ("ext", sk), 0, dom.MAXOBJ)); ext = sy
                for x, r in zip(ss, rs):
                    pass
            n = self.region(tag + (sk,), "heap", r0.name, r0.ty, ext, None, dict(r0.info, zero=False, lazy=True))
            for i, (x, r) in enumerate(zip(ss, rs)):
                ren[i][r] = n; x.heap[n] = x.heap.pop(r)
                for fl in [f for f in x.flags if len(f) > 1 and isinstance(f, tuple) and f[1] == r]: x.flags[(fl[0], n) + fl[2:]] = x.flags.pop(fl)
                if x.null.get(r) is not None: x.null[n] = x.null[r]
                lg = x.mem.pop(r, ())
                x.mem[n] = lg if all(ss[j].mem.get(rs[j], ss[j].mem.get(n, ())) == lg for j in range(len(ss))) else (("hv", const(0), None, tag + (sk,)),)
        for i, x in enumerate(ss):
            if ren[i]:
                for rid, lg in list(x.mem.items()):
                    if any(e[0] == "cell" and e[3][0] == "p" and e[3][1] in ren[i] for e in lg):
                        x.mem[rid] = tuple(e[:3] + (P(ren[i][e[3][1]], e[3][2]),) if e[0] == "cell" and e[3][0] == "p" and e[3][1] in ren[i] else e for e in lg)
        for x in ss:
            for fl in [f for f in x.flags if f[0] == "env"]:
                if any(y.flags.get(fl) != x.flags[fl] for y in ss): del x.flags[fl]
        # live values
        for nm in names:
            vals = []
            for i, x in enumerate(ss):
                v = x.frames[-1].env.get(nm)
                if v is not None and v[0] == "p" and v[1] in ren[i]: v = P(ren[i][v[1]], v[2])
                x.frames[-1].env[nm] = v; vals.append(v)
            if all(v == vals[0] for v in vals): continue
            nv = self.blend_value(ss, vals, tag + ("env", nm))
            for x in ss: x.frames[-1].env[nm] = nv
        a = ss[0]
        for rid in sorted(set(r for x in ss for r in x.mem)):
            if len(set(x.mem.get(rid, ()) for x in ss)) > 1: self.blend_region(ss, rid, tag)
        for b in ss[1:]: a = self.join(a, b)
        return a
    def blend_value(self, ss, vals, key):
        kinds = set(v[0] for v in vals)
        if kinds <= {"i", "b"}:
            w = max([v[1] for v in vals if v[0] == "i"] or [1])
            bs = [(x.cs.lower(v[2]), x.cs.upper(v[2])) if v[0] == "i" else (0, 1) for x, v in zip(ss, vals)]
            lo = min(b[0] for b in bs) if all(b[0] is not None for b in bs) else -(1 << (w - 1))
            hi = max(b[1] for b in bs) if all(b[1] is not None for b in bs) else (1 << w) - 1
            s = sym(key, lo, hi)
            return I(w, var(s)) if w > 1 else ("b", ("nz", var(s)))
        if kinds <= {"p", "fn"}:
            rids = set(v[1] for v in vals)
            if len(rids) == 1 and kinds == {"p"}:
                return P(vals[0][1], var(sym(key)))
            if any(v[0] == "p" and v[1] in x.heap for x, v in zip(ss, vals)): raise Incomplete("states not mergeable")
            txt = all(v[0] == "p" and v[1] and (self.R[v[1]].info.get("cstr") or self.R[v[1]].kind in ("const", "global")) for v in vals)
            r2 = self.region(key, "sym", "blend", None, None, None, {"unk": True, "cstr": True} if txt else {"unk": True})
            for x, v in zip(ss, vals):
                nn = False if v[0] == "fn" else self.nullness(x, v[1])
                if nn is not None: x.null[r2] = nn
            return P(r2)
        return ("u",)
    def phi_needs(self, fn, k, x):
        if k[0] != "loop": return False
        for i in fn.blocks[k[2]].ins:
            if i.op != "phi": break
            for pb, o in i.x:
                if pb == k[1] and o == ("v", x): return True
        return False
    def live_after(self, fn, bi, ii, x):
        def uses(o):
            if isinstance(o, tuple): return (len(o) == 2 and o == ("v", x)) or any(uses(y) for y in o)
            if isinstance(o, list): return any(uses(y) for y in o)
            return False
        for i in fn.blocks[bi].ins[ii:]:
            if uses(i.a) or (i.op == "call" and uses(i.x)): return True
        succ = fn.blocks[bi].ins[-1]
        for b in fn.blocks:
            if x in self.livein(fn)[b.idx] and b.idx in self.succs(fn, bi): return True
            for i in b.ins:
                if i.op != "phi": break
                for pb, o in i.x:
                    if pb == bi and o == ("v", x): return True
        return False
    def succs(self, fn, bi):
        t = fn.blocks[bi].ins[-1]
        if t.op == "br": return set(t.x)
        if t.op == "switch": return {t.x[0]} | {b for _, b in t.x[1]}
        return set()
    def blend_region(self, ss, rid, tag):
        from .ir import Ty
        base = ss[0].mem.get(rid, ()); n = len(base)
        for x in ss[1:]:
            l = x.mem.get(rid, ()); n = min(n, len(l))
            for i in range(n):
                if l[i] != base[i]: n = i; break
        cells = {}; ok = True
        for x in ss:
            for e in x.mem.get(rid, ())[n:]:
                if e[0] == "cell" and not e[1][1]: cells.setdefault((e[1], e[2]), []).append(e[3])
                else: ok = False
        offs = sorted((o[0], sz) for o, sz in cells)
        if any(a[0] + a[1] > b[0] for a, b in zip(offs, offs[1:])): ok = False
        new = []
        if ok:
            for (off, sz), vs in sorted(cells.items()):
                t = Ty("p", 8) if vs[0][0] in ("p", "fn") else Ty("i", sz, 8 * sz) if vs[0][0] in ("i", "b") else None
                vals = []
                for x in ss:
                    r = self.load(x, rid, off, t) if t else ()
                    if len(r) != 1: ok = False; break
                    vals.append(r[0][1])
                if not ok: break
                new.append(("cell", off, sz, vals[0] if all(v == vals[0] for v in vals) else self.blend_value(ss, vals, tag + (rid, off))))
        if ok: log = tuple(base[:n]) + tuple(new)
        else:
            if any(e[0] == "cell" and e[3][0] == "p" and x.heap.get(e[3][1]) == "live" for x in ss for e in x.mem.get(rid, ())): raise Incomplete("states not mergeable")
            spans = []
            for x in ss:
                for e in x.mem.get(rid, ())[n:]:
                    if (e[1], e[2]) not in spans: spans.append((e[1], e[2]))
            if self.R[rid].kind == "heap" and len(spans) <= 2 and all(isinstance(z, tuple) or isinstance(z, int) for _, z in spans):
                # only what one of them wrote is unknown
                log = tuple(base[:n]) + tuple(("hv", o, const(z) if isinstance(z, int) else z, tag + (rid, k)) for k, (o, z) in enumerate(spans))
            else: log = (("hv", const(0), None, tag + (rid,)),)
            # a terminator every merged state has stays known
            ext = self.R[rid].extent
            if ext is not None and not ext[1] and self.R[rid].kind in ("global", "alloca"):
                ls = [self.strlen_log(x, x.mem.get(rid, ()), rid, const(0), 0) for x in ss]
                if all(l is not None for l in ls):
                    us = [x.cs.upper(l) for x, l in zip(ss, ls)]
                    us = [u if u is not None and u <= ext[0] - 1 else (ext[0] - 1 if x.cs.prove_le(dom.addc(l, 1 - ext[0])) else None) for u, x, l in zip(us, ss, ls)]
                    if all(u is not None for u in us):
                        L = var(sym(tag + (rid, "len"), 0, max(us)))
                        log = log + (("str", const(0), dom.addc(L, 1), tag + (rid,), L),)
        v = max(y.lver.get(rid, 0) for y in ss) + 1
        for x in ss: x.mem[rid] = log; x.lver[rid] = v
    def edge(self, st, frm, to, ctx, work, pend):
        f = st.frames[-1]
        if ctx is not None and len(st.frames) == ctx[0] and (to == ctx[2] or to not in ctx[3]):
            pend.append((st, frm, to)); return
        lps = self.loops(f.fn)
        if to in lps and frm not in lps[to] and not self.const_loop(st, f.fn, frm, to, lps[to]):
            if ctx is None and self.parked is not None and len(st.frames) == 1 and self.park(st, ("loop", frm, to, self.rpo(f.fn)[to])): return
            for (s2, f2, t2) in self.do_loop(st, f.fn, frm, to, lps[to]):
                if t2 is None:
                    pend.append((s2, None, None))
                else: self.edge(s2, f2, t2, ctx, work, pend)
            return
        self.enter(st, frm, to)
        if to in lps:
            k = ("unroll", f.fn.name, to, len(st.frames))
            n = st.flags.get(k, 0) + 1
            if n > self.opts["unroll"] + 4: raise Incomplete("unrolling limit in " + f.fn.name)
            st.flags[k] = n if frm in lps[to] else 1
        work.append(st)
    def enter(self, st, frm, to):
        f = st.frames[-1]; b = f.fn.blocks[to]; vals = []
        for i in b.ins:
            if i.op != "phi": break
            for pb, o in i.x:
                if pb == frm: vals.append((i.res, self.val(st, o))); break
            else: raise Incomplete("phi")
        for r, v in vals: f.env[r] = v
        f.bi = to; f.ii = len(vals); f.prev = frm
    def const_loop(self, st, fn, frm, h, L):
        """loop with a compile-time constant trip count <= unroll limit: explored exactly"""
        key = ("cl", fn.name, h)
        r = self.loopcache.get(key)
        if r is None:
            r = self._const_trip(fn, h, L); self.loopcache[key] = r
        if not r: return self.sim_loop(st, fn, frm, h, L)
        phi, step, pred, bound, neg, where = r
        init = None
        for pb, o in phi.x:
            if pb == frm:
                v = self.val(st, o)
                if v[0] == "i" and not v[2][1]: init = v[2][0]
        if init is None: return False
        if callable(bound): return False
        if step == 0: return False
        trip = abs(bound - init) // abs(step) + 1
        return trip <= self.opts["unroll"]
    def every_round(self, fn, h, L, b):
        """block b is passed in every iteration that goes on"""
        if b == h: return True
        seen = {h}; todo = [h]
        while todo:
            x = todo.pop()
            for y in self.succs(fn, x):
                if y == h: return False
                if y in L and y != b and y not in seen: seen.add(y); todo.append(y)
        return True
    def sim_loop(self, st, fn, frm, h, L):
        """the only exit tests a value computed from constants alone: short trip counts are explored exactly"""
        defs = {i.res: i for b in L for i in fn.blocks[b].ins}
        ex = [fn.blocks[b].ins[-1] for b in L if any(s not in L for s in self.succs(fn, b))]
        if len(ex) != 1 or ex[0].op != "br" or len(ex[0].x) != 2: return False
        t = ex[0]; need = set(); todo = [t.a[0]]; BIN = ("add", "sub", "mul", "shl", "lshr", "and", "or", "xor", "icmp", "zext", "trunc")
        while todo:
            o = todo.pop()
            if o[0] == "c": continue
            if o[0] != "v" or o[1] not in defs: return False
            if o[1] in need: continue
            need.add(o[1]); d = defs[o[1]]
            if d.op == "phi":
                if d.blk != h: return False
                todo += [x for pb, x in d.x if pb in L]
            elif d.op in BIN: todo += list(d.a[:2])
            else: return False
        latches = [b for b in L if h in self.succs(fn, b)]
        if len(latches) != 1: return False
        cur = {}
        for r in need:
            d = defs[r]
            if d.op != "phi": continue
            for pb, o in d.x:
                if pb == frm:
                    v = self.val(st, o)
                    if v[0] != "i" or v[2][1]: return False
                    cur[r] = v[2][0] & ((1 << v[1]) - 1)
        def ev(o, env):
            if o[0] == "c": return o[1]
            r = o[1]
            if r in env: return env[r]
            d = defs[r]
            if d.op == "phi": return None
            a = [ev(x, env) for x in d.a[:2]]
            if None in a: return None
            if d.op == "icmp":
                w = [x for x in d.a if x[0] == "c"]; w = w[0][2] if w else 64
                sg = lambda x: x - (1 << w) if x >> (w - 1) else x
                p = d.x; x, y = (sg(a[0]), sg(a[1])) if p in ("slt", "sle", "sgt", "sge") else a
                v = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}.get(p if p in ("eq", "ne") else p[1:])
                if v is None: return None
                v = int(v)
            elif d.op in ("zext", "trunc"): v = a[0]
            else:
                if d.op in ("shl", "lshr") and a[1] >= d.ty.w: return None
                v = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "shl": lambda x, y: x << y, "lshr": lambda x, y: x >> y,
                     "and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[d.op](*a)
            v &= (1 << d.ty.w) - 1
            env[r] = v
            return v
        for n in range(self.opts["unroll"] + 1):
            env = dict(cur); c = ev(t.a[0], env)
            if c is None: return False
            if t.x[0 if c else 1] not in L: return True
            nxt = {}
            for r in cur:
                for pb, o in defs[r].x:
                    if pb in L: nxt[r] = ev(o, env)
            if None in nxt.values(): return False
            cur = nxt
        return False
    def cfold(self, o, defs, depth=4):
        """an operand computed from constants alone, as a constant"""
        if o[0] != "v" or not depth: return o
        d = defs.get(o[1])
        if d is None or d.op not in ("add", "sub", "mul", "zext", "sext", "trunc"): return o
        a = [self.cfold(x, defs, depth - 1) for x in d.a[:2]]
        if any(x[0] != "c" for x in a): return o
        w = d.ty.w; v = a[0][1]
        if d.op == "sext" and v >> (a[0][2] - 1): v -= 1 << a[0][2]
        if d.op in ("add", "sub", "mul"): v = {"add": v + a[1][1], "sub": v - a[1][1], "mul": v * a[1][1]}[d.op]
        return ("c", v & ((1 << w) - 1), w)
    def _const_trip(self, fn, h, L):
        defs = {i.res: i for b in fn.blocks for i in b.ins}
        for b in L:
            t = fn.blocks[b].ins[-1]
            if t.op == "br" and len(t.x) == 2 and any(s not in L for s in t.x) and self.every_round(fn, h, L, b):
                c = t.a[0]
                if c[0] != "v": continue
                d = defs[c[1]]
                if d.op != "icmp": continue
                for x, y in ((d.a[0], d.a[1]), (d.a[1], d.a[0])):
                    y = self.cfold(y, defs)
                    if y[0] == "c" and x[0] == "v":
                        e = defs.get(x[1])
                        while e is not None and e.op in ("sext", "zext", "trunc") and e.a[0][0] == "v": e = defs.get(e.a[0][1])
                        if e is None: continue
                        ph = None
                        if e.op == "phi" and e.blk == h: ph = e
                        elif e.op in ("add", "sub") and e.a[0][0] == "v" and e.a[1][0] == "c":
                            q = defs.get(e.a[0][1])
                            if q is not None and q.op == "phi" and q.blk == h: ph = q
                        if ph is None: continue
                        # back value = phi +- const
                        step = None
                        for pb, o in ph.x:
                            if pb in L and o[0] == "v":
                                q = defs.get(o[1])
                                if q is not None and q.op in ("add", "sub") and q.a[0] == ("v", ph.res) and q.a[1][0] == "c":
                                    s = q.a[1][1]; w = q.a[1][2]
                                    if s >> (w - 1): s -= 1 << w
                                    if q.op == "sub": s = -s
                                    if step is None or step == s: step = s
                                    else: return None
                                else: return None
                        if step:
                            bd = y[1]
                            if bd >> (y[2] - 1): bd -= 1 << y[2]
                            return (ph, step, d.x, bd, False, b)
        return None

    # -------------------------------------------------------------- loop fixpoint
    muted = None
    def load_item(self, st, rid, off, t):
        """content of a location without recording the read; ("uninit",) when nothing was stored there"""
        self.muted = []
        try:
            v = self.load(st, rid, off, t)[0][1]
            return ("uninit",) if "uninit" in self.muted else v
        finally: self.muted = None
    def kind_of(self, v, st=None):
        if v[0] == "uninit": return ("uninit",)
        if v[0] == "p":
            if v[1] == 0: return ("null",)
            r = self.R[v[1]]
            if r.kind == "heap": return ("heap", r.info.get("site"))
            if r.kind == "opaque": return ("opaque",)
            if st is not None and r.kind in ("sym", "ext") and st.null.get(v[1]) is True: return ("null",)
            if r.kind == "sym" and self.from_unknown(v[1]): return ("opaque",)
            return ("base", v[1])
        if v[0] == "fn": return ("fn", v[1])
        if v[0] == "i": return ("int", v[1])
        if v[0] == "b":
            return ("bool", v[1]) if v[1] is True or v[1] is False else ("anyb",)
        if v[0] == "u": return ("u",)
        return ("agg",)
    def do_loop(self, st0, fn, frm, h, L):
        depth = len(st0.frames)
        phis = [i for i in fn.blocks[h].ins if i.op == "phi"]
        ctx = (depth, fn, h, L)
        mods = {}          # (rid, off lin) -> (size, tykind) exact cells; (rid, None) -> whole region
        nowide = {}        # item -> set of constants seen (partitioned) or 'wide'
        defs = None
        wide = set()
        # induction variables are widened at once
        dd = {i.res: i for b in L for i in fn.blocks[b].ins}
        for p in phis:
            for pb, o in p.x:
                if pb in L and o[0] == "v" and o[1] in dd and dd[o[1]].op in ("add", "sub", "gep", "mul", "call", "load", "zext", "sext") and not (dd[o[1]].op in ("zext", "sext") and getattr(dd[o[1]].x, "w", 0) == 1): wide.add(("phi", p.res))
        guards = set()
        saved_sink = self.sink
        generalize = set()   # items forced to opaque
        strides = {}         # pointer offsets that advance by a constant: item -> step; None when they do not after all
        base_found = self.found
        for attempt in range(30):
            restart = False
            heads = {}; queue = []
            self.found = []
            entry_vals = {}
            def items_of(st, frm_):
                vals = {}
                for p in phis:
                    for pb, o in p.x:
                        if pb == frm_: vals[("phi", p.res)] = self.val(st, o)
                for (rid, off), (size, t) in mods.items():
                    if off is None: continue
                    vals[("mem", rid, off)] = self.load_item(st, rid, off, t)
                return vals
            def shape(st, vals):
                key = []
                for it in sorted(vals, key=repr):
                    v = vals[it]
                    if it in generalize: key.append((it, ("gen",))); continue
                    k = self.kind_of(v, st)
                    if k[0] == "int" and it not in wide and not v[2][1]: k = ("const", v[2][0])
                    if k[0] == "base" and v[2] != (0, ()) and False: pass
                    key.append((it, k))
                for rid, v in st0.heap.items():
                    # blocks from before the loop that an earlier iteration released
                    if v == "live" and st.heap.get(rid) == "freed": key.append((("freed", rid), ("freedst",)))
                    elif v == "live" and st.flags.get(("esc", rid)) and not st0.flags.get(("esc", rid)): key.append((("esc", rid), ("escst",)))
                for fl in CARRIED:
                    v = st.flags.get(fl); v = bool(v) if v is not None else None
                    v0 = st0.flags.get(fl); v0 = bool(v0) if v0 is not None else None
                    if v != v0: key.append((("flag", fl), ("flagst", v)))
                return tuple(key)
            def numview(vals):
                """numeric items: name -> lin"""
                out = {}
                for it, v in vals.items():
                    if v[0] == "i" and (it in wide or v[2][1] or True): out[it] = v[2]
                    elif v[0] == "p" and v[1] != 0:
                        o = ("off",) + it
                        out[o] = v[2]
                        if strides.get(o):
                            b0 = v0.get(it); d = dom.sub(v[2], b0[2]) if b0 is not None and b0[0] == "p" and b0[1] == v[1] else None
                            n = strides[o]
                            if d is None or d[0] % n or any(k % n for _, k in d[1]): strides[o] = None
                            else: out[o] = (d[0] // n, tuple((x, k // n) for x, k in d[1]))
                        r = self.R[v[1]]
                        if r.kind == "heap" and r.extent is not None: out[("ext",) + it] = r.extent
                return out
            def itemsym(key, it):
                return sym(("loop", fn.name, h, depth, attempt, self.loopctr, key, it), *self.item_bounds(it, phis, mods))
            self.loopctr = getattr(self, "loopctr", 0) + 1
            myctr = self.loopctr
            def isym(hd, it):
                lo, hi = hd.bounds.get(it, (None, None))
                return sym(("loop", myctr, hd.key, it), lo, hi, {"name": "loop%d_%s" % (fn.blocks[h].ins[0].line or 0, it[-1])})
            def build(hd):
                """abstract header state of a head"""
                s = st0.copy()
                s.null.update(hd.null)
                lo, hi, eqs = {}, {}, {}
                for c in hd.cands:      # items that keep one value
                    if c[0] == 0 and len(c[1]) == 1:
                        (it, k), = c[1]
                        if k == 1: hi.setdefault(it, set()).add(dom.scale(c[2], -1))
                        elif k == -1: lo.setdefault(it, set()).add(c[2])
                for it in lo:
                    for v in lo[it] & hi.get(it, set()): eqs[it] = v
                def iv(it):
                    v = eqs[it] if it in eqs else var(isym(hd, it))
                    return dom.add(ventry[it[1:]][2], dom.scale(v, strides[it])) if strides.get(it) else v
                f = s.frames[-1]
                vals = {}
                for it, k in hd.key:
                    if k[0] == "freedst": s.heap[it[1]] = "freed"; continue
                    if k[0] == "escst": s.flags[it] = True; continue
                    if k[0] == "flagst": s.flags[it[1]] = k[1]; continue
                    if k[0] == "int": vals[it] = I(k[1], var(isym(hd, it)))
                    elif k[0] == "const":
                        w = hd.first[it][1]; vals[it] = CI(w, k[1])
                    elif k[0] == "null": vals[it] = NULL
                    elif k[0] == "uninit": vals[it] = ("uninit",)
                    elif k[0] == "base": vals[it] = P(k[1], iv(("off",) + it) if ("off",) + it in hd.bounds else hd.firstoff[it])
                    elif k[0] == "fn": vals[it] = ("fn", k[1])
                    elif k[0] == "bool": vals[it] = ("b", k[1])
                    elif k[0] == "anyb": vals[it] = ("b", ("nz", var(sym(("loopb", myctr, hd.key, it), 0, 1))))
                    elif k[0] == "heap":
                        src = self.R[hd.first[it][1]]
                        if hd.first[it][1] in st0.heap and hd.entry:    # allocated before the loop: keep identity
                            rid = hd.first[it][1]
                        else:
                            for x, xv in st0.heap.items():      # an older block reached again: which one is not tracked
                                if xv == "live" and self.R[x].kind == "heap" and self.R[x].info.get("site") == k[1]: s.flags[("esc", x)] = True
                            ext = var(isym(hd, ("ext",) + it)) if ("ext",) + it in hd.bounds else None
                            rid = self.region(("loopheap", myctr, hd.key, it), "heap", "loop-" + src.name, src.ty, ext, None, dict(src.info, zero=False, lazy=True, loophead=myctr))
                            s.heap[rid] = "live"
                        o = ("off",) + it
                        vals[it] = P(rid, iv(o) if o in hd.bounds else const(0))
                    elif k[0] in ("opaque", "gen"):
                        v0 = hd.first[it]
                        if v0[0] == "p" and k[0] == "gen":      # identity of the blocks it may hold is given up
                            for x in self.reachable(st0, [v0]):
                                if s.heap.get(x) == "live": s.flags[("esc", x)] = True
                        if v0[0] in ("p", "fn"):
                            rid = self.region(("loopptr", myctr, hd.key, it), "sym", "loopptr", self.R[v0[1]].ty if v0[0] == "p" else None, None, None, {"unk": True})
                            self.setup_ptr(rid)
                            vals[it] = P(rid)
                        else: vals[it] = ("u",)
                    else: vals[it] = ("u",)
                for it in vals:
                    if it[0] == "phi": f.env[it[1]] = vals[it]
                # memory
                for (rid, off), (size, t) in mods.items():
                    if off is None:
                        if self.R[rid].kind != "alloca":
                            for e in self.log(s, rid):
                                if e[0] == "cell" and e[3][0] == "p" and s.heap.get(e[3][1]) == "live": s.flags[("esc", e[3][1])] = True
                        self.write_range(s, rid, const(0), None, ("hv", ("loop", myctr, hd.key)))
                for (rid, off), (size, t) in mods.items():
                    if off is not None and vals[("mem", rid, off)] != ("uninit",):
                        self.store(s, rid, off, vals[("mem", rid, off)], size)
                m = {}
                for it, lin in numview(vals).items(): m[it] = lin
                hd.hv = m
                for c in hd.cands:
                    if all(it in m for it, k in c[1]): s.cs.assume_le(inst(c, m))
                f.bi = h; f.ii = len(phis); f.prev = frm
                s.ev = (Ev("loop", (fn.name, h, myctr), (fn.blocks[h].ins[-1].file, fn.blocks[h].ins[-1].line, fn.name), self.stack(s)), st0.ev)
                return s
            def inst(c, m):
                """candidate: (const, ((item,k)...), extra lin)  ->  lin"""
                r = c[2]
                r = dom.addc(r, c[0])
                for it, k in c[1]: r = dom.add(r, dom.scale(m[it], k))
                return r
            def holds(st, c, m):
                for it, k in c[1]:
                    if it not in m: return False
                return st.cs.prove_le(inst(c, m))
            def arrive(st, vals, isentry):
                nonlocal restart
                key = shape(st, vals)
                was = dict(strides); nv = numview(vals)
                if was != strides: restart = True; return
                hd = heads.get(key)
                # constant partition overflow
                for it, k in key:
                    if k[0] == "const":
                        cset = nowide.setdefault(it, set()); cset.add(k[1])
                        if len(cset) > 3 or any(c - 1 in cset and c - 2 in cset for c in cset): wide.add(it); restart = True
                if restart: return
                if hd is None:
                    if len(heads) >= 16:
                        for it, k in key:
                            if k[0] in ("base", "null", "heap", "opaque"): generalize.add(it)
                        restart = True; return
                    hd = Head(); hd.key = key; hd.first = vals; hd.entry = isentry; hd.state = st; hd.done = False; hd.res = None
                    hd.null = {}
                    hd.firstoff = {it: v[2] for it, v in vals.items() if v[0] == "p"}
                    hd.bounds = {}
                    for it, lin in nv.items():
                        if it[0] in ("off", "ext"):
                            hd.bounds[it] = (None, None) if it[0] == "off" else (0, dom.MAXOBJ)
                        else:
                            kk = dict(key).get(it)
                            if kk and kk[0] == "int":
                                hd.bounds[it] = self.ibounds(kk[1], lin, st)
                    hd.cands = [c for c in self.candidates(nv, hd, guards, entry_num) if holds(st, c, nv)]
                    heads[key] = hd; queue.append(hd)
                else:
                    n = [c for c in hd.cands if holds(st, c, nv)]
                    # offsets of pointers must be representable
                    if len(n) != len(hd.cands):
                        hd.cands = n
                        if hd not in queue: queue.append(hd)
                    for it, lin in nv.items():
                        b = hd.bounds.get(it)
                        if b is not None and it[0] not in ("off", "ext"):
                            lo, hi = b
                            l = st.cs.lower(lin); u = st.cs.upper(lin)
                            if not (st.cs.prove_le(dom.addc(dom.scale(lin, -1), lo)) and st.cs.prove_le(dom.addc(lin, -hi))):
                                w = dict(hd.key)[it][1]
                                hd.bounds[it] = (-(1 << (w - 1)), (1 << w) - 1)
                                if hd.bounds[it] != b:
                                    hd.widened = True
                                    if hd not in queue: queue.append(hd)
                for it, v in vals.items():
                    pass
            v0 = ventry = items_of(st0, frm)
            for o in strides:
                if v0.get(o[1:], NULL)[0] != "p": strides[o] = None
            entry_num = numview(v0)
            self.loopctr += 1; myctr = self.loopctr
            arrive(st0, v0, True)
            if restart: continue
            iters = 0
            while queue and not restart:
                iters += 1
                if iters > 60: raise Incomplete("loop fixpoint did not converge in %s" % fn.name)
                hd = queue.pop(0)
                hs = build(hd)
                if self.opts.get("debug"): print("head", attempt, fn.name, h, "items", [(it, hd.bounds.get(it)) for it in hd.hv], "cands", len(hd.cands), "guards", guards, hd.cands, "mods", [(self.R[k[0]].name, k[1]) for k in mods])
                self.found = []      # only what the last visit of a head finds counts: earlier ones assume too much or too little
                if hs.cs.bad:
                    hd.res = ([], [], []); hd.found = []; continue
                hs0 = hs.copy()
                self.sink = []
                pend = self.run([hs], ctx)
                ends = self.sink
                back = []; exits = []
                for (s, f_, t_) in pend:
                    if f_ is None: exits.append((s, None, None))
                    elif len(s.frames) == depth and t_ == h: back.append((s, f_))
                    else: exits.append((s, f_, t_))
                # states that returned from the function inside the loop come back with fewer frames
                hd.res = (exits, ends, back); hd.hs0 = hs0
                hd.backvals = [items_of(x, y) for x, y in back]
                for bv in hd.backvals:
                    for it, v in bv.items():
                        o = ("off",) + it
                        if o in hd.hv and o not in strides and v[0] == "p" and v[1] and it in v0 and v0[it][0] == "p" and v0[it][1] == v[1]:
                            d = dom.sub(v[2], hd.hv[o])
                            if not d[1] and abs(d[0]) > 1: strides[o] = abs(d[0]); restart = True
                if restart: break
                newm = False
                for s, f_ in back:
                    for k, v in self.modified(hs0, s, mods).items():
                        if k not in mods:
                            mods[k] = v; newm = True
                for (s, f_) in back:
                    # guards: constraints over header symbols
                    if self.collect_guards(hs0, s, hd, guards): newm = newm or (attempt < 10 and not hd.entry is None and self.guard_new)
                if newm:
                    restart = True
                    if self.opts.get("debug"): print("restart", attempt, fn.name, h, "mods", {(self.R[k[0]].name,k[1]):v for k,v in mods.items()}, "guards", len(guards), "guard_new", self.guard_new)
                    break
                hd.found = self.found
                for s, f_ in back:
                    self.check_iter_leak(hs0, s, fn, h, f_)
                    arrive(s, items_of(s, f_), False)
                    if restart: break
            if not restart: break
        else:
            raise Incomplete("loop analysis did not stabilise in %s" % fn.name)
        self.sink = saved_sink
        self.found = base_found + [x for hd in heads.values() for x in getattr(hd, "found", ())]
        out = []
        deltas = []
        for hd in heads.values():
            exits, ends, back = hd.res
            for s, f_ in back:
                deltas.append((s, self.delta(s, st0.ev)))
            self.sink.extend(ends)
            for e in exits:
                out.append(e)
        self.loopinfo[myctr] = (fn.name, h, deltas, {"fn": fn, "depth": depth, "L": L, "entry": v0, "st0": st0, "phis": [p.res for p in phis], "strides": {o: n for o, n in strides.items() if n}, "shape": shape, "heads": [(hd, getattr(hd, "hs0", None), [(x[0], y) for x, y in zip(hd.res[2], getattr(hd, "backvals", []))]) for hd in heads.values() if hd.res]})
        self.heads_last = heads
        return self.merge_edges(fn, out)
    # -------------------------------------------------------------- state merging
    def drop_locals(self, st, depth):
        for rid in list(st.mem):
            r = self.R[rid]
            if r.kind == "alloca" and r.info.get("depth") == depth: del st.mem[rid]
        for k in [k for k in st.flags if k[0] == "unroll" and k[3] >= depth]: del st.flags[k]
    def memkey(self, st):
        return frozenset((rid, lg) for rid, lg in st.mem.items() if lg)
    def join(self, a, b):
        """keeps what both states agree on (same memory, heap and flags)"""
        ca, cb = a.cs, b.cs
        cons = [c for c in ca.cons if c in cb.cons or cb.prove_le(c)]
        cons += [c for c in cb.cons if c not in cons and ca.prove_le(c)]
        iv = {}
        for s in set(ca.iv) | set(cb.iv):
            (l1, h1), (l2, h2) = ca.bounds(s), cb.bounds(s)
            lo = None if l1 is None or l2 is None else min(l1, l2)
            hi = None if h1 is None or h2 is None else max(h1, h2)
            iv[s] = (lo, hi)
        n = dom.Store(); n.cons = tuple(cons); n.iv = iv
        n.neq = tuple(x for x in ca.neq if x in cb.neq or cb.prove_neq0(x))
        a.cs = n
        a.null = {k: v for k, v in a.null.items() if b.null.get(k) == v}
        a.peq = tuple(x for x in a.peq if x in b.peq)
        for k, v in b.lver.items():
            if v > a.lver.get(k, 0): a.lver[k] = v
        a.inv |= b.inv
        return a
    def merge_list(self, sts, keyf):
        if len(sts) < 2 or not self.opts.get("merge", True): return sts
        groups = {}; order = []
        for s in sts:
            k = (keyf(s), self.memkey(s), frozenset(s.heap.items()), frozenset((k, v) for k, v in s.flags.items() if k[0] != "unroll"), self.empty_slots(s))
            if k in groups: groups[k].append(s)
            else: groups[k] = [s]; order.append(k)
        out = []
        for k in order:
            g = groups[k]; a = g[0]
            for b in g[1:]:
                a = self.join(a, b)
            out.append(a)
        return out
    def empty_slots(self, s):
        """element slots known to hold null: what is written there afterwards replaces nothing"""
        return frozenset(r for r, v in s.null.items() if v is True and self.R[r].kind == "sym" and self.R[r].origin and self.R[r].origin[1][1] and not self.R[r].info.get("unk"))
    def merge_edges(self, fn, edges):
        if len(edges) < 2 or not self.opts.get("merge", True): return edges
        by = {}; order = []
        for s, f_, t_ in edges:
            k = (f_, t_)
            if k not in by: by[k] = []; order.append(k)
            by[k].append(s)
        out = []; live = self.livein(fn)
        for f_, t_ in order:
            if t_ is None: kf = lambda s: s.tag
            else:
                need = set(live[t_]); 
                for i in fn.blocks[t_].ins:
                    if i.op != "phi": break
                    for pb, o in i.x:
                        if pb == f_ and o[0] == "v": need.add(o[1])
                need = sorted(need)
                kf = lambda s, need=need: tuple(s.frames[-1].env.get(x) for x in need)
            for s in self.merge_list(by[(f_, t_)], kf): out.append((s, f_, t_))
        return out
    guard_new = False
    def delta(self, st, upto):
        out = []; e = st.ev
        while e is not None and e is not upto:
            out.append(e[0]); e = e[1]
        out.reverse(); return out
    def ibounds(self, w, lin, st):
        lo = st.cs.lower(lin)
        if w >= 64:
            return (0, (1 << 64) - 1) if (lo is not None and lo >= 0) else (-(1 << 63), (1 << 63) - 1)
        u = st.cs.upper(lin)
        if w == 8: return (-128, 127) if u is None or u <= 127 else (0, 255)
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    def item_bounds(self, it, phis, mods): return (None, None)
    def candidates(self, nv, hd, guards, entry):
        """template invariants over the numeric items of a loop head"""
        out = []; Z = (0, ())
        items = [it for it in nv if it in hd.bounds]
        for it in items:
            if it in entry:
                e = entry[it]
                out.append((0, ((it, -1),), e))                  # x >= x0
                out.append((0, ((it, 1),), dom.scale(e, -1)))    # x <= x0
            elif it[0] in ("off", "ext") and not nv[it][1]:
                out.append((0, ((it, -1),), nv[it])); out.append((0, ((it, 1),), dom.scale(nv[it], -1)))
            out.append((0, ((it, -1),), Z))                      # x >= 0
            out.append((1, ((it, -1),), Z))                      # x >= 1
        for n, sk in [(n, x[0]) for n, x in enumerate(dom.SYMS) if isinstance(x[0], tuple) and x[0] and x[0][0] == "slen"][-6:]:
            for it in items:                                     # positions in a text of known length
                if it in entry and (it[0] == "phi" and dict(hd.key).get(it) == ("int", 64) or it[0] == "off") and not entry[it][1]: out.append((0, ((it, 1),), (0, ((n, -1),))))
        for i, a in enumerate(items):
            for b in items[i + 1:]:
                for ka, kb in ((1, -1), (-1, 1)):
                    if a in entry and b in entry:
                        # x - y = x0 - y0 and multiples for pointer offsets
                        d = dom.sub(dom.scale(entry[a], ka), dom.scale(entry[b], -kb))
                        out.append((0, ((a, ka), (b, kb)), dom.scale(d, -1)))
                    out.append((0, ((a, ka), (b, kb)), Z))
                    out.append((1, ((a, ka), (b, kb)), Z))
                for m in (2, 4, 8, 16, 24, 32):
                    for x, y in ((a, b), (b, a)):
                        if x[0] == "ext" or x[0] == "off":
                            if x in entry and y in entry:
                                d = dom.sub(entry[x], dom.scale(entry[y], m))
                                out.append((0, ((x, 1), (y, -m)), dom.scale(d, -1)))
                                out.append((0, ((x, -1), (y, m)), d))
                            else:
                                out.append((0, ((x, 1), (y, -m)), Z)); out.append((0, ((x, -1), (y, m)), Z))
                    for ka, kb in ((1, 1), (-1, -1)):
                        if a in entry and b in entry and m == 2:
                            d = dom.add(dom.scale(entry[a], ka), dom.scale(entry[b], kb))
                            out.append((0, ((a, ka), (b, kb)), dom.scale(d, -1)))
        for g in guards:
            if all(it in nv and it in hd.bounds for it, k in g[1]): out.append(g)
        return out
    def collect_guards(self, hs0, s, hd, guards):
        self.guard_new = False
        old = set(hs0.cs.cons)
        inv = {}
        for it, lin in hd.hv.items():
            if len(lin[1]) == 1 and lin[1][0][1] == 1 and lin[0] == 0: inv[lin[1][0][0]] = it
        new = [c for c in s.cs.cons if c not in old]
        for sy in inv:
            b = s.cs.iv.get(sy); b0 = hs0.cs.bounds(sy)
            if b is not None and b != b0:
                if b[1] is not None and b[1] != b0[1]: new.append((-b[1], ((sy, 1),)))
                if b[0] is not None and b[0] != b0[0]: new.append((b[0], ((sy, -1),)))
        oldn = set(hs0.cs.neq)
        for n in s.cs.neq:      # "until equal" loops: stays on one side of the limit
            if n in oldn or not n[1] or len(n[1]) < 2 and inv.get(n[1][0][0], ("",))[0] != "off": continue
            its = tuple((inv[x], k) for x, k in n[1] if x in inv)
            rest = tuple((x, k) for x, k in n[1] if x not in inv)
            if len(its) != 1 or any(not self.invariant_sym(x, hs0) for x, k in rest): continue
            for sg in (1, -1):
                g = (sg * n[0], tuple((i, sg * k) for i, k in its), (0, tuple((x, sg * k) for x, k in rest)))
                if g not in guards and len(guards) < 120: guards.add(g); self.guard_new = True
        for c in new:
            its = [(inv[x], k) for x, k in c[1] if x in inv]
            if not its: continue
            rest = tuple((x, k) for x, k in c[1] if x not in inv)
            if any(not self.invariant_sym(x, hs0) for x, k in rest): continue
            for slack in (0, 1, 2):
                g = (c[0] - slack, tuple(its), (0, rest))
                if g not in guards and len(guards) < 120:
                    guards.add(g); self.guard_new = True
                if slack < 2 and len(its) == 1 and its[0][1] > 0 and its[0][0][0] not in ("off", "ext"):
                    # another counter may stay below the same limit
                    for o in hd.hv:
                        if o[0] in ("off", "ext") or o == its[0][0]: continue
                        g = (c[0] - slack, ((o, its[0][1]),), (0, rest))
                        if g not in guards and len(guards) < 120: guards.add(g); self.guard_new = True
        return self.guard_new
    def invariant_sym(self, s, hs0):
        k = dom.SYMS[s][0]
        if isinstance(k, tuple) and k and k[0] in ("loop",): return any(s == x for c in hs0.cs.cons for x, _ in c[1]) and False
        if isinstance(k, tuple) and len(k) > 1 and k[1] == "#": return any(s == x for c in hs0.cs.cons for x, _ in c[1]) or s in hs0.cs.iv
        if isinstance(k, tuple) and k and k[0] in ("init", "slen", "arg", "argcount"): return True
        return any(s == x for c in hs0.cs.cons for x, _ in c[1]) or s in hs0.cs.iv
    def modified(self, a, b, mods):
        """locations whose content differs between header state a and back-edge state b"""
        out = {}
        from .ir import Ty
        for rid, log in b.mem.items():
            old = a.mem.get(rid, ())
            if log is old or log == old: continue
            if rid not in a.mem and self.R[rid].kind in ("alloca", "heap", "ext") and self.born_after(a, rid, b): continue
            if b.heap.get(rid) == "freed": continue
            if (rid, None) in mods or self.R[rid].info.get("loophead"): continue
            if rid not in a.mem and self.from_unknown(rid): continue      # arbitrary content at the head anyway
            oldset = set(map(id, old)); oldl = list(old)
            new = [e for e in log if not any(e is o or e == o for o in oldl)]
            gone = [o for o in oldl if not any(o is e or o == e for e in log)]
            whole = False
            for e in new + gone:
                if e[0] == "cell" and self.loopinv(e[1], a):
                    v = e[3]
                    t = Ty("p", 8) if v[0] in ("p", "fn") else Ty("i", e[2], v[1]) if v[0] == "i" else Ty("i", e[2], 8 * e[2])
                    if v[0] == "u": t = Ty("p", 8) if e[2] == 8 else Ty("i", e[2], 8 * e[2])
                    if v[0] == "agg": whole = True; continue
                    if v[0] == "b": t = Ty("i", 1, 8)
                    # overlapping with another modified cell of different size -> whole region
                    out[(rid, e[1])] = (e[2], t)
                else: whole = True
            if not new and not gone: continue
            if whole:
                for k in [k for k in out if k[0] == rid]: del out[k]
                for k in [k for k in mods if k[0] == rid and k[1] is not None]: del mods[k]
                out[(rid, None)] = (None, None)
        return out
    def from_unknown(self, rid):
        """pointee read out of memory with unknown content (its own content is arbitrary)"""
        for _ in range(8):
            r = self.R[rid]
            if r.info.get("unk") or r.info.get("loophead"): return True
            if r.kind != "sym" or not r.origin: return False
            rid = r.origin[0]
        return False
    def born_after(self, a, rid, b):
        r = self.R[rid]
        if r.kind == "heap": return rid not in a.heap
        if r.kind == "ext": return rid not in a.null
        if r.kind == "alloca":
            d = r.info.get("depth")
            if d is None: return False
            if d > len(a.frames): return True
            return a.frames[d - 1].env.get(r.info.get("res")) != P(rid)
        return False
    def loopinv(self, off, a):
        for s, k in off[1]:
            kk = dom.SYMS[s][0]
            if isinstance(kk, tuple) and kk[0] == "init": continue
            if isinstance(kk, tuple) and kk[0] in ("slen", "arg"): continue
            if any(s == x for c in a.cs.cons for x, _ in c[1]) and kk[0] != "loop": continue
            return False
        return True
    def check_iter_leak(self, hs0, s, fn, h, frm):
        """blocks allocated in this iteration that nothing refers to at the back edge"""
        live = [r for r, v in s.heap.items() if v == "live" and r not in hs0.heap]
        live += [r for r, v in hs0.heap.items() if v == "live" and s.heap.get(r) == "live"]
        if not live: return
        f = s.frames[-1]
        lv = set(self.livein(fn)[h])
        roots = [f.env[x] for x in lv if x in f.env]
        for i in fn.blocks[h].ins:
            if i.op != "phi": break
            for pb, o in i.x:
                if pb == frm: roots.append(self.val(s, o))
        for ff in s.frames[:-1]:
            lvb = self.livein(ff.fn)
            # conservative: everything in caller environments that is still used somewhere
            roots += list(ff.env.values())
        reach = self.reachable(s, roots, allocas=True); reach0 = None
        for r in live:
            if r not in reach and not s.flags.get(("esc", r)):
                if r in hs0.heap:
                    if reach0 is None: reach0 = self.reachable(hs0, [v for ff in hs0.frames for v in ff.env.values()], allocas=True)
                    if r not in reach0: continue
                self.event(s, "viol", ("leak", self.R[r].name, self.R[r].info.get("site")))
                self.loopviol.append(s.ev[0])
    loopviol = []
    def reachable(self, st, roots, allocas=False, skip_freed=True):
        seen = set(); work = []
        def addv(v):
            if v[0] == "p":
                if v[1] not in seen: seen.add(v[1]); work.append(v[1])
            elif v[0] == "agg":
                for x in v[1]: addv(x)
            elif v[0] == "i":
                for s, k in v[2][1]:
                    m = dom.META.get(s)
                    if isinstance(m, dict) and "ptr" in m: addv(P(m["ptr"]))
        for v in roots: addv(v)
        for rid, r in list(self.R.items()):
            if r.kind in ("global", "const", "param") and rid in st.mem and rid not in seen:
                seen.add(rid); work.append(rid)
            if allocas and r.kind == "alloca" and rid in st.mem and rid not in seen:
                seen.add(rid); work.append(rid)
        def scan(log):
            for e in log:
                if e[0] == "cell": addv(e[3])
                elif e[0] == "copy":
                    scan(e[4])
        while work:
            rid = work.pop()
            if skip_freed and st.heap.get(rid) == "freed": continue
            scan(st.mem.get(rid, ()))
            for (k, child) in self.children(st, rid): addv(P(child))
        return seen
    def children(self, st, rid):
        """symbolic pointers lazily loaded from rid that are still stored there"""
        out = []
        for r in self.by_origin.get(rid, ()):
            rr = self.R[r]
            off = rr.origin[1]
            v = self.load_quiet(st, rid, off)
            if v is not None and v[0] == "p" and v[1] == r: out.append((off, r))
        return out
    @property
    def by_origin(self):
        d = getattr(self, "_bo", None); n = len(self.R)
        if d is None or d[0] != n:
            m = {}
            for r in self.R.values():
                if r.kind == "sym" and r.origin and not r.info.get("unk"): m.setdefault(r.origin[0], []).append(r.id)
            self._bo = d = (n, m)
        return d[1]
    def load_quiet(self, st, rid, off):
        from .ir import Ty
        ev = st.ev
        v = self.load(st, rid, off, Ty("p", 8))[0][1]
        st.ev = ev
        return v

    # -------------------------------------------------------------- instructions
    def step_block(self, st, ctx, work, pend):
        while True:
            f = st.frames[-1]
            blk = f.fn.blocks[f.bi]
            if f.ii == 0 or blk.ins[f.ii].op == "phi": pass
            self.visited.add((f.fn.name, f.bi))
            ins = blk.ins[f.ii]
            self.nsteps += 1
            op = ins.op
            if op == "br":
                if len(ins.x) == 1:
                    self.edge(st, f.bi, ins.x[0], ctx, work, pend); return
                c = self.tocond(self.val(st, ins.a[0]))
                T, F = self.branchn(st, c, ins)
                bi = f.bi
                if T and F: self.fork_limit()
                for s in T: self.edge(s, bi, ins.x[0], ctx, work, pend)
                for s in F: self.edge(s, bi, ins.x[1], ctx, work, pend)
                return
            if op == "switch":
                v = self.val(st, ins.a[0]); bi = f.bi; rest = [st]
                for (cv, tgt) in ins.x[1]:
                    nr = []
                    for s in rest:
                        t, fl = self.eqn(s, v, self.cval(cv), ins)
                        for x in t: self.edge(x, bi, tgt, ctx, work, pend)
                        nr += fl
                    rest = nr
                for s in rest: self.edge(s, bi, ins.x[0], ctx, work, pend)
                return
            if op == "ret":
                v = self.val(st, ins.a[0]) if ins.a else None
                if len(st.frames) == 1:
                    r = Result(); r.st = st; r.ret = v; r.kind = "ret"; r.fn = f.fn.name
                    self.event(st, "return", (v,), ins)
                    self.sink.append(r); return
                st.frames.pop()
                g = st.frames[-1]; ci = g.callins
                st.tag = v
                self.event(st, "leave", (f.fn.name, v), ci)
                g.callins = None
                self.drop_locals(st, len(st.frames) + 1)
                pend.append((st, None, None)); return
            if op == "unreachable":
                r = Result(); r.st = st; r.ret = None; r.kind = "unreachable"; r.fn = f.fn.name
                self.sink.append(r); return
            if op == "call" and ctx is None and self.parked is not None and len(st.frames) == 1 and ins.x[0] == "f" and self.loopy(ins.x[1]) \
                    and self.park(st, ("call", f.bi, f.ii, self.rpo(f.fn)[f.bi])): return
            outs = self.exec(st, f, ins)
            if outs is None:      # single state continues, ii already advanced
                continue
            if not outs: return
            if len(outs) > 1: self.fork_limit()
            for s in outs[1:]: work.append(s)
            st = outs[0]
    def loopy(self, name):
        fn = self.M.funcs.get(name)
        return fn is not None and name not in self.models and not fn.linkage == 0 and bool(self.loops(fn))
    def rpo(self, fn):
        r = self.loopcache.get(("rpo", fn.name))
        if r is None:
            seen = set(); post = []
            stack = [(0, iter(sorted(self.succs(fn, 0))))]; seen.add(0)
            while stack:
                b, it = stack[-1]
                for x in it:
                    if x not in seen: seen.add(x); stack.append((x, iter(sorted(self.succs(fn, x))))); break
                else: post.append(b); stack.pop()
            r = {b: i for i, b in enumerate(reversed(post))}; self.loopcache[("rpo", fn.name)] = r
        return r
    def setv(self, st, ins, v):
        f = st.frames[-1]; f.env[ins.res] = v; f.ii += 1
    def exec(self, st, f, ins):
        op = ins.op
        m = getattr(self, "x_" + op, None)
        if m is None: raise Incomplete("instruction %s in %s" % (op, f.fn.name))
        outs = m(st, f, ins)
        if outs is None: return None
        res = []
        for (s, v) in outs:
            if s.cs.bad: continue
            if v is not None: s.frames[-1].env[ins.res] = v
            s.frames[-1].ii += 1
            res.append(s)
        return res
    def x_alloca(self, st, f, ins):
        n = 1
        if ins.a:
            v = self.val(st, ins.a[0]); n = v[2]
            ext = dom.scale(n, ins.x.size) if not isinstance(n, int) else const(ins.x.size)
        else: ext = const(ins.x.size)
        key = ("alloca", f.fn.name, ins.res, len(st.frames), tuple((x.fn.name, x.bi, x.ii) for x in st.frames[:-1]))
        rid = self.region(key, "alloca", ins.name or "tmp", None, ext, None, {"fn": f.fn.name, "llty": ins.x, "depth": len(st.frames), "res": ins.res})
        if rid in st.mem: del st.mem[rid]
        st.lver[rid] = st.lver.get(rid, 0) + 1
        st.heap.pop(rid, None)
        self.setv(st, ins, P(rid)); return None
    def x_load(self, st, f, ins):
        p = self.val(st, ins.a[0])
        if not self.check_access(st, p, ins.ty.size, "load", ins): return []
        if p[0] != "p": return [(st, self.unknown(st, ins.ty, ("ldx", id(ins))))]
        if ins.x[0] or ins.x[1]: self.event(st, "atomic", ("load", p), ins)
        if self.R[p[1]].kind == "global": self.event(st, "gread", (self.R[p[1]].name, p[2], ins.x[0]), ins)
        return self.load(st, p[1], p[2], ins.ty, ins)
    def x_store(self, st, f, ins):
        v = self.val(st, ins.a[0]); p = self.val(st, ins.a[1])
        if not self.check_access(st, p, ins.name.size, "store", ins): return []
        if p[0] != "p": f.ii += 1; return None
        r = self.R[p[1]]
        if ins.x[0] or ins.x[1]: self.event(st, "atomic", ("store", p), ins)
        if r.kind not in ("alloca",): self.event(st, "store", (p[1], p[2], ins.name.size, v), ins)
        if v[0] == "agg" or v[0] == "zeroarr":
            t = ins.name
            if v[0] == "agg" and t.k == "s":
                for o, e, x in zip(t.offs, t.elems, v[1]): self.store(st, p[1], dom.addc(p[2], o), x, e.size)
            else: self.write_range(st, p[1], p[2], const(t.size), ("hv", ("st", id(ins))))
        else:
            if v[0] == "b":
                outs = []
                for s, x in self.cond_value(st, v[1], 8):
                    self.store(s, p[1], p[2], x, ins.name.size, ins); outs.append((s, None))
                return outs
            self.store(st, p[1], p[2], v, ins.name.size, ins)
        f.ii += 1
        return None
    def gep_type(self, rid, t): pass
    def x_gep(self, st, f, ins):
        p = self.val(st, ins.a[0])
        if p[0] == "u": return [(st, p)]
        if p[0] != "p": return [(st, ("u",))]
        t = ins.x; outs = [(st, p[2])]
        if t.k == "s" and t.name and self.R[p[1]].ty is None: self.gep_type(p[1], t)
        for n, o in enumerate(ins.a[1:]):
            v = self.val(st, o)
            if n == 0: es = t.size
            elif t.k == "s":
                c = v[2][0]; outs = [(s, dom.addc(x, t.offs[c])) for s, x in outs]; t = t.elems[c]; continue
            elif t.k == "a": es = t.elt.size; t = t.elt
            else: raise Incomplete("gep type")
            if v[0] == "b":
                outs = [(s2, dom.add(x, dom.scale(y[2], es))) for s, x in outs for s2, y in self.cond_value(s, v[1], 64)]; continue
            if v[0] != "i": return [(st, ("u",))]
            if not v[2][1]:
                c = v[2][0]; outs = [(s, dom.addc(x, c * es)) for s, x in outs]; continue
            # indices are interpreted as signed machine words; values beyond 2^63 would wrap
            new = []
            for s, x in outs:
                two = self.as_signed(s.copy(), v)
                if len(two) > 1 and self.restate(s, p[1]): two = self.as_signed(s, v)
                for s2, lin in two:
                    new.append((s2, dom.add(x, dom.scale(lin, es))))
            outs = new
        return [(s, ("p", p[1], x)) for s, x in outs]
    def arith(self, st, ins):
        a = self.val(st, ins.a[0]); b = self.val(st, ins.a[1])
        w = ins.ty.w
        if w == 1:
            ca, cb = self.tocond(a), self.tocond(b)
            return None, ca, cb
        fix = []
        for v in (a, b):
            if v[0] == "u": v = I(w, var(fresh("undef", -(1 << (w - 1)), (1 << (w - 1)) - 1)))
            if v[0] == "p" or v[0] == "fn": v = self.ptr2int(v, w)
            fix.append(v)
        return w, fix[0], fix[1]
    def x_add(self, st, f, ins):
        w, a, b = self.arith(st, ins)
        return self.norm_result(st, w, dom.add(a[2], b[2]), ins, "add", ins.x[0])
    def x_sub(self, st, f, ins):
        w, a, b = self.arith(st, ins)
        return self.norm_result(st, w, dom.sub(a[2], b[2]), ins, "sub", ins.x[0])
    def x_mul(self, st, f, ins):
        w, a, b = self.arith(st, ins)
        if a[2][1] and b[2][1] and w >= 64 and not ins.x[0]:
            out = []
            for s1, la in self.as_unsigned(st, a):
                for s2, lb in self.as_unsigned(s1, b):
                    out += self.norm_result(s2, w, dom.mul(la, lb), ins, "mul", False)
            return out
        return self.norm_result(st, w, dom.mul(a[2], b[2]), ins, "mul", ins.x[0])
    def x_shl(self, st, f, ins):
        w, a, b = self.arith(st, ins)
        if not b[2][1] and 0 <= b[2][0] < w:
            if a[2][1] and w <= 32 and not ins.x[0]:
                return [(st, I(w, var(sym(("shl", w, a[2], b[2]), 0, (1 << w) - 1))))]
            return self.norm_result(st, w, dom.scale(a[2], 1 << b[2][0]), ins, "shl", ins.x[0])
        return [(st, I(w, var(sym(("shl", w, a[2], b[2]), 0, (1 << w) - 1))))]
    def udivc(self, st, x, c, w, tag):
        """floor(x/c) for unsigned x, constant c"""
        if not x[1]: return const(x[0] // c), const(x[0] % c)
        if c > 1 and all(k % c == 0 for _, k in x[1]): return (x[0] // c, tuple((v, k // c) for v, k in x[1])), const(x[0] % c)
        q = sym(("udiv", x, c), 0, None, {"name": "(%s)/%d" % (dom.show(x), c)})
        st.cs.assume_le(dom.sub(dom.scale(var(q), c), x))
        st.cs.assume_le(dom.addc(dom.sub(x, dom.scale(var(q), c)), -(c - 1)))
        return var(q), dom.sub(x, dom.scale(var(q), c))
    def x_udiv(self, st, f, ins):
        w, a, b = self.arith(st, ins); out = []
        for s, x in self.as_unsigned(st, a):
            for s2, y in self.as_unsigned(s, b):
                if not y[1] and y[0] > 0: out.append((s2, I(w, self.udivc(s2, x, y[0], w, "q")[0])))
                else:
                    if not s2.cs.prove_neq0(y): self.event(s2, "viol?", ("div-by-zero",), ins); s2.cs.assume_neq0(y)
                    if s2.cs.bad: continue
                    q = var(sym(("udivs", x, y), 0, (1 << w) - 1))
                    s2.cs.assume_le(dom.sub(q, x))
                    # q*y <= x
                    if x[0] == 0 or True: s2.cs.assume_le(dom.sub(dom.mul(q, y), x))
                    out.append((s2, I(w, q)))
        return out
    def x_urem(self, st, f, ins):
        w, a, b = self.arith(st, ins); out = []
        for s, x in self.as_unsigned(st, a):
            for s2, y in self.as_unsigned(s, b):
                if not y[1] and y[0] > 0: out.append((s2, I(w, self.udivc(s2, x, y[0], w, "r")[1])))
                else:
                    if not s2.cs.prove_neq0(y): self.event(s2, "viol?", ("div-by-zero",), ins); s2.cs.assume_neq0(y)
                    if s2.cs.bad: continue
                    r = sym(("urem", x, y), 0, (1 << w) - 1, {"rem": (x, y)})
                    s2.cs.assume_le(dom.addc(dom.sub(var(r), y), 1)); s2.cs.assume_le(dom.sub(var(r), x))
                    out.append((s2, I(w, var(r))))
        return out
    def x_sdiv(self, st, f, ins, rem=False):
        w, a, b = self.arith(st, ins); out = []
        for s, x in self.as_signed(st, a):
            for s2, y in self.as_signed(s, b):
                if not y[1] and y[0] > 0:
                    c = y[0]
                    if s2.cs.prove_le(dom.scale(x, -1)): parts = [(s2, 1)]
                    elif s2.cs.prove_le(x): parts = [(s2, -1)]
                    else:
                        s3 = s2.copy(); parts = []
                        if s2.cs.assume_le(dom.scale(x, -1)): parts.append((s2, 1))
                        if s3.cs.assume_le(dom.addc(x, 1)): parts.append((s3, -1))
                    for s4, sg in parts:
                        q, r = self.udivc(s4, dom.scale(x, sg), c, w, "s")
                        out.append((s4, I(w, dom.scale(r if rem else q, sg))))
                else:
                    out.append((s2, I(w, var(sym(("srem" if rem else "sdiv", x, y), -(1 << (w - 1)), (1 << (w - 1)) - 1)))))
        return out
    def x_srem(self, st, f, ins): return self.x_sdiv(st, f, ins, True)
    def x_lshr(self, st, f, ins):
        w, a, b = self.arith(st, ins); out = []
        for s, x in self.as_unsigned(st, a):
            if not b[2][1] and 0 <= b[2][0] < w: out.append((s, I(w, self.udivc(s, x, 1 << b[2][0], w, "lshr")[0])))
            else:
                r = sym(("lshr", x, b[2]), 0, (1 << w) - 1); s.cs.assume_le(dom.sub(var(r), x)); out.append((s, I(w, var(r))))
        return out
    def x_ashr(self, st, f, ins):
        w, a, b = self.arith(st, ins)
        if not a[2][1] and not b[2][1]:
            return [(st, CI(w, a[2][0] >> b[2][0]))]
        return [(st, I(w, var(sym(("ashr", w, a[2], b[2]), -(1 << (w - 1)), (1 << (w - 1)) - 1))))]
    def x_and(self, st, f, ins):
        w, a, b = self.arith(st, ins)
        if w is None: return [(st, ("b", ("and", a, b) if not (a is True or b is True or a is False or b is False) else (b if a is True else a if b is True else False)))]
        x, y = a[2], b[2]
        if not x[1] and not y[1]: return [(st, CI(w, x[0] & y[0]))]
        out = []
        for s, la in self.as_unsigned(st, a):
            for s2, lb in self.as_unsigned(s, b):
                if not la[1]: la, lb = lb, la
                if not lb[1]:
                    m = lb[0]
                    if m == (1 << w) - 1: out.append((s2, I(w, la))); continue
                    if (m & (m + 1)) == 0 and s2.cs.prove_le(dom.addc(la, -m)): out.append((s2, I(w, la))); continue
                k = tuple(sorted([la, lb]))
                r = sym(("and", w) + k, 0, (1 << w) - 1, {"and": k})
                s2.cs.assume_le(dom.sub(var(r), la)); s2.cs.assume_le(dom.sub(var(r), lb))
                out.append((s2, I(w, var(r))))
        return out
    def x_or(self, st, f, ins):
        w, a, b = self.arith(st, ins)
        if w is None: return [(st, ("b", True if a is True or b is True else b if a is False else a if b is False else ("or", a, b)))]
        x, y = a[2], b[2]
        if not x[1] and not y[1]: return [(st, CI(w, x[0] | y[0]))]
        k = tuple(sorted([x, y]))
        r = sym(("or", w) + k, 0 if w >= 64 else -(1 << (w - 1)), (1 << w) - 1, {"or": k})
        return [(st, I(w, var(r)))]
    def x_xor(self, st, f, ins):
        w, a, b = self.arith(st, ins)
        if w is None:
            if b is True: return [(st, ("b", self.neg(a)))]
            if a is True: return [(st, ("b", self.neg(b)))]
            if b is False: return [(st, ("b", a))]
            return [(st, ("b", ("or", ("and", a, self.neg(b)), ("and", self.neg(a), b))))]
        x, y = a[2], b[2]
        if not x[1] and not y[1]: return [(st, CI(w, x[0] ^ y[0]))]
        if y == (-1, ()): return [(st, I(w, dom.addc(dom.scale(x, -1), -1)))]
        k = tuple(sorted([x, y]))
        return [(st, I(w, var(sym(("xor", w) + k, -(1 << (w - 1)), (1 << w) - 1))))]
    def neg(self, c):
        if c is True: return False
        if c is False: return True
        if c[0] == "not": return c[1]
        return ("not", c)
    def x_icmp(self, st, f, ins):
        a = self.val(st, ins.a[0]); b = self.val(st, ins.a[1]); pr = ins.x
        if a[0] == "u" or b[0] == "u":
            self.event(st, "undefcmp", (), ins)
            return [(st, ("b", ("?",)))]
        if ins.name.k == "p":
            if pr in ("eq", "ne"):
                c = ("peq", a, b)
                # decide trivial cases eagerly
                return [(st, ("b", c if pr == "eq" else ("not", c)))]
            if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
                return [(st, ("b", ("cmp", "s" + pr[1:], I(64, a[2]), I(64, b[2]))))]
            return [(st, ("b", ("?",)))]
        if a[0] == "b" or b[0] == "b":
            ca = self.tocond(a); cb = self.tocond(b)
            if cb is True or cb is False:
                r = ca if (cb is True) == (pr == "eq") else self.neg(ca)
                if pr in ("eq", "ne"): return [(st, ("b", r))]
            if ca is True or ca is False:
                r = cb if (ca is True) == (pr == "eq") else self.neg(cb)
                if pr in ("eq", "ne"): return [(st, ("b", r))]
            return [(st, ("b", ("?",)))]
        if a[0] in ("p", "fn"): a = self.ptr2int(a)
        if b[0] in ("p", "fn"): b = self.ptr2int(b)
        return [(st, ("b", ("cmp", pr, a, b)))]
    def x_select(self, st, f, ins):
        c = self.tocond(self.val(st, ins.a[0]))
        T, F = self.branchn(st, c, ins)
        out = []
        for s in T: out.append((s, self.val(s, ins.a[1])))
        for s in F: out.append((s, self.val(s, ins.a[2])))
        return out
    def x_freeze(self, st, f, ins): return [(st, self.val(st, ins.a[0]))]
    def x_bitcast(self, st, f, ins): return [(st, self.val(st, ins.a[0]))]
    def x_trunc(self, st, f, ins):
        v = self.val(st, ins.a[0]); w = ins.ty.w
        if v[0] == "b": return self.cond_value(st, v[1], w) if w > 1 else [(st, v)]
        if v[0] != "i": return [(st, ("b", ("?",)) if w == 1 else I(w, var(fresh("trunc", -(1 << (w - 1)), (1 << (w - 1)) - 1))))]
        lin = v[2]
        if w == 1:
            if not lin[1]: return [(st, TRUE if lin[0] & 1 else FALSE)]
            if st.cs.prove_le(dom.addc(lin, -1)) and st.cs.prove_le(dom.scale(lin, -1)): return [(st, ("b", ("nz", lin)))]
            return [(st, ("b", ("nz", var(sym(("bit0", lin), 0, 1)))))]
        if not lin[1]:
            c = lin[0] % (1 << w)
            return [(st, CI(w, c - (1 << w) if c >> (w - 1) else c))]
        if len(lin[1]) == 1 and lin[0] == 0 and lin[1][0][1] == 1:
            m = dom.META.get(lin[1][0][0])
            if isinstance(m, dict) and m.get("zext") and m["zext"][0] == w: return [(st, I(w, m["zext"][1]))]
        if st.cs.prove_le(dom.addc(lin, 1 - (1 << (w - 1)))) and st.cs.prove_le(dom.addc(dom.scale(lin, -1), -(1 << (w - 1)))): return [(st, I(w, lin))]
        if w >= 8 and st.cs.prove_le(dom.scale(lin, -1)) and st.cs.prove_le(dom.addc(lin, 1 - (1 << w))): return [(st, I(w, lin))]
        if w >= 32: self.event(st, "narrow", (lin, w), ins)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return [(st, I(w, var(sym(("trunc", lin, w), lo, hi, {"trunc": lin}))))]
    def x_zext(self, st, f, ins):
        v = self.val(st, ins.a[0]); w = ins.ty.w
        if v[0] == "b":
            if v[1] is True or v[1] is False: return [(st, CI(w, 1 if v[1] else 0))]
            return self.cond_value(st, v[1], w)
        if v[0] != "i": return [(st, I(w, var(fresh("zext", 0, (1 << ins.x.w) - 1))))]
        lin = v[2]
        if lin[1] and v[1] == 8 and not st.cs.prove_le(dom.scale(lin, -1)):
            m = {"zext": (8, lin)}
            s = sym(("zext8", lin), 0, 255, m)
            if len(lin[1]) == 1 and lin[0] == 0:
                m2 = dom.META.get(lin[1][0][0])
                if isinstance(m2, dict) and "strchar" in m2: m["strchar"] = m2["strchar"]
            return [(st, I(w, var(s)))]
        return [(s, I(w, x)) for s, x in self.as_unsigned(st, v)]
    def x_sext(self, st, f, ins):
        v = self.val(st, ins.a[0]); w = ins.ty.w
        if v[0] == "b":
            return [(s, CI(w, -x[2][0])) for s, x in self.cond_value(st, v[1], w)]
        if v[0] != "i": return [(st, I(w, var(fresh("sext", -(1 << (w - 1)), (1 << (w - 1)) - 1))))]
        return [(s, I(w, x)) for s, x in self.as_signed(st, v)]
    def x_ptrtoint(self, st, f, ins): return [(st, self.ptr2int(self.val(st, ins.a[0]), ins.ty.w))]
    def x_inttoptr(self, st, f, ins):
        return [(st, self.coerce(st, self.val(st, ins.a[0]), ins.ty, ("i2p", id(ins))))]
    def x_extractvalue(self, st, f, ins):
        v = self.val(st, ins.a[0])
        for i in ins.x:
            if v[0] != "agg": return [(st, ("u",))]
            v = v[1][i]
        return [(st, v)]
    def x_insertvalue(self, st, f, ins):
        v = self.val(st, ins.a[0]); x = self.val(st, ins.a[1]); n = len(ins.ty.elems)
        l = list(v[1]) if v[0] == "agg" else [("u",)] * n
        l[ins.x[0]] = x
        return [(st, ("agg", tuple(l)))]
    def x_fence(self, st, f, ins): f.ii += 1; return None
    def fpop(self, st, f, ins): return [(st, ("u",))]
    x_uitofp = x_sitofp = x_fmul = x_fadd = x_fsub = x_fdiv = x_fpext = x_fptrunc = x_fneg = fpop
    def x_fptoui(self, st, f, ins):
        w = ins.ty.w
        return [(st, I(w, var(fresh("fp", 0, (1 << w) - 1))))]
    def x_fptosi(self, st, f, ins):
        w = ins.ty.w
        return [(st, I(w, var(fresh("fp", -(1 << (w - 1)), (1 << (w - 1)) - 1))))]
    def x_fcmp(self, st, f, ins): return [(st, ("b", ("?",)))]
    def x_cmpxchg(self, st, f, ins):
        p = self.val(st, ins.a[0]); e = self.val(st, ins.a[1]); d = self.val(st, ins.a[2])
        if not self.check_access(st, p, 8, "store", ins): return []
        self.event(st, "atomic", ("cmpxchg", p, e, d), ins)
        # concurrent writers: the current value is unknown
        t = ins.ty.elems[0]
        cur = I(t.w, var(fresh("cas", -(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)))
        out = []
        T, F = self.eqn(st, cur, e, ins)
        for s in T:
            self.store(s, p[1], p[2], d, t.size); self.event(s, "cas-ok", (p, e, d), ins)
            out.append((s, ("agg", (e, TRUE))))
        for s in F:
            self.event(s, "cas-fail", (p, e, d), ins)
            out.append((s, ("agg", (cur, FALSE))))
        return out
    def x_atomicrmw(self, st, f, ins):
        p = self.val(st, ins.a[0]); v = self.val(st, ins.a[1])
        if not self.check_access(st, p, ins.ty.size, "store", ins): return []
        self.event(st, "atomic", ("rmw", p, v, ins.x), ins)
        w = ins.ty.w
        cur = I(w, var(fresh("rmw", -(1 << (w - 1)), (1 << (w - 1)) - 1)))
        self.write_range(st, p[1], p[2], const(ins.ty.size), ("hv", ("rmw", id(ins))))
        return [(st, cur)]
    # -------------------------------------------------------------- calls
    def x_call(self, st, f, ins):
        callee = ins.x
        name = None
        if callee[0] == "f": name = callee[1]
        else:
            if callee[0] == "asm": return [(st, None if ins.ty.k == "void" else self.unknown(st, ins.ty, ("asm", id(ins))))]
            cv = self.val(st, callee)
            if cv[0] == "fn": name = cv[1]
            elif cv[0] == "p":
                args = [self.val(st, a) for a in ins.a]
                n = self.nullness(st, cv[1])
                if n is True or cv[1] == 0:
                    self.event(st, "viol", ("null-call",), ins); return []
                if n is None:
                    if not self.must_nonnull(st, cv[1]): self.event(st, "call?", (cv[1],), ins)
                    st.null[cv[1]] = False
                outs = self.models["__indirect__"](self, st, cv, args, ins)
                return outs
            else:
                self.event(st, "viol", ("uninit-call",), ins); return []
        args = [self.val(st, a) for a in ins.a]
        return self.call(st, f, ins, name, args)
    def call(self, st, f, ins, name, args):
        self.called.add(name)
        m = self.models.get(name)
        if m is not None and name not in self.inline_off:
            self.event(st, "call", (name, tuple(args)), ins)
            st.frames[-1].callins = ins
            outs = m(self, st, args, ins)
            for s, v in outs: s.frames[-1].callins = None
            return outs
        fn = self.M.funcs.get(name)
        if fn is None:
            raise Incomplete("no model for external function %s" % name)
        if sum(fr.fn is fn for fr in st.frames) > self.opts.get("recursion", 2) or len(st.frames) > self.opts["max_inline"]:
            raise Incomplete("recursion through %s" % name)
        self.event(st, "enter", (name, tuple(args)), ins)
        f.callins = ins
        g = Frame(); g.fn = fn; g.env = {}; g.bi = 0; g.ii = 0; g.prev = None; g.callins = None; g.vregs = ()
        attrs = self.D.fnattrs.get(name, [])
        for n, (pid, pname, pty) in enumerate(fn.params):
            v = args[n]
            if n < len(attrs) and attrs[n] == "byval":
                key = ("byval", name, pid, len(st.frames), tuple((x.fn.name, x.bi, x.ii) for x in st.frames))
                src = v
                sz = self.R[v[1]].extent if v[0] == "p" else None
                rid = self.region(key, "alloca", pname, self.param_ty(name, n), sz, None, {"byval": True})
                st.mem.pop(rid, None)
                if v[0] == "p":
                    T = self.D.fntypes(name); k = n + (0 if fn.rty.k != "void" or not attrs or attrs[0] != "sret" else 0)
                    size = self.byval_size(name, n)
                    self.write_range(st, rid, const(0), const(size), ("copy", v[1], self.log(st, v[1]), v[2], st.lver.get(v[1], 0)))
                    self.R[rid].extent = const(size)
                v = P(rid)
            g.env[pid] = v
        if fn.vararg: g.vregs = tuple(args[len(fn.params):])
        st.frames.append(g)
        if st.cs.bad: return []
        pend = self.run([st], (len(st.frames), None, -2, ALL))
        sts = self.merge_list([p[0] for p in pend], lambda s: s.tag)
        void = ins.ty.k == "void"
        out = []
        for s in sts:
            v = s.tag; s.tag = None
            out.append((s, None if void else v))
        h = self.posthooks.get(name)
        if h is not None and sts: out = [x for x in out if h(self, x[0], args, x[1])]
        return out
    posthooks = {}
    def param_ty(self, name, n):
        """DI pointee type of IR parameter n"""
        T = self.D.fntypes(name)
        if not T: return None
        attrs = self.D.fnattrs.get(name, [])
        k = n
        if attrs and attrs[0] == "sret": k = n - 1
        if k < 0: return T[0]
        if k + 1 >= len(T): return None
        t = T[k + 1]
        if n < len(attrs) and attrs[n] == "byval": return t
        d = self.D.desc(t)
        return d[1] if d[0] == "ptr" else None
    def byval_size(self, name, n):
        t = self.param_ty(name, n)
        return self.D.size(t)

    # -------------------------------------------------------------- driver
    def initial_state(self):
        st = State(); st.frames = []; st.mem = {}; st.cs = dom.Store(); st.null = {}; st.heap = {}; st.ev = None; st.peq = (); st.flags = {}
        st.inv = set(); st.lver = {}; st.tag = None
        return st
    def analyze(self, name, setup=None, nonnull=(), keep_budget=False):
        """all path summaries of function `name` for unconstrained arguments"""
        fn = self.M.funcs.get(name)
        if fn is None: raise Incomplete("anchor function %s not found" % name)
        self.nstates = 0
        self.loopviol = []
        self.found = []
        st = self.initial_state()
        g = Frame(); g.fn = fn; g.env = {}; g.bi = 0; g.ii = 0; g.prev = None; g.callins = None; g.vregs = ()
        attrs = self.D.fnattrs.get(name, [])
        args = {}
        for n, (pid, pname, pty) in enumerate(fn.params):
            a = attrs[n] if n < len(attrs) else None
            if pty.k == "p":
                ty = self.param_ty(name, n)
                if a in ("byval", "sret"):
                    rid = self.region(("arg", name, n), "param" if a == "sret" else "byval", pname, ty, const(self.D.size(ty)) if ty else None, None, {"attr": a, "lazy": True})
                    st.null[rid] = False
                else:
                    rid = self.region(("arg", name, n), "param", pname, ty, None, None, {"argn": n})
                    self.setup_ptr(rid)
                v = P(rid)
            elif pty.k == "i":
                lo, hi = (-(1 << (pty.w - 1)), (1 << (pty.w - 1)) - 1) if pty.w < 64 else (0, (1 << 64) - 1)
                T = self.D.fntypes(name)
                if T:
                    k = n - 1 if attrs and attrs[0] == "sret" else n
                    if k + 1 < len(T):
                        d = self.D.desc(T[k + 1])
                        if d[0] == "int":
                            w = 8 * d[2]
                            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if d[3] else (0, (1 << w) - 1)
                            if d[1] in ("bool", "_Bool"): lo, hi = 0, 1
                s = sym(("arg", name, pname or n), lo, hi, {"name": pname})
                v = I(pty.w, var(s)) if pty.w > 1 else ("b", ("nz", var(s)))
            else: v = ("u",)
            g.env[pid] = v; args[pname or n] = v
        if fn.vararg: g.vregs = None
        st.frames.append(g)
        for n in nonnull: st.null[args[n][1]] = False
        sts = [st]
        if setup is not None:
            r = setup(self, st, args)
            if r is not None: sts = r
        self.sink = []
        self.parked = {} if self.opts.get("barrier") else None; self.parked_at = {}
        self.args = args
        self.run(sts, None)
        out = self.sink; self.sink = []
        return out
