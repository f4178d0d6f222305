"""Path summaries with value expressions over canonicalised IR: internal helpers inlined, loops cut at their headers.

Used for small operations and macro witnesses; every path through the control-flow graph (each back edge ends a path, loop-header values
become opaque) is enumerated with its branch conditions, calls, memory effects and result as expression trees."""
import os
from . import build, ir
PASSES = "always-inline,inline,function(mem2reg,sroa,early-cse,simplifycfg)"
class Inconclusive(Exception): pass

def modulefrom(sources, extra=(), tag="vg", fault=False, passes=None, opt=()):
    d = os.path.join(build.scratch(), tag); os.makedirs(d, exist_ok=True); outs = []
    for k, s in enumerate(sources):
        o = os.path.join(d, "%02d.bc" % k)
        cmd = [build.CLANG if s.endswith(".c") else "clang++-18"] + [x for x in build.flags(fault, extra) if s.endswith(".c") or not x.startswith("-std=")] + ([] if s.endswith(".c") else ["-std=c++17"]) + \
              ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-w", "-emit-llvm", "-c", s, "-o", o]
        outs.append((cmd, o))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda c: build.run(c[0]), outs))
    for r, (c, o) in zip(rs, outs):
        if r.returncode: raise build.BuildError("cannot compile %s:\n%s" % (c[-3], r.stderr[-2500:]))
    l = os.path.join(d, "linked.bc"); f = os.path.join(d, "final.bc")
    r = build.run(["llvm-link-18"] + [o for _, o in outs] + ["-o", l])
    if r.returncode: raise build.BuildError(r.stderr[-1500:])
    r = build.run(["opt-18", "-inline-threshold=100000", "-passes=" + (passes or PASSES)] + list(opt) + [l, "-o", f])
    if r.returncode: raise build.BuildError(r.stderr[-1500:])
    ll = os.path.join(d, "final.ll"); r = build.run(["llvm-dis-18", f, "-o", ll])
    if r.returncode: raise build.BuildError(r.stderr[-1500:])
    M = ir.Loader(f).load(); return M, ir.DI(ll), ll
def library(roots, tag="vglib", fault=False, extra=(), sources=()):
    """the library reduced to what the given operations need, everything else of the library inlined into them"""
    ps = "internalize,globaldce,function(mem2reg,sroa),cgscc(inline),globaldce,function(sroa,early-cse,simplifycfg)"
    return modulefrom([os.path.join(build.REPO, s) for s in build.source_list()] + list(sources), tag=tag, fault=fault, extra=extra, passes=ps, opt=["-internalize-public-api-list=" + ",".join(roots)])
def resolve(e, known):
    """simplify an expression under the branch conditions of a path"""
    if not isinstance(e, tuple): return e
    if e in known: return C(int(known[e]), 1)
    if e[0] == "not": return not_(resolve(e[1], known))
    if e[0] == "sel":
        c = resolve(e[1], known)
        if isc(c): return resolve(e[2] if c[1] else e[3], known)
        return select(c, resolve(e[2], known), resolve(e[3], known))
    if e[0] in ("zext", "sext", "trunc"): return cast(e[0], resolve(e[1], known), width(e[1]), e[2])
    if e[0] == "bin": return bin_(e[1], e[2], resolve(e[3], known), resolve(e[4], known))
    if e[0] == "icmp": return icmp(e[1], resolve(e[3], known), resolve(e[4], known), e[2])
    return e

def C(v, w): return ("c", v & ((1 << w) - 1), w)
def sgn(c): return c[1] - (1 << c[2]) if c[2] > 1 and c[1] >> (c[2] - 1) else c[1]
def width(e):
    if e[0] in ("c",): return e[2]
    if e[0] in ("zext", "sext", "trunc"): return e[2]
    if e[0] in ("icmp", "not", "and1", "or1"): return 1
    if e[0] == "bin": return e[2]
    if e[0] == "sel": return width(e[2])
    if e[0] in ("sym",): return e[2]
    if e[0] == "cload": return e[2].w if e[2].k == "i" else 64
    return 64
def isc(e): return e[0] == "c"
def bin_(op, w, a, b):
    if isc(a) and isc(b):
        x, y = a[1], b[1]
        if op == "add": return C(x + y, w)
        if op == "sub": return C(x - y, w)
        if op == "mul": return C(x * y, w)
        if op == "and": return C(x & y, w)
        if op == "or": return C(x | y, w)
        if op == "xor": return C(x ^ y, w)
        if op == "shl" and y < w: return C(x << y, w)
        if op == "lshr" and y < w: return C(x >> y, w)
        if op == "ashr" and y < w: return C(sgn(a) >> y, w)
        if op == "udiv" and y: return C(x // y, w)
        if op == "urem" and y: return C(x % y, w)
        if op in ("sdiv", "srem") and y:
            p, q = sgn(a), sgn(b); d = abs(p) // abs(q)
            if (p < 0) != (q < 0): d = -d
            return C(d if op == "sdiv" else p - d * q, w)
    if op == "sub" and isc(b): return bin_("add", w, a, C(-b[1], w))
    if op in ("add", "or", "xor", "shl", "lshr", "ashr") and isc(b) and b[1] == 0: return a
    if op in ("add", "or", "xor") and isc(a) and a[1] == 0: return b
    if op == "and":
        for x, y in ((a, b), (b, a)):
            if isc(x) and x[1] == 0: return x
            if isc(x) and x[1] == (1 << w) - 1: return y
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            if isc(x) and x[1] == 1: return y
            if isc(x) and x[1] == 0: return x
    if op in ("xor", "sub") and a == b: return C(0, w)
    if op in ("and", "or") and a == b: return a
    if op == "xor" and w == 1:
        if isc(b) and b[1] == 1: return not_(a)
        if isc(a) and a[1] == 1: return not_(b)
    if op == "add" and isc(b) and a[0] == "bin" and a[1] == "add" and isc(a[4]): return bin_("add", w, a[3], C(a[4][1] + b[1], w))
    if op in ("add", "mul", "and", "or", "xor") and (isc(a) or (not isc(b) and repr(a) > repr(b))): a, b = b, a
    return ("bin", op, w, a, b)
def not_(e):
    if isc(e): return C(1 - e[1], 1)
    if e[0] == "not": return e[1]
    return ("not", e)
def icmp(p, a, b, w):
    if p == "ne": return not_(icmp("eq", a, b, w))
    if p in ("ugt", "sgt"): return icmp({"ugt": "ult", "sgt": "slt"}[p], b, a, w)
    if p in ("uge", "sge"): return not_(icmp({"uge": "ult", "sge": "slt"}[p], a, b, w))
    if p in ("ule", "sle"): return not_(icmp({"ule": "ult", "sle": "slt"}[p], b, a, w))
    if a == b: return C(1 if p == "eq" else 0, 1)
    if isc(a) and isc(b):
        if p == "eq": return C(int(a[1] == b[1]), 1)
        if p == "ult": return C(int(a[1] < b[1]), 1)
        return C(int(sgn(a) < sgn(b)), 1)
    if p == "eq":
        if isc(a): a, b = b, a
        if isc(b):
            if w == 1: return a if b[1] else not_(a)
            if a[0] in ("zext", "sext"):
                iw = width(a[1])
                lo = C(b[1], iw); back = C(lo[1] if a[0] == "zext" else sgn(lo), a[2])
                if back != b: return C(0, 1)
                return icmp("eq", a[1], lo, iw)
            if a[0] in ("icmp", "not"): return a if b[1] == 1 else not_(a)
            if a[0] == "bin" and a[1] == "add" and isc(a[4]): return icmp("eq", a[3], C(b[1] - a[4][1], w), w)
            if a[0] == "sel" and (isc(a[2]) or isc(a[3])):
                x, y = icmp("eq", a[2], b, w), icmp("eq", a[3], b, w)
                return select(a[1], x, y)
        elif repr(a) > repr(b): a, b = b, a
        if {a[0], b[0]} == {"ptrnull", "addr"}: return C(0, 1)
        if a[0] == "addr" and b[0] == "addr" and a[1][0] in ("g", "alloca", "f") and b[1][0] in ("g", "alloca", "f") and a[1] != b[1]: return C(0, 1)
        if {a[0], b[0]} == {"ptrnull", "fn"}: return C(0, 1)
    if p == "slt":
        # c < x   is   not (x < c + 1)
        if isc(a) and sgn(a) != (1 << (w - 1)) - 1: return not_(icmp("slt", b, C(a[1] + 1, w), w))
    if p == "ult":
        if isc(a) and a[1] != (1 << w) - 1: return not_(icmp("ult", b, C(a[1] + 1, w), w))
        if isc(b) and b[1] == 1: return icmp("eq", a, C(0, w), w)
        if isc(b) and b[1] == 0: return C(0, 1)
    return ("icmp", p, w, a, b)
def select(c, a, b):
    if isc(c): return a if c[1] else b
    if a == b: return a
    if c[0] == "not": return select(c[1], b, a)
    if isc(a) and isc(b) and a[2] == 1: return c if a[1] else not_(c)
    if width(a) == 1 and a[0] in ("c", "icmp", "not", "sel") or False:
        if isc(b) and b[1] == 0: return ("and1", c, a)
        if isc(a) and a[1] == 1: return ("or1", c, b)
    return ("sel", c, a, b)
def cast(op, e, fw, w):
    if isc(e):
        if op == "sext": return C(sgn(e), w)
        return C(e[1], w)
    if op == "trunc":
        if e[0] in ("zext", "sext"):
            iw = width(e[1])
            if iw == w: return e[1]
            if iw > w: return cast("trunc", e[1], iw, w)
            return cast(e[0], e[1], iw, w)
        if e[0] == "sel" and (isc(e[2]) and isc(e[3])): return select(e[1], cast(op, e[2], fw, w), cast(op, e[3], fw, w))
        if width(e) == w: return e
    if op in ("zext", "sext") and e[0] == "zext" : return cast("zext", e[1], width(e[1]), w)
    if op == "sext" and e[0] == "sext": return cast("sext", e[1], width(e[1]), w)
    return (op, e, w)
NULL = ("ptrnull",)
def addr(e, off):
    if off == 0: return e
    if e[0] == "addr":
        o = e[2] + off
        return ("addr", e[1], o)
    return ("addr", e, off)
def base(e):
    while e[0] in ("addr", "idx"): e = e[1]
    return e

class Path:
    __slots__ = ("conds", "ev", "ret", "kind", "mem", "back", "known")
    def __init__(s): s.conds = []; s.ev = []; s.ret = None; s.kind = None; s.mem = {}; s.back = None
class _St:
    __slots__ = ("env", "mem", "conds", "known", "ev", "prev", "blk", "seen")
    def copy(s):
        n = _St(); n.env = dict(s.env); n.mem = dict(s.mem); n.conds = list(s.conds); n.known = dict(s.known); n.ev = list(s.ev); n.prev = s.prev; n.blk = s.blk; n.seen = set(s.seen); return n

class Walk:
    """enumerates the paths of one function"""
    def __init__(s, M, D=None, limit=20000, statics=None, pure=(), unroll=0, modref=None):
        s.M = M; s.D = D; s.limit = limit; s.statics = statics or {}; s.n = 0; s.pure = set(pure); s.unroll = unroll; s.steps = 0; s.modref = modref
    def fresh(s, tag, w):
        s.n += 1; return ("sym", "%s#%d" % (tag, s.n), w)
    def val(s, st, o, ty=None):
        k = o[0]
        if k == "v":
            return st.env[o[1]]
        if k == "c": return C(o[1], o[2])
        if k == "null": return NULL
        if k == "f": return ("fn", o[1])
        if k == "g": return addr(("g", o[1]), o[2])
        if k == "undef": return s.fresh("undef", 64)
        if k == "zero": return ("zero",)
        if k == "cexpr":
            if o[1] == "gep": return addr(s.val(st, o[2][0]), o[3])
            if o[1] in ("ptrtoint", "inttoptr", "bitcast"): return s.val(st, o[2][0])
        return ("const", repr(o))
    def headers(s, f):
        """targets of back edges (depth first)"""
        if not f.blocks: return set()
        H = set(); color = {}
        stack = [(0, iter(f.blocks[0].succs))]; color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color.get(x) == 1: H.add(x)
                elif x not in color:
                    color[x] = 1; stack.append((x, iter(f.blocks[x].succs))); break
            else:
                color[b] = 2; stack.pop()
        return H
    def run(s, name, args=None):
        f = s.M.funcs[name]; s.f = f; out = []; s.H = s.headers(f); s.name = name
        st = _St(); st.env = {}; st.mem = dict(s.statics); st.conds = []; st.known = {}; st.ev = []; st.prev = None; st.blk = 0; st.seen = set()
        for k, (nid, nm, ty) in enumerate(f.params):
            st.env[nid] = (args or {}).get(k) or ("sym", "arg%d" % k, ty.w if ty.k == "i" else 64)
        work = [st]
        while work:
            st = work.pop()
            r = s.block(st, f, work)
            if r is not None:
                out.append(r)
                if len(out) > s.limit: raise Inconclusive("more than %d paths" % s.limit)
        return out
    def end(s, st, kind, ret=None, back=None):
        p = Path(); p.conds = st.conds; p.ev = st.ev; p.kind = kind; p.ret = ret; p.mem = st.mem; p.back = back; p.known = st.known; return p
    def assume(s, st, e, truth):
        """conjoin a condition; False when contradictory"""
        if e[0] == "not": return s.assume(st, e[1], not truth)
        if isc(e): return bool(e[1]) == truth
        if e[0] == "and1":
            if truth: return s.assume(st, e[1], True) and s.assume(st, e[2], True)
            if st.known.get(e[1]) is True: return s.assume(st, e[2], False)
            if st.known.get(e[2]) is True: return s.assume(st, e[1], False)
        if e[0] == "or1":
            if not truth: return s.assume(st, e[1], False) and s.assume(st, e[2], False)
        if e in st.known: return st.known[e] == truth
        if e[0] == "icmp" and e[1] == "eq" and isc(e[4]):
            for (k, t) in st.known.items():
                if t and k[0] == "icmp" and k[1] == "eq" and k[3] == e[3] and isc(k[4]) and k[4] != e[4]: return not truth
        if e[0] == "icmp" and e[1] in ("slt", "ult") and isc(e[4]):
            for (k, t) in st.known.items():
                if k[0] == "icmp" and k[1] == e[1] and k[3] == e[3] and isc(k[4]):
                    f = sgn if e[1] == "slt" else (lambda c: c[1])
                    if t and not truth and f(e[4]) >= f(k[4]): return False
                    if not t and truth and f(e[4]) <= f(k[4]): return False
                if k[0] == "icmp" and k[1] == "eq" and t and k[3] == e[3] and isc(k[4]):
                    f = sgn if e[1] == "slt" else (lambda c: c[1])
                    if (f(k[4]) < f(e[4])) != truth: return False
        st.known[e] = truth; st.conds.append((e, truth)); return True
    def goto(s, st, b, work):
        st.prev = st.blk; st.blk = b
    def block(s, st, f, work):
        while True:
            s.steps += 1
            if s.steps > 400000: raise Inconclusive("step limit")
            B = f.blocks[st.blk]
            phis = [i for i in B.ins if i.op == "phi"]
            if st.blk in s.H:
                if st.blk in st.seen:
                    nx = {}
                    for i in phis:
                        v = next(v for b, v in i.x if b == st.prev); nx[i.res] = s.val(st, v)
                    return s.end(st, "back", back=(st.blk, nx))
                st.seen.add(st.blk)
                ini = {}
                for i in phis: ini[i.res] = s.val(st, next(v for b, v in i.x if b == st.prev))
                st.ev.append(("loop", st.blk, ini))
                for i in phis: st.env[i.res] = ("sym", "phi%d" % i.res, i.ty.w if i.ty.k == "i" else 64)
                # memory changed by the loop is unknown inside it
                for k in list(st.mem): st.mem[k] = s.fresh("mem", 64) if not (k[0] == "ro") else st.mem[k]
            else:
                nv = {}
                for i in phis: nv[i.res] = s.val(st, next(v for b, v in i.x if b == st.prev))
                st.env.update(nv)
            for i in B.ins:
                if i.op == "phi": continue
                if i.op in ("br", "switch", "ret", "unreachable", "indirectbr"):
                    r = s.term(st, i, work)
                    if r is True: break
                    return r
                s.ins(st, i)
    def term(s, st, i, work):
        if i.op == "ret": return s.end(st, "ret", s.val(st, i.a[0]) if i.a else None)
        if i.op == "unreachable": return s.end(st, "unreachable")
        if i.op == "br":
            if len(i.x) == 1: s.goto(st, i.x[0], work); return True
            c = s.val(st, i.a[0])
            # successor order as stored: false, true depends on the loader: operand order gives (true, false)
            t, e = i.x[0], i.x[1]
            o = st.copy()
            if s.assume(o, c, False): s.goto(o, e, work); work.append(o)
            if s.assume(st, c, True): s.goto(st, t, work); return True
            return None
        if i.op == "switch":
            c = s.val(st, i.a[0]); cases = i.x[1]; w = i.a[0][2] if i.a[0][0] == "c" else width(c)
            for k, b in cases:
                o = st.copy()
                if s.assume(o, icmp("eq", c, C(k[1], k[2]), k[2]), True): s.goto(o, b, work); work.append(o)
            for k, b in cases:
                if not s.assume(st, icmp("eq", c, C(k[1], k[2]), k[2]), False): return None
            s.goto(st, i.x[0], work); return True
        raise Inconclusive(i.op)
    def ins(s, st, i):
        op = i.op; v = lambda k: s.val(st, i.a[k])
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"): r = bin_(op, i.ty.w, v(0), v(1))
        elif op in ("trunc", "zext", "sext"): r = cast(op, v(0), i.x.w, i.ty.w)
        elif op == "icmp":
            a, b = v(0), v(1); r = icmp(i.x, a, b, i.name.w if i.name.k == "i" else 64)
        elif op == "select": r = select(v(0), v(1), v(2))
        elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze"): r = v(0)
        elif op == "alloca": r = ("alloca", i.res)
        elif op == "gep":
            e = v(0); ty = i.x; off = 0
            idx = [s.val(st, a) for a in i.a[1:]]
            t = ty; dyn = []
            for k, ix in enumerate(idx):
                if k == 0: sz = t.size; nt = t
                elif t.k == "s": off += t.offs[ix[1]]; t = t.elems[ix[1]]; continue
                else: sz = t.elt.size; nt = t.elt
                t = nt
                if isc(ix): off += sgn(ix) * sz
                else: dyn.append((ix, sz))
            for ix, sz in dyn: e = ("idx", e, ix, sz)
            r = addr(e, off)
        elif op == "load":
            a = v(0); k = (a, i.ty.size)
            at = i.x[0] != 0
            if at:
                r = s.fresh("aload", i.ty.w if i.ty.k == "i" else 64); st.ev.append(("aload", a, r, i.x[0], i.line))
            elif k in st.mem: r = st.mem[k]
            else:
                g = s.ginit(a, i.ty)
                if g is not None: r = g
                elif base(a)[0] == "g" and a[0] != "g" and base(a)[1] in s.M.globals and s.M.globals[base(a)[1]].const and s.M.globals[base(a)[1]].init is not None: r = ("cload", a, i.ty)
                else:
                    r = s.fresh("load", i.ty.w if i.ty.k == "i" else 64); st.mem[k] = r
                st.ev.append(("load", a, r, i.line))
        elif op == "store":
            x, a = v(0), v(1); sz = i.name.size
            if i.x[0] != 0: st.ev.append(("astore", a, x, i.x[0], i.line)); return
            s.clobber(st, a, sz); st.mem[(a, sz)] = x; st.ev.append(("store", a, x, sz, i.line)); return
        elif op == "cmpxchg":
            ok = s.fresh("cxok", 1); old = s.fresh("cxold", 64)
            st.ev.append(("cmpxchg", v(0), v(1), v(2), ok, old, i.line)); st.env[i.res] = ("pair", old, ok); return
        elif op == "atomicrmw":
            r = s.fresh("armw", i.ty.w); st.ev.append(("armw", i.x, v(0), v(1), r, i.line))
        elif op == "extractvalue":
            a = v(0)
            r = a[1 + i.x[0]] if a[0] == "pair" else ("field", a, tuple(i.x))
        elif op == "insertvalue": r = ("insert", v(0), v(1), tuple(i.x))
        elif op == "call":
            if i.x[0] == "f" and (i.x[1].startswith("llvm.lifetime") or i.x[1].startswith("llvm.assume") or i.x[1].startswith("llvm.experimental")): return
            args = tuple(s.val(st, a) for a in i.a)
            if i.x[0] == "f" and i.x[1].startswith("llvm.expect"): st.env[i.res] = args[0]; return
            if i.x[0] == "f" and i.x[1].startswith("llvm.threadlocal"): st.env[i.res] = args[0]; return
            nm = i.x[1] if i.x[0] == "f" else s.val(st, i.x)
            if isinstance(nm, str):
                for p in ("llvm.fshl.", "llvm.smax.", "llvm.smin.", "llvm.umax.", "llvm.umin.", "llvm.bswap.", "llvm.abs."):
                    if nm.startswith(p):
                        st.env[i.res] = (p[5:-1],) + args + (i.ty.w,); return
            r = s.fresh("call:%s" % (nm if isinstance(nm, str) else "?"), i.ty.w if i.ty.k == "i" else 64) if i.ty.k != "void" else None
            if isinstance(nm, str) and nm in s.pure: r = ("pure", nm) + args
            st.ev.append(("call", nm, args, r, i.line))
            s.callmem(st, nm, args, i)
            if r is not None: st.env[i.res] = r
            return
        elif op == "fence": st.ev.append(("fence",)); return
        else:
            r = s.fresh(op, i.ty.w if i.ty.k == "i" else 64)
        if i.res is not None: st.env[i.res] = r
    def ginit(s, a, ty):
        """value of a constant global"""
        b = base(a)
        if b[0] != "g" or a[0] == "idx" or (a[0] == "addr" and a[1][0] != "g"): return None
        g = s.M.globals.get(b[1])
        if g is None or not g.const or g.init is None: return None
        off = a[2] if a[0] == "addr" else 0
        return initval(g.init, g.ty, off, ty)
    def clobber(s, st, a, sz):
        """forget what a store through a may overlap"""
        b = base(a)
        for k in list(st.mem):
            kb = base(k[0])
            if kb == b:
                if k[0][0] == "idx" or a[0] == "idx" or (k[0][0] == "addr" and k[0][1][0] == "idx") or (a[0] == "addr" and a[1][0] == "idx"): del st.mem[k]; continue
                o1 = k[0][2] if k[0][0] == "addr" else 0; o2 = a[2] if a[0] == "addr" else 0
                if o1 < o2 + sz and o2 < o1 + k[1]: del st.mem[k]
            elif s.distinct(kb, b): continue
            else: del st.mem[k]
    def distinct(s, a, b):
        ID = ("g", "alloca", "fn", "ptrnull")
        if a[0] in ID and b[0] in ID: return a != b
        # a local whose address is not given away cannot be reached through another pointer; kept simple: locals differ from loaded pointers and arguments
        if "alloca" in (a[0], b[0]): return True
        return False
    def callmem(s, st, nm, args, i):
        if isinstance(nm, str) and nm in s.pure: return
        if isinstance(nm, str) and nm.startswith("llvm.mem"):
            d = args[0]; n = args[2][1] if isc(args[2]) else 1 << 40
            s.clobber(st, d, n)
            if nm.startswith("llvm.memset") and isc(args[1]) and args[1][1] == 0 and isc(args[2]): st.ev.append(("zero", d, n))
            return
        given = {base(a) for a in args if isinstance(a, tuple)}
        for k in list(st.mem):
            kb = base(k[0])
            if kb[0] == "alloca" and kb not in given and kb not in s.escaped(st): continue
            if kb[0] == "g":
                g = s.M.globals.get(kb[1])
                if g is not None and g.const: continue
                if s.modref is not None and s.modref(nm, kb[1]) is False: continue
            if kb[0] == "alloca" and s.modref is not None and s.modref(nm, None) is False: continue
            del st.mem[k]
    def escaped(s, st):
        r = set()
        for e in st.ev:
            if e[0] == "store" and isinstance(e[2], tuple) and base(e[2])[0] == "alloca": r.add(base(e[2]))
            if e[0] == "call": r |= {base(a) for a in e[2] if isinstance(a, tuple) and base(a)[0] == "alloca"}
        return r

def initval(init, t, off, ty):
    """scalar of type ty at byte offset off of a constant initialiser"""
    k = init[0]
    if k == "zero": return NULL if ty.k == "p" else C(0, ty.w)
    if k == "str":
        b = init[1]
        if ty.k == "i":
            n = ty.size
            if off + n <= len(b): return C(int.from_bytes(b[off:off + n], "little"), ty.w)
        return None
    if k == "agg":
        if t.k == "a":
            j = off // t.elt.size
            return initval(init[1][j], t.elt, off - j * t.elt.size, ty) if j < len(init[1]) else None
        if t.k == "s":
            for j in range(len(t.elems) - 1, -1, -1):
                if off >= t.offs[j]: return initval(init[1][j], t.elems[j], off - t.offs[j], ty)
        return None
    if off: return None
    if k == "c": return C(init[1], init[2]) if ty.k == "i" else None
    if k == "null": return NULL
    if k == "f": return ("fn", init[1])
    if k == "g": return addr(("g", init[1]), init[2])
    return None
def cstr(M, e):
    """text of a constant string operand"""
    if e[0] == "g": n, off = e[1], 0
    elif e[0] == "addr" and e[1][0] == "g": n, off = e[1][1], e[2]
    else: return None
    g = M.globals.get(n)
    if g is None or not g.const or g.init is None: return None
    if g.init[0] == "zero": return b""
    if g.init[0] != "str": return None
    b = g.init[1][off:]; z = b.find(b"\0")
    return b[:z] if z >= 0 else None
