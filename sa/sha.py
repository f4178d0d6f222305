"""SHA-256 (X02): value graphs of the operations in a normal form, compared with the ones of the standard.

Words are vectors of bits; a bit is an exclusive-or of products of variables (algebraic normal form), a sum of words is an opaque word named by
its summands modulo 2^w.  The graphs are built from the compiled program with the control state (fill level of the block buffer, length of the
update) fixed to each value of a partition and the message, the chaining value and the bit count left open."""
from . import driver, loops, dom
from .report import Finding
class Unknown(Exception): pass
class Outside(Exception): pass
class Fork(Exception): pass
class Wrong(Exception): pass
class Dead(Exception): pass
# ------------------------------------------------------------------ words
ZERO = frozenset(); ONE = frozenset([frozenset()])
class Words:
    def __init__(s): s.ids = {}; s.bits = []; s.memo = {}; s.lin = {}; s.sums = {}; s.nv = 0; s.lits = {}
    def word(s, bits):
        i = s.ids.get(bits)
        if i is None: i = s.ids[bits] = len(s.bits); s.bits.append(bits)
        return i
    def const(s, v, w):
        k = (v & ((1 << w) - 1), w); i = s.lits.get(k)
        if i is None: i = s.lits[k] = s.word(tuple(ONE if k[0] >> b & 1 else ZERO for b in range(w)))
        return i
    def value(s, i):
        """the constant, or None"""
        k = ("value", i)
        if k not in s.memo:
            v = 0
            for b, p in enumerate(s.bits[i]):
                if p == ONE: v |= 1 << b
                elif p != ZERO: v = None; break
            s.memo[k] = v
        return s.memo[k]
    def width(s, i): return len(s.bits[i])
    def fresh(s, w):
        b = tuple(frozenset([frozenset([s.nv + k])]) for k in range(w)); s.nv += w
        return s.word(b)
    def times(s, p, q):
        if not p or not q: return ZERO
        if p == ONE: return q
        if q == ONE: return p
        if len(p) * len(q) > 4096: raise Unknown("product of large terms")
        out = set()
        for a in p:
            for b in q: out ^= {a | b}
        return frozenset(out)
    def bitop(s, op, a, b):
        if op in ("and", "or", "xor") and a > b: a, b = b, a
        k = (op, a, b); r = s.memo.get(k)
        if r is None:
            f = {"xor": lambda p, q: p ^ q, "and": s.times, "or": lambda p, q: p ^ q ^ s.times(p, q)}[op]
            r = s.memo[k] = s.word(tuple(f(p, q) for p, q in zip(s.bits[a], s.bits[b])))
        return r
    def shift(s, op, a, n):
        w = s.width(a); b = s.bits[a]
        if n >= w: raise Unknown("shift beyond the width")
        if op == "shl": return s.word((ZERO,) * n + b[:w - n])
        return s.word(b[n:] + ((ZERO if op == "lshr" else b[-1]),) * n)
    def rot(s, a, n):
        b = s.bits[a]; n %= len(b); return s.word(b[n:] + b[:n])
    def linear(s, a):
        v = s.value(a)
        if v is not None: return {}, v
        return s.lin.get(a) or ({a: 1}, 0)
    def combine(s, w, parts):
        """sum of multiples"""
        t = {}; c = 0
        for a, k in parts:
            x, y = s.linear(a); c += y * k
            for i, n in x.items(): t[i] = t.get(i, 0) + n * k
        m = (1 << w) - 1; t = {i: n & m for i, n in t.items() if n & m}; c &= m
        if not t: return s.const(c, w)
        if len(t) == 1 and not c and list(t.values()) == [1]: return next(iter(t))
        key = (w, c, tuple(sorted(t.items()))); r = s.sums.get(key)
        if r is None: r = s.sums[key] = s.fresh(w); s.lin[r] = (t, c)
        return r
    def add(s, a, b):
        k = ("add", a, b) if a < b else ("add", b, a); r = s.memo.get(k)
        if r is None:
            if all(not p or not q for p, q in zip(s.bits[a], s.bits[b])): r = s.bitop("or", a, b)
            else: r = s.combine(s.width(a), ((a, 1), (b, 1)))
            s.memo[k] = r
        return r
    def cast(s, op, a, w):
        b = s.bits[a]
        if op == "trunc": return s.word(b[:w])
        return s.word(b + ((b[-1] if op == "sext" else ZERO),) * (w - len(b)))
    def binary(s, op, a, b):
        w = s.width(a); x, y = s.value(a), s.value(b)
        if op == "add": return s.add(a, b)
        if op in ("and", "or", "xor"): return s.bitop(op, a, b)
        if op == "sub": return s.const(x - y, w) if x is not None and y is not None else s.combine(w, ((a, 1), (b, -1)))
        if op in ("shl", "lshr", "ashr"):
            if y is None: raise Unknown("shift by an unknown amount")
            return s.shift(op, a, y)
        if op == "mul":
            if x is not None: a, b, x, y = b, a, y, x
            if y is None: raise Unknown("product")
            if y and not y & (y - 1): return s.shift("shl", a, y.bit_length() - 1)
            return s.combine(w, ((a, y),))
        if op in ("udiv", "urem") and y:
            if x is not None: return s.const(x // y if op == "udiv" else x % y, w)
            if not y & (y - 1):
                return s.shift("lshr", a, y.bit_length() - 1) if op == "udiv" else s.bitop("and", a, s.const(y - 1, w))
        if op in ("sdiv", "srem") and x is not None and y and not x >> (w - 1) and not y >> (w - 1): return s.const(x // y if op == "sdiv" else x % y, w)
        raise Unknown(op)
    def join(s, parts): return s.word(tuple(p for x in parts for p in s.bits[x]))
    def bytes(s, a): return [s.word(s.bits[a][k:k + 8]) for k in range(0, s.width(a), 8)]
# ------------------------------------------------------------------ the program
class Graph:
    """value graph of a call whose control flow is decided by constants"""
    def __init__(s, M, W, regions, mem):
        s.M = M; s.W = W; s.regions = dict(regions); s.mem = dict(mem); s.steps = 0; s.na = 0; s.line = None; s.fns = set()
        s.rel = None; s.script = []; s.pos = None; s.open = None
    def bound(s, p, n, what):
        if p[0] != "p": raise Unknown("pointer")
        if p[1] == "rest" and s.open is not None:       # as many bytes as the update still has to take in
            if n and not (0 <= p[2] and s.rel.cs.prove_le(dom.sub(dom.const(p[2] + n), s.rel.lin(s.open)))): raise Outside("%s of %d bytes at distance %d behind the running position" % (what, n, p[2]))
            return
        if n and not (0 <= p[2] and p[2] + n <= s.regions[p[1]]): raise Outside("%s of %d bytes at offset %d of a block of %d bytes (%s)" % (what, n, p[2], s.regions[p[1]], p[1]))
    def at(s, x):
        """distance from the running position of the update"""
        v = s.W.value(x)
        if v is not None: return v
        raise Wrong("reads its input at a place other than the running position")
    def byte(s, r, o):
        k = (r, o)
        if k not in s.mem:
            if r.startswith("@"): s.mem[k] = s.init(r[1:], o)
            else: s.mem[k] = s.W.fresh(8)
        return s.mem[k]
    def init(s, g, o):
        from . import vg, ir
        G = s.M.globals[g]
        if not G.const or G.init is None: raise Unknown("global " + g)
        v = vg.initval(G.init, G.ty, o, ir.Ty("i", 1, 8))
        if v is None:
            # a byte of a wider element
            t = G.ty; off = o; b = 0
            while t.k in ("a", "s"):
                if t.k == "a": off = off % t.elt.size; t = t.elt
                else:
                    j = max(j for j in range(len(t.elems)) if t.offs[j] <= off); off -= t.offs[j]; t = t.elems[j]
            v = vg.initval(G.init, G.ty, o - off, t)
            if v is None or v[0] != "c": raise Unknown("constant")
            return s.W.const(v[1] >> (8 * off), 8)
        return s.W.const(v[1], 8) if v[2] == 8 else s.W.const(v[1] >> 0, 8)
    def load(s, p, ty):
        s.bound(p, ty.size, "read")
        if ty.k == "p":
            v = s.mem.get((p[1], p[2], "p"))
            if v is None: raise Unknown("pointer in memory")
            return v
        if ty.k != "i": raise Unknown("type")
        x = s.W.join([s.byte(p[1], p[2] + k) for k in range(ty.size)])
        return s.W.cast("trunc", x, ty.w) if ty.w < 8 * ty.size else x
    def store(s, p, v, ty):
        s.bound(p, ty.size, "write")
        if p[1].startswith("@"): raise Unknown("store to a global")
        if ty.k == "p": s.mem[(p[1], p[2], "p")] = v; return
        if ty.k != "i" or not isinstance(v, int): raise Unknown("type")
        if ty.w < 8 * ty.size: v = s.W.cast("zext", v, 8 * ty.size)
        for k, b in enumerate(s.W.bytes(v)): s.mem[(p[1], p[2] + k)] = b
    def val(s, env, o):
        k = o[0]
        if k == "v": return env[o[1]]
        if k == "c": return s.W.const(o[1], o[2])
        if k == "null": return ("null",)
        if k == "g":
            s.regions.setdefault("@" + o[1], s.M.globals[o[1]].ty.size); return ("p", "@" + o[1], o[2])
        if k == "f": return ("fn", o[1])
        if k == "undef" and o[1].k == "i": return s.W.fresh(o[1].w)
        raise Unknown("operand " + k)
    def truth(s, c):
        v = s.W.value(c) if isinstance(c, int) else None
        if v is None: raise Unknown("a branch depends on the message")
        return bool(v)
    def choose(s, p, a, b):
        """comparison of lengths that are not constants: both outcomes are followed, one per run"""
        v = s.rel.decide(p, a, b)
        if v is not None: return v
        if not s.script: raise Fork()
        v = s.script.pop(0)
        if not s.rel.assume(p, a, b, v): raise Dead()
        return v
    def compare(s, p, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)): raise Unknown("comparison")
            if a[0] != b[0] or a[0] == "null" or a[1] != b[1]:
                if p in ("eq", "ne"): return (a == b) == (p == "eq")
                raise Unknown("comparison")
            x, y = a[2], b[2]
        else:
            x, y = s.W.value(a), s.W.value(b)
            if x is None or y is None:
                if a == b: x = y = 0
                elif s.rel is not None and W_lengths(s, a, b): return s.choose(p, a, b)
                else: raise Unknown("a comparison depends on the message")
            elif p[0] == "s":
                w = s.W.width(a); h = 1 << (w - 1); x = (x ^ h); y = (y ^ h)
        return {"eq": x == y, "ne": x != y}.get(p) if p in ("eq", "ne") else {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]]
    def call(s, name, args, depth=0):
        if depth > 12: raise Unknown("depth")
        f = s.M.funcs[name]; W = s.W; s.fns.add(name)
        return s.walk(f, name, {p[0]: a for p, a in zip(f.params, args)}, 0, None, depth)
    def walk(s, f, name, env, b, prev, depth=0, stop=None):
        """to the return, or to the arrival at block `stop`"""
        W = s.W; first = True
        while True:
            if b == stop and not first: return ("head", env, prev)
            first = False
            B = f.blocks[b]; nv = {}
            for i in B.ins:
                if i.op != "phi" or prev is None: break
                nv[i.res] = s.val(env, next(v for q, v in i.x if q == prev))
            env.update(nv); nxt = None
            for i in B.ins:
                if i.op == "phi": continue
                s.steps += 1
                if s.steps > 300000: raise Unknown("step limit")
                if i.line: s.line = (i.file or f.file if hasattr(f, "file") else i.file, i.line, name)
                op = i.op
                if op == "ret": return s.val(env, i.a[0]) if i.a else None
                if op == "br":
                    nxt = i.x[0] if len(i.x) == 1 or s.truth(s.val(env, i.a[0])) else i.x[1]; break
                if op == "switch":
                    c = W.value(s.val(env, i.a[0]))
                    if c is None: raise Unknown("a switch depends on the message")
                    nxt = next((t for k, t in i.x[1] if k[1] == c), i.x[0]); break
                if op == "unreachable": raise Unknown("unreachable")
                r = s.ins(env, i, depth)
                if r is not None: env[i.res] = r
            prev, b = b, nxt
    def ins(s, env, i, depth):
        W = s.W; op = i.op; v = lambda k: s.val(env, i.a[k])
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a, b = v(0), v(1)
            if not isinstance(a, int) or not isinstance(b, int):
                if op == "sub" and a[0] == b[0] == "pi" and a[1] == b[1]: return W.const(a[2] - b[2], 64)
                raise Unknown("pointer arithmetic")
            return W.binary(op, a, b)
        if op in ("trunc", "zext", "sext"): return W.cast(op, v(0), i.ty.w)
        if op == "icmp": return W.const(int(s.compare(i.x, v(0), v(1))), 1)
        if op == "select": return v(1) if s.truth(v(0)) else v(2)
        if op == "freeze" or op == "bitcast": return v(0)
        if op == "ptrtoint":
            p = v(0)
            return ("pi",) + p[1:]
        if op == "alloca":
            s.na += 1; r = "local%d" % s.na; s.regions[r] = i.x.size; return ("p", r, 0)
        if op == "gep":
            e = v(0); t = i.x; off = 0
            if e[0] != "p": raise Unknown("pointer")
            for k, a in enumerate(i.a[1:]):
                x = s.val(env, a); w = W.width(x); x = W.value(x)
                if x is None:
                    if s.pos is None or e[1] != "data": raise Unknown("an address depends on the message")
                    x = s.at(W.binary("sub", s.val(env, a), s.pos)); e = ("p", "rest", e[2])
                if x >> (w - 1): x -= 1 << w
                if k == 0: off += x * t.size
                elif t.k == "s": off += t.offs[x]; t = t.elems[x]
                else: off += x * t.elt.size; t = t.elt
            return ("p", e[1], e[2] + off)
        if op == "load": return s.load(v(0), i.ty)
        if op == "store": s.store(v(1), v(0), i.name); return None
        if op == "call":
            if i.x[0] != "f": raise Unknown("indirect call")
            n = i.x[1]
            if n.startswith(("llvm.lifetime", "llvm.assume", "llvm.experimental")): return None
            args = [s.val(env, a) for a in i.a if a[0] != "meta"]
            if n.startswith("llvm.expect"): return args[0]
            if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
                k = W.value(args[2])
                if k is None: raise Unknown("length")
                s.bound(args[0], k, "write"); s.bound(args[1], k, "read")
                if k and args[0][1].startswith("@"): raise Unknown("store to a global")
                x = [s.byte(args[1][1], args[1][2] + j) for j in range(k)]
                for j in range(k): s.mem[(args[0][1], args[0][2] + j)] = x[j]
                return args[0]
            if n.startswith("llvm.memset") or n == "memset":
                k = W.value(args[2]); c = W.cast("trunc", args[1], 8) if W.width(args[1]) > 8 else args[1]
                if k is None: raise Unknown("length")
                s.bound(args[0], k, "write")
                for j in range(k): s.mem[(args[0][1], args[0][2] + j)] = c
                return args[0]
            if n.startswith("llvm.bswap"): return W.join(W.bytes(args[0])[::-1])
            if n.startswith(("llvm.fshl", "llvm.fshr")):
                k = W.value(args[2])
                if k is None or args[0] != args[1]: raise Unknown("funnel shift")
                w = W.width(args[0]); return W.rot(args[0], (w - k) % w if "fshl" in n else k)
            if n.startswith(("llvm.umin", "llvm.umax")):
                x, y = W.value(args[0]), W.value(args[1])
                if x is None or y is None: raise Unknown("minimum")
                return args[0] if (x < y) == ("umin" in n) else args[1]
            if n in s.M.funcs: return s.call(n, args, depth + 1)
            raise Unknown("call of " + n)
        raise Unknown(op)
# ------------------------------------------------------------------ the standard
def root(n, k):
    """floor(n ** (1/k))"""
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
PRIMES = [p for p in range(2, 320) if all(p % q for q in range(2, int(p ** .5) + 1))][:64]
H0 = [root(p << 64, 2) & 0xffffffff for p in PRIMES[:8]]
K = [root(p << 96, 3) & 0xffffffff for p in PRIMES]
def compress(W, state, block):
    """one application of the FIPS 180-4 compression function"""
    x = lambda *a: a[0] if len(a) == 1 else W.bitop("xor", a[0], x(*a[1:]))
    def sm(*a):
        r = a[0]
        for b in a[1:]: r = W.combine(32, ((r, 1), (b, 1)))
        return r
    m = [W.join([block[4 * i + 3], block[4 * i + 2], block[4 * i + 1], block[4 * i]]) for i in range(16)]
    s = lambda a, p, q, n: x(W.rot(a, p), W.rot(a, q), W.shift("lshr", a, n)); S = lambda a, p, q, n: x(W.rot(a, p), W.rot(a, q), W.rot(a, n))
    for i in range(16, 64): m.append(W.add(W.add(s(m[i - 2], 17, 19, 10), m[i - 7]), W.add(s(m[i - 15], 7, 18, 3), m[i - 16])))
    a, b, c, d, e, f, g, h = state; n = W.const(0xffffffff, 32); land = lambda p, q: W.bitop("and", p, q)
    for i in range(64):
        ch = x(land(e, f), land(x(e, n), g)); mj = x(land(a, b), land(a, c), land(b, c))
        t1 = W.add(W.add(W.add(h, S(e, 6, 11, 25)), W.add(ch, W.const(K[i], 32))), m[i]); t2 = W.add(S(a, 2, 13, 22), mj)
        h, g, f, e, d, c, b, a = g, f, e, W.add(d, t1), c, b, a, W.add(t1, t2)
    return [W.add(p, q) for p, q in zip(state, (a, b, c, d, e, f, g, h))]
# ------------------------------------------------------------------ the operations
class Case:
    """the context before an operation: the fill level is a constant, everything else is open"""
    def __init__(s, M, L, d, n=0):
        if "W" not in _M:
            W = _M["W"] = Words()
            _M["syms"] = [W.fresh(8) for _ in range(512)], [W.fresh(8) for _ in range(64)], W.fresh(64), [W.fresh(32) for _ in range(8)]
        # the bytes of the message have the same names in all cells; those of the buffer behind the fill level are leftovers
        W = s.W = _M["W"]; text, stale, s.bits, s.state = _M["syms"]; s.L = L; s.d = d; s.n = n; mem = {}
        s.block = text[:d] + stale[d:]; s.data = text[d:d + n]
        for k in range(64): mem[("ctx", L["data"] + k)] = s.block[k]
        def put(at, w):
            for k, b in enumerate(W.bytes(w)): mem[("ctx", at + k)] = b
        put(L["datalen"], W.const(d, 64)); put(L["bitlen"], s.bits)
        for k in range(8): put(L["state"] + 4 * k, s.state[k])
        for k in range(n): mem[("data", k)] = s.data[k]
        s.G = Graph(M, W, {"ctx": L["size"], "data": n, "out": 32}, mem)
    def get(s, at, n): return s.W.join([s.G.byte("ctx", at + k) for k in range(n)])
    def fields(s): return s.W.value(s.get(s.L["datalen"], 8)), s.get(s.L["bitlen"], 8), [s.get(s.L["state"] + 4 * k, 4) for k in range(8)]
CTX = ("p", "ctx", 0)
INIT, UPDATE, FINAL = "rcutils_sha256_init", "rcutils_sha256_update", "rcutils_sha256_final"
_M = {}
def case(a):
    """one cell of the partition; returns (kind, ok/False/None, detail, message, location)"""
    kind, d, n, count = a; M, L = _M["M"], _M["L"]; out = []
    fn = {"init": INIT, "update": UPDATE, "final": FINAL}[kind]
    c = Case(M, L, d, n); W = c.W; loc = None
    def say(ok, detail, msg): out.append((fn, detail, bool(ok), msg, M.funcs[fn].blocks[0].ins[0].file, c.G.line))
    try:
        if kind == "init":
            c.G.call(fn, [CTX]); f, b, st = c.fields()
            say(f == 0, "fill", "the block buffer does not start empty"); say(W.value(b) == 0, "count", "the bit count does not start at zero")
            say([W.value(x) for x in st] == H0, "state", "the initial hash value is not the one of the standard")
        elif kind == "update":
            c.G.call(fn, [CTX, ("p", "data", 0), W.const(n, 64)]); f, b, st = c.fields()
            seq = c.block[:d] + c.data; full = len(seq) // 64; want = c.state
            for k in range(full): want = compress(W, want, seq[64 * k:64 * k + 64])
            say(f == len(seq) % 64, "fill", "the fill level of the block buffer after an update is wrong (%d bytes buffered, %d given)" % (d, n))
            say(st == want, "state", "the hash value after an update is not that of the complete blocks (%d bytes buffered, %d given)" % (d, n))
            rest = seq[64 * full:]
            say([c.G.byte("ctx", L["data"] + k) for k in range(len(rest))] == rest, "buffered", "the bytes left over by an update are not kept (%d bytes buffered, %d given)" % (d, n))
            want = {"blocks": 512 * full, "bits": 8 * n, "bytes": n}[count]
            say(b == W.combine(64, ((c.bits, 1), (W.const(want, 64), 1))), "count", "the bit count after an update is wrong (%d bytes buffered, %d given)" % (d, n))
        else:
            c.G.call(fn, [CTX, ("p", "out", 0)])
            total = W.combine(64, ((c.bits, 1), (W.const(8 * d, 64), 1))) if count == "blocks" else c.bits if count == "bits" else W.shift("shl", c.bits, 3)
            seq = c.block[:d] + [W.const(0x80, 8)]; st = c.state
            while len(seq) % 64 != 56: seq.append(W.const(0, 8))
            seq += W.bytes(total)[::-1]
            for k in range(0, len(seq), 64): st = compress(W, st, seq[k:k + 64])
            want = [x for w in st for x in W.bytes(w)[::-1]]; got = [c.G.byte("out", k) for k in range(32)]
            say(got == want, "digest", "the digest is not that of the padded message (%d bytes buffered)" % d)
    except Outside as e: say(False, "outside", "%s (%d bytes buffered%s)" % (e, d, ", %d given" % n if kind == "update" else ""))
    except Unknown as e: out.append((fn, "graph", None, str(e), None, c.G.line))
    return out
def counting(M, L):
    """what the bit count counts: complete blocks, all bits, or bytes"""
    c = Case(M, L, 0, 1)
    try: c.G.call(UPDATE, [CTX, ("p", "data", 0), c.W.const(1, 64)])
    except (Unknown, Outside): return "blocks"
    b = c.fields()[1]; inc = lambda k: c.W.combine(64, ((c.bits, 1), (c.W.const(k, 64), 1)))
    return "bits" if b == inc(8) else "bytes" if b == inc(1) else "blocks"
# ------------------------------------------------------------------ updates of any length
class Lengths:
    """what is known about the length of the update and the running position"""
    def __init__(s, W): s.W = W; s.cs = dom.Store(); s.syms = {}
    def lin(s, a):
        t, c = s.W.linear(a); w = s.W.width(a); h = 1 << (w - 1); out = dom.const(c - (1 << w) if c >= h else c)
        for x, k in t.items():
            if x not in s.syms: return None
            out = dom.add(out, dom.scale(dom.var(s.syms[x]), k - (1 << w) if k >= h else k))
        return out
    def symbol(s, word, name, lo):
        i = dom.sym(("sha", name), 0, 1 << 47)
        s.syms[word] = i; s.cs.assume_le(dom.addc(dom.scale(dom.var(i), -1), lo))
    def fits(s, l): return s.cs.prove_le(dom.scale(l, -1)) and s.cs.prove_le(dom.addc(l, -(1 << 62)))
    def pair(s, a, b):
        x, y = s.lin(a), s.lin(b)
        if x is None or y is None or not s.fits(x) or not s.fits(y): raise Unknown("comparison of lengths")
        return x, y
    def decide(s, p, a, b):
        x, y = s.pair(a, b); q = p if p in ("eq", "ne") else p[1:]; d = dom.sub(x, y)
        le = lambda l: s.cs.prove_le(l)
        if q in ("eq", "ne"):
            if s.cs.prove_eq0(d): return q == "eq"
            if le(dom.addc(d, 1)) or le(dom.addc(dom.scale(d, -1), 1)): return q == "ne"
            return None
        if q in ("gt", "ge"): d = dom.scale(d, -1); q = {"gt": "lt", "ge": "le"}[q]
        if q == "lt": d = dom.addc(d, 1)
        if le(d): return True
        if le(dom.addc(dom.scale(d, -1), 1)): return False
        return None
    def assume(s, p, a, b, v):
        x, y = s.pair(a, b); q = p if p in ("eq", "ne") else p[1:]; d = dom.sub(x, y)
        if q in ("eq", "ne"):
            return s.cs.assume_eq0(d) if v == (q == "eq") else s.cs.assume_neq0(d)
        if q in ("gt", "ge"): d = dom.scale(d, -1); q = {"gt": "lt", "ge": "le"}[q]
        if q == "lt": d = dom.addc(d, 1)
        return s.cs.assume_le(d) if v else s.cs.assume_le(dom.addc(dom.scale(d, -1), 1))
def W_lengths(g, a, b):
    """both are made of lengths; a length cut to 8, 16 or 32 bits is reported"""
    for x in (a, b):
        if g.rel.lin(x) is None:
            bits = g.W.bits[x]; k = len(bits)
            while k and not bits[k - 1]: k -= 1
            if k in (8, 16, 32):
                for y, (t, c) in list(g.W.lin.items()) + [(t, ({t: 1}, 0)) for t in g.rel.syms]:
                    if g.W.width(y) > k and all(z in g.rel.syms for z in t) and g.W.bits[y][:k] == bits[:k]: raise Wrong("compares a length that was cut to %d bits" % k)
            return False
    return True
def leaves(run):
    """every way through a run that compares unknown lengths"""
    work = [[]]; n = 0
    while work:
        sc = work.pop(); n += 1
        if n > 40: raise Unknown("too many cases of lengths")
        try: r = run(list(sc))
        except Fork: work += [sc + [False], sc + [True]]; continue
        except Dead: continue
        yield r, sc
def induct(a):
    """one step of the loop of an update, for a fill level and a number of remaining bytes; the lengths themselves stay open"""
    d, R, count = a; M, L = _M["M"], _M["L"]; out = []; f = M.funcs[UPDATE]; where = f.blocks[0].ins[0]; line = [None]
    def say(ok, detail, msg): out.append((UPDATE, detail, bool(ok), msg, where.file, line[0]))
    from . import vg
    what = "%d bytes buffered, %s left" % (d, R if R is not None else "more than %d" % (64 - d))
    try:
        H = vg.Walk(M).headers(f)
        if len(H) != 1: raise Unknown("the update is not a single loop")
        H = next(iter(H)); dom.reset(); phis = [i for i in f.blocks[H].ins if i.op == "phi"]
        if "N" not in _M: Case(M, L, 0); _M["N"] = (_M["W"].fresh(64), _M["W"].fresh(64))
        N, X = _M["N"]; W = _M["W"]
        def start(sc, lo):
            c = Case(M, L, d, 0); g = c.G; g.rel = Lengths(W); g.script = sc; g.rel.symbol(N, "length", lo); g.regions["data"] = 1 << 40; return c, g
        # up to the loop
        entries = []
        def before(sc):
            c, g = start(sc, 0); r = g.walk(f, UPDATE, dict(zip((p[0] for p in f.params), (CTX, ("p", "data", 0), N))), 0, None, stop=H); line[0] = g.line
            return c, g, r, dict(g.mem)
        for (c, g, r, mem), sc in leaves(before):
            if not (isinstance(r, tuple) and r and r[0] == "head"):
                say(g.rel.cs.prove_eq0(g.rel.lin(N)), "skipped", "an update returns without processing its input"); continue
            first = {i.res: g.val(r[1], next(v for q, v in i.x if q == r[2])) for i in phis}
            entries.append((sc, r[1], first))
            keep = Case(M, L, d, 0)
            same = all(mem.get(k) == v for k, v in keep.G.mem.items())
            if not same: raise Unknown("the context changes before the loop")
        for sc0, env0, first in entries:
            def step(sc):
                c, g = start(list(sc0) + sc, 0); mem0 = None
                g.walk(f, UPDATE, dict(zip((p[0] for p in f.params), (CTX, ("p", "data", 0), N))), 0, None, stop=H)
                if R is not None: rest = W.const(R, 64)
                else: rest = X; g.rel.symbol(X, "rest", 65 - d)
                pos = W.binary("sub", N, rest)
                if not g.rel.cs.assume_le(dom.scale(g.rel.lin(pos), -1)): raise Dead()
                n = R if R is not None else 200
                g.regions["rest"] = n; g.open = X if R is None else None
                text = _M["syms"][0]
                for k in range(n): g.mem[("rest", k)] = text[d + k]
                g.pos = pos; env = dict(env0); roles = {}
                for i in phis:
                    v = first[i.res]
                    if isinstance(v, int) and W.value(v) == 0 and W.width(v) == 64: env[i.res] = pos; roles[i.res] = "pos"
                    elif v == N: env[i.res] = rest; roles[i.res] = "rest"
                    elif v == ("p", "data", 0): env[i.res] = ("p", "rest", 0); roles[i.res] = "ptr"
                    else: roles[i.res] = "other"
                if "pos" not in roles.values() and "rest" not in roles.values(): raise Unknown("no running position")
                for i in phis:
                    if roles[i.res] == "other": raise Unknown("another value is carried round the loop")
                r = g.walk(f, UPDATE, env, H, None, stop=H); line[0] = g.line
                return c, g, r, roles, pos, rest
            for (c, g, r, roles, pos, rest), sc in leaves(step):
                fill, bits, st = c.fields(); text = _M["syms"][0]
                if not (isinstance(r, tuple) and r and r[0] == "head"):
                    if R is None:
                        if fill == d and st == c.state: say(False, "stops", "an update stops before the end of its input (%s)" % what); continue
                        raise Unknown("the rest of the input is taken in behind the loop")
                    seq = c.block[:d] + list(text[d:d + R]); full = len(seq) // 64; want = c.state
                    for k in range(full): want = compress(W, want, seq[64 * k:64 * k + 64])
                    tail = seq[64 * full:]
                    say(fill == len(seq) % 64 and st == want and [g.byte("ctx", L["data"] + k) for k in range(len(tail))] == tail, "stops",
                        "an update stops before the end of its input (%s)" % what if R else "the context changes behind the end of the input"); continue
                if R == 0: say(False, "overrun", "an update goes on behind the end of its input"); continue
                done = set()
                for i in phis:
                    v = g.val(r[1], next(v for q, v in i.x if q == r[2])); k = roles[i.res]
                    if k == "other": continue
                    if k == "pos": x = W.value(W.binary("sub", v, pos)) if isinstance(v, int) else None
                    elif k == "rest": x = W.value(W.binary("sub", rest, v)) if isinstance(v, int) else None
                    else: x = v[2] if v[0] == "p" and v[1] == "rest" else None
                    done.add(x)
                if None in done: raise Unknown("the running position is not advanced by a constant")
                n = next(iter(done))
                if len(done) > 1: say(False, "advance", "position and remaining length of an update are advanced differently (%s)" % what); continue
                if not 0 < n <= (R if R is not None else 64 + 64 - d): say(False, "advance", "an update advances by %d bytes (%s)" % (n, what)); continue
                seq = c.block[:d] + list(text[d:d + n]); full = len(seq) // 64; want = c.state
                for k in range(full): want = compress(W, want, seq[64 * k:64 * k + 64])
                tail = seq[64 * full:]
                ok = fill == len(seq) % 64 and st == want and [g.byte("ctx", L["data"] + k) for k in range(len(tail))] == tail
                say(ok, "step", "an update advances by %d bytes without taking exactly these bytes in (%s)" % (n, what))
                inc = {"blocks": 512 * full, "bits": None, "bytes": None}[count]
                if inc is not None: say(bits == W.combine(64, ((c.bits, 1), (W.const(inc, 64), 1))), "count", "the bit count is not advanced with the blocks (%s)" % what)
    except Outside as e: say(False, "outside", "%s (%s)" % (e, what))
    except Wrong as e: say(False, "length", "an update %s" % e)
    except Unknown as e: out.append((UPDATE, "any length", None, str(e), None, line[0]))
    return out
def x02(o, tier):
    from multiprocessing import Pool
    M, D = driver.load()[:2]
    E = driver.make(M, D, INIT, {}); L = {}
    for role, (off, size, ty) in E.layout("rcutils_sha256_ctx_s").items(): L[role] = off; L["size"] = max(L.get("size", 0), off + size)
    L["size"] = (L["size"] + 7) // 8 * 8
    _M.update(M=M, L=L); count = counting(M, L)
    cells = [("final", d, 0, count) for d in range(64)] + [("init", 0, 0, count)]
    ends = lambda d: {0, 1, 63 - d, 64 - d, 65 - d, 127 - d, 128 - d}
    if tier == "thorough": ns = lambda d: set(range(0, 130 - d)) | {191 - d, 192 - d, 193 - d, 256 - d}
    else: ns = ends
    cells += [("update", d, n, count) for d in range(64) for n in sorted(ns(d)) if n >= 0]
    fns = set()
    with Pool(8) as p:
        for rs in p.imap_unordered(case, cells, chunksize=4):
            for fn, detail, ok, msg, file, at in rs:
                if ok is None: o.inconclusive.append("%s|%s|%s" % (fn, detail, msg)); continue
                o.ob(1, ok)
                if not ok: o.findings.append(Finding("%s|%s" % (fn, detail), msg, file, M.funcs[fn].blocks[0].ins[0].line or (at or (0, 0))[1], fn))
    steps = [(d, R, count) for d in range(64) for R in list(range(0, 65 - d)) + [None]]
    with Pool(8) as p:
        for rs in p.imap_unordered(induct, steps, chunksize=16):
            for fn, detail, ok, msg, file, at in rs:
                if ok is None:
                    if "%s|%s|%s" % (fn, detail, msg) not in o.inconclusive: o.inconclusive.append("%s|%s|%s" % (fn, detail, msg))
                    continue
                o.ob(1, ok)
                if not ok: o.findings.append(Finding("%s|%s" % (fn, detail), msg, file, M.funcs[fn].blocks[0].ins[0].line or (at or (0, 0))[1], fn))
    o.coverage["steps"] = len(steps)
    o.coverage["cells"] = len(cells); o.coverage["bit_count"] = count
