"""Rendering of time values (O06): the pieces of the output text, as arithmetic over the given value."""
from . import api, dom, models
from .api import events
from .dom import const, var
from .values import *
from .ir import Ty
from .os_rules import chk
G = 10 ** 9
# ------------------------------------------------------------------ quotients in terms of the given value
def quot(st, x, c):
    """floor(x/c) for a canonical sum x, with multiples of c taken out; sums are {(root, divisor) or 1: coefficient}"""
    out = {}; rest = {}
    for k, n in x.items():
        if n % c == 0: out[k] = out.get(k, 0) + n // c
        else: rest[k] = n
    if not rest: return out
    if len(rest) == 1:
        (k, n), = rest.items()
        if n == 1 and k != 1: out[(k[0], k[1] * c)] = out.get((k[0], k[1] * c), 0) + 1; return out
    if set(rest) == {1}: out[1] = out.get(1, 0) + rest[1] // c; return {k: v for k, v in out.items() if v}
    out[(("quotient", tuple(sorted(rest.items(), key=str))), c)] = 1
    return out
def canon(ctx, st, l, t, neg, depth=0):
    """the linear expression as a canonical sum over the magnitude "A" of the time value; None unless all its parts derive from it"""
    out = {}
    if l[0]: out[1] = l[0]
    for s, k in l[1]:
        if s == t: p = {("A", 1): -1 if neg else 1}
        else:
            key = dom.SYMS[s][0]; p = None
            if depth < 6 and isinstance(key, tuple) and key[0] == "udiv" and isinstance(key[2], int):
                p = canon(ctx, st, key[1], t, neg, depth + 1)
                if p is not None: p = quot(st, p, key[2])
            if p is None and depth < 6 and isinstance(key, tuple) and key[0] in ("trunc", "and", "fptosi", "fptoui"):
                inner = [canon(ctx, st, x, t, neg, depth + 1) for x in lins(key[1:], [])]
                if inner and None not in inner: p = {(("lossy", s), 1): 1}
            if p is None: return None
        for a, n in p.items(): out[a] = out.get(a, 0) + n * k
    return {a: n for a, n in out.items() if n}
# ------------------------------------------------------------------ pieces of a text
class Unknown(Exception): pass
def lower(st, v): return v[2] if v[0] == "i" else None
def spec(fmt):
    """[(literal bytes) or (flags, width, precision, modifier, conversion)] of a format"""
    out = []; i = 0
    while i < len(fmt):
        if fmt[i] != 37: out.append(fmt[i:i + 1]); i += 1; continue
        i += 1; fl = b""
        while fmt[i:i + 1] in (b"-", b"+", b" ", b"#", b"0") and fmt[i:i + 1]: fl += fmt[i:i + 1]; i += 1
        w = b""; p = None; m = b""
        while fmt[i:i + 1].isdigit() or fmt[i:i + 1] == b"*": w += fmt[i:i + 1]; i += 1
        if fmt[i:i + 1] == b".":
            i += 1; p = b""
            while fmt[i:i + 1].isdigit() or fmt[i:i + 1] == b"*": p += fmt[i:i + 1]; i += 1
        while fmt[i:i + 1] and fmt[i:i + 1] in b"hlzjtL": m += fmt[i:i + 1]; i += 1
        c = fmt[i:i + 1]; i += 1
        if c == b"%": out.append(b"%"); continue
        if b"*" in w or p is not None and b"*" in p: raise Unknown("star")
        out.append((fl, int(w or 0), None if p is None else int(p or 0), m, c))
    return out
def number(ctx, st, s, v, t, neg):
    fl, w, p, m, c = s
    if v[0] != "i": raise Unknown("argument")
    bits = {b"": 32, b"l": 64, b"ll": 64, b"j": 64, b"z": 64, b"t": 64, b"h": 16, b"hh": 8}.get(m)
    n = canon(ctx, st, v[2], t, neg)
    if n is None or bits is None: raise Unknown("value")
    if bits < v[1]: n = {"narrowed": 1}
    sg = c in (b"d", b"i")
    pos = st.cs.prove_le(dom.scale(v[2], -1)); minus = not pos and st.cs.prove_le(dom.addc(v[2], 1))
    if p is None: digits = w if b"0" in fl and b"-" not in fl else 1
    else: digits = max(p, 1)
    pad = w if b"0" not in fl or p is not None else 0
    if pad > max(digits, 1): return [("spaced", n, pad)]
    if pos and (b"+" in fl or b" " in fl) and sg: raise Unknown("sign")
    if sg and minus and p is None and b"0" in fl: digits -= 1
    if sg and minus: return [b"-", ("num", {k: -x for k, x in n.items()}, digits)]
    if pos: return [("num", n, digits)]
    if sg: return [("signed", n, digits if p is not None or b"0" not in fl else -digits)]
    return [("wrapped", n, digits)]
def fixed(p):
    """number of digits of a number piece whose value always fits them"""
    if not isinstance(p, bytes) and p[0] == "num":
        for j in range(9):
            if p[1] == quot(None, {("A", 1): 1, ("A", G): -G}, 10 ** j) and p[2] >= 9 - j: return p[2]
    return None
def prefix(ps, k):
    """the first k characters of the pieces"""
    out = []
    for p in ps:
        if k == 0: break
        if isinstance(p, bytes): out.append(p[:k]); k -= len(p[:k]); continue
        d = fixed(p)
        if d is None:
            if p[0] == "date": raise Unknown("prefix")
            return out + [("cut", tuple(sorted(p[1].items(), key=str)), p[2], k)]
        if k < d: out.append(("num", quot(None, p[1], 10 ** (d - k)), k)); k = 0
        else: out.append(p); k -= d
    return out
def render(ctx, st, evs, e, t, neg, depth=0):
    """pieces written by a formatting event"""
    if depth > 4: raise Unknown("depth")
    if e.k == "strftime":
        f = e.d[1]
        if f is None: raise Unknown("format")
        lt = [x for x in evs[:evs.index(e)] if x.k == "localtime" and x.d[1]]
        if not lt: raise Unknown("time")
        f = f.replace(b"%F", b"%Y-%m-%d").replace(b"%T", b"%H:%M:%S").replace(b"%R", b"%H:%M")
        v = lt[-1].d[0]
        if v[0] != "i": raise Unknown("time")
        n = canon(ctx, st, v[2], t, neg)
        if n is None: raise Unknown("time")
        return [("date", f, n)]
    fname, buf, size, fp, lit, args = e.d
    if lit is None or args and args[0] == "va": raise Unknown("format")
    out = []; args = list(args)
    for s in spec(lit):
        if isinstance(s, bytes): out.append(s); continue
        fl, w, p, m, c = s
        if not args: raise Unknown("arguments")
        a = args.pop(0)
        if c in (b"d", b"i", b"u"): out += number(ctx, st, s, a, t, neg); continue
        if c == b"c":
            k = st.cs.const_of(a[2]) if a[0] == "i" else None
            if k is None: raise Unknown("character")
            out.append(bytes([k & 255])); continue
        if c != b"s" or w or fl: raise Unknown("conversion")
        lt = text(ctx, st, a)
        if lt is not None: sub = [lt]
        else: sub = content(ctx, st, evs[:evs.index(e)], a, t, neg, depth + 1)
        if p is not None: sub = prefix(sub, p)
        out += sub
    n = st.cs.const_of(size)
    if n is not None and n > 0:
        ls = [length(p) for p in out]
        if None in ls:
            if sum(x if x is not None else 20 if p[0] in ("num", "signed", "spaced") else 10 ** 6 for x, p in zip(ls, out)) > n - 1: raise Unknown("truncated")
        elif sum(ls) > n - 1: out = prefix(out, n - 1)
    return join(out)
LEN = {b"Y": 4, b"m": 2, b"d": 2, b"H": 2, b"M": 2, b"S": 2, b"I": 2, b"y": 2, b"j": 3, b"e": 2, b"k": 2, b"l": 2, b"U": 2, b"C": 2, b"p": 2, b"n": 1, b"t": 1, b"u": 1, b"w": 1, b"%": 1, b"G": 4, b"V": 2, b"W": 2, b"D": 8}
def join(ps):
    out = []
    for p in ps:
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes): out[-1] += p
        elif p != b"": out.append(p)
    return out
def length(p):
    """number of characters of a piece, when it is fixed (a number of nine digits below a thousand million, the date)"""
    if isinstance(p, bytes): return len(p)
    if p[0] == "date":
        n = 0; f = p[1]; i = 0
        while i < len(f):
            if f[i] == 37:
                if f[i + 1:i + 2] not in LEN: return None
                n += LEN[f[i + 1:i + 2]]; i += 2
            else: n += 1; i += 1
        return n
    return fixed(p)
def content(ctx, st, evs, ptr, t, neg, depth=0):
    """pieces of the text at ptr: the last formatting there, with what is formatted behind it in the same buffer"""
    if ptr[0] != "p" or not ptr[1]: raise Unknown("buffer")
    out = None; end = None
    for e in evs:
        if e.k == "printf": b, at = e.d[1], e.d[1]
        elif e.k == "strftime": b, at = e.d[0][0], None
        elif e.k in ("memcpy", "store") and (e.d[0][1] if e.k == "memcpy" else e.d[0]) == ptr[1]:
            v = e.d[3] if e.k == "store" else None
            if isinstance(v, tuple) and v and v[0] in ("fmt", "hv", "str") : continue
            if out is None: 
                if e.k == "store" and isinstance(v, tuple) and (v[0] == "fill" or v == ("i", 8, const(0))): continue
            if e.k == "store" and isinstance(v, tuple) and v and v[0] == "i" and out is None: continue
            raise Unknown("written")
        else: continue
        if b[0] != "p" or b[1] != ptr[1]: continue
        ps = render(ctx, st, evs, e, t, neg, depth)
        off = dom.sub(b[2], ptr[2])
        if st.cs.prove_eq0(off): out = ps
        elif out is not None:
            ls = [length(p) for p in out]; n = const(sum(ls)) if None not in ls else None
            known = n is not None and st.cs.prove_eq0(dom.sub(off, n))
            if end is not None and st.cs.prove_eq0(dom.sub(off, end)): known = True
            if not known:
                d = st.cs.const_of(dom.sub(off, n)) if n is not None else None
                out = out + [("gap", d)] if d is not None else None
                if out is None: raise Unknown("offset")
            out = join(out + ps)
        else: raise Unknown("offset")
        end = e.d[2] if e.k == "strftime" and e.d[2] is not None else None
    if out is None: raise Unknown("nothing")
    return out
# ------------------------------------------------------------------ the rule
SEC = {("A", G): 1}; NS = {("A", 1): 1, ("A", G): -G}; MS = {("A", 10 ** 6): 1, ("A", G): -1000}; ALL = {("A", 1): 1}
def want(name, neg):
    if "seconds_string" in name and "nano" not in name:
        return [([b"-"] if neg else []) + [("num", SEC, 10), b".", ("num", NS, 9)]]
    if "nanoseconds" in name:
        return [([b"-"] if neg else []) + [("num", ALL, 19)], [("signed", {("A", 1): -1 if neg else 1}, 19)]]
    return [[("date", b"%Y-%m-%d %H:%M:%S", SEC), b".", ("num", MS, 3)]]
def o06(ctx):
    E = ctx.E; p, buf, size = param(ctx, 0), param(ctx, 1), param(ctx, 2); shown = {True: 0, False: 0}
    date = "date" in ctx.name
    for r in ctx.final():
        st = r.st; evs = events(st); c = ctx.cval(r)
        bad = [i for i in (0, 1) if null(ctx, st, i)]
        zero = st.cs.prove_eq0(size[2])
        if bad:
            chk(ctx, c not in (0, None), "accepts", "null", "a null argument is accepted", r)
            chk(ctx, not writes(evs, buf), "writes", "null", "the output is written although an argument is null", r); continue
        pr = [e for e in evs if e.k in ("printf", "strftime")]
        out = [e for e in pr if (e.d[1] if e.k == "printf" else e.d[0][0])[1] == buf[1]]
        if zero and not out:
            chk(ctx, c == 0 or date, "result", "empty", "an empty buffer is not accepted", r); continue
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if c != 0:
            why = any(e.k == "fmtfail" for e in evs) or any(e.k == "localtime" and not e.d[1] for e in evs) or any(e.k == "strftime" and e.d[2] is None for e in evs)
            small = date and st.cs.prove_le(dom.addc(size[2], -31))
            chk(ctx, why or small, "result", "refused", "a valid request is refused", r); continue
        chk(ctx, not any(e.k == "fmtfail" for e in evs) and not any(e.k == "localtime" and not e.d[1] for e in evs), "result", "failure", "a failure to format is reported as success", r)
        if not chk(ctx, bool(out), "writes", "nothing", "success is reported but nothing is written", r): continue
        T = E.initial(st, p[1], p[2], Ty("i", 8, 64))
        if T[0] != "i" or len(T[2][1]) != 1: ctx.inconclusive("value", "time"); continue
        t = T[2][1][0][0]
        for neg in (False, True):
            s2 = st.copy(); s2.cs = st.cs.copy()
            if not s2.cs.assume_le(dom.addc(var(t), 1) if neg else dom.scale(var(t), -1)): continue
            try: got = content(ctx, s2, evs, buf, t, neg)
            except Unknown as x: ctx.inconclusive("text", str(x)); continue
            shown[neg] += 1
            w = want(ctx.name, neg)
            msg = "a %s value is rendered as %s, not as %s" % ("negative" if neg else "non-negative", showp(got), showp(w[0]))
            chk(ctx, got in w, "text", "negative" if neg else "positive", msg, r, out[0])
        for e in out:
            if e.k == "printf":
                have = dom.add(e.d[2], e.d[1][2]) if not isinstance(e.d[2], int) else None
                if have is None: ctx.inconclusive("size", "unknown"); continue
                chk(ctx, st.cs.prove_eq0(dom.sub(have, dom.add(size[2], buf[2]))), "size", "buffer", "the text is not limited to exactly the caller's buffer", r, e)
    for neg in shown:
        if not shown[neg]: ctx.inconclusive("text", "never")
def writes(evs, buf): return any(e.k == "store" and e.d[0] == buf[1] for e in evs)
def showp(ps):
    def n(d): return " + ".join("%s%s" % ("" if k == 1 else "%d*" % k, "|t|/%d" % a[1] if a != 1 and a[1] != 1 and isinstance(a, tuple) else "|t|" if isinstance(a, tuple) else str(a)) for a, k in d.items())
    return " ".join(p.decode("latin1") if isinstance(p, bytes) else "[%s %s]" % (p[0], p[1] if not isinstance(p[1], dict) else n(p[1]) + " in %d digits" % p[2]) if p[0] != "date" else "[date %s of %s]" % (p[1].decode("latin1"), n(p[2])) for p in ps)
O06 = ["rcutils_time_point_value_as_nanoseconds_string", "rcutils_time_point_value_as_seconds_string", "rcutils_time_point_value_as_date_string"]
