"""The error state: what it contains after setting, reading and resetting (E03), and the text made from it (E02)."""
from . import api, dom, driver, loops, models
from .api import events
from .dom import const, var
from .values import *
from .ir import Ty
from .os_rules import chk
from .logtext import note
SET, GETSTR, GETST, ISSET, RESET, INIT = ("rcutils_set_error_state", "rcutils_get_error_string", "rcutils_get_error_state", "rcutils_error_is_set", "rcutils_reset_error", "rcutils_initialize_error_handling_thread_local_storage")
STATE = "rcutils_error_state_s"
I8 = Ty("i", 1, 8)
def run_here(o, rule, names):
    M = driver.load()[0]; per = o.coverage.setdefault("per_function", {})
    for n in names:
        if n not in M.funcs: o.notes.append("anchor %s not present in this tree" % n); continue
        r = driver._work((n, rule, {"merge": False}, 60, None))
        o.findings += r["findings"]; o.obligations += r["obs"]; o.discharged += r["ok"]; o.inconclusive += r["inconclusive"]
        if r["incomplete"]: o.inconclusive.append("%s: %s" % (r["fn"], r["incomplete"]))
        per[n] = {"paths": r["paths"], "s": round(r["time"], 2), "incomplete": r["incomplete"]}
    o.coverage["functions"] = len(per); o.coverage["path_summaries"] = sum(v["paths"] for v in per.values())
# ------------------------------------------------------------------ flags
def reads(ctx, r):
    """byte-sized globals the path has read: {(name, offset): initial value}"""
    E = ctx.E; out = {}
    for e in events(r.st):
        if e.k != "gread" or e.d[1][1]: continue
        g = E.M.globals.get(e.d[0])
        if g is None or g.const or E.D is None: continue
        rid = E.global_region(e.d[0]); v = E.initial(r.st, rid, e.d[1], I8)
        if v[0] == "i" and size_of(E, e.d[0]) == 1: out[(e.d[0], e.d[1][0])] = v[2]
    return out
def size_of(E, g):
    c = E.R[E.global_region(g)].extent
    return c[0] if isinstance(c, tuple) and not c[1] else c
def after(ctx, st, k):
    """value of a flag at the end of the path: True, False or None"""
    E = ctx.E
    v = E.load(st, E.global_region(k[0]), const(k[1]), I8)[0][1]
    if v[0] == "b": return v[1] if isinstance(v[1], bool) else None
    if v[0] != "i": return None
    if st.cs.prove_eq0(v[2]): return False
    return True if st.cs.prove_neq0(v[2]) else None
def cond(st, l):
    return False if st.cs.prove_eq0(l) else True if st.cs.prove_neq0(l) else None
# ------------------------------------------------------------------ texts
class Unknown(Exception): pass
def pieces(ctx, st, evs, rid, off, cap, depth=0):
    """what the text at offset off of a region consists of: [(source pointer or bytes, number of bytes or None for all, event)], following whole-block copies"""
    E = ctx.E
    if depth > 6: raise Unknown("depth")
    if E.R[rid].kind == "const":
        t = text(ctx, st, ("p", rid, off))
        if t is None:
            t = b""
            while len(t) < cap:
                v = E.load(st, rid, dom.addc(off, len(t)), I8)[0][1]; c = st.cs.const_of(v[2]) if v[0] == "i" else None
                if c is None: raise Unknown("constant")
                if c == 0: break
                t += bytes([c & 255])
        return [(t, const(len(t)), None)] if t is not None else []
    out = None; end = None
    for i in range(len(evs) - 1, -1, -1):
        e = evs[i]
        if e.k == "memcpy" and e.d[0][1] == rid:
            d = dom.sub(off, e.d[0][2]); n = e.d[2]
            if not d[1] and d[0] >= 0 and not n[1] and d[0] + cap <= n[0] and (d[0] or n[0] >= cap):
                s = e.d[1]; return pieces(ctx, st, evs[:i], s[1], dom.add(s[2], d), cap, depth + 1)
        if e.k == "store" and e.d[0] == rid and isinstance(e.d[3], tuple) and e.d[3][0] == "fill" and st.cs.prove_le(dom.sub(e.d[1], off)):
            lim = i; break
        if start(st, e, rid, off): lim = None; first = i; break
    else: return None
    if lim is not None: return []
    at = off; out = []
    for e in evs[first:]:
        if e.k == "memcpy" and e.d[0][1] == rid and st.cs.prove_eq0(dom.sub(e.d[0][2], at)):
            out.append((e.d[1], e.d[2], e)); at = dom.add(at, e.d[2])
        elif e.k == "printf" and e.d[1][0] == "p" and e.d[1][1] == rid and st.cs.prove_eq0(dom.sub(e.d[1][2], at)):
            out.append((e, None, e)); at = None; break
        elif e.k == "memcpy" and e.d[0][1] == rid:
            k = [i for i, x in enumerate(out) if x[2] is not None and x[2].k == "memcpy" and st.cs.prove_eq0(dom.sub(x[2].d[0][2], e.d[0][2]))]
            if k: out = out[:k[0]] + [(e.d[1], e.d[2], e)]; at = dom.add(e.d[0][2], e.d[2]); continue
            if between(st, e.d[0][2], off, cap): raise Unknown("elsewhere")
    return out
def between(st, x, off, cap): return not st.cs.prove_le(dom.addc(dom.sub(x, off), 1)) and not st.cs.prove_le(dom.sub(dom.addc(off, cap), x))
def start(st, e, rid, off):
    if e.k == "memcpy": return e.d[0][1] == rid and st.cs.prove_eq0(dom.sub(e.d[0][2], off))
    return e.k == "printf" and e.d[1][0] == "p" and e.d[1][1] == rid and st.cs.prove_eq0(dom.sub(e.d[1][2], off))
def whole(ctx, st, src, n):
    """does a copy of n bytes copy the whole text"""
    t = text(ctx, st, src)
    if t is not None: return st.cs.prove_eq0(dom.sub(n, const(len(t))))
    if not n[0] and len(n[1]) == 1 and n[1][0][1] == 1 and isinstance(dom.SYMS[n[1][0][0]][0], tuple):
        key = dom.SYMS[n[1][0][0]][0]
        if isinstance(key, tuple) and key[0] in ("strlen", "strlenb") and key[1] == src[1] and key[-1] == src[2] and ctx.E.R[src[1]].kind == "alloca": return True
    L = ctx.E.strlen(st, src)
    return L is not None and (st.cs.prove_eq0(dom.sub(n, L)) or st.cs.prove_eq0(dom.sub(n, dom.addc(L, 1))))
def longer(ctx, st, src, n):
    """is the text longer than n bytes"""
    L = ctx.E.strlen(st, src)
    return L is not None and st.cs.prove_le(dom.addc(dom.sub(n, L), 1))
# ------------------------------------------------------------------ E03
def e03(o):
    F = {"flag": None, "state": None, "paths": [], "cache": None}
    run_here(o, lambda ctx: isset(ctx, F), [ISSET])
    run_here(o, lambda ctx: getstate(ctx, F), [GETST])
    if F["flag"] is None or F["state"] is None: note(o, ISSET, "the error flag or the error state is not found"); return
    run_here(o, lambda ctx: getstring(ctx, F), [GETSTR])
    run_here(o, lambda ctx: setstate(ctx, F), [SET])
    run_here(o, lambda ctx: reset(ctx, F), [RESET])
    run_here(o, lambda ctx: tls(ctx, F), [INIT])
def isset(ctx, F):
    for r in ctx.final():
        rd = reads(ctx, r)
        if len(rd) != 1: ctx.inconclusive("flag", "reads"); return
        (k, l), = rd.items(); v = None
        for x in (0, 1):
            s = r.st.copy(); s.cs = r.st.cs.copy()
            if not s.cs.assume_eq0(dom.addc(l, -x)): continue
            t = truth(ctx, s, r.ret, {})
            if None in t: ctx.inconclusive("flag", "value"); continue
            chk(ctx, t == {x}, "flag", "reported", "whether an error is set is not reported as recorded", r)
        F["flag"] = k
        untouched(ctx, r, F, "asking whether an error is set")
def stores(ctx, evs, *names):
    rids = {ctx.E.global_region(n): n for n in names if n in ctx.E.M.globals}
    return [e for e in evs if e.k in ("store", "memcpy") and (e.d[0][1] if e.k == "memcpy" else e.d[0]) in rids]
def untouched(ctx, r, F, what):
    g = [x for x in (F["state"], F["flag"] and F["flag"][0]) if x]
    s = stores(ctx, events(r.st), *g)
    chk(ctx, not s, "reading", "changes", "%s changes the error state" % what, r, s[0] if s else None)
def getstate(ctx, F):
    E = ctx.E; g = None
    for r in ctx.final():
        untouched(ctx, r, F, "reading the error state")
        if r.ret == NULL_: continue
        if r.ret[0] != "p" or E.R[r.ret[1]].kind != "global" or not r.st.cs.prove_eq0(r.ret[2]): ctx.inconclusive("state", "where"); continue
        F["state"] = E.R[r.ret[1]].name
NULL_ = ("p", 0, const(0))
def getstring(ctx, F):
    """classifies what reading the text does: "unset", "fresh" (text made from the state) or "kept" (text made earlier), with the flags that lead there"""
    E = ctx.E; res = list(E.args.values())[0]; G = E.global_region(F["state"]); seen = set(); fresh = []
    for r in ctx.final():
        st = r.st; evs = events(st); untouched(ctx, r, F, "reading the error text")
        cs = {k: cond(st, l) for k, l in reads(ctx, r).items()}
        try: ps = pieces(ctx, st, evs, res[1], res[2], 1024)
        except Unknown as x: ctx.inconclusive("text", str(x)); F["paths"].append(("unknown", cs)); continue
        f = cs.get(F["flag"])
        if ps is None:
            b = origin(ctx, st, evs, res)
            if b is None: ctx.inconclusive("text", "unknown"); F["paths"].append(("unknown", cs)); continue
            if not same(st, E.load(st, E.global_region(b), const(0), I8)[0][1], E.initial(st, E.global_region(b), const(0), I8)):
                ctx.inconclusive("text", "made"); F["paths"].append(("unknown", cs)); continue
            kind = "kept"; F["cache"] = b
        elif ps and isinstance(ps[0][0], bytes) or ps == [] or ps and literal(ctx, st, ps): kind = "unset"
        elif any(isinstance(p[0], tuple) and p[0][0] == "p" and p[0][1] == G or not isinstance(p[0], (tuple, bytes)) for p in ps): kind = "fresh"
        else: ctx.inconclusive("text", "source"); F["paths"].append(("unknown", cs)); continue
        seen.add(kind)
        if kind == "unset":
            chk(ctx, f is False, "text", "unset", "the text of a set error is not made from it", r)
            chk(ctx, b"".join(p[0] if isinstance(p[0], bytes) else text(ctx, st, p[0]) for p in ps) == b"error not set", "text", "unset-text", "the text without an error is not \"error not set\"", r)
        else: chk(ctx, f is True, "text", "set", "a text is made although no error is set", r)
        F["paths"].append((kind, cs))
        if kind == "fresh": fresh.append((r, copies(ctx, st, evs, res)))
    names = flags(F) if F["paths"] else []
    for r, g in fresh:
        val = {k: after(ctx, r.st, k) for k in names}
        if "kept" in possible(F, val): chk(ctx, g is not None and g == F["cache"], "text", "kept", "the text returned the next time is not the one made this time", r)
    for k in ("unset", "fresh"):
        if k not in seen: ctx.inconclusive("text", "never %s" % k)
def literal(ctx, st, ps): return all(isinstance(p[0], bytes) or isinstance(p[0], tuple) and p[0][0] == "p" and text(ctx, st, p[0]) is not None for p in ps)
def origin(ctx, st, evs, p):
    """name of the global a block was copied from"""
    for e in reversed(evs):
        if e.k == "memcpy" and e.d[0][1] == p[1] and st.cs.prove_eq0(dom.sub(e.d[0][2], p[2])):
            r = ctx.E.R[e.d[1][1]]
            return r.name if r.kind == "global" else origin(ctx, st, evs[:evs.index(e)], e.d[1])
    return None
def copies(ctx, st, evs, p): return origin(ctx, st, evs, p)
def possible(F, val, kinds=("unset", "fresh", "kept")):
    """what reading the text can do when the flags have the given values"""
    out = set()
    for kind, cs in F["paths"]:
        if all(c is None or val.get(k) is None or c == val[k] for k, c in cs.items()): out.add(kind)
    return out
def flags(F): return sorted({k for kind, cs in F["paths"] for k in cs} | {F["flag"]})
def layout(ctx): return ctx.E.layout(STATE)
def setstate(ctx, F, only=None):
    E = ctx.E; G = E.global_region(F["state"]); L = layout(ctx); good = 0
    own = [F["state"]] + [k[0] for k in flags(F)] + ([F["cache"]] if F["cache"] else [])
    for r in ctx.final():
        st = r.st; evs = events(st)
        if null(ctx, st, 0) or null(ctx, st, 1):
            if only: continue
            s = stores(ctx, evs, *own)
            chk(ctx, not s, "set", "null", "setting an error without message or file changes the error state", r, s[0] if s else None); continue
        val = {k: after(ctx, st, k) for k in flags(F)}; can = possible(F, val); good += 1
        if not only: chk(ctx, val[F["flag"]] is True, "set", "visible", "the error is not marked as set", r)
        if not only: chk(ctx, "kept" not in can, "set", "stale", "a text made for an earlier error is still returned after a new error is set", r)
        if F["paths"] and not only: chk(ctx, can & {"fresh", "unknown"}, "set", "text", "the text is not made from the new error", r)
        for f, i, cap in (("message", 0, 768), ("file", 1, 229)):
            off, size = L[f][0], L[f][1]
            n = size if isinstance(size, int) else cap
            try: ps = pieces(ctx, st, evs, G, const(off), n)
            except Unknown as x: ctx.inconclusive(f, str(x)); continue
            if ps is None or ps == []:
                v = E.load(st, G, const(off), I8)[0][1]
                if not same(st, v, E.initial(st, G, const(off), I8)) and st.cs.const_of(v[2]) is None: ctx.inconclusive(f, "source"); continue
                chk(ctx, False, f, "missing", "the %s of the error is not recorded" % f, r); continue
            src = ps[0][0]
            if not isinstance(src, tuple) and not isinstance(src, bytes):
                e = src
                ok = e.d[4] == b"%s" and same(st, e.d[5][0], param(ctx, i))
                chk(ctx, ok, f, "other", "what is recorded as the %s is not the given one" % f, r, e)
                chk(ctx, st.cs.prove_eq0(dom.sub(e.d[2], const(n))), f, "truncated", "the %s is cut although it fits" % f, r, e); continue
            if not chk(ctx, isinstance(src, tuple) and same(st, src, param(ctx, i)), f, "other", "what is recorded as the %s is not the given one" % f, r, ps[0][2]): continue
            k = ps[0][1]; end = dom.addc(k, off)
            w = whole(ctx, st, src, k)
            full = not w and st.cs.prove_eq0(dom.sub(k, const(n - 1)))
            chk(ctx, w or full and longer(ctx, st, src, dom.addc(k, -1)), f, "truncated", "the %s is cut although it fits" % f, r, ps[0][2])
            if not w or full:
                z = E.load(st, G, end, I8)[0][1]
                chk(ctx, z[0] == "i" and st.cs.prove_eq0(z[2]), f, "terminated", "the recorded %s is not terminated" % f, r, ps[0][2])
            else:
                z = [E.load(st, G, x, I8)[0][1] for x in (end, dom.addc(end, -1))]
                chk(ctx, any(x[0] == "i" and st.cs.prove_eq0(x[2]) for x in z), f, "terminated", "the recorded %s is not terminated" % f, r, ps[0][2])
        v = E.load(st, G, const(L["line_number"][0]), Ty("i", 8, 64))[0][1]
        if v[0] == "i" and not same(st, v, param(ctx, 2)) and any(isinstance(dom.SYMS[s][0], tuple) and dom.SYMS[s][0][0] in ("hv", "load") for s, _ in v[2][1]): ctx.inconclusive("line", "unknown")
        else: chk(ctx, same(st, v, param(ctx, 2)), "line", "other", "what is recorded as the line number is not the given one", r)
    if not good: ctx.inconclusive("set", "never")
def reset(ctx, F):
    E = ctx.E; G = E.global_region(F["state"]); L = layout(ctx)
    for r in ctx.final():
        st = r.st; evs = events(st)
        val = {k: after(ctx, st, k) for k in flags(F)}; can = possible(F, val)
        chk(ctx, val[F["flag"]] is False, "reset", "visible", "an error is still marked as set after resetting", r)
        if F["paths"]: chk(ctx, not can - {"unset", "unknown"}, "reset", "text", "after resetting the text of an error is still returned", r)
        for f in ("message", "file", "line_number"):
            v = E.load(st, G, const(L[f][0]), I8 if f != "line_number" else Ty("i", 8, 64))[0][1]
            chk(ctx, v[0] == "i" and st.cs.prove_eq0(v[2]), "reset", f, "the %s of the error remains after resetting" % f, r)
def tls(ctx, F):
    for r in ctx.final():
        evs = [e for e in events(r.st) if e.k in ("seterr", "reseterr")]
        if not evs: ctx.ob(True); continue
        if ctx.cval(r) not in (0, None) and not any(e.k == "reseterr" for e in evs):
            chk(ctx, False, "init", "message", "an error message is left by a call documented to set none", r, evs[-1]); continue
        chk(ctx, evs[-1].k == "reseterr", "init", "message", "an error message is left by a call documented to set none", r, evs[-1])
# ------------------------------------------------------------------ E02
def e02(o):
    F = {"flag": None, "state": None, "paths": [], "cache": None}
    class Quiet: pass
    s = Quiet(); s.notes = []; s.findings = []; s.obligations = s.discharged = 0; s.inconclusive = []; s.coverage = {}
    run_here(s, lambda ctx: isset(ctx, F), [ISSET]); run_here(s, lambda ctx: getstate(ctx, F), [GETST])
    if F["flag"] is None or F["state"] is None: note(o, ISSET, "the error flag or the error state is not found"); return
    run_here(s, lambda ctx: getstring(ctx, F), [GETSTR])
    run_here(o, lambda ctx: stored(ctx, F), [SET])
    run_here(o, lambda ctx: composed(ctx, F), [GETSTR])
def stored(ctx, F):
    """the stored message and file: complete or cut at the capacity, terminated, inside their own field"""
    setstate(ctx, F, only=("message", "file"))
def composed(ctx, F):
    E = ctx.E; res = list(E.args.values())[0]; G = E.global_region(F["state"]); L = layout(ctx); cap = 1024; done = 0; seen = set()
    for r in ctx.final():
        st = r.st; evs = events(st)
        try: ps = pieces(ctx, st, evs, res[1], res[2], cap)
        except Unknown as x: ctx.inconclusive("text", str(x)); continue
        if ps is None: continue
        if literal(ctx, st, ps): 
            chk(ctx, len(ps) == 0 or len(ps[0][0] if isinstance(ps[0][0], bytes) else text(ctx, st, ps[0][0])) < cap, "text", "fits", "the text does not fit its storage", r); continue
        if not isinstance(ps[0][0], (tuple, bytes)): printed(ctx, r, ps[0][0], G, L, cap); done += 1; continue
        at = const(0); got = []; cut = False
        for src, n, e in ps:
            t = text(ctx, st, src)
            if t == b"": continue
            if cut: chk(ctx, st.cs.prove_eq0(n), "text", "after-cut", "text follows a part that was cut", r, e); continue
            w = whole(ctx, st, src, n) or src[0] == "p" and src[1] and any(x.k == "printf" and x.d[1][0] == "p" and x.d[1][1] == src[1] for x in evs) and ctx.E.R[src[1]].kind == "alloca"
            if not w:
                filled = st.cs.prove_eq0(dom.addc(dom.add(at, n), 1 - cap))
                part(ctx, r, src, e, G, L, got, t, evs, F)
                chk(ctx, filled, "text", "cut", "a part of the error text is cut although there is room for it", r, e); cut = True
            else: part(ctx, r, src, e, G, L, got, t, evs, F)
            at = dom.add(at, n)
        if ("nothing",) in got: continue
        merged = []
        for x in got:
            if x[0] == "lit" and merged and merged[-1][0] == "lit": merged[-1] = ("lit", merged[-1][1] + x[1])
            else: merged.append(x)
        want = [("message",), ("lit", b", at "), ("file",), ("lit", b":"), ("line",)]
        if ("unknown",) in merged and [x for x in merged if x != ("unknown",)] == want[:4]: ctx.inconclusive("text", "part"); continue
        ok = merged == want or cut and merged == want[:len(merged)]
        chk(ctx, ok, "text", "order", "the error text is made of %s, not of the message, the file and the line" % ", ".join(x[1].decode("latin1").strip() if x[0] == "lit" else x[0] for x in merged), r, ps[0][2])
        if ok: done += 1
        end = res[2]
        for src, n, e in ps: end = dom.add(end, n)
        zs = [E.load(st, res[1], x, I8)[0][1] for x in (end, dom.addc(end, -1))]
        chk(ctx, any(z[0] == "i" and st.cs.prove_eq0(z[2]) for z in zs[:1]), "text", "terminated", "the error text is not terminated where it ends", r, ps[-1][2])
        chk(ctx, st.cs.prove_le(dom.addc(dom.sub(end, res[2]), 1 - cap)), "text", "fits", "the error text may not fit its storage", r, ps[-1][2])
    if not done: ctx.inconclusive("text", "never")
def part(ctx, r, src, e, G, L, got, t, evs, F):
    st = r.st
    if t is not None: got.append(("lit", t)); return
    if src[0] == "p" and src[1] == G:
        for f in ("message", "file"):
            if st.cs.prove_eq0(dom.addc(src[2], -L[f][0])): got.append((f,)); return
        got.append(("other",)); return
    k = number(ctx, r, src, evs, G, L, e)
    got.append(("line",) if k is True else ("nothing",) if k is None else ("unknown",))
def line(ctx, st, G, L):
    return ctx.E.initial(st, G, const(L["line_number"][0]), Ty("i", 8, 64))
def printed(ctx, r, e, G, L, cap):
    from . import timefmt
    st = r.st; out = []
    try: sp = timefmt.spec(e.d[4]) if e.d[4] is not None else None
    except timefmt.Unknown: sp = None
    if sp is None or e.d[5] and e.d[5][0] == "va": ctx.inconclusive("text", "format"); return
    args = list(e.d[5])
    for s in sp:
        if isinstance(s, bytes): 
            if out and out[-1][0] == "lit": out[-1] = ("lit", out[-1][1] + s)
            else: out.append(("lit", s))
            continue
        a = args.pop(0) if args else None; fl, w, p, m, c = s
        if c == b"s" and a and a[0] == "p" and a[1] == G and p is None and not w:
            f = [f for f in ("message", "file") if st.cs.prove_eq0(dom.addc(a[2], -L[f][0]))]; out.append((f[0],) if f else ("other",))
        elif c == b"u" and m in (b"l", b"ll", b"z", b"j") and p is None and not w: out.append(("line",) if same(st, a, line(ctx, st, G, L)) else ("other",))
        elif c in (b"d", b"i", b"u"): out.append(("another number",))
        else: out.append(("other",))
    want = [("message",), ("lit", b", at "), ("file",), ("lit", b":"), ("line",)]
    chk(ctx, out == want, "text", "order", "the error text is made of %s, not of the message, the file and the line" % ", ".join(x[1].decode("latin1").strip() if x[0] == "lit" else x[0] for x in out), r, e)
    chk(ctx, st.cs.const_of(e.d[2]) == cap, "text", "cut", "the error text is not limited to exactly its storage", r, e)
# ------------------------------------------------------------------ the decimal number
def number(ctx, r, src, evs, G, L, ev):
    """is the text at src the decimal form of the line number: digits taken from the low end until nothing remains, then reversed"""
    E = ctx.E; st = r.st; n0 = line(ctx, st, G, L); buf = src[1]
    for e in reversed(evs):
        if e.k == "printf" and e.d[1][0] == "p" and e.d[1][1] == buf:
            if not st.cs.prove_eq0(dom.sub(e.d[1][2], src[2])) or e.d[4] is None: return False
            ok = e.d[4] in (b"%lu", b"%zu", b"%llu", b"%ju") and same(st, e.d[5][0], n0)
            num = st.cs.const_of(e.d[2])
            chk(ctx, ok, "line", "value", "the number shown is not the line number", r, e)
            chk(ctx, num is not None and num >= 21, "line", "cut", "the storage for the digits is too small", r, e)
            return True
    if not [e for e in evs if e.k == "loop"]:
        b = [stored_byte(E, st, ev, buf, dom.addc(src[2], k)) for k in (0, 1)]
        if None in b: return False
        if b[0][0] != "i" or b[1][0] != "i": return False
        if b[1][2] != const(0) and st.cs.const_of(b[1][2]) != 0 or not any(x[2] == const(48) or st.cs.const_of(x[2]) is not None or same(st, x, ("i", 8, dom.addc(n0[2], 48))) for x in b[:1]): return False
        chk(ctx, same(st, ("i", 64, b[0][2]), ("i", 64, dom.addc(n0[2], 48))) and st.cs.prove_le(dom.addc(n0[2], -9)), "line", "one-digit", "a line number is not shown as its digit", r); return True
    ls = [e for e in evs if e.k == "loop"]; dig = None; rev = None
    for e in ls:
        d = digits(ctx, st, e, buf)
        if d and d[0] == "lossy":
            en = loops.info(E, e)["entry"].get(d[1])
            if en and en[0] == "i" and same(st, en, n0): chk(ctx, False, "line", "complete", "digits of the line number are left out", r, e); return True
            continue
        if d: dig = (e, d); ctx.ends = [dom.addc(hd.hv[d[1]], 0 if st.cs.prove_eq0(hd.hv[d[0]]) else 1) for hd, hs0, bs in loops.heads(E, e) if d[0] in hd.hv and d[1] in hd.hv and (st.cs.prove_eq0(hd.hv[d[0]]) or gone(st, hd.hv[d[0]]))]
        elif dig and reverses(ctx, st, e, buf) is not None: rev = (e, reverses(ctx, st, e, buf))
    if dig is None: return False
    e, (nit, iit, step, div, vals) = dig; I = loops.info(E, e)
    en, ei = I["entry"].get(nit), I["entry"].get(iit)
    if not (en and en[0] == "i" and ei): return False
    chk(ctx, same(st, en, n0), "line", "value", "the number shown is not the line number", r, e)
    chk(ctx, div == 10, "line", "base", "the line number is not shown in decimal", r, e)
    for v in vals: chk(ctx, v, "line", "digit", "a digit of the line number is not the remainder by ten", r, e)
    hs = [hd for hd, hs0, b in I["heads"] if nit in hd.hv]
    left = [hd for hd in hs if st.cs.prove_eq0(hd.hv[nit]) or gone(st, hd.hv[nit])]
    chk(ctx, bool(left), "line", "complete", "digits of the line number are left out", r, e)
    if step > 0:
        if any(iit in hd.hv and st.cs.prove_le(dom.addc(dom.scale(hd.hv[iit], -1), 21)) for hd in left): return None     # more than twenty digits
        if rev is None:
            for i, (key, lo, hi) in enumerate(dom.SYMS):      # at least one digit was stored: the text is not empty
                if isinstance(key, tuple) and key[0] in ("strlen", "strlenb", "strnlen") and key[1] == buf and st.cs.prove_eq0(var(i)): return None
            short = any(st.cs.prove_le(dom.addc(hd.hv[iit], -1)) for hd in left if iit in hd.hv)
            if not short and ls.index(e) + 1 < len(ls): return False
            chk(ctx, short, "line", "order", "the digits of the line number are in reverse order", r, e)
        else: 
            for ok, msg in rev[1]: chk(ctx, ok, "line", "order", msg, r, rev[0])
    return True
def gone(st, h):
    """is the quotient taken from h zero (a loop that tests at its end)"""
    return any(isinstance(k, tuple) and k[0] == "udiv" and k[1] == h and st.cs.prove_eq0(var(i)) for i, (k, lo, hi) in enumerate(dom.SYMS))
def stored_byte(E, st, ev, buf, off):
    """a byte of a local buffer as it was when it was copied"""
    for x in reversed(E.log(st, ev.d[0][1])):
        if x[0] == "copy" and x[3] == buf:
            for c in reversed(x[4]):
                if c[0] == "cell" and c[2] == 1 and st.cs.prove_eq0(dom.sub(c[1], off)): return c[3]
                if c[0] != "cell": return None
            return None
    return None
def digits(ctx, st, e, buf):
    """(item of the number, item of the index, step, divisor, digit values right) of a loop that takes digits off a number"""
    E = ctx.E; I = loops.info(E, e); found = lossy = None
    sts = loops.steps(E, e)
    for hd, hs0, s, vals in loops.backs(E, e):
        for it, v in vals.items():
            if v[0] != "i" or it not in hd.hv or len(v[2][1]) != 1 or v[2][0]: continue
            (sy, k), = v[2][1]; key = dom.SYMS[sy][0]
            if k != 1 or not isinstance(key, tuple) or key[0] != "udiv" or not isinstance(key[2], int): continue
            if not s.cs.prove_eq0(dom.sub(key[1], hd.hv[it])): 
                if narrowed(key[1], hd.hv[it]): lossy = it
                continue
            for jt, (d, e0) in sts.items():
                if jt not in hd.hv or jt == it: continue
                pos = hd.hv[jt]
                for q in (pos, dom.addc(pos, -1)):
                    c = E.load(s, buf, q, I8)[0][1]
                    if c[0] == "i" and c[2][1]:
                        want = dom.addc(dom.sub(hd.hv[it], dom.scale(var(sy), key[2])), 48)
                        dd = dom.sub(c[2], want)
                        if s.cs.prove_eq0(dd): found = (it, jt, d, key[2], (found[4] if found else []) + [True]); break
                        if any(isinstance(dom.SYMS[x][0], tuple) and (x == sy or var(x) == hd.hv[it]) for x, _ in c[2][1]): found = (it, jt, d, key[2], (found[4] if found else []) + [False]); break
    return found if found and found[1] is not None else ("lossy", lossy) if lossy else None
def narrowed(l, h):
    """is the expression a truncation of h"""
    if l[0] or len(l[1]) != 1: return False
    key = dom.SYMS[l[1][0][0]][0]
    return isinstance(key, tuple) and key[0] in ("trunc", "and") and h in lins(key[1:], [])
def reverses(ctx, st, e, buf):
    """checks of a loop that swaps the bytes of the buffer from both ends; None when it is not such a loop"""
    E = ctx.E; I = loops.info(E, e); sts = loops.steps(E, e); out = []
    up = [it for it, (d, e0) in sts.items() if d == 1]; dn = [it for it, (d, e0) in sts.items() if d == -1]
    if len(up) == 1 and not dn: return halves(ctx, st, e, buf, up[0], sts)
    if len(up) != 1 or len(dn) != 1: return None
    u, d = up[0], dn[0]; st0 = I["st0"]
    out.append((st0.cs.prove_eq0(sts[u][1]), "the digits are not reversed from the first one on"))
    j = sts[d][1]; ln = dom.addc(j, 1)
    out.append((length_of(ctx, st0, ln, buf), "the digits are not reversed up to the last one"))
    for hd, hs0, s, vals in loops.backs(E, e):
        if u not in hd.hv or d not in hd.hv: return None
        a0, b0 = E.load(hs0.copy(), buf, hd.hv[u], I8)[0][1], E.load(hs0.copy(), buf, hd.hv[d], I8)[0][1]
        a1, b1 = E.load(s, buf, hd.hv[u], I8)[0][1], E.load(s, buf, hd.hv[d], I8)[0][1]
        out.append((same(s, a0, b1) and same(s, b0, a1), "two digits are not exchanged when the digits are reversed"))
    for hd, hs0, b in I["heads"]:
        if u in hd.hv and d in hd.hv and st.cs.prove_le(dom.sub(hd.hv[d], hd.hv[u])): out.append((True, "")); break
    else: out.append((False, "the digits are reversed only in part"))
    return out
def halves(ctx, st, e, buf, u, sts):
    """as reverses, for a loop over one half that computes the other position"""
    E = ctx.E; I = loops.info(E, e); out = [(I["st0"].cs.prove_eq0(sts[u][1]), "the digits are not reversed from the first one on")]; ok = None
    for hd, hs0, s, vals in loops.backs(E, e):
        if u not in hd.hv: return None
        for i, (key, lo, hi) in enumerate(dom.SYMS):
            cand = [dom.addc(dom.sub(var(i), hd.hv[u]), -1)]
            if not isinstance(key, tuple) or not length_of(ctx, s, var(i), buf): continue
            a0, b0 = E.load(hs0.copy(), buf, hd.hv[u], I8)[0][1], E.load(hs0.copy(), buf, cand[0], I8)[0][1]
            a1, b1 = E.load(s.copy(), buf, hd.hv[u], I8)[0][1], E.load(s.copy(), buf, cand[0], I8)[0][1]
            if same(s, a0, b1) and same(s, b0, a1): ok = i; break
        if ok is None: return None
    if ok is None: return None
    end = any(u in hd.hv and st.cs.prove_le(dom.addc(dom.sub(var(ok), dom.scale(hd.hv[u], 2)), -1)) for hd, hs0, b in I["heads"])
    return out + [(end, "the digits are reversed only in part")]
def length_of(ctx, st, l, buf):
    if any(st.cs.prove_eq0(dom.sub(l, x)) for x in getattr(ctx, "ends", ())): return True
    if len(l[1]) != 1 or l[0] or l[1][0][1] != 1: return False
    key = dom.SYMS[l[1][0][0]][0]
    p = ("p", buf, const(0)); L = ctx.E.strlen(st, p)
    if L is not None and st.cs.prove_eq0(dom.sub(L, l)): return True
    if isinstance(key, tuple) and key[0] in ("strlen", "strlenb") and key[1] == buf: return True
    return isinstance(key, tuple) and "strnlen" in key[:1] and (not isinstance(key[-1], tuple) or st.cs.prove_le(dom.sub(const(20), key[-1])))
