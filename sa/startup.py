"""Start-up of the logging system: environment choices (L07) and start/stop completeness (L05)."""
from . import api, dom, driver, loops, models
from .api import events
from .dom import const, var
from .values import *
from .ir import Ty
from .interp import NULL
from .os_rules import chk, ev_of
from .containers import eq
I32 = Ty("i", 4, 32); I8 = Ty("i", 1, 8); PTR = Ty("p", 8)
INIT = "rcutils_logging_initialize_with_allocator"
STREAM, COLOR = "g_output_stream", "g_colorized_output"
VARS = {"stream": b"RCUTILS_LOGGING_USE_STDOUT", "buffer": b"RCUTILS_LOGGING_BUFFERED_STREAM", "color": b"RCUTILS_COLORIZED_OUTPUT"}
FORMAT = b"RCUTILS_CONSOLE_OUTPUT_FORMAT"; DEFAULT = b"[{severity}] [{time}] [{name}]: {message}"
CHOICES = (b"", b"0", b"1")

def mk(M, D, name, opts):
    """paths end at the first loop reached (E.stopped): everything before it is seen without loss"""
    E = driver.make(M, D, name, opts)
    E.stopped = []
    def stop(st, fn, frm, h, L): E.stopped.append((st, fn)); return []
    E.do_loop = stop
    return E
def bytes_say(E, st, p, lit):
    for k, ch in enumerate(lit + b"\0"):
        v = E.load(st, p[1], dom.addc(p[2], k), I8)[0][1]
        if v[0] != "i": return None
        d = dom.addc(v[2], -ch)
        if st.cs.prove_eq0(d):
            if ch == 0: return True
            continue
        return False if loops.impossible(st, d) else None
def compared(E, st, p, lit):
    a = models.strid(E, st, p)
    if a[0] == "lit": return a == ("lit", lit)
    for i, m in list(dom.META.items()):
        q = m.get("strcmp") if isinstance(m, dict) else None
        if not isinstance(q, tuple) or q[0] != "strcmp": continue
        if {repr(q[1]), repr(q[2])} != {repr(a), repr(("lit", lit))}: continue
        if st.cs.prove_eq0(var(i)): return True
        if loops.impossible(st, var(i)): return False
    return None
def texteq(E, st, p, lit):
    """is the text at p exactly lit?  True, False, None or "never" when the path contradicts itself"""
    a, b = bytes_say(E, st, p, lit), compared(E, st, p, lit)
    if a is not None and b is not None and a != b: return "never"
    return b if a is None else a
def choice(E, st, v):
    """which of the three values the variable has on this path: "", "0", "1", "other" or None when it was not found out"""
    if v == NULL or fact_(E, st, v) is True: return b""
    t = [texteq(E, st, v, c) for c in CHOICES]
    if "never" in t or t.count(True) > 1: return "never"
    for c, x in zip(CHOICES, t):
        if x is True: return c
    return "other" if all(x is False for x in t) else None
def fact_(E, st, v): return v == NULL or (v[0] == "p" and E.nullness(st, v[1]) is True)
def global_ptr(ctx, st, g): return ctx.E.load_quiet(st, ctx.E.global_region(g), const(0))
def std(ctx, p, which):
    """is p the value of the C library's stream variable"""
    if p is None or p[0] != "p" or not p[1]: return False
    o = ctx.E.R[p[1]].origin
    return bool(o) and ctx.E.R[o[0]].name == which
def seen_env(st):
    return {e.d[0][1]: e.d[1] for e in events(st) if e.k == "getenv" and e.d[0][0] == "lit"}
def choices(ctx):
    """per path that got past the checks: values chosen, state"""
    out = []
    for st, fn in ctx.E.stopped:
        env = seen_env(st)
        out.append((st, {k: choice(ctx.E, st, env[n]) if n in env else "unread" for k, n in VARS.items()}, fn))
    return out
class R0:
    def __init__(s, st): s.st = st; s.ret = None; s.kind = "stop"
def l07(ctx):
    E = ctx.E; colors = {}; seen = set(); n = 0
    for st, ch, fn in choices(ctx):
        r = R0(st); evs = events(st)
        if "never" in ch.values(): continue
        if "unread" in ch.values():
            bad = [k for k in ch if ch[k] == "unread"]
            for k in bad: ctx.inconclusive(k, "not-read")
            continue
        n += 1
        for k, c in ch.items():
            chk(ctx, c in CHOICES, k, "accepted", "a value of %s other than 0, 1 or nothing does not make start-up fail" % VARS[k].decode(), r)
            seen.add((k, c))
        if STREAM in E.M.globals:
            p = global_ptr(ctx, st, STREAM); want = "stdout" if ch["stream"] == b"1" else "stderr"
            if ch["stream"] in CHOICES: chk(ctx, std(ctx, p, want), "stream", "selected", "%s=%s does not select %s" % (VARS["stream"].decode(), ch["stream"].decode(), want), r)
            sv = ev_of(evs, "setvbuf"); b = ch["buffer"]
            if b == b"": chk(ctx, not sv, "buffer", "default", "the buffering of the stream is changed although nothing asks for it", r, sv[0] if sv else None)
            elif b in CHOICES:
                mode = {b"0": 2, b"1": 1}[b]
                if chk(ctx, len(sv) == 1, "buffer", "once", "%s=%s does not set the buffering exactly once" % (VARS["buffer"].decode(), b.decode()), r):
                    a = sv[0].d[0] if isinstance(sv[0].d[0], tuple) and len(sv[0].d) < 3 else sv[0].d
                    chk(ctx, same(st, a[0], p), "buffer", "stream", "the buffering of another stream than the selected one is set", r, sv[0])
                    chk(ctx, a[2][0] == "i" and st.cs.prove_eq0(dom.addc(a[2][2], -mode)), "buffer", "mode", "%s=%s selects another buffering than %s" % (VARS["buffer"].decode(), b.decode(), {2: "none", 1: "per line"}[mode]), r, sv[0])
        else: ctx.inconclusive("stream", "variable")
        if COLOR in E.M.globals:
            v = E.load(st, E.global_region(COLOR), const(0), I32)[0][1]
            c = st.cs.const_of(v[2]) if v[0] == "i" else None
            if ch["color"] in CHOICES: colors.setdefault(ch["color"], set()).add(c); 
        fmt = seen_env(st).get(FORMAT, "unread")
        if fmt == "unread": ctx.inconclusive("format", "not-read")
        else:
            e = True if fact_(E, st, fmt) else texteq(E, st, fmt, b"")
            a = [x for x in st.frames[-1].env.values() if x[0] == "p" and x[1]]
            mine = [x for x in a if same(st, x, fmt)]; dflt = [x for x in a if models.strid(E, st, x) == ("lit", DEFAULT)]
            if e is None: chk(ctx, False, "format", "empty", "whether the output format is empty is not found out", r)
            elif not mine and not dflt: ctx.inconclusive("format", "unknown")
            elif e: chk(ctx, bool(dflt), "format", "default", "an empty output format does not select the default one", r)
            else: chk(ctx, bool(mine) and not dflt, "format", "selected", "the output format asked for is not used", r)
    for r in ctx.final():
        st = r.st; evs = events(st); c = ctx.cval(r); env = seen_env(st)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if c == 0: continue
        ch = {k: choice(E, st, env[x]) if x in env else "unread" for k, x in VARS.items()}
        if "never" in ch.values(): continue
        other = [k for k in ch if ch[k] == "other"]; unsure = [k for k in ch if ch[k] is None]
        if other:
            chk(ctx, c == 11, other[0], "status", "an invalid value of %s is reported as %s" % (VARS[other[0]].decode(), c), r)
            continue
        for k in unsure: chk(ctx, False, k, "rejected", "a value of %s is refused without having been compared with all accepted ones" % VARS[k].decode(), r)
        if unsure: continue
        why = st.flags.get("sysfail") or api.bad_allocator(ctx, st) or any(e.k == "setvbuf" for e in evs) or not env
        chk(ctx, bool(why), "start", "refused", "start-up fails although every variable has an accepted value", r)
    if COLOR in E.M.globals:
        if all(len(x) == 1 and None not in x for x in colors.values()) and set(colors) == set(CHOICES):
            vals = [next(iter(colors[c])) for c in CHOICES]
            ctx.ob(len(set(vals)) == 3)
            if len(set(vals)) < 3: ctx.report("color", "distinct", "two values of %s select the same behaviour" % VARS["color"].decode())
        else: ctx.inconclusive("color", "value " + repr(colors))
    else: ctx.inconclusive("color", "variable")
    if not n: ctx.inconclusive("start", "no-path")
    else:
        for k in VARS:
            for c in CHOICES:
                if (k, c) not in seen: ctx.report(k, "value-%s" % (c.decode() or "empty"), "no path accepts %s=%s" % (VARS[k].decode(), c.decode()))
def colorvals():
    """value of the color setting for each accepted environment value"""
    M, D = driver.load()[:2]
    out = {"fn": INIT, "findings": [], "obs": 0, "ok": 0, "inconclusive": []}
    dom.reset()
    E = mk(M, D, INIT, {"merge": False, "barrier": False}); rs = E.analyze(INIT); ctx = driver.Ctx(E, INIT, rs, out)
    res = {}
    for st, ch, fn in choices(ctx):
        v = E.load(st, E.global_region(COLOR), const(0), I32)[0][1]
        c = st.cs.const_of(v[2]) if v[0] == "i" else None
        if ch["color"] in CHOICES: res.setdefault(ch["color"], set()).add(c)
    return {k: next(iter(v)) for k, v in res.items() if len(v) == 1 and None not in v}
def keys_freed(E, evs):
    return {e.d[0] for e in evs if e.k == "free" and e.d[0]}
def shutdown(ctx):
    """every key the map holds is taken out and released, until the map says it has no more"""
    from . import lifecycle as lc
    E = ctx.E; seen = 0; amap = E.global_region(lc.LOGM)
    def ours(e): return e.d[0][0] == "p" and e.d[0][1] == amap
    for r in ctx.final():
        st = r.st; c = ctx.cval(r); evs = events(st)
        i0 = lc.gini(E, st, lc.LOGF)
        if i0 is None or not lc.yes(st, i0): continue
        if lc.LOGV in E.M.globals:
            v = lc.gini(E, st, lc.LOGV)
            if v is not None and st.cs.prove_eq0(v): continue
            v1 = lc.gint(E, st, lc.LOGV)
            chk(ctx, v1 is not None and st.cs.prove_eq0(v1), "map", "valid", "the map for severities still counts as valid after shutdown", r)
        ls = [e for e in evs if e.k == "loop" and any(x.k in ("hm_next", "hm_unset", "hm_end") for x in loops.inside(E, e))]
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if c != 0: continue
        if not [e for e in evs if e.k == "hm_fini" and ours(e)]:
            chk(ctx, False, "map", "kept", "the map for severities is not finalised", r); continue
        asked = [e for e in evs if e.k in ("hm_next", "hm_end", "getsize") and ours(e)]
        if not asked and not ls:
            chk(ctx, False, "keys", "kept", "the names held by the map are not released before it is finalised", r); continue
        seen += 1
        if not ls:
            if not any(e.k == "hm_end" for e in asked): chk(ctx, False, "keys", "kept", "names may be left in the map when it is finalised", r)
            continue
        for l in ls:
            for hd, hs0, s, vals in loops.backs(E, l):
                d = loops.since(E, s, hs0)
                un = [x for x in d if x.k == "hm_unset" and ours(x)]; fr = [x for x in d if x.k == "free" and x.d[0]]
                if not un and not fr:
                    if not any(x.k == "hm_next" for x in d): continue
                    chk(ctx, False, "keys", "skipped", "a name is passed over", r, l); continue
                for x in un:
                    k = x.d[2]
                    if k[0] != "mem": ctx.inconclusive("keys", "which"); continue
                    n = [y for y in fr if y.d[0] == k[1]]
                    chk(ctx, len(n) == 1, "keys", "released", "a name taken out of the map is released %d times" % len(n), r, x)
                    if n:
                        ok = same(s, n[0].d[1], n[0].d[1]) and d.index(n[0]) > d.index(x)
                        chk(ctx, ok, "keys", "order", "a name is released while the map still holds it", r, x)
                if not un: ctx.inconclusive("keys", "still held")
        # leaves only after the map has said that it is empty
        i = evs.index(ls[-1]); rest = evs[i + 1:]; f = [e for e in rest if e.k == "hm_fini"]
        mid = [e for e in rest[:rest.index(f[0])] if e.k in ("hm_next", "hm_end", "hm_unset")] if f else []
        if mid: done = mid[-1].k == "hm_end"
        else: done = ended(E, st, ls[-1], [e for e in evs[:i] if e.k in ("hm_next", "hm_end")])
        if done is None: ctx.inconclusive("keys", "all")
        else: chk(ctx, done, "keys", "all", "names may be left in the map when it is finalised", r, ls[-1])
    if not seen: ctx.inconclusive("keys", "no-path")
def ended(E, st, l, before):
    """the map has said "no more" when the loop is left at its head"""
    cand = set(); first = True
    for hd, hs0, s, vals in loops.backs(E, l):
        d = [x.k for x in loops.since(E, s, hs0) if x.k in ("hm_next", "hm_end")]
        if not d: continue
        good = {it for it, v in vals.items() if v[0] == "i" and (st.cs.const_of(v[2]) not in (None, 0) if d[-1] == "hm_end" else v[2] == const(0))}
        good |= {it for it, v in vals.items() if v[0] == "b" and False}
        cand = good if first else cand & good; first = False
    if not cand: return None
    I = loops.info(E, l)
    e0 = {it for it in cand if before and I["entry"].get(it, ("?",))[0] == "i" and (I["entry"][it][2] != const(0)) == (before[-1].k == "hm_end")} if before else cand
    if not e0: return None
    for it in e0:
        hv = [hd.hv[it] for hd, hs0, bs in loops.heads(E, l) if it in hd.hv]
        if any(v[1] and loops.impossible(st, v) for v in hv) or hv and all(not v[1] and v[0] for v in hv): return True
        if before and before[-1].k == "hm_end" and st.cs.const_of(I["entry"][it][2]) not in (None, 0): return True
    return False
def started(ctx):
    """start-up that succeeds sets everything up; one that fails leaves nothing"""
    from . import lifecycle as lc
    E = ctx.E; seen = 0; amap = E.global_region(lc.LOGM)
    for r in ctx.final():
        st = r.st; c = ctx.cval(r); evs = events(st)
        i0 = lc.gini(E, st, lc.LOGF)
        if i0 is None or c is None or not st.cs.prove_eq0(i0): continue
        mi = [e for e in evs if e.k == "hm_init" and e.d[0][0] == "p" and e.d[0][1] == amap]
        mf = [e for e in evs if e.k == "hm_fini" and e.d[0][0] == "p" and e.d[0][1] == amap]
        if c != 0:
            chk(ctx, len(mi) <= len(mf), "map", "left", "start-up fails but leaves the map for severities behind", r)
            if lc.LOGV in E.M.globals:
                v = lc.gint(E, st, lc.LOGV); chk(ctx, v is not None and st.cs.prove_eq0(v) or not mi and same(st, ("i", 8, v), ("i", 8, lc.gini(E, st, lc.LOGV))), "map", "left", "start-up fails but the map for severities counts as valid", r)
            continue
        seen += 1
        if chk(ctx, len(mi) == 1 and not mf, "map", "made", "start-up succeeds without setting up one map for severities", r):
            e = mi[0]
            chk(ctx, eq(st, e.d[1][2], const(8)) and eq(st, e.d[2][2], const(4)), "map", "sizes", "the map for severities is not made for names and levels", r, e)
            for i, w in ((3, "rcutils_hash_map_string_hash_func"), (4, "rcutils_hash_map_string_cmp_func")):
                if len(e.d) > i: 
                    f = e.d[i]
                    if f[0] == "fn" and "hash_map_string" in f[1]: chk(ctx, f[1] == w, "map", "functions", "the map for severities does not compare names by their text", r, e)
        if lc.LOGV in E.M.globals:
            v = lc.gint(E, st, lc.LOGV); chk(ctx, v is not None and lc.yes(st, v), "map", "valid", "start-up succeeds but the map for severities does not count as valid", r)
        h = E.load_quiet(st, E.global_region("g_rcutils_logging_output_handler"), const(0)) if "g_rcutils_logging_output_handler" in E.M.globals else None
        if h is not None: chk(ctx, h[0] == "fn" and h[1] == "rcutils_logging_console_output_handler", "handler", "default", "start-up does not select the console output handler", r)
        lv = lc.gint(E, st, "g_rcutils_logging_default_logger_level", 32) if "g_rcutils_logging_default_logger_level" in E.M.globals else None
        if lv is not None: chk(ctx, st.cs.prove_eq0(dom.addc(lv, -20)), "level", "default", "start-up does not set the default level INFO", r)
    if not seen: ctx.inconclusive("start", "no-path")
def keyowner(ctx):
    """names put into the severity map are owned copies, names taken out are released"""
    from . import lifecycle as lc
    E = ctx.E; amap = E.global_region(lc.LOGM); ids = set(); seen = 0
    for r in ctx.final():
        st = r.st; evs = events(st)
        for e in evs:
            if e.k == "hm_set" and e.d[0][0] == "p" and e.d[0][1] == amap and e.d[4] is not True:
                seen += 1; k = e.d[1]
                if k[0] != "p" or not k[1]: ctx.inconclusive("keys", "which"); continue
                al = [x for x in evs if x.k in ("alloc", "realloc") and k[1] in x.d[:2]]
                chk(ctx, E.R[k[1]].kind == "heap" and bool(al), "keys", "owned", "a name put into the map for severities is not a copy owned by it", r, e)
                c = ctx.cval(r)
                if c == 0: chk(ctx, not [x for x in evs if x.k == "free" and x.d[0] == k[1]], "keys", "kept", "a name is released although the map for severities still holds it", r, e)
        for l in evs:
            if l.k != "loop" or id(l) in ids: continue
            ids.add(id(l))
            for hd, hs0, s, vals in loops.backs(E, l):
                d = loops.since(E, s, hs0)
                for x in d:
                    if x.k != "hm_unset" or x.d[0][1] != amap: continue
                    if x.d[2][0] != "mem": ctx.inconclusive("keys", "which"); continue
                    n = [y for y in d if y.k == "free" and y.d[0] == x.d[2][1]]
                    chk(ctx, len(n) == 1, "keys", "released", "a name taken out of the map is released %d times" % len(n), r, x)
                    if n: chk(ctx, d.index(n[0]) > d.index(x), "keys", "order", "a name is released while the map still holds it", r, x)
    if not seen and "set" in ctx.name: ctx.inconclusive("keys", "no-path")
L05 = {"rcutils_logging_shutdown": shutdown, INIT: started, "rcutils_logging_set_logger_level": keyowner, "rcutils_logging_get_logger_effective_level": keyowner}
def l05(ctx):
    from . import lifecycle as lc
    if ctx.name in lc.LOGS: lc.logging(ctx)
    L05[ctx.name](ctx)
