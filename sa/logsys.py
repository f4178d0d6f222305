"""The logging system's own operations (L03 levels, L06 delivery), on path summaries with its entry points modelled as events."""
from . import api, dom, driver, loops, models, contracts
from .api import events
from .dom import const, var, sym
from .values import *
from .ir import Ty
from .interp import NULL
from .os_rules import chk, ev_of
from .containers import eq
I32 = Ty("i", 4, 32); PTR = Ty("p", 8)
DEF, HND, MAP, VALID, FLAG = "g_rcutils_logging_default_logger_level", "g_rcutils_logging_output_handler", "g_rcutils_logging_severities_map", "g_rcutils_logging_severities_map_valid", "g_rcutils_logging_initialized"
LEVELS = (0, 10, 20, 30, 40, 50)

def m_init(E, st, a, ins):
    """start-up: a first start sets the handler and the default level"""
    E.event(st, "loginit", (), ins)
    if not st.flags.get("loginit"):
        st.flags["loginit"] = True
        for g, T in ((DEF, I32), (HND, PTR)):
            if g not in E.M.globals: continue
            rid = E.global_region(g)
            if T.k == "i": v = ("i", 32, var(sym(("started", g), -(1 << 31), (1 << 31) - 1)))
            else: v = ("p", E.region(("started", g), "ext", "started handler", None, None, None, {}), const(0))
            E.store(st, rid, const(0), v, T.sz if hasattr(T, "sz") else 4 if T.k == "i" else 8)
    return [(st, ("i", 32, const(0)))]
def m_enabled(E, st, a, ins):
    t = sym(("enabled", len(events(st))), 0, 1); E.event(st, "enabled", (tuple(a), t), ins)
    return [(st, ("b", ("nz", var(t))) if ins.ty.w == 1 else ("i", ins.ty.w, var(t)))]
def m_level(E, st, a, ins):
    t = sym(("efflevel", len(events(st))), -(1 << 31), (1 << 31) - 1); E.event(st, "efflevel", (tuple(a), t), ins)
    return [(st, ("i", 32, var(t)))]
def mk(M, D, name, opts):
    E = driver.make(M, D, name, opts)
    md = dict(E.models); E.opts["tables"] = True
    for x in ("rcutils_log", "rcutils_log_internal"): md.pop(x, None)
    md["rcutils_logging_initialize"] = md["rcutils_logging_initialize_with_allocator"] = m_init
    md["rcutils_logging_logger_is_enabled_for"] = m_enabled
    if name == "rcutils_logging_logger_is_enabled_for":
        md["rcutils_logging_get_logger_effective_level"] = m_level
    E.models = md
    return E
def gval(ctx, st, g, T=I32):
    """value of a global variable at return"""
    return ctx.E.load(st, ctx.E.global_region(g), const(0), T)[0][1]
def level(ctx, st):
    v = gval(ctx, st, DEF); return v[2] if v[0] == "i" else None

# ------------------------------------------------------------------ L06
def now(e):
    """the clock value of an event as nanoseconds"""
    return dom.add(dom.scale(var(e.d[1]), 10**9), var(e.d[2]))
def delivered(ctx, r, gated):
    E = ctx.E; st = r.st; evs = events(st)
    loc, sev, name, fmt = (param(ctx, i) for i in range(4))
    en = ev_of(evs, "enabled"); calls = [e for e in evs if e.k == "icall"]; clocks = [e for e in ev_of(evs, "clock") if e.d[0] == ("i", 32, const(0)) or e.d[0] == 0 or e.d[0] == const(0)]      # the system clock
    if gated:
        if not chk(ctx, len(en) == 1, "enabled", "asked", "whether the logger is enabled is not decided exactly once per message", r): return
        a = en[0].d[0]
        chk(ctx, same(st, a[0], name) and same(st, a[1], sev), "enabled", "arguments", "another logger or severity than the message's own is tested", r, en[0])
        if st.cs.prove_eq0(var(en[0].d[1])):
            chk(ctx, not calls, "delivered", "disabled", "a message that is not enabled reaches the handler", r, calls[0] if calls else None); return
        if not chk(ctx, loops.impossible(st, var(en[0].d[1])), "enabled", "ignored", "the message is handled before or without regard to whether it is enabled", r): return
        k = evs.index(en[0])
        chk(ctx, all(evs.index(e) > k for e in calls), "enabled", "order", "the handler is called before the message is known to be enabled", r)
    hr = E.global_region(HND); h = gval(ctx, st, HND, PTR)
    if fact(ctx, st, h) is True:
        chk(ctx, not calls, "handler", "none", "a call is made although no handler is installed", r, calls[0] if calls else None); return
    good = [e for e in clocks if e.d[1] is not None]
    if clocks and not calls and all(e.d[1] is None or st.cs.prove_le(dom.addc(var(e.d[1]), 1)) or st.cs.prove_le(dom.addc(var(e.d[2]), 1)) for e in clocks):
        ctx.ob(True); return      # no usable clock: the message cannot be stamped
    if not chk(ctx, len(calls) == 1, "handler", "once", "the installed handler is called %d times for one message" % len(calls), r): return
    e = calls[0]; a = e.d[1]
    chk(ctx, h[0] == "p" and h[1] == e.d[0], "handler", "installed", "the function called is not the installed handler", r, e)
    if not chk(ctx, len(a) == 6, "handler", "signature", "the handler does not get six arguments", r, e): return
    chk(ctx, same(st, a[0], loc), "handler", "location", "the handler gets another location", r, e)
    chk(ctx, same(st, a[1], sev), "handler", "severity", "the handler gets another severity", r, e)
    nn = fact(ctx, st, name)
    ok = same(st, a[2], name) if nn is False else text(ctx, st, a[2]) == b"" if nn is True else False
    if not ok and nn is None: ok = same(st, a[2], name)      # handed on without looking
    chk(ctx, ok and (nn is not None), "handler", "name", "the handler does not get the logger's name (empty without a name)", r, e)
    ok = a[3][0] == "i" and any(st.cs.prove_eq0(dom.sub(a[3][2], now(c))) for c in good)
    chk(ctx, ok, "handler", "timestamp", "the timestamp given to the handler is not the current time in nanoseconds", r, e)
    chk(ctx, same(st, a[4], fmt), "handler", "format", "the handler gets another format", r, e)
    opened = [x.d[0] for x in evs[:evs.index(e)] if x.k == "va_start"]
    ended = [x.d[0] for x in evs[:evs.index(e)] if x.k == "va_end"]
    chk(ctx, a[5] in opened and a[5] not in ended, "handler", "arguments", "the handler does not get the message's started argument list", r, e)
def va(ctx):
    """argument lists started or copied here are ended exactly once and consumed at most once in between"""
    n = 0
    for r in ctx.rs:
        st = r.st
        for e in events(st):
            if e.k in ("va_start", "va_copy"): n += 1; ctx.ob(True)
            if e.k == "viol" and str(e.d[0]).startswith("va-"): chk(ctx, False, "va-list", e.d[0], "argument list misuse: %s" % e.d[0][3:].replace("-", " "), r, e)
        if r.kind != "ret": continue
        left = {}
        for e in events(st):
            if e.k == "va_start": left[e.d[0]] = e
            elif e.k == "va_copy": left[e.d[0]] = e
            elif e.k == "va_end": left.pop(e.d[0], None)
        chk(ctx, not left, "va-list", "not-ended", "an argument list is started or copied but not ended", r, list(left.values())[0] if left else None)
def l06(ctx):
    n = ctx.name
    if n in ("rcutils_log", "rcutils_log_internal"):
        for r in ctx.final(): delivered(ctx, r, n == "rcutils_log")
        if not any(e.k == "icall" for r in ctx.final() for e in events(r.st)): ctx.report("handler", "never", "no path calls the handler")
        va(ctx)
    elif n == "rcutils_logging_set_output_handler":
        for r in ctx.final():
            chk(ctx, same(r.st, gval(ctx, r.st, HND, PTR), param(ctx, 0)), "handler", "stored", "the handler given is not the installed one afterwards", r)
    elif n == "rcutils_logging_get_output_handler":
        for r in ctx.final():
            chk(ctx, r.ret is not None and same(r.st, gval(ctx, r.st, HND, PTR), r.ret), "handler", "returned", "the handler returned is not the installed one", r)
    else: va(ctx)

# ------------------------------------------------------------------ L03
def masked(ctx, st, v, kid=None):
    """is v the stored value of some looked-up key without its mark bit?  returns the key identities"""
    out = []
    if v is None: return out
    for i, m in list(dom.META.items()):
        if not isinstance(m, dict) or "hmval" not in m: continue
        if kid is not None and m["hmval"] != kid: continue
        ok = True
        for x in (0, 1, 10, 11, 50, 51, 21):
            if not takes(st, v, {i: x}, x & ~1): ok = False; break
        if ok and mentions(v, i): out.append(m["hmval"])
    return out
def mentions(l, i, depth=4):
    for s, k in l[1]:
        if s == i: return True
        if depth and any(mentions(x, i, depth - 1) for x in lins(dom.SYMS[s][0][1:] if isinstance(dom.SYMS[s][0], tuple) else (), [])): return True
    return False
def takes(st, l, env, want):
    """under the given symbol values the expression is `want`, if that is possible on this path at all"""
    env = dict(env); ok, exact = consistent(st, env)
    if not ok: return True
    x = ev(l, env)
    return x is not None and (x - want) % (1 << 32) == 0

def gone(st, cell, key):
    return False
def prefixes(E, st, evs, name):
    """texts built from the first bytes of name: region -> list of (length, event index)"""
    out = {}
    src = {}
    for n, e in enumerate(evs):
        if e.k == "memcpy" and e.d[0][0] == "p" and e.d[1][0] == "p" and same(st, e.d[1], name) and e.d[0][2] == const(0): src[e.d[0][1]] = e.d[2]
        elif e.k == "store" and isinstance(e.d[3], tuple) and e.d[3][:1] == ("copyof",) and same(st, e.d[3][1], name) and e.d[1] == const(0): src[e.d[0]] = e.d[2] if isinstance(e.d[2], tuple) else const(e.d[2])
        elif e.k == "store" and e.d[2] == 1 and isinstance(e.d[3], tuple) and e.d[3][0] == "i" and e.d[3][2] == const(0):
            out.setdefault(e.d[0], []).append((e.d[1], n))
    return src, {k: v for k, v in out.items() if k in src}
def seps(E, evs, name, L):
    """searches for the last separator before L: event -> position found (None: there is none)"""
    return [(n, e) for n, e in enumerate(evs) if e.k in ("found", "notfound")]
def effective(ctx):
    E = ctx.E; oks = 0; name = param(ctx, 0)
    for r in ctx.final():
        st = r.st; evs = events(st); v = ctx.ret_int(r)
        if v is None: ctx.inconclusive("ret", "unknown"); continue
        if null(ctx, st, 0): chk(ctx, eq(st, v, const(-1)), "null", "name", "a null name does not give -1", r); continue
        if eq(st, v, const(-1)): 
            m = gval(ctx, st, MAP, PTR)
            chk(ctx, bool(st.flags.get("allocfail")) or fact(ctx, st, m) is True or api.bad_allocator(ctx, st) or badglobal(ctx, st), "error", "valid", "the level of a logger cannot be determined although nothing failed", r); continue
        dl = level(ctx, st); sizes = [i for i, (k, lo, hi) in enumerate(dom.SYMS) if isinstance(k, tuple) and k[0] == "hmsize"]
        look = ev_of(evs, "hm_lookup"); lp = [e for e in evs if e.k == "loop"]
        fromdef = eq(st, v, dl)
        if fromdef and any(st.cs.prove_eq0(var(i)) for i in sizes): ctx.ob(True); oks += 1; continue
        if not look: ctx.inconclusive("level", "no-lookup") if lp else chk(ctx, False, "level", "not-looked-up", "a level is given without looking up the name", r); continue
        k0 = look[0].d[1]
        whole = k0[0] == "mem" and same(st, ("p",) + tuple(k0[1:3]), name) or copyofname(ctx, st, evs, k0, name)
        if not chk(ctx, whole, "exact", "first", "the first name looked up is not the logger's own", r, look[0]): continue
        keys = masked(ctx, st, v)
        if k0 in keys and len(look) == 1:
            oks += 1
            chk(ctx, loops.impossible(st, v), "unset", "own", "an unset level of the logger itself is given as its effective level", r); continue
        # the own entry must be missing or unset by now
        if not chk(ctx, look[0].d[2] is False or unsetval(ctx, st, k0), "exact", "skipped", "the logger's own level is set but not used", r, look[0]): continue
        walk(ctx, r, st, evs, v, fromdef, keys, look, name)
        oks += 1
    if not oks: ctx.report("success", "never", "no path gives a level")
def badglobal(ctx, st):
    g = "g_rcutils_logging_allocator"
    if g not in ctx.E.M.globals: return False
    rid = ctx.E.global_region(g)
    for o in (0, 8, 16, 24):
        p = ctx.E.initial(st, rid, const(o), PTR)
        if p == NULL or p[0] == "p" and ctx.E.nullness(st, p[1]) is True: return True
    return False
def copyofname(ctx, st, evs, kid, name): 
    if kid[0] not in ("mem", "memv"): return False
    src, z = prefixes(ctx.E, st, evs, name); L = ctx.E.strlen(st, name)
    return kid[1] in src and L is not None and any(eq(st, o, L) for o, n in z.get(kid[1], [])) and kid[2] == const(0)
def unsetval(ctx, st, kid):
    """the value found for this key is zero but for the mark"""
    for i, m in list(dom.META.items()):
        if not isinstance(m, dict) or m.get("hmval") != kid: continue
        for x in (10, 20, 30, 40, 50, 11, 21, 51):
            ok, exact = consistent(st, {i: x})
            if ok: break
        else: return True
    return False
def strlen_is(ctx, st, L, name):
    n = ctx.E.strlen(st, name)
    return n is not None and eq(st, L, n)
def walk(ctx, r, st, evs, v, fromdef, keys, look, name):
    """ancestors: every iteration cuts the name at the last separator before the previous cut, and goes on only if that name is missing or unset"""
    E = ctx.E; lps = [(n, e) for n, e in enumerate(evs) if e.k == "loop"]
    good = None
    for n, l in lps:
        B = list(loops.backs(E, l))
        if not any(x.k == "hm_lookup" for hd, hs0, s, vals in B for x in loops.since(E, s, hs0)): continue
        its = None
        for hd, hs0, s, vals in B:
            d = loops.since(E, s, hs0); fs = [x for x in d if x.k == "found"]; lk = [x for x in d if x.k == "hm_lookup"]
            # which loop item is cut: its head value limits the search, its next value is the place found
            c = {it for it, h in hd.hv.items() for x in fs if cut(x, name, h) and vals.get(it) and vals[it][0] == "i" and (eq(s, vals[it][2], x.d[4]) or any(y.d[1][0] in ("mem", "memv") and eq(s, vals[it][2], E.strlen(s, ("p",) + tuple(y.d[1][1:3]))) for y in lk))}
            its = c if its is None else its & c
            last = fs[-1] if fs else None
            for x in lk:
                ok = last is not None and prefix_key(ctx, s, evs[:n], d, x.d[1], name, last.d[4])
                if ok is None: ctx.inconclusive("walk", "key"); continue
                chk(ctx, ok, "walk", "key", "the name looked up is not the logger's name cut at the separator found", r, x)
                chk(ctx, x.d[2] is False or unsetval(ctx, s, x.d[1]), "walk", "passed", "an ancestor with a level set is passed over", r, x)
            if not lk: chk(ctx, any(st_.k == "hm_get" for st_ in d), "walk", "no-lookup", "an ancestor is passed over without being looked up", r)
        if its is None: continue
        if not its: chk(ctx, False, "walk", "chain", "the walk does not go from each name to the one cut at its last separator", r, l); return
        for hd, hs0, bs in loops.heads(E, l):
            for it in its:
                e0 = start(E, l, it)
                if e0 is None: continue
                if strlen_is(ctx, st, e0, name): good = (n, l, it)
    if good is None:
        if fromdef and not lps:
            nf = [x for x in evs if x.k == "notfound"]
            L = E.strlen(st, name)
            ok = any(x.d[0] == name and eq(st, x.d[1], L) or x.d[0] == name and whole(x) for x in nf) and keyval(nf, 46)
            if ok: ctx.ob(True); return
        ctx.inconclusive("walk", "loop"); return
    n, l, it = good; tail = evs[n + 1:]
    H = [hd.hv[it] for hd, hs0, bs in loops.heads(E, l) if it in hd.hv]
    fs = [x for x in tail if x.k == "found"]; nf = [x for x in tail if x.k == "notfound"]; lk = [x for x in tail if x.k == "hm_lookup"]
    if fromdef and not keys:
        ok = any(cut(x, name, h, False) for x in nf for h in H) and not any(x.d[2] for x in lk) or any(st.cs.prove_eq0(h) for h in H)
        chk(ctx, ok, "walk", "given-up", "the default level is used although an ancestor is left to look at", r); return
    if not keys:
        chk(ctx, False, "level", "unknown", "the level given is neither a stored one nor the default", r); return
    okx = [x for x in fs if any(cut(x, name, h) for h in H)]
    got = [x for x in lk if x.d[1] in keys and x.d[2]]
    if not chk(ctx, bool(okx) and bool(got), "level", "other", "the level given is not that of the next ancestor looked up", r): return
    y = prefix_key(ctx, st, evs[:n], tail, got[-1].d[1], name, okx[-1].d[4])
    if y is None: ctx.inconclusive("walk", "key")
    else: chk(ctx, y, "walk", "key", "the name looked up is not the logger's name cut at the separator found", r, got[-1])
    chk(ctx, loops.impossible(st, v), "unset", "ancestor", "an unset level of an ancestor is given as the effective level", r)
def start(E, l, it):
    """value of a loop item at entry"""
    v = E.loopinfo[l.d[2]][3]["entry"].get(it)
    return v[2] if v and v[0] == "i" else None
def cut(x, name, h, hit=True):
    """search for the last '.' among the first h characters of name"""
    d = x.d
    return d[0] == name and d[1] == h and d[2] == ("i", 32, const(46)) and d[3] is True
def whole(x): return x.d[1] == const((1 << 64) - 1)
def keyval(nf, c): return all(x.d[2] == ("i", 32, const(c)) for x in nf)
def prefix_key(ctx, st, before, d, kid, name, at):
    """is the key the text of name cut at `at`?  None: not understood"""
    E = ctx.E
    if kid[0] not in ("mem", "memv") or kid[2] != const(0): return False if kid[0] == "lit" else None
    src, z = prefixes(E, st, before + d, name)
    if kid[1] not in src: return None
    zs = z.get(kid[1], [])
    inside = [o for o, n in zs if n >= len(before)]
    return bool(inside) and eq(st, inside[-1], at)

def stored(ctx):
    """level of one logger as set: own entry only"""
    n = ctx.name; ln = n.endswith("leveln"); name = param(ctx, 0); E = ctx.E; oks = 0
    for r in ctx.final():
        st = r.st; evs = events(st); v = ctx.ret_int(r)
        if v is None: ctx.inconclusive("ret", "unknown"); continue
        if null(ctx, st, 0): chk(ctx, eq(st, v, const(-1)), "null", "name", "a null name does not give -1", r); continue
        L = param(ctx, 1)[2] if ln else E.strlen(st, name)
        if st.cs.prove_eq0(L): chk(ctx, eq(st, v, level(ctx, st)), "root", "level", "the empty name does not give the default level", r); continue
        if eq(st, v, const(-1)): chk(ctx, bool(st.flags.get("allocfail")) or badglobal(ctx, st) or api.bad_allocator(ctx, st), "error", "valid", "the level cannot be determined although nothing failed", r); continue
        look = ev_of(evs, "hm_lookup"); keys = masked(ctx, st, v)
        if not look:
            g = gval(ctx, st, VALID, Ty("i", 1, 8)); inv = g[0] == "i" and st.cs.prove_eq0(g[2]); m = gval(ctx, st, MAP, PTR)
            chk(ctx, eq(st, v, const(0)) and (inv or fact(ctx, st, m) is True), "level", "no-lookup", "a level is given without looking up the name", r); continue
        k = look[-1].d[1]; src, z = prefixes(E, st, evs, name)
        own = k[0] == "mem" and same(st, ("p",) + tuple(k[1:3]), name)
        ok = own and (not ln or any(x.k == "found" and x.d[0] == name and x.d[2] == ("i", 32, const(0)) and eq(st, x.d[1], L) for x in evs)) or own and ln and E.strlen(st, name) is not None and st.cs.prove_le(dom.sub(E.strlen(st, name), L)) or k[0] in ("mem", "memv") and k[1] in src and any(eq(st, o, L) or at_end(ctx, st, o, L, name) for o, q in z.get(k[1], [])[-1:])
        if not ok and not own and k[0] in ("mem", "memv") and k[1] not in src: ctx.inconclusive("key", "unknown"); continue
        if not ok and madeup(ctx, st, k): ctx.inconclusive("key", "made"); continue
        if not chk(ctx, ok, "key", "other", "the name looked up is not the given one", r, look[-1]): continue
        oks += 1
        if look[-1].d[2]: chk(ctx, k in keys, "level", "found", "the stored level is not what is returned", r)
        else: chk(ctx, eq(st, v, const(0)), "level", "missing", "a logger without a level does not give UNSET", r)
    if not oks and not any("|key|" in i for i in ctx.out["inconclusive"]): ctx.report("success", "never", "no path looks up a level")
def madeup(ctx, st, k):
    """the text is one put together here piece by piece, or an empty one"""
    if k[0] not in ("mem", "memv") or ctx.E.R[k[1]].kind != "heap": return False
    lg = ctx.E.log(st, k[1])
    return any(e[0] == "hv" for e in lg) or any(e[0] == "cell" for e in lg) and not any(e[0] in ("copy", "str") for e in lg)
def at_end(ctx, st, o, L, name):
    """o is the shorter of the requested length and the text's end"""
    for i, (k, lo, hi) in enumerate(dom.SYMS):
        if isinstance(k, tuple) and k[0] == "strnlen" and k[1] == name[1] and eq(st, o, var(i)) and eq(st, k[-1] if isinstance(k[-1], tuple) else None, L): return True
    n = ctx.E.strlen(st, name)
    return n is not None and eq(st, o, n) and st.cs.prove_le(dom.sub(n, L))
def setlevel(ctx):
    E = ctx.E; name = param(ctx, 0); lv = param(ctx, 1)[2]; oks = 0
    S = lv[1][0][0] if lv[1] else None
    memo = {}
    for r in ctx.final():
        st = r.st; evs = events(st); c = ctx.cval(r); sets = ev_of(evs, "hm_set")
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        if null(ctx, st, 0): chk(ctx, c != 0, "accepts", "null", "a null name is accepted", r); continue
        possible = [x for x in list(range(-2, 60)) + [-(1 << 31), 1000, (1 << 31) - 1] if possible_with(ctx, st, S, x)]
        ds = [x for x in evs if x.k == "store" and x.d[0] == E.global_region(DEF)]
        if c == 0:
            oks += 1
            chk(ctx, all(x in LEVELS for x in possible), "accepts", "level", "the invalid level %s is accepted" % next((x for x in possible if x not in LEVELS), ""), r)
            if not chk(ctx, len(sets) == 1, "stored", "once", "the level is not stored exactly once", r): continue
            k, v = sets[0].d[2], sets[0].d[3]
            own = k[0] in ("mem", "memv") and same(st, ("p",) + tuple(k[1:3]), name) or copyofname(ctx, st, evs, k, name)
            if not own and madeup(ctx, st, k): ctx.inconclusive("stored", "made"); continue
            chk(ctx, own, "stored", "name", "the level is stored under another name", r, sets[0])
            chk(ctx, v[0] == "i" and all(takes(st, v[2], {S: x}, x | 1) for x in LEVELS), "stored", "level", "the level stored is not the given one marked as set by the user", r, sets[0])
            L = E.strlen(st, name); dl = level(ctx, st)
            root = st.cs.prove_eq0(L) or empty(ctx, st, name)
            if root: chk(ctx, eq(st, dl, lv), "default", "root", "setting the level of the empty name does not set the default level", r)
            else: chk(ctx, not ds, "default", "changed", "setting a logger's level changes the default level", r, ds[0] if ds else None)
        else:
            chk(ctx, not sets or c != 11, "stored", "rejected", "a rejected level is stored", r)
            if c == 11: chk(ctx, not any(x in LEVELS for x in possible), "rejects", "level", "the valid level %s is rejected" % next((x for x in possible if x in LEVELS), ""), r); chk(ctx, not ds, "default", "rejected", "a rejected level becomes the default level", r)
        for s, x, d, hd in removed(E, st, evs):
            k = x.d[1]
            if k[0] != "p" or not E.R[k[1]].info.get("mapkey"): ctx.inconclusive("removed", "key"); continue
            ok = memo.get((id(s), id(x))) if hd is not None else None
            if ok is None: ok = memo[id(s), id(x)] = matches(ctx, s, k, name) or cached(s, hd)
            chk(ctx, ok, "removed", "other", "the level set for another logger is removed", r, x)
    if not oks: ctx.report("success", "never", "no path stores a level")
def possible_with(ctx, st, S, x):
    """is the path possible when symbol S is x, entries of constant tables considered"""
    if not consistent(st, {S: x})[0]: return False
    E = ctx.E
    for i, r in list(E.R.items()):
        if r.kind != "sym" or not r.origin or E.R[r.origin[0]].kind not in ("const", "global"): continue
        nn = E.nullness(st, i)
        if nn is None or not any(s == S for s, k in r.origin[1][1]): continue
        o = ev(r.origin[1], {S: x}); g = E.R[r.origin[0]].info.get("g")
        if o is None or g is None or not g.init or g.init[0] != "agg" or o % 8: continue
        el = g.init[1]
        if not 0 <= o // 8 < len(el): continue
        if (el[o // 8][0] in ("null", "zero")) != nn: return False
    return True
def empty(ctx, st, name):
    v = ctx.E.load(st, name[1], name[2], Ty("i", 1, 8))[0][1]
    return v[0] == "i" and st.cs.prove_eq0(v[2])
def removed(E, st, evs):
    for l in evs:
        if l.k == "hm_unset": yield st, l, evs, None
        if l.k == "loop":
            for hd, hs0, s, vals in loops.backs(E, l):
                d = loops.since(E, s, hs0)
                for x in d:
                    if x.k == "hm_unset": yield s, x, d, hd
def cached(st, hd):
    """the stored value this iteration began with carries no user mark"""
    if hd is None: return False
    for it, h in hd.hv.items():
        if len(h[1]) != 1 or h[1][0][1] != 1 or h[0]: continue
        S = h[1][0][0]
        if any(consistent(st, {S: x | 1})[0] for x in LEVELS): continue
        if len({consistent(st, {S: x})[0] for x in (0, 20, 50)}) == 1: return True      # unmarked, or no level at all
    return False
def matches(ctx, st, k, name):
    """the key's text was found equal to the name"""
    E = ctx.E; L = E.strlen(st, name)
    if st.cs.prove_eq0(L) and ends(ctx, st, k, L): return True
    for i, m in list(dom.META.items()):
        q = m.get("strcmp") if isinstance(m, dict) else None
        if not isinstance(q, tuple) or not st.cs.prove_eq0(var(i)): continue
        a = {q[1][1], q[2][1]} if len(q) > 2 and q[1][0] in ("mem", "memv") and q[2][0] in ("mem", "memv") else set()
        if a != {k[1], name[1]}: continue
        if q[0] == "strcmp": return True
        if ends(ctx, st, k, L): return True
    return False
def ends(ctx, st, k, L):
    E = ctx.E; c = E.load(st, k[1], dom.add(k[2], L), Ty("i", 1, 8))[0][1]
    if c[0] == "i" and st.cs.prove_eq0(c[2]): return True
    n = E.strlen(st, ("p", k[1], const(0)))
    return n is not None and eq(st, n, L)
def enabled(ctx):
    for r in ctx.final():
        st = r.st; evs = events(st); v = ctx.ret_int(r); sev = param(ctx, 1)[2]
        c = None if v is None else st.cs.const_of(v)
        if c is None: ctx.inconclusive("ret", "unknown"); continue
        ef = ev_of(evs, "efflevel")
        if fact(ctx, st, param(ctx, 0)) is True:
            t = level(ctx, st); lvl = None
        else:
            if not chk(ctx, len(ef) == 1 and same(st, ef[0].d[0][0], param(ctx, 0)), "level", "asked", "the effective level of the named logger is not what decides", r): continue
            t = var(ef[0].d[1])
            if c == 0 and eq(st, t, const(-1)): ctx.ob(True); continue
            if c: chk(ctx, loops.impossible(st, dom.addc(t, 1)), "level", "error", "a message is enabled although the level is unknown", r)
        if t is None: ctx.inconclusive("level", "unknown"); continue
        ok = st.cs.prove_le(dom.sub(t, sev)) if c else st.cs.prove_le(dom.addc(dom.sub(sev, t), 1))
        chk(ctx, ok, "enabled" if c else "disabled", "compare", "a message is %s although its severity is %s the level" % (("enabled", "below") if c else ("not enabled", "at least")), r)
def default(ctx):
    for r in ctx.final():
        st = r.st
        if ctx.name.endswith("get_default_logger_level"):
            chk(ctx, eq(st, ctx.ret_int(r), level(ctx, st)), "default", "returned", "the default level returned is not the current one", r)
        else:
            lv = param(ctx, 0)[2]; d = level(ctx, st)
            if st.cs.prove_eq0(lv): chk(ctx, eq(st, d, const(20)), "default", "restored", "UNSET does not restore the documented default level", r)
            else: chk(ctx, eq(st, d, lv) or not loops.impossible(st, lv) and False, "default", "stored", "the default level given is not the current one afterwards", r)
L03 = {"rcutils_logging_get_logger_effective_level": effective, "rcutils_logging_get_logger_level": stored, "rcutils_logging_get_logger_leveln": stored, "rcutils_logging_set_logger_level": setlevel,
       "rcutils_logging_logger_is_enabled_for": enabled, "rcutils_logging_get_default_logger_level": default, "rcutils_logging_set_default_logger_level": default}
def l03(ctx): L03[ctx.name](ctx)
def variadic(M):
    """public functions that start or copy an argument list, themselves or in a static helper they call"""
    mine = ("rcutils_log", "rcutils_log_internal"); out = []
    def calls(f):
        for b in M.funcs[f].blocks:
            for i in b.ins:
                if i.op == "call" and i.x[0] == "f": yield i.x[1]
    for n in driver.public(M):
        if n in mine: continue
        seen = set(); work = [n]; hit = False
        while work and not hit:
            f = work.pop()
            if f in seen: continue
            seen.add(f)
            for c in calls(f):
                if c.startswith(("llvm.va_start", "llvm.va_copy")): hit = True
                elif c in M.funcs and M.funcs[c].linkage != 0: work.append(c)
        if hit: out.append(n)
    return out
