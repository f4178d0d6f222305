"""O08: the text of paths built from several parts (rcutils_join_path, rcutils_expand_user)."""
from . import api, dom, driver, loops
from .api import events
from .dom import const, var
from .os_rules import chk
from .strings import failure, fresh, looped, le, eq, lin
from .values import param, fact, same, text

def arguments(ctx, evs, e):
    """the variadic arguments of a formatting event, None if they cannot be found"""
    a = e.d[5]
    if isinstance(a, tuple) and a and isinstance(a[0], tuple): return list(a)
    if a == (): return []
    if isinstance(a, tuple) and a and a[0] == "va" and isinstance(a[1], tuple) and a[1][0] == "start":
        call = [x for x in evs[:evs.index(e)] if x.k == "enter" and x.d[0] == a[1][1]]
        if not call: return None
        args = list(call[-1].d[1])
        at = [i for i, v in enumerate(args) if v[0] == "p" and e.d[3] is not None and v[1] == e.d[3][1] and e.d[3][1] != 0]
        return args[at[-1] + 1:] if len(at) == 1 else None
    return None
def pieces(ctx, st, evs, e):
    """the parts a formatting event puts together: ("lit", bytes) or ("str", pointer, precision); None if not of this kind"""
    f = e.d[4]
    if f is None: return None
    args = arguments(ctx, evs, e)
    if args is None: return None
    out = []; i = k = 0
    def put(b):
        if out and out[-1][0] == "lit": out[-1] = ("lit", out[-1][1] + b)
        elif b: out.append(("lit", b))
    while i < len(f):
        c = f[i:i + 1]
        if c != b"%": put(c); i += 1; continue
        if f[i:i + 2] == b"%%": put(b"%"); i += 2; continue
        prec = None
        if f[i:i + 4] == b"%.*s":
            if k + 1 >= len(args) or args[k][0] != "i": return None
            prec = args[k][2]; k += 1; i += 4
        elif f[i:i + 2] == b"%s": i += 2
        elif f[i:i + 2] == b"%c" and k < len(args) and args[k][0] == "i" and st.cs.const_of(args[k][2]) is not None:
            put(bytes([st.cs.const_of(args[k][2]) & 255])); k += 1; i += 2; continue
        else: return None
        if k >= len(args) or args[k][0] != "p": return None
        t = text(ctx, st, args[k]) if prec is None else None
        if t is not None: put(t)
        else: out.append(("str", args[k], prec))
        k += 1
    return out
def show(ctx, ps):
    return " ".join(repr(x[1].decode("latin1")) if x[0] == "lit" else "<%s%s>" % (ctx.E.R[x[1][1]].name, "" if x[1][2] == const(0) else "+%d" % x[1][2][0]) for x in ps)
def length(ctx, st, ps):
    n = const(0)
    for x in ps:
        if x[0] == "lit": n = dom.addc(n, len(x[1]))
        else:
            l = ctx.E.strlen(st, x[1])
            if l is None: return None
            n = dom.add(n, l)
    return n

def built(ctx, r, want, what):
    """the returned block holds exactly the wanted parts, complete"""
    E = ctx.E; st = r.st; evs = events(st)
    rid = fresh(ctx, r, what)
    if rid is None: return
    pr = [e for e in evs if e.k == "printf" and e.d[1][0] == "p" and e.d[1][1] == rid]
    cp = [e for e in evs if e.k == "memcpy" and e.d[0][0] == "p" and e.d[0][1] == rid]
    L = length(ctx, st, want)
    if L is None: ctx.inconclusive(what, "length"); return
    if pr and not cp:
        e = pr[-1]; got = pieces(ctx, st, evs, e)
        if got is None or len(pr) > 1 or any(x[0] == "str" and x[2] is not None for x in got): ctx.inconclusive(what, "format"); return
        ok = len(got) == len(want) and all(g[0] == w[0] and (g[1] == w[1] if g[0] == "lit" else same(st, g[1], w[1])) for g, w in zip(got, want))
        if not ok and any(g[0] == "str" and not any(w[0] == "str" and w[1][1] == g[1][1] for w in want) for g in got): ctx.inconclusive(what, "parts"); return
        if not chk(ctx, ok, what, "parts", "the path is put together from %s instead of %s" % (show(ctx, got), show(ctx, want)), r, e): return
        if not chk(ctx, eq(st, e.d[1][2], const(0)), what, "start", "the path does not start at the beginning of its block", r, e): return
        n = e.d[2]
        if n is None: ctx.ob(True); return
        x = st.copy()
        for i, (key, lo, hi) in enumerate(dom.SYMS):
            if isinstance(key, tuple) and key[0] == "fmtlen" and key[2] == e.d[5]: x.cs.assume_eq0(dom.sub(var(i), L))
        if x.cs.bad: ctx.ob(True); return
        chk(ctx, x.cs.prove_le(dom.sub(dom.addc(L, 1), lin(n))), what, "cut", "a long path is cut off without an error", r, e)
        return
    # pieces copied one behind the other
    if pr or looped(evs) or not cp and len(want) > 1: ctx.inconclusive(what, "copies"); return
    at = const(0); writes = [(dom.sub(e.d[0][2], const(0)), lin(e.d[2]), e.d[1], e) for e in cp]
    for w in want:
        if w[0] == "lit":
            k = [e for e in evs if e.k == "store" and e.d[0] == rid and e.d[3][0] == "i" and eq(st, e.d[1], at) and st.cs.const_of(e.d[3][2]) == w[1][0]]
            k += [x for x in writes if text(ctx, st, x[2]) is not None and text(ctx, st, x[2])[:len(w[1])] == w[1] and eq(st, x[0], at)]
            if not k: ctx.inconclusive(what, "copied"); return
            at = dom.addc(at, len(w[1])); continue
        l = E.strlen(st, w[1])
        mine = [x for x in writes if x[2][0] == "p" and x[2][1] == w[1][1]]
        if not mine:
            if all(x[2][0] == "p" and any(v[0] == "str" and v[1][1] == x[2][1] for v in want) for x in writes): chk(ctx, False, what, "missing", "a part of the path is not copied: %s" % show(ctx, [w]), r)
            else: ctx.inconclusive(what, "copied")
            return
        good = [x for x in mine if same(st, x[2], w[1]) and eq(st, x[0], at) and (eq(st, x[1], l) or eq(st, x[1], dom.addc(l, 1)))]
        if not good:
            short = [x for x in mine if same(st, x[2], w[1]) and eq(st, x[0], at) and le(st, dom.addc(x[1], 1), l)]
            if not short and len(mine) == 1 and same(st, mine[0][2], w[1]) and st.cs.const_of(mine[0][1]) is not None and any(e.k == "notfound" and e.d[0][1] == w[1][1] for e in evs):
                short = mine                        # a fixed maximum was reached
            if short: chk(ctx, False, what, "cut", "a part of the path is cut off", r, short[0][3])
            elif len(mine) == 1 and not same(st, mine[0][2], w[1]) and loops.impossible(st, dom.sub(mine[0][2][2], w[1][2])): chk(ctx, False, what, "parts", "a part of the path is copied from the wrong place", r, mine[0][3])
            else: ctx.inconclusive(what, "copied")
            return
        ctx.ob(True); at = dom.add(at, l)

def join(ctx):
    E = ctx.E; done = 0
    l, g = param(ctx, 0), param(ctx, 1)
    for r in ctx.final():
        st = r.st
        if r.ret[0] != "p": ctx.inconclusive("result", "value"); continue
        if r.ret[1] == 0 or E.nullness(st, r.ret[1]) is True:
            chk(ctx, fact(ctx, st, l) is True or fact(ctx, st, g) is True or failure(ctx, r) or any(e.k == "wrap" for e in events(st)), "refused", "valid", "nothing is returned although the arguments are valid and memory is available", r); continue
        done += 1
        built(ctx, r, [("str", l, None), ("lit", b"/"), ("str", g, None)], "join")
    if not done: ctx.report("join", "never", "no path returns a joined path")
def expand(ctx):
    E = ctx.E; kinds = set()
    p = param(ctx, 0)
    for r in ctx.final():
        st = r.st; evs = events(st)
        if r.ret[0] != "p": ctx.inconclusive("result", "value"); continue
        homes = [e for e in evs if e.k == "getenv" and e.d[0] == ("lit", b"HOME")]
        home = homes[-1].d[1] if homes else None
        if r.ret[1] == 0 or E.nullness(st, r.ret[1]) is True:
            none = fact(ctx, st, p) is True or failure(ctx, r) or any(e.k == "wrap" for e in evs) or home is not None and (home[1] == 0 or fact(ctx, st, home) is True or eq(st, E.strlen(st, home), const(0)) or first_zero(E, st, home))
            chk(ctx, none, "refused", "valid", "nothing is returned although the path, the home directory and the allocator are valid", r); continue
        c = first_char(E, st, p)
        tilde = None if c is None else True if eq(st, c, const(126)) else False if loops.impossible(st, dom.addc(c, -126)) else None
        if tilde is None: ctx.inconclusive("expand", "tilde"); continue
        kinds.add(tilde)
        if not tilde: built(ctx, r, [("str", p, None)], "copy"); continue
        if home is None or home[1] == 0:
            if any(e.k == "getenv" for e in evs) or not any(e.k == "call" for e in evs): chk(ctx, False, "expand", "home", "the tilde is not replaced by the home directory", r)
            else: chk(ctx, False, "expand", "home", "the tilde is not replaced by the value of HOME", r)
            continue
        built(ctx, r, [("str", home, None), ("str", ("p", p[1], dom.addc(p[2], 1)), None)], "expand")
    for k in (True, False):
        if k not in kinds: ctx.report("expand", "never", "no path returns %s" % ("an expanded path" if k else "a path without a tilde"))
def first_char(E, st, p):
    from .ir import Ty
    v = E.load(st, p[1], p[2], Ty("i", 1, 8))
    return v[0][1][2] if len(v) == 1 and v[0][1][0] == "i" else None
def first_zero(E, st, p):
    c = first_char(E, st, p)
    return c is not None and eq(st, c, const(0))
def rule(ctx): (join if ctx.name == "rcutils_join_path" else expand)(ctx)
def check(o): driver.run(o, rule, ["rcutils_join_path", "rcutils_expand_user"], {"merge": False})
