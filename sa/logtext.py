"""The tables of the logging system: severity names, tokens, colors (L04)."""
from . import api, dom, driver, loops, models, contracts, logsys, startup
from .api import events
from .dom import const, var, sym
from .values import *
from .ir import Ty
from .interp import NULL
from .os_rules import chk, ev_of
from .containers import eq
I32 = Ty("i", 4, 32); I64 = Ty("i", 8, 64); PTR = Ty("p", 8); I8 = Ty("i", 1, 8)
NAMES = {b"UNSET": 0, b"DEBUG": 10, b"INFO": 20, b"WARN": 30, b"ERROR": 40, b"FATAL": 50}
COLORS = {10: b"\x1b[32m", 20: b"\x1b[0m", 30: b"\x1b[33m", 40: b"\x1b[31m", 50: b"\x1b[31m"}
TOKENS = {b"severity": "severity", b"name": "name", b"message": "message", b"function_name": "function_name", b"file_name": "file_name", b"line_number": "line_number",
          b"time": "seconds", b"time_as_nanoseconds": "nanoseconds", b"date_time_with_ms": "date"}
FORMAT = "rcutils_logging_format_message"; CONSOLE = "rcutils_logging_console_output_handler"; FROMSTR = "rcutils_logging_severity_level_from_string"
STAMPS = {"rcutils_time_point_value_as_seconds_string": "seconds", "rcutils_time_point_value_as_nanoseconds_string": "nanoseconds", "rcutils_time_point_value_as_date_string": "date"}

def both(E, st, ev, ins, change, code=10):
    """the operation succeeds, or fails with a status and an error message"""
    bad = st.copy(); E.event(bad, "refused", ev, ins); bad.flags["refused"] = True
    E.event(st, ev[0], ev[1:], ins); change(st)
    return [(st, ("i", 32, const(0))), (bad, ("i", 32, const(code)))]
def newbuf(E, arr, ins):
    """the array's buffer now holds a text of unknown length"""
    def f(st):
        rid = E.region(("text", ins.res, ins.line, len(st.ev) if hasattr(st, "ev") and hasattr(st.ev, "__len__") else 0, arr[1]), "ext", "array text", None, None, None, {"cstr": True})
        st.null[rid] = False
        off = E.layout("rcutils_char_array_s")["buffer"][0]
        E.store(st, arr[1], dom.addc(arr[2], off), ("p", rid, const(0)), 8)
    return f
def m_cat(E, st, a, ins): return both(E, st, ("append", a[0], a[1], None), ins, newbuf(E, a[0], ins))
def m_ncat(E, st, a, ins): return both(E, st, ("append", a[0], a[1], a[2]), ins, newbuf(E, a[0], ins))
def m_cpy(E, st, a, ins): return both(E, st, ("replace", a[0], a[1]), ins, newbuf(E, a[0], ins))
def m_vs(E, st, a, ins): return both(E, st, ("formatted", a[0], a[1], a[2]), ins, newbuf(E, a[0], ins))
def m_fmtmsg(E, st, a, ins): return both(E, st, ("compose", tuple(a)), ins, newbuf(E, a[5], ins), 2)
def m_fini(E, st, a, ins):
    E.event(st, "ca_fini", (a[0],), ins); return [(st, ("i", 32, const(0)))]
def m_stamp(which):
    def f(E, st, a, ins):
        v = E.load(st, a[0][1], a[0][2], I64)[0][1] if a[0][0] == "p" and a[0][1] else None
        def ch(s):
            s.flags[("stamp", a[1][1])] = which
        return both(E, st, ("stamp", which, v, a[1], a[2], a[0]), ins, ch, 11)
    return f
MODELS = {"rcutils_char_array_strcat": m_cat, "rcutils_char_array_strncat": m_ncat, "rcutils_char_array_strcpy": m_cpy, "rcutils_char_array_vsprintf": m_vs, "rcutils_char_array_fini": m_fini}
MODELS.update({n: m_stamp(w) for n, w in STAMPS.items()})
def mk(M, D, name, opts):
    E = driver.make(M, D, name, opts); md = dict(E.models); md.update(MODELS)
    E.opts["tables"] = True
    if name == CONSOLE: md[FORMAT] = m_fmtmsg
    E.models = md
    return E
def fields():
    """offset in the structure handed to token handlers -> parameter of rcutils_logging_format_message"""
    M, D = driver.load()[:2]; dom.reset()
    E = driver.make(M, D, FORMAT, {"merge": False}); rs = E.analyze(FORMAT); out = {}
    ctx = driver.Ctx(E, FORMAT, rs, {"fn": FORMAT, "findings": [], "obs": 0, "ok": 0, "inconclusive": []})
    for r in rs:
        if r.kind != "ret": continue
        for l in events(r.st):
            if l.k != "loop": continue
            for x in loops.inside(E, l):
                if x.k != "icall" or not x.d[1]: continue
                a = x.d[1][0]
                if a[0] != "p" or not a[1]: continue
                st = loops.info(E, l)["st0"]
                for off in range(0, 64, 4):
                    for i, (n, v) in enumerate(E.args.items()):
                        T = PTR if v[0] == "p" else Ty("i", v[1] // 8, v[1]) if v[0] == "i" else None
                        if T is None or T is PTR and off % 8: continue
                        try: w = E.load_quiet(st, a[1], dom.addc(a[2], off)) if T is PTR else E.load(st, a[1], dom.addc(a[2], off), T)[0][1]
                        except Exception: continue
                        if w is not None and same(st, w, v): out.setdefault(off, set()).add(i)
    return {o: next(iter(s)) for o, s in out.items() if len(s) == 1}
def m_fileno(E, st, a, ins):
    t = sym(("fileno", a[0][1] if a[0][0] == "p" else None), 0, 1 << 20)
    return [(st, ("i", 32, var(t)))]
def m_isatty(E, st, a, ins):
    t = sym(("isatty", a[0][2] if a[0][0] == "i" else None), 0, 1); E.event(st, "isatty", (a[0], t), ins)
    return [(st, ("i", 32, var(t)))]
MODELS.update({"fileno": m_fileno, "isatty": m_isatty})
def litof(E, st, p):
    a = models.strid(E, st, p) if p[0] == "p" and p[1] else None
    return a[1] if a and a[0] == "lit" else None
def facts(st):
    """literals the path found equal / different to a text: [(text identity, literal, equal?)]"""
    out = []
    for i, m in list(dom.META.items()):
        q = m.get("strcmp") if isinstance(m, dict) else None
        if not isinstance(q, tuple) or len(q) < 3: continue
        for a, b in ((q[1], q[2]), (q[2], q[1])):
            if isinstance(b, tuple) and b and b[0] == "lit":
                if st.cs.prove_eq0(var(i)): out.append((a, b[1], True, q[0]))
                elif loops.impossible(st, var(i)): out.append((a, b[1], False, q[0]))
    return out
# ---- severity names
def from_string(ctx):
    E = ctx.E; ps = {n: i for i, n in enumerate(E.args)}; last = len(E.args) - 1
    out = param(ctx, last); seen = {}; missing = set(NAMES); used = False; rejected = []; cased = None
    for r in ctx.final():
        st = r.st; c = ctx.cval(r); fs = facts(st); used = used or bool(fs)
        eqs = {l for a, l, y, k in fs if y}
        if c == 0:
            v = E.load(st, out[1], out[2], I32)[0][1]; n = st.cs.const_of(v[2]) if v[0] == "i" else None
            known = eqs & set(NAMES)
            if not eqs: ctx.inconclusive("names", "how"); continue
            if n is None: ctx.inconclusive("names", "value"); continue
            for l in known:
                seen.setdefault(l, set()).add(n)
                chk(ctx, n == NAMES[l], "names", l.decode(), "the name %s is given the value %d instead of %d" % (l.decode(), n, NAMES[l]), r)
            if not known: chk(ctx, n in NAMES.values() and False, "names", "unknown", "a text that is no severity name (%s) is accepted" % sorted(eqs)[0].decode(), r)
            for l in known:
                t = [a for a, b, y, k in fs if y and b == l]
                if cased is not False: cased = folded(ctx, r, t[0])
        elif c == 41:
            if eqs & set(NAMES): chk(ctx, False, "names", "refused", "the name %s is refused" % sorted(eqs & set(NAMES))[0].decode(), r)
            rejected.append((r, {l for a, l, y, k in fs if not y}))
    if not used: ctx.inconclusive("names", "comparison"); return
    for l in NAMES:
        ctx.ob(l in seen)
        if l not in seen: ctx.report("names", l.decode(), "the name %s is not accepted" % l.decode())
    for r, no in rejected:
        miss = [l for l in NAMES if l not in no]
        chk(ctx, not miss, "names", "refused", "a text is refused without having been compared with %s" % ", ".join(sorted(x.decode() for x in miss)), r)
    if not rejected: ctx.report("names", "refused", "no path refuses a text that is no severity name")
    if cased is False: ctx.report("names", "case", "names are compared without regard to case being disregarded")
    elif cased is None: ctx.inconclusive("names", "case")
def folded(ctx, r, ident):
    """is the compared text the argument with every letter made upper case: True, False (compared as it is), None"""
    E = ctx.E; st = r.st; p = param(ctx, 0)
    if ident == models.strid(E, st, p): return False
    ups = [i for i, m in dom.META.items() if isinstance(m, dict) and "toupper" in m]
    def mentions(l, depth=5):
        for k, c in l[1]:
            if k in ups: return True
            for x in dom.SYMS[k][0] if isinstance(dom.SYMS[k][0], tuple) and depth else ():
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple) and mentions(x, depth - 1): return True
        return False
    for e in events(st):
        if e.k != "loop": continue
        for x in loops.inside(E, e):
            if x.k == "store" and isinstance(x.d[3], tuple) and x.d[3][0] == "i" and mentions(x.d[3][2]): return True
    return None if ups else False if not any(e.k == "loop" for e in events(st)) else None
# ---- tokens
def finders(M):
    """functions that map a token to the function producing its field"""
    out = []
    for n, f in M.funcs.items():
        if f.linkage == 0 or not f.blocks or len(f.params) != 1 or str(f.rty) != "ptr" or str(f.params[0][2]) != "ptr": continue
        out.append(n)
    return out
def loose(ctx, r, p):
    """a token accepted on the strength of its first characters alone"""
    E = ctx.E; st = r.st; me = models.strid(E, st, p)
    for i, m in list(dom.META.items()):
        q = m.get("strcmp") if isinstance(m, dict) else None
        if not isinstance(q, tuple) or q[0] != "strncmp" or not st.cs.prove_eq0(var(i)): continue
        lit = [x[1] for x in q[1:3] if isinstance(x, tuple) and x[0] == "lit"]; n = st.cs.const_of(q[3])
        if len(lit) != 1 or me not in q[1:3] or n is None or n > len(lit[0]): continue
        b = E.load(st, p[1], dom.addc(p[2], n), I8)[0][1]; L = E.strlen(st, p)
        if b[0] == "i" and not loops.impossible(st, b[2]) and not st.cs.prove_eq0(b[2]) and not st.cs.prove_le(dom.addc(L, -n)):
            chk(ctx, False, "token", "prefix", "anything that starts with %s counts as a token" % lit[0][:n].decode(), r)
def find_rule(ctx, table):
    E = ctx.E; st = None; p = param(ctx, 0); none = []
    if p is None or p[0] != "p": return
    fns = [r for r in ctx.final() if r.ret and r.ret[0] == "fn"]
    if len({r.ret[1] for r in fns}) < 2: return
    for r in ctx.final():
        t = {k: startup.texteq(E, r.st, p, k) for k in TOKENS}
        if "never" in t.values(): continue
        yes = [k for k in TOKENS if t[k] is True]
        if r.ret and r.ret[0] == "fn":
            for k in yes: table.setdefault(k, set()).add((r.ret[1], r))
            if not yes: loose(ctx, r, p)
        elif r.ret == NULL or r.ret and fact(ctx, r.st, r.ret) is True:
            for k in yes: chk(ctx, False, "token", k.decode(), "the token %s is not recognised" % k.decode(), r)
            none.append(r)
    table[None] = ctx.name
    if any(k in table for k in TOKENS):
        for k in TOKENS:
            ctx.ob(k in table)
            if k not in table: ctx.report("token", k.decode(), "the token %s is not recognised" % k.decode())
            elif len({f for f, r in table[k]}) > 1: ctx.report("token", k.decode(), "the token %s has more than one meaning" % k.decode())
    else: ctx.inconclusive("token", "comparison")
def field(ctx, st, off, T):
    p = param(ctx, 0); return ctx.E.initial(st, p[1], dom.addc(p[2], off), T)
def content(E, st, evs, e, upto):
    """what an append adds: ("lit", bytes), ("ptr", p), ("stamp", which, value) or ("number", literal, args, size)"""
    p = e.d[1]; n = e.d[2]
    l = litof(E, st, p)
    if l is not None:
        if n is not None:
            k = st.cs.const_of(n[2]) if n[0] == "i" else None
            l = None if k is None else l[:k]
        return ("lit", l) if l is not None else ("?",)
    if n is not None: return ("?",)
    src = [x for x in upto if x.k == "stamp" and same(st, x.d[2], p)]
    if src: return ("stamp", src[-1].d[0], src[-1].d[1], src[-1].d[3])
    src = [x for x in upto if x.k == "printf" and x.d[1] is not None and same(st, x.d[1], p)]
    if src: return ("number", src[-1].d[4], src[-1].d[5], src[-1].d[2])
    return ("ptr", p)
ROOM = {"seconds": 22, "nanoseconds": 21, "date": 24}     # sign, digits and separators, and the terminator
_accepts = {}
def accepts(kind, k):
    """whether the rendering operation can succeed with a buffer of k bytes (None: not known)"""
    if (kind, k) in _accepts: return _accepts[kind, k]
    name = [n for n, w in STAMPS.items() if w == kind][0]
    M, D = driver.load()[:2]
    E = driver.make(M, D, name, {"merge": False}); rs = E.analyze(name)
    ctx = driver.Ctx(E, name, rs, {"fn": name, "findings": [], "obs": 0, "ok": 0, "inconclusive": []})
    ans = False
    for r in ctx.final():
        c = ctx.cval(r)
        if c is None: ans = None; continue
        if c == 0:
            y = r.st.copy(); z = param(ctx, 2)
            if z[0] == "i" and y.cs.assume_eq0(dom.addc(z[2], -k)) and not y.cs.bad: ans = True; break
    _accepts[kind, k] = ans
    return ans
def handler(ctx, kinds, F):
    """F: which parameter of format_message is found at which offset of the structure handed to handlers"""
    E = ctx.E; at = {i: o for o, i in F.items()}; LOC = {f: v[0] for f, v in E.layout("rcutils_log_location_s").items()}
    n = 0
    for r in ctx.final():
        st = r.st; evs = events(st)
        ap = [e for e in evs if e.k == "append"]
        if r.ret is None or r.ret[0] != "p": ctx.inconclusive("field", "result"); continue
        failed = any(e.k in ("refused", "fmtfail") for e in evs)
        nul = r.ret == NULL or fact(ctx, st, r.ret) is True
        cs = [content(E, st, evs, e, evs[:evs.index(e)]) for e in ap]
        loc = field(ctx, st, at[0], PTR); noloc = fact(ctx, st, loc)
        for kind in kinds:
            tok = [k for k, v in TOKENS.items() if v == kind][0].decode()
            if kind == "severity":
                s = field(ctx, st, at[1], I32); c = st.cs.const_of(s[2]) if s[0] == "i" else None
                if nul:
                    bad = [v for v in NAMES.values() if not loops.impossible(st, dom.addc(s[2], -v))] if not failed else []
                    for v in bad: chk(ctx, False, "field", tok, "no severity name is produced for %d" % v, r)
                    continue
                n += 1
                if len(cs) != 1 or cs[0][0] != "lit" or c is None:
                    if len(cs) == 1 and cs[0][0] == "lit" and cs[0][1] in NAMES:
                        chk(ctx, st.cs.prove_eq0(dom.addc(s[2], -NAMES[cs[0][1]])), "field", tok, "{severity} may produce %s for another severity" % cs[0][1].decode(), r, ap[0])
                    elif not cs: chk(ctx, False, "field", tok, "{severity} produces nothing", r)
                    else: ctx.inconclusive("field", tok)
                    continue
                chk(ctx, NAMES.get(cs[0][1]) == c, "field", tok, "{severity} produces %s for severity %d" % (cs[0][1].decode(), c), r, ap[0])
                continue
            if nul:
                chk(ctx, failed, "field", tok, "{%s} makes formatting fail although nothing went wrong" % tok, r); continue
            n += 1
            if any(not same(st, e.d[0], param(ctx, 1)) for e in ap): chk(ctx, False, "field", tok, "{%s} is appended to another text than the message's" % tok, r, ap[0]); continue
            if kind in ("function_name", "file_name", "line_number"):
                if noloc is True: chk(ctx, not cs, "field", tok, "{%s} produces something without a location" % tok, r); continue
                if noloc is None: chk(ctx, False, "field", tok, "whether there is a location is not found out", r); continue
            if kind == "name":
                w = field(ctx, st, at[2], PTR); f = fact(ctx, st, w)
                if f is True: chk(ctx, not cs or cs == [("lit", b"")], "field", tok, "{name} produces something for a logger without a name", r); continue
                if f is None: chk(ctx, False, "field", tok, "whether there is a name is not found out", r); continue
            elif kind == "message": w = field(ctx, st, at[4], PTR)
            elif kind in ("function_name", "file_name"): w = E.initial(st, loc[1], dom.addc(loc[2], LOC[kind]), PTR)
            elif kind == "line_number":
                w = E.initial(st, loc[1], dom.addc(loc[2], LOC["line_number"]), I64)
                if chk(ctx, len(cs) == 1, "field", tok, "{line_number} is produced %d times" % len(cs), r):
                    c = cs[0]
                    if c[0] != "number": ctx.inconclusive("field", tok); continue
                    ok = c[1] in (b"%zu", b"%lu", b"%ju", b"%llu") and len(c[2]) == 1 and same(st, c[2][0], w)
                    chk(ctx, ok, "field", tok, "{line_number} is not the line number in decimal", r, ap[0])
                    sz = c[3]; k = None if sz is None else st.cs.const_of(sz if isinstance(sz, tuple) and isinstance(sz[0], int) else sz[2])
                    chk(ctx, k is not None and k >= 10, "field", tok, "{line_number} has room for fewer than nine digits", r, ap[0])
                continue
            else:
                w = field(ctx, st, at[3], I64)
                if chk(ctx, len(cs) == 1, "field", tok, "{%s} is produced %d times" % (tok, len(cs)), r):
                    c = cs[0]
                    if c[0] != "stamp": ctx.inconclusive("field", tok); continue
                    chk(ctx, c[1] == kind, "field", tok, "{%s} produces the time as %s" % (tok, c[1]), r, ap[0])
                    sz = c[3]; k = None if sz is None or sz[0] != "i" else st.cs.const_of(sz[2])
                    if k is None: ctx.inconclusive("field", tok + " room")
                    else:
                        chk(ctx, k >= ROOM[kind], "field", tok + " room", "{%s} has room for %d characters only" % (tok, k - 1), r, ap[0])
                        chk(ctx, accepts(kind, k) is not False, "field", tok + " room", "{%s} cannot be produced in the %d bytes given for it" % (tok, k), r, ap[0])
                    chk(ctx, c[2] is not None and same(st, c[2], w), "field", tok, "{%s} is not the message's time" % tok, r, ap[0])
                continue
            if chk(ctx, len(cs) == 1, "field", tok, "{%s} is produced %d times" % (tok, len(cs)), r):
                c = cs[0]
                if c[0] == "?": ctx.inconclusive("field", tok)
                else: chk(ctx, c[0] == "ptr" and same(st, c[1], w), "field", tok, "{%s} produces something else than the message's %s" % (tok, kind), r, ap[0])
    if not n: ctx.inconclusive("field", ",".join(kinds))
# ---- colors and stream
def console(ctx, colors):
    E = ctx.E; n = set(); stream = E.global_region(startup.STREAM) if startup.STREAM in E.M.globals else None
    if stream is None: ctx.inconclusive("console", "variable"); return
    from . import lifecycle as lc
    for r in ctx.final():
        st = r.st; evs = events(st)
        S = E.initial(st, stream, const(0), PTR)
        def tostream(e):
            for a in (e.d[1] if e.k == "output" else ()):
                if a[0] == "p" and same(st, a, S): return True
            return False
        out = [e for e in evs if e.k == "output" and tostream(e)]
        up = lc.gini(E, st, lc.LOGF) if lc.LOGF in E.M.globals else None
        if up is not None and st.cs.prove_eq0(up):
            chk(ctx, not out, "console", "uninitialised", "something is printed although the logging system is not initialised", r, out[0] if out else None); continue
        sv = param(ctx, 1); c = st.cs.const_of(sv[2])
        poss = [v for v in COLORS if not loops.impossible(st, dom.addc(sv[2], -v))]
        if not poss: chk(ctx, not out, "severity", "unknown", "a message of unknown severity is printed", r, out[0] if out else None); continue
        if any(e.k in ("refused", "fmtfail") for e in evs): continue
        if c is None and len(poss) > 1 and False: continue
        comp = [e for e in evs if e.k == "compose"]; fo = [e for e in evs if e.k == "formatted"]
        if not chk(ctx, len(comp) == 1 and len(fo) == 1, "console", "composed", "a message of a known severity is not formatted exactly once", r): continue
        a = comp[0].d[0]; arr = a[5]; k = evs.index(comp[0])
        for i, w in ((0, "location"), (1, "severity"), (2, "name"), (3, "timestamp")): chk(ctx, same(st, a[i], param(ctx, i)), "console", w, "the message is formatted with another %s" % w, r, comp[0])
        chk(ctx, same(st, fo[0].d[1], param(ctx, 4)), "console", "format", "the message text is not formatted from the format given", r, fo[0])
        av = fo[0].d[2]; pv = param(ctx, 5)
        chk(ctx, same(st, av, pv) or av[0] == "p" and pv[0] == "p" and av[1] and E.R[av[1]].origin is not None and E.R[av[1]].origin[0] == pv[1] or av[0] == "va", "console", "arguments", "the message text is not formatted from the arguments given", r, fo[0])
        bo = E.layout("rcutils_char_array_s")["buffer"][0]; ma = fo[0].d[0]
        chk(ctx, same(st, a[4], E.load_quiet(st, ma[1], dom.addc(ma[2], bo))) and evs.index(fo[0]) < k, "console", "message", "the formatted text is not the message that is put out", r, comp[0])
        pre = [content(E, st, evs, e, evs[:evs.index(e)]) for e in evs[:k] if e.k == "append" and same(st, e.d[0], arr)]
        post = [content(E, st, evs, e, evs[:evs.index(e)]) for e in evs[k:] if e.k == "append" and same(st, e.d[0], arr)]
        if any(x[0] != "lit" for x in pre + post): ctx.inconclusive("color", "text"); continue
        pre, post = b"".join(x[1] for x in pre), b"".join(x[1] for x in post)
        cv = E.initial(st, E.global_region(startup.COLOR), const(0), I32) if startup.COLOR in E.M.globals else None
        if cv is None or set(colors) != set(startup.CHOICES): ctx.inconclusive("color", "setting")
        else:
            for ch, val in colors.items():
                if loops.impossible(st, dom.addc(cv[2], -val)): continue
                tty = [e for e in evs if e.k == "isatty"]
                if ch == b"1": want = True
                elif ch == b"0": want = False
                else:
                    t = [e for e in tty if e.d[0][0] == "i"]
                    good = [e for e in t if any(dom.SYMS[i][0] == ("fileno", S[1]) for i, q in e.d[0][2][1])]
                    want = None
                    for e in good: want = True if loops.impossible(st, var(e.d[1])) else False if st.cs.prove_eq0(var(e.d[1])) else None
                    if t and not good:
                        if any(isinstance(dom.SYMS[i][0], tuple) and dom.SYMS[i][0][0] == "fileno" for e in t for i, q in e.d[0][2][1]): chk(ctx, False, "color", "stream", "whether another stream than the output stream is a terminal decides about colors", r, t[0])
                        else: ctx.inconclusive("color", "terminal")
                        continue
                    if want is None: chk(ctx, False, "color", "automatic", "the choice of colors does not depend on the stream being a terminal", r); continue
                what = {b"1": "forced on", b"0": "forced off", b"": "left to the terminal"}[ch]
                n.add((ch, want))
                if want:
                    for v in poss: chk(ctx, pre == COLORS[v], "color", str(v), "with colors %s, severity %d starts with %r instead of %r" % (what, v, pre, COLORS[v]), r)
                    chk(ctx, post == b"\x1b[0m", "color", "reset", "with colors %s, the message does not end by resetting the color" % what, r)
                else: chk(ctx, not pre and not post, "color", "plain", "with colors %s, color sequences are put out" % what, r)
        good = [e for e in evs if e.k == "printf" and e.d[0] == "fprintf" and same(st, e.d[1], S)]
        cur = E.load_quiet(st, arr[1], dom.addc(arr[2], bo))
        if not out: chk(ctx, False, "console", "printed", "a message of a known severity is not printed to the output stream", r)
        elif len(good) != len(out): ctx.inconclusive("console", "how")
        else:
            chk(ctx, len(good) == 1 and good[0].d[4] == b"%s\n" and same(st, good[0].d[5][0], cur), "console", "printed", "what is printed is not the message and a newline, once", r, good[0])
            chk(ctx, evs.index(good[0]) > k, "console", "order", "the message is printed before it is complete", r, good[0])
    for ch in startup.CHOICES:
        if colors and not any(x == ch for x, w in n): ctx.inconclusive("color", "never %r" % ch)
def run_here(o, rule, names):
    """as driver.run, one after another in this process, so that rules can share what they find"""
    M = driver.load()[0]; per = o.coverage.setdefault("per_function", {})
    for n in names:
        if n not in M.funcs: o.notes.append("anchor %s not present in this tree" % n); continue
        r = driver._work((n, rule, {"merge": False}, 60, mk))
        o.findings += r["findings"]; o.obligations += r["obs"]; o.discharged += r["ok"]; o.inconclusive += r["inconclusive"]
        if r["incomplete"] and (rule.__name__ != "first"): o.inconclusive.append("%s: %s" % (r["fn"], r["incomplete"]))
        per[n] = {"paths": r["paths"], "s": round(r["time"], 2), "incomplete": r["incomplete"]}
    o.coverage["functions"] = len(per); o.coverage["path_summaries"] = sum(v["paths"] for v in per.values())
def note(o, fn, what): o.inconclusive.append("%s|%s" % (fn, what))
def l04(o):
    M = driver.load()[0]; table = {}
    def first(ctx): find_rule(ctx, table)
    # the tables are gathered in this process
    cands = finders(M); run_here(o, first, cands)
    F = fields()
    per = {}
    for k in TOKENS:
        for f, r in table.get(k, ()): per.setdefault(f, set()).add(TOKENS[k])
    if not table.get(None): note(o, "token table", "no function maps tokens to the functions producing their fields")
    elif sorted(F.values()) != [0, 1, 2, 3, 4]: note(o, FORMAT, "the structure handed to token handlers")
    else: run_here(o, lambda ctx: handler(ctx, sorted(per[ctx.name]), F), sorted(per))
    C = startup.colorvals()
    run_here(o, lambda ctx: console(ctx, C), [CONSOLE])
    run_here(o, from_string, [FROMSTR])
    return table, F, C
