"""Witness functions for every logging macro: one statement per function."""
import os
from . import build, vg
SEV = [("DEBUG", 10), ("INFO", 20), ("WARN", 30), ("ERROR", 40), ("FATAL", 50)]
# variant suffix -> leading macro parameters
VAR = [("", ()), ("_NAMED", ("name",)), ("_ONCE", ()), ("_ONCE_NAMED", ("name",)), ("_EXPRESSION", ("expr",)), ("_EXPRESSION_NAMED", ("expr", "name")), ("_FUNCTION", ("func",)), ("_FUNCTION_NAMED", ("func", "name")),
       ("_SKIPFIRST", ()), ("_SKIPFIRST_NAMED", ("name",)), ("_THROTTLE", ("clk", "dur")), ("_SKIPFIRST_THROTTLE", ("clk", "dur")), ("_THROTTLE_NAMED", ("clk", "dur", "name")), ("_SKIPFIRST_THROTTLE_NAMED", ("clk", "dur", "name"))]
FMT = "witness text %d\\n"
DUR = 1234
ARG = {"name": "name", "expr": "w_expr(k)", "func": "w_filter", "clk": "w_clock", "dur": "1000 + %d" % (DUR - 1000)}
HEAD = r'''
#include "rcutils/logging_macros.h"
#ifdef __cplusplus
extern "C" {
#endif
extern int w_marker(int); extern long long w_expr(int); extern bool w_filter(void); extern rcutils_ret_t w_clock(rcutils_time_point_value_t *);
'''
def functions():
    for s, num in SEV:
        for v, ps in VAR: yield "w_%s%s" % (s, v), s, num, v, ps
def text():
    t = HEAD; lines = {}
    for fn, s, num, v, ps in functions():
        call = "RCUTILS_LOG_%s%s(%s);" % (s, v, ", ".join([ARG[p] for p in ps] + ['"%s"' % FMT, "w_marker(k)"]))
        t += "void %s(const char * name, int k) {\n  (void)name; (void)k;\n" % fn
        lines[fn] = t.count("\n") + 1
        t += "  %s\n}\n" % call
    t += "#ifdef __cplusplus\n}\n#endif\n"
    return t, lines
def module(lang="c", extra=(), tag="logw"):
    t, lines = text()
    p = os.path.join(build.scratch(), "log_witness.%s" % ("c" if lang == "c" else "cpp"))
    if not os.path.exists(p): open(p, "w").write(t)
    M, D, ll = vg.modulefrom([p], extra=["-DRCUTILS_LOG_MIN_SEVERITY=RCUTILS_LOG_MIN_SEVERITY_" + x for x in extra], tag=tag + lang.replace("+", "p"), passes="function(mem2reg,sroa),cgscc(inline),function(sroa,early-cse,simplifycfg),globaldce")
    return M, D, p, lines

LOGGERS = ("rcutils_log", "rcutils_log_internal")
def lin(e, c=1, out=None):
    """linear form of an integer expression: {term: coefficient}, constant under None"""
    out = {} if out is None else out
    if e[0] == "c": out[None] = out.get(None, 0) + c * vg.sgn(e)
    elif e[0] == "bin" and e[1] in ("add", "sub"): lin(e[3], c, out); lin(e[4], c if e[1] == "add" else -c, out)
    elif e[0] == "bin" and e[1] == "mul" and vg.isc(e[3]): lin(e[4], c * vg.sgn(e[3]), out)
    elif e[0] == "bin" and e[1] == "mul" and vg.isc(e[4]): lin(e[3], c * vg.sgn(e[4]), out)
    else: out[e] = out.get(e, 0) + c
    return {k: v for k, v in out.items() if v}
class Statement:
    """decides one witness function"""
    def __init__(s, M, D, path, lines, fn, num, suffix, params):
        s.M = M; s.D = D; s.path = path; s.line = lines[fn]; s.fn = fn; s.num = num; s.sfx = suffix; s.ps = params; s.bad = []; s.n = 0; s.npaths = 0
    def need(s, ok, key, msg):
        s.n += 1
        if not ok and key not in [k for k, _ in s.bad]: s.bad.append((key, msg))
    def statics(s):
        """function-local variables only touched by plain loads and stores: name -> size"""
        use = {}; esc = set()
        f = s.M.funcs[s.fn]
        from . import graph
        for b in f.blocks:
            for i in b.ins:
                for k, x in enumerate(graph.opnds(i)):
                    if x[0] == "g":
                        if i.op == "load": use.setdefault(x[1], i.ty.size)
                        elif i.op == "store" and i.a[1][0] == "g" and i.a[1][1] == x[1] and not (i.a[0][0] == "g" and i.a[0][1] == x[1]): use[x[1]] = i.name.size
                        else: esc.add(x[1])
        stored = {i.a[1][1] for b in f.blocks for i in b.ins if i.op == "store" and i.a[1][0] == "g"}
        loc = {g for g in use if g not in esc and s.M.globals[g].linkage != 0 and s.M.globals[g].hasinit and not s.M.globals[g].tls}
        return {g: use[g] for g in loc}, stored
    def run(s):
        from . import ir
        loc, stored = s.statics()
        init = {}; flags = {}; last = []
        for g, sz in loc.items():
            G = s.M.globals[g]; v = vg.initval(G.init, G.ty, 0, ir.Ty("i", sz, 8 * sz))
            if v is None: continue
            if sz == 8 and g in stored: last.append(g); continue
            if g in stored: flags[g] = v
            init[(("g", g), sz)] = v
        s.loc = set(loc); s.last = last
        if "_THROTTLE" in s.sfx:
            s.need(len(last) == 1, "last", "the throttle does not keep exactly one time of the last message")
            if len(last) != 1: return s
            G = s.M.globals[last[0]]; z = vg.initval(G.init, G.ty, 0, ir.Ty("i", 8, 64))
            s.need(z is not None and z[1] == 0, "last-init", "the throttle does not start out unused")
        once = "_ONCE" in s.sfx; skip = "_SKIPFIRST" in s.sfx
        # states of the function-local flags: before the first enabled statement and after it
        states = [tuple(sorted(flags.items()))]; k = 0; after = None
        trans = {}
        while k < len(states):
            st = dict(states[k]); res = s.paths(init, st)
            if res is None: return s
            trans[states[k]] = res
            for p in res:
                nx = p["next"]
                if nx not in states: states.append(nx)
            k += 1
            if k > 6: s.need(False, "states", "the statement's flags do not settle"); return s
        s0 = states[0]; cur = s0
        for step in range(3):
            nxt = set()
            for p in trans[cur]:
                gate = p["gate"]
                if gate: nxt.add(p["next"])
                else:
                    s.need(p["next"] == cur, "flag-disabled", "a statement that is not enabled still changes the once/skip-first state")
                want = gate and not (once and step > 0) and not (skip and step == 0)
                s.need(p["emit"] == want, "emit", "a statement whose conditions %s is %slogged (occurrence %d)" % ("hold" if gate else "do not hold", "" if p["emit"] else "not ", step + 1))
            if len(nxt) != 1: s.need(False, "flag-state", "the once/skip-first state after a statement depends on something else"); break
            cur = nxt.pop()
        return s
    def paths(s, init, flags):
        mem = dict(init)
        for g, v in flags.items():
            for k in list(mem):
                if k[0] == ("g", g): mem[k] = v
        W = vg.Walk(s.M, s.D, statics=mem, modref=lambda nm, g: False if g in s.loc else None)
        out = []
        try: ps = W.run(s.fn)
        except vg.Inconclusive as e: s.need(True, "x", ""); s.inc = str(e); return None
        s.npaths += len(ps)
        for p in ps:
            K = p.known; calls = [e for e in p.ev if e[0] == "call"]
            idx = {id(e): k for k, e in enumerate(p.ev)}
            s.need(p.kind == "ret", "loop", "the statement contains a loop or does not return")
            named = "name" in s.ps; nm = ("sym", "arg0", 64) if named else vg.NULL
            en = [e for e in calls if e[1] == "rcutils_logging_logger_is_enabled_for"]
            own = [e for e in en if e[2][0] == nm and e[2][1] == vg.C(s.num, 32)]
            s.need(len(en) == len(own), "enabled-args", "the enabled test is not made for the statement's own logger and severity")
            enabled = any(K.get(e[3]) is True for e in own)
            at = min([idx[id(e)] for e in own if K.get(e[3]) is True] or [1 << 30])
            for e in calls:
                if e[1] in ("w_marker", "w_expr", "w_filter", "w_clock") + LOGGERS:
                    s.need(idx[id(e)] > at, "before-%s" % e[1], "%s although the logger is not known to be enabled" % {"w_marker": "a format argument is evaluated", "w_expr": "the condition expression is evaluated", "w_filter": "the filter function is called",
                           "w_clock": "the clock is read"}.get(e[1], "a message is logged"))
            gate = enabled
            for nm2, prm in (("w_expr", "expr"), ("w_filter", "func")):
                if prm in s.ps:
                    c = [e for e in calls if e[1] == nm2]
                    s.need(len(c) <= 1, "twice-" + nm2, "the condition is evaluated more than once")
                    gate = gate and len(c) == 1 and truth(K, c[0][3]) is True
                    if c and enabled: s.need(truth(K, c[0][3]) is not None, "unused-" + nm2, "the condition does not decide whether the message is logged")
            clkfail = False
            if "clk" in s.ps:
                c = [e for e in calls if e[1] == "w_clock"]
                s.need(len(c) <= 1, "twice-clock", "the clock is read more than once")
                wrote = [e for e in p.ev if e[0] == "store" and e[1] == ("g", s.last[0])]
                passed = False
                if c and enabled:
                    okc = K.get(vg.icmp("eq", c[0][3], vg.C(0, 32), 32))
                    s.need(okc is not None, "clock-status", "the result of reading the clock is not examined")
                    clkfail = okc is False
                    now = next((e[2] for e in p.ev if e[0] == "load" and e[1] == c[0][2][0] and idx[id(e)] > idx[id(c[0])]), None)
                    la = next((e[2] for e in p.ev if e[0] == "load" and e[1] == ("g", s.last[0])), None)
                    if okc:
                        want = {k: v for k, v in {now: 1, la: -1, None: -DUR * 1000000}.items() if k is not False}
                        dec = None
                        for e, t in p.conds:
                            b = e
                            if b[0] != "icmp" or b[1] != "slt": continue
                            d = lin(b[3]); lin(b[4], -1, d); d = {k: v for k, v in d.items() if v}
                            if d == want: dec = not t
                            neg = {k: -v for k, v in want.items()}; neg[None] = neg.get(None, 0) - 1
                            if d == {k: v for k, v in neg.items() if v}: dec = t
                        s.need(dec is not None, "throttle", "the throttle does not compare the clock with the last message plus %d ms in nanoseconds" % DUR)
                        passed = bool(dec)
                    else: passed = True
                    if passed: s.need(len(wrote) == 1 and (clkfail or wrote[0][2] == now), "last-store", "the time of the last message is not updated when the throttle lets a message pass")
                if not (enabled and passed): s.need(not wrote, "last-keep", "the time of the last message changes although the message is suppressed")
                gate = gate and passed
            em = [e for e in calls if e[1] in LOGGERS]
            mine = [e for e in em if len(e[2]) > 3 and vg.cstr(s.M, e[2][3]) == FMT.replace("\\n", "\n").encode()]
            other = [e for e in em if e not in mine]
            s.need(len(mine) <= 1, "emit-once", "the message is logged more than once")
            for e in other: s.need(clkfail and e[2][1] == vg.C(40, 32), "emit-other", "something other than the message is logged")
            mk = [e for e in calls if e[1] == "w_marker"]
            s.need(len(mk) == len(mine), "args", "the format arguments are not evaluated exactly when the message is logged")
            for e in mine:
                a = e[2]
                s.need(a[1] == vg.C(s.num, 32), "severity", "the message is logged with a different severity")
                s.need(a[2] == nm, "name", "the message is logged under a different logger name")
                s.need(len(a) == 5 and mk and a[4] == mk[0][3], "forward", "the format arguments are not handed over")
                s.need(s.location(a[0]), "location", "the message does not carry its own function, file and line")
            nxt = []
            for g, v in flags.items():
                cur = p.mem.get((("g", g), s.size(g)), v)
                nxt.append((g, vg.resolve(cur, K)))
            out.append({"gate": gate, "emit": len(mine) > 0, "next": tuple(sorted(nxt))})
        return out
    def size(s, g): return s.M.globals[g].ty.size
    def location(s, e):
        b = vg.base(e)
        if b[0] != "g" or b != e: return False
        g = s.M.globals.get(b[1])
        if g is None or g.init is None or g.init[0] != "agg": return False
        i = g.init[1]
        tx = [vg.cstr(s.M, vg.addr(("g", x[1]), x[2])) if x[0] == "g" else None for x in i[:2]]
        return tx[0] == s.fn.encode() and tx[1] == s.path.encode() and i[2][0] == "c" and i[2][1] == s.line
def truth(K, e):
    if e[2] == 1: return K.get(e)
    k = K.get(vg.icmp("eq", e, vg.C(0, e[2]), e[2]))
    return None if k is None else not k
