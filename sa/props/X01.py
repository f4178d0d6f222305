"""X01: the fault-injection counter fires exactly once and is only touched atomically."""
import os
from .. import vg, graph, witness, build, ir
TECHNIQUE = "atomicity lint over every use of the counter plus path-wise value analysis of the counter operations and macro witnesses"
NOTE = ("All uses of the counter variable in the library are atomic instructions. Every path of the maybe-fail operation (loop cut at its header, header values arbitrary) either changes nothing and returns a value known negative, or ends with one "
        "successful compare-exchange of a value known non-negative to that value minus one and returns it. Set, get, is-complete and the four client macros are decided the same way in both build configurations. Fairness of the compare-exchange loop is not considered.")
RULE = "counter accessed by atomic operations only; each maybe-fail path: no change and a negative result, or exactly one successful compare-exchange v -> v-1 with v >= 0 returned; macros run the failure code exactly when the result is 0 and reach one fault point"
EXPLAIN = "uses of the counter in both configurations; path summaries with value expressions of 4 operations and 4 macro witnesses"
OPS = ["rcutils_fault_injection_set_count", "rcutils_fault_injection_get_count", "rcutils_fault_injection_is_test_complete", "_rcutils_fault_injection_maybe_fail"]
WIT = r'''
#include "rcutils/testing/fault_injection.h"
extern void w_mark(void); extern int w_code(void);
int w_return_error(void) { RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(77); w_mark(); return 5; }
int w_maybe_fail(void) { RCUTILS_FAULT_INJECTION_MAYBE_FAIL(return 78); w_mark(); return 5; }
void w_test(void) { RCUTILS_FAULT_INJECTION_TEST({ w_code(); }); }
void w_no_fault(void) { RCUTILS_NO_FAULT_INJECTION({ w_code(); }); }
'''
def neg(e, known):
    k = ("icmp", "slt", 64, e, vg.C(0, 64))
    return known.get(k)
def check(o, tier):
    for fault in (False, True):
        M, D, ll = vg.library(OPS, tag="x01%d" % fault, fault=fault)
        src = "src/testing/fault_injection.c"
        def where(n, line=None): return (D.fnfile(n) or src, line or D.fnline(n), n)
        def bad(ok, key, msg, n, line=None):
            o.ob(ok=bool(ok))
            if not ok: graph.report(o, "%s|%s" % (n, key), msg, where(n, line))
        def walk(n):
            W = vg.Walk(M, D); ps = W.run(n); o.coverage.setdefault("paths", {})["%s%s" % (n, "+fault" if fault else "")] = len(ps)
            for p in ps: p.known = dict(p.conds)
            return ps
        missing = [n for n in OPS if n not in M.funcs]
        for n in missing: bad(False, "missing", "%s() is not defined" % n, n)
        if missing: continue
        cnt = None
        writes = lambda p: [e for e in p.ev if e[0] in ("astore", "armw", "cmpxchg") or (e[0] == "store" and vg.base(e[1])[0] == "g")]
        for p in walk(OPS[0]):
            w = writes(p)
            good = len(w) == 1 and ((w[0][0] == "astore" and w[0][2] == ("sym", "arg0", 64)) or (w[0][0] == "armw" and w[0][1] == 0 and w[0][3] == ("sym", "arg0", 64)))
            bad(p.kind == "ret" and good, "store", "does not store exactly the given count atomically", OPS[0])
            if good: cnt = w[0][1] if w[0][0] == "astore" else w[0][2]
        if cnt is None: continue
        # every use of the counter in the library is an atomic access
        full = graph.load(fault); uses = 0
        for fn, f in full.M.funcs.items():
            for b in f.blocks:
                for i in b.ins:
                    if not any(x[0] == "g" and x[1] == cnt[1] for x in graph.opnds(i)): continue
                    uses += 1
                    atomic = (i.op == "load" and i.x[0] != 0) or (i.op == "store" and i.x[0] != 0 and not any(x[0] == "g" and x[1] == cnt[1] for x in graph.flat(i.a[0]))) or i.op in ("cmpxchg", "atomicrmw")
                    o.ob(ok=atomic)
                    if not atomic: graph.report(o, "%s|atomic" % fn, "the fault-injection counter is accessed without an atomic operation", full.where(fn, i))
        o.coverage["counter_uses"] = uses
        g = M.globals.get(cnt[1])
        ini = vg.initval(g.init, g.ty, 0, ir.Ty("i", 8, 64)) if g is not None and g.init is not None else None
        bad(ini is not None and vg.sgn(ini) < 0, "initial", "the counter does not start out negative", OPS[0])
        for p in walk(OPS[1]):
            ld = [e[2] for e in p.ev if e[0] == "aload" and e[1] == cnt]
            bad(p.kind == "ret" and not writes(p) and vg.resolve(p.ret, p.known) in ld, "get", "does not return the counter unchanged", OPS[1])
        for p in walk(OPS[2]):
            r = vg.resolve(p.ret, p.known); ld = [e[2] for e in p.ev if e[0] == "aload" and e[1] == cnt]
            if fault: good = not writes(p) and len(ld) == 1 and (r == vg.not_(vg.icmp("slt", ld[0], vg.C(0, 64), 64)) or (vg.isc(r) and neg(ld[0], p.known) is (r[1] == 0)))
            else: good = not writes(p) and r == vg.C(1, 1)
            bad(good, "complete", "does not report whether the counter is still non-negative", OPS[2])
        n = OPS[3]; H = None
        for p in walk(n):
            w = writes(p); won = []
            for e in w:
                if e[0] != "cmpxchg" or e[1] != cnt: bad(False, "plain-write", "the counter is changed by something other than a compare-exchange", n, e[-1]); continue
                k = p.known.get(e[4])
                old, new = vg.resolve(e[2], p.known), vg.resolve(e[3], p.known)
                bad(neg(old, p.known) is False, "negative", "a counter value not known to be non-negative is replaced", n, e[-1])
                bad(new == vg.bin_("add", 64, old, vg.C(-1, 64)), "decrement", "the counter is not replaced by its value minus one", n, e[-1])
                if k is not False: won.append((e, k))
            bad(len(won) <= 1, "twice", "the counter can change more than once for one fault point", n)
            if p.kind == "ret":
                r = vg.resolve(p.ret, p.known)
                if won:
                    bad(won[0][1] is True, "lost", "the result does not depend on whether the compare-exchange succeeded", n)
                    bad(r == vg.resolve(won[0][0][2], p.known), "result", "the value returned is not the one that was replaced", n)
                else: bad(neg(r, p.known) is True or (vg.isc(r) and vg.sgn(r) < 0), "unclaimed", "a possibly non-negative value is returned without having been claimed by a successful compare-exchange", n)
            elif p.kind == "back":
                bad(not won, "retry", "the operation goes on after it already claimed a fault", n)
    # macros
    for fault in (True,):
        pth = os.path.join(build.scratch(), "x01w.c"); open(pth, "w").write(WIT)
        M, D, ll = vg.modulefrom([pth], tag="x01w", fault=fault)
        hd = os.path.join(build.REPO, "include/rcutils/testing/fault_injection.h")
        def bad(ok, key, msg, n):
            o.ob(ok=bool(ok))
            if not ok: graph.report(o, "%s|%s" % (n, key), msg, (hd, 0, n))
        calls = lambda p, c: [e for e in p.ev if e[0] == "call" and e[1] == c]
        for n, rv in (("w_return_error", 77), ("w_maybe_fail", 78)):
            for p in vg.Walk(M, D).run(n):
                known = dict(p.conds); f = calls(p, OPS[3])
                bad(len(f) == 1, "once", "the macro does not reach exactly one fault point", n)
                if len(f) != 1: continue
                now = vg.icmp("eq", f[0][3], vg.C(0, 64), 64); k = known.get(now)
                r = vg.resolve(p.ret, known)
                fired = not calls(p, "w_mark")
                bad(k is not None and fired == k and r == vg.C(rv if k else 5, 32), "fires", "the failure code does not run exactly when the fault point returns 0", n)
        n = "w_test"
        for p in vg.Walk(M, D).run(n):
            known = dict(p.conds); sets = [e[2][0] for e in calls(p, OPS[0])]; done = calls(p, OPS[2]); ini = [e for e in p.ev if e[0] == "loop"]
            good = len(calls(p, "w_code")) == 1 and len(done) == 1 and len(ini) == 1 and len(ini[0][2]) == 1
            if good:
                ph, iv = next(iter(ini[0][2].items())); v = sets[0]
                while v[0] in ("sext", "zext"): v = v[1]
                good = vg.isc(iv) and iv[1] == 0 and v[0] == "sym" and v[1] == "phi%d" % ph
                k = known.get(done[0][3])
                if p.kind == "ret": good = good and k is True and len(sets) == 2 and vg.isc(sets[1]) and vg.sgn(sets[1]) < 0
                else: good = good and k is False and len(sets) == 1 and p.back[1][ph] == vg.bin_("add", vg.width(v), v, vg.C(1, vg.width(v)))
            bad(good, "loop", "the test macro does not run the code with counts 0, 1, 2, ... until it completes and then disable injection", n)
        n = "w_no_fault"
        for p in vg.Walk(M, D).run(n):
            seq = [(e[1], e[2], e[3]) for e in p.ev if e[0] == "call"]
            good = [x[0] for x in seq] == [OPS[1], OPS[0], "w_code", OPS[0]] and vg.isc(seq[1][1][0]) and vg.sgn(seq[1][1][0]) < 0 and seq[3][1][0] == seq[0][2]
            bad(good, "restore", "the macro does not disable injection around the code and restore the count afterwards", n)
