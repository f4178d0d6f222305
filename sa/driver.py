"""Analyse every public operation and hand its path summaries to the rules of one property."""
import os, signal, sys, time, traceback
from multiprocessing import Pool
from . import build, ir, dom, interp, models, spec, contracts
from .report import Finding

_C = {}
def load(fault=False):
    """current /repo as one IR module"""
    if fault not in _C:
        bc, ll, srcs = build.module(fault=fault)
        M = ir.Loader(bc).load(); D = ir.DI(ll)
        _C[fault] = (M, D, srcs, bc, ll)
    return _C[fault]

# functions the path rules do not summarise, with the mechanism that covers them instead
HEAVY = {"rcutils_sha256_update": "X02 value graph", "rcutils_sha256_final": "X02 value graph"}
# functions whose states are blended in front of loops and looping helpers
BARRIER = {"rcutils_repl_str", "rcutils_logging_initialize_with_allocator"}

def public(M):
    return sorted(n for n, f in M.funcs.items() if f.linkage == 0 and n not in HEAVY and not n.startswith("_rcutils_fault"))

def base_models(name):
    md = dict(models.BASE); md.update(models.logging_models()); md.update(contracts.for_function(name))
    return md

class FnResult:
    pass

def _work(a):
    name, rule, opts, limit, mk = a
    M, D = _C[False][:2]
    out = {"fn": name, "findings": [], "obs": 0, "ok": 0, "paths": 0, "steps": 0, "incomplete": None, "inconclusive": []}
    t = time.time()
    def h(*_): raise interp.Incomplete("time budget of %ds exceeded" % limit)
    signal.signal(signal.SIGALRM, h); signal.alarm(limit)
    try:
        dom.reset(); interp.Engine._rc = 0; models.Counter.n = 0
        if name in BARRIER and (opts or {}).get("barrier") is None: opts = dict(opts or {}, barrier=True)
        E = (mk or make)(M, D, name, opts)
        rs = E.analyze(name)
        out["paths"] = len(rs); out["steps"] = E.nsteps
        ctx = Ctx(E, name, rs, out)
        rule(ctx)
        out["called"] = sorted(E.called)
        out["visited"] = len(E.visited)
    except interp.Incomplete as e: out["incomplete"] = str(e)
    except RecursionError: out["incomplete"] = "recursion depth"
    except Exception:
        out["incomplete"] = "internal error: " + traceback.format_exc()[-700:]
    finally: signal.alarm(0)
    out["time"] = time.time() - t
    return out

def make(M, D, name, opts):
    E = spec.SpecEngine(M, D, base_models(name), opts)
    E.posthooks = contracts.POST.get(name, {})
    return E

class Ctx:
    """one analysed public operation"""
    def __init__(s, E, name, results, out):
        s.E = E; s.name = name; s.rs = results; s.out = out; s.keys = set()
    def ob(s, ok=True):
        s.out["obs"] += 1
        if ok: s.out["ok"] += 1
    def obs(s, n):
        """n obligations examined; the ones that fail are reported separately"""
        s.out["obs"] += n; s.out["ok"] += n
    def report(s, kind, detail, msg, loc=None, stack=()):
        key = "%s|%s|%s" % (s.name, kind, str(detail).replace(" ", "_"))
        if key in s.keys: return
        s.keys.add(key)
        s.out["bad"] = s.out.get("bad", 0) + 1
        loc = loc or (None, None, None)
        s.out["findings"].append(Finding(key, msg, loc[0], loc[1], loc[2] or s.name, tuple("%s:%s" % x for x in stack)))
    def inconclusive(s, kind, detail, ev=None):
        k = "%s|%s|%s" % (s.name, kind, detail)
        if ("i", k) in s.keys: return
        s.keys.add(("i", k)); s.out["inconclusive"].append(k + (" at %s:%s" % (ev.loc[2], ev.loc[1]) if ev is not None else ""))
    def desc(s, rid):
        """stable description of a region: parameter path with role names, or storage class"""
        E = s.E; r = E.R[rid]
        path = []
        for _ in range(12):
            if r.kind != "sym" or not r.origin: break
            o = r.origin[2]
            path.append(o[1] if o else "[]"); r = E.R[r.origin[0]]
        if r.kind in ("param", "byval"):
            root = "arg%s" % r.info["argn"] if "argn" in r.info else "byval" if r.kind == "byval" else "sret"
        elif r.kind == "heap": root = "heap"
        elif r.kind == "alloca": root = "local"
        elif r.kind in ("global", "const"): root = r.name
        elif r.kind == "null": root = "null"
        else: root = r.kind
        return "->".join([root] + path[::-1])
    _final = None
    def final(s):
        """states at normal return"""
        if s._final is None:
            s._final = []
            for r in s.rs:
                if r.kind != "ret": continue
                if r.ret is None or r.ret[0] != "b" or isinstance(r.ret[1], bool): s._final.append(r); continue
                T, F = s.E.branchn(r.st.copy(), r.ret[1])       # both outcomes of a computed truth value
                for v, l in ((True, T), (False, F)):
                    for st in l:
                        if st.cs.bad: continue
                        x = interp.Result(); x.st = st; x.ret = ("b", v); x.kind = r.kind; x.fn = r.fn; s._final.append(x)
        return s._final
    def ret_int(s, r):
        v = r.ret
        if v is None: return None
        if v[0] == "i": return v[2]
        if v[0] == "b":
            if v[1] is True: return dom.const(1)
            if v[1] is False: return dom.const(0)
        return None
    def cval(s, r):
        """concrete integer return value or None"""
        l = s.ret_int(r)
        return None if l is None else r.st.cs.const_of(l)
    def rtype(s):
        return s.E.M.funcs[s.name].rty
    def returns_status(s):
        T = s.E.D.fntypes(s.name)
        return is_status(s.E.D, T[0]) if T else False
    def last_loc(s, r):
        e = r.st.ev
        while e is not None:
            if e[0].loc and e[0].loc[1] and e[0].loc[2] == s.name: return e[0].loc
            e = e[1]
        return (s.E.D.fnfile(s.name), s.E.D.fnline(s.name), s.name)

def is_status(D, t):
    """declared type is rcutils_ret_t"""
    for _ in range(6):
        if t is None: return False
        x = D.n.get(t, "")
        if D.field(x, "name") == "rcutils_ret_t": return True
        t = D.ref(x, "baseType")
    return False

def run(o, rule, names=None, opts=None, limit=60, mk=None, skip=(), quiet_incomplete=()):
    """run one rule over all public operations in parallel; results go to outcome o"""
    M, D = load()[:2]
    names = [n for n in (names or public(M)) if n not in skip]
    missing = [n for n in names if n not in M.funcs]
    for n in missing: o.notes.append("anchor %s not present in this tree" % n)
    names = [n for n in names if n in M.funcs]
    # expensive ones first
    pri = {"rcutils_logging_initialize_with_allocator": 0, "rcutils_repl_str": 0, "rcutils_to_native_path": 0, "rcutils_split": 1, "rcutils_hash_map_set": 1, "rcutils_logging_console_output_handler": 1}
    names.sort(key=lambda n: (pri.get(n, 5), n))
    per = {}
    with Pool(8) as p:
        for r in p.imap_unordered(_work, [(n, rule, opts, limit, mk) for n in names], chunksize=1):
            o.findings += r["findings"]; o.obligations += r["obs"]; o.discharged += r["ok"]; o.inconclusive += r["inconclusive"]
            if r["incomplete"]:
                o.inconclusive.append("%s: %s" % (r["fn"], r["incomplete"]))
            per[r["fn"]] = {"paths": r["paths"], "steps": r["steps"], "s": round(r["time"], 2), "incomplete": r["incomplete"]}
    o.coverage["functions"] = len(per)
    o.coverage["complete_functions"] = sum(1 for v in per.values() if not v["incomplete"])
    o.coverage["path_summaries"] = sum(v["paths"] for v in per.values())
    o.coverage["per_function"] = per
    return per
