"""L01: log statements emit exactly when enabled and their conditions hold."""
import os
from .. import logwit, graph, build
TECHNIQUE = "compile witnesses of every logging macro (70 statements, C and C++) decided by path-wise dataflow over their IR"
NOTE = ("One witness function per severity and feature combination, compiled from the current template; all paths through each are summarised. The once and skip-first flags are followed from their initial values through three occurrences; "
        "the throttle comparison is decided as a linear form over the clock value and the stored time. The enabled test itself is decided by L03 and the effect of a log call by L06.")
RULE = ("the logger is tested for the statement's own name and severity before anything else of the statement is evaluated; the message is logged at most once, exactly when enabled and its condition holds, with its severity, name, location and arguments; "
        "format arguments, conditions and clock are evaluated only when enabled; once/skip-first/throttle state changes exactly when the condition is passed")
EXPLAIN = "70 macro witnesses in each language compiled by clang and summarised path by path"
def check(o, tier):
    tot = 0
    for lang in ("c", "c++"):
        M, D, path, lines = logwit.module(lang, tag="l01")
        for fn, sev, num, sfx, ps in logwit.functions():
            hdr = (os.path.join(build.REPO, "resource/logging_macros.h.em"), 0, None)
            if fn not in M.funcs: o.ob(ok=False); graph.report(o, "%s|missing|%s" % (fn[2:], lang), "the macro RCUTILS_LOG_%s produced no witness" % fn[2:], hdr); continue
            S = logwit.Statement(M, D, path, lines, fn, num, sfx, ps).run()
            tot += S.npaths
            if getattr(S, "inc", None): o.inconclusive.append("%s: %s" % (fn, S.inc))
            o.ob(S.n - len(S.bad)); o.ob(len(S.bad), ok=False)
            for key, msg in S.bad: graph.report(o, "RCUTILS_LOG_%s|%s" % (fn[2:], key), "RCUTILS_LOG_%s (%s): %s" % (fn[2:], lang, msg), hdr)
    o.coverage["witnesses"] = 2 * len(list(logwit.functions())); o.coverage["paths"] = tot
