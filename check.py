#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property statically on the current /repo tree."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report, build
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module("sa.props." + pid)
    o = report.Outcome(pid)
    try:
        mod.check(o, tier)
    except build.BuildError as e:
        print("build failed: %s" % e); return 2
    return report.finish(o, tier, mod.RULE, mod.EXPLAIN)
if __name__ == "__main__":
    sys.exit(main())
