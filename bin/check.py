#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "pylib"))
import checklib, vlib

import registry

OWNER = registry.owners()


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = checklib.Ctx(pid, tier, seed)
    try:
        OWNER[pid](ctx)
    except checklib.Violation as v:
        ctx.finish(1)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay), flush=True)
        return 1
    except vlib.Infra as e:
        print("check %s could not decide: %s" % (pid, e), file=sys.stderr)
        return 3
    for k in ctx.known:
        print(k)
    ctx.finish(0)
    print("property %s held: %d model states, %d events in %d recorded traces, %.0f s" % (
        pid, ctx.cov["model_states"], ctx.cov["trace_events"], ctx.cov["traces_validated_against_impl"],
        __import__("time").time() - ctx.t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(3)
