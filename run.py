#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]: run one property's check."""
import argparse, importlib, json, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    mod = importlib.import_module("vlib.p_" + a.prop.lower())
    try:
        r = core.Run(a.prop, a.tier, a.seed)
        try:
            if not a.no_build:
                core.build()
            if a.replay:
                v = json.load(open(a.replay))
                r.check(v["subsystem"], v["spec"], [v["case"]], label="replay", shards=1)
                sys.exit(r.finish("model_checking", "replay", []))
            try:
                mod.run(r)
            except Exception as x:
                if not r.violations:
                    raise
                print("CHECK-ERROR %s, after the violations below: %s" % (a.prop, str(x)[-1000:]))
            sys.exit(r.finish(mod.LEVEL, mod.RULE, mod.ASSUME, known=r.known))
        finally:
            r.cleanup()
    except core.CheckError as x:
        print("CHECK-ERROR %s: %s" % (a.prop, x))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
