#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo"""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import traceback

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    import runner, props
    try:
        chk = runner.Check(a.prop, a.tier, a.seed)
        props.PROPS[a.prop](chk)
        return chk.finish()
    except runner.ToolError as e:
        print("tool error:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

sys.exit(main())
