#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]: run one property's check; see DESIGN.md."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dvlib import engine, props
from dvlib.observe import ToolError


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    a = a.parse_args()
    chk = engine.Check(a.property, a.tier, a.seed)
    try:
        props.CHECKS[a.property](chk)
        return chk.finish()
    except ToolError as e:
        print("the check itself failed: %s" % e, file=sys.stderr)
        return chk.finish() if chk.viol else 2
    except Exception:
        traceback.print_exc()
        return chk.finish() if chk.viol else 2


sys.exit(main())
