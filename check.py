#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]: decide one property against /repo's working tree."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core

MODULES = {"N": "net", "S": "shamir", "D": "data", "G": "gadget", "R": "rep3", "P": "proof", "V": "vm"}
SPECIAL = {"R06": "ring3", "R09": "ring3"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = core.Ctx(a.prop, a.tier, seed)
    try:
        mod = importlib.import_module("vlib." + SPECIAL.get(a.prop, MODULES[a.prop[0]]))
        return mod.check(ctx)
    except core.ToolError as e:
        print(f"TOOL ERROR in check of {a.prop}: {e}", flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
