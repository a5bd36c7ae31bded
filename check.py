#!/usr/bin/env python3
"""check.py ID: decides property ID for /repo's working tree. Tier and seed from VERIF_TIER and VERIF_SEED.

Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check itself failed."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core

FAMILY = {"H": "p_hub", "D": "p_dock", "R04": "p_dock", "R": "p_sys", "C": "p_cc", "N": "p_net", "K": "p_codec", "W": "p_wire", "M": "p_set", "G01": "p_gen", "G02": "p_registry", "L": "p_life"}


def main():
    prop = sys.argv[1]
    ctx = core.Ctx(prop)
    try:
        mod = importlib.import_module(FAMILY.get(prop) or FAMILY[prop[0]])
        code = mod.run(ctx)
    except core.HarnessError as e:
        print("CHECK-ERROR", e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    os._exit(code)


main()
