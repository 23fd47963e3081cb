"""python3-vt -m pbt.run C05 [--tier quick|thorough] [--seed N] [--replay FILE]"""

import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    from . import engine

    prop = importlib.import_module("pbt.props.%s" % a.id.lower()).PROP
    if a.replay:
        return engine.replay(prop, a.replay)
    return engine.main(prop, a.tier, a.seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:       # noqa: BLE001
        import traceback
        traceback.print_exc()
        sys.exit(2)
