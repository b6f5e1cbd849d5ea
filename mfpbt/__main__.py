"""python3-vt -m mfpbt ID [--tier quick|thorough] [--seed N] [--replay FILE]"""

import argparse
import os
import sys


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("id")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay")
    args = parser.parse_args()

    from . import engine
    from .checks import REGISTRY

    check = REGISTRY[args.id]
    if args.replay:
        return engine.replay(check, args.replay)
    return engine.run(check, args.tier, args.seed)


if __name__ == "__main__":
    try:
        status = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        status = 2
    sys.stdout.flush()
    sys.exit(status)
