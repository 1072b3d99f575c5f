"""Entry point: run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--replay")
    args = parser.parse_args()

    from lib import pbt

    sys.path.append(pbt.HYPOTHESIS_PATH)
    module = f"checks.{args.property.lower()}"
    if args.replay:
        path = os.path.join(os.environ.get("VERIF_CWD", ""), args.replay)
        return pbt.replay(module, path)
    return pbt.run_property(module, args.tier, args.seed)


if __name__ == "__main__":
    sys.exit(main())
