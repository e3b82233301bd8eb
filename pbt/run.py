"""Entry point: run.py ID [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys
import traceback


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--replay")
    args = p.parse_args()

    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, os.path.dirname(here))
    sys.dont_write_bytecode = True
    from pbt import core
    sys.path.insert(0, core.REPO)

    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

    import importlib
    mod = importlib.import_module("pbt.props." + args.property.lower())
    prop = mod.PROPERTY
    if args.replay:
        return core.replay(prop, args.replay)
    return core.main(prop, args.tier, args.seed)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("harness error", flush=True)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
