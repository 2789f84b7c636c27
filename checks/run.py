"""Entry point of a check: run.py <module> <tier> [args]."""
import importlib
import sys
import traceback


def main():
    name, tier = sys.argv[1], sys.argv[2]
    mod = importlib.import_module("checks." + name.lower())
    try:
        rc = mod.main(tier, sys.argv[3:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("CHECK-ERROR", name)
        sys.stdout.flush()
        return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
