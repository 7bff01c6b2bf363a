"""Runs the check of one property: python -m mc.run P01."""
import importlib
import sys
import traceback

from mc import core


def main():
    prop = sys.argv[1]
    check = core.Check(prop)
    try:
        mod = importlib.import_module("mc.checks." + prop.lower())
        mod.run(check)
    except Exception as e:  # pylint: disable=broad-except
        # The code under test left the machinery without an answer; on the
        # unchanged tree this does not happen.
        traceback.print_exc()
        check.fail("the exploration broke down: {}: {}".format(
            type(e).__name__, e), {"traceback": traceback.format_exc()})
    return check.finish()


if __name__ == "__main__":
    sys.exit(main())
