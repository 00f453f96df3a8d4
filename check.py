#!/usr/bin/env python3
"""check.py PROPERTY [--case N]      tier and seed come from VERIF_TIER and VERIF_SEED"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import core  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        core.build_shim()
        print(core.build("dev"))
        return 0
    name = sys.argv[1]
    only = int(sys.argv[sys.argv.index("--case") + 1]) if "--case" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod = importlib.import_module("lib.props." + name.lower())
    try:
        return core.drive(mod, tier, seed, only)
    except core.BuildFailed as e:
        print("The program does not build, there is nothing to observe\n%s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
