#!/opt/venv/bin/python
"""Runs the check of one property: check.py C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check the machinery itself (not the code under test)")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.selftest:
        from mc import selftest
        sys.exit(selftest.main())
    if not a.property:
        ap.error("which property?")
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    from mc import explore
    sys.exit(explore.main(a.property, a.tier, seed, a.replay))


if __name__ == "__main__":
    main()
