#!/usr/bin/env python3
"""Entry point of the static checks.

    python3 run.py <PROPERTY> [--tier quick|thorough]
    python3 run.py all

The deciding step parses /repo/src/probnum on every run; nothing of the package is
imported or executed.  Exit 0: the property held on everything analysed; exit 1: one
"VIOLATION property=<id> replay=<path>" line per run, the replay file lists each
offending construct.
"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from pnsa import runner  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.exit(runner.main(a.property, a.tier, a.v))
