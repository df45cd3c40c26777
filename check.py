#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner
def main():
    runner.base_env()
    import argparse, importlib, warnings
    warnings.simplefilter("ignore")
    a = argparse.ArgumentParser()
    a.add_argument("property"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); a.add_argument("--replay")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    o = a.parse_args()
    from sim import py2
    py2.patch_numpy()
    mod = importlib.import_module("props." + o.property.lower())
    sys.exit(runner.main(mod, o.property.upper(), o.tier, o.seed, os.path.abspath(o.replay) if o.replay else None))
main()
