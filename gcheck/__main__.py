import argparse
import os
import sys

from .check import run_property

p = argparse.ArgumentParser()
p.add_argument("property")
p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
p.add_argument("--root", default=None)
p.add_argument("--out", default=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
p.add_argument("-v", action="store_true")
a = p.parse_args()
sys.exit(run_property(a.property.upper(), a.tier, int(os.environ.get("VERIF_SEED", "1")), a.root, a.v, a.out))
