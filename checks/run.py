"""python3 checks/run.py <property>: decides one property (see DESIGN.md)."""
import importlib, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))

import report

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    report.main(prop, mod.check)
