#!/usr/bin/env python3
"""Run the check of one property: tools/check.py C10   (VERIF_TIER, VERIF_SEED)"""
import glob, importlib.util, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import kv
CHECKS = {}
for f in sorted(glob.glob(os.path.join(here, "..", "checks", "*.py"))):
    sp = importlib.util.spec_from_file_location("chk_" + os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    CHECKS.update(m.CHECKS)
if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py <%s>" % "|".join(sorted(CHECKS)), file=sys.stderr)
        sys.exit(2)
    kv.main(sys.argv[1], CHECKS[sys.argv[1]])
