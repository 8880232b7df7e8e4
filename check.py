#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property
   check.py setup                         build everything the checks need
   check.py all [quick|thorough]          all properties (development)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import lib

WHERE = {}
for mod, ids in dict(codec="C01 C02 C04 C05", server="C03 N01 N02 N03 N04", zone="N05 N06", system="T01 T02 F01 K01",
                     resolver="R01 R02 R03 R04 R05 R06 R07 R08 R09 L01").items():
    for i in ids.split():
        WHERE[i] = mod


def one(pid, tier):
    try:
        m = importlib.import_module("checks." + WHERE[pid])
        c = lib.Check(pid, tier)
        getattr(m, pid)(c)
        return c.finish()
    except lib.ToolError as e:
        print("TOOL-ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def main():
    if sys.argv[1] == "setup":
        for b in sorted(os.listdir(os.path.join(lib.VERIF, "harness", "src", "bin"))):
            try:
                lib.build(b[:-3])
            except lib.ToolError as e:
                print(e)
        try:
            lib.programs()
        except lib.ToolError as e:
            print(e)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if sys.argv[1] == "all":
        rc = 0
        for p in sorted(WHERE):
            rc = max(rc, one(p, tier))
        return rc
    return one(sys.argv[1], tier)


sys.exit(main())
