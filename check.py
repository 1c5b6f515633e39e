#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   exit 0: held; 1: VIOLATION line; else: the check itself failed
   check.py --replay <file>              runs a recorded violation again"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import engine, props
from vlib.build import Build

def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        for st in props.PROPS[d["property"]][1]():
            if isinstance(st, engine.Conf) and st.name == d["stage"]:
                rs = st.play(Build(st.flavour), [d["ops"]] * 3)
                v = st.validate([r[0] for r in rs])
                for i, at in v["rejected"].items():
                    print(engine.describe(st, rs[i][0], at, v["notes"].get((i, at)), rs[i][1]))
                print("rejected in %d of 3 runs" % len(v["rejected"]))
                return 1 if v["rejected"] else 0
        return 2
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    level, stages = props.PROPS[pid]
    return engine.run_check(pid, level, stages(), tier, int(os.environ.get("VERIF_SEED", "1")))

if __name__ == "__main__":
    sys.exit(main())
