import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--deadline", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    mod = importlib.import_module("checks." + a.property.lower())
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        with open(a.replay) as fh:
            rec = json.load(fh)
        core.quiet()
        res = core.Result()
        case = rec["case"]
        if "family" in case and "args" in case:
            mod.FAMILIES[case["family"]](res, case["args"])
        else:
            res.case(case, mod.run_case, case)
        for v in res.viols:
            print(v["message"])
        print("reproduced" if res.viols else "NOT reproduced")
        return 1 if res.viols else 0
    return core.run(mod, a.tier, seed, a.jobs, a.deadline, a.v)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)    # do not wait for workers that were told to stop
