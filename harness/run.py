"""Concrete executions of the real (uninstrumented) code: search for, and replay of, failing inputs.

python -m harness.run C01                      search (VERIF_SEED, VERIF_TIER)
python -m harness.run C01 --replay FILE.json   run one recorded input again
"""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

os.environ["NBKODE_NONUMBA"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("NBV_REPO", "/repo"))
warnings.simplefilter("ignore")


class CaseTimeout(Exception):
    pass


def alarm(*_):
    raise CaseTimeout("no result within the time limit")


def one(mod, case, limit=60):
    """None if the property held on this input, else a description."""
    import numpy as np
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        with np.errstate(all="ignore"):
            mod.check(case)
        return None
    except AssertionError as ex:
        return str(ex) or traceback.format_exc(limit=-1)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        return "%s: %s (%s)" % (type(ex).__name__, ex, "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:]))
    finally:
        signal.alarm(0)


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("harness." + prop.lower())
    if "--replay" in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        err = one(mod, d["input"]["case"])
        print("FAIL " + err if err else "held")
        return 1 if err else 0
    seed, tier = int(os.environ.get("VERIF_SEED", "1") or 1), os.environ.get("VERIF_TIER", "quick")
    rng = random.Random("%s-%d" % (prop, seed))
    budget = getattr(mod, "BUDGET", 60) * (1 if tier == "quick" else 8)
    t0, n, nfail, samples, kinds = time.time(), 0, 0, [], {}
    stop = False
    for case in mod.cases(rng, tier):
        if time.time() - t0 > budget:
            stop = True
            break
        n += 1
        k = str(case.get("kind", "case")) + ":" + str(case.get("cls", ""))
        kinds[k] = kinds.get(k, 0) + 1
        err = one(mod, case)
        if err:
            nfail += 1
            print("FAIL " + json.dumps(dict(case=case, error=err[:800], key=getattr(mod, "key", lambda c, e: "")(case, err))), flush=True)
            if nfail >= 5:
                break
        elif len(samples) < 3:
            samples.append(case)
    print("SUMMARY " + json.dumps(dict(evaluations=n, failing=nfail, distinct_kinds=len(kinds), stopped_by_time=stop, seconds=round(time.time() - t0, 1), samples=samples)))
    return 1 if nfail else 0


if __name__ == "__main__":
    sys.exit(main())
