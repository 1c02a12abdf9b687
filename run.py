#!/usr/bin/env python3
"""run.py <property> : decides one property on /repo's working tree (tier and seed from the environment)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.path.insert(0, HERE)
import vlib

WHERE = {}
for mod, props in {"drivers": "C01 C02 C03 C04", "bsearch": "C05 C06", "space": "C07 C08 C09 C10 C11",
                   "calc": "C12", "purity": "C13 C24", "ldlt": "C14 C15", "lmi": "C16", "lowpass": "C17",
                   "profit": "C18 C19 C20", "numeric": "C21 C22 C25", "endtoend": "C23"}.items():
    for p in props.split():
        WHERE[p] = mod


def main():
    if sys.argv[1:] == ["setup"]:
        vlib.build_dir()
        r = vlib.model("RatLaws")
        print("setup: Rat laws checked,", r.distinct, "states")
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = vlib.Check(prop, tier, seed)
    try:
        m = importlib.import_module("checks." + WHERE[prop])
        getattr(m, prop)(chk)
        return chk.finish()
    except vlib.CodeRaised as e:
        chk.violation("raised " + str(e), [])
        return chk.finish()
    except vlib.Machinery as e:
        if chk.violations:
            return chk.finish()
        print("ERROR property=%s machinery: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
