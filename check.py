"""check.py C01 [--tier quick|thorough]   decide one property of /repo's current source
check.py --replay FILE                  re-run a reported counterexample on the plain code
"""
import argparse
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--concrete":
        from sx import run

        run.concrete_main(*sys.argv[2:5])
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    from sx import run

    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        r = run.concrete_run(d["pid"], [{k: d[k] for k in ("harness", "shape", "inputs")}])[0]
        print(json.dumps(r, indent=1))
        return 1 if r["status"] in ("violation", "hang") else 0
    d = run.Driver(a.pid, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    if a.only:
        d.prop.harnesses = {k: v for k, v in d.prop.harnesses.items() if k == a.only}
    return d.run()


if __name__ == "__main__":
    sys.exit(main())
