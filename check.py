#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--case NAME] [-v]: decides a property by symbolic execution of /repo/openscm."""
import argparse
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import warnings  # noqa

warnings.simplefilter("ignore")
import logging  # noqa

logging.disable(logging.CRITICAL)
import numpy  # noqa
import pandas  # noqa
import pint  # noqa
import pyam  # noqa
import scipy.integrate  # noqa
import scipy.interpolate  # noqa
import z3  # noqa

from symex import runner  # noqa

LEVEL = "model_checking"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", action="append")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=runner.WORKERS)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = a.prop.upper()
    results, cases, wall = runner.run_property(pid, a.tier, seed, a.case, a.j, a.v, keep_going=a.keep_going)
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
             if k.get("property") == pid and k.get("status") == "open"]
    violations, suppressed = [], []
    for r in results:
        v = r.get("violation")
        if not v:
            continue
        k = next((k for k in known if k["case"] == v["case"] and k["label"] == v["label"]), None)
        (suppressed if k else violations).append((v, k))
    total = dict(states=0, transitions=0, queries=0, solver_time_s=0.0, obligations=0, discharged=0, agree=0, runs=0, diverged=0, trivial=0)
    functions, inconclusive, flags, percase = set(), [], {}, []
    for r in results:
        if r.get("paths"):
            total["states"] += r["paths"]
            total["transitions"] += r["branches"]
            total["queries"] += r["stats"]["queries"]
            total["solver_time_s"] += r["stats"]["solver_time"]
            total["trivial"] += r["stats"]["trivial"]
            total["obligations"] += r["checks"]
            total["discharged"] += r["discharged"]
            total["agree"] += r["validated"]
            total["runs"] += r["concrete_runs"]
            total["diverged"] += len(r["diverged"])
            functions |= set(r["functions"])
            for f, n in r["flags"].items():
                flags[f] = flags.get(f, 0) + n
        reasons = runner.inconclusive_reasons(r) if not r.get("violation") else []
        if reasons:
            inconclusive.append({"case": r["case"], "reasons": reasons})
        percase.append({"case": r["case"], "paths": r.get("paths", 0), "completed": r.get("complete", 0), "excluded": r.get("infeasible", 0),
                        "obligations": r.get("checks", 0), "discharged": r.get("discharged", 0),
                        "verdict": "violated" if r.get("violation") else ("inconclusive" if reasons else "holds within bounds")})
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    lines = []
    for v, k in violations + suppressed:
        path = os.path.join(HERE, "replays", "{}-{}-{}.json".format(pid, v["case"], runner.digest(v)))
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=a.tier, **v), f, indent=1, default=str)
        if k is None:
            lines.append("VIOLATION property={} replay={}".format(pid, path))
            print("  case {}: {} {}".format(v["case"], v["label"], v["detail"])[:1500])
            print("  inputs {}".format(v["values"])[:1500])
            print("  found as: {}".format(v["how"])[:500])
        else:
            lines.append("KNOWN-FINDING: property={} {}".format(pid, k["what"]))
    evidence = {
        "property": pid, "tier": a.tier, "seed": seed, "level": LEVEL, "wall_s": round(wall, 2),
        "violations": len(violations),
        "assumptions": [
            "floats are modelled as exact reals (tolerance {} on the real replay); numpy/scipy/pandas/pint internals are replaced by the contracts of symex/ and compared with real runs at solver models".format("1e-6"),
            "inputs outside the bounds listed per case are not covered",
        ],
        "coverage": {
            "states": total["states"], "transitions": total["transitions"], "traces_validated_against_impl": total["agree"],
            "samples": total["runs"], "divergences": total["diverged"],
            "queries": total["queries"], "solver_time_s": round(total["solver_time_s"], 2), "obligations": total["obligations"],
            "obligations_discharged": total["discharged"], "discharged_by_simplification": total["trivial"],
            "functions_encoded": sorted(functions), "bounds": {c.name: c.bounds for c in cases},
            "cases": percase, "inconclusive": inconclusive, "path_notes": flags,
        },
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for i in inconclusive:
        print("INCONCLUSIVE property={} case={}: {}".format(pid, i["case"], "; ".join(i["reasons"])[:600]))
    for k in known:
        if not any(kk is k for _, kk in suppressed) and not a.case:
            lines.append("note: known finding no longer fails: {}".format(k["what"]))
    print("{} {}: {} cases, {} paths, {}/{} obligations discharged, {} queries in {:.1f}s, {} real runs ({} agreeing), {} functions, {:.1f}s wall".format(
        pid, a.tier, len(results), total["states"], total["discharged"], total["obligations"], total["queries"], total["solver_time_s"], total["runs"],
        total["agree"], len(functions), wall))
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(1 if violations else 0)


main()
