#!/usr/bin/env python3
"""writes MANIFEST.json for the properties that have a rule"""
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V))
import check  # noqa: E402

TECH = {
    "C36": "name, attribute and call-binding resolution over the syntax trees",
    "C35": "effect analysis (heap writes, ambient reads) on the abstract heap and the syntax trees",
    "C22": "ownership and mutation analysis on the abstract heap",
    "C30": "ownership and mutation analysis on the abstract heap",
}
DEF = "abstract interpretation with global value numbering"
NA = {
    "C40": "energy decrease and convergence depend on the optimiser's numerical behaviour and on analysis of the"
           " continuum problem; no static argument over this source can bound them",
    "C41": "positivity of the determinant at every solver iterate is decided inside the external solver (ipopt) at run"
           " time; the source imposes no constraint from which it follows",
    "C42": "a statement about floating point rounding of runtime coordinates; the analysis works in exact arithmetic and"
           " no sound bound on all inputs is in reach",
    "C43": "depends on the tolerance with which the external solver honours bounds at run time",
}


def main():
    reg = check.registry()
    props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif i in reg:
            checks.append({
                "property": i,
                "quick_cmd": f"python3 check.py {i} --tier quick",
                "thorough_cmd": f"python3 check.py {i} --tier thorough",
                "technique": TECH.get(i, DEF),
                "level": "other",
                "level_note": "static: every obligation is decided on the abstract semantics of the current sources in"
                              " exact arithmetic, for all values of the symbolic inputs; trusts the models of"
                              " numpy/sympy/pyomo in sa/lib_*.py and the bounds listed in DESIGN.md",
            })
        else:
            na.append({"property": i, "reason": "no check has been built for it yet"})
    m = {"version": 1,
         "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); import check; check.registry()\"",
         "checks": checks, "not_applicable": na,
         "notes": "Checks need only the system python3 (standard library). They read /repo/src on every run and execute"
                  " none of it."}
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(checks), "checks", len(na), "not applicable")


main()
