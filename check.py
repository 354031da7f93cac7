#!/usr/bin/env python3
"""Entry point:  python3 check.py <property id> [--tier quick|thorough]

Decides one property on the current sources in /repo (read afresh on every run, never executed).
exit 0: holds   exit 1: VIOLATION   exit 2: the analysis could not decide"""
import importlib
import json
import os
import pathlib
import sys
import threading
import time

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
MODULES = ("materials", "quadrature", "elements", "tensors", "grids", "params", "wellformed", "steps", "models", "plots",
           "shared", "lookup")


def registry():
    r = {}
    for m in MODULES:
        p = HERE / "sa" / "rules" / (m + ".py")
        if p.exists():
            r.update(importlib.import_module("sa.rules." + m).RULES)
    return r


def known():
    """known findings: property -> list of (tag, text)"""
    out = {}
    p = HERE / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("known: "):
                parts = line[7:].split(None, 2)
                kv = dict(x.split("=", 1) for x in parts[:2])
                out.setdefault(kv["property"], []).append((kv["tag"], parts[2] if len(parts) > 2 else ""))
    return out


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    pid = args[0]
    from sa import numeval
    from sa.rules.base import Rep, Violated
    rep = Rep(pid, tier)
    if tier == "thorough":
        numeval.BUDGET[0] *= 5
    rule = registry()[pid]
    t0 = time.time()
    try:
        rule(rep)
        crash = None
    except Violated:  # recorded where it was found
        crash = None
    except Exception as e:  # an unanalysable module, for instance
        import traceback
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        crash = f"{type(e).__name__}: {e} ({traceback.extract_tb(e.__traceback__)[-1].filename.split('/')[-1]}:" \
                f"{traceback.extract_tb(e.__traceback__)[-1].lineno})"
    wall = time.time() - t0
    listed = known().get(pid, [])
    viol, findings = [], []
    for o in rep.violated:
        tag = o.get("tag")
        hit = [k for k in listed if tag and k[0] == tag]
        (findings if hit else viol).append((o, hit[0] if hit else None))
    ev = HERE / "evidence"
    ev.mkdir(exist_ok=True)
    und = rep.undecided
    facts = sum(o["facts"] for o in rep.obs)
    report = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "wall_s": round(wall, 3),
        "coverage": {
            "explanation": ("static analysis by abstract interpretation of the package sources (value numbering, gated"
                            " phis, summarised loops); every obligation below is an identity or reachability fact"
                            " decided on the abstract result; no code of the package is executed"),
            "obligations": len(rep.obs),
            "discharged": sum(o["status"] == "holds" for o in rep.obs),
            "undecided": len(und),
            "violated": len(rep.violated),
            "facts_compared": facts,
            "functions_analysed": len(rep.functions),
            "abstract_calls": rep.calls,
            "control_merges": rep.paths,
            "loops_summarised": rep.loops,
            "interpreter_instances": rep.labs,
            "functions": sorted(rep.functions)[:400],
            "samples": [{k: o[k] for k in ("name", "status", "facts", "where", "detail")} for o in rep.obs][:300],
            "notes": rep.notes[:60],
        },
    }
    (ev / f"{pid}.json").write_text(json.dumps(report, indent=1, default=str) + "\n")
    for tag, text in dict.fromkeys(k for _, k in findings):
        print(f"KNOWN-FINDING: property={pid} {tag}: {text}")
    if viol:
        rp = ev / f"{pid}.violation.txt"
        lines = [f"property {pid}: {len(viol)} violated obligation(s) of {len(rep.obs)}", ""]
        for o, _ in viol:
            lines.append(f"* {o['name']}")
            for d in o["detail"]:
                lines.append(f"    {d}")
        lines.append("")
        lines.append(f"replay: cd {HERE} && python3 check.py {pid} --tier {tier}")
        rp.write_text("\n".join(lines) + "\n")
        print("\n".join(lines[:60]))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    for o in und:
        print(f"UNDECIDED {o['name']}: {'; '.join(o['detail'])[:400]}")
    if crash:
        print("UNDECIDED analysis stopped:", crash)
        return 2
    if not rep.obs or not facts:
        print("UNDECIDED no obligation could be decided")
        return 2
    print(f"OK property={pid} tier={tier} obligations={len(rep.obs)} facts={facts}"
          f" functions={len(rep.functions)} wall={wall:.1f}s")
    return 0


if __name__ == "__main__":
    sys.setrecursionlimit(60000)
    threading.stack_size(1 << 29)
    res = []
    th = threading.Thread(target=lambda: res.append(main()))
    th.start()
    th.join()
    sys.exit(res[0] if res else 2)
