#!/usr/bin/env python3
"""plant.py [ID ...] [--check] [--all]: (re)generates seeded/<ID> from tools/bugs/*.py and confirms it in a scratch copy
(build, stable tests, demo with and without the patch); --check also runs the property's check on the copy"""
import difflib
import importlib.util
import json
import os
import pathlib
import shutil
import subprocess
import sys
import textwrap

V = pathlib.Path(__file__).resolve().parents[1]
PY = "/opt/venv/bin/python"


def specs():
    out = {}
    for p in sorted((V / "tools" / "bugs").glob("*.py")):
        sp = importlib.util.spec_from_file_location(p.stem, p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def edit(root, b):
    diff = ""
    for rel, pairs in b["edits"].items():
        f = root / "src/tvemoves_rufbad" / rel
        old = f.read_text()
        new = old
        for a, c in pairs:
            assert new.count(a) == 1, (b["id"], rel, new.count(a), a)
            new = new.replace(a, c)
        f.write_text(new)
        n = f"src/tvemoves_rufbad/{rel}"
        diff += f"diff --git a/{n} b/{n}\n"
        diff += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + n, "b/" + n))
    return diff


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    sp = specs()
    ids = list(sp) if "--all" in sys.argv else args
    scratch = pathlib.Path(f"/tmp/plant{os.getpid()}")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    bad = []
    for i in ids:
        b = sp[i]
        if scratch.exists():
            shutil.rmtree(scratch)
        shutil.copytree("/repo", scratch, ignore=shutil.ignore_patterns(".git"))
        d = V / "seeded" / i
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.py").write_text("import os\nimport sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n"
                                   "sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n"
                                   "sys.dont_write_bytecode = True\n" + textwrap.dedent(b["demo"]).strip() + "\n")
        (d / "demo.sh").write_text('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                   'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        if "fakesolver" in b["demo"]:
            shutil.copy(V / "tools/fakesolver.py", d / "fakesolver.py")
        (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"],
                                                 "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        run = lambda: subprocess.run(["bash", str(d / "demo.sh")], cwd=scratch, env=env, capture_output=True, text=True)
        r0 = run()
        (d / "patch.diff").write_text(edit(scratch, b))
        e2 = dict(env, PYTHONPATH=str(scratch / "src"))
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "randomly", "--randomly-seed=0", "--randomly-dont-reorganize", "tests"], cwd=scratch, env=e2,
                           capture_output=True, text=True)
        r1 = run()
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        msg = ""
        if "--check" in sys.argv:
            pids = [b["property"]] + b.get("also", [])
            for pid in pids:
                c = subprocess.run(["python3", "check.py", pid], cwd=V, env=dict(env, VERIF_REPO=str(scratch)),
                                   capture_output=True, text=True)
                msg += f" {pid}:{'caught' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode}"
        print(i, "ok" if ok else "NOT CONFIRMED", f"demo0={r0.returncode} demo1={r1.returncode} tests={t.returncode}", msg,
              flush=True)
        if not ok:
            bad.append(i)
            print(r0.stderr[-600:], r1.stdout[-200:], t.stdout[-600:])
        else:
            print("    ", (r1.stderr.strip().splitlines() or ["?"])[-1][:150])
        shutil.rmtree(scratch)
    sys.exit(bool(bad))


main()
