"""prints the table of planted bugs for DESIGN.md (from seeded/*/meta.json)"""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent / "seeded"
print("| planted bug | property | what it breaks |\n|---|---|---|")
for d in sorted(root.iterdir()):
    m = json.loads((d / "meta.json").read_text())
    what = " ".join(m["what_it_breaks"].split())
    print(f"| {d.name} | {m['property']} | {what} |")
