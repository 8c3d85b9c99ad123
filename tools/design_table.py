"""Print the table of planted bugs for DESIGN.md (reads seeded/*/meta.json; not used by any check)."""
import json
import pathlib

print("| planted bug | caught by | what it needs |\n|---|---|---|")
for d in sorted((pathlib.Path(__file__).parent.parent / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    print(f"| {d.name} | {m['property']} | {m['needs'].strip().rstrip('.')} |")
