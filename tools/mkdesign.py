"""DESIGN.md = design_head.md + findings + planted changes."""
import glob
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(os.path.join(here, "tools", "design_head.md")).read()
F = json.load(open(os.path.join(here, "known_findings.json")))["findings"]
out += "## Findings recorded, not repaired\n\n"
for f in F:
    if f["status"] != "fixed":
        out += f"* {f['property']} `{f.get('key')}`: {f['what']}\n"
out += "\n## Defects repaired\n\n"
for f in F:
    if f["status"] == "fixed":
        out += "* " + f["what"].removeprefix("fixed: property=") + "\n"
out += "\n## Planted changes\n\nEach breaks its property, passes the existing tests, and is caught by the quick check of that property.\n\n| change | property | needs | breaks |\n|---|---|---|---|\n"
for p in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    out += f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
open(os.path.join(here, "DESIGN.md"), "w").write(out)
