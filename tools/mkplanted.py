#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.

Run by hand after planting; no check reads seeded/."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append("| `%s` | %s | %s | %s |" % (d.name, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
head = """## Planted bugs

%d changes in `seeded/` (each compiles, passes the 107 tests, and has a
demonstration that fails only with it). Every one is caught by the quick check of
its own property, most within a few seconds of exploration; many are caught by
other checks too (the oracles overlap). They were written in ten series, each
from the statements of the properties and the code alone; what a series showed to
be missing was added to the workloads or oracles (not to fit the bug, but the
class: stalled callers while many types are first used, dense escapes at block
boundaries, values mutated and encoded again at the same address, repeated
options, outputs changed in one place, values that share parts, ...). `tools/mkplanted.py` writes this table.

| change | property | what it breaks | what it needs |
|---|---|---|---|
""" % len(rows)
p = root / "DESIGN.md"
s = p.read_text()
new = head + "\n".join(rows) + "\n\n"
if "@@PLANTED@@\n" in s:
    s = s.replace("@@PLANTED@@\n", new)
else:
    i, j = s.index("## Planted bugs"), s.index("## Not applicable")
    s = s[:i] + new + s[j:]
p.write_text(s)
