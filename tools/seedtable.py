"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
head = s[:s.index("## 6. Planted bugs")]
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
open(p, "w").write(head + "## 6. Planted bugs\n\nEach passes the stable tests and is caught by the check of the property in the second column (`tools/seed.py checks`).\n\n"
                   "| id | caught by | breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
