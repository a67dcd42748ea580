"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']}{' (missed)' if m.get('missed') else ''} | {m['what_it_breaks']} | {m['needs']} |")
d = open(V + "/DESIGN.md").read()
h = "## 7. Planted bugs (seeded/)\n\n"
i, j = d.index(h) + len(h), d.index("## 8. Running")
open(V + "/DESIGN.md", "w").write(d[:i] + "Each is caught by the check of its property unless marked (missed).\n\n" + "\n".join(rows) + "\n\n" + d[j:])
