"""Regenerate the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m.get('caught_by', m['property'])} | {m['needs']} |")
s = open("DESIGN.md").read()
i = s.index("<!-- seeds -->"); j = s.index("<!-- end -->")
open("DESIGN.md", "w").write(s[:i] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[j:])
