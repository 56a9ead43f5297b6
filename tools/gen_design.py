"""fill the table of planted bugs in DESIGN.md (between the two section headings) from seeded/*/meta.json"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |".replace("\n", " "))
t = open(V + "/DESIGN.md").read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("@SEEDS@", new) if "@SEEDS@" in t else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: new, t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
