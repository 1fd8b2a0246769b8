"""Fill the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | caught by | what it breaks |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], caught.get(i, "missed"), m["what_it_breaks"]))
d = os.path.join(V, "DESIGN.md"); s = open(d).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@@SEEDS@@", t) if "@@SEEDS@@" in s else re.sub(r"<!-- seeds -->.*<!-- end -->", lambda m: t, s, flags=re.S)
open(d, "w").write(s)
