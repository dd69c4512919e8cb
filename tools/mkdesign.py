"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeds.log (last outcome of `seeds.py try`)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = json.load(open(HERE + "/tools/seeds.log.json")) if os.path.exists(HERE + "/tools/seeds.log.json") else {}
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for id in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % id))
    rows.append("| %s | %s | %s | %s | %s |" % (id, m["property"], m["needs"], m["what_it_breaks"], log.get(id, "?")))
p = HERE + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@SEEDS@@", "<!-- seeds -->\n<!-- /seeds -->")
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
