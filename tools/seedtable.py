"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c29_topic_count": "bags in which several channels share a topic",
    "c08_gorilla_bound": "values that take the longest form of every code at once",
    "c16_tiny_resolution": "resolutions at the ends of the float range",
    "c20_zero_resolution": "resolution 0 and below, not-a-number",
    "c11_zstd_unknown_size": "every form a compressed chunk can have",
    "c30_all_schemas": "schemas that no channel uses",
    "c30_limit_once": "memory that grows before larger messages come",
    "c01_beyond_4gib": "clouds of more than 4 GiB",
}
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    needs = " ".join(m["needs"].split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], needs, "missed at first, then added: " + MISSED[d] if d in MISSED else "caught"))
t = "<!-- seeds -->\n| planted bug | caught by | needs | |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->|SEEDTABLE", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
