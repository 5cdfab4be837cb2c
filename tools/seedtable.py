"""rewrite the table of planted bugs in DESIGN.md (section 5)"""
import glob, json, os, re
rows = []
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
t = "All of them are caught by the quick check of their property (seed 1).\n\n| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
s = open("DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
