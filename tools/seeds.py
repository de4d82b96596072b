"""Table of the planted changes in DESIGN.md. """
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for path in sorted(glob.glob(here + "/seeded/*/meta.json")):
    meta = json.load(open(path))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(path)), meta["property"], meta["needs"].rstrip(".")))
text = open(here + "/DESIGN.md").read()
head = "| change | caught by | needs |\n|---|---|---|\n"
pos = text.index(head) + len(head)
end = pos + re.match(r"(\|.*\n)*", text[pos:]).end()
open(here + "/DESIGN.md", "w").write(text[:pos] + "\n".join(rows) + "\n" + text[end:])
