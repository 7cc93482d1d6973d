"""table of planted bugs at the end of DESIGN.md (not used by any check)"""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs"
NOTES = {"C15-converting-explicit": "missed at first: converters which exist before the class is defined were added to the driver"}
d = open(HERE + "/DESIGN.md").read()
head = d[:d.index(MARK)]
rows = []
for p in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m, n = json.load(open(p)), os.path.basename(os.path.dirname(p))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/").replace("\n", " "), NOTES.get(n, "")))
open(HERE + "/DESIGN.md", "w").write(head + MARK + """

`/verif/seeded/<id>`; each was confirmed by its demo (quiet on the unchanged tree, failing with the patch) and the stable tests,
and is caught by the quick check of its property unless the last column says otherwise.

| change | caught by | needs | notes |
|---|---|---|---|
""" + "\n".join(rows) + "\n")
