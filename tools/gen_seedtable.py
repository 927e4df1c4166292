"""the table of planted bugs in DESIGN.md, from seeded/*/meta.json"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF_ONLY = {"c17-unreadable"}
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], "failed obligation" if i in PROOF_ONLY else "failing input", d["what_it_breaks"].rstrip(".")))
t = "## 8. Planted bugs\n\nEach is caught by the check of its own property (column 2); by which means in column 3, where \"failing input\" has the oracle's\ninput in the replay file beside the failed obligations, if any.\n\n| id | check | reported with | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = V + "/DESIGN.md"; s = open(p).read()
i = s.find("## 8. Planted bugs")
j = s.find("\n## 9.", i) if i >= 0 else -1
s = (s[:i] if i >= 0 else s.rstrip() + "\n\n") + t + (s[j:] if j >= 0 else "")
open(p, "w").write(s)
