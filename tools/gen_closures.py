"""verus/closures.json: how many closures each function under contract has (those without a contract are enough for its proof)"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from units import UNITS
out = {}
for u in UNITS:
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([V + "/vx/target/debug/vx", "/repo", "%s/verus/%s.tpl" % (V, u), d + "/a.rs", d + "/a.json"], check=True)
        n = {}
        for x in json.load(open(d + "/a.json"))["extracted"]:
            if x.get("closures"):
                n[x["name"]] = max(x["closures"], n.get(x["name"], 0))
        if n:
            out[u] = n
json.dump(out, open(V + "/verus/closures.json", "w"), indent=1, sort_keys=True)
