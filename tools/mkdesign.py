"""DESIGN.md from tools/DESIGN.tmpl: property table from tools/how.json and gv/info.py, seed table from seeded/*/meta.json and tools/seed_results.json"""
import json, glob, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from gv.info import INFO
T = open(R + "/tools/DESIGN.tmpl").read()
props = {json.loads(l)["id"]: json.loads(l) for l in open(R + "/properties.jsonl")}
cost = json.load(open(R + "/tools/cost.json")) if os.path.exists(R + "/tools/cost.json") else {}
how = json.load(open(R + "/tools/how.json"))
out = []
for i, p in sorted(props.items()):
    if i not in INFO: continue
    f = INFO[i]
    out.append(f"### {i} {p['title']}\n{how[i]}\n\n*Encoded:* " + "; ".join(f["functions"]) + ".\n*Bounds:* " + "; ".join(f["bounds"]) + ".\n*Outside:* " + f["outside"] + ".\n" + (f"*Cost (quick):* {cost[i]}.\n" if i in cost else "") + f"*Beyond the tests:* {p['why_tests_cant']}.\n")
res = json.load(open(R + "/tools/seed_results.json")) if os.path.exists(R + "/tools/seed_results.json") else {}
S = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    S.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {res.get(i, 'not run')} |")
open(R + "/DESIGN.md", "w").write(T.replace("@@TABLE@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(S)))
