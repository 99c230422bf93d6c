import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import config as C
from methods import METHOD, REST
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))}
rows = ["| id | title | level | functions under contract | what decides it |", "|---|---|---|---|---|"]
for i in C.IDS:
    fs = []
    for c in C.PROOF[i]:
        f = c.split("[")[0].split(".", 1)[1]
        if f not in fs:
            fs.append(f)
    rows.append(f"| {i} | {props[i]['title']} | {C.LEVEL[i]} | {', '.join('`' + f + '`' for f in fs) or '-'} | {METHOD[i]} |")
fixed = "\n".join("* " + x.replace("fixed: ", "") for x in json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"])
seeds = ["| planted bug | property (its check catches it) | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*/meta.json"))):
    m = json.load(open(d))
    seeds.append(f"| {d.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
t = t.replace("@TABLE@", "\n".join(rows)).replace("@FIXED@", "Each is a `fix:` commit in /repo and a `fixed:` line in known_findings.json.\n\n" + fixed).replace("@SEEDS@", "\n".join(seeds)).replace("@REST@", REST)
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
