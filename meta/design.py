"""Writes /verif/DESIGN.md from meta/props.py, the RULE text of each check, known_findings.json, seeded/*/meta.json and the text below."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/meta", V + "/props", V + "/vlib"]
from props import PROPS

HEAD = open(V + "/meta/design_head.md").read()
TAIL = open(V + "/meta/design_tail.md").read()
ENGINE = json.load(open(V + "/meta/design_notes.json"))
out = [HEAD]
out.append("## 3. The properties, one by one\n")
for p in sorted(PROPS, key=lambda p: p["id"]):
    if "na" in p:
        continue
    m = importlib.import_module(p["id"].lower())
    n = ENGINE[p["id"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Quantifies over:* %s.\n" % p["forall"])
    out.append("*What is analysed:* %s\n" % n[0])
    out.append("*Rule decided:* %s\n" % " ".join(m.RULE.split()))
    out.append("*Oracle, bounds, cost:* %s\n" % n[1])
    out.append("*Why the tests cannot settle it:* %s\n" % p["tests"])
out.append("## 4. Not decided by this family (not_applicable in MANIFEST.json)\n")
for p in PROPS:
    if "na" in p:
        out.append("- **%s %s**: %s" % (p["id"], p["title"], p["na"]))
out.append("\n## 5. Genuine defects found on the original tree\n")
out.append("Each was confirmed against the real code (a failing program, archive or schedule) before it was repaired in a `fix:` commit of /repo; the check that reported it passes on the repaired tree "
           "and reports it again if the repair is undone.  known_findings.json lists them; no finding is left open.\n")
for f in json.load(open(V + "/known_findings.json"))["fixed"]:
    out.append("- " + f[len("fixed: property="):])
out.append("\n## 6. Planted bugs and which checks catch them\n")
out.append("| seeded/ | property | needs | caught by |\n|---|---|---|---|")
caught = json.load(open(V + "/meta/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, "")))
out.append("")
out.append(TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(out))
