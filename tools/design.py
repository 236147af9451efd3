"""Fills the tables of DESIGN.md from MANIFEST.json, known_findings.json and seeded/*/meta.json (template: tools/DESIGN.in.md)."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from approach import APPROACH

def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    na = {n["property"]: n["reason"] for n in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["not_applicable"]}
    out = ["## Properties", ""]
    for p in props:
        out += ["### %s %s" % (p["id"], p["title"]), ""]
        out += ["Not applicable: " + na[p["id"]] if p["id"] in na else APPROACH[p["id"]].strip(), ""]
    t = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
    t = t.replace("@@PROPS@@", "\n".join(out))
    t = t.replace("@@FIXES@@", "\n".join("* " + f[len("fixed: "):] for f in kf["fixed"]))
    t = t.replace("@@KNOWN@@", "\n".join("* %s: %s" % (f["property"], f["what"]) for f in kf["findings"]))
    rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/"), d.get("caught_by", d["property"])))
    t = t.replace("@@SEEDED@@", "\n".join(rows))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)

main()
