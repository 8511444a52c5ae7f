#!/opt/venv/bin/python
"""Regenerates properties.jsonl and MANIFEST.json from the PROPERTY/META of checks/p*.py and notclaimed.py"""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import ply.yacc                                             # noqa: E402
ply.yacc.LRGeneratedTable.write_table = lambda self, *a, **k: None
import importlib                                            # noqa: E402
import pysym.harness as H                                   # noqa: E402
H.preload()

TECH = "symbolic execution of the real Python code with z3 deciding every assertion; replayed counterexamples"
props, checks = [], []
for f in sorted(glob.glob(os.path.join(HERE, "checks", "p*.py"))):
    mod = importlib.import_module("checks." + os.path.basename(f)[:-3])
    p = mod.PROPERTY
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    props.append(p)
    b = mod.META["bounds"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": mod.META.get("technique", TECH),
        "level": "model_checking",
        "level_note": ("Bounded: holds for every value within the bounds (%s). Outside: %s. Trusts: z3, the "
                       "proxy values (floats as reals), %s" % (
                           b["quick"] if isinstance(b, dict) else b, mod.META.get("outside", "-"),
                           "; ".join(mod.META.get("assumptions", [])) or "nothing else"))[:1500],
    })
na = []
import notclaimed                                           # noqa: E402
for p in notclaimed.PROPERTIES:
    props.append(p["property"])
    na.append({"property": p["property"]["id"], "reason": p["reason"]})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {"version": 1,
       "setup_cmd": "python3 setup_check.py",
       "checks": checks, "not_applicable": na,
       "notes": "Deciding method of every check: z3 over symbolic execution of the code imported from /repo "
                "(pysym/). No hooks in /repo. Genuine defects found: known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
import jsonschema                                           # noqa: E402
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p, sch)
    assert p["statement"].count(". ") <= 2, p["id"]
# DESIGN.md
out = [open(os.path.join(HERE, "DESIGN_HEAD.md")).read().rstrip() + "\n\n## Properties and how each is decided\n"]
mods = {}
for f in sorted(glob.glob(os.path.join(HERE, "checks", "p*.py"))):
    mod = importlib.import_module("checks." + os.path.basename(f)[:-3])
    mods[mod.PROPERTY["id"]] = mod
for i in sorted(mods):
    m = mods[i]
    b = m.META["bounds"]
    b = b if isinstance(b, dict) else dict(quick=b, thorough=b)
    out.append("### %s %s\n\n%s\n\n* Decided by: %s\n* Code: %s\n* Bounds (quick, %d cases): %s\n* Bounds (thorough, %d cases): %s\n"
               "* Outside: %s\n* Assumes: %s\n* Beyond tests: %s\n" % (
                   i, m.PROPERTY["title"], m.PROPERTY["statement"], m.META.get("how", "see checks/%s.py" % i.lower()),
                   "; ".join(x["where"] for x in m.PROPERTY["anchors"]["mechanism"]), len(m.cases("quick")), b["quick"],
                   len(m.cases("thorough")), b["thorough"], m.META.get("outside", "-"),
                   "; ".join(m.META.get("assumptions", [])) or "-", m.PROPERTY["why_tests_cant"]))
if notclaimed.PROPERTIES:
    out.append("## Properties not claimed\n")
    for p in notclaimed.PROPERTIES:
        out.append("* %s %s: %s" % (p["property"]["id"], p["property"]["title"], p["reason"]))
    out.append("")
out.append("## Planted bugs (seeded/) and what catches them\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
cf = os.path.join(HERE, "catches.json")
catches = json.load(open(cf)) if os.path.exists(cf) else {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], catches.get(i, "not yet run")))
out.append("\n## Defects found in PyConform\n")
for line in open(os.path.join(HERE, "known_findings.txt")):
    if line.strip() and not line.startswith("#"):
        out.append("* " + line.strip())
tail = os.path.join(HERE, "DESIGN_TAIL.md")
if os.path.exists(tail):
    out.append("\n" + open(tail).read().rstrip())
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
print("%d properties, %d claimed" % (len(props), len(checks)))
