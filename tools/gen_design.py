"""writes DESIGN.md and checks that KNOWN_FINDINGS.txt is in step with it"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pbt import core  # noqa: E402
core.setup_path()
TECH, NOTE, DESIGN = {}, {}, {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read()]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    mod = importlib.import_module("pbt.props." + p["id"].lower())
    out.append("### {} {}\n\n".format(p["id"], p["title"]))
    out.append("Method: {}. {}\n\n".format(TECH[p["id"]], DESIGN[p["id"]]))
    out.append("Generated: {}.\n\n".format(mod.RULE))
    if mod.ASSUMPTIONS:
        out.append("Assumed: {}.\n\n".format("; ".join(mod.ASSUMPTIONS)))
    out.append("Cases: {}.\n\n".format(", ".join("{} {}/{}".format(x.name, x.quick, x.thorough) for x in mod.PARTS)))
    out.append("Beyond the tests: {}\n\n".format(p["why_tests_cant"]))
tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
fixed = [x[7:].strip() for x in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) if x.startswith("fixed: ")]
rows = ["| property | commit | what failed |", "|---|---|---|"]
for x in fixed:
    a, b, c = x.split(" ", 2)
    rows.append("| {} | {} | {} |".format(a.split("=")[1], b, c))
res = json.load(open(os.path.join(ROOT, "tools", "seeded.json")))
table = ["| bug | needs | caught by |", "|---|---|---|"]
ids = sorted(d for d in os.listdir(os.path.join(ROOT, "seeded")))
for i in ids:
    meta = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    table.append("| {} | {} | {} |".format(i, meta["needs"], res.get(i, "-")))
more = open(os.path.join(ROOT, "tools", "design_more.md")).read() if os.path.exists(
    os.path.join(ROOT, "tools", "design_more.md")) else ""
tail = tail.replace("@FIXED@", "\n".join(rows)).replace("@N@", str(len(ids))).replace("@SEEDED@", "\n".join(table))
out.append(tail.replace("@MORE@", more))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))
