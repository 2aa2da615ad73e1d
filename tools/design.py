"""Writes DESIGN.md: head, one section per property (bounds are read from the harnesses), tail."""
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "props"))
sys.dont_write_bytecode = True
WHY = {}
exec(open(os.path.join(HERE, "tools", "design_why.py")).read())
out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    try:
        m = importlib.import_module("p_" + p["id"])
    except ImportError:
        continue
    out.append("### %s %s\n\n" % (p["id"], p["title"]))
    out.append(textwrap.fill(WHY.get(p["id"], ""), 118) + "\n\n")
    if getattr(m, "ASSUMPTIONS", []):
        out.append("Assumed: " + "; ".join(m.ASSUMPTIONS) + ".\n\n")
    for s in m.SCENARIOS:
        t = " (thorough only)" if "quick" not in s.get("tiers", ("quick",)) else ""
        out.append("- `%s`%s: %s\n" % (s["name"], t, s["bounds"]))
    out.append("\n")
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
