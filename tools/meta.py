"""The properties and how they are claimed. `python3 tools/meta.py` rewrites
properties.jsonl and MANIFEST.json from this table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPE = "src/configparserenhanced/ConfigParserEnhanced.py"

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mechanism, observe, note, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier={"over": over, "text": text},
                      why_tests_cant=why, anchors=a))
    PROPS[-1]["_note"] = note


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())


def main():
    lines = []
    checks = []
    for p in PROPS:
        note = p.pop("_note")
        lines.append(json.dumps(p, ensure_ascii=False))
        if note is None:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3-vt -m sx.run %s --tier quick" % p["id"],
            "thorough_cmd": "python3-vt -m sx.run %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "bounded symbolic execution of the Python source, z3 decides every branch and assertion",
            "level": "model_checking",
            "level_note": note + " Holds for every value within the stated bounds; trusted: the executor's "
                          "models of Python built-ins (every counterexample, and a sample of the explored paths, "
                          "is replayed on the unmodified code), z3."})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3-vt -c 'import z3' && python3-vt tests/test_sre.py",
         "checks": checks,
         "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
         "notes": "No hooks in /repo: the checks instrument the source while loading it."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
