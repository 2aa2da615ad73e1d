"""Check one property:  python3-vt -m sx.run C01 [--tier quick|thorough]"""
import argparse
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {"PYTHONHASHSEED": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0", "LC_ALL": "C",
       "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8"}
TARGET_PY = "/opt/venv/bin/python"


def reexec():
    if all(os.environ.get(k) == v for k, v in ENV.items()):
        return
    e = dict(os.environ)
    e.update(ENV)
    e.pop("PYTHONPATH", None)
    os.chdir(VERIF)
    os.execve(sys.executable, [sys.executable, "-m", "sx.run"] + sys.argv[1:], e)


def native_confirm(prop, f, path):
    """Replay in a separate process of the project's own interpreter."""
    d = {"property": prop, "scenario": f["scenario"], "inputs": f["inputs"]}
    with open(path, "w") as fh:
        json.dump(dict(d, shown=f.get("shown"), message=f.get("message")), fh, indent=1)
    py = TARGET_PY if os.path.exists(TARGET_PY) else sys.executable
    for seed in ("0", "1", "2", "3", "4", "5", "6", "7"):
        e = dict(os.environ)
        e.update(ENV)
        e["PYTHONHASHSEED"] = seed
        try:
            r = subprocess.run([py, "-m", "sx.replay", path], cwd=VERIF, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return {"status": "hang", "message": "no answer within 60 s"}
        if r.returncode == 1 and r.stdout.strip():
            try:
                return json.loads(r.stdout.decode().strip().splitlines()[-1])
            except ValueError:
                return None
        if not any(k.startswith("setorder") for k in f["inputs"]):
            break
    return None


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def matches(k, f):
    if k.get("scenario") and k["scenario"] != f["scenario"]:
        return False
    sh = f.get("shown") or {}
    for n, v in k.get("inputs", {}).items():
        if sh.get(n) != v:
            return False
    return k.get("message", "") in (f.get("message") or "")


def main():
    reexec()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--procs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--scenario", action="append")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    from . import runner, explore
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    mod, tab = runner.scenario_meta(a.prop)
    scens = [n for n, s in tab.items() if a.tier in s.get("tiers", ("quick", "thorough"))]
    if a.scenario:
        scens = [n for n in tab if n in a.scenario]
    budget = a.budget or getattr(mod, "BUDGET", {}).get(a.tier, 420 if a.tier == "quick" else 3000)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "replays", a.prop + ".json")
    viol = []
    unconfirmed = []
    known = known_findings(a.prop)
    hit = {}

    def on_fail(f):
        if a.v:
            print("candidate:", f["scenario"], f["shown"], f["message"], f["sym"], f["nat"])
            if f.get("tb"):
                print(f["tb"])
        for i, k in enumerate(known):
            if matches(k, f):
                hit[i] = hit.get(i, 0) + 1
                return False
        if len(unconfirmed) > 40:
            return False
        c = native_confirm(a.prop, f, replay)
        if c is None:
            unconfirmed.append(f)
            return False
        f["confirmed"] = c
        viol.append(f)
        return not a.keep_going

    log = (lambda m: print(m, file=sys.stderr)) if a.v else None
    st, exhausted = explore.explore(a.prop, scens, a.procs, t0 + budget, on_fail,
                                    every=5 if a.tier == "thorough" else 25, log=log)
    wall = time.time() - t0
    repo_fns = sorted(f for f in st.functions if not f.startswith(("/", "<")))
    lib_fns = sorted(f for f in st.functions if f.startswith("/usr/lib"))
    ok_all = exhausted and not st.unknown and not st.budget
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": st.paths, "transitions": st.decisions,
            "traces_validated_against_impl": st.validated,
            "samples": st.samples, "exhaustive": bool(ok_all and not viol),
            "technique": "bounded symbolic execution of the repository's Python source; "
                         "every undecided branch and every assertion decided by z3",
            "functions_encoded": repo_fns,
            "library_functions_encoded": [os.path.basename(f.split(":")[0]) + ":" + f.split(":")[1]
                                          for f in lib_fns],
            "bounds": {n: tab[n].get("bounds", "") for n in scens},
            "scenarios": st.per,
            "assertions_evaluated": st.checks,
            "solver": {"queries": st.queries, "answered_from_cache": st.cached, "sat": st.sat,
                       "unsat": st.unsat, "unknown": st.unknown,
                       "assertion_queries": st.assertq,
                       "time_s": round(st.solver_s, 3), "max_slice": st.maxatoms,
                       "max_path_decisions": st.maxdepth},
            "paths_outside_assumptions": st.assumed,
            "paths_over_step_budget": st.budget,
            "replay_mismatches": st.mismatch, "replay_divergences": st.diverged,
            "native_fallbacks": st.notes,
            "unconfirmed_counterexamples": len(unconfirmed),
            "counterexamples": [{"scenario": v["scenario"], "inputs": v["shown"],
                                 "message": v["message"], "confirmed": v["confirmed"]["status"]}
                                for v in viol],
        },
        "wall_s": round(wall, 2),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for i, k in enumerate(known):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    print("%s %s: %d paths, %d decisions, %d assertions, %d solver queries (%d unsat, %d sat, %d cached), "
          "%d replayed natively, %d mismatches, %.1f s, exhaustive=%s" % (
              a.prop, a.tier, st.paths, st.decisions, st.checks, st.queries, st.unsat, st.sat,
              st.cached, st.validated, st.mismatch, wall, ok_all))
    if st.notes and a.v:
        print("notes:", st.notes)
    for p in st.problems[:8 if a.v else 2]:
        print("note:", p if a.v else p[:500], file=sys.stderr)
    for f in unconfirmed[:3]:
        print("note: counterexample not reproduced natively: %s %r %s" % (
            f["scenario"], f["shown"], f["message"]), file=sys.stderr)
    if viol:
        v = viol[0]
        with open(replay, "w") as fh:
            json.dump({"property": a.prop, "scenario": v["scenario"], "inputs": v["inputs"],
                       "shown": v["shown"], "message": v["message"],
                       "replay_cmd": "cd /verif && %s -m sx.replay %s" % (TARGET_PY, replay)}, fh,
                      indent=1)
        for v in viol:
            print("counterexample: scenario=%s inputs=%r" % (v["scenario"], v["shown"]))
            print("  " + str(v["confirmed"].get("message") or v["message"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    return 0


if __name__ == "__main__":
    sys.exit(main())
