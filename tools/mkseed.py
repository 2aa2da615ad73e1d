"""Create planted bugs: python3 tools/mkseed.py SPEC.py [ids]
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
Works on a scratch copy of /repo's HEAD mounted over /repo in a private namespace.
Each is kept only if it applies, passes the stable tests, and its demo passes
without and fails with the change."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEED = "/verif/seeded"
HERE = os.path.dirname(os.path.abspath(__file__))
DEMO = '''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD/src:$PWD/wip/setenvironment/src:$PWD/wip/keywordparser:$PWD/wip/determinesystem:$PWD/wip/loadenv:$PWD/wip/genconfig:$PWD/wip/genconfig/src"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
repo="$PWD"
cd "$scratch" && REPO="$repo" /opt/venv/bin/python "$here/demo.py"
'''


def inrepo(copy, *cmd, timeout=300):
    try:
        return subprocess.run([HERE + "/withrepo.sh", copy] + list(cmd), capture_output=True, text=True,
                              timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def tests(copy, tmp):
    out = tmp + "/t.json"
    inrepo(copy, "bash", "/opt/vp/test.sh", out)
    o = json.load(open(out))
    b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(o["passed"]))


def one(b, tmp):
    copy = tmp + "/repo"
    d = os.path.join(SEED, b["id"])
    if os.path.exists(d) or os.path.exists(d.replace("seeded", "mutants")):
        return "EXISTS"
    t = tmp + "/seed"
    os.makedirs(t)
    open(os.path.join(t, "demo.sh"), "w").write(DEMO)
    open(os.path.join(t, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(t, "meta.json"), "w"), indent=1)
    r = inrepo(copy, "bash", t + "/demo.sh")
    if r.returncode != 0:
        return "REJECT demo fails on the clean tree: " + r.stdout[-300:] + r.stderr[-600:]
    for f, old, new in b["edits"]:
        p = os.path.join(copy, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "REJECT %s: %d matches of %r" % (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(t, "patch.diff"), "w").write(diff)
    r = inrepo(copy, "bash", t + "/demo.sh")
    if r.returncode == 0:
        return "REJECT demo passes with the change"
    x = tests(copy, tmp)
    if x:
        return "REJECT tests fail: %s" % x[:4]
    shutil.copytree(t, d)
    return "ok " + b["prop"] + "  [" + (r.stderr.strip().splitlines() or r.stdout.strip().splitlines() or ["?"])[-1][:110] + "]"


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="mkseed")
        try:
            subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
            subprocess.run(["git", "-C", tmp + "/repo", "checkout", "-q", "--", "."], check=True)
            print(b["id"], one(b, tmp), flush=True)
        finally:
            shutil.rmtree(tmp)


main()
