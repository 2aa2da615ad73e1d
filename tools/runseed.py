"""runseed.py [-j N] [ID...]: run the check of each planted bug's property against it, on a scratch copy"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def one(i):
    d = "/verif/seeded/" + i
    if not os.path.isdir(d):
        d = "/verif/mutants/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="runseed")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        subprocess.run(["git", "-C", tmp + "/repo", "checkout", "-q", "--", "."], check=True)
        if subprocess.run(["git", "-C", tmp + "/repo", "apply", d + "/patch.diff"]).returncode:
            return "%s APPLY-FAIL" % i
        os.makedirs(tmp + "/ev"); os.makedirs(tmp + "/rp")
        try:
            r = subprocess.run(["unshare", "-Ur", "-m", "bash", "-c",
                                "mount --bind %s/repo /repo && mount --bind %s/ev /verif/evidence && mount --bind %s/rp /verif/replays && cd /verif && "
                                "exec python3-vt -m sx.run %s --tier quick" % (tmp, tmp, tmp, p)],
                               capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return "%s %s MISSED timeout" % (i, p)
        m = re.search(r"^VIOLATION property=%s .*" % p, r.stdout, re.M)
        if r.returncode == 1 and m:
            s = re.search(r"scenario=(\S+)", r.stdout)
            return "%s %s CAUGHT %s" % (i, p, s.group(1) if s else "?")
        return "%s %s MISSED rc=%s\n   %s" % (i, p, r.returncode, (r.stdout + r.stderr)[-300:])
    finally:
        shutil.rmtree(tmp)


def main():
    a = sys.argv[1:]
    n = 2
    if a[:1] == ["-j"]:
        n = int(a[1])
        a = a[2:]
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, a or sorted(os.listdir("/verif/seeded") + os.listdir("/verif/mutants"))):
            print(r, flush=True)


main()
