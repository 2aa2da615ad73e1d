"""List planted changes that touch lines which the repository's `fix:` commits added."""
import os, re, subprocess
S = "/verif/seeded"
orig = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()
fixes = set(x for x in subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^fix:"], capture_output=True, text=True).stdout.split())


def isfix(f, ln):
    b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-L", "%d,%d" % (ln, ln), "--", f], capture_output=True, text=True).stdout
    return bool(b) and any(x.startswith(b.split()[0].lstrip("^")) for x in fixes)


for i in sorted(os.listdir(S)):
    f = None
    n = o = ins = 0
    plus = False
    for l in open(os.path.join(S, i, "patch.diff")):
        l = l.rstrip("\n")
        if l.startswith("--- "):
            f = l[6:]
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            if isfix(f, ln):
                n += 1
            else:
                o += 1
            plus = True
            ln += 1
        elif l.startswith("+") and not l.startswith("+++"):
            # inserted between two lines of a fix: counted as a change of the fix
            if not plus and isfix(f, ln - 1) and isfix(f, ln):
                ins += 1
            plus = True
        elif l.startswith(" "):
            plus = False
            ln += 1
    if n or ins and not o:
        print(i, "removes original lines:", o, "fix lines:", n, "-> mutants/")
        os.makedirs("/verif/mutants", exist_ok=True)
        os.rename(os.path.join(S, i), os.path.join("/verif/mutants", i))
