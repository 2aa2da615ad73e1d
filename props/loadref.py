"""Reference of what a build name selects, and the files of the examples."""

SYSTEMS = "[mach1]\nhosta\n[mach2]\nhostb.*  # b\n"
ENVS = ("[mach1]\ngcc-9:\n  gnu\n  def # default\ngcc:\nintel-18.0:\n  intel\n"
        "[mach2]\ngcc:\n  gnu\nclang:\n  def\n")
TABLE = {"mach1": [("gcc-9", ["gnu", "def"]), ("gcc", []), ("intel-18.0", ["intel"])],
         "mach2": [("gcc", ["gnu"]), ("clang", ["def"])]}
HOSTS = {"hosta": "mach1", "hostb7": "mach2", "other": None}


class Refused(Exception):
    pass


def system(build, host, force):
    named = [s for s in TABLE if s in build.lower().split("_")]
    h = HOSTS[host]
    if len(named) > 1:
        raise Refused()
    if named:
        if h == named[0] or force:
            return named[0]
        raise Refused()
    if h is None:
        raise Refused()
    return h


def env(build, host, force):
    s = system(build, host, force)
    w = "_" + build + "_"
    for n, a in sorted(TABLE[s], key=lambda p: -len(p[0])):
        if "_" + n + "_" in w:
            return s + "_" + n
    al = [(x, n) for n, a in TABLE[s] for x in a]
    for x, n in sorted(al, key=lambda p: -len(p[0])):
        if "_" + x + "_" in w:
            return s + "_" + n
    raise Refused()


def stripped(build, host, force):
    """The build name without system, environment names and aliases."""
    s = system(build, host, force)
    drop = list(TABLE)
    for n, a in TABLE[s]:
        drop.append(n)
        drop += a
    return "_".join([w for w in build.split("_") if w not in drop and w.lower() not in TABLE])
