"""C22: the status of a module command tells whether it took effect."""
from lib import SEV, PRINT, EXOTIC, without

ASSUMPTIONS = ["modulecmd, the shell and Lmod's Python module are stand-ins"]


class Raw:
    """Bytes whose text is symbolic."""

    def __init__(self, text):
        self.text = text

    def decode(self, *a, **k):
        return self.text


class Proc:
    def __init__(self, out, err, code, text):
        self.returncode = code
        self.stdout = out if text else Raw(out)
        self.stderr = err if text else Raw(err)
        self.pid = 1

    def communicate(self, *a, **k):
        return (self.stdout, self.stderr)

    def wait(self, *a, **k):
        return self.returncode

    poll = wait

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def stub_process(sx, calls, answer):
    """subprocess as far as a caller of one command may use it."""
    import subprocess

    def start(cmd, *a, **k):
        calls.append(cmd)
        out, err, code = answer(cmd)
        text = bool(k.get("text") or k.get("universal_newlines") or k.get("encoding"))
        return Proc(out, err, code, text)

    def run(cmd, *a, **k):
        return start(cmd, *a, **k)
    sx.patch(subprocess, "Popen", start)
    sx.patch(subprocess, "run", run)


def find(sx, table):
    import shutil

    def which(name, *a, **k):
        return table[name] if name in table else None
    sx.patch(shutil, "which", which)
    try:
        import distutils.spawn as ds
        sx.patch(ds, "find_executable", which)
    except ImportError:
        pass


def status(sx, elen, lines):
    """Exit status, stderr, `_mlstatus` and exceptions."""
    mh = sx.module("setenvironment.ModuleHelper")
    find(sx, {"modulecmd": "/opt/modulecmd"})
    err = sx.choice("errpre", ["", "line\nE"]) + sx.string("err", 0, elen, "ERO:r \n") + sx.choice("errpost", ["", "ROR:", ":", "OR: x\n"])
    code = sx.int("code", -1, 2)
    v = sx.string("v", 0, 2, "a b")
    body = sx.choice("body", ["", "import os\nos.environ['X'] = '" + v + "'\n",
                              "os.environ['X'] = '" + v + "'; os.environ.pop('Y', None)"])
    tail = sx.choice("tail", lines)
    calls = []
    stub_process(sx, calls, lambda cmd: (body + "\n" + tail + "\n", err, code))
    sx.capture()
    env = {"X": "old", "Y": "y"}
    sx.environ(env)
    r = sx.attempt(lambda: mh.module("load", "gcc/1"))
    after = dict(sx.env_items())
    sx.observe(r.kind, r.value, after, calls)
    sx.require_eq(calls, [["/opt/modulecmd", "python", "load", "gcc/1"]], "command")
    done = dict(env)
    if body:
        done["X"] = v
    if "pop" in body:
        del done["Y"]
    if "ERROR:" in err:
        sx.require_eq((r.kind, r.value), ("ok", 1), "modulecmd reported an error")
        sx.require_eq(after, env, "environment after a failed command")
    elif code != 0:
        sx.require_eq((r.kind, r.value), ("ok", code), "modulecmd failed")
        sx.require_eq(after, env, "environment after a failed command")
    else:
        sx.require_eq(after, done, "environment after the command")
        if tail == "_mlstatus = False":
            sx.require(r.ok and r.value != 0, "_mlstatus is False")
        elif tail.startswith("raise "):
            sx.require_eq(r.kind, tail[6:].split("(")[0], "output raises")
        elif tail == "1/0":
            sx.require_eq(r.kind, "ZeroDivisionError", "output raises")
        else:
            sx.require_eq((r.kind, r.value), ("ok", 0), "command succeeded")


def arguments(sx):
    """What is passed on: a single argument is split at blanks."""
    mh = sx.module("setenvironment.ModuleHelper")
    find(sx, {"modulecmd": "/opt/modulecmd"})
    calls = []
    stub_process(sx, calls, lambda cmd: ("", "", 0))
    sx.capture()
    n = sx.choice("n", [0, 1, 2, 3])
    args = [sx.string("a%d" % i, 0, 3 if n < 3 else 1, "a /") for i in range(n)]
    how = sx.choice("how", ["text", "list1", "list2"])
    command = {"text": "swap", "list1": ["swap"], "list2": ["swap", "x"]}[how]
    r = sx.attempt(lambda: mh.module(command, *args))
    sx.observe(r.kind, r.value, calls)
    sx.require_eq((r.kind, r.value), ("ok", 0), "result")
    want = ["/opt/modulecmd", "python", "swap"] + (["x"] if how == "list2" else [])
    want += args[0].split() if n == 1 else args
    sx.require_eq(calls, [want], "command")


def argwide(sx):
    """Arguments are passed on with all their characters."""
    mh = sx.module("setenvironment.ModuleHelper")
    find(sx, {"modulecmd": "/opt/modulecmd"})
    calls = []
    stub_process(sx, calls, lambda cmd: ("", "", 0))
    sx.capture()
    blanks = " \t\x0b\x0c\x1c\x1f\x85\u2028\u00a0\u2003\u3000"
    a = sx.choice("pre", ["", "a"]) + sx.string("c", 1, 1, without(PRINT + EXOTIC, blanks)) + sx.choice("post", ["", "/b"])
    n = sx.choice("n", [1, 2, 3])
    args = [a, "-" + a, "z"][:n]
    r = sx.attempt(lambda: mh.module("load", *args))
    sx.observe(r.kind, r.value, calls)
    sx.require_eq((r.kind, r.value), ("ok", 0), "result")
    sx.require_eq(calls, [["/opt/modulecmd", "python", "load"] + args], "command")


def listed(sx):
    """The words of a command given as a list are passed on in order, and any exit status is returned."""
    mh = sx.module("setenvironment.ModuleHelper")
    find(sx, {"modulecmd": "/opt/modulecmd"})
    calls = []
    code = sx.int("code", -64, 255)
    stub_process(sx, calls, lambda cmd: ("", "", code))
    sx.capture()
    ws = [sx.choice("w%d" % i, ["load", "-f", "--no-pager", "x/1", "x", "2"]) for i in range(sx.choice("n", [1, 2, 3]))]
    args = [sx.choice("a%d" % i, ["-f", "y", "x"]) for i in range(sx.choice("m", [0, 1, 2]))]
    given = list(ws)
    r = sx.attempt(lambda: mh.module(given, *args))
    sx.observe(r.kind, r.value, calls)
    sx.require_eq((r.kind, r.value), ("ok", code), "exit status")
    sx.require_eq(calls, [["/opt/modulecmd", "python"] + ws + args], "command")
    sx.require_eq(given, ws, "list of the caller")


def sequence(sx):
    """Each call stands on its own."""
    mh = sx.module("setenvironment.ModuleHelper")
    find(sx, {"modulecmd": "/opt/modulecmd"})
    kinds = ["set", "fail", "code", "ml", "mltrue", "none"]
    k = [sx.choice("k%d" % i, kinds) for i in range(3)]
    outs = {"set": ("import os\nos.environ['X'] = os.environ['X'] + 's'\n", "", 0),
            "fail": ("import os\nos.environ['X'] = 'bad'\n", "xERROR:1", 0),
            "code": ("import os\nos.environ['X'] = 'bad'\n", "", 7),
            "ml": ("_mlstatus = False\n", "", 0), "mltrue": ("_mlstatus = True\n", "", 0), "none": ("", "warning", 0)}
    calls = []
    stub_process(sx, calls, lambda cmd: outs[k[len(calls) - 1]])
    sx.capture()
    sx.environ({"X": ""})
    x = ""
    for i in range(3):
        r = sx.attempt(lambda: mh.module("load", "m%d" % i))
        sx.observe(r.kind, r.value)
        if k[i] == "set":
            x += "s"
        sx.require_eq((r.kind, r.value), ("ok", {"fail": 1, "code": 7, "ml": 1}.get(k[i], 0)), "status %d" % i)
        sx.require_eq(dict(sx.env_items()), {"X": x}, "environment %d" % i)
    sx.require_eq([c[3] for c in calls], ["m0", "m1", "m2"], "commands")


def locate(sx):
    """Where modulecmd is found, and that its absence raises."""
    mh = sx.module("setenvironment.ModuleHelper")
    p = "/" + sx.string("p", 1, 2, "ab/")
    table = {}
    if sx.bool("inpath"):
        table["modulecmd"] = "/opt/modulecmd"
    if sx.bool("there"):
        table[p] = p
    find(sx, table)
    shape = sx.choice("shape", ["none", "one", "two", "other", "sh"])
    text = {"none": "", "one": "module is a function\nmodule ()\n{\n    eval `" + p + " bash $*`\n}\n",
            "two": "eval `" + p + " bash $*`\neval `" + p + "x bash $*`\n", "other": "module () {\n  echo " + p + "\n}\n",
            "sh": "    eval `" + p + " sh $*`\n"}[shape]
    calls = []

    def answer(cmd):
        if isinstance(cmd, str):
            return (text, "", 0)
        return ("import os\nos.environ['X'] = '1'\n", "", 0)
    stub_process(sx, calls, answer)
    sx.capture()
    sx.environ({"X": "0"})
    r = sx.attempt(lambda: mh.module("load", "m"))
    sx.observe(r.kind, r.value)
    if "modulecmd" in table:
        cmd = "/opt/modulecmd"
    elif shape == "one" and p in table:
        cmd = p
    else:
        cmd = None
    env = dict(sx.env_items())
    if cmd is None:
        sx.require_eq(r.kind, "FileNotFoundError", "no modulecmd")
        sx.require_eq(env, {"X": "0"}, "environment")
        sx.require(all(isinstance(c, str) for c in calls), "nothing executed")
    else:
        sx.require_eq((r.kind, r.value), ("ok", 0), "command")
        sx.require_eq(env, {"X": "1"}, "environment")
        sx.require_eq(calls[-1], [cmd, "python", "load", "m"], "command")


def shell(cmd, loaded, files):
    """Status of `[!] test [&& a] [|| b]`."""
    w = cmd.replace(";", " ;").split()
    neg = w[0] == "!"
    if neg:
        w = w[1:]
    if w[:2] == ["module", "is-loaded"]:
        ok = w[2] in loaded
        rest = w[3:]
    elif w[0] == "[":
        ok = w[2] in files
        rest = w[4:]
    elif w[0] == "test":
        ok = w[2] in files
        rest = w[3:]
    else:
        raise RuntimeError("unexpected command " + cmd)
    if neg:
        ok = not ok
    while rest and rest[0] in ("&&", "||"):
        if ok == (rest[0] == "&&"):
            if rest[1] == "exit":
                return 256 * int(rest[2])
            ok = rest[1] in ("true", ":")
        rest = rest[3:] if rest[1] == "exit" else rest[2:]
    return 0 if ok else 256


def lmod(sx, cmds):
    loaded = []
    if sx.bool("a loaded"):
        loaded.append("a")
    if sx.bool("b loaded"):
        loaded.append("b")
    if sx.bool("a/1 loaded"):
        loaded.append("a/1")
    calls = []
    err = sx.choice("errpre", ["", "Er"]) + sx.string("err", 0, 3, "rEo: ") + sx.choice("errpost", ["", "ror:", "OR:"])
    exc = sx.choice("exc", [None, ValueError, NameError, SystemExit])
    import sys

    def module(*a):
        calls.append(list(a))
        sys.stderr.write(err)
        if exc is not None:
            raise exc("x")
    sx.stub("env_modules_python", module=module)
    import os
    sx.patch(os, "system", lambda c: shell(c, loaded, ["/there"]))
    cmdset = sx.choice("LMOD_CMD", ["unset", "", "/opt/lmod"])
    sx.environ({} if cmdset == "unset" else {"LMOD_CMD": cmdset})
    mh = sx.module("setenvironment.ModuleHelper")
    sx.capture()
    sx.capture_stderr()
    cmd = sx.choice("cmd", cmds)
    # the command as text, or a list holding it and any number of its arguments
    split = sx.choice("split", list(range(len(cmd) + 1)))
    r = sx.attempt(lambda: mh.module(list(cmd[:split]), *cmd[split:]) if split else mh.module(*cmd))
    sx.observe(r.kind, r.value if r.ok else None, calls)
    if cmdset != "/opt/lmod":
        sx.require_eq(r.kind, "FileNotFoundError", "no module command")
        sx.require_eq(calls, [], "nothing executed")
        return
    sx.require_eq(calls, [list(cmd)], "command")
    if exc is not None:
        sx.require_eq(r.kind, "RuntimeError" if exc is NameError else exc.__name__, "exception")
        return
    sx.require(r.ok, "raised " + r.kind)
    bad = "error:" in err.lower()
    if cmd[0] == "load":
        bad = bad or cmd[1] not in loaded
    elif cmd[0] == "unload":
        bad = bad or cmd[1] in loaded
    elif cmd[0] == "swap":
        bad = bad or cmd[2] not in loaded
    elif cmd[0] == "use":
        bad = bad or cmd[1] != "/there"
    sx.require_eq(r.value != 0, bad, "status")


SCENARIOS = [
    dict(name="status", fn="status", paths=SEV,
         kw=dict(elen=2, lines=["", "_mlstatus = False", "_mlstatus = True", "1/0", "raise SystemExit(1)"]),
         bounds="exit status -1..2, stderr of 0..7 characters, outputs with symbolic values, 5 endings"),
    dict(name="arguments", fn="arguments", paths=SEV, bounds="0..3 arguments of 0..3 symbolic characters"),
    dict(name="argwide", fn="argwide", paths=SEV, bounds="1..3 arguments with any character but blanks"),
    dict(name="listed", fn="listed", paths=SEV, bounds="lists of 1..3 of 6 words with 0..2 arguments, exit status -64..255"),
    dict(name="sequence", fn="sequence", paths=SEV, bounds="3 commands of 6 outcomes"),
    dict(name="locate", fn="locate", paths=SEV, bounds="all combinations of search results, paths of 2..3 characters"),
    dict(name="lmod", fn="lmod", paths=SEV,
         kw=dict(cmds=[("load", "a"), ("unload", "a"), ("swap", "a", "b"), ("swap", "a", "a/1"), ("load", "a/1"),
                  ("unload", "a/1"), ("use", "/there"), ("use", "/no"), ("purge",)]),
         bounds="9 commands, all loaded states, stderr of 0..8 characters, 4 kinds of exception"),
    dict(name="status-4", fn="status", paths=SEV, tiers=("thorough",),
         kw=dict(elen=4, lines=["", "_mlstatus = False"]), bounds="stderr of 0..9 characters"),
]
