"""Reference semantics of the environment variable operations."""


NAME = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"


class Refused(Exception):
    pass


def expand(value, env):
    """`$NAME` and `${NAME}` of variables that are set; others stay."""
    out = ""
    i = 0
    while i < len(value):
        if value[i] == "$" and i + 1 < len(value):
            j = i + 1
            if value[j] == "{":
                k = j + 1
                while k < len(value) and value[k] != "}":
                    k += 1
                if k < len(value):
                    name = value[j + 1:k]
                    if name in env:
                        out += env[name]
                    else:
                        out += value[i:k + 1]
                    i = k + 1
                    continue
            else:
                k = j
                while k < len(value) and value[k] in NAME:
                    k += 1
                if k > j:
                    name = value[j:k]
                    if name in env:
                        out += env[name]
                    else:
                        out += value[i:k]
                    i = k
                    continue
        out += value[i]
        i += 1
    return out


def without(entries, x):
    return [e for e in entries if e != x]


def remove_all(text, sub):
    if sub == "":
        return text
    out = ""
    i = 0
    while i < len(text):
        if text[i:i + len(sub)] == sub:
            i += len(sub)
        else:
            out += text[i]
            i += 1
    return out


def op(env, name, var, value, exes, allow_empty=True):
    """The environment after an operation, or Refused."""
    env = dict(env)
    old = env[var] if var in env else None
    if value is not None and value != "" and "$" in value:
        value = expand(value, env)

    def assign(v):
        if v == "" and not allow_empty:
            raise Refused()
        env[var] = v
    if name == "set":
        assign(value)
    elif name == "set_if_empty":
        if old is None or old == "":
            assign(value)
        elif value == "" and not allow_empty:
            raise Refused()
    elif name == "append":
        assign(value if old is None else old + ":" + value)
    elif name == "prepend":
        assign(value if old is None else value + ":" + old)
    elif name == "unset":
        if old is not None:
            del env[var]
    elif name == "remove_substr":
        if old is not None:
            assign(remove_all(old, value))
    elif name == "remove_path_entry":
        if old is not None:
            assign(":".join(without(old.split(":"), value)))
    elif name == "find_in_path":
        assign(exes[value] if value in exes else "")
    elif name == "assert_not_empty":
        if old is None or old == "":
            raise Refused()
    else:
        raise Refused()
    return env


def stub_search(sx, exes):
    """Stand-ins for the search of executables."""
    import shutil
    try:
        import distutils.spawn as ds
    except ImportError:
        ds = None

    def look(name, *a, **k):
        return exes[name] if name in exes else None
    sx.patch(shutil, "which", look)
    if ds is not None:
        sx.patch(ds, "find_executable", look)
