"""Set-up of GenConfig with stand-ins for the packages it is combined with."""
from lib import LOD
import loadref
from loadref import Refused

PATHS = LOD + ["/repo/wip/genconfig"]
FLAGS = [("use-mpi", "SELECT_ONE", ["mpi", "no-mpi"]), ("node", "SELECT_ONE", ["serial", "openmp"]),
         ("pkg", "SELECT_MANY", ["none", "zed", "abc"])]
NAMES = ["supported-config-flags", "config-specs", "supported-systems", "supported-envs", "environment-specs"]


def flags_text(flags=FLAGS):
    t = "[configure-flags]\n"
    for n, ty, opts in flags:
        t += n + ": " + ty + "\n" + "".join("    " + o + "\n" for o in opts)
    return t


def options(build, flags=FLAGS):
    """Selected options as text."""
    ws = build.split("_")
    out = ""
    for n, t, opts in flags:
        hit = [o for o in opts if o in ws]
        if t == "SELECT_ONE" and len(hit) > 1:
            raise ValueError(n)
        hit = sorted(hit) if hit else [opts[0]]
        out += "".join("_" + h for h in hit)
    return out


def complete(build, host, force):
    e = loadref.env(build, host, force)
    return e + options(build)


def module(sx, host, used=None):
    """The gen_config module, importable without setprogramoptions."""
    import getpass
    import socket
    sx.patch(socket, "gethostname", lambda: host)
    sx.patch(getpass, "getuser", lambda: "../" + sx.path("tmp"))
    le = sx.module("load_env")
    cpe = sx.module("configparserenhanced")

    class SetProgramOptionsCMake:
        """Lists the options of a section; a missing section is a KeyError."""

        def __init__(self, filename=None):
            self.data = cpe.ConfigParserEnhanced(filename).configparserenhanceddata

        def gen_option_list(self, section, generator="bash"):
            if not self.data.has_section(section):
                raise KeyError(section)
            return [generator + "|" + section] + [k + "=" + v for k, v in self.data.items(section)]
    sx.stub("setprogramoptions", SetProgramOptionsCMake=SetProgramOptionsCMake)
    sx.stub("LoadEnv", load_env=le)
    sx.stub("LoadEnv.load_env", LoadEnv=le.LoadEnv)
    return sx.module("gen_config")


def listing(section, generator, secs):
    return [generator + "|" + section] + [k + "=" + v for k, v in secs[section]]


def files(sx, specs, flags=FLAGS):
    """Writes all configuration files; specs: dict section -> [(key, value)]."""
    t = ""
    for n in specs:
        t += "[" + n + "]\n" + "".join(k + ": " + v + "\n" for k, v in specs[n])
    texts = {"supported-config-flags": flags_text(flags), "config-specs": t, "supported-systems": loadref.SYSTEMS,
             "supported-envs": loadref.ENVS, "environment-specs": "[A]\n"}
    fs = {n: sx.file("ini/" + n + ".ini", texts[n]) for n in NAMES}
    ini = "[gen-config]\n" + "".join(n + ": ../ini/" + n + ".ini\n" for n in NAMES[:2])
    ini += "[load-env]\n" + "".join(n + ": ../ini/" + n + ".ini\n" for n in NAMES[2:])
    return fs, sx.file("conf/gen-config.ini", ini)
