"""One symbolic or native run of a scenario."""
import gc
import os
import shutil
import sys
import tempfile
import traceback

from . import core
from .api import SymAPI, NatAPI
from .core import Ctx, CheckFailed, Assumption, StepBudget, SxAbort, concretise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS_DIR = os.path.join(VERIF, "props")
sys.dont_write_bytecode = True


class Scratch:
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="sxrun")
        self.dir = os.path.join(self.base, "w")
        os.mkdir(self.dir)
        self.dirty = False

    def reset(self):
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def scenario_table(loader, prop):
    m = loader.load("p_" + prop)
    if m is None:
        raise RuntimeError("no harness for " + prop)
    return m, {s["name"]: s for s in m.SCENARIOS}


REPO_PATHS = ["/repo/src"]


def harness_paths():
    return [HARNESS_DIR]


class Result:
    __slots__ = ("branches", "vars", "val", "status", "msg", "functions", "notes", "checks",
                 "observed", "steps", "tb", "diverged", "stdout")


def make_loader(paths, instr):
    from .instrument import Loader, load_stdlib
    if instr:
        load_stdlib("posixpath")
    lo = Loader(harness_paths() + list(paths), instr)
    lo.builtins["__import__"] = lo.import_
    return lo


_META = {}


def scenario_meta(prop):
    """SCENARIOS of a harness (read natively, without the code under test)."""
    m = _META.get(prop)
    if m is None:
        lo = make_loader([], False)
        mod, tab = scenario_table(lo, prop)
        m = _META[prop] = (mod, tab)
    return m


def run_symbolic(prop, scen, inputs, prefix, scratch):
    from . import hooks, instrument
    mod, tab = scenario_meta(prop)
    sc = tab[scen]
    scratch.reset()
    ctx = Ctx(inputs, prefix, sc.get("max_steps", 400000))
    hooks.SXB["__sx_lits__"] = []
    core.set_ctx(None)
    loader = make_loader(sc["paths"], True)
    from . import hooks as hk
    ctx.vfs = hk.VFS()
    api = SymAPI(ctx, loader, scratch.dir)
    r = Result()
    r.status = "ok"
    r.msg = None
    r.tb = None
    saved = (sys.stdout, sys.stderr, os.environ, os.getcwd(), list(sys.argv))
    rl = sys.getrecursionlimit()
    try:
        core.set_ctx(ctx)
        hmod = loader.load("p_" + prop)
        getattr(hmod, sc["fn"])(api, **sc.get("kw", {}))
    except CheckFailed as e:
        r.status = "fail"
        r.msg = str(e)
    except Assumption:
        r.status = "assume"
    except StepBudget:
        r.status = "budget"
        r.msg = "step budget exceeded"
    except SxAbort as e:
        r.status = "abort"
        r.msg = str(e)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        r.status = "crash"
        core.CTX.guard = 1
        r.msg = "%s: %s" % (type(e).__name__, core.plain(str(e)) if isinstance(str(e), str) else "?")
        r.tb = "".join(traceback.format_exception(type(e), e, e.__traceback__, limit=-12))
    finally:
        core.set_ctx(None)
        sys.stdout, sys.stderr, os.environ = saved[0], saved[1], saved[2]
        api.cleanup()
        os.chdir(saved[3])
        sys.argv[:] = saved[4]
        sys.setrecursionlimit(rl)
    if ctx.aborted == "steps" and r.status in ("ok", "crash", "fail"):
        r.status = "budget"
    r.branches = ctx.branches
    r.vars = ctx.vars
    r.val = ctx.val
    r.functions = ctx.functions
    r.notes = ctx.notes
    r.checks = ctx.checks
    r.observed = concretise(ctx.observed)
    r.steps = ctx.steps
    r.diverged = ctx.diverged
    return r


class NatTimeout(BaseException):
    pass


def run_native(prop, scen, inputs, scratch, timeout=20):
    import signal
    mod, tab = scenario_meta(prop)
    sc = tab[scen]
    scratch.reset()
    core.set_ctx(None)
    loader = make_loader(sc["paths"], False)
    api = NatAPI(inputs, loader, scratch.dir)
    r = Result()
    r.status = "ok"
    r.msg = None
    r.tb = None
    saved = (sys.stdout, sys.stderr, os.getcwd(), list(sys.argv))

    def alarm(*a):
        raise NatTimeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(timeout)
    try:
        hmod = loader.load("p_" + prop)
        getattr(hmod, sc["fn"])(api, **sc.get("kw", {}))
    except CheckFailed as e:
        r.status = "fail"
        r.msg = str(e)
    except Assumption:
        r.status = "assume"
    except NatTimeout:
        r.status = "hang"
        r.msg = "no answer within %d s" % timeout
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        r.status = "crash"
        r.msg = "%s: %s" % (type(e).__name__, e)
        r.tb = "".join(traceback.format_exception(type(e), e, e.__traceback__, limit=-12))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout, sys.stderr = saved[0], saved[1]
        api.cleanup()
        os.chdir(saved[2])
        sys.argv[:] = saved[3]
    r.observed = api.observed
    r.checks = api.checks
    return r
