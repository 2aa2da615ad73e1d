"""Exhaustive exploration of the decision tree of a property's scenarios.

A task is (scenario, inputs, bound): run the code on `inputs`; every decision
taken at index >= bound is then flipped by the SMT solver under the decisions
before it.  Each feasible path is run exactly once.
"""
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import runner
from .runner import Scratch, run_symbolic, run_native


class Stats:
    FIELDS = ("paths", "decisions", "checks", "queries", "cached", "sat", "unsat", "unknown",
              "solver_s", "validated", "mismatch", "diverged", "assumed", "budget", "steps",
              "assertq")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.functions = set()
        self.notes = {}
        self.per = {}
        self.samples = []
        self.problems = []
        self.maxdepth = 0
        self.maxatoms = 0

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.functions |= o.functions
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v
        for k, v in o.per.items():
            p = self.per.setdefault(k, {"paths": 0, "decisions": 0})
            p["paths"] += v["paths"]
            p["decisions"] += v["decisions"]
        for s in o.samples:
            if len(self.samples) < 12 and sum(1 for x in self.samples if x["scenario"] == s["scenario"]) < 2:
                self.samples.append(s)
        self.problems.extend(o.problems[:5])
        self.maxdepth = max(self.maxdepth, o.maxdepth)
        self.maxatoms = max(self.maxatoms, o.maxatoms)


def step(prop, task, solver, scratch, st, every, counter):
    scen, inputs, bound, ph, excl = task
    r = run_symbolic(prop, scen, inputs, (), scratch)
    st.paths += 1
    st.steps += r.steps
    p = st.per.setdefault(scen, {"paths": 0, "decisions": 0})
    p["paths"] += 1
    new = max(0, len(r.branches) - (bound - 1 if bound else 0))
    st.decisions += new
    p["decisions"] += new
    st.maxdepth = max(st.maxdepth, len(r.branches))
    st.checks += r.checks
    st.functions |= r.functions
    for k, v in r.notes.items():
        st.notes[k] = st.notes.get(k, 0) + v
    fails = []
    h = 0
    fixed = bound - 1 if excl else bound      # decisions fixed by the task
    for i in range(min(fixed, len(r.branches))):
        h = hash((h, r.branches[i][0], r.branches[i][1]))
    if bound and (len(r.branches) < bound or h != ph or excl and r.branches[fixed][2] != 'p'):
        st.diverged += 1
        st.problems.append("diverged: %s %r" % (scen, inputs))
    val = dict(r.val)
    if r.status == "assume":
        st.assumed += 1
    if r.status == "budget":
        st.budget += 1
    if len(st.samples) < 3:
        st.samples.append({"scenario": scen, "status": r.status, "decisions": len(r.branches),
                           "inputs": show_inputs(r)})
    bad = r.status in ("fail", "crash", "budget", "abort")
    counter[0] += 1
    ordered = any(k.startswith("setorder") and v for k, v in val.items())
    if bad or counter[0] <= 40 or counter[0] % every == 0:
        n = run_native(prop, scen, val, scratch)
        st.validated += 1
        same = n.status == r.status or (r.status == "budget" and n.status == "hang")
        if same and r.status == "ok":
            from .api import nat_eq
            same = nat_eq(list(map(list, r.observed)), list(map(list, n.observed)))
        if not same and not ordered:
            st.mismatch += 1
            st.problems.append("native differs: %s sym=%s/%s nat=%s/%s inputs=%r\nsym=%.600r\nnat=%.600r\n%s%s" % (
                scen, r.status, r.msg, n.status, n.msg, show_inputs(r), r.observed, n.observed,
                r.tb or "", n.tb or ""))
        if n.status in ("fail", "crash", "hang") or bad:
            fails.append({"scenario": scen, "inputs": val, "message": n.msg or r.msg,
                          "sym": r.status, "nat": n.status, "tb": n.tb or r.tb,
                          "shown": show_inputs(r)})
    out = []
    hs = [0]
    for b in r.branches:
        hs.append(hash((hs[-1], b[0], b[1])))
    for i in range(len(r.branches) - 1, fixed - 1, -1):
        ex = ()
        pin = r.branches[i][2] == "p"
        if pin and excl and i == fixed:
            ex = excl
        try:
            if r.branches[i][2] == "a":
                st.assertq += 1
            m = solver.flip(r.vars, r.branches, i, ex)
        except Exception as e:
            if type(e).__name__ == "Unknown":
                st.unknown += 1
                st.problems.append("solver unknown: " + str(e))
                continue
            raise
        if m is not None:
            ni = dict(val)
            ni.update(m)
            if pin:
                out.append((scen, ni, i + 1, hs[i], ex + (r.branches[i][0],)))
            else:
                out.append((scen, ni, i + 1,
                            hash((hs[i], r.branches[i][0], not r.branches[i][1])), ()))
    return out, fails


def show_inputs(r):
    """Inputs grouped back into strings, for humans."""
    strs = {}
    out = {}
    for n, v in r.vars.items():
        c = r.val[n]
        if v.kind == "c":
            base, _, idx = n.rpartition("[")
            strs.setdefault(base, []).append((int(idx[:-1]), chr(c)))
        else:
            out[n] = c
    for b, l in strs.items():
        out[b] = "".join(c for _, c in sorted(l))
    return out


def worker(prop, conn, every):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from .solver import Solver
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    scratch = Scratch()
    solver = Solver()
    counter = [0]
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            tasks, slice_s = msg
            st = Stats()
            stack = list(tasks)
            fails = []
            q0 = (solver.queries, solver.cached, solver.sat, solver.unsat, solver.time)
            t1 = time.time() + slice_s
            try:
                while stack and time.time() < t1:
                    t = stack.pop()
                    o, f = step(prop, t, solver, scratch, st, every, counter)
                    stack.extend(reversed(o))
                    fails.extend(f)
                    if f:
                        break
            except Exception:
                conn.send(("error", traceback.format_exc()))
                return
            st.queries = solver.queries - q0[0]
            st.cached = solver.cached - q0[1]
            st.sat = solver.sat - q0[2]
            st.unsat = solver.unsat - q0[3]
            st.solver_s = solver.time - q0[4]
            st.maxatoms = solver.maxatoms
            if len(solver.cache) > 300000:
                solver.cache.clear()
            conn.send(("done", stack, fails, st))
    except (EOFError, KeyboardInterrupt):
        pass
    finally:
        scratch.close()


def explore(prop, scens, procs, deadline, on_fail, every=25, log=None):
    """Returns (Stats, exhausted).  on_fail(f) -> True to stop."""
    total = Stats()
    pend = {s: [(s, {}, 0, 0, ())] for s in scens}     # backlog of each scenario

    def npend():
        return sum(map(len, pend.values()))

    ctx = mp.get_context("fork")
    conns = []
    ws = []
    for _ in range(procs):
        a, b = ctx.Pipe()
        w = ctx.Process(target=worker, args=(prop, b, every), daemon=True)
        w.start()
        b.close()
        conns.append(a)
        ws.append(w)
    idle = list(range(procs))
    busy = {}
    stop = False
    exhausted = True
    last = time.time()
    spent = {}
    try:
        while True:
            left = npend()
            if time.time() > deadline and left:
                exhausted = False
                pend = {}
                left = 0
            while idle and left and not stop:
                # the scenario that got least time so far goes first
                s = min((s for s in pend if pend[s]), key=lambda s: spent.get(s, 0))
                q = pend[s]
                k = max(1, min(8, len(q) // (2 * len(idle)) or 1, len(q)))
                batch = [q.pop() for _ in range(k)]
                left -= k
                sl = 0.15 if left < 4 * procs else 1.0
                spent[s] = spent.get(s, 0) + sl
                i = idle.pop()
                conns[i].send((batch, sl))
                busy[conns[i]] = i
            if not busy:
                break
            for c in mp.connection.wait(list(busy), timeout=1.0):
                i = busy.pop(c)
                try:
                    m = c.recv()
                except EOFError:
                    raise RuntimeError("worker died")
                if m[0] == "error":
                    raise RuntimeError("worker failed:\n" + m[1])
                _, rest, fails, st = m
                total.merge(st)
                if not stop:
                    for t in rest:
                        pend.setdefault(t[0], []).append(t)
                    for f in fails:
                        if on_fail(f):
                            stop = True
                            exhausted = False
                            pend = {}
                            break
                idle.append(i)
            if log and time.time() - last > 10:
                last = time.time()
                log("paths=%d pending=%d queries=%d fails? %s" % (total.paths, npend(), total.queries, total.per))
    finally:
        for c in conns:
            try:
                c.send(None)
            except Exception:
                pass
        for w in ws:
            w.join(2)
            if w.is_alive():
                w.terminate()
                w.join(2)
    return total, exhausted


import multiprocessing.connection  # noqa: E402
