"""Process set-up: environment, seams, and the library under test.

Everything the library can observe that is not a pure function of its inputs is
replaced here, before the library is imported: the NLP solver factory, the
clocks, standard output.  The replacements dispatch to the simulation running
on the calling thread (sim.kernel.current()); without one they fall through.
"""
import os, sys

ENV = dict(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONNOUSERSITE="1")
REPO = os.environ.get("MPOPT_REPO", "/repo")
PY = os.environ.get("MPOPT_PYTHON", "/opt/venv/bin/python")


def ensure_interpreter():
    """Re-exec under the interpreter that has casadi/numpy, with a fixed environment."""
    want = dict(ENV)
    if "MPLCONFIGDIR" not in os.environ:
        want["MPLCONFIGDIR"] = "/opt/venv/mplconfig"
    if all(os.environ.get(k) == v for k, v in want.items()) and os.environ.get("VSIM_BOOTED") == "1":
        return
    env = dict(os.environ, **want)
    env["VSIM_BOOTED"] = "1"
    env.setdefault("PYTHONHASHSEED", "0")
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-W", "ignore"] + sys.argv, env)


mp = None
ca = None
np = None
MPFILE = None
_real = {}


def load():
    """Import the library with its seams replaced. Idempotent."""
    global mp, ca, np, MPFILE
    if mp is not None:
        return mp
    sys.dont_write_bytecode = True
    import time
    import numpy
    import casadi
    np, ca = numpy, casadi
    np.seterr(all="ignore")
    import warnings
    warnings.simplefilter("ignore")
    from . import kernel, solver
    _real["nlpsol"] = casadi.nlpsol
    casadi.nlpsol = solver.nlpsol
    for name in ("monotonic", "time", "perf_counter", "monotonic_ns", "time_ns", "perf_counter_ns", "process_time"):
        _real[name] = getattr(time, name)
        setattr(time, name, _clock(name, _real[name], kernel))
    _real["sleep"] = time.sleep
    sys.path.insert(0, REPO)
    import mpopt.mpopt as m
    assert os.path.realpath(m.__file__) == os.path.realpath(os.path.join(REPO, "mpopt", "mpopt.py")), m.__file__
    import matplotlib
    matplotlib.use("Agg")
    for name in ("figure", "subplots", "subplot", "show", "pause"):
        _real[name] = getattr(m.plt, name)
        setattr(m.plt, name, _drawing(name, _real[name], kernel))
    mp = m
    MPFILE = m.__file__
    kernel.MPFILE = MPFILE
    return mp


def _clock(name, real, kernel):
    ns = name.endswith("_ns")

    def clock(*a):
        s = kernel.current()
        if s is None:
            return real(*a)
        v = s.clock()
        return int(v * 1e9) if ns else v
    clock.__name__ = name
    return clock


def _drawing(name, real, kernel):
    """Figures come from an outside toolkit: a fault point, and a list of what was drawn."""
    def draw(*a, **k):
        s = kernel.current()
        if s is None:
            return None if name in ("show", "pause") else real(*a, **k)
        s.point("fig", name)
        if name in ("show", "pause"):
            return None
        with kernel.quiet():
            out = real(*a, **k)
            fig = out if name == "figure" else out[0] if name == "subplots" else out.figure
            figs = kernel.current_actor().figs
            if not any(f is fig for f in figs):
                figs.append(fig)
        return out
    draw.__name__ = name
    return draw
