"""The simulator: one token, many actors, explicit schedule and faults.

Actors (caller threads of the library) are real threads, but only the one that
holds the token runs; the token changes hands only at `point`s - the seams
(user callbacks, solver build/run, output, clock) and, if the plan asks for it,
every executed line of the library - and only where the plan's schedule says.
Everything a run does is a function of its plan.
"""
import sys, threading, hashlib, errno, random
import numpy

MPFILE = None
_tls = threading.local()


class UserError(Exception):
    """Raised by a simulated user function."""


class StepBudget(BaseException):
    """The run exceeded its step budget: no progress within the bound."""


class Killed(BaseException):
    pass


PLAIN = dict(typeerror=TypeError, attributeerror=AttributeError, keyerror=KeyError, indexerror=IndexError, zerodivision=ZeroDivisionError,
             assertion=AssertionError, notimplemented=NotImplementedError, oserror=OSError, runtime=RuntimeError, overflow=OverflowError, floating=FloatingPointError)


def make_exc(kind, tag):
    if kind == "user":
        return UserError("user function failed " + tag)
    if kind == "valueerror":
        return ValueError("bad value " + tag)
    if kind == "interrupt":
        return KeyboardInterrupt("interrupt " + tag)
    if kind == "memory":
        return MemoryError("out of memory " + tag)
    if kind == "epipe":
        return BrokenPipeError(errno.EPIPE, "broken pipe " + tag)
    if kind == "enospc":
        return OSError(errno.ENOSPC, "no space left on device " + tag)
    if kind == "solverfail":
        return RuntimeError("simulated solver failure " + tag)
    if kind in PLAIN:
        return PLAIN[kind]("user function failed " + tag)
    if kind == "exit":
        return SystemExit("exit " + tag)
    raise AssertionError(kind)


class Actor:
    def __init__(self, aid, ops):
        self.id, self.ops = aid, ops
        self.uid = None            # uid of the op in progress
        self.count = {}            # point counters of the op in progress
        self.quiet = 0
        self.sem = threading.Semaphore(0)
        self.done = False
        self.cur = None            # what the solver seam needs to know
        self.out = []
        self.spent = {}            # simulated time used by the op in progress, per site
        self.figs = []             # figures touched by the op in progress
        self.parent = None


def current_actor():
    return getattr(_tls, "actor", None)


def current():
    a = getattr(_tls, "actor", None)
    if a is None or a.quiet:
        return None
    return a.sim


def library_state():
    """numpy's error handling as the library left it is in force while the library runs, and only then."""
    st = getattr(_tls, "npstate", None)
    if st is not None:
        numpy.seterr(**st)


def harness_state():
    _tls.npstate = numpy.seterr(all="ignore")


class quiet:
    """Harness code inside an actor: seams fall through, no points."""

    def __enter__(self):
        self.a = current_actor()
        if self.a is not None:
            self.a.quiet += 1
        self.err = numpy.seterr(all="ignore")

    def __exit__(self, *e):
        numpy.seterr(**self.err)
        if self.a is not None:
            self.a.quiet -= 1


class Sim:
    MAXSTEPS = 4_000_000
    DURATION = dict(cb=(1, 3), build=(100, 9000), run=(1, 500), answer=(1, 4_000_000), fig=(1, 3000))      # in 1/1024 s

    def __init__(self, plan):
        self.plan = plan
        self.steps = 0
        self.lines = bool(plan.get("lines"))
        self.line_actors = plan.get("line_actors")
        self.budget = plan.get("budget", self.MAXSTEPS)
        self.faults = {}
        for f in plan.get("faults", []):
            self.faults[(f["uid"], f["site"], f["n"])] = f
        self.fired = []
        self.h = hashlib.sha256()
        self.clk = plan.get("clock") or {"mode": "tick"}
        self.clkrng = random.Random(self.clk.get("seed", 0))
        self.now = float(self.clk.get("start", 1000.0))
        self.virtual = 0.0
        self.actors = []
        self.sitecount = {}
        self.opcount = {}
        self.nswitch = 0
        self.profile = {}          # uid -> {site: count}
        self.interleave = hashlib.sha256()

    # ---------------------------------------------------------------- points
    def point(self, site, detail=None):
        a = _tls.actor
        n = a.count.get(site, 0) + 1
        a.count[site] = n
        self.sitecount[site] = self.sitecount.get(site, 0) + 1
        self.steps += 1
        step = self.steps
        if self.clk["mode"] == "work" and site in self.DURATION:
            # the outside world takes its time
            d = self.clkrng.randint(*self.DURATION[site]) / 1024
            self.now += d
            self.virtual += d
            a.spent[site] = a.spent.get(site, 0.0) + d
        self.h.update(("%d|%s|%s|%s|%s;" % (a.id, a.uid, site, n, detail)).encode())
        if step > self.budget:
            raise StepBudget("no completion within %d steps" % self.budget)
        f = self.faults.pop((a.uid, site, n), None)
        if site == "cb":
            # user functions are also addressed by name: the n-th call of this function
            alias = "cb:" + detail
            m = a.count.get(alias, 0) + 1
            a.count[alias] = m
            f = f or self.faults.pop((a.uid, alias, m), None)
        if f is not None:
            kind = f["kind"]
            if kind == "nested":
                self.fired.append((dict(f, ops=len(f["ops"])), None))
                self.nested(a, f)
                return
            if kind == "switch":
                self.switch_to(f["to"])
                return
            exc = make_exc(kind, "[%s %s %d]" % (a.uid, site, n))
            self.fired.append((dict(f), exc))
            raise exc

    def clock(self):
        self.point("clk")
        m = self.clk["mode"]
        if m == "tick":
            self.now += 0.001
        elif m in ("frozen", "work"):
            return self.now
        elif m == "jump":
            self.now += self.clkrng.choice([0.0, 0.001, 1.0, -5.0, -3600.0, 86400.0, 1e9, -1e9, 1e-9])
        elif m == "back":
            self.now -= self.clkrng.random() * 100
        self.virtual += 0.001
        return self.now

    # ------------------------------------------------------------- scheduling
    def switch_to(self, target):
        a = _tls.actor
        root = a
        while root.parent is not None:
            root = root.parent
        live = [b for b in self.actors if not b.done]
        tgt = next((b for b in live if b.id == target), None)
        if tgt is None or tgt is root:
            return
        self.nswitch += 1
        self.interleave.update(("%s@%s:%d>%d;" % (a.uid, max(a.count.items(), key=lambda kv: kv[1])[0] if a.count else "", sum(a.count.values()), target)).encode())
        self.h.update(b"switch%d;" % target)
        self.fired.append(({"kind": "switch"}, None))
        tgt.sem.release()
        root.sem.acquire()
        if self.killed:
            raise Killed()

    killed = False

    def nested(self, a, f):
        """Run a whole list of operations inside the callback that hit this point."""
        sub = Actor("%s/n" % a.id if isinstance(a.id, str) else a.id, f["ops"])
        sub.parent = a
        sub.sim = self
        _tls.actor = sub
        tracer = sys.gettrace()
        _tls.npstate = numpy.seterr(all="ignore")
        try:
            self.session.run_ops(sub)
        finally:
            numpy.seterr(**_tls.npstate)
            _tls.actor = a
            if tracer is not None:
                sys.settrace(tracer)

    # ------------------------------------------------------------------ trace
    def _gtrace(self, frame, event, arg):
        if frame.f_code.co_filename == MPFILE:
            return self._ltrace
        return None

    def _ltrace(self, frame, event, arg):
        if event == "line":
            a = _tls.actor
            if not a.quiet:
                self.point("line", frame.f_lineno)
        return self._ltrace

    def arm(self, a):
        if self.lines and (self.line_actors is None or a.uid in self.line_actors or a.id in self.line_actors):
            sys.settrace(self._gtrace)

    def disarm(self):
        if self.lines:
            sys.settrace(None)

    # -------------------------------------------------------------------- run
    def run(self, session, programs):
        self.session = session
        session.sim = self
        self.actors = [Actor(i, ops) for i, ops in enumerate(programs)]
        for a in self.actors:
            a.sim = self
        if len(self.actors) == 1:
            _tls.actor = self.actors[0]
            try:
                session.run_ops(self.actors[0])
            finally:
                _tls.actor = None
            return
        self.finished = threading.Semaphore(0)
        self.crash = None
        ths = []
        for a in self.actors:
            t = threading.Thread(target=self._main, args=(a,), daemon=True)
            t.start()
            ths.append(t)
        self.actors[0].sem.release()
        self.finished.acquire()
        if self.crash is not None:
            raise self.crash

    def _main(self, a):
        _tls.actor = a
        a.sem.acquire()
        try:
            self.session.run_ops(a)
        except BaseException as e:     # harness error
            self.crash = e
            a.done = True
            self.finished.release()
            return
        a.done = True
        nxt = next((b for b in self.actors if not b.done), None)
        if nxt is None:
            self.finished.release()
        else:
            nxt.sem.release()


class SimOut:
    """Stands in for sys.stdout."""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, real):
        self.real = real

    def write(self, s):
        a = current_actor()
        if a is None or a.quiet:
            return len(s)
        if s != "\n":
            a.sim.point("out")
        a.out.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no fileno")
