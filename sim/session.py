"""Executes operation programs against the real library and checks invariants.

An operation list is what one caller thread does.  Everything observable - each
message exchanged with the solver, each returned object, each exception - goes
into a transcript (for differential properties) and is checked against the
reference model on the spot (for state properties).
"""
import copy, hashlib, math, re, struct, sys
from . import boot, gen, kernel, model
from .model import Problem, match_rows

np = ca = mp = None
inf = float("inf")
DEFAULT_IPOPT = {"ipopt.max_iter": 2000, "ipopt.acceptable_tol": 1e-4, "ipopt.print_level": 0, "ipopt.sb": "yes", "print_time": 0}
EQ = 1e-9


def _imports():
    global np, ca, mp
    mp = boot.load()
    np, ca = boot.np, boot.ca


# --------------------------------------------------------------------------- digests
def canon(o):
    """Bit-exact, address-free image of any returned or passed object."""
    if o is None or isinstance(o, (bool, str, bytes)):
        return repr(o).encode()
    if isinstance(o, (int, np.integer)):
        return b"i%d" % int(o)
    if isinstance(o, (float, np.floating)):
        return b"f" + (b"nan" if o != o else struct.pack("<d", float(o)))
    if isinstance(o, ca.DM):
        return b"D%dx%d" % o.shape + canon(np.array(o.full()))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return b"O(" + b",".join(canon(x) for x in o.ravel()) + b")"
        if o.dtype.kind == "f":
            o = np.where(np.isnan(o), np.nan, o)
        return b"A%s%s" % (repr(o.shape).encode(), np.ascontiguousarray(o).tobytes())
    if isinstance(o, dict):
        return b"{" + b",".join(canon(k) + b":" + canon(o[k]) for k in sorted(o, key=repr)) + b"}"
    if isinstance(o, (list, tuple)):
        return (b"[" if isinstance(o, list) else b"(") + b",".join(canon(x) for x in o) + b")"
    if callable(o):
        return b"fn%d" % id(o)
    if hasattr(o, "__dict__"):
        return canon({k: v for k, v in vars(o).items()})
    return repr(type(o)).encode()


def dig(*o):
    h = hashlib.sha256()
    for x in o:
        h.update(canon(x)); h.update(b"|")
    return h.hexdigest()[:16]


def lines_of(ax):
    return [(np.asarray(l.get_xdata(orig=True), float).ravel(), np.asarray(l.get_ydata(orig=True), float).ravel()) for l in ax.get_lines()]


def figdig(figs):
    """Everything a figure shows."""
    return dig([[(ax.get_ylabel(), ax.get_xlabel(), [str(l.get_label()) if not str(l.get_label()).startswith("_") else "" for l in ax.get_lines()], lines_of(ax)) for ax in f.axes] for f in figs])


def alike(a, b, tol=EQ, scale=1.0):
    """Elementwise: equal up to rounding.  Infinite equals infinite of the same sign (or what all but overflows)."""
    with np.errstate(all="ignore"):
        m = np.maximum(np.abs(a), np.abs(b))
        near = (np.abs(a - b) <= tol * (scale + m)) & np.isfinite(m)
        over = np.isinf(m) & (np.minimum(np.abs(a), np.abs(b)) > 1e250) & (np.sign(a) == np.sign(b))
    return (a == b) | near | over | (np.isnan(a) & np.isnan(b))


def close(a, b, tol=EQ, scale=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(alike(a, b, tol, scale).all())


class Slot:
    def __init__(self, **k):
        self.__dict__.update(k)


class Session:
    def __init__(self, plan):
        _imports()
        self.plan = plan
        self.checks = set(plan.get("checks", []))
        self.specs = [copy.deepcopy(s) for s in plan["specs"]]
        self.ocps, self.sigs = {}, {}
        self.grids = {}
        self.opts = {}
        self.slots, self.sols, self.posts = {}, {}, {}
        self.transcript = {}
        self.order = []
        self.violations = []
        self.edit_version = 0
        self.probes = {}
        self.answers = 0
        self.depth = 0
        self.classes = {}              # class-level settings made before anything else
        model.set_interval(-1, 1)

    # ------------------------------------------------------------------ utils
    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def viol(self, tag, cls, msg, a=None):
        self.violations.append(dict(tag=tag, cls=cls, msg=msg, uid=a.uid if a is not None else None))

    def want(self, tag):
        return tag in self.checks

    # ------------------------------------------------------------ user objects
    def callback(self, name, fn):
        def cb(*args):
            s = kernel.current()
            if s is not None:
                s.point("cb", name)
            return fn(*args)
        return cb

    def fnkit(self, s, kind, ph, terms):
        """A user function with the signature the library documents."""
        if terms is None:
            return None
        na = s["na"]

        def sin(v):
            return ca.sin(v) if isinstance(v, (ca.SX, ca.MX, ca.DM)) else np.sin(v)

        if kind in ("dyn", "path", "run"):
            def env(x, u, t, a=None):
                return dict(x=x, u=u, t=t, a=a)
        else:
            def env(xf, tf, x0, t0, a=None):
                return dict(xf=xf, tf=tf, x0=x0, t0=t0, a=a)
        if kind in ("dyn", "path", "term"):
            def body(*v):
                e = env(*v)
                return [model.ev(t, e, sin) for t in terms]
        else:
            def body(*v):
                return model.ev(terms, env(*v), sin)
        if na == 0:
            if kind in ("dyn", "path", "run"):
                return self.callback("%s%d" % (kind, ph), lambda x, u, t: body(x, u, t))
            return self.callback("%s%d" % (kind, ph), lambda xf, tf, x0, t0: body(xf, tf, x0, t0))
        if kind in ("dyn", "path", "run"):
            return self.callback("%s%d" % (kind, ph), lambda x, u, t, a: body(x, u, t, a))
        return self.callback("%s%d" % (kind, ph), lambda xf, tf, x0, t0, a: body(xf, tf, x0, t0, a))

    FN = dict(dyn="dynamics", path="path_constraints", run="running_costs", term="terminal_constraints", mayer="terminal_costs")

    def ocp(self, i):
        if i in self.ocps:
            return self.ocps[i]
        s = self.specs[i]
        o = mp.OCP(n_states=s["nx"], n_controls=s["nu"], n_phases=s["nph"], n_params=s["na"])
        for ph in range(s["nph"]):
            for k, attr in self.FN.items():
                f = self.fnkit(s, k, ph, s[k][ph])
                if f is not None:
                    getattr(o, attr)[ph] = f
        A = lambda v: np.array(v, dtype=float)
        std = gen.defaults(s)
        left = {k for k in s.get("unset", []) if s[k] == std[k]}
        for k in ("scale_x", "scale_u", "scale_a"):
            if k not in left:
                setattr(o, k, A(s[k]))
        if "scale_t" not in left:
            o.scale_t = float(s["scale_t"])
        for k in ("x00", "xf0", "u00", "uf0", "a0", "t00", "tf0", "lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf", "lbe", "ube"):
            if k in left:
                continue
            cur = getattr(o, k)
            v = A(s[k]).reshape((-1,) + cur.shape[1:]) if k in ("lbe", "ube") else A(s[k]).reshape(cur.shape)
            if (i + len(k)) % 2 and v.shape == cur.shape:
                cur[...] = v
            else:
                setattr(o, k, v)
        for k in ("diff_u", "lbdu", "ubdu", "midu", "du_continuity"):
            if k not in left:
                setattr(o, k, np.array(s[k]))
        if s.get("lists"):
            for k in ("scale_x", "scale_u", "scale_a", "diff_u", "lbdu", "ubdu", "midu", "du_continuity"):
                if s[k] and k not in left:
                    setattr(o, k, list(s[k]))
        if "links" not in left:
            o.phase_links = [tuple(l) for l in s["links"]]
        if s.get("plots"):
            o.phases_to_plot = [tuple(p) for p in s["plots"]]
        self.ocps[i] = o
        self.sigs[i] = canon(o)
        return o

    # ------------------------------------------------------------------ running
    def run_ops(self, a):
        self.depth += 1
        try:
            for op in a.ops:
                a.uid, a.count, a.out, a.figs, a.spent, a.skip = op["uid"], {}, [], [], {}, {}
                a.cur = None
                self.step(a, op)
                self.sim.profile[a.uid] = dict(a.count)
        finally:
            self.depth -= 1

    JUDGES = ("on_run", "on_build", "after_solve", "check_data", "check_dx", "check_x", "check_dd", "check_figs", "check_curves", "check_evolution")

    def step(self, a, op):
        sim = self.sim
        before = len(sim.fired)
        tr = dict(uid=a.uid, op=op["op"], status="ok", data=[])
        a.tr = tr
        a.soft = False          # exceptions acceptable (non-finite solution)
        a.refused = None        # exception types that are the documented answer
        exc = None
        try:
            getattr(self, "op_" + op["op"])(a, op)
        except kernel.StepBudget as e:
            self.viol("*", "no-progress", "%s of %s: %s" % (op["op"], a.uid, e), a)
            raise
        except BaseException as e:
            if isinstance(e, HarnessError):
                raise
            exc = e
        finally:
            sim.disarm()
            for f in a.figs:
                mp.plt.close(f)
        mine = [(f, x) for f, x in sim.fired[before:] if x is not None and f.get("uid") == a.uid]
        if exc is not None:
            tr["status"] = "exc:%s:%s" % (type(exc).__name__, str(exc)[:80])
            if mine:
                if not any(exc is x for _, x in mine):
                    self.viol("C03", "replaced", "%s failed with %s but the caller got %r" % (a.uid, [repr(x) for _, x in mine], exc), a)
                tr["data"] = []
                tr["failed"] = True
            elif a.refused and isinstance(exc, a.refused):
                tr["data"] = ["refused"]
            elif a.soft:
                tr["data"].append("soft")
            else:
                tr["failed"] = True
                import traceback
                tb = traceback.extract_tb(exc.__traceback__)
                where = [f for f in tb if f.filename == boot.MPFILE]
                harness = [f for f in tb if f.filename.startswith(boot.os.path.dirname(__file__))]
                checking = [f for f in harness if f.name in self.JUDGES]
                if checking and not isinstance(exc, kernel.UserError):
                    self.viol("*", "malformed:%s:%s" % (op["op"], type(exc).__name__), "%s (%s): what the library passed or returned cannot be read (%r in %s)" % (a.uid, op["op"], exc, tb[-1].name), a)
                elif not where and harness and not isinstance(exc, kernel.UserError):
                    raise HarnessError("%s: %r\n%s" % (a.uid, exc, "".join(traceback.format_exception(exc)))) from exc
                fr = "%s" % (where[-1].name if where else "?")
                if not checking:
                    self.viol("*", "crash:%s:%s" % (op["op"], type(exc).__name__),
                              "%s (%s) raised %s: %s in %s" % (a.uid, op["op"], type(exc).__name__, str(exc)[:200], fr), a)
        elif mine:
            tr["swallowed"] = True
            self.viol("C03", "swallowed", "%s: %r was raised inside the call but the call returned normally" % (a.uid, mine[0][1]), a)
        if len(a.out):
            tr["out"] = "".join(a.out)
        self.transcript[a.uid] = tr
        self.order.append(a.uid)

    def lib(self, a, fn, *args, guard=(), **kw):
        """Call the library; whatever the caller passed in must come back unmodified."""
        ver = self.edit_version
        before = [canon(g) for _, g in guard]
        nested = len(self.sim.fired)
        kernel.library_state()
        self.sim.arm(a)
        try:
            return fn(*args, **kw)
        finally:
            self.sim.disarm()
            kernel.harness_state()
            if self.edit_version == ver and len(self.sim.actors) == 1:
                for (nm, g), b in zip(guard, before):
                    if canon(g) != b:
                        self.viol("C01", "mutated", "%s: the call modified the caller's %s" % (a.uid, nm), a)

    # ---------------------------------------------------------------- operations
    def op_class(self, a, op):
        """Process-wide configuration, set before anything else."""
        for cls, attr, val in op["set"]:
            setattr(getattr(mp, cls), attr, val)
            self.classes[cls, attr] = val
        model.set_interval(self.classes.get(("CollocationRoots", "_TAU_MIN"), -1), self.classes.get(("CollocationRoots", "_TAU_MAX"), 1))

    CLS = dict(base="mpopt", h="mpopt_h_adaptive", adaptive="mpopt_adaptive", ph="mpopt_ph_adaptive")

    def gridlist(self, g):
        key = g.get("share")
        if key is None:
            return g["orders"] if isinstance(g["orders"], int) else list(g["orders"])
        if key not in self.grids:
            self.grids[key] = list(g["orders"])
        return self.grids[key]

    def op_new(self, a, op):
        o = self.ocp(op["spec"])
        g = op["grid"]
        po = self.gridlist(g)
        orders = [po] * g["n"] if isinstance(po, int) else list(po)
        kw = dict(op.get("kw", {}))
        if op.get("default_grid"):
            orders = [9]
            args, kws = (o,), dict(scheme=g["scheme"], **kw)
            n = 1
        else:
            args, kws, n = (o,), dict(n_segments=g["n"], poly_orders=po, scheme=g["scheme"], **kw), g["n"]
        opt = self.lib(a, getattr(mp, self.CLS[op["cls"]]), *args, guard=[("problem", o), ("polynomial orders", po)], **kws)
        s = copy.deepcopy(self.specs[op["spec"]])
        self.slots[op["slot"]] = Slot(name=op["slot"], opt=opt, spec=s, kind=op["cls"], orders=orders, scheme=g["scheme"], n=n,
                                      built=0, kept=None, cfg=self.cfg_defaults(op["cls"], s["nph"]), muted=bool(getattr(opt, "_MUTE_", False)),
                                      method=None, last=None, grid_type=[self.classes.get(("mpopt", "_GRID_TYPE"), "fixed")] * s["nph"], maxgrid=self.classes.get(("mpopt", "_MAX_GRID_POINTS"), 15), buildcfg=None, plugin=None, kwargs=kw, owner=a.id)
        if op["cls"] == "ph":
            self.slots[op["slot"]].maxgrid = kw.get("n_grid_points", 20)
            self.slots[op["slot"]].grid_type = [kw.get("grid_type", "spectral")] * s["nph"]

    def cfg_defaults(self, kind, nph):
        if kind == "adaptive":
            c = lambda attr, v: self.classes.get(("mpopt_adaptive", attr), v)
            return dict(lbh=[c("_SEG_WIDTH_MIN", 1e-4)] * nph, ubh=[c("_SEG_WIDTH_MAX", 1.0)] * nph, tol_residual=[c("_TOL_RESIDUAL", 1e-3)] * nph, mid_residuals=True)
        if kind == "h":
            c = lambda attr, v: self.classes.get(("mpopt_h_adaptive", attr), v)
            return dict(lbh=[c("_SEG_WIDTH_MIN", 1e-5)] * nph, ubh=[c("_SEG_WIDTH_MAX", 1)] * nph, tol_residual=[c("_TOL_RESIDUAL", 1e-2)] * nph)
        return {}

    def op_edit(self, a, op):
        """The caller changes its own problem object."""
        self.edit_version += 1
        o, s = self.ocp(op["spec"]), self.specs[op["spec"]]
        for e in op["edits"]:
            if e["how"] == "fn":
                f = self.fnkit(s, e["fn"], e["phase"], e["terms"])
                fs = list(getattr(o, self.FN[e["fn"]]))
                fs[e["phase"]] = f
                if e.get("list") == "new":
                    setattr(o, self.FN[e["fn"]], fs)
                elif e.get("list") == "slice":
                    getattr(o, self.FN[e["fn"]])[:] = fs
                else:
                    getattr(o, self.FN[e["fn"]])[e["phase"]] = f
                s[e["fn"]][e["phase"]] = e["terms"]
                if e["fn"] == "dyn":
                    s["family"] = "poly"
            elif e["how"] == "links":
                v = [tuple(l) for l in e["val"]]
                if e["inplace"] and isinstance(o.phase_links, list):
                    o.phase_links[:] = v
                else:
                    o.phase_links = v
                s["links"] = [list(l) for l in v]
            elif e["how"] == "scalar":
                setattr(o, e["attr"], e["val"])
                s[e["attr"]] = e["val"]
            elif e["how"] == "plots":
                v = [tuple(p) for p in e["val"]]
                if e["inplace"] and isinstance(o.phases_to_plot, list):
                    o.phases_to_plot[:] = v
                else:
                    o.phases_to_plot = v
                s["plots"] = copy.deepcopy(e["val"])
            elif e["how"] == "inplace":
                arr = getattr(o, e["attr"])
                tgt, st = arr, s[e["attr"]]
                for i in e["idx"][:-1]:
                    tgt, st = tgt[i], st[i]
                if len(tgt) > e["idx"][-1]:
                    tgt[e["idx"][-1]] = e["val"]
                    st[e["idx"][-1]] = e["val"]
            else:
                if "idx" in e:
                    v = np.array(getattr(o, e["attr"])); v[e["idx"][0]] = e["val"]
                    setattr(o, e["attr"], v); s[e["attr"]] = v.tolist()
                else:
                    setattr(o, e["attr"], np.array(e["val"], float))
                    s[e["attr"]] = copy.deepcopy(e["val"])
        self.sigs[op["spec"]] = canon(o)

    def op_validate(self, a, op):
        """The caller has its problem checked."""
        o = self.ocp(op["spec"])
        a.refused = (AssertionError,)
        self.lib(a, o.validate, guard=[("problem", o)])

    def audit(self):
        """When everything has been done: what was passed in or returned earlier is as its owner left it."""
        for i, o in sorted(self.ocps.items()):
            if canon(o) != self.sigs[i]:
                self.viol("C01", "mutated", "problem %d is not as its owner left it" % i)
        for nm, d in (("solution", self.sols), ):
            for k, rec in sorted(d.items()):
                if canon(rec["sol"]) != rec["sig"]:
                    self.viol("C01", "mutated", "solution %s changed after it was returned" % k)
                    self.viol("C09", "altered", "solution %s changed after it was returned" % k)
        for k, ps in sorted(self.posts.items()):
            for snap, live in ps["kept"]:
                if canon(live) != snap:
                    self.viol("C12", "overwritten", "arrays returned by result %s changed afterwards" % k)
                    break
        self.probe("audits")

    def op_edit_grid(self, a, op):
        self.edit_version += 1
        g = self.grids.get(op["key"])
        if g is None:
            return
        if op["how"] == "append":
            g.append(op["val"])
        elif op["how"] == "clear":
            del g[:]
        else:
            if g:
                g[op["idx"] % len(g)] = op["val"]

    def op_edit_opts(self, a, op):
        """The caller reuses or overwrites an option dictionary it passed in earlier."""
        self.edit_version += 1
        d = self.opts.get(op["key"])
        if d is None:
            return
        for v in d.values():
            if isinstance(v, (list, np.ndarray)):
                v[:] = [x * 0.5 for x in v]
        if op.get("clear"):
            d.clear()

    def op_set(self, a, op):
        """Per-optimizer settings through public attributes."""
        sl = self.slots.get(op["slot"])
        if sl is None:
            a.tr["data"].append("no-slot")
            return
        for attr, val in op["set"]:
            v = copy.deepcopy(val)
            setattr(sl.opt, attr, v)
            if attr in ("lbh", "ubh", "tol_residual", "mid_residuals"):
                sl.cfg[attr] = copy.deepcopy(val)
            if attr == "grid_type":
                sl.grid_type = list(val)
            if attr == "_MUTE_":
                sl.muted = val
            if attr in ("_DEFAULT_METHOD", "_DEFAULT_SUB_METHOD", "_TOL_SEG_WIDTH_CHANGE"):
                sl.cfg[attr] = val

    # -- solving --------------------------------------------------------------
    def initial(self, sl, init):
        """Initial solution argument, and what the solver must be given for it."""
        if init is None:
            return None, {}
        src = self.sols.get(init["sol"])
        d, exp = {}, {}
        target = dict(x="x0", x0="x0", lam_x="lam_x0", lam_x0="lam_x0", lam_g="lam_g0", lam_g0="lam_g0")
        if src is None:
            return None, {}
        for k_out, k_src in init["keys"]:
            if k_src not in src["sol"]:
                continue
            v = src["sol"][k_src]
            if v is None:
                continue
            arr = np.array(ca.DM(v).full()).ravel()
            form = init.get("form", "dm")
            d[k_out] = v if form == "dm" else arr.copy() if form == "np" else [float(x) for x in arr]
            if k_out in target:
                exp[target[k_out]] = arr
        if init.get("whole"):
            # an accepted starting point may itself hold other keys than a solver's answer
            d = src["sol"]
            exp = {target[k]: np.array(ca.DM(v).full()).ravel() for k, v in d.items() if k in target and v is not None}
        return d, exp

    def problem(self, sl):
        orders, n = sl.orders, sl.n
        if sl.kind == "ph":
            orders = [int(p) for p in sl.opt.poly_orders]
        return Problem(sl.spec, orders, sl.scheme, sl.kind if sl.kind == "adaptive" else "base", sl.cfg)

    def op_solve(self, a, op):
        sl = self.slots.get(op["slot"])
        if sl is None:
            a.tr["data"] = ["no optimizer"]
            return
        init, exp0 = self.initial(sl, op.get("init"))
        opts, mopts = copy.deepcopy(op.get("opts")), copy.deepcopy(op.get("mpopts"))
        if op.get("array") and mopts and "nlp_sw_params" in mopts:
            mopts["nlp_sw_params"] = np.array(mopts["nlp_sw_params"])
        if op.get("share_opts"):
            opts = self.opts.setdefault(op["share_opts"], opts if opts is not None else {})
        if op.get("share_mpopts"):
            mopts = self.opts.setdefault(op["share_mpopts"], mopts if mopts is not None else {})
        kw = {}
        if init is not None:
            kw["initial_solution"] = init
        if op.get("reinit"):
            kw["reinitialize_nlp"] = True
        if op.get("plugin"):
            kw["solver"] = op["plugin"]
        if opts is not None:
            kw["nlp_solver_options"] = opts
        if mopts is not None:
            kw["mpopt_options"] = mopts
        if op.get("max_iter") is not None:
            kw["max_iter"] = op["max_iter"]
        cur = a.cur = dict(slot=sl, op=op, builds=[], runs=[], exp0=exp0, init=init, mopts=copy.deepcopy(mopts) or {}, opts=copy.deepcopy(opts) or {}, kept0=copy.deepcopy(sl.kept))
        name = op.get("as", op["slot"])
        if op.get("ph"):
            sd = dict(kw); sd.pop("max_iter", None)
            kw0, kw = kw, dict(solve_dict=sd)
            if op.get("max_iter") is not None:
                kw["max_iter"] = op["max_iter"]
            cur["orders0"], cur["widths0"] = list(sl.orders), None
        guard = [(k, v) for k, v in kw.items() if isinstance(v, dict)] + [("initial solution", init)] + [("solver options", opts), ("optimizer options", mopts)]
        fn = sl.opt.solve_ph if op.get("ph") else sl.opt.solve
        evo = sl.kind == "h" and getattr(sl.opt, "plot_residual_evolution", False)
        if evo:
            with kernel.quiet():
                cur["lines0"] = 0 if sl.opt.axs is None else len(sl.opt.axs.get_lines())
                if init is not None and "x" in init:
                    cur["start"] = (exp0["x0"], cur["kept0"] if cur["kept0"] is not None else np.full(sl.n * sl.spec["nph"], 1.0 / sl.n))
        sol = self.lib(a, fn, guard=guard, **kw)
        with kernel.quiet():
            if evo:
                a.tr["data"].append(figdig(a.figs))
                if "C21" in self.checks:
                    self.check_evolution(a, sl, cur)
            self.after_solve(a, op, sl, sol, cur, name)

    def after_solve(self, a, op, sl, sol, cur, name):
        runs = cur["runs"]
        init = cur["init"]
        a.tr["data"].append(dig(sol))
        if runs:
            last = runs[-1]["ans"]
            bad = [k for k in last if k not in sol or canon(sol[k]) != canon(last[k])]
            if bad:
                self.viol("C09", "returned-not-last", "%s: returned %s differ(s) from the solver's last answer" % (a.uid, bad), a)
            z, p = runs[-1]["z"], runs[-1]["io"]["p"]
        else:
            self.probe("accepted-initial")
            if init is None:
                self.viol("C09", "no-run", "%s: a solution was returned without running the solver" % a.uid, a)
                return
            if canon(sol) != canon(init):
                self.viol("C09", "accepted-altered", "%s: the accepted starting solution was altered" % a.uid, a)
            z = np.array(ca.DM(sol["x"] if "x" in sol else sol["x0"]).full()).ravel()
            p = cur["kept0"] if cur["kept0"] is not None else np.full(sl.n * sl.spec["nph"], 1.0 / sl.n)
        prob = self.problem(sl)
        sl.kept = np.array(p, float) if sl.kind != "adaptive" else None
        if runs or ("x" in sol and isinstance(sol["x"], ca.DM)):
            self.sols[name] = dict(sol=sol, z=z, p=np.array(p, float), slot=sl, prob=prob, serial=len(self.order), sig=canon(sol))
        sl.last = name
        # life-cycle
        need = 1 if (not sl.built or op.get("reinit")) else 0
        if op.get("ph"):
            need = None
        if need is not None and len(cur["builds"]) != need:
            self.viol("C14", "builds", "%s: %d solver builds, expected %d" % (a.uid, len(cur["builds"]), need), a)
        if cur["builds"]:
            sl.built = 1
        for b in cur["builds"]:
            plugin = op.get("plugin") or "ipopt"
            want = dict(DEFAULT_IPOPT) if plugin == "ipopt" else {}
            want.update(cur.get("opts") or {})
            if b["plugin"] != plugin:
                self.viol("C14", "plugin", "%s: built plug-in %r, requested %r" % (a.uid, b["plugin"], plugin), a)
            if canon(b["opts"]) != canon(want):
                self.viol("C14", "options", "%s: built with options %r, expected %r" % (a.uid, b["opts"], want), a)
        if op.get("muted_check") is not False and sl.muted:
            txt = "".join(a.out)
            if "Optimal cost" in txt or "Summary" in txt or " ms" in txt:
                self.viol("C15", "not-muted", "%s: a muted optimizer printed %r" % (a.uid, txt[:200]), a)
        elif not sl.muted and sl.kind == "base" and not op.get("ph") and "Optimal cost" not in "".join(a.out):
            self.viol("C15", "no-summary", "%s: an unmuted optimizer printed no summary" % a.uid, a)
        if sl.kind == "h":
            self.check_refinement(a, op, sl, sol, cur, z, p)
        if op.get("ph"):
            self.check_ph(a, op, sl, sol, cur)
        if "C22" in self.checks:
            self.check_messages(a, op, sl, sol, cur, z, p)

    # -- the solver seam -------------------------------------------------------
    def on_build(self, a, solver):
        cur = a.cur
        solver.slot = cur["slot"] if cur else None
        solver.checked = False
        if cur is None:
            raise HarnessError("solver built outside a solve operation")
        cur["builds"].append(dict(plugin=solver.plugin, opts=dict(solver.opts)))
        with kernel.quiet():
            sl = cur["slot"]
            solver.owner = sl
            solver.prob = self.problem(sl)
            solver.prob.cfg = copy.deepcopy(sl.cfg)
            zs = np.random.RandomState(7).uniform(0.3, 1.7, solver.nx)
            ps = np.random.RandomState(8).uniform(0.3, 0.7, solver.np)
            f, g = solver.eval(zs, ps)
            a.tr["data"].append(dig("build", solver.plugin, solver.opts, solver.nx, solver.ng, solver.np, f, g))

    def on_run(self, a, solver, io):
        cur = a.cur
        if cur is None:
            raise HarnessError("solver run outside a solve operation")
        with kernel.quiet():
            sl = cur["slot"]
            a.tr["data"].append(dig("run", io))
            k = len(cur["runs"])
            if solver.owner is not sl:
                self.viol("C02", "foreign-solver", "%s: ran the solver that belongs to %s" % (a.uid, solver.owner.name), a)
            prob = solver.prob
            if solver.nx != prob.lay.n:
                self.viol("*", "size", "%s: %d variables instead of %d" % (a.uid, solver.nx, prob.lay.n), a)
                raise Unmodelled("NLP size %d, model %d" % (solver.nx, prob.lay.n))
            if io["p"].size and not prob.adaptive:
                self.check_params(a, sl, prob, io, cur, k)
            if self.checks & {"C04", "C05", "C06", "C11"}:
                self.check_nlp(a, solver, io)
            if self.checks & {"C05", "C11", "C14"}:
                self.check_bounds(a, solver, io)
            if "C07" in self.checks or "C14" in self.checks:
                self.check_start(a, sl, prob, io, cur, k)
            pol = self.policy(cur["op"], k)
        self.sim.point("answer", pol.get("kind"))
        with kernel.quiet():
            z = self.make_answer(prob, io, pol, k)
            f, g = solver.eval(z, io["p"])
            rng = np.random.RandomState((int(pol.get("seed", 0)) * 31 + k + 5) % (2 ** 31))
            ans = dict(x=ca.DM(z), f=ca.DM(f), g=ca.DM(g), lam_x=ca.DM(rng.randn(solver.nx)), lam_g=ca.DM(rng.randn(max(solver.ng, 0))), lam_p=ca.DM(rng.randn(solver.np)))
            self.answers += 1
            spent = sum(a.spent.get(x, 0.0) for x in ("run", "answer"))
            cur["runs"].append(dict(spent=spent - sum(q["spent"] for q in cur["runs"]), text=len(a.out), io=io, z=z, ans={k2: ca.DM(v) for k2, v in ans.items()}, pol=pol, prob=prob))
            self.probe("answer:" + pol["kind"])
            if cur["op"].get("maxruns") and len(cur["runs"]) > cur["op"]["maxruns"]:
                raise kernel.StepBudget("more than %d solver runs in one call" % cur["op"]["maxruns"])
            return ans

    def policy(self, op, k):
        pols = op.get("answers") or [dict(kind="rand", seed=1)]
        pol = dict(pols[min(k, len(pols) - 1)])
        if k >= len(pols):
            pol["seed"] = pol.get("seed", 0) + 17 * k
        return pol

    def make_answer(self, prob, io, pol, k):
        s, L = prob.s, prob.lay
        rng = np.random.RandomState((int(pol.get("seed", 0)) * 101 + 7) % (2 ** 31))
        kind = pol["kind"]
        x0 = np.where(np.isfinite(io["x0"]), io["x0"], 0.0)
        if kind == "echo":
            return x0.copy()
        z = x0.copy()
        if kind in ("rand", "nan", "nansome", "inf", "huge", "degen", "smooth", "exact", "spike"):
            z = rng.randn(L.n) * 1.5
            for ph in range(s["nph"]):
                z[L.X[ph]] *= prob.sx; z[L.U[ph]] *= prob.su; z[L.A[ph]] *= prob.sa
        elif kind == "near":
            z = x0 + 0.1 * rng.randn(L.n)
        if kind == "zero":
            z = np.zeros(L.n)
        lb, ub = np.maximum(io["lbx"], -1e18), np.minimum(io["ubx"], 1e18)
        if kind != "zero":
            z = np.clip(z, np.minimum(lb, ub), np.maximum(lb, ub))
        for ph in range(s["nph"]):
            if kind != "zero":
                t0 = lb[L.t0[ph]] + rng.rand() * max(min(ub[L.t0[ph]], lb[L.t0[ph]] + 1) - lb[L.t0[ph]], 0)
                lo = max(lb[L.tf[ph]], t0 + 0.25 * prob.st)
                tf = lo + rng.rand() * max(min(ub[L.tf[ph]], lo + 2) - lo, 0)
                z[L.t0[ph]], z[L.tf[ph]] = t0, tf
                if kind == "degen":
                    z[L.tf[ph]] = t0
            if prob.adaptive:
                w = 0.15 + rng.rand(prob.ns)
                w = w / w.sum()
                if pol.get("seed", 0) % 4 == 1:
                    w = w * (1 + 4e-7 * np.sin(float(pol["seed"])))      # as solvers leave an equality constraint
                z[L.H[ph]] = w
            if kind in ("smooth", "exact", "spike"):
                r = prob.read(z, io["p"], ph)
                t = (r["t"] - r["t0"]) / (r["tf"] - r["t0"])
                if kind == "smooth" or s["family"] != "chain":
                    for i in range(s["nx"]):
                        c = rng.randn(4); z[L.X[ph][:, i]] = prob.sx[i] * np.polyval(c, t)
                    for i in range(s["nu"]):
                        c = rng.randn(3); z[L.U[ph][:, i]] = prob.su[i] * np.polyval(c, t)
                else:
                    U = rng.uniform(-2, 2, s["nu"])
                    z[L.U[ph]] = U * prob.su
                    for i in range(s["nx"]):
                        c, fac, _ = s["dyn"][ph][i][0]
                        z[L.X[ph][:, i]] = prob.sx[i] * (rng.randn() + c * U[fac[0][1]] * (r["t"] - r["t0"]))
                if kind == "spike":
                    for seg, eps in pol["segs"].get(str(ph), []):
                        lo, hi = prob.ends[seg % prob.ns], prob.ends[seg % prob.ns + 1]
                        z[L.X[ph][lo + 1:hi if hi > lo + 1 else hi + 1]] += eps
        if kind == "nan":
            z[:] = np.nan
        elif kind == "nansome":
            z[rng.randint(0, L.n, max(1, L.n // 10))] = np.nan
        elif kind == "inf":
            z[rng.randint(0, L.n, 2)] = np.inf
        elif kind == "huge":
            z[rng.randint(0, L.n, max(1, L.n // 5))] *= 1e200
        return z

    # -- checks at the seam ----------------------------------------------------
    def check_params(self, a, sl, prob, io, cur, k):
        p = io["p"]
        n, nph = prob.ns, sl.spec["nph"]
        over = cur["mopts"].get("nlp_sw_params") if sl.kind == "base" else None
        tag = {"h": "C08", "ph": "C17"}.get(sl.kind, "C14")
        if p.size != n * nph:
            self.viol(tag, "width-count", "%s run %d: %d widths for %d segments x %d phases" % (a.uid, k, p.size, n, nph), a)
            return
        if sl.kind == "base":
            exp = np.array(over, float) if over is not None else np.full(n * nph, 1.0 / n)
            if not close(p, exp, 1e-12):
                self.viol("C14", "widths", "%s run %d: segment widths %s, expected %s" % (a.uid, k, p.tolist(), exp.tolist()), a)
            return
        if sl.kind == "ph" and k == 0 and cur["mopts"].get("nlp_sw_params") is not None and not close(p, cur["mopts"]["nlp_sw_params"], 1e-12):
            self.viol(tag, "widths", "%s run 0: segment widths %s, the initial mesh is %s" % (a.uid, p.tolist(), cur["mopts"]["nlp_sw_params"]), a)
        for ph in range(nph):
            w = p[n * ph: n * (ph + 1)]
            if not np.isfinite(w).all() or (w <= 0).any() or abs(w.sum() - 1) > 1e-6:
                self.viol(tag, "invalid-widths", "%s run %d phase %d: widths %s (sum %r)" % (a.uid, k, ph, w.tolist(), float(w.sum())), a)
        if k > 0 and not np.allclose(p, cur["runs"][-1]["io"]["p"]) if sl.kind == "h" else False:
            self.probe("widths-refined")

    def check_nlp(self, a, solver, io):
        prob = solver.prob
        if solver.checked == dig(io["lbg"], io["ubg"]):
            return
        solver.checked = dig(io["lbg"], io["ubg"])
        rng = np.random.RandomState(11)
        K = 3
        L = prob.lay
        vals, exp, F = [], None, []
        for _ in range(K):
            z = rng.uniform(-1.5, 1.5, L.n)
            for ph in range(prob.s["nph"]):
                z[L.X[ph]] *= prob.sx; z[L.U[ph]] *= prob.su; z[L.A[ph]] *= prob.sa
                z[L.t0[ph]] = prob.st * rng.uniform(0, 0.6)
                z[L.tf[ph]] = prob.st * rng.uniform(1.0, 2.0)
                if prob.adaptive:
                    z[L.H[ph]] = rng.uniform(0.2, 1.0, prob.ns)
            p = np.concatenate([(lambda w: w / w.sum())(rng.uniform(0.2, 1, prob.ns)) for _ in range(prob.s["nph"])])
            if prob.adaptive and solver.np == 0:
                p = np.zeros(0)
            f, g = solver.eval(z, p[:solver.np] if solver.np <= p.size else p)
            vals.append(g); F.append((f,) + prob.objective(z, p))
            rows = prob.rows(z, p)
            if exp is None:
                exp = [[t, l, [v], [m], lb, ub] for t, l, v, m, lb, ub in rows]
            else:
                for e, (t, l, v, m, lb, ub) in zip(exp, rows):
                    e[2].append(v); e[3].append(m)
        for f, J, m in F:
            if not abs(f - J) <= 1e-6 * m + 1e-12:
                self.viol("C04", "objective", "%s: objective %r, reference %r" % (a.uid, f, J), a)
                break
        exp = [(t, l, np.array(v, float), np.array(m, float), lb, ub) for t, l, v, m, lb, ub in exp]
        missing, extra = match_rows(exp, (np.array(vals).T, io["lbg"], io["ubg"]))
        self.probe("nlp-compared")
        by = {}
        for tag, label in missing:
            by.setdefault(tag, []).append(label)
        for tag, labels in by.items():
            self.viol(tag, "missing-row:" + labels[0].split(" ")[0].rstrip("0123456789"), "%s: not required by the program handed to the solver: %s%s" % (a.uid, labels[:4], " ..." if len(labels) > 4 else ""), a)
        if len(extra) and not missing:
            tag = "C05"
            self.viol(tag, "extra-rows", "%s: %d constraint rows nobody asked for (first: row %d, bounds %r..%r)" % (a.uid, len(extra), extra[0], io["lbg"][extra[0]], io["ubg"][extra[0]]), a)
        elif len(extra) and missing:
            # an altered row of one kind appears as one missing and one unexpected row; more unexpected rows are extra
            if len(extra) > len(missing):
                self.viol("C05", "extra-rows", "%s: %d unexpected constraint rows" % (a.uid, len(extra)), a)

    def check_bounds(self, a, solver, io):
        prob = solver.prob
        lb, ub = prob.var_bounds()
        for nm, got, exp in (("lower", io["lbx"], lb), ("upper", io["ubx"], ub)):
            if not close(got, exp, 1e-12):
                i = int(np.flatnonzero(~alike(got, exp, 1e-12))[0]) if got.shape == exp.shape else 0
                name = prob.name(i)
                self.viol("C11" if name == "width" else "C05", "bound-" + nm, "%s: %s bound of %s is %r, expected %r" % (a.uid, nm, name, float(got[i]), float(exp[i])), a)
                if self.want("C14"):
                    self.viol("C14", "bounds", "%s: bounds do not belong to this optimizer's problem" % a.uid, a)
                return

    def check_start(self, a, sl, prob, io, cur, k):
        if k > 0 and sl.kind == "h":
            prev = cur["runs"][-1]["ans"]
            for kk, src in (("x0", "x"), ("lam_x0", "lam_x"), ("lam_g0", "lam_g")):
                e = np.array(prev[src].full()).ravel()
                if io[kk] is None or not close(io[kk], e, 0.0):
                    self.viol("C07", "round-start", "%s run %d: %s is not the previous round's answer" % (a.uid, k, kk), a)
            return
        exp = cur["exp0"]
        e = exp.get("x0")
        label = "given"
        if e is None:
            e, label = prob.guess(), "default"
        if not close(io["x0"], e, 1e-12 if label == "given" else 1e-9):
            i = int(np.flatnonzero(~alike(io["x0"], e, 1e-12 if label == "given" else 1e-9))[0])
            self.viol("C07", "start-" + label, "%s: starts %s from %r, expected %r (%s start)" % (a.uid, prob.name(i), float(io["x0"][i]), float(e[i]), label), a)
        for kk in ("lam_x0", "lam_g0"):
            e = exp.get(kk)
            got = io[kk]
            if e is None:
                if got is not None and np.any(got != 0):
                    self.viol("C07", "start-multiplier", "%s: %s given although none was requested" % (a.uid, kk), a)
            elif got is None or not close(got, e, 1e-12):
                self.viol("C07", "start-multiplier", "%s: %s is not the one requested" % (a.uid, kk), a)

    # -- refinement --------------------------------------------------------------
    def residual_bracket(self, prob, z, p, grid_type, maxgrid=15):
        """Per phase (lo, hi) for the largest dynamics residual on the phase's residual grid."""
        out = []
        for ph in range(prob.s["nph"]):
            r = prob.read(z, p, ph)
            sure, maybe, mag = 0.0, 0.0, 0.0
            nonfin = False
            for k, (tau, sure_mask) in enumerate(self.residual_points(prob, r["w"], grid_type[ph], maxgrid)):
                if not len(tau):
                    continue
                with np.errstate(all="ignore"):
                    v, m, _ = prob.residual(r, ph, k, tau)
                    v = np.abs(v).max(axis=1)
                if not np.isfinite(v).all():
                    nonfin = True
                else:
                    mag = max(mag, float(m.max()) if np.isfinite(m).all() else inf)
                    if sure_mask.any():
                        sure = max(sure, float(v[sure_mask].max()))
                    maybe = max(maybe, float(v.max()))
            out.append((sure - 1e-7 * mag, maybe + 1e-7 * mag) if not nonfin else (math.nan, math.nan))
        return out

    def segment_brackets(self, prob, z, p, ph, grid_type, maxgrid):
        """Per segment (lo, hi) for the largest residual of one phase, None where it is not finite."""
        r, out = prob.read(z, p, ph), []
        for k, (tau, sure) in enumerate(self.residual_points(prob, r["w"], grid_type[ph], maxgrid)):
            if not len(tau):
                out.append((0.0, 0.0))
                continue
            with np.errstate(all="ignore"):
                v, m, _ = prob.residual(r, ph, k, tau)
                v, m = np.abs(v).max(axis=1), 1e-7 * m.max()
            if not np.isfinite(v).all() or not np.isfinite(m):
                return None
            out.append(((float(v[sure].max()) if sure.any() else 0.0) - m, float(v.max()) + m))
        return out

    def check_merge_split(self, a, sl, prob, r0, r1, ph, tol):
        """Boundaries between segments within the tolerance and others stay; only the latter are divided."""
        n = sl.n
        br = self.segment_brackets(prob, r0["z"], r0["io"]["p"], ph, sl.grid_type, sl.maxgrid)
        if br is None or not all(hi < tol or lo >= tol for lo, hi in br):
            return
        bad = [lo >= tol for lo, _ in br]
        if not any(bad):
            return
        w0, w1 = r0["io"]["p"][n * ph:n * (ph + 1)], r1["io"]["p"][n * ph:n * (ph + 1)]
        if close(w0, w1, 1e-12):
            return
        self.probe("merge-split")
        e0, e1 = np.cumsum(w0)[:-1], np.cumsum(w1)[:-1]
        for i in range(n - 1):
            if bad[i] != bad[i + 1] and np.abs(e1 - e0[i]).min() > 1e-9:
                return self.viol("C08", "boundary-lost", "%s: the boundary at %r between segments %d and %d (residual within tolerance: %s) of phase %d is gone, widths %s -> %s" % (
                    a.uid, float(e0[i]), i, i + 1, [not b for b in bad], ph, w0.tolist(), w1.tolist()), a)
        ends = np.concatenate([[0.0], e0, [1.0]])
        for e in e1:
            k = [i for i in range(n) if ends[i] - 1e-9 <= e <= ends[i + 1] + 1e-9]
            if k and not any(bad[i] for i in k):
                return self.viol("C08", "good-divided", "%s: a boundary at %r where the residual of phase %d is within tolerance, widths %s -> %s" % (a.uid, float(e), ph, w0.tolist(), w1.tolist()), a)

    def residual_points(self, prob, w, grid_type, maxgrid=15):
        """Expected residual points per segment: (taus, mask of points that must be there)."""
        out = []
        if grid_type == "fixed":
            n = max(sum(prob.orders) + 2, maxgrid + 2)
            pts = np.linspace(0, 1, n)[1:-1]
            cum = np.concatenate([[0], np.cumsum(w)])
            for k in range(prob.ns):
                # a point on a segment boundary may be counted to either side
                m = (pts > cum[k] - 1e-9) & (pts <= cum[k + 1] + 1e-9)
                sel = pts[m]
                sure = (sel > cum[k] + 1e-9) & (sel < cum[k + 1] - 1e-9)
                with np.errstate(all="ignore"):
                    out.append((model.LO + (model.HI - model.LO) * (sel - cum[k]) / w[k], sure))
        else:
            for k in range(prob.ns):
                if grid_type == "mid-points":
                    t = model.nodes(prob.scheme, prob.orders[k])
                    tau = (t[1:] + t[:-1]) / 2
                else:
                    tau = model.nodes(prob.scheme, maxgrid + 2)[1:-1]
                out.append((tau, np.ones(len(tau), bool)))
        return out

    def check_refinement(self, a, op, sl, sol, cur, z, p):
        runs = cur["runs"]
        limit = op["max_iter"] if op.get("max_iter") is not None else 10
        if len(runs) > limit:
            self.viol("C10", "limit", "%s: %d solver runs, limit %d" % (a.uid, len(runs), limit), a)
        txt = "".join(a.out)
        says = "Solved to acceptable tolerance" in txt
        info = getattr(sl.opt, "iter_info", {})
        over = [k for k in info if k > len(runs)]
        if over:
            self.viol("C10", "record-stale", "%s: residuals recorded for the rounds %s of a solve of %d rounds" % (a.uid, over, len(runs)), a)
        if sl.n == 1:
            return
        default = lambda attr, v: sl.cfg.get(attr, self.classes.get(("mpopt_h_adaptive", attr), v))
        method = cur["mopts"].get("method") if cur["mopts"] else default("_DEFAULT_METHOD", "residual")
        if method not in ("residual", "control_slope"):
            # no such method: equal widths throughout
            self.probe("no-method")
            if any(not close(r["io"]["p"], np.full(sl.n * sl.spec["nph"], 1 / sl.n), 1e-12) for r in runs):
                self.viol("C08", "no-method", "%s: widths %s without a refinement method, expected equal ones" % (a.uid, [r["io"]["p"].tolist() for r in runs]), a)
            if says:
                self.viol("C10", "verdict", "%s: success is reported without looking at residuals" % a.uid, a)
            return
        tol = sl.cfg["tol_residual"]
        br = []
        prob = self.problem(sl)
        for r in runs:
            br.append(self.residual_bracket(prob, r["z"], r["io"]["p"], sl.grid_type, sl.maxgrid))
        cur["br"] = br
        for k, b in enumerate(br):
            nan = any(x != x for x, _ in b)
            hi, lo = max(y for _, y in b), max(x for x, _ in b)
            # an answer that is not finite where no residual is taken may count as finite or not
            part = not nan and not np.isfinite(runs[k]["z"]).all()
            met_all = not nan and not part and all(y < t for (_, y), t in zip(b, tol))
            if met_all and k < len(runs) - 1:
                self.viol("C10", "not-stopped", "%s: answer %d meets every tolerance (%.3g) but the solver was run again" % (a.uid, k, hi), a)
            if met_all:
                self.probe("tolerance-met")
            v = info.get(k + 1, "absent")
            if v == "absent":
                if k < len(runs) - 1:
                    self.viol("C10", "record-missing", "%s: no residual recorded for round %d" % (a.uid, k + 1), a)
                continue
            if nan:
                self.probe("nonfinite-round")
                if v is not None and np.isfinite(v):
                    self.viol("C10", "record", "%s: round %d recorded residual %r for a non-finite answer" % (a.uid, k + 1, float(v)), a)
            elif part and (v is None or not np.isfinite(v)):
                self.probe("nonfinite-round")
            elif v is None or not (lo <= v * (1 + 1e-6) + 1e-12 and v <= hi * (1 + 1e-6) + 1e-12):
                self.viol("C10", "record", "%s: round %d recorded residual %r, actual %r..%r" % (a.uid, k + 1, v, lo, hi), a)
            # widths of phases that are within tolerance stay
            if k + 1 < len(runs):
                n = sl.n
                if method == "control_slope":
                    for ph in range(len(b)):
                        w0, w1 = runs[k]["io"]["p"][n * ph:n * (ph + 1)], runs[k + 1]["io"]["p"][n * ph:n * (ph + 1)]
                        lo, hi = sl.cfg["lbh"][ph], sl.cfg["ubh"][ph]
                        if not close(w0, w1, 1e-12) and 0 < lo < hi:
                            self.probe("slope-refined")
                            # within the limits up to scaling
                            if not w1.max() * lo <= w1.min() * hi * (1 + 1e-9):
                                self.viol("C08", "width-limits", "%s: widths %s of phase %d are not within %s..%s up to scaling" % (a.uid, w1.tolist(), ph, lo, hi), a)
                if method == "residual" and (cur["mopts"].get("sub_method") if cur["mopts"] else default("_DEFAULT_SUB_METHOD", "equal_area")) == "merge_split":
                    for ph in range(len(b)):
                        if np.isfinite(b[ph]).all() and b[ph][0] >= tol[ph]:
                            self.check_merge_split(a, sl, prob, runs[k], runs[k + 1], ph, tol[ph])
                for ph, (x, y) in enumerate(b):
                    if y == y and y < tol[ph] and not part:
                        w0, w1 = runs[k]["io"]["p"][n * ph:n * (ph + 1)], runs[k + 1]["io"]["p"][n * ph:n * (ph + 1)]
                        self.probe("phase-settled")
                        if not close(w0, w1, 1e-12):
                            self.viol("C08", "settled-moved", "%s: phase %d meets its tolerance but its widths changed" % (a.uid, ph), a)
                    if y != y:
                        w0, w1 = runs[k]["io"]["p"][n * ph:n * (ph + 1)], runs[k + 1]["io"]["p"][n * ph:n * (ph + 1)]
                        if not close(w0, w1, 1e-12):
                            self.viol("C08", "nonfinite-moved", "%s: phase %d refined from a non-finite residual" % (a.uid, ph), a)
        # an early end is announced, and the announced reason is true
        if len(runs) < limit and runs and not says and not re.search("Change in (width|max error)", txt):
            self.viol("C10", "no-reason", "%s: ended after %d of %d rounds without a reason" % (a.uid, len(runs), limit), a)
        if "Iteration limit exceeded" in txt and len(runs) != limit:
            self.viol("C10", "limit-said", "%s: said to have reached the limit of %d after %d rounds" % (a.uid, limit, len(runs)), a)
        if "Change in max error" in txt and len(runs) > 4:
            v = [info.get(k + 1) for k in range(len(runs))]
            if all(x is not None and np.isfinite(x) for x in v):
                self.probe("stop-error")
                if not abs(v[-1] - np.mean(v[-4:])) < 0.05 * abs(v[-1]) * (1 + 1e-6):
                    self.viol("C10", "stop-error", "%s: ended because the error changes little, errors are %s" % (a.uid, v), a)
        if "Change in width" in txt and runs:
            o = sl.opt
            keep, evo = dict(o.__dict__), o.plot_residual_evolution
            o.plot_residual_evolution = False
            try:
                new, _ = o.get_segment_width_parameters(sol, options=cur["mopts"] or dict(method=o._DEFAULT_METHOD, sub_method=o._DEFAULT_SUB_METHOD))
            except Exception:
                new = p
            finally:
                o.__dict__.clear()
                o.__dict__.update(keep)
            self.probe("stop-width")
            new, old = np.asarray(new, float), np.asarray(p, float)
            lim = sl.cfg.get("_TOL_SEG_WIDTH_CHANGE", self.classes.get(("mpopt_h_adaptive", "_TOL_SEG_WIDTH_CHANGE"), 0.05))
            if not (np.abs(new - old) <= (lim * (1 + 1e-9) + 1e-12) * np.abs(new)).all():
                self.viol("C10", "stop-width", "%s: ended because the widths change little, from %s to %s" % (a.uid, old.tolist(), new.tolist()), a)
        if says:
            self.probe("verdict-success")
            if runs:
                b = br[-1]
            else:
                b = self.residual_bracket(prob, z, np.array(p, float), sl.grid_type, sl.maxgrid)
            nan = any(x != x for x, _ in b)
            if not runs and not nan:
                v, lo, hi = info.get(0), max(x for x, _ in b), max(y for _, y in b)
                self.probe("start-met")
                if v is None or not (lo <= v * (1 + 1e-6) + 1e-12 and v <= hi * (1 + 1e-6) + 1e-12):
                    self.viol("C10", "record", "%s: the start meets the tolerance, recorded residual %r, actual %r..%r" % (a.uid, v, lo, hi), a)
            if nan or max(x for x, _ in b) >= min(tol):
                self.viol("C10", "dishonest", "%s: reports success although the residual is %r (tolerance %r)" % (a.uid, "non-finite" if nan else max(x for x, _ in b), min(tol)), a)

    # -- what is printed --------------------------------------------------------
    NUM = r"([-+]?(?:nan|inf|[0-9.]+(?:e[-+]?[0-9]+)?))"

    def said(self, txt, pattern):
        return [tuple(float(v) for v in (m if isinstance(m, tuple) else (m,))) for m in re.findall(pattern.replace("NUM", self.NUM), txt)]

    def check_times(self, a, txt, heads):
        """Elapsed times printed: the outside world's (simulated) time, to the printed digit."""
        if self.sim.clk["mode"] != "work" or len(self.sim.actors) != 1:
            return
        for head, want in heads:
            got = [v[0] / 1e3 for v in self.said(txt, head + r"\s*:?\s*NUM ms")]
            if not got:
                continue
            self.probe("times")
            if len(got) != len(want) or not close(got, want, 2e-6):
                self.viol("C22", "time", "%s: %r printed as %s s, took %s s" % (a.uid, head, got, want), a)

    def check_messages(self, a, op, sl, sol, cur, z, p):
        txt = "".join(a.out)
        runs = cur["runs"]
        costs = [v[0] for v in self.said(txt, r"Optimal cost \(J\):\s+NUM")]
        if costs:
            want = [float(r["ans"]["f"]) for r in runs] if op.get("ph") else [float(sol["f"])] if "f" in sol else costs
            self.probe("cost-printed")
            if not close(costs, want, 2e-5, 0.0):
                self.viol("C22", "cost", "%s: printed cost %s, the returned solution has %s" % (a.uid, costs, want), a)
        every = sum(a.spent.values())
        solving = [r["spent"] for r in runs]
        if not op.get("ph"):
            self.check_times(a, txt, [("Solved in", [every]), ("OCP transcription time", [every - sum(solving)]), ("NLP solution time", [sum(solving)])])
        else:
            self.check_times(a, txt, [("NLP solution time", solving)])
        if sl.kind == "adaptive":
            m = re.findall(r"segment width fractions: \[([^\]]*)\]", txt)
            if m:
                w = [float(v) for v in m[-1].replace(",", " ").split()]
                prob = self.problem(sl)
                self.probe("widths-printed")
                if not close(w, np.concatenate([prob.widths(z, p, ph) for ph in range(sl.spec["nph"])]), 1e-7):
                    self.viol("C22", "widths", "%s: printed widths %s are not those of the solution" % (a.uid, w), a)
        if sl.kind != "h" or sl.n == 1 or "br" not in cur:
            return
        br, tol = cur["br"], sl.cfg["tol_residual"]
        limit = op["max_iter"] if op.get("max_iter") is not None else 10

        def agrees(v, b, zz):
            """A printed residual against that of an answer."""
            if any(x != x for x, _ in b) or not np.isfinite(zz).all():
                return not np.isfinite(zz).all() or not np.isfinite(v)
            return max(x for x, _ in b) <= v * (1 + 1e-6) + 1e-12 and v <= max(y for _, y in b) * (1 + 1e-6) + 1e-12
        first = None
        if cur["init"] is not None and "x" in cur["init"] and cur["init"]["x"] is not None:
            z0 = np.array(ca.DM(cur["init"]["x"]).full()).ravel()
            w0 = cur["kept0"] if cur["kept0"] is not None else np.full(sl.n * sl.spec["nph"], 1.0 / sl.n)
            first = (z0, self.residual_bracket(self.problem(sl), z0, w0, sl.grid_type, sl.maxgrid))
        cuts = [0] + [r["text"] for r in runs] + [len(a.out)]
        for k in range(len(cuts) - 1):
            part = "".join(a.out[cuts[k]:cuts[k + 1]])       # printed after answer k - 1 and before answer k
            ans = first if k == 0 else (runs[k - 1]["z"], br[k - 1])
            if ans is None:
                continue
            zz, b = ans
            for pat in (r"Iteration : [0-9]+, NUM", r"Solved to acceptable tolerance \S+ NUM", r"H-Adaptive Iter., max_residual : [0-9]+, NUM", r"Stopping the iterations: Change in width less than 5% NUM"):
                for v, in self.said(part, pat):
                    self.probe("residual-printed")
                    if not agrees(v, b, zz):
                        self.viol("C22", "residual", "%s: printed %r, the residuals are %s" % (a.uid, part[-300:], b), a)
            for n, in self.said(part, r"Iteration : ([0-9]+),"):
                if int(n) != k:
                    self.viol("C22", "rounds", "%s: round %d is called iteration %d" % (a.uid, k, n), a)
            for ph, t in self.said(part, r"Solved phase ([0-9]+) to acceptable (?:tolerance|level) NUM"):
                self.probe("phase-verdict")
                x, y = b[int(ph)]
                if not t == tol[int(ph)] or (np.isfinite(zz).all() and not x < t):
                    self.viol("C22", "phase-verdict", "%s: phase %d is said to meet %r, its residual is %r" % (a.uid, ph, t, x), a)
        for n, in self.said(txt, r"H-Adaptive Iter., max_residual : ([0-9]+),"):
            if int(n) != len(runs):
                self.viol("C22", "rounds", "%s: %d rounds reported, %d solver runs" % (a.uid, n, len(runs)), a)
        if "limit exceeded" in txt:
            self.probe("limit-said")
            if len(runs) != limit:
                self.viol("C22", "limit-said", "%s: limit of %d said to be exceeded after %d runs" % (a.uid, limit, len(runs)), a)

    def check_ph(self, a, op, sl, sol, cur):
        runs = cur["runs"]
        limit = op["max_iter"] if op.get("max_iter") is not None else 1
        if len(runs) > 2 * limit:
            self.viol("C17", "limit", "%s: %d solver runs in %d rounds" % (a.uid, len(runs), limit), a)
        kw = sl.kwargs
        omax = max([kw.get("poly_order_max", 16)] + sl.orders)
        smax = max(kw.get("seg_max", 20), sl.n)
        for k, r in enumerate(runs):
            pr = r["prob"]
            if max(pr.orders) > omax or min(pr.orders) < min(min(sl.orders), kw.get("poly_order_min", 3)):
                self.viol("C17", "orders", "%s run %d: orders %s outside the configured limits" % (a.uid, k, pr.orders), a)
            if pr.ns > smax:
                self.viol("C17", "segments", "%s run %d: %d segments, limit %d" % (a.uid, k, pr.ns, smax), a)
            if k:
                q = runs[k - 1]
                if pr.ns < q["prob"].ns:
                    self.viol("C17", "coarsened", "%s run %d: fewer segments than before" % (a.uid, k), a)
                for ph in range(sl.spec["nph"]):
                    e0 = np.cumsum(q["io"]["p"][q["prob"].ns * ph:q["prob"].ns * (ph + 1)])
                    e1 = np.cumsum(r["io"]["p"][pr.ns * ph:pr.ns * (ph + 1)])
                    for e in e0:
                        if not (np.abs(e1 - e) < 1e-9).any():
                            self.viol("C17", "not-nested", "%s run %d phase %d: boundary %.6g of the previous mesh disappeared" % (a.uid, k, ph, e), a)
                            break
                if pr.ns > q["prob"].ns:
                    self.probe("ph-split")
                if pr.orders != q["prob"].orders:
                    self.probe("ph-raised")
        self.check_ph_steps(a, sl, runs, limit, omax)
        if "C22" in self.checks:
            self.check_ph_messages(a, sl, runs)
        if runs:
            now = [int(x) for x in sl.opt.poly_orders]
            if now != runs[-1]["prob"].orders or int(sl.opt.n_segments) != runs[-1]["prob"].ns:
                self.viol("C17", "mesh-left", "%s: the optimizer is left with orders %s, the solution was computed with %s" % (a.uid, now, runs[-1]["prob"].orders), a)

    def check_ph_messages(self, a, sl, runs):
        """What is printed after each answer that calls for refinement is about that answer."""
        cuts = [r["text"] for r in runs] + [len(a.out)]
        for k, r in enumerate(runs):
            part = "".join(a.out[cuts[k]:cuts[k + 1]]).replace("np.float64(", "")
            for n, res, ns, orders, w in re.findall(r"Iteration ([0-9]+) : max_residual, n_segments, poly_orders, seg_widths:- \((\S+), ([0-9]+), \[([^\]]*)\], \[([^\]]*)\]\)", part):
                self.probe("ph-message")
                num = lambda t: [float(v.strip(")")) for v in t.replace(",", " ").split()]
                pr, p = r["prob"], np.asarray(r["io"]["p"], float).ravel()
                if int(n) != k // 2 or int(ns) != pr.ns or num(orders) != [float(v) for v in pr.orders] or not close(num(w), p, 1e-6):
                    self.viol("C22", "ph-mesh", "%s run %d: printed %r, the mesh was %d segments, orders %s, widths %s" % (a.uid, k, part[-300:], pr.ns, pr.orders, p.tolist()), a)
                    return
                if not np.isfinite(r["z"]).all() or np.abs(r["z"]).max(initial=0) > 1e50 or not self.nondegenerate(dict(prob=pr, z=r["z"], p=r["io"]["p"])):
                    continue
                b = self.ph_brackets(sl, r)
                if b is not None and not max(x for q in b for x, _ in q) * (1 - 1e-6) <= float(res) <= max(y for q in b for _, y in q) * (1 + 1e-6) + 1e-12:
                    self.viol("C22", "ph-residual", "%s run %d: printed residual %s, those of the answer are %s" % (a.uid, k, res, b), a)
                    return

    def ph_brackets(self, sl, r):
        """Per phase and segment (lowest, highest) relative residual of an answer; None where that cannot be told."""
        pr, out = r["prob"], []
        for ph in range(sl.spec["nph"]):
            rd = pr.read(r["z"], r["io"]["p"], ph)
            pts = self.residual_points(pr, rd["w"], sl.grid_type[ph], sl.maxgrid)
            if not all(m.all() for _, m in pts) or not any(len(t) for t, _ in pts):
                return None
            taus = [t for t, _ in pts]
            with np.errstate(all="ignore"):
                xin, mags, rs = self.integrated(pr, rd, ph, taus)
                div = np.max([np.abs(v).max(axis=0) for v in xin if v is not None], axis=0)
                if not np.isfinite(div).all() or (div < 1e-9).any():
                    return None
                vague = np.max([1e-6 * m.max(axis=0) for m in mags if m is not None], axis=0) / div
                seg = []
                for k in range(pr.ns):
                    if rs[k] is None:
                        seg.append((0.0, 0.0))
                        continue
                    e = (1e-6 * (mags[k] + np.abs(pr.at(rd, k, taus[k]))) + 1e-12) / div
                    v = np.abs(rs[k]) / div
                    seg.append((float((v * (1 - vague) - e).max()), float((v * (1 + vague) + e).max())))
            if not np.isfinite(seg).all():
                return None
            out.append(seg)
        return out

    def check_ph_steps(self, a, sl, runs, limit, omax):
        """Each round refines what its answers call for, and stops when nothing is left."""
        if "C17" not in self.checks:
            return
        tol = sl.kwargs.get("max_residual", 1e-4)
        omin = min(sl.orders + [sl.kwargs.get("poly_order_min", 3)])
        for k, r in enumerate(runs):
            if not np.isfinite(r["z"]).all() or np.abs(r["z"]).max(initial=0) > 1e50 or not self.nondegenerate(dict(prob=r["prob"], z=r["z"], p=r["io"]["p"])):
                return
            b = self.ph_brackets(sl, r)
            if b is None:
                return
            pr, last = r["prob"], k == len(runs) - 1
            met = [all(p[i][1] < tol for p in b) for i in range(pr.ns)]
            bad = [any(p[i][0] > tol for p in b) for i in range(pr.ns)]
            self.probe("ph-judged")
            if all(met) and not last:
                self.viol("C17", "not-stopped", "%s run %d: every relative residual is below %r but refinement went on" % (a.uid, k, tol), a)
                return
            if any(bad) and last and len(runs) < 2 * limit:
                self.viol("C17", "gave-up", "%s run %d: relative residuals %s exceed %r but refinement ended in round %d of %d" % (a.uid, k, b, tol, len(runs) // 2, limit), a)
                return
            if last:
                return
            nx = runs[k + 1]["prob"]
            if k % 2 == 0:
                for i, o in enumerate(pr.orders):
                    want = {min(max(o + 3, omin), omax)} if bad[i] else {min(max(o, omin), omax)} if met[i] else {min(max(o + q, omin), omax) for q in (0, 3)}
                    if nx.ns != pr.ns or nx.orders[i] not in want:
                        self.viol("C17", "raised", "%s run %d: orders %s became %s, residuals %s, tolerance %r" % (a.uid, k, pr.orders, nx.orders, b, tol), a)
                        return
            else:
                e0 = np.concatenate([[0], np.cumsum(r["io"]["p"][:pr.ns])])
                mid = np.cumsum(runs[k + 1]["io"]["p"][:nx.ns]) - runs[k + 1]["io"]["p"][:nx.ns] / 2
                parent = np.searchsorted(e0, mid) - 1
                if len(set(parent.tolist())) != pr.ns:
                    return
                for i in range(pr.ns):
                    kids = [nx.orders[c] for c in range(nx.ns) if parent[c] == i]
                    if any(q != pr.orders[i] for q in kids) or (met[i] and len(kids) > 1) or len(kids) > 2:
                        self.viol("C17", "split", "%s run %d: segment %d of order %d became segments of orders %s, residuals %s" % (a.uid, k, i, pr.orders[i], kids, b), a)
                        return

    # -- results ------------------------------------------------------------------
    def op_post(self, a, op):
        rec = self.sols.get(op["sol"])
        if rec is None:
            a.tr["data"] = ["no solution"]
            return
        sl = rec["slot"]
        finite = bool(np.isfinite(rec["z"]).all()) and float(np.abs(rec["z"]).max(initial=0)) < 1e50
        a.soft = not finite or not self.nondegenerate(rec)
        kw = dict(plot=False)
        fl = op.get("flags", {})
        kw.update(fl)
        post = self.lib(a, sl.opt.process_results, rec["sol"], guard=[("solution", rec["sol"])], **kw)
        with kernel.quiet():
            scaled = bool(fl.get("scaling"))
            self.posts[op["as"]] = dict(post=post, rec=rec, scaled=scaled, seen={}, z=rec["z"].copy(), p=np.array(rec["p"], float), prob=rec["prob"],
                                        soft=a.soft, kept=[])
            res = getattr(post, "residuals", None)
            a.tr["data"].append(dig(res))
            rx, rdx = bool(fl.get("residual_x", False)), bool(fl.get("residual_dx", True))
            if fl.get("plot"):
                a.tr["data"].append(figdig(a.figs))
                if "C21" in self.checks and not a.soft:
                    s = rec["prob"].s
                    groups = s.get("plots") or [list(range(s["nph"]))]
                    if len(a.figs) != len(groups):
                        self.viol("C21", "figures", "%s: %d figures for %d groups of phases" % (a.uid, len(a.figs), len(groups)), a)
                    for f, g in zip(a.figs, groups):
                        self.check_figs(a, self.posts[op["as"]], f, list(g), True, rx or rdx)
            if not a.soft:
                have = set(res or {})
                want = ({"t_x"} if rx else set()) | ({"t_dx"} if rdx else set())
                if not want <= have:
                    self.viol("C13", "residuals-missing", "%s: residuals %s requested, result holds %s" % (a.uid, sorted(want), sorted(have)), a)
                if (self.checks & {"C13", "C09", "C11"}) and rdx and "t_dx" in have:
                    self.check_dx(a, rec, res["t_dx"][0], res["t_dx"][1], sl.grid_type, None, None)
                if self.checks & {"C13"} and rx and "t_x" in have:
                    self.check_x(a, rec, None, None, res["t_x"][0], res["t_x"][1], None, sl.grid_type, None, None)
            txt = "".join(a.out)
            if "C22" in self.checks:
                self.check_post_times(a, txt, rx, rdx)
            if sl.muted and "Post processed" in txt:
                self.viol("C15", "not-muted", "%s: a muted optimizer printed %r" % (a.uid, txt[:120]), a)

    def check_post_times(self, a, txt, rx, rdx):
        if self.sim.clk["mode"] != "work":
            return
        every = sum(a.spent.values())
        self.check_times(a, txt, [("Post processed in", [every])])
        names = ("Solution retrieval", "Residual in states", "Residual in dynamics", "Process solution and plot")
        got = {n: self.said(txt, n + r"\s*:?\s*NUM ms") for n in names}
        if not self.said(txt, r"Post processed in NUM ms"):
            return
        for n, on in (("Residual in states", rx), ("Residual in dynamics", rdx)):
            if bool(got[n]) != bool(on):
                self.viol("C22", "post-times", "%s: time of %r %sprinted" % (a.uid, n, "" if got[n] else "not "), a)
        if not close(sum(v[0] for g in got.values() for v in g) / 1e3, every, 3e-6):
            self.viol("C22", "post-times", "%s: the parts printed do not make up the whole %r s: %r" % (a.uid, every, got), a)
        plot = a.spent.get("fig", 0.0)
        last = got["Process solution and plot"]
        if last and not close(last[0][0] / 1e3, plot, 2e-6):
            self.viol("C22", "post-times", "%s: plotting took %r s, printed %r" % (a.uid, plot, last), a)

    def nondegenerate(self, rec):
        pr = rec["prob"]
        for ph in range(pr.s["nph"]):
            r = pr.read(rec["z"], rec["p"], ph)
            if not (r["tf"] - r["t0"] > 1e-9) or (r["w"] <= 1e-9).any():
                return False
        return True

    def op_get(self, a, op):
        ps = self.posts.get(op["post"])
        if ps is None:
            a.tr["data"] = ["no result"]
            return
        a.soft = ps["soft"]
        rec, pr = ps["rec"], ps["prob"]
        phases = op.get("phases")
        how = op.get("how", "data")
        post = self.bare(ps) if op.get("bare") else ps["post"]
        if op.get("bare") and not phases:
            phases = [0]
        if how == "taus":
            return self.taus_of(a, post, op)
        kw = {}
        if op.get("phases") is not None:
            kw["phases"] = tuple(phases) if op.get("tuple") else list(phases)
        if op.get("interp"):
            kw["interpolate"] = True
        if how == "data":
            res = self.lib(a, post.get_data, **kw)
        elif how == "orig":
            kw.pop("interpolate", None)
            res = self.lib(a, post.get_original_data, **kw)
        elif how == "at":
            at = self.taus([op["at"]])[0]
            res = self.lib(a, post.get_interpolated_data, list(phases), at, guard=[("grid", at)])
        else:
            res = self.lib(a, post.get_trajectories, *phases[:1] if op.get("phases") else ())
        with kernel.quiet():
            a.tr["data"].append(dig(res))
            key = repr((phases, bool(op.get("interp")), how, bool(op.get("bare")), op.get("at")))
            d = dig(res)
            if key in ps["seen"] and ps["seen"][key] != d:
                self.viol("C12", "unstable", "%s: the same query on the same result returned something else" % a.uid, a)
            ps["seen"][key] = d
            for snap, live in ps["kept"]:
                if canon(live) != snap:
                    self.viol("C12", "overwritten", "%s: arrays returned earlier by this result changed" % a.uid, a)
                    break
            if not ps["soft"] and self.checks & {"C12", "C09", "C11"}:
                self.check_data(a, ps, res, phases, op, how)
            if op.get("scribble"):
                for v in res:
                    v = np.asarray(v)
                    if v.flags.writeable and v.size:
                        v[...] = 12345.0
            else:
                ps["kept"].append((canon(list(res)), list(res)))

    @staticmethod
    def bare(ps):
        """The same solution, its results built by hand from what is needed only."""
        post = ps["post"]
        keep = {k: v for k, v in post.options.items() if k in ("nx", "nu", "na", "nPh", "poly_orders", "seg_widths", "tau0", "tau1", "colloc_scheme", "scaling", "scale_x", "scale_u", "scale_a", "scale_t")}
        return mp.post_process(post.solution, post.trajectories, keep)

    def taus_of(self, a, post, op):
        """The grid for plotting over one segment."""
        orig = self.taus([[op["orig"]]])[0][0] if op.get("orig") else None
        kw = dict(n=op["n"]) if op.get("n") else {}
        if orig is not None:
            kw["taus_orig"] = orig
            kw["method"] = op["method"]
        guard = [("grid", orig)]
        out = self.lib(a, post.get_interpolation_taus, guard=guard, **kw)
        with kernel.quiet():
            a.tr["data"].append(dig(out))
            if "C12" not in self.checks:
                return
            g, n = np.asarray(out, float).ravel(), op.get("n") or 75
            if op["method"] == "uniform" or orig is None:
                e = model.LO + (model.HI - model.LO) * np.arange(n) / (n - 1)
                if not close(g, e, 1e-12):
                    self.viol("C12", "coverage", "%s: %d points from %r to %r, expected %d equal steps over the interval" % (a.uid, len(g), g[:1], g[-1:], n), a)
                return
            # every interval of the given grid is split alike, at equal distances
            per, left = divmod(len(g) - 1, len(orig) - 1)
            e = np.concatenate([x + (y - x) * np.arange(per) / max(per, 1) for x, y in zip(orig[:-1], orig[1:])] + [orig[-1:]])
            if left or not close(g, e, 1e-12) or len(g) < min(n, 32 * (len(orig) - 1) + 1):
                self.viol("C12", "coverage", "%s: %d points do not refine the given grid evenly" % (a.uid, len(g)), a)

    def check_data(self, a, ps, res, phases, op, how, tag="C12"):
        pr, z, p = ps["prob"], ps["z"], ps["p"]
        s = pr.s
        phs = list(phases) if phases else (list(s["plots"][0]) if s.get("plots") else list(range(s["nph"])))
        if how == "traj":
            phs = phs[:1] if phases else [0]
        x, u, t = [np.asarray(v, float) for v in res[:3]]
        al = res[3] if len(res) > 3 else None
        interp = bool(op.get("interp")) and how == "data"
        sx = np.ones(s["nx"]) if not ps["scaled"] else pr.sx
        su = np.ones(s["nu"]) if not ps["scaled"] else pr.su
        sa = np.ones(s["na"]) if not ps["scaled"] else pr.sa
        t = t.ravel()

        def bad(cls, msg):
            self.viol(tag, cls, "%s: %s" % (a.uid, msg), a)
            if tag != "C12":
                return
            if ps["rec"]["slot"].kind == "h" and cls in ("time", "values"):
                self.viol("C09", cls, "%s: %s" % (a.uid, msg), a)
            if ps["rec"]["slot"].kind == "adaptive" and cls in ("time", "values"):
                self.viol("C11", cls, "%s: %s" % (a.uid, msg), a)
            if ps["rec"]["slot"].kind == "base" and cls == "time":
                self.viol("C09", cls, "%s: %s" % (a.uid, msg), a)
        o = 0
        M = len(t)
        if x.shape != (M, s["nx"]) or u.shape != (M, s["nu"]):
            return bad("shape", "shapes %s %s %s" % (x.shape, u.shape, t.shape))
        if M % len(phs):
            return bad("shape", "%d points for %d phases" % (M, len(phs)))
        m = M // len(phs)
        if how == "at":
            return self.check_at(ps, x, u, t, phs, self.taus([op["at"]])[0], sx, su, bad)
        if not interp and m != pr.N:
            return bad("shape", "%d points per phase, %d nodes" % (m, pr.N))
        for ph in phs:
            r = pr.read(z, p, ph)
            T = r["tf"] - r["t0"]
            tt, xx, uu = t[o:o + m], x[o:o + m], u[o:o + m]
            o += m
            if not interp:
                if not np.allclose(tt, r["t"], rtol=1e-9, atol=1e-9 * (1 + abs(T))):
                    bad("time", "node times of phase %d are wrong" % ph)
                ex, eu = r["x"] * sx, r["u"] * su
                if tag == "C21":            # variables that were not asked for are not compared
                    ex, eu = np.where(np.isnan(xx), np.nan, ex), np.where(np.isnan(uu), np.nan, eu)
                if not close(xx, ex, 1e-10) or not close(uu, eu, 1e-10):
                    bad("values", "states or controls of phase %d are not those of the solution" % ph)
                continue
            end = r["t"][-1]                # widths that add up to one up to the solver's tolerance
            if not ((tt >= r["t0"] - 1e-9 * abs(T)).all() and (tt <= end + 1e-9 * abs(T)).all()):
                bad("time", "interpolated times of phase %d leave the phase" % ph)
                continue
            if (np.diff(tt) < -1e-9 * abs(T)).any():
                bad("time", "interpolated times of phase %d are not in order" % ph)
            k, tau, edges = pr.seg_at(r, tt)
            if abs(tt[0] - r["t0"]) > 1e-8 * abs(T) or abs(tt[-1] - end) > 1e-8 * abs(T) or len(set(k.tolist())) != pr.ns:
                bad("coverage", "interpolated data of phase %d do not cover the phase" % ph)
            for e in edges[1:]:
                if np.abs(tt - e).min() > 1e-7 * abs(T):
                    bad("coverage", "interpolated data of phase %d miss the segment boundary %.6g" % (ph, e))
                    break
            for kk in range(pr.ns):
                sel = k == kk
                if not sel.any():
                    continue
                for nm, got, V, sc, un in (("states", xx, "X", sx, pr.sx), ("controls", uu, "U", su, pr.su)):
                    e = pr.at(r, kk, tau[sel], V) / un * sc
                    mg = np.abs(r[V][pr.ends[kk]:pr.ends[kk + 1] + 1]).max() / un.min() * max(sc.max(), 1) + 1e-300
                    dm = 1 + np.abs(model.seg_ops(pr.scheme, pr.orders[kk])[1]).sum(axis=1).max()
                    if not ((np.abs(got[sel] - e) <= 1e-7 * mg * dm) | ((tag == "C21") & np.isnan(got[sel]))).all():
                        bad("values", "interpolated %s of phase %d are off the piecewise polynomial" % (nm, ph))
                        break
        if s["na"] and al is not None:
            A = np.stack([pr.read(z, p, ph)["a"] * sa for ph in phs])          # (phases, na)
            got = np.asarray(al, float)
            ok = False
            for form in (A.T, A, A.reshape(-1, 1), A.T.reshape(-1, 1)):
                if got.shape == form.shape and close(got, form, 1e-9):
                    ok = True
            if not ok:
                bad("parameters", "parameters %s, expected %s" % (got.tolist(), A.tolist()))

    def check_at(self, ps, x, u, t, phs, at, sx, su, bad):
        """Data interpolated at points the caller chose in each segment."""
        pr, o = ps["prob"], 0
        self.probe("data-at")
        for ph in phs:
            r = pr.read(ps["z"], ps["p"], ph)
            T = r["tf"] - r["t0"]
            edges = r["t0"] + T * np.concatenate([[0], np.cumsum(r["w"])])
            for k, tau in enumerate(at):
                n = len(tau)
                if o + n > len(t):
                    return bad("shape", "too few interpolated points")
                e = edges[k] + (edges[k + 1] - edges[k]) * (tau - model.LO) / (model.HI - model.LO)
                if not (np.abs(t[o:o + n] - e) <= 1e-8 * (1 + abs(T))).all():
                    return bad("time", "interpolated times of phase %d segment %d are not those of the given points" % (ph, k))
                dm = 1 + np.abs(model.seg_ops(pr.scheme, pr.orders[k])[1]).sum(axis=1).max()
                for nm, got, V, sc, un in (("states", x, "X", sx, pr.sx), ("controls", u, "U", su, pr.su)):
                    mg = np.abs(r[V][pr.ends[k]:pr.ends[k + 1] + 1]).max() / un.min() * max(sc.max(), 1) + 1e-300
                    if n and not (np.abs(got[o:o + n] - pr.at(r, k, tau, V) / un * sc) <= 1e-7 * mg * dm).all():
                        return bad("values", "%s of phase %d segment %d are off the piecewise polynomial at the given points" % (nm, ph, k))
                o += n
        if o != len(t):
            bad("shape", "%d interpolated points for %d given" % (len(t), o))

    def op_resid(self, a, op):
        rec = self.sols.get(op["sol"])
        if rec is None:
            a.tr["data"] = ["no solution"]
            return
        sl = rec["slot"]
        finite = bool(np.isfinite(rec["z"]).all()) and float(np.abs(rec["z"]).max(initial=0)) < 1e50
        a.soft = not finite or not self.nondegenerate(rec)
        which, rt = op["which"], op.get("rel")
        kw = {}
        if op.get("nodes") is not None:
            kw["nodes"] = self.taus(op["nodes"])
        if rt:
            kw["residual_type"] = "relative"
        gt = op.get("grid_type")
        if op.get("plot"):
            kw["plot"] = True
            if op.get("on"):
                with kernel.quiet():
                    fig, ax = mp.plt.subplots(1, 1)
                    ax.plot([0.0, 1.0], [5.0, 7.0])
                    a.figs.append(fig)
                kw["axs"] = ax
                if op["on"] == "both":
                    kw["fig"] = fig
        guard = [("solution", rec["sol"]), ("nodes", kw.get("nodes"))]
        if op.get("one") is not None:
            return self.one_phase(a, rec, op, which, op["one"], kw.get("nodes"), gt, guard)
        if which == "dx":
            if gt:
                kw["grid_type"] = gt
            ti, res = self.lib(a, sl.opt.get_dynamics_residuals, rec["sol"], guard=guard, **kw)
            with kernel.quiet():
                a.tr["data"].append(dig(ti, res))
                if not a.soft and self.checks & {"C13", "C09", "C11"}:
                    self.check_dx(a, rec, ti, res, [gt] * rec["prob"].s["nph"] if gt else sl.grid_type, kw.get("nodes"), rt)
        elif which == "x":
            if op.get("phases") is not None:
                kw["phases"] = list(op["phases"])
            xi, ui, ti, res = self.lib(a, sl.opt.get_states_residuals, rec["sol"], guard=guard, **kw)
            with kernel.quiet():
                a.tr["data"].append(dig(xi, ui, ti, res))
                if not a.soft and self.checks & {"C13", "C09", "C11"}:
                    self.check_x(a, rec, xi, ui, ti, res, op.get("phases"), sl.grid_type, kw.get("nodes"), rt)
        elif which == "dd":
            if gt:
                kw["grid_type"] = gt
            kw.pop("residual_type", None)
            ti, ddx, ddu = self.lib(a, sl.opt.get_state_second_derivative, rec["sol"], guard=guard, **kw)
            with kernel.quiet():
                a.tr["data"].append(dig(ti, ddx, ddu))
                if not a.soft and self.checks & {"C13"}:
                    self.check_dd(a, rec, ti, ddx, ddu, [gt or "spectral"] * rec["prob"].s["nph"], kw.get("nodes"))
        if op.get("plot"):
            with kernel.quiet():
                a.tr["data"].append(figdig(a.figs))
                if "C21" in self.checks and not a.soft:
                    self.check_curves(a, ti, res if which != "dd" else ddx, op.get("phases") or range(rec["prob"].s["nph"]), int(bool(op.get("on"))))

    def one_phase(self, a, rec, op, which, ph, nodes, gt, guard):
        """The diagnostics of a single phase."""
        sl, opt, prob = rec["slot"], rec["slot"].opt, rec["prob"]
        at = {} if nodes is None else {"target_nodes" if which in ("dx", "ip") else "nodes": nodes[ph]}
        judge = not a.soft and self.checks & {"C13", "C09", "C11"}
        if which in ("dd", "ip") and gt:
            at["grid_type"] = gt
        gts = {ph: gt if "grid_type" in at else sl.grid_type[ph]}
        if which == "ip" and op.get("plot"):
            at["options"] = {"plot"}
        fn = dict(dx=opt.get_dynamics_residuals_single_phase, x=opt.compute_states_from_solution_dynamics, dd=opt.get_state_second_derivative_single_phase, ip=opt.interpolate_single_phase)[which]
        out = self.lib(a, fn, rec["sol"], ph, guard=guard, **at)
        with kernel.quiet():
            a.tr["data"].append(dig([np.asarray(q.full()) if isinstance(q, ca.DM) else q for q in out]))
            if at.get("options"):
                a.tr["data"].append(figdig(a.figs))
                if "C21" in self.checks and not a.soft:
                    self.check_ip_plot(a, rec, ph, out)
            if not judge:
                return
            self.probe("one-phase-" + which)
            if which == "dx":
                self.check_dx(a, rec, {ph: out[0]}, {ph: out[1]}, gts, nodes, False, [ph], {ph: out[2]})
            elif which == "x":
                self.check_x(a, rec, {ph: out[0]}, {ph: out[1]}, {ph: out[2]}, {ph: out[3]}, [ph], gts, nodes, False)
            elif which == "dd":
                self.check_dd(a, rec, {ph: out[0]}, {ph: out[1]}, {ph: out[2]}, gts, nodes, [ph])
            else:
                self.check_ip(a, rec, ph, out, gts[ph], nodes, op.get("plot"))

    def check_ip_plot(self, a, rec, ph, out):
        """Nodes and interpolated curves of the states and of the controls."""
        self.probe("plot-interpolation")
        if len(a.figs) != 1 or len(a.figs[0].axes) != 2:
            return self.viol("C21", "figures", "%s: %d figures for one interpolation" % (a.uid, len(a.figs)), a)
        r = rec["prob"].read(rec["z"], rec["p"], ph)
        ti = out[2].full().ravel()
        for ax, nm, V in zip(a.figs[0].axes, "XU", out[:2]):
            ls, V = lines_of(ax), V.full()
            want = [(r["t"], r[nm][:, i]) for i in range(V.shape[1])] + [(ti, V[:, i]) for i in range(V.shape[1])]
            if len(ls) != len(want) or not all(close(t, T, 1e-9) and close(v, W, 1e-9) for (t, v), (T, W) in zip(ls, want)):
                return self.viol("C21", "curves", "%s: the plot of the interpolated phase %d does not show its nodes and the interpolated values" % (a.uid, ph), a)

    def check_ip(self, a, rec, ph, out, gtype, nodes, plot):
        """Interpolated states, controls and their derivatives of one phase."""
        X, U, ti, par, DX, DU, grid, t0, tf = out
        pr = rec["prob"]
        r = pr.read(rec["z"], rec["p"], ph)
        n = [len(g) for g in grid]
        ti = np.asarray(ti.full()).ravel()
        if ti.size != sum(n):
            return self.rbad(a, rec, "times", "%d times for %d interpolation points" % (ti.size, sum(n)))
        taus = self.grid_points(a, rec, pr, r, ph, np.split(ti, np.cumsum(n)[:-1]), gtype, nodes, "interpolation")
        if taus is None:
            return
        if not close(np.asarray(par.full()).ravel(), r["A"], 1e-9) or not close([t0[0], tf[0]], [r["t0"], r["tf"]], 1e-9):
            return self.rbad(a, rec, "values", "interpolation of phase %d: parameters or times are wrong" % ph)
        o = 0
        for k in range(pr.ns):
            if not len(taus[k]):
                continue
            D = np.abs(model.seg_ops(pr.scheme, pr.orders[k])[1])
            I = np.abs(model.interp_matrix(model.nodes(pr.scheme, pr.orders[k]), taus[k])) + 1e-8
            lo, hi = pr.ends[k], pr.ends[k + 1] + 1
            for nm, got, V, d in (("states", X, "X", 0), ("controls", U, "U", 0), ("state derivatives", DX, "X", 1), ("control derivatives", DU, "U", 1)):
                g, e = got.full()[o:o + n[k]], pr.at(r, k, taus[k], V, order=d)
                mag = np.abs(r[V][lo:hi])
                mag = I @ (D @ mag if d else mag)
                if g.shape != e.shape or not (np.abs(g - e) <= 1e-7 * mag + 1e-12).all():
                    return self.rbad(a, rec, "values", "interpolated %s of phase %d segment %d are wrong" % (nm, ph, k))
            o += n[k]

    def rbad(self, a, rec, cls, msg):
        self.viol("C13", cls, "%s: %s" % (a.uid, msg), a)
        kind = rec["slot"].kind
        if kind == "h":
            self.viol("C09", cls, "%s: %s" % (a.uid, msg), a)
        if kind == "adaptive":
            self.viol("C11", cls, "%s: %s" % (a.uid, msg), a)

    def taus(self, nodes):
        """Nodes of a plan (between -1 and 1) on the library's normalised interval."""
        return [[model.LO + (np.array(seg, float) + 1) / 2 * (model.HI - model.LO) for seg in ph] for ph in nodes]

    def grid_points(self, a, rec, pr, r, ph, ti, gtype, nodes, what):
        """Match the reported times of one phase to residual points; yields (segment, tau)."""
        T = r["tf"] - r["t0"]
        edges = r["t0"] + T * np.concatenate([[0], np.cumsum(r["w"])])
        if nodes is not None:
            pts = [(np.array(nodes[ph][k], float), np.ones(len(nodes[ph][k]), bool)) for k in range(pr.ns)]
        else:
            mg = rec["slot"].maxgrid
            pts = self.residual_points(pr, r["w"], gtype, mg)
        if len(ti) != pr.ns:
            self.rbad(a, rec, "segments", "%s: %d segments reported in phase %d, grid has %d" % (what, len(ti), ph, pr.ns))
            return None
        out = []
        for k in range(pr.ns):
            got = np.zeros(0) if ti[k] is None else np.asarray([float(v) for v in np.asarray(ti[k], dtype=object).ravel()]).ravel()
            tau, sure = pts[k]
            exp = edges[k] + (edges[k + 1] - edges[k]) * (tau - model.LO) / (model.HI - model.LO)
            tol = 1e-9 * (1 + abs(T))
            bad = [g for g in got if not len(exp) or np.abs(exp - g).min() > tol * 10]
            miss = [e for e, s in zip(exp, sure) if s and (not len(got) or np.abs(got - e).min() > tol * 10)]
            if bad or miss:
                self.rbad(a, rec, "times", "%s phase %d segment %d: reported times %s, expected %s" % (what, ph, k, got.tolist()[:6], exp.tolist()[:6]))
                return None
            idx = [int(np.abs(exp - g).argmin()) for g in got]
            out.append(tau[idx] if len(idx) else np.zeros(0))
        return out

    def check_dx(self, a, rec, ti, res, gtypes, nodes, rt, phases=None, rhs=None):
        pr = rec["prob"]
        if phases is None and len(ti) != pr.s["nph"]:
            return self.rbad(a, rec, "phases", "residuals of %d phases" % len(ti))
        self.probe("resid-dx")
        for ph in range(pr.s["nph"]) if phases is None else phases:
            r = pr.read(rec["z"], rec["p"], ph)
            taus = self.grid_points(a, rec, pr, r, ph, ti[ph], gtypes[ph], nodes, "dynamics residuals")
            if taus is None:
                return
            val = [pr.residual(r, ph, k, taus[k]) if len(taus[k]) else None for k in range(pr.ns)]
            div = np.ones(pr.s["nx"])
            if rt:
                div = np.max([np.abs(v[2]).max(axis=0) for v in val if v is not None], axis=0)
                if (div < 1e-12).any():
                    continue
            for k in range(pr.ns):
                if val[k] is None:
                    if res[ph][k] is not None and len(res[ph][k]):
                        self.rbad(a, rec, "values", "residuals without times")
                    continue
                got = np.asarray(res[ph][k], float).reshape(len(taus[k]), pr.s["nx"])
                if not (np.abs(got * div - val[k][0]) <= 1e-7 * val[k][1] + 1e-12).all():
                    self.rbad(a, rec, "values", "dynamics residuals of phase %d segment %d are wrong: %s, expected %s" % (ph, k, got[0].tolist(), (val[k][0][0] / div).tolist()))
                    return
                if rhs is not None:
                    g2 = np.asarray(rhs[ph][k], float).reshape(val[k][2].shape)
                    if not (np.abs(g2 - val[k][2]) <= 1e-7 * val[k][1] + 1e-12).all():
                        return self.rbad(a, rec, "values", "right-hand sides of phase %d segment %d are wrong" % (ph, k))

    @staticmethod
    def integrated(pr, r, ph, taus):
        """States integrated from the start of each segment, their magnitudes, and the residuals."""
        xin, mags, rs = [], [], []
        for k in range(pr.ns):
            tau = taus[k]
            if not len(tau):
                xin.append(None); mags.append(None); rs.append(None)
                continue
            _, fm, hf = pr.residual(r, ph, k, tau)
            # rounding: every node enters the interpolated values, even where its weight should be zero
            I = np.abs(model.interp_matrix(model.nodes(pr.scheme, pr.orders[k]), tau)) + 1e-6
            noise = 1e-9 * (I @ np.abs(r["X"][pr.ends[k]:pr.ends[k + 1] + 1]))
            xs = r["X"][pr.ends[k]]
            xg, wg = np.polynomial.legendre.leggauss(len(tau) // 2 + 2)
            X = pr.at(r, k, tau)
            v, mm = np.empty_like(hf), np.empty_like(hf)
            # the library may write the polynomials in powers of tau: their coefficients cancel
            C = model.power_coefs(tau)
            for i, t1 in enumerate(tau):
                hl = (t1 - model.LO) / 2
                Lm = model.interp_matrix(tau, model.LO + hl * (1 + xg))
                q = hl * (wg @ Lm)
                v[i] = xs + q @ hf
                mm[i] = np.abs(xs) + (hl * (np.abs(wg) @ np.abs(Lm))) @ (np.abs(hf) + 1e-9 * fm + 1e-300) + 1e-8 * (C @ np.abs(t1) ** np.arange(1, len(tau) + 1)) @ np.abs(hf)
            xin.append(v); mags.append(mm + 1e6 * noise); rs.append(X - v)
        return xin, mags, rs

    def check_x(self, a, rec, xi, ui, ti, res, phases, gtypes, nodes, rt):
        pr = rec["prob"]
        self.probe("resid-x")
        for ph in (phases if phases is not None else range(pr.s["nph"])):
            r = pr.read(rec["z"], rec["p"], ph)
            T = r["tf"] - r["t0"]
            if ti[ph] is None or len(ti[ph]) != pr.ns:
                return self.rbad(a, rec, "segments", "state residuals of phase %d missing" % ph)
            taus = self.grid_points(a, rec, pr, r, ph, ti[ph], gtypes[ph], nodes, "state residuals")
            if taus is None:
                return
            xin, mags, rs = self.integrated(pr, r, ph, taus)
            div = np.ones(pr.s["nx"])
            vague = np.zeros(pr.s["nx"])
            if rt:
                div = np.max([np.abs(v).max(axis=0) for v in xin if v is not None], axis=0)
                if (div < 1e-12).any():
                    continue
                vague = np.max([1e-6 * m.max(axis=0) for m in mags if m is not None], axis=0) / div
            for k in range(pr.ns):
                if xin[k] is None:
                    continue
                n = len(taus[k])
                got = np.asarray(res[ph][k], float).reshape(n, -1)
                tol = 1e-6 * (mags[k] + np.abs(pr.at(r, k, taus[k]))) + 1e-12
                if got.shape != rs[k].shape or not (np.abs(got * div - rs[k]) <= tol + vague * np.abs(rs[k])).all():
                    self.rbad(a, rec, "values", "state residuals of phase %d segment %d are wrong: %s, expected %s" % (ph, k, got[-1].tolist(), (rs[k][-1] / div).tolist()))
                    return
                if xi is not None:
                    g2 = np.asarray(xi[ph][k], float).reshape(n, -1)
                    if g2.shape != xin[k].shape or not (np.abs(g2 - xin[k]) <= tol).all():
                        self.rbad(a, rec, "values", "integrated states of phase %d segment %d are wrong" % (ph, k))
                        return
                    g3 = np.asarray([np.asarray(q, float).ravel() for q in ui[ph][k]]).reshape(n, -1)
                    e3 = pr.at(r, k, taus[k], "U")
                    if not (np.abs(g3 - e3) <= 1e-7 * (1 + np.abs(e3)) * (1 + np.abs(r["U"]).max())).all():
                        self.rbad(a, rec, "values", "controls reported with the state residuals of phase %d segment %d are wrong" % (ph, k))
                        return

    def check_dd(self, a, rec, ti, ddx, ddu, gtypes, nodes, phases=None):
        pr = rec["prob"]
        self.probe("resid-dd")
        for ph in range(pr.s["nph"]) if phases is None else phases:
            r = pr.read(rec["z"], rec["p"], ph)
            taus = self.grid_points(a, rec, pr, r, ph, ti[ph], gtypes[ph], nodes, "second derivatives")
            if taus is None:
                return
            for k in range(pr.ns):
                if not len(taus[k]):
                    continue
                D = np.abs(model.seg_ops(pr.scheme, pr.orders[k])[1])
                lo, hi = pr.ends[k], pr.ends[k + 1] + 1
                for nm, got, V in (("states", ddx, "X"), ("controls", ddu, "U")):
                    e = pr.at(r, k, taus[k], V, order=2)
                    g = np.asarray(got[ph][k], float).reshape(e.shape)
                    I = np.abs(model.interp_matrix(model.nodes(pr.scheme, pr.orders[k]), taus[k]))
                    mag = I @ D @ D @ np.abs(r[V][lo:hi])
                    if not (np.abs(g - e) <= 1e-7 * mag + 1e-12).all():
                        self.rbad(a, rec, "values", "second derivatives of the %s in phase %d segment %d are wrong" % (nm, ph, k))
                        return

    # -- plots ------------------------------------------------------------------------
    def op_plot(self, a, op):
        """The plotting calls of a result."""
        ps = self.posts.get(op["post"])
        if ps is None:
            a.tr["data"] = ["no result"]
            return
        a.soft = ps["soft"]
        post, s = ps["post"], ps["prob"].s
        how, phases = op["how"], op.get("phases")
        kw = {}
        if phases is not None and how != "phase":
            kw["phases"] = list(phases)
        if "interp" in op:
            kw["interpolate"] = op["interp"]
        if how in ("x", "u"):
            for k in ("dims", "axis"):
                if op.get(k) is not None:
                    kw[k] = copy.deepcopy(op[k])
        if how == "phases" and "residuals" in op:
            kw["residuals"] = op["residuals"]
        if op.get("bare"):
            post = self.bare(ps)
            phases = phases or [0]
        with kernel.quiet():
            before = dig(post.solution, post.options) if "C21" in self.checks else None
        draws = how in ("phases", "phase") and op.get("residuals", True) and post.residuals is not None
        a.skip = {}
        if op.get("on") and not draws:
            # continue on a figure that shows something already
            first = dict(kw, **op["on"])
            if how == "phase":
                first.pop("phases", None)
                fig, axs = self.lib(a, post.plot_phase, (op["on"].get("phases") or [0])[0], **{k: v for k, v in first.items() if k != "phases"})
            else:
                fig, axs = self.lib(a, getattr(post, "plot_" + how), **first)
            with kernel.quiet():
                a.skip = {id(ax): (len(ax.get_lines()), canon(lines_of(ax))) for ax in fig.axes}
            kw.update(axs=axs, fig=fig)
        if how in ("all", "one"):
            # the drawing helpers, given data by the caller
            x, u, t, _ = self.lib(a, post.get_data, phases or [], op.get("interp", True))
            name = {} if "name" not in op else dict(name=op["name"])
            if how == "all":
                out = self.lib(a, mp.post_process.plot_all, x, u, t, legend=op["legend"], **name)
            else:
                out = self.lib(a, mp.post_process.plot_single_variable, u if op["of"] == "u" else x, t, copy.deepcopy(op["dims"]), tics=op.get("tics"), axis=op.get("axis", 1), **name)
        elif how == "phase":
            out = self.lib(a, post.plot_phase, phases[0] if phases else 0, **kw)
        else:
            out = self.lib(a, getattr(post, "plot_" + how), **kw)
        with kernel.quiet():
            if "C21" in self.checks and a.skip:
                for ax in a.figs[0].axes:
                    n, was = a.skip.get(id(ax), (0, None))
                    if len(a.figs) != 1 or canon(lines_of(ax)[:n]) != was:
                        self.viol("C21", "figures", "%s: drawing on an earlier figure opened another or lost what it showed" % a.uid, a)
                        break
                self.probe("plot-again")
            if "C21" in self.checks and not (isinstance(out, tuple) and len(out) == 2 and any(f is out[0] for f in a.figs)):
                self.viol("C21", "figures", "%s: plot_%s did not return its figure" % (a.uid, how), a)
            a.tr["data"].append(figdig(a.figs))
            if "C21" not in self.checks or a.soft:
                return
            if dig(post.solution, post.options) != before:
                self.viol("C21", "altered", "%s: plotting altered the result" % a.uid, a)
            if how in ("phases", "phase"):
                phs = list(phases) if phases else ([0] if how == "phase" else list((s.get("plots") or [range(s["nph"])])[0]))
                if not a.figs:
                    return self.viol("C21", "figures", "%s: nothing was drawn" % a.uid, a)
                self.check_figs(a, ps, a.figs[-1], phs, op.get("interp", True), draws)
            elif how in ("all", "one"):
                self.check_given(a, a.figs, how, op, x, u, t)
            else:
                self.check_variable(a, ps, a.figs[-1] if a.figs else None, how, dict(op, phases=phases))

    def drawn(self, a, ax):
        return lines_of(ax)[getattr(a, "skip", {}).get(id(ax), (0,))[0]:]

    def labels(self, a, ax, wanted, what):
        """Labels that end with a number count the variables as drawn."""
        ls = ax.get_lines()[getattr(a, "skip", {}).get(id(ax), (0,))[0]:]
        said = [str(l.get_label()) for l in ls if not str(l.get_label()).startswith("_")]
        tail = [re.search(r"(\d+)$", q) for q in said]
        if len(said) == len(wanted) and len(set(said)) < len(said):
            return self.viol("C21", "labels", "%s: different %s have the same label: %s" % (a.uid, what, said), a)
        if not tail or any(m is None for m in tail) or len(tail) % len(wanted):
            return
        for i in range(0, len(tail), len(wanted)):
            off = {int(m.group(1)) - w for m, w in zip(tail[i:i + len(wanted)], wanted)}
            if off not in ({0}, {1}):
                return self.viol("C21", "labels", "%s: %s %s are labelled %s" % (a.uid, what, list(wanted), [m.group(0) for m in tail]), a)

    def check_given(self, a, figs, how, op, x, u, t):
        """Curves of data the caller hands in."""
        self.probe("plot-" + how)
        if how == "all":
            want = [(x, range(x.shape[1])), (u, range(u.shape[1]))]
        else:
            v = u if op["of"] == "u" else x
            want = [(v, g) for g in (op["dims"] if isinstance(op["dims"][0], list) else [op["dims"]])]
        if len(figs) != 1 or len(figs[0].axes) != len(want):
            return self.viol("C21", "figures", "%s: %d figures for one plot" % (a.uid, len(figs)), a)
        for ax, (v, g) in zip(figs[0].axes, want):
            ls = lines_of(ax)
            if len(ls) != len(g) or not all(close(lt, np.ravel(t), 1e-12) and close(ly, v[:, d], 1e-12) for (lt, ly), d in zip(ls, g)):
                return self.viol("C21", "curves", "%s: the curves are not the given columns %s" % (a.uid, list(g)), a)
            self.labels(a, ax, g, "variables")

    def table(self, a, lines, n, what):
        """n curves over the same times -> (times, columns)."""
        if len(lines) != n:
            self.viol("C21", "curves", "%s: %d curves of %s, expected %d" % (a.uid, len(lines), what, n), a)
            return None
        t = lines[0][0]
        if any(x.shape != t.shape or y.shape != t.shape or not (x == t).all() for x, y in lines):
            self.viol("C21", "curves", "%s: curves of %s with different times" % (a.uid, what), a)
            return None
        if not all(np.isfinite(y).all() for _, y in lines):
            self.viol("C21", "curves", "%s: curves of %s have gaps" % (a.uid, what), a)
            return None
        return t, np.stack([y for _, y in lines], axis=1)

    def check_variable(self, a, ps, fig, how, op):
        """plot_x / plot_u: chosen dimensions of one variable."""
        s = ps["prob"].s
        n = s["n" + how]
        dims = op.get("dims") or list(range(n))
        groups = dims if isinstance(dims[0], list) else [dims]
        interp = op.get("interp", True)
        if fig is None or len(fig.axes) != len(groups):
            return self.viol("C21", "figures", "%s: %s subplots for %d groups of variables" % (a.uid, fig and len(fig.axes), len(groups)), a)
        self.probe("plot-" + how)
        phases = op.get("phases") or None
        for ax, g in zip(fig.axes, groups):
            ls = self.drawn(a, ax)
            self.labels(a, ax, g, "variables")
            parts = [interp] if how == "x" else ([False, True] if interp else [False])
            # the curves may come in two passes; which one first does not matter
            if how == "u" and not interp and len(ls) == 2 * len(g):
                parts = [False, False]
            if len(ls) != len(parts) * len(g):
                self.viol("C21", "curves", "%s: %d curves for %d variables" % (a.uid, len(ls), len(g)), a)
                return
            N = len(ps["prob"].lay.X[0]) * len(phases or (s.get("plots") or [range(s["nph"])])[0])
            for part in (ls[i * len(g):(i + 1) * len(g)] for i in range(len(parts))):
                tab = self.table(a, part, len(g), "the " + how)
                if tab is None:
                    return
                t, y = tab
                isint = interp if how == "x" else (len(t) != N)
                X, U = np.full((len(t), s["nx"]), np.nan), np.full((len(t), s["nu"]), np.nan)
                (X if how == "x" else U)[:, g] = y
                self.check_data(a, ps, (X, U, t), phases, dict(interp=isint), "data", tag="C21")
            if how == "u" and interp and sum(len(p[0]) == N for p in ls) != len(g):
                self.viol("C21", "curves", "%s: nodes and interpolated curves are not both shown" % a.uid, a)

    def check_figs(self, a, ps, fig, phs, interp, residuals):
        """One figure of states, controls and residuals."""
        s = ps["prob"].s
        self.probe("plot-phases")
        axes = fig.axes
        res = ps["post"].residuals if residuals else None
        want = 2 + (len(res) if res else 0)
        if len(axes) != want:
            return self.viol("C21", "figures", "%s: %d subplots, expected %d" % (a.uid, len(axes), want), a)
        lx, lu = self.drawn(a, axes[0]), self.drawn(a, axes[1])
        self.labels(a, axes[0], range(s["nx"]), "states")
        self.labels(a, axes[1], range(s["nu"]), "controls")
        passes = [True, False] if interp else [False]
        if len(lx) != len(passes) * s["nx"] or len(lu) != len(passes) * s["nu"]:
            return self.viol("C21", "curves", "%s: %d and %d curves for %d states and %d controls" % (a.uid, len(lx), len(lu), s["nx"], s["nu"]), a)
        for i in range(len(passes)):
            tx = self.table(a, lx[i * s["nx"]:(i + 1) * s["nx"]], s["nx"], "the states")
            tu = self.table(a, lu[i * s["nu"]:(i + 1) * s["nu"]], s["nu"], "the controls")
            if tx is None or tu is None:
                return
            if len(tx[0]) != len(tu[0]) or (tx[0] != tu[0]).any():
                return self.viol("C21", "curves", "%s: states and controls are drawn over different times" % a.uid, a)
            isint = interp and len(tx[0]) != len(phs) * ps["prob"].N
            self.check_data(a, ps, (tx[1], tu[1], tx[0]), phs, dict(interp=isint), "data", tag="C21")
        if interp and sorted(len(l[0]) == len(phs) * ps["prob"].N for l in lx) != [False] * s["nx"] + [True] * s["nx"]:
            self.viol("C21", "curves", "%s: nodes and interpolated curves are not both shown" % a.uid, a)
        for ax, key in zip(axes[2:], [k for k in ("t_x", "t_dx") if res and k in res]):
            tab = self.table(a, lines_of(ax), s["nx"], "the residuals")
            if tab is None:
                return
            self.probe("plot-residuals")
            times, vals = res[key]
            for choice in (range(s["nph"]), phs):
                T, V = [np.zeros(0)], [np.zeros((0, s["nx"]))]
                for ph in choice:
                    for tk, rk in zip(times[ph], vals[ph]):
                        if rk is not None and len(rk):
                            V.append(np.asarray(rk, float).reshape(len(rk), -1))
                            T.append(np.asarray([float(v) for v in np.asarray(tk, dtype=object).ravel()]))
                T, V = np.concatenate(T), np.concatenate(V)
                if close(T, tab[0], 1e-12) and close(V, tab[1], 1e-12):
                    break
            else:
                self.viol("C21", "residuals", "%s: the residual curves do not show the residuals of the result" % a.uid, a)

    @staticmethod
    def norm_curve(ti, res, phases):
        T, V = [np.zeros(0)], [np.zeros(0)]
        for ph in phases:
            for tk, rk in zip(ti[ph], res[ph]):
                if rk is not None and len(rk):
                    V.append(np.sqrt((np.asarray(rk, float).reshape(len(rk), -1) ** 2).sum(axis=1)))
                    T.append(np.asarray([float(v) for v in np.asarray(tk, dtype=object).ravel()]))
        return np.concatenate(T), np.concatenate(V)

    def check_curves(self, a, ti, res, phases, earlier=0):
        """The residual plot of one call: the norm of what the call returned."""
        self.probe("plot-norm")
        if len(a.figs) != 1 or len(a.figs[0].axes) != 1:
            return self.viol("C21", "figures", "%s: %d figures for one residual plot" % (a.uid, len(a.figs)), a)
        ls = lines_of(a.figs[0].axes[0])
        if earlier and (len(ls) < earlier or not close(ls[0][1], [5.0, 7.0])):
            self.viol("C21", "figures", "%s: the curve drawn before is gone" % a.uid, a)
        ls = ls[earlier:]
        T, V = self.norm_curve(ti, res, phases)
        if not ls or not all(close(t, T, 1e-12) and close(v, V, 1e-9, 1e-12) for t, v in ls):
            self.viol("C21", "residuals", "%s: the residual plot does not show the norm of the returned residuals of phases %s" % (a.uid, list(phases)), a)

    def check_evolution(self, a, sl, cur):
        """plot_residual_evolution: one more curve for every solution looked at, those of the phases to plot."""
        if sl.n == 1 or (cur["mopts"] and cur["mopts"].get("method") not in ("residual", "control_slope")):
            return
        if sl.opt.axs is None:
            if cur["runs"]:
                self.viol("C21", "figures", "%s: the evolution of residuals was not drawn" % a.uid, a)
            return
        ls = lines_of(sl.opt.axs)[cur["lines0"]:]
        seen = ([cur["start"]] if cur.get("start") is not None else []) + [(r["z"], r["io"]["p"]) for r in cur["runs"]]
        if not seen:
            return
        if len(ls) % len(seen) or not ls:
            return self.viol("C21", "curves", "%s: %d curves for %d solutions" % (a.uid, len(ls), len(seen)), a)
        self.probe("plot-evolution")
        prob, s = self.problem(sl), sl.spec
        phs = [ph for g in (s.get("plots") or [range(s["nph"])]) for ph in g]
        m = len(ls) // len(seen)
        for j, (z, p) in enumerate(seen):
            if not np.isfinite(z).all() or np.abs(z).max(initial=0) > 1e50 or not self.nondegenerate(dict(prob=prob, z=z, p=p)):
                continue
            T, V, M, S = [], [], [], []
            for ph in phs:
                r = prob.read(z, p, ph)
                edges = r["t0"] + (r["tf"] - r["t0"]) * np.concatenate([[0], np.cumsum(r["w"])])
                for k, (tau, sure) in enumerate(self.residual_points(prob, r["w"], sl.grid_type[ph], sl.maxgrid)):
                    if len(tau):
                        v, mg, _ = prob.residual(r, ph, k, tau)
                        T.append(edges[k] + (edges[k + 1] - edges[k]) * (tau - model.LO) / (model.HI - model.LO)); S.append(sure)
                        V.append(np.sqrt((v ** 2).sum(axis=1))); M.append(mg.sum(axis=1))
            T, V, M, S = [np.concatenate(q) if q else np.zeros(0) for q in (T, V, M, S)]
            for t, v in ls[j * m:(j + 1) * m]:
                span = 1 + np.abs(T).max(initial=0)
                d = np.abs(t[:, None] - T[None, :]) <= 1e-8 * span
                near = d & (np.abs(v[:, None] - V[None, :]) <= 1e-7 * M[None, :] + 1e-12)
                if not near.any(axis=1).all() or (S.astype(bool) & ~near.any(axis=0)).any():
                    return self.viol("C21", "residuals", "%s: the curve of solution %d does not show the residuals of phases %s" % (a.uid, j, phs), a)

    # -- one-call solving -----------------------------------------------------------
    def op_top(self, a, op):
        """mp.solve(...), or the equivalent staged calls."""
        o = self.ocp(op["spec"])
        g = op["grid"]
        po = self.gridlist(g)
        orders = [po] * g["n"] if isinstance(po, int) else list(po)
        s = copy.deepcopy(self.specs[op["spec"]])
        sl = Slot(name=op["slot"], opt=None, spec=s, kind="base", orders=orders, scheme=g["scheme"], n=g["n"], built=0, kept=None, cfg={},
                  muted=bool(mp.mpopt._MUTE_), last=None, grid_type=[self.classes.get(("mpopt", "_GRID_TYPE"), "fixed")] * s["nph"], maxgrid=self.classes.get(("mpopt", "_MAX_GRID_POINTS"), 15), kwargs={}, owner=a.id)
        opts, mopts = copy.deepcopy(op.get("opts")), copy.deepcopy(op.get("mpopts"))
        sd = {}
        init, exp0 = self.initial(sl, op.get("init"))
        if init is not None:
            sd["initial_solution"] = init
        if opts is not None:
            sd["nlp_solver_options"] = opts
        if op.get("plugin"):
            sd["solver"] = op["plugin"]
        if mopts is not None:
            sd["mpopt_options"] = mopts
        if op.get("reinit"):
            sd["reinitialize_nlp"] = True
        if len(orders) != g["n"]:
            a.refused = (AssertionError,)      # one order for every segment
        cur = a.cur = dict(slot=sl, op=op, builds=[], runs=[], exp0=exp0, init=init, mopts=copy.deepcopy(mopts) or {}, kept0=None)
        fl = dict(op.get("flags", {}))
        pl = bool(op.get("plot"))
        guard = [("problem", o), ("polynomial orders", po), ("solve options", sd)]
        if op.get("staged"):
            def run():
                opt = mp.mpopt(o, n_segments=g["n"], poly_orders=po, scheme=g["scheme"])
                sol = opt.solve(**sd)
                post = opt.process_results(sol, plot=pl, **fl)
                return opt, post
        else:
            def run():
                kw = dict(n_segments=g["n"], poly_orders=po, scheme=g["scheme"], plot=pl, **fl)
                if sd or not op.get("no_dict"):
                    kw["solve_dict"] = sd
                return mp.solve(o, **kw)
        opt, post = self.lib(a, run, guard=guard)
        with kernel.quiet():
            sl.opt, sl.built = opt, 1
            self.slots[op["slot"]] = sl
            sol = post.solution
            a.tr["data"].append(dig(sol))
            a.tr["data"].append(figdig(a.figs))
            r = cur["runs"][-1]
            if canon(sol["x"]) != canon(r["ans"]["x"]):
                self.viol("C16", "solution", "%s: the results are not those of this solve" % a.uid, a)
            rec = dict(sol=sol, z=r["z"], p=r["io"]["p"].copy(), slot=sl, prob=self.problem(sl), serial=len(self.order), sig=canon(sol))
            self.sols[op["slot"]] = rec
            sl.kept, sl.last = r["io"]["p"].copy(), op["slot"]
            finite = bool(np.isfinite(r["z"]).all())
            self.posts[op["slot"]] = dict(post=post, rec=rec, scaled=False, seen={}, z=r["z"].copy(), p=rec["p"], prob=rec["prob"], soft=not finite, kept=[])
            a.tr["data"].append(dig(getattr(post, "residuals", None)))


class HarnessError(Exception):
    pass


class Unmodelled(HarnessError):
    pass
