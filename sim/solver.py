"""The simulated NLP solver: the one external party the library talks to."""
from . import kernel

GENERIC = {"print_time", "expand", "verbose", "error_on_fail", "max_iter", "calc_lam_p", "calc_f", "calc_g",
           "qpsol", "qpsol_options", "print_header", "print_iteration", "print_status", "tol_pr", "tol_du",
           "discrete", "jit", "verbose_init", "regularity_check", "inputs_check", "ad_weight", "warn_initial_bounds",
           "bound_consistency", "record_time", "print_in", "print_out", "hessian_approximation", "elide_lambda"}
PLUGINS = {"ipopt", "sqpmethod", "scpgen", "qrsqp", "bonmin", "knitro", "snopt", "worhp", "blocksqp", "feasiblesqpmethod"}


def nlpsol(name, plugin, prob, opts=None, *rest, **kw):
    from . import boot
    s = kernel.current()
    if s is None:
        return boot._real["nlpsol"](name, plugin, prob, *([opts] if opts is not None else []), *rest, **kw)
    return SimSolver(s, name, plugin, prob, dict(opts or {}))


class SimSolver:
    KEYS = ("x0", "p", "lbx", "ubx", "lbg", "ubg", "lam_x0", "lam_g0")

    def __init__(self, sim, name, plugin, prob, opts):
        from . import boot
        ca = boot.ca
        sim.point("build")
        if plugin not in PLUGINS:
            raise RuntimeError("Plugin '%s' is not found." % plugin)
        for k in opts:
            if "." in k and not k.startswith(plugin + "."):
                raise RuntimeError("Unknown option: %s" % k)
        a = kernel.current_actor()
        self.sim, self.session = sim, sim.session
        self.plugin, self.opts = plugin, opts
        unknown = set(prob) - {"x", "f", "g", "p"}
        if unknown:
            raise RuntimeError("Unrecognized NLP field %s" % unknown)
        x, f, g = prob["x"], prob["f"], prob.get("g", ca.SX(0, 1))
        p = prob.get("p", ca.SX(0, 1))
        x, p, g, f = ca.SX(x), ca.SX(p), ca.SX(g), ca.SX(f)
        if not x.is_column() or not f.is_scalar():
            raise RuntimeError("nlpsol: 'x' must be a column and 'f' a scalar")
        if p.numel() == 0:
            p = ca.SX(0, 1)
        with kernel.quiet():
            self.fn = ca.Function("fg", [x, p], [f, ca.densify(g)])
        self.nx, self.ng, self.np = x.numel(), g.numel(), p.numel()
        self.session.on_build(a, self)

    def stats(self):
        return {"return_status": "Solve_Succeeded", "success": True, "iter_count": 1}

    def _vec(self, key, v, n, default):
        from . import boot
        ca, np = boot.ca, boot.np
        if v is None:
            return np.full(n, default)
        d = ca.DM(v)
        if d.numel() == n and (d.size1() == n or d.size2() == n or n == 0):
            return np.array(d.full()).reshape(-1, order="F").copy()
        if d.numel() == 1:
            return np.full(n, float(d))
        if d.numel() == 0 and n:
            return np.zeros(n)
        raise RuntimeError("Input %s has mismatching shape. Got %s. Expected %d-by-1." % (key, d.shape, n))

    def __call__(self, *args, **kw):
        from . import boot
        ca, np = boot.ca, boot.np
        if args:
            raise RuntimeError("positional solver call is not simulated")
        s = kernel.current()
        if s is None:
            raise RuntimeError("simulated solver used outside the simulation")
        s.point("run")
        for k in kw:
            if k not in self.KEYS:
                raise RuntimeError("Unknown input: %s" % k)
        inf = np.inf
        io = dict(
            x0=self._vec("x0", kw.get("x0"), self.nx, 0.0), p=self._vec("p", kw.get("p"), self.np, 0.0),
            lbx=self._vec("lbx", kw.get("lbx"), self.nx, -inf), ubx=self._vec("ubx", kw.get("ubx"), self.nx, inf),
            lbg=self._vec("lbg", kw.get("lbg"), self.ng, -inf), ubg=self._vec("ubg", kw.get("ubg"), self.ng, inf),
            lam_x0=None if "lam_x0" not in kw else self._vec("lam_x0", kw["lam_x0"], self.nx, 0.0),
            lam_g0=None if "lam_g0" not in kw else self._vec("lam_g0", kw["lam_g0"], self.ng, 0.0))
        return self.session.on_run(kernel.current_actor(), self, io)

    def eval(self, z, p):
        f, g = self.fn(z, p)
        from . import boot
        return float(f), boot.np.array(g.full()).ravel(order="F")
