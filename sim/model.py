"""Executable reference model of the documented transcription (numpy only).

Shares no code with the library: nodes come from scipy's Jacobi roots,
derivatives from barycentric formulas, weights from Gauss-Legendre quadrature
of the Lagrange basis.
"""
import functools
import numpy as np
from scipy.special import roots_jacobi

inf = np.inf


# the normalised interval of a segment (a class-level setting of the library)
LO, HI = -1.0, 1.0


def set_interval(lo, hi):
    global LO, HI
    LO, HI = float(lo), float(hi)


def nodes(scheme, p):
    return LO + (unit_nodes(scheme, p) + 1) / 2 * (HI - LO)


@functools.lru_cache(None)
def unit_nodes(scheme, p):
    if p == 1:
        return np.array([-1.0, 1.0])
    if scheme == "LGR":
        r = roots_jacobi(p - 1, 1, 0)[0]
    elif scheme == "LGL":
        r = roots_jacobi(p - 1, 1, 1)[0]
    elif scheme == "CGL":
        return -np.cos(np.pi * np.arange(p + 1) / p)
    else:
        raise ValueError(scheme)
    return np.concatenate([[-1.0], np.sort(r), [1.0]])


def bary(t):
    d = t[:, None] - t[None, :]
    np.fill_diagonal(d, 1.0)
    return 1.0 / d.prod(axis=1)


def interp_matrix(t, at):
    """L[i, j] = l_j(at_i)"""
    at = np.atleast_1d(np.asarray(at, float))
    n = len(t)
    L = np.ones((len(at), n))
    for j in range(n):
        for k in range(n):
            if k != j:
                L[:, j] *= (at - t[k]) / (t[j] - t[k])
    return L


def dmatrix(t):
    w = bary(t)
    d = t[:, None] - t[None, :]
    np.fill_diagonal(d, 1.0)
    D = (w[None, :] / w[:, None]) / d
    np.fill_diagonal(D, 0.0)
    np.fill_diagonal(D, -D.sum(axis=1))
    return D


def seg_ops(scheme, p):
    return _seg_ops(scheme, p, LO, HI)


@functools.lru_cache(None)
def _seg_ops(scheme, p, lo, hi):
    t = unit_nodes(scheme, p)
    D = dmatrix(t) * 2 / (hi - lo)
    xg, wg = np.polynomial.legendre.leggauss(p // 2 + 2)
    w = wg @ interp_matrix(t, xg) * (hi - lo) / 2
    return nodes(scheme, p), D, w


def ev(terms, env, sin=np.sin):
    tot = 0.0
    for c, fac, fn in terms:
        v = c
        for k, i, pw in fac:
            b = env[k] if k in ("t", "t0", "tf") else env[k][i]
            for _ in range(pw):
                v = v * b
        if fn == "sin":
            v = sin(v)
        tot = tot + v
    return tot


def evabs(terms, env):
    tot = 0.0
    for c, fac, fn in terms:
        v = abs(c)
        for k, i, pw in fac:
            b = env[k] if k in ("t", "t0", "tf") else env[k][i]
            v = v * np.abs(b) ** pw
        tot = tot + (np.maximum(np.minimum(v, 1.0), 1e-6 * v) if fn == "sin" else v)
    return tot


class Layout:
    """Where each variable sits in the NLP vector."""

    def __init__(self, s, orders, adaptive):
        self.N = N = sum(orders) + 1
        self.X, self.U, self.t0, self.tf, self.A, self.H = [], [], [], [], [], []
        o = 0
        for ph in range(s["nph"]):
            self.X.append(o + np.arange(N * s["nx"]).reshape(s["nx"], N).T); o += N * s["nx"]
            self.U.append(o + np.arange(N * s["nu"]).reshape(s["nu"], N).T); o += N * s["nu"]
            self.t0.append(o); o += 1
            self.tf.append(o); o += 1
            self.A.append(o + np.arange(s["na"])); o += s["na"]
            if adaptive:
                self.H.append(o + np.arange(len(orders))); o += len(orders)
        self.n = o


class Problem:
    """The problem as the optimizer must see it: spec + grid + class of optimizer."""

    def __init__(self, s, orders, scheme, kind="base", cfg=None):
        self.s, self.orders, self.scheme, self.kind = s, list(orders), scheme, kind
        self.adaptive = kind == "adaptive"
        self.lay = Layout(s, orders, self.adaptive)
        self.N = self.lay.N
        self.ns = len(orders)
        self.cfg = cfg or {}
        self.ends = np.concatenate([[0], np.cumsum(orders)])
        self.sx, self.su, self.sa, self.st = (np.array(s["scale_x"], float), np.array(s["scale_u"], float),
                                              np.array(s["scale_a"], float), float(s["scale_t"]))

    # -- reading an NLP vector ------------------------------------------------
    def widths(self, z, p, ph):
        if self.adaptive:
            return z[self.lay.H[ph]]
        return np.asarray(p)[self.ns * ph: self.ns * (ph + 1)]

    def read(self, z, p, ph):
        L = self.lay
        w = self.widths(z, p, ph)
        t0, tf = z[L.t0[ph]] / self.st, z[L.tf[ph]] / self.st
        X, U = z[L.X[ph]], z[L.U[ph]]
        t = np.empty(self.N)
        ts = t0
        for k in range(self.ns):
            tau = nodes(self.scheme, self.orders[k])
            tt = ts + w[k] * (tf - t0) * (tau - LO) / (HI - LO)
            lo = 0 if k == 0 else 1
            t[self.ends[k] + lo: self.ends[k + 1] + 1] = tt[lo:]
            ts = ts + w[k] * (tf - t0)
        return dict(X=X, U=U, x=X / self.sx, u=U / self.su, t=t, t0=t0, tf=tf, a=z[L.A[ph]] / self.sa, A=z[L.A[ph]], w=w)

    def env(self, r, sl=slice(None), x=None, u=None, t=None):
        return dict(x=(r["x"][sl] if x is None else x).T, u=(r["u"][sl] if u is None else u).T,
                    t=r["t"][sl] if t is None else t, a=r["a"])

    def dyn(self, ph, env, M):
        f = np.stack([np.broadcast_to(ev(t, env), (M,)) for t in self.s["dyn"][ph]], axis=1)
        m = np.stack([np.broadcast_to(evabs(t, env), (M,)) for t in self.s["dyn"][ph]], axis=1)
        return f, m

    # -- transcription --------------------------------------------------------
    def objective(self, z, p):
        J = m = 0.0
        for ph in range(self.s["nph"]):
            r = self.read(z, p, ph)
            be = dict(xf=r["x"][-1], x0=r["x"][0], tf=r["tf"], t0=r["t0"], a=r["a"])
            if self.s["mayer"][ph] is not None:
                J += ev(self.s["mayer"][ph], be); m += evabs(self.s["mayer"][ph], be)
            if self.s["run"][ph] is not None:
                for k in range(self.ns):
                    sl = slice(self.ends[k], self.ends[k + 1] + 1)
                    w = seg_ops(self.scheme, self.orders[k])[2]
                    h = (r["tf"] - r["t0"]) / (HI - LO) * r["w"][k]
                    M = self.orders[k] + 1
                    L = np.broadcast_to(ev(self.s["run"][ph], self.env(r, sl)), (M,))
                    La = np.broadcast_to(evabs(self.s["run"][ph], self.env(r, sl)), (M,))
                    J += h * (w @ L); m += abs(h) * (np.abs(w) @ La)
        return J, m

    def rows(self, z, p):
        """All constraint rows: list of (tag, label, value, magnitude, lb, ub)."""
        out = []
        s = self.s
        for ph in range(s["nph"]):
            r = self.read(z, p, ph)
            env = self.env(r)
            f, fm = self.dyn(ph, env, self.N)
            T = r["tf"] - r["t0"]
            for k in range(self.ns):
                lo, hi = self.ends[k], self.ends[k + 1] + 1
                _, D, _ = seg_ops(self.scheme, self.orders[k])
                h = T / (HI - LO) * r["w"][k]
                val = D @ r["X"][lo:hi] - h * f[lo:hi] * self.sx
                mag = np.abs(D) @ np.abs(r["X"][lo:hi]) + np.abs(h) * fm[lo:hi] * self.sx
                for j in range(0 if k == 0 else 1, self.orders[k] + 1):
                    for i in range(s["nx"]):
                        out.append(("C04", "dynamics ph%d node%d x%d" % (ph, lo + j, i), val[j, i], mag[j, i], 0.0, 0.0))
                if s["diff_u"][ph]:
                    dv, dm = D @ r["U"][lo:hi], np.abs(D) @ np.abs(r["U"][lo:hi])
                    for j in range(0 if k == 0 else 1, self.orders[k] + 1):
                        for i in range(s["nu"]):
                            out.append(("C05", "slope ph%d node%d u%d" % (ph, lo + j, i), dv[j, i], dm[j, i], float(s["lbdu"][ph]), float(s["ubdu"][ph])))
            if s["path"][ph] is not None:
                for i, terms in enumerate(s["path"][ph]):
                    v, m = np.broadcast_to(ev(terms, env), (self.N,)), np.broadcast_to(evabs(terms, env), (self.N,))
                    for j in range(self.N):
                        out.append(("C05", "path%d ph%d node%d" % (i, ph, j), v[j], m[j], -inf, 0.0))
            if s["term"][ph] is not None:
                be = dict(xf=r["x"][-1], x0=r["x"][0], tf=r["tf"], t0=r["t0"], a=r["a"])
                for i, terms in enumerate(s["term"][ph]):
                    out.append(("C05", "terminal%d ph%d" % (i, ph), float(ev(terms, be)), float(evabs(terms, be)), 0.0, 0.0))
            if s["du_continuity"][ph]:
                for k in range(self.ns - 1):
                    _, Dl, _ = seg_ops(self.scheme, self.orders[k])
                    _, Dr, _ = seg_ops(self.scheme, self.orders[k + 1])
                    Ul = r["U"][self.ends[k]: self.ends[k + 1] + 1]
                    Ur = r["U"][self.ends[k + 1]: self.ends[k + 2] + 1]
                    wl, wr = r["w"][k], r["w"][k + 1]
                    v = wr * (Dl[-1] @ Ul) - wl * (Dr[0] @ Ur)
                    m = wr * (np.abs(Dl[-1]) @ np.abs(Ul)) + wl * (np.abs(Dr[0]) @ np.abs(Ur))
                    for i in range(s["nu"]):
                        out.append(("C05", "slope continuity ph%d seg%d u%d" % (ph, k, i), v[i], m[i], 0.0, 0.0))
            mid = self.adaptive or s["midu"][ph]
            if mid:
                tag = "C11" if self.adaptive else "C05"
                lbu, ubu = np.array(s["lbu"][ph]) * self.su, np.array(s["ubu"][ph]) * self.su
                lbx, ubx = np.array(s["lbx"][ph]) * self.sx, np.array(s["ubx"][ph]) * self.sx
                for k in range(self.ns):
                    lo, hi = self.ends[k], self.ends[k + 1] + 1
                    tau, D, _ = seg_ops(self.scheme, self.orders[k])
                    tm = (tau[1:] + tau[:-1]) / 2
                    I = interp_matrix(tau, tm)
                    um, umm = I @ r["U"][lo:hi], np.abs(I) @ np.abs(r["U"][lo:hi])
                    for j in range(len(tm)):
                        for i in range(s["nu"]):
                            out.append((tag, "mid control ph%d seg%d mid%d u%d" % (ph, k, j, i), um[j, i], umm[j, i], lbu[i], ubu[i]))
                    if not self.adaptive:
                        continue
                    xm, xmm = I @ r["X"][lo:hi], np.abs(I) @ np.abs(r["X"][lo:hi])
                    for j in range(len(tm)):
                        for i in range(s["nx"]):
                            out.append((tag, "mid state ph%d seg%d mid%d x%d" % (ph, k, j, i), xm[j, i], xmm[j, i], lbx[i], ubx[i]))
                    if self.cfg.get("mid_residuals", True):
                        ts = r["t0"] + T * r["w"][:k].sum()
                        t = ts + T * r["w"][k] * (tm - LO) / (HI - LO)
                        ff, ffm = self.dyn(ph, self.env(r, x=xm / self.sx, u=um / self.su, t=t), len(tm))
                        h = T / (HI - LO) * r["w"][k]
                        DI = I @ D
                        v = r["w"][k] * (DI @ r["X"][lo:hi] - h * ff * self.sx)
                        m = np.abs(r["w"][k]) * (np.abs(I) @ np.abs(D) @ np.abs(r["X"][lo:hi]) + np.abs(h) * ffm * self.sx)
                        tol = self.cfg["tol_residual"][ph]
                        for j in range(len(tm)):
                            for i in range(s["nx"]):
                                out.append((tag, "mid residual ph%d seg%d mid%d x%d" % (ph, k, j, i), v[j, i], m[j, i], -tol, tol))
            if self.adaptive:
                out.append(("C11", "width sum ph%d" % ph, r["w"].sum() - 1.0, np.abs(r["w"]).sum() + 1, 0.0, 0.0))
        if s["nph"] > 1:
            R = [self.read(z, p, ph) for ph in range(s["nph"])]
            for n, (i, j) in enumerate(s["links"]):
                for k in range(s["nx"]):
                    a, b = R[j]["X"][0, k], R[i]["X"][-1, k]
                    out.append(("C06", "link%d state%d" % (n, k), a - b, abs(a) + abs(b), s["lbe"][n][k] * self.sx[k], s["ube"][n][k] * self.sx[k]))
                for k in range(s["nu"]):
                    a, b = R[j]["U"][0, k], R[i]["U"][-1, k]
                    out.append(("C06", "link%d control%d" % (n, k), a - b, abs(a) + abs(b), 0.0, 0.0))
                a, b = z[self.lay.t0[j]], z[self.lay.tf[i]]
                out.append(("C06", "link%d time" % n, a - b, abs(a) + abs(b), 0.0, 0.0))
        return out

    def var_bounds(self):
        s, L = self.s, self.lay
        lb, ub = np.empty(L.n), np.empty(L.n)
        for ph in range(s["nph"]):
            for j in range(self.N):
                lb[L.X[ph][j]], ub[L.X[ph][j]] = np.array(s["lbx"][ph]) * self.sx, np.array(s["ubx"][ph]) * self.sx
                lb[L.U[ph][j]], ub[L.U[ph][j]] = np.array(s["lbu"][ph]) * self.su, np.array(s["ubu"][ph]) * self.su
            if ph == 0:
                lb[L.X[0][0]] = ub[L.X[0][0]] = np.array(s["x00"][0]) * self.sx
            lb[L.t0[ph]], ub[L.t0[ph]] = s["lbt0"][ph][0] * self.st, s["ubt0"][ph][0] * self.st
            lb[L.tf[ph]], ub[L.tf[ph]] = s["lbtf"][ph][0] * self.st, s["ubtf"][ph][0] * self.st
            lb[L.A[ph]], ub[L.A[ph]] = np.array(s["lba"][ph]) * self.sa, np.array(s["uba"][ph]) * self.sa
            if self.adaptive:
                lb[L.H[ph]], ub[L.H[ph]] = self.cfg["lbh"][ph], self.cfg["ubh"][ph]
        return lb, ub

    def guess(self):
        s, L = self.s, self.lay
        z = np.empty(L.n)
        lam = np.linspace(0, 1, self.N)
        for ph in range(s["nph"]):
            for k in range(s["nx"]):
                z[L.X[ph][:, k]] = (s["x00"][ph][k] + (s["xf0"][ph][k] - s["x00"][ph][k]) * lam) * self.sx[k]
            for k in range(s["nu"]):
                z[L.U[ph][:, k]] = (s["u00"][ph][k] + (s["uf0"][ph][k] - s["u00"][ph][k]) * lam) * self.su[k]
            z[L.t0[ph]], z[L.tf[ph]] = s["t00"][ph][0] * self.st, s["tf0"][ph][0] * self.st
            z[L.A[ph]] = np.array(s["a0"][ph]) * self.sa
            if self.adaptive:
                z[L.H[ph]] = 1.0 / self.ns
        return z

    def name(self, i):
        L = self.lay
        for ph in range(self.s["nph"]):
            for nm, A in (("x", L.X[ph]), ("u", L.U[ph])):
                w = np.argwhere(A == i)
                if len(w):
                    return "%s%d node%d ph%d" % (nm, w[0][1], w[0][0], ph)
            if i == L.t0[ph]:
                return "t0 ph%d" % ph
            if i == L.tf[ph]:
                return "tf ph%d" % ph
            if i in L.A[ph]:
                return "a ph%d" % ph
        return "width"

    # -- piecewise polynomials ------------------------------------------------
    def seg_at(self, r, t, tol=1e-9):
        """(segment, tau) of times t; a boundary time belongs to the earlier segment."""
        T = r["tf"] - r["t0"]
        edges = r["t0"] + T * np.concatenate([[0], np.cumsum(r["w"])])
        k = np.clip(np.searchsorted(edges, t - tol * abs(T), side="left") - 1, 0, self.ns - 1)
        wid = edges[k + 1] - edges[k]
        return k, LO + (HI - LO) * (t - edges[k]) / wid, edges

    def at(self, r, k, tau, what="X", order=0):
        """Value (order 0) or tau-derivative of the segment polynomial."""
        lo, hi = self.ends[k], self.ends[k + 1] + 1
        t, D, _ = seg_ops(self.scheme, self.orders[k])
        V = r[what][lo:hi]
        for _ in range(order):
            V = D @ V
        return interp_matrix(t, tau) @ V

    def residual(self, r, ph, k, tau):
        """Dynamics residual of segment k at tau (array): value, magnitude, h*f."""
        tau = np.atleast_1d(tau)
        X, U = self.at(r, k, tau), self.at(r, k, tau, "U")
        T = r["tf"] - r["t0"]
        t = r["t0"] + T * (r["w"][:k].sum() + r["w"][k] * (tau - LO) / (HI - LO))
        f, _ = self.dyn(ph, self.env(r, x=X / self.sx, u=U / self.su, t=t), len(tau))
        h = T / (HI - LO) * r["w"][k]
        dX = self.at(r, k, tau, order=1)
        lo, hi = self.ends[k], self.ends[k + 1] + 1
        tt, D, _ = seg_ops(self.scheme, self.orders[k])
        # rounding: every node of the segment enters, even where its weight should be zero
        I = np.abs(interp_matrix(tt, tau)) + 1e-8
        _, fm = self.dyn(ph, self.env(r, x=I @ np.abs(r["X"][lo:hi]) / self.sx, u=I @ np.abs(r["U"][lo:hi]) / self.su, t=t), len(tau))
        mag = I @ np.abs(D) @ np.abs(r["X"][lo:hi]) + np.abs(h * fm * self.sx)
        return dX - h * f * self.sx, mag, h * f * self.sx


def power_coefs(tau):
    """Magnitudes of the coefficients (lowest power first) of the Lagrange polynomials over tau."""
    out = []
    for i in range(len(tau)):
        o = np.delete(tau, i)
        out.append(np.abs(np.atleast_1d(np.poly(o)) / np.prod(tau[i] - o))[::-1])
    return np.array(out)


# -- comparing rows -----------------------------------------------------------
def match_rows(exp, act, tol=1e-7):
    """Match expected rows with actual rows up to order and constant scaling.

    exp: list of (tag, label, vals[K], mags[K], lb, ub); act: (vals[n, K], lb[n], ub[n]).
    Returns (missing expected entries, indices of unexpected actual rows).
    """
    AV, AL, AU = act
    n = len(AL)
    used = np.zeros(n, bool)
    used |= np.isneginf(AL) & np.isposinf(AU)        # vacuous rows do not matter
    missing = []
    aa = (AV * AV).sum(axis=1)
    aa[aa == 0] = 1e-300
    for tag, label, v, m, lb, ub in exp:
        if lb == -inf and ub == inf:
            continue
        t = tol * m + 1e-300
        best = None
        s = (AV @ v) / aa
        s[~np.isfinite(s) | (s == 0)] = 1.0
        for cand_s in ((np.ones(n), s) if lb != ub or lb != 0.0 else (s, np.ones(n))):
            err = np.abs(AV * cand_s[:, None] - v[None, :]) / t[None, :]
            L, U = AL * cand_s, AU * cand_s
            neg = cand_s < 0
            L2, U2 = np.where(neg, U, L), np.where(neg, L, U)
            bt = 1e-9 * (1 + abs(lb if np.isfinite(lb) else 0) + abs(ub if np.isfinite(ub) else 0)) + tol * m.min()
            with np.errstate(all="ignore"):
                okb = ((L2 == lb) | (np.abs(L2 - lb) <= bt)) & ((U2 == ub) | (np.abs(U2 - ub) <= bt))
            ok = (err.max(axis=1) <= 1) & okb & ~used
            if ok.any():
                best = int(np.argmax(ok))
                break
        if best is None:
            missing.append((tag, label))
        else:
            used[best] = True
    return missing, np.flatnonzero(~used)
