"""Generators: JSON problem specifications, grids, solver answers, programs."""
import copy, random

INF = float("inf")


def r2(rng, a, b):
    return round(rng.uniform(a, b), 3)


def term(rng, vars_, need=None, deg=2):
    """One polynomial term [coef, [[var, index, power]...], fn]."""
    fac = []
    if need is not None:
        fac.append([need[0], need[1], 1])
    for _ in range(rng.choice([0, 1, 1, 2][: deg + 2])):
        v, i = rng.choice(vars_)
        fac.append([v, i, rng.choice([1, 1, 2])])
    return [r2(rng, -1.5, 1.5) or 0.5, fac, "sin" if fac and rng.random() < 0.15 else ""]


def poly(rng, vars_, nmin=1, nmax=3):
    ts = [term(rng, vars_, need=rng.choice(vars_)) for _ in range(rng.randint(nmin, nmax))]
    if rng.random() < 0.4:
        ts.append([r2(rng, -1, 1), [], ""])
    return ts


def bounds(rng, n, lo, hi, pfin):
    lb, ub = [], []
    for _ in range(n):
        lb.append(r2(rng, lo, lo / 2) if rng.random() < pfin else -INF)
        ub.append(r2(rng, hi / 2, hi) if rng.random() < pfin else INF)
    return lb, ub


def spec(rng, nph=None, family=None, na=None, simple=False, dims=None):
    tail = rng.random()
    nph = nph or (rng.choice([4, 5]) if tail < 0.04 else rng.choice([1, 1, 1, 2, 2, 3]))
    nx, nu = rng.randint(1, 3), rng.randint(1, 3)
    if tail > 0.95:
        nx, nu = rng.randint(3, 7), rng.randint(2, 5)
    if simple:
        nx, nu = rng.randint(1, 2), rng.randint(1, 2)
    if dims is not None:
        nx, nu = dims
    na = rng.choice([0, 0, 1, 2, 3]) if na is None else na
    family = family or "poly"
    s = dict(nph=nph, nx=nx, nu=nu, na=na, family=family)
    V = [("x", i) for i in range(nx)] + [("u", i) for i in range(nu)] + [("t", 0)] + [("a", i) for i in range(na)]
    VB = [("xf", i) for i in range(nx)] + [("x0", i) for i in range(nx)] + [("tf", 0), ("t0", 0)] + [("a", i) for i in range(na)]
    s["dyn"], s["path"], s["term"], s["run"], s["mayer"] = [], [], [], [], []
    for ph in range(nph):
        if family == "chain":
            s["dyn"].append([[[rng.choice([1.0, -1.0, 0.5, 2.0]), [["u", (i + ph) % nu, 1]], ""]] for i in range(nx)])
        else:
            s["dyn"].append([poly(rng, V) for _ in range(nx)])
        s["path"].append([poly(rng, V, 1, 2) for _ in range(rng.randint(1, 2))] if rng.random() < 0.45 else None)
        s["term"].append([poly(rng, VB, 1, 2) for _ in range(rng.randint(1, 3))] if rng.random() < 0.5 else None)
        s["run"].append(poly(rng, V, 1, 3) if rng.random() < 0.8 else [[r2(rng, -1, 1), [], ""]] if rng.random() < 0.6 else None)
        s["mayer"].append(poly(rng, VB, 1, 2) if rng.random() < 0.6 else None)
    unit = rng.random() < 0.3
    sc = lambda: 1.0 if unit else rng.choice([1.0, 2.0, 0.5, 0.1, 10.0, 4.0])
    s["scale_x"], s["scale_u"], s["scale_a"], s["scale_t"] = [sc() for _ in range(nx)], [sc() for _ in range(nu)], [sc() for _ in range(na)], sc()
    g = lambda n: [[r2(rng, -2, 2) for _ in range(n)] for _ in range(nph)]
    s["x00"], s["xf0"], s["u00"], s["uf0"], s["a0"] = g(nx), g(nx), g(nu), g(nu), g(na)
    tb = 0.0 if rng.random() < 0.7 else r2(rng, 0.05, 0.5)
    s["t00"] = [[tb + 2.0 * ph] for ph in range(nph)]
    s["tf0"] = [[tb + 2.0 * ph + r2(rng, 0.6, 2.0)] for ph in range(nph)]
    if rng.random() < 0.08:
        # guesses that leave the end time where the phase starts
        for ph in range(nph):
            if rng.random() < 0.6:
                s["tf0"][ph][0] = s["t00"][ph][0]
    for k, n, lo, hi, pf in (("x", nx, -6, 6, 0.45), ("u", nu, -5, 5, 0.6), ("a", na, -3, 3, 0.5)):
        lbs, ubs = zip(*[bounds(rng, n, lo, hi, pf) for _ in range(nph)])
        s["lb" + k], s["ub" + k] = list(lbs), list(ubs)
    s["lbt0"] = [[tb if ph == 0 else r2(rng, 0, 0.3) + 2.0 * ph - 0.5] for ph in range(nph)]
    s["ubt0"] = [[tb if ph == 0 and rng.random() < 0.8 else s["lbt0"][ph][0] + r2(rng, 0, 0.4)] for ph in range(nph)]
    s["lbtf"] = [[s["ubt0"][ph][0] + r2(rng, 0.3, 0.8)] for ph in range(nph)]
    s["ubtf"] = [[s["lbtf"][ph][0] + r2(rng, 0, 1.5)] for ph in range(nph)]
    links = [[i, i + 1] for i in range(nph - 1)]
    if nph > 3 and rng.random() < 0.5:
        links = rng.sample([[i, j] for i in range(nph) for j in range(i + 1, nph)], rng.randint(1, nph - 1))
    if nph == 3 and rng.random() < 0.4:
        links = rng.choice([[[0, 1], [0, 2]], [[0, 2], [2, 1]], [[1, 2]], [[0, 2]], [[1, 2], [0, 1]], [[0, 1], [1, 2], [0, 2]], []])
    elif nph == 2 and rng.random() < 0.08:
        links = []
    nl = max(nph - 1, len(links))
    s["lbe"] = [[0.0 if rng.random() < 0.6 else r2(rng, -1, 0) for _ in range(nx)] for _ in range(nl)]
    s["ube"] = [[0.0 if rng.random() < 0.6 else r2(rng, 0, 1) for _ in range(nx)] for _ in range(nl)]
    s["links"] = links
    s["diff_u"] = [int(rng.random() < 0.3) for _ in range(nph)]
    s["lbdu"] = [-rng.randint(2, 20) for _ in range(nph)]
    s["ubdu"] = [rng.randint(2, 20) for _ in range(nph)]
    s["midu"] = [int(rng.random() < 0.6) for _ in range(nph)]
    s["du_continuity"] = [int(rng.random() < 0.35) for _ in range(nph)]
    if rng.random() < 0.15:
        s["lists"] = True            # scales and flags as plain lists
    if rng.random() < 0.25:
        # what the user leaves alone has its documented default
        d = defaults(s)
        ks = [k for k in d if rng.random() < 0.4]
        if rng.random() < 0.15:
            ks = list(d)
        for k in ks:
            s[k] = d[k]
            if k in ("links", "lbe", "ube"):
                for q in ("links", "lbe", "ube"):
                    s[q] = d[q]
                    if q not in ks:
                        ks.append(q)
        s["unset"] = sorted(ks)
    return s


def defaults(s):
    """What a problem says where the user said nothing."""
    n, nx, nu, na = s["nph"], s["nx"], s["nu"], s["na"]
    tab = lambda v, m: [[v] * m for _ in range(n)]
    d = dict(scale_x=[1.0] * nx, scale_u=[1.0] * nu, scale_a=[1.0] * na, scale_t=1.0, t00=tab(0.0, 1), tf0=tab(1.0, 1),
             lbt0=tab(0.0, 1), ubt0=[[0.0]] + [[INF]] * (n - 1), lbtf=tab(0.0, 1), ubtf=tab(INF, 1), links=[[i, i + 1] for i in range(n - 1)],
             lbe=[[0.0] * nx for _ in range(n - 1)], ube=[[0.0] * nx for _ in range(n - 1)], diff_u=[0] * n, lbdu=[-15] * n, ubdu=[15] * n, midu=[1] * n, du_continuity=[0] * n)
    for k, m in (("x", nx), ("u", nu), ("a", na)):
        d["lb" + k], d["ub" + k] = tab(-INF, m), tab(INF, m)
        for q in (k + "00", k + "f0") if k != "a" else ("a0",):
            d[q] = tab(0.0, m)
    return d


GROUPS = [["dyn"], ["run"], ["mayer"], ["path"], ["term"], ["scale_x"], ["scale_u"], ["scale_a"], ["scale_t"], ["scale_x", "scale_u", "scale_a", "scale_t"],
          ["x00", "xf0", "u00", "uf0"], ["a0"], ["t00", "tf0"], ["lbx", "ubx"], ["lbu", "ubu"], ["lba", "uba"], ["lbt0", "ubt0", "lbtf", "ubtf"],
          ["links", "lbe", "ube"], ["diff_u", "lbdu", "ubdu"], ["midu"], ["du_continuity"]]


def sibling(rng, s):
    """A problem of the same shape as another one: all else differs, or only a few of its parts."""
    t = spec(rng, nph=s["nph"], family=s["family"], na=s["na"], dims=(s["nx"], s["nu"]))
    if rng.random() < 0.4:
        return t
    out = copy.deepcopy(s)
    for g in rng.sample(GROUPS, rng.choice([1, 1, 2, 3])):
        for k in g:
            out[k] = t[k]
    return out


def grid(rng, maxn=4, big=False, orders=None):
    n = rng.randint(1, maxn)
    tail = rng.random() if orders is None else 1
    if tail < 0.05:
        n, orders = rng.randint(maxn + 1, 10), [1, 2, 3, 4, 5]
    elif tail < 0.08:
        n, orders = rng.randint(1, 2), [8, 10, 11, 12, 13]
    pool = orders or ([1, 2, 2, 3, 3, 4, 5, 6, 7, 9] if not big else [2, 3, 4, 8, 12, 16])
    if rng.random() < 0.25:
        po = rng.choice(pool)
    else:
        po = [rng.choice(pool) for _ in range(n)]
    return dict(n=n, orders=po, scheme=rng.choice(["LGR", "LGR", "LGL", "CGL"]))


def points(rng):
    """Well separated points of a segment."""
    return [round(0.06 * k, 3) for k in sorted(rng.sample(range(-16, 17), rng.randint(2, 5)))]


def orders_of(g):
    return [g["orders"]] * g["n"] if isinstance(g["orders"], int) else list(g["orders"])


def good_answer(rng):
    """An answer any sane solver may give."""
    k = rng.choice(["rand", "rand", "rand", "near", "echo", "exact", "smooth"])
    return dict(kind=k, seed=rng.randrange(10 ** 6))


def answer(rng, faults=True):
    if faults and rng.random() < 0.25:
        return dict(kind=rng.choice(["nan", "nansome", "inf", "huge", "zero", "degen"]), seed=rng.randrange(10 ** 6))
    return good_answer(rng)


def edits(rng, s, k=None):
    """Edits a caller may make to its problem object after constructing optimizers."""
    out = []
    for _ in range(k or rng.randint(1, 4)):
        ph = rng.randrange(s["nph"])
        c = rng.choice(["arr", "arr", "arr", "fn", "fn", "scale", "bound", "flag", "link", "links", "replace", "scales", "plots"])
        if c == "arr":
            key = rng.choice(["x00", "xf0", "u00", "uf0", "lbx", "ubx", "lbu", "ubu", "t00", "tf0", "lbtf", "ubtf", "lbt0", "ubt0"])
            out.append(dict(how="inplace", attr=key, idx=[ph, 0], val=r2(rng, -3, 3)))
        elif c == "replace":
            key = rng.choice(["x00", "u00", "lbu", "ubu", "lbx", "ubx"])
            n = s["nx"] if "x" in key else s["nu"]
            out.append(dict(how="replace", attr=key, val=[[r2(rng, -3, 3) for _ in range(n)] for _ in range(s["nph"])]))
        elif c == "scale":
            out.append(dict(how=rng.choice(["inplace", "replace"]), attr="scale_x", idx=[0], val=3.0 if True else 0))
        elif c == "scales":
            key = rng.choice(["scale_u", "scale_a", "scale_t", "scale_x"])
            if key == "scale_t":
                out.append(dict(how="scalar", attr=key, val=rng.choice([3.0, 0.25])))
            else:
                out.append(dict(how="replace", attr=key, val=[rng.choice([3.0, 0.25, 1.0]) for _ in s[key]]))
        elif c == "plots":
            k = list(range(s["nph"]))
            rng.shuffle(k)
            out.append(dict(how="plots", inplace=rng.random() < 0.5, val=[k[:rng.randint(1, s["nph"])]]))
        elif c == "bound" and s["na"]:
            out.append(dict(how="inplace", attr=rng.choice(["lba", "uba", "a0"]), idx=[ph, 0], val=r2(rng, -3, 3)))
        elif c == "flag":
            out.append(dict(how="inplace", attr=rng.choice(["diff_u", "midu", "du_continuity", "lbdu", "ubdu"]), idx=[ph], val=rng.choice([0, 1])))
        elif c == "link" and s["nph"] > 1:
            out.append(dict(how="inplace", attr=rng.choice(["lbe", "ube"]), idx=[0, 0], val=r2(rng, -1, 1)))
        elif c == "links" and s["nph"] > 1:
            out.append(dict(how="links", inplace=rng.random() < 0.5, val=[list(reversed(l)) for l in s["links"]] if rng.random() < 0.5 else [[0, s["nph"] - 1]]))
        else:
            fn = rng.choice(["dyn", "run", "mayer", "path", "term"])
            V = [("x", i) for i in range(s["nx"])] + [("u", i) for i in range(s["nu"])]
            VB = [("xf", i) for i in range(s["nx"])] + [("tf", 0)]
            t = (poly(rng, V) if fn == "run" else poly(rng, VB) if fn == "mayer" else
                 [poly(rng, V) for _ in range(s["nx"])] if fn == "dyn" else
                 [poly(rng, V)] if fn == "path" else [poly(rng, VB)])
            out.append(dict(how="fn", fn=fn, phase=ph, terms=t, list=rng.choice(["item", "item", "new", "slice"])))
    return out
