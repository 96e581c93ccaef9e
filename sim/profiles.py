"""One profile per property: how its cases are generated and how they are judged.

A case is JSON: {"pid", "mode", "plans": [...], "uids": [...]}.  Generation is a
function of (property, seed, index) only.  Judging is a function of the case.
"""
import copy, random
from . import gen, kernel

DIFF = {"C01", "C02", "C03", "C15", "C16"}
IDS = ["C%02d" % i for i in range(1, 18)] + ["C21", "C22"]

# kinds of optimizers, op weights and feature probabilities per property
BASE = dict(kinds=dict(base=3, h=3, adaptive=3, ph=1), slots=(1, 2), length=(4, 8), w=dict(solve=4, post=2, get=3, resid=2, set=1),
            badanswer=0.15, fault=0.35, init=0.4, reinit=0.25, opts=0.2, plugin=0.08, mpopts=0.3, share=0.3, cls=0.3, chain=0.4, orders=None, maxn=4, edits=0.0, sibling=0.65, regrid=0.3, plot=0.06)
CFG = {
    "C01": dict(length=(3, 6), fault=0.0, validate=0, share=0.6),
    "C02": dict(length=(3, 5), fault=0.0, slots=(1, 1), share=0.5, badanswer=0.3),
    "C03": dict(length=(3, 6), fault=0.0, slots=(1, 2)),
    "C04": dict(w=dict(solve=5, post=1, get=1, resid=1, set=1), edits=0.3, badanswer=0.1),
    "C05": dict(w=dict(solve=5, post=1, get=1, resid=1, set=1), edits=0.3, badanswer=0.1),
    "C06": dict(w=dict(solve=5, post=1, get=1, resid=1, set=1), edits=0.3, badanswer=0.1, nph=(2, 3)),
    "C07": dict(w=dict(solve=8, post=1, get=1, resid=1, set=1), init=0.75, edits=0.2),
    "C08": dict(kinds=dict(h=1), w=dict(solve=5, post=1, get=1, resid=1, set=2), badanswer=0.45, chain=0.8, mpopts=0.7, multi=0.5),
    "C09": dict(kinds=dict(base=2, h=4, adaptive=2, ph=1), w=dict(solve=5, post=3, get=3, resid=3, set=1), badanswer=0.2, init=0.5, share=0.5),
    "C10": dict(kinds=dict(h=1), w=dict(solve=5, post=1, get=1, resid=1, set=3), badanswer=0.3, chain=0.85, mpopts=0.6, init=0.5),
    "C11": dict(kinds=dict(adaptive=1), w=dict(solve=5, post=2, get=3, resid=2, set=2), badanswer=0.1),
    "C12": dict(w=dict(solve=3, post=3, get=9, resid=1, set=0), badanswer=0.05, length=(6, 12), fault=0.3, plots=0.3, kinds=dict(base=4, h=3, adaptive=3, ph=1)),
    "C13": dict(gtypes=0.7, w=dict(solve=3, post=3, get=1, resid=9, set=3), badanswer=0.05, length=(5, 9), kinds=dict(base=4, h=3, adaptive=3, ph=1)),
    "C14": dict(w=dict(solve=8, post=1, get=1, resid=0, set=1), opts=0.7, reinit=0.5, plugin=0.35, share=0.6, slots=(2, 3), mpopts=0.4),
    "C15": dict(length=(3, 6), fault=0.0, slots=(1, 2), plots=0.2),
    "C16": dict(fault=0.0),
    "C21": dict(w=dict(solve=3, post=3, get=1, resid=3, set=1, plot=7), badanswer=0.05, length=(5, 9), kinds=dict(base=3, h=4, adaptive=2, ph=1), plot=0.6, plots=0.5, wide=0.03, fault=0.3, multi=0.3),
    "C22": dict(w=dict(solve=6, post=4, get=1, resid=1, set=2, plot=0), kinds=dict(base=3, h=5, adaptive=2, ph=2), badanswer=0.2, init=0.5, chain=0.7, clock="work", quiet=0.1),
    "C17": dict(kinds=dict(ph=1), slots=(1, 1), length=(2, 4), w=dict(solve=6, post=1, get=1, resid=1, set=0), chain=0.7, maxn=3, orders=[2, 3, 3, 4, 4, 5, 6], fault=0.25),
}


def cfg_for(pid):
    c = dict(BASE)
    c.update(CFG.get(pid, {}))
    return c


def wchoice(rng, d):
    ks = [k for k in d if d[k] > 0]
    return rng.choices(ks, [d[k] for k in ks])[0]


class Program:
    """Generates one caller's operations."""

    def __init__(self, rng, cfg, specs, prefix):
        self.rng, self.cfg, self.specs, self.px = rng, cfg, specs, prefix
        self.ops, self.n = [], 0
        self.slots, self.sols, self.posts, self.post_ns = {}, [], [], {}
        self.nsol = 0
        self.pool = []          # grids already in use (shared between programs that should meet on the same shapes)

    def add(self, **o):
        o["uid"] = "%s%d" % (self.px, self.n)
        self.n += 1
        self.ops.append(o)
        return o

    def new(self, specno=None, kind=None, copyof=None):
        rng, c = self.rng, self.cfg
        kind = kind or wchoice(rng, c["kinds"])
        i = rng.randrange(len(self.specs)) if specno is None else specno
        if copyof is not None:
            d = self.slots[copyof]
            i, kind, g = d["spec"], d["kind"], copy.deepcopy(d["grid"])
        else:
            g = gen.grid(rng, maxn=c["maxn"], orders=c["orders"])
            if self.pool and rng.random() < c["regrid"]:
                old = rng.choice(self.pool)
                g = dict(copy.deepcopy(old), scheme=old["scheme"] if rng.random() < 0.6 else g["scheme"])
                if rng.random() < 0.2 and not isinstance(g["orders"], int):
                    rng.shuffle(g["orders"])
            self.pool.append({k: copy.deepcopy(v) for k, v in g.items() if k != "share"})
            if kind == "ph":
                if isinstance(g["orders"], int):
                    g["orders"] = [g["orders"]] * g["n"]
        if rng.random() < c["share"] and not isinstance(g["orders"], int):
            g["share"] = "%sg%s" % (self.px if rng.random() < 0.5 else "", "-".join(map(str, g["orders"])))
        slot = "%sS%d" % (self.px, len(self.slots))
        kw = {}
        if kind == "ph":
            kw = dict(max_residual=rng.choice([1e-4, 1e-2, 1e-1]), poly_order_max=rng.choice([5, 6, 8]), seg_max=rng.choice([2, 3, 5, 8]),
                      n_grid_points=rng.choice([5, 6, 8, 12]), grid_type=rng.choice(["spectral", "mid-points", "fixed"]))
            if rng.random() < 0.3:
                kw["poly_order_min"] = rng.choice([2, 4, 5])
            if rng.random() < 0.3:
                kw["non_smooth_threshold"] = rng.choice([1.0, 1.5, 3.0])
            if rng.random() < 0.2:
                for k in rng.sample(sorted(kw), rng.choice([1, 1, 2])):
                    del kw[k]
                if "poly_order_max" not in kw:
                    kw["n_grid_points"] = 8
        o = dict(op="new", slot=slot, cls=kind, spec=i, grid=g, kw=kw)
        if kind != "ph" and rng.random() < 0.04:
            o["default_grid"] = True
            g = dict(n=1, orders=9, scheme=g["scheme"])
        self.add(**o)
        self.slots[slot] = dict(kind=kind, spec=i, grid=g)
        if rng.random() < (0.8 if kind == "h" else 0.4 if kind == "adaptive" else 0.2):
            self.set(slot, True)
        return slot

    def set(self, slot, fresh=False):
        rng, c, d = self.rng, self.cfg, self.slots[slot]
        nph = self.specs[d["spec"]]["nph"]
        st = []
        if d["kind"] == "h":
            base = rng.choice([1e-6, 1e-3, 1e-2, 0.1, 1.0, 10.0])
            st.append(["tol_residual", [base * (rng.choice([1, 1, 10, 1000]) if rng.random() < 0.4 else 1) for _ in range(nph)]])
            if rng.random() < 0.3:
                st.append(["_DEFAULT_METHOD", rng.choice(["residual", "residual", "control_slope"])])
            if rng.random() < 0.4:
                st.append(["_DEFAULT_SUB_METHOD", rng.choice(["equal_area", "merge_split"])])
            if rng.random() < 0.15:
                st.append(["_TOL_SEG_WIDTH_CHANGE", rng.choice([0.05, 0.0, 0.3])])
            if rng.random() < 0.25:
                st.append(["lbh", [rng.choice([1e-5, 1e-2, 0.05, 0.2]) for _ in range(nph)]])
                st.append(["ubh", [rng.choice([1, 0.9, 0.6, 0.3]) for _ in range(nph)]])
        if d["kind"] == "adaptive":
            if rng.random() < 0.6:
                st.append(["lbh", [rng.choice([1e-4, 1e-2, 0.05]) for _ in range(nph)]])
                st.append(["ubh", [rng.choice([1.0, 0.9, 1.0]) for _ in range(nph)]])
            if rng.random() < 0.6:
                st.append(["tol_residual", [rng.choice([1e-3, 1e-2, 0.5]) for _ in range(nph)]])
            if fresh and rng.random() < 0.4:
                st.append(["mid_residuals", rng.random() < 0.5])
        if d["kind"] == "h" and rng.random() < c["plot"]:
            st.append(["plot_residual_evolution", True])
        if d["kind"] != "ph" and rng.random() < c.get("gtypes", 0.4):
            st.append(["grid_type", [rng.choice(["fixed", "mid-points", "spectral"]) for _ in range(nph)]])
        if rng.random() < 0.3:
            st.append(["_MUTE_", rng.random() < 0.6])
        if st:
            self.add(op="set", slot=slot, set=st)

    def widths(self, d):
        n, nph = d["grid"]["n"], self.specs[d["spec"]]["nph"]
        out = []
        pool = [1, 2, 3, 4, 4, 12] if self.rng.random() < 0.85 else [1, 2, 50, 3000]
        for _ in range(nph):
            w = [self.rng.choice(pool) for _ in range(n)]
            out += [x / sum(w) for x in w]
        return out

    def answers(self, d):
        rng, c = self.rng, self.cfg
        s = self.specs[d["spec"]]
        out = []
        for _ in range(rng.choice([1, 1, 2, 3, 4]) if d["kind"] in ("h", "ph") else 1):
            if rng.random() < c["badanswer"]:
                out.append(gen.answer(rng, True) if rng.random() < 0.3 else dict(kind=rng.choice(["nan", "nansome", "inf", "huge", "zero", "degen"]), seed=rng.randrange(10 ** 6)))
            elif d["kind"] in ("h", "ph") and s["family"] == "chain" and rng.random() < 0.6:
                segs = {}
                for ph in range(s["nph"]):
                    if rng.random() < 0.6:
                        segs[str(ph)] = [[rng.randrange(8), rng.choice([1e-7, 1e-3, 0.05, 1.0])] for _ in range(rng.randint(1, 2))]
                out.append(dict(kind="spike", segs=segs, seed=rng.randrange(10 ** 6)))
            else:
                out.append(gen.good_answer(rng))
        return out

    def init(self, slot):
        rng = self.rng
        d = self.slots[slot]
        mine = [x for x in self.sols if x[1] == slot]
        if d["kind"] == "ph":
            mine = mine[-1:]
        else:
            # other optimizers of the same shape may provide the start
            mine += [x for x in self.sols if x[1] != slot and self.slots[x[1]]["spec"] == d["spec"] and self.slots[x[1]]["kind"] != "ph" and d["kind"] != "ph"
                     and (self.slots[x[1]]["kind"] == "adaptive") == (d["kind"] == "adaptive") and gen.orders_of(self.slots[x[1]]["grid"]) == gen.orders_of(d["grid"])]
            if d["kind"] == "adaptive":
                mine = [x for x in mine if self.slots[x[1]]["kind"] == "adaptive" and self.plain(x[1]) == self.plain(slot)]
            else:
                mine = [x for x in mine if x[1] == slot]
        if not mine:
            return None
        name, src = rng.choice(mine)
        r = rng.random()
        if src != slot:
            return dict(sol=name, keys=[[rng.choice(["x", "x0"]), "x"]], form=rng.choice(["dm", "np", "list"]))
        full = [["x", "x"], ["lam_x", "lam_x"], ["lam_g", "lam_g"]]
        if r < 0.3:
            return dict(sol=name, keys=full, whole=True)
        if d["kind"] in ("h", "ph") and r < 0.6:
            return dict(sol=name, keys=[["x", "x"]] + [k for k in full[1:] if rng.random() < 0.5])
        ks = []
        if rng.random() < 0.8:
            ks.append([rng.choice(["x", "x0"]), "x"])
        if rng.random() < 0.5:
            ks.append([rng.choice(["lam_x", "lam_x0"]), "lam_x"])
        if rng.random() < 0.5:
            ks.append([rng.choice(["lam_g", "lam_g0"]), "lam_g"])
        return dict(sol=name, keys=ks, form=rng.choice(["dm", "np", "list"]))

    def plain(self, slot):
        d = self.slots[slot]
        return (d["spec"], tuple(gen.orders_of(d["grid"])), d["grid"]["scheme"])

    def solve(self, slot=None):
        rng, c = self.rng, self.cfg
        slot = slot or rng.choice(list(self.slots))
        d = self.slots[slot]
        name = "%ss%d" % (self.px, self.nsol)
        self.nsol += 1
        o = dict(op="solve", slot=slot, answers=self.answers(d))
        o["as"] = name
        if rng.random() < c["init"]:
            i = self.init(slot)
            if i is not None:
                o["init"] = i
        if rng.random() < c["reinit"]:
            o["reinit"] = True
        plugin = None
        if rng.random() < c["plugin"]:
            plugin = o["plugin"] = rng.choice(["ipopt", "sqpmethod", "bonmin", "snopt"])
        if rng.random() < c["opts"]:
            p = plugin or "ipopt"
            o["opts"] = rng.choice([{}, {"print_time": 1}, {p + ".max_iter": rng.randint(5, 50)}, {p + ".tol": 1e-7, "print_time": 0}, {p + ".acceptable_tol": 1e-6, p + ".print_level": 3}])
            if rng.random() < c["share"]:
                o["share_opts"] = "opts-%s-%s" % (p, sorted(o["opts"].items()))
        if d["kind"] == "base" and rng.random() < c["mpopts"]:
            o["mpopts"] = {"nlp_sw_params": self.widths(d)}
            if rng.random() < 0.2:
                o["array"] = True
            if rng.random() < c["share"]:
                o["share_mpopts"] = "sw%s%d" % (self.px, self.n)
        if d["kind"] == "ph" and not any(q["op"] == "solve" and q["slot"] == slot for q in self.ops) and rng.random() < 0.4:
            o["mpopts"] = {"nlp_sw_params": self.widths(d)}      # the initial mesh
        if d["kind"] == "h" and rng.random() < c["mpopts"]:
            o["mpopts"] = rng.choice([{"method": "residual", "sub_method": "equal_area"}, {"method": "residual", "sub_method": "merge_split"},
                                      {"method": "residual", "sub_method": "merge_split"}, {"method": "control_slope"}, {"method": "residual"}])
            if rng.random() < 0.06:
                o["mpopts"] = rng.choice([{"method": "none"}, {"sub_method": "merge_split"}])
            if rng.random() < c["share"]:
                o["share_mpopts"] = "hm%s" % sorted(o["mpopts"].items())
        if d["kind"] == "h":
            if rng.random() < 0.8:
                o["max_iter"] = rng.choice([1, 1, 2, 3, 4, 6])
            o["maxruns"] = 60
        if d["kind"] == "ph" and rng.random() < 0.85:
            o["ph"] = True
            o["max_iter"] = rng.choice([1, 1, 2, 3])
            o["maxruns"] = 40
            o.pop("reinit", None)
            if o.get("init"):
                o.pop("init")
        self.add(**o)
        if d["kind"] == "ph":
            self.sols = [x for x in self.sols if x[1] != slot]
        self.sols.append((name, slot))
        return name

    def post(self):
        rng = self.rng
        if not self.sols:
            return self.solve()
        name, slot = self.pick_sol()
        d = self.slots[slot]
        fl = {}
        if rng.random() < 0.35:
            fl["residual_x"] = True
        if rng.random() < 0.25:
            fl["residual_dx"] = rng.random() < 0.5
        if rng.random() < 0.25:
            fl["scaling"] = True
        if rng.random() < self.cfg["plot"]:
            fl["plot"] = True
        p = "%sp%d" % (self.px, len(self.posts))
        o = dict(op="post", sol=name, flags=fl)
        o["as"] = p
        self.add(**o)
        self.posts.append((p, d["spec"]))
        if d["kind"] != "ph":
            self.post_ns[p] = d["grid"]["n"]

    def pick_sol(self):
        """Width-changing optimizers read a solution with their current widths: use their latest."""
        name, slot = self.rng.choice(self.sols)
        if self.slots[slot]["kind"] in ("h", "ph", "adaptive", "base"):
            name = [x for x in self.sols if x[1] == slot][-1][0]
        return name, slot

    def get(self):
        rng = self.rng
        if not self.posts:
            return self.post()
        p, spec = rng.choice(self.posts)
        nph = self.specs[spec]["nph"]
        o = dict(op="get", post=p)
        if rng.random() < 0.1:
            o.update(how="taus", method=rng.choice(["uniform", "other"]))
            if rng.random() < 0.8:
                o["orig"] = [-1.0] + [q for q in gen.points(rng) if -1 < q < 1] + [1.0]
            if rng.random() < 0.7:
                o["n"] = rng.choice([2, 5, 20, 75, 150])
            return self.add(**o)
        if rng.random() < 0.12:
            o["bare"] = True
        r = rng.random()
        if r < 0.45:
            o["interp"] = True
        elif r < 0.6:
            o["how"] = "orig"
        elif r < 0.75:
            o["how"] = "traj"
        if rng.random() < 0.6 or o.get("how") == "traj":
            phs = list(range(nph))
            rng.shuffle(phs)
            o["phases"] = phs[:rng.randint(1, nph)]
            if rng.random() < 0.3 and o.get("how") != "traj":
                o["tuple"] = True
        elif rng.random() < 0.25 and self.post_ns.get(p):
            phs = list(range(nph))
            rng.shuffle(phs)
            o = dict(op="get", post=p, how="at", phases=phs[:rng.randint(1, nph)], at=[[] if rng.random() < 0.1 else gen.points(rng) for _ in range(self.post_ns[p])])
            if not any(o["at"]):
                o["at"][0] = [0.0]
        if rng.random() < 0.3:
            o["scribble"] = True
        self.add(**o)

    def resid(self):
        rng = self.rng
        if not self.sols:
            return self.solve()
        name, slot = self.pick_sol()
        d = self.slots[slot]
        nph = self.specs[d["spec"]]["nph"]
        which = rng.choice(["dx", "dx", "x", "x", "dd"])
        o = dict(op="resid", sol=name, which=which)
        if which in ("dx", "dd") and rng.random() < 0.6:
            o["grid_type"] = rng.choice(["fixed", "mid-points", "spectral"])
        if which != "dd" and rng.random() < 0.35:
            o["rel"] = True
        if d["kind"] != "ph" and rng.random() < 0.25:
            ns = d["grid"]["n"]
            o["nodes"] = [[gen.points(rng) for _ in range(ns)] for _ in range(nph)]
        if which == "x" and rng.random() < 0.2:
            o["phases"] = rng.sample(range(nph), rng.randint(1, nph))
        if rng.random() < 0.2:
            # a single phase
            if rng.random() < 0.4:
                o.pop("nodes", None)
            o["one"] = max(rng.randrange(nph), rng.randrange(nph))
            o["which"] = rng.choice(["dx", "x", "dd", "dd", "ip", "ip"])
            if rng.random() < 0.6:
                o.pop("grid_type", None)
            o.pop("rel", None)
            o.pop("phases", None)
            if o["which"] == "ip" and rng.random() < self.cfg["plot"]:
                o["plot"] = True
        elif rng.random() < self.cfg["plot"]:
            o["plot"] = True
            if rng.random() < 0.4:
                o["on"] = rng.choice(["axes", "both", "both"])
        self.add(**o)

    def plot(self):
        rng = self.rng
        if not self.posts:
            return self.post()
        p, spec = rng.choice(self.posts)
        s = self.specs[spec]
        how = rng.choice(["phases", "phases", "x", "x", "u", "u", "phase", "all", "one"])
        o = dict(op="plot", post=p, how=how)
        if rng.random() < 0.7 or how == "phase":
            phs = list(range(s["nph"]))
            rng.shuffle(phs)
            o["phases"] = phs[:1 if how == "phase" else rng.randint(1, s["nph"])]
        if rng.random() < 0.5:
            o["interp"] = rng.random() < 0.6
        if how == "phases" and rng.random() < 0.4:
            o["residuals"] = rng.random() < 0.5
        if how in ("x", "u"):
            n = s["n" + how]
            if rng.random() < 0.6:
                some = lambda: rng.sample(range(n), rng.randint(1, n))
                o["dims"] = [some() for _ in range(rng.randint(1, 3))] if rng.random() < 0.5 else some()
            if rng.random() < 0.3:
                o["axis"] = rng.choice([0, 1])
        if how in ("all", "one"):
            if rng.random() < 0.5:
                o["name"] = rng.choice(["run 1 ", ""])
            o["legend"] = rng.random() < 0.7
            o["of"] = rng.choice("xu")
            n = s["n" + o["of"]]
            some = lambda: rng.sample(range(n), rng.randint(1, n))
            o["dims"] = [some() for _ in range(rng.randint(1, 3))] if rng.random() < 0.5 else some()
            if rng.random() < 0.3:
                o["tics"] = ["-", ":"]
        elif rng.random() < 0.3:
            o["on"] = dict(interpolate=rng.random() < 0.5)
            if rng.random() < 0.5:
                o["on"]["phases"] = [rng.randrange(s["nph"])]
        if rng.random() < 0.12:
            o["bare"] = True
        self.add(**o)

    def edit(self):
        i = self.rng.randrange(len(self.specs))
        self.add(op="edit", spec=i, edits=gen.edits(self.rng, self.specs[i]))

    def victim(self):
        """One more call, not part of the program: (operation, slot it works on)."""
        st = (len(self.ops), list(self.slots), list(self.sols), list(self.posts), list(self.pool))
        slots = dict(self.slots)
        r = self.rng.random()
        (self.solve if r < 0.55 else self.new if r < 0.7 else self.post if r < 0.8 else self.resid if r < 0.93 else self.get)()
        v = self.ops[st[0]]
        del self.ops[st[0]:]
        self.slots, self.sols, self.posts, self.pool = slots, st[2], st[3], st[4]
        return v

    def aftermath(self, v):
        """Look closely at what a failed call may have touched."""
        rng = self.rng
        slot = v.get("slot")
        if slot not in self.slots:
            slot = rng.choice(list(self.slots))
        mine = [x for x in self.sols if x[1] == slot]
        r = rng.random()
        if mine and r < 0.7:
            keep, self.sols = self.sols, mine[-1:]
            if r < 0.4:
                self.post()
                kp, self.posts = self.posts, self.posts[-1:]
                self.get()
                self.posts = kp
            else:
                self.resid()
            self.sols = keep
        if r > 0.55:
            self.solve(slot)

    def body(self, n):
        rng, c = self.rng, self.cfg
        for _ in range(n):
            k = wchoice(rng, c["w"])
            if rng.random() < c.get("validate", 0.04):
                self.add(op="validate", spec=rng.randrange(len(self.specs)))
            if rng.random() < c["edits"] / 4:
                self.edit()
                if rng.random() < 0.6 and len(self.slots) < 4:
                    self.new()
            if rng.random() < 0.06 and len(self.slots) < 4:
                self.new(copyof=rng.choice(list(self.slots)) if rng.random() < 0.4 else None)
            if k == "solve":
                self.solve()
            elif k == "post":
                self.post()
            elif k == "get":
                self.get()
            elif k == "resid":
                self.resid()
            elif k == "plot":
                self.plot()
            elif k == "set":
                self.set(rng.choice(list(self.slots)))
            if k in ("get", "post") and rng.random() < c["plot"] / 2:
                self.plot()

    def fill(self):
        rng, c = self.rng, self.cfg
        for _ in range(rng.randint(*c["slots"])):
            self.new()
        self.solve()
        self.body(rng.randint(*c["length"]))
        if rng.random() < 0.7:
            self.post()
            self.get()
        return self


def make_specs(rng, cfg, n=None):
    out = []
    for _ in range(n or rng.choice([1, 1, 2])):
        fam = "chain" if rng.random() < cfg["chain"] else "poly"
        nph = rng.choice(cfg["nph"]) if cfg.get("nph") else (rng.choice([2, 2, 3]) if rng.random() < cfg.get("multi", 0) else None)
        s = gen.spec(rng, nph=nph, family=fam)
        if rng.random() < cfg.get("wide", 0):
            s = gen.spec(rng, nph=rng.choice([1, 1, 2]), family="chain", dims=rng.choice([(16, 1), (17, 2), (2, 16), (1, 18)]))
        if out and rng.random() < cfg["sibling"]:
            s = gen.sibling(rng, out[0])
        if rng.random() < cfg.get("plots", 0.1):
            k = list(range(s["nph"]))
            rng.shuffle(k)
            cut = rng.randint(1, s["nph"])
            s["plots"] = [k[:cut]] + ([k[cut:]] if k[cut:] and rng.random() < 0.6 else [])
        out.append(s)
    return out


SITEKINDS = dict(cb=["user", "user", "valueerror", "valueerror", "interrupt", "memory", "exit", "typeerror", "attributeerror", "keyerror", "indexerror", "zerodivision", "assertion", "notimplemented",
                     "oserror", "runtime", "overflow", "floating"], build=["solverfail", "memory", "interrupt"], run=["solverfail", "interrupt", "memory"],
                 answer=["solverfail", "interrupt", "memory", "user"], out=["epipe", "enospc", "interrupt"], line=["interrupt", "memory"], clk=["interrupt"], fig=["memory", "interrupt", "runtime", "oserror"])


def rough_faults(rng, ops, k):
    """Faults placed without knowing how often each site is reached."""
    out = []
    cand = [o for o in ops if o["op"] in ("new", "solve", "post", "resid", "top", "plot")]
    for _ in range(k):
        if not cand:
            break
        o = rng.choice(cand)
        if o["op"] == "new":
            continue
        site = rng.choice(["cb", "cb", "run", "answer", "build", "out"]) if o["op"] == "solve" else rng.choice(["cb", "cb", "out"])
        if o["op"] == "plot" or o.get("plot") or o.get("flags", {}).get("plot"):
            site = rng.choice(["fig", "fig", site])
        if site == "cb" and rng.random() < 0.5:
            out.append(dict(uid=o["uid"], site="cb:%s%d" % (rng.choice(["dyn", "path", "run", "term", "mayer"]), rng.choice([0, 0, 1])), n=rng.choice([1, 1, 2, 3, 5]), kind=rng.choice(SITEKINDS["cb"])))
            continue
        n = {"cb": rng.choice([1, 1, 2, 3, 5, 8, 13]), "run": rng.choice([1, 1, 2, 3]), "answer": rng.choice([1, 1, 2]), "build": 1, "out": rng.randint(1, 3), "fig": rng.choice([1, 2, 3])}[site]
        out.append(dict(uid=o["uid"], site=site, n=n, kind=rng.choice(SITEKINDS[site])))
    return out


def clsops(rng, cfg, ops):
    if rng.random() < cfg["cls"]:
        st = []
        if rng.random() < 0.7:
            st.append(["Collocation", "D_MATRIX_METHOD", rng.choice(["numerical", "symbolic"])])
        if rng.random() < 0.4:
            st.append(["mpopt", "_MUTE_", rng.random() < 0.7])
        if rng.random() < 0.2:
            st.append(["post_process", "_INTERPOLATION_NODES_PER_SEG", rng.choice([20, 50, 80])])
        if rng.random() < 0.3:
            st += rng.sample([["mpopt", "_GRID_TYPE", rng.choice(["fixed", "mid-points", "spectral"])], ["mpopt", "_MAX_GRID_POINTS", rng.choice([3, 5, 20])],
                              ["mpopt_h_adaptive", "_TOL_RESIDUAL", rng.choice([1e-8, 1e-4, 0.1, 1.0])], ["mpopt_h_adaptive", "_TOL_SEG_WIDTH_CHANGE", rng.choice([0.01, 0.3])],
                              ["mpopt_adaptive", "_TOL_RESIDUAL", rng.choice([1e-6, 0.1])], ["mpopt_adaptive", "_SEG_WIDTH_MIN", rng.choice([1e-2, 1e-6])], ["mpopt_adaptive", "_SEG_WIDTH_MAX", rng.choice([0.8, 0.9])],
                              ["mpopt_h_adaptive", "_SEG_WIDTH_MIN", rng.choice([1e-2, 0.1])], ["mpopt_h_adaptive", "_SEG_WIDTH_MAX", rng.choice([0.4, 0.8])],
                              ["mpopt_h_adaptive", "_DEFAULT_METHOD", "control_slope"], ["mpopt_h_adaptive", "_DEFAULT_SUB_METHOD", "merge_split"]], rng.choice([1, 2, 3]))
        high = any(m > 9 for o in ops if o["op"] in ("new", "top") for m in gen.orders_of(o["grid"]))
        if rng.random() < cfg.get("interval", 0.4) and not high:     # polynomials in powers of tau lose their digits there
            st += rng.choice([[["CollocationRoots", "_TAU_MIN", 0]], [["CollocationRoots", "_TAU_MIN", 0]], [["CollocationRoots", "_TAU_MIN", 0], ["CollocationRoots", "_TAU_MAX", 2]]])
        if st:
            return [dict(op="class", set=st, uid="cls")] + ops
    return ops


def clock(rng):
    m = rng.choice(["tick", "tick", "tick", "jump", "frozen", "back"])
    return dict(mode=m, seed=rng.randrange(1000), start=rng.choice([0.0, 1000.0, -5.0, 1e12]))


def invariant_case(pid, rng, run):
    cfg = cfg_for(pid)
    specs = make_specs(rng, cfg)
    p = Program(rng, cfg, specs, "m").fill()
    faults = rough_faults(rng, p.ops, rng.choice([1, 1, 2, 3])) if rng.random() < cfg["fault"] else []
    plan = dict(specs=specs, actors=[clsops(rng, cfg, p.ops)], faults=faults, clock=clock(rng) if "clock" not in cfg or rng.random() < 0.1 else dict(mode=cfg["clock"], seed=rng.randrange(1000), start=rng.choice([0.0, 1000.0, 1e9])), checks=[pid])
    return dict(pid=pid, mode="inv", plans=[plan])


# --------------------------------------------------------------------------- differential cases
def common(plan):
    return copy.deepcopy(plan)


def c01(pid, rng, run):
    cfg = cfg_for(pid)
    specs = make_specs(rng, cfg)
    p = Program(rng, cfg, specs, "m")
    for _ in range(rng.choice([1, 1, 2])):
        p.new()
    nnew = len(p.ops)
    if rng.random() < 0.35:
        p.solve()
    # no further constructions in the compared program
    p.body_slots = None
    for _ in range(rng.randint(2, 5)):
        k = wchoice(rng, cfg["w"])
        getattr(p, k if k != "set" else "solve")()
    base = p.ops
    ops = list(base)
    ed = []

    def edit(j):
        i = rng.randrange(len(specs))
        r = rng.random()
        keys = [o["grid"]["share"] for o in base[:nnew] if o["op"] == "new" and o["grid"].get("share")]
        if keys and r < 0.35:
            return dict(op="edit_grid", key=rng.choice(keys), how=rng.choice(["append", "set", "set", "clear"]), idx=rng.randrange(4), val=rng.choice([2, 4, 7]), uid="e%d" % j)
        return dict(op="edit", spec=i, edits=gen.edits(rng, specs[i]), uid="e%d" % j)
    k = rng.randint(1, 3)
    faults = []
    last_new = max(i for i, o in enumerate(base) if o["op"] == "new")
    # option dictionaries no later call uses may be edited by their owner once the call has returned
    once = {}
    for i, o in enumerate(base):
        for key in ("share_opts", "share_mpopts"):
            if o.get(key):
                once[o[key]] = i
    for key, i in sorted(once.items()):
        if rng.random() < 0.4:
            pos = ops.index(base[i]) + 1
            nxt = rng.randint(i, len(base) - 1)
            pos = ops.index(base[nxt]) + 1
            ops[pos:pos] = [dict(op="edit_opts", key=key, clear=rng.random() < 0.3, uid="eo%d" % i)]
    for j in range(k):
        e = [edit(j)]
        if rng.random() < 0.3:
            # somebody else builds and uses an optimizer from the edited objects
            q = Program(rng, dict(cfg, slots=(1, 1)), specs, "x%d" % j)
            sl = q.new()
            if not any(o.get("how") == "clear" for o in e):
                for o in q.ops:
                    if o["op"] == "new":
                        o["grid"].pop("share", None) if rng.random() < 0.5 else None
                q.solve(sl)
                e = e + q.ops
        if rng.random() < 0.3:
            tgt = rng.choice([o for o in base[last_new + 1:] if o["op"] in ("solve", "post", "resid")] or base[-1:])
            faults.append(dict(uid=tgt["uid"], site="cb", n=rng.choice([1, 2, 3, 5, 9]), kind="nested", ops=e))
        else:
            at = rng.randint(last_new + 1, len(base))
            pos = ops.index(base[at]) if at < len(base) else len(ops)
            ops[pos:pos] = e
    A = dict(specs=specs, actors=[base], checks=[pid])
    B = dict(specs=specs, actors=[ops], faults=faults, checks=[pid])
    return dict(pid=pid, mode="diff", plans=[A, B], uids=[o["uid"] for o in base])


def c02(pid, rng, run):
    cfg = cfg_for(pid)
    how = rng.choice(["history", "merge", "nested", "threads", "threads", "seams"])
    if how not in ("history", "merge"):
        cfg["plot"] = 0          # pyplot has one current figure: callers that plot must take turns
    specs = make_specs(rng, cfg, rng.choice([1, 2, 2]))
    m = Program(rng, cfg, specs, "m").fill()
    o = Program(rng, dict(cfg, regrid=0.6), specs, "o")
    o.pool = copy.deepcopy(m.pool)
    o.fill()
    cls = clsops(rng, cfg, [])
    A = dict(specs=specs, actors=[cls + m.ops], checks=[pid])
    fo = rough_faults(rng, o.ops, rng.choice([1, 2])) if rng.random() < 0.4 else []
    B = dict(specs=specs, checks=[pid], faults=list(fo))
    uids = [x["uid"] for x in m.ops]
    if how == "history":
        B["actors"] = [cls + o.ops + m.ops]
    elif how == "merge":
        a, b, seq = list(m.ops), list(o.ops), []
        while a or b:
            if not b or (a and rng.random() < 0.5):
                seq.append(a.pop(0))
            else:
                seq.append(b.pop(0))
        B["actors"] = [cls + seq]
    elif how == "nested":
        B["actors"] = [cls + m.ops]
        pr = run(A)
        sites = [(u, c["cb"]) for u, c in sorted(pr["profile"].items()) if c.get("cb") and u.startswith("m")]
        if sites:
            rest = list(o.ops)
            for u, c in sorted(rng.sample(sites, min(len(sites), rng.choice([1, 2, 3])))):
                take = rng.randint(2, max(2, len(rest)))
                part, rest = rest[:take], rest[take:]
                if part:
                    B["faults"].append(dict(uid=u, site="cb", n=rng.randint(1, c), kind="nested", ops=part))
    else:
        lines = how == "threads"
        if lines:
            A["lines"] = B["lines"] = True
        B["actors"] = [cls + m.ops, o.ops]
        pm = run(A)
        po = run(dict(specs=specs, actors=[cls + o.ops], checks=[], faults=fo, lines=lines))
        A.pop("lines", None)
        site = ["line"] if lines else ["cb", "run", "answer", "build", "out"]
        def pts(prof, me):
            # bias towards the operations that build state: every operation equally likely, then any point within
            out = []
            us = [(u, s, c[s]) for u, c in sorted(prof.items()) if u.startswith(me) for s in site if c.get(s)]
            for _ in range(rng.choice([2, 4, 8, 20]) if us else 0):
                u, s, n = rng.choice(us)
                out.append((u, s, rng.randint(1, n)))
            return out
        seen = {(f["uid"], f["site"], f["n"]) for f in B["faults"]}
        for me, prof, to in (("m", pm["profile"], 1), ("o", po["profile"], 0)):
            for u, s, n in pts(prof, me):
                if (u, s, n) not in seen:
                    seen.add((u, s, n))
                    B["faults"].append(dict(uid=u, site=s, n=n, kind="switch", to=to))
    return dict(pid=pid, mode="diff", how=how, plans=[A, B], uids=uids)


def c03(pid, rng, run):
    cfg = cfg_for(pid)
    specs = make_specs(rng, cfg)
    p = Program(rng, cfg, specs, "m")
    cls = clsops(rng, cfg, [])
    for _ in range(rng.randint(*cfg["slots"])):
        p.new()
    p.solve()
    fresh = []                    # (position in the program, operation)
    sweep = rng.random() < 0.3    # many failures of one call, at many different user function calls
    for _ in range(rng.randint(*cfg["length"])):
        if len(fresh) < 3 and rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                fresh.append((len(p.ops), p.victim()))
            if rng.random() < 0.75:
                p.aftermath(fresh[-1][1])
                continue
        p.body(1)
    if rng.random() < 0.6:
        p.post()
        p.get()
    base = p.ops
    ks = rng.sample(range(len(base)), min(len(base), rng.choice([0, 1, 1, 2] if fresh else [1, 1, 2])))
    ks = [k for k in ks if base[k]["op"] != "set"]
    if sweep:
        ks = [rng.choice([k for k, o in enumerate(base) if o["op"] == "solve"])]
    if not ks and not fresh:
        ks = [0]
    ops, victims = [], []

    def hurt(v):
        v["victim"] = True
        victims.append(v)
        ops.append(v)
    for i, o in enumerate(base):
        for at, v in fresh:
            if at == i:
                hurt(v)
        if i in ks:
            for r in range(10 if sweep else rng.choice([1, 1, 2])):
                v = copy.deepcopy(o)
                v["uid"] = o["uid"] + "f%d" % r
                v["first"] = o["uid"] + "f0"
                hurt(v)
            ops.append(o)          # retried
        else:
            ops.append(o)
    for at, v in fresh:
        if at >= len(base):
            hurt(v)
            q = copy.deepcopy(v)   # the same call afterwards, undisturbed
            q.pop("victim")
            q["uid"] += "r"
            ops.append(q)
    vu = [v["uid"] for v in victims]
    uselines = rng.random() < 0.5 and not sweep
    probe = dict(specs=specs, actors=[cls + ops], checks=[], lines=uselines, line_actors=vu)
    pr = run(probe)
    faults, used = [], set()
    for v in victims:
        # in the probing run the first attempt succeeds and the next ones find its work done
        c = pr["profile"].get(v.pop("first", v["uid"]), {})
        sites = [s for s in ("cb", "build", "run", "answer", "out", "line", "fig") if c.get(s)]
        if not sites:
            continue
        s = "line" if "line" in sites and rng.random() < 0.6 else rng.choice(sites)
        if sweep and c.get("cb"):
            s = "cb"
        if s == "cb" and (sweep or rng.random() < 0.65):
            s = rng.choice(sorted(k for k in c if k.startswith("cb:")))
        n = rng.choice([1, 1, c[s], rng.randint(1, c[s]), rng.randint(1, c[s]), rng.randint(1, c[s]), rng.randint(1, c[s])])
        if sweep and rng.random() < 0.5:
            n = 1
        kind = rng.choice(SITEKINDS[s.split(":")[0]])
        if sweep and (s, n, kind, v["op"]) in used:
            continue
        used.add((s, n, kind, v["op"]))
        faults.append(dict(uid=v["uid"], site=s, n=n, kind=kind))
    # only operations that really get a fault stay
    fu = {f["uid"] for f in faults}
    ops = [o for o in ops if not o.get("victim") or o["uid"] in fu]
    B = dict(specs=specs, actors=[cls + ops], faults=faults, checks=[pid], lines=uselines, line_actors=vu)
    A = dict(specs=specs, actors=[cls + [o for o in ops if not o.get("victim")]], checks=[pid])
    return dict(pid=pid, mode="diff", plans=[A, B], uids=[o["uid"] for o in ops if not o.get("victim")], victims=sorted(fu))


def c15(pid, rng, run):
    cfg = cfg_for(pid)
    specs = make_specs(rng, cfg)
    p = Program(rng, cfg, specs, "m").fill()
    ops = [o for o in p.ops]
    for o in ops:
        if o["op"] == "set":
            o["set"] = [e for e in o["set"] if e[0] != "_MUTE_"]
    cls = clsops(rng, cfg, [])
    for o in cls:
        o["set"] = [e for e in o["set"] if e[1] != "_MUTE_"]

    def variant(k):
        r = random.Random("%d-%s" % (k, rng.random()))
        out = [dict(op="class", set=[["mpopt", "_MUTE_", r.random() < 0.5]], uid="mu")] if r.random() < 0.5 else []
        for o in ops:
            out.append(copy.deepcopy(o))
            if o["op"] in ("new", "solve") and r.random() < 0.35:
                out.append(dict(op="set", slot=o["slot"], set=[["_MUTE_", r.random() < 0.7]], uid="mu%s" % o["uid"]))
        return out
    A = dict(specs=specs, actors=[cls + variant(0)], checks=[pid], clock=dict(mode="tick"))
    B = dict(specs=specs, actors=[cls + variant(1)], checks=[pid], clock=dict(mode=rng.choice(["jump", "jump", "frozen", "back"]), seed=rng.randrange(10 ** 6), start=rng.choice([0.0, 1e12, -1e9, 1000.0])))
    return dict(pid=pid, mode="diff", plans=[A, B], uids=[o["uid"] for o in ops])


def c16(pid, rng, run):
    cfg = cfg_for(pid)
    specs = make_specs(rng, cfg)
    px = Program(rng, dict(cfg, kinds=dict(base=1)), specs, "m")
    ops = []
    slots = []
    for j in range(rng.choice([1, 2, 2, 3])):
        i = rng.randrange(len(specs))
        g = gen.grid(rng, maxn=4)
        slot = "T%d" % j
        d = dict(kind="base", spec=i, grid=g)
        o = dict(op="top", spec=i, grid=g, slot=slot, uid="t%d" % j, answers=[gen.answer(rng, rng.random() < 0.3)])
        if rng.random() < 0.4:
            pl = rng.choice(["ipopt", "ipopt", "sqpmethod"])
            o["plugin"] = pl
            if rng.random() < 0.6:
                o["opts"] = {pl + ".max_iter": rng.randint(3, 30)}
        elif rng.random() < 0.4:
            o["opts"] = {"ipopt.tol": 1e-6, "print_time": 0}
        if rng.random() < 0.3:
            o["mpopts"] = {"nlp_sw_params": px.widths(d)}
        if rng.random() < 0.5:
            o["flags"] = {k: rng.random() < 0.5 for k in ("residual_x", "residual_dx") if rng.random() < 0.6}
        if rng.random() < 0.3:
            o["no_dict"] = True
        if rng.random() < 0.15:
            o["plot"] = True
        if rng.random() < 0.15:
            o["reinit"] = True
        prev = [k for k, (dd) in enumerate(slots) if dd["spec"] == i and gen.orders_of(dd["grid"]) == gen.orders_of(g) and dd["grid"]["scheme"] == g["scheme"]]
        if slots and rng.random() < 0.5:
            k = rng.randrange(len(slots))
            dd = slots[k]
            o["spec"], o["grid"] = dd["spec"], copy.deepcopy(dd["grid"])
            if "mpopts" in o:
                o["mpopts"] = {"nlp_sw_params": px.widths(dd)}
            d = dict(kind="base", spec=o["spec"], grid=o["grid"])
            o["init"] = dict(sol="T%d" % k, keys=[["x", "x"], ["lam_x", "lam_x"], ["lam_g", "lam_g"]], whole=rng.random() < 0.5)
        if isinstance(o["grid"]["orders"], list) and "init" not in o and rng.random() < 0.06:
            o["grid"] = dict(o["grid"], n=o["grid"]["n"] + rng.choice([1, 1, -1]))       # orders and segments do not agree
        ops.append(o)
        slots.append(d)
        for n in range(rng.randint(1, 3)):
            r = rng.random()
            nph = specs[d["spec"]]["nph"]
            u = "t%d.%d" % (j, n)
            if r < 0.5:
                q = dict(op="get", post=slot, uid=u)
                if rng.random() < 0.5:
                    q["interp"] = True
                if rng.random() < 0.5:
                    q["phases"] = [rng.randrange(nph)]
                ops.append(q)
            elif r < 0.7:
                ops.append(dict(op="resid", sol=slot, which=rng.choice(["dx", "x"]), uid=u))
            else:
                q = dict(op="solve", slot=slot, answers=[gen.good_answer(rng)], uid=u)
                q["as"] = slot + "r"
                ops.append(q)
    staged = copy.deepcopy(ops)
    for o in staged:
        if o["op"] == "top":
            o["staged"] = True
    cls = clsops(rng, cfg, [])
    if rng.random() < 0.3:
        cls = [dict(op="class", set=[["mpopt", "_MUTE_", True]], uid="cls0")] + cls
    faults = []
    if rng.random() < 0.3:
        pr = run(dict(specs=specs, actors=[cls + staged], checks=[]))
        o = rng.choice([o for o in ops if o["op"] == "top"])
        c = pr["profile"].get(o["uid"], {})
        sites = [s for s in ("cb", "build", "run", "answer", "out") if c.get(s)]
        if sites:
            s = rng.choice(sites)
            faults.append(dict(uid=o["uid"], site=s, n=rng.randint(1, c[s]), kind=rng.choice(SITEKINDS[s])))
    A = dict(specs=specs, actors=[cls + staged], faults=copy.deepcopy(faults), checks=[pid])
    B = dict(specs=specs, actors=[cls + ops], faults=faults, checks=[pid])
    return dict(pid=pid, mode="diff", plans=[A, B], uids=[o["uid"] for o in ops], faults_compare=True)


MAKE = dict(C01=c01, C02=c02, C03=c03, C15=c15, C16=c16)


def make(pid, seed, i, run):
    rng = random.Random("%s:%s:%s" % (pid, seed, i))
    return MAKE.get(pid, invariant_case)(pid, rng, run)


# --------------------------------------------------------------------------- judging
def entry(tr):
    if tr is None:
        return ("missing",)
    st = tr["status"]
    if st.startswith("exc:"):
        # an exception is compared by its type; its text may quote object addresses
        return (":".join(st.split(":")[:2]),) + tuple(tr["data"])
    return (st,) + tuple(tr["data"])


BAD = ("timeout", "died", "harness", "unmodelled")


def judge(case, run):
    """-> (violations, results, trouble)"""
    pid = case["pid"]
    out, trouble = [], []
    res = [run(p) for p in case["plans"]]
    for k, r in enumerate(res):
        if r["status"] == "timeout":
            # decide by steps, not by wall time: run again under a step budget
            case["plans"][k] = dict(case["plans"][k], lines=True, line_actors=None, budget=3_000_000)
            r = res[k] = run(case["plans"][k], timeout=300.0)
        if r["status"] == "died":
            r = res[k] = run(case["plans"][k])
            if r["status"] == "died":
                out.append(dict(cls="died", msg="the process running the library died", uid=None))
        if r["status"] in ("timeout", "harness"):
            trouble.append("%s: %s" % (r["status"], r.get("error", "")))
        for v in r["violations"]:
            if v["tag"] == pid or (v["tag"] == "*" and (case["mode"] == "inv" or v["cls"] == "no-progress")):
                out.append(dict(cls=v["cls"], msg=v["msg"], uid=v["uid"]))
    if case["mode"] == "diff" and not trouble and not any(r["status"] in ("died",) for r in res):
        A, B = res[0]["transcript"], res[1]["transcript"]
        cut = [r["status"] not in ("ok",) for r in res]
        undisturbed = [v for v in case.get("victims", []) if v in B and not (B[v].get("failed") or B[v].get("swallowed"))]
        if undisturbed and not out:
            # the planned fault did not come up, so this call is an ordinary one and the histories are not comparable
            case["void"] = undisturbed
            return out, res, trouble
        for u in case["uids"]:
            a, b = A.get(u), B.get(u)
            if (a is None and cut[0]) or (b is None and cut[1]):
                if (a is None) != (b is None) and not all(cut):
                    out.append(dict(cls="diff:cut", msg="%s is reached in only one of the two histories" % u, uid=u))
                break
            if a is None and b is None:
                continue
            if entry(a) != entry(b):
                ea, eb = entry(a), entry(b)
                what = "status" if ea[0] != eb[0] else "data"
                out.append(dict(cls="diff:%s:%s" % ((a or b)["op"], what), uid=u,
                                msg="%s (%s) differs from the reference history: %s / %s" % (u, (a or b)["op"], ea[:3], eb[:3])))
                break
    return out, res, trouble
