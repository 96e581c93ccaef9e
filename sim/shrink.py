"""Minimise a failing case while the same class of violation persists."""
import copy
from . import profiles, boot


def uids_of(case):
    seen = []
    for p in case["plans"]:
        for a in p["actors"]:
            for o in a:
                if o["uid"] not in seen:
                    seen.append(o["uid"])
        for f in p.get("faults", []):
            for o in f.get("ops", []):
                if o["uid"] not in seen:
                    seen.append(o["uid"])
    return seen


def drop(case, S):
    c = copy.deepcopy(case)
    for p in c["plans"]:
        p["actors"] = [[o for o in a if o["uid"] not in S] for a in p["actors"]]
        fs = []
        for f in p.get("faults", []):
            if f["uid"] in S:
                continue
            if "ops" in f:
                f["ops"] = [o for o in f["ops"] if o["uid"] not in S]
                if not f["ops"]:
                    continue
            fs.append(f)
        p["faults"] = fs
    if "uids" in c:
        c["uids"] = [u for u in c["uids"] if u not in S]
    return c


def each_op(c, fn):
    for p in c["plans"]:
        for a in p["actors"]:
            for o in a:
                fn(o)
        for f in p.get("faults", []):
            for o in f.get("ops", []):
                fn(o)


class Shrinker:
    def __init__(self, case, cls, run, seconds, attempts=400):
        self.case, self.cls, self.run = case, cls, run
        self.mono = boot._real["monotonic"]
        self.end = self.mono() + seconds
        self.left = attempts
        self.tried = 0

    def same(self, v):
        a, b = v["cls"], self.cls
        return a == b or (a.startswith("diff:") and b.startswith("diff:")) or (a.split(":")[0] == b.split(":")[0] == "missing-row")

    def attempt(self, c):
        if self.left <= 0 or self.mono() > self.end:
            return False
        self.left -= 1
        self.tried += 1
        c2 = copy.deepcopy(c)
        v, _, trouble = profiles.judge(c2, self.run)
        if not trouble and any(self.same(x) for x in v):
            self.case = c
            self.viol = next(x for x in v if self.same(x))
            return True
        return False

    def list_min(self, items, apply):
        """Remove as many items as possible; apply(set) builds the candidate without them."""
        n = max(1, len(items) // 2)
        items = list(items)
        while items:
            i = 0
            while i < len(items):
                S = items[i:i + n]
                if self.attempt(apply(set(S))):
                    del items[i:i + n]
                else:
                    i += n
            if n == 1 or self.left <= 0 or self.mono() > self.end:
                break
            n = max(1, n // 2)

    def faults(self):
        k = 0
        while True:
            n = [len(p.get("faults", [])) for p in self.case["plans"]]
            tot = sum(n)
            if k >= tot:
                break
            c = copy.deepcopy(self.case)
            j = k
            for p in c["plans"]:
                m = len(p.get("faults", []))
                if j < m:
                    del p["faults"][j]
                    break
                j -= m
            if not self.attempt(c):
                k += 1
            if self.left <= 0:
                break

    def keys(self):
        for key in ("init", "opts", "share_opts", "mpopts", "share_mpopts", "flags", "reinit", "plugin", "scribble", "phases", "tuple", "rel", "nodes", "grid_type"):
            have = []
            each_op(self.case, lambda o: have.append(o["uid"]) if key in o else None)
            for u in dict.fromkeys(have):
                c = copy.deepcopy(self.case)
                each_op(c, lambda o: o.pop(key, None) if o["uid"] == u else None)
                if key == "opts":
                    each_op(c, lambda o: o.pop("share_opts", None) if o["uid"] == u else None)
                if key == "mpopts":
                    each_op(c, lambda o: o.pop("share_mpopts", None) if o["uid"] == u else None)
                self.attempt(c)

    def specs(self):
        ns = len(self.case["plans"][0]["specs"])
        for i in range(ns):
            for key in ("path", "term", "mayer", "run"):
                for ph in range(self.case["plans"][0]["specs"][i]["nph"]):
                    if self.case["plans"][0]["specs"][i][key][ph] is None:
                        continue
                    c = copy.deepcopy(self.case)
                    for p in c["plans"]:
                        p["specs"][i][key][ph] = None
                    self.attempt(c)
            for key in ("diff_u", "midu", "du_continuity"):
                if any(self.case["plans"][0]["specs"][i][key]):
                    c = copy.deepcopy(self.case)
                    for p in c["plans"]:
                        p["specs"][i][key] = [0] * p["specs"][i]["nph"]
                    self.attempt(c)

    def minimise(self):
        self.list_min(uids_of(self.case), lambda S: drop(self.case, S))
        self.faults()
        self.keys()
        self.specs()
        self.list_min(uids_of(self.case), lambda S: drop(self.case, S))
        return self.case
