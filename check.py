#!/usr/bin/env python3
"""Decide one property by simulation:  check.py C03 [--replay FILE] [--runs N] [--workers W]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot
boot.ensure_interpreter()
import collections, hashlib, json, pickle, re, select, signal, struct, subprocess, time
boot.load()
mono = boot._real["monotonic"]
from sim import profiles, runner, shrink

HERE = os.path.dirname(os.path.abspath(__file__))
QUICK = dict(C01=700, C02=320, C03=480, C04=640, C05=640, C06=560, C07=640, C08=900, C09=700, C10=1000, C11=1000, C12=900, C13=700, C14=640, C15=420, C16=800, C17=480, C21=480, C22=640)
FACTOR = 9
CAP = dict(quick=420.0, thorough=6 * 3600.0)


def known(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) cls=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(cls=m.group(2), match=m.group(3), what=m.group(4)))
    except FileNotFoundError:
        pass
    return out


def listed(v, kn):
    return any(v["cls"] == k["cls"] and re.search(k["match"], v["msg"]) for k in kn)


def one(pid, seed, i, kn):
    t0 = mono()
    nexec = [0]
    def run(plan, timeout=120.0):
        nexec[0] += 1
        return runner.child(plan, timeout)
    case = profiles.make(pid, seed, i, run)
    v, res, trouble = profiles.judge(case, run)
    fresh = [x for x in v if not listed(x, kn)]
    st = dict(i=i, exec=nexec[0], sec=mono() - t0, viol=fresh, known=len(v) - len(fresh), trouble=trouble, how="void" if case.get("void") else case.get("how"),
              status=[r["status"] for r in res], steps=sum(r["steps"] for r in res), virtual=sum(r["virtual"] for r in res), answers=sum(r["answers"] for r in res),
              fired=collections.Counter(), probes=collections.Counter(), sites=collections.Counter(),
              digest=hashlib.sha256("".join(r["digest"] for r in res).encode()).hexdigest()[:16], inter=res[-1]["interleave"], switches=sum(r["switches"] for r in res), unfired=sum(r.get("unfired", 0) for r in res),
              ops=collections.Counter(o["op"] for a in case["plans"][-1]["actors"] for o in a))
    for r in res:
        st["fired"].update(r["fired"]); st["probes"].update(r["probes"]); st["sites"].update(r["sites"])
    # transcripts depend on the library's behaviour: they are what must be repeatable
    st["tdig"] = hashlib.sha256(repr([sorted((u, t["status"], t["data"]) for u, t in r["transcript"].items()) for r in res]).encode()).hexdigest()[:16]
    st["case"] = case if (fresh or i < 3) else None
    return st


def worker(pid, seed, kn):
    """-> (pid, write end for indices, read end for results)"""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    p = os.fork()
    if p:
        os.close(r1); os.close(w2)
        return p, w1, r2
    os.close(w1); os.close(r2)
    try:
        while True:
            b = os.read(r1, 8)
            if len(b) < 8:
                break
            i = struct.unpack("<q", b)[0]
            try:
                st = one(pid, seed, i, kn)
            except BaseException as e:
                import traceback
                st = dict(i=i, broken="".join(traceback.format_exception(e))[-2500:])
            d = pickle.dumps(st)
            d = struct.pack("<q", len(d)) + d
            while d:
                d = d[os.write(w2, d):]
    finally:
        os._exit(0)


def readn(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def batch(pid, seed, n, workers, cap, kn):
    t0 = mono()
    ws = {}
    todo = iter(range(n))
    stop = False
    results = []
    lost = 0

    def give(w):
        if stop or mono() - t0 > cap:
            os.close(w[1]); w[1] = None
            return
        try:
            i = next(todo)
        except StopIteration:
            os.close(w[1]); w[1] = None
            return
        w[3] = i
        os.write(w[1], struct.pack("<q", i))
    for _ in range(workers):
        p, w1, r2 = worker(pid, seed, kn)
        ws[r2] = [p, w1, r2, None]
        give(ws[r2])
    while ws:
        rd, _, _ = select.select(list(ws), [], [], 5.0)
        for fd in rd:
            w = ws[fd]
            h = readn(fd, 8)
            d = readn(fd, struct.unpack("<q", h)[0]) if h else None
            if d is None:
                os.waitpid(w[0], 0)
                if w[1] is not None:
                    os.close(w[1])
                    lost += 1
                os.close(fd)
                del ws[fd]
                continue
            st = pickle.loads(d)
            results.append(st)
            if st.get("viol"):
                stop = True
            give(w)
    return results, mono() - t0, lost


def brief(case):
    out = []
    for p in case["plans"]:
        out.append(dict(actors=[[{k: v for k, v in o.items() if k not in ("edits",)} for o in a] for a in p["actors"]],
                        faults=[{k: (v if k != "ops" else [o["uid"] for o in v]) for k, v in f.items()} for f in p.get("faults", [])], clock=p.get("clock"),
                        problems=["%d phase(s), %d states, %d controls, %d parameters, %s" % (s["nph"], s["nx"], s["nu"], s["na"], s["family"]) for s in p["specs"]]))
    return dict(mode=case["mode"], how=case.get("how"), histories=out)


def replay(pid, path):
    case = json.load(open(path))
    want = case.get("violation", {}).get("cls")
    v, res, trouble = profiles.judge(case, runner.child)
    for t in trouble:
        print("harness trouble:", t)
    for x in v:
        print("  %s: %s" % (x["cls"], x["msg"]))
    hit = [x for x in v if want is None or x["cls"] == want or (x["cls"].startswith("diff:") and want.startswith("diff:"))]
    if hit:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("no violation on replay")
    return 2 if trouble else 0


def main():
    args = sys.argv[1:]
    pid = args[0]
    if pid == "--selftest":
        # the simulator itself: two executions of one generated case must agree
        case = profiles.make("C09", "selftest", 0, runner.child)
        a, b = runner.child(case["plans"][0]), runner.child(case["plans"][0])
        print("simulator ready" if a["digest"] == b["digest"] and a["status"] == b["status"] else "simulator is not deterministic here")
        return 0 if a["digest"] == b["digest"] else 3
    opt = {args[k][2:]: args[k + 1] for k in range(1, len(args) - 1, 2)}
    if "replay" in opt:
        return replay(pid, opt["replay"])
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in CAP else "quick"
    n = int(opt.get("runs", QUICK[pid] * (FACTOR if tier == "thorough" else 1)))
    workers = int(opt.get("workers", min(16, os.cpu_count() or 4)))
    kn = known(pid)
    print("property %s seed %s tier %s: %d cases, %d workers, library %s" % (pid, seed, tier, n, workers, boot.MPFILE), flush=True)
    results, wall, lost = batch(pid, seed, n, workers, float(opt.get("cap", CAP[tier])), kn)
    broken = [r for r in results if r.get("broken")]
    results = sorted((r for r in results if not r.get("broken")), key=lambda r: r["i"])
    if opt.get("digests"):
        with open(opt["digests"], "w") as f:
            for r in results:
                f.write("%d %s %s\n" % (r["i"], r["digest"], r["tdig"]))
    trouble = ["case %d: %s" % (r["i"], t) for r in results for t in r["trouble"]] + ["case %d: %s" % (r["i"], r["broken"]) for r in broken]
    if lost:
        trouble.append("%d workers died" % lost)
    bad = [r for r in results if r["viol"]]
    rc = 0
    reported = None
    for r in bad:
        case, v = r["case"], r["viol"][0]
        # confirm by running the very case again before saying anything
        again, _, _ = profiles.judge(json.loads(json.dumps(case)), runner.child)
        again = [x for x in again if not listed(x, kn)]
        if not any(x["cls"] == v["cls"] for x in again):
            trouble.append("case %d: %s did not repeat: %s" % (r["i"], v["cls"], v["msg"]))
            continue
        sh = shrink.Shrinker(case, v["cls"], runner.child, float(opt.get("shrink", 60)))
        sh.viol = v
        sh.minimise()
        out = dict(sh.case, violation=sh.viol, found=dict(property=pid, seed=seed, index=r["i"], shrink_attempts=sh.tried, first=v,
                                                          operations_before=len(shrink.uids_of(case)), operations=len(shrink.uids_of(sh.case))))
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (pid, seed, r["i"]))
        with open(path, "w") as f:
            json.dump(out, f, indent=1)
        env = dict(os.environ)
        q = subprocess.run([boot.PY, "-W", "ignore", os.path.join(HERE, "check.py"), pid, "--replay", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if q.returncode != 1:
            trouble.append("case %d: replay in a fresh process gave %d: %s" % (r["i"], q.returncode, q.stdout.decode()[-400:]))
            # fall back to the unshrunk case
            with open(path, "w") as f:
                json.dump(dict(case, violation=v, found=dict(property=pid, seed=seed, index=r["i"])), f, indent=1)
            q = subprocess.run([boot.PY, "-W", "ignore", os.path.join(HERE, "check.py"), pid, "--replay", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if q.returncode != 1:
                continue
        print("case %d (seed %s): %s" % (r["i"], seed, sh.viol["msg"]))
        print("minimised from %d to %d operations in %d attempts" % (out["found"]["operations_before"], out["found"]["operations"], sh.tried))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc, reported = 1, sh.viol
        break
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    evidence(pid, seed, tier, results, wall, bad, trouble, n)
    if trouble:
        print("cases without a verdict (%d):" % len(trouble))
        for t in trouble[:5]:
            print("  " + t[-1500:])
        if rc == 0 and (lost or len(trouble) > max(2, n // 50)):
            rc = 3
        elif rc == 0:
            print("%d of %d cases are undecided" % (len(trouble), len(results)))
    if rc == 0 and len(results) < min(n, 20):
        print("too few cases ran (%d)" % len(results))
        rc = 3
    if rc == 0:
        print("held on %d cases (%.0f s)" % (len(results), wall))
    return rc


RULES = dict(
    inv="A case is one generated session: problems, optimizers, a program of public calls, simulated solver answers, faults and clock behaviour drawn from one PRNG keyed by (property, seed, index). Non-trivial: at least two solver runs completed, or one solver run and at least one fault or diagnostic compared; distinct: the event-log digest (every seam event in order) differs.",
    diff="A case is a pair of histories that the property says must be indistinguishable, drawn from one PRNG keyed by (property, seed, index). Non-trivial: the perturbation (switch, nested call, fault, edit, clock change, one-call form) really happened and at least one solver run was compared; distinct: the event-log digest of the pair differs.")


def evidence(pid, seed, tier, results, wall, bad, trouble, n):
    C = collections.Counter
    fired, probes, sites, ops, how = C(), C(), C(), C(), C()
    for r in results:
        fired.update(r["fired"]); probes.update(r["probes"]); sites.update(r["sites"]); ops.update(r["ops"])
        if r.get("how"):
            how[r["how"]] += 1
    nontriv = set()
    for r in results:
        if pid in profiles.DIFF:
            ok = r["answers"] >= 2 and (pid in ("C01", "C16", "C15") or sum(r["fired"].values()) > 0 or r.get("how") in ("history", "merge"))
        else:
            ok = r["answers"] >= 2 or (r["answers"] == 1 and (sum(r["fired"].values()) or sum(r["probes"].values()) > 1))
        if ok:
            nontriv.add(r["digest"])
    execs = sum(r["exec"] for r in results)
    cov = dict(
        evaluations=len(results), distinct_nontrivial=len(nontriv), rule=RULES["diff" if pid in profiles.DIFF else "inv"],
        samples=[brief(r["case"]) for r in results[:3] if r.get("case")],
        simulated_runs=execs, simulated_runs_per_hour=int(execs / max(wall, 1e-9) * 3600), seeds_per_hour=int(len(results) / max(wall, 1e-9) * 3600),
        simulated_seconds=round(sum(r["virtual"] for r in results), 3), clock_readings=sites.get("clk", 0),
        seam_events=dict(sites), simulator_steps=sum(r["steps"] for r in results),
        faults_fired={k: v for k, v in sorted(fired.items()) if k not in ("switch", "nested")}, context_switches=fired.get("switch", 0), nested_calls=fired.get("nested", 0),
        faults_planned_but_not_reached=sum(r["unfired"] for r in results),
        solver_answers=sum(r["answers"] for r in results), probes=dict(sorted(probes.items())), operations=dict(ops), history_shapes=dict(how),
        distinct_event_logs=len({r["digest"] for r in results}), distinct_outcomes=len({r["tdig"] for r in results}), distinct_interleavings=len({r["inter"] for r in results if r["switches"]}),
        run_status=dict(C(s for r in results for s in r["status"])), undecided_cases=len(trouble),
        real_components=["mpopt/mpopt.py (all of it, unmodified)", "casadi symbolic engine", "numpy"],
        stubbed_components=["NLP solver (casadi.nlpsol): simulated, answers drawn from the seed", "clocks (time.*): simulated", "standard output: captured, failing on demand", "figure windows (matplotlib.pyplot figure/subplots/subplot): real, off-screen, failing on demand", "user problem functions: generated polynomials behind a fault point", "caller threads: real threads, one runs at a time, the simulator decides which"])
    ev = dict(property=pid, tier=tier, seed=int(seed) if str(seed).lstrip("-").isdigit() else 0, level="exploration", coverage=cov, wall_s=round(wall, 2), violations=len(bad),
              assumptions=["the simulated solver honours casadi's nlpsol interface (dimensions, keys, option prefixes) but not optimality", "thread switches happen at seams and at source lines of mpopt.py, not inside casadi or numpy calls",
                           "problems are polynomial (with occasional sine) in 1-3 states, controls, parameters and phases; grids of 1-4 segments"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", "%s.json" % pid))


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
