"""Hermetic execution of plans: every execution runs in its own forked child."""
import json, os, pickle, select, signal, sys, time, traceback
from . import boot, kernel


def execute(plan):
    """Run one plan in this process; returns a JSON-able result. Call in a forked child only."""
    from . import session as S
    boot.load()
    ses = S.Session(plan)
    sim = kernel.Sim(plan)
    old = sys.stdout
    res = dict(status="ok")
    sys.stdout = kernel.SimOut(old)
    try:
        sim.run(ses, plan["actors"])
        ses.audit()
    except kernel.StepBudget as e:
        res["status"] = "budget"
    except S.Unmodelled as e:
        res["status"] = "unmodelled"
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not str(e).startswith("interrupt ["):
            raise
        if ses.violations:
            res["status"] = "stopped"
        else:
            res["status"] = "harness"
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    finally:
        sys.settrace(None)
        sys.stdout = old
    fired = {}
    for f, x in sim.fired:
        key = f["kind"] if f["kind"] in ("switch", "nested") else "%s@%s" % (f["kind"], f["site"])
        fired[key] = fired.get(key, 0) + 1
    if plan.get("clock", {}).get("mode") in ("jump", "back", "frozen"):
        fired["clock-" + plan["clock"]["mode"]] = sim.sitecount.get("clk", 0)
    res.update(digest=sim.h.hexdigest()[:24], steps=sim.steps, sites=sim.sitecount, fired=fired, switches=sim.nswitch, virtual=sim.virtual,
               violations=ses.violations, transcript=ses.transcript, order=ses.order, profile=sim.profile, probes=ses.probes,
               answers=ses.answers, unfired=len(sim.faults), interleave=sim.interleave.hexdigest()[:16])
    return res


def child(plan, timeout=120.0):
    """Fork, execute, collect. A child that neither finishes nor fails in time is 'timeout'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            res = execute(plan)
            data = pickle.dumps(res)
        except BaseException as e:
            data = pickle.dumps(dict(status="harness", error="".join(traceback.format_exception(e))[-3000:], violations=[], transcript={}, fired={}, sites={}, probes={}, profile={}, order=[], steps=0, digest="", answers=0, switches=0, virtual=0, interleave="", unfired=0))
        try:
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    t0 = _mono()
    dead = False
    while True:
        left = timeout - (_mono() - t0)
        if left <= 0:
            dead = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 5.0))
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
    os.close(r)
    if dead:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if dead or not buf:
        return dict(status="timeout" if dead else "died", error="child %s" % ("timed out" if dead else "died"), violations=[], transcript={}, fired={}, sites={}, probes={}, profile={}, order=[], steps=0, digest="", answers=0, switches=0, virtual=0, interleave="", unfired=0)
    return pickle.loads(b"".join(buf))


def _mono():
    return boot._real["monotonic"]() if "monotonic" in boot._real else time.monotonic()
