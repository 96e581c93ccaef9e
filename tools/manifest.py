#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
diff = "seeded deterministic simulation; paired histories that must be indistinguishable, compared bit for bit"
inv = "seeded deterministic simulation of whole sessions with injected faults; every event checked against an independent reference model"
TECH = dict(
    C01=diff + " (caller edits objects between and during calls)", C02=diff + " (other optimizers run before, interleaved, nested, or in simulated threads switched at any line)",
    C03=diff + " (a fault at any seam event or source line, with and without the failed call)", C15=diff + " (simulated clocks and muting)", C16=diff + " (one call against the staged calls, with faults)")
NOTE = dict(
    C03="Seeded search: a clean batch is evidence, not proof. Faults are raised at seam events and at source lines of mpopt.py, not inside numpy or casadi calls.",
    C02="Seeded search: a clean batch is evidence, not proof. Threads are switched at seams and at source lines of mpopt.py, not inside numpy or casadi calls.")
DEF = "Seeded search over sessions, simulated solver answers and faults; a clean batch is evidence, not proof. Trusts the reference model (sim/model.py, numpy Lagrange polynomials) and the simulated solver's interface; casadi and numpy run for real."
NA = dict(
    C18="A pure function of scheme and order with no schedule, clock, fault or history in it: input generation only, not a simulation target. (Its consequences are judged at the solver seam by C04, C05, C12 and C13, whose reference model builds its own polynomials.)",
    C19="A pure predicate on a problem definition: no schedule, fault, time or history for it to depend on.",
    C20="A numerical-analysis statement about real solver accuracy in the limit; the simulated solver decides answers, so a simulation says nothing about it.")
m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=[], not_applicable=[],
         notes="No hooks in /repo: the seams (casadi.nlpsol, time.*, sys.stdout, user callbacks, line tracing) are replaced from outside by sim/boot.py and sim/kernel.py. Replay: python3 check.py <ID> --replay <file>.")
for p in P:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append(dict(property=i, reason=NA[i]))
    else:
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s" % i, evidence_file="evidence/%s.json" % i,
                                technique=TECH.get(i, inv), level="exploration", level_note=NOTE.get(i, DEF)))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
