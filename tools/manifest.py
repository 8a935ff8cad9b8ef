"""Writes MANIFEST.json from the checks present."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "deterministic simulation: seeded rewind injection, differential against the straight run of the surviving answers",
 "C02": "deterministic simulation: seeded exec/select interleavings over a tree of held contexts, snapshot and isolated-replay oracles",
 "C03": "deterministic simulation: abort injected at every callback instant, differential against the fault-free run",
 "C04": "deterministic simulation: exceptions injected in callbacks, file listings and at interpreter lines, step-start snapshots as oracle",
 "C05": "deterministic simulation: chains of rewind/abort/raise injected in all callback kinds, lockstep with a reference interpreter",
 "C06": "deterministic simulation: histories of runs with injected endings and interrupts on one runner, differential against new runners",
 "C07": "deterministic simulation: seeded thread scheduler at interpreter lines and nested runs, differential against solo runs",
 "C14": "deterministic simulation: virtual disk and streams with short reads and I/O errors, differential against the string source",
 "C16": "deterministic simulation: seeded slicing of exec/exec_until/select, differential against run()",
 "C17": "deterministic simulation: storage corruption of scripts under step budgets; malformed statements with reference interpreter",
 "C20": "deterministic simulation: seeded failures, rewinds and aborts, places of the errors against the reference interpreter's statement",
 "C21": "deterministic simulation: long sessions with seeded rewinds, aborts and failures, replayed against the undisturbed session; stack, live objects and progress measured",
 "C22": "deterministic simulation: seeded chains of scripts on given and captured states with own state classes, visitors and failing copies, lockstep with a reference interpreter started from that state",
 "C18": "deterministic simulation: same seeds under other process histories and hash seeds, digests of histories compared",
}
L = "deterministic simulation: seeded answers, rewinds, aborts and failures, lockstep with an independent reference interpreter"
checks = []
for p in sorted(glob.glob(os.path.join(V, "dst/checks/c[0-9]*.py"))):
    pid = os.path.basename(p)[:-3].upper()
    checks.append({
        "property": pid, "quick_cmd": "./run.sh check %s quick" % pid,
        "thorough_cmd": "./run.sh check %s thorough" % pid,
        "technique": T.get(pid, L), "level": "exploration",
        "level_note": "seeded search over scripts, answers, faults and schedules with the whole interpreter running "
                      "for real in the simulated environment; no claim of exhaustiveness"})
doc = {"version": 1, "setup_cmd": "./run.sh selftest 2", "checks": checks,
       "hooks": {"guard": "none: no hook in /repo is needed (callbacks, SubPackage.files, file objects and "
                          "sys.monitoring are the seams)", "enable": "", "source_commits": []},
       "not_applicable": [{"property": "C19", "reason": "an operator or literal is a pure function of its operands: "
                           "there is no schedule, clock, I/O, fault or history for it to depend on, so a "
                           "simulated execution decides nothing a plain input test would not"}]}
have = {c["property"] for c in checks} | {"C19"}
for ln in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(ln)["id"]
    if i not in have:
        doc["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
