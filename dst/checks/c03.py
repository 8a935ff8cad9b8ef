"""C03: abort from any callback acts as a Cancel of the script."""

from .. import common, env, gen as G, harness, layout
from ..gen import FEATURES

ID = "C03"
QUICK = 7200
QUICK_SECONDS = 25
THOROUGH = 300000
RULE = ("a scenario is a random program, answers (rewinds, failures and declined cancels among them) and, for a chain "
        "of 1-4 callbacks of that run (in thorough runs 1-8), an abort made from inside the callback, the cancel() "
        "that follows declining, agreeing, rewinding or aborting; the fault-free run gives the expected history: prefix, one cancel() "
        "with the state from before the step, then nothing, or the step (that of the target of the "
        "rewind) again from its beginning and the rest of the run; non-trivial: at least one abort taken; distinct: different program, aborted callbacks or sequence "
        "of (callback, decision)")
FEATS = dict(FEATURES, query=7, badtype=0.12, unset=0.4, badcall=0.05, select=3, require=2, sidefx=2)


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 3)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([5, 8, 12, 18]), depth=rng.choice([1, 2, 3]),
                            keep=("query",), p=0.7)
    p = rng.choice([0, 0, 0.08, 0.15])
    decs = common.make_decs(rng, 40, p, ("rw", "ex", "no"))
    n = rng.choice([1, 1, 2, 3, 4] if tier != "thorough" else [1, 2, 3, 5, 8])
    # aborted callbacks (modulo the length of the fault-free run); cancel() declines, agrees, rewinds,
    # or aborts (and declines then)
    ops = [[rng.randrange(60), rng.choice([0, 0, 0, 0, 1, 1, 2, 3]), rng.randrange(500)] for _ in range(n)]
    return {"layout": lay, "prog": prog, "decs": decs, "ops": ops, "sev": common.make_sev(rng, 0.3)}


def base(scn, decs):
    r = env.SimRunner(scn["layout"], decs, 60)
    env.apply_sev(r, scn.get("sev"))
    end = env.run_real(r, G.render(scn["prog"]))
    # first event of the step of event i
    first = []
    for i, c in enumerate(r.captured):
        first.append(first[i - 1] if i and c is r.captured[i - 1] else i)
    return {"log": r.log, "end": end, "first": first, "fired": r.fired}


def plan(log, first, end, ops):
    """Insert aborts into a fault-free history: (decisions, expected log, ending)."""
    log = [list(e) for e in log]
    first = list(first)
    n = len(log)
    # rewind targets as absolute indices
    for i, e in enumerate(log):
        if e[3][0] == "rw":
            e[3] = ["rw", e[3][1] % (i + 1)]
    done = 0
    at = -1
    for where, agree, ans in ops:
        # after the previous abort, so that chains make sense
        if at + 1 >= len(log):
            break
        i = at + 1 + where % (len(log) - at - 1)
        s = first[i]
        done += 1
        # the message, where the step is that of a Cancel
        msg = [e[1] for e in log[s:i + 1] if e[0] == "cancel"] or [[]]
        cancel = ["cancel", max(msg), log[i][2], ["ans", ans * 2 + (agree == 1)]]
        head = log[:i] + [[log[i][0], log[i][1], log[i][2], ["ab"]]]
        hfirst = first[:i + 1] + [s]
        if agree == 3:
            head.append([*cancel[:3], ["ab"]])
            hfirst.append(s)
        head.append(cancel)
        if agree == 1:
            return [e[3] for e in head], head, ["end", "CANCEL", log[i][2]], done
        if agree == 2:
            # everything from the step of event k on again
            cancel[3] = ["rw", ans % (i + 1)]
            s = first[ans % (i + 1)]
        shift = len(head) - s

        def moved(e):
            if e[3][0] == "rw":
                k = e[3][1]
                return [e[0], e[1], e[2], ["rw", k + shift if k >= s else k]]
            return e

        # the rewinds of events before the abort keep their targets (all are earlier)
        log = head + [moved(e) for e in log[s:]]
        first = hfirst + [f + shift for f in first[s:]]
        at = len(head) - 1
    return [e[3] for e in log], log, end, done


def child(scn, decs, cap):
    r = env.SimRunner(scn["layout"], decs, cap)
    env.apply_sev(r, scn.get("sev"))
    end = env.run_real(r, G.render(scn["prog"]))
    return {"log": r.log, "end": end, "fired": r.fired}


def run(scn):
    b = harness.iso(base, scn, scn["decs"])
    if b.get("hang"):
        return b
    if b["end"][0] == "stop" or not b["log"]:
        return {"viol": None, "stats": common.stats_of(b), "nt": False, "key": "", "dig": ""}
    decs, want, wend, done = plan(b["log"], b["first"], b["end"], scn["ops"])
    a = harness.iso(child, scn, decs, len(want) + 3)
    if a.get("hang"):
        return a
    viol = common.compare((a["log"], a["end"]), (want, wend), ("with aborts", "expected"))
    sh = common.shape(a["log"])
    st = common.stats_of(a, b)
    st["probe:aborts"] = done
    return {"viol": viol, "stats": st, "nt": done > 0,
            "key": harness.digest([scn["prog"], sh]), "dig": harness.digest(sh),
            "trace": {"run": [[e[0], e[1], e[3]] for e in a["log"]], "end": a["end"],
                      "expected": [[e[0], e[1], e[3]] for e in want], "expected end": wend}}
