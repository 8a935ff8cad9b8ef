"""C01: rewind resumes exactly at the target context."""

from .. import common, env, gen as G, harness, layout
from ..gen import FEATURES

ID = "C01"
QUICK = 10000
QUICK_SECONDS = 40
THOROUGH = 400000
RULE = ("a scenario is a random program over the whole language, answers, and rewinds made from inside random "
        "callbacks (dialogs, queries, warnings, errors, cancel, complete) to random earlier contexts of the run, "
        "contexts of abandoned branches and of later positions included, some with failures, aborts and declined "
        "cancels in between; the surviving answers are then given to a "
        "new runner in another process without any rewind, and surviving callbacks, arguments, states and ending "
        "must be identical; non-trivial: at least one rewind and more than two surviving callbacks; distinct: "
        "different program or different sequence of (callback, decision)")
FEATS = dict(FEATURES, query=6, badtype=0.12, unset=0.2, badcall=0.05, select=3)


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 4)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([6, 10, 16, 24]), depth=rng.choice([2, 3]),
                            keep=("query", "select"), p=0.65)
    n = rng.choice([15, 30, 60])
    p = rng.choice([0.08, 0.2, 0.4])
    ops = ("rw",) * 4 + rng.choice([(), (), ("ex",), ("ab",), ("ab", "no"), ("ex", "ab", "no")])
    decs = common.make_decs(rng, n, p, ops)
    if rng.random() < 0.5:
        decs += [["ans", rng.randrange(1000)] for _ in range(20)]
    return {"layout": lay, "prog": prog, "decs": decs, "sev": common.make_sev(rng, 0.2)}


def chaos(scn):
    """The run with rewinds; returns its record and the surviving path."""
    r = env.SimRunner(scn["layout"], scn["decs"], 150)
    env.apply_sev(r, scn.get("sev"))
    end = env.run_real(r, G.render(scn["prog"]))
    log = r.log
    path = []           # indices of surviving events
    prefix = []         # surviving path at the start of the step of event i
    last = None
    start = 0
    i = 0
    while i < len(log):
        ctx = r.captured[i]
        if ctx is not last:
            last, start = ctx, len(path)
        prefix.append(path[:start])
        d = log[i][3]
        if d is not None and d[0] == "rw":
            k = d[1] % (i + 1)
            path = list(prefix[k])
            last, start = r.captured[k], len(path)
        else:
            path.append(i)
        i += 1
    stale = None
    for i, ctx in enumerate(r.captured):
        if env.snap_state(ctx.state) != log[i][2]:
            stale = i
            break
    return {"log": log, "end": end, "fired": r.fired, "path": path, "stale": stale}


def straight(scn, decs, cap):
    r = env.SimRunner(scn["layout"], decs, cap)
    env.apply_sev(r, scn.get("sev"))
    end = env.run_real(r, G.render(scn["prog"]))
    return {"log": r.log, "end": end, "fired": r.fired}


def run(scn):
    a = harness.iso(chaos, scn)
    if a.get("hang"):
        return a
    want = [a["log"][i] for i in a["path"]]
    cut = a["end"][0] == "stop"
    decs = [e[3] for e in want]
    decs = [["ans", 0] if d is None else d for d in decs]
    b = harness.iso(straight, scn, decs, len(decs) + 2)
    if b.get("hang"):
        return b
    got = b["log"]
    if cut:
        # the capped run: its last event was not decided
        got, want, ends = got[:len(want)], want, ("", "")
    else:
        ends = (a["end"], b["end"])
    viol = common.compare((want, ends[0]), (got, ends[1]), ("after rewinds", "straight run"))
    nrw = sum(1 for e in a["log"] if e[3] and e[3][0] == "rw")
    sh = common.shape(a["log"])
    st = common.stats_of(a, b)
    st["probe:rewinds"] = nrw
    return {"viol": viol, "stats": st, "nt": nrw > 0 and len(want) > 2,
            "key": harness.digest([scn["prog"], sh]), "dig": harness.digest(sh),
            "trace": {"rewound": [[e[0], e[1], e[3]] for e in a["log"]], "end": a["end"], "path": a["path"],
                      "straight": [[e[0], e[1], e[3]] for e in got], "straight end": b["end"]}}
