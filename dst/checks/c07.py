"""C07: runners in one process do not influence each other."""

from .. import common, env, gen as G, harness, layout, sched
from ..gen import FEATURES

ID = "C07"
QUICK = 4800
QUICK_SECONDS = 25
THOROUGH = 150000
RULE = ("a scenario is 2-4 runners with different scripts, packages (shared or not), severities, answers, rewinds and "
        "failures, created, loading and executing in threads of which a seeded scheduler lets exactly one proceed, "
        "switching at chosen lines of the interpreter (and function starts of the generated parser), or nested in "
        "each other's callbacks; the callbacks, states and result of each must be those of the same runner alone "
        "in another process; non-trivial: at least one switch between live runners (or nested run); distinct: "
        "different programs, schedule or sequences of (callback, decision)")
FEATS = dict(FEATURES, query=5, badtype=0.2, unset=1.2, missing=0.8, notenonstr=0.8, select=3, selkw=4, exec=1.2)


def gen(rng, tier):
    share = rng.random() < 0.4
    lay = layout.make_layout(rng, 0, 4)
    n = rng.choice([2, 2, 2, 3, 4])
    parts = []
    for _ in range(n):
        pl = lay if share else layout.make_layout(rng, 0, 3)
        prog = common.make_prog(rng, FEATS, pl, size=rng.choice([3, 6, 10]), depth=rng.choice([1, 2]),
                                keep=("unset", "query"), p=0.65)
        ops = rng.choice([(), ("sev",), ("ab", "rw", "sev", "ex", "no")])
        part = {"prog": prog, "decs": common.make_decs(rng, 30, rng.choice([0.1, 0.2]), ops),
                "sev": common.make_sev(rng, 0.6), "lay": pl}
        parts.append(part)
    if rng.random() < 0.06 and n > 1:
        # twins: the same script in two threads
        parts[1] = dict(parts[0])
    scn = {"parts": parts, "minparts": 2, "share": share}
    if rng.random() < 0.3:
        scn["mode"] = "nested"
        scn["seq"] = [rng.randrange(12) for _ in range(n)]
        # the nested run may abort or rewind the runner in whose callback it runs
        scn["cross"] = [[rng.randrange(6), rng.choice(["ab", "rw"]), rng.randrange(12), rng.randrange(2)]
                        if rng.random() < 0.35 else None for _ in range(n)]
        for c, part in zip(scn["cross"], parts):
            if c and rng.random() < 0.4:
                # from its error()
                c[0] = -1
                if rng.random() < 0.7:
                    part["decs"] = list(part["decs"])
                    part["decs"][rng.randrange(3)] = ["ex", rng.choice(env.ORDINARY), "te"]
    else:
        scn["mode"] = "threads"
        sw = []
        k = rng.choice([20, 100, 300] if tier != "thorough" else [20, 150, 600])
        w = rng.choice([5, 40, 300, 1500])
        for _ in range(k):
            m = rng.choice([w, w, 3])
            sw.append([1 + rng.randrange(m), rng.randrange(n)])
        scn["switches"] = sw
    return scn


def solo(part):
    r = env.SimRunner(part["lay"], part["decs"], 60)
    env.apply_sev(r, part["sev"])
    end = env.run_real(r, G.render(part["prog"]))
    return {"log": r.log, "end": end, "fired": r.fired}


def together(scn):
    pk = env.make_packages(scn["parts"][0]["lay"]) if scn["share"] else None

    def task(part, text):
        def t():
            r = env.SimRunner(part["lay"], part["decs"], 60, pkgs=pk)
            env.apply_sev(r, part["sev"])
            end = env.run_real(r, text)
            return {"log": r.log, "end": end, "fired": r.fired}
        return t

    # the second thread may create its runner before the first is set up
    th = sched.Threads([task(p, G.render(p["prog"])) for p in scn["parts"]], scn["switches"])
    res = th.run()
    return {"res": res, "switches": th.taken, "lines": th.events, "stalls": th.stalls, "trace": th.trace}


def nested(scn):
    pk = env.make_packages(scn["parts"][0]["lay"]) if scn["share"] else None
    n = len(scn["parts"])
    res = [None] * n
    taken = [0]
    runners = []
    stack = []
    outer = [None] * n      # flow thrown into runner i by a run nested in one of its callbacks
    cut = [None] * n        # runner i was left by a flow of an enclosing runner after that many callbacks
    cross = scn.get("cross") or []
    for p in scn["parts"]:
        r = env.SimRunner(p["lay"], p["decs"], 60, pkgs=pk)
        env.apply_sev(r, p["sev"])
        runners.append(r)

    def go(i):
        p = scn["parts"][i]
        r = runners[i]
        nxt = i + 1
        at = scn["seq"][i] if i < len(scn["seq"]) else 0
        c = cross[i] if i < len(cross) else None

        def hook(runner, kind, args, index):
            if index == at and nxt < n and res[nxt] is None:
                taken[0] += 1
                go(nxt)
            if c is not None and (index == c[0] or c[0] == -1 and kind == "error") and stack[:-1]:
                up = stack[:-1][-1 - c[3] % len(stack[:-1])]
                o = runners[up]
                for j in stack[stack.index(up) + 1:]:
                    cut[j] = len(runners[j].log)
                outer[up] = [len(o.log) - 1, ["ab"] if c[1] == "ab" else ["rw", c[2]]]
                o.count(("abort" if c[1] == "ab" else "rewind") + " of the enclosing runner")
                if c[1] == "ab":
                    o.abort()
                o.rewind(o.captured[c[2] % len(o.captured)])

        r.hook = hook
        stack.append(i)
        try:
            end = env.run_real(r, G.render(p["prog"]))
        finally:
            stack.pop()
        res[i] = {"log": r.log, "end": end, "fired": r.fired}
        if cut[i] is not None and end[0] == "raised":
            # on its way to an enclosing runner
            res[i]["end"] = ["left"]
            raise r.left

    for i in range(n):
        if res[i] is None:
            go(i)
    return {"res": res, "switches": taken[0], "lines": 0, "stalls": 0, "trace": [], "outer": outer, "cut": cut}


def expected(t, i, part):
    """The run of the part alone, with what the nested runs threw into it."""
    o = t["outer"][i] if "outer" in t else None
    if o is not None:
        decs = list(part["decs"])
        while len(decs) <= o[0]:
            decs.append(["ans", 0])
        decs[o[0]] = o[1]
        part = dict(part, decs=decs)
    return harness.iso(solo, part)


def run(scn):
    t = harness.iso(together if scn["mode"] == "threads" else nested, scn)
    if t.get("hang"):
        return t
    viol = None
    recs = list(t["res"])
    for i, p in enumerate(scn["parts"]):
        s = expected(t, i, p)
        if s.get("hang"):
            return s
        recs.append(s)
        g = t["res"][i]
        if t.get("cut", {}) and t["cut"][i] is not None:
            # left on behalf of an enclosing runner: nothing happens in it any more
            s = dict(s, log=s["log"][:t["cut"][i]], end=["left"])
        viol = common.compare((g["log"], g["end"]), (s["log"], s["end"]), ("runner %d among others" % i, "alone"))
        if viol:
            break
    st = common.stats_of(*recs)
    st["probe:%s scenarios" % scn["mode"]] = 1
    st["fault:preemptions" if scn["mode"] == "threads" else "fault:nested runs"] = t["switches"]
    st["lines"] = t["lines"]
    if t["stalls"]:
        st["probe:lock waits resolved"] = t["stalls"]
    sh = [common.shape(r["log"]) for r in t["res"]]
    return {"viol": viol, "stats": st, "nt": t["switches"] > 0,
            "key": harness.digest([[p["prog"] for p in scn["parts"]], sh, t["trace"]]),
            "dig": harness.digest([sh, t["trace"]]),
            "trace": {"switches": t["trace"][:60],
                      "runs": [[[e[0], e[1], e[3]] for e in r["log"]] + [r["end"]] for r in t["res"]]}}
