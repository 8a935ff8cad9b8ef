"""C16: driving contexts by hand gives the same dialog and result as run()."""

import zlib

from .. import common, decide, env, gen as G, harness, layout
from ..gen import FEATURES

ID = "C16"
QUICK = 12000
QUICK_SECONDS = 25
THOROUGH = 500000
RULE = ("a scenario is a random program, severities and a user whose answer depends on the question only; it is "
        "executed by run(), by hand one exec() at a time, and by hand in slices of exec() and exec_until() with "
        "random target types (manager queries failing in some), through the runner's own contexts and through make_runner_context_factory, dialogs "
        "being answered by select(), re-selected, executed more than once, or executed without selecting where the user takes the defaults; "
        "callbacks, arguments, states and ending must agree, and each exec_until() must stop at the first context "
        "of a requested type of the one-step execution; non-trivial: a dialog or requirement check or at least three "
        "slices; distinct: different program, answers or slicing")
FEATS = dict(FEATURES, query=4, badtype=0.3, unset=0.6, select=5, require=3, multidef=0.8, badcall=0.1, exec=1.2)

KINDS = ["WizardSelectOneContext", "WizardSelectManyContext", "WizardSelectContext", "WizardRequireVersionsContext",
         "WizardKeywordContext", "WizardIfContext", "WizardForLoopContext", "WizardWhileLoopContext",
         "WizardBodyContext", "WizardCaseContext", "WizardSelectCasesContext", "WizardNoteContext",
         "WizardBreakContext", "WizardContinueContext", "WizardCancelContext", "WizardReturnContext",
         "WizardTopLevelContext", "WizardTerminationContext", "WizardAssignmentContext", "WizardSelectAllContext"]
DIALOGS = ["WizardSelectOneContext", "WizardSelectManyContext"]
RV = "WizardRequireVersionsContext"
STEPS = 4000
FAILING = ["compareGameVersion", "compareSEVersion", "compareGEVersion", "compareWBVersion", "dataFileExists",
           "getPluginLoadOrder", "getPluginStatus", "getFilename", "getFolder", "warning"]


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 4)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([5, 9, 14, 20]), depth=rng.choice([1, 2, 3]),
                            keep=("select", "query"), p=0.7)
    seq = []
    for _ in range(rng.choice([2, 5, 20])):
        if rng.random() < 0.35:
            seq.append(["exec", rng.choice([1, 1, 2, 7, 30])])
        else:
            seq.append(["until", rng.sample(KINDS, rng.choice([0, 1, 1, 2, 3]))])
    return {"layout": lay, "prog": prog, "sev": common.make_sev(rng, 0.4), "salt": rng.randrange(1 << 30),
            "mode": rng.choice(["answers", "answers", "mixed", "mixed", "defaults"]),
            "factory": rng.random() < 0.5, "pex": rng.choice([0, 0, 0, 7, 30]), "seqslices": seq}


class Answers:
    """The answer to a question depends on the question and how often it was asked."""

    def __init__(self, salt, mode, pex):
        self.salt = salt
        self.mode = mode
        self.pex = pex
        self.seen = {}

    def next(self, kind, args):
        q = repr((kind, args))
        n = self.seen[q] = self.seen.get(q, 0) + 1
        h = zlib.crc32(("%d %d %s" % (self.salt, n, q)).encode("utf-8", "backslashreplace"))
        if kind in decide.CONFIRM:
            return ["ans", 1]
        if kind in ("selectOne", "selectMany") and (self.mode == "defaults" or (self.mode == "mixed" and h % 3 == 0)):
            return ["ans", len(args[1]) if kind == "selectOne" else 7]
        if self.pex and h % self.pex == 1 and kind in FAILING:
            return ["ex", env.ORDINARY[(h >> 8) % len(env.ORDINARY)], "F"]
        return ["ans", (h >> 2) % 1000]


class Hand(env.SimRunner):
    """A runner whose contexts are driven from outside."""

    at = None
    mute = False

    def context(self):
        return self.at

    def cb(self, kind, args, exc=None):
        if self.mute:
            return 1 if kind in decide.CONFIRM else decide.default_n(kind, args)
        return super().cb(kind, args, exc)

    def rehearse(self, ctx):
        """Execute a context whose successor is dropped."""
        self.mute = True
        try:
            ctx.exec()
        except Exception:  # noqa: BLE001
            pass
        finally:
            self.mute = False


def by_run(scn):
    r = env.SimRunner(scn["layout"], (), 100)
    r.script = Answers(scn["salt"], scn["mode"], scn.get("pex", 0))
    env.apply_sev(r, scn["sev"])
    end = env.run_real(r, G.render(scn["prog"]))
    return {"log": r.log, "end": end, "fired": r.fired}


def classes(scn):
    import wizard.contexts as wc
    return wc


def setup(scn, factory):
    r = Hand(scn["layout"], (), 100)
    r.style = [h for n, h in enumerate(("copies", "tuple", "reuse")) if scn["salt"] >> (3 + n) & 1]
    r.script = Answers(scn["salt"], scn["mode"], scn.get("pex", 0))
    env.apply_sev(r, scn["sev"])
    text = G.render(scn["prog"])
    if factory:
        from wizard.interpreter import WizardInterpreter
        from wizard.runner import WizardRunnerState
        from wizard.utils import make_runner_context_factory
        f = make_runner_context_factory(env.make_packages(scn["layout"]), r, r)
        it = WizardInterpreter(f)
        top = it.make_top_level_context(text, WizardRunnerState())
    else:
        it = r
        top = r.make_top_level_context(text)
    r.at = top
    return r, it, top


def dialog(r, ctx, wc, twice):
    """Answer a dialog; the context to execute."""
    r.at = ctx
    if twice:
        r.rehearse(ctx)
    if isinstance(ctx, wc.WizardSelectOneContext):
        opts = list(ctx.options)
        n = r.cb("selectOne", [ctx.description, [env.orepr(o) for o in opts], env.orepr(ctx.default)])
        i = decide.pick_one(n, len(opts))
        if i == -1:
            return ctx
        if twice:
            r.rehearse(ctx.select(opts[(i + 1) % len(opts)]))
        return ctx.select(env.SelectOption("unlisted", "x") if i == -2 else r.one(opts[i]))
    opts = list(ctx.options)
    n = r.cb("selectMany", [ctx.description, [env.orepr(o) for o in opts], [env.orepr(o) for o in ctx.defaults]])
    ids = decide.pick_many(n, len(opts))
    if ids == [-1]:
        return ctx
    if twice:
        r.rehearse(ctx.select(opts))
    return ctx.select(r.many([env.SelectOption("unlisted", "x") if i == -2 else opts[i] for i in ids]))


def arrive(scn, r, ctx, wc, factory, twice=False):
    """What the user is asked when a context is reached; the context to execute."""
    if scn["mode"] != "defaults" and isinstance(ctx, (wc.WizardSelectOneContext, wc.WizardSelectManyContext)):
        return dialog(r, ctx, wc, twice)
    if factory and isinstance(ctx, wc.WizardRequireVersionsContext):
        r.at = ctx
        r.cb("requiresVersions", [ctx.game_version, ctx.script_extender_version, ctx.graphics_extender_version,
                                  ctx.wrye_bash_version])
    return ctx


def ending(ctx):
    snap = env.snap_state(ctx.state)
    kinds = [k for k, v in (("CANCEL", ctx.is_cancel()), ("RETURN", ctx.is_return()),
                            ("COMPLETE", ctx.is_complete())) if v]
    return ["end", "/".join(kinds), snap, env.message(ctx)]


def failed(r, e, ctx):
    import wizard.errors as we
    r.in_env += 1
    try:
        return ["error", env.caused(e) or (["script", isinstance(e, we.WizardError)]),
                None if ctx is None else env.snap_state(ctx.state)]
    finally:
        r.in_env -= 1


def stepwise(scn, factory):
    """One exec() at a time."""
    wc = classes(scn)
    r, _it, ctx = setup(scn, factory)
    steps = []
    try:
        while True:
            steps.append([[c.__name__ for c in type(ctx).__mro__], len(r.log), env.snap_state(ctx.state)])
            if isinstance(ctx, wc.WizardTerminationContext):
                end = ending(ctx)
                break
            if len(steps) > STEPS:
                end = ["stop"]
                break
            ctx = arrive(scn, r, ctx, wc, factory)
            r.at = ctx
            ctx = ctx.exec()
    except env.SimStop:
        end = ["stop"]
    except Exception as e:  # noqa: BLE001
        end = failed(r, e, ctx)
    return {"log": r.log, "end": end, "fired": r.fired, "steps": steps}


def sliced(scn, factory):
    """Slices of exec() and exec_until()."""
    wc = classes(scn)
    r, it, ctx = setup(scn, factory)
    stops = []
    twice = bool(scn["salt"] & 1)
    known = ctx
    must = ([] if scn["mode"] == "defaults" else DIALOGS) + ([RV] if factory else [])
    must_t = tuple(getattr(wc, n) for n in must)
    slices = [list(s) for s in scn["seqslices"]] or [["until", []]]
    k = 0
    try:
        while True:
            op, arg = slices[k % len(slices)]
            k += 1
            if k > STEPS:
                end = ["stop"]
                break
            if isinstance(ctx, wc.WizardTerminationContext):
                end = ending(ctx)
                break
            if op == "exec":
                done = 0
                for _ in range(arg):
                    if isinstance(ctx, wc.WizardTerminationContext):
                        break
                    known = ctx = arrive(scn, r, ctx, wc, factory, twice)
                    r.at = ctx
                    if twice and (k + done) % 3 == 0:
                        r.rehearse(ctx)
                    ctx = ctx.exec()
                    done += 1
                stops.append(["exec", done, [type(ctx).__name__, len(r.log), env.snap_state(ctx.state)]])
            else:
                targets = list(dict.fromkeys(list(arg) + must))
                tt = [getattr(wc, n) for n in targets]
                # a dialog that is reached must be answered before going on
                known = None
                r.at = ctx
                new = it.exec_until(ctx, tt if k % 2 else tuple(tt))
                stops.append(["until", targets, [type(new).__name__, len(r.log), env.snap_state(new.state)]])
                ctx = new
                if isinstance(ctx, wc.WizardTerminationContext):
                    continue
                if isinstance(ctx, must_t) or isinstance(ctx, tuple(tt)):
                    # go past it
                    known = ctx = arrive(scn, r, ctx, wc, factory, twice)
                    r.at = ctx
                    if twice:
                        r.rehearse(ctx)
                    ctx = ctx.exec()
                    stops.append(["exec", 1, [type(ctx).__name__, len(r.log), env.snap_state(ctx.state)]])
    except env.SimStop:
        end = ["stop"]
    except Exception as e:  # noqa: BLE001
        end = failed(r, e, known)
    return {"log": r.log, "end": end, "fired": r.fired, "stops": stops}


def both(scn):
    return {"run": by_run(scn), "step": stepwise(scn, scn["factory"]), "slice": sliced(scn, not scn["factory"]),
            "slice2": sliced(scn, scn["factory"])}


def expected(scn, rec):
    """The history of run() as seen by a driver: (log, end)."""
    log = [list(e) for e in rec["log"]]
    end = rec["end"]
    if end[0] == "end":
        if end[1] == "ERROR":
            e = log.pop()
            a = e[1]
            end = ["error", a[1] if a[0] == "env" else ["script", a[1]], end[2]]
        elif log and log[-1][0] in ("cancel", "complete"):
            end = end + [log.pop()[1]]
    if scn["mode"] == "defaults":
        log = [e for e in log if e[0] not in ("selectOne", "selectMany")]
    return log, end


def strip_states(log):
    return [[e[0], e[1], None] for e in log]


def judge(scn, out):
    run = out["run"]
    wlog, wend = expected(scn, run)
    if wend == ["stop"] or any(out[k]["end"] == ["stop"] for k in ("step", "slice", "slice2")):
        return None     # an endless script was cut somewhere
    s = out["step"]
    v = common.compare((s["log"], s["end"]), (wlog, wend), ("by hand", "run()"))
    if v:
        v["class"] = "exec(): " + v["class"]
        return v
    for name in ("slice", "slice2"):
        t = out[name]
        tend = list(t["end"])
        if tend[0] == "error" and tend[2] is None:
            tend[2] = wend[2] if len(wend) > 2 else None
        v = common.compare((strip_states(t["log"]), tend), (strip_states(wlog), wend), ("by exec_until", "run()"))
        if v:
            v["class"] = "exec_until(): " + v["class"]
            return v
        v = stops(s["steps"], t["stops"])
        if v:
            return v
    return None


def stops(steps, got):
    pos = 0
    for op, arg, where in got:
        if op == "exec":
            pos += arg
            if pos >= len(steps):
                return {"class": "exec(): steps differ", "detail": "%d steps, expected %d" % (pos, len(steps))}
        else:
            start = pos
            while not any(k in arg for k in steps[pos][0]) and "WizardTerminationContext" not in steps[pos][0]:
                pos += 1
                if pos >= len(steps):
                    return {"class": "exec_until() missed", "detail": "no target of %r after step %d" % (arg, start)}
        want = [steps[pos][0][0], steps[pos][1], steps[pos][2]]
        if where[0] != want[0]:
            return {"class": "%s() stopped elsewhere" % ("exec" if op == "exec" else "exec_until"),
                    "detail": "at a %s, expected a %s (targets %r, step %d)" % (where[0], want[0], arg, pos)}
        if where[2] != want[2]:
            k, x, y = common.diff_state(where[2], want[2])
            return {"class": "state at a stop", "detail": "%s: %r, expected %r (step %d)" % (k, x, y, pos)}
    return None


def run(scn):
    a = harness.iso(both, scn)
    if a.get("hang"):
        return a
    viol = judge(scn, a)
    recs = [a["run"], a["step"], a["slice"], a["slice2"]]
    st = common.stats_of(*[dict(r, end=r["end"] if r["end"][0] != "error" else ["error by hand"]) for r in recs])
    st["events"] = st.get("events", 0) + len(a["step"]["steps"])
    n = sum(1 for x in a["slice"]["stops"] + a["slice2"]["stops"] if x[0] == "until")
    st["probe:exec_until calls"] = n
    st["probe:mode " + scn["mode"]] = 1
    sh = common.shape(a["run"]["log"])
    return {"viol": viol, "stats": st,
            "nt": n >= 3 or any(e[0] in ("selectOne", "selectMany", "requiresVersions") for e in a["run"]["log"]),
            "key": harness.digest([scn["prog"], sh, scn["seqslices"], scn["mode"], scn["factory"]]),
            "dig": harness.digest([sh, [x[:2] + x[2][:2] for x in a["slice"]["stops"]]]),
            "trace": {k: [[e[0], e[1], e[3]] for e in a[k]["log"]] + [a[k]["end"]] for k in ("run", "step", "slice")}}
