"""C04: every execution error reaches error() once, with no partial effects."""

from .. import common, env, gen as G, harness, layout, sched
from ..gen import FEATURES

ID = "C04"
QUICK = 9000
QUICK_SECONDS = 40
THOROUGH = 400000
RULE = ("a scenario is a random program with answers, and one fault: an exception of one of 35 types raised from the "
        "n-th callback, from the n-th listing of a sub-package's files, or a failed allocation / interrupt / exit "
        "raised at the n-th line executed by the interpreter; or failing statements of the script itself; error() "
        "then returns, raises, or is interrupted; the history up to the fault must be that of the fault-free run, "
        "error() must be called exactly once (never for interrupts), with the exception or a Wizard error caused by "
        "it, the reported state must be the one noted when the failing step started, and nothing may follow; "
        "non-trivial: the fault struck; distinct: different program, fault or sequence of (callback, decision)")
FEATS = dict(FEATURES, query=5, badtype=0, badcall=0, unset=0.4, sidefx=2.5, select=3, loopsp=2, selkw=5, note=4, ini=3)
SCRIPT = dict(FEATS, badtype=3, badcall=0.8)
FILE_TYPES = ["OSError", "RuntimeError", "ValueError", "MemoryError", "KeyError", "TimeoutError", "SimError",
              "KeyboardInterrupt", "SystemExit", "SimBase", "TypeError", "IndexError"]


def gen(rng, tier):
    mode = rng.choice(["cb", "cb", "line", "line", "line", "files", "script", "script"])
    lay = layout.make_layout(rng, 1 if mode == "files" else 0, 4)
    feats = SCRIPT if mode == "script" else FEATS
    prog = common.make_prog(rng, feats, lay, size=rng.choice([4, 7, 10, 16]), depth=rng.choice([1, 2, 3]),
                            keep=("selkw", "loopsp") if mode == "files" else ("sidefx",), p=0.65)
    decs = common.make_decs(rng, 40, rng.choice([0, 0, 0.1]), rng.choice([("rw", "ab", "no"), ("rw", "ab", "no", "ex")]))
    if mode == "script" and rng.random() < 0.5:
        # one failure after the other, some the very exception of before, most handled by going back
        decs = common.make_decs(rng, 40, rng.choice([0.2, 0.4, 0.6]), ("rw", "ex", "ex", "ab", "no"))
    if mode == "line":
        what = rng.choice(["MemoryError", "MemoryError", "MemoryError", "KeyboardInterrupt", "SystemExit"])
    elif mode == "files":
        what = rng.choice(FILE_TYPES)
    else:
        what = rng.choice(env.ORDINARY * 2 + env.NOT_ORDINARY)
    after = rng.choice([["ans", 0], ["ans", 0], ["ans", 0],
                        ["ex", rng.choice(env.ORDINARY), "second"], ["bx", rng.choice(env.NOT_ORDINARY), "second"]])
    return {"layout": lay, "prog": prog, "decs": decs, "sev": common.make_sev(rng, 0.3), "mode": mode,
            "what": what, "at": rng.randrange(100000), "after": after, "back": rng.random() < 0.15,
            "style": ["plain"] if mode == "script" and rng.random() < 0.3 else []}


def child(scn, decs, fault, watch, faulty=False):
    """One run; fault = None | ["line", n] | ["files", n]."""
    # a fault may strike at the last callback of the fault-free run
    r = env.SimRunner(scn["layout"], decs, 60 if fault is None and not faulty else 70)
    env.apply_sev(r, scn.get("sev"))
    r.back = "F" if scn.get("back") and scn["after"][0] == "ans" else None
    n = [0, False]

    def listing(runner, name):
        n[0] += 1
        if fault is not None and fault[0] == "files" and n[0] == fault[1]:
            n[1] = True
            raise env.make_exc(scn["what"], "F", n[0])

    r.files_hook = listing
    text = G.render(scn["prog"])
    out = {"lines": 0, "step": None, "hit": False}
    if watch:
        f = None
        if fault is not None and fault[0] == "line":
            f = [fault[1], scn["what"], "F", "exec"]
        with sched.Watch(r, f) as w:
            end = env.run_real(r, text)
        out.update(lines=w.execs, total=w.count, step=w.step_snap, hit=w.fired is not None,
                   where=w.fired[:2] if w.fired else None)
    else:
        end = env.run_real(r, text)
        out["total"] = 0
    out.update(log=r.log, end=end, fired=r.fired, listings=n[0], errors=r.error_info, hit=out["hit"] or n[1],
               same=[c is d for c, d in zip(r.captured[1:], r.captured)])
    return out


def run(scn):
    if scn["mode"] == "script":
        return script(scn)
    b = harness.iso(child, scn, scn["decs"], None, scn["mode"] != "cb")
    if b.get("hang"):
        return b
    none = {"viol": None, "stats": common.stats_of(b), "nt": False, "key": "", "dig": ""}
    # the last event of a capped run has no decision
    done = [e for e in b["log"] if e[3] is not None]
    decs = [e[3] for e in done]
    if scn["mode"] == "cb":
        if not done:
            return none
        i = scn["at"] % len(done)
        kind = "ex" if scn["what"] in env.ORDINARY else "bx"
        decs = decs[:i] + [[kind, scn["what"], "F"], scn["after"]]
        fault = None
        prefix = [list(e) for e in b["log"][:i + 1]]
        prefix[i][3] = decs[i]
    else:
        total = b["lines"] if scn["mode"] == "line" else b["listings"]
        if not total:
            return none
        fault = [scn["mode"], 1 + scn["at"] % total]
        prefix = None
    a = harness.iso(faulted, scn, decs, fault)
    if a.get("hang"):
        return a
    viol = judge(scn, b, a, prefix)
    sh = common.shape(a["log"])
    st = common.stats_of(a, b)
    st["lines"] = a["total"] + b["total"]
    if a["hit"]:
        name = {"line": "fault:%s at an interpreter line" % scn["what"],
                "files": "fault:%s in a file listing" % scn["what"]}.get(scn["mode"])
        if name:
            st[name] = 1
    return {"viol": viol, "stats": st, "nt": bool(a["hit"] or scn["mode"] == "cb"),
            "key": harness.digest([scn["prog"], sh, fault, scn["what"]]), "dig": harness.digest([sh, fault]),
            "trace": {"run": [[e[0], e[1], e[3]] for e in a["log"]], "end": a["end"], "where": a.get("where"),
                      "fault": fault, "errors": a["errors"]}}



def faulted(scn, decs, fault):
    if fault is None:
        return child(scn, decs, None, True, True)
    # what the fault interrupts is not known beforehand: the error callback with the
    # token of the fault gets the decision `after`
    orig = env.SimRunner.cb

    def cb(self, kind, args, exc=None):
        if kind == "error" and args == ["env", "F"]:
            self.script.decisions = self.script.decisions[:self.script.pos] + [scn["after"]]
        return orig(self, kind, args, exc)

    env.SimRunner.cb = cb
    try:
        return child(scn, decs, fault, True)
    finally:
        env.SimRunner.cb = orig


def judge(scn, b, a, prefix):
    ordinary = scn["what"] in env.ORDINARY
    log = a["log"]
    if prefix is None:
        if not a["hit"]:
            return {"class": "not repeatable", "detail": "the run with the fault has another length"}
        n = len(log) - (1 if ordinary and log and log[-1][0] == "error" else 0)
        prefix = b["log"][:n]
    else:
        n = len(prefix)
    v = common.compare((log[:n], ""), (prefix, ""), ("faulted run", "fault-free run"))
    if v:
        return v
    rest = log[n:]
    if not ordinary or (scn["mode"] == "cb" and prefix[-1][0] == "error"):
        if rest:
            return {"class": "callback after the exception", "detail": "%s was followed by the callback %s" % (
                scn["what"], rest[0][0])}
        if a["end"] != ["raised", "F", scn["what"]]:
            return {"class": "exception did not reach the caller", "detail": "%s: the run ended %s" % (
                scn["what"], common.short(a["end"]))}
        return None
    if not rest or rest[0][0] != "error":
        return {"class": "error() not called", "detail": "%s at %s: %s, ended %s" % (
            scn["what"], a.get("where"), "next callback " + rest[0][0] if rest else "no callback", common.short(a["end"]))}
    if len(rest) > 1:
        return {"class": "callback after error()", "detail": "error() returned, then %s was called" % rest[1][0]}
    tname, known, itself, cause = a["errors"][-1]
    if itself != "F" and not (known and cause == "F"):
        return {"class": "error() got another exception", "detail": "%s was raised, error() got %s (cause %r)" % (
            scn["what"], tname, cause)}
    # the state from before the failing step
    if rest[0][2] != a["step"]:
        k, x, y = common.diff_state(rest[0][2], a["step"])
        return {"class": "partial effects", "detail": "in error(), %s is %r; when the step started it was %r" % (k, x, y)}
    if n and scn["mode"] == "cb" and rest[0][2] != prefix[-1][2]:
        k, x, y = common.diff_state(rest[0][2], prefix[-1][2])
        return {"class": "partial effects", "detail": "in error(), %s is %r; in the failing callback it was %r" % (k, x, y)}
    after = scn["after"]
    if after[0] == "ans" and scn.get("back"):
        if a["end"] != ["raised", itself, tname]:
            return {"class": "exception of error() lost", "detail": "error() raised what it was given (%s), the run ended %s"
                    % (tname, common.short(a["end"]))}
    elif after[0] == "ans":
        want = ["end", "ERROR", a["step"]]
        if a["end"] != want:
            if a["end"][:2] == want[:2]:
                k, x, y = common.diff_state(a["end"][2], want[2])
                return {"class": "partial effects", "detail": "with ERROR, %s is %r; when the step started it was %r"
                        % (k, x, y)}
            return {"class": "status", "detail": "error() returned, the run ended %s" % common.short(a["end"])}
    elif a["end"] != ["raised", "second", after[1]]:
        return {"class": "exception of error() lost", "detail": "error() raised %s, the run ended %s" % (
            after[1], common.short(a["end"]))}
    return None


def script(scn):
    """Failing statements: the reference interpreter knows when and with which state."""
    res = common.lockstep(scn)
    if res.get("hang"):
        return res
    errs = [e for e in res["trace"]["real"] if e[0] == "error"] if "trace" in res else []
    res["nt"] = bool(errs)
    if errs:
        res["stats"]["fault:failing statement"] = len(errs)
    return res
