"""C21: long sessions behave like short ones and cost no more per step."""

import gc
import json
import sys

from .. import common, decide, env, gen as G, harness, layout
from ..gen import FEATURES

ID = "C21"
QUICK = 1400
QUICK_SECONDS = 25
THOROUGH = 60000
RULE = ("a scenario is a script that repeats a random body (branches, loops, dialogs, queries, Exec, Cancel and Return "
        "that are declined) many times, and a session of it of several hundred to some thousand callbacks, in the "
        "first part of which the user rewinds to one of the last contexts or to an old one, aborts and declines, and "
        "callbacks fail and are rewound from error(), and in the second part only answers; or many runs with all kinds "
        "of endings on one runner; or a few such runs and then one of a trivial script, after which no context, state, script, "
        "error or rewind of the earlier ones may be alive. Every callback must be the one the undisturbed session makes at that point, with "
        "the same state, and the session must end within the callbacks that the script still prescribes when the "
        "disturbances stop (progress); the depth of the stack at a callback and the number of contexts, states, "
        "values, parsed scripts and exceptions alive must not grow with the steps made; non-trivial: more than 200 "
        "callbacks (3 before a trivial script); distinct: different script or session")
FEATS = dict(FEATURES, badtype=0, badcall=0, unset=0.2, ini=0, note=0, query=4, select=4, exec=0.5, cancel=0.8,
             **{"return": 0.8, "for": 1.5, "while": 0.8})
SLACK_STACK = 12
SLACK_LIVE = 70
# the interpreter of Python itself makes and drops some hundred blocks
SLACK_BLOCKS = 900
ORDINARY = ["ValueError", "TypeError", "OSError", "MemoryError", "WizardTypeError", "RuntimeError", "SimError"]


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 3)
    f = dict(FEATS)
    if rng.random() < 0.4:
        f["exec"] = 0
    body = common.make_prog(rng, f, lay, size=rng.choice([3, 5, 8]), depth=rng.choice([0, 1, 2]), p=0.7, keep=("query",))
    body = [["expr", ["call", "DataFileExists", [["str", "top"]]]]] + body
    big = tier == "thorough"
    n = rng.choice([40, 80, 150] if not big else [80, 200, 400])
    style = rng.random()
    if style < 0.4:
        prog = [["set", "n", ["int", 0]],
                ["while", ["bin", "<", ["var", "n"], ["int", n]], [["expr", ["inc", "n", "post", 1]]] + body]]
    elif style < 0.75:
        prog = [["for", "n", ["range", ["int", 1], ["int", n], None], body]]
    elif style < 0.83:
        # a long row of statements
        one = [["expr", ["call", "DataFileExists", [["str", "top"]]]], ["set", "a", ["int", 1]],
               ["expr", ["call", "GetFilename", [["str", "row"]]]], ["cset", "a", "+=", ["int", 1]]]
        one = rng.sample(one, rng.choice([1, 1, 2, 4]))
        prog = [["set", "a", ["int", 0]]] + [rng.choice(one) for _ in range(n * 3)] + body
    else:
        prog = []
        for _ in range(max(5, n // 8)):
            prog += body
    cycle = []
    p = rng.choice([0, 0.15, 0.3, 0.5])
    for i in range(rng.choice([7, 13, 29])):
        c = rng.random()
        if c > p:
            cycle.append(None)
        elif c < p * 0.5:
            # one of the last contexts, or the old one
            cycle.append(["rw", rng.choice([0, 0, 1, 1, 2, 3, 5])])
        elif c < p * 0.7:
            cycle.append(["ab"])
        else:
            cycle.append(["ex", rng.choice(ORDINARY), "t", rng.choice(["rw", "ab"]), rng.randrange(3)])
    scn = {"mode": "session", "layout": lay, "prog": G.norm(prog), "sev": common.make_sev(rng, 0.3), "seqcycle": cycle,
           "first": rng.choice([150, 300, 500] if not big else [300, 1000, 3000]), "old": rng.random() < 0.1}
    c = rng.random()
    if c < 0.45:
        scn["mode"] = "runs" if c < 0.2 else "after"
        scn["prog"] = common.make_prog(rng, dict(f, badtype=0.3), lay, size=rng.choice([3, 6]), depth=1, p=0.7)
        if c >= 0.2 and rng.random() < 0.5:
            scn["prog"] = G.norm(body)
        scn["decs"] = [common.make_decs(rng, 12, rng.choice([0.1, 0.3]), ("rw", "ab", "ex", "bx", "no"))
                       for _ in range(rng.choice([3, 7]))]
    return scn


class Dying(env.SimStop):
    pass


def depth():
    f = sys._getframe()
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def live():
    """How many objects of the interpreter exist, by kind."""
    gc.collect()
    res = {}
    for o in gc.get_objects():
        t = type(o)
        m = t.__module__
        if m.startswith("wizard.") and (not m.startswith("wizard.antlr4") or t.__name__ == "ParseWizardContext"):
            k = t.__name__
        elif isinstance(o, BaseException):
            k = "exceptions"
        else:
            continue
        res[k] = res.get(k, 0) + 1
    res["memory blocks"] = sys.getallocatedblocks()
    # one object, so that the record itself hardly counts
    return json.dumps(res)


class Long(env.SimRunner):
    """A user who goes on and on."""

    def start(self, ref, cycle, first, old, every):
        self.ref = ref            # [kind, args, digest of state, first event of the step]
        self.cycle = cycle
        self.first = first
        self.every = every
        self.n = 0
        self.p = 0
        self.pending = None
        self.ring = []
        self.keep_old = old
        self.viol = None
        self.depths = {}
        self.alive = []
        self.book = []
        self.prev = None
        self.todo = None

    def fail(self, cls, detail):
        self.viol = {"class": cls, "detail": "callback %d: %s" % (self.n, detail)}
        raise Dying()

    def cb(self, kind, args, exc=None):
        ctx = self.context()
        snap = harness.digest(env.snap_state(ctx.state))
        n = self.n
        self.n += 1
        if self.ref is None:
            # the undisturbed session is recorded
            if len(self.book) >= 1500:
                raise Dying()
            self.book.append([kind, args, snap,
                              self.book[-1][3] if ctx is self.prev and self.book else len(self.book)])
            self.prev = ctx
            return 0 if kind in decide.CONFIRM else decide.default_n(kind, args)
        key = kind + repr(args)
        d = depth()
        was = self.depths.setdefault(key, d)
        if d > was + SLACK_STACK:
            self.fail("stack grows", "%s %r was called from a stack of %d frames before, now of %d" % (
                kind, args, was, d))
        if n % self.every == self.every - 1:
            self.alive.append([n, live()])
        if self.pending == "cancel":
            if kind != "cancel" or args != self.told():
                self.fail("callback differs", "%s %r after abort()" % (kind, args))
            self.pending = None
            return 0
        if self.pending == "error":
            if kind != "error":
                self.fail("callback differs", "%s %r after an exception" % (kind, args))
            return self.flow(self.todo)
        if self.p >= len(self.ref):
            self.fail("no end", "%s %r after the last callback of the script" % (kind, args))
        r = self.ref[self.p]
        if r[0] != kind or r[1] != args:
            self.fail("callback differs", "%s %r instead of %s %r" % (kind, args, r[0], r[1]))
        if r[2] != snap:
            self.fail("state differs", "in %s %r: %r" % (kind, args, env.snap_state(ctx.state)))
        if self.first > n:
            if self.keep_old and self.ring:
                self.ring = self.ring[:1] + self.ring[-4:] + [(ctx, r[3])]
            else:
                self.ring = self.ring[-5:] + [(ctx, r[3])]
            c = self.cycle[n % len(self.cycle)]
            if c is not None and kind != "error":
                if c[0] == "ex":
                    self.count("exception in " + kind)
                    self.pending = "error"
                    self.todo = [c[3], c[4]]
                    raise env.make_exc(c[1], c[2])
                return self.flow(c)
        else:
            self.ring = []
        self.p += 1
        return 0 if kind in decide.CONFIRM else decide.default_n(kind, args)

    def told(self):
        m = env.message(self.context())
        return m

    def flow(self, c):
        self.pending = None
        if c[0] == "ab":
            self.count("abort")
            self.pending = "cancel"
            self.p = self.ref[self.p][3]
            self.abort()
        self.count("rewind")
        ctx, self.p = self.ring[-1 - c[1] % len(self.ring)]
        self.rewind(ctx)

    def error(self, exc):
        # nothing of the exception is kept here
        self.cb("error", ["env", "t"] if env.caused(exc) else ["script"])


def grown(alive):
    """Kinds of objects of which there are more and more."""
    if len(alive) < 8:
        return None
    alive = [[n, json.loads(a)] for n, a in alive]
    q = max(2, len(alive) // 4)
    for k in sorted({k for _n, a in alive for k in a}):
        early = max(a.get(k, 0) for _n, a in alive[:q])
        mid = min(a.get(k, 0) for _n, a in alive[-2 * q:-q])
        late = min(a.get(k, 0) for _n, a in alive[-q:])
        if late > early + (SLACK_BLOCKS if k == "memory blocks" else SLACK_LIVE) and late > mid > early:
            return {"class": "objects pile up", "detail": "%s alive: %d after %d callbacks or runs, %d after %d" % (
                k, early, alive[q - 1][0], late, alive[-1][0])}
    return None


def session(scn):
    text = G.render(scn["prog"])
    gc.collect()
    gc.freeze()
    r = Long(scn["layout"])
    env.apply_sev(r, scn["sev"])
    r.start(None, [], 0, False, 1)
    try:
        end = r.run(text)
        end = [end[0].name, env.snap_state(end[1])]
    except Dying:
        return {"skip": True}
    ref = r.book
    r = Long(scn["layout"])
    env.apply_sev(r, scn["sev"])
    r.start(ref, scn["seqcycle"], scn["first"], scn["old"], max(10, (scn["first"] + len(ref) // 2) // 24))
    got = None
    try:
        got = r.run(text)
        got = [got[0].name, env.snap_state(got[1])]
    except Dying:
        pass
    except Exception as e:  # noqa: BLE001
        r.viol = {"class": "exception left run()", "detail": repr(e)[:200]}
    v = r.viol
    if v is None and got != end:
        v = {"class": "ending differs", "detail": "%s %r instead of %s %r" % (got[0], got[1], end[0], end[1])}
    v = v or grown(r.alive)
    return {"viol": v, "n": r.n, "ref": len(ref), "fired": r.fired, "end": end[0],
            "deep": max(r.depths.values() or [0]), "alive": r.alive[-1:]}


TRIVIAL = "x = 1\n"


def kept():
    """What there is of contexts, states, scripts and flows."""
    gc.collect()
    import wizard.contexts as wc
    import wizard.scriptrunner as ws
    import wizard.state
    from wizard.antlr4.wizardParser import wizardParser
    kinds = (wc.WizardInterpreterContext, wizard.state.WizardInterpreterState, wizardParser.ParseWizardContext,
             env.werrors.WizardError, ws.WizardScriptRunner.RewindFlow, ws.WizardScriptRunner.CancelFlow)
    res = {}
    for o in gc.get_objects():
        if isinstance(o, kinds) or getattr(o, "sim_token", None) is not None and isinstance(o, BaseException):
            res[type(o).__name__] = res.get(type(o).__name__, 0) + 1
    return res


def after(scn):
    """Nothing of the runs before is alive after a run of a trivial script."""
    gc.collect()
    gc.freeze()
    r = env.SimRunner(scn["layout"])
    env.apply_sev(r, scn["sev"])
    r.reset((), 9)
    r.run(TRIVIAL)
    r.reset()
    base = kept()
    text = G.render(scn["prog"])
    n, fired, end = 0, {}, None
    for decs in scn["decs"]:
        r.reset(decs, 60)
        end = env.run_real(r, text)
        n += len(r.log)
        for k, v in r.fired.items():
            fired[k] = fired.get(k, 0) + v
    r.reset((), 9)
    r.left = None
    try:
        r.run(TRIVIAL)
    finally:
        r.reset()
    now = kept()
    v = None
    for k in sorted(now):
        if now[k] > base.get(k, 0):
            v = {"class": "kept after the run", "detail": "%d %s alive after a run of a trivial script, %d when it is the first" % (
                now[k], k, base.get(k, 0))}
            break
    return {"viol": v, "n": n, "ref": 0, "fired": fired, "end": end[0], "deep": 0, "alive": []}


def runs(scn):
    text = G.render(scn["prog"])
    gc.collect()
    gc.freeze()
    r = env.SimRunner(scn["layout"])
    env.apply_sev(r, scn["sev"])
    alive = []
    fired = {}
    first = []
    n = 0
    for i in range(200):
        decs = scn["decs"][i % len(scn["decs"])]
        r.reset(decs, 40)
        end = env.run_real(r, text)
        r.left = None
        n += len(r.log)
        for k, v in r.fired.items():
            fired[k] = fired.get(k, 0) + v
        d = harness.digest([r.log, end])
        r.reset()
        if i < len(scn["decs"]):
            first.append(d)
        elif first[i % len(first)] != d:
            return {"viol": {"class": "run differs", "detail": "run %d of the runner, from the same run before" % i},
                    "n": n, "ref": 0, "fired": fired, "end": "-", "deep": 0, "alive": []}
        if i % 20 == 19:
            alive.append([i + 1, live()])
    return {"viol": grown(alive), "n": n, "ref": 0, "fired": fired, "end": "-", "deep": 0, "alive": alive[-1:]}


def run(scn):
    a = harness.iso({"session": session, "runs": runs, "after": after}[scn["mode"]], scn, scale=10)
    if a.get("hang"):
        return a
    if a.get("skip"):
        return {"viol": None, "stats": {"probe:skipped, too long": 1}, "nt": False, "key": "", "dig": ""}
    st = {"runs": {"session": 2, "runs": 200}.get(scn["mode"], 1 + len(scn.get("decs", []))), "events": a["n"] + a["ref"], "probe:mode " + scn["mode"]: 1,
          "probe:ended " + a["end"]: 1, "probe:callbacks of long sessions": a["n"]}
    for k, v in a["fired"].items():
        st["fault:" + k] = v
    return {"viol": a["viol"], "stats": st, "nt": a["n"] > (3 if scn["mode"] == "after" else 200),
            "key": harness.digest([scn["prog"], scn["seqcycle"], scn["first"]]),
            "dig": harness.digest([a["n"], a["ref"], a["fired"], a["end"]]),
            "trace": {k: a[k] for k in ("n", "ref", "fired", "end", "deep", "alive")}}
