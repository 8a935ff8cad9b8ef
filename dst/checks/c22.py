"""C22: scripts start from given states, with an embedder's own states, keywords and functions."""

import collections

from .. import common, decide, env, gen as G, harness, layout, model
from ..gen import FEATURES

ID = "C22"
QUICK = 12000
QUICK_SECONDS = 25
THOROUGH = 500000
RULE = ("a scenario is an embedder's session: several scripts on one interpreter (the runner's, one made with "
        "make_runner_context_factory or make_basic_context_factory, or one with own keyword and expression visitors "
        "functions and methods), each started from a new state, one set up by hand, the one an earlier script ended with, one "
        "captured in an earlier script, the same one again, or at a context captured in an earlier script; with a state "
        "class of the embedder (its own fields and copy()) or the package's; contexts are executed by hand, with "
        "answers, failing callbacks and visitors, rewinds, aborts, severity changes, and state copies that fail and "
        "are retried; every script must make the callbacks and visitor calls of the reference model started from that "
        "state, with the same states, and no state given or captured may change; non-trivial: a script with callbacks "
        "starts from a state that is not new; distinct: different programs or different sequences of (callback, answer)")
FEATS = dict(FEATURES, query=4, badtype=0.12, unset=0.5, select=3, ini=2, exec=1, badcall=0.06, selkw=5, note=3, rename=3,
             require=1.5)
NAMES = ["v0", "v1", "v2", "u0", "u1", "s0", "m", "i", "g0", "V0"]


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 4)
    mode = rng.choice(["runner", "factory", "own", "own", "own", "basic"])
    parts = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        f = dict(FEATS)
        if mode == "basic":
            f = dict(f, query=0.15, ini=0.05)
        prog = common.make_prog(rng, f, lay, size=rng.choice([3, 5, 9, 14]), depth=rng.choice([0, 1, 2, 3]), p=0.7,
                                keep=("selkw", "assign"))
        if rng.random() < 0.5:
            # what the variables hold is up to the state
            while prog and prog[0][0] == "set" and prog[0][1] in NAMES and prog[0][2][0] in ("int", "str"):
                if rng.random() < 0.2:
                    break
                prog = prog[1:]
        if mode == "own":
            own(rng, prog)
        c = rng.random()
        if c < 0.15 or (not i and c < 0.5):
            origin = ["new"]
        elif not i or c < 0.3:
            origin = ["hand", [[n, value(rng)] for n in rng.sample(NAMES, rng.randrange(5))]]
        elif c < 0.5:
            origin = ["end", rng.randrange(i)]
        elif c < 0.75:
            origin = ["at", rng.randrange(i), rng.randrange(40)]
        elif c < 0.85:
            origin = ["same", rng.randrange(i)]
        else:
            origin = ["go on", rng.randrange(i), rng.randrange(40)]
        ops = rng.choice([(), ("ab", "rw", "ex"), ("rw",), ("ab", "rw", "ex", "sev", "bx"), ("rw", "no")])
        parts.append({"origin": origin, "prog": G.norm(prog),
                      "decs": common.make_decs(rng, rng.choice([10, 25]), rng.choice([0.1, 0.2, 0.35]), ops)})
    scn = {"layout": lay, "mode": mode, "cls": rng.randrange(3), "sev": common.make_sev(rng, 0.4), "parts": parts,
           "seqcopy": [], "style": common.make_style(rng, 0.3)}
    if rng.random() < 0.4 and not any(d and d[0] == "sev" for p in parts for d in p["decs"]):
        scn["seqcopy"] = sorted(rng.sample(range(rng.choice([20, 100, 300])), rng.choice([1, 3, 8])))
    return scn


def value(rng):
    return rng.choice([["int", rng.randrange(-2, 6)], ["str", rng.choice(["", "OptA", "x y", "|OptC"])],
                       ["bool", rng.random() < 0.5], ["float", "1.5"], ["int", rng.randrange(3)]])


def own(rng, prog):
    """Some calls are of the embedder's function, or of a method of strings with that name."""
    def walk(e, stm=False):
        if isinstance(e, list):
            if len(e) == 3 and e[0] == "call" and e[1] in ("CompareSEVersion", "CompareWBVersion") and rng.random() < 0.8:
                if not stm and len(e[2]) == 1 and rng.random() < 0.4:
                    e[:] = ["dot", e[2][0], "Own", []]
                else:
                    e[1] = "Own"
            for x in e:
                walk(x, e[:1] == ["expr"])
    walk(prog)


# ------------------------------------------------------------------ the embedder

class Flow(BaseException):
    """A rewind (to a context) or an abort of the embedder."""

    def __init__(self, ctx=None):
        super().__init__()
        self.ctx = ctx


class CopyFailed(MemoryError):
    pass


class Copies:
    """Counts the copies of states; some fail."""

    def __init__(self, fail):
        self.n = 0
        self.fail = set(fail)
        self.failed = 0

    def __call__(self):
        self.n += 1
        if self.n in self.fail:
            self.failed += 1
            raise CopyFailed("no memory for a state")


def state_classes(mode, cls, copies):
    """(class of the states, whether it is an embedder's)"""
    from wizard.runner import WizardRunnerState
    from wizard.state import WizardInterpreterState
    base = WizardRunnerState if mode in ("runner", "factory") else WizardInterpreterState
    if cls == 0 and mode != "own":
        return base, False

    if cls == 1:
        class Journaled(base):
            """Has a list, and is as long as it is."""

            def __init__(self):
                super().__init__()
                self.journal = []

            def copy(self):
                copies()
                new = super().copy()
                new.journal = list(self.journal)
                return new

            def record(self, x):
                self.journal.append(x)

            def __len__(self):
                return len(self.journal)
    else:
        class Journaled(base):
            """Never changes what it shares with its copies; all of them are equal."""

            __slots__ = ("journal",)

            def __init__(self):
                super().__init__()
                self.journal = ()

            def copy(self):
                copies()
                new = super().copy()
                new.journal = self.journal
                return new

            def record(self, x):
                self.journal = self.journal + (x,)

            def __eq__(self, other):
                return True

            def __hash__(self):
                return 1
    return Journaled, True


class Emb(env.SimRunner):
    """Drives contexts by hand."""

    at = None

    def context(self):
        return self.at

    def snap(self, state):
        return snapshot(state)

    def abort(self):
        raise Flow()

    def rewind(self, ctx):
        raise Flow(ctx)


def own_visitors(r):
    from wizard.expr import WizardExpressionVisitor
    from wizard.keywords import WizardKeywordVisitor

    def visit(name, ctx, state, args):
        if ctx is not None and ctx is not r.at:
            r.odd.append("%s: called with a %s, not with the context executed" % (name, type(ctx).__name__))
        if state is r.at.state:
            r.odd.append("%s: called with the state of the context, not with a copy" % name)
        args = [name] + args
        n = decide.answer_value("keyword", r.cb("keyword", args))
        if n % 3:
            state.record(args + [n])

    class Keywords(WizardKeywordVisitor):
        def visitRequireVersions(self, state, game_version, script_extender_version, graphics_extender_version,
                                 wrye_bash_version):
            visit("RequireVersions", None, state, [env.prepr(v) for v in (
                game_version, script_extender_version, graphics_extender_version, wrye_bash_version)])

    def method(name, n):
        if n == 0:
            def f(self, context, state):
                visit(name, context, state, [])
        elif n == 1:
            def f(self, context, state, a):
                visit(name, context, state, [env.prepr(a)])
        else:
            def f(self, context, state, a, b):
                visit(name, context, state, [env.prepr(a), env.prepr(b)])
        setattr(Keywords, "visit" + name, f)

    for name in ("DeSelectAll", "DeSelectAllPlugins", "ResetAllPluginNames", "SelectAll", "SelectAllPlugins"):
        method(name, 0)
    for name in ("DeSelectPlugin", "DeSelectSubPackage", "Note", "ResetPluginName", "SelectPlugin", "SelectSubPackage"):
        method(name, 1)
    method("RenamePlugin", 2)
    missing = object()

    class Expressions(WizardExpressionVisitor):
        def visitDisableINILine(self, state, filename, section, setting):
            visit("DisableINILine", None, state, [env.prepr(v) for v in (filename, section, setting)])

        def visitEditINI(self, state, filename, section, setting, value, comment=missing):
            args = [filename, section, setting, value] + ([] if comment is missing else [comment])
            visit("EditINI", None, state, [env.prepr(v) for v in args])

    def function(state, values):
        from wizard.value import Value
        if state is r.at.state:
            r.odd.append("Own(): called with the state of the context, not with a copy")
        n = decide.answer_value("function", r.cb("function", [env.vrepr(v) for v in values]))
        state.record(["function", n])
        return Value(n)

    def method(state, values):
        from wizard.value import Value
        n = decide.answer_value("function", r.cb("function", ["."] + [env.vrepr(v) for v in values]))
        state.record(["function", n])
        return Value(n)

    return Keywords, Expressions, function, method


def interpreter(r, scn, pkgs):
    mode = scn["mode"]
    if mode == "runner":
        return r
    from wizard.interpreter import WizardInterpreter
    if mode == "factory":
        from wizard.utils import make_runner_context_factory
        return WizardInterpreter(make_runner_context_factory(pkgs, r, r))
    if mode == "basic":
        from wizard.utils import make_basic_context_factory
        return WizardInterpreter(make_basic_context_factory(pkgs, r))
    from wizard.contexts import WizardInterpreterContextFactory
    from wizard.functions import make_basic_functions, make_manager_functions
    kv, ev, fn, method = own_visitors(r)
    functions = make_basic_functions()
    functions.update(make_manager_functions(r, r))
    functions["Own"] = Function(fn)
    functions["string.Own"] = method
    # any mapping will do
    functions = collections.ChainMap({}, functions)
    return WizardInterpreter(WizardInterpreterContextFactory(ev(pkgs, functions, r), kv(r), r))


class Function(list):
    """A callable object, empty."""

    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def __call__(self, state, values):
        return self.fn(state, values)


def snapshot(st):
    from wizard.runner import WizardRunnerState
    s = env.snap_state(st) if isinstance(st, WizardRunnerState) else {
        "vars": {k: env.vrepr(v) for k, v in sorted(st.variables.items())}}
    if hasattr(st, "journal"):
        s["jr"] = [list(x) for x in st.journal]
    return s


def drive(r, ctx, ask):
    """What run() does with a context, by hand. The ending."""
    import wizard.contexts as wc
    aborted = False
    while True:
        r.at = ctx
        mark = (len(r.log), r.script.pos, aborted)
        try:
            try:
                if aborted:
                    aborted = False
                    if r.cancel():
                        return ["end", "CANCEL"], ctx.state
                if isinstance(ctx, wc.WizardSelectOneContext):
                    ctx = ctx.select(r.selectOne(ctx.description, ctx.options, ctx.default))
                elif isinstance(ctx, wc.WizardSelectManyContext):
                    ctx = ctx.select(r.selectMany(ctx.description, ctx.options, ctx.defaults))
                elif isinstance(ctx, wc.WizardTerminationContext):
                    if ctx.is_cancel():
                        if r.cancel():
                            return ["end", "CANCEL"], ctx.state
                    elif r.complete() or not ctx.is_return():
                        return ["end", "RETURN" if ctx.is_return() else "COMPLETE"], ctx.state
                    ctx = ctx.factory.copy_parent(ctx.parent)
                    continue
                elif ask and isinstance(ctx, wc.WizardRequireVersionsContext):
                    r.requiresVersions(ctx.game_version, ctx.script_extender_version, ctx.graphics_extender_version,
                                       ctx.wrye_bash_version)
                ctx = ctx.exec()
            except Exception as ex:  # noqa: BLE001
                if copy_failed(ex):
                    # again, as if it had not been tried
                    ctx = r.at
                    del r.log[mark[0]:], r.captured[mark[0]:]
                    r.script.pos = mark[1]
                    aborted = mark[2]
                    continue
                ctx = r.at
                try:
                    r.error(ex)
                except Exception as ex2:  # noqa: BLE001
                    return ["raised", env.caused(ex2), type(ex2).__name__], ctx.state
                return ["end", "ERROR"], ctx.state
        except Flow as f:
            ctx = f.ctx or r.at
            aborted = f.ctx is None
        except env.SimStop:
            return ["stop"], r.at.state
        except BaseException as e:  # noqa: BLE001
            if getattr(e, "sim_token", None) is None:
                raise
            return ["raised", e.sim_token, type(e).__name__], r.at.state


def copy_failed(ex):
    seen = []
    while ex is not None and ex not in seen:
        if isinstance(ex, CopyFailed):
            return True
        seen.append(ex)
        ex = ex.__cause__ or ex.__context__
    return False


def session(scn):
    from wizard.value import Value
    mode = scn["mode"]
    copies = Copies(scn["seqcopy"])
    cls, theirs = state_classes(mode, scn["cls"], copies)
    pkgs = env.make_packages(scn["layout"])
    r = Emb(pkgs=pkgs)
    it = interpreter(r, scn, pkgs)
    env.apply_sev(r, scn["sev"])
    r.odd = []
    res = []
    given = []         # the state each script started from
    final = []
    caps = []
    frozen = []        # every state seen, as it was
    mappings = []
    for n, p in enumerate(scn["parts"]):
        o = origin(scn, n)
        ctx = None
        if o[0] == "new":
            st = None if not theirs and mode != "factory" else cls()
        elif o[0] == "hand":
            values = {name: Value(float(v[1]) if v[0] == "float" else v[1]) for name, v in o[1]}
            if mode == "basic" and not theirs:
                st = cls(values)
                mappings.append([values, dict(values), n])
            else:
                st = cls()
                for name, v in values.items():
                    st.set(name, v)
            if theirs:
                st.record(["by hand", n])
        elif o[0] == "end":
            st = final[o[1]]
        elif o[0] == "same":
            st = given[o[1]]
        else:
            c = caps[o[1]]
            if not c:
                st = final[o[1]]
            elif o[0] == "at":
                st = c[o[2] % len(c)].state
            else:
                st = given[o[1]]
                ctx = c[o[2] % len(c)]
        if st is not None:
            frozen.append([st, snapshot(st), "given to script %d" % n])
        r.reset(p["decs"], 60)
        r.style = scn.get("style", ())
        if ctx is None:
            text = G.render(p["prog"])
            fail, copies.fail = copies.fail, ()
            ctx = it.make_top_level_context(text) if st is None else it.make_top_level_context(text, st)
            copies.fail = fail
            if st is not None and ctx.state is not st and snapshot(ctx.state) != snapshot(st):
                r.odd.append("script %d does not start from the state given" % n)
        given.append(ctx.state if st is None else st)
        end, last = drive(r, ctx, mode in ("factory", "basic"))
        if type(last) is not cls:
            r.odd.append("script %d ended with a state that is a %s" % (n, type(last).__name__))
        for i, c in enumerate(r.captured):
            if type(c.state) is not cls:
                r.odd.append("event %d of script %d: the state is a %s" % (i, n, type(c.state).__name__))
        final.append(last)
        caps.append(list(r.captured))
        if end[0] == "end":
            end = end + [snapshot(last)]
        frozen.append([last, snapshot(last), "final of script %d" % n])
        frozen += [[c.state, e[2], "of event %d of script %d" % (i, n)]
                   for i, (c, e) in enumerate(zip(r.captured, r.log))]
        res.append({"log": r.log, "end": end, "fired": r.fired})
    changed = []
    for st, was, what in frozen:
        now = snapshot(st)
        if now != was:
            k, a, b = common.diff_state(was, now)
            changed.append("the state %s changed later: %s was %r, is %r" % (what, k, a, b))
    for m, was, n in mappings:
        if list(m) != list(was) or any(m[k] is not was[k] for k in was):
            changed.append("the variables given to script %d changed: %r, were %r" % (n, list(m), list(was)))
        m.clear()
    for st, was, what in frozen:
        if mappings and snapshot(st) != was:
            changed.append("the state %s follows the mapping it was made from" % what)
    return {"recs": res, "odd": r.odd[:3], "changed": changed[:3], "copies": copies.n, "failed": copies.failed}


def origin(scn, n):
    o = list(scn["parts"][n]["origin"])
    if o[0] not in ("new", "hand"):
        if n == 0:
            return ["new"]
        o[1] %= n
    return o


# --------------------------------------------------------------------- reference

def reference(scn):
    """Per script (events, ending)."""
    mode = scn["mode"]
    mm = mode if mode in ("own", "basic") else None
    theirs = mode == "own" or scn["cls"] != 0
    keys = ("vars",) if mm else ("vars", "sps", "pgs", "ren", "dis", "mod", "notes")
    sev = dict(scn["sev"])
    done = []
    res = []
    for n, p in enumerate(scn["parts"]):
        o = origin(scn, n)
        init = model.State()
        prog, prefix = p["prog"], []
        if o[0] == "hand":
            for name, v in o[1]:
                init.vars[name] = float(v[1]) if v[0] == "float" else v[1]
            init.jr.append(["by hand", n])
        elif o[0] == "end":
            init = done[o[1]][2]
        elif o[0] == "same":
            init = done[o[1]][0].init
        elif o[0] in ("at", "go on"):
            s = done[o[1]][0]
            if not s.places:
                init = done[o[1]][2]
            elif o[0] == "at":
                init = s.states[o[2] % len(s.places)]
            else:
                init = s.init
                prog = done[o[1]][1]
                prefix = s.places[o[2] % len(s.places)]
        start = model.Start(init, mm, prefix, sev)
        ev, end = model.run_model(prog, scn["layout"], p["decs"], None, 60, None, start)
        done.append([start, prog, start.states[-1] if start.states else init])

        def cut(s):
            t = {k: s[k] for k in keys}
            if theirs:
                t["jr"] = s.get("jr", [])
            return t
        if end[0] == "end":
            end = end[:2] + [cut(end[2])]
        res.append([[[k, a, cut(s)] for k, a, s in ev], end])
    return res


def run(scn):
    try:
        want = reference(scn)
    except model.TooLong:
        return {"viol": None, "stats": {"probe:skipped, unbounded script": 1}, "nt": False, "key": "", "dig": ""}
    a = harness.iso(session, scn)
    if a.get("hang"):
        return a
    viol = None
    old = False
    for n, (rec, (wlog, wend)) in enumerate(zip(a["recs"], want)):
        log = [[k, [] if k == "warning" else ["script"] if k == "error" and x[0] == "script" else x, s]
               for k, x, s, _d in rec["log"]]
        old = old or (n and len(log) > 1 and scn["parts"][n]["origin"][0] != "new")
        v = common.compare((log, common.norm_end(rec["end"])), (wlog, common.norm_end(wend)), ("real", "reference"))
        if v and not viol:
            viol = v
            v["detail"] = "script %d (%s): %s" % (n, " ".join(map(str, scn["parts"][n]["origin"][:3])), v["detail"])
    if not viol and a["odd"]:
        viol = {"class": "embedder", "detail": a["odd"][0]}
    if not viol and a["changed"]:
        viol = {"class": "state changed", "detail": a["changed"][0]}
    st = common.stats_of(*a["recs"])
    st["fault:state copy failed"] = a["failed"]
    st["probe:mode " + scn["mode"]] = 1
    for n in range(len(scn["parts"])):
        k = "probe:started " + origin(scn, n)[0]
        st[k] = st.get(k, 0) + 1
    sh = [common.shape(rec["log"]) for rec in a["recs"]]
    return {"viol": viol, "stats": st, "nt": bool(old), "key": harness.digest([[p["prog"] for p in scn["parts"]], sh]),
            "dig": harness.digest(sh),
            "trace": [[[e[0], e[1], e[3]] for e in rec["log"]] + [rec["end"]] for rec in a["recs"]]}
