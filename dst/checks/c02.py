"""C02: captured contexts never change and can be re-executed at will."""

from .. import common, decide, env, gen as G, harness, layout
from ..gen import FEATURES

from wizard.contexts import (
    WizardRequireVersionsContext, WizardSelectManyContext, WizardSelectOneContext, WizardTerminationContext,
)
from wizard.interpreter import WizardInterpreter
from wizard.manager import ManagerModInterface
from wizard.runner import WizardRunnerState
from wizard.severity import SeverityContext
from wizard.utils import make_runner_context_factory

ID = "C02"
QUICK = 10000
QUICK_SECONDS = 25
THOROUGH = 400000
RULE = ("a scenario is a random program, and a random interleaving of exec() and select() calls on a growing tree of "
        "held contexts (uniform, newest-first, and repeated executions of one node), alone or from inside the "
        "callbacks of a run that also rewinds; every held context is compared with its snapshot (state, options, "
        "defaults, description, messages, versions, parents) as the tree grows, every repeated execution with the "
        "first one, the continuation of every node with the same path executed alone in another process, and the "
        "run with the same run without the extra executions; non-trivial: at least one node executed twice; "
        "distinct: different program or different tree")
BRANCHES = dict(FEATURES, badtype=0.05, query=2, select=9, flag=6, selkw=2, rename=1, ini=1, note=3, **{"for": 3})
FEATS = dict(FEATURES, badtype=0.2, query=4, select=4, ini=3, note=3, selkw=5, rename=3, require=1.5, **{"for": 3})


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 4)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([5, 9, 14, 20]), depth=rng.choice([1, 2, 3]), p=0.65)
    n = rng.choice([20, 40, 80] if tier != "thorough" else [20, 60, 150])
    if rng.random() < 0.35:
        return deep(rng, lay)
    ops = []
    style = rng.random()
    for i in range(n):
        c = rng.random()
        if c < 0.2:
            node = rng.randrange(1000)          # any node
        elif c < (0.5 if style < 0.5 else 0.9):
            node = -1                            # newest
        else:
            node = -1 - rng.randrange(6)         # one of the newest
        ops.append([node, rng.randrange(1000)])
    scn = {"layout": lay, "prog": prog, "ops": ops, "mode": "tree"}
    if rng.random() < 0.3:
        scn["mode"] = "run"
        scn["decs"] = common.make_decs(rng, 30, rng.choice([0, 0.15, 0.3]), ("rw",))
    return scn


def deep(rng, lay):
    """Branches executed to their ends one after the other, from the dialogs of the first ones: blocks, flags set by
    dialogs, breaks that only some of the branches reach."""
    prog = common.make_prog(rng, BRANCHES, lay, size=rng.choice([5, 9, 14]), depth=rng.choice([2, 3, 4]), p=0.8)
    ops = [[-1, rng.randrange(1000), rng.choice([30, 60])]]
    for _ in range(rng.choice([3, 5, 8])):
        c = rng.random()
        where = "dialog" if c < 0.6 else "parent" if c < 0.75 else rng.randrange(1000)
        if isinstance(where, str):
            where = [where, rng.randrange(1000)]
        ops.append([where, rng.randrange(1000), rng.choice([3, 15, 40])])
        if rng.random() < 0.3:
            ops.append([where, rng.randrange(1000), 1])
    return {"layout": lay, "prog": prog, "ops": ops, "mode": "tree"}


class Manager(ManagerModInterface, SeverityContext):
    """Answers by arguments only, so that any order of execution meets the same answers."""

    def __init__(self):
        SeverityContext.__init__(self)
        self.calls = []

    def warning(self, text):
        pass

    def _q(self, kind, *args):
        return decide.answer_value(kind, decide.default_n(kind, list(args)), list(args))

    def compareGameVersion(self, version):
        return self._q("compareGameVersion", version)

    def compareSEVersion(self, version):
        return self._q("compareSEVersion", version)

    def compareGEVersion(self, version):
        return self._q("compareGEVersion", version)

    def compareWBVersion(self, version):
        return self._q("compareWBVersion", version)

    def dataFileExists(self, *filepaths):
        return self._q("dataFileExists", *filepaths)

    def getPluginLoadOrder(self, filename, fallback=-1):
        return self._q("getPluginLoadOrder", filename, fallback)

    def getPluginStatus(self, filename):
        return self._q("getPluginStatus", filename)

    def getFilename(self, path):
        return self._q("getFilename", path)

    def getFolder(self, path):
        return self._q("getFolder", path)


PROPS = ("game_version", "script_extender_version", "graphics_extender_version", "wrye_bash_version")


def own(ctx):
    """Everything a holder of the context can observe of it, parents apart."""
    st = ctx.state
    t = st.tweaks
    one = [
        type(ctx).__name__,
        sorted((k, v.value if isinstance(v.value, (bool, int, float, str)) else env.vrepr(v)[1], str(v.type))
               for k, v in st.variables.items()),
        [sp.name for sp in st.subpackages],
        [pg.name for pg in st.plugins],
        [(pg.name, nm) for pg, nm in st.renames.items()],
        [(d.filename, d.section, d.setting) for d in t.disabled],
        [(m.filename, m.section, m.setting, str(m.value), m.comment) for m in t.modified],
        list(st.notes),
        list(t.files()),
    ]
    if isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext)):
        one += [ctx.description, [env.orepr(o) for o in ctx.options]]
        if isinstance(ctx, WizardSelectOneContext):
            one.append(env.orepr(ctx.default))
        else:
            one.append([env.orepr(o) for o in ctx.defaults])
    elif isinstance(ctx, WizardTerminationContext):
        one += [ctx.is_cancel(), ctx.is_return(), ctx.is_complete(), ctx.message()]
    elif isinstance(ctx, WizardRequireVersionsContext):
        one += [getattr(ctx, p) for p in PROPS]
    return one


def look(ctx, depth=60):
    """A context and its parents."""
    res = []
    while True:
        res.append(own(ctx))
        depth -= 1
        if ctx.is_top_level() or depth <= 0:
            break
        ctx = ctx.parent
    return harness.digest(repr(res))


class Held:
    """All contexts seen, with what was observed of them first."""

    def __init__(self):
        self.seen = {}

    def add(self, ctx):
        while id(ctx) not in self.seen:
            self.seen[id(ctx)] = (ctx, own(ctx), ctx.parent, describe(ctx))
            if ctx.is_top_level():
                break
            ctx = ctx.parent

    def changed(self, t):
        for ctx, o, parent, desc in self.seen.values():
            if own(ctx) != o or ctx.parent is not parent:
                return {"class": "held context changed", "detail": "after operation %s, a held context was %s and "
                        "is now %s" % (t, desc, describe(ctx))}
        return None


def describe(ctx):
    s = env.snap_state(ctx.state)
    return "%s vars=%r sps=%r pgs=%r ren=%r notes=%r mod=%r dis=%r" % (
        type(ctx).__name__, {k: v[1] for k, v in s["vars"].items()}, s["sps"], s["pgs"], s["ren"], s["notes"],
        [m[2] for m in s["mod"]], [d[2] for d in s["dis"]])


def apply(ctx, n):
    """One operation: select, or execute. A context or an error text."""
    try:
        if n % 3 and isinstance(ctx, WizardSelectOneContext):
            opts = list(ctx.options)
            o = opts[n % len(opts)]
            return ctx.select(env.SelectOption(o.name, o.description, o.image) if n & 16 else o)
        if n % 3 and isinstance(ctx, WizardSelectManyContext):
            opts = list(ctx.options)
            sel = [o for i, o in enumerate(opts) if (n >> (i + 2)) & 1]
            if n & 1:
                return ctx.select(tuple(sel))
            new = ctx.select(sel)
            # the list is ours
            sel[:] = opts[-1:] * 2
            return new
        if isinstance(ctx, WizardTerminationContext):
            return "terminated"
        return ctx.exec()
    except env.SimStop:
        raise
    except Exception as e:  # noqa: BLE001
        return "raised " + type(e).__name__


def onward(ctx, steps=40):
    """The continuation of a context: digest of what a deterministic driver sees."""
    seen = []
    for i in range(steps):
        if isinstance(ctx, str):
            seen.append(ctx)
            break
        seen.append(look(ctx, 2))
        ctx = apply(ctx, 0 if i % 2 else 1)
    return harness.digest(seen)


def factory(lay):
    m = Manager()
    return make_runner_context_factory(env.make_packages(lay), m, m)


def top(lay, text):
    return WizardInterpreter(factory(lay)).make_top_level_context(text, WizardRunnerState())


def steps(ops):
    """The operations, one by one: [node, number] or [node, number, length of the continuation]."""
    for op in ops:
        yield op[0], op[1]
        if len(op) > 2:
            for k in range(op[2] - 1):
                yield -1, op[1] * (k + 3) // 2, True


def pick_node(nodes, i):
    if isinstance(i, int):
        return nodes[i % len(nodes)]
    what, k = i
    if what == "dialog":
        some = [n for n in nodes if isinstance(n["ctx"], (WizardSelectOneContext, WizardSelectManyContext))]
        return some[k % len(some)] if some else nodes[k % len(nodes)]
    node = nodes[k % len(nodes)]
    up = 1 + k % 3
    ctx, path = node["ctx"], list(node["path"])
    while up and not ctx.is_top_level():
        ctx = ctx.parent
        path.append("up")
        up -= 1
    if path == node["path"]:
        return node
    nodes.append({"ctx": ctx, "snap": look(ctx), "desc": describe(ctx), "path": path, "res": {}})
    return nodes[-1]


def tree(scn):
    ctx = top(scn["layout"], G.render(scn["prog"]))
    nodes = [{"ctx": ctx, "snap": look(ctx), "desc": describe(ctx), "path": [], "res": {}}]
    again = 0
    viol = None
    held = Held()
    held.add(ctx)
    for t, (i, n, *more) in enumerate(steps(scn["ops"])):
        if more and more[0] and nodes[-1].get("end"):
            continue
        node = pick_node(nodes, i)
        sel = isinstance(node["ctx"], (WizardSelectOneContext, WizardSelectManyContext))
        n = n if sel else 0
        r = apply(node["ctx"], n)
        lk = r if isinstance(r, str) else look(r)
        if str(n) in node["res"]:
            again += 1
            if node["res"][str(n)] != lk:
                viol = {"class": "successor differs", "detail": "operation %d: executing %s again (path %r) gave %s" % (
                    t, node["desc"], node["path"], r if isinstance(r, str) else describe(r))}
                break
        node["res"][str(n)] = lk
        if isinstance(r, str):
            node["end"] = True
        else:
            # a successor that was already held may be returned again
            held.add(r)
            nodes.append({"ctx": r, "snap": lk, "desc": describe(r), "path": node["path"] + [n], "res": {}})
        if t % 10 == 9:
            viol = held.changed(t)
            if viol:
                break
    viol = viol or held.changed("last")
    paths = [[n["path"], None] for n in nodes]
    if viol is None:
        # the same contexts, continued twice, in two orders
        pick = range(0, len(nodes), max(1, len(nodes) // 8))
        for i in pick:
            paths[i][1] = onward(nodes[i]["ctx"])
        for i in reversed(pick):
            if onward(nodes[i]["ctx"]) != paths[i][1]:
                viol = {"class": "continuation differs", "detail": "continuing %s (path %r) twice gave different "
                        "results" % (nodes[i]["desc"], nodes[i]["path"])}
                break
        viol = viol or held.changed("end")
    return {"viol": viol, "again": again, "paths": [p for p in paths if p[1] is not None], "nodes": len(nodes),
            "snaps": harness.digest([n["snap"] for n in nodes])}


def alone(lay, prog, path):
    """One path executed alone."""
    ctx = top(lay, G.render(prog))
    for n in path:
        ctx = ctx.parent if n == "up" else apply(ctx, n)
        if isinstance(ctx, str):
            return ctx
    return onward(ctx)


def alones(lay, prog, paths):
    # a new top level context per path, in one process
    return [alone(lay, prog, p) for p in paths]


def probing(scn, probe):
    """A run, with the held contexts executed by hand inside its callbacks or not."""
    ops = [list(o) for o in scn["ops"]]
    r = env.SimRunner(scn["layout"], scn["decs"], 60)
    held = Held()
    state = {"busy": False, "n": 0, "bad": None}
    real_cb = r.cb

    def cb(kind, args):
        if state["busy"]:
            return 1 if kind in decide.CONFIRM else decide.default_n(kind, args)
        return real_cb(kind, args)

    r.cb = cb

    def hook(runner, kind, args, index):
        if not probe:
            return
        held.add(runner.captured[index])
        state["busy"] = True
        try:
            for _ in range(3):
                if not ops:
                    break
                i, n = ops.pop(0)
                c = runner.captured[i % len(runner.captured)]
                for _k in range(1 + n % 7):
                    c = apply(c, n)
                    state["n"] += 1
                    if isinstance(c, str):
                        break
        finally:
            state["busy"] = False
        bad = held.changed("inside the callback of event %d" % index)
        if bad and state["bad"] is None:
            state["bad"] = bad["detail"]

    r.hook = hook
    end = env.run_real(r, G.render(scn["prog"]))
    return {"log": r.log, "end": end, "fired": r.fired, "bad": state["bad"], "probes": state["n"]}


def run(scn):
    if scn["mode"] == "run":
        a = harness.iso(probing, scn, True)
        if a.get("hang"):
            return a
        b = harness.iso(probing, scn, False)
        if b.get("hang"):
            return b
        viol = None
        if a["bad"]:
            viol = {"class": "held context changed", "detail": a["bad"]}
        viol = viol or common.compare((a["log"], a["end"]), (b["log"], b["end"]),
                                      ("with extra executions", "without"))
        sh = common.shape(a["log"])
        st = common.stats_of(a, b)
        st["probe:executions inside callbacks"] = a["probes"]
        return {"viol": viol, "stats": st, "nt": a["probes"] > 0, "key": harness.digest([scn["prog"], sh]),
                "dig": harness.digest(sh), "trace": {"run": [[e[0], e[1], e[3]] for e in a["log"]]}}
    a = harness.iso(tree, scn)
    if a.get("hang"):
        return a
    viol = a["viol"]
    if viol is None:
        a["paths"] = a["paths"][-1::-1][:4]
        b = harness.iso(alones, scn["layout"], scn["prog"], [p for p, _ in a["paths"]])
        if isinstance(b, dict) and b.get("hang"):
            return b
        for (p, x), y in zip(a["paths"], b):
            if x != y:
                viol = {"class": "branch differs", "detail": "the context reached by %r behaves differently when "
                        "other branches were executed" % (p,)}
                break
    st = {"runs": 2, "events": len(scn["ops"]), "probe:nodes": a["nodes"], "probe:repeated executions": a["again"],
          "probe:paths replayed alone": len(a["paths"])}
    return {"viol": viol, "stats": st, "nt": a["again"] > 0, "key": harness.digest([scn["prog"], a["snaps"]]),
            "dig": a["snaps"], "trace": {"paths": a["paths"]}}
