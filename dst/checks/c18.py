"""C18: a run is a function of the script, the packages and the answers only."""

import random
import re

from .. import common, damage, env, gen as G, harness, layout, sched, zygote
from ..gen import FEATURES

ID = "C18"
QUICK = 5200
QUICK_SECONDS = 40
THOROUGH = 200000
RULE = ("a scenario is a target run (random program, packages, severities, answers with rewinds, aborts and failures) "
        "executed in a process without history, in the same process after random histories (runs of other and of "
        "damaged scripts, failed loads, runs of the target itself, interrupted runs, dropped and kept results; on the "
        "same and on other runners), and in processes of other hash seeds, locales, time zones, optimisation levels and "
        "of an empty parser cache; everything observable, warning texts, error types and texts, the order of variables, "
        "renames, selections and tweak views included, must be identical; non-trivial: at least two callbacks; "
        "distinct: different target, history or environment")
STUB = "mod manager and user (callbacks), sub-package contents; processes are real Python processes"
FEATS = dict(FEATURES, query=4, badtype=0.3, unset=0.6, select=3, selkw=5, rename=4, note=2, ini=4, missing=1,
             multidef=0.8, badcall=0.3, void=0.8)


def part(rng, lay, big):
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([6, 10, 16] if big else [2, 5, 9]),
                            depth=rng.choice([1, 2, 3]), keep=("selkw",) if big else (), p=0.7)
    return {"layout": lay, "prog": prog,
            "decs": common.make_decs(rng, 30, rng.choice([0, 0, 0.1, 0.25]), ("rw", "ab", "no", "ex", "bx")),
            "sev": common.make_sev(rng, 0.4)}


def gen(rng, tier):
    lay = layout.make_layout(rng, 1, 5)
    scn = part(rng, lay, True)
    hist = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        c = rng.random()
        if c < 0.12:
            h = {"same": True}
        elif c < 0.32:
            # almost the target: what tells the two apart must not be lost
            h = {"same": True, "near": [rng.choice(NEAR), rng.randrange(1 << 30)]}
        else:
            h = part(rng, lay if rng.random() < 0.5 else layout.make_layout(rng, 0, 4), False)
            c = rng.random()
            if c < 0.3:
                h["damage"] = damage.make(rng, rng.choice([1, 3]))
            elif c < 0.45:
                h["fault"] = [rng.randrange(1, 4000), rng.choice(["KeyboardInterrupt", "MemoryError"]), "F", "any"]
        h["keep"] = rng.random() < 0.5
        h["runner"] = rng.random() < 0.3     # the target's own runner
        hist.append(h)
    scn["seqhist"] = hist
    scn["seqenv"] = rng.sample(["hash1", "hash2", "hash3"], rng.choice([1, 1, 2]))
    if rng.random() < 0.06:
        scn["seqenv"].append("cold")
    scn["envhist"] = rng.random() < 0.3
    return scn


NEAR = ("swapcase", "upper", "lower", "digits", "letters", "blanks", "tail", "head", "comments", "types", "types")


def near(text, kind, k):
    """A text differing from the given one in little."""
    rng = random.Random(k)
    if kind in ("swapcase", "upper", "lower"):
        # of strings only, so that it is still a script; a part of them
        return re.sub(r'"[^"]*"|\'[^\']*\'', lambda m: getattr(m[0], kind)() if rng.random() < 0.7 else m[0], text)
    if kind == "digits":
        return re.sub(r"\d", lambda m: str(rng.randrange(10)) if rng.random() < 0.3 else m[0], text)
    if kind == "types":
        # equal values of another type
        other = {"0": ["0.0", "False"], "1": ["1.0", "True"], "True": ["1", "1.0"], "False": ["0", "0.0"]}
        return re.sub(r"(?<![\w.])(\d+|True|False)(?![\w.])",
                      lambda m: rng.choice(other.get(m[0], [m[0] + ".0"])) if rng.random() < 0.7 else m[0], text)
    if kind == "letters":
        return re.sub(r'(?<=["\'])\w', lambda m: rng.choice("abX") if rng.random() < 0.4 else m[0], text)
    if kind == "blanks":
        return re.sub(r" ", lambda m: rng.choice([" ", "  ", "\t"]) if rng.random() < 0.4 else m[0], text)
    if kind == "tail":
        return text + rng.choice(["\n", " ", "\n; end", '\nNote "more"\n'])
    if kind == "head":
        return rng.choice(["\n", "; start\n", 'Note "more"\n']) + text
    return re.sub(r"\n", lambda m: " ; c\n" if rng.random() < 0.3 else m[0], text)


ADDR = re.compile(r"0x[0-9a-fA-F]+")


def observe(r, end):
    """Everything a user sees of a run, in the order it is given."""
    e = r.last_error
    return {"log": r.log, "end": end, "fired": r.fired,
            "err": None if e is None else [type(e).__name__, ADDR.sub("0x", env.text_of(e)),
                                           getattr(e, "line", None), getattr(e, "column", None)]}


class Order(env.SimRunner):
    """Also notes the order of the variables and the views of the tweaks."""

    def reset(self, decisions=(), cap=150, hook=None):
        self.orders = []
        self.final = None
        super().reset(decisions, cap, hook or note)

    def run(self, script):
        res = super().run(script)
        self.final = res[1]
        return res


def note(r, kind, args, index):
    r.orders.append(order(r.captured[index].state))


def order(st):
    kinds = [[m.filename, m.setting, type(m).__name__] for f in st.tweaks.files() for m in st.tweaks.tweaks(f)]
    return [list(st.variables), env.snap_tweaks(st), kinds]


def known(ctx):
    """The packages and plugins the script can select, as reported, in order."""
    k = ctx.factory.kvisitor
    return [[x.name for x in getattr(k, n, ())] for n in ("subpackages", "plugins")]


def text_of(h):
    t = G.render(h["prog"])
    if h.get("damage"):
        t = damage.apply(t.encode(), h["damage"]).decode("utf-8", "replace")
    if h.get("near"):
        t = near(t, *h["near"])
    return t


def target(scn, hist):
    r = Order(scn["layout"], (), 80)
    kept = []
    for h in hist:
        if h.get("same"):
            h = dict(scn, **h)
        x = r if h["runner"] else env.SimRunner(h["layout"])
        x.reset(h["decs"], 50)
        if x is not r:
            env.apply_sev(x, h["sev"])
        if h.get("fault"):
            with sched.Watch(x, h["fault"], count_execs=False):
                env.run_real(x, text_of(h))
        else:
            with sched.Budget(400_000):
                env.run_real(x, text_of(h))
        if h["keep"]:
            kept.append([x, x.captured, x.log])
    r.reset(scn["decs"], 80)
    env.apply_sev(r, scn["sev"])
    end = env.run_real(r, G.render(scn["prog"]))
    res = observe(r, end)
    res["orders"] = r.orders
    if r.final is not None:
        res["orders"].append(order(r.final))
    if r.captured:
        res["orders"].append(known(r.captured[-1]))
    return res


def differ(got, want, name):
    v = common.compare((got["log"], got["end"]), (want["log"], want["end"]), (name, "without history"))
    if v:
        return v
    if got["err"] != want["err"]:
        return {"class": "error differs", "detail": "%s %r, without history %r" % (name, got["err"], want["err"])}
    if got["orders"] != want["orders"]:
        for i, (a, b) in enumerate(zip(got["orders"], want["orders"])):
            if a != b:
                return {"class": "order differs", "detail": "callback %d: %s %r, without history %r" % (i, name, a, b)}
    return None


def run(scn):
    ref = harness.iso(target, scn, [])
    if ref.get("hang"):
        return ref
    recs = [ref]
    viol = None
    st = {}
    if scn["seqhist"]:
        got = harness.iso(target, scn, scn["seqhist"])
        if got.get("hang"):
            return got
        recs.append(got)
        viol = differ(got, ref, "after a history of %d runs" % len(scn["seqhist"]))
        for h in scn["seqhist"]:
            n = "fault:history " + ("near the target" if h.get("near") else "of the target" if h.get("same") else "damaged script" if h.get("damage") else
                                    "interrupted run" if h.get("fault") else "other run")
            st[n] = st.get(n, 0) + 1
    for k in scn["seqenv"]:
        if viol:
            break
        got = zygote.call(k, __name__, "target", scn, scn["seqhist"] if scn["envhist"] else [])
        if got.get("hang"):
            return got
        recs.append(got)
        e = zygote.KINDS[k]
        viol = differ(got, ref, "in a process with %s%s%s" % (
            " ".join("%s=%s" % x for x in sorted(e[0].items())), " -O" if e[1] else "",
            "" if e[2] else " that parsed nothing before"))
        st["fault:process " + k] = 1
    st.update(common.stats_of(*recs))
    st["runs"] = len(recs) + len(scn["seqhist"])
    sh = common.shape(ref["log"])
    return {"viol": viol, "stats": st, "nt": len(ref["log"]) > 1,
            "key": harness.digest([scn["prog"], sh, scn["seqhist"], scn["seqenv"]]), "dig": harness.digest(sh),
            "trace": {"log": [[e[0], e[1], e[3]] for e in ref["log"]], "end": ref["end"], "err": ref["err"]}}
