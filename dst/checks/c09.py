"""C09: dialogs are put once, as written, and the answer selects the cases run."""

from .. import common, layout
from ..gen import features

ID = "C09"
QUICK = 12000
QUICK_SECONDS = 25
THOROUGH = 600000
RULE = ("a scenario is a random program dominated by SelectOne/SelectMany (1-5 options, defaults, repeated and "
        "unlisted labels, cases with and without Break, Default, nesting, in loops and Exec) and random answers "
        "(each option, the default, none, all, reversed, options not listed), with rewinds to and aborts of "
        "dialogs; dialogs, their arguments and the cases run are compared with an independent reference "
        "interpreter; non-trivial: at least one dialog and more than two callbacks; distinct: different program "
        "or different sequence of (callback, answer)")
FEATS = features("rich", "flag", "types", "if", "inc", "assign", "sidefx", "unicode", "multidef", "for", "while", select=8, exec=0.6,
                 **{"break": 1.2, "continue": 0.7, "cancel": 0.3, "return": 0.2}, query=4, note=1, badtype=0.05)


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 2)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([5, 8, 14, 20]), depth=rng.choice([1, 2, 2, 3]),
                            keep=("select", "query"), p=0.7)
    p = rng.choice([0, 0, 0.1, 0.2])
    decs = common.make_decs(rng, 40, p, rng.choice([("ab", "rw", "rw"), ("ab", "rw", "rw"), ("ab", "rw", "ex", "no", "sev")]))
    sev = common.make_sev(rng, 0.2)
    if rng.random() < 0.5:
        for d in decs:
            if d[0] == "ans" and rng.random() < 0.2:
                d[1] -= d[1] % 2
    return {"layout": lay, "prog": prog, "decs": decs, "sev": sev, "style": common.make_style(rng, 0.6)}


def run(scn):
    res = common.lockstep(scn)
    if not res.get("hang"):
        st = res["stats"]
        n = st.get("probe:callback selectOne", 0) + st.get("probe:callback selectMany", 0)
        res["nt"] = res["nt"] and n > 0
    return res
