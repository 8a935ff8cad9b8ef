"""C08: each run ends once, with the status matching how the script ended."""

from .. import common, layout
from ..gen import features

ID = "C08"
QUICK = 12000
QUICK_SECONDS = 25
THOROUGH = 600000
RULE = ("a scenario is a random program with many Cancel and Return statements anywhere (loops, cases, "
        "Exec), and answers of cancel()/complete() that decline or agree, some mixed with rewinds, aborts and "
        "failures; callbacks, states, status and final state are compared with an independent reference "
        "interpreter; non-trivial: more than two callbacks; distinct: different program or different sequence "
        "of (callback, answer)")
FEATS = features("rich", "flag", "types", "if", "for", "while", "loopsp", "inc", "assign", "sidefx", select=1.5, exec=1.5,
                 **{"break": 1, "continue": 1, "cancel": 4, "return": 4}, query=2.5, note=1.5,
                 selkw=1.5, rename=0.7, ini=0.7, require=0.3, badtype=0.1)


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 3)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([5, 8, 14, 20]), depth=rng.choice([1, 2, 3]),
                            keep=("cancel", "return"), p=0.7)
    decline = rng.choice([0.2, 0.6, 0.9, 1.0])
    p = rng.choice([0, 0, 0.1, 0.25])
    decs = common.make_decs(rng, 40, p, rng.choice([("ab", "rw", "rw", "ex"), ("ab", "rw", "ex", "no", "sev")]))
    for d in decs:
        if d[0] == "ans" and rng.random() < decline:
            d[1] -= d[1] % 2
    return {"layout": lay, "prog": prog, "decs": decs,
            "style": ["plain"] if rng.random() < 0.15 else common.make_style(rng)}


def run(scn):
    return common.lockstep(scn)
