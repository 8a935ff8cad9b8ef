"""C13: manager queries are made exactly as written and their answers are used."""

from .. import common, layout
from ..gen import features

ID = "C13"
QUICK = 12000
QUICK_SECONDS = 25
THOROUGH = 700000
RULE = ("a scenario is a random program of query functions (all of them, optional arguments given and left out, "
        "1-3 variable arguments, nested in expressions, conditions, loop headers, dialogs, keywords, Exec) and "
        "RequireVersions with 1-4 arguments, with wrong numbers and types of arguments in between, random answers, "
        "and answers replaced by failures, aborts and rewinds; calls, arguments, and the values seen later are "
        "compared with an independent reference interpreter; non-trivial: more than two callbacks; distinct: "
        "different program or different sequence of (callback, answer)")
FEATS = features("rich", "flag", "types", "if", "for", "while", "assign", "sidefx", "unicode", query=12, require=4, badcall=0.25, select=1.2,
                 exec=0.8, note=1, rename=0.7, ini=0.7, **{"break": 0.5, "cancel": 0.3})


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 2)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([4, 8, 12, 20]), depth=rng.choice([1, 2, 3]),
                            keep=("query", "require"), p=0.6)
    p = rng.choice([0, 0, 0.05, 0.15])
    decs = common.make_decs(rng, 40, p, rng.choice([("ab", "rw", "ex", "no"), ("ab", "rw", "ex", "no", "sev")]))
    return {"layout": lay, "prog": prog, "decs": decs}


def run(scn):
    return common.lockstep(scn)
