"""C10: statements execute in the order and number the script prescribes."""

from .. import common, layout
from ..gen import features

ID = "C10"
QUICK = 12000
QUICK_SECONDS = 25
THOROUGH = 600000
RULE = ("a scenario is a random program over the control-flow statements (nesting up to 4) whose "
        "marker queries are recorded, a sequence of answers, and rewinds/aborts with declined cancels "
        "between them; the real run is compared callback by callback, state by state with an "
        "independent reference interpreter; non-trivial: more than two callbacks; distinct: different "
        "program or different sequence of (callback, answer)")
FEATS = features("rich", "flag", "if", "for", "while", "loopsp", "inc", "assign", "sidefx", select=2.5,
                 exec=1.2, **{"break": 2.5, "continue": 2.5, "cancel": 0.5, "return": 0.5},
                 query=6, types=1, badtype=0.08, note=0.7, require=0.5, rename=0.5, ini=0.5)


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 3)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([8, 14, 20, 30]),
                            depth=rng.choice([2, 3, 4]), keep=("query", "assign"), p=0.7)
    c = rng.random()
    if c < 0.6:
        decs = common.make_decs(rng, 30, 0)
    else:
        decs = common.make_decs(rng, 40, 0.1, rng.choice([("rw", "ab", "no"), ("rw", "ab", "no", "ex")]))
    return {"layout": lay, "prog": prog, "decs": decs, "style": common.make_style(rng)}


def run(scn):
    return common.lockstep(scn)
