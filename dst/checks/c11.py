"""C11: selections and renames are the net effect of the surviving keywords."""

from .. import common, layout
from ..gen import features

ID = "C11"
QUICK = 14000
QUICK_SECONDS = 25
THOROUGH = 700000
RULE = ("a scenario is a package layout (0-5 sub-packages, names differing in case, non-ASCII names, plugins in "
        "folders, repeated and missing ones), a random program of selection and rename keywords in constructs, "
        "observed through queries between them, and rewinds, aborts and failures; selected sub-packages, plugins "
        "and renames at every callback and at the end are compared with a reference model; non-trivial: more than "
        "two callbacks; distinct: different program or different sequence of (callback, answer)")
FEATS = features("rich", "flag", "types", "if", "for", "loopsp", "assign", "missing", selkw=10, rename=5, select=0.6, exec=0.5,
                 **{"break": 0.5, "cancel": 0.2, "return": 0.2}, query=4, require=0.3)


def gen(rng, tier):
    lay = layout.make_layout(rng, rng.choice([0, 1, 2]), 5)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([6, 10, 16, 24]), depth=rng.choice([1, 1, 2]),
                            keep=("selkw", "query", "rename"), p=0.6)
    p = rng.choice([0, 0, 0.1, 0.2])
    decs = common.make_decs(rng, 40, p, rng.choice([("ab", "rw", "rw", "ex", "no"), ("ab", "rw", "rw", "ex", "no", "sev")]))
    return {"layout": lay, "prog": prog, "decs": decs, "sev": common.make_sev(rng, 0.3)}


def run(scn):
    return common.lockstep(scn, views="inventory")
