"""C12: notes and INI tweaks are recorded once each, in order, with their text."""

from .. import common, layout
from ..gen import features

ID = "C12"
QUICK = 12000
QUICK_SECONDS = 25
THOROUGH = 700000
RULE = ("a scenario is a random program of Note, EditINI and DisableINILine (all value types, texts with quotes, "
        "escapes, non-ASCII and astral characters) in loops, branches, cases and Exec, observed through queries "
        "between and inside them, with rewinds, aborts and failures; notes, tweaks and the per-file views at every "
        "callback and at the end are compared with a reference model; non-trivial: more than two callbacks; "
        "distinct: different program or different sequence of (callback, answer)")
FEATS = features("rich", "flag", "types", "if", "for", "while", "assign", "sidefx", "unicode", "notenonstr", note=8, ini=8, select=1,
                 exec=1, **{"break": 0.7, "continue": 0.5, "cancel": 0.2, "return": 0.2}, query=4, badtype=0.1)


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 2)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([6, 10, 16, 24]), depth=rng.choice([1, 2, 3]),
                            keep=("note", "ini", "query", "unicode"), p=0.6)
    p = rng.choice([0, 0, 0.1, 0.2])
    decs = common.make_decs(rng, 40, p, rng.choice([("ab", "rw", "rw", "ex", "no"), ("ab", "rw", "rw", "ex", "no", "sev")]))
    return {"layout": lay, "prog": prog, "decs": decs, "sev": common.make_sev(rng, 0.3)}


def run(scn):
    return common.lockstep(scn, views=True)
