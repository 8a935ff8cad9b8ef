"""C15: the severity in force at each occurrence decides its treatment."""

from .. import common, layout
from ..gen import features

ID = "C15"
QUICK = 14000
QUICK_SECONDS = 25
THOROUGH = 700000
RULE = ("a scenario is a random assignment of severities, a random program full of tolerated issues (unset "
        "variables, several defaults in SelectOne, non-string notes, missing sub-packages and plugins) in all "
        "constructs, and severity changes made from inside callbacks (warnings included), with rewinds and aborts; "
        "warning() and error() calls and the effects of the statements are compared with a reference model; "
        "non-trivial: more than two callbacks; distinct: different program or different sequence of "
        "(callback, answer)")
FEATS = features("if", "for", "while", "assign", selkw=5, note=4, select=3, exec=0.7, query=3, unset=1, missing=1,
                 multidef=1, notenonstr=1, require=0.4, rename=0.3, **{"break": 0.7, "cancel": 0.2})


def gen(rng, tier):
    lay = layout.make_layout(rng, rng.choice([0, 1]), 4)
    f = dict(FEATS)
    prog = common.make_prog(rng, f, lay, size=rng.choice([5, 9, 14, 20]), depth=rng.choice([1, 2, 3]),
                            keep=("unset", "missing", "multidef", "notenonstr", "note", "selkw"), p=0.7)
    stress(rng, prog)
    p = rng.choice([0.1, 0.25, 0.4])
    ops = ("sev", "sev", "sev", "rw", "ab", "no") if rng.random() < 0.4 else ("sev",)
    decs = common.make_decs(rng, 50, p, ops)
    sev = common.make_sev(rng, 0.8)
    if rng.random() < 0.5:
        # failing statements end the run: keep them for later
        for k in list(sev):
            if sev[k] == "ERROR" and rng.random() < 0.6:
                sev[k] = rng.choice(["WARNING", "ALLOW"])
    return {"layout": lay, "prog": prog, "decs": decs, "sev": sev}


def stress(rng, prog):
    """More occurrences of the issues than the generator makes."""
    from ..gen import bodies
    for b in list(bodies(prog)):
        for i in range(len(b), -1, -1):
            if rng.random() < 0.15:
                b.insert(i, rng.choice([
                    ["set", "m", ["var", "u%d" % rng.randrange(3)]],
                    ["set", "v0", ["bin", "+", ["var", "u1"], ["var", "u2"]]],
                    ["kw", "Note", [["int", rng.randrange(9)]]],
                    ["kw", "Note", [["bool", True]]],
                    ["kw", "Note", [["var", "u0"]]],
                    ["kw", "SelectSubPackage", [["str", "Nope"]]],
                    ["kw", "SelectPlugin", [["str", "nope.esp"]]],
                    ["set", "m", ["call", "GetFilename", [["bin", "+", ["str", "q"], ["call", "str", [["var", "u1"]]]]]]],
                ]))


def run(scn):
    return common.lockstep(scn)
