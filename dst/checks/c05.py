"""C05: rewind and abort are honoured from every callback, never leak out of run."""

from .. import common, layout
from ..gen import features

ID = "C05"
QUICK = 14000
QUICK_SECONDS = 25
THOROUGH = 700000
RULE = ("a scenario is a short random program reaching every kind of callback (dialogs, queries, requirement checks, "
        "warnings, errors by failing statements, cancel and complete) and a long sequence of decisions in which "
        "20-70% of the callbacks rewind, abort, raise or decline, in chains (an abort in the cancel() of an abort in "
        "the error() of a failure ...); callbacks, states and ending are compared with a reference model of the run "
        "loop; non-trivial: a rewind, abort or exception from error(), cancel(), complete() or warning(); distinct: "
        "different program or different sequence of (callback, decision)")
FEATS = features("types", "if", "assign", "unset", "missing", "notenonstr", "multidef", note=2, selkw=2, select=2, query=3,
                 require=2, cancel=2.5, badtype=1, badcall=0.4, exec=0.5, rename=0.5,
                 **{"for": 0.7, "break": 0.5, "continue": 0.4, "return": 2.5})


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 2)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([3, 5, 8, 12]), depth=rng.choice([1, 2]),
                            keep=("cancel", "return", "unset", "query"), p=0.7)
    p = rng.choice([0.2, 0.4, 0.7])
    ops = rng.choice([("ab", "rw", "ex", "no"), ("ab", "rw", "no", "rw"), ("ab",), ("ab", "ex", "no"),
                      ("rw", "ex"), ("ab", "rw", "ex", "bx", "no", "sev")])
    decs = common.make_decs(rng, rng.choice([10, 25, 60]), p, ops)
    return {"layout": lay, "prog": prog, "decs": decs, "sev": common.make_sev(rng, 0.3),
            "style": ["plain"] if rng.random() < 0.1 else common.make_style(rng)}


def run(scn):
    res = common.lockstep(scn, cap=100)
    if res.get("hang") or "trace" not in res:
        return res
    end = res["trace"]["end"]
    if res["viol"] and end[0] == "raised" and end[1] is None:
        res["viol"]["class"] = "leak"
        res["viol"]["detail"] = "%s left run(); %s" % (end[2], res["viol"]["detail"])
    hard = [e for e in res["trace"]["real"] if e[2] and e[2][0] in ("ab", "rw", "ex", "bx")
            and e[0] in ("error", "cancel", "complete", "warning")]
    res["nt"] = bool(hard)
    return res
