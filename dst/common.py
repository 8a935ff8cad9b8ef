"""Pieces shared by the checks: scenario generation, runs, comparison of histories."""

from __future__ import annotations

import random

from . import decide, env, gen, harness, layout, model

ISSUES = ["USAGE_OF_NOTSET_VARIABLES", "MULTIPLE_DEFAULTS_IN_SELECT_ON",
          "USAGE_OF_ANYTHING_IN_NOTE", "SELECT_MISSING_SUBPACKAGE", "SELECT_MISSING_PLUGIN"]
SEVS = ["ERROR", "WARNING", "ALLOW"]

# ------------------------------------------------------------------- generation


def make_prog(rng: random.Random, feats, lay, size=None, depth=3, p=0.75, keep=()):
    f = gen.swarm(rng, feats, keep, p)
    if depth and rng.random() < 0.04:
        # deep, or long
        if rng.random() < 0.5:
            depth, size = depth + 4, 24
        else:
            size = 50
    g = gen.Gen(rng, f, lay, size=size or rng.choice([5, 9, 14, 20]), depth=depth)
    prog = g.program()
    if depth and rng.random() < 0.025:
        deepen(rng, prog)
    return gen.norm(prog)


def deepen(rng, prog):
    """Puts one statement into many blocks that make no difference."""
    blocks = [b for b in gen.bodies(prog) if b]
    if not blocks:
        return
    block = rng.choice(blocks)
    i = rng.randrange(len(block))
    inner = block[i]
    for _ in range(rng.choice([5, 9, 14, 20])):
        c = rng.random()
        if c < 0.6:
            inner = ["if", ["int", 1], [inner], [], None]
        elif c < 0.8:
            inner = ["if", ["bool", False], [], [[["bool", True], [inner]]], None]
        else:
            inner = ["if", ["int", 0], [], [], [inner]]
    block[i] = inner


def make_sev(rng: random.Random, p=0.5):
    """An initial assignment of severities."""
    if rng.random() > p:
        return {}
    s = {}
    if rng.random() < 0.5:
        s["default"] = rng.choice(SEVS)
    for i in ISSUES:
        if rng.random() < 0.35:
            s[i] = rng.choice(SEVS)
    return s


def make_decs(rng: random.Random, n, p=0.15, ops=("ab", "rw", "ex", "sev"), big=1000):
    """n decisions, each a disturbance with probability p."""
    res = []
    for i in range(n):
        if ops and rng.random() < p:
            o = rng.choice(ops)
            if o == "ab":
                res.append(["ab"])
            elif o == "rw":
                res.append(["rw", rng.choice([rng.randrange(4), rng.randrange(40), i, max(0, i - 1)])])
            elif o == "ex":
                old = [d for d in res if d[0] == "ex"]
                # sometimes the very exception raised before
                res.append(list(rng.choice(old)) if old and rng.random() < 0.2
                           else ["ex", rng.choice(env.ORDINARY), "t%d" % i])
            elif o == "bx":
                res.append(["bx", rng.choice(env.NOT_ORDINARY), "t%d" % i])
            elif o == "sev":
                res.append(["sev", rng.choice(["default"] + ISSUES), rng.choice(SEVS), rng.randrange(big)])
            elif o == "no":
                res.append(["ans", rng.randrange(big) * 2])
        else:
            res.append(["ans", rng.randrange(big)])
    return res


# -------------------------------------------------------------------------- runs


def real_run(lay, prog, decs, sev=None, cap=150, views=False, text=None, runner=None, style=()):
    """One run on a new runner; JSON-able record of everything observable."""
    r = runner or env.SimRunner(lay, decs, cap)
    r.style = style
    env.apply_sev(r, sev)
    r.views = views
    end = env.run_real(r, gen.render(prog) if text is None else text)
    return {"log": r.log, "end": end, "fired": r.fired, "views": r.view_errors,
            "err": repr(getattr(r, "last_error", None))[:300]}


def stats_of(*recs):
    st = {"runs": len(recs), "events": 0}
    for r in recs:
        st["events"] += len(r["log"])
        for k, v in r["fired"].items():
            st["fault:" + k] = st.get("fault:" + k, 0) + v
        e = r["end"]
        name = "probe:ended " + (e[1] if e[0] == "end" else e[0])
        st[name] = st.get(name, 0) + 1
        for k, _a, _s, _d in r["log"]:
            st["probe:callback " + k] = st.get("probe:callback " + k, 0) + 1
    return st


def shape(log):
    """The interleaving of a run: callbacks and what was decided there."""
    return [[e[0], (e[3] or ["-"])[0] if (e[3] or ["-"])[0] != "ans" else (e[3][1] % 12)] for e in log]


def diff_state(a, b):
    for k in a:
        if a[k] != b.get(k):
            return k, a[k], b.get(k)
    return None


def compare(got, want, names=("got", "expected"), texts=True):
    """Compare two (log, end) pairs of [kind, args, state, ...] lists. Returns None or
    {"class", "detail"}."""
    glog, gend = got
    wlog, wend = want

    def args(e):
        return e[1] if texts or e[0] != "warning" else []

    for i in range(max(len(glog), len(wlog))):
        if i >= len(glog):
            return {"class": "callback missing", "detail": "event %d: %s made no callback (ended %s), %s %s%r" % (
                i, names[0], short(gend), names[1], wlog[i][0], args(wlog[i]))}
        if i >= len(wlog):
            return {"class": "extra callback", "detail": "event %d: %s %s%r, %s ended %s" % (
                i, names[0], glog[i][0], args(glog[i]), names[1], short(wend))}
        g, w = glog[i], wlog[i]
        if g[0] != w[0]:
            return {"class": "callback differs", "detail": "event %d: %s %s%r, %s %s%r" % (
                i, names[0], g[0], args(g), names[1], w[0], args(w))}
        if args(g) != args(w):
            return {"class": "arguments differ", "detail": "event %d: %s: %s %r, %s %r" % (
                i, g[0], names[0], args(g), names[1], args(w))}
        if g[2] != w[2]:
            k, x, y = diff_state(g[2], w[2]) or ("?", g[2], w[2])
            return {"class": "state differs", "detail": "event %d (%s): %s: %s %r, %s %r" % (
                i, g[0], k, names[0], x, names[1], y)}
    if gend != wend:
        if gend[0] == wend[0] == "end" and gend[1] == wend[1]:
            k, x, y = diff_state(gend[2], wend[2]) or ("?", gend[2], wend[2])
            return {"class": "final state differs", "detail": "final %s: %s %r, %s %r" % (
                k, names[0], x, names[1], y)}
        return {"class": "ending differs", "detail": "%s ended %s, %s %s" % (
            names[0], short(gend), names[1], short(wend))}
    return None


def short(end):
    if end[0] == "end":
        return end[1]
    return " ".join(str(x) for x in end)


def norm_end(end):
    """Endings of the real runner without the exception type."""
    if end[0] == "raised" and end[2:] == [""]:
        return end[:2]      # the very exception error() got
    return end[:2] if end[0] == "raised" and end[1] is not None else end


# ---------------------------------------------------------------------- lockstep


def make_style(rng, p=0.5, names=("copies", "tuple", "reuse", "itself", "loose")):
    """The habits of a user."""
    return [n for n in names if rng.random() < p] if rng.random() < 0.6 else []


def lockstep_child(lay, prog, decs, sev, cap, views, style=()):
    rec = real_run(lay, prog, decs, sev, cap, views, style=style)
    return rec


def lockstep(scn, cap=150, views=False):
    """Real runner against the reference interpreter."""
    try:
        mev, mend = model.run_model(scn["prog"], scn["layout"], scn["decs"], scn.get("sev"), cap,
                                     start=model.Start(plain="plain" in scn.get("style", ())))
    except model.TooLong:
        return {"viol": None, "stats": {"probe:skipped, unbounded script": 1}, "nt": False, "key": "", "dig": ""}
    rec = harness.iso(lockstep_child, scn["layout"], scn["prog"], scn["decs"], scn.get("sev"), cap, views,
                      scn.get("style", ()))
    if rec.get("hang"):
        return rec
    log = []
    for k, a, s, d in rec["log"]:
        if k == "error" and a[0] == "script":
            a = ["script"]
        log.append([k, [] if k == "warning" else a, s, d])
    viol = compare((log, norm_end(rec["end"])), (mev, norm_end(mend)), ("real", "reference"))
    if viol is None and rec["views"]:
        viol = {"class": "views differ", "detail": rec["views"][0]}
    if viol is not None and rec["err"] != "None":
        viol["detail"] += "  [last error: %s]" % rec["err"]
    sh = shape(rec["log"])
    return {"viol": viol, "stats": stats_of(rec), "nt": len(log) > 2,
            "key": harness.digest([scn["prog"], sh]), "dig": harness.digest(sh),
            "trace": {"real": [[e[0], e[1], e[3]] for e in rec["log"]], "end": rec["end"],
                      "reference": [[e[0], e[1]] for e in mev]}}
