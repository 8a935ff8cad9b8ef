"""C17: damaged scripts are contained."""

import copy
import io
import os
import pathlib
import shutil
import tempfile

from .. import common, damage, decide, disk, env, gen as G, harness, layout, model, sched
from ..gen import FEATURES

ID = "C17"
QUICK = 18000
QUICK_SECONDS = 40
THOROUGH = 400000
RULE = ("a scenario is a random program of which either the stored bytes are damaged (flipped, overwritten, lost, "
        "duplicated, zeroed, swapped or stale blocks, cut off) and which is then read from a file, a stream or a "
        "string, or into which one malformed statement is put at a random place of a random block. Damaged bytes: "
        "loading stays within a budget of interpreter steps proportional to the size, nothing but a load failure or "
        "what the callbacks raise leaves run(), error() is called at most once per ending with the state that is then "
        "returned, and the top-level statements before the damage run as in the undamaged script according to the "
        "reference interpreter, unless the script is rejected before its first statement. Malformed statement: "
        "callbacks, states and ending equal those of the reference interpreter, in which the statement raises a Wizard "
        "error when it is reached. non-trivial: at least one callback; distinct: different script or history")
STUB = "mod manager and user (callbacks), sub-package contents, the disk (damage to the stored bytes)"
ASSUMPTIONS = ["malformed statements are those the parser's own single-token repair leaves malformed, followed in "
               "their block by simple statements only"]
FEATS = dict(FEATURES, query=4, select=3, badtype=0.1, unset=0.3, badcall=0.05, unicode=0.5)
BLOCKS = dict(FEATS, **{"if": 3, "for": 2, "while": 2, "loopsp": 1, "select": 4})

MALFORMED = ["a .= False", 'SelectAll "x"', "a[", "a[1", "a[1 = 2", "a = SubPackages[", "a. = 1", "a = 1..",
             "a = .5.x", "a.b = 3", 'a .= "x"', "a . = 2", "True .= a", '"s" .= 1', "a = 3 &&&",
             "a = b[", "a = b[ = ]", "a -=- = 3"]
# whole blocks, malformed in their header
MALFORMED += ["For ( = 3\nb = 1\nEndFor", 'SelectOne ( = 3\nCase "A"\nBreak\nEndSelect', 'x = "abc"[1',
              "Note ( 3", "x = f(1,", "x = = = 2"]
# contained when they are not reached; when they are, the parser repairs some of them.
# The second item: the blocks they may not be put into
WEAK = [["Exec(", ""], ["x = a.b", ""], ["x = ( = 3", ""], ["Cancel (", ""], ["While ( = 3\nb = 1\nEndWhile", ""], ["If ( = 3\nb = 1\nEndIf", ""],
        ["x = $ 3", ""], ["Break Break", ""], ["1 2", ""], ["Exec", ""], ["If", "if"], ["While", "while"], ["For i", "for"],
        ["For i from 1 to", "for"], ["SelectOne", "select"], ['SelectOne "q"', "select"], ['SelectOne "q", "A"', "select"]]
SIMPLE = ("set", "cset", "expr", "kw", "break", "continue", "return", "cancel")

# steps of the interpreter allowed for loading, per byte and for any script: ten times
# the largest ratio seen over many thousand damaged scripts
PER_CHAR = 14000
BASE = 50
RUN_BUDGET = 900_000


# ---------------------------------------------------------------------- generation

def blocks(prog, path=()):
    """Paths of all the bodies inside of blocks."""
    for i, st in enumerate(prog):
        for sub in sub_bodies(st):
            p = path + ((i,) + sub,)
            yield p
            yield from blocks(get(st, sub), p)


def sub_bodies(st):
    k = st[0]
    if k == "if":
        yield (2,)
        for j in range(len(st[3])):
            yield (3, j, 1)
        if st[4] is not None:
            yield (4,)
    elif k == "for":
        yield (3,)
    elif k == "while":
        yield (2,)
    elif k == "select":
        for j in range(len(st[4])):
            yield (4, j, 1)
        if st[5] is not None:
            yield (5,)


def get(x, idx):
    for i in idx:
        x = x[i]
    return x


def body_at(prog, path):
    b = prog
    for p in path:
        b = get(b, p)
    return b


def kinds_of(prog, path):
    """The kinds of the blocks around a body."""
    res = []
    b = prog
    for p in path:
        res.append(b[p[0]][0])
        b = get(b, p)
    return res


def kill(rng, prog, path):
    """Make one of the blocks around a body one that is not executed."""
    b = prog
    at = rng.randrange(len(path))
    for n, p in enumerate(path):
        st = b[p[0]]
        if n == at:
            if st[0] == "if":
                if p[1] == 2:
                    st[1] = ["bool", False]
                elif p[1] == 3:
                    st[3][p[2]][0] = ["bool", False]
                else:
                    st[1] = ["bool", True]
            elif st[0] == "for":
                st[2] = ["range", ["int", 2], ["int", 1], None]
            elif st[0] == "while":
                st[1] = ["bool", False]
            elif p[1] == 4:
                st[4][p[2]][0] = ["str", "never"]
            return
        b = get(b, p)


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 3)
    if rng.random() < 0.5:
        for _ in range(20):
            prog = common.make_prog(rng, BLOCKS, lay, size=rng.choice([4, 8, 12]), depth=rng.choice([2, 3]),
                                    keep=("select", "if"), p=0.7)
            paths = list(blocks(prog))
            if paths:
                break
        else:
            prog = [["if", ["bool", True], [], [], None]]
            paths = list(blocks(prog))
        prog = copy.deepcopy(prog)
        path = rng.choice(paths)
        b = body_at(prog, path)
        at = rng.randrange(len(b) + 1)
        if b and b[0][0] in ("cset", "set") and at == 0:
            at = 1     # the step of a bounded loop stays in front
        tail = [s for s in b[at:] if follows(s)]
        if rng.random() < 0.35:
            around = kinds_of(prog, path)
            t, not_in = rng.choice(WEAK)
            while not_in and not_in in around:
                t, not_in = rng.choice(WEAK)
            raw = ["raw", t, 1]
        else:
            raw = ["raw", rng.choice(MALFORMED)]
        b[at:] = [raw] + tail
        if len(raw) > 2 or rng.random() < 0.4:
            kill(rng, prog, path)
        prog = G.norm(prog)
        return {"mode": "contain", "layout": lay, "prog": prog, "sev": common.make_sev(rng, 0.2),
                "decs": common.make_decs(rng, 30, rng.choice([0, 0, 0.1, 0.25]), ("rw", "rw", "ab", "no", "ex"))}
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([2, 4, 8, 12]), depth=rng.choice([1, 2, 3]), p=0.7)
    return {"mode": "damage", "layout": lay, "prog": prog, "enc": rng.choice(disk.ENCODINGS[1:] + ["utf-8-sig"]),
            "ops": damage.make(rng, rng.choice([1, 1, 1, 2, 5])), "src": rng.choice(["path", "path", "bytesio", "str"]),
            "plan": disk.make_plan(rng), "sev": common.make_sev(rng, 0.1),
            "decs": common.make_decs(rng, 20, rng.choice([0, 0, 0.1, 0.2]), ("rw", "ab", "no", "ex", "bx"))}


def follows(st):
    """Statements put after a malformed one: nothing that would complete it, not even if
    the keyword in front of it was dropped."""
    if st[0] in ("kw", "expr", "cancel"):
        e = st[1] if st[0] != "kw" else (st[2] or [None])[0]
        if e is not None and not (G.rx(e)[0] in "\"'" or (st[0] == "expr" and G.rx(e)[0] != "(")):
            return False
    return st[0] in SIMPLE


def candidates(scn):
    """Smaller scenarios; a malformed statement stays in a block, before simple ones."""
    for c in harness.scn_candidates(scn):
        if scn["mode"] != "contain" or fine(c["prog"]):
            yield c


def fine(prog):
    def ok(body):
        seen = False
        for st in body:
            if seen and not follows(st):
                return False
            seen = seen or st[0] == "raw"
        return True

    return not any(s[0] == "raw" for s in prog) and all(ok(body_at(prog, p)) for p in blocks(prog))


# ------------------------------------------------------------------------- damage

def stored(scn):
    """Undamaged bytes, damaged bytes, number of top-level statements that precede the
    damage by at least one statement."""
    prog = scn["prog"]
    enc = scn["enc"] if scn["src"] != "str" else "utf-8"
    full = disk.encode(G.render(prog), enc)
    ends = [len(disk.encode(G.render(prog[:k]), enc)) for k in range(len(prog) + 1)]
    ok = [full.startswith(disk.encode(G.render(prog[:k]), enc)) for k in range(len(prog) + 1)]
    bad = damage.apply(full, scn["ops"])
    n = 0
    while n < min(len(bad), len(full)) and bad[n] == full[n]:
        n += 1
    k = 0
    if n >= 4:      # otherwise the byte-order mark may be damaged
        k = max([j for j in range(len(prog) + 1) if ends[j] <= n and ok[j]] or [0])
    if bad == full:
        return full, bad, len(prog)
    return full, bad, max(0, k - 1)


def damaged(scn):
    _full, bad, _k = stored(scn)
    top = tempfile.mkdtemp(prefix="dst-c17-")
    try:
        path = os.path.join(top, "wizard.txt")
        with open(path, "wb") as f:
            f.write(bad)

        def source():
            if scn["src"] == "path":
                return pathlib.Path(path)
            if scn["src"] == "bytesio":
                return io.BytesIO(bad)
            return bad.decode("utf-8", "replace")

        res = {"load": None, "n": len(bad)}
        with disk.Disk(path, bad, scn["plan"]) as d:
            r = env.SimRunner(scn["layout"], (), 60)
            with sched.Budget(PER_CHAR * (len(bad) + BASE)) as b:
                try:
                    r.make_top_level_context(source())
                except env.SimStop:
                    res["load"] = ["hang"]
                except Exception as e:  # noqa: BLE001
                    res["load"] = [type(e).__name__, isinstance(e, (env.werrors.WizardError, UnicodeError, LookupError))]
            res["spent"] = b.spent
            res["during load"] = len(r.log)
            if res["load"] == ["hang"]:
                return res
            r = env.SimRunner(scn["layout"], scn["decs"], 60)
            env.apply_sev(r, scn["sev"])
            with sched.Budget(RUN_BUDGET + res["spent"]) as b:
                end = env.run_real(r, source())
            res.update(log=r.log, end=end, fired=r.fired, blown=b.blown, open=d.book["open"],
                       err=repr(r.last_error)[:200])
        return res
    finally:
        shutil.rmtree(top, ignore_errors=True)


def judge(scn, a):
    load = a["load"]
    if load == ["hang"]:
        return {"class": "loading does not end", "detail": "more than %d interpreter steps for %d bytes" % (
            PER_CHAR * (a["n"] + BASE), a["n"])}
    if a["during load"]:
        return {"class": "callback while loading", "detail": "%d callbacks" % a["during load"]}
    log, end = a["log"], a["end"]
    if load is not None:
        if not load[1]:
            return {"class": "load fails with another error", "detail": "%s" % load[0]}
        if end != ["raised", None, load[0]] or log:
            return {"class": "failed load executed", "detail": "loading raises %s, run() ended %s after %d callbacks" % (
                load[0], common.short(end), len(log))}
        return None
    if a["blown"]:
        return None         # an endless loop is what the damaged script says
    if a["open"]:
        return {"class": "file left open", "detail": "%d files" % a["open"]}
    if end[0] == "raised":
        d = log[-1][3] if log else None
        tok = end[1]
        if tok is None or d is None or d[0] not in ("ex", "bx") or d[2] != tok:
            return {"class": "exception left run()", "detail": "%s after %d callbacks [last error: %s]" % (
                common.short(end), len(log), a["err"])}
        if d[0] == "ex" and log[-1][0] != "error":
            return {"class": "exception left run()", "detail": "%s was raised by %s, not by error()" % (
                d[1], log[-1][0])}
    for i, (k, _a, s, d) in enumerate(log):
        if k == "error" and d is not None and d[0] in ("ans", "sev"):
            if i != len(log) - 1 or end[:2] != ["end", "ERROR"]:
                return {"class": "went on after error()", "detail": "event %d of %d, ended %s" % (
                    i, len(log), common.short(end))}
            if end[2] != s:
                return {"class": "final state differs", "detail": "from the state when error() was called: %r %r %r" %
                        common.diff_state(end[2], s)}
    if end[:2] == ["end", "ERROR"] and (not log or log[-1][0] != "error"):
        return {"class": "ERROR without error()", "detail": "last callback %s" % (log[-1][0] if log else None)}
    return prefix(scn, a)


def prefix(scn, a):
    """The statements before the damage run as in the undamaged script."""
    _full, bad, k = stored(scn)
    prog = scn["prog"]
    try:
        mev, mend = model.run_model(prog[:k], scn["layout"], scn["decs"], scn.get("sev"), 60)
    except model.TooLong:
        return None
    log = [[e[0], ["script"] if e[0] == "error" and e[1][0] == "script" else ([] if e[0] == "warning" else e[1]), e[2],
            e[3]] for e in a["log"]]
    if (log and log[0][0] == "error" and log[0][1] == ["script"]
            and (bad != _full) and not any(log[0][2].values())
            and not (mev and mev[0][:3] == log[0][:3])):
        # rejected before its first statement
        for e in log:
            if e[0] not in ("error", "cancel") or any(e[2].values()):
                return {"class": "rejected script executed", "detail": "%s %r" % (e[0], e[1])}
        return None
    kinds = [e[0] for e in mev]
    if "complete" in kinds:
        m = kinds.index("complete")
        g, w = (log[:m], ["end", "-", {}]), (mev[:m], ["end", "-", {}])
    else:
        g, w = (log, common.norm_end(a["end"])), (mev, common.norm_end(mend))
    v = common.compare(g, w, ("damaged", "undamaged"))
    if v:
        v["class"] = "before the damage: " + v["class"]
        v["detail"] += " (%d statements before the damage) [last error: %s]" % (k, a["err"])
    return v


def run(scn):
    if scn["mode"] == "contain":
        res = common.lockstep(scn)
        if "stats" in res:
            res["stats"]["probe:mode contain"] = 1
            if any(e[0] == "error" for e in (res.get("trace") or {}).get("reference", [])):
                res["stats"]["probe:malformed statement or other error reached"] = 1
            res["stats"]["fault:malformed statement"] = 1
        return res
    a = harness.iso(damaged, scn, scale=10)
    if a.get("hang"):
        return a
    viol = judge(scn, a)
    st = {"runs": 2, "probe:mode damage": 1, "bytes": a["n"], "steps while loading": a["spent"]}
    for o in scn["ops"]:
        st["fault:damage " + o[0]] = st.get("fault:damage " + o[0], 0) + 1
    if "log" not in a:
        return {"viol": viol, "stats": st, "nt": True, "key": harness.digest([scn["prog"], scn["ops"]]), "dig": ""}
    rec = {"log": a["log"], "end": a["end"], "fired": a["fired"]}
    st.update({k: v for k, v in common.stats_of(rec).items() if k != "runs"})
    if a["load"]:
        st["probe:load fails"] = 1
    if a["log"] and a["log"][-1][0] == "error":
        st["probe:error reported"] = 1
    st["probe:statements before the damage"] = stored(scn)[2]
    sh = common.shape(a["log"])
    return {"viol": viol, "stats": st, "nt": bool(a["log"]), "key": harness.digest([scn["prog"], scn["ops"], sh]),
            "dig": harness.digest([sh, a["end"][:2]]),
            "trace": {"bytes": stored(scn)[1].decode("latin-1"), "log": [[e[0], e[1], e[3]] for e in a["log"]],
                      "end": a["end"], "load": a["load"], "err": a["err"]}}
