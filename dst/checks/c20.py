"""C20: errors point at the statement that failed."""

import copy
import json
import random

from .. import common, env, gen as G, harness, layout, model
from ..gen import FEATURES
from .c17 import MALFORMED, SIMPLE, blocks, body_at, follows

ID = "C20"
QUICK = 14000
QUICK_SECONDS = 25
THOROUGH = 600000
RULE = ("a scenario is a random program with failing statements of all kinds (types, names, indexes, arguments, "
        "severities, malformed statements, exceptions of callbacks), written with random blank lines, comments, line "
        "breaks inside of statements and indentation, and answers with rewinds, aborts and failures; every Wizard "
        "error that execution makes must have its line and column inside the statement, block header, Elif or Case "
        "that the reference interpreter is executing at that moment, in the text of the innermost Exec; non-trivial: "
        "at least one error located; distinct: different text or history")
FEATS = dict(FEATURES, badtype=3, badcall=1.2, unset=0.6, multidef=0.6, missing=0.7, notenonstr=0.6, query=4,
             require=1, select=3, exec=1.5)
# malformed statements whose error the parser places in them
PLACED = [m for m in MALFORMED if "\n" not in m]


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 3)
    prog = common.make_prog(rng, FEATS, lay, size=rng.choice([4, 8, 14]), depth=rng.choice([1, 2, 3]), p=0.7,
                            keep=("badtype",) if rng.random() < 0.6 else ())
    if rng.random() < 0.3:
        prog = copy.deepcopy(prog)
        paths = list(blocks(prog))
        if paths:
            b = body_at(prog, rng.choice(paths))
            at = rng.randrange(len(b) + 1)
            if b and b[0][0] in ("cset", "set") and at == 0:
                at = 1
            tail = [s for s in b[at:] if follows(s)]
            b[at:] = [["raw", rng.choice(PLACED)]] + tail
            prog = G.norm(prog)
    sev = common.make_sev(rng, 0.6)
    for i in common.ISSUES:
        if rng.random() < 0.3:
            sev[i] = "ERROR"
    return {"layout": lay, "prog": prog, "sev": sev, "dress": rng.randrange(1 << 30),
            "style": rng.choice([[0, 0], [0.3, 0], [0.3, 0.1], [0.1, 0.4]]),
            "again": rng.choice([None, "runner", "runner", "process"]),
            "decs2": common.make_decs(rng, 20, rng.choice([0, 0.15]), ("ex", "rw", "ab", "no")),
            "decs": common.make_decs(rng, 40, rng.choice([0, 0.15, 0.35]), ("ex", "rw", "rw", "ab", "no", "sev"))}


# --------------------------------------------------------- texts and their places

class Dress:
    """Renders a program with filling, and remembers where everything is."""

    def __init__(self, seed, style):
        self.rng = random.Random(seed)
        self.fill, self.split = style
        self.lines = []
        self.places = {}      # (id of statement, part) -> (line, column, end line, end column)

    def part(self, key, text, whole=False):
        r = self.rng
        while r.random() < self.fill:
            self.lines.append(r.choice(["", "  ", "; note", "\t; x = \"a\" - 1", ";"]))
        pad = " " * (len(text) - len(text.lstrip())) + " " * (r.randrange(4) if self.fill else 0)
        text = text.strip()
        first = len(self.lines) + 1
        cur = pad
        quote = None
        i = 0
        while i < len(text):
            ch = text[i]
            if quote:
                if ch == "\\":
                    cur += ch
                    i += 1
                    ch = text[i]
                elif ch == quote:
                    quote = None
            elif ch in "\"'":
                quote = ch
            elif ch == " " and not whole and r.random() < self.split:
                self.lines.append(cur + r.choice(["", " ", " ; more", ";", " \\"]))
                cur = " " * r.randrange(5)
                i += 1
                continue
            if ch == "\n":          # a line end in a string
                self.lines.append(cur)
                cur = ""
            else:
                cur += ch
            i += 1
        self.lines.append(cur)
        self.places[key] = (first, len(pad), len(self.lines), len(cur))

    def body(self, prog, ind=""):
        for st in prog:
            self.stmt(st, ind)

    def stmt(self, st, ind):
        k = st[0]
        nx = ind + "  "
        one = []

        def head(part, bare):
            # the rendering of the statement without its bodies, line by line
            self.part((id(st), part), ind + bare)

        if k == "if":
            G.rs(["if", st[1], [], [[c, []] for c, _b in st[3]], None], "", one)
            head(0, one[0])
            self.body(st[2], nx)
            for i, (_c, b) in enumerate(st[3]):
                head(1 + i, one[1 + i])
                self.body(b, nx)
            if st[4] is not None:
                head(-1, "Else")
                self.body(st[4], nx)
            head(-2, "EndIf")
        elif k == "for":
            G.rs(["for", st[1], st[2], []], "", one)
            head(0, one[0])
            self.body(st[3], nx)
            head(-2, "EndFor")
        elif k == "while":
            G.rs(["while", st[1], []], "", one)
            head(0, one[0])
            self.body(st[2], nx)
            head(-2, "EndWhile")
        elif k == "select":
            G.rs(st[:4] + [[[c, []] for c, _b in st[4]], None], "", one)
            head(0, one[0])
            for i, (_c, b) in enumerate(st[4]):
                head(1 + i, one[1 + i])
                self.body(b, nx)
            if st[5] is not None:
                head(-1, "Default")
                self.body(st[5], nx)
            head(-2, "EndSelect")
        elif k == "exec":
            inner = Dress(self.rng.randrange(1 << 30), (self.fill, self.split))
            inner.body(st[1])
            self.places.update(inner.places)
            text = "\n".join(inner.lines) + "\n"
            head(0, "Exec(%s)" % G.rx(G.exec_arg(st, text)))
        else:
            G.rs(st, "", one)
            self.part((id(st), 0), ind + one[0], whole=k == "raw")


class Located(env.SimRunner):
    def reset(self, decisions=(), cap=150, hook=None):
        super().reset(decisions, cap, hook)
        self.errors = []

    def error(self, exc):
        if isinstance(exc, env.werrors.WizardError) and getattr(exc, "sim_token", None) is None:
            try:
                place = [exc.line, exc.column, env.text_of(exc)[:200]]
            except Exception as x:  # noqa: BLE001
                place = [-2, -2, repr(x)[:200]]
            self.errors.append([len(self.log), type(exc).__name__] + place)
        return super().error(exc)


def located(lay, decs, sev, texts, same, cap):
    """Runs of the texts, one after the other; the record of each."""
    res = []
    r = Located(lay)
    for text, d in zip(texts, decs):
        if not same:
            r = Located(lay)
        r.reset(d, cap)
        env.apply_sev(r, sev)
        end = env.run_real(r, text)
        res.append({"log": r.log, "end": end, "fired": r.fired, "errors": r.errors})
    return res


def run(scn):
    """The program is run written in one way, then in another."""
    ways = [[scn["dress"], scn["decs"]]]
    if scn.get("again"):
        ways.insert(0, [scn["dress"] + 1, scn["decs2"]])
    known = []
    for seed, decs in ways:
        k = reference(scn, seed, decs)
        if isinstance(k, dict):
            return k
        known.append(k)
    recs = harness.iso(located, scn["layout"], [d for _s, d in ways], scn["sev"], [k[0] for k in known],
                       scn.get("again") == "runner", 100)
    if isinstance(recs, dict):
        return recs
    st = common.stats_of(*recs)
    viol = None
    for rec, k in zip(recs, known):
        viol = viol or judge(rec, st, *k)
    sh = [common.shape(rec["log"]) for rec in recs]
    return {"viol": viol, "stats": st, "nt": any(rec["errors"] for rec in recs),
            "key": harness.digest([[k[0] for k in known], sh]),
            "dig": harness.digest([sh, [[e[:4] for e in rec["errors"]] for rec in recs]]),
            "trace": [{"text": k[0], "log": [[e[0], e[1], e[3]] for e in rec["log"]], "errors": rec["errors"],
                       "end": rec["end"]} for rec, k in zip(recs, known)]}


def reference(scn, seed, decs):
    """The text, where everything is in it, and what the reference interpreter does."""
    where = []
    prog = json.loads(json.dumps(scn["prog"]))     # every statement an object of its own
    try:
        mev, _end = model.run_model(prog, scn["layout"], decs, scn["sev"], 100, where)
    except model.Unknown:
        return {"viol": None, "stats": {"probe:skipped, no reference": 1}, "nt": False, "key": "", "dig": ""}
    except model.TooLong:
        return {"viol": None, "stats": {"probe:skipped, unbounded script": 1}, "nt": False, "key": "", "dig": ""}
    d = Dress(seed, scn["style"])
    d.body(prog)
    return "\n".join(d.lines) + "\n", d.places, mev, where, prog


def judge(rec, st, _text, places, mev, where, _prog):
    log = [[k, ["script"] if k == "error" and a[0] == "script" else [] if k == "warning" else a, s]
           for k, a, s, _d in rec["log"]]
    if [e[0] for e in log] != [e[0] for e in mev]:
        # judged by other properties; only what both agree on has a place
        st["probe:history differs from the reference"] = 1
    for n, typ, line, col, msg in rec["errors"]:
        if [e[0] for e in log[:n + 1]] != [e[0] for e in mev[:n + 1]] or log[n][:2] != mev[n][:2]:
            break
        stm, part = where[n]
        at = places[(id(stm), part)]
        if line == -2:
            return {"class": "error without a place", "detail": "event %d: the place of %s cannot be told: %s" % (n, typ, msg)}
        st["probe:errors located"] = st.get("probe:errors located", 0) + 1
        st["probe:error in " + stm[0]] = st.get("probe:error in " + stm[0], 0) + 1
        if not (at[0], at[1]) <= (line, col) < (at[2], at[3]):
            return {"class": "error located elsewhere", "detail": "event %d: %s %r says line %d, column %d; the %s that "
                    "failed is at line %d, column %d to line %d, column %d" % (
                        n, typ, msg, line, col, stm[0] if not part else "part %d of the %s" % (part, stm[0]), *at)}
        if not msg.startswith("Line %d, Column %d" % (line, col)):
            return {"class": "message without its place", "detail": "%r at line %d, column %d" % (msg, line, col)}
    return None
