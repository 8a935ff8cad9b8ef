"""C06: a runner is reusable after any ending of a run."""

import io
import pathlib
import shutil
import tempfile

from .. import common, env, gen as G, harness, layout, sched
from ..gen import FEATURES

ID = "C06"
QUICK = 7200
QUICK_SECONDS = 25
THOROUGH = 200000
RULE = ("a scenario is a sequence of 2-5 runs of different random programs on one runner, each ending by itself, by "
        "Cancel/Return/abort, by an error, by an exception of error(), by a failed load (missing file, failing "
        "stream, undecodable bytes), by an error or interrupt in a file listing, or by KeyboardInterrupt/MemoryError raised at the n-th line the interpreter "
        "executes (loading included), with severity changes in them and between them, the script a string, a rewritten file, a new stream or the stream of an earlier run; every run not interrupted is compared with the same run on "
        "a new runner with the same settings in another process; non-trivial: at least one run after one that did "
        "not complete; distinct: different programs, endings or sequence of (callback, decision)")
FEATS = dict(FEATURES, query=5, badtype=0.3, unset=1, select=3, selkw=5, note=4, ini=3, rename=3, exec=1.2)


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 4)
    parts = []
    for _ in range(rng.choice([2, 2, 3, 4, 5])):
        prog = common.make_prog(rng, FEATS, lay, size=rng.choice([3, 6, 10]), depth=rng.choice([1, 2]),
                                keep=("unset", "query"), p=0.65)
        ops = rng.choice([(), ("ab", "rw"), ("ex", "bx", "no"), ("ab", "rw", "ex", "bx", "sev")])
        part = {"prog": prog, "decs": common.make_decs(rng, 25, rng.choice([0.1, 0.25]), ops)}
        if parts and rng.random() < 0.2:
            part["prog"] = rng.choice(parts)["prog"]      # the same text again
        part["src"] = rng.choice(["str", "str", "path", "stringio", "again"])
        c = rng.random()
        if c < 0.12:
            part["files"] = [rng.choice([1, 1, 2, 3, 5, 9]), rng.choice(["OSError", "KeyboardInterrupt", "MemoryError", "SimBase"])]
        elif c < 0.4:
            part["fault"] = [rng.choice([rng.randrange(1, 200), rng.randrange(1, 6000)]),
                             rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit"]), "F", "any"]
        elif c < 0.52:
            part["load"] = rng.choice(["missing", "stream", "bytes"])
        if rng.random() < 0.3:
            # set before the run
            part["set"] = [[rng.choice(["default", *common.ISSUES]), rng.choice(common.SEVS)]
                           for _ in range(rng.choice([1, 1, 2]))]
        parts.append(part)
    parts[-1].pop("fault", None)
    return {"layout": lay, "parts": parts, "minparts": 2, "sev": common.make_sev(rng, 0.3)}


class Broken(io.StringIO):
    def read(self, *a):
        raise env.make_exc("OSError", "load")


class Store:
    """Where the scripts are: one file, rewritten, and one stream, read to its end."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="dst-c06-")
        self.path = pathlib.Path(self.dir) / "wizard.txt"
        self.stream = None

    def script(self, part):
        text = G.render(part["prog"])
        # a fault strikes at a line of the interpreter: the same lines for a new runner
        src = "str" if part.get("fault") else part.get("src", "str")
        if src == "path":
            self.path.write_bytes(b"\xef\xbb\xbf" + text.encode("utf-8"))
            return self.path
        if src == "stringio":
            self.stream = io.StringIO(text, newline="")
            return self.stream
        if src == "again" and self.stream is not None:
            # read to its end by an earlier run: nothing, or what was written since
            at = self.stream.seek(0, 2)
            self.stream.write(text)
            self.stream.seek(at)
            return self.stream
        return text


def one(r, part, store=None):
    r.reset(part["decs"], 60)
    for issue, sev in part.get("set", ()):
        env.set_severity(r, issue, sev)
    script = store.script(part) if store else G.render(part["prog"])
    if part.get("files"):
        left = [part["files"][0]]

        def listing(_runner, _name):
            left[0] -= 1
            if left[0] == 0:
                r.count("%s in a file listing" % part["files"][1])
                raise env.make_exc(part["files"][1], "F")

        r.files_hook = listing
    else:
        r.files_hook = None
    load = part.get("load")
    if load == "missing":
        script = pathlib.Path("/nonexistent/dst/wizard.txt")
    elif load == "stream":
        script = Broken("")
    elif load == "bytes":
        script = io.BytesIO(b"\xef\xbb\xbfNote \"\xff\xfe\xc3\"\n")
    w = None
    if part.get("fault"):
        with sched.Watch(r, part["fault"], count_execs=False) as w:
            end = env.run_real(r, script)
    else:
        end = env.run_real(r, script)
    sevs = part.get("set", []) + [e[3][1:3] for e in r.log if e[3] and e[3][0] == "sev"]
    return {"log": r.log, "end": end, "fired": r.fired, "sevs": sevs,
            "fault": bool(w and w.fired), "lines": w.count if w else 0}


def sequence(scn):
    r = env.SimRunner(scn["layout"])
    env.apply_sev(r, scn.get("sev"))
    res = []
    store = Store()
    try:
        for part in scn["parts"]:
            res.append(one(r, part, store))
    finally:
        shutil.rmtree(store.dir, ignore_errors=True)
    return res


def solo(scn, part, sevs):
    r = env.SimRunner(scn["layout"])
    env.apply_sev(r, scn.get("sev"))
    for issue, sev in sevs:
        env.set_severity(r, issue, sev)
    return one(r, part)


def run(scn):
    seq = harness.iso(sequence, scn)
    if isinstance(seq, dict):
        return seq
    sevs = []
    viol = None
    recs = list(seq)
    broken = False
    nt = False
    for k, part in enumerate(scn["parts"]):
        if broken and not part.get("fault"):
            nt = True
        # an interrupted run is history only: where the interrupt strikes may depend on
        # what a runner keeps from run to run
        if k > 0 and not part.get("fault"):
            s = harness.iso(solo, scn, part, sevs)
            if s.get("hang"):
                return s
            recs.append(s)
            viol = common.compare((seq[k]["log"], seq[k]["end"]), (s["log"], s["end"]),
                                  ("run %d of a used runner" % k, "new runner"))
            if viol:
                viol["detail"] += " (earlier runs ended %s)" % ", ".join(common.short(x["end"]) for x in seq[:k])
                break
        e = seq[k]["end"]
        broken = broken or e[0] != "end" or e[1] != "COMPLETE"
        sevs += seq[k]["sevs"]
    st = common.stats_of(*recs)
    for p, r in zip(scn["parts"], seq):
        if p.get("load"):
            st["fault:load failure (%s)" % p["load"]] = st.get("fault:load failure (%s)" % p["load"], 0) + 1
        if r["fault"]:
            n = "fault:%s at an interpreter line" % p["fault"][1]
            st[n] = st.get(n, 0) + 1
        st["lines"] = st.get("lines", 0) + r["lines"]
    sh = [common.shape(r["log"]) + [r["end"][:2]] for r in seq]
    return {"viol": viol, "stats": st, "nt": nt, "key": harness.digest([[p["prog"] for p in scn["parts"]], sh]),
            "dig": harness.digest(sh),
            "trace": {"runs": [[[e[0], e[1], e[3]] for e in r["log"]] + [r["end"]] for r in seq]}}
