"""C14: loading is all-or-nothing and independent of the source and its chunking."""

import io
import os
import pathlib
import shutil
import tempfile

from .. import common, disk, env, gen as G, harness, layout
from ..gen import FEATURES

ID = "C14"
QUICK = 6000
QUICK_SECONDS = 40
THOROUGH = 300000
RULE = ("a scenario is one script text (random program, with long comments, other line ends, or empty) offered in a "
        "random order as string, input stream, text streams, binary streams, raw stream and file path, in one of six "
        "encodings, on a virtual disk whose reads are split at chosen sizes; every source must give the run of the "
        "string in another process; then the open, the k-th read or the decoding of one source fails, which must reach "
        "the caller with no callback made and no file left open, and the same runner must then run a good source as if "
        "nothing had happened; non-trivial: the run makes a callback or the script is empty; distinct: different text, "
        "sources, chunking or fault")
ASSUMPTIONS = ["7-bit texts holding the escape sequences of ISO-2022 or HZ encodings are not considered ASCII"]
STUB = "mod manager and user (callbacks), sub-package contents, the disk (open and read of script files and streams)"
FEATS = dict(FEATURES, query=4, badtype=0.3, unset=0.5, select=3, note=5, unicode=2)
SOURCES = ["str", "input", "stringio", "bytesio", "textwrap", "buffered", "raw", "path", "path", "path"]
FAULTS = ["open", "read", "read", "decode", "missing", "dir", "stream"]


def gen(rng, tier):
    lay = layout.make_layout(rng, 0, 3)
    enc = rng.choice(disk.ENCODINGS)
    feats = dict(FEATS, unicode=0) if enc == "ascii" else FEATS
    prog = common.make_prog(rng, feats, lay, size=rng.choice([2, 5, 9]), depth=rng.choice([1, 2]), p=0.65)
    if enc == "ascii":
        # layout names and texts are the only source of other characters
        if not G.render(prog).isascii():
            enc = rng.choice(disk.ENCODINGS[1:])
    if rng.random() < 0.04:
        prog = []
    scn = {"layout": lay, "prog": prog, "enc": enc,
           "decs": common.make_decs(rng, 20, rng.choice([0, 0.1]), ("rw", "ab", "no", "ex")),
           "sev": common.make_sev(rng, 0.2),
           "pad": rng.choice([0] * 9 + [300, 1000, rng.choice([3000, 9000])]) if rng.random() < 0.992 else rng.choice([66000, 70000] if tier != "thorough" else [66000, 70000, 132000, 300000]), "padpos": rng.choice(["head", "tail", "both"]),
           "eol": rng.choice(["\n", "\n", "\n", "\r\n", "none", "cr-comment", "blank", "comment", "semicolon"])}
    srcs = ["str"] + rng.sample(SOURCES, rng.choice([2, 3, 5]))
    if scn["pad"] > 20000:
        srcs = ["path", rng.choice(SOURCES[1:])]
    rng.shuffle(srcs)
    scn["seqsrc"] = [[s, disk.make_plan(rng)] for s in srcs]
    if rng.random() < 0.7:
        f = rng.choice(FAULTS)
        scn["fault"] = [f, rng.choice(["EIO", "ESTALE", "EACCES", "ENOENT", "EMFILE", "ENOMEM"]) if f == "open" else
                        rng.choice(["EIO", "ESTALE", "MemoryError", "KeyboardInterrupt", "OSError", "TimeoutError"]),
                        rng.choice([1, 1, 2, 3, 5, 9]), rng.choice(["path", "path", "buffered", "raw", "textwrap"])]
        scn["fplan"] = disk.make_plan(rng)
        scn["then"] = rng.choice(SOURCES)
    return scn


def text_of(scn):
    t = G.render(scn["prog"])
    if scn["pad"]:
        ch = "x" if scn["enc"] == "ascii" else "x\u00e9\u4e2d\U0001f600"
        line = "; " + (ch * 80)[:78] + "\n"
        pad = line * max(1, scn["pad"] // 80)
        if scn["padpos"] in ("head", "both"):
            t = pad + t
        if scn["padpos"] in ("tail", "both"):
            t = t + pad
    if scn["eol"] == "\r\n":
        t = t.replace("\n", "\r\n")
    elif scn["eol"] == "none":
        t = t.rstrip("\n")
    elif scn["eol"] == "blank":
        t = "\n\n  \n" + t.rstrip("\n") + "\n \n\n\t\n"
    elif scn["eol"] == "comment":
        t = "; first\n" + t + "; last, without an end"
    elif scn["eol"] == "semicolon":
        t = t + ";"
    elif scn["eol"] == "cr-comment":
        t = t + "; end\r"
    return t


class Sources:
    def __init__(self, scn, dir_):
        self.scn = scn
        self.dir = dir_
        self.text = text_of(scn)
        self.data = disk.encode(self.text, scn["enc"])
        self.file = os.path.join(dir_, "wizard.txt")
        with open(self.file, "wb") as f:
            f.write(self.data)

    def make(self, kind, plan, book, data=None):
        """The script argument of run(); files need the Disk context around it."""
        data = self.data if data is None else data
        if kind == "str":
            return self.text
        if kind == "input":
            return env.InputStream(self.text)
        if kind == "stringio":
            return io.StringIO(self.text, newline="")
        if kind == "bytesio":
            return io.BytesIO(data)
        if kind == "textwrap":
            raw = disk.SimRaw(self.text.encode("utf-8"), plan, book)
            return io.TextIOWrapper(io.BufferedReader(raw, 16), "utf-8", newline="")
        if kind == "buffered":
            return io.BufferedReader(disk.SimRaw(data, plan, book), 32)
        if kind == "raw":
            return disk.SimRaw(data, plan, book)
        return pathlib.Path(self.file)


def record(r, end):
    return {"log": r.log, "end": end, "fired": r.fired}


def end_of(r, script, d):
    """run, and whether the file of the disk is still open when the run is over"""
    try:
        status, state = r.run(script)
    except env.SimStop:
        return ["stop"], d.book["open"]
    except BaseException as e:  # noqa: BLE001
        return ["raised", env.caused(e), type(e).__name__], d.book["open"]
    return ["end", status.name, env.snap_state(state)], d.book["open"]


def child(scn):
    top = tempfile.mkdtemp(prefix="dst-c14-")
    try:
        s = Sources(scn, top)
        res = {"runs": [], "short": 0, "leaks": []}
        for kind, plan in scn["seqsrc"]:
            r = env.SimRunner(scn["layout"], scn["decs"], 40)
            env.apply_sev(r, scn["sev"])
            with disk.Disk(s.file, s.data, plan) as d:
                book = d.book if kind == "path" else {"open": 0}
                script = s.make(kind, plan, book)
                end, left = end_of(r, script, d)
            res["runs"].append(record(r, end))
            res["short"] += book.get("short", 0)
            if left:
                res["leaks"].append("after a run from a %s" % kind)
        if scn.get("fault"):
            fault(scn, s, res)
        return res
    finally:
        shutil.rmtree(top, ignore_errors=True)


def fault(scn, s, res):
    what, exc, k, kind = scn["fault"]
    plan = dict(scn["fplan"])
    r = env.SimRunner(scn["layout"], scn["decs"], 40)
    env.apply_sev(r, scn["sev"])
    data = s.data
    want = None
    if what == "open":
        kind = "path"
        plan["open"] = exc
        want = "load"
    elif what == "read":
        plan["fail"] = [k, exc, "load"]
        want = "load"
    elif what == "decode":
        # a byte-order mark and bytes that are not that encoding
        data = b"\xef\xbb\xbfNote \"a\"\n\xff\xff" + data
        kind = "path" if kind == "path" else "bytesio"
    elif what in ("missing", "dir"):
        kind = "path"
    with disk.Disk(s.file, data, plan) as d:
        book = d.book if kind == "path" else {"open": 0, "failed": False}
        if what == "missing":
            script = pathlib.Path(s.dir) / "no such" / "wizard.txt"
        elif what == "dir":
            script = pathlib.Path(s.dir)
        elif what == "stream":
            script = Broken("Note \"a\"")
            want = "load"
        else:
            script = s.make(kind, plan, book, data)
        end, left = end_of(r, script, d)
        struck = what in ("missing", "dir", "stream") or (what == "decode" and (kind != "path" or d.book["opened"] > 0)) \
            or bool(book.get("failed"))
    f = record(r, end)
    f.update(struck=struck, want=want, kind=kind, left=left)
    res["fault"] = f
    r.reset(scn["decs"], 40)
    with disk.Disk(s.file, s.data, scn["fplan"]) as d:
        end, _left = end_of(r, s.make(scn["then"], scn["fplan"], {"open": 0}), d)
    res["then"] = record(r, end)


class Broken(io.StringIO):
    def read(self, *a):
        raise env.make_exc("OSError", "load")


def reference(scn):
    r = env.SimRunner(scn["layout"], scn["decs"], 40)
    env.apply_sev(r, scn["sev"])
    end = env.run_real(r, text_of(scn))
    return record(r, end)


def run(scn):
    ref = harness.iso(reference, scn, scale=1 + scn["pad"] // 10000)
    if ref.get("hang"):
        return ref
    a = harness.iso(child, scn, scale=1 + scn["pad"] // 3000)
    if a.get("hang"):
        return a
    viol = None
    for (kind, plan), rec in zip(scn["seqsrc"], a["runs"]):
        viol = common.compare((rec["log"], rec["end"]), (ref["log"], ref["end"]),
                              ("%s (%s)" % (kind, scn["enc"]), "string"))
        if viol:
            viol["class"] = "source: " + viol["class"]
            break
    if not viol and a["leaks"]:
        viol = {"class": "file left open", "detail": a["leaks"][0]}
    st = common.stats_of(*a["runs"])
    st["fault:short reads"] = a["short"]
    for kind, _p in scn["seqsrc"]:
        st["probe:source " + kind] = st.get("probe:source " + kind, 0) + 1
    st["probe:encoding " + scn["enc"]] = 1
    f = a.get("fault")
    if f and not viol:
        what, exc, k, _kind = scn["fault"]
        if f["struck"]:
            st["fault:load %s%s" % (what, " " + exc if what in ("open", "read") else "")] = 1
            if f["log"]:
                viol = {"class": "callback after a failed load", "detail": "%s of a %s failed: %s was called, the run "
                        "ended %s" % (what, f["kind"], f["log"][0][0], common.short(f["end"]))}
            elif f["end"][0] != "raised" or (f["want"] and f["end"][1] != f["want"]):
                viol = {"class": "failed load did not reach the caller", "detail": "%s of a %s failed (%s): the run "
                        "ended %s" % (what, f["kind"], exc, common.short(f["end"]))}
            elif f["left"]:
                viol = {"class": "file left open", "detail": "%s of a %s failed (%s)" % (what, f["kind"], exc)}
        if not viol:
            t = a["then"]
            viol = common.compare((t["log"], t["end"]), (ref["log"], ref["end"]),
                                  ("%s after a load failure" % scn["then"], "string on a new runner"))
            if viol:
                viol["class"] = "after a failed load: " + viol["class"]
    sh = [common.shape(r["log"]) + [r["end"][:2]] for r in a["runs"]]
    return {"viol": viol, "stats": st, "nt": bool(ref["log"]) or not scn["prog"],
            "key": harness.digest([text_of(scn), scn["seqsrc"], scn.get("fault"), scn["enc"]]),
            "dig": harness.digest([sh, scn.get("fault")]),
            "trace": {"runs": [[[e[0], e[1], e[3]] for e in r["log"]] + [r["end"]] for r in a["runs"]], "fault": f}}
