"""Runs scenarios: isolation, workers, shrinking, replay files, evidence.

One scenario = f(VERIF_SEED, property, index). It is executed in processes forked from
a worker that only ever parsed a fixed warm-up corpus, so that no scenario can see what
another one left in the process and a replay in a fresh process meets the same state."""

from __future__ import annotations

import ctypes
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import gen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL = 15.0            # seconds of wall time before a run is re-examined with a budget
BUDGET = 15_000_000     # function starts + jumps in the interpreter: no run needs that
BUDGET_CPU = 100.0
BUDGET_WALL = 300.0


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def load_check(pid: str):
    return importlib.import_module("dst.checks." + pid.lower())


# ------------------------------------------------------------------- isolation

_warm = False

CORPUS = [
    'a = 1\nb = "x" + str(a++)\nIf a == 2 and (b != "y")\n Note b\nElif not True\n DeSelectAll\nElse\n Break\nEndIf\n',
    'For i from 1 to 3 by 1\n For j in SubPackages\n  Continue\n EndFor\nEndFor\nWhile a <= 3\n a += 1\nEndWhile\n',
    'SelectOne "d", "A","","", "|B","x","y"\n Case "A"\n  Break\n Case "B"\n  SelectPlugin "a"\n Default\n  Return\nEndSelect\n'
    'SelectMany "d", "A","",""\n Case "A"\n Break\nEndSelect\nCancel "x"\nCancel\n',
    'RequireVersions "1", "", "", ""\nRenamePlugin "a", "b"\nSelectAll\nExec("x = 1")\nx = DataFileExists("a", "b")\n'
    'EditINI("a", "b", "c", 1)\nx = "abc"[1:2]\ny = ("a" in SubPackages:)\nv = -1 * 2 / 3 - 4.5\n',
]


def warm():
    """Parse a fixed corpus once (fills the parser's prediction caches)."""
    global _warm
    if _warm:
        return
    _warm = True
    from . import env
    from wizard.utils import make_parse_wizard_context

    for s in CORPUS:
        try:
            make_parse_wizard_context(s)
        except Exception:
            pass
    try:
        env.SimRunner([], [])
    except Exception:
        pass
    from . import common, layout
    from .gen import FEATURES
    for i in range(70):
        r = random.Random("warm%d" % i)
        text = gen.render(common.make_prog(r, FEATURES, layout.make_layout(r), size=20))
        try:
            make_parse_wizard_context(text)
        except Exception:
            pass
    gc.collect()
    gc.freeze()


class Hang(Exception):
    pass


class Broke(Exception):
    """The code under test failed where nothing may fail (making a runner, reading a
    state, ...)."""


def blame(exc):
    """What failed, if it was the code under test rather than the simulator."""
    import wizard

    real, sim = os.path.dirname(os.path.abspath(wizard.__file__)), os.path.dirname(os.path.abspath(__file__))
    last = None
    for f, line in traceback.walk_tb(exc.__traceback__):
        n = os.path.abspath(f.f_code.co_filename)
        if n.startswith((real + os.sep, sim + os.sep)):
            last = (n, f.f_code.co_name)
    if last is None or not last[0].startswith(real + os.sep) or type(exc).__name__ == "SimStop":
        return None
    try:
        text = str(exc)[:200]
    except Exception:  # not every exception has a text
        text = ""
    return "%s in %s: %s" % (type(exc).__name__, last[1], text)


_libc = ctypes.CDLL(None, use_errno=True)


def die_with(parent):
    """No process outlives the one it works for (a run without an end would go on for ever)."""
    _libc.prctl(1, signal.SIGKILL, 0, 0, 0)       # PR_SET_PDEATHSIG
    if parent and os.getppid() != parent:
        os._exit(3)


def odd(x):
    """A value of the script that is none of the usual ones, in a result."""
    return "<%s>" % type(x).__name__


def fork_call(fn, args, wall):
    """Run fn(*args) in a forked child, return its JSON-able result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    parent = os.getpid()
    pid = os.fork()
    if pid == 0:
        code = 3
        die_with(parent)
        try:
            os.close(r)
            gc.disable()
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            try:
                res = {"ok": fn(*args)}
            except Broke as e:
                res = {"broke": e.args[0]}
            except BaseException as e:  # noqa: BLE001
                res = {"exc": traceback.format_exc()}
                if blame(e):
                    res = {"broke": blame(e)}
            try:
                data = json.dumps(res, default=odd).encode()
            except BaseException:  # noqa: BLE001
                data = json.dumps({"exc": "result of no use:\n" + traceback.format_exc()}).encode()
            i = 0
            while i < len(data):
                i += os.write(w, data[i:i + 65536])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + wall
    hung = False
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                hung = True
                break
            rl, _, _ = select.select([r], [], [], left)
            if not rl:
                hung = True
                break
            c = os.read(r, 1 << 20)
            if not c:
                break
            chunks.append(c)
    finally:
        os.close(r)
        if hung:
            os.kill(pid, signal.SIGKILL)
        _p, status = os.waitpid(pid, 0)
    if hung:
        raise Hang()
    data = b"".join(chunks)
    if not data:
        raise HarnessError("child died: status %r" % status)
    res = json.loads(data)
    if "broke" in res:
        raise Broke(res["broke"])
    if "exc" in res:
        raise HarnessError("in child:\n" + res["exc"])
    return res["ok"]


FORCE_BUDGET = False
SHRINKING = False
SHRINK_WALL = 10.0


def _budgeted(fn, args, scale):
    from . import sched

    from . import env

    res = None
    with sched.Budget(BUDGET * scale, time.process_time() + BUDGET_CPU) as b:
        try:
            res = fn(*args)
        except env.SimStop:
            if not b.blown:
                raise
    return {"res": res, "spent": b.spent, "blown": b.blown}


def iso(fn, *args, scale=1):
    """Run fn(*args) isolated. Returns its result, or {"hang": True} if it makes no
    progress: it exceeded its wall time and, executed again under a deterministic step
    budget, the budget as well."""
    if SHRINKING and not FORCE_BUDGET:
        # a candidate without an end is no candidate
        try:
            return fork_call(fn, args, SHRINK_WALL)
        except Hang:
            return {"hang": True}
    if not FORCE_BUDGET:
        try:
            return fork_call(fn, args, WALL * min(scale, 6))
        except Hang:
            pass
    try:
        out = fork_call(_budgeted, (fn, args, scale), BUDGET_WALL)
    except Hang:
        raise HarnessError("run exceeds %d s under a step budget" % BUDGET_WALL)
    if out["blown"]:
        return {"hang": True}
    return out["res"]


# ------------------------------------------------------------------- scenarios

def rng_for(seed, pid, index):
    return random.Random("%s:%s:%s" % (seed, pid, index))


def digest(x) -> str:
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def execute(check, scn):
    """Run one scenario. Result: {"viol": None|{"class","detail"}, "stats": {...},
    "nt": bool, "key": str, "trace": ...}"""
    try:
        res = check.run(scn)
    except (HarnessError, Hang):
        raise
    except Exception as e:
        what = e.args[0] if isinstance(e, Broke) else blame(e)
        if what is None:
            raise
        res = {"viol": {"class": "failure outside of a run", "detail": what}, "stats": {}, "nt": True}
    if res.get("hang"):
        res = {"viol": {"class": "no-progress", "detail": "the run makes no progress: more than %d "
                        "function starts and jumps in the interpreter, or %d s of processor time" % (BUDGET, BUDGET_CPU)}, "stats": {}, "nt": True}
    return res


# --------------------------------------------------------------------- shrinking

def _without(lst, i, n=1):
    return lst[:i] + lst[i + n:]


def prog_candidates(prog):
    """Smaller programs."""
    n = len(prog)
    k = n
    while k >= 1:
        for i in range(0, n, k):
            if k < n or n > 0:
                yield _without(prog, i, k)
        k //= 2
    for i, st in enumerate(prog):
        for r in stmt_candidates(st):
            yield prog[:i] + r + prog[i + 1:]


def stmt_candidates(st):
    k = st[0]
    if k == "if":
        yield st[2]
        if st[4] is not None:
            yield st[4]
            yield [["if", st[1], st[2], st[3], None]]
        for i in range(len(st[3])):
            yield [["if", st[1], st[2], _without(st[3], i), st[4]]]
        for b in prog_candidates(st[2]):
            yield [["if", st[1], b, st[3], st[4]]]
        for i, (c, bb) in enumerate(st[3]):
            for b in prog_candidates(bb):
                yield [["if", st[1], st[2], st[3][:i] + [[c, b]] + st[3][i + 1:], st[4]]]
        if st[4] is not None:
            for b in prog_candidates(st[4]):
                yield [["if", st[1], st[2], st[3], b]]
        for e in expr_candidates(st[1]):
            yield [["if", e, st[2], st[3], st[4]]]
    elif k == "for":
        yield st[3]
        for b in prog_candidates(st[3]):
            yield [["for", st[1], st[2], b]]
        if st[2][0] == "range" and st[2][3] is not None:
            yield [["for", st[1], ["range", st[2][1], st[2][2], None], st[3]]]
    elif k == "while":
        yield st[2]
        for b in prog_candidates(st[2]):
            if st[2] and st[2][0][0] == "cset" and b[:1] != st[2][:1]:
                continue        # the loop would not end
            yield [["while", st[1], b]]
    elif k == "select":
        _k, many, d, opts, cases, dflt = st
        for _l, b in cases:
            yield b
        if dflt is not None:
            yield dflt
            if cases:
                yield [["select", many, d, opts, cases, None]]
        for i in range(len(cases)):
            if len(cases) > 1 or dflt is not None:
                yield [["select", many, d, opts, _without(cases, i), dflt]]
        for i in range(len(opts)):
            if len(opts) > 1:
                yield [["select", many, d, _without(opts, i), cases, dflt]]
        for i, (lb, bb) in enumerate(cases):
            for b in prog_candidates(bb):
                yield [["select", many, d, opts, cases[:i] + [[lb, b]] + cases[i + 1:], dflt]]
        if dflt is not None:
            for b in prog_candidates(dflt):
                yield [["select", many, d, opts, cases, b]]
        for e in expr_candidates(d):
            yield [["select", many, e, opts, cases, dflt]]
    elif k == "exec":
        yield st[1]
        if st[2] is not None:
            yield [["exec", st[1], None]]
        for b in prog_candidates(st[1]):
            yield [["exec", b, st[2]]]
    elif k == "set":
        for e in expr_candidates(st[2]):
            yield [["set", st[1], e]]
    elif k == "kw":
        for i, a in enumerate(st[2]):
            for e in expr_candidates(a):
                yield [["kw", st[1], st[2][:i] + [e] + st[2][i + 1:]]]


def expr_candidates(e):
    k = e[0]
    if k == "bin":
        yield e[2]
        yield e[3]
        for x in expr_candidates(e[2]):
            yield ["bin", e[1], x, e[3]]
        for x in expr_candidates(e[3]):
            yield ["bin", e[1], e[2], x]
    elif k == "not":
        yield e[1]
    elif k == "call" and e[2]:
        for i, a in enumerate(e[2]):
            for x in expr_candidates(a):
                yield ["call", e[1], e[2][:i] + [x] + e[2][i + 1:]]


def list_candidates(lst):
    n = len(lst)
    k = n
    while k >= 1:
        for i in range(0, n, k):
            yield _without(lst, i, k)
        k //= 2
    for i, d in enumerate(lst):
        if isinstance(d, list) and d and d[0] != "ans":
            yield lst[:i] + [["ans", 0]] + lst[i + 1:]
            yield lst[:i] + [None] + lst[i + 1:]
        elif isinstance(d, list) and d and d[0] == "ans" and d[1] != 0:
            yield lst[:i] + [["ans", 0]] + lst[i + 1:]
        elif isinstance(d, list) and d and d[0] == "rw" and d[1]:
            yield lst[:i] + [["rw", d[1] // 2]] + lst[i + 1:]


def scn_candidates(scn):
    """Generic: fields called prog* are programs, dec* decisions, layout* package
    lists, ops* operation lists; lists of sub-scenarios under "parts"."""
    for key in sorted(scn):
        v = scn[key]
        if key.startswith("prog"):
            for p in prog_candidates(v):
                yield {**scn, key: gen.norm(p)}
        elif key.startswith(("dec", "ops", "layout", "switch", "files_fault", "seq")):
            if isinstance(v, list):
                for c in list_candidates(v):
                    yield {**scn, key: c}
        elif key == "parts":
            for i in range(len(v)):
                if len(v) > scn.get("minparts", 1):
                    yield {**scn, key: _without(v, i)}
            for i, sub in enumerate(v):
                for c in scn_candidates(sub):
                    yield {**scn, key: v[:i] + [c] + v[i + 1:]}


def shrink(check, scn, cls, tries=400, wall=60.0):
    """Greedy minimisation keeping the class of the violation."""
    global FORCE_BUDGET, SHRINKING
    end = time.monotonic() + wall
    best = scn
    n = 0
    cands = getattr(check, "candidates", scn_candidates)
    hang = cls == "no-progress"
    if hang:
        tries = min(tries, 60)
    old = FORCE_BUDGET
    FORCE_BUDGET = hang
    SHRINKING = True
    try:
        improved = True
        while improved:
            improved = False
            for c in cands(best):
                if n >= tries or time.monotonic() > end:
                    return best, n
                n += 1
                try:
                    res = execute(check, c)
                except Exception:
                    continue
                if res["viol"] and res["viol"]["class"] == cls:
                    best = c
                    improved = True
                    break
        return best, n
    finally:
        FORCE_BUDGET = old
        SHRINKING = False


# ----------------------------------------------------------------------- workers

def worker(check, seed, start, step, total, deadline, out):
    warm()
    f = os.fdopen(out, "w")
    try:
        for i in range(start, total, step):
            if time.monotonic() > deadline:
                f.write(json.dumps({"late": i}) + "\n")
                break
            scn = check.gen(rng_for(seed, check.ID, i), check.TIER)
            try:
                res = execute(check, scn)
            except HarnessError as e:
                f.write(json.dumps({"i": i, "harness": str(e), "scn": scn}) + "\n")
                break
            rec = {"i": i, "viol": res["viol"], "stats": res.get("stats", {}),
                   "nt": res.get("nt", False), "key": res.get("key", ""), "dig": res.get("dig", "")}
            if res["viol"] or i < 3:
                rec["scn"] = scn
            f.write(json.dumps(rec) + "\n")
            f.flush()
            if res["viol"]:
                break
        f.flush()
    finally:
        f.close()
        os._exit(0)


def campaign(check, seed, total, seconds, workers=None, stop_on_violation=True):
    """Run scenarios 0..total-1 (or until the time is up). Returns the records."""
    warm()
    workers = workers or min(8, os.cpu_count() or 1)
    deadline = time.monotonic() + seconds
    fds = {}
    pids = []
    sys.stdout.flush()
    for k in range(workers):
        r, w = os.pipe()
        parent = os.getpid()
        pid = os.fork()
        if pid == 0:
            die_with(parent)
            os.close(r)
            for fd in fds:
                os.close(fd)
            try:
                worker(check, seed, k, workers, total, deadline, w)
            except BaseException:  # noqa: BLE001
                try:
                    os.write(w, (json.dumps({"i": -1, "harness": traceback.format_exc()}) + "\n").encode())
                finally:
                    os._exit(3)
        os.close(w)
        fds[r] = b""
        pids.append(pid)
    recs = []
    stop = False
    hard = deadline + BUDGET_WALL + 60
    while fds:
        rl, _, _ = select.select(list(fds), [], [], max(0.1, hard - time.monotonic()))
        if not rl:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            recs.append({"i": -1, "harness": "workers did not end"})
            break
        for fd in rl:
            data = os.read(fd, 1 << 20)
            if not data:
                rest = fds.pop(fd)
                os.close(fd)
                if rest.strip():
                    recs.append({"i": -1, "harness": "truncated worker output"})
                continue
            buf = fds[fd] + data
            *lines, rest = buf.split(b"\n")
            fds[fd] = rest
            for ln in lines:
                if ln.strip():
                    rec = json.loads(ln)
                    recs.append(rec)
                    if rec.get("viol") and stop_on_violation:
                        stop = True
        if stop:
            # let the other workers finish their current scenario: a lower index may
            # fail too, but any failure is as good; stop them
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            break
    for fd in list(fds):
        os.close(fd)
    for p in pids:
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    return recs


# -------------------------------------------------------------------- top level

def known_findings(pid):
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for ln in open(p, encoding="utf-8"):
        ln = ln.strip()
        if ln.startswith("finding: property=%s " % pid):
            rest = ln.split(" ", 2)[2]
            if rest.startswith("signature="):
                sig, _, text = rest[len("signature="):].partition(" ")
                res[sig] = text
    return res


def run_check(pid, tier, seed, workers=None, total=None, seconds=None):
    check = load_check(pid)
    check.TIER = tier
    t0 = time.monotonic()
    quick = tier != "thorough"
    total = total or (check.QUICK if quick else getattr(check, "THOROUGH", check.QUICK * 40))
    seconds = seconds or (getattr(check, "QUICK_SECONDS", 75) if quick else getattr(check, "THOROUGH_SECONDS", 1500))
    print("property=%s tier=%s seed=%s scenarios<=%d" % (pid, tier, seed, total), flush=True)
    if hasattr(check, "prepare"):
        check.prepare()
    recs = campaign(check, seed, total, seconds, workers)
    harness = [r for r in recs if r.get("harness")]
    good = [r for r in recs if "stats" in r]
    viols = sorted((r for r in good if r["viol"]), key=lambda r: r["i"])
    known = known_findings(pid)
    fresh = [r for r in viols if r["viol"]["class"] not in known]
    code = 0
    for r in viols:
        if r["viol"]["class"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[r["viol"]["class"]]))
    replay = None
    if fresh:
        r = fresh[0]
        scn, n = shrink(check, r["scn"], r["viol"]["class"],
                        wall=float(os.environ.get("DST_SHRINK", "45" if quick else "180")))
        final = execute(check, scn)
        if not final["viol"]:
            scn = r["scn"]
            final = execute(check, scn)
        if not final["viol"]:
            harness.append({"harness": "violation does not repeat: %r" % r["viol"]})
        else:
            replay = write_replay(check, seed, r["i"], scn, r["scn"], final, n)
            print("scenario %d: %s" % (r["i"], final["viol"]["class"]))
            print(final["viol"]["detail"])
            print("VIOLATION property=%s replay=%s" % (pid, replay), flush=True)
            code = 1
    wall = time.monotonic() - t0
    write_evidence(check, tier, seed, good, wall, len(fresh), recs)
    if code == 0 and harness:
        for h in harness[:3]:
            log("harness error:", h.get("harness"))
            if h.get("scn"):
                p = os.path.join(VERIF, "out", "harness-%s.json" % pid)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                json.dump(h, open(p, "w"))
        return 2
    if code == 0 and len(good) < min(total, 20):
        log("harness error: only %d scenarios were executed" % len(good))
        return 2
    print("%s: %d scenarios, %d distinct non-trivial, %d violations, %.1f s" % (
        pid, len(good), len({r["key"] for r in good if r["nt"]}), len(fresh), wall), flush=True)
    return code


def write_replay(check, seed, index, scn, original, final, tries):
    d = os.path.join(VERIF, "out", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (check.ID, seed, index))
    doc = {"property": check.ID, "seed": seed, "index": index, "violation": final["viol"],
           "scenario": scn, "shrink_runs": tries, "trace": final.get("trace")}
    if isinstance(scn, dict):
        for key in sorted(scn):
            if key.startswith("prog"):
                doc["script_" + key] = gen.render(scn[key])
    doc["original"] = original
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    return path


def replay(path):
    doc = json.load(open(path))
    check = load_check(doc["property"])
    check.TIER = "quick"
    warm()
    res = execute(check, doc["scenario"])
    print("expected:", doc["violation"]["class"])
    if res["viol"]:
        print("got     :", res["viol"]["class"])
        print(res["viol"]["detail"])
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    print("got     : no violation")
    return 0


def write_evidence(check, tier, seed, good, wall, nviol, recs):
    stats: dict[str, float] = {}
    for r in good:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    others = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "probe:"))}
    samples = []
    for r in good:
        if r["i"] < 3 and "scn" in r:
            s = {"index": r["i"], "scenario": json.dumps(r["scn"])[:6000]}
            for key in r["scn"]:
                if key.startswith("prog"):
                    s["script"] = gen.render(r["scn"][key])
            samples.append(s)
    n = len(good)
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len({r["key"] for r in good if r["nt"]}),
        "rule": check.RULE,
        "samples": samples[:2],
        "distinct_histories": len({r["dig"] for r in good if r["dig"]}),
        "distinct_histories_measure": "digest of the sequence of (callback kind, decision) of all runs of a scenario",
        "simulated_runs": int(stats.get("runs", n)),
        "simulated_runs_per_hour": int(stats.get("runs", n) * 3600 / max(wall, 0.001)),
        "seeds_per_hour": int(n * 3600 / max(wall, 0.001)),
        "simulated_time": "the code has no clock or timer: time is counted in callbacks (%d) and, where the "
                          "scheduler pre-empts or faults it, interpreter lines (%d)" % (
                              stats.get("events", 0), stats.get("lines", 0)),
        "faults_injected": faults,
        "probes": probes,
        "counters": others,
        "components_real": check.REAL if hasattr(check, "REAL") else
            "all of /repo/src/wizard (lexer, parser, contexts, expressions, keywords, runner) and the antlr4 runtime",
        "components_stub": check.STUB if hasattr(check, "STUB") else
            "mod manager and user (callbacks), sub-package contents",
    }
    doc = {"property": check.ID, "tier": tier if tier in ("quick", "thorough") else "quick",
           "seed": int(seed), "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
           "violations": nviol,
           "assumptions": getattr(check, "ASSUMPTIONS", []) + [
               "sampling of the scenario space, no claim of exhaustiveness",
               "callbacks of the environment are deterministic functions of the scenario"]}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % check.ID)
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, "%s.json" % check.ID))
