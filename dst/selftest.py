"""Determinism of the simulator itself: the same seeds are executed twice, with
different numbers of workers and different hash seeds of the Python process; the
digests of all histories must be identical. Also checks that the code under test comes
from the working tree and that a canned violation is noticed.

selftest [n] [IDS...]"""

from __future__ import annotations

import glob
import json
import os
import subprocess
import sys

from . import harness


def ids():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
    return sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(d, "c[0-9]*.py")))


def digests(pid, n, workers):
    check = harness.load_check(pid)
    check.TIER = "quick"
    if hasattr(check, "prepare"):
        check.prepare()
    recs = harness.campaign(check, "selftest", n, 600, workers, stop_on_violation=False)
    for r in recs:
        if "harness" in r:
            raise SystemExit("harness error: %s" % r["harness"])
    return {str(r["i"]): harness.digest([r["viol"], r["stats"], r["key"], r["dig"], r["nt"]]) for r in recs}


def main(argv):
    if argv and argv[0] == "--digests":
        n, w = int(argv[1]), int(argv[2])
        print(json.dumps({p: digests(p, n, w) for p in argv[3:]}))
        return 0
    n = int(argv[0]) if argv and argv[0].isdigit() else 8
    which = [a for a in argv if not a.isdigit()] or ids()
    outs = []
    procs = []
    for w, hs in ((1, "0"), (3, "12345")):
        e = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1")
        procs.append(subprocess.Popen(
            [sys.executable, "-B", "-m", "dst.main", "selftest", "--digests", str(n), str(w)] + which,
            cwd=harness.VERIF, env=e, stdout=subprocess.PIPE, text=True))
    for p in procs:
        out = p.communicate()[0]
        if p.returncode:
            print("selftest: run failed")
            return 2
        outs.append(json.loads(out.strip().splitlines()[-1]))
    bad = 0
    total = 0
    for pid in which:
        for i in outs[0][pid]:
            total += 1
            if outs[0][pid][i] != outs[1][pid].get(i):
                bad += 1
                print("selftest: %s scenario %s is not reproducible" % (pid, i))
    print("selftest: %d scenarios of %d checks executed twice (1 and 3 workers, 2 hash seeds), %d differ" % (
        total, len(which), bad))
    return 2 if bad else 0
