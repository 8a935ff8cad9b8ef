"""Other Python processes: each has its own hash seed, locale, time zone, working
directory and history, and executes runs in processes forked from it."""

from __future__ import annotations

import importlib
import json
import os
import subprocess
import sys

# name: (environment, options of the interpreter, warmed up?)
KINDS = {
    "hash1": ({"PYTHONHASHSEED": "1"}, [], True),
    "hash2": ({"PYTHONHASHSEED": "271828", "LC_ALL": "C", "PYTHONUTF8": "0"}, [], True),
    "hash3": ({"PYTHONHASHSEED": "4294967295", "TZ": "Pacific/Auckland"}, ["-O"], True),
    "cold": ({"PYTHONHASHSEED": "7"}, [], False),
}

_live: dict[str, subprocess.Popen] = {}


def call(kind: str, module: str, fn: str, *args):
    """module.fn(*args) in a process forked from the zygote of that kind."""
    p = _live.get(kind)
    if p is None or p.poll() is not None:
        e, opts, warm = KINDS[kind]
        verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = _live[kind] = subprocess.Popen(
            [sys.executable, "-B"] + opts + ["-m", "dst.zygote", "warm" if warm else "cold"],
            cwd=verif, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **e),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    p.stdin.write(json.dumps([module, fn, args]).encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        from . import harness
        raise harness.HarnessError("zygote %s died" % kind)
    res = json.loads(line)
    if "broke" in res:
        from . import harness
        raise harness.Broke(res["broke"])
    if "exc" in res:
        from . import harness
        raise harness.HarnessError("zygote %s: %s" % (kind, res["exc"]))
    return res["ok"]


def main(argv):
    import traceback

    from . import harness

    harness.die_with(None)
    out = os.dup(1)
    os.dup2(2, 1)
    if argv[0] == "warm":
        harness.warm()
    else:
        from . import env
        try:
            env.SimRunner([], [])
        except Exception:
            pass
    os.chdir("/")
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        module, fn, args = json.loads(line)
        try:
            f = getattr(importlib.import_module(module), fn)
            res = {"ok": harness.iso(f, *args)}
        except harness.Broke as e:
            res = {"broke": e.args[0]}
        except BaseException:  # noqa: BLE001
            res = {"exc": traceback.format_exc()}
        os.write(out, b"")
        data = json.dumps(res).encode() + b"\n"
        i = 0
        while i < len(data):
            i += os.write(out, data[i:i + 65536])


if __name__ == "__main__":
    try:
        main(sys.argv[1:])
    finally:
        os._exit(0)
