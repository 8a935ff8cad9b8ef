"""What the simulated user and manager do at each callback.

A scenario holds a list of decisions, consumed one per callback; after its end every
callback gets a default answer that depends on its kind and arguments only. The
functions here are shared by the simulated environment of the real runner and by the
driver of the reference interpreter, so both sides meet the same environment.

decisions   ["ans",n]            answer number n (mapped to an answer by kind)
            ["ex",type,token]    raise an ordinary exception
            ["bx",type,token]    raise an exception that is not an ordinary one
            ["ab"]               abort()
            ["rw",k]             rewind() to the context of event k (mod events so far)
            ["sev",issue,sev,n]  change a severity, then answer n
"""

from __future__ import annotations

import zlib

STRS = ["f0", "F1.esp", "", "\u00e9t\u00e9", "x y", "|p", "12",
        "a long name " * 12, "two\nlines", "-3", "1.5", "%d{0}\\1", "\u212a", "F1.ESP"]
COMPARED = [-1, 0, 1, -1, 0, 1, -1, 0, 1, 7, -5, 12]
ORDERS = [0, 1, 2, 3, None, 0, 1, 37, None, -1, 12]
STATUSES = [-1, 0, 1, 2, 3, -1, 0, 1, 2, 3, 5, -7]

CONFIRM = ("cancel", "complete")
SILENT = ("warning", "error")


def default_n(kind: str, args) -> int:
    if kind in CONFIRM:
        return 1
    return zlib.crc32(repr((kind, args)).encode("utf-8", "backslashreplace")) % 1000


def pick_one(n: int, noptions: int) -> int:
    """index of the option, -1 for the default, -2 for an option not listed"""
    m = n % (noptions + 2)
    if m < noptions:
        return m
    return -1 if m == noptions else -2


def pick_many(n: int, noptions: int) -> list[int]:
    """indices, [-1] for the defaults, -2 for an option not listed"""
    m = n % 23
    if m == 7:
        return [-1]
    res = [i for i in range(noptions) if (n >> i) & 1]
    if n & 256:
        res.reverse()
    if m == 9:
        res.append(-2)
    return res


def answer_value(kind: str, n: int, args=None):
    if kind in ("getFilename", "getFolder"):
        return STRS[n % len(STRS)]
    if kind.startswith("compare"):
        return COMPARED[n % len(COMPARED)]
    if kind == "dataFileExists":
        return bool(n % 2)
    if kind == "getPluginLoadOrder":
        m = ORDERS[n % len(ORDERS)]
        if m is None:
            return args[1] if args and len(args) > 1 and args[1] is not None else 4
        return m
    if kind == "getPluginStatus":
        return STATUSES[n % len(STATUSES)]
    if kind in CONFIRM:
        return bool(n % 2)
    if kind in ("keyword", "function"):
        return n % 7
    return None


class Script:
    """Sequential consumption of the decisions."""

    def __init__(self, decisions):
        self.decisions = decisions
        self.pos = 0

    def next(self, kind: str, args):
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            if d is not None:
                return d
        else:
            self.pos += 1
        return ["ans", default_n(kind, args)]
