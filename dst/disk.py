"""A virtual disk: files whose reads are split, delayed into errors and counted."""

from __future__ import annotations

import builtins
import io
import os
import random

from . import env

ENCODINGS = ["ascii", "utf-8-sig", "utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be"]
BOMS = {"utf-16-le": b"\xff\xfe", "utf-16-be": b"\xfe\xff",
        "utf-32-le": b"\xff\xfe\x00\x00", "utf-32-be": b"\x00\x00\xfe\xff"}

ERRNOS = {"EIO": 5, "ENOENT": 2, "EACCES": 13, "EMFILE": 24, "ESTALE": 116, "ENOMEM": 12}


def encode(text: str, enc: str) -> bytes:
    return BOMS.get(enc, b"") + text.encode(enc)


def os_error(name: str, token: str) -> OSError:
    n = ERRNOS[name]
    e = OSError(n, os.strerror(n))
    e.sim_token = token  # type: ignore
    return e


class SimRaw(io.RawIOBase):
    """A raw file that returns what a seeded schedule of short reads says.

    plan: {"sizes": [n...], "fail": None | [k-th read, what, token]}"""

    def __init__(self, data: bytes, plan: dict, book: dict):
        super().__init__()
        self._data = data
        self._pos = 0
        self._sizes = plan.get("sizes") or [1 << 30]
        self._fail = plan.get("fail")
        self._n = 0
        self._book = book
        book["opened"] = book.get("opened", 0) + 1
        book["open"] = book.get("open", 0) + 1

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        if whence == 0:
            self._pos = off
        elif whence == 1:
            self._pos += off
        else:
            self._pos = len(self._data) + off
        return self._pos

    def tell(self):
        return self._pos

    def readinto(self, b):
        self._n += 1
        self._book["reads"] = self._book.get("reads", 0) + 1
        f = self._fail
        if f is not None and self._n >= f[0]:
            self._book["failed"] = True
            if f[1] in ERRNOS:
                raise os_error(f[1], f[2])
            raise env.make_exc(f[1], f[2])
        n = min(len(b), self._sizes[(self._n - 1) % len(self._sizes)], len(self._data) - self._pos)
        if n < len(b) and n < len(self._data) - self._pos:
            self._book["short"] = self._book.get("short", 0) + 1
        b[:n] = self._data[self._pos:self._pos + n]
        self._pos += n
        return n

    def close(self):
        if not self.closed:
            self._book["open"] -= 1
        super().close()


class Disk:
    """Within the context, opening `path` for reading goes to the virtual disk."""

    def __init__(self, path: str, data: bytes, plan: dict):
        self.path = os.path.realpath(path)
        self.data = data
        self.plan = plan
        self.book = {"opened": 0, "open": 0, "reads": 0, "short": 0, "failed": False}

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        if not isinstance(file, (str, os.PathLike)) or os.path.realpath(os.fspath(file)) != self.path \
                or "w" in mode or "a" in mode or "x" in mode or "+" in mode:
            return self.real(file, mode, buffering, encoding, errors, newline, *a, **k)
        if self.plan.get("open"):
            self.book["failed"] = True
            raise os_error(self.plan["open"], "load")
        raw = SimRaw(self.data, self.plan, self.book)
        if buffering == 0:
            return raw
        f = io.BufferedReader(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "b" in mode:
            return f
        return io.TextIOWrapper(f, encoding, errors, newline)

    def __enter__(self):
        self.real = builtins.open
        builtins.open = self.open  # type: ignore
        io.open = self.open  # type: ignore
        return self

    def __exit__(self, *exc):
        builtins.open = self.real
        io.open = self.real
        return False


def make_plan(rng: random.Random) -> dict:
    c = rng.random()
    if c < 0.2:
        sizes = [1 << 30]
    elif c < 0.5:
        sizes = [rng.choice([1, 2, 3, 7])]
    else:
        sizes = [rng.choice([1, 2, 3, 5, 16, 100, 1000, 4096, 8191, 8192]) for _ in range(rng.randrange(1, 6))]
    return {"sizes": sizes}
