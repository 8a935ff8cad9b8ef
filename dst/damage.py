"""Damage to stored bytes."""

from __future__ import annotations

import random
import re

TOKEN = re.compile(rb'"[^"\n]*"|[A-Za-z_0-9.]+|[^\sA-Za-z_0-9.]')
WORDS = [b"Case", b"Default", b"Break", b"EndSelect", b"EndIf", b"EndFor", b"EndWhile", b"Else", b"Elif", b"If", b"For",
         b"While", b"SelectOne", b"SelectMany", b"in", b"from", b"to", b"by", b"Return", b"Continue", b"Cancel",
         b"RequireVersions", b"DataSubPackage", b"SelectAll", b"Exec", b"++", b"not", b"and", b"or", b",", b"(", b")", b"[", b"]",
         b"=", b"+=", b".", b"1", b"0.5", b'"x"', b"\n", b"|", b"False", b"SubPackages", b"|\n"]
# hands rather than disks: whole words, whole lines
HANDS = ["word-lost", "word-dup", "word-other", "word-in", "line-lost", "line-dup", "line-swap"]
KINDS = ["flip", "set", "lose", "dup", "cut", "zero", "swap", "stale", "insert"]
INTERESTING = b"\"'();,=.[]|\\\n\r\t &<>!+-*/%^@#$\x00\xff\xc3\xe2\x80_0aEI"


def make(rng: random.Random, n: int):
    """A list of n operations with relative positions."""
    ops = []
    hands = rng.random() < 0.5
    for _ in range(n):
        if hands:
            ops.append([rng.choice(HANDS), rng.random(), 1, rng.randrange(256), rng.random()])
            continue
        k = rng.choice(KINDS)
        ops.append([k, rng.random(), rng.choice([1, 1, 2, 4, 8, 16, 64]), rng.choice(INTERESTING)
                    if rng.random() < 0.7 else rng.randrange(256), rng.random()])
    return ops


def apply(data: bytes, ops) -> bytes:
    d = bytearray(data)
    for k, where, size, val, other in ops:
        if not d:
            d = bytearray(b"\n")
        if k in HANDS:
            d = by_hand(d, k, where, val, other)
            continue
        i = int(where * len(d))
        j = int(other * len(d))
        if k == "flip":
            d[i] ^= 1 << (val % 8)
        elif k == "set":
            d[i] = val
        elif k == "lose":
            del d[i:i + size]
        elif k == "dup":
            d[i:i] = d[i:i + size]
        elif k == "cut":
            del d[i:]
        elif k == "zero":
            d[i:i + size] = bytes(len(d[i:i + size]))
        elif k == "swap":
            a, b = bytes(d[i:i + size]), bytes(d[j:j + size])
            if abs(i - j) >= size and len(a) == len(b):
                d[i:i + size], d[j:j + size] = b, a
        elif k == "stale":
            # a block of the file holds what belongs elsewhere in it
            s = bytes(d[j:j + size])
            d[i:i + len(s)] = s
        elif k == "insert":
            d[i:i] = bytes([val])
    return bytes(d)


def by_hand(d: bytearray, k, where, val, other):
    if k.startswith("word"):
        spans = [m.span() for m in TOKEN.finditer(bytes(d))]
        if not spans:
            return d
        a, b = spans[int(where * len(spans))]
        e, f = spans[int(other * len(spans))]
        if k == "word-lost":
            return d[:a] + d[b:]
        if k == "word-dup":
            return d[:b] + b" " + d[a:b] + d[b:]
        if k == "word-other":
            return d[:a] + d[e:f] + d[b:]
        return d[:a] + b" " + WORDS[val % len(WORDS)] + b" " + d[a:]
    lines = bytes(d).split(b"\n")
    i, j = int(where * len(lines)), int(other * len(lines))
    if k == "line-lost":
        del lines[i]
    elif k == "line-dup":
        lines.insert(j, lines[i])
    else:
        lines[i], lines[j] = lines[j], lines[i]
    return bytearray(b"\n".join(lines))
