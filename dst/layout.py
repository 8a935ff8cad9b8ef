"""Package layouts: [[name, [files...]], ...]."""

from __future__ import annotations

import random

NAMES = ["00 Core", "01 Extra", "Alpha", "beta", "Zed \u00c9t\u00e9", "stra\u00dfe", "a", "\ufb01ne", " Pad  x"]
FILES = ["a.esp", "B.esm", "sub/c.esl", "readme.txt", "d.esp", "textures\\x.dds",
         "meshes/e.nif", "\u00e9.esp", "deep/dir/f.esm", "A2.esp", "Stra\u00dfe.esp", "\ufb01x.esm", "\u03a3\u0391\u03a3.esp", " lead.esm",
         "deep dir/x y.esp", "trail.txt "]


def is_plugin(name: str) -> bool:
    return name[-4:] in (".esp", ".esm", ".esl")


def base(name: str) -> str:
    return name.rsplit("/", 1)[-1]


def plugins_of(files):
    return [base(f) for f in files if is_plugin(f)]


def make_layout(rng: random.Random, lo: int = 0, hi: int = 4):
    n = rng.randint(lo, hi)
    names = rng.sample(NAMES, n)
    if n > 1 and rng.random() < 0.05:
        names += ["P%02d" % i for i in range(12)]
        rng.shuffle(names)
    res = []
    for nm in names:
        k = rng.randint(0, 4)
        files = rng.sample(FILES, k)
        if rng.random() < 0.1 and files:
            # the same plugin under another case in the same or another folder
            f = base(files[0])
            files.append("dup/" + f[:-4].swapcase() + f[-4:])
        if rng.random() < 0.1 and res and res[-1][1]:
            # ... or in another package
            f = base(res[-1][1][0])
            files.insert(0, f[:-4].swapcase() + f[-4:])
        res.append([nm, files])
    return res
