"""The real skip-gram generation against the definition of the window."""
import numpy as np
from deepgnn.graph_engine.graph_ops import gen_skipgrams, get_skipgrams_size

RULE = "0-4 paths of 1-9 positions, windows 0-10 on either side, several dtypes, distinct, repeated, negative and zero ids; non-trivial when the windows differ and a path has 3+ positions"


def cases(rng, tier):
    yield {"paths": 2, "len": 4, "left": 1, "right": 2, "seed": 1}
    yield {"paths": 1, "len": 5, "left": 0, "right": 3, "seed": 1}
    yield {"paths": 2, "len": 300, "left": 4, "right": 200, "seed": 2}
    while True:
        yield {"paths": rng.randrange(0, 5), "len": rng.randrange(1, 10), "left": rng.randrange(0, 11), "right": rng.randrange(0, 11), "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return c["left"] == c["right"] or c["len"] < 3


def from_model(proof, obligation, m):
    g = lambda k, d: m[k] if isinstance(m.get(k), int) and 0 <= m[k] < 12 else d
    yield {"paths": g("batch", 2), "len": max(g("path_len", 4), 1), "left": g("left", 1), "right": g("right", 2), "seed": 1}
    for n in range(1, 6):
        for l in range(0, 5):
            for r in range(0, 5):
                yield {"paths": 2, "len": n, "left": l, "right": r, "seed": 2}


def check(c):
    rng = np.random.RandomState(c["seed"])
    lo, hi = [(0, 10 ** 6), (-1, 2), (-3, 4), (-10 ** 6, 10 ** 6), (2 ** 60, 2 ** 60 + 9)][rng.randint(5)]        # ids, also repeated, absent (-1) or negative
    p = rng.randint(lo, hi, size=(c["paths"], c["len"])).astype(rng.choice(["int64", "int32", "float64"]))
    old = p.copy()
    want = [(q[j], q[k]) for q in p for j in range(c["len"]) for k in range(c["len"]) if k != j and j - c["left"] <= k <= j + c["right"]]
    n = get_skipgrams_size(c["len"], c["left"], c["right"])
    got = gen_skipgrams(p, c["left"], c["right"])
    what = f"{c['paths']} paths of {c['len']}, windows {c['left']} and {c['right']}"
    if n * c["paths"] != len(want):
        return f"{what}: announced {n} pairs per path, {len(want)} in total are inside the window"
    if got.shape != (len(want), 2) or got.dtype != p.dtype or [tuple(x) for x in got] != want:
        return f"{what}: pairs {got.tolist()[:12]} differ from {want[:12]}"
    return None if np.array_equal(p, old) else f"{what}: paths modified"
