"""The real train/test split and node list files."""
import os
import random
import shutil
import tempfile
from fractions import Fraction
import _fake
from deepgnn.graph_engine.data import data_util

RULE = "0-40 distinct ids in any order, ratios in [0, 1], both selection modes, node list files written from the result; non-trivial with ids of both labels in unsorted order"


def cases(rng, tier):
    yield {"n": 10, "ratio": 0.5, "rand": False, "seed": 1}
    yield {"n": 10, "ratio": 0.25, "rand": True, "seed": 1}
    while True:
        yield {"n": rng.randrange(0, 41), "ratio": rng.choice([0.0, 1.0, 0.5, 0.8, 0.25, 1 / 3, round(rng.random(), 3)]), "rand": rng.random() < 0.5, "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return not 0 < int(c["n"] * c["ratio"]) < c["n"]


def from_model(proof, obligation, m):
    for n in range(0, 6):
        for r in (0.0, 0.2, 0.5, 0.75, 1.0):
            for b in (False, True):
                yield {"n": n, "ratio": r, "rand": b, "seed": n}


def check(c):
    rng = random.Random(c["seed"])
    ids = rng.sample(range(10 ** rng.choice([2, 3, 5, 8, 18])), c["n"])
    old = list(ids)
    got = data_util.select_training_test_nodes(ids, c["ratio"], c["rand"])
    what = f"ids {old}, ratio {c['ratio']}, {'random' if c['rand'] else 'ordered'} selection"
    if sorted(got) != sorted(old) or set(got.values()) - {"train", "test"} or ids != old:
        return f"{what}: labels {got}"
    train = sorted(i for i, t in got.items() if t == "train")
    # the exact product rounded down, or the floating-point one
    if len(train) not in (int(c["n"] * Fraction(c["ratio"])), int(c["n"] * c["ratio"])):
        return f"{what}: {len(train)} of {c['n']} are training ids"
    if not c["rand"] and train != sorted(old)[:len(train)]:
        return f"{what}: training ids {train}"
    if c["rand"] and c["n"] >= 30 and 0.3 < c["ratio"] < 0.7 and train in (sorted(old)[:len(train)], sorted(old)[-len(train):]):
        return f"{what}: selection is not random"
    d = tempfile.mkdtemp()
    try:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        data_util.write_node_files(dict(got), a, b)
        la, lb = (open(f).read() for f in (a, b))
    finally:
        shutil.rmtree(d)
    if sorted(la.split("\n")) != sorted([""] + [str(i) for i in train]) or sorted(lb.split("\n")) != sorted([""] + [str(i) for i in old if got[i] == "test"]):
        return f"{what}: files {la!r} and {lb!r}"
