"""Real range samplers of all workers and ranks of one configuration."""
import numpy as np
from deepgnn.graph_engine.samplers import RangeNodeSampler, RangeEdgeSampler

RULE = "all small (range, batch, workers, ranks), then random ones; non-trivial when more than one worker or rank, or a partial batch"


def cases(rng, tier):
    for e in (0, 1):
        yield {"first": 0, "n": 7, "B": 2, "W": 1, "D": 1, "edge": e, "omit": 1}
    for first in (2 ** 31 - 5, 2 ** 60 + 1):        # ids are 64-bit
        for D in (1, 2):
            yield {"first": first, "n": 11, "B": 2, "W": 2, "D": D, "edge": D - 1, "omit": 0}
    yield {"first": 3, "n": 70001, "B": 40000, "W": 1, "D": 1, "edge": 0, "omit": 1}
    m = 4 if tier == "quick" else 6
    for n in range(1, 14 if tier == "quick" else 30):
        for B in range(1, m):
            for W in range(1, 4):
                for D in range(1, 4):
                    yield {"first": n % 3, "n": n, "B": B, "W": W, "D": D, "edge": (n + B) % 2, "omit": (n + W) % 2}
    while True:
        yield {"first": rng.randrange(-5, 50), "n": rng.randrange(1, 400), "B": rng.randrange(1, 20), "W": rng.randrange(1, 5),
               "D": rng.randrange(1, 5), "edge": rng.randrange(2), "omit": rng.randrange(2)}


def trivial(c):
    return c["W"] * c["D"] == 1 and c["n"] % c["B"] == 0


def check(c):
    first, last, B, W, D = c["first"], c["first"] + c["n"], c["B"], c["W"], c["D"]
    back = -10 ** 9
    seen = []
    for w in range(W):
        for r in range(D):
            try:
                kw = dict(data_parallel_num=D, data_parallel_index=r)
                if c.get("omit"):  # documented defaults
                    kw = {k: v for k, v in kw.items() if v != (1 if "num" in k else 0)}
                if c["edge"]:
                    s = RangeEdgeSampler(7, first, last, B, w, W, back, **kw)
                else:
                    s = RangeNodeSampler(first, last, B, w, W, back, **kw)
            except AssertionError:
                continue  # a worker past the end is refused
            nb = 0
            it = iter(s)
            while True:
                try:
                    b = next(it)
                except StopIteration:
                    break
                nb += 1
                if nb > c["n"] + 2:
                    return f"worker {w} rank {r} does not stop"
                if c["edge"]:
                    if b.shape != (B, 3):
                        return f"edge batch of shape {b.shape}, expected {(B, 3)}"
                    if not (b[:, 2] == 7).all():
                        return "edge type not kept"
                    b = b[:, :2].reshape(-1)
                elif b.shape != (B,):
                    return f"batch of shape {b.shape}, expected {(B,)}"
                ids = [int(x) for x in b if x != back]
                if list(b[:len(ids)]) != ids:
                    return f"backfill before real ids in {b.tolist()}"
                if ids != sorted(ids):
                    return f"ids of a batch out of order: {ids}"
                if c["edge"] and D == 1 and any(y != x + 1 for x, y in zip(ids, ids[1:])):
                    return f"edge batch does not pair consecutive ids: {b.tolist()}"
                seen += ids
            if D == 1 and len(s) != nb:
                return f"length {len(s)} but {nb} batches (worker {w} of {W})"
    want = list(range(first, last))
    if sorted(seen) != want:
        miss = sorted(set(want) - set(seen))[:5]
        dup = sorted({x for x in seen if seen.count(x) > 1})[:5] if len(seen) < 3000 else "?"
        extra = sorted(set(seen) - set(want))[:5]
        return f"range [{first},{last}) batch {B} workers {W} ranks {D}: missing {miss} repeated {dup} outside {extra}"
    return None


def from_model(proof, ob, m):
    try:
        n = m["last"] - m["first"]
        if 0 < n < 3000 and m["B"] < 500 and m["W"] < 40 and m["D"] < 40:
            yield {"first": m["first"], "n": n, "B": m["B"], "W": m["W"], "D": m["D"], "edge": int("edge" in proof)}
    except (KeyError, TypeError):
        return
