"""Real CSV sampler over files; real graph-backed samplers over a recording graph."""
import os, shutil, tempfile, math
import numpy as np
from deepgnn.graph_engine._base import SamplingStrategy
from deepgnn.graph_engine.samplers import CSVNodeSampler, GENodeSampler, GEEdgeSampler

RULE = "all small CSV (rows, batch, ranks) and graph sampler configurations, then random; non-trivial when more than one batch or rank"
TMP = tempfile.mkdtemp(prefix="c17_")


def cleanup():
    shutil.rmtree(TMP, ignore_errors=True)


def drawn(size, k):
    """what the graph returns for the k-th draw: in no order, with repetitions, large and negative ids"""
    return np.array([(-7 - i // 2, 2 ** 60 + 1 - i, i // 3)[i % 3] + k for i in range(size)], np.int64)


class G:
    def __init__(self, n):
        self.n, self.calls, self.counts = n, [], []

    def node_count(self, t):
        self.counts.append(("node", t))
        return self.n

    def edge_count(self, t):
        self.counts.append(("edge", t))
        return self.n

    def sample_nodes(self, size, types, strategy=None):
        self.calls.append(("node", size, types, strategy))
        r = drawn(size, len(self.calls))
        return (r, r * 0) if isinstance(types, np.ndarray) else r

    def sample_edges(self, size, types, strategy=None):
        self.calls.append(("edge", size, types, strategy))
        return drawn(size * 3, len(self.calls)).reshape(size, 3)


def cases(rng, tier):
    yield {"k": "csv", "n": 5, "B": 2, "D": 1, "E": 2, "blank": 0, "cols": 1}
    yield {"k": "csv", "n": 5, "B": 2, "D": 2, "E": 1, "blank": 0, "cols": 1, "len": 1}
    for e in (0, 1):
        yield {"k": "ge", "n": 7, "B": 2, "D": 1, "E": 1, "W": 1, "edge": e, "arr": 0, "given": 0, "strat": 0, "omit": 1}
    yield {"k": "csv", "n": 5, "B": 2, "D": 1, "E": 1, "blank": 0, "cols": 1, "omit": 1}
    yield {"k": "csv", "n": 40000, "B": 33000, "D": 1, "E": 1, "blank": 0, "cols": 1, "style": 1}
    for n in range(0, 9):
        for B in (1, 2, 3, 5):
            for D in (1, 2, 3):
                yield {"k": "csv", "n": n, "B": B, "D": D, "E": 1, "blank": (n + B) % 2, "cols": 1 + D % 3, "omit": n % 2}
                for E in (1, 2):
                    yield {"k": "ge", "n": n, "B": B, "D": D, "E": E, "W": 1 + (n + E) % 3, "edge": n % 2, "arr": B % 2, "given": (n + D) % 2,
                           "strat": (n + B) % 2, "omit": (n + D) % 2}
    while True:
        if rng.random() < 0.5:
            yield {"k": "csv", "n": rng.randrange(0, 60), "B": rng.randrange(1, 10), "D": rng.randrange(1, 5), "E": 1, "blank": rng.randrange(2), "cols": rng.randrange(1, 4), "omit": rng.randrange(2)}
        else:
            yield {"k": "ge", "n": rng.randrange(0, 500), "B": rng.randrange(1, 40), "D": rng.randrange(1, 5), "E": rng.randrange(1, 6), "W": rng.randrange(1, 5),
                   "edge": rng.randrange(2), "arr": rng.randrange(2), "given": rng.randrange(2), "strat": rng.randrange(2), "omit": rng.randrange(2)}


def trivial(c):
    return c["n"] <= c["B"] and c["D"] == 1


def plain(kw, c, default):
    """leave out the arguments that have their documented default"""
    return {k: v for k, v in kw.items() if not c.get("omit") or default[k] != v}


def check(c):
    n, B, D, E = c["n"], c["B"], c["D"], c["E"]
    c = {"style": n % 2, **c}
    if c["k"] == "csv":
        rows = [[(i * 10, i // 2 % 3, 2 ** 60 + 1 - i // 2, -5 - i)[(i if c["style"] else 0) % 4] + j for j in range(c["cols"])] for i in range(n)]
        p = tempfile.mktemp(dir=TMP)
        with open(p, "w") as f:
            for i, r in enumerate(rows):
                f.write(",".join(map(str, r)) + "\n")
                if c["blank"] and i % 2:
                    f.write("\n")
        seen = []
        for r in range(D):
            kw = dict(epoch=E, data_parallel_num=D, data_parallel_index=r)
            s = CSVNodeSampler(B, p, **plain(kw, c, dict(epoch=1, data_parallel_num=1, data_parallel_index=0)))
            got, nb = [], 0
            for b in s:
                nb += 1
                if not 1 <= len(b) <= B:
                    return f"batch of {len(b)} rows, batch size {B}"
                got += b.tolist()
                if nb > n + 3:
                    return "does not stop"
            if got != rows[r::D] and E == 1:
                return f"rank {r} of {D} got {got[:6]}, expected {rows[r::D][:6]}"
            if n and r == 0 and len(s) != nb and (D == 1 or c.get("len")):
                return f"announces {len(s)} batches, yields {nb} (rows {n}, batch {B}, ranks {D}, epochs {E})"
            seen += got
        os.unlink(p)
        if sorted(seen) != sorted(rows * E):
            return f"rows not returned once per pass: {len(seen)} of {len(rows) * E}"
        return None
    g = G(n)
    W = c["W"]
    types = np.array([1, 3]) if c["arr"] else 2
    st = [SamplingStrategy.Weighted, SamplingStrategy.Random][c["strat"]]
    cls = GEEdgeSampler if c["edge"] else GENodeSampler
    kw = dict(sample_num=n if c["given"] else -1, num_workers=W, strategy=st, data_parallel_num=D, data_parallel_index=D - 1)
    s = cls(g, types, B, E, **plain(kw, c, dict(sample_num=-1, num_workers=1, strategy=SamplingStrategy.Weighted, data_parallel_num=1, data_parallel_index=0)))
    if not c["given"] and not (len(g.counts) == 1 and g.counts[0][0] == ("edge" if c["edge"] else "node") and g.counts[0][1] is types):
        return f"counts {g.counts}"
    want = -(-E * n // (B * W * D))
    if len(s) != want:
        return f"announces {len(s)} batches, smallest covering number is {want}"
    it = iter(s)
    k = 0
    while True:
        try:
            b = next(it)
        except StopIteration:
            break
        k += 1
        if k > want + 3:
            return "draws more than announced"
        if len(g.calls) != k:
            return "more than one draw for a batch"
        kd, size, tp, strat = g.calls[-1]
        if kd != ("edge" if c["edge"] else "node") or size != B or tp is not types or strat != st:
            return f"draw {g.calls[-1]} does not match request {(B, types, st)}"
        exp = drawn(B * 3, k).reshape(B, 3) if c["edge"] else drawn(B, k)
        if not isinstance(b, np.ndarray) or b.shape != exp.shape or (b != exp).any():
            return "batch is not what the graph returned"
    if k != want:
        return f"announced {want} batches, drew {k}"
    return None


def is_known(key, c, msg):
    if c["k"] != "csv":
        return False
    if key == "csv-epochs":
        return c["E"] > 1 and ("announces" in msg or "once per pass" in msg) and c["D"] == 1
    if key == "csv-parallel-length":
        return bool(c.get("len")) and c["D"] > 1 and "announces" in msg
    return False


def from_model(proof, ob, m):
    try:
        if "CSV" in proof:
            if m["B"] < 200 and m["D"] < 20:
                yield {"k": "csv", "n": min(max(m.get("N", m.get("lines", 5)), 0), 500), "B": m["B"], "D": m["D"], "E": 1, "blank": 1, "cols": 2}
        else:
            n = m.get("num" if "requested" in proof else "total", 5)
            if 0 <= n < 5000 and m["B"] < 1000 and m["W"] < 100 and m["D"] < 100 and m["E"] < 50:
                for st in (0, 1):
                    yield {"k": "ge", "n": n, "B": m["B"], "D": m["D"], "E": m["E"], "W": m["W"], "edge": int("edge" in proof), "arr": int("array" in proof),
                           "given": int("requested" in proof), "strat": st}
    except (KeyError, TypeError):
        return
