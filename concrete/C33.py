"""The real dataset with generated sampler classes."""
import random
import _fake
from deepgnn.graph_engine._base import Graph
from deepgnn.graph_engine.graph_dataset import DeepGNNDataset

RULE = "sampler classes with 0-6 parameters drawn from dataset settings, option names and graphs, options given for some of them, 0-6 batches, with and without prefetching; non-trivial with 2+ parameters and 2+ batches"
ODD = [None, 0, False, "", ()]
NAMES = ["batch_size", "epochs", "num_workers", "worker_index", "alpha", "beta", "filename", "shuffle"]


def cases(rng, tier):
    yield {"params": ["graph", "batch_size", "alpha"], "graphs": ["graph"], "opts": ["alpha", "batch"], "batches": 3, "prefetch": False, "seed": 1}
    yield {"params": ["g", "batch_size", "epochs"], "graphs": ["g"], "opts": ["epochs"], "batches": 3, "prefetch": True, "seed": 1}
    while True:
        ps = rng.sample(NAMES + ["graph", "g", "sampler", "init_sampler"][:rng.choice([2, 4])], rng.randrange(0, 7))
        yield {"params": ps, "graphs": [p for p in ps if (rng.random() < 0.8 if p in ("graph", "g") else rng.random() < 0.05)], "opts": rng.sample(NAMES[4:] + ["graph", "sampler", "init_sampler", "g", "unused"], rng.randrange(0, 4)), "odd": rng.random() < 0.3, "batches": rng.randrange(0, 7),
               "prefetch": rng.random() < 0.2, "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return len(c["params"]) < 2 or c["batches"] < 2


def from_model(proof, obligation, m):
    for pf in (False, True):
        for b in range(3):
            yield {"params": ["graph", "batch_size", "alpha", "epochs"], "graphs": ["graph"], "opts": ["alpha", "epochs"], "batches": b, "prefetch": pf, "seed": 2}
            yield {"params": ["g", "num_workers", "worker_index"], "graphs": ["g"], "opts": ["g"], "batches": b, "prefetch": pf, "seed": 2}


class G(Graph):
    pass


G.__abstractmethods__ = frozenset()


def check(c):
    rng = random.Random(c["seed"])
    missing = object()
    got = []
    batches = [[i, rng.random()] if not c.get("odd") or rng.random() < 0.7 else rng.choice(ODD) for i in range(c["batches"])]

    class Base:
        def __iter__(self):
            return iter(batches)

        def __len__(self):
            return c["batches"] + 17
    ns = {"Graph": Graph, "missing": missing, "got": got, "Base": Base}
    sig = ", ".join(f"{p}: Graph = missing" if p in c["graphs"] else f"{p}=missing" for p in c["params"])
    exec(f"class S(Base):\n    def __init__(self{', ' if sig else ''}{sig}):\n        got.append(dict({', '.join(f'{p}={p}' for p in c['params'])}))\n", ns)
    graph = G()
    backend = type("B", (), {"graph": graph})()
    opts = {o: rng.choice(ODD) if c.get("odd") and rng.random() < 0.5 else object() for o in c["opts"] if o != "epochs"}
    st = {k: rng.choice(ODD[:2]) if c.get("odd") and rng.random() < 0.4 else rng.randrange(1, 50) for k in NAMES[:4]}
    kw = dict(opts)
    asked = []

    def query(g, x):
        asked.append((g, x))
        return ("answer", x)
    try:
        d = DeepGNNDataset(ns["S"], query, backend, enable_prefetch=c["prefetch"], **st, **kw)
    except AttributeError as ex:
        return f"building the sampler with parameters {c['params']}: {ex}"
    if any(p in ("sampler", "init_sampler") and p not in opts and p not in c["graphs"] for p in c["params"]):
        return None
    want = {p: graph if p in c["graphs"] else opts[p] if p in opts else st[p] if p in st else graph if p == "graph" else missing for p in c["params"]}
    if len(got) != 1 or any(got[0][p] is not want[p] and (got[0][p] is missing or type(got[0][p]) is not type(want[p]) or got[0][p] != want[p]) for p in want):
        return f"sampler({sig}) with options {sorted(opts)} and settings {st}: built with {got}"
    if len(d) != c["batches"] + 17:
        return f"length {len(d)}"
    for rep in range(1 if c["prefetch"] else 2):
        asked.clear()
        out = list(iter(d))
        if out != [("answer", b) for b in batches]:
            return f"batches {batches} came out as {out}"
        if len(asked) != len(batches) or any(g is not graph for g, _ in asked) or sorted(str(x) for _, x in asked) != sorted(str(x) for x in batches):
            return f"batches {batches} were queried as {asked}"
