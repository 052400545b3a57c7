"""The real neighbor and walk requests against a recording stand-in for the native library."""
import random
import numpy as np
import _fake
from _fake import LIB, memory_graph, cleanup, view
import deepgnn.graph_engine.snark.local as local

RULE = "0-6 nodes, 0-5 edge types with repeats (or one int), counts 0-4, with/without timestamps and creation times, direct and through the client; non-trivial with 2+ nodes and 2+ types"
METHODS = ["weighted", "uniform", "norepl", "lastn", "ppr", "walk", "counts", "neighbors", "types"]
NATIVE = {"weighted": "WeightedSampleNeighbor", "uniform": "UniformSampleNeighbor", "norepl": "UniformSampleNeighbor", "lastn": "LastNCreatedNeighbor", "ppr": "PPRSampleNeighbor",
          "walk": "RandomWalk", "counts": "NeighborCount", "neighbors": "GetNeighbors", "types": "GetNodeType"}
STRAT = {"weighted": "byweight", "uniform": "random", "norepl": "randomwithoutreplacement", "lastn": "lastn", "ppr": "ppr-go"}
WORDS = {"weighted": "weighted", "uniform": "uniform", "most": "lastn", "personalized": "ppr", "random": "walk", "neighbor": "counts", "all": "neighbors", "node": "types", "unknown": "unknown"}


def cases(rng, tier):
    for m in METHODS:
        for client in (False, True):
            for ts in (None, "yes"):
                for ret in (False, True):
                    yield {"m": m, "client": client, "n": 3, "count": 2, "ts": ts, "ret": ret, "types": [4, 1, 3, 1], "seed": 5}
    yield {"m": "unknown", "client": True, "n": 2, "count": 2, "ts": None, "ret": False, "types": [1], "seed": 5, "strategy": "topk"}
    while True:
        m = rng.choice(METHODS)
        yield {"m": m, "client": rng.random() < .5, "n": rng.randrange(0, 7), "count": rng.randrange(0, 5), "ts": rng.choice([None, "empty", "yes", "list"]), "ret": rng.random() < .5,
               "types": rng.choice([rng.randrange(0, 6), [rng.randrange(-1, 12) for _ in range(rng.randrange(0, 6))]]), "seed": rng.randrange(10 ** 6)}
        if rng.random() < .02:
            yield {"m": "unknown", "client": True, "n": 2, "count": 2, "ts": None, "ret": False, "types": [1], "seed": 5,
                   "strategy": rng.choice(["", "Random", "topk", "weighted", "ppr", "last", "uniform", "randomwithout", "byWeight", "lastn "])}


def trivial(c):
    return c["n"] < 2 or isinstance(c["types"], int) or len(set(c["types"])) < 2


def from_model(proof, obligation, m):
    k = WORDS[proof.split()[0]]
    if k == "unknown":
        return
    for kk in ([k, "norepl"] if k == "uniform" else [k]):
        for ts in (None, "yes"):
            for ret in (False, True):
                for types in (3, [4, 1, 3, 1]):
                    for seed in range(12):
                        yield {"m": kk, "client": "client" in proof, "n": 3, "count": 2, "ts": ts, "ret": ret, "types": types, "seed": seed}


def check(c):
    rng = random.Random(c["seed"])
    random.seed(c["seed"])
    LIB.reset(c["seed"])
    m, n, count, ret = c["m"], c["n"], c["count"], c["ret"]
    g = local.Client(_fake.folder(_fake.meta(watermark=7)), [0]) if c["client"] else memory_graph(watermark=7)
    LIB.calls.clear()
    ids = [rng.choice([rng.randrange(100), 2 ** 40 + rng.randrange(100), -rng.randrange(1, 5)]) for _ in range(n)]
    nodes = view(rng, ids, np.int64)
    et = c["types"]
    want = {"nodes": ids, "n": n}
    if m != "types":
        want["etypes"] = [et] if isinstance(et, int) else sorted(set(et))
        want["ne"] = len(want["etypes"])
    if c["client"] and not isinstance(et, int):
        et = _fake.types_view(rng, et)
    elif not isinstance(et, int):
        et = list(et)
    tsv = [rng.choice([0, rng.randrange(0, 2 ** 40)]) for _ in range(n)]
    if rng.random() < .1:
        tsv = [0] * n
    if m == "lastn" and c["ts"] in (None, "empty"):
        c = dict(c, ts="yes")
    ts = {None: None, "empty": np.empty(0, dtype=np.int64), "yes": view(rng, tsv, np.int64), "list": tsv}[c["ts"]]
    if m != "types":
        want["ts"] = tsv if c["ts"] in ("yes", "list") and n else None
        if m == "lastn" and n == 0:
            want.pop("ts")
    kw = {} if ts is None and rng.random() < .5 else {"timestamps": ts}
    dn, dw, dt, dts = rng.randrange(-5, 99), rng.randrange(64) / 8, rng.randrange(-3, 20), rng.randrange(100)
    if rng.random() < .2:
        dn, dw, dt, dts = 0, 0.0, 0, 0
    p, q, al, ep = (rng.randrange(1, 64) / 8 for _ in range(4))
    omit = rng.random() < .15      # documented default arguments
    if omit:
        dn, dw, dt, dts, al, ep = -1, 0.0, -1, -1, .5, 1e-4
    seed = rng.choice([None, 0, rng.randrange(2 ** 40)])
    if m == "unknown":
        try:
            g.sample_neighbors(nodes, et, count, c["strategy"])
        except Exception:
            return None if not LIB.calls else f"unknown strategy {c['strategy']!r}: the engine was called"
        return f"unknown strategy {c['strategy']!r} was accepted"
    cl = c["client"]
    opt = lambda *a: () if omit else a
    if m in STRAT:
        want["count"] = count
        want["dnode"] = dn
        if m not in ("uniform", "norepl"):
            want["dweight"] = dw
        if m == "ppr":
            want.update(alpha=al, eps=float(np.float32(ep)))
        else:
            want.update(dtype=dt, retts=ret)
            kw["return_edge_created_ts"] = ret
        if m == "lastn":
            want["dts"] = -1 if cl else dts
        if m in ("uniform", "norepl"):
            want["norepl"] = m == "norepl"
        if m in ("weighted", "uniform", "norepl") and not cl:
            kw["seed"] = seed
            if seed is not None:
                want["seed"] = seed
    if m in STRAT and cl:
        call = lambda: g.sample_neighbors(nodes, et, count, STRAT[m], *opt(dn, dw, dt, al, ep), **kw)
    elif m == "weighted":
        call = lambda: g.weighted_sample_neighbors(nodes, et, count, *opt(dn, dw, dt), **kw)
    elif m in ("uniform", "norepl"):
        call = lambda: g.uniform_sample_neighbors(m == "norepl", nodes, et, count, *opt(dn, dt), **kw)
    elif m == "lastn":
        call = lambda: g.lastn_neighbors(nodes, et, kw.pop("timestamps"), count, *opt(dn, dw, dt, dts), **kw)
    elif m == "ppr":
        call = lambda: g.ppr_neighbors(nodes, et, count, *opt(al, ep, dn, dw), **kw)
    elif m == "walk":
        want.update(count=count, p=p, q=q, dnode=dn)
        if not cl:
            kw["seed"] = seed
            if seed is not None:
                want["seed"] = seed
        call = lambda: g.random_walk(nodes, et, count, p, q, *opt(dn), **kw)
    elif m == "counts":
        call = lambda: (g.neighbor_count if cl else g.neighbor_counts)(nodes, et, **kw)
    elif m == "neighbors":
        want["retts"] = ret
        k = rng.randrange(0, 9)
        LIB.neigh = ([rng.randrange(2 ** 40) for _ in range(k)], [rng.randrange(64) / 8 for _ in range(k)], [rng.randrange(9) for _ in range(k)], [rng.randrange(2 ** 40) for _ in range(k)])
        call = lambda: g.neighbors(nodes, et, return_edge_created_ts=ret, **kw)
    else:
        want["default"] = -1 if cl else dt
        call = lambda: g.node_types(nodes) if cl else g.node_types(nodes, dt)
    saved = [(x, np.array(x, copy=True)) for x in (nodes, et, ts) if isinstance(x, np.ndarray)]
    r = call()
    what = f"{m} request"
    if LIB.problems:
        return f"{what}: " + LIB.problems[0]
    calls = [x for x in LIB.calls if not x["!name"].startswith("Reset")]
    if len(calls) != 1 or calls[0]["!name"] != NATIVE[m]:
        return f"{what}: native calls {[x['!name'] for x in calls]}"
    a = calls[0]
    for k, v in want.items():
        if a[k] != v:
            return f"{what}: engine received {k} = {a[k]}, the caller asked for {v}"
    for x, old in saved:
        if x.dtype != old.dtype or not np.array_equal(x, old):
            return f"{what}: caller's array modified"

    def bad(x, role, shape, dtype, name):
        if role not in a["wrote"]:
            return f"{what}: the engine was given no buffer for the {name}"
        if not isinstance(x, np.ndarray) or x.shape != shape or x.dtype != dtype:
            return f"{what}: {name} are {type(x).__name__} {getattr(x, 'shape', None)} {getattr(x, 'dtype', None)}, expected {shape} {np.dtype(dtype)}"
        return None if x.ravel().tolist() == a["wrote"][role].tolist() else f"{what}: {name} are not what the engine wrote"
    sh = (n, count)
    if m in STRAT:
        if ret and m != "ppr" and a["outts"] is None:
            return f"{what}: the engine was asked for creation times without a buffer for them"
        parts = [("out", np.int64, "neighbors")]
        parts += [] if m in ("uniform", "norepl") and not cl else [("outw", np.float32, "weights")]
        parts += [("outtypes", np.int32, "types")] if m != "ppr" or cl else []
        parts += [("outts", np.int64, "creation times")] if ret and m != "ppr" or cl and (m != "lastn" or len(r) == 4) else []
        if len(r) != len(parts):
            return f"{what}: {len(r)} results, expected {len(parts)}"
        for x, (role, d, name) in zip(r, parts):
            if role == "outts" and (not ret or m == "ppr"):
                e = None if x.shape == sh and (x == -1).all() else f"{what}: absent creation times are {x}"
            elif role == "outtypes" and m == "ppr":
                e = None if x.size == 0 else f"{what}: types {x}"
            elif role == "outw" and m in ("uniform", "norepl"):
                e = None if x.shape == sh and x.dtype == d else f"{what}: weights shaped {x.shape}"
            else:
                e = bad(x, role, sh, d, name)
            if e:
                return e
        return None
    if m == "walk":
        return bad(r, "out", (n, count + 1), np.int64, "walks")
    if m == "counts":
        return bad(r, "out", (n,), np.uint64, "counts")
    if m == "types":
        return bad(r, "out", (n,), np.int32, "types")
    if len(r) != (5 if ret else 4):
        return f"{what}: {len(r)} results"
    for x, w, d in zip([r[0], r[1], r[2]] + ([r[4]] if ret else []), LIB.neigh, (np.int64, np.float32, np.int32, np.int64)):
        if x.dtype != d or x.tolist() != w:
            return f"{what}: result {x}, the engine gave {w}"
    return bad(r[3], "out", (n,), np.uint64, "counts")
