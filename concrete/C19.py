"""The real feature queries against a recording stand-in for the native library."""
import random
import numpy as np
import _fake
from _fake import LIB, memory_graph, cleanup, view
import deepgnn.graph_engine.snark.local as local

RULE = "0-6 ids, 0-4 features, item sizes 1-8 bytes, with/without timestamps, contiguous and strided inputs, direct and through the client; non-trivial with 2+ ids and a feature"
DT = ["float32", "float64", "int64", "int32", "uint8", "float16"]


def cases(rng, tier):
    for kind in ("dense", "sparse", "text"):
        for edge in (False, True):
            for ts in (None, "empty", "yes"):
                yield {"kind": kind, "edge": edge, "n": 3, "nf": 2, "dtype": "float32", "ts": ts, "client": False, "seed": 1}
    while True:
        kind = rng.choice(["dense", "sparse", "text"])
        yield {"kind": kind, "edge": rng.random() < .5, "n": rng.randrange(0, 7), "nf": rng.randrange(0, 5), "dtype": rng.choice(DT),
               "ts": rng.choice([None, "empty", "yes", "list"]), "client": kind == "dense" and rng.random() < .4, "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return c["n"] < 2 or c["nf"] < 1


def from_model(proof, obligation, m):
    k = proof.split()[0]
    for n, nf in ((m.get("n", 2), m.get("nf", 2)), (2, 2)):
        if isinstance(n, int) and isinstance(nf, int) and 0 <= n < 50 and 0 <= nf < 50:
            for dt in DT:
                for ts in (None, "yes"):
                    yield {"kind": k, "edge": "edge" in proof, "n": n, "nf": nf, "dtype": dt, "ts": ts, "client": "client" in proof, "seed": n}


def check(c):
    rng = random.Random(c["seed"])
    LIB.reset(c["seed"])
    g = memory_graph()
    if c["client"]:
        g = local.Client(_fake.folder(_fake.meta()), [0])
    LIB.calls.clear()
    n, nf, dt = c["n"], c["nf"], np.dtype(c["dtype"])
    big = lambda: rng.choice([rng.randrange(100), 2 ** 40 + rng.randrange(100), -rng.randrange(1, 5), 2 ** 62])
    ids = [[big() for _ in range(n)] for _ in range(2 if c["edge"] else 1)]
    idt = rng.choice([np.int64, np.int64, np.int32]) if all(abs(x) < 2 ** 31 for l in ids for x in l) else np.int64
    arrs = [view(rng, l, idt) for l in ids]
    want = {("nodes", "src", "dst")[k + c["edge"]]: l for k, l in enumerate(ids)}
    if c["edge"]:
        tp = [rng.randrange(0, 9) for _ in range(n)]
        arrs.append(view(rng, tp, rng.choice([np.int32, np.int64])))
        want["tp"] = tp
    if c["client"] and c["edge"]:
        arrs = [np.array(list(zip(*ids, tp)), dtype=np.int64).reshape(n, 3)]
    tsv = [rng.choice([0, rng.randrange(0, 2 ** 40)]) for _ in range(n)]
    ts = {None: None, "empty": np.empty(0, dtype=np.int64), "yes": view(rng, tsv, np.int64), "list": tsv}[c["ts"]]
    want["ts"] = tsv if c["ts"] in ("yes", "list") and n else None
    fids = [rng.randrange(0, 6) for _ in range(nf)]
    what = ("edge_" if c["edge"] else "node_") + {"dense": "features", "sparse": "sparse_features", "text": "string_features"}[c["kind"]]
    if c["kind"] == "dense":
        sizes = [rng.randrange(0, 5) for _ in range(nf)]
        feats = np.array(list(zip(fids, sizes)), dtype=rng.choice([np.int32, np.int64])).reshape(nf, 2)
        if rng.random() < .3:
            feats = np.asfortranarray(feats)
        want["features"] = [x for i, s in zip(fids, sizes) for x in (i, s * dt.itemsize)]
        want["outn"] = n * sum(sizes) * dt.itemsize
    else:
        feats = view(rng, fids, rng.choice([np.int32, np.int64]))
        want["features"] = fids
    want["n"], want["nf"] = n, nf
    mk = lambda k: np.array([rng.randrange(0, 100) for _ in range(k)], dtype=dt)
    if c["kind"] == "sparse":
        dims = [rng.randrange(0, 4) for _ in range(nf)]
        cnt = [rng.choice([0, 1, 2, 5]) for _ in range(nf)]
        ind = [np.array([[rng.randrange(2 ** 40) for _ in range(d + 1)] for _ in range(k)], dtype=np.int64).reshape(k, d + 1) for d, k in zip(dims, cnt)]
        val = [mk(k) for k in cnt]
        LIB.sparse = (ind, [v.tobytes() for v in val], dims)
    if c["kind"] == "text":
        lens = [rng.randrange(0, 4) for _ in range(n * nf)]
        tv = mk(sum(lens))
        LIB.text = (tv.tobytes(), [x * dt.itemsize for x in lens])
    saved = [(x, np.array(x, copy=True)) for x in arrs + [feats] + ([ts] if isinstance(ts, np.ndarray) else [])]
    dtarg = rng.choice([dt, dt.type])
    r = getattr(g, what)(*arrs, feats, dtarg, timestamps=ts) if ts is not None or rng.random() < .5 else getattr(g, what)(*arrs, feats, dtarg)
    if LIB.problems:
        return f"{what}: " + LIB.problems[0]
    calls = [x for x in LIB.calls if not x["!name"].startswith("Reset")]
    name = "Get" + ("Edge" if c["edge"] else "Node") + {"dense": "Feature", "sparse": "SparseFeature", "text": "StringFeature"}[c["kind"]]
    if len(calls) != 1 or calls[0]["!name"] != name:
        return f"{what}: native calls {[x['!name'] for x in calls]}"
    call = calls[0]
    for k, v in want.items():
        if call[k] != v:
            return f"{what}: engine received {k} = {call[k]}, the caller asked for {v}"
    for x, old in saved:
        if x.dtype != old.dtype or not np.array_equal(x, old):
            return f"{what}: caller's array modified"
    if c["kind"] == "dense":
        w = call["wrote"]["out"].view(dt).reshape(n, sum(sizes)) if call["outn"] else np.empty((n, sum(sizes)), dt)
        if not isinstance(r, np.ndarray) or r.dtype != dt or r.shape != (n, sum(sizes)) or r.tobytes() != w.tobytes():
            return f"{what}: result is not what the engine wrote"
    elif c["kind"] == "sparse":
        ri, rv, rd = r
        if list(rd) != dims or len(ri) != nf or len(rv) != nf:
            return f"{what}: dimensions {rd} / {len(ri)} / {len(rv)} lists, engine gave {dims}"
        for k in range(nf):
            okshape = ri[k].shape == ind[k].shape if cnt[k] else ri[k].size == 0
            if not okshape or ri[k].dtype != np.int64 or not np.array_equal(ri[k].ravel(), ind[k].ravel()):
                return f"{what}: coordinates of feature {k} are {ri[k]}, engine gave {ind[k]}"
            if rv[k].dtype != dt or rv[k].tobytes() != val[k].tobytes():
                return f"{what}: values of feature {k} are {rv[k]}, engine gave {val[k]}"
    else:
        rv, rd = r
        if rv.dtype != dt or rv.shape != (sum(lens),) or rv.tobytes() != tv.tobytes():
            return f"{what}: values {rv}, engine gave {tv}"
        if rd.shape != (n, nf) or rd.ravel().tolist() != lens:
            return f"{what}: lengths {rd.tolist()}, engine gave {lens}"
    return None
