"""Real JSON lines through the real decoder, against an independent reading of the line."""
import json
import numpy as np
from deepgnn.graph_engine.snark.decoders import JsonDecoder

RULE = "lines with 0-6 edges with and without own times, 0-4 feature groups with gaps, empty, sparse, binary, null and timestamped values; non-trivial with 2+ edges or a feature"
DT = {"double": "f8", "float": "f4", "float64": "f8", "float32": "f4", "float16": "f2", "uint64": "u8", "int64": "i8", "uint32": "u4", "int32": "i4",
      "uint16": "u2", "int16": "i2", "uint8": "u1", "int8": "i1"}


def values(rng, k, n):
    if k.startswith(("u", "i")):
        b = int(k.split("int")[1])
        ends = [2 ** b - 1] if k[0] == "u" else [2 ** (b - 1) - 1, -2 ** (b - 1), -1]
        return [rng.choice([rng.randrange(0, 100)] * 3 + ends) for _ in range(n)]
    return [rng.randrange(-40, 40) / 4 for _ in range(n)]


def feats(rng):
    d, free = {}, list(range(rng.choice([8, 8, 14])))
    rng.shuffle(free)
    for _ in range(rng.randrange(0, 5)):
        t = rng.choice(sorted(DT))
        form = rng.choice(["dense", "dense", "sparse", "binary", "time", "none"])
        k = {"dense": t, "time": t, "sparse": "sparse_" + t, "binary": "binary", "none": t}[form] + "_feature"
        if k in d:
            continue
        if form == "none":
            d[k] = None
            continue
        g = {}
        for _ in range(rng.randrange(0, 3)):
            if not free:
                break
            i, n = str(free.pop()), rng.randrange(0, 4)
            if form == "dense":
                g[i] = values(rng, t, n)
            elif form == "sparse":
                g[i] = {"coordinates": [[rng.choice([rng.randrange(9), 2 ** 60 + 1]), rng.randrange(9)] for _ in range(n)], "values": values(rng, t, n)}
            elif form == "binary":
                g[i] = rng.choice(["", "abc", "x,y", " a ", "день", "\\n", '"q"'])
            else:
                ts = rng.sample(range(50), rng.randrange(1, 4))
                g[i] = [dict({"created_at": x, "values": values(rng, t, rng.randrange(1, 4))}, **({"removed_at": x + 3} if rng.random() < .3 else {})) for x in ts]
        d[k] = g
    return d


def times(rng, d):
    if rng.random() < .6:
        d["created_at"] = rng.randrange(0, 4)
    if rng.random() < .6:
        d["removed_at"] = rng.choice([-1, 2, 5, 9])
    return d


def mk(rng, ne):
    big = rng.choice([0, 0, 2 ** 60 + 1])
    nid = big + rng.randrange(0, 100)
    d = {"node_id": nid, "node_type": rng.randrange(3), "node_weight": rng.randrange(8) / 2}
    d.update(feats(rng))
    d["edge"] = [times(rng, dict({"src_id": nid, "dst_id": big + rng.randrange(6), "edge_type": rng.choice([0, 1, 2, 2, 10]), "weight": rng.randrange(8) / 2}, **feats(rng))) for _ in range(ne)]
    return times(rng, d)


def cases(rng, tier):
    base = {"node_id": 9, "node_type": 0, "node_weight": 1, "edge": []}
    yield dict(base, float_feature={"0": []})
    yield dict(base, edge=[{"src_id": 9, "dst_id": x, "edge_type": 0, "weight": 1, "removed_at": r} for x, r in ((1, -1), (2, 7), (3, 0), (0, -1))])
    for n in (0, 1, 2, 3, 4):
        yield mk(rng, n)
    while True:
        yield mk(rng, rng.randrange(0, 7))


def trivial(c):
    return len(c["edge"]) < 2 and not any("feature" in k for k in c)


def layout(item, dt):
    item = sorted(item, key=lambda x: x["created_at"])
    n = len(item)
    head = 4 + 8 * (2 * n + 1)
    offs, vals = [], b""
    for x in item:
        offs.append(head + len(vals))
        vals += np.array(x["values"], dtype=dt).tobytes()
    return np.int32(n).tobytes() + np.array([x["created_at"] for x in item] + offs + [head + len(vals)], dtype=np.int64).tobytes() + vals + b"\0" * 8


def want_features(o):
    slots = {}
    for k, g in o.items():
        if "feature" not in k or g is None:
            continue
        for i, v in g.items():
            t = k[:-len("_feature")]
            if t == "binary":
                slots[int(i)] = ("binary", v)
            elif t.startswith("sparse_"):
                slots[int(i)] = ("sparse", v, DT[t[len("sparse_"):]])
            elif v and isinstance(v[0], dict):
                slots[int(i)] = ("time", v, DT[t])
            else:
                slots[int(i)] = ("dense", v, DT[t])
    return slots


def feature_diff(got, o):
    want = want_features(o)
    n = max(want, default=-1) + 1
    if len(got) != n:
        return f"{len(got)} feature slots, expected {n}"
    for i in range(n):
        g, w = got[i], want.get(i)
        if w is None:
            if g is not None:
                return f"slot {i} should be absent, is {g!r}"
        elif w[0] == "binary":
            if g != w[1]:
                return f"text feature {i}: {g!r}"
        elif w[0] == "sparse":
            c = np.array(w[1]["coordinates"], dtype=np.int64)
            if not (isinstance(g, tuple) and len(g) == 2 and g[0].dtype == np.int64 and g[0].tolist() == c.tolist() and g[1].dtype == np.dtype(w[2]) and g[1].tolist() == w[1]["values"]):
                return f"sparse feature {i}: {g!r}, declared {w[1]!r}"
        elif w[0] == "dense":
            if not (isinstance(g, np.ndarray) and g.dtype == np.dtype(w[2]) and g.tolist() == w[1]):
                return f"feature {i}: {g!r}, declared {w[1]!r} as {w[2]}"
        elif bytes(g.tobytes()) != layout(w[1], w[2]):
            return f"timestamped feature {i} bytes differ: {g.tolist()} vs {list(layout(w[1], w[2]))}"


def check(c):
    got = list(JsonDecoder().decode(json.dumps(c)))
    ncr, nrm = c.get("created_at", 0), c.get("removed_at", -1)
    if len(got) != 1 + len(c["edge"]):
        return f"{len(got)} records for {len(c['edge'])} edges"
    if tuple(got[0][:6]) != (c["node_id"], -1, c["node_type"], c["node_weight"], ncr, nrm):
        return f"node record {got[0][:6]}"
    r = feature_diff(got[0][6], c)
    if r:
        return "node " + r

    def key(e):
        rm = e.get("removed_at", 0)
        return (e["edge_type"], e.get("created_at", 0), float("inf") if rm == -1 else rm, e["dst_id"])
    for e, g in zip(sorted(c["edge"], key=key), got[1:]):
        if tuple(g[:6]) != (e["src_id"], e["dst_id"], e["edge_type"], e["weight"], e.get("created_at", ncr), e.get("removed_at", nrm)):
            # edges with equal keys may come in either order
            same = [x for x in c["edge"] if key(x) == key(e)]
            if len(same) < 2:
                return f"edge record {g[:6]}, expected {e}"
            if not any(tuple(g[:6]) == (x["src_id"], x["dst_id"], x["edge_type"], x["weight"], x.get("created_at", ncr), x.get("removed_at", nrm)) for x in same):
                return f"edge record {g[:6]} is none of {same}"
            continue
        if len([x for x in c["edge"] if key(x) == key(e)]) == 1:
            r = feature_diff(g[6], e)
            if r:
                return f"edge to {e['dst_id']} " + r


def from_model(proof, obligation, model):
    base = {"node_id": 1, "node_type": 0, "node_weight": 1.0, "edge": []}
    if "features" in proof:
        return [dict(base, float_feature={"2": [1.0], "0": []}), dict(base, int64_feature={"1": [3, 4]}, binary_feature={"4": "t"})]
    return []
