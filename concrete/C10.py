"""Real metadata files of several workers in a scratch folder, merged by the real merger."""
import json, os, shutil, tempfile
import deepgnn.graph_engine.snark.meta_merger as mm

RULE = "1-13 workers with 0-3 partitions each, random counts, weights, type counts, feature counts and watermark; some with a worker of another version; non-trivial with 2+ workers"


def mk(rng, n, bad=False):
    nt, et = rng.choice([0, 1, 2, 3, 12]), rng.choice([0, 1, 2, 3, 12])
    far = rng.choice([0, 0, 2 ** 40, 2 ** 60 + 1])        # totals past 32 bits and past what a double counts
    nf, ef, wm = rng.randrange(0, 5), rng.randrange(0, 5), rng.choice([-1, 0, 9])
    pid, ws = 0, []
    for w in range(n):
        parts = {}
        for _ in range(rng.randrange(0, 4)):
            parts[str(pid)] = {"node_weight": [rng.randrange(0, 20) / 2 for _ in range(nt)], "edge_weight": [rng.randrange(0, 20) / 2 for _ in range(et)]}
            pid += 1
        ws.append({"binary_data_version": "v2", "node_count": far + rng.randrange(0, 50), "edge_count": far + rng.randrange(0, 50), "node_type_count": nt, "edge_type_count": et,
                   "node_feature_count": nf, "edge_feature_count": ef, "partitions": parts, "node_count_per_type": [far + rng.randrange(0, 20) for _ in range(nt)],
                   "edge_count_per_type": [far + rng.randrange(0, 20) for _ in range(et)], "watermark": wm})
    if bad:
        ws[rng.randrange(n)]["binary_data_version"] = rng.choice(["v1", "v3", "v20", "2"])
    return ws


def cases(rng, tier):
    for n in (0, 1, 2, 3, 13):
        yield {"ws": mk(rng, n), "first": rng.choice(["list", "dict"])}
    for n in (2, 3, 5):
        for _ in range(3):
            yield {"ws": mk(rng, n, True), "first": "list"}
    while True:
        n = rng.randrange(1, 14)
        yield {"ws": mk(rng, n, n > 1 and rng.random() < .2), "first": "list"}


def trivial(c):
    return len(c["ws"]) < 2


def check(c):
    tmp = tempfile.mkdtemp(prefix="c10_")
    try:
        ws = c["ws"]
        for i, w in enumerate(ws):
            json.dump(w, open(f"{tmp}/meta_{i}.json", "w"))
        bad = len({w["binary_data_version"] for w in ws}) > 1
        try:
            mm.merge_metadata_files(tmp)
        except (AssertionError, RuntimeError) as e:
            if bad:
                return None if not os.path.exists(tmp + "/meta.json") else "merged metadata written although versions differ"
            return f"valid metadata refused: {e!r}"
        if bad:
            return "workers of different binary versions were merged"
        if not ws:
            return "metadata written without any worker" if os.path.exists(tmp + "/meta.json") else None
        if not os.path.exists(tmp + "/meta.json"):
            return "no merged metadata written"
        m = json.load(open(tmp + "/meta.json"))
        w0 = ws[0]
        want = {"binary_data_version": "v2"}
        for k in ("node_count", "edge_count"):
            want[k] = sum(w[k] for w in ws)
        for k in ("node_type_count", "edge_type_count", "node_feature_count", "edge_feature_count", "watermark"):
            want[k] = w0[k]
        for k in ("node_count_per_type", "edge_count_per_type"):
            want[k] = [sum(w[k][i] for w in ws) for i in range(len(w0[k]))]
        want["partitions"] = {i: p for w in ws for i, p in w["partitions"].items()}
        for k, v in want.items():
            if m.get(k) != v:
                return f"merged {k} is {m.get(k)}, workers give {v}"
        for i, w in enumerate(ws):
            if json.load(open(f"{tmp}/meta_{i}.json")) != w:
                return f"worker file {i} changed"
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
