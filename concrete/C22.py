"""Real graphs, servers and samplers against a stand-in for the native library that fails on demand; waits are recorded instead of slept."""
import os
import json, random, shutil, sys, tempfile, types
import numpy as np
import tenacity.nap
import _fake
from _fake import LIB, cleanup, client
import deepgnn.graph_engine.snark.distributed as distributed
import deepgnn.graph_engine.snark.server as server
from deepgnn.graph_engine.backends.snark.client import SnarkDistributedBackend

sys.unraisablehook = lambda *a: None
RULE = "every query, sampler and start/stop function with 0-8 failures before success (or never succeeding) and any status; retry configurations absent, malformed or with any attempts and backoffs; remote graphs made directly, by a client, by a serialized client and by a backend with running or awaited servers; non-trivial with at least one failure"
WAITS = []


class Clock:
    sleep = staticmethod(WAITS.append)


tenacity.nap.time = Clock
I = lambda *x: np.array(x, np.int64)
F2 = lambda: np.array([[0, 2]], np.int32)
Q = {"GetNodeFeature": lambda g: g.node_features(I(1, 2), F2(), np.float32), "GetEdgeFeature": lambda g: g.edge_features(I(1), I(2), I(0), F2(), np.float32),
     "GetNodeSparseFeature": lambda g: g.node_sparse_features(I(1), I(0), np.float32), "GetEdgeSparseFeature": lambda g: g.edge_sparse_features(I(1), I(2), I(0), I(0), np.float32),
     "GetNodeStringFeature": lambda g: g.node_string_features(I(1), I(0), np.uint8), "GetEdgeStringFeature": lambda g: g.edge_string_features(I(1), I(2), I(0), I(0), np.uint8),
     "NeighborCount": lambda g: g.neighbor_counts(I(1, 2), 0), "GetNeighbors": lambda g: g.neighbors(I(1, 2), 0),
     "WeightedSampleNeighbor": lambda g: g.weighted_sample_neighbors(I(1), 0, 2), "UniformSampleNeighbor": lambda g: g.uniform_sample_neighbors(False, I(1), 0, 2),
     "PPRSampleNeighbor": lambda g: g.ppr_neighbors(I(1), 0, 2), "LastNCreatedNeighbor": lambda g: g.lastn_neighbors(I(1), 0, I(5), 2), "RandomWalk": lambda g: g.random_walk(I(1), 0, 2, 1.0, 1.0),
     "GetNodeType": lambda g: g.node_types(I(1), -1), "SampleNodes": lambda g: g.nodes_.sample(3), "SampleEdges": lambda g: g.edges_.sample(3)}
OTHER = ["CreateLocalGraph", "CreateRemoteClient", "StartServer", "ResetServer", "ResetGraph", "CreateWeightedNodeSampler", "CreateUniformNodeSampler", "CreateUniformNodeSamplerWithoutReplacement",
         "CreateWeightedEdgeSampler", "CreateUniformEdgeSampler", "CreateUniformEdgeSamplerWithoutReplacement", "HDFSMoveMeta"]
VIA = ["graph", "client", "restored", "running servers", "awaited servers"]
GOOD = {"max_attempts": 3, "initial": "1s", "max": "4s", "mult": 2}


def cases(rng, tier):
    for q in Q:
        for remote in (False, True):
            yield {"fn": q, "remote": remote, "fails": 1, "config": None, "status": 1}
            yield {"fn": q, "remote": remote, "fails": 99, "config": GOOD, "status": -7}
    for v in VIA:
        yield {"fn": "NeighborCount", "remote": True, "fails": 99, "config": GOOD, "status": 1, "via": v}
    for q in OTHER:
        yield {"fn": q, "fails": 99, "status": 3}
    while True:
        ini = rng.randrange(0, 30)
        cfg = rng.choice([None, "broken", "{}", '{"methodConfig": []}', "partial", "good", "good", "good"])
        if cfg == "good" or cfg == "partial":
            d = {"max_attempts": rng.choice([1, 2, 3, 7, 12]), "initial": f"{ini}s", "max": f"{rng.randrange(ini, 60)}s", "mult": rng.choice([1, 2, 5])}
            if cfg == "partial":
                k = rng.choice(list(d))
                d[k] = rng.choice([None, "many", "xs"] if k in ("initial", "max") else [None, "many"])
            cfg = d
        yield {"fn": rng.choice(list(Q) + OTHER), "remote": rng.random() < .75, "fails": rng.choice([0, 1, 2, 3, 4, 5, 8, 99]), "config": cfg, "status": rng.choice([1, -1, 2 ** 31 - 1, -2 ** 31, 256]), "other": rng.randrange(4),
               "via": rng.choice(VIA)}


def trivial(c):
    return c["fails"] == 0


def from_model(proof, obligation, m):
    for v in VIA:
        for f in (1, 99):
            yield {"fn": "GetNodeType", "remote": True, "fails": f, "config": GOOD, "status": 1, "via": v}
    st = m.get("status", 1) or 1
    for q in list(Q) + OTHER:
        for f in (1, 99):
            for cfg in (None, GOOD, {"max_attempts": 7, "initial": "3s", "max": "20s", "mult": 2}):
                yield {"fn": q, "remote": "remote" in proof or "policy" in proof or f == 1, "fails": f, "config": cfg, "status": st}
                yield {"fn": q, "remote": False, "fails": f, "config": cfg, "status": st}


def text(cfg):
    if not isinstance(cfg, dict):
        return cfg
    p = {"maxAttempts": cfg["max_attempts"], "initialBackoff": cfg["initial"], "maxBackoff": cfg["max"], "backoffMultiplier": cfg["mult"]}
    return json.dumps({"methodConfig": [{"name": [{}], "retryPolicy": {k: v for k, v in p.items() if v is not None}}]})


def readable(x):
    return isinstance(x, str) and x[:-1].isdigit() and x.endswith("s") and int(x[:-1]) < 60


def remote(via, o):
    """remote graph with these options"""
    if via == "graph":
        return client.DistributedGraph(["h:1"], grpc_options=o)
    if via in ("client", "restored"):
        x = distributed.Client(["h:1"], grpc_options=o)
        if via == "restored":
            f, a = x.__reduce__()[:2]
            x = f(*a)
        return x.graph
    d = tempfile.mkdtemp()
    try:
        b = SnarkDistributedBackend(types.SimpleNamespace(num_ge=1, servers=["h:1"], server_idx=-1, client_rank=0, data_dir=d, model_dir=d, sync_dir=d, skip_ge_start=via == "running servers", ge_start_timeout=5,
                                                          ssl_cert=None, storage_type=None, config_path="", stream=False, enable_ssl=False, grpc_options=o or [], num_threads=1, num_cq_per_thread=1))
        open(os.path.join(d, "snark_0.server"), "w").close()
        return b.graph.graph
    finally:
        shutil.rmtree(d)


def check(c):
    LIB.reset(1)
    LIB.meta = _fake.meta(watermark=3)
    d = _fake.folder(_fake.meta(watermark=3))
    LIB.sparse, LIB.text, LIB.neigh = ([[1, 2]], [np.float32(3).tobytes()], [1]), (b"abc", [3]), ([5], [1.0], [0], [7])
    fn = c["fn"]
    left = [c["fails"]]

    def status(rec):
        left[0] -= 1
        return c["status"] if left[0] >= 0 else 0
    count = lambda: sum(x["!name"] == fn for x in LIB.calls)
    if fn in OTHER:
        return start(c, d, status)
    if c["remote"]:
        o = [("x", "1"), ("grpc.service_config_disable_resolution", "1"), ("service_config", "{}")][:c.get("other", 0)] + ([] if c["config"] is None else [("grpc.service_config", text(c["config"]))]) + [("y", "2")]
        g = remote(c.get("via", "graph"), o if len(o) > 1 or c["config"] else None)
    else:
        g = client.MemoryGraph(d, [0])
    if fn == "SampleNodes":
        g.nodes_ = client.NodeSampler(g, -1)
    if fn == "SampleEdges":
        g.edges_ = client.EdgeSampler(g, -1)
    cfg = c["config"]
    N, lo, hi = 5, 2, 10
    if isinstance(cfg, dict) and isinstance(cfg["max_attempts"], int) and isinstance(cfg["mult"], int) and readable(cfg["initial"]) and readable(cfg["max"]):
        N, lo, hi = cfg["max_attempts"], int(cfg["initial"][:-1]), int(cfg["max"][:-1])
    if not c["remote"]:
        N = 1
    LIB.status[fn] = status
    WAITS.clear()
    what = f"{fn} {'remote' if c['remote'] else 'local'} failing {c['fails']} times with {c['status']}, configuration {cfg} ({c.get('via', 'graph')})"
    try:
        r = Q[fn](g)
        err = None
    except Exception as e:
        err = e
    if LIB.problems:
        return f"{what}: {LIB.problems[0]}"
    n = count()
    LIB.status.clear()
    if c["fails"] < N:
        if err is not None:
            return f"{what}: raised {err!r} after {n} attempts, expected {c['fails'] + 1} attempts and an answer"
        if n != c["fails"] + 1:
            return f"{what}: {n} attempts"
    else:
        if err is None:
            return f"{what}: returned {r!r} although the engine failed {n} times"
        if n != N:
            return f"{what}: {n} attempts, expected {N}"
    if len(WAITS) != n - 1 or any(not lo <= w <= hi for w in WAITS):
        return f"{what}: waited {WAITS} between {n} attempts, configured {lo} to {hi}"
    return None


def start(c, d, status):
    fn = c["fn"]
    LIB.status[fn] = (lambda rec: c["status"]) if c["fails"] else 0
    try:
        if fn == "CreateLocalGraph":
            client.MemoryGraph(d, [0])
        elif fn == "CreateRemoteClient":
            client.DistributedGraph(["h:1"])
        elif fn in ("StartServer", "ResetServer"):
            s = server.Server(d, [0], "h:1")
            if fn == "ResetServer":
                s.reset()
        elif fn == "ResetGraph":
            client.MemoryGraph(d, [0]).reset()
        elif fn == "HDFSMoveMeta":
            import deepgnn.graph_engine.snark.meta as meta
            os.environ.setdefault("CLASSPATH", "set")
            meta.download_meta("hdfs://nowhere/graph", d, "")
        else:
            g = client.MemoryGraph(d, [0])
            cls = client.NodeSampler if "Node" in fn else client.EdgeSampler
            cls(g, -1, "withoutreplacement" if "Without" in fn else "weighted" if "Weighted" in fn else "uniform")
    except Exception as e:
        return None if c["fails"] else f"{fn}: raised {e!r} although the engine succeeded"
    finally:
        n = sum(x["!name"] == fn for x in LIB.calls)
        LIB.status.clear()
    if n == 0:
        return f"{fn} was not called"
    return f"{fn}: status {c['status']} was ignored" if c["fails"] else None
