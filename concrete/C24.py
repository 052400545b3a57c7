"""The real server index and rank derivation for every worker of simulated clusters."""
import json
import os
import shutil
import tempfile
import types
from unittest import mock
import _fake
from _broken import Broken
from deepgnn.graph_engine.backends.snark import client as C

RULE = "clusters of 1-5 hosts with 1-4 workers each, launched as DDP, MPI, Horovod, TF config or TF arguments with worker lists in different orders, explicit indexes, metadata of 0-7 partitions; non-trivial with 2+ hosts and 2+ workers per host"
KINDS = ["ddp", "mpi", "horovod", "tfconfig", "tfargs", "explicit", "meta"]
NAMES = {"ddp": ("LOCAL_RANK", "LOCAL_WORLD_SIZE", "RANK", "WORLD_SIZE"),
         "mpi": tuple("OMPI_COMM_WORLD_" + x for x in ("LOCAL_RANK", "LOCAL_SIZE", "RANK", "SIZE")),
         "horovod": tuple("HOROVOD_" + x for x in ("LOCAL_RANK", "LOCAL_SIZE", "RANK", "SIZE"))}


def cases(rng, tier):
    for k in KINDS:
        yield {"kind": k, "hosts": 3, "local": 2, "seed": 1}
    while True:
        yield {"kind": rng.choice(KINDS), "hosts": rng.randrange(1, 6), "local": rng.randrange(1, 5), "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return c["hosts"] < 2 or c["local"] < 2


def from_model(proof, obligation, m):
    for k in KINDS:
        for h in range(1, 5):
            for l in range(1, 4):
                for s in range(3):
                    yield {"kind": k, "hosts": h, "local": l, "seed": s}


class Sync:
    """stands in for the synchronized server and client: only records what is asked for"""
    made = []

    def __init__(self, path, index, *a, **k):
        i = next(i for i, x in enumerate(a) if isinstance(x, type))
        # a server is (timeout, class, ...), a client (number of servers, timeout, class, ...)
        self.index, self.servers = index, a[0] if len(a[:i]) == 2 else None
        Sync.made.append(self)

    @property
    def client(self):
        return types.SimpleNamespace(servers=lambda: [f"h:{i}" for i in range(64)])

    def reset(self):
        pass


class Srv(Sync):
    pass


def ask(opts, env):
    """server started, rank and number of workers waited for (None with given servers) by a backend"""
    d = "/nonexistent/model"
    o = types.SimpleNamespace(**dict(dict(num_ge=1, servers=None, server_idx=None, client_rank=None, data_dir="", model_dir=d, sync_dir=os.path.join(d, "s"), skip_ge_start=False, ge_start_timeout=5, ssl_cert=None,
                                          storage_type=None, config_path="", stream=False, enable_ssl=False, grpc_options=None, num_threads=1, num_cq_per_thread=1), **opts))
    given = bool(o.servers)
    with mock.patch.dict(os.environ, env), mock.patch.object(os, "makedirs"), mock.patch.object(C, "SynchronizedServer", Srv), mock.patch.object(C, "SynchronizedClient", Sync):
        for k in list(os.environ):
            if k not in env and (k in ("LOCAL_RANK", "TF_CONFIG") or k.startswith(("OMPI_", "HOROVOD_"))):
                del os.environ[k]
        Sync.made = []
        C.SnarkDistributedBackend(o)
        srv, cl = [x for x in Sync.made if type(x) is Srv], [x for x in Sync.made if type(x) is Sync]
    if not given:        # the first pair publishes and collects addresses
        if not srv or len(cl) < 2 or srv[0].index != cl[0].index:
            raise Broken(f"addresses published as {[x.index for x in srv]}, collected as {[x.index for x in cl]}")
        world, srv = cl[0].servers, srv[1:]
    else:
        world = None
    if len(srv) > 1 or len({x.index for x in cl}) != 1:
        raise Broken(f"servers {[x.index for x in srv]} with ranks {[x.index for x in cl]}")
    return (srv[0].index if srv else -1, cl[-1].index, world), o


def check(c):
    import random
    rng = random.Random(c["seed"])
    H, L, kind = c["hosts"], c["local"], c["kind"]
    what = f"{kind}, {H} hosts with {L} workers"
    if kind == "explicit":
        env = dict(zip(NAMES["ddp"], ("0", str(L), "0", str(H * L)))) if rng.random() < 0.5 else {}
        i, r = rng.randrange(-1, 4), rng.randrange(0, 9)
        srv = ["a"] * max(H, i + 1) if rng.random() < 0.5 else rng.choice([None, []])
        (s, q, w), _ = ask({"server_idx": i, "client_rank": r, "servers": srv, "num_ge": L}, env)
        return None if (s, q, w) == (i, r, None if srv else L) else f"{what}: explicit indexes {i} and {r} with {srv} gave {(s, q, w)}"
    if kind == "meta":
        n = rng.randrange(0, 8)
        d = tempfile.mkdtemp()
        try:
            m = {"binary_data_version": "v2", "node_count": 3, "edge_count": 2, "node_type_count": 1, "edge_type_count": 1, "node_feature_count": 0, "edge_feature_count": 0,
                 "partitions": {str(x): {"node_weight": [1.0], "edge_weight": [1.0]} for x in range(n)}}
            with open(os.path.join(d, "meta.json"), "w") as f:
                f.write(json.dumps(m))
            (s, q, w), _ = ask({"server_idx": 1, "client_rank": 2, "servers": rng.choice([None, []]), "num_ge": 0, "data_dir": d}, {})
        finally:
            shutil.rmtree(d)
        return None if (s, q, w) == (1, 2, min(n, 4)) else f"{what}: metadata with {n} partitions gave {(s, q, w)}"
    got = []        # (host, position on the host, rank, answer)
    if kind in NAMES:
        for r in range(H * L):
            env = dict(zip(NAMES[kind], map(str, (r % L, L, r, H * L))))
            got.append((r // L, r, H * L, ask({}, env)[0]))
    else:
        sizes = [rng.randrange(1, L + 1) for _ in range(H)]
        names = rng.sample(["a", "b", "a-b", "10.0.0.1", "10.0.0.11", "node1", "node10", "node2", "[::1]", "z"], H)
        ws = [f"{names[h]}:{p}" for h in range(H) for p in rng.sample([1, 5, 22, 80, 2222, 10000], sizes[h])]
        base = rng.sample(ws, len(ws))
        for i, w in enumerate(base):
            lst = list(base)
            if kind == "tfargs":
                r, o = ask({"task_index": i, "worker_hosts": lst}, {})
                if o.worker_hosts != base:
                    return f"{what}: worker list {base} became {o.worker_hosts}"
            else:
                r, _ = ask({}, {"TF_CONFIG": json.dumps({"cluster": {"worker": lst, "ps": ["p:1"]}, "task": {"type": rng.choice(["worker", "WORKER"]), "index": i}})})
            got.append((w.rsplit(":", 1)[0], i, len(ws), r))
        # the same workers listed in another order by another process
        other = rng.sample(base, len(base))
        for i, w in enumerate(other):
            r = ask({}, {"TF_CONFIG": json.dumps({"cluster": {"worker": list(other)}, "task": {"type": "worker", "index": i}})})[0]
            if r[0] != got[base.index(w)][3][0]:
                return f"{what}: worker {w} of {base} starts server {got[base.index(w)][3][0]}, listed as {other} it starts {r[0]}"
    for h, rank, size, (s, r, w) in got:
        if (r, w) != (rank, size):
            return f"{what}: worker {rank} of {size} got rank {r} of {w}"
    idx = {}
    for h, _, _, (s, _, _) in got:
        if s != -1:
            idx.setdefault(h, []).append(s)
    if any(len(v) != 1 for v in idx.values()) or set(idx) != {g[0] for g in got}:
        return f"{what}: servers per host {idx}"
    if sorted(v[0] for v in idx.values()) != list(range(len(idx))):
        return f"{what}: server indexes {idx}"
    if kind in NAMES and any(v[0] != h for h, v in idx.items()):
        return f"{what}: server indexes {idx}"
