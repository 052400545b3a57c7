"""The real address files of simulated workers, listed in arbitrary orders."""
import glob
import os
import random
import shutil
import socket
import tempfile
import types
from unittest import mock
import _fake
from deepgnn.graph_engine.backends.snark import client

RULE = "1-12 workers, 1-12 of which start a server with index 0..m-1 assigned in any order, files listed in any order; non-trivial with 2+ servers whose listing order differs from the index order"


def cases(rng, tier):
    yield {"workers": 3, "servers": 3, "seed": 1}
    yield {"workers": 12, "servers": 11, "seed": 2}
    while True:
        n = rng.randrange(1, 13)
        yield {"workers": n, "servers": rng.randrange(0, n + 1), "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return c["servers"] < 2


def from_model(proof, obligation, m):
    for n in range(1, 5):
        for s in range(n + 1):
            for seed in range(4):
                yield {"workers": n, "servers": s, "seed": seed}


class Stop(Exception):
    pass


class Sync:
    """stands in for the marker files: builds what publishes and collects addresses at once"""
    made = []
    publish_only = False

    def __init__(self, path, index, *a, **k):
        a = list(a)
        # a server is (timeout, class, ...), a client (number of servers, timeout, class, ...)
        i = next(i for i, x in enumerate(a) if isinstance(x, type))
        self.seen = (type(self).__name__, path, index, a[:i])
        if type(self) is Sync and Sync.publish_only:
            raise Stop()
        Sync.made.append(self)
        self.client = a[i](*a[i + 1:], **k) if a[i] not in (client.Server, client.DistributedClient) else None

    def reset(self):
        pass


class Srv(Sync):
    pass


class Socket:
    """the own address is the host, a free port of the host is the next port"""
    host, port, known = "", 0, True

    def __init__(self, *a, **k):
        self.name = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def connect(self, to):
        if not Socket.known:
            raise OSError("unreachable")
        self.name = (Socket.host, 9)

    def bind(self, to):
        self.name = (to[0], Socket.port if to == (Socket.host, 0) else 65535)

    def getsockname(self):
        return self.name

    def close(self):
        pass

    setsockopt = settimeout = listen = lambda self, *a: None


def backend(d, servers, workers, rank, index):
    o = types.SimpleNamespace(num_ge=workers, servers=servers, server_idx=index, client_rank=rank, data_dir="", model_dir=d, sync_dir=os.path.join(d, "s"), skip_ge_start=False, ge_start_timeout=3,
                              ssl_cert=None, storage_type=None, config_path="", stream=False, enable_ssl=False, grpc_options=None, num_threads=1, num_cq_per_thread=1)
    try:
        client.SnarkDistributedBackend(o)
    except Stop:
        pass
    return o


def check(c):
    rng = random.Random(c["seed"])
    n, m = c["workers"], c["servers"]
    idx = rng.sample(list(range(m)) + [-1] * (n - m), n)
    d = tempfile.mkdtemp()
    try:
        Socket.known = rng.random() < 0.8
        host = Socket.host = rng.choice(["10.1.2.3", "worker-7"]) if Socket.known else "localhost"
        ports = rng.sample(range(1, 60000), n)
        want = {}
        what = f"{n} workers with server indexes {idx}"
        real = glob.glob
        seed = rng.random()

        def listing(*a, **k):
            r = sorted(real(*a, **k))
            random.Random(seed).shuffle(r)
            return r
        with mock.patch.object(socket, "socket", Socket), mock.patch.object(client, "SynchronizedServer", Srv), mock.patch.object(client, "SynchronizedClient", Sync), mock.patch.object(glob, "glob", listing):
            last = rng.randrange(n)
            for w in sorted(range(n), key=lambda w: w == last):
                Socket.port = ports[w]
                if idx[w] >= 0:
                    want[idx[w]] = f"{host}:{ports[w]}"
                # the last worker publishes and then collects
                Sync.publish_only = w != last
                Sync.made = []
                o = backend(d, rng.choice([None, []]), n, w, idx[w])
            got = list(o.servers)
            if got != [want[i] for i in range(m)]:
                return f"{what}: servers {got}, published {want}"
            waits = [s.seen for s in Sync.made if type(s) is Sync]
            if not any(s[3] and s[3][0] == n for s in waits):
                return f"{what}: waits for {waits}"
            o = backend(d, ["x:1", "y:2"], n, 0, 1)
            if list(o.servers) != ["x:1", "y:2"]:
                return f"given addresses became {o.servers}"
    finally:
        Sync.publish_only = False
        shutil.rmtree(d)
