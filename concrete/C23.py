"""Real local graphs, servers, cluster servers, remote clients and the server command against a recording stand-in for the native library."""
import argparse, os, random, runpy, shutil, subprocess, sys, tempfile
import _fake
from _fake import LIB, cleanup, client
import deepgnn.graph_engine.snark.distributed as distributed
import deepgnn.graph_engine.snark.local as local
import deepgnn.graph_engine.snark.server as server
import deepgnn.graph_engine.backends.snark.client as backends
import deepgnn.graph_engine.backends.snark.synchronized as synchronized
from deepgnn.graph_engine.backends.options import BackendOptions

sys.unraisablehook = lambda *a: None
RULE = ("0-6 partitions given as ids, (location, id) pairs or a mix, with every option combination; clusters of 1-6 servers over 0-9 partitions; the server command with listed or divided partitions; backends with 1-6 listed servers or local partitions; "
        "1-5 addresses with 0-3 options; non-trivial with 2+ partitions or addresses")
ST = client.PartitionStorageType
WHAT = ["local", "client", "server", "remote", "cluster", "command", "backend"]


def cases(rng, tier):
    yield {"what": "client", "parts": [3, 1], "seed": 1}
    yield {"what": "cluster", "P": 5, "total": 3, "seed": 2}
    yield {"what": "command", "P": 5, "total": 2, "parts": [2, 0], "seed": 3}
    yield {"what": "backend", "P": 5, "total": 2, "parts": [2, 0], "seed": 4}
    while True:
        w = rng.choice(WHAT)
        yield {"what": w, "parts": [rng.choice([0, rng.randrange(1, 200), 2 ** 32 - 1]) for _ in range(rng.randrange(0, 7))],
               "P": rng.randrange(0, 10), "total": rng.randrange(1, 7), "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return max(len(c.get("parts", [])), c.get("P", 0)) < 2


def from_model(proof, obligation, m):
    w = "backend" if "backend" in proof else "command" if "command" in proof else "remote" if "remote" in proof or "address" in proof else "client" if "local client" in proof else "local" if "local" in proof else "server" if "server arg" in proof else "cluster"
    num = lambda k, d: int(m[k]) if isinstance(m.get(k), (int, float)) and abs(m[k]) < 50 else d
    for P, t in ((num("P", 5), max(num("total", 2), 1)), (5, 2), (7, 3), (2, 4), (1, 1)):
        for s in range(6):
            yield {"what": w, "parts": [4, 1, 9][: 1 + s % 3], "P": max(P, 0), "total": t, "seed": s}


def expect(call, want):
    for k, v in want.items():
        if call.get(k) != v:
            return f"{call['!name']} received {k}={call.get(k)!r}, expected {v!r}"
    return None


def one(name):
    cs = [x for x in LIB.calls if x["!name"] == name]
    if LIB.problems:
        raise AssertionError(LIB.problems[0])
    assert len(cs) == 1, f"{name} called {len(cs)} times"
    return cs[0]


def command(argv):
    old, chk = sys.argv, subprocess.check_call
    LIB.calls.clear()
    mod = sys.modules.pop("deepgnn.graph_engine.snark.server", None)
    try:
        sys.argv = ["server.py"] + argv
        subprocess.check_call = lambda *a, **k: 0
        sys.modules["deepgnn.graph_engine.snark.server"] = mod
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("deepgnn.graph_engine.snark.server", run_name="__main__", alter_sys=False)
    finally:
        sys.argv, subprocess.check_call = old, chk
    return one("StartServer")


def direct(self, sync_path, index, timeout, klass, *args, **kwargs):
    """stands in for the process in which a server is made"""
    klass(*args, **kwargs)


def back(c, rng, d, st, cfg, stream):
    """server indexes and partitions served by the distributed backends of all workers, or what differs"""
    n = c["total"]
    hosts = [f"h{rng.randrange(100)}:{i}" for i in range(n)]
    served = []
    old = synchronized.SynchronizedServer.__init__, synchronized.SynchronizedClient.__init__
    synchronized.SynchronizedServer.__init__, synchronized.SynchronizedClient.__init__ = direct, lambda self, *a, **k: None
    try:
        for i in [-1] + rng.sample(range(n), n):
            LIB.calls.clear()
            o = BackendOptions(argparse.Namespace(data_dir=d, servers=list(hosts), server_idx=i, client_rank=max(i, 0), num_ge=rng.randrange(0, 8), partitions=list(c.get("parts", [])), model_dir=d,
                                                  sync_dir=rng.choice(["", d + "/sync"]), storage_type=st, config_path=cfg, stream=stream, ge_start_timeout=1))
            backends.SnarkDistributedBackend(o)
            if i < 0:
                if any(x["!name"] == "StartServer" for x in LIB.calls):
                    return "worker without a server index starts a server"
                continue
            call = one("StartServer")
            m = expect(call, {"meta": d, "host": hosts[i], "locs": [d] * call["count"], "storage": int(st), "config": cfg, "skipf": False, "skipt": False, "key": None, "root": None})
            if m:
                return m
            served += call["parts"]
    finally:
        synchronized.SynchronizedServer.__init__, synchronized.SynchronizedClient.__init__ = old
    return None if sorted(served) == list(range(c["P"])) else f"{n} backends serve {served}"


def check(c):
    rng = random.Random(c["seed"])
    LIB.reset(c["seed"])
    d = _fake.folder(_fake.meta(parts=c.get("P", 1)))
    try:
        return run(c, rng, d)
    except AssertionError as e:
        return f"{c}: {e}"


def run(c, rng, d):
    w = c["what"]
    what = f"{c}"
    parts = c.get("parts", [])
    st = rng.choice([ST.memory, ST.disk])
    stream = st == ST.memory and rng.random() < .5
    cfg = rng.choice(["", "conf-α"])
    if w in ("local", "server"):
        form = rng.randrange(3)
        locs = [d if form == 0 or (form == 2 and rng.random() < .5) else f"{d}/loc{i}" for i in range(len(parts))]
        arg = [(l, p) if l != d or (form == 1) else p for l, p in zip(locs, parts)]
        for l in set(locs):
            os.makedirs(l, exist_ok=True)
        if st == ST.disk:
            cls = client.MemoryGraph if w == "local" else server.Server
            try:
                cls(*([d, arg] + (["h"] if w == "server" else [])), storage_type=st, stream=True)
                return f"{what}: streaming to disk accepted"
            except ValueError:
                LIB.calls.clear()
    if w == "local":
        none = not arg and rng.random() < .5
        g = client.MemoryGraph(d, None if none else arg, st, cfg, stream)
        m = expect(one("CreateLocalGraph"), {"meta": d, "count": 1 if none else len(parts), "parts": [0] if none else parts, "locs": [d] if none else locs, "storage": int(st), "config": cfg})
        return m and f"{what}: {m}"
    if w == "client":
        cl = local.Client(d, list(parts), st, cfg, stream)
        want = parts or [0]
        m = expect(one("CreateLocalGraph"), {"meta": d, "count": len(want), "parts": want, "locs": [d] * len(want), "storage": int(st), "config": cfg})
        return m and f"{what}: {m}"
    if w == "backend":
        m = back(c, rng, d, st, cfg, stream)
        if m is None:
            LIB.calls.clear()
            o = BackendOptions(argparse.Namespace(data_dir=d, partitions=list(parts), storage_type=st, config_path=cfg, stream=stream, num_ge=rng.randrange(0, 8)))
            backends.SnarkLocalBackend(o)
            want = parts or [0]
            m = expect(one("CreateLocalGraph"), {"meta": d, "count": len(want), "parts": want, "locs": [d] * len(want), "storage": int(st), "config": cfg})
        return m and f"{what}: {m}"
    ssl = {"ssl_" + x: x + "-file" for x in ("key", "cert", "root")} if rng.random() < .5 else None
    sf, sn = rng.random() < .5, rng.random() < .5
    opts = {"storage": int(st), "config": cfg, "skipf": sf, "skipt": sn}
    if w == "server":
        s = server.Server(d, arg, "some:1", ssl, st, cfg, stream, sf, sn)
        m = expect(one("StartServer"), dict(opts, meta=d, count=len(parts), parts=parts, locs=locs, host="some:1", **{x: ssl and ssl["ssl_" + x] for x in ("key", "cert", "root")}))
        s.reset()
        return m and f"{what}: {m}"
    if w == "remote":
        n = max(1, len(parts) - 1)
        servers = [f"host{rng.randrange(100)}:{i}" for i in range(n)]
        o = None if rng.random() < .3 else [(f"key{rng.randrange(9)}", rng.choice([f"v{i}", i])) for i in range(rng.randrange(0, 4))]
        cert = rng.choice([None, "cert-file"])
        th, cq = rng.choice([None, 1, 5]), rng.choice([None, 3])
        LIB.meta = _fake.meta()
        if n == 1 and rng.random() < .5:
            distributed.Client(servers[0], cert, o, th, cq)
        elif rng.random() < .5:
            distributed.Client(servers, cert, o, th, cq)
        else:
            client.DistributedGraph(servers, cert, th, cq, o)
        call = one("CreateRemoteClient")
        m = expect(call, {"servers": servers, "count": n, "cert": cert, "cqs": cq or 1, "nargs": len(o or []), "keys": [str(k) for k, _ in o or []], "values": [str(v) for _, v in o or []]})
        if m is None and (call["threads"] != th if th else call["threads"] < 1):
            m = f"threads {call['threads']} for {th}"
        return m and f"{what}: {m}"
    if w == "cluster":
        served = []
        for i in rng.sample(range(c["total"]), c["total"]):
            LIB.calls.clear()
            key = ["k", "r", "c"] if ssl else []
            s = distributed.Server(f"h:{i}", d, i, c["total"], *(key or [None] * 3), st, cfg, stream, sf, sn)
            call = one("StartServer")
            m = expect(call, dict(opts, meta=d, host=f"h:{i}", locs=[d] * call["count"], **dict(zip(("key", "root", "cert"), key or [None] * 3))))
            if m:
                return f"{what}: {m}"
            served += call["parts"]
            s.reset()
        return None if sorted(served) == list(range(c["P"])) else f"{what}: servers load {served}"
    flags = ["--skip_feature_loading"] * sf + ["--skip_temporal_loading"] * sn + ["--stream"] * stream
    base = ["--port", "123", "--data_dir", d, "--storage_type", st.name, "--config_path", cfg] + flags
    if rng.random() < .5:
        call = command(base + ["--partitions", ",".join(map(str, parts))])
        m = expect(call, dict(opts, meta=d, host="0.0.0.0:123", parts=parts, count=len(parts), locs=[d] * len(parts)))
        return m and f"{what}: {m}"
    served = []
    for i in range(c["total"]):
        call = command(base + ["--server_group", f"{i},{c['total']},{c['P']}"])
        m = expect(call, dict(opts, meta=d, host="0.0.0.0:123", locs=[d] * call["count"]))
        if m:
            return f"{what}: {m}"
        served += call["parts"]
    return None if sorted(served) == list(range(c["P"])) else f"{what}: servers load {served}"
