"""Metadata documents written to a scratch folder and opened by the real loader; remote folders go through a recording copy function."""
import json, os, shutil, tempfile
from deepgnn.graph_engine.snark import meta as M, _lib

RULE = "documents with 0-4 partitions, 0-4 node and edge types, local or remote folder, some unversioned, missing or failing to copy; non-trivial with 2+ partitions"


def cases(rng, tier):
    first = ["local", "remote", "missing", "unversioned", "failing"]
    while True:
        nt, et, far = rng.randrange(0, 5), rng.randrange(0, 5), rng.choice([0, 0, 2 ** 60 + 1])
        parts = {str(i): {"node_weight": [rng.randrange(0, 20) / 2 for _ in range(nt)], "edge_weight": [rng.randrange(0, 20) / 2 for _ in range(et)]} for i in rng.sample(range(20), rng.randrange(0, 5))}
        yield {"doc": {"binary_data_version": rng.choice(["v2", "v1"]), "node_count": far + rng.randrange(0, 50), "edge_count": far + rng.randrange(50, 99), "node_type_count": nt, "edge_type_count": et,
                       "node_feature_count": rng.randrange(0, 9), "edge_feature_count": rng.randrange(10, 19), "partitions": parts, "node_count_per_type": [far + rng.randrange(0, 20) for _ in range(nt)],
                       "edge_count_per_type": [rng.randrange(0, 20) for _ in range(et)], "watermark": rng.choice([-1, 0, 9])},
               "how": first.pop() if first else rng.choice(["local", "local", "remote", "missing", "unversioned", "failing"]), "scheme": rng.choice(["hdfs://", "adl://", "file:///"])}


def trivial(c):
    return len(c["doc"]["partitions"]) < 2


class Move:
    errcheck = argtypes = restype = None

    def __init__(self, src, tmp, fail):
        self.src, self.tmp, self.fail, self.calls = src, tmp, fail, 0

    def __call__(self, src, dst, cfg):
        self.calls += 1
        s, d = src.value.decode(), dst.value.decode()
        if s != self.src or cfg.value != b"some/config":
            self.calls = -99
            return 0
        rc = 1 if self.fail else 0
        if not rc:
            shutil.copy(os.path.join(self.tmp, "meta.json"), d)
        return self.errcheck(rc, self, (src, dst, cfg)) if self.errcheck else rc


def check(c):
    tmp = tempfile.mkdtemp(prefix="c34_")
    old = os.environ.get("CLASSPATH")
    os.environ["CLASSPATH"] = "set"
    try:
        d, how = dict(c["doc"]), c["how"]
        if how == "unversioned":
            d["binary_data_version"] = "2"
        if how != "missing":
            with open(os.path.join(tmp, "meta.json"), "w") as f:
                json.dump(d, f)
        remote = how in ("remote", "failing")
        move = Move(c["scheme"] + "host/graph/meta.json", tmp, how == "failing")
        _lib.CDLL = lambda *a, **k: type("Lib", (), {"HDFSMoveMeta": move})()
        for f in list(vars(_lib).values()):
            if hasattr(f, "cache_clear"):
                f.cache_clear()
        try:
            m = M.Meta(c["scheme"] + "host/graph" if remote else tmp, "some/config" if remote else "")
        except FileNotFoundError:
            return None if how == "missing" else "metadata reported as missing"
        except Exception as e:
            if how in ("failing", "unversioned"):
                return None
            raise
        if how in ("missing", "unversioned", "failing"):
            return f"metadata opened although it is {how}"
        if remote and move.calls != 1:
            return f"copied {move.calls} times"
        for k in ("node_count", "edge_count", "node_type_count", "edge_type_count", "node_count_per_type", "edge_count_per_type", "watermark"):
            if getattr(m, k) != d[k]:
                return f"{k} is {getattr(m, k)}, written {d[k]}"
        if m.version != d["binary_data_version"] or m.partition_count != len(d["partitions"]):
            return f"version {m.version}, {m.partition_count} partitions"
        for k in ("node", "edge"):
            f = getattr(m, f"_{k}_feature_count", d[f"{k}_feature_count"])
            if f != d[f"{k}_feature_count"]:
                return f"{k} feature count is {f}"
            w = [sum(p[f"{k}_weight"][i] for p in d["partitions"].values()) for i in range(d[f"{k}_type_count"])]
            g = getattr(m, f"_{k}_weights", w)
            if list(g) != w:
                return f"{k} weights per type are {g}, partitions sum to {w}"
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        os.environ.pop("CLASSPATH") if old is None else os.environ.__setitem__("CLASSPATH", old)
