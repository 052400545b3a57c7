"""Real path builders over random numbers; real download from an in-memory filesystem written by the real partition writer."""
import itertools
from _part import *
import fsspec
import deepgnn.graph_engine.snark.meta as mt
import deepgnn.graph_engine.snark._downloader as dl

RULE = "names: all builders over small and large numbers; downloads: 1-4 partitions in one or two remote folders or a local one, with and without features, samplers, timestamps; non-trivial with 2+ partitions or names"
N = [0, 1, 2, 9, 10, 11, 12, 101, 110]


def cases(rng, tier):
    yield {"k": "names"}
    for url in ("rec://me@store:99/g", "rec://store/g"):
        yield {"k": "login", "url": url}
    i = 0
    while True:
        i += 1
        if i % 5 == 1:
            yield {"k": "shared", "ids": rng.sample([0, 1, 2, 3, 10, 11, 12, 21, 110, 111], rng.randrange(2, 5)), "seed": rng.randrange(10 ** 6), "wm": rng.choice([None, None, 0, 5]), "sn": rng.random() < .3,
                   "se": rng.random() < .3}
        n = rng.randrange(1, 5)
        ids = rng.sample([0, 1, 2, 3, 10, 11, 12, 21], n)
        yield {"k": "get", "parts": [[rng.choice(["memory://a", "memory://a", "memory://b/c", "LOCAL"]), p] for p in ids], "wm": rng.choice([None, None, 0, 5]), "seed": rng.randrange(10 ** 6),
               "sn": rng.random() < .3, "se": rng.random() < .3, "feats": rng.random() < .6, "other": rng.choice([4, 5, 20, 110])}


def trivial(c):
    return c["k"] == "get" and len(c["parts"]) < 2


def login(c):
    """the store is opened as the user and at the port of the path"""
    seen = []

    class Rec(fsspec.AbstractFileSystem):
        protocol, cachable = "rec", False

        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            seen.append({x: k[x] for x in ("username", "port") if x in k})

        def get(self, *a, **k):
            raise FileNotFoundError(a[0])
    fsspec.register_implementation("rec", Rec, clobber=True)
    try:
        dl.download_graph_data(c["url"], [(c["url"], 0)])
    except FileNotFoundError:
        pass
    want = {"username": "me", "port": 99} if "@" in c["url"] else {}
    if not seen or any(x != want for x in seen):
        return f"{c['url']} was opened with {seen}, expected {want}"


def names():
    """every path builder the module has; renamed ones are covered by the folders written below"""
    F = lambda n: getattr(mt, n, None)
    El = F("_Element")
    seen = {}
    fs = [("map", F("_get_node_map_path")), ("nb", F("_get_neighbors_index_path"))]
    fe = [("ts", F("_get_element_timestamps_path")), ("ix", F("_get_element_index_path")), ("fi", F("_get_element_features_index_path")), ("fd", F("_get_element_features_data_path")),
          ("al", F("_get_element_alias_path"))]
    items = [("meta", F("_get_meta_path")("out"))] if F("_get_meta_path") else []
    for a, b in itertools.product(N, N):
        items += [((n, a, b), f("out", a, b)) for n, f in fs if f] + ([((n, e.value, a, b), f(e, "out", a, b)) for n, f in fe if f for e in (El.NODE, El.EDGE)] if El else [])
    for k, s in items:
        if s in seen and seen[s] != k:
            return f"{k} and {seen[s]} share the file name {s}"
        seen[s] = k


def shared(c):
    """partitions written to one folder leave the files they leave when each has its own"""
    import random
    tmp = tempfile.mkdtemp(prefix="c11_")
    try:
        def write(d, p):
            rng = random.Random(c["seed"] * 1000 + p)
            w = writers.BinaryWriter(d, p, c["sn"], c["se"], c["wm"])
            for b in build({"batches": [rrecords(rng, c["wm"] is not None, True, 3)]}):
                w.add(iter(b))
            w.close()
        read = lambda d: {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
        one, want = os.path.join(tmp, "all"), {}
        os.mkdir(one)
        for p in c["ids"]:
            d = os.path.join(tmp, f"p{p}")
            os.mkdir(d)
            write(d, p)
            write(one, p)
            for f, data in read(d).items():
                if f in want:
                    return f"two partitions of {c['ids']} write {f}"
                want[f] = data
        if read(one) != want:
            return f"partitions {c['ids']} overwrite each other in one folder"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(c):
    if c["k"] == "names":
        return names()
    if c["k"] == "login":
        return login(c)
    if c["k"] == "shared":
        return shared(c)
    import random
    rng = random.Random(c["seed"])
    mem = fsspec.filesystem("memory")
    mem.store.clear()
    tmp = tempfile.mkdtemp(prefix="c11_")
    res = None
    try:
        files = {}
        nf = ef = 0
        for root, p in c["parts"] + [["memory://a", c["other"]]]:
            d = os.path.join(tmp, f"p{p}")
            os.mkdir(d)
            w = writers.BinaryWriter(d, p, c["sn"], c["se"], c["wm"])
            case = {"batches": [rrecords(rng, c["wm"] is not None, c["feats"], 3)]}
            for b in build(case):
                w.add(iter(b))
            w.close()
            nf, ef = max(nf, w.node_feature_count), max(ef, w.edge_feature_count)
            for f in os.listdir(d):
                files.setdefault(p, {})[f] = open(os.path.join(d, f), "rb").read()
                if root.startswith("memory:"):
                    with mem.open("/" + root[9:] + "/" + f, "wb") as h:
                        h.write(files[p][f])
        meta = dict(binary_data_version="v2", node_count=1, edge_count=1, node_type_count=0, edge_type_count=0, node_feature_count=nf, edge_feature_count=ef, partitions={},
                    node_count_per_type=[], edge_count_per_type=[], watermark=-1 if c["wm"] is None else c["wm"])
        with mem.open("/a/meta.json", "wb") as h:
            h.write(json.dumps(meta).encode())
        parts = [(tmp if r == "LOCAL" else r, p) for r, p in c["parts"]]
        res = dl.download_graph_data("memory://a", parts)
        if len(parts) != len(c["parts"]):
            return "number of partitions changed"
        for (r, p), (r2, p2) in zip(c["parts"], parts):
            if p != p2:
                return f"partition {p} became {p2}"
            if r == "LOCAL":
                if r2 != tmp:
                    return "local partition moved"
                continue
            if r2 != res.name:
                return f"remote partition {p} is not read from the download folder"
            for f, data in files[p].items():
                if "features" in f and not (nf if f.startswith("node") else ef):
                    continue
                g = os.path.join(res.name, f)
                if not os.path.exists(g):
                    return f"{f} of partition {p} was not fetched"
                if open(g, "rb").read() != data:
                    return f"{f} of partition {p} differs from the remote file"
        if not os.path.exists(os.path.join(res.name, "meta.json")):
            return "metadata was not fetched"
    finally:
        if res is not None:
            res.reset()
        mem.store.clear()
        shutil.rmtree(tmp, ignore_errors=True)
