"""Random record sequences, written by the real partition writer into a scratch folder and read back from the documented file layout."""
import json, os, shutil, struct, tempfile
import numpy as np
from _broken import Broken
import deepgnn.graph_engine.snark.converter.writers as writers

DT = ["float32", "float64", "float16", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]


def number(rng, t):
    """a value of the dtype, sometimes at the ends of its range"""
    if "int" not in t:
        return rng.choice([rng.randrange(0, 100), rng.randrange(-80, 80) / 8])
    b = int(t.split("int")[1])
    return rng.choice([rng.randrange(0, 100)] * 3 + ([2 ** b - 1] if t[0] == "u" else [2 ** (b - 1) - 1, -2 ** (b - 1), -1]))


def numbers(rng, n):
    t = rng.choice(DT)
    return {"d": t, "v": [number(rng, t) for _ in range(n)]}


def coord(rng):
    return rng.choice([rng.randrange(0, 50)] * 4 + [2 ** 40 + 1, 2 ** 62 + 1])


def rfeature(rng, kinds="nds2x"):
    k = rng.choice(kinds)
    if k == "n":
        return None
    if k == "d":
        n = rng.randrange(0, 5)
        return numbers(rng, n)
    if k == "x":
        return {"s": rng.choice(["", "abc", "день", "x" * 9, " a b ", "\ta\r\n", "\x00z\x00", "\U0001f600\xe9", "A,b\\|;:"])}
    n = rng.randrange(0, 4)
    if k == "s":
        return dict(numbers(rng, n), c=[coord(rng) for _ in range(n)])
    m = rng.randrange(1, 4)
    return dict(numbers(rng, n), c=[[coord(rng) for _ in range(m)] for _ in range(n)])


def feature(f):
    """the in-memory feature a decoder would hand over"""
    if f is None:
        return None
    if "s" in f:
        return f["s"]
    if "c" in f:
        return (np.array(f["c"], dtype=np.int64), np.array(f["v"], dtype=f["d"]))
    return np.array(f["v"], dtype=f["d"])


def payload(f):
    """the bytes the format documents for it"""
    if f is None:
        return b""
    if "s" in f:
        return f["s"].encode("utf-8")
    v = b"".join(struct.pack("=" + {"float32": "f", "float64": "d", "float16": "e", "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "int64": "q", "uint64": "Q"}[f["d"]], x) for x in f["v"])
    if "c" not in f:
        return v
    if not f["c"] or not f["v"]:
        return b""
    flat = [y for x in f["c"] for y in (x if isinstance(x, list) else [x])]
    dim = len(f["c"][0]) if isinstance(f["c"][0], list) else 1
    return struct.pack("=II", len(flat), dim) + struct.pack(f"={len(flat)}q", *flat) + v


def rrecords(rng, temporal, feats=True, size=None):
    """a valid record sequence [src, dst, type, weight, created, removed, features]"""
    out = []
    nn = rng.randrange(0, 6) if size is None else size
    ntypes, etypes = rng.choice([1, 2, 3, 3, 12]), rng.choice([1, 2, 3, 3, 12])
    base = rng.choice([0, 0, 2 ** 32 - 3, 2 ** 60 + 1])        # ids are 64-bit
    fs = lambda: [rfeature(rng) for _ in range(rng.choice([0, 1, 2, 4]))] if feats else []
    for s in range(nn):
        src = base + s * 7 + rng.randrange(3)
        cr, rm = None, None
        life = (0, -1)
        if rng.random() < .8:
            if temporal:
                cr = rng.choice([None, 0, 3])
                rm = rng.choice([None, -1, 0, 10]) if not cr else rng.choice([None, -1, 10])
                life = (0 if cr is None else cr, -1 if rm is None else rm)
            out.append([src, -1, rng.randrange(ntypes), rng.randrange(0, 9) / 2, cr, rm, fs()])
        for t in sorted(rng.randrange(etypes) for _ in range(rng.choice([0, 1, 2, 5]))):
            a = b = None
            if temporal:
                hi = 12 if life[1] == -1 else life[1]
                a = rng.choice([None, life[0], rng.randrange(life[0], hi + 1)])
                b = rng.choice([None, hi, rng.randrange(0, hi + 1)] + ([-1] if life[1] == -1 else []))
            out.append([src, rng.choice([0, base]) + rng.randrange(0, 90), t, rng.randrange(1, 9) / 2, a, b, fs()])
    return out


def split(rng, recs):
    """records delivered over several calls"""
    out, i = [], 0
    while i < len(recs):
        n = rng.choice([1, 1, 2, 3, len(recs)])
        out.append(recs[i:i + n])
        i += n
    return out


def build(case):
    return [[tuple(r[:6]) + ([feature(f) for f in r[6]],) for r in b] for b in case["batches"]]


class Part:
    """files of one partition"""

    def __init__(self, d, part):
        self.names, self.part = sorted(os.listdir(d)), part
        self.raw = {}
        for n in self.names:
            with open(os.path.join(d, n), "rb") as f:
                self.raw[n] = f.read()

    def file(self, fmt):
        n = fmt.replace("#", str(self.part))
        if n not in self.raw:
            raise Broken(f"file {n} was not written, only {self.names}")
        return self.raw[n]

    def read(self, fmt, layout, skip=0):
        b = self.file(fmt)[skip:]
        try:
            return list(struct.iter_unpack(layout, b))
        except struct.error:
            raise Broken(f"{fmt} holds {len(b)} bytes, not a whole number of entries")

    def u(self, fmt):
        return [x for x, in self.read(fmt, "=Q")]

    nodes = property(lambda s: s.read("node_#_0.map", "=QQi"))
    ni = property(lambda s: s.u("node_#_0.index"))
    nfi = property(lambda s: s.u("node_features_#_0.index"))
    nfd = property(lambda s: s.file("node_features_#_0.data"))
    nbi = property(lambda s: s.u("neighbors_#_0.index"))
    edges = property(lambda s: s.read("edge_#_0.index", "=QQif"))
    efi = property(lambda s: s.u("edge_features_#_0.index"))
    efd = property(lambda s: s.file("edge_features_#_0.data"))
    alias = property(lambda s: {n: b for n, b in s.raw.items() if "alias" in n})

    @property
    def times(self):
        t = "edge_#_0.timestamp"
        return self.read(t, "=qq", 8) if t.replace("#", str(self.part)) in self.raw else None

    @property
    def watermark(self):
        return struct.unpack("=Q", self.file("edge_#_0.timestamp")[:8])[0]


def write(case):
    """-> (Part, writer); the writer keeps its statistics after the scratch folder is gone"""
    tmp = tempfile.mkdtemp(prefix="part_")
    try:
        w = writers.BinaryWriter(tmp, case.get("part", 0), **{n: case[k] for n, k in (("skip_node_sampler", "sn"), ("skip_edge_sampler", "se"), ("watermark", "wm")) if not (case.get(k) is None or case.get(k) is False)})
        for b in build(case):
            w.add(iter(b))
        w.close()
        return Part(tmp, case.get("part", 0)), w
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def rows(recs):
    """expected rows: [(id, type, features, [edges])]"""
    out = []
    prev = None
    for r in recs:
        if r[1] == -1:
            out.append((r[0], r[2], r[6], []))
        else:
            if prev != r[0]:
                out.append((r[0], -1, [], []))
            out[-1][3].append(r)
        prev = r[0]
    return out


def f32(x):
    return struct.unpack("=f", struct.pack("=f", x))[0]


def mkcase(rng, temporal=None, feats=True, size=None):
    t = rng.random() < .4 if temporal is None else temporal
    return {"batches": split(rng, rrecords(rng, t, feats, size)), "wm": rng.choice([0, 20]) if t else None, "part": rng.choice([0, 0, 3, 12])}
