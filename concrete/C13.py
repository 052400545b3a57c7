"""Real edge-list and TSV lines through the real decoders, against the records they were written from."""
import numpy as np
from deepgnn.graph_engine.snark.decoders import EdgeListDecoder, TsvDecoder

RULE = "edge-list lines (random defaults, delimiters, 0-4 dense/sparse/empty/text features with escaped delimiters, optional times) and TSV lines (1-5 columns, 0-5 neighbors with 1-4 cells, 0-4 features); non-trivial with a feature or 2+ neighbors"
DT = ["float64", "float32", "float16", "uint64", "int64", "uint32", "int32", "uint16", "int16", "uint8", "int8"]
TSV = {"d": "float64", "f": "float32", "f16": "float16", "f32": "float32", "f64": "float64"}
for _b in (8, 16, 32, 64):
    TSV[f"i{_b}"], TSV[f"u{_b}"] = f"int{_b}", f"uint{_b}"


def num(rng, t):
    if "int" not in t:
        return rng.randrange(-40, 40) / 4
    b = int(t.split("int")[1])
    ends = [2 ** b - 1] if t[0] == "u" else [2 ** (b - 1) - 1, -2 ** (b - 1), -1]
    return rng.choice([rng.randrange(0, 100)] * 3 + ends)


def feature(rng):
    r = rng.random()
    t = rng.choice(DT)
    if r < .15:
        return {"f": "none", "t": t}
    if r < .5:
        n = rng.randrange(1, 4)
        return {"f": "dense", "t": t, "v": [num(rng, t) for _ in range(n)]}
    if r < .75:
        n, d = rng.randrange(1, 4), rng.randrange(0, 3)
        return {"f": "sparse", "t": t, "d": d, "c": [rng.choice([rng.randrange(9)] * 3 + [2 ** 60 + 1]) for _ in range(n * max(d, 1))], "v": [num(rng, t) for _ in range(n)]}
    return {"f": "text", "t": "binary", "v": rng.choice(["abc", "a{d}b", "{d}", "a{d}{d}b", "x-y", "q{d}", "{d}z", "", "a{e}{e}", "{e}{e}{d}b"])}


def edge_case(rng):
    node = rng.random() < .5
    case = {"form": "edge", "node": node, "src": rng.choice([0, 0, 2 ** 60 + 1]) + rng.randrange(50), "dst": -1 if node else rng.choice([0, 0, 2 ** 60 + 1]) + rng.randrange(50), "type": rng.choice([0, 1, 2, 3, 11]), "weight": rng.randrange(20) / 4,
            "times": rng.choice([None, [rng.randrange(9), rng.choice([-1, 12])]]), "delim": rng.choice([",", "\t", " ", ";"]), "ldelim": rng.choice(["/", ":"]),
            "features": [feature(rng) for _ in range(rng.randrange(0, 5))], "def": {x: rng.random() < .4 for x in ("type", "weight", "created", "removed")},
            "keys": rng.randrange(0, 4), "trail": rng.random() < .2}
    case["fdef"] = [[rng.random() < .5, rng.random() < .5] for _ in range(case["keys"])]
    return case


def tsv_feature(rng):
    r = rng.random()
    if r < .2:
        return None
    if r < .4:
        return ["b", rng.choice(["abc", "a b"])]
    k = rng.choice(sorted(TSV))
    return [k, [num(rng, TSV[k]) for _ in range(rng.randrange(1, 4))]]


def tsv_case(rng):
    nbs = []
    for _ in range(rng.randrange(0, 6)):
        nbs.append({"dst": rng.choice([0, 0, 0, 2 ** 60 + 1]) + rng.randrange(9), "type": rng.choice([None, 0, 1, 2, 10]), "weight": rng.choice([None, rng.randrange(8) / 2]), "features": [tsv_feature(rng) for _ in range(rng.randrange(0, 3))],
                    "cells": rng.randrange(1, 5)})
    return {"form": "tsv", "id": rng.choice([0, 0, 2 ** 60 + 1]) + rng.randrange(50), "type": rng.choice([None, rng.randrange(4)]), "weight": rng.choice([None, rng.randrange(8) / 2]),
            "features": [tsv_feature(rng) for _ in range(rng.randrange(0, 4))], "nb": nbs, "cols": rng.choice([1, 2, 3, 4, 5, 5, 5, 5])}


def cases(rng, tier):
    yield {"form": "blank"}
    yield {"form": "tsv", "id": 3, "type": 1, "weight": 1.0, "features": [], "nb": [{"dst": 5, "type": None, "weight": None, "features": [], "cells": 1}], "cols": 5}
    while True:
        yield edge_case(rng)
        yield tsv_case(rng)


def trivial(c):
    return c["form"] == "blank" or not c["features"] and len(c.get("nb", [])) < 2


def same(g, f, d, esc):
    if f is None or f["f"] == "none":
        return None if g is None else f"absent feature decoded as {g!r}"
    if f["f"] == "text":
        w = f["v"].replace("{d}", d).replace("{e}", esc)
        return None if isinstance(g, str) and g == w else f"text feature {g!r}, written {w!r}"
    if f["f"] == "sparse":
        if not (isinstance(g, tuple) and len(g) == 2):
            return f"sparse feature decoded as {g!r}"
        n, k = len(f["v"]), f["d"]
        w = np.array(f["c"], dtype=np.int64).reshape((n, k) if k else n)
        if g[0].dtype != np.int64 or g[0].shape != w.shape or g[0].tolist() != w.tolist():
            return f"coordinates {g[0]!r}, written {w.tolist()}"
        g = g[1]
    if not (isinstance(g, np.ndarray) and g.dtype == np.dtype(f["t"]) and g.shape == (len(f["v"]),) and g.tolist() == f["v"]):
        return f"feature {g!r}, written {f['v']} as {f['t']}"


def edge_check(c):
    d, ld, esc = c["delim"], c["ldelim"], "\\"
    df = c["def"]
    toks = [str(c["src"])]
    if c["node"]:
        toks += ["-1"] + ([] if df["type"] else [str(c["type"])])
    else:
        toks += ([] if df["type"] else [str(c["type"])]) + [str(c["dst"])]
    if not df["weight"]:
        toks.append(str(c["weight"]))
    times = c["times"]
    if times:
        toks += [str(t) for t, g in zip(times, (df["created"], df["removed"])) if not g]
    types, lens = [], []
    fs = c["features"]
    for i, f in enumerate(fs):
        ln = [0] if f["f"] == "none" else [1] if f["f"] == "text" else [len(f["v"])] if f["f"] == "dense" else [len(f["v"]), f["d"]]
        kd, lnd = c["fdef"][i] if i < len(c["fdef"]) else (False, False)
        if i < len(c["fdef"]):
            types.append(f["t"] if kd else None)
            lens.append(ln if lnd else None)
        if not kd:
            toks.append(f["t"])
        if not lnd:
            toks.append(ld.join(map(str, ln)))
        if f["f"] == "text":
            # an escaped delimiter is written with the escape in front; a trailing pair of escapes is no escape
            toks.append(f["v"].replace("{e}", esc).replace("{d}", esc + d))
        elif f["f"] == "sparse":
            toks += [str(x) for x in f["c"] + f["v"]]
        elif f["f"] == "dense":
            toks += [str(x) for x in f["v"]]
    line = d.join(toks) + (d if c["trail"] else "")
    p = "node" if c["node"] else "edge"
    kw = {"delimiter": d, "length_delimiter": ld, "is_temporal": bool(times), f"default_{p}_feature_types": types, f"default_{p}_feature_lens": lens}
    if df["type"]:
        kw[f"default_{p}_type"] = c["type"]
    if df["weight"]:
        kw[f"default_{p}_weight"] = c["weight"]
    if times and df["created"]:
        kw["default_created_at"] = times[0]
    if times and df["removed"]:
        kw["default_removed_at"] = times[1]
    got = list(EdgeListDecoder(**kw).decode(line))
    if len(got) != 1:
        return f"{len(got)} records from {line!r}"
    g = got[0]
    want = (c["src"], c["dst"], c["type"], c["weight"], times[0] if times else None, times[1] if times else None)
    if tuple(g[:6]) != want:
        return f"record {g[:6]}, written {want}: {line!r}"
    if len(g[6]) != len(fs):
        return f"{len(g[6])} features, written {len(fs)}: {line!r}"
    for x, f in zip(g[6], fs):
        r = same(x, f, d, esc)
        if r:
            return f"{r}: {line!r}"


def tsv_text(fs):
    return ";".join("" if f is None else f"{f[0]}:" + (f[1] if isinstance(f[1], str) else " ".join(map(str, f[1]))) for f in fs)


def tsv_diff(got, fs):
    # no text at all is no feature
    fs = [] if not tsv_text(fs) else fs
    if len(got) != len(fs):
        return f"{len(got)} features, written {len(fs)}"
    for g, f in zip(got, fs):
        if f is None:
            r = None if g is None else f"absent feature decoded as {g!r}"
        elif f[0] == "b":
            r = None if g == f[1] else f"text {g!r}, written {f[1]!r}"
        else:
            r = None if isinstance(g, np.ndarray) and g.dtype == np.dtype(TSV[f[0]]) and g.tolist() == f[1] else f"feature {g!r}, written {f}"
        if r:
            return r


def tsv_check(c):
    s = lambda x: "" if x is None else str(x)
    cells = []
    for n in c["nb"]:
        full = [str(n["dst"]), s(n["type"]), s(n["weight"]), tsv_text(n["features"])]
        cells.append(full[:n["cells"]])
    cols = [str(c["id"]), s(c["type"]), s(c["weight"]), tsv_text(c["features"]), "|".join(",".join(x) for x in cells)][:c["cols"]]
    line = "\t".join(cols)
    got = list(TsvDecoder().decode(line))
    k = c["cols"]
    want = (c["id"], -1, (c["type"] or 0) if k > 1 else 0, (c["weight"] or 0) if k > 2 else 0)
    if tuple(got[0][:4]) != want:
        return f"node record {got[0][:4]}, written {want}: {line!r}"
    r = tsv_diff(got[0][6], c["features"] if k > 3 else [])
    if r:
        return f"{r}: {line!r}"
    nb = c["nb"] if k > 4 else []
    recs = []
    for n in nb:
        m = n["cells"]
        recs.append(((n["type"] or 0) if m > 1 else 0, n["dst"], (n["weight"] or 0) if m > 2 else 0, n["features"] if m > 3 else []))
    if len(got) - 1 != len(recs):
        return f"{len(got) - 1} neighbor records, written {len(recs)}: {line!r}"
    if [(g[2], g[1]) for g in got[1:]] != sorted((r[0], r[1]) for r in recs):
        return f"neighbors {[(g[2], g[1]) for g in got[1:]]} not in (type, destination) order: {line!r}"
    left = list(recs)
    for g in got[1:]:
        if g[0] != c["id"]:
            return f"neighbor source {g[0]}: {line!r}"
        for x in left:
            if (x[0], x[1], x[2]) == (g[2], g[1], g[3]) and not tsv_diff(g[6], x[3]):
                left.remove(x)
                break
        else:
            return f"neighbor record {g} was not written: {line!r}"


def check(c):
    if c["form"] == "blank":
        return None if list(EdgeListDecoder().decode("")) == [] else "a record from an empty line"
    return edge_check(c) if c["form"] == "edge" else tsv_check(c)


def from_model(proof, obligation, model):
    return []
