"""Real payload conversion, decoded back following the documented layout."""
from _part import *

RULE = "feature lists of 0-6 features: absent, dense (all dtypes, 1-3 dimensions, negative and extreme values, any memory order), text, sparse with 1-4 coordinate dimensions, mismatching sparse; non-trivial with a feature"


def val(rng, d):
    if d.startswith("float"):
        return rng.choice([0., -0., 1.5, -2.25, 65504., 6e-5, float("inf")])
    i = np.iinfo(d)
    return rng.choice([i.min, i.max, 0, 1, rng.randrange(0, 100)])


def one(rng):
    k = rng.choice("ndds22xb")
    d = rng.choice(DT)
    if k == "n":
        return {"k": "n"}
    if k == "x":
        return {"k": "x", "s": rng.choice(["", "abc", "день", "x" * 9, "1.5,2", " a b ", "\ta\r\n", "\x00z\x00", "\U0001f600\xe9"])}
    if k == "d":
        shape = rng.choice([[0], [1], [3], [7], [2, 3], [1, 1], [2, 2, 2]])
        n = int(np.prod(shape))
        return {"k": "d", "d": d, "shape": shape, "v": [val(rng, d) for _ in range(n)], "lay": rng.choice("CCFS")}
    n = rng.choice([0, 1, 1, 2, 3, 5])
    nv = n
    if k == "b":
        nv = rng.choice([x for x in (0, 2, 3, 4, 1) if x != n])
        k = rng.choice("s2")
    m = rng.randrange(1, 5)
    return {"k": k, "d": d, "c": [rng.choice([0, 1, 2 ** 40, rng.randrange(99)]) for _ in range(n * (1 if k == "s" else m))], "n": n, "m": m, "v": [val(rng, d) for _ in range(nv)], "lay": rng.choice("CCFS")}


def cases(rng, tier):
    yield {"f": []}
    yield {"f": [{"k": "s", "d": "float32", "c": [1, 3, 7], "n": 3, "m": 1, "v": [5.5]}]}
    for d in DT:
        yield {"f": [{"k": "2", "d": d, "c": [1, 2, 3, 4, 5, 6], "n": 3, "m": 2, "v": [val(rng, d) for _ in range(3)]}, {"k": "n"}, {"k": "s", "d": d, "c": [4], "n": 1, "m": 1, "v": [val(rng, d)]}]}
    while True:
        yield {"f": [one(rng) for _ in range(rng.choice([1, 1, 2, 3, 6]))]}


def trivial(c):
    return not c["f"]


def arr(f):
    if f["k"] == "n":
        return None
    if f["k"] == "x":
        return f["s"]
    v = np.array(f["v"], dtype=f["d"])
    if f["k"] == "d":
        return layout(v.reshape(f["shape"]), f.get("lay"))
    co = np.array(f["c"], dtype=np.int64)
    return (layout(co if f["k"] == "s" else co.reshape(f["n"], f["m"]), f.get("lay")), layout(v, f.get("lay")))


def layout(a, how):
    """the same array with another arrangement in memory"""
    if how == "F":
        return np.asfortranarray(a)
    if how == "S":
        b = np.zeros([2 * n for n in a.shape], dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a


def flat_single(f):
    return f["k"] == "s" and len(f["v"]) == 1 and f["n"] > 1


def is_known(key, case, msg):
    return key == "flat-single-value" and len(case["f"]) == 1 and flat_single(case["f"][0])


def from_model(proof, obligation, model):
    return []


def check(c):
    # one feature at a time decides which may be rejected, then the whole list
    bad = [f for f in c["f"] if f["k"] in "s2" and f["n"] and f["v"] and f["n"] != len(f["v"])]
    if any(flat_single(f) for f in c["f"]) and len(c["f"]) > 1:
        return None
    try:
        got = writers.convert_features([arr(f) for f in c["f"]])
    except AssertionError as e:
        return None if bad else f"valid features refused: {e!r}"
    if bad:
        f = bad[0]
        return f"sparse feature with {f['n']} coordinates of dimension {1 if f['k'] == 's' else f['m']} and {len(f['v'])} value(s) was stored instead of rejected"
    if len(got) != len(c["f"]):
        return f"{len(got)} slots for {len(c['f'])} features"
    for i, (f, b) in enumerate(zip(c["f"], got)):
        b = b"" if b is None else bytes(b)
        if f["k"] == "n":
            want = b""
        elif f["k"] == "x":
            want = f["s"].encode()
        elif f["k"] == "d":
            want = np.array(f["v"], dtype=f["d"]).tobytes()
        elif not f["n"] or not f["v"]:
            want = b""
        else:
            want = struct.pack("=II", len(f["c"]), 1 if f["k"] == "s" else f["m"]) + struct.pack(f"={len(f['c'])}q", *f["c"]) + np.array(f["v"], dtype=f["d"]).tobytes()
        if b != want:
            return f"feature {i} ({f['k']}, {f.get('d')}) stored as {b.hex()}, expected {want.hex()}"
