"""Real file-backed samplers over real files, all data-parallel ranks of one configuration."""
import os, shutil, tempfile
import numpy as np
from deepgnn.graph_engine.samplers import FileNodeSampler, FileEdgeSampler, FileTupleSampler, FileTupleSamplerV2

RULE = "all small (kind, size, batch, epochs, ranks, drop, shuffle), then random; non-trivial when a partial batch, several ranks or epochs occur"
TMP = tempfile.mkdtemp(prefix="c15_")
KINDS = ["node", "edge", "edgef", "tuple", "tuple2"]


def cleanup():
    shutil.rmtree(TMP, ignore_errors=True)


def cases(rng, tier):
    # ranks whose random generators differ: recorded finding
    yield {"kind": "node", "n": 7, "B": 2, "E": 1, "D": 2, "drop": 0, "shuffle": 1, "files": 1, "own_rng": 1}
    for k in KINDS:
        yield {"kind": k, "n": 5, "B": 2, "E": 1, "D": 1, "drop": 0, "shuffle": 0, "files": 1, "omit": 1}
    for n in range(1, 8):
        for B in (1, 2, 3, 8):
            for E in (1, 2):
                for D in (1, 2, 3):
                    for drop in (0, 1):
                        k = KINDS[(n + B + E + D + drop) % 5]
                        yield {"kind": k, "n": n, "B": B, "E": E, "D": D, "drop": drop, "shuffle": (n + D + drop) % 2, "files": 1 + n % 2, "omit": (n + B) % 2, "style": (n + E) % 2}
    for k in ("node", "tuple2"):        # more samples than 16 bits count
        yield {"kind": k, "n": 40000, "B": 999, "E": 1 + (k == "node"), "D": 1, "drop": 0, "shuffle": int(k == "node"), "files": 1}
    while True:
        yield {"kind": rng.choice(KINDS), "n": rng.randrange(1, 60), "B": rng.randrange(1, 12), "E": rng.randrange(1, 4), "D": rng.randrange(1, 5),
               "drop": rng.randrange(2), "shuffle": rng.randrange(2), "files": rng.randrange(1, 4), "own_rng": int(rng.random() < 0.05), "omit": rng.randrange(2), "style": rng.randrange(2)}


def trivial(c):
    return c["n"] % c["B"] == 0 and c["D"] == 1 and c["E"] == 1


def ident(x, style):
    """ascending and distinct, or in no order with repeated, negative and large ones"""
    return 100 + x if not style else (2 ** 60 + 1 - x // 2, x // 4 * 7, -1000 - x)[x % 3]


def make(kind, n, files, d, style=0):
    """-> rows as tuples, in file order"""
    rows = []
    nf = 1 if kind.startswith("tuple") else files
    sizes = [n // nf + (1 if i < n % nf else 0) for i in range(nf)]
    x = 0
    for i, sz in enumerate(sizes):
        with open(f"{d}/f_{i}.txt", "w") as f:
            for _ in range(sz):
                a = ident(x, style)
                b = 200 + x if not style else a if x % 5 == 0 else 200 + x // 3
                if kind == "node":
                    r = (a,)
                    f.write(f"{r[0]}\n")
                elif kind == "edge":
                    r = (a, b, 5)
                    f.write(f"{r[0]}\t{r[1]}\n")
                elif kind == "edgef":
                    r = (a, b, 5, x + 0.5, x + 0.25)
                    f.write(f"{r[0]}\t{r[1]}\t{r[3]}\t{r[4]}\n")
                elif kind == "tuple":
                    r = (a, x % 3)
                    f.write(f"{r[0]}\t{r[1]}\n")
                else:
                    r = (a, x + 0.5, x + 0.25, x + 0.75)
                    f.write(f"{r[0]}\t{r[1]}\t{r[2]} {r[3]}\n")
                rows.append(r)
                x += 1
    return rows


def flat(b, kind):
    if kind in ("edgef", "tuple2"):
        return [tuple(v for p in parts for v in np.atleast_1d(p).tolist()) for parts in zip(*b)]
    return [tuple(np.atleast_1d(x).tolist()) for x in b]


def blen(b, kind):
    return {len(x) for x in b} if kind in ("edgef", "tuple2") else {len(b)}


def check(c):
    kind, B, E, D, drop = c["kind"], c["B"], c["E"], c["D"], bool(c["drop"])
    d = tempfile.mkdtemp(dir=TMP)
    try:
        rows = make(kind, c["n"], c["files"], d, c.get("style", 0))
        n = len(rows)
        seen, perrank = [], []
        back = -77
        padrow = {"node": (back,), "edge": (back, back, 5), "edgef": (back, back, 5, 0, 0), "tuple": (back, back), "tuple2": (back,) * 4}[kind]
        for r in range(D):
            np.random.seed(11 + (r if c.get("own_rng") else 0))
            kw = dict(batch_size=B, epochs=E, shuffle=bool(c["shuffle"]), drop_last=drop, data_parallel_num=D, data_parallel_index=r)
            if c.get("omit"):  # documented defaults
                plain = dict(epochs=1, shuffle=False, drop_last=False, data_parallel_num=1, data_parallel_index=0)
                kw = {k: v for k, v in kw.items() if k not in plain or plain[k] != v}
            if kind == "node":
                s = FileNodeSampler(f"{d}/f_*.txt", backfill_id=back, **kw)
            elif kind == "edge":
                s = FileEdgeSampler(5, f"{d}/f_*.txt", backfill_id=back, **kw)
            elif kind == "edgef":
                s = FileEdgeSampler(5, f"{d}/f_*.txt", backfill_id=back, feature_dim=2, **kw)
            elif kind == "tuple":
                s = FileTupleSampler(f"{d}/f_0.txt", backfill=back, **kw)
            else:
                s = FileTupleSamplerV2(f"{d}/f_0.txt", backfill=back, **kw)
            got = []
            it = iter(s)
            nb = 0
            while True:
                try:
                    b = next(it)
                except StopIteration:
                    break
                nb += 1
                if nb > n * E + 3:
                    return "sampler does not stop"
                if blen(b, kind) != {B}:
                    return f"batch of {blen(b, kind)} samples instead of {B} ({c})"
                fl = flat(b, kind)
                real = [x for x in fl if x != padrow]
                if fl[:len(real)] != real:
                    return f"padding before samples in {fl}"
                if drop and len(real) != B:
                    return f"incomplete batch although dropping incomplete batches: {fl}"
                got += real
            if D == 1 and len(s) != nb:
                return f"length {len(s)} but {nb} batches ({c})"
            seen += got
            perrank.append(got)
        want = sorted(rows * E)
        if drop:
            lost = len(want) - len(seen)
            cap = (n * E // B) * B
            if len(seen) != cap:
                return f"{len(seen)} samples delivered, complete batches hold {cap}"
            from collections import Counter
            if Counter(seen) - Counter(want):
                return f"samples repeated or invented: {list((Counter(seen) - Counter(want)).items())[:3]}"
        elif sorted(seen) != want:
            return f"samples of all ranks do not cover the data once per epoch: {c}"
        if not c["shuffle"]:
            order = rows * E
            for r, got in enumerate(perrank):
                exp = [x for q in range(r * B, n * E, D * B) for x in order[q:q + B] if not drop or q + B <= n * E]
                if got != exp:
                    return f"rank {r} not in file order"
        else:
            if D == 1 and not drop:
                for e in range(E):
                    if sorted(perrank[0][e * n:(e + 1) * n]) != sorted(rows):
                        return f"epoch {e} does not visit every sample once"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


def is_known(key, c, msg):
    return key == "shuffle-independent-ranks" and c.get("own_rng") and c["shuffle"] and c["D"] > 1 and (
        "do not cover" in msg or "repeated or invented" in msg)


def from_model(proof, ob, m):
    try:
        n, B, E, D = m.get("N", 5), m.get("B", 2), m.get("E", 1), m.get("D", 1)
        if 0 < n < 300 and B < 300 and E < 20 and D < 20:
            for k in KINDS:
                for drop in (0, 1):
                    yield {"kind": k, "n": n, "B": B, "E": E, "D": D, "drop": drop, "shuffle": 0, "files": 1}
    except TypeError:
        return
