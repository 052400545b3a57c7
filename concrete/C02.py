"""Real splitting functions on real directories and files, all workers of one configuration."""
import glob, os, random, shutil, tempfile
from fsspec.implementations.local import LocalFileSystem
import deepgnn.graph_engine.samplers as S
from deepgnn.graph_engine._adl_reader import TextFileIterator

RULE = "all small (kind, items, workers), then random; non-trivial when more than one worker"
TMP = tempfile.mkdtemp(prefix="c02_")
NAMES = ["b", "a", "part-10", "part-9", "Z", "z1", "00", "_x"]


def cleanup():
    shutil.rmtree(TMP, ignore_errors=True)


def cases(rng, tier):
    for n in range(0, 8):
        for W in range(1, 6):
            for k in ("glob", "dir", "adl", "tuple", "tuple2", "text"):
                yield {"k": k, "n": n, "W": W, "D": 1 + (n + W) % 3 if k == "text" else 1, "cols": 1 + n % 3}
    yield {"k": "file", "n": 1, "W": 1, "D": 1, "cols": 1}
    yield {"k": "file", "n": 1, "W": 2, "D": 1, "cols": 1}
    while True:
        yield {"k": rng.choice(["glob", "dir", "adl", "tuple", "tuple2", "text"]), "n": rng.randrange(0, 60), "W": rng.randrange(1, 12), "D": rng.randrange(1, 4),
               "cols": rng.randrange(1, 4), "salt": rng.randrange(10 ** 6)}


def trivial(c):
    return c["W"] == 1 and c["D"] == 1


class FakeAdl:
    def __init__(self, names):
        self.names = names

    def glob(self, p):
        return list(self.names)


_LS, _GLOB = LocalFileSystem.ls, glob.glob


def check(c):
    """directory listings come back in a different order for every call"""
    rnd = random.Random(c["n"] * 31 + c["W"] + c.get("salt", 0))

    def ls(self, *a, **k):
        r = list(_LS(self, *a, **k))
        rnd.shuffle(r)
        return r

    def gl(*a, **k):
        r = list(_GLOB(*a, **k))
        rnd.shuffle(r)
        return r
    LocalFileSystem.ls, glob.glob = ls, gl
    try:
        return check1(c)
    finally:
        LocalFileSystem.ls, glob.glob = _LS, _GLOB


def check1(c):
    k, n, W = c["k"], c["n"], c["W"]
    d = tempfile.mkdtemp(dir=TMP)
    try:
        if k in ("glob", "dir", "adl", "text", "file"):
            salt = c.get("salt", 0)
            names = [f"{NAMES[(i + salt) % 8]}{(i * 7 + salt) % 97}_{i}.txt" for i in range(n)]
            for f in names:
                open(f"{d}/{f}", "w").write("x\n")
            full = sorted(f"{d}/{f}" for f in names)
            D = c["D"] if k == "text" else 1
            shares = W * D
            got = []
            for w in range(W):
                for r in range(D):
                    try:
                        if k == "glob":
                            fl = S.get_files(f"{d}/*.txt", w, W)
                        elif k == "adl":
                            x = TextFileIterator.__new__(TextFileIterator)
                            order = full[::-1] if (w + salt) % 2 else full[(w + salt) % (n or 1):] + full[:(w + salt) % (n or 1)]
                            x.adl = FakeAdl(order)
                            x.join = lambda: None
                            fl = TextFileIterator.get_worker_files(x, "p", w, W)
                        elif k == "text":
                            s = S.TextFileSampler("", d, batch_size=2, worker_index=w, num_workers=W, data_parallel_num=D, data_parallel_index=r)
                            fl = s.file_iter.files
                            s.file_iter.join()
                        else:
                            x = TextFileIterator(d if k == "dir" else f"{d}/{names[0]}", worker_index=w, num_workers=W)
                            fl = x.files
                            x.join()
                    except RuntimeError:
                        if n >= shares:
                            return f"{n} files refused for {shares} workers"
                        return None
                    if n < shares:
                        return f"{n} files accepted for {shares} workers: {[os.path.basename(str(f)) for f in fl]}"
                    fl = [str(f) for f in fl]
                    if fl != sorted(fl):
                        return f"worker {w} gets its files out of order: {fl}"
                    got += fl
            if sorted(got) != full:
                return f"{k}: {n} files over {shares} workers: missing {sorted(set(full) - set(got))[:3]}, repeated {sorted(f for f in set(got) if got.count(f) > 1)[:3]}"
            return None
        m = 3 if k == "tuple2" else 2
        rows = []
        with open(f"{d}/t", "w") as f:
            for i in range(n):
                if k == "tuple":
                    f.write(f"{100 + i}\t{i % 4}\n")
                    rows.append((100 + i, i % 4))
                else:
                    f.write(f"{100 + i}\t{i}.5\t{i} {i + 1}\n")
                    rows.append((100 + i, i + .5, float(i), float(i + 1)))
        seen = []
        for w in range(W):
            share = []
            try:
                if k == "tuple":
                    s = S.FileTupleSampler(f"{d}/t", 2, worker_index=w, num_workers=W)
                    share = [tuple(r) for r in s.data.tolist()] if len(s.data) else []
                else:
                    s = S.FileTupleSamplerV2(f"{d}/t", 2, worker_index=w, num_workers=W)
                    share = [(int(a), float(b), float(x[0]), float(x[1])) for a, b, x in zip(*s.data)]
            except IndexError:
                if n > w:
                    return f"worker {w} of {W} fails on {n} lines"
            if share != sorted(share):
                return f"worker {w} not in line order"
            seen += share
        if sorted(seen) != sorted(rows):
            return f"{k}: {n} lines over {W} workers: {len(seen)} lines seen, missing {sorted(set(rows) - set(seen))[:3]}"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def from_model(proof, ob, m):
    try:
        n = m.get("F", m.get("lines", 3))
        W, D = m["W"], m.get("D", 1)
        if 0 <= n < 200 and W < 60 and D < 10:
            for k in ("glob", "dir", "adl", "tuple", "tuple2", "text"):
                yield {"k": k, "n": n, "W": W, "D": D if k == "text" else 1, "cols": 2}
                yield {"k": k, "n": max(n, W * D), "W": W, "D": D if k == "text" else 1, "cols": 2}
    except (KeyError, TypeError):
        return
