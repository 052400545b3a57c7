"""Real text files in a scratch folder, read by the real reader with tiny blocks."""
import os, shutil, tempfile, threading
from deepgnn.graph_engine._adl_reader import TextFileIterator

RULE = "1-4 files of 0-12 lines (multi-byte characters, CRLF, blank lines, unusual separators, missing final line feed), blocks of 1-60 bytes, 1-5 threads, queue 1-3, batch 1-7, 1-3 epochs, 1-2 workers, drop_last and shuffle, reading again after all or some batches; non-trivial with 2+ lines"
WORDS = ["a", "bc", "def", "0123456789", "é", "x y", "p\x0cq", "\U0001f600", "t\tu", "v w", "e\x85f", " lead", "trail "]


def mk(rng):
    files = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        lines = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12])):
            lines.append("" if rng.random() < .12 else "".join(rng.choice(WORDS) for _ in range(rng.randrange(1, 4))))
        eol = rng.choice(["\n", "\n", "\n", "\r\n"])
        files.append(eol.join(lines) + (eol if lines and rng.random() < .6 else ""))
    nw = rng.choice([1, 1, 1, 2]) if len(files) > 1 else 1
    return {"files": files, "block": rng.choice([1, 2, 3, 5, 7, 11, 16, 23, 60]), "threads": rng.choice([1, 1, 2, 3, 4, 5]), "queue": rng.randrange(1, 4), "batch": rng.randrange(1, 8),
            "epochs": rng.choice([1, 1, 2, 3]), "drop": rng.random() < .3, "shuffle": rng.random() < .2, "workers": nw, "worker": rng.randrange(nw), "again": rng.random() < .2, "abandon": rng.choice([None, None, None, 0, 1, 2])}


def cases(rng, tier):
    yield {"files": ["a b\nc\n"], "block": 60, "threads": 1, "queue": 3, "batch": 4, "epochs": 1, "drop": False, "shuffle": False, "workers": 1, "worker": 0, "again": False}
    yield {"files": ["a\n\nb\n"], "block": 60, "threads": 1, "queue": 3, "batch": 4, "epochs": 1, "drop": False, "shuffle": False, "workers": 1, "worker": 0, "again": False}
    yield {"files": ["ab\ncd\n"], "block": 60, "threads": 0, "queue": 3, "batch": 4, "epochs": 1, "drop": False, "shuffle": False, "workers": 1, "worker": 0, "again": False}
    long = "\n".join(f"{i} " + "x" * (i % 3000) for i in range(1500)) + "\n"        # more than two blocks of a megabyte
    yield {"files": [long, "a\nb"], "block": 10 ** 6, "threads": 2, "queue": 3, "batch": 700, "epochs": 1, "drop": False, "shuffle": False, "workers": 1, "worker": 0, "again": False}
    while True:
        yield mk(rng)


def trivial(c):
    return sum(f.count("\n") for f in c["files"]) < 2


def lines_of(text):
    ls = [x[:-1] if x.endswith("\r") else x for x in text.split("\n")]
    return [x for x in ls if x]


def run(c, out):
    tmp = tempfile.mkdtemp(prefix="c14_")
    try:
        for i, f in enumerate(c["files"]):
            with open(f"{tmp}/part_{i}.txt", "wb") as h:
                h.write(f.encode("utf-8"))
        it = TextFileIterator(filename=tmp, batch_size=c["batch"], epochs=c["epochs"], read_block_in_M=(c["block"] + .5) * 1e-6, buffer_queue_size=c["queue"], thread_count=c["threads"],
                              worker_index=c["worker"], num_workers=c["workers"], shuffle=c["shuffle"], drop_last=c["drop"])
        if c.get("abandon") is not None:
            i = iter(it)
            for _ in range(c["abandon"]):
                next(i, None)
        for _ in range(2 if c["again"] else 1):
            got = [list(b) for b in it]
            msg = judge(c, got)
            if msg:
                break
            if next(it, None) is not None:
                msg = "a batch after the end"
                break
        it.join()
        out.append(msg)
    except Exception as e:
        out.append(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(c, got):
    mine = c["files"][c["worker"]::c["workers"]]
    per = [lines_of(f) for f in mine]
    total = sum(map(len, per)) * c["epochs"]
    b = c["batch"]
    if any(len(x) != b for x in got[:-1]) or (got and not 0 < len(got[-1]) <= b):
        return f"batch sizes {[len(x) for x in got]} for batch size {b}"
    if c["drop"] and got and len(got[-1]) < b:
        return f"short last batch of {len(got[-1])} although dropping is enabled"
    flat = [x for y in got for x in y]
    keep = total - total % b if c["drop"] else total
    if len(flat) != keep:
        return f"{len(flat)} lines read, files hold {total} ({keep} expected): {flat}"
    if not c["shuffle"]:
        want = [x for f in per for x in f] * c["epochs"]
        if flat != want[:keep]:
            return f"lines {flat}, files hold {want}"
    else:
        # files in any order, each epoch complete
        k = total // c["epochs"]
        one = sorted(x for f in per for x in f)
        for e in range(c["epochs"]):
            part = flat[e * k:(e + 1) * k]
            if len(part) == k and sorted(part) != one:
                return f"epoch {e} read {part}, files hold {one}"


def check(c):
    out = []
    t = threading.Thread(target=run, args=(c, out), daemon=True)
    t.start()
    t.join(25)
    if not out:
        return "the reader does not finish"
    if isinstance(out[0], Exception):
        raise out[0]
    return out[0]
