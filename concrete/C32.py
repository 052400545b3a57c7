"""Real upload processes and threads writing to a recording store in a scratch folder."""
import os, shutil, tempfile, threading
from azure.datalake.store import core, lib
from deepgnn.graph_engine import adl_uploader

RULE = "0-40 lines (multi-byte characters, numbers), 1-6 lines per chunk, 1-3 processes, 1-2 threads, 0-3 chunks per file, lines given in 1-3 calls; non-trivial with 2+ chunks"


class Sink:
    def __init__(self, path):
        self.path, self.parts, self.closed = path, [], False

    def write(self, b):
        if self.closed:
            raise ValueError("write to a closed file")
        self.parts.append(bytes(b))
        return len(b)

    def close(self):
        if not self.closed:
            self.closed = True
            os.rename(self.path + ".open", self.path)
            with open(self.path, "wb") as f:
                f.write(b"\x00".join(self.parts))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Store:
    def __init__(self, *a, **k):
        pass

    def open(self, path, mode="rb", **k):
        if os.path.exists(path):
            raise FileExistsError(path)
        with open(path + ".open", "xb"):
            pass
        return Sink(path)


def mk(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 40])
    lines = [rng.choice(["a", "é", "x\ty", "\U0001f600", "1.5"]) + str(i) for i in range(n)]
    if rng.random() < .2:
        lines = list(range(n))
    cuts = sorted(rng.randrange(n + 1) for _ in range(rng.choice([0, 0, 1, 2])))
    return {"lines": lines, "cuts": cuts, "max": rng.randrange(1, 7), "procs": rng.randrange(1, 4), "threads": rng.choice([1, 1, 1, 2]), "file": rng.choice([0, 1, 2, 3]), "write": rng.random() < .2}


def cases(rng, tier):
    while True:
        yield mk(rng)


def from_model(proof, obligation, m):
    g = lambda k, d, hi: max(0, min(int(m.get(k, d)), hi))
    yield {"lines": list(range(g("n", 5, 30))), "cuts": [], "max": max(1, g("max_lines", 2, 9)), "procs": max(1, g("processes", 1, 3)), "threads": 1, "file": g("max_chunks", 2, 4), "write": False}


def trivial(c):
    return len(c["lines"]) <= c["max"]


def chunks(c):
    L = c["lines"]
    bounds = [0] + c["cuts"] + [len(L)]
    for a, b in zip(bounds, bounds[1:]):
        yield L[a:b]


def run(c, out):
    tmp = tempfile.mkdtemp(prefix="c32_")
    try:
        w = adl_uploader.AdlDataWriter("store", tmp + "/out", max_chunks_per_file=c["file"], process_num=c["procs"], threads_per_process=c["threads"], queue_size=3000, max_lines_per_chunk=c["max"])
        for part in chunks(c):
            if w.writelines(part) is not True:
                out.append("writing was refused")
                return
        if c["write"]:
            w.write("single\n")
        w.close()
        if w.writelines(["late"]) is not False:
            out.append("writing after closing was not refused")
            return
        out.append(judge(c, tmp))
    except Exception as e:
        out.append(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(c, tmp):
    names = os.listdir(tmp)
    if any(n.endswith(".open") for n in names):
        return f"files left open: {sorted(n for n in names if n.endswith('.open'))}"
    files = {}
    for n in names:
        with open(os.path.join(tmp, n), "rb") as f:
            files[n] = f.read().split(b"\x00")
    all_chunks = [k for ks in files.values() for k in ks]
    for n, ks in files.items():
        if c["file"] and len(ks) > c["file"]:
            return f"{n} holds {len(ks)} chunks, at most {c['file']}"
        if not c["file"] and c["threads"] == 1 and len(files) > c["procs"]:
            return f"{len(files)} files for {c['procs']} processes"
    want = [str(x) for x in c["lines"]] + (["single"] if c["write"] else [])
    got = []
    for k in all_chunks:
        if not k.endswith(b"\n"):
            return f"chunk without a final line feed: {k!r}"
        ls = k.decode("utf-8")[:-1].split("\n")
        if len(ls) > c["max"]:
            return f"chunk of {len(ls)} lines, at most {c['max']}"
        got.append(ls)
    flat = [x for ls in got for x in ls]
    if sorted(flat) != sorted(want):
        return f"stored lines {sorted(flat)[:6]}... ({len(flat)}), given {sorted(want)[:6]}... ({len(want)})"
    pos = {x: i for i, x in enumerate(want)}
    for ls in got:
        if [pos[x] for x in ls] != list(range(pos[ls[0]], pos[ls[0]] + len(ls))):
            return f"lines of a chunk are not consecutive: {ls}"
    for n, ks in files.items():
        starts = [pos[k.decode().split("\n")[0]] for k in ks]
        if starts != sorted(starts):
            return f"chunks of {n} are out of order"
    # chunk number j belongs to process j mod processes
    order = sorted(got, key=lambda ls: pos[ls[0]])
    owner = {ls[0]: j % c["procs"] for j, ls in enumerate(order)}
    groups = {}
    for n, ks in files.items():
        who = {owner[k.decode().split("\n")[0]] for k in ks}
        if len(who) != 1:
            return f"{n} holds chunks of several processes"
    return None


def check(c):
    core.AzureDLFileSystem, lib.auth = Store, lambda *a, **k: "token"
    adl_uploader.core.AzureDLFileSystem, adl_uploader.lib.auth = Store, lib.auth
    adl_uploader.AdlCredentialParser.read_credentials = staticmethod(lambda *a, **k: {"TENANT_ID": "", "CLIENT_SECRET": "", "CLIENT_ID": ""})
    out = []
    t = threading.Thread(target=run, args=(c, out), daemon=True)
    t.start()
    t.join(30)
    if t.is_alive():
        return "uploading did not finish"
    if isinstance(out[0], Exception):
        raise out[0]
    return out[0]


def cleanup():
    import multiprocessing
    for p in multiprocessing.active_children():
        p.terminate()
