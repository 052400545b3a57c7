"""Run the real converter constructor for every worker of a cluster (recording
dispatcher instead of processes) and for small cases the whole conversion."""
import os, shutil, struct, tempfile, json
import _command
from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
import deepgnn.graph_engine.snark.convert as conv

RULE = "all P,W up to a bound then random larger ones; a case is one cluster, non-trivial when W>1"


class Rec:
    calls = None

    def __init__(self, folder, parallel, decoder, **k):
        self.folder, self.parallel, self.k = folder, parallel, k
        self.lines = []

    def dispatch(self, line):
        self.lines.append(line)

    def join(self):
        pass

    def prop(self, name):
        return [] if name == "partitions" else 0


def cases(rng, tier):
    yield {"P": 4, "W": 3, "io": True}
    yield {"P": 2, "W": 4, "io": True}
    for P, W in ((1, 1), (3, 2), (2, 3), (5, 2)):
        yield {"P": P, "W": W, "io": True, "command": True}
    m = 14 if tier == "quick" else 40
    for P in range(1, m):
        for W in range(1, m):
            yield {"P": P, "W": W, "io": P * W < 12}
    while True:
        yield {"P": rng.randrange(1, 400), "W": rng.randrange(1, 120), "io": False}


def trivial(c):
    return c["W"] == 1


def command(c):
    """a cluster of conversion commands, each with its own output folder"""
    P, W = c["P"], c["W"]
    tmp = tempfile.mkdtemp(prefix="c01_")
    owners, nodes = {}, []
    try:
        os.mkdir(tmp + "/in")
        for f in range(W):
            with open(f"{tmp}/in/part_{f}.json", "w") as o:
                for i in (f * 10, f * 10 + 1, f * 10 + 2):
                    o.write(json.dumps({"node_id": i, "node_type": 0, "node_weight": 1., "edge": []}) + "\n")
        for i in range(W):
            out = f"{tmp}/out{i}"
            os.mkdir(out)
            opts = [] if W == 1 else ["-i", i, "-n", W]
            _command.convert("-d", tmp + "/in", "-p", P, "-o", out, *opts)
            for n in os.listdir(out):
                if n.endswith(".map"):
                    p = int(n.split("_")[1])
                    if not 0 <= p < P:
                        return f"worker {i} of {W} wrote partition {p} outside 0..{P - 1}"
                    if p in owners:
                        return f"partition {p} written by workers {owners[p]} and {i} (P={P}, W={W})"
                    owners[p] = i
                    with open(out + "/" + n, "rb") as f:
                        nodes += [x[0] for x in struct.iter_unpack("=QQi", f.read())]
        if sorted(owners) != list(range(P)):
            return f"partitions {sorted(owners)} written of {P} (W={W})"
        want = sorted(f * 10 + j for f in range(W) for j in range(3))
        if sorted(nodes) != want:
            return f"nodes {sorted(nodes)} written, input has {want} (P={P}, W={W})"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(c):
    if c.get("command"):
        return command(c)
    P, W = c["P"], c["W"]
    saved = conv.PipeDispatcher
    tmp = tempfile.mkdtemp(prefix="c01_")
    owners = {}
    got_lines = []
    try:
        conv.PipeDispatcher = Rec
        nfiles = W
        if c["io"]:
            os.mkdir(tmp + "/in")
            for f in range(nfiles):
                open(f"{tmp}/in/part_{f:03d}.txt", "w").write(f"line {f} a\nline {f} b\n")
        for i in range(W):
            os.mkdir(f"{tmp}/out{i}")
            d = tmp + "/in" if c["io"] else tmp
            m = MultiWorkersConverter(d, f"{tmp}/out{i}", object(), partition_count=P, worker_index=i, worker_count=W, thread_count=1)
            r = m.dispatcher
            ids = [r.k.get("partition_offset", 0) + q for q in range(r.parallel)]
            for p in ids:
                if not 0 <= p < P:
                    return f"worker {i} of {W} gets partition id {p} outside 0..{P-1}"
                if p in owners:
                    return f"partition {p} owned by workers {owners[p]} and {i} (P={P}, W={W})"
                owners[p] = i
            if c["io"]:
                m.convert()
                got_lines += r.lines
                if not ids and (os.listdir(f"{tmp}/out{i}") or r.lines):
                    return f"worker {i} without partitions wrote files or consumed input"
        missing = [p for p in range(P) if p not in owners]
        if missing:
            return f"partitions {missing[:5]} produced by no worker (P={P}, W={W})"
        if c["io"]:
            want = sorted(f"line {f} {x}" for f in range(nfiles) for x in "ab")
            if sorted(got_lines) != want:
                return f"input lines lost or duplicated with P={P}, W={W}: got {sorted(got_lines)} of {want}"
    finally:
        conv.PipeDispatcher = saved
        shutil.rmtree(tmp, ignore_errors=True)
    return None


def from_model(proof, ob, m):
    P, W = m.get("P"), m.get("W")
    if isinstance(P, int) and isinstance(W, int) and 1 <= P <= 3000 and 1 <= W <= 500:
        yield {"P": P, "W": W, "io": P * W <= 100}
