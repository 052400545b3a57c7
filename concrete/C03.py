"""Real dispatchers with threads and recording worker functions; the real worker
function with a recording partition writer."""
import os, shutil, tempfile, threading, queue
import multiprocessing as mp
import deepgnn.graph_engine.snark.dispatcher as disp
import deepgnn.graph_engine.snark.converter.process as proc
import deepgnn.graph_engine.snark.converter.writers as writers

RULE = "every worker count to 5 and record count to 12 for both dispatchers, then random; plus the worker loop on both channel kinds; non-trivial when at least one record"
FLAG = proc.FLAG_ALL_DONE


class Timeout(Exception):
    pass


def limited(fn, secs=20):
    """run fn in a thread; hanging is a failure"""
    out = {}

    def run():
        try:
            out["v"] = fn()
        except BaseException as e:
            out["e"] = e
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(secs)
    if t.is_alive():
        raise Timeout()
    if "e" in out:
        raise out["e"]
    return out["v"]


def cases(rng, tier):
    for P in range(1, 5):
        for n in (0, 1, 2, 3, 5, 8, 12):
            for kind in ("pipe", "queue"):
                yield {"kind": kind, "P": P, "n": n, "off": (P * 3 + n) % 4, "route": [(i * i + n) % P for i in range(n)]}
        for ch in ("pipe", "queue"):
            for text in (0, 1, 2):
                yield {"kind": "worker", "ch": ch, "n": P * 2 - 2, "route": [], "text": text}
        for kind in ("pipe", "queue"):
            for text in (1, 2):
                yield {"kind": kind, "P": P, "n": 9, "off": 1, "route": [i % P for i in range(9)], "text": text}
    for P in range(1, 6):
        yield {"kind": "pipe", "P": P, "n": 1003 * P, "off": 0, "route": []}
    yield {"kind": "queue", "P": 3, "n": 2100, "off": 1, "route": [i % 3 for i in range(2100)]}
    while True:
        k = rng.choice(["pipe", "queue", "worker"])
        P, n = rng.randrange(1, 7), rng.randrange(0, 40)
        yield {"kind": k, "P": P, "n": n, "off": rng.randrange(0, 9), "ch": rng.choice(["pipe", "queue"]), "route": [rng.randrange(P) for _ in range(n)], "text": rng.choice([0, 0, 1, 2])}


def records(c):
    """distinct records, records that repeat, or records with an empty one and ones that contain the end marker"""
    k = c.get("text", 0)
    r = [f"rec{i // 2 if k == 1 else i}" for i in range(c["n"])]
    if k == 2 and r:
        for i, x in ((0, f"{FLAG} 1"), (len(r) // 2, ""), (len(r) - 1, f"x{FLAG}")):
            r[i] = x
    return r


def nonempty(l):
    return [x for x in l if x]


def trivial(c):
    return c["n"] == 0


def blank(suffix):
    return {"node_count": 1, "edge_count": 2, "node_type_count": 0, "edge_type_count": 0, "node_feature_count": 0, "edge_feature_count": 0,
            "partition": {"id": suffix, "node_weight": [], "node_type_count": [], "edge_weight": [], "edge_type_count": []}}


def check(c):
    try:
        return limited(lambda: (check_worker if c["kind"] == "worker" else check_disp)(c))
    except Timeout:
        return f"conversion hangs: {c}"


def check_disp(c):
    P, off = c["P"], c["off"]
    got, extra, lock = {}, [], threading.Lock()
    tmp = tempfile.mkdtemp(prefix="c03_")

    def worker(q_in, q_out, folder, suffix, decoder, sn, se, wm):
        rec = []
        while True:
            x = q_in.recv() if hasattr(q_in, "recv") else q_in.get()
            if x == FLAG:
                break
            rec.append(x)
        with lock:
            if suffix in got:
                extra.append(f"two workers for partition {suffix}")
            got[suffix] = rec
        # anything after the marker?
        if hasattr(q_in, "poll"):
            if q_in.poll(0):
                extra.append(f"message after the marker for partition {suffix}: {q_in.recv()}")
        q_out.put((proc.FLAG_WORKER_FINISHED_PROCESSING, blank(suffix)))
    lines = records(c)
    route = dict(zip(lines, c["route"]))
    first = {x: i for i, x in reversed(list(enumerate(lines)))}
    try:
        if c["kind"] == "pipe":
            d = disp.PipeDispatcher(tmp, P, None, process=worker, use_threads=True, **({"partition_offset": off} if off else {}))
        else:
            d = disp.QueueDispatcher(tmp, P, lambda l: route[l], None, process=worker, use_threads=True, **({"partition_offset": off} if off else {}))
        for l in lines:
            d.dispatch(l)
        d.join()
        must = set(range(off, off + P)) if c["kind"] == "pipe" else {off + r for x, r in route.items() if x}
        if not must <= set(got) or set(got) - must - {off + route[x] for x in lines if not x and route}:
            return f"workers that finished: {sorted(got)}, expected {sorted(must)}"
        if extra:
            return "; ".join(extra)
        allrec = sorted(x for r in got.values() for x in nonempty(r))
        if allrec != sorted(nonempty(lines)):
            return f"records delivered {allrec} differ from records dispatched {sorted(lines)}"
        for s, r in got.items():
            idx = [first[x] for x in nonempty(r)]
            if idx != sorted(idx):
                return f"partition {s} got records out of order: {idx}"
            if c["kind"] == "queue" and any(route[x] + off != s for x in r):
                return f"partition {s} got records of another partition"
        if d.prop("node_count") != len(got) or len(d.prop("partitions")) != len(got):
            return f"{len(got)} workers reported, dispatcher counted {d.prop('node_count')} / {len(d.prop('partitions'))}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_worker(c):
    log = []

    class W:
        def __init__(self, folder, suffix, *a, **k):
            log.append(("open", suffix))
            self.node_count = self.edge_count = self.node_type_num = self.edge_type_num = 0
            self.node_feature_count = self.edge_feature_count = 0
            self.node_weight, self.node_type_count, self.edge_weight, self.edge_type_count = [], [], [], []

        def add(self, x):
            log.append(("add", x))
            self.node_count += 1

        def close(self):
            log.append(("close",))

    class Dec:
        def decode(self, line):
            return ("decoded", line)

    class Out:
        def put(self, x):
            log.append(("put", x[0], x[1]["node_count"], x[1]["partition"]["id"]))
    lines = records(c)
    if c["ch"] == "pipe":
        r, w = mp.Pipe(False)
        send, q = w.send, r
    else:
        q = queue.Queue()
        send = q.put
    for l in lines + [FLAG]:
        send(l)
    saved = writers.BinaryWriter
    writers.BinaryWriter = W
    try:
        proc.converter_process(q, Out(), "folder", 7, Dec(), False, False, None)
    finally:
        writers.BinaryWriter = saved
    # an empty record may be left out, the others may not
    if not any(x == ("add", ("decoded", "")) for x in log):
        lines = nonempty(lines)
    want = [("open", 7)] + [("add", ("decoded", l)) for l in lines] + [("close",), ("put", proc.FLAG_WORKER_FINISHED_PROCESSING, len(lines), 7)]
    if log != want:
        return f"worker steps {log} expected {want}"


def from_model(proof, ob, m):
    P, t = m.get("P"), m.get("t", 0)
    if isinstance(P, int) and isinstance(t, int) and 1 <= P <= 60 and 0 <= t <= 5000:
        yield {"kind": "pipe", "P": P, "n": t + 2, "off": 0, "route": []}
        part = m.get("part", 0)
        part = part if isinstance(part, int) and 0 <= part < P else 0
        yield {"kind": "queue", "P": P, "n": t + 1, "off": 0, "route": [P - 1 - part] * t + [part]}
