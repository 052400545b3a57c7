"""Real dispatchers and convert() with worker functions that report chosen summaries in a chosen
order; and whole conversions with the real writers of random graphs."""
import json, os, shutil, tempfile, threading
import _command
import deepgnn.graph_engine.snark.dispatcher as disp
import deepgnn.graph_engine.snark.converter.process as proc
from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
from deepgnn.graph_engine.snark.decoders import JsonDecoder

RULE = "random sets of partition summaries with different type counts, every completion order for small sets, both dispatchers, skip flags; plus whole conversions; non-trivial with 2+ partitions"
FLAG = proc.FLAG_ALL_DONE


def summ(rng):
    nt, et = rng.choice([0, 1, 2, 3, 11]), rng.choice([0, 1, 2, 3, 11])
    far = rng.choice([0, 0, 0, 2 ** 60 + 1])
    return {"nc": [far + rng.randrange(0, 5) for _ in range(nt)], "ec": [far + rng.randrange(0, 5) for _ in range(et)],
            "nw": [rng.randrange(0, 9) / 2 for _ in range(nt)], "ew": [rng.randrange(0, 9) / 2 for _ in range(et)],
            "nf": rng.randrange(0, 3), "ef": rng.randrange(0, 3)}


def cases(rng, tier):
    import itertools
    for P in (1, 2, 3):
        for order in itertools.permutations(range(P)):
            for kind in ("pipe", "queue"):
                yield {"kind": kind, "sums": [summ(rng) for _ in range(P)], "order": list(order), "skn": rng.random() < .3, "ske": rng.random() < .3, "off": rng.randrange(3),
                       "wm": rng.choice([None, -1, 0, 7])}
    for skn, ske in ((False, False), (True, False), (False, True)):
        yield {"kind": "real", "P": 2, "n": 5, "seed": rng.randrange(10 ** 6), "skn": skn, "ske": ske, "wm": None, "command": True}
    # 10 and more partitions: ids of two digits
    yield {"kind": "pipe", "sums": [summ(rng) for _ in range(12)], "order": list(range(12))[::-1], "skn": False, "ske": False, "off": 0, "wm": None}
    while True:
        if rng.random() < .25:
            yield {"kind": "real", "P": rng.randrange(1, 4), "n": rng.randrange(0, 8), "seed": rng.randrange(10 ** 6), "skn": rng.random() < .3, "ske": rng.random() < .3, "wm": None}
            continue
        P = rng.randrange(1, 7)
        o = list(range(P))
        rng.shuffle(o)
        yield {"kind": rng.choice(["pipe", "queue"]), "sums": [summ(rng) for _ in range(P)], "order": o, "skn": rng.random() < .3, "ske": rng.random() < .3,
               "off": rng.randrange(3), "wm": rng.choice([None, -1, 0, 7])}


def trivial(c):
    return c.get("P", len(c.get("sums", []))) < 2


def check(c):
    tmp = tempfile.mkdtemp(prefix="c09_")
    os.mkdir(tmp + "/out")
    box = {}

    def run():
        try:
            box["v"] = (real if c["kind"] == "real" else stub)(c, tmp)
        except BaseException as e:
            box["e"] = e
    try:
        t = threading.Thread(target=run, daemon=True)
        t.start()
        t.join(40)
        if t.is_alive():
            return f"conversion hangs {c}"
        if "e" in box:
            raise box["e"]
        return box["v"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def expect(parts, out, c, wm):
    """parts: id -> summary"""
    if not os.path.exists(out + "/meta.json"):
        return f"no metadata written, only {sorted(os.listdir(out))}"
    m = json.load(open(out + "/meta.json"))
    nt = max([len(s["nc"]) for s in parts.values()], default=0)
    et = max([len(s["ec"]) for s in parts.values()], default=0)
    pad = lambda l, n: list(l) + [0] * (n - len(l))
    col = lambda k, n: [sum(pad(s[k], n)[i] for s in parts.values()) for i in range(n)]
    want = {"node_count": sum(sum(s["nc"]) for s in parts.values()), "edge_count": sum(sum(s["ec"]) for s in parts.values()),
            "node_type_count": nt, "edge_type_count": et,
            "node_feature_count": max([s["nf"] for s in parts.values()], default=0), "edge_feature_count": max([s["ef"] for s in parts.values()], default=0),
            "node_count_per_type": col("nc", nt), "edge_count_per_type": col("ec", et), "watermark": -1 if wm is None else wm}
    for k, v in want.items():
        if m.get(k) != v:
            return f"metadata {k} is {m.get(k)}, partitions give {v}"
    got = {int(k): v for k, v in m["partitions"].items()}
    if set(got) != set(parts):
        return f"partitions listed {sorted(got)} expected {sorted(parts)}"
    for i, s in parts.items():
        if got[i]["node_weight"] != pad(s["nw"], nt) or got[i]["edge_weight"] != pad(s["ew"], et):
            return f"partition {i} weights {got[i]} expected {pad(s['nw'], nt)} {pad(s['ew'], et)}"
    return nt, et


def stub(c, tmp):
    sums, P = c["sums"], len(c["sums"])
    off = c["off"]
    turn, cv = [0], threading.Condition()

    def worker(q_in, q_out, folder, suffix, decoder, sn, se, wm):
        while True:
            x = q_in.recv() if hasattr(q_in, "recv") else q_in.get()
            if x == FLAG:
                break
        i = suffix - off
        s = sums[i]
        with cv:
            cv.wait_for(lambda: c["order"][turn[0]] == i, 30)
            q_out.put((proc.FLAG_WORKER_FINISHED_PROCESSING, {
                "node_count": sum(s["nc"]), "edge_count": sum(s["ec"]), "node_type_count": len(s["nc"]), "edge_type_count": len(s["ec"]),
                "node_feature_count": s["nf"], "edge_feature_count": s["ef"],
                "partition": {"id": suffix, "node_weight": list(s["nw"]), "node_type_count": list(s["nc"]), "edge_weight": list(s["ew"]), "edge_type_count": list(s["ec"])}}))
            turn[0] += 1
            cv.notify_all()
    kw = dict(process=worker, use_threads=True)
    kw.update({k: v for k, v in dict(partition_offset=off, skip_node_sampler=c["skn"], skip_edge_sampler=c["ske"]).items() if v})   # others by default
    out = tmp + "/out"
    if c["kind"] == "pipe":
        d = disp.PipeDispatcher(out, P, None, **kw)
    else:
        d = disp.QueueDispatcher(out, P, lambda l: int(l), None, **kw)
    m = MultiWorkersConverter(tmp, out, object(), partition_count=P, dispatcher=d, file_iterator=[[str(i) for i in range(P)]], watermark=c["wm"])
    m.convert()
    r = expect({off + i: s for i, s in enumerate(sums)}, out, c, c["wm"])
    if isinstance(r, str):
        return r
    nt, et = r
    want = set()
    for i, s in enumerate(sums):
        if not c["skn"]:
            want |= {("node", t, off + i) for t in range(len(s["nc"]), nt)}
        if not c["ske"]:
            want |= {("edge", t, off + i) for t in range(len(s["ec"]), et)}
    return files(out, want)


def files(out, want):
    have = {f for f in os.listdir(out) if f.endswith(".alias")}
    names = {f"{k}_{t}_{p}.alias" for k, t, p in want}
    if have != names:
        return f"sampler files: missing {sorted(names - have)[:4]}, unexpected {sorted(have - names)[:4]}"
    return None


def real(c, tmp):
    import random
    rng = random.Random(c["seed"])
    lines, parts = [], {}
    P = c["P"]
    for i in range(P):
        parts[i] = {"nc": [], "ec": [], "nw": [], "ew": [], "nf": 0, "ef": 0}

    def bump(l, t, v):
        while len(l) <= t:
            l.append(0)
        l[t] += v
    for i in range(c["n"]):
        s = parts[i % P]
        ty, w = rng.randrange(0, 4), rng.randrange(1, 9) / 2
        es = []
        for _ in range(rng.randrange(0, 4)):
            et, ew = rng.randrange(0, 3), rng.randrange(1, 9) / 2
            es.append({"src_id": i, "dst_id": rng.randrange(20), "edge_type": et, "weight": ew})
            bump(s["ec"], et, 1)
            bump(s["ew"], et, ew)
        lines.append(json.dumps({"node_id": i, "node_type": ty, "node_weight": w, "edge": es}))
        bump(s["nc"], ty, 1)
        bump(s["nw"], ty, w)
    out = tmp + "/out"
    if c.get("command"):
        with open(tmp + "/g.json", "w") as f:
            f.write("".join(l + "\n" for l in lines))
        _command.convert("-d", tmp + "/g.json", "-p", P, "-o", out, *(["--skip_node_sampler", "1"] if c["skn"] else []), *(["--skip_edge_sampler", "1"] if c["ske"] else []))
        return outcome(c, parts, out)
    m = MultiWorkersConverter(tmp, out, JsonDecoder(), partition_count=P, debug=P == 1 and not c["skn"] and not c["ske"] and c["seed"] % 2 == 0, file_iterator=[lines], watermark=c["wm"], skip_node_sampler=c["skn"], skip_edge_sampler=c["ske"])
    m.convert()
    return outcome(c, parts, out)


def outcome(c, parts, out):
    r = expect(parts, out, c, c["wm"])
    if isinstance(r, str):
        return r
    nt, et = r
    want = set()
    if not c["skn"]:
        want |= {("node", t, p) for t in range(nt) for p in parts}
    if not c["ske"]:
        want |= {("edge", t, p) for t in range(et) for p in parts}
    return files(out, want)
