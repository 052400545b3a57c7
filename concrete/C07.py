"""Edge lifetimes read back from the real files."""
from _part import *
import _command

RULE = "temporal and plain record sequences, edges with own or missing times, zero times, sources with and without node record, many add calls, some edges outside the lifetime of their source; the conversion command with and without a watermark; non-trivial with an edge"


def cases(rng, tier):
    E = []
    yield {"batches": [[[1, -1, 0, 1., 0, 10, []], [1, 2, 0, 1., 0, 0, []]]], "wm": 20}
    yield {"batches": [[[1, -1, 0, 1., 3, 10, []]], [[1, 2, 0, 1., None, None, []]], [[1, 3, 1, 1., 5, 7, []]]], "wm": 20}
    yield {"batches": [[[1, -1, 0, 1., 3, 10, []], [2, 5, 0, 1., None, None, []]]], "wm": 0}
    for wm in (None, -1, 0, 20):
        yield {"command": wm, "times": wm is not None and wm >= 0, "batches": [[[1, -1, 0, 1., None, None, []], [1, 2, 0, 1., None, None, []]]]}
    i = 0
    while True:
        i += 1
        c = mkcase(rng, i % 8 != 0, False)
        es = [r for b in c["batches"] for r in b if r[1] != -1]
        if es and i % 3 == 0:
            e = rng.choice(es)
            if rng.random() < .5:
                e[4] = rng.choice([-1, 0, 1, 2, 11])
            else:
                e[5] = rng.choice([0, 1, 10, 11, 30])
        yield c


def trivial(c):
    return not any(r[1] != -1 for b in c["batches"] for r in b)


def command(c):
    tmp = tempfile.mkdtemp(prefix="part_")
    try:
        os.mkdir(tmp + "/out")
        with open(tmp + "/g.json", "w") as f:
            t = {"created_at": 2, "removed_at": 9} if c["times"] else {}
            f.write(json.dumps(dict(t, node_id=1, node_type=0, node_weight=1., edge=[{"src_id": 1, "dst_id": 2, "edge_type": 0, "weight": 1.}])) + "\n")
        _command.convert("-d", tmp + "/g.json", "-p", 1, "-o", tmp + "/out", *(["--watermark", c["command"]] if c["command"] is not None else []))
        p = Part(tmp + "/out", 0)
        m = json.loads(p.raw["meta.json"])["watermark"]
        if not c["times"]:
            return None if p.times is None and m == -1 else f"converted without watermark: times {p.times}, watermark {m}"
        if p.times != [(2, 9)] or p.watermark != c["command"] or m != c["command"]:
            return f"converted with watermark {c['command']}: times {p.times}, watermarks {p.watermark} and {m}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(c):
    if "command" in c:
        return command(c)
    recs = [r for b in c["batches"] for r in b]
    life, prev, want, bad, odd = (0, -1), None, [], False, False
    for r in recs:
        if r[1] == -1:
            life = (0 if r[4] is None else r[4], -1 if r[5] is None else r[5])
        else:
            if prev != r[0]:
                life = (0, -1)
            if r[4] is not None and r[4] < life[0]:
                bad = True
            if r[5] is not None and life[1] != -1 and r[5] > life[1]:
                bad = True
            if r[5] == -1 and life[1] != -1:
                odd = True
            want.append((life[0] if r[4] is None else r[4], life[1] if r[5] is None else r[5]))
        prev = r[0]
    try:
        p, w = write(c)
    except AssertionError as e:
        return None if bad or odd else f"valid edges refused: {e!r}"
    if bad:
        return "an edge outside the lifetime of its source node was accepted"
    if c["wm"] is None:
        return None if p.times is None else "times written for a graph without watermark"
    if p.times is None:
        return "no time file for a temporal graph"
    if p.watermark != c["wm"]:
        return f"watermark {p.watermark}, given {c['wm']}"
    if p.times != want:
        return f"edge times {p.times}, expected {want}"
