"""The real edge sampling and multi-hop expansion over random graphs."""
import numpy as np
from deepgnn.graph_engine import multihop
from deepgnn.graph_engine.graph_ops import sample_out_edges
import _graph

RULE = "random graphs of 1-8 nodes with 0-3 edges per node, 0-5 input nodes (repeats allowed), 0-3 hops with different types and counts, padding large enough or too small; non-trivial with 2+ hops and several nodes"


def cases(rng, tier):
    yield {"what": "out", "n": 3, "in": 3, "seed": 1, "hops": 1, "pad": 3}
    yield {"what": "fan", "n": 4, "in": 3, "seed": 1, "hops": 2, "pad": 3}
    yield {"what": "adj", "n": 4, "in": 3, "seed": 1, "hops": 2, "pad": 3}
    while True:
        yield {"what": rng.choice(["out", "fan", "adj", "adj"]), "n": rng.randrange(1, 9), "in": rng.randrange(0, 6), "hops": rng.randrange(0, 4), "pad": rng.randrange(0, 5), "seed": rng.randrange(10 ** 6)}


def trivial(c):
    return c["in"] < 2 or c["what"] != "out" and c["hops"] < 2


def from_model(proof, obligation, m):
    for w in ("out", "fan", "adj"):
        for h in range(0, 3):
            for s in range(4):
                yield {"what": w, "n": 5, "in": 4, "hops": h, "pad": 3, "seed": s}


def check(c):
    rng = np.random.RandomState(c["seed"])
    g = _graph.Graph(rng, c["n"], types=3)
    nodes = rng.choice(g.ids, size=c["in"]).astype(np.int64)
    return {"out": out, "fan": fan, "adj": adj}[c["what"]](c, rng, g, nodes)


def out(c, rng, g, nodes):
    n, k = len(nodes), int(rng.randint(0, 4))
    et = np.array([2, 0], np.int32)
    feats = rng.rand() < 0.5
    meta, dt = np.array([[0, 3]], np.int32), np.float32
    strat = str(rng.choice(["byweight", "topk", "random"]))
    e, f = sample_out_edges(g, nodes, et, k, strat, *((meta, dt) if feats else ()))
    s = [x for x in g.calls if x[0] == "sample"]
    if len(s) != 1 or not np.array_equal(s[0][1], nodes) or not np.array_equal(s[0][2], et) or s[0][3] != k or s[0][4] != strat:
        return f"out-edges of {nodes.tolist()}: requests {s}"
    nb, _, tp, _ = s[0][6]
    want = [[nodes[i], nb[i][t], tp[i][t]] for i in range(n) for t in range(k)]
    if e.shape != (n * k, 3) or e.tolist() != want:
        return f"out-edges of {nodes.tolist()}, {k} each: {e.tolist()} differs from {want}"
    fs = [x for x in g.calls if x[0] == "features"]
    if not feats:
        return None if f is None and not fs else "features without a request"
    if len(fs) != 1 or fs[0][1].tolist() != want or fs[0][2] is not meta or fs[0][3] is not dt or f is not fs[0][4]:
        return f"out-edges of {nodes.tolist()}: features requested for {[x[1].tolist() for x in fs]}, edges are {want}"


def fan(c, rng, g, nodes):
    et = [rng.randint(0, 4, size=rng.randint(1, 3)).tolist() for _ in range(c["hops"])]
    cnt = [int(rng.randint(0, 4)) for _ in range(c["hops"])]
    strat, default = str(rng.choice(["byweight", "topk", "random"])), int(rng.randint(-1, 5))
    ns, ws, ts = multihop.sample_fanout(g, nodes, et, cnt, default, strat)
    what = f"fan-out of {nodes.tolist()} with types {et}, counts {cnt}"
    if (len(ns), len(ws), len(ts), len(g.calls)) != (c["hops"] + 1, c["hops"], c["hops"], c["hops"]):
        return f"{what}: {len(ns)}, {len(ws)}, {len(ts)} results from {len(g.calls)} requests"
    if np.array(ns[0]).tolist() != nodes.tolist():
        return f"{what}: first result {ns[0].tolist()}"
    cur = nodes
    for h, x in enumerate(g.calls):
        if x[1].tolist() != cur.tolist() or x[2].tolist() != et[h] or x[3:6] != (cnt[h], strat, default):
            return f"{what}: hop {h} asked {x[1:6]}"
        cur = x[6][0].reshape(-1)
        if ns[h + 1].tolist() != cur.tolist() or ws[h].tolist() != x[6][1].reshape(-1).tolist() or ts[h].tolist() != x[6][2].reshape(-1).tolist():
            return f"{what}: result of hop {h} is not the flattened answer"


def adj(c, rng, g, nodes):
    et = [rng.choice(3, size=rng.randint(1, 4), replace=False).astype(np.int32) for _ in range(c["hops"])]
    M = c["pad"]
    what = f"neighbors of {nodes.tolist()}, types {[t.tolist() for t in et]}, padding {M}, edges {g.adj}"
    small, cur, pad = None, nodes, len(nodes)
    want = []
    for h in range(c["hops"]):
        es = [(i, e) for i, u in enumerate(cur) for e in g.edges(u, et[h])]
        if len(es) > M * pad:
            small = h
            break
        nxt = sorted({e[0] for _, e in es})
        want.append((len(cur), nxt, es, M * pad))
        cur, pad = nxt, M * pad
    try:
        nl, al = multihop.get_neighbor(g, nodes, et, M)
    except UserWarning as ex:
        return None if small is not None else f"{what}: refused although every hop fits: {ex}"
    if small is not None:
        return f"{what}: hop {small} does not fit and was not refused"
    if len(nl) != c["hops"] + 1 or len(al) != c["hops"]:
        return f"{what}: {len(nl)} node lists and {len(al)} adjacencies"
    if nl[0][0].tolist() != nodes.tolist() or nl[0][1].tolist() != [len(nodes)]:
        return f"{what}: first nodes {nl[0]}"
    for h, (n, nxt, es, p) in enumerate(want):
        v, ln = nl[h + 1]
        if v.tolist() != nxt + [0] * (p - len(nxt)) or np.array(ln).tolist() != [len(nxt)]:
            return f"{what}: nodes after hop {h} are {v.tolist()} ({ln}), expected {nxt} padded to {p}"
        ind, val, shape, cnt = al[h]
        rows = [[i, nxt.index(e[0])] for i, e in es] + [[0, 0]] * (p - len(es))
        ws = [e[2] for _, e in es] + [0.0] * (p - len(es))
        if np.array(ind).tolist() != rows or np.array(val).tolist() != ws or np.array(shape).tolist() != [n, len(nxt)] or np.array(cnt).tolist() != [len(es)]:
            return f"{what}: hop {h} adjacency {np.array(ind).tolist()} {np.array(val).tolist()} {np.array(shape).tolist()} {cnt}, expected {rows} {ws} {[n, len(nxt)]} {len(es)}"
