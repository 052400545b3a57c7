"""The real subgraph extraction over random graphs, against a plain breadth-first search."""
import numpy as np
from deepgnn.graph_engine.graph_ops import sub_graph
import _graph

RULE = "random graphs of 1-8 nodes with 0-3 edges per node (self edges and repeated edges included), 0-5 seeds (repeats allowed), 1-4 hops, all options; non-trivial with 2+ hops and an edge"


def cases(rng, tier):
    for se in (0, 1):
        for un in (0, 1):
            for ed in (0, 1):
                yield {"n": 4, "in": 2, "hops": 2, "seed": 3, "loop": se, "und": un, "edges": ed, "deg": 3}
    while True:
        yield {"n": rng.randrange(1, 9), "in": rng.randrange(0, 6), "hops": rng.choice([1, 1, 2, 2, 3, 4]), "seed": rng.randrange(10 ** 6), "loop": rng.randrange(2), "und": rng.randrange(2), "edges": rng.randrange(2), "deg": rng.choice([1, 2, 3])}


def from_model(proof, obligation, m):
    for h in (1, 2, 3):
        for s in range(3):
            for o in range(8):
                yield {"n": 5, "in": 3, "hops": h, "seed": s, "loop": o & 1, "und": o >> 1 & 1, "edges": o >> 2, "deg": 2}


def trivial(c):
    return c["hops"] < 2 or c["in"] == 0


def check(c):
    rng = np.random.RandomState(c["seed"])
    g = _graph.Graph(rng, c["n"], types=2, maxdeg=c["deg"])
    seeds = rng.choice(g.ids, size=c["in"]).astype(np.int64)
    types = [np.array([0, 1], np.int32), np.array([1], np.int32)][rng.randint(2)]
    before = seeds.copy()
    nodes, res, idx = sub_graph(g, seeds, types, num_hops=c["hops"], self_loop=bool(c["loop"]), undirected=bool(c["und"]), return_edges=bool(c["edges"]))
    if not np.array_equal(before, seeds):
        return "the seeds were changed"
    near = reach = set(int(x) for x in seeds)
    for i in range(c["hops"]):
        near = reach
        reach = near | {e[0] for u in near for e in g.edges(u, types)}
    nodes = [int(x) for x in nodes]
    if len(set(nodes)) != len(nodes) or set(nodes) != reach:
        return f"nodes {nodes}, expected each of {sorted(reach)} once"
    if [nodes[int(i)] for i in idx] != [int(x) for x in before]:
        return f"seed positions {list(idx)} do not point at {list(before)}"
    edges = sorted((u, e[0]) for u in near for e in g.edges(u, types))
    want = set(edges)
    if c["und"]:
        want |= {(v, u) for u, v in want}
    if c["loop"]:
        want |= {(u, u) for u in reach}
    if c["edges"]:
        if np.shape(res)[1:] != (2,):
            return f"edge list of shape {np.shape(res)}"
        got = sorted((nodes[int(a)], nodes[int(b)]) for a, b in res)
        exp = sorted(want) if c["und"] or c["loop"] else edges
        if got != exp:
            return f"edges {got[:8]}, expected {exp[:8]}"
    else:
        if np.shape(res) != (len(nodes), len(nodes)):
            return f"adjacency of shape {np.shape(res)}"
        for a, u in enumerate(nodes):
            for b, v in enumerate(nodes):
                if res[a, b] != ((u, v) in want):
                    return f"adjacency of {u} and {v} is {res[a, b]}, expected {int((u, v) in want)}"
    return None
