"""The real sampler on random directed graphs, with seeded generators."""
import random, threading
import networkx as nx
import numpy as np
from deepgnn.graph_engine.snark.preprocess.sampler.forest_fire import forest_fire

RULE = "random directed graphs of 1-14 nodes (self edges, isolated nodes, non-integer labels), sizes from 0 to the number of connected nodes; non-trivial with size 2+"


def cases(rng, tier):
    for p in (.02, .3):
        yield {"n": 60, "p": p, "seed": 4, "size": .8, "labels": False, "self": True}
    while True:
        yield {"n": rng.randrange(1, 15), "p": rng.choice([.05, .15, .3, .6, 1.]), "seed": rng.randrange(10 ** 6), "size": rng.random(), "labels": rng.random() < .2, "self": rng.random() < .3}


def trivial(c):
    return c["n"] < 3 or c["size"] * c["n"] < 2


def graph(c):
    r = random.Random(c["seed"])
    g = nx.DiGraph()
    name = (lambda i: f"n{i}") if c["labels"] else (lambda i: i * 3)
    for i in range(c["n"]):
        g.add_node(name(i), weight=i)
    for i in range(c["n"]):
        for j in range(c["n"]):
            if (i != j or c["self"]) and r.random() < c["p"]:
                g.add_edge(name(i), name(j), weight=i + j)
    return g


def content(g):
    """nodes, edges and attributes, in order"""
    return repr((g.graph, list(g.nodes(data=True)), list(g.edges(data=True)), {n: list(g.predecessors(n)) for n in g}))


def run(g, size, out):
    try:
        out.append(forest_fire(g, size))
    except Exception as e:
        out.append(e)


def check(c):
    g = graph(c)
    connected = {x for e in g.edges() for x in e}
    size = round(c["size"] * len(connected))
    before = content(g)
    random.seed(c["seed"])
    np.random.seed(c["seed"])
    out = []
    t = threading.Thread(target=run, args=(g, size, out), daemon=True)
    t.start()
    t.join(30)
    if t.is_alive():
        return f"no sample of {size} nodes although {len(connected)} nodes have edges"
    s = out[0]
    if isinstance(s, Exception):
        raise s
    if content(g) != before:
        return "the input graph was changed"
    bad = [x for x in s.nodes() if x not in g] + [e for e in s.edges() if not g.has_edge(*e)]
    if bad:
        return f"{bad[0]} is not in the input graph"
    if not s.is_directed():
        return "the sample is not directed"
    m = s.number_of_nodes()
    if m < size or m > size + 1:
        return f"{m} nodes in a sample of {size}"
    if s is g:
        return "the sample is the input graph"
    return None
