"""A small in-memory graph answering the requests of the client interface, for the graph operations."""
import numpy as np


class Graph:
    def __init__(self, rng, n, types=2, maxdeg=3, sort=True, far=False):
        ids = rng.choice(10 ** 6 if far else 3 * n + 1, size=n, replace=False).astype(np.int64)
        self.base = int(rng.choice([0, 0, 2 ** 32 - 2, 2 ** 60 + 1]))        # ids are 64-bit
        ids += self.base
        self.ids = np.array(ids, np.int64)
        self.adj = {int(u): [(int(rng.choice(ids)), int(rng.randint(types)), float(np.float32(rng.rand()))) for _ in range(rng.randint(0, maxdeg + 1))] for u in ids}
        self.calls = []
        self.rng = rng

    def edges(self, u, types):
        return [e for e in self.adj.get(int(u), []) if e[1] in [int(t) for t in np.atleast_1d(types)]]

    def neighbors(self, nodes, edge_types):
        nodes = np.array(nodes, np.int64)
        self.calls.append(("neighbors", nodes.copy(), np.array(edge_types)))
        es = [self.edges(u, edge_types) for u in nodes]
        flat = [e for l in es for e in l]
        return (np.array([e[0] for e in flat], np.uint64).astype(np.int64), np.array([e[2] for e in flat], np.float32), np.array([e[1] for e in flat], np.int32), np.array([len(l) for l in es], np.uint64))

    def sample_neighbors(self, nodes, edge_types, count=10, strategy="byweight", default_node=-1, **k):
        nodes = np.array(nodes, np.int64)
        shape = (len(nodes), count)
        r = (self.base + self.rng.randint(0, 10 ** 6, size=shape).astype(np.int64), self.rng.rand(*shape).astype(np.float32), self.rng.randint(0, 5, size=shape).astype(np.int32), np.zeros(shape, np.int32))
        self.calls.append(("sample", nodes.copy(), np.array(edge_types), count, strategy, default_node, r))
        return r

    def edge_features(self, edges, meta, dtype):
        f = self.rng.rand(len(edges), 3)
        self.calls.append(("features", np.array(edges).copy(), meta, dtype, f))
        return f
