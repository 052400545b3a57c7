"""C28: sampled edges and multi-hop expansion keep source-neighbor alignment."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for every number of nodes, neighbors per node, hops and edge types and every engine answer."
ASSUMPTIONS = ["the graph answers with one row of neighbors, weights and types per node (C20)", "edge types fit into 32 bits"]
OPS, MH = GE + "graph_ops:", GE + "multihop:"


class Graph:
    """records requests; answers are arbitrary arrays of the documented shape"""

    def m_sample_neighbors(it, o, nodes=None, edge_types=None, count=None, strategy="byweight", default_node=-1, **k):
        return it.ctx.ghost["%answer"](it, nodes, edge_types, count, strategy, default_node)

    def m_edge_features(it, o, edges, meta, dtype):
        return it.ctx.ghost["%features"](it, edges, meta, dtype)

    def m_neighbors(it, o, nodes, edge_types):
        return it.ctx.ghost["%neighbors"](it, nodes, edge_types)


def setup(world):
    world.kinds["graph"] = Graph


@proof("sampled out-edges")
def p_out(c, it):
    n, m = c.int("n", lo=0), c.int("count", lo=0)
    nodes = c.iarr("nodes", n)
    et = c.iarr("etypes", c.int("ne", lo=0))
    nb, tp = c.iarr("neighbors", n, m), c.iarr("types", n, m, dtype="int32")
    strat = c.atom("str", "strategy")
    asked = []

    def answer(it, a, b, cc, s, d):
        asked.append((a, b, cc, s))
        w = NArr((n, m), lambda i, j: 0, "float32")
        return (nb, w, tp, NArr((n, m), lambda i, j: -1, "int64"))
    feats = []

    def features(it, e, meta, dt):
        feats.append((e, e.fn, meta, dt))
        return c.ghost["%feat"]
    c.ghost.update({"%answer": answer, "%features": features, "%feat": c.atom("feature", "feature")})
    want = c.choose(2) == 1
    meta, dt = c.atom("meta", "meta"), c.atom("dtype", "D")
    kw = dict(sampling_strategy=strat)
    if want:
        kw.update(edge_feature_meta=meta, edge_feature_type=dt)
    g = c.reg(Ext("graph"))
    e, f = it.force(it.call(it.get(OPS + "sample_out_edges"), [g, nodes, et, m], kw))
    c.oblige("one request for these nodes, types and count", len(asked) == 1 and And(asked[0][0] is nodes, asked[0][1] is et, eqv(asked[0][2], m), eqv(asked[0][3], strat)))
    i, t = c.int("i", lo=0), c.int("t", lo=0)
    c.assume(And(i < n, t < m))
    c.assume(i * m + t < n * m)
    row = i * m + t
    # row i*m+t lies in row i of the request
    q, r = c.divmod(row, m)
    c.oblige("shape", len(e.shape) == 2 and And(eqv(e.shape[0], n * m), eqv(e.shape[1], 3)))
    c.oblige("source", eqv(snap(e)(row, 0), nodes.fn(i)))
    c.oblige("neighbor", eqv(snap(e)(row, 1), nb.fn(i, t)))
    c.oblige("edge type", eqv(snap(e)(row, 2), tp.fn(i, t)))
    if not want:
        c.oblige("no features", f is None and not feats)
    else:
        c.oblige("features of exactly these edges", len(feats) == 1 and feats[0][0] is e and feats[0][2] is meta and feats[0][3] is dt and f is c.ghost["%feat"])
        if feats and feats[0][0] is e:
            c.oblige("edges complete when features are requested", eqv(feats[0][1](row, 1), nb.fn(i, t)))


# ---------------------------------------------------------------- several hops
INTS = z3.IntSort()


def hops(c, it):
    h = c.int("hops", lo=0)
    cnt, ne = c.func("count", "int", "int"), c.func("ne", "int", "int")
    et = c.holds(c.func("etype", "int", "int", "int"), "int32")
    c.assume(ForAll(1, lambda i: And(cnt(i) >= 0, ne(i) >= 0)))
    return h, cnt, ne, et


def fan(L):
    c, g = L.c, L.ghost["%fan"]
    g["hop"] = L.k
    F, W, T, size = g["F"], g["W"], g["T"], g["size"]
    k = to_z(L.k)
    size(k + 1)
    r = []
    for nm, fn, first in (("neighbors_list", F, 0), ("weights_list", W, 1), ("types_list", T, 1)):
        if not L.has(nm):
            continue
        l = getattr(L, nm)
        at = lambda h, l=l: lget(l, h)
        r.append((f"{nm}: one entry per hop", eqv(l.length(), k + 1 - first)))
        if isinstance(l, VList) and l.items is not None and not l.items:
            continue
        H = g["H"]
        x = g["x"]
        for hh in ([H] if first else [H, k]):
            lo = And(0 <= hh - first if False else 0 <= hh, hh <= k - first)
            a = at(hh)
            r.append((f"{nm}: shape", Implies(lo, And(len(a.shape) == 1, eqv(a.shape[0], g["SZ"](hh + first))))))
            r.append((f"{nm}: contents", Implies(And(lo, inrange(0, x, g["SZ"](hh + first))), eqv(a.fn(x), fn(hh + first, x)))))
    return r


A1 = ("arrof", (None,), "int64", "int")


@proof("sampled fan-out", loops=[LoopSpec("hops", fan, types={"L:neighbors_list/contents": A1, "L:weights_list/contents": ("arrof", (None,), "float32", "real"), "L:types_list/contents": ("arrof", (None,), "int32", "int")})])
def p_fan(c, it):
    n, (h, cnt, ne, et) = c.int("n", lo=0), hops(c, it)
    two = c.choose(2) == 1
    nodes = c.iarr("nodes", n)
    if two:
        nodes = c.iarr("nodes2", n, 2)
    F, W, T = (z3.Function(f"answer.{x}", INTS, INTS, z3.RealSort() if x == "weight" else INTS) for x in ("neighbor", "weight", "type"))
    SZ = z3.Function("size", INTS, INTS)
    c.assume(SZ(0) == (n * 2 if two else n))

    def size(k):
        c.assume(Implies(k >= 1, SZ(k) == SZ(k - 1) * cnt(k - 1)))
        c.assume(SZ(k - 1) >= 0)
    x, H = c.int("x", lo=0), c.int("H", lo=0)
    size(H + 1)
    c.assume(ForAll(1, lambda j: Implies(j >= 0, F(0, j) == (nodes.fn(j / 2, j % 2) if two else nodes.fn(j)))))
    dn, strat = c.int("default"), c.atom("str", "strategy")
    g = {"hop": None, "F": F, "W": W, "T": T, "SZ": SZ, "size": size, "H": H, "x": x}
    c.ghost["%fan"] = Box(g)

    def answer(it, a, b, m, s, d):
        k = to_z(g["hop"])
        a, b = it.force(a), it.force(b)
        c.oblige("samples from the nodes of the previous hop", And(len(a.shape) == 1, eqv(a.shape[0], SZ(k)), Implies(inrange(0, x, SZ(k)), eqv(snap(a)(x), F(k, x)))))
        y = c.fresh_int("y")
        c.oblige("this hop's edge types", And(len(b.shape) == 1, eqv(b.shape[0], ne(k)), Implies(inrange(0, y, ne(k)), eqv(snap(b)(y), et(k, y)))))
        c.oblige("this hop's count and the caller's options", And(eqv(m, cnt(k)), eqv(s, strat), eqv(d, dn)))
        m = to_z(m)
        size(k + 1)
        mk = lambda fn, dt: NArr((SZ(k), m), lambda i, t, fn=fn: fn(k + 1, to_z(i) * m + to_z(t)), dt)
        return (mk(F, "int64"), mk(W, "float32"), mk(T, "int32"), mk(lambda i, j: -1, "int64"))
    c.ghost["%answer"] = answer
    meta = c.reg(VList(n=h, fn=lambda i: VList(n=ne(to_z(i)), fn=lambda j, i=i: et(to_z(i), to_z(j)))))
    fans = c.reg(VList(n=h, fn=lambda i: cnt(to_z(i))))
    r = it.force(it.call(it.get(MH + "sample_fanout"), [c.reg(Ext("graph")), nodes, meta, fans, dn, strat]))
    c.oblige("results per hop", And(eqv(r[0].length(), h + 1), eqv(r[1].length(), h), eqv(r[2].length(), h)))
    for l, fn, first in ((r[0], F, 0), (r[1], W, 1), (r[2], T, 1)):
        if isinstance(l, VList) and l.items is not None and not l.items:
            continue
        a = lget(l, H)
        ok = H < h + 1 - first
        c.oblige("size is the input size times the counts so far", Implies(ok, And(len(a.shape) == 1, eqv(a.shape[0], SZ(H + first)))))
        c.oblige("the engine's answers in order", Implies(And(ok, inrange(0, x, SZ(H + first))), eqv(a.fn(x), fn(H + first, x))))


class Box:
    """python-side ghost shared by reference"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v


# ---------------------------------------------------------------- full neighborhoods
class Answer:
    """engine's neighbors of n nodes: counts, and neighbors and weights back to back"""

    def __init__(self, c, n, tag=""):
        self.n = n
        self.cnt = c.func("cnt" + tag, "int", "int")
        self.nb, self.w = c.func("nb" + tag, "int", "int"), c.func("w" + tag, "int", "real")
        c.assume(ForAll(1, lambda i: self.cnt(i) >= 0))
        self.S = sumfn(c, lambda i: self.cnt(i))
        self.total = self.S(to_z(n))
        c.assume(self.total >= 0)      # sum of non-negative counts

    def result(self):
        return (NArr((self.total,), lambda i: self.nb(to_z(i)), "int64"), NArr((self.total,), lambda i: self.w(to_z(i)), "float32"), NArr((self.total,), lambda i: 0, "int32"),
                NArr((self.n,), lambda i: self.cnt(to_z(i)), "uint64"))


def blocks(L):
    if not L.has("blocks"):
        return []
    a, l = L.ghost["%a"], L.blocks
    r = [("one block per node", eqv(l.length(), L.k))]
    if l.items is not None and not l.items:
        return r

    def ok(i):
        b = lget(l, i)
        return And(eqv(b.shape[0], a.cnt(i)), ForAll(1, lambda t: Implies(inrange(0, t, a.cnt(i)), And(eqv(b.fn(t, 0), i), eqv(b.fn(t, 1), t)))))
    i = z3.Int("!blk")
    r.append(("every block lists its node with each neighbor", z3.ForAll([i], to_z(Implies(inrange(0, i, L.k), ok(i))))))
    return r


@proof("neighbors of every node", loops=[LoopSpec("nodes", blocks, types={"L:blocks/contents": ("arrof", (None, 2), "int64", "int")})])
def p_full(c, it):
    n = c.int("n", lo=0)
    nodes = c.iarr("nodes", n)
    et = c.iarr("etypes", c.int("ne", lo=0), dtype="int32")
    a = Answer(c, n)
    c.ghost["%a"] = a
    asked = []

    def neighbors(it, x, y):
        asked.append((x, y))
        return a.result()
    c.ghost["%neighbors"] = neighbors
    r = it.force(it.call(it.get(MH + "_full_neighbor"), [c.reg(Ext("graph")), nodes, et]))
    if not asked:
        c.oblige("nothing asked only without nodes", n == 0)
        c.oblige("empty result", And(*[eqv(x.shape[0], 0) for x in r], len(r[2].shape) == 2, eqv(r[2].shape[1], 2)))
        return
    c.oblige("one request for these nodes and types", And(len(asked) == 1, asked[0][0] is nodes, asked[0][1] is et))
    S, ln, at, m = [e[1](z3.IntVal(0))[0] for e in it.enums() if e[0] == "concat"][-1]
    k, i, t = c.fresh_int("k"), c.int("i", lo=0), c.int("t", lo=0)
    c.oblige("lemma step: blocks are as long as the counts", Implies(And(inrange(0, k, n), S(k) == a.S(k)), S(k + 1) == a.S(k + 1)))
    c.oblige("lemma base", And(eqv(S(z3.IntVal(0)), a.S(z3.IntVal(0))), eqv(m, n)))
    c.assume(ForAll(1, lambda j: Implies(inrange(0, j, n + 1), S(j) == a.S(j))))
    c.assume(And(i < n, t < a.cnt(i)))
    row = a.S(i) + t
    grow(c, a, row, i, at)
    x = c.int("x", lo=0)
    c.oblige("neighbors as answered", And(eqv(r[0].shape[0], a.total), Implies(x < a.total, eqv(snap(r[0])(x), a.nb(x)))))
    c.oblige("weights as answered", And(eqv(r[1].shape[0], a.total), Implies(x < a.total, eqv(snap(r[1])(x), a.w(x)))))
    c.oblige("one index pair per neighbor", And(len(r[2].shape) == 2, eqv(r[2].shape[0], a.total), eqv(r[2].shape[1], 2)))
    c.oblige("index pairs name the source node and the neighbor's position", And(eqv(snap(r[2])(row, 0), i), eqv(snap(r[2])(row, 1), t)))


def grow(c, a, row, i, at):
    """prefix sums of counts grow, so row S(i)+t lies in block i (lemma by induction: base and step obliged)"""
    p, q = c.fresh_int("p"), c.fresh_int("q")
    c.oblige("lemma: prefix sums grow (base)", Implies(0 <= p, a.S(p + 1) >= a.S(p)))
    c.oblige("lemma: prefix sums grow (step)", Implies(And(0 <= p, p <= q, a.S(q) >= a.S(p)), a.S(q + 1) >= a.S(p)))
    for x, y in ((i + 1, at(row)), (at(row) + 1, i), (i + 1, to_z(a.n)), (z3.IntVal(0), i)):
        c.assume(Implies(And(0 <= x, x <= y), a.S(y) >= a.S(x)))
    c.assume(a.S(i + 1) == a.S(i) + a.cnt(i))


NODE = ("items", A1, ("arrof", (1,), "int64", "int"))
ADJ = ("items", ("arrof", (None, 2), "int64", "int"), ("arrof", (None,), "float32", "real"), ("arrof", (2,), "int64", "int"), ("arrof", (1,), "int64", "int"))


class Hop:
    """answers of the engine per hop: counts, neighbors, weights as functions of the hop"""

    def __init__(self, c):
        self.cnt, self.nb = (c.func("hop." + x, "int", "int", "int") for x in ("cnt", "nb"))
        self.w = c.func("hop.w", "int", "int", "real")
        self.total = c.func("hop.total", "int", "int")      # sum of the counts of the hop
        self.src = c.func("hop.source", "int", "int", "int")     # node position of entry e
        self.real, self.pad = c.func("hop.nodes", "int", "int"), c.func("hop.padded", "int", "int")
        c.assume(ForAll(1, lambda h: self.total(h) >= 0))


def item(l, h):
    return lget(l, h).items


def ginv(L):
    c, g = L.c, L.ghost["%h"]
    a, M, H, e, x, n0 = g["a"], g["M"], g["H"], g["e"], g["x"], g["n0"]
    k = to_z(L.k)
    g["hop"] = k
    nl, al = L.nodes_list, L.adj_list
    r = [("one node list per hop", eqv(nl.length(), k + 1)), ("one adjacency per hop", eqv(al.length(), k))]
    for h, cond in ((k, True), (H, H <= k), (H + 1, H + 1 <= k)):
        v, ln = item(nl, h)
        r.append(("node list sizes", Implies(cond, And(eqv(v.shape[0], a.pad(h)), eqv(ln.fn(0), a.real(h)), 0 <= a.real(h), a.real(h) <= a.pad(h)))))
    r.append(("input nodes first", Implies(x < to_z(n0), eqv(item(nl, 0)[0].fn(x), g["nodes"](x)))))
    if al.items is not None and not al.items:
        return r + [("no hop yet", k == 0)]
    r += hop_ok(c, nl, al, a, M, H, e, x, H < k)
    return r


def hop_ok(c, nl, al, a, M, H, e, x, cond):
    ind, val, shape, cnt = item(al, H)
    nxt = item(nl, H + 1)[0]
    y, z = c.ghost["%y"], c.ghost["%z"]
    ix = lambda q: to_z(ind.fn(e, q))
    return [("adjacency sizes", Implies(cond, And(eqv(ind.shape[0], M * a.pad(H)), eqv(val.shape[0], M * a.pad(H)), eqv(cnt.fn(0), a.total(H)), eqv(shape.fn(0), a.real(H)), eqv(shape.fn(1), a.real(H + 1)),
                                                  a.total(H) <= M * a.pad(H)))),
            ("an entry connects its source with the neighbor", Implies(And(cond, inrange(0, e, a.total(H))),
                                                                       And(eqv(ix(0), a.src(H, e)), inrange(0, ix(1), a.real(H + 1)), eqv(nxt.fn(ix(1)), a.nb(H, e)), eqv(val.fn(e), a.w(H, e))))),
            ("padding follows the entries", Implies(And(cond, a.total(H) <= e, e < M * a.pad(H)), And(eqv(ix(0), 0), eqv(ix(1), 0), eqv(val.fn(e), 0)))),
            ("next nodes are padded after the distinct neighbors", Implies(And(cond, a.real(H + 1) <= y, y < a.pad(H + 1)), eqv(nxt.fn(y), 0))),
            ("next nodes are distinct", Implies(And(cond, 0 <= y, y < z, z < a.real(H + 1)), to_z(nxt.fn(y)) < to_z(nxt.fn(z)))),
            ("padded size", Implies(cond, a.pad(H + 1) == M * a.pad(H)))]


def full(it, args, k):
    """contract of _full_neighbor, discharged above: entry e belongs to source src(e)"""
    c = it.ctx
    g = c.ghost["%h"]
    a, h = g["a"], g["hop"]
    nodes, et = it.force(args[1]), it.force(args[2])
    nl = g["nodes_list"](h)
    y = c.ghost["%y"]
    c.oblige("asks for the real nodes of the previous hop", And(len(nodes.shape) == 1, eqv(nodes.shape[0], a.real(h)), Implies(inrange(0, y, a.real(h)), eqv(snap(nodes)(y), nl(y)))))
    c.oblige("with this hop's edge types", eqv(et, c.ghost["%et"](h)))
    t = a.total(h)
    return (NArr((t,), lambda i: a.nb(h, to_z(i)), "int64"), NArr((t,), lambda i: a.w(h, to_z(i)), "float32"),
            NArr((t, 2), lambda i, j: ite(eqv(j, 0), a.src(h, to_z(i)), c.ghost["%pos"](h, to_z(i))), "int64"))


def gtrack(L):
    c, g = L.c, L.ghost["%h"]
    nl = L.nodes_list
    if L.phase == "step":
        # sizes of the new hop, by definition of the two size functions
        k, a = to_z(L.k), g["a"]
        v, ln = item(nl, k)
        c.assume(And(eqv(a.real(k), ln.fn(0)), a.pad(k) == g["M"] * a.pad(k - 1)))
        for kind, f in c.ghost["%enums"].d["l"] if "%enums" in c.ghost else []:
            if kind == "ascending":
                c.assume(f(c.ghost["%y"], c.ghost["%z"]))
            elif kind == "inverse":
                c.assume(f(g["e"])[1])
    r = ginv(L)
    if L.phase in ("init", "assume"):
        k = to_z(L.k)
        v = item(nl, k)[0]
        g["nodes_list"] = lambda h: v.fn
    return r


@proof("adjacency of every hop", loops=[LoopSpec("hops", gtrack, types={"L:nodes_list/contents": NODE, "L:adj_list/contents": ADJ})], overrides={GE + "multihop._full_neighbor": full})
def p_adj(c, it):
    n, h, M = c.int("n", lo=0), c.int("hops", lo=0), c.int("max_neighbors", lo=0)
    nodes = c.iarr("nodes", n)
    a = Hop(c)
    H, e, x = c.int("H", lo=0), c.int("e", lo=0), c.int("x", lo=0)
    etf = c.func("etypes", "int", "val")
    et = c.reg(VList(n=h, fn=lambda i: Atom("types", etf(to_z(i)))))
    c.ghost.update({"%h": Box({"a": a, "M": M, "H": H, "e": e, "x": x, "n0": n, "nodes": nodes.fn, "hop": None}), "%y": c.int("y", lo=0), "%z": c.int("z", lo=0), "%et": lambda k: Atom("types", etf(to_z(k))),
                    "%pos": c.func("hop.pos", "int", "int", "int")})
    c.assume(And(a.real(0) == n, a.pad(0) == n))
    try:
        r = it.force(it.call(it.get(MH + "get_neighbor"), [c.reg(Ext("graph")), nodes, et, M]))
    except PyExc as ex:
        k = c.ghost["%h"]["hop"]
        c.oblige("refused only when the padding is too small", And(ex.cls is UserWarning, a.total(k) > M * a.pad(k)))
        return
    nl, al = r
    c.oblige("lists per hop", And(eqv(nl.length(), h + 1), eqv(al.length(), h)))
    if al.items is not None and not al.items:
        return
    c.oblige("input nodes first", Implies(x < n, eqv(item(nl, 0)[0].fn(x), nodes.fn(x))))
    for nm, f in hop_ok(c, nl, al, a, M, H, e, x, H < h):
        c.oblige(nm, f)
