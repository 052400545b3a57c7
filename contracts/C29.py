"""C29: extracted subgraphs contain exactly the edges of the visited nodes."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for every graph, seed array, number of hops and combination of options."
ASSUMPTIONS = ["the engine answers with the neighbors of every node asked for, back to back in the order asked (C19)",
               "numpy's unique returns the distinct elements (rows) in ascending order and the position of every element among them (axioms in the contract)"]
OPS = GE + "graph_ops:"


class Box:
    """python-side ghost shared by reference"""

    def __init__(self, **k):
        self.__dict__.update(k)


class Graph:
    def m_neighbors(it, o, nodes, edge_types, *a, **k):
        return request(it, it.force(nodes), edge_types)


def setup(world):
    world.kinds["graph"] = Graph
    world.models["numpy.unique"] = unique


# ---------------------------------------------------------------- the graph
class World:
    """node u has cnt(u) edges, number t leads to adj(u, t)

    R(i, v): some walk of i edges leads from a seed to v;  Near(v): 0 <= i < hops;  Within(v): 0 <= i <= hops"""

    def __init__(self, c, n, src, hops):
        self.c, self.n, self.src, self.h = c, n, src, hops
        self.cnt, self.adj = c.func("cnt", "int", "int"), c.func("adj", "int", "int", "int")
        c.assume(ForAll(1, lambda u: self.cnt(u) >= 0))
        self.R = c.func("reach", "int", "int", "bool")
        self.w0, self.wu, self.wt = c.func("walk.seed", "int", "int"), c.func("walk.from", "int", "int", "int"), c.func("walk.edge", "int", "int", "int")
        self.Near, self.Within = c.func("near", "int", "bool"), c.func("within", "int", "bool")
        self.ni, self.wi = c.func("near.steps", "int", "int"), c.func("within.steps", "int", "int")
        self.At = c.func("position", "int", "int", "int")

    # definitions, instantiated where needed
    def seed(self, j):
        self.c.assume(Implies(inrange(0, j, self.n), self.R(0, to_z(self.src(j)))))

    def unseed(self, v):
        self.c.assume(Implies(self.R(0, v), And(inrange(0, self.w0(v), self.n), eqv(self.src(self.w0(v)), v))))

    def step(self, i, u, t):
        self.c.assume(Implies(And(i >= 0, self.R(i, u), inrange(0, t, self.cnt(u))), self.R(i + 1, self.adj(u, t))))

    def back(self, i, v):
        """a walk of i + 1 edges ends with an edge"""
        u, t = self.wu(i, v), self.wt(i, v)
        self.c.assume(Implies(And(i >= 0, self.R(i + 1, v)), And(self.R(i, u), inrange(0, t, self.cnt(u)), self.adj(u, t) == v)))
        return u, t

    def near(self, i, v):
        self.c.assume(Implies(And(inrange(0, i, self.h), self.R(i, v)), self.Near(v)))

    def unnear(self, v):
        self.c.assume(Implies(self.Near(v), And(inrange(0, self.ni(v), self.h), self.R(self.ni(v), v))))
        return self.ni(v)

    def within(self, i, v):
        self.c.assume(Implies(And(inrange(0, i, add(self.h, 1)), self.R(i, v)), self.Within(v)))

    def unwithin(self, v):
        self.c.assume(Implies(self.Within(v), And(inrange(0, self.wi(v), add(self.h, 1)), self.R(self.wi(v), v))))
        return self.wi(v)


class Request:
    """answer to one request: entry e is edge off(e) of the node at position at(e)"""

    def __init__(self, c, w, a):
        self.c, self.w, self.a, self.n = c, w, snap(a), a.shape[0]
        self.at = c.func("!entry.node", "int", "int")
        self.S = sumfn(c, lambda i: w.cnt(to_z(self.a(i))))
        self.total = self.S(to_z(self.n))
        c.assume(self.total >= 0)       # sum of counts

    def off(self, e):
        return e - self.S(self.at(e))

    def sums(self, i):
        """definition of the prefix sums"""
        return Implies(i >= 0, self.S(i + 1) == self.S(i) + self.w.cnt(to_z(self.a(i))))

    def fact(self, e):
        """counts and neighbors as documented: entry e lies in the block of node at(e)"""
        i = self.at(e)
        return Implies(inrange(0, e, self.total), And(inrange(0, i, self.n), self.S(i) <= e, e < self.S(i) + self.w.cnt(to_z(self.a(i))), self.sums(i)))

    def entry(self, i, t):
        """entry of edge t of the node at position i"""
        e = self.S(i) + t
        self.c.assume(Implies(And(inrange(0, i, self.n), inrange(0, t, self.w.cnt(to_z(self.a(i))))), And(inrange(0, e, self.total), self.at(e) == i)))
        return e

    def nb(self, e):
        return self.w.adj(to_z(self.a(self.at(to_z(e)))), self.off(to_z(e)))

    def result(self):
        ar = lambda n, f, t: NArr((n,), f, t)
        return (ar(self.total, self.nb, "int64"), ar(self.total, lambda e: 0, "float32"), ar(self.total, lambda e: 0, "int32"), ar(self.n, lambda i: self.w.cnt(to_z(self.a(i))), "uint64"))


def request(it, nodes, types):
    c = it.ctx
    g = c.ghost["%g"]
    c.oblige("asks for the caller's edge types", types is g.types)
    if len(nodes.shape) != 1:
        raise Unsupported("request of another shape")
    g.req = Request(c, g.w, nodes)
    g.count += 1
    return g.req.result()


class Uniq:
    """distinct elements of v, ascending: u(j) == v(first(j)), v(i) == u(at(i))"""

    def __init__(self, it, v, rows):
        c = it.ctx
        self.c, self.v, self.n, self.rows = c, snap(v), v.shape[0], rows
        self.m = c.fresh_int("distinct")
        self.first, self.at = c.func("!first", "int", "int"), c.func("!at", "int", "int")
        c.assume(And(self.m >= 0, self.m <= to_z(self.n), Implies(to_z(self.n) > 0, self.m > 0)))
        self.u = c.func("!distinct", *(["int"] * (2 if rows else 1)), "int")
        q = z3.Int(c.name("!uq"))
        c.assume(z3.ForAll([q], to_z(Implies(inrange(0, q, self.n), inrange(0, self.at(q), self.m))), patterns=[self.at(q)]))

    def same(self, j, i):
        if self.rows:
            return And(*[eqv(self.u(j, x), self.v(i, x)) for x in (0, 1)])
        return eqv(self.u(j), self.v(i))

    def placed(self, i):
        return Implies(inrange(0, i, self.n), And(inrange(0, self.at(i), self.m), self.same(self.at(i), i)))

    def origin(self, j):
        return Implies(inrange(0, j, self.m), And(inrange(0, self.first(j), self.n), self.same(j, self.first(j))))

    def ascending(self, i, j):
        if self.rows:
            less = Or(self.u(i, 0) < self.u(j, 0), And(self.u(i, 0) == self.u(j, 0), self.u(i, 1) < self.u(j, 1)))
        else:
            less = self.u(i) < self.u(j)
        return Implies(And(0 <= i, i < j, j < self.m), less)


def unique(it, a, k):
    c = it.ctx
    v = it.force(a[0])
    axis = it.force(k.get("axis"))
    if set(k) - {"return_inverse", "axis"} or len(a) > 1 or not isinstance(v, NArr):
        raise Unsupported("np.unique options")
    if axis is None and len(v.shape) != 1 or axis is not None and not (axis == 0 and len(v.shape) == 2 and eqv(simp(v.shape[1]), 2) is True):
        raise Unsupported("np.unique of another shape")
    U = Uniq(it, v, axis == 0)
    c.ghost["%g"].uniq.append(U)
    u = NArr((U.m, 2), lambda i, j: U.u(to_z(i), to_z(j)), v.dtype) if U.rows else NArr((U.m,), lambda i: U.u(to_z(i)), v.dtype)
    c.reg(u)
    if not it.truth(k.get("return_inverse", False)):
        return u
    return (u, c.reg(NArr((U.n,), lambda i: U.at(to_z(i)), "int64")))


# ---------------------------------------------------------------- hops
def hop_inv(L):
    c, g = L.c, L.ghost["%g"]
    w, I, X, V = g.w, g.I, g.X, g.V
    k, l = to_z(L.k), L.nodes
    n = l.length()
    r = [("one node list per hop", eqv(n, k + 1))]
    arr = lambda i: lget(l, i)
    sound = lambda i, x: Implies(And(0 <= i, i <= k, inrange(0, x, arr(i).shape[0])), w.R(i, to_z(arr(i).fn(x))))
    full = lambda i, v: Implies(And(0 <= i, i <= k, w.R(i, v)), And(inrange(0, w.At(i, v), arr(i).shape[0]), eqv(arr(i).fn(w.At(i, v)), v)))
    if L.phase == "init":
        if isinstance(l, VList) and l.items is not None and len(l.items) == 1:
            a = l.items[0]
            arr = lambda i: a
        w.seed(X)
        w.unseed(V)
        c.assume(w.At(0, V) == w.w0(V))     # definition of the position at the start
    elif L.phase == "assume":
        # proved for arbitrary I, X, V: holds for every instance
        g.sound, g.full = sound, full
        c.assume(arr(k).shape[0] >= 0)
    else:
        old = k - 1
        q, u = g.req, g.uniq[-1] if g.uniq else None
        if q is None or u is None:
            return r
        e = u.first(X)
        c.assume(u.origin(X))
        c.assume(q.fact(e))
        c.assume(g.sound(old, q.at(e)))
        w.step(old, to_z(q.a(q.at(e))), q.off(e))
        v, t = w.back(old, V)
        c.assume(g.full(old, v))
        e = q.entry(w.At(old, v), t)
        c.assume(q.fact(e))
        c.assume(u.placed(e))
        c.assume(w.At(k, V) == u.at(e))       # definition of the position in the new list
    r.append(("every node of a list is that many steps from a seed", sound(I, X)))
    r.append(("every node that many steps from a seed is in the list", full(I, V)))
    return r


# ---------------------------------------------------------------- edges
def fill_inv(L):
    c, g = L.c, L.ghost["%g"]
    q, e, k = g.req, g.e, to_z(L.k)
    if L.phase == "init":
        p, x = c.fresh_int("p"), c.fresh_int("q")
        c.assume(And(q.sums(p), q.sums(x)))
        c.oblige("lemma: prefix sums grow (base)", Implies(0 <= p, q.S(p + 1) >= q.S(p)))
        c.oblige("lemma: prefix sums grow (step)", Implies(And(0 <= p, p <= x, q.S(x) >= q.S(p)), q.S(x + 1) >= q.S(p)))
    n = to_z(q.n)
    for x, y in ((k, n), (k + 1, n), (z3.IntVal(0), k)):
        c.assume(Implies(And(0 <= x, x <= y), q.S(y) >= q.S(x)))
    c.assume(And(q.sums(k), q.S(0) == 0))
    if L.phase == "step":
        c.assume(q.fact(e))
        q.entry(k - 1, e - q.S(k - 1))
        c.assume(q.sums(k - 1))
    f = L.edges.fn
    filled = lambda e: Implies(inrange(0, e, q.S(k)), eqv(f(e, 0), q.a(q.at(e))))
    if L.phase == "assume":
        g.filled = filled       # proved for an arbitrary e
    return [("offset", eqv(L.offset, q.S(k))), ("entries so far carry their source", filled(e))]


def is_hops(L):
    return L.has("nodes") and not L.has("edges")


@proof("subgraph", loops=[LoopSpec("hops", hop_inv, when=is_hops, types={"L:nodes/contents": ("arrof", (None,), "int64", "int")}),
                          LoopSpec("edges", fill_inv, when=lambda L: L.has("edges", "offset"))], budget=150)
def p_sub(c, it):
    n, h = c.int("n", lo=0), c.int("hops", lo=1)
    src = c.iarr("seeds", n)
    sf = snap(src)
    w = World(c, n, sf, h)
    types = c.iarr("types", c.int("ne", lo=0), dtype="int32")
    g = Box(w=w, types=types, req=None, count=0, uniq=[], I=c.int("I"), X=c.int("X"), V=c.int("V"), e=c.int("e"), sound=None, full=None, filled=None)
    c.ghost.update({"%g": g, "%lazy_sums": True})
    loop, und, edges = [c.choose(2) == 1 for _ in range(3)]
    nodes, res, idx = it.force(it.call(it.get(OPS + "sub_graph"), [c.reg(Ext("graph")), src, types, h, loop, und, edges]))
    q = g.req
    U = [x for x in g.uniq if not x.rows]
    if len(U) < 2:
        raise Unsupported("subgraph built another way")
    near, allu = U[-2], U[-1]
    cat = [f for kind, f in it.enums() if kind == "concat"]
    c.oblige("seeds unchanged", eqv(snap(src)(g.X), sf(g.X)))
    if cat:
        S, ln, blk, nblk = cat[-1](z3.IntVal(0))[0]
    else:       # one list only
        S, ln, blk, nblk = lambda i: z3.If(i <= 0, 0, n), lambda i: n, lambda r: z3.IntVal(0), z3.IntVal(1)
        cat = [lambda r: (None, True)]
    if g.sound is None:
        def g_sound(i, x):
            w.seed(x)
            return True

        def g_full(i, v):
            w.unseed(v)
            return And(w.At(0, v) == w.w0(v))
        g.sound, g.full = g_sound, g_full

    def grows(S, *pairs):
        for x, y in pairs:
            c.assume(Implies(And(0 <= x, x <= y), S(y) >= S(x)))
    p, x = c.fresh_int("p"), c.fresh_int("x")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, nblk), to_z(ln(i)) >= 0)))       # lengths of arrays
    for i in (p, x):
        c.assume(Implies(i >= 0, S(i + 1) == S(i) + to_z(ln(i))))       # definition of the block starts
    c.oblige("lemma: block starts grow (base)", Implies(inrange(0, p, nblk), S(p + 1) >= S(p)))
    c.oblige("lemma: block starts grow (step)", Implies(And(0 <= p, p <= x, x < nblk, S(x) >= S(p)), S(x + 1) >= S(p)))

    def visited(j):
        """nodes asked for last are near"""
        f = near.first(j)
        c.assume(near.origin(j))
        c.assume(cat[-1](f)[1])
        b = blk(f)
        c.assume(S(b + 1) == S(b) + to_z(ln(b)))
        c.assume(g.sound(b, f - S(b)))
        w.near(b, near.u(j))
        return b

    def place(u):
        """position of a near node among the nodes asked for last"""
        i = w.unnear(u)
        c.assume(g.full(i, u))
        r = S(i) + w.At(i, u)
        c.assume(S(i + 1) == S(i) + to_z(ln(i)))
        c.assume(cat[-1](r)[1])
        grows(S, (i + 1, blk(r)), (blk(r) + 1, i), (i + 1, to_z(nblk)), (z3.IntVal(0), i))
        c.assume(S(blk(r) + 1) == S(blk(r)) + to_z(ln(blk(r))))
        c.assume(near.placed(r))
        return near.at(r)

    def edge(e):
        """source, number of the edge of that source, target of entry e"""
        c.assume(And(q.fact(e), g.filled(e)))
        j = q.at(e)
        b = visited(j)
        u, t = near.u(j), q.off(e)
        w.step(b, u, t)
        w.within(b + 1, w.adj(u, t))
        w.within(b, u)
        return u, t

    X, V, e = g.X, g.V, g.e
    y, z = c.int("y"), c.int("z")
    at = lambda i: allu.u(to_z(i))
    c.oblige("the engine is asked once more for all nodes visited", eqv(q.n, near.m))
    # nodes
    c.oblige("node list", And(len(nodes.shape) == 1, eqv(nodes.shape[0], allu.m), Implies(inrange(0, y, allu.m), eqv(snap(nodes)(y), allu.u(y)))))
    c.assume(allu.ascending(y, z))
    c.oblige("each node once", Implies(And(0 <= y, y < z, z < nodes.shape[0]), snap(nodes)(y) != snap(nodes)(z)))
    f = allu.first(y)
    c.assume(allu.origin(y))
    w.seed(f)
    w.within(z3.IntVal(0), to_z(sf(f)))
    e2 = c.fresh_int("e2")
    c.assume(e2 == (f - n) / 2)
    edge(e2)
    for nm, cond in (("seed", f < n), ("source", And(f >= n, f == n + 2 * e2)), ("target", And(f >= n, f == n + 2 * e2 + 1))):
        c.oblige(f"every node is within reach ({nm})", Implies(And(inrange(0, y, nodes.shape[0]), cond), w.Within(to_z(snap(nodes)(y)))))
    i = w.unwithin(V)
    w.unseed(V)
    u, t = w.back(i - 1, V)
    w.near(i - 1, u)
    pos = place(u)
    en = q.entry(pos, t)
    c.assume(And(q.fact(en), g.filled(en)))
    for s in (w.w0(V), n + 2 * en + 1):
        c.assume(allu.placed(s))
    where = z3.If(i == 0, allu.at(w.w0(V)), allu.at(n + 2 * en + 1))
    c.oblige("every node within reach is listed", Implies(w.Within(V), And(inrange(0, where, nodes.shape[0]), eqv(snap(nodes)(where), V))))
    # seeds
    c.oblige("one position per seed", And(len(idx.shape) == 1, eqv(idx.shape[0], n)))
    c.assume(allu.placed(X))
    c.oblige("positions point at the seeds", Implies(inrange(0, X, n), And(inrange(0, snap(idx)(X), nodes.shape[0]), eqv(snap(nodes)(snap(idx)(X)), sf(X)))))
    # edges: entry e of the engine's answer leads from nodes[a] to nodes[b]
    E = q.total

    def ends(e):
        u, t = edge(e)
        for s in (n + 2 * e, n + 2 * e + 1):
            c.assume(allu.placed(s))
        return u, w.adj(u, t), t

    def listed(u, t):
        """entry of edge t of a near node u"""
        j = place(u)
        en = q.entry(j, t)
        c.assume(And(q.fact(en), g.filled(en)))
        for s in (n + 2 * en, n + 2 * en + 1):
            c.assume(allu.placed(s))
        return en
    Nd = snap(nodes)
    nu, nt = c.int("u"), c.int("t")        # an edge: number nt of the near node nu
    real = And(w.Near(nu), inrange(0, nt, w.cnt(nu)))
    if edges:
        rf = snap(res)
        pair = lambda r: (Nd(rf(r, 0)), Nd(rf(r, 1)))
        c.oblige("pairs", And(len(res.shape) == 2, eqv(res.shape[1], 2)))
        if not loop and not und:
            c.oblige("as many pairs as the engine has edges", eqv(res.shape[0], E))
            u, v, t = ends(e)
            c.oblige("pairs are edges of visited nodes, in the engine's order", Implies(inrange(0, e, E), And(eqv(pair(e)[0], u), eqv(pair(e)[1], v), w.Near(u), inrange(0, t, w.cnt(u)))))
            en = listed(nu, nt)
            c.oblige("every edge of a visited node is a pair", Implies(real, And(inrange(0, en, E), eqv(pair(en)[0], nu), eqv(pair(en)[1], w.adj(nu, nt)))))
            return
        D = g.uniq[-1]
        c.oblige("pairs without repeats", And(D.rows, eqv(res.shape[0], D.m)))
        if not D.rows:
            return
        c.assume(D.ascending(y, z))
        c.oblige("each pair once", Implies(And(0 <= y, y < z, z < res.shape[0]), Not(And(eqv(rf(y, 0), rf(z, 0)), eqv(rf(y, 1), rf(z, 1))))))
        # where the pair comes from: an edge, a reversed edge or a loop
        c.assume(D.origin(y))
        f = D.first(y)
        m = z3.If(f < E, f, f - E)
        u, v, t = ends(m)
        isedge = And(eqv(pair(y)[0], u), eqv(pair(y)[1], v))
        isrev = And(und, eqv(pair(y)[0], v), eqv(pair(y)[1], u))
        isloop = And(loop, eqv(rf(y, 0), rf(y, 1)), inrange(0, rf(y, 0), allu.m))
        c.oblige("a pair is an edge of a visited node, a reversed one or a self loop as requested",
                 Implies(inrange(0, y, res.shape[0]), Or(isloop, And(Or(isedge, isrev), w.Near(u), inrange(0, t, w.cnt(u))))))
        en = listed(nu, nt)
        c.assume(D.placed(en))
        has = lambda r, a, b: And(inrange(0, r, res.shape[0]), eqv(Nd(rf(r, 0)), a), eqv(Nd(rf(r, 1)), b))
        c.oblige("every edge of a visited node is a pair", Implies(real, has(D.at(en), nu, w.adj(nu, nt))))
        if und:
            c.assume(D.placed(E + en))
            c.oblige("every reversed edge is a pair", Implies(real, has(D.at(E + en), w.adj(nu, nt), nu)))
        if loop:
            s = (2 * E if und else E) + y
            c.assume(D.placed(s))
            c.oblige("every self loop is a pair", Implies(inrange(0, y, nodes.shape[0]), has(D.at(s), Nd(y), Nd(y))))
        return
    a, b = c.int("a"), c.int("b")
    rf = snap(res)
    c.oblige("square matrix", And(len(res.shape) == 2, eqv(res.shape[0], nodes.shape[0]), eqv(res.shape[1], nodes.shape[0])))
    inside = And(inrange(0, a, nodes.shape[0]), inrange(0, b, nodes.shape[0]))
    val = rf(a, b)
    c.oblige("zero or one", Implies(inside, Or(eqv(val, 0), eqv(val, 1))))
    hits = [x for kind, x in it.enums() if kind == "hit"]
    cases = []
    for hit, wit, sound, full in hits:
        c.assume(sound(a, b))
        u, v, t = ends(wit(a, b))
        ok = And(w.Near(u), inrange(0, t, w.cnt(u)))
        cases.append(And(ok, Or(And(eqv(Nd(a), u), eqv(Nd(b), v)), And(und, eqv(Nd(a), v), eqv(Nd(b), u)))))
    c.oblige("a one is an edge of a visited node, a reversed one or a self loop as requested", Implies(And(inside, eqv(val, 1)), Or(And(loop, eqv(a, b)), *cases)))
    en = listed(nu, nt)
    for hit, wit, sound, full in hits:
        c.assume(full(en))
    i0, i1 = allu.at(n + 2 * en), allu.at(n + 2 * en + 1)
    c.oblige("every edge of a visited node is a one", Implies(real, And(eqv(Nd(i0), nu), eqv(Nd(i1), w.adj(nu, nt)), eqv(rf(i0, i1), 1))))
    if und:
        c.oblige("every reversed edge is a one", Implies(real, eqv(rf(i1, i0), 1)))
    if loop:
        c.oblige("every self loop is a one", Implies(inrange(0, a, nodes.shape[0]), eqv(rf(a, a), 1)))
