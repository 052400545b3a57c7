"""C30: forest-fire samples are subgraphs of the input of the requested size."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof (partial correctness: about samples returned) for every graph, sample size and outcome of every random choice."
ASSUMPTIONS = ["networkx: adding an edge adds its ends and at most two nodes; successors and predecessors of a node are the ends of its edges", "random.randint and random.sample return values of the documented ranges",
               "the loop is not shown to end: with too few connected nodes it does not"]
FF = GE + "snark.preprocess.sampler.forest_fire:"


def node(c, e):
    return Atom("node", e)


class Source:
    """the input graph: nodes N(v), edges E(u, v); methods that change it are not modelled"""

    def m_nodes(it, o, *a, **k):
        c = it.ctx
        f, n = c.ghost["%node"], c.ghost["%n"]
        return c.reg(VList(n=n, fn=lambda i: node(c, f(to_z(i)))))

    def m_successors(it, o, u):
        return near(it, u, True)

    def m_predecessors(it, o, u):
        return near(it, u, False)

    m_neighbors = m_successors

    def m_is_directed(it, o):
        return True

    def m_number_of_nodes(it, o):
        return it.ctx.ghost["%n"]

    m_order = m___len__ = m_number_of_nodes


def near(it, u, out):
    c = it.ctx
    N, E = c.ghost["%N"], c.ghost["%E"]
    c.oblige("asks about nodes of the graph", N(u.expr))
    n, f = c.fresh_int("deg"), c.func("!near", "int", "val")
    c.assume(n >= 0)
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), And(N(f(i)), E(u.expr, f(i)) if out else E(f(i), u.expr)))))
    return c.reg(VList(n=n, fn=lambda i: node(c, f(to_z(i)))))


class Sample:
    def m_nodes(it, o, *a, **k):
        return it.ctx.reg(Ext("view", of=o))

    def m_number_of_nodes(it, o):
        return o.fields["size"]

    m_order = m___len__ = m_number_of_nodes

    def m_add_edge(it, o, u, v, **k):
        c = it.ctx
        c.oblige("only edges of the graph are added", c.ghost["%E"](u.expr, v.expr))
        grow(it, o, 2)

    def m_add_node(it, o, u, **k):
        it.ctx.oblige("only nodes of the graph are added", it.ctx.ghost["%N"](u.expr))
        grow(it, o, 1)


def grow(it, o, most):
    c, s = it.ctx, to_z(o.fields["size"])
    c.oblige("nothing is added to a complete sample", s < c.ghost["%size"], kind="loop")     # sufficient, not required
    d = c.fresh_int("new")
    c.assume(And(d >= 0, d <= most))
    it.setfield(o, "size", s + d)


class View:
    def m___len__(it, o):
        return o.fields["of"].fields["size"]


def setup(world):
    world.kinds.update(source=Source, sample=Sample, view=View)
    M = world.models

    def digraph(it, a, k):
        if a or k:
            raise Unsupported("graph built from data")
        it.ctx.ghost["%made"].append(it.ctx.reg(Ext("sample", size=0)))
        return it.ctx.ghost["%made"][-1]
    M["networkx.DiGraph"] = digraph
    M["networkx.is_directed"] = lambda it, a, k: True
    M["networkx.number_of_nodes"] = lambda it, a, k: it.call_method(a[0], "number_of_nodes", [])

    def randint(it, a, k):
        c, (lo, hi) = it.ctx, a
        if c.branch(cmp(">", lo, hi)):
            raise PyExc(ValueError, ("empty range",))
        x = c.fresh_int("random")
        c.assume(And(cmp("<=", lo, x), cmp("<=", x, hi)))
        return x

    def sample(it, a, k):
        c, l = it.ctx, it.seq(a[0])
        m = a[1]
        if c.branch(Or(cmp("<", m, 0), cmp(">", m, l.n))):
            raise PyExc(ValueError, ("sample larger than population",))
        pick = c.func("!pick", "int", "int")
        c.assume(ForAll(1, lambda i: Implies(inrange(0, i, m), inrange(0, pick(i), l.n))))
        return c.reg(VList(n=m, fn=lambda i: l.fn(pick(to_z(i)))))

    def choice(it, a, k):
        l = it.seq(a[0])
        return l.fn(randint(it, [0, sub(l.n, 1)], {}))

    def geometric(it, a, k):
        x = it.ctx.fresh_int("geometric")
        it.ctx.assume(x >= 1)
        return x
    M.update({"random.randint": randint, "random.sample": sample, "random.choice": choice, "numpy.random.geometric": geometric})


def sizes(L):
    s = L.ghost["%made"][0].fields["size"] if L.ghost["%made"] else 0
    return And(cmp(">=", s, 0), Or(eqv(s, 0), cmp("<=", s, add(L.ghost["%size"], 1))))


def queue(L):
    N = L.ghost["%N"]
    if not L.has("q"):
        return []
    l = L.q
    i = z3.Int("!qi")
    if l.items is not None:
        return [("pending nodes are nodes of the graph", And(*[N(x.expr) for x in l.items]))]
    return [("pending nodes are nodes of the graph", And(l.length() >= 0, z3.ForAll([i], to_z(Implies(inrange(0, i, l.length()), N(l.fn(i).expr))))))]


def inv(L):
    return [("size", sizes(L))] + queue(L)


TYPES = {"L:q/contents": ("atom", "node", Val), "L:visited/contents": "val"}


@proof("forest fire", loops=[LoopSpec("burning", inv, types=TYPES)])
def p_fire(c, it):
    n, size = c.int("n", lo=1), c.int("size")
    f = c.func("node", "int", "val")
    N, E = c.func("is_node", "val", "bool"), c.func("is_edge", "val", "val", "bool")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), N(f(i)))))
    c.ghost.update({"%n": n, "%size": size, "%node": f, "%N": N, "%E": E, "%made": []})
    r = it.force(it.call(it.get(FF + "forest_fire"), [c.reg(Ext("source")), size]))
    c.oblige("returns the sample", any(r is x for x in c.ghost["%made"]))
    s = r.fields["size"]
    c.oblige("at least the requested number of nodes", cmp(">=", s, size))
    c.oblige("at most one node more", Or(eqv(s, 0), cmp("<=", s, add(size, 1))))
