"""C16: range samplers visit every id of the range exactly once across workers and ranks."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof for every range, batch size, worker and rank of the real samplers: the t-th batch of (worker, rank) holds "
    "the ids first+((t*W+w)*B+q)*D+r, stops exactly when its first id is past the end, and only ids past the end are backfilled; "
    "a lemma proves that map is a bijection. Integers are mathematical; induction over the call count t is stated in DESIGN.md."
)
ASSUMPTIONS = ["numpy arange/full/concatenate/reshape/slice assignment as documented (model in vc/lib.py)",
               "induction over the number of calls from the proved base and step obligations"]
NODE = GE + "samplers:RangeNodeSampler"
EDGE = GE + "samplers:RangeEdgeSampler"


def inputs(c):
    first, last = c.int("first"), c.int("last")
    B, W, D = c.int("B", lo=1), c.int("W", lo=1), c.int("D", lo=1)
    w, r = c.int("w", lo=0), c.int("r", lo=0)
    back = c.int("back")
    c.assume(And(w < W, r < D, first < last))
    return first, last, B, W, D, w, r, back


def start(it, cls, pre, first, last, B, w, W, back, D, r):
    try:
        s = it.call(it.get(cls), pre + [first, last, B, w, W, back], dict(data_parallel_num=D, data_parallel_index=r))
        return s, it.call_method(s, "__iter__", [])
    except PyExc as e:
        if e.cls is AssertionError:
            return None, None
        raise


def cursor(c, x, base, W, B, D):
    """put the iterator into the state after t calls: its cursor is the only field that calls change"""
    t = c.int("t", lo=0)
    cur = base + ((t * W) * B) * D
    names = [n for n, v in x.fields.items() if n == "first"]
    if not names:
        raise Unsupported("range iterator without a cursor field")
    x.fields["first"] = cur
    return t, cur


def step(c, it, x, back, last, cur, W, B, D, check):
    before = dict(x.fields)
    try:
        res = it.call_method(x, "__next__", [])
    except PyExc as e:
        if e.cls is not StopIteration:
            raise
        c.oblige("stops only when nothing is left", ge(cur, last))
        return
    c.oblige("does not go on past the end", lt(cur, last))
    check(res)
    c.oblige("cursor moves by one round of all workers", eqv(x.fields["first"], add(cur, W * B * D)))
    for n in before:
        if n != "first":
            c.oblige(f"state {n} unchanged", x.fields[n] is before[n] or eqv(x.fields[n], before[n]))


@proof("first batch of a worker and rank starts at its own id")
def p0(c, it):
    first, last, B, W, D, w, r, back = inputs(c)
    s, x = start(it, NODE, [], first, last, B, w, W, back, D, r)
    if s is None:
        c.oblige("only workers past the end are refused", ge(add(first, w * B * D), last))
        return
    c.oblige("cursor starts at own id", eqv(x.fields["first"], first + (w * B) * D + r))


@proof("a batch holds its ids, backfill only past the end")
def p1(c, it):
    first, last, B, W, D, w, r, back = inputs(c)
    s, x = start(it, NODE, [], first, last, B, w, W, back, D, r)
    if s is None:
        return
    t, cur = cursor(c, x, first + (w * B) * D + r, W, B, D)

    def check(res):
        c.oblige("full batch", And(len(res.shape) == 1, eqv(res.shape[0], B)))
        q = c.int("q")
        c.assume(inrange(0, q, B))
        id_ = cur + q * D
        c.oblige("element is its id or backfill past the end", eqv(res.fn(q), z3.If(id_ < last, id_, back)))
    step(c, it, x, back, last, cur, W, B, D, check)


@proof("edge batches pair consecutive ids with the edge type")
def p2(c, it):
    first, last, B, W, D, w, r, back = inputs(c)
    et = c.int("etype")
    s, x = start(it, EDGE, [et], first, last, B, w, W, back, D, r)
    if s is None:
        return
    B2 = 2 * B
    c.oblige("cursor starts at own id", eqv(x.fields["first"], first + (w * B2) * D + r))
    t, cur = cursor(c, x, first + (w * B2) * D + r, W, B2, D)

    def check(res):
        c.oblige("full batch of triples", And(len(res.shape) == 2, eqv(res.shape[0], B), eqv(res.shape[1], 3)))
        q = c.int("q")
        c.assume(inrange(0, q, B))
        a, b = cur + (2 * q) * D, cur + (2 * q + 1) * D
        c.oblige("source id", eqv(res.fn(q, 0), z3.If(a < last, a, back)))
        c.oblige("destination id", eqv(res.fn(q, 1), z3.If(b < last, b, back)))
        c.oblige("edge type", eqv(res.fn(q, 2), et))
    step(c, it, x, back, last, cur, W, B2, D, check)


@proof("lemma: rounds, workers, batch positions and ranks enumerate the ids once")
def p3(c, it):
    # one Euclidean step, used three times (ids by rank, positions by batch, batches by worker)
    a, b, r1, r2, D = c.int("a"), c.int("b"), c.int("r1"), c.int("r2"), c.int("D", lo=1)
    c.assume(And(inrange(0, r1, D), inrange(0, r2, D), a * D + r1 == b * D + r2))
    c.oblige_assume("product of a positive difference", And(Implies(a >= b + 1, a * D >= b * D + D), Implies(b >= a + 1, b * D >= a * D + D)))
    c.oblige("unique decomposition", And(a == b, r1 == r2))
    n = c.int("n", lo=0)
    q, r = c.divmod(n, D)
    c.oblige("every id has a decomposition", And(inrange(0, r, D), n == q * D + r, ge(q, 0)))


@proof("length of a non-parallel sampler is its number of batches")
def p4(c, it):
    first, last, B, W, D, w, r, back = inputs(c)
    c.assume(And(D == 1, r == 0))
    s, x = start(it, NODE, [], first, last, B, w, W, back, 1, 0)
    if s is None:
        return
    n = it.call_method(s, "__len__", [])
    base = first + w * B
    c.oblige("batch n does not exist", ge(base + to_z(n) * (B * W), last))
    c.oblige("batch n-1 exists", lt(base + (to_z(n) - 1) * (B * W), last))
