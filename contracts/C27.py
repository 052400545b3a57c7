"""C27: skip-gram generation yields exactly the pairs inside the window."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for every batch size, path length and left and right window size: every row of the result, at the position given by the number of earlier pairs, and the total size."
ASSUMPTIONS = ["prefix sums of window sizes are monotone: base and step are discharged in each run, the induction itself is not mechanised",
               "a product of two non-negative integers is not negative"]
OPS = GE + "graph_ops:"


def window(n, l, r):
    lo = lambda j: ite(j - l > 0, j - l, 0)
    hi = lambda j: ite(j + r < n - 1, j + r, n - 1)
    return lo, hi


def size(n, l, r):
    lo, hi = window(n, l, r)
    return lambda j: hi(j) - lo(j)


def sizes(c):
    n, l, r = c.int("path_len", lo=1), c.int("left", lo=0), c.int("right", lo=0)
    cnt = size(n, l, r)
    S = sumfn(c, cnt)
    # window sizes are not negative, so their prefix sums grow
    a, b = c.fresh_int("a"), c.fresh_int("b")
    c.oblige("lemma: window sizes are not negative", Implies(inrange(0, a, n), cnt(a) >= 0))
    c.oblige("lemma: base", Implies(inrange(0, a, n), S(a + 1) >= S(a) + cnt(a)))
    c.oblige("lemma: step", Implies(And(0 <= a, a < b, b < n, S(b) >= S(a) + cnt(a)), S(b + 1) >= S(a) + cnt(a)))
    return n, l, r, cnt, S


def grow(c, S, cnt, n, x, y):
    """instance of the lemma: S(y) >= S(x) + cnt(x) for 0 <= x < y <= n"""
    c.assume(Implies(And(0 <= x, x < y, y <= n), S(y) >= S(x) + cnt(x)))
    c.assume(Implies(And(0 <= x, x <= n), S(x) >= 0))


def sinv(L):
    S = L.ghost["%S"]
    return [("pairs so far", eqv(L.pair_count, S(L.k)))] if L.has("pair_count") else []


@proof("announced size", loops=[LoopSpec("positions", sinv)])
def p_size(c, it):
    n, l, r, cnt, S = sizes(c)
    c.ghost["%S"] = S
    got = it.call(it.get(OPS + "get_skipgrams_size"), [n, l, r])
    c.oblige("number of pairs of one path", eqv(got, S(n)))


def announced(it, a, k):
    """contract of get_skipgrams_size, discharged above"""
    c = it.ctx
    n, l, r = c.ghost["%win"]
    c.oblige("size asked for this window", And(eqv(a[0], n), eqv(a[1], l), eqv(a[2], r)))
    return c.ghost["%S"](n)


def inv(L):
    c = L.c
    S, cnt, B, n, l, r, I, J, T, path = L.ghost["%g"]
    if not L.has("idx", "pairs"):
        return []
    Sp, idx, k = S(n), to_z(L.idx), to_z(L.k)
    lo, hi = window(n, l, r)
    K = lo(J) + T
    ctx = ite(K < J, K, K + 1)
    row = I * Sp + S(J) + T
    good = And(eqv(L.pairs.fn(row, 0), path.fn(I, J)), eqv(L.pairs.fn(row, 1), path.fn(I, ctx)))
    depth = len(L.ghost["%loops"])
    i = k if depth == 1 else to_z(L.i)
    for x, y in ((i, B), (I, i), (I, B)):
        c.assume(Implies(And(0 <= x, x < y), y * Sp >= x * Sp + Sp))
    c.assume(Implies(0 <= i, i * Sp >= 0))
    if depth == 1:
        return [("pairs so far", idx == i * Sp), ("probe", Implies(i > I, good))]
    j = k if depth == 2 else to_z(L.j)
    for x, y in ((j, n), (J, j), (J, n)):
        grow(c, S, cnt, n, x, y)
    if depth == 2:
        return [("pairs so far", idx == i * Sp + S(j)), ("probe", Implies(Or(i > I, And(i == I, j > J)), good))]
    kk = lo(j) + k
    t = k - ite(kk > j, 1, 0)
    return [("pairs so far", idx == i * Sp + S(j) + t), ("probe", Implies(Or(i > I, And(i == I, Or(j > J, And(j == J, t > T)))), good))]


def nest(L):
    """loops around this one, outermost first"""
    e, names = L.node, []
    L.ghost["%loops"] = [x for x in ("i", "j", "k") if L.src().startswith(f"for {x} in")] and {"i": [1], "j": [1, 2], "k": [1, 2, 3]}[L.src().split()[1]]
    return True


@proof("pairs", loops=[LoopSpec("paths", lambda L: nest(L) and inv(L), func="gen_skipgrams")], overrides={GE + "graph_ops.get_skipgrams_size": announced})
def p_pairs(c, it):
    n, l, r, cnt, S = sizes(c)
    B = c.int("batch", lo=0)
    path = c.iarr("paths", B, n)
    I, J, T = c.int("I", lo=0), c.int("J", lo=0), c.int("T", lo=0)
    c.assume(And(I < B, J < n, T < cnt(J)))
    c.ghost.update({"%S": S, "%win": (n, l, r), "%g": (S, cnt, B, n, l, r, I, J, T, path)})
    Sp = S(n)
    grow(c, S, cnt, n, J, n)
    c.assume((I + 1) * Sp <= B * Sp)
    c.assume(I * Sp >= 0)
    p = it.call(it.get(OPS + "gen_skipgrams"), [path, l, r])
    lo, hi = window(n, l, r)
    K = lo(J) + T
    row = I * Sp + S(J) + T
    c.oblige("number of pairs", len(p.shape) == 2 and And(eqv(p.shape[0], B * Sp), eqv(p.shape[1], 2)))
    c.oblige("position", eqv(snap(p)(row, 0), path.fn(I, J)))
    c.oblige("context, in ascending order without the position itself", eqv(snap(p)(row, 1), path.fn(I, ite(K < J, K, K + 1))))
