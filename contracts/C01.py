"""C01: partition ranges of conversion workers tile 0..P-1."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof over all partition and worker counts of the real constructor and of convert() for empty workers; "
    "the step from pairwise chaining to full cover is induction over the worker index (stated in DESIGN.md). "
    "Assumed: contracts of multiprocessing, fsspec; float division in ceil exact (counts below 2**53)."
)
ASSUMPTIONS = ["get_fs, multiprocessing.Pipe/Queue/Process and threading.Thread behave as documented",
               "induction over the worker index from the proved chaining facts to full cover"]
CLS = GE + "snark.convert:MultiWorkersConverter"


def setup(world):
    install_mp(world)


def reader(it, a, k):
    it.ctx.ghost["reader"] = dict(k)
    return it.ctx.reg(VList(items=[]))


OV = dict(use_fs(None))
OV[GE + "_adl_reader.TextFileIterator"] = reader


def build(c, it, P, W, i, dispatcher=None):
    cls = it.get(CLS)
    kw = dict(partition_count=P, worker_index=i, worker_count=W)
    kw["dispatcher"] = dispatcher if dispatcher is not None else c.reg(Ext("object"))
    return it.call(cls, ["in", "out", c.reg(Ext("object"))], kw)


def own(o):
    off, cnt = o.fields["partition_offset"], o.fields["partition_count"]
    return off, z3.If(to_z(cnt) > 0, to_z(off) + to_z(cnt), to_z(off))


@proof("ranges are inside, disjoint and chained", overrides=OV)
def p1(c, it):
    P, W, i = c.int("P", lo=1), c.int("W", lo=1), c.int("i", lo=0)
    j = c.int("j", lo=0)
    c.assume(And(i < W, j < W, i < j))
    a, b = build(c, it, P, W, i), build(c, it, P, W, j)
    (s1, e1), (s2, e2) = own(a), own(b)
    p = c.int("p")
    c.oblige("owned ids are valid", Implies(inrange(s1, p, e1), inrange(0, p, P)))
    c.oblige("two workers never own the same id", Not(And(inrange(s1, p, e1), inrange(s2, p, e2))))
    c.oblige("ranges of consecutive workers leave no gap", Implies(j == i + 1, Or(le(s2, e1), ge(e1, P))))
    c.oblige("ranges are in worker order", Implies(And(s1 < e1, s2 < e2), le(e1, s2)))


@proof("first range starts at 0, last one reaches the end", overrides=OV)
def p2(c, it):
    P, W = c.int("P", lo=1), c.int("W", lo=1)
    a, b = build(c, it, P, W, 0), build(c, it, P, W, W - 1)
    (s1, e1), (s2, e2) = own(a), own(b)
    c.oblige("first worker starts at 0", And(eqv(s1, 0), gt(e1, 0)))
    c.oblige("last owned id is P-1", Or(eqv(e2, P), And(eqv(s2, e2), ge(s2, P))))


@proof("input is divided among exactly the workers that own partitions", overrides=OV)
def p3(c, it):
    P, W, i = c.int("P", lo=1), c.int("W", lo=1), c.int("i", lo=0)
    c.assume(i < W)
    log = c.reg(VList(items=[]))
    c.ghost["opened"] = log
    a = build(c, it, P, W, i, c.reg(Ext("disp")))
    s, e = own(a)
    it.call_method(a, "convert", [])
    r = c.ghost.get("reader")
    if r is None:
        c.oblige("a worker with partitions reads input", Not(s < e))
        c.oblige("a worker without partitions writes nothing", eqv(log.length(), 0))
        return
    c.oblige("only workers with partitions read input", s < e)
    n = r["num_workers"]
    c.oblige("reads as itself", eqv(r["worker_index"], i))
    c.oblige("reader count within the workers", And(le(n, W), lt(i, n)))
    j = c.int("j", lo=0)
    c.assume(j < W)
    b = build(c, it, P, W, j)
    s2, e2 = own(b)
    c.oblige("every share of the input has an owner", cmp("==", lt(j, n), s2 < e2))


class Disp:
    def m_dispatch(it, o, v):
        return None

    def m_join(it, o):
        return None

    def m_prop(it, o, name):
        if name == "partitions":
            return it.ctx.reg(VList(items=[]))
        return 0


_s = setup


def setup(world):
    _s(world)
    world.kinds["disp"] = Disp
    world.models["json.dumps"] = lambda it, a, k: "json"


@proof("suffixes given to partition writers are the owned ids", overrides=OV,
       loops=[LoopSpec("start", lambda L: [("started", eqv(L.ghost["started"].length(), L.k)),
                                           ("each once", ForAll(1, lambda q: Implies(inrange(0, q, L.k), eqv(lget(L.ghost["started"], q), add(L.partition_offset, q)))))],
                       types={"G:started/contents": "int"})])
def p4(c, it):
    P, W, i = c.int("P", lo=1), c.int("W", lo=1), c.int("i", lo=0)
    c.assume(i < W)
    c.ghost["started"] = c.reg(VList(items=[]))
    cls = it.get(CLS)
    a = it.call(cls, ["in", "out", c.reg(Ext("object"))], dict(partition_count=P, worker_index=i, worker_count=W))
    off, cnt = a.fields["partition_offset"], a.fields["partition_count"]
    st = c.ghost["started"]
    c.oblige("one writer per owned partition", eqv(st.length(), z3.If(to_z(cnt) > 0, to_z(cnt), 0)))
    q = c.int("q")
    c.oblige("writer ids are the owned ids", Implies(inrange(0, q, st.length()), eqv(lget(st, q), add(off, q))))


from contracts import _command


@proof("conversion command: each worker is started with its own options", overrides=_command.OV, setup=_command.setup)
def p_command(c, it):
    given = {}
    for n, lo in (("worker_index", 0), ("worker_count", 1)):
        if c.branch(c.bool(n + " given")):
            given[n] = c.int(n, lo=lo)
    v, b = _command.command(c, it, **given)
    c.oblige("partition count", eqv(b.get("partition_count", 1), v["partitions"]))
    c.oblige("worker index", eqv(b.get("worker_index", 0), v.get("worker_index", 0)))
    c.oblige("worker count", eqv(b.get("worker_count", 1), v.get("worker_count", 1)))
    c.oblige("input and output", And(eqv(b.get("graph_path"), v["data"]), eqv(b.get("output_dir"), v["out"])))
    c.oblige("whole conversion", And(eqv(b.get("debug", False), False), eqv(b.get("dispatcher"), None), eqv(b.get("file_iterator"), None)))
