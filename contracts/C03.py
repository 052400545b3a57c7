"""C03: every dispatched record reaches exactly one partition worker, in order."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof of the real dispatchers and worker function for every number of partitions, records and history (one dispatch call from any "
    "reachable state, the marker loop of join, the worker's receive loop). Pipes and queues are assumed FIFO and lossless."
)
ASSUMPTIONS = ["multiprocessing pipes and queues are FIFO, lossless and private to their two ends",
               "induction over the number of dispatched records from the proved single dispatch step",
               "a partition function maps a record to a valid partition"]
D = GE + "snark.dispatcher:"
FLAG = b"WORK_FINISHED"


class W3:
    def m_start(it, o):
        a = o.fields["args"]
        it.list_append(it.ctx.ghost["started"], (a[0].fields["idx"], a[0].fields["end"] != "w", a[3], a[1] is it.ctx.ghost.get("%qout", a[1])))

    def m_terminate(it, o):
        return None

    def m_join(it, o, *a):
        return None


class QOut:
    def m_get(it, o, *a, **k):
        g = o.fields["gets"]
        it.setfield(o, "gets", add(g, 1))
        return (b"WORKER_FINISHED_PROCESSING", it.ctx.ghost["%sums"].make(it, g))

    def m_close(it, o):
        return None

    def m_put(it, o, v, *a, **k):
        it.list_append(it.ctx.ghost["log"], ("put", v))


class Recv:
    """worker end of a channel: n records, then the marker"""

    def m_recv(it, o):
        c = it.ctx
        p = o.fields["pos"]
        c.oblige("nothing is read after the marker", Not(to_z(o.fields["done"])))
        it.setfield(o, "pos", add(p, 1))
        if c.branch(lt(p, o.fields["n"])):
            return Atom("str", LINE(to_z(p)))
        it.setfield(o, "done", z3.BoolVal(True))
        return FLAG
    m_get = lambda it, o, *a, **k: Recv.m_recv(it, o)


LINE = z3.Function("line", z3.IntSort(), Val)
DEC = z3.Function("decoded", Val, Val)


class Dec:
    def m_decode(it, o, line):
        return Atom("any", DEC(line.expr))


class Writer:
    def m_add(it, o, v):
        it.list_append(it.ctx.ghost["adds"], v)
        it.ctx.oblige("records are added before the partition is closed", o.fields["closed"] is False)

    def m_close(it, o):
        it.list_append(it.ctx.ghost["log"], ("close", 0))
        it.setfield(o, "closed", True)

    def dyn(it, o, name):
        return it.ctx.ghost["%stat"](name)


class T3(W3):
    def m_terminate(it, o):
        raise PyExc(AttributeError, ("terminate",))


def setup(world):
    install_mp(world)
    world.kinds.update({"multiprocessing.Process": W3, "threading.Thread": T3, "qout": QOut, "recv": Recv, "dec": Dec, "wr": Writer})
    for kind in ("multiprocessing.Process", "threading.Thread"):
        world.models[kind] = lambda it, a, k, kind=kind: it.ctx.reg(Ext(kind, target=k.get("target"), args=k.get("args", ())))


def started_inv(L):
    off = L.partition_offset
    s = L.ghost["started"]
    return [("started", eqv(s.length(), L.k)),
            ("each worker once, with its own channel", every(s, L.k, lambda q, x: And(
                eqv(x[0], q), x[1], eqv(x[2], add(off, q)))))]


def ctor(kind):
    @proof(f"{kind} dispatcher: worker i reads channel i only", overrides=use_fs(None),
           loops=[LoopSpec("start", started_inv, types={"G:started/contents": ("tuple", "int", "bool", "int", "bool")}, when=lambda L: "started" in L.ghost)])
    def p(c, it):
        P, off = c.int("P", lo=1), c.int("off", lo=0)
        c.ghost["started"] = c.reg(VList(items=[]))
        c.ghost["%on_shadow"] = lambda it, o, place, v: place == "F:daemon"       # not read by anything modelled
        thr = c.choose(2) == 0
        if kind == "pipe":
            d = it.call(it.get(D + "PipeDispatcher"), ["out", P, c.reg(Ext("dec"))], dict(partition_offset=off, use_threads=thr))
        else:
            d = it.call(it.get(D + "QueueDispatcher"), ["out", P, Prim("pf", lambda it, a, k: 0), c.reg(Ext("dec"))], dict(partition_offset=off, use_threads=thr))
        st = c.ghost["started"]
        q = c.int("q", lo=0)
        c.assume(q < P)
        c.oblige("one worker per partition", eqv(st.length(), P))
        s = lget(st, q)
        c.oblige("worker q reads channel q and writes partition offset+q", And(eqv(s[0], q), s[1], eqv(s[2], add(off, q))))
        c.oblige("all channels exist", eqv(d.fields["q_in"].length(), P))
        e = lget(d.fields["q_in"], q)
        e = e[1] if isinstance(e, tuple) else e
        c.oblige("channel q is at place q", eqv(e.fields["idx"], q))


ctor("pipe")
ctor("queue")


def chans(c, P, pair):
    def mk(i):
        w = c.reg(Ext("conn", idx=i, end="w"))
        return (c.reg(Ext("conn", idx=i, end="r")), w) if pair else w
    return c.reg(VList(n=P, fn=mk))


@proof("pipe dispatch sends the record to one worker")
def p_pd(c, it):
    P, t = c.int("P", lo=1), c.int("t", lo=0)
    c.ghost["sent"] = c.reg(VList(items=[]))
    d = it.new(D + "PipeDispatcher", parallel=P, count=t, q_in=chans(c, P, True))
    before = dict(d.fields)
    line = c.atom("str", "record")
    it.call_method(d, "dispatch", [line])
    s = c.ghost["sent"]
    c.oblige("exactly one send", eqv(s.length(), 1))
    if s.items:
        c.oblige("to an existing worker", inrange(0, s.items[0][0], P))
        c.oblige("the record itself", eqv(s.items[0][1], line))
    c.oblige("record count", eqv(d.fields["count"], t + 1))
    c.oblige("nothing else changes", And(*[d.fields[k] is v or eqv(d.fields[k], v) for k, v in before.items() if k != "count"]))


@proof("queue dispatch sends the record to its partition and remembers it")
def p_qd(c, it):
    P, t = c.int("P", lo=1), c.int("t", lo=0)
    c.ghost["sent"] = c.reg(VList(items=[]))
    part = c.int("part", lo=0)
    c.assume(part < P)
    line = c.atom("str", "record")
    ok = []

    def pf(it, a, k):
        ok.append(a[0] is line)
        return part
    act = c.func("active", "int", "bool")
    d = it.new(D + "QueueDispatcher", num_partitions=P, count=t, q_in=chans(c, P, False), partition_func=Prim("pf", pf),
               active_partitions=c.reg(VSet(has=lambda x: act(to_z(x)))))
    it.call_method(d, "dispatch", [line])
    s = c.ghost["sent"]
    c.oblige("exactly one send", eqv(s.length(), 1))
    if s.items:
        c.oblige("to the record's partition", eqv(s.items[0][0], part))
        c.oblige("the record itself", And(eqv(s.items[0][1], line), all(ok), len(ok) > 0))
    q = c.int("q")
    c.oblige("active partitions: the old ones and this one", cmp("==", to_z(it.contains(d.fields["active_partitions"], q)), to_z(Or(act(q), q == part))))


def marker_inv(get):
    def inv(L):
        s = L.ghost["sent"]
        return [("one marker each so far", And(eqv(s.length(), L.k), every(s, L.k, lambda q, x: And(
            eqv(x[0], get(L, q)), eqv(x[1], 1)))))]
    return inv


def join_proof(kind):
    def en(L, q):
        return q if kind == "pipe" else L.ghost["%enum"](q)

    def out_inv(L):
        s = L.ghost["sent"]
        e = L.entry.ghost["sent"]
        return [("one summary read per worker", eqv(L.ghost["%qout"].fields["gets"], L.k)), ("no more markers", eqv(s.length(), e.length()))]

    @proof(f"{kind} join: every worker that has to finish gets one marker and is awaited once", overrides=use_fs(None),
           loops=[LoopSpec("markers", marker_inv(en), when=lambda L: not L.ghost["%m"](L), types={"G:sent/contents": ("tuple", "int", "int")}),
                  LoopSpec("summaries", out_inv, when=lambda L: L.ghost["%m"](L) and not L.ghost["%done"](L)),
                  LoopSpec("after", FREE, when=lambda L: L.ghost["%done"](L))])
    def p(c, it):
        P = c.int("P", lo=1)
        c.ghost["sent"] = c.reg(VList(items=[]))
        qo = c.reg(Ext("qout", gets=0))
        c.ghost["%qout"] = qo
        c.ghost["qout"] = qo
        c.ghost["%sums"] = Summaries(c)
        thr = kind == "queue" and c.choose(2) == 1

        def closing(it, o):
            if thr:
                c.oblige("a queue shared with a thread stays open until the workers reported", eqv(qo.fields["gets"], c.ghost["%N"]))

        # the marker is recorded as 1 in the log
        it.world.kinds["conn"] = type("C", (), {
            "m_send": lambda it, o, v: it.list_append(it.ctx.ghost["sent"], (o.fields["idx"], 1 if v == FLAG else 0)),
            "m_put": lambda it, o, v, *a, **k: it.list_append(it.ctx.ghost["sent"], (o.fields["idx"], 1 if v == FLAG else 0)),
            "m_close": closing})

        c.ghost["%m"] = lambda L: "send(" not in L.src() and "put(" not in L.src()
        c.ghost["%done"] = lambda L: ".get()" not in L.src() and "send(" not in L.src() and "put(" not in L.src()
        c.ghost["%N"] = 0
        common = dict(folder="out", q_out=qo, node_count=0, edge_count=0, node_type_num=0, edge_type_num=0, node_feature_count=0, edge_feature_count=0,
                      partitions=c.reg(VList(items=[])), skip_node_sampler=True, skip_edge_sampler=True)
        if kind == "pipe":
            N = P
            d = it.new(D + "PipeDispatcher", parallel=P, count=0, q_in=chans(c, P, True), **common)
        else:
            N = c.int("A", lo=0)
            c.ghost["%N"] = N
            e = c.func("active", "int", "int")
            ei = c.func("active.inv", "int", "int")
            c.assume(ForAll(1, lambda i: Implies(inrange(0, i, N), And(inrange(0, e(i), P), ei(e(i)) == i))))
            c.ghost["%enum"] = lambda q: e(to_z(q))
            d = it.new(D + "QueueDispatcher", num_partitions=P, count=0, q_in=chans(c, P, False),
                       active_partitions=c.reg(VSet(has=lambda x: And(inrange(0, ei(to_z(x)), N), e(ei(to_z(x))) == to_z(x)), enum=Seq(N, lambda i: e(to_z(i))))),
                       processes=c.reg(VList(items=[c.reg(Ext("multiprocessing.Process" if not thr else "threading.Thread", args=()))])), **common)
        it.overrides[GE + "_base.get_fs"] = lambda it, a, k: (c.reg(Ext("fs")), a[0])
        it.call_method(d, "join", [])
        s = c.ghost["sent"]
        q = c.int("q", lo=0)
        c.assume(q < N)
        c.oblige("as many markers as workers", eqv(s.length(), N))
        c.oblige("marker q goes to worker q", And(eqv(lget(s, q)[0], q if kind == "pipe" else e(q)), eqv(lget(s, q)[1], 1)))
        c.oblige("one summary per worker", eqv(qo.fields["gets"], N))
    return p


def recv_inv(L):
    a, q = L.ghost["adds"], L.ghost["qin"]
    return [("every record so far was written", And(eqv(a.length(), L.k), eqv(q.fields["pos"], L.k), Not(to_z(q.fields["done"])), le(L.k, q.fields["n"]))),
            ("in order", every(a, L.k, lambda i, x: x.expr == DEC(LINE(to_z(i)))))]


@proof("worker writes its records in order, closes, then reports once",
       loops=[LoopSpec("receive", recv_inv, counts=True, types={"G:adds/contents": ("atom", "any", Val)})])
def p_w(c, it):
    n = c.int("n", lo=0)
    c.ghost["adds"] = c.reg(VList(items=[]))
    c.ghost["log"] = c.reg(VList(items=[]))
    q = c.reg(Ext("recv", pos=0, n=n, done=z3.BoolVal(False)))
    c.ghost["qin"] = q
    w = c.reg(Ext("wr", closed=False))
    sfx, wm = c.int("suffix"), c.int("watermark")
    skn, ske = c.bool("skn"), c.bool("ske")
    got = []
    it.overrides[GE + "snark.converter.writers.BinaryWriter"] = lambda it, a, k: (got.append((a, k)), w)[1]
    stats = {}
    c.ghost["%stat"] = lambda nm: stats.setdefault(nm, c.int("stat_" + nm))
    pipe = c.choose(2) == 0
    q.fields["pytype"] = ExtRef("multiprocessing.connection.Connection" if pipe else "multiprocessing.Queue")
    it.call(it.get(GE + "snark.converter.process:converter_process"), [q, c.reg(Ext("qout")), "folder", sfx, c.reg(Ext("dec")), skn, ske, wm])
    a = c.ghost["adds"]
    i = c.int("i", lo=0)
    c.assume(i < n)
    c.oblige("all records written", eqv(a.length(), n))
    c.oblige("record i written as i-th", lget(a, i).expr == DEC(LINE(i)))
    log = c.ghost["log"].items
    c.oblige("closed, then one summary", [x[0] for x in log] == ["close", "put"])
    if [x[0] for x in log] == ["close", "put"]:
        flag, d = log[1][1]
        c.oblige("finished flag", flag == b"WORKER_FINISHED_PROCESSING")
        want = dict(node_count="node_count", edge_count="edge_count", node_type_count="node_type_num", edge_type_count="edge_type_num",
                    node_feature_count="node_feature_count", edge_feature_count="edge_feature_count")
        for k, s in want.items():
            c.oblige(f"summary {k}", eqv(it.getitem(d, k), c.ghost["%stat"](s)))
        p = it.getitem(d, "partition")
        c.oblige("partition id", eqv(it.getitem(p, "id"), sfx))
        for k in ("node_weight", "node_type_count", "edge_weight", "edge_type_count"):
            c.oblige(f"partition {k}", eqv(it.getitem(p, k), c.ghost["%stat"](k)))
    c.oblige("one writer for the partition", len(got) == 1)
    if got:
        a, k = got[0]
        names = ["folder", "suffix", "skip_node_sampler", "skip_edge_sampler", "watermark"]
        d = dict(zip(names, a))
        d.update(k)
        c.oblige("writer arguments", And(eqv(d["folder"], "folder"), eqv(d["suffix"], sfx), eqv(d["skip_node_sampler"], skn), eqv(d["skip_edge_sampler"], ske), eqv(d["watermark"], wm)))


join_proof("pipe")
join_proof("queue")
