"""C20: neighbor and walk requests reach the engine unchanged; answers come back in the documented order."""
from vc.api import *
from contracts import _capi as K
from contracts._capi import setup

LEVEL = "proof"
LEVEL_NOTE = ("Unbounded proof of the neighbor, neighbor-count, sampling, walk and node-type requests and of the client's strategy dispatch for every number of nodes, "
              "edge types and neighbors, with the native library replaced by the contract in py_graph.h.")
ASSUMPTIONS = K.ASSUMED + ["set() enumerates the distinct elements; sorted returns the ascending permutation"]
LC = GE + "snark.local:Client"
NB = [z3.Function(f"neighbor.{x}", z3.IntSort(), z3.RealSort() if x == "weight" else z3.IntSort()) for x in ("id", "weight", "type", "created")]


def etypes(c, it, client=False):
    """caller's edge types and the list the engine must get"""
    if c.choose(2) == 0:
        t = c.int("etype")
        return t, Seq(1, lambda i: t)
    m = c.int("ntypes", lo=0)
    a = c.iarr("etypes", m) if client else c.ilist("etypes", m)
    s = it.set_enum(it.seq(a))
    l = sorted_view(it, c.reg(VList(n=s.n, fn=s.fn)))
    return a, Seq(l.n, l.fn)


def request(c, call, nodes, n, want, ts, j):
    K.same_array(c, call.a["nodes"], nodes, "nodes", j)
    c.oblige("number of nodes", eqv(call.a["n"], n))
    if want is not None:
        et = call.a["etypes"]
        c.oblige("number of edge types", And(eqv(call.a["ne"], want.n), eqv(et.shape[0], want.n)))
        c.oblige("distinct edge types ascending", Implies(inrange(0, j, want.n), eqv(et.fn(j), want.fn(j))))
    if ts is None:
        c.oblige("no timestamps passed when none given", call.a["ts"] is None)
    elif ts is not False:
        K.same_array(c, call.a["ts"], ts, "timestamps", j)


def out2(c, r, call, role, n, m, dt, what, wrote=True):
    """r is the (n, m) array the engine wrote"""
    a, b = c.int("row", lo=0), c.int("col", lo=0)
    c.oblige(f"{what}: shape", isinstance(r, NArr) and len(r.shape) == 2 and And(eqv(r.shape[0], n), eqv(r.shape[1], m)))
    c.oblige(f"{what}: type", isinstance(r, NArr) and r.dtype == dt)
    if isinstance(r, NArr) and len(r.shape) == 2:
        c.oblige(f"{what}: what the engine wrote", (role + ".wrote") in call.a and eqv(snap(r)(a, b), call.a[role + ".wrote"](a, b)))


def initial(it, call):
    """output buffers hold the caller's defaults before the engine fills them"""
    c = it.ctx
    for role, d in (c.ghost.get("%defaults") or {}).items():
        v = call.a.get(role)
        if isinstance(v, NArr):
            ix = [c.fresh_int("x") for _ in v.shape]
            c.oblige(f"{role} starts with the default", eqv(snap(v)(*ix), d))


def seed_arg(c):
    return None if c.choose(2) == 0 else c.int("seed")


def seed_ok(c, call, seed):
    s = call.a["seed"]
    if seed is None:
        c.oblige("a seed is drawn", inrange(0, to_z(s), 2 ** 64) if is_intlike(s) else False)
    else:
        c.oblige("seed passed on", eqv(s, seed))


def base(c, it, client):
    n, j = c.int("n", lo=0), c.int("j", lo=0)
    nodes = K.user_array(c, "nodes", n)
    g = K.graph(c, it)
    wm = c.int("watermark", lo=-1)
    g.fields["meta"] = it.new(GE + "snark.meta:Meta", watermark=wm)
    if client:
        g = it.new(LC, graph=g, logger=it.call(it.get("deepgnn:get_logger"), []))
    return n, j, nodes, nodes.fn, g, wm


def rejected(c, e, wm):
    """creation times exist only in temporal graphs"""
    if e.cls is not AssertionError:
        raise e
    c.oblige("rejected only for graphs without time", wm < 0)


def call_m(c, it, g, name, args, kw, opt):
    """options equal to their default may be left out"""
    return it.call_method(g, name, args, kw)


def weighted(client):
    @proof(f"weighted sampling{' through the client' if client else ''}")
    def p(c, it):
        n, j, nodes, nf, g, wm = base(c, it, client)
        et, want = etypes(c, it, client)
        ts, tsv = K.timestamps(c, it, n)
        count, dn, dw, dt = c.int("count", lo=0), c.int("dnode"), c.real("dweight"), c.holds(c.int("dtype"), "int32")
        ret = c.choose(2) == 1
        kw = dict(timestamps=ts, return_edge_created_ts=ret)
        c.ghost["%defaults"] = {"out": dn, "outtypes": dt, "outw": dw, "outts": -1}
        c.ghost["%native"] = initial
        seed = None
        if client:
            kw.update(strategy="byweight", default_edge_type=dt, default_node=dn, default_weight=dw)
        else:
            seed = seed_arg(c)
            kw.update(default_node=dn, default_weight=dw, default_edge_type=dt, seed=seed)
        try:
            r = it.call_method(g, "sample_neighbors" if client else "weighted_sample_neighbors", [nodes, et, count], kw)
        except PyExc as e:
            return rejected(c, e, wm)
        call = K.single_call(c, "WeightedSampleNeighbor")
        request(c, call, nodes, n, want, tsv, j)
        a = call.a
        c.oblige("options", And(eqv(a["count"], count), eqv(a["dnode"], dn), eqv(a["dweight"], dw), eqv(a["dtype"], dt), eqv(a["retts"], ret)))
        seed_ok(c, call, seed)
        r = it.force(r)
        c.oblige("number of results", len(r) == (4 if ret or client else 3))
        out2(c, r[0], call, "out", n, count, "int64", "neighbors")
        out2(c, r[1], call, "outw", n, count, "float32", "weights")
        out2(c, r[2], call, "outtypes", n, count, "int32", "types")
        times(c, call, r, ret, n, count, 3)
        c.oblige("caller's nodes not modified", nodes.fn is nf)


def times(c, call, r, ret, n, count, k):
    if ret:
        out2(c, r[k], call, "outts", n, count, "int64", "creation times")
        return
    c.oblige("no creation times requested", call.a["outts"] is None)
    if len(r) > k:
        x = r[k]
        c.oblige("absent creation times are -1", len(x.shape) == 2 and And(eqv(x.shape[0], n), eqv(x.shape[1], count), eqv(snap(x)(c.fresh_int("a"), c.fresh_int("b")), -1)))


def uniform(client):
    @proof(f"uniform sampling{' through the client' if client else ''}")
    def p(c, it):
        n, j, nodes, nf, g, wm = base(c, it, client)
        et, want = etypes(c, it, client)
        ts, tsv = K.timestamps(c, it, n)
        count, dn, dt = c.int("count", lo=0), c.int("dnode"), c.holds(c.int("dtype"), "int32")
        ret = c.choose(2) == 1
        norepl = c.choose(2) == 1
        kw = dict(timestamps=ts, return_edge_created_ts=ret, default_node=dn)
        c.ghost["%defaults"] = {"out": dn, "outtypes": dt, "outts": -1}
        c.ghost["%native"] = initial
        seed = None
        try:
            if client:
                kw.update(strategy="randomwithoutreplacement" if norepl else "random", default_edge_type=dt, default_weight=c.real("dweight"))
                r = it.call_method(g, "sample_neighbors", [nodes, et, count], kw)
            else:
                seed = seed_arg(c)
                kw.update(default_type=dt, seed=seed)
                r = it.call_method(g, "uniform_sample_neighbors", [norepl, nodes, et, count], kw)
        except PyExc as e:
            return rejected(c, e, wm)
        call = K.single_call(c, "UniformSampleNeighbor")
        request(c, call, nodes, n, want, tsv, j)
        a = call.a
        c.oblige("options", And(eqv(a["count"], count), eqv(a["dnode"], dn), eqv(a["dtype"], dt), eqv(a["retts"], ret), eqv(a["norepl"], norepl)))
        seed_ok(c, call, seed)
        r = it.force(r)
        c.oblige("number of results", len(r) == (4 if client else 3 if ret else 2))
        out2(c, r[0], call, "out", n, count, "int64", "neighbors")
        if client:
            c.oblige("weights: shape", And(r[1].dtype == "float32", eqv(r[1].shape[0], n), eqv(r[1].shape[1], count)))
        out2(c, r[2 if client else 1], call, "outtypes", n, count, "int32", "types")
        times(c, call, r, ret, n, count, 3 if client else 2)
        c.oblige("caller's nodes not modified", nodes.fn is nf)


def lastn(client):
    @proof(f"most recent neighbors{' through the client' if client else ''}")
    def p(c, it):
        n, j, nodes, nf, g, wm = base(c, it, client)
        et, want = etypes(c, it, client)
        ts = K.user_array(c, "ts", n)
        count, dn, dw, dt = c.int("count", lo=0), c.int("dnode"), c.real("dweight"), c.holds(c.int("dtype"), "int32")
        ret = c.choose(2) == 1
        kw = dict(timestamps=ts, count=count, default_node=dn, default_weight=dw, default_edge_type=dt, return_edge_created_ts=ret)
        dts = -1
        if client:
            kw["strategy"] = "lastn"
        else:
            dts = kw["default_timestamp"] = c.int("dts")
        c.ghost["%defaults"] = {"out": dn, "outtypes": dt, "outw": dw, "outts": dts}
        c.ghost["%native"] = initial
        try:
            r = it.call_method(g, "sample_neighbors" if client else "lastn_neighbors", [nodes, et], kw)
        except PyExc as e:
            return rejected(c, e, wm)
        call = K.single_call(c, "LastNCreatedNeighbor")
        request(c, call, nodes, n, want, ts, j)
        a = call.a
        c.oblige("options", And(eqv(a["count"], count), eqv(a["dnode"], dn), eqv(a["dweight"], dw), eqv(a["dtype"], dt), eqv(a["retts"], ret), eqv(a["dts"], dts)))
        r = it.force(r)
        c.oblige("number of results", len(r) in ((4,) if ret else (3, 4) if client else (3,)))
        out2(c, r[0], call, "out", n, count, "int64", "neighbors")
        out2(c, r[1], call, "outw", n, count, "float32", "weights")
        out2(c, r[2], call, "outtypes", n, count, "int32", "types")
        times(c, call, r, ret, n, count, 3)
        c.oblige("caller's nodes not modified", nodes.fn is nf)


def ppr(client):
    @proof(f"personalized PageRank neighbors{' through the client' if client else ''}")
    def p(c, it):
        n, j, nodes, nf, g, wm = base(c, it, client)
        et, want = etypes(c, it, client)
        ts, tsv = K.timestamps(c, it, n)
        count, dn, dw, al, ep = c.int("count", lo=0), c.int("dnode"), c.real("dweight"), c.real("alpha"), c.real("eps")
        kw = dict(timestamps=ts, default_node=dn, default_weight=dw, alpha=al, eps=ep)
        c.ghost["%defaults"] = {"out": dn, "outw": dw}
        c.ghost["%native"] = initial
        if client:
            kw["strategy"] = "ppr-go"
        r = it.call_method(g, "sample_neighbors" if client else "ppr_neighbors", [nodes, et, count], kw)
        call = K.single_call(c, "PPRSampleNeighbor")
        request(c, call, nodes, n, want, tsv, j)
        a = call.a
        c.oblige("options", And(eqv(a["count"], count), eqv(a["dnode"], dn), eqv(a["dweight"], dw), eqv(a["alpha"], al), eqv(a["eps"], ep)))
        r = it.force(r)
        c.oblige("number of results", len(r) == (4 if client else 2))
        out2(c, r[0], call, "out", n, count, "int64", "neighbors")
        out2(c, r[1], call, "outw", n, count, "float32", "weights")
        if client and len(r) == 4:
            c.oblige("no types, creation times -1", And(eqv(arr_size(r[2]), 0), r[2].dtype == "int32", len(r[3].shape) == 2, eqv(r[3].shape[0], n), eqv(r[3].shape[1], count),
                                                       eqv(snap(r[3])(c.fresh_int("a"), c.fresh_int("b")), -1)))
        c.oblige("caller's nodes not modified", nodes.fn is nf)


def walk(client):
    @proof(f"random walk{' through the client' if client else ''}")
    def p(c, it):
        n, j, nodes, nf, g, wm = base(c, it, client)
        et, want = etypes(c, it, client)
        ts, tsv = K.timestamps(c, it, n)
        wl, pp, q, dn = c.int("walk_len", lo=0), c.real("p"), c.real("q"), c.int("dnode")
        kw = dict(timestamps=ts)
        seed = None
        if not client:
            seed = kw["seed"] = seed_arg(c)
        r = it.call_method(g, "random_walk", [nodes, et, wl, pp, q, dn], kw)
        call = K.single_call(c, "RandomWalk")
        request(c, call, nodes, n, want, tsv, j)
        a = call.a
        c.oblige("options", And(eqv(a["count"], wl), eqv(a["dnode"], dn), eqv(a["p"], pp), eqv(a["q"], q)))
        seed_ok(c, call, seed)
        out2(c, it.force(r), call, "out", n, add(wl, 1), "int64", "walks")
        c.oblige("caller's nodes not modified", nodes.fn is nf)


def counts(client):
    @proof(f"neighbor counts{' through the client' if client else ''}")
    def p(c, it):
        n, j, nodes, nf, g, wm = base(c, it, client)
        et, want = etypes(c, it, client)
        ts, tsv = K.timestamps(c, it, n)
        r = it.call_method(g, "neighbor_count" if client else "neighbor_counts", [nodes, et], dict(timestamps=ts))
        call = K.single_call(c, "NeighborCount")
        request(c, call, nodes, n, want, tsv, j)
        i = c.int("i", lo=0)
        c.oblige("one count per node", len(r.shape) == 1 and And(eqv(r.shape[0], n), eqv(snap(r)(i), call.a["out.wrote"](i))))


def neighbors_cb(it, call, f):
    c = it.ctx
    m = c.ghost["%m"]
    bufs = [NArr((m,), lambda i, F=F: F(to_z(i)), dt) for F, dt in zip(NB, ("int64", "float32", "int32", "int64"))]
    ps = [K.ptr_to(c, b, cd) for b, cd in zip(bufs, "qfiq")]
    if call.a["retts"] is not True:
        ps[3] = c.reg(Ext("ptr", arr=NArr((0,), lambda i: 0, "int64"), code="*q"))     # null
    it.call(f, ps + [m])
    for b, cd in zip(bufs, "qfiq"):
        g = c.func("!reused", "int", "real" if cd == "f" else "int")
        b.fn = lambda i, g=g: g(to_z(i))


def neighbors(client):
    @proof(f"all neighbors{' through the client' if client else ''}")
    def p(c, it):
        n, j, nodes, nf, g, wm = base(c, it, client)
        et, want = etypes(c, it, client)
        ts, tsv = K.timestamps(c, it, n)
        ret = c.choose(2) == 1
        m = c.int("m", lo=0)
        c.ghost.update({"%m": m, "%callback": neighbors_cb})
        r = it.call_method(g, "neighbors", [nodes, et], dict(timestamps=ts, return_edge_created_ts=ret))
        call = K.single_call(c, "GetNeighbors")
        request(c, call, nodes, n, want, tsv, j)
        c.oblige("creation times requested as asked", eqv(call.a["retts"], ret))
        r = it.force(r)
        c.oblige("number of results", len(r) == (5 if ret else 4))
        i = c.int("i", lo=0)
        for k, dt, what in ((0, "int64", "neighbors"), (1, "float32", "weights"), (2, "int32", "types")) + (((4, "int64", "creation times"),) if ret else ()):
            x, F = r[k], NB[3 if k == 4 else k]
            c.oblige(f"{what}: one per neighbor", And(len(x.shape) == 1, x.dtype == dt, eqv(x.shape[0], m)))
            c.oblige(f"{what}: copied in order", Implies(i < m, eqv(snap(x)(i), F(i))))
        x = r[3]
        c.oblige("counts", And(len(x.shape) == 1, x.dtype == "uint64", eqv(x.shape[0], n), eqv(snap(x)(i), call.a["out.wrote"](i))))


def types(client):
    @proof(f"node types{' through the client' if client else ''}")
    def p(c, it):
        n, j, nodes, nf, g, wm = base(c, it, client)
        d = -1 if client else c.int("default")
        r = it.call_method(g, "node_types", [nodes] + ([] if client else [d]))
        call = K.single_call(c, "GetNodeType")
        request(c, call, nodes, n, None, False, j)
        c.oblige("default", eqv(call.a["default"], d))
        i = c.int("i", lo=0)
        c.oblige("one type per node", len(r.shape) == 1 and And(r.dtype == "int32", eqv(r.shape[0], n), eqv(snap(r)(i), call.a["out.wrote"](i))))


for _f in (weighted, uniform, lastn, ppr, walk, counts, neighbors, types):
    for _c in (False, True):
        _f(_c)


@proof("unknown strategies are rejected")
def p_unknown(c, it):
    n, j, nodes, nf, g, wm = base(c, it, True)
    s = c.atom("str", "strategy")
    st = SStr([("atom", s)])
    known = ["byweight", "random", "randomwithoutreplacement", "ppr-go", "lastn"]
    for k in known:
        c.assume(Not(eqv(st, k)))
    try:
        it.call_method(g, "sample_neighbors", [nodes, c.int("etype")], dict(strategy=st, count=c.int("count", lo=0)))
    except PyExc as e:
        c.oblige("rejected", e.cls is NotImplementedError or e.cls in (ValueError, KeyError))
        c.oblige("no native call", len(c.ghost["%calls"].l) == 0)
        return
    c.oblige("unknown strategy is not accepted", False)
