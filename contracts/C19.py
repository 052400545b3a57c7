"""C19: feature queries hand the engine exactly the request and return its answer."""
from vc.api import *
from contracts import _capi as K
from contracts._capi import setup

LEVEL = "proof"
LEVEL_NOTE = ("Unbounded proof of the six feature queries and their callbacks for every number of ids, features, timestamps and item size, with the native library "
              "replaced by the contract in py_graph.h.")
ASSUMPTIONS = K.ASSUMED + ["the engine reports coordinates in rows of the announced dimension plus one and whole values of the requested type"]
CL = K.CL


def dtype(c):
    return c.atom("dtype", "D", itemsize=c.int("itemsize", lo=1))


def untouched(c, arrs):
    for nm, a, f in arrs:
        if a is None:
            continue
        ix = [c.fresh_int("u") for _ in a.shape]
        c.oblige(f"caller's {nm} not modified", a.fn is f or eqv(a.fn(*ix), f(*ix)))


def ids(c, edge, n):
    names = ["src", "dst", "tp"] if edge else ["nodes"]
    return names, [K.user_array(c, x, n, holds="int32" if x == "tp" else None) for x in names]


def check_request(c, call, names, arrs, n, nf, ts, j):
    for nm, a in zip(names, arrs):
        K.same_array(c, call.a[nm], a, nm, j)
    c.oblige("number of ids", eqv(call.a["n"], n))
    c.oblige("number of features", eqv(call.a["nf"], nf))
    if ts is None:
        c.oblige("no timestamps passed when none given", call.a["ts"] is None)
    else:
        K.same_array(c, call.a["ts"], ts, "timestamps", j)


def dense(edge, client=False):
    @proof(f"dense {'edge' if edge else 'node'} features{' through the client' if client else ''}", loops=[LoopSpec("warnings", FREE)])
    def p(c, it):
        n, nf, j = c.int("n", lo=0), c.int("nf", lo=0), c.int("j", lo=0)
        names, arrs = ids(c, edge, n)
        feats = c.iarr("features", nf, 2, dtype=("int64", "int32")[c.choose(2)], holds="int32")
        ts, tsv = K.timestamps(c, it, n)
        D = dtype(c)
        isz = D.attrs["itemsize"]
        c.assume(ForAll(1, lambda q: feats.fn(q, 1) >= 0))
        c.assume(And(inrange(-2 ** 31, feats.fn(j, 0), 2 ** 31), feats.fn(j, 1) * isz < 2 ** 31))     # of every feature, used for one
        args = arrs
        if client and edge:
            e = c.iarr("edges", n, 3)
            ef, tf = e.fn, c.holds(c.func("edges.tp", "int", "int"), "int32")
            e.fn = lambda i, k: (tf(to_z(i)) if k == 2 else ef(i, k)) if isinstance(k, int) else ite(eqv(k, 2), tf(to_z(i)), ef(i, k))
            names, args = ["src", "dst", "tp"], [e]
            arrs = [NArr((n,), lambda i, k=k: e.fn(i, k), "int64") for k in range(3)]
        saved = [(x, a, a.fn) for x, a in zip((["edges"] if args is not arrs else names) + ["features", "timestamps"], args + [feats, ts]) if a is not None]
        g = K.graph(c, it)
        if client:
            g.fields["meta"] = it.new(GE + "snark.meta:Meta", _node_feature_count=c.int("nfc", lo=0), _edge_feature_count=c.int("efc", lo=0))
            g = it.new(GE + "snark.local:Client", graph=g, logger=it.call(it.get("deepgnn:get_logger"), []))
        total = lib.sumfn(c, lambda q: feats.fn(q, 1))
        c.assume(total(to_z(nf)) >= 0)     # sum of the non-negative sizes
        r = it.call_method(g, "edge_features" if edge else "node_features", args + [feats, D], {} if ts is None and c.choose(2) else {"timestamps": ts})
        call = K.single_call(c, "GetEdgeFeature" if edge else "GetNodeFeature")
        check_request(c, call, names, arrs, n, nf, tsv, j)
        fp = call.a["features"]
        c.oblige("feature ids and sizes are passed as pairs", len(fp.shape) == 2 and And(eqv(fp.shape[0], nf), eqv(fp.shape[1], 2)))
        if len(fp.shape) == 2:
            c.oblige("feature ids", Implies(j < nf, eqv(fp.fn(j, 0), feats.fn(j, 0))))
            c.oblige("feature sizes in bytes", Implies(j < nf, eqv(fp.fn(j, 1), feats.fn(j, 1) * isz)))
        o = call.a["out"]
        c.oblige("buffer shape", len(o.shape) == 2 and And(eqv(o.shape[0], n), eqv(o.shape[1], total(to_z(nf)))))
        c.oblige("buffer type", o.dtype is D)
        c.oblige("buffer length in bytes", eqv(call.a["outn"], mul(mul(o.shape[0], o.shape[1]), isz) if len(o.shape) == 2 else None))
        a, b = c.int("a", lo=0), c.int("b", lo=0)
        c.oblige("result shape", isinstance(r, NArr) and len(r.shape) == 2 and And(eqv(r.shape[0], n), eqv(r.shape[1], total(to_z(nf)))))
        c.oblige("result is what the engine wrote", isinstance(r, NArr) and r.dtype is D and eqv(r.fn(a, b), call.a["out.wrote"](a, b)))
        untouched(c, saved)


for _e in (False, True):
    for _c in (False, True):
        dense(_e, _c)

# ---------------------------------------------------------------- sparse
IDX = z3.Function("coord", z3.IntSort(), z3.IntSort(), z3.IntSort())
VAL = z3.Function("value", z3.IntSort(), z3.IntSort(), z3.RealSort())
DIM = z3.Function("dim", z3.IntSort(), z3.IntSort())
CNT = z3.Function("entries", z3.IntSort(), z3.IntSort())


def stomp(c, arrs):
    for a in arrs:
        f = c.func("!reused", *(["int"] * len(a.shape)), "real" if isinstance(a.dtype, Atom) else "int")
        a.fn = lambda *ix, f=f: f(*[to_z(i) for i in ix])


def sparse_cb(it, call, f):
    """coordinates: CNT(i) rows of DIM(i)+1, values: CNT(i) items"""
    c = it.ctx
    nf, D = c.ghost["%nf"], c.ghost["%D"]
    isz = D.attrs["itemsize"]
    big = c.int("cap", lo=0, input=False)
    ilen = c.iarr("ilen", nf)
    vlen = c.iarr("vlen", nf)
    c.assume(ForAll(1, lambda i: And(CNT(i) >= 0, DIM(i) >= 0)))
    ilen.fn = lambda i: CNT(to_z(i)) * (DIM(to_z(i)) + 1)
    vlen.fn = lambda i: CNT(to_z(i)) * isz
    dims = c.iarr("dims", nf)
    dims.fn = lambda i: DIM(to_z(i))
    m1 = NArr((nf, big), lambda i, a: IDX(to_z(i), to_z(a)), "int64")
    m2 = NArr((nf, big), lambda i, a: VAL(to_z(i), to_z(a)), D)

    def row(m, n, i, dt):
        return NArr((n,), lambda a: snap(m)(i, a), dt, base=(m, lambda a: (i, a), None))

    def iat(it, i):
        i = to_z(it.force(i))
        it.ctx.oblige("reads inside the engine's buffer", inrange(0, i, nf))
        return K.ptr_to(c, row(m1, ilen.fn(i), i, "int64"), "q")

    def vat(it, i):
        i = to_z(it.force(i))
        it.ctx.oblige("reads inside the engine's buffer", inrange(0, i, nf))
        b = NArr((vlen.fn(i),), lambda a: 0, "uint8")
        b.typed = row(m2, CNT(i), i, D)
        return K.ptr_to(c, b, "B")
    p1, p2 = c.reg(Ext("ptr", arr=None, code="**q", at=iat)), c.reg(Ext("ptr", arr=None, code="**B", at=vat))
    ps = [K.ptr_to(c, ilen, "Q"), K.ptr_to(c, vlen, "Q"), K.ptr_to(c, dims, "q")]
    it.call(f, [p1, ps[0], p2, ps[1], ps[2]])
    stomp(c, [m1, m2, ilen, vlen, dims])


def is_coords(a, i, q, r):
    """array a is feature i's coordinates (probed at row q, column r)"""
    if not isinstance(a, NArr):
        return False
    i = to_z(i)
    if len(a.shape) == 1:
        return And(eqv(CNT(i), 0), eqv(a.shape[0], 0))
    w = DIM(i) + 1
    return And(eqv(a.shape[0], CNT(i)), eqv(a.shape[1], w), Implies(And(inrange(0, q, CNT(i)), inrange(0, r, w)), eqv(a.fn(q, r), IDX(i, q * w + r))))


def is_values(a, i, q, D):
    if not isinstance(a, NArr) or len(a.shape) != 1 or a.dtype is not D:
        return False
    i = to_z(i)
    return And(eqv(a.shape[0], CNT(i)), Implies(inrange(0, q, CNT(i)), eqv(a.fn(q), VAL(i, q))))


def on_store(it, v):
    c = it.ctx
    l = it.store_list
    q, r = c.ghost["%probe"]
    if isinstance(v, NArr):
        i = l.length()
        real = isinstance(v.dtype, Atom) or "float" in str(v.dtype)
        if real:
            c.oblige("values of feature k stored at position k", is_values(v, i, q, c.ghost["%D"]))
            return Tok("values", i)
        c.oblige("coordinates of feature k stored at position k", And(v.dtype == "int64", is_coords(v, i, q, r)))
        return Tok("coords", i)
    return v


def lists(L):
    o = L.self if L.has("self") else None
    return (o.fields["indices"], o.fields["values"])


def sp_inv(L):
    a, b = lists(L)
    out = []
    for l, kind in ((a, "coords"), (b, "values")):
        out.append((f"{kind}: one per feature so far", eqv(l.length(), L.k)))
        if l.items is None:
            out.append((f"{kind}: in feature order", ForAll(1, lambda q: Implies(inrange(0, q, L.k), eqv(lget(l, q), Tok(kind, q))))))
    return out


TY = {"L:self.F:indices/contents": ("tok", "coords", "int"), "L:self.F:values/contents": ("tok", "values", "int")}


def sparse(edge):
    @proof(f"sparse {'edge' if edge else 'node'} features", loops=[LoopSpec("features", sp_inv, types=TY, when=lambda L: L.has("self") and L.has("indices"))])
    def p(c, it):
        n, nf, j = c.int("n", lo=0), c.int("nf", lo=0), c.int("j", lo=0)
        names, arrs = ids(c, edge, n)
        feats = K.user_array(c, "features", nf, holds="int32")
        ts, tsv = K.timestamps(c, it, n)
        D = dtype(c)
        q, r = c.int("q", lo=0), c.int("r", lo=0)
        c.ghost.update({"%nf": nf, "%D": D, "%probe": (q, r), "%stored": on_store, "%callback": sparse_cb})
        saved = [(x, a, a.fn) for x, a in zip(names + ["features", "timestamps"], arrs + [feats, ts]) if a is not None]
        g = K.graph(c, it)
        res = it.call_method(g, "edge_sparse_features" if edge else "node_sparse_features", arrs + [feats, D], {"timestamps": ts})
        call = K.single_call(c, "GetEdgeSparseFeature" if edge else "GetNodeSparseFeature")
        check_request(c, call, names, arrs, n, nf, tsv, j)
        K.same_array(c, call.a["features"], feats, "features", j)
        ind, val, dims = [it.force(x) for x in res]
        c.oblige("one coordinate list and one value list per feature", And(eqv(ind.length(), nf), eqv(val.length(), nf)))
        f = c.int("f", lo=0)
        c.assume(f < nf)

        def elem(l, kind, direct):
            x = lget(l, f)
            return eqv(x, Tok(kind, f)) if isinstance(x, Tok) else direct(x)
        c.oblige("coordinates of each feature", elem(ind, "coords", lambda x: is_coords(x, f, q, r)))
        c.oblige("values of each feature", elem(val, "values", lambda x: is_values(x, f, q, D)))
        c.oblige("dimensions", And(len(dims.shape) == 1, eqv(dims.shape[0], nf), eqv(snap(dims)(f), DIM(f))))
        untouched(c, saved)


sparse(False)
sparse(True)


# ---------------------------------------------------------------- text
def string_cb(it, call, f):
    c = it.ctx
    D, m = c.ghost["%D"], c.ghost["%m"]
    isz = D.attrs["itemsize"]
    e = NArr((m,), lambda i: VAL(z3.IntVal(0), to_z(i)), D)
    b = NArr((mul(m, isz),), lambda i: 0, "uint8")
    b.typed = e
    it.call(f, [mul(m, isz), K.ptr_to(c, b, "B")])
    stomp(c, [e])


def text(edge):
    @proof(f"text {'edge' if edge else 'node'} features")
    def p(c, it):
        n, nf, j = c.int("n", lo=0), c.int("nf", lo=0), c.int("j", lo=0)
        names, arrs = ids(c, edge, n)
        feats = K.user_array(c, "features", nf, holds="int32")
        ts, tsv = K.timestamps(c, it, n)
        D = dtype(c)
        isz = D.attrs["itemsize"]
        m = c.int("m", lo=0)
        c.ghost.update({"%D": D, "%m": m, "%callback": string_cb})
        saved = [(x, a, a.fn) for x, a in zip(names + ["features", "timestamps"], arrs + [feats, ts]) if a is not None]
        g = K.graph(c, it)
        res = it.call_method(g, "edge_string_features" if edge else "node_string_features", arrs + [feats, D], {"timestamps": ts})
        call = K.single_call(c, "GetEdgeStringFeature" if edge else "GetNodeStringFeature")
        check_request(c, call, names, arrs, n, nf, tsv, j)
        K.same_array(c, call.a["features"], feats, "features", j)
        d = call.a["dims"]
        c.oblige("room for one length per id and feature", len(d.shape) == 2 and And(eqv(d.shape[0], n), eqv(d.shape[1], nf)))
        val, dims = [it.force(x) for x in res]
        q, r = c.int("q", lo=0), c.int("r", lo=0)
        c.oblige("as many values as the engine returned", And(len(val.shape) == 1, val.dtype is D, eqv(val.shape[0], m)))
        c.oblige("values", Implies(q < m, eqv(snap(val)(q), VAL(z3.IntVal(0), q))))
        w = call.a["dims.wrote"](q, r)
        c.oblige("lengths in items", And(len(dims.shape) == 2, eqv(dims.shape[0], n), eqv(dims.shape[1], nf),
                                         Implies(w >= 0, eqv(snap(dims)(q, r), c.divmod(w, isz)[0]))))
        untouched(c, saved)


text(False)
text(True)
