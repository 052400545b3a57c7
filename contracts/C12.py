"""C12: one JSON line decodes to one node record and its edges in a fixed order."""
import ast
from vc.api import *
from vc.core import INF
from vc.lib import dtype_of

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof over the real decoder: any number of edges with or without their own times, any number of feature groups with any number of "
    "declared indexes, all 27 feature keys; the bytes of a timestamped feature for any number of times and values of any length."
)
BOUNDED = []
ASSUMPTIONS = ["json.loads returns the parsed line", "sorted returns a stable sorted permutation", "numpy.array copies the given values in the given dtype",
               "times are finite numbers", "numpy.zeros is all zero bytes, view reinterprets the same little-endian bytes, concatenate joins in order"]
D = GE + "snark.decoders:"
DJ = GE + "snark.decoders.JsonDecoder"
I_, B_ = z3.IntSort(), z3.BoolSort()
SRC, DST, TYP, CR, RM, WT = (z3.Function("j_" + n, I_, z3.RealSort() if n == "wt" else I_) for n in ("src", "dst", "typ", "cr", "rm", "wt"))
HCR, HRM = z3.Function("j_hcr", I_, B_), z3.Function("j_hrm", I_, B_)
NODE = -1


class JObj:
    """a parsed JSON object: edge number id, or the node itself"""

    def val(it, o, k):
        i = to_z(o.fields["id"])
        d = {"created_at": CR, "removed_at": RM}
        if o.fields["id"] is NODE:
            d.update(node_id=SRC, node_type=TYP, node_weight=WT)
        else:
            d.update(src_id=SRC, dst_id=DST, edge_type=TYP, weight=WT)
        return d[k](i) if k in d else None

    def has(it, o, k):
        return {"created_at": HCR, "removed_at": HRM}[k](to_z(o.fields["id"])) if k in ("created_at", "removed_at") else None

    def m___contains__(it, o, k):
        h = JObj.has(it, o, k)
        if h is not None:
            return h
        return k == "edge" if o.fields["id"] is NODE and k == "edge" else JObj.val(it, o, k) is not None

    def m___getitem__(it, o, k):
        if k == "edge" and o.fields["id"] is NODE:
            return it.ctx.ghost["%edges"]
        v = JObj.val(it, o, k)
        h = JObj.has(it, o, k)
        if v is None:
            raise PyExc(KeyError, (k,))
        if h is not None and not it.ctx.branch(h):
            raise PyExc(KeyError, (k,))
        return v

    def m_get(it, o, k, d=None):
        if k == "edge":
            return it.ctx.ghost["%edges"]
        v, h = JObj.val(it, o, k), JObj.has(it, o, k)
        if v is None:
            return d
        if h is None:
            return v
        return Opt(Not(h), v) if d is None else ite(h, v, d)


def setup(world):
    world.kinds["jobj"] = JObj
    world.kinds["jitem"] = JItem
    world.kinds["jvals"] = JVals
    world.kinds["jsparse"] = JSparse
    world.kinds["object"] = type("O", (), {})


def eid(o):
    return to_z(o.fields["id"])


def expected(c, i):
    """the record of edge i"""
    i = to_z(i)
    ncr, nrm = node_times()
    return (SRC(i), DST(i), TYP(i), WT(i), z3.If(HCR(i), CR(i), ncr), z3.If(HRM(i), RM(i), nrm), Tok("jf", i))


def node_times():
    n = z3.IntVal(NODE)
    return z3.If(HCR(n), CR(n), 0), z3.If(HRM(n), RM(n), -1)


def key(i):
    i = to_z(i)
    return (TYP(i), z3.If(HCR(i), CR(i), 0), z3.If(And(HRM(i), RM(i) == -1), INF, z3.ToReal(z3.If(HRM(i), RM(i), 0))), DST(i))


def edges_inv(L):
    out = L.env.lookup_env("%yield").vars["%yield"]
    s = L.interp.seq(L.seq)
    base = L.ghost["%base"]
    rs = [("one record per edge so far", eqv(out.length(), add(base, L.k))), ("node record first", eqv(lget(out, 0), L.ghost["%node"]))]
    for n in ("q", "r"):
        q = L.ghost["%" + n]
        rs.append((f"record {n}", Implies(inrange(0, q, L.k), eqv(lget(out, add(q, base)), expected(L.c, eid(s.fn(q)))))))
    return rs


EDGES = LoopSpec("edges", edges_inv, when=lambda L: L.env.lookup_env("%yield") is not None,
                 types={"L:%yield/contents": ("tuple", "int", "int", "int", "real", "int", "int", ("tok", "jf", "int"))})


def pulled(it, a, k):
    return Tok("jf", to_z(a[1].fields["id"]))


@proof("node and edges of a line", loops=[EDGES], overrides={DJ + "._pull_features": pulled})
def p_decode(c, it):
    n = c.int("edges", lo=0)
    c.ghost["%edges"] = c.reg(VList(n=n, fn=lambda i: Ext("jobj", id=to_z(i))))
    node = c.reg(Ext("jobj", id=NODE))
    it.world.models["json.loads"] = lambda it, a, k: node
    c.assume(ForAll(1, lambda i: And(z3.ToReal(RM(i)) < INF, INF > 0)))
    i, j = c.int("i", lo=0), c.int("j", lo=0)
    c.assume(i < j)
    ncr, nrm = node_times()
    nn = z3.IntVal(NODE)
    first = (SRC(nn), -1, TYP(nn), WT(nn), ncr, nrm, Tok("jf", nn))
    c.ghost.update({"%q": i, "%r": j, "%base": 1, "%node": first})
    d = it.call(it.get(D + "JsonDecoder"), [])
    g = it.call_method(d, "decode", [c.atom("str", "line")])
    s = it.seq(g)
    c.oblige("one record for the node and each edge", eqv(s.n, n + 1))
    c.oblige("node record first", eqv(s.fn(0), first))
    a, b = s.fn(add(i, 1)), s.fn(add(j, 1))
    x, y = a[6].fields[0], b[6].fields[0]
    c.oblige("record describes a listed edge", Implies(i < n, And(inrange(0, x, n), eqv(a, expected(c, x)))))
    c.oblige("later record describes a listed edge", Implies(j < n, And(inrange(0, y, n), eqv(b, expected(c, y)))))
    c.oblige("no edge twice", Implies(j < n, Not(eqv(x, y))))
    c.oblige("records in order", Implies(j < n, Or(lib.key_less(key(x), key(y)), eqv(key(x), key(y)))))


# ---------------------------------------------------------------- features
DT = ["float64", "float32", "float16", "uint64", "int64", "uint32", "int32", "uint16", "int16", "uint8", "int8"]
MAP = {"double": "float64", "float": "float32"}
MAP.update({d: d for d in DT})
KEYS = [("node_id", -1, 0), ("edge", -1, 0), ("binary_feature", 1, 0)]
for _n, _d in MAP.items():
    KEYS += [(_n + "_feature", 0, DT.index(_d)), (f"sparse_{_n}_feature", 3, DT.index(_d))]
NONE, TEMP = z3.Function("jn_none", I_, B_), z3.Function("jt_temp", I_, I_, B_)
FORM, DTC, M = (z3.Function(n, I_, I_) for n in ("j_form", "j_dt", "j_m"))
IDX, LEN, LN, OWK, OWJ = (z3.Function(n, I_, I_, I_) for n in ("j_idx", "j_len", "j_ln", "j_owk", "j_owj"))


class JItem:
    def m_items(it, o):
        c = it.ctx

        def entry(k):
            k = to_z(k)
            key, form, dt = KEYS[c.choose(len(KEYS))]
            c.assume(And(FORM(k) == form, DTC(k) == dt))
            c.ghost["%cur"] = (k, form, dt)
            return (key, Opt(NONE(k), c.reg(Ext("jvals" if form >= 0 else "object", k=k, form=form))))
        return Seq(o.fields["n"], entry)


class JVals:
    def m_items(it, o):
        c, k, form = it.ctx, o.fields["k"], o.fields["form"]

        def entry(j):
            j = to_z(j)
            c.ghost["%kj"] = (k, j)
            if form == 0 and c.branch(TEMP(k, j)):
                v = c.reg(VList(n=LEN(k, j), fn=lambda i: VDict([])))
                c.assume(LEN(k, j) >= 1)
            elif form == 3:
                v = c.reg(Ext("jsparse", k=k, j=j))
            elif form == 0:
                v = c.reg(VList(n=LEN(k, j), fn=lambda i: c.int("!el")))
                c.assume(LEN(k, j) >= 0)
            else:
                v = Tok("jfeat", 1, k, j, 0)
            if isinstance(v, VList):
                v.jv = (k, j)
            return (SStr([("int", IDX(k, j))]), v)
        return Seq(M(k), entry)


class JSparse:
    def m___getitem__(it, o, w):
        if w not in ("coordinates", "values"):
            raise PyExc(KeyError, (w,))
        v = it.ctx.reg(VList(n=it.ctx.int("!n", lo=0), fn=lambda i: it.ctx.int("!el")))
        v.jv = (o.fields["k"], o.fields["j"], w)
        return v


def np_array(it, a, k):
    d = dtype_of(it, k.get("dtype", a[1] if len(a) > 1 else None))
    v = a[0]
    jv = getattr(v, "jv", None)
    if jv is None:
        raise Unsupported("array of something else")
    if len(jv) == 3:
        return Tok("jcol", jv[0], jv[1], jv[2], d)
    return Tok("jfeat", 0, jv[0], jv[1], DT.index(d) if d in DT else -1)


def on_store(it, v):
    """one token per stored feature value; anything else is not a decoded feature"""
    if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, Tok) and x.kind == "jcol" for x in v):
        (k, j, w, d), (k2, j2, w2, d2) = v[0].fields, v[1].fields
        ok = w == "coordinates" and w2 == "values" and d == "int64" and k is k2 and j is j2
        return Tok("jfeat", 3 if ok else -9, k, j, DT.index(d2) if d2 in DT else -1)
    if isinstance(v, (VList, Ext, tuple)):
        return Tok("jfeat", -9, -9, -9, -9)
    return v


def serialized(it, a, k):
    jv = getattr(a[1], "jv", None)
    key = a[4]
    form, dt = [(f, d) for n, f, d in KEYS if n == key][0]
    return Tok("jfeat", 2, jv[0], jv[1], dt)


def slot(c, l, s, k, j):
    """slot s of the list holds the value of its last owner, or nothing"""
    ok, oj = OWK(k, j), OWJ(k, j)
    v = lget(l, s)
    want = Tok("jfeat", z3.If(And(FORM(ok) == 0, TEMP(ok, oj)), 2, FORM(ok)), ok, oj, DTC(ok))
    if not isinstance(v, (Opt, Tok)) and v is not None:
        return False
    return And(Implies(ok == -1, eqv(v, None)), Implies(ok != -1, eqv(v, want)))


def rules(c, s, n):
    c.assume(And(LN(0, 0) == 0, OWK(0, 0) == -1))
    c.assume(ForAll(1, lambda k: M(k) >= 0))
    c.assume(ForAll(2, lambda k, j: IDX(k, j) >= 0))


def item_rule(c, s, k, j):
    mine = IDX(k, j) == s
    c.assume(And(LN(k, j + 1) == z3.If(LN(k, j) <= IDX(k, j), IDX(k, j) + 1, LN(k, j)),
                 OWK(k, j + 1) == z3.If(mine, k, OWK(k, j)), OWJ(k, j + 1) == z3.If(mine, j, OWJ(k, j))))


def entry_rule(c, k):
    f = And(Not(NONE(k)), FORM(k) >= 0)
    for F in (LN, OWK, OWJ):
        c.assume(F(k + 1, 0) == z3.If(f, F(k, M(k)), F(k, 0)))


def state(L, l, k, j):
    s = L.ghost["%s"]
    return [("length", And(eqv(l.length(), LN(k, j)), LN(k, j) >= 0)), ("slot", Implies(s < LN(k, j), slot(L.c, l, s, k, j))),
            ("no value beyond the end", Implies(s >= LN(k, j), OWK(k, j) == -1))] + \
        ([("counter", eqv(L.curr, LN(k, j)))] if L.has("curr") else [])


def outer(L):
    k = to_z(L.k)
    if L.phase == "assume":
        entry_rule(L.c, k)
    return state(L, L.ret_list, k, z3.IntVal(0))


def inner(L):
    k, j = L.ghost["%cur"][0], to_z(L.k)
    if L.phase == "assume":
        item_rule(L.c, L.ghost["%s"], k, j)
    return state(L, L.ret_list, k, j)


def grow(L):
    k, j = L.ghost["%kj"]
    s, l = L.ghost["%s"], L.ret_list
    return [("counter", And(eqv(l.length(), L.curr), LN(k, j) <= to_z(L.curr), Or(to_z(L.curr) <= IDX(k, j) + 1, eqv(L.curr, LN(k, j))))),
            ("earlier slots kept", Implies(s < LN(k, j), slot(L.c, l, s, k, j))),
            ("new slots empty", Implies(inrange(LN(k, j), s, L.curr), eqv(lget(l, s), None)))]


LT = {"L:ret_list/contents": ("opt", ("tok", "jfeat", "int", "int", "int", "int"))}
LOOPS = [LoopSpec("feature groups", outer, when=lambda L: L.has("ret_list") and not L.has("key"), types=LT),
         LoopSpec("declared indexes", inner, when=lambda L: L.has("ret_list", "key") and isinstance(L.node, ast.For), types=LT),
         LoopSpec("gap filling", grow, when=lambda L: L.has("ret_list", "idx") and isinstance(L.node, ast.While), types=LT)]


@proof("features by declared index", loops=LOOPS, overrides={DJ + "._serialize_temporal_features": serialized})
def p_features(c, it):
    n, s = c.int("groups", lo=0), c.int("slot", lo=0)
    it.world.models["numpy.array"] = np_array
    c.ghost.update({"%s": s, "%stored": on_store})
    rules(c, s, n)
    d = it.call(it.get(D + "JsonDecoder"), [])
    r = it.call_method(d, "_pull_features", [c.reg(Ext("jitem", n=n)), c.int("created"), c.int("removed")])
    z = z3.IntVal(0)
    c.oblige("as many slots as the largest index needs", eqv(r.length(), LN(n, z)))
    c.oblige("each slot holds its declared value, others are absent", Implies(s < LN(n, z), slot(c, r, s, n, z)))
    c.oblige("no value is lost", Implies(s >= LN(n, z), OWK(n, z) == -1))


# ---------------------------------------------------------------- bytes of timestamped values
NB, STS = z3.Function("j_bytes", I_, I_), z3.Function("j_sum", I_, I_)


class TVal:
    """one timestamped value of a feature"""

    def m___getitem__(it, o, k):
        i = to_z(o.fields["id"])
        if k == "values":
            v = it.ctx.reg(VList(n=it.ctx.int("!n", lo=0), fn=lambda i: it.ctx.int("!el")))
            v.tv = i
            return v
        if k == "created_at":
            return CR(i)
        if k == "removed_at" and it.ctx.branch(HRM(i)):
            return RM(i)
        raise PyExc(KeyError, (k,))

    def m___contains__(it, o, k):
        return HRM(to_z(o.fields["id"])) if k == "removed_at" else k in ("values", "created_at")

    def m_get(it, o, k, d=None):
        if k in ("values", "created_at"):
            return TVal.m___getitem__(it, o, k)
        if k == "removed_at" and it.ctx.branch(HRM(to_z(o.fields["id"]))):
            return RM(to_z(o.fields["id"]))
        return d


class TArr:
    """the bytes of the values of one timestamp"""

    def m_view(it, o, dtype=None):
        if dtype_of(it, dtype) not in ("int8", "byte"):
            raise Unsupported("another view")
        return o

    def m_tobytes(it, o):
        raise Unsupported("bytes of an array")


class TBuf:
    """byte array number v; the newest one is described by the ghost `mem`"""

    def mem(it, o):
        m = it.ctx.ghost["mem"]
        if not it.ctx.branch(eqv(o.fields["v"], m.fields["cur"])):
            raise Unsupported("use of an older array")
        return m

    def a_size(it, o):
        return TBuf.mem(it, o).fields["size"]

    def a_nbytes(it, o):
        return TBuf.a_size(it, o)

    def m___len__(it, o):
        return TBuf.a_size(it, o)

    def m___getitem__(it, o, k):
        if not isinstance(k, slice) or k.step not in (None, 1):
            raise Unsupported("element of the bytes")
        n = TBuf.a_size(it, o)
        a, b = 0 if k.start is None else k.start, n if k.stop is None else k.stop
        it.ctx.oblige("slice inside the bytes", And(0 <= to_z(a), to_z(a) <= to_z(b), to_z(b) <= to_z(n)), kind="loop")
        return it.ctx.reg(Ext("tslice", v=o.fields["v"], a=a, b=b))


class TSlice:
    def m_view(it, o, dtype=None):
        w = {"int32": 4, "int64": 8}.get(dtype_of(it, dtype))
        if w is None or o.fields["a"] != (0 if w == 4 else 4):
            raise Unsupported("another view")
        q, r = it.ctx.divmod(sub(o.fields["b"], o.fields["a"]), w)
        if not it.ctx.branch(eqv(r, 0)):
            raise PyExc(ValueError, ("size of the view",))
        return it.ctx.reg(Ext("tview", v=o.fields["v"], w=w, n=q))


class TView:
    def m___setitem__(it, o, i, v):
        c, m = it.ctx, it.ctx.ghost["mem"]
        i, n = to_z(i), to_z(o.fields["n"])
        if not c.branch(And(i < n, i >= -n)):
            raise PyExc(IndexError, ())
        i = simp(z3.If(i < 0, i + n, i))
        now = eqv(o.fields["v"], m.fields["cur"])        # writing to an older array does not change the newest
        t, N = c.ghost["%t"], c.ghost["%N"]
        f = o.fields["w"]
        for name, at in ([("count", 0)] if eqv(f, 4) is True else [("created", t), ("start", t + N), ("end", 2 * N)]):
            it.setfield(m, name, ite(And(now, i == at), v, m.fields[name]))


def tb_zeros(it, a, k):
    n = a[0]
    d = dtype_of(it, k.get("dtype", a[1] if len(a) > 1 else None))
    if d not in ("int8", "byte", "uint8"):
        raise Unsupported("another buffer")
    m = it.ctx.ghost["mem"]
    if m.fields["made"]:
        return it.ctx.reg(Ext("tpad", n=n))
    for x, y in dict(made=True, size=n, count=0, created=0, start=0, end=0, segs=0, item=-1, off=-1, tail=0, cur=0).items():
        it.setfield(m, x, y)
    return it.ctx.reg(Ext("tbuf", v=0))


def tb_array(it, a, k):
    v = a[0]
    if not hasattr(v, "tv"):
        raise Unsupported("array of something else")
    it.ctx.oblige("values in the declared type", dtype_of(it, k.get("dtype", a[1] if len(a) > 1 else None)) == it.ctx.ghost["%dt"])
    return it.ctx.reg(Ext("tarr", id=v.tv))


def tb_concat(it, a, k):
    l = it.force(a[0])
    x, y = [it.force(v) for v in (l if isinstance(l, tuple) else l.items)]
    c, m = it.ctx, TBuf.mem(it, x)
    f = m.fields
    if y.kind == "tpad":
        it.setfield(m, "tail", add(f["tail"], y.fields["n"]))
        it.setfield(m, "size", add(f["size"], y.fields["n"]))
    elif y.kind == "tarr":
        c.oblige("values come before the closing bytes", eqv(f["tail"], 0))
        mine = eqv(f["segs"], c.ghost["%t"])
        it.setfield(m, "item", ite(mine, y.fields["id"], f["item"]))
        it.setfield(m, "off", ite(mine, f["size"], f["off"]))
        it.setfield(m, "segs", add(f["segs"], 1))
        it.setfield(m, "size", add(f["size"], NB(to_z(y.fields["id"]))))
    else:
        raise Unsupported("joining something else")
    it.setfield(m, "cur", add(f["cur"], 1))
    return c.reg(Ext("tbuf", v=f["cur"]))


def times_inv(L):
    c, g, m, k = L.c, L.ghost, L.ghost["mem"].fields, to_z(L.k)
    t, N, H = g["%t"], g["%N"], g["%H"]
    s = L.interp.seq(L.seq)
    at = lambda i: eid(s.fn(i)[1] if isinstance(s.fn(i), tuple) else s.fn(i))
    if L.phase == "assume":
        c.assume(STS(k + 1) == STS(k) + NB(at(k)))
    g["%at"] = at
    base = And(STS(k) >= 0, eqv(m["size"], H + STS(k)), eqv(m["segs"], k), eqv(m["tail"], 0), eqv(m["count"], N))
    out = [("bytes so far", base), ("row t", Implies(t < k, And(eqv(m["created"], CR(at(t))), eqv(m["start"], H + STS(t)), eqv(m["item"], at(t)), eqv(m["off"], H + STS(t))))),
           ("the newest array", eqv(L.data.fields["v"], m["cur"]))]
    if L.has("temporal_metadata"):
        v = L.temporal_metadata.fields
        out.append(("table of the newest array", And(eqv(v["v"], m["cur"]), eqv(v["n"], 2 * N + 1), eqv(v["w"], 8))))
    return out


TTY = {"L:data": ("make", lambda it, n: it.ctx.reg(Ext("tbuf", v=it.ctx.fresh_int("v")))),
       "L:temporal_metadata": ("make", lambda it, n: it.ctx.reg(Ext("tview", v=it.ctx.fresh_int("v"), w=8, n=it.ctx.fresh_int("n"))))}


@proof("bytes of timestamped values", loops=[LoopSpec("timestamps", times_inv, when=lambda L: L.has("data", "item"), types=TTY)])
def p_times(c, it):
    """count, the sorted timestamps, where the values of each begin, where the last ends, then all values and eight zero bytes"""
    for n, kd in dict(tval=TVal, tarr=TArr, tbuf=TBuf, tslice=TSlice, tview=TView, tpad=type("P", (), {}), tmem=type("M", (), {})).items():
        it.world.kinds[n] = kd
    it.world.models.update({"numpy.zeros": tb_zeros, "numpy.array": tb_array, "numpy.concatenate": tb_concat})
    N, t = c.int("timestamps", lo=1), c.int("t", lo=0)
    c.assume(And(t < N, STS(0) == 0))
    c.assume(ForAll(1, lambda i: NB(i) >= 0))
    H = 4 * (2 * (2 * N + 1) + 1)
    name = list(MAP)[c.choose(len(MAP))]
    m = c.reg(Ext("tmem", made=False, size=0, count=0, created=0, start=0, end=0, segs=0, item=-1, off=-1, tail=0, cur=-1))
    c.ghost.update({"mem": m, "%t": t, "%N": N, "%H": H, "%dt": MAP[name]})
    d = it.call(it.get(D + "JsonDecoder"), [])
    l = c.reg(VList(n=N, fn=lambda i: Ext("tval", id=to_z(i))))
    r = it.call_method(d, "_serialize_temporal_features", [l, c.int("created"), c.int("removed"), name + "_feature"])
    f, at = m.fields, c.ghost["%at"]
    t2 = c.int("t2", lo=0)
    c.oblige("the newest bytes are returned", isinstance(r, Ext) and r.kind == "tbuf" and eqv(r.fields["v"], f["cur"]))
    c.oblige("number of timestamps first", eqv(f["count"], N))
    c.oblige("timestamps in increasing order", And(eqv(f["created"], CR(at(t))), Implies(And(t < t2, t2 < N), CR(at(t)) <= CR(at(t2)))))
    c.oblige("each of the given ones once", And(inrange(0, at(t), N), Implies(And(t < t2, t2 < N), at(t) != at(t2))))
    c.oblige("values of a timestamp where the table says", And(eqv(f["off"], f["start"]), eqv(f["item"], at(t)), eqv(f["start"], H + STS(t))))
    c.oblige("the last values end where the table says", eqv(f["end"], H + STS(N)))
    c.oblige("eight zero bytes after the values", And(eqv(f["tail"], 8), eqv(f["size"], H + STS(N) + 8), eqv(f["segs"], N)))
