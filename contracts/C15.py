"""C15: file-backed samplers emit every sample exactly once per epoch."""
import ast
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof for every dataset size, batch size, epoch count and rank of the real iterator and of the four samplers that use it "
    "(1-D, 2-D and up to three columns); ranks are proved to tile one shared index order, which under shuffling needs ranks that draw the "
    "same permutations (see known finding). File contents: parsing of lines by numpy/int/float is an assumed contract; up to 3 files."
)
ASSUMPTIONS = ["np.random.permutation returns a permutation", "np.fromfile with a separator parses the numbers of a file in order",
               "induction over the number of calls from the proved base and step obligations",
               "data-parallel ranks with shuffling draw the same permutation sequence (otherwise see known finding)"]
IT = GE + "samplers:_NumpyIterator"
PERM = z3.Function("perm", z3.IntSort(), z3.IntSort(), z3.IntSort())
PINV = z3.Function("perm.inv", z3.IntSort(), z3.IntSort(), z3.IntSort())


def setup(world):
    def permutation(it, a, k):
        """returns PERM(j) for the j-th draw: a bijection of 0..n-1"""
        n = it.force(a[0])
        j = it.ctx.ghost["draws"].fields["n"]
        it.setfield(it.ctx.ghost["draws"], "n", add(j, 1))
        return it.ctx.reg(NArr((n,), lambda i: PERM(to_z(j), to_z(i)), "int64"))
    world.models["numpy.random.permutation"] = permutation
    world.kinds["draws"] = type("D", (), {})
    world.kinds["tline"] = TLine
    world.kinds["object"] = type("O", (), {})


# ---------------------------------------------------------------- index order
def idx_inv(L):
    e0, k0, E, N, sh = L.ghost["%probe"]
    return [("row of epoch e0", Implies(And(e0 < to_z(L.k)), eqv(L.idx.fn(e0 * N + k0), z3.If(sh, PERM(e0, k0), k0)))),
            ("draws", Implies(sh, eqv(L.ghost["draws"].fields["n"], L.k)))]


@proof("order of an epoch is the file order or one permutation",
       loops=[LoopSpec("epochs", idx_inv, when=lambda L: L.has("idx"))])
def p1(c, it):
    N, E, B, D, r = c.int("N", lo=1), c.int("E", lo=0), c.int("B", lo=1), c.int("D", lo=1), c.int("r", lo=0)
    c.assume(r < D)
    sh = c.bool("shuffle")
    e0, k0 = c.int("e0", lo=0), c.int("k0", lo=0)
    c.assume(And(e0 < E, k0 < N))
    c.ghost["draws"] = c.reg(Ext("draws", n=0))
    c.ghost["%probe"] = (e0, k0, E, N, sh)
    c.assume(ForAll(2, lambda j, i: Implies(inrange(0, i, N), And(inrange(0, PERM(j, i), N), PINV(j, PERM(j, i)) == i))))
    data = c.iarr("data", N)
    x = it.call(it.get(IT), [c.reg(VList(items=[data])), B, E], dict(shuffle=sh, backfill=c.reg(VList(items=[c.int("back")])), data_parallel_num=D,
                                                                     data_parallel_index=r))
    idx = order_of(x)
    c.oblige("one entry per sample and epoch", And(len(idx.shape) == 1, eqv(idx.shape[0], E * N)))
    c.oblige("epoch e0 visits samples in file order unless shuffled", eqv(idx.fn(e0 * N + k0), z3.If(sh, PERM(e0, k0), k0)))
    c.oblige("starts at the first batch of the rank", eqv(x.fields["offset"], r * B))


def order_of(x):
    v = x.fields.get("idx")
    if not isinstance(v, NArr) or "offset" not in x.fields:
        raise Unsupported("iterator state is not (idx, offset)")
    return v


# ---------------------------------------------------------------- one step
def step_proof(ncols, twod):
    @proof(f"a batch holds the next samples of the order, {ncols} column(s){' of vectors' if twod else ''}", overrides={
        # the constructor's order is proved above; here it is any valid order
        IT.replace(":", ".") + ".__build_index": lambda it, a, k: it.ctx.ghost["%order"],
        IT.replace(":", ".") + "._NumpyIterator__build_index": lambda it, a, k: it.ctx.ghost["%order"]})
    def p(c, it):
        N, E, B, D, r = c.int("N", lo=1), c.int("E", lo=1), c.int("B", lo=1), c.int("D", lo=1), c.int("r", lo=0)
        c.assume(r < D)
        drop = c.bool("drop")
        T = c.int("T", lo=1)
        order = c.iarr("order", T)
        c.assume(T == E * N)
        c.assume(ForAll(1, lambda i: Implies(inrange(0, i, T), inrange(0, order.fn(i), N))))
        c.ghost["%order"] = order
        cols, backs = [], []
        for j in range(ncols):
            if twod:
                F = c.int(f"F{j}", lo=1)
                cols.append(c.iarr(f"data{j}", N, F))
                backs.append(c.iarr(f"back{j}", F))
            else:
                cols.append(c.iarr(f"data{j}", N))
                backs.append(c.int(f"back{j}"))
        x = it.call(it.get(IT), [c.reg(VList(items=list(cols))), B, E],
                    dict(backfill=c.reg(VList(items=list(backs))), drop_last=drop, data_parallel_num=D, data_parallel_index=r))
        order_of(x)
        t = c.int("t", lo=0)
        off = c.int("off", lo=0)
        c.assume(off == (r + t * D) * B)
        x.fields["offset"] = off
        before = dict(x.fields)
        try:
            res = it.call_method(x, "__next__", [])
        except PyExc as e:
            if e.cls is not StopIteration:
                raise
            c.oblige("stops only at the end or at a dropped short batch", Or(ge(off, T), And(drop, gt(off + B, T))))
            return
        c.oblige("stops at the end", Not(Or(ge(off, T), And(drop, gt(off + B, T)))))
        res = [res] if ncols == 1 else it.seq(res)
        if ncols > 1:
            c.oblige("one array per column", eqv(res.n, ncols))
            res = [res.fn(j) for j in range(ncols)]
        q = c.int("q")
        c.assume(inrange(0, q, B))
        for j in range(ncols):
            c.oblige("full batch", eqv(res[j].shape[0], B))
            if twod:
                f = c.int("f")
                F = cols[j].shape[1]
                c.assume(inrange(0, f, F))
                c.oblige("vector length kept", And(len(res[j].shape) == 2, eqv(res[j].shape[1], F)))
                c.oblige("sample or backfill past the end", eqv(res[j].fn(q, f), z3.If(to_z(off) + q < T, cols[j].fn(order.fn(off + q), f), backs[j].fn(f))))
            else:
                c.oblige("sample or backfill past the end", eqv(res[j].fn(q), z3.If(to_z(off) + q < T, cols[j].fn(order.fn(off + q)), backs[j])))
        c.oblige("next batch of the rank follows", eqv(x.fields["offset"], add(off, D * B)))
        for n, v in before.items():
            if n != "offset":
                c.oblige(f"state {n} unchanged", x.fields[n] is v or eqv(x.fields[n], v))


for _n, _t in [(1, False), (1, True), (2, True), (3, False)]:
    step_proof(_n, _t)


def filled(L):
    """columns so far hold the samples of the last batch, then the backfill value"""
    j, q, B, want = L.ghost["%cols"]
    l = L.last_batch
    out = [("columns so far", eqv(l.length(), L.k))]
    if l.items is None:
        out.append(("column j", Implies(j < to_z(L.k), And(eqv(l.fn(j).shape[0], B), eqv(l.fn(j).fn(q), want)))))
    elif l.items:
        raise Unsupported("columns gathered in another way")
    return out


@proof("a batch holds the next samples of the order, any number of columns", overrides={
    IT.replace(":", ".") + ".__build_index": lambda it, a, k: it.ctx.ghost["%order"],
    IT.replace(":", ".") + "._NumpyIterator__build_index": lambda it, a, k: it.ctx.ghost["%order"]},
    loops=[LoopSpec("columns", filled, when=lambda L: L.has("last_batch"), func="__next__$", types={"L:last_batch/contents": ("arrof", (None,), "int64", "int")}),
           LoopSpec("lengths", FREE, func="__init__$")])
def p_cols(c, it):
    N, E, B, D, r, M = c.int("N", lo=1), c.int("E", lo=1), c.int("B", lo=1), c.int("D", lo=1), c.int("r", lo=0), c.int("M", lo=1)
    c.assume(r < D)
    drop, T = c.bool("drop"), c.int("T", lo=1)
    order = c.iarr("order", T)
    c.assume(T == E * N)
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, T), inrange(0, order.fn(i), N))))
    c.ghost["%order"] = order
    data, back = c.func("data", "int", "int", "int"), c.func("back", "int", "int")
    cols = c.reg(VList(n=M, fn=lambda j: NArr((N,), lambda i: data(to_z(j), to_z(i)), "int64")))
    x = it.call(it.get(IT), [cols, B, E], dict(backfill=c.reg(VList(n=M, fn=lambda j: back(to_z(j)))), drop_last=drop, data_parallel_num=D, data_parallel_index=r))
    order_of(x)
    off, j, q = c.int("off", lo=0), c.int("j", lo=0), c.int("q", lo=0)
    c.assume(And(j < M, q < B))
    x.fields["offset"] = off
    want = z3.If(to_z(off) + q < T, data(j, order.fn(off + q)), back(j))
    c.ghost["%cols"] = (j, q, B, want)
    try:
        res = it.force(it.call_method(x, "__next__", []))
    except PyExc as e:
        if e.cls is not StopIteration:
            raise
        c.oblige("stops only at the end or at a dropped short batch", Or(ge(off, T), And(drop, gt(off + B, T))))
        return
    c.oblige("stops at the end", Not(Or(ge(off, T), And(drop, gt(off + B, T)))))
    if isinstance(res, NArr):
        c.oblige("a single column is not wrapped", M == 1)
        c.oblige("sample or backfill past the end", And(len(res.shape) == 1, eqv(res.shape[0], B), Implies(eqv(j, 0), eqv(snap(res)(q), want))))
    else:
        c.oblige("one array per column", And(M > 1, eqv(res.length(), M)))
        c.oblige("sample or backfill past the end", And(eqv(lget(res, j).shape[0], B), eqv(lget(res, j).fn(q), want)))
    c.oblige("next batch of the rank follows", eqv(x.fields["offset"], add(off, D * B)))


@proof("lemma: batch positions of all ranks tile the order")
def p3(c, it):
    a, b, r1, r2, D = c.int("a"), c.int("b"), c.int("r1"), c.int("r2"), c.int("D", lo=1)
    c.assume(And(inrange(0, r1, D), inrange(0, r2, D), a * D + r1 == b * D + r2))
    c.oblige_assume("product of a positive difference", And(Implies(a >= b + 1, a * D >= b * D + D), Implies(b >= a + 1, b * D >= a * D + D)))
    c.oblige("unique decomposition", And(a == b, r1 == r2))
    n = c.int("n", lo=0)
    q, r = c.divmod(n, D)
    c.oblige("every position has a decomposition", And(inrange(0, r, D), n == q * D + r, ge(q, 0)))


# ---------------------------------------------------------------- samplers
class TLine:
    """a text line: split() gives its fields"""

    def m_split(it, o, sep=None, *a):
        if sep != "\t" or a:
            raise Unsupported("another separator")
        return o.fields["cols"]

    def cut(it, o, *a):
        return o
    m_strip = m_rstrip = cut


def np_iter_args(it, a, k):
    names = ["data", "batch_size", "epochs", "shuffle", "backfill", "drop_last", "data_parallel_num", "data_parallel_index"]
    d = dict(epochs=1, shuffle=False, drop_last=False, data_parallel_num=1, data_parallel_index=0)
    d.update(zip(names, a))
    d.update(k)
    it.ctx.ghost["iter"] = d
    return it.ctx.reg(Ext("object"))


def sampler_proof(name, build, rows, dims):
    @proof(f"{name}: wiring and length", overrides={GE + "samplers._NumpyIterator": np_iter_args})
    def p(c, it):
        B, E, D, r = c.int("B", lo=1), c.int("E", lo=1), c.int("D", lo=1), c.int("r", lo=0)
        c.assume(r < D)
        drop, sh = c.bool("drop"), c.bool("shuffle")
        back = c.int("back")
        s, cols, backs = build(c, it, dict(batch_size=B, epochs=E, shuffle=sh, drop_last=drop, data_parallel_num=D, data_parallel_index=r), back)
        it.call_method(s, "__iter__", [])
        g = c.ghost["iter"]
        for n, v in dict(batch_size=B, epochs=E, data_parallel_num=D, data_parallel_index=r, shuffle=sh, drop_last=drop).items():
            c.oblige(f"iterator gets {n}", eqv(g[n], v))
        data, bf = it.seq(g["data"]), it.seq(g["backfill"])
        if isinstance(cols, VList):                  # any number of columns: one of them
            n = cols.length()
            col = c.int("col", lo=0)
            c.assume(lt(col, n))
            cols, backs = {col: cols.fn(col)}, {col: backs}
        else:
            n, cols = len(cols), dict(enumerate(cols))
        c.oblige("columns", And(eqv(data.n, n), eqv(bf.n, n)))
        N = list(cols.values())[0].shape[0]
        i, f = c.int("i"), c.int("f")
        c.assume(inrange(0, i, N))
        for j, col in cols.items():
            got, b = data.fn(j), bf.fn(j)
            c.oblige("rows", eqv(got.shape[0], N))
            if len(col.shape) == 2:
                W = col.shape[1]
                c.oblige("row width", And(len(got.shape) == 2, eqv(got.shape[1], W)))
                c.oblige("row content", Implies(inrange(0, f, W), eqv(got.fn(i, f), col.fn(i, f))))
                if isinstance(b, NArr):
                    c.oblige("backfill row", And(eqv(b.shape[0], W), Implies(inrange(0, f, W), eqv(b.fn(f), backs[j](f)))))
                else:
                    c.oblige("backfill row", eqv(b, backs[j](f)))
            else:
                c.oblige("row content", And(len(got.shape) == 1, eqv(got.fn(i), col.fn(i))))
                c.oblige("backfill", eqv(b, backs[j](0)))
        n = to_z(it.call_method(s, "__len__", []))
        T = to_z(N) * E
        c.oblige("length of a non-parallel sampler (complete batches)", Implies(And(D == 1, drop), And(n * B <= T, (n + 1) * B > T)))
        c.oblige("length of a non-parallel sampler", Implies(And(D == 1, Not(drop)), And(n * B >= T, (n - 1) * B < T)))
    return p


def skip_load(it, a, k):
    return None


def node_build(c, it, kw, back):
    nf = 1 + c.choose(3)
    files = [SStr([("atom", c.atom("str", f"file{j}"))]) for j in range(nf)]
    arrs = [c.iarr(f"nodes{j}", c.int(f"n{j}", lo=0)) for j in range(nf)]
    it.overrides[GE + "samplers.get_files"] = lambda it, a, k: it.ctx.reg(VList(items=list(files)))
    it.world.models["numpy.fromfile"] = lambda it, a, k: arrs[[f is a[0] for f in files].index(True)]
    s = it.call(it.get(GE + "samplers:FileNodeSampler"), ["pattern"], dict(kw, backfill_id=back))
    tot = 0
    for a in arrs:
        tot = add(tot, a.shape[0])

    def fn(i):
        v, off = None, tot
        for a in reversed(arrs):
            off = sub(off, a.shape[0])
            v = a.fn(sub(i, off)) if v is None else z3.If(to_z(i) < to_z(add(off, a.shape[0])), a.fn(sub(i, off)), v)
        return v
    c.assume(gt(tot, 0))
    return s, [NArr((tot,), fn)], [lambda f: back]


sampler_proof("file node sampler", node_build, None, 1)


def edge_build(feats):
    def b(c, it, kw, back):
        F = c.int("F", lo=1) if feats else 0
        N = c.int("N", lo=1)
        et = c.int("etype")
        fe, ff = c.func("edge", "int", "int", "int"), c.func("feat", "int", "int", "real")
        c.inputs["edge"] = ("array", (N, 2), fe)

        def load(it, a, k):
            """contract of the edge file loader, proved separately"""
            s = a[0]
            E = it.ctx.reg(NArr((N, 3), lambda i, j: z3.If(to_z(j) == 2, et, fe(to_z(i), to_z(j))), "int64"))
            it.setfield(s, "edges", E)
            if feats:
                it.setfield(s, "features", it.ctx.reg(NArr((N, F), lambda i, j: ff(to_z(i), to_z(j)), "float32")))
        it.overrides[GE + "samplers.get_files"] = lambda it, a, k: it.ctx.reg(VList(items=["a"]))
        it.overrides[GE + "samplers.FileEdgeSampler._load_edge_files"] = load
        s = it.call(it.get(GE + "samplers:FileEdgeSampler"), [et, "pattern"], dict(kw, backfill_id=back, feature_dim=F))
        cols = [NArr((N, 3), lambda i, j: z3.If(to_z(j) == 2, et, fe(to_z(i), to_z(j))))]
        backs = [lambda f: z3.If(f == 2, et, back)]
        if feats:
            cols.append(NArr((N, F), lambda i, j: ff(to_z(i), to_z(j))))
            backs.append(lambda f: 0)
        return s, cols, backs
    return b


sampler_proof("file edge sampler", edge_build(False), None, 2)
sampler_proof("file edge sampler with features", edge_build(True), None, 2)


def tuple_build(c, it, kw, back):
    N = c.int("N", lo=1)
    data = c.iarr("rows", N, 2)
    it.overrides[GE + "samplers.FileTupleSampler._load_tuple_file"] = lambda it, a, k: data
    s = it.call(it.get(GE + "samplers:FileTupleSampler"), ["file"], dict(kw, backfill=back))
    return s, [data], [lambda f: back]


sampler_proof("tuple sampler", tuple_build, None, 2)


def tuple2_build(c, it, kw, back):
    N, M = c.int("N", lo=1), c.int("M", lo=1)
    val = c.func("col", "int", "int", "int")
    cols = VList(n=M, fn=lambda j: NArr((N,), lambda i: val(to_z(j), to_z(i)), "int64"))
    it.overrides[GE + "samplers.FileTupleSamplerV2._load_tuple_file"] = lambda it, a, k: it.ctx.reg(VList(n=M, fn=cols.fn))
    s = it.call(it.get(GE + "samplers:FileTupleSamplerV2"), ["file"], dict(kw, backfill=back))
    return s, cols, lambda f: back


sampler_proof("tuple sampler v2 with any number of columns", tuple2_build, None, 1)


# ---------------------------------------------------------------- loaders
LINES, BASE, FNAME = z3.Function("lines", z3.IntSort(), z3.IntSort()), z3.Function("lines.before", z3.IntSort(), z3.IntSort()), z3.Function("fname", z3.IntSort(), Val)


def loaded(L, n):
    """the first n lines of all files are there"""
    F, i, j, fe, ff = L.ghost["%load"]
    out = [("one row per line", eqv(L.edges.length(), n))]

    def rows(l, width, what, same):
        if l.items is None:
            out.append((what, Implies(And(0 <= i, i < to_z(n)), same(l.fn(i)))))
            out.append((what + " length", ForAll(1, lambda q: Implies(inrange(0, q, n), eqv(l.fn(q).length(), width)))))
        elif l.items:
            raise Unsupported("rows before the first line")
    rows(L.edges, 2, "row", lambda r: And(eqv(lget(r, 0), fe(i, 0)), eqv(lget(r, 1), fe(i, 1))))
    if is_sym(F):
        out.append(("one feature row per line", eqv(L.features.length(), n)))
        rows(L.features, F, "feature row", lambda r: eqv(lget(r, j), ff(i, j)))
    return out


def load_files_inv(L):
    L.c.assume(BASE(to_z(L.k) + 1) == BASE(to_z(L.k)) + LINES(to_z(L.k)))           # definition
    return loaded(L, BASE(to_z(L.k)))


def load_lines_inv(L):
    return loaded(L, add(BASE(L.ghost["%cur"]), L.k))


class Scalar:
    """a numpy float as a python value"""

    def m_item(it, o):
        return z3.Real("a_float")
    m_tolist = m_item


def edge_loader(feats):
    ty = {"L:edges/contents": ("list", "int"), "L:features/contents": ("list", "real")}

    @proof(f"edge file loader keeps every line of every file in order ({'with' if feats else 'no'} features)",
           loops=[LoopSpec("lines", load_lines_inv, when=lambda L: L.has("edges") and L.ghost["%cur"] is not None and not any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(L.node) if x is not L.node), types=ty),
                  LoopSpec("files", load_files_inv, when=lambda L: L.has("edges"), types=ty)])
    def p(c, it):
        et = c.int("etype")
        K, i, j = c.int("files", lo=0), c.int("i", lo=0), c.int("j", lo=0)
        F = c.int("F", lo=1) if feats else 0
        total = BASE(K)
        c.assume(And(BASE(0) == 0, ForAll(1, lambda q: LINES(q) >= 0)))
        c.assume(And(total > 0, i < total))
        if feats:
            c.assume(j < F)
        fe, ff = c.func("edge", "int", "int", "int"), c.func("feat", "int", "int", "real")
        ex = c.func("txt", "int", "int", "val")
        c.assume(ForAll(2, lambda a, b: And(parse_int(ex(a, b)) == fe(a, b), parse_real(ex(a, b + 2)) == ff(a, b))))
        c.ghost.update({"%load": (F, i, j, fe, ff), "%cur": None})

        def op(it, a, k):
            t = getattr(a[0], "expr", None)
            if t is None or not z3.is_app(t) or t.decl().name() != "fname" or a[1:] not in ([], ["r"], ["rt"]):
                raise Unsupported("opens something else")
            f = t.arg(0)
            it.ctx.ghost["%cur"] = f

            def line(q):
                n = simp(BASE(f) + to_z(q))
                return it.ctx.reg(Ext("tline", cols=it.ctx.reg(VList(n=add(F, 2), fn=lambda x: Atom("str", ex(to_z(n), to_z(x)))))))
            return Seq(LINES(f), line)
        it.world.models["builtins.open"] = op
        files = c.reg(VList(n=K, fn=lambda q: Atom("str", FNAME(to_z(q)))))
        s = it.new(GE + "samplers:FileEdgeSampler", feature_dim=F, feature_type=ExtRef("numpy.float32"), edge_type=et, logger=it.call(it.get("deepgnn:get_logger"), []))
        it.world.models["numpy.float32"] = lambda it, a, k: it.ctx.reg(Ext("scalar15"))
        it.world.kinds["scalar15"] = Scalar
        it.call_method(s, "_load_edge_files", [files, "\t"])
        E = s.fields["edges"]
        c.oblige("every line once", And(eqv(E.shape[0], total), eqv(E.shape[1], 3)))
        c.oblige("ids and type of line i", And(eqv(E.fn(i, 0), fe(i, 0)), eqv(E.fn(i, 1), fe(i, 1)), eqv(E.fn(i, 2), et)))
        if feats:
            X = s.fields["features"]
            c.oblige("features of line i", And(eqv(X.shape[0], total), eqv(X.shape[1], F), eqv(X.fn(i, j), ff(i, j))))
    return p


for _F in (False, True):
    edge_loader(_F)


@proof("node files are loaded one after the other, any number of them", qtimeout=20000)
def p_nodes(c, it):
    K, f, q = c.int("files", lo=1), c.int("f", lo=0), c.int("q", lo=0)
    val = c.func("node", "int", "int", "int")
    c.assume(ForAll(1, lambda x: LINES(x) >= 0))
    c.assume(And(f < K, q < LINES(f)))

    def read(it, a, k):
        t = getattr(a[0], "expr", None)
        if t is None or not z3.is_app(t) or t.decl().name() != "fname" or a[1:]:
            raise Unsupported("reads something else")
        how.append(set(k) == {"dtype", "sep"} and k["sep"] == "\n" and lib.dtype_of(it, k["dtype"]) == "int64")
        x = t.arg(0)
        return NArr((LINES(x),), lambda i: val(x, to_z(i)), "int64")
    it.world.models["numpy.fromfile"] = read
    asked, how = [], []

    def files(it, a, k):
        asked.append((list(a), dict(k)))
        return it.ctx.reg(VList(n=K, fn=lambda i: Atom("str", FNAME(to_z(i)))))
    it.overrides[GE + "samplers.get_files"] = files
    w, W = c.int("worker", lo=0), c.int("workers", lo=1)
    s = it.call(it.get(GE + "samplers:FileNodeSampler"), ["pattern", 1], dict(worker_index=w, num_workers=W))
    a = list(asked[0][0]) + [asked[0][1].get(n) for n in ("sample_files", "worker_index", "num_workers")[len(asked[0][0]):]]
    c.oblige("files of this worker", And(len(asked) == 1, a[0] == "pattern", eqv(a[1], w), eqv(a[2], W)))
    c.oblige("the files hold one number per line", And(*how))
    r = s.fields["nodes"]
    cat = [e[1](z3.IntVal(0))[0] for e in it.enums() if e[0] == "concat"]
    if len(cat) != 1:
        raise Unsupported("joined in another way")
    S, ln, at, m = cat[0]
    p, x = c.fresh_int("p"), c.fresh_int("x")
    c.oblige("lemma: prefix sums grow (base)", Implies(0 <= p, And(S(p + 1) >= S(p), S(p + 1) == S(p) + LINES(p))))
    c.oblige("lemma: prefix sums grow (step)", Implies(And(0 <= p, p <= x, S(x) >= S(p)), S(x + 1) >= S(p)))
    row = S(f) + q
    for y, z in ((f + 1, at(row)), (at(row) + 1, f), (f + 1, to_z(K)), (z3.IntVal(0), f)):
        c.assume(Implies(And(0 <= y, y <= z), S(z) >= S(y)))
    c.assume(S(f + 1) == S(f) + LINES(f))
    c.oblige("as many samples as lines", And(eqv(m, K), eqv(r.shape[0], S(K))))
    c.oblige("line q of file f follows the lines of the files before", eqv(snap(r)(row), val(f, q)))
