"""C02: input files and lines are split across workers with no loss and no overlap."""
import ast
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof over all file lists, line counts, worker counts and indexes of the real splitting functions: item p of the sorted order goes "
    "to worker p mod W at place p div W and nowhere else. Directory listing, glob and sorted are assumed contracts."
)
ASSUMPTIONS = ["glob/ls return each file name once", "sorted returns a sorted permutation", "a text file iterates its lines in order"]
S = GE + "samplers:"
FN = z3.Function("fname", z3.IntSort(), Val)


def names(c, n):
    return c.reg(VList(n=n, fn=lambda i: Atom("str", FN(to_z(i)))))


def setup(world):
    world.kinds["fs2"] = FS2
    world.kinds["object"] = type("O", (), {})


def shares(c, res, order, F, W, w):
    """res is exactly the worker's share of `order` (a sequence of F items)"""
    m = to_z(res.length())
    j = c.int("j", lo=0)
    p = c.int("p")
    c.oblige("share holds exactly the items at w, w+W, ...", cmp("==", j < m, w + j * W < F))
    c.oblige("items in order", Implies(j < m, eqv(lget(res, j), order(w + j * W))))
    # every item has one worker and one place: Euclid
    q, r = c.divmod(p, W)
    c.oblige("item p belongs to worker p mod W only", Implies(And(inrange(0, p, F), w + j * W == p), And(r == w, q == j)))


class FS2:
    def m_isfile(it, o, path):
        return it.ctx.ghost["%isfile"]

    def m_ls(it, o, path):
        return it.ctx.ghost["%files"]


def files_case(c, it):
    F, W, w = c.int("F", lo=0), c.int("W", lo=1), c.int("w", lo=0)
    c.assume(w < W)
    l = names(c, F)
    c.ghost["%files"] = l
    return F, W, w, l


@proof("sample files by worker")
def p1(c, it):
    F, W, w, l = files_case(c, it)
    it.world.models["glob.glob"] = lambda it, a, k: l
    try:
        res = it.call(it.get(S + "get_files"), ["pattern", w, W])
    except PyExc as e:
        if e.cls is not RuntimeError:
            raise
        c.oblige("refused only with fewer files than workers", lt(F, W))
        return
    c.oblige("fewer files than workers is refused", ge(F, W))
    o = lib.sorted_view(it, l)
    shares(c, res, lambda i: lget(o, i), F, W, w)


def text_files(adl, single):
    @proof(f"text input files by worker ({'data lake' if adl else 'one file' if single else 'directory'})")
    def p(c, it):
        F, W, w, l = files_case(c, it)
        c.ghost["%isfile"] = single
        x = it.new(GE + "_adl_reader:TextFileIterator", fs=c.reg(Ext("fs2")))
        if adl:
            x.fields["adl"] = c.reg(Ext("adl"))
            it.world.kinds["adl"] = type("A", (), {"m_glob": lambda it, o, path: l})
        path = c.atom("str", "path")
        if single:
            F = 1
            l = c.reg(VList(items=[path]))
        orig = VList(items=list(l.items) if l.items is not None else None, n=l.n, fn=l.fn)
        try:
            res = it.call_method(x, "get_worker_files", [path, w, W])
        except PyExc as e:
            if e.cls is not RuntimeError:
                raise
            c.oblige("refused only with fewer files than workers", lt(F, W))
            return
        c.oblige("fewer files than workers is refused", ge(F, W))
        if single:
            c.oblige("the file itself", And(eqv(res.length(), 1), eqv(lget(res, 0), path)))
            return
        o = lib.sorted_view(it, orig)
        shares(c, res, lambda i: lget(o, i), F, W, w)
    return p


for _a, _s in ((False, False), (False, True), (True, False)):
    text_files(_a, _s)
for P in PROOFS[1:]:
    P.loops = [LoopSpec("files", lambda L: [("count", eqv(L.files.length(), L.k)),
                                            ("place", ForAll(1, lambda i: Implies(inrange(0, i, L.k), eqv(lget(L.files, i), lget(L.total_files, add(L.worker_index, mul(i, L.num_workers)))))))],
                        when=lambda L: L.has("files", "total_files"), types={"L:files/contents": ("atom", "str", Val)})]


# ---------------------------------------------------------------- lines of one tuple file
PA = z3.Function("part", z3.IntSort(), z3.IntSort(), z3.IntSort())


def count(c, k, W, w):
    """number of i < k with i mod W == w"""
    q, r = c.divmod(k, W)
    return q + z3.If(r > w, 1, 0)


def line_inv(L):
    W, w = L.num_workers, L.worker_index
    p, pq, pr = L.ghost["%p"]
    c = L.c
    n = count(c, to_z(L.k), W, w)
    out = []
    for l, j in L.ghost["%lists"](L):
        out.append((f"lines so far {j}", eqv(l.length(), n)))
        if l.items is None:
            out.append((f"line p {j}", Implies(p < to_z(L.k), And(pq < to_z(n), L.ghost["%row"](l.fn(pq), j, p)))))
    return out


def reads(f):
    def op(it, a, k):
        it.ctx.oblige("the given file is read", And(a[0] == "f", a[1:] in ([], ["r"], ["rt"]), k.get("mode", "r") in ("r", "rt")))
        return f()
    return op


def tuple_common(c):
    n, W, w = c.int("lines", lo=0), c.int("W", lo=1), c.int("w", lo=0)
    c.assume(w < W)
    p = c.int("p", lo=0)
    c.assume(p < n)
    pq, pr = c.divmod(p, W)
    c.assume(pr == w)
    c.ghost["%p"] = (p, pq, pr)
    return n, W, w, p, pq


class TupleLine:
    """a line of two columns with a tab between them"""

    def m_split(it, o, sep=None, *a):
        if sep not in ("\t", None) or a:
            raise Unsupported("another separator")
        return it.ctx.reg(VList(items=list(o.fields["cols"])))

    def cut(it, o, *a):
        return o
    m_strip = m_rstrip = cut


@proof("lines of a tuple file by worker", loops=[LoopSpec("lines", line_inv, when=lambda L: L.has("data"), types={"L:data/contents": ("list", "int")})])
def p_t1(c, it):
    n, W, w, p, pq = tuple_common(c)
    c.ghost["%lists"] = lambda L: [(L.data, 0)]
    c.ghost["%row"] = lambda r, j, p: And(eqv(r.length(), 2), eqv(lget(r, 0), PA(p, 0)), eqv(lget(r, 1), PA(p, 1)))
    ex = c.func("txt", "int", "int", "val")
    c.assume(ForAll(2, lambda a, b: parse_int(ex(a, b)) == PA(a, b)))
    it.world.kinds["tline"] = TupleLine
    it.world.models["builtins.open"] = reads(lambda: Seq(n, lambda i: c.reg(Ext("tline", cols=[Atom("str", ex(to_z(i), z3.IntVal(j))) for j in range(2)]))))
    it.world.models["numpy.array"] = lambda it, a, k: a[0]
    s = it.new(S + "FileTupleSampler", logger=it.call(it.get("deepgnn:get_logger"), []))
    d = it.call_method(s, "_load_tuple_file", ["f", w, W])
    c.oblige("as many lines as belong to the worker", eqv(d.length(), count(c, n, W, w)))
    r = lget(d, pq)
    c.oblige("line p at place p div W", And(eqv(lget(r, 0), PA(p, 0)), eqv(lget(r, 1), PA(p, 1))))


class Table:
    """M columns of `rows` lines each; those before `part` have one more"""
    def m___len__(it, o):
        return o.fields["m"]

    def m___getitem__(it, o, i):
        it.ctx.oblige("column exists", inrange(0, i, o.fields["m"]), kind="loop")
        return it.ctx.reg(Ext("column2", t=o, i=i))

    def seq(it, o):
        return Seq(o.fields["m"], lambda i: Ext("column2", t=o, i=i))


def _other():
    raise Unsupported("arrays made in another way")


class Column:
    def m___len__(it, o):
        t = o.fields["t"]
        return add(t.fields["rows"], ite(lt(o.fields["i"], t.fields["part"]), 1, 0))

    def m_append(it, o, v):
        t = o.fields["t"]
        it.ctx.oblige("one place per line of the worker", eqv(t.fields["rows"], it.ctx.ghost["%place"]), kind="loop")
        it.ctx.oblige("columns are filled in turn", eqv(o.fields["i"], t.fields["part"]), kind="loop")
        it.ctx.oblige("a part goes to its column", eqv(v, PA(it.ctx.ghost["%line"], to_z(o.fields["i"]))), kind="loop")
        it.setfield(t, "part", add(t.fields["part"], 1))


def table(it, o=None, n=None):
    t = Ext("table2", rows=it.ctx.fresh_int("rows"), m=it.ctx.fresh_int("m"), part=it.ctx.fresh_int("part"))
    if o is None:
        return it.ctx.reg(t)
    o.__class__ = Ext
    o.kind, o.fields = t.kind, t.fields


def v2_lines(L):
    W, w, M = L.num_workers, L.worker_index, L.ghost["%m"]
    t = L.raw_data
    L.ghost["%line"] = to_z(L.k)
    n = to_z(count(L.c, to_z(L.k), W, w))
    if isinstance(t, VList):
        return [("nothing yet", And(eqv(t.length(), 0), n == 0))]
    L.ghost["%place"] = n
    done = And(eqv(t.fields["rows"], n), eqv(t.fields["part"], 0))
    if L.phase != "assume":                     # all columns have one more line
        done = Or(done, And(eqv(add(t.fields["rows"], 1), n), eqv(t.fields["part"], M)))
    return [("columns", eqv(t.fields["m"], z3.If(n == 0, 0, M))), ("lines so far", done)]


def v2_parts(L):
    t, M = L.raw_data, L.ghost["%m"]
    if isinstance(t, VList):
        j = L.c.fresh_int("col")
        L.ghost["%rows"] = 0
        return [("empty columns for the first line", And(eqv(t.length(), M), Implies(inrange(0, j, M), eqv(lget(t, j).length(), 0))))]
    if L.phase == "init":
        L.ghost["%rows"] = t.fields["rows"]
    return [("columns so far", And(eqv(t.fields["part"], L.k), eqv(t.fields["m"], M), eqv(t.fields["rows"], L.ghost["%rows"])))]


@proof("lines of a tuple file by worker (v2, any number of columns)",
       loops=[LoopSpec("parts", v2_parts, when=lambda L: L.has("raw_data") and "append" in L.src() and not any(isinstance(x, ast.For) for x in ast.walk(L.node) if x is not L.node), types={"L:raw_data/contents": ("fill", table)}),
              LoopSpec("lines", v2_lines, when=lambda L: L.has("raw_data"), types={"L:raw_data": ("make", lambda it, n: table(it))})])
def p_t2(c, it):
    n, W, w, p, pq = tuple_common(c)
    M = c.ghost["%m"] = c.int("M", lo=1)
    it.world.kinds.update({"table2": Table, "column2": Column})
    it.world.models["builtins.open"] = reads(lambda: Seq(n, lambda i: c.reg(Ext("object", i=i))))
    s = it.new(S + "FileTupleSamplerV2", logger=it.call(it.get("deepgnn:get_logger"), []))
    parse = Prim("parse", lambda it, a, k: it.ctx.reg(VList(n=M, fn=lambda j: PA(to_z(a[0].fields["i"]), to_z(j)))))
    it.world.models["numpy.array"] = lambda it, a, k: a[0] if not a[1:] and not k else _other()
    d = it.call_method(s, "_load_tuple_file", ["f", w, W, parse])
    c.oblige("one array per column", eqv(d.length(), M))
    j = c.int("column", lo=0)
    c.assume(j < M)
    col = lget(d, j)
    if not (isinstance(col, Ext) and col.kind == "column2"):
        raise Unsupported("columns in another form")
    c.oblige("each column in its place", eqv(col.fields["i"], j))
    c.oblige("as many lines as belong to the worker", eqv(Column.m___len__(it, col), count(c, n, W, w)))
    c.oblige("line p at place p div W", eqv(count(c, p, W, w), pq))          # where it was put when it was read


@proof("data-parallel text samplers use worker*D+rank of W*D shares")
def p_ts(c, it):
    W, w, D, r = c.int("W", lo=1), c.int("w", lo=0), c.int("D", lo=1), c.int("r", lo=0)
    c.assume(And(w < W, r < D))
    got = {}

    def tfi(it, a, k):
        got.update(k)
        return it.ctx.reg(Ext("object"))
    it.overrides[GE + "_adl_reader.TextFileIterator"] = tfi
    it.call(it.get(S + "TextFileSampler"), ["store", "file"], dict(worker_index=w, num_workers=W, data_parallel_num=D, data_parallel_index=r))
    W2, w2 = to_z(got["num_workers"]), to_z(got["worker_index"])
    c.oblige("share index valid", And(W2 == W * D, 0 <= w2, w2 < W2))
    c.oblige("share is the worker's rank", w2 == w * D + r)
