"""C34: opening graph metadata restores what was written."""
from vc.api import *
from contracts.C23 import Environ

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for any number of partitions and types, local and remote graph folders. Assumed: json round trip; the native library copies a remote metadata file to the folder it is given."
ASSUMPTIONS = ["json.load returns the document written", "type lists of the document have one entry per type (C09)", "the native copy of remote metadata works or reports a failure (C22)"]
M = GE + "snark.meta:"
MQ = GE + "snark.meta."
KEYS = ("node_count", "edge_count", "node_type_count", "edge_type_count", "node_feature_count", "edge_feature_count", "watermark")
NAMES = {"node_feature_count": "_node_feature_count", "edge_feature_count": "_edge_feature_count"}


class File:
    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        return None


def open_(it, a, k):
    c = it.ctx
    c.oblige("reads the metadata of the graph", eqv(a[0], c.ghost["%path"]))
    c.oblige("only reads it", (a[1] if len(a) > 1 else k.get("mode", "r")) in ("r", "rt", "rb"))
    if c.branch(c.fresh_bool("missing")):
        c.ghost["%missing"].v = True
        raise PyExc(FileNotFoundError, (a[0],))
    return c.reg(Ext("metafile"))


class Box:
    def __init__(self, v):
        self.v = v


def setup(world):
    install_mp(world)
    world.kinds["metafile"] = File
    world.models["builtins.open"] = open_
    world.models["tempfile.TemporaryDirectory"] = lambda it, a, k: it.ctx.reg(Ext("tempfile.TemporaryDirectory", name=it.ctx.atom("str", "tmp")))


def totals(L, field, S, w, cnt, upto, part=None):
    """totals over the partitions before `upto`; types before `part` also have the weight of partition `upto`"""
    l = L.self.fields[field]
    n, t, S, w = L.ghost[cnt], L.ghost["%t"], L.ghost[S], L.ghost[w]
    v = S(t, to_z(upto))
    if part is not None:
        v = z3.If(to_z(lt(t, part)), v + w(to_z(upto), t), v)
    return [(field + " length", eqv(l.length(), n)),
            (field + " totals", Implies(inrange(0, t, n), cmp("==", lget(l, t), v)))]


def outer(L):
    c, t, k = L.c, L.ghost["%t"], to_z(L.k)
    if L.phase == "assume":
        L.ghost["%cur"].v = L.k
    for S, w in (("%SN", "%nw"), ("%SE", "%ew")):
        S, w = L.ghost[S], L.ghost[w]
        c.assume(And(S(t, z3.IntVal(0)) == 0, S(t, k + 1) == S(t, k) + w(k, t)))
    return totals(L, "_node_weights", "%SN", "%nw", "%nt", L.k) + totals(L, "_edge_weights", "%SE", "%ew", "%et", L.k)


def inner(field):
    N = field == "_node_weights"
    S, w, cnt = ("%SN", "%nw", "%nt") if N else ("%SE", "%ew", "%et")

    def inv(L):
        return totals(L, field, S, w, cnt, L.ghost["%cur"].v, L.k)
    return inv


LOOPS = [LoopSpec("node types", inner("_node_weights"), when=lambda L: "node_weight" in L.src() and "edge_weight" not in L.src()),
         LoopSpec("edge types", inner("_edge_weights"), when=lambda L: "edge_weight" in L.src() and "node_weight" not in L.src()),
         LoopSpec("partitions", outer, when=lambda L: True)]


def document(c, version):
    P, nt, et = c.int("P", lo=0), c.int("nt", lo=0), c.int("et", lo=0)
    nw, ew = c.func("nw", "int", "int", "real"), c.func("ew", "int", "int", "real")
    ids, inv = c.func("ids", "int", "int"), c.func("ids.inv", "int", "int")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, P), And(inv(ids(i)) == i, ids(i) >= 0))))
    number = lambda x: inv(to_z(int_key(x)))
    has = lambda x: And(inrange(0, number(x), P), ids(number(x)) == to_z(int_key(x)))
    row = lambda f, n, p: VList(n=n, fn=lambda j: f(p, to_z(j)))
    get = lambda x: VDict([("node_weight", row(nw, nt, number(x))), ("edge_weight", row(ew, et, number(x)))])
    parts = c.reg(SMap(has, get))
    parts.enum, parts.distinct = Seq(P, lambda i: SStr([("int", ids(to_z(i)))])), True
    vals = {k: c.int("v_" + k) for k in KEYS if not k.endswith("type_count")}
    vals.update(node_type_count=nt, edge_type_count=et)
    npt, ept = c.ilist("npt", nt), c.ilist("ept", et)
    t = c.int("t", lo=0)
    SN, SE = c.func("sum.nw", "int", "int", "real"), c.func("sum.ew", "int", "int", "real")
    c.ghost.update({"%P": P, "%nt": nt, "%et": et, "%nw": nw, "%ew": ew, "%SN": SN, "%SE": SE, "%t": t, "%number": number, "%missing": Box(False), "%cur": Box(None)})
    data = c.reg(VDict([("binary_data_version", version)] + list(vals.items()) + [("partitions", parts), ("node_count_per_type", npt), ("edge_count_per_type", ept)]))
    return data, vals, npt, ept


def local(it, a, k):
    c = it.ctx
    c.oblige("the metadata of the graph asked for", And(eqv(a[0], c.ghost["%folder"]), eqv(a[2] if len(a) > 2 else k.get("config_path"), c.ghost["%config"])))
    return c.ghost["%path"]


@proof("metadata is read as written", loops=LOOPS, overrides={MQ + "download_meta": local})
def p_read(c, it):
    data, vals, npt, ept = document(c, "v2")
    folder, config = c.atom("str", "folder"), c.atom("str", "config")
    c.ghost.update({"%path": c.atom("str", "path"), "%folder": folder, "%config": config})
    it.world.models["json.load"] = lambda it, a, k: data
    try:
        m = it.call(it.get(M + "Meta"), [folder, config])
    except PyExc as e:
        c.oblige("only a missing file fails", And(c.ghost["%missing"].v, e.cls is FileNotFoundError))
        return
    c.oblige("a missing file is reported", Not(c.ghost["%missing"].v))
    P, nt, et, t = (c.ghost[x] for x in ("%P", "%nt", "%et", "%t"))
    for k, w in vals.items():
        c.oblige("read " + k, eqv(it.getattr(m, NAMES.get(k, k)), w))
    c.oblige("read version", eqv(it.getattr(m, "version"), "v2"))
    c.oblige("number of partitions", eqv(it.getattr(m, "partition_count"), P))
    for k, l in (("node_count_per_type", npt), ("edge_count_per_type", ept)):
        c.oblige("read " + k, eqv(it.getattr(m, k), l))
    for f, n, S in (("_node_weights", nt, "%SN"), ("_edge_weights", et, "%SE")):
        l = it.getattr(m, f)
        c.oblige("one total per type: " + f, eqv(l.length(), n))
        c.oblige("totals over all partitions: " + f, Implies(lt(t, n), cmp("==", lget(l, t), c.ghost[S](t, to_z(P)))))


@proof("metadata without a version is refused", loops=LOOPS, overrides={MQ + "download_meta": local})
def p_version(c, it):
    data = document(c, "2")[0]
    c.ghost.update({"%path": c.atom("str", "path"), "%folder": "f", "%config": ""})
    it.world.models["json.load"] = lambda it, a, k: data
    try:
        it.call(it.get(M + "Meta"), ["f"])
    except PyExc as e:
        c.oblige("refused", Or(c.ghost["%missing"].v, e.cls is RuntimeError))
        return
    c.oblige("unversioned data must be refused", False)


# ---------------------------------------------------------------- where it is read from
class Lib:
    def a_HDFSMoveMeta(it, o):
        return it.ctx.ghost["%move"]


class Move:
    def m___call__(it, o, src, dst, config):
        c, g = it.ctx, it.ctx.ghost
        c.oblige("failures of the copy are reported", o.fields["errcheck"] is not None)
        c.oblige("copies the metadata file of the graph", And(eqv(src, meta(it, g["%src"])), eqv(config, g["%cfg"])))
        c.oblige("into the folder it is read from", eqv(dst, meta(it, g["%dst"])))
        it.setfield(o, "moved", add(o.fields["moved"], 1))
        return 0


def meta(it, folder):
    return it.binop("Add", it.binop("Add", SStr([("atom", folder)]), "/"), "meta.json")


def text(it, a, k):
    """the text a byte string encodes"""
    b = a[0]
    if not (isinstance(b, Bytes) and len(b.segs) == 1 and b.segs[0][0] == "utf8"):
        raise Unsupported(f"text argument {b!r}")
    return b.segs[0][1]


def lsetup(world):
    setup(world)
    world.kinds.update({"lib34": Lib, "move34": Move})
    world.models["ctypes.c_char_p"] = text
    world.models["ctypes.CDLL"] = lambda it, a, k: it.ctx.reg(Ext("lib34"))
    world.models["platform.system"] = lambda it, a, k: "Linux"
    world.models["os.path.dirname"] = lambda it, a, k: Tok("dirname", *a)
    world.kinds["environ"] = Environ
    world.consts["os.environ"] = lambda it: it.ctx.reg(Ext("environ"))
    pre = z3.Function("startswith", Val, Val, z3.BoolSort())
    world.atom_methods.setdefault("str", {})["startswith"] = lambda it, o, x: Or(*[pre(o.expr, z3.Const(f"text:{y}", Val)) for y in (x if isinstance(x, tuple) else (x,))])


@proof("metadata is read from the graph folder", setup=lsetup,
       overrides={MQ + "_set_hadoop_classpath": lambda it, a, k: None})
def p_where(c, it):
    src, dst, cfg = (c.atom("str", x) for x in ("src", "dst", "config"))
    pre = z3.Function("startswith", Val, Val, z3.BoolSort())
    remote = Or(*[pre(src.expr, z3.Const("text:" + x, Val)) for x in ("hdfs://", "adl://", "file:///")])
    move = c.reg(Ext("move34", errcheck=None, moved=0, argtypes=None, restype=None))
    c.ghost.update({"%move": move, "%src": src, "%dst": dst, "%cfg": cfg})
    r = it.call(it.get(M + "download_meta"), [src, dst, cfg])
    c.oblige("remote metadata is copied once, local metadata never", eqv(move.fields["moved"], z3.If(to_z(remote), 1, 0)))
    c.oblige("read from the copy or the graph folder", z3.If(to_z(remote), to_z(eqv(r, meta(it, dst))), to_z(eqv(r, meta(it, src)))))
