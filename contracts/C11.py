"""C11: file names and remote loading."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof: for every pair of path builders and all partition, part and type numbers the names differ unless builder and numbers are the same; for any number of partitions in any mix of local and "
    "remote folders each remote partition's files are requested by patterns covering every part and type."
)
ASSUMPTIONS = ["fsspec's get downloads every file matching the patterns it is given", "partition, part and type numbers are non-negative (a negative number asks for a pattern)"]
MT = GE + "snark.meta:"
MQ = GE + "snark.meta."


def builders(it):
    """(kind, number of numbers, call)"""
    N, E = it.getattr(it.get(MT + "_Element"), "NODE"), it.getattr(it.get(MT + "_Element"), "EDGE")
    F = lambda n: it.get(MT + n)
    out = [("metadata", 0, lambda p: it.call(F("_get_meta_path"), [p])),
           ("node map", 2, lambda p, a, b: it.call(F("_get_node_map_path"), [p, a, b])),
           ("neighbor index", 2, lambda p, a, b: it.call(F("_get_neighbors_index_path"), [p, a, b]))]
    for nm, el in (("node", N), ("edge", E)):
        for what, f in (("timestamps", "_get_element_timestamps_path"), ("index", "_get_element_index_path"), ("feature index", "_get_element_features_index_path"),
                        ("feature data", "_get_element_features_data_path"), ("sampler", "_get_element_alias_path")):
            out.append((nm + " " + what, 2, lambda p, a, b, f=f, el=el: it.call(F(f), [el, p, a, b])))
    return out


@proof("no two graph files share a name")
def p_names(c, it):
    bs = builders(it)
    args = [[c.int(f"{s}{j}", lo=0) for j in range(2)] for s in ("a", "b")]
    names = [[(k, n, it.tostr(f("out", *a[:n]))) for k, n, f in bs] for a in args]
    for k1, n1, s1 in names[0]:
        c.oblige(k1 + ": inside the folder", (s1 if isinstance(s1, str) else s1.parts[0]).startswith("out/"))
        for k2, n2, s2 in names[1]:
            same = And(*[eqv(x, y) for x, y in zip(args[0][:n1], args[1][:n2])]) if k1 == k2 else False
            c.oblige(f"{k1} and {k2} only share a name when they are the same file", Implies(eqv(s1, s2), same))


class RFS:
    def a_sep(it, o):
        return "/"

    def m_get(it, o, src, dst, **k):
        c = it.ctx
        c.ghost["%gets"].append((o.fields["of"], src, dst))


def get_fs(it, a, k):
    """a local or a remote filesystem, depending on the path"""
    c = it.ctx
    p = it.force(a[0])
    key = p.expr if isinstance(p, Atom) else None
    if key is None:
        raise Unsupported("filesystem of a computed path")
    if c.branch(c.ghost["%local"](key)):
        return (c.reg(Ext("fsspec.implementations.local.LocalFileSystem", of=key)), None)
    return (c.reg(Ext("rfs", of=key)), None)


def new_meta(it, a, k):
    c = it.ctx
    c.oblige("metadata is read from the downloaded copy", len(c.ghost["%gets"]) >= 1 and eqv(a[0], c.ghost["%tmp"]))
    return c.reg(Ext("meta", _node_feature_count=c.ghost["%nf"], _edge_feature_count=c.ghost["%ef"], watermark=c.ghost["%wm"]))


def needed(c, it, path, idx):
    """[(condition, pattern)]"""
    nf, ef, wm = c.ghost["%nf"], c.ghost["%ef"], c.ghost["%wm"]
    P = lambda *x: mkstr([SStr([("atom", path)]), "/"] + list(x))
    i = it.tostr(idx)
    out = [(True, P("node_", i, "_*.map")), (True, P("neighbors_", i, "_*.index")), (True, P("node_", i, "_*.index")), (True, P("edge_", i, "_*.index")),
           (True, P("node_*_", i, ".alias")), (True, P("edge_*_", i, ".alias")), (ge(wm, 0), P("edge_", i, "_*.timestamp"))]
    for el, n in (("node", nf), ("edge", ef)):
        out += [(gt(n, 0), P(el + "_features_", i, "_*.data")), (gt(n, 0), P(el + "_features_", i, "_*.index"))]
    return out


def same(a, b):
    """equality of file patterns; unequal templates count as different"""
    a, b = SStr([a]) if isinstance(a, str) else a, SStr([b]) if isinstance(b, str) else b
    if len(a.parts) != len(b.parts):
        return False
    r = True
    for x, y in zip(a.parts, b.parts):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif x[0] != y[0]:
            return False
        else:
            r = And(r, eqv(x[1], y[1]))
    return r


def fetched(c, it, k, obl, gets, parts):
    path, idx = c.ghost["%path"](k), c.ghost["%idx"](k)
    loc = c.ghost["%local"](path.expr)
    for cond, pat in needed(c, it, path, idx):
        hit = Or(*[And(to_z(of == path.expr), eqv(dst, c.ghost["%tmp"]), Or(*[same(it.tostr(x), pat) for x in (it.seq(src).fn(i) for i in range(simp(it.seq(src).n)))]))
                   for of, src, dst in gets if isinstance(src, VList)])
        lit = [p for p in pat.parts if isinstance(p, str)]
        obl("requested: " + "#".join(lit[1:] if len(lit) > 1 else lit), Implies(And(Not(loc), cond), hit))
    x = lget(parts, k)
    obl("a remote partition is then read from the download folder, a local one where it is", And(Implies(loc, eqv(x[0], path)), Implies(Not(loc), eqv(x[0], c.ghost["%tmp"])), eqv(x[1], idx)))


def inv(L):
    c = L.c
    out = [("number of partitions", eqv(L.ghost["parts"].length(), L.ghost["%n"]))]
    if L.phase == "step":
        fetched(c, L.interp, sub(L.k, 1), lambda n, f: out.append((n, f)), c.ghost["%gets"], L.ghost["parts"])
    if L.phase == "assume":
        c.ghost["%gets"] = []
    if L.phase != "init":
        # the probe is arbitrary, so what is proved for it may be assumed for the entry about to be handled
        for q in [c.ghost["%q"]] + ([L.k] if L.phase == "assume" else []):
            x = lget(L.ghost["parts"], q)
            out.append(("partitions not reached yet", Implies(le(L.k, q), eqv(x, (c.ghost["%path"](q), c.ghost["%idx"](q))))))
    else:
        c.ghost["%first"] = list(c.ghost["%gets"])
    return out


def start(c, it):
    it.world.kinds["rfs"] = RFS
    path, idx = c.func("path", "int", "val"), c.func("idx", "int", "int")
    c.assume(ForAll(1, lambda i: idx(i) >= 0))
    c.ghost["%local"] = c.func("local", "val", "bool")
    c.ghost.update({"%path": lambda k: Atom("str", path(to_z(k))), "%idx": lambda k: idx(to_z(k)), "%gets": [], "%nf": c.int("node_features", lo=0), "%ef": c.int("edge_features", lo=0), "%wm": c.int("watermark", lo=-1)})
    it.world.models["tempfile.TemporaryDirectory"] = lambda it, a, k: it.ctx.reg(Ext("tempfile.TemporaryDirectory", name=it.ctx.ghost["%tmp"]))
    c.ghost["%tmp"] = c.atom("str", "tmp")
    root = c.atom("str", "root")
    return root


OV = {GE + "_base.get_fs": get_fs, MQ + "Meta": new_meta}


@proof("a remote graph is fetched completely", overrides=OV)
def p_fetch(c, it):
    root = start(c, it)
    n = c.choose(4)
    parts = c.reg(VList(items=[(c.ghost["%path"](i), c.ghost["%idx"](i)) for i in range(n)]))
    r = it.call(it.get(GE + "snark._downloader:download_graph_data"), [root, parts])
    loc = c.ghost["%local"](root.expr)
    gets = c.ghost["%gets"]
    nm = it.getattr(r, "name")
    if c.branch(loc):
        c.oblige("a local graph is used where it is", And(len(gets) == 0, eqv(nm, root)))
        for i in range(n):
            c.oblige("partitions unchanged", eqv(parts.items[i], (c.ghost["%path"](i), c.ghost["%idx"](i))))
        return
    c.oblige("data is read from the download folder", eqv(nm, c.ghost["%tmp"]))
    c.oblige("metadata is fetched", Or(*[And(to_z(of == root.expr), same(it.tostr(s), SStr([("atom", root), "/meta.json"])), same(it.tostr(d), SStr([("atom", c.ghost["%tmp"]), "/meta.json"]))) for of, s, d in gets if not isinstance(s, VList)]))
    c.oblige("one entry per partition", len(parts.items) == n)
    for i in range(n):
        fetched(c, it, i, c.oblige, gets, parts)


LOOPS = [LoopSpec("partitions", inv, types={"G:parts/contents": ("tuple", ("atom", "str", Val), "int")})]


@proof("any number of partitions", overrides=OV, loops=LOOPS)
def p_any(c, it):
    root = start(c, it)
    n = c.int("n", lo=0)
    c.assume(Not(c.ghost["%local"](root.expr)))
    parts = c.reg(VList(n=n, fn=lambda k: (c.ghost["%path"](k), c.ghost["%idx"](k))))
    c.ghost["%n"] = n
    c.ghost["parts"], c.ghost["%q"] = parts, c.int("q", lo=0)
    r = it.call(it.get(GE + "snark._downloader:download_graph_data"), [root, parts])
    c.oblige("as many partitions as before", eqv(parts.length(), n))


def storage_options(it, a, k):
    """what fsspec reads from a path: the protocol and the path, and for some paths a host, a user and others"""
    c = it.ctx
    c.oblige("the options of the path given", eqv(a[0], c.ghost["%p"]))
    d = []
    for x in ("protocol", "path", "host", "port", "username"):
        if x in ("protocol", "path") or c.branch(c.fresh_bool("has_" + x)):
            d.append((x, c.atom("str", x)))
    c.ghost["%opts"].append(dict(d))
    return c.reg(VDict(d))


def filesystem(it, a, k):
    c = it.ctx
    c.ghost["%made"].append((list(a), dict(k)))
    return c.reg(Ext("rfs", of=None))


@proof("a path is read with the filesystem of its own kind, user and port")
def p_get_fs(c, it):
    it.world.kinds["rfs"] = RFS
    for n in ("infer_storage_options", "utils.infer_storage_options"):
        it.world.models["fsspec." + n] = storage_options
    it.world.models["fsspec.filesystem"] = filesystem
    c.ghost.update({"%p": c.atom("str", "p"), "%opts": [], "%made": []})
    r = it.call(it.get(GE + "_base:get_fs"), [c.ghost["%p"]])
    made, opts = c.ghost["%made"], c.ghost["%opts"]
    c.oblige("one filesystem", And(len(made) == 1, len(opts) == 1))
    a, k = made[0]
    if a:
        k = dict(k, protocol=a[0])
    want = {x: v for x, v in opts[0].items() if x not in ("path", "host")}
    c.oblige("options other than path and host are kept", And(len(a) <= 1, set(k) == set(want), *[eqv(k[x], v) for x, v in want.items() if x in k]))
    c.oblige("it is returned", it.force(it.getitem(r, 0)).kind == "rfs")
