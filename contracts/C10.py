"""C10: merging the workers' metadata."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof for any number of workers, partitions per worker and types: reading one worker's metadata and handing out its partitions, "
    "merging any list of them, and feeding every listed file to the merge. Assumed: json round trip, glob returns every matching file in some order."
)
ASSUMPTIONS = ["partition ids of different workers differ (C01)", "workers agree on type counts, feature counts and watermark, as the table in the module requires"]
M = GE + "snark.meta_merger:"
MQ = GE + "snark.meta_merger."
KEYS = ("node_count", "edge_count", "node_type_count", "edge_type_count", "node_feature_count", "edge_feature_count", "watermark")


def setup(world):
    install_mp(world)


def pid(x):
    return SStr([("int", x)])


def dget(d, k):
    for kk, v in d.pairs:
        if kk == k:
            return v
    raise Unsupported("metadata key " + k)


def rows(L, field, fn, cnt, upto, rest=True):
    """weights of partitions before `upto` are the file's, later ones zero"""
    l = L.self.fields[field]
    P = L.ghost["%P"]
    n = to_z(cnt)
    q, j = z3.Int("!q"), z3.Int("!j")
    if l.items is not None and not l.items:
        return [(field + " rows", eqv(P, 0))]
    e = lget(l, q)
    ok = cmp("==", lget(e, j), fn(q, j))
    zero = cmp("==", lget(e, j), 0)
    return [(field + " rows", eqv(l.length(), P)),
            (field + " row length", z3.ForAll([q], to_z(Implies(inrange(0, q, P), eqv(e.length(), cnt))))),
            (field + " read", z3.ForAll([q, j], to_z(Implies(And(inrange(0, q, upto), inrange(0, j, cnt)), ok)))),
            (field + " unread", z3.ForAll([q, j], to_z(Implies(And(le(upto, q), lt(q, P), inrange(0, j, cnt)), zero))))]


def outer(L):
    if not L.self.fields.get("node_weights") or not isinstance(L.self.fields["node_weights"], VList):
        raise Unsupported("weights")
    return rows(L, "node_weights", L.ghost["%nw"], L.ghost["%nt"], L.k) + rows(L, "edge_weights", L.ghost["%ew"], L.ghost["%et"], L.k)


def inner(field, fn, cnt):
    def inv(L):
        l, l0 = L.self.fields[field], L.entry.self.fields[field]
        P, n, f = L.ghost["%P"], L.ghost[cnt], L.ghost[fn]
        cur = L.j
        q, j = z3.Int("!q"), z3.Int("!j")
        e = lget(l, q)
        return [("rows", eqv(l.length(), P)),
                ("row length", z3.ForAll([q], to_z(Implies(inrange(0, q, P), eqv(e.length(), n))))),
                ("others", z3.ForAll([q, j], to_z(Implies(And(inrange(0, q, P), q != to_z(cur), inrange(0, j, n)), cmp("==", lget(e, j), lget(lget(l0, q), j)))))),
                ("done", z3.ForAll([j], to_z(Implies(inrange(0, j, L.k), cmp("==", lget(lget(l, cur), j), f(to_z(cur), j)))))),
                ("todo", z3.ForAll([j], to_z(Implies(And(le(L.k, j), lt(j, n)), cmp("==", lget(lget(l, cur), j), lget(lget(l0, cur), j))))))]
    return inv


@proof("one worker's metadata is handed out under its own partition ids",
       loops=[LoopSpec("node types", inner("node_weights", "%nw", "%nt"), when=lambda L: "node_weight" in L.src() and "edge_weight" not in L.src()),
              LoopSpec("edge types", inner("edge_weights", "%ew", "%et"), when=lambda L: "edge_weight" in L.src() and "node_weight" not in L.src()),
              LoopSpec("partitions", outer, when=lambda L: True)], budget=300)
def p_meta(c, it):
    P, nt, et = c.int("P", lo=0), c.int("nt", lo=0), c.int("et", lo=0)
    nw, ew = c.func("nw", "int", "int", "real"), c.func("ew", "int", "int", "real")
    ids, inv = c.func("ids", "int", "int"), c.func("ids.inv", "int", "int")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, P), And(inv(ids(i)) == i, ids(i) >= 0))))
    has = lambda x: And(inrange(0, inv(to_z(int_key(x))), P), ids(inv(to_z(int_key(x)))) == to_z(int_key(x)))
    row = lambda f, n, p: VList(n=n, fn=lambda j: f(p, to_z(j)))
    get = lambda x: VDict([("node_weight", row(nw, nt, inv(to_z(int_key(x))))), ("edge_weight", row(ew, et, inv(to_z(int_key(x)))))])
    parts = c.reg(SMap(has, get))
    parts.enum, parts.distinct = Seq(P, lambda i: pid(ids(to_z(i)))), True
    vals = {k: c.int("v_" + k) for k in KEYS if not k.endswith("type_count")}
    vals.update(node_type_count=nt, edge_type_count=et)
    npt, ept = c.ilist("npt", nt), c.ilist("ept", et)
    ver = "v2"
    data = c.reg(VDict([("binary_data_version", ver)] + list(vals.items()) + [("partitions", parts), ("node_count_per_type", npt), ("edge_count_per_type", ept)]))
    c.ghost.update({"%P": P, "%nt": nt, "%et": et, "%nw": nw, "%ew": ew, "opened": c.reg(VList(items=[]))})
    it.world.models["json.load"] = lambda it, a, k: data
    m = it.call(it.get(M + "Meta"), [c.reg(Ext("fs")), "meta_0.json"])
    g, t, x = c.int("g", lo=0), c.int("t", lo=0), c.int("x", lo=0)
    c.assume(g < P)
    d = it.call_method(m, "get_partition", [])
    h, gt_ = map_view(d)
    c.oblige("every partition is handed out", h(ids(g)))
    c.oblige("nothing else is handed out", Implies(h(x), Exists(1, lambda q: And(inrange(0, q, P), ids(q) == x))))
    v = gt_(ids(g))
    if v is not None:
        for key, f, n in (("node_weight", nw, nt), ("edge_weight", ew, et)):
            l = dget(v, key)
            c.oblige("partition keeps its own " + key, And(eqv(l.length(), n), Implies(lt(t, n), cmp("==", lget(l, t), f(g, t)))))
    for k, w in vals.items():
        c.oblige("read " + k, eqv(it.getattr(m, k), w))
    for k, l in (("node_count_per_type", npt), ("edge_count_per_type", ept)):
        c.oblige("read " + k, eqv(it.getattr(m, k), l))
    c.oblige("read version", eqv(it.getattr(m, "version"), ver))


@proof("data without a version is refused")
def p_version(c, it):
    data = c.reg(VDict([("binary_data_version", "1")] + [(k, 0) for k in KEYS] + [("partitions", c.reg(VDict())), ("node_count_per_type", c.reg(VList(items=[]))), ("edge_count_per_type", c.reg(VList(items=[])))]))
    c.ghost["opened"] = c.reg(VList(items=[]))
    it.world.models["json.load"] = lambda it, a, k: data
    try:
        it.call(it.get(M + "Meta"), [c.reg(Ext("fs")), "meta_0.json"])
    except PyExc:
        c.oblige("refused", True)
        return
    c.oblige("unversioned data must be refused", False)


# ---------------------------------------------------------------- merge
def get_partition(it, a, k):
    s = a[0]
    m = s.fields["m"]
    return it.ctx.ghost["%part"](m)


def merge_inv(L):
    d = dget(L.content, "partitions") if L.has("content") else None
    if d is None:
        raise Unsupported("content")
    h, gt_ = map_view(d)
    m, g, t = L.ghost["%m"], L.ghost["%g"], L.ghost["%t"]
    ids, P = L.ghost["%ids"], L.ghost["%P"]
    x = L.ghost["%x"]
    seen = lt(m, L.k)
    out = [("listed once merged", Implies(seen, h(ids(m, g)))),
           ("nothing else", Implies(h(x), Exists(2, lambda a, b: And(inrange(0, a, L.k), inrange(0, b, P(a)), ids(a, b) == x))))]
    v = gt_(ids(m, g))
    if v is not None:
        for key, f, n in (("node_weight", L.ghost["%nw"], L.ghost["%nt"]), ("edge_weight", L.ghost["%ew"], L.ghost["%et"])):
            l = dget(v, key)
            out.append((key + " kept", Implies(seen, And(eqv(l.length(), n), Implies(lt(t, n), cmp("==", lget(l, t), f(m, g, t)))))))
    return out


REC = ("rec", ("node_weight", ("list", "real")), ("edge_weight", ("list", "real")))


def metas(c, it):
    n = c.int("workers", lo=1)
    nt, et = c.int("nt", lo=0), c.int("et", lo=0)
    nw, ew = c.func("nw", "int", "int", "int", "real"), c.func("ew", "int", "int", "int", "real")
    ids, im, ig = c.func("ids", "int", "int", "int"), c.func("ids.m", "int", "int"), c.func("ids.g", "int", "int")
    P = c.func("parts", "int", "int")
    F = {k: c.func("f_" + k, "int", "int") for k in KEYS}
    npt, ept = c.func("npt", "int", "int", "int"), c.func("ept", "int", "int", "int")
    ver = c.func("version", "int", "val")
    a, b = z3.Ints("!a !b")
    c.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < n, 0 <= b, b < P(a)), z3.And(im(ids(a, b)) == a, ig(ids(a, b)) == b, ids(a, b) >= 0)), patterns=[ids(a, b)]))
    for k, v in (("node_type_count", nt), ("edge_type_count", et), ("node_feature_count", c.int("nf", lo=0)), ("edge_feature_count", c.int("ef", lo=0)), ("watermark", c.int("wm"))):
        c.assume(ForAll(1, lambda i, k=k, v=v: Implies(inrange(0, i, n), F[k](i) == v)))

    def part(m):
        m = to_z(m)
        key = lambda x: to_z(int_key(x))
        row = lambda f, cnt, p: VList(n=cnt, fn=lambda j: f(m, p, to_z(j)))
        return c.reg(SMap(lambda x: And(im(key(x)) == m, inrange(0, ig(key(x)), P(m)), ids(m, ig(key(x))) == key(x)),
                          lambda x: VDict([("node_weight", row(nw, nt, ig(key(x)))), ("edge_weight", row(ew, et, ig(key(x))))])))
    cls = it.get(M + "Meta")

    def mk(i):
        i = to_z(i)
        f = {k: F[k](i) for k in KEYS}
        f.update(m=i, version=Atom("str", ver(i)), node_count_per_type=VList(n=nt, fn=lambda j: npt(i, to_z(j))), edge_count_per_type=VList(n=et, fn=lambda j: ept(i, to_z(j))))
        return Inst(cls, f)
    l = c.reg(VList(n=n, fn=mk))
    c.ghost.update({"%part": part, "%m": c.int("m", lo=0), "%g": c.int("g", lo=0), "%t": c.int("t", lo=0), "%x": c.int("x", lo=0), "%ids": ids, "%P": P, "%nw": nw, "%ew": ew, "%nt": nt, "%et": et})
    c.assume(And(c.ghost["%m"] < n, c.ghost["%g"] < P(c.ghost["%m"])))
    return n, F, npt, ept, ver, l


@proof("merge: totals, per-type sums and every partition under its id", overrides={MQ + "Meta.get_partition": get_partition}, budget=300,
       loops=[LoopSpec("workers", merge_inv, when=lambda L: "get_partition" in L.src() or "update" in L.src(),
                       types={"L:content.K('c', 'partitions')/contents": ("smap", REC)})])
def p_merge(c, it):
    n, F, npt, ept, ver, l = metas(c, it)
    c.ghost["opened"] = c.reg(VList(items=[]))
    fs = c.reg(Ext("fs"))
    dumped = []
    it.world.models["json.dumps"] = lambda it, a, k: (dumped.append(a[0]), "JSON")[1]
    same = ForAll(1, lambda i: Implies(inrange(0, i, n), ver(i) == ver(0)))
    try:
        it.call(it.get(M + "merge"), [fs, "out", l])
    except PyExc as e:
        c.oblige("refused only when versions differ", And(e.name() == "AssertionError", Not(same)))
        return
    c.oblige("different versions are refused", same)
    c.oblige("metadata written once", len(dumped) == 1)
    if len(dumped) != 1:
        return
    d = dumped[0]
    S = {k: sumfn(c, lambda i, k=k: F[k](to_z(i))) for k in ("node_count", "edge_count")}
    for k in S:
        c.oblige(k + " is the sum over workers", eqv(dget(d, k), S[k](n)))
    for k in KEYS[2:]:
        c.oblige(k + " as the workers agree", eqv(dget(d, k), F[k](c.ghost["%m"])))
    c.oblige("version kept", eqv(dget(d, "binary_data_version"), Atom("str", ver(0))))
    t = c.ghost["%t"]
    for nm, f, cnt in (("node_count_per_type", npt, c.ghost["%nt"]), ("edge_count_per_type", ept, c.ghost["%et"])):
        v = dget(d, nm)
        c.oblige(nm + ": one value per type", eqv(v.length(), cnt))
        c.gens.append(t)
        T = sumfn(c, lambda i: f(to_z(i), t))
        c.gens.pop()
        defs, c.defs = c.defs, []
        for x in defs:
            c.assume(x)
        c.oblige(nm + ": sum over workers", Implies(lt(t, cnt), eqv(lget(v, t), T(n))))
    h, gt_ = map_view(dget(d, "partitions"))
    ids, m, g, x, P = (c.ghost["%" + k] for k in ("ids", "m", "g", "x", "P"))
    c.oblige("every partition of every worker is listed under its id", h(ids(m, g)))
    c.oblige("no other partitions", Implies(h(x), Exists(2, lambda a, b: And(inrange(0, a, n), inrange(0, b, P(a)), ids(a, b) == x))))
    v = gt_(ids(m, g))
    if v is not None:
        for key, f, cnt in (("node_weight", c.ghost["%nw"], c.ghost["%nt"]), ("edge_weight", c.ghost["%ew"], c.ghost["%et"])):
            r = dget(v, key)
            c.oblige("partition keeps its own " + key, And(eqv(r.length(), cnt), Implies(lt(t, cnt), cmp("==", lget(r, t), f(m, g, t)))))
    o = c.ghost["opened"].items
    c.oblige("one file written", len(o) == 1)
    if len(o) == 1:
        c.oblige("merged metadata file", And(eqv(o[0][0], "out/meta.json"), o[0][1].startswith("w")))


# ---------------------------------------------------------------- which files are merged
class GlobFS:
    def m_glob(it, o, pattern, **k):
        it.ctx.oblige("looks for the workers' files in the folder", eqv(it.tostr(pattern), "out/meta_*"))
        return o.fields["files"]


def new_meta(it, a, k):
    return Tok("meta", a[1] if len(a) > 1 else k["path"])


@proof("every worker's file is merged, none when there are none",
       overrides={GE + "_base.get_fs": lambda it, a, k: (it.ctx.ghost["gfs"], a[0]), MQ + "Meta": new_meta,
                  MQ + "merge": lambda it, a, k: it.ctx.ghost["%merged"].append(a)})
def p_files(c, it):
    it.world.kinds["globfs"] = GlobFS
    n = c.int("files", lo=0)
    name = c.func("name", "int", "val")
    files = c.reg(VList(n=n, fn=lambda i: SStr([("atom", Atom("str", name(to_z(i))))])))
    c.ghost["gfs"] = c.reg(Ext("globfs", files=files))
    c.ghost["%merged"] = out = []
    it.call(it.get(M + "merge_metadata_files"), ["out"])
    if not out:
        c.oblige("no merge only without worker files", eqv(n, 0))
        return
    c.oblige("one merge, into the same folder", And(len(out) == 1, eqv(out[0][1], "out"), out[0][0] is c.ghost["gfs"], gt(n, 0)))
    l = out[0][2]
    i = c.int("i", lo=0)
    c.assume(i < n)
    c.oblige("as many as files", eqv(l.length(), n))
    pos = Exists(1, lambda q: And(inrange(0, q, n), eqv(lget(l, q), Tok("meta", lget(files, i)))))
    c.oblige("file i is merged", Or(eqv(lget(l, i), Tok("meta", lget(files, i))), pos) if l.sym else pos)
