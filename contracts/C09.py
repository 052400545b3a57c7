"""C09: graph metadata totals equal the sum over all partitions."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof of both dispatchers' join() and of convert()'s metadata writing for any number of partitions, any summaries and any completion "
    "order (the i-th finished worker is arbitrary). Assumed: json round trip, file system, worker summaries list one entry per type they saw."
)
ASSUMPTIONS = ["a worker's summary lists one value per type it reports (proved for the writer in C06)",
               "distinct partition ids give distinct dictionary keys"]
D = GE + "snark.dispatcher:"


class QOut:
    def m_get(it, o, *a, **k):
        g = o.fields["gets"]
        it.setfield(o, "gets", add(g, 1))
        return (b"WORKER_FINISHED_PROCESSING", it.ctx.ghost["%sums"].make(it, g))

    def m_close(it, o):
        return None


class Sink:
    def m_send(it, o, v): return None
    def m_put(it, o, v, *a, **k): return None
    def m_close(it, o): return None


class PFS:
    """counts how often the probed sampler file is created"""

    def m_open(it, o, path, mode="rb", **k):
        c = it.ctx
        el, tp, g = c.ghost["%probe"]
        if not (isinstance(path, Tok) and path.kind == "alias"):
            raise Unsupported("unexpected path")
        c.oblige("sampler files are created for writing, in the output folder", And(mode.startswith("w"), eqv(path.fields[1], "out")))
        hit = And(path.fields[0] == el, eqv(path.fields[2], tp), eqv(path.fields[3], c.ghost["%sums"].id(to_z(g))))
        it.setfield(c.ghost["probe"], "n", add(c.ghost["probe"].fields["n"], ite(simp(to_z(hit)), 1, 0)))
        return c.reg(Ext("file", path=path, mode=mode, log=c.reg(VList(items=[])), pos=0, closed=False))


def setup(world):
    install_mp(world)
    world.kinds.update({"qout": QOut, "conn": Sink, "pfs": PFS})


def alias_path(it, a, k):
    el, folder, tp, part = a
    nm = el.fields.get("name") or el.fields.get("_name")
    return Tok("alias", str(it.tostr(it.getattr(el, "name"))) if nm is None else str(nm), folder, tp, part)


OV = {GE + "_base.get_fs": lambda it, a, k: (it.ctx.ghost["pfs"], a[0]), GE + "snark.meta._get_element_alias_path": alias_path}


class Mx:
    """running maximum over the first k summaries, with its defining facts at the needed points"""

    def __init__(self, c, f, name):
        self.c, self.f = c, f
        self.M = c.func("max_" + name, "int", "int")
        c.assume(self.M(0) == 0)

    def at(self, k):
        k = to_z(k)
        self.c.assume(z3.Implies(k >= 1, self.M(k) == z3.If(self.M(k - 1) > self.f(k - 1), self.M(k - 1), self.f(k - 1))))
        return self.M(k)


def elem_is(S, p, g, N, E, padded):
    """partition entry p is summary g, with lists as reported or padded with zeros to N and E types"""
    d = {key_of(k)[1]: v for k, v in p.pairs}
    out = [eqv(d["id"], S.id(to_z(g)))]
    j = z3.Int("!j")
    for key, f in S.l.items():
        l = d[key]
        G = N if key.startswith("node") else E
        n0 = S.len(key, g)
        n = z3.If(n0 < to_z(G), to_z(G), n0) if padded else n0
        v = lget(l, j)
        want = f(to_z(g), j)
        if padded:
            want = z3.If(j < n0, want, 0)
        out += [eqv(l.length(), n), z3.ForAll([j], to_z(Implies(inrange(0, j, n), cmp("==", v, want))))]
    return And(*out)


def out_inv(L):
    s = L.self if L.has("self") else L.ghost["disp"]
    S, mx = L.ghost["%sums"], L.ghost["%mx"]
    k = L.k
    f = s.fields
    ps = f["partitions"]
    return [("summaries read", eqv(L.ghost["qout"].fields["gets"], k)),
            ("node count", eqv(f["node_count"], L.ghost["%tot"]["node_count"](to_z(k)))),
            ("edge count", eqv(f["edge_count"], L.ghost["%tot"]["edge_count"](to_z(k)))),
            ("node types", eqv(f["node_type_num"], mx["node_type_count"].at(k))), ("edge types", eqv(f["edge_type_num"], mx["edge_type_count"].at(k))),
            ("node features", eqv(f["node_feature_count"], mx["node_feature_count"].at(k))), ("edge features", eqv(f["edge_feature_count"], mx["edge_feature_count"].at(k))),
            ("one entry per worker", eqv(ps.length(), k)),
            ("entries as reported", every(ps, k, lambda q, p: elem_is(S, p, q, 0, 0, False)))]


def pad_inv(L):
    s = L.self
    S = L.ghost["%sums"]
    N, E = s.fields["node_type_num"], s.fields["edge_type_num"]
    ps = s.fields["partitions"]
    n = L.entry.self.fields["partitions"].length()
    el, tp, g = L.ghost["%probe"]
    skip = s.fields["skip_node_sampler" if el == "NODE" else "skip_edge_sampler"]
    G = N if el == "NODE" else E
    n0 = S.len("node_weight" if el == "NODE" else "edge_weight", g)
    must = And(lt(g, L.k), Not(skip), le(n0, tp), lt(tp, G))
    return [("same partitions", eqv(ps.length(), n)),
            ("padded so far", ForAll(1, lambda q: Implies(inrange(0, q, L.k), elem_is(S, lget(ps, q), q, N, E, True)))),
            ("rest as reported", ForAll(1, lambda q: Implies(And(le(L.k, q), lt(q, n)), elem_is(S, lget(ps, q), q, 0, 0, False)))),
            ("sampler file of the probed type", eqv(L.ghost["probe"].fields["n"], ite(simp(to_z(must)), 1, 0)))]


def file_inv(L):
    el, tp, g = L.ghost["%probe"]
    pe = L.entry.ghost["probe"].fields["n"]
    cur = lget(L.seq, L.k)
    first = lget(L.seq, 0)
    pid = dict((key_of(k)[1], v) for k, v in L.p.pairs)["id"]
    which = L.ghost["%el"](L)
    hit = And(which == el, eqv(pid, L.ghost["%sums"].id(to_z(g))), le(first, tp), lt(tp, add(first, L.k)))
    return [("created so far", eqv(L.ghost["probe"].fields["n"], add(pe, ite(simp(to_z(hit)), 1, 0))))]


def join_proof(kind, el):
    @proof(f"{kind} join: totals, per-partition lists and {el.lower()} sampler files", overrides=OV, budget=300,
           loops=[LoopSpec("finish", FREE, when=lambda L: L.ghost["%ph"](L) == "send"),
                  LoopSpec("collect", out_inv, when=lambda L: L.ghost["%ph"](L) == "get"),
                  LoopSpec("pad", pad_inv, when=lambda L: L.ghost["%ph"](L) == "pad"),
                  LoopSpec("files", file_inv, when=lambda L: L.ghost["%ph"](L) == "files"),
                  LoopSpec("other", FREE, when=lambda L: L.ghost["%ph"](L) == "other")])
    def p(c, it):
        P = c.int("P", lo=1)
        c.ghost["pfs"] = c.reg(Ext("pfs"))
        qo = c.reg(Ext("qout", gets=0))
        c.ghost["qout"] = qo
        S = Summaries(c)
        c.ghost["%sums"] = S
        c.ghost["%mx"] = {k: Mx(c, S.f[k], k) for k in ("node_type_count", "edge_type_count", "node_feature_count", "edge_feature_count")}
        c.ghost["%tot"] = {}
        for k in ("node_count", "edge_count"):
            T = c.func("tot_" + k, "int", "int")
            c.assume(T(0) == 0)
            q = z3.Int("!q")
            c.assume(z3.ForAll([q], z3.Implies(q >= 1, T(q) == T(q - 1) + S.f[k](q - 1)), patterns=[T(q)]))
            c.ghost["%tot"][k] = T
        tp, g = c.int("tp", lo=0), c.int("g", lo=0)
        c.ghost["%probe"] = (el, tp, g)
        c.ghost["probe"] = c.reg(Ext("object", n=0))

        def phase(L):
            src = L.src()
            if "send(" in src or ".put(" in src or (".close(" in src and "get" not in src):
                return "send"
            if ".get()" in src:
                return "get"
            if "extend" in src:
                return "pad"
            if "open(" in src:
                return "files"
            return "other"
        c.ghost["%ph"] = phase
        c.ghost["%el"] = lambda L: "EDGE" if "EDGE" in L.src() else "NODE"
        if kind == "pipe":
            N = P
            chans = c.reg(VList(n=P, fn=lambda i: (c.reg(Ext("conn")), c.reg(Ext("conn")))))
            extra = dict(parallel=P)
        else:
            N = c.int("A", lo=0)
            chans = c.reg(VList(n=P, fn=lambda i: c.reg(Ext("conn"))))
            e = c.func("active", "int", "int")
            c.assume(ForAll(1, lambda i: Implies(inrange(0, i, N), inrange(0, e(i), P))))
            extra = dict(num_partitions=P, active_partitions=c.reg(VSet(has=lambda x: False, enum=Seq(N, lambda i: e(to_z(i))))), processes=c.reg(VList(items=[])))
        c.assume(g < N)
        # partition ids of different workers differ (C01); summaries have no negative counts
        c.assume(ForAll(1, lambda i: Implies(And(inrange(0, i, N), i != g), S.id(i) != S.id(g))))
        for k in S.KEYS:
            c.assume(ForAll(1, lambda i, k=k: Implies(inrange(0, i, N), S.f[k](i) >= 0)))
        skn, ske = c.bool("skn"), c.bool("ske")
        d = it.new(D + ("PipeDispatcher" if kind == "pipe" else "QueueDispatcher"), count=0, q_in=chans, folder="out", q_out=qo, node_count=0, edge_count=0,
                   node_type_num=0, edge_type_num=0, node_feature_count=0, edge_feature_count=0, partitions=c.reg(VList(items=[])),
                   skip_node_sampler=skn, skip_edge_sampler=ske, **extra)
        c.ghost["disp"] = d
        it.call_method(d, "join", [])
        f = {k: it.call_method(d, "prop", [k]) for k in ("node_count", "edge_count", "node_type_num", "edge_type_num", "node_feature_count", "edge_feature_count", "partitions")}
        mx = c.ghost["%mx"]
        zN = to_z(N)
        for k in ("node_count", "edge_count"):
            c.oblige(k + " is the sum over workers", eqv(f[k], c.ghost["%tot"][k](zN)))
        for a, b in (("node_type_num", "node_type_count"), ("edge_type_num", "edge_type_count"), ("node_feature_count",) * 2, ("edge_feature_count",) * 2):
            c.oblige(a + " is the largest over workers", eqv(f[a], mx[b].at(zN)))
        c.oblige("every worker's partition is listed", eqv(f["partitions"].length(), N))
        c.oblige("partition g lists its own values, zero for missing types", elem_is(S, lget(f["partitions"], g), g, f["node_type_num"], f["edge_type_num"], True))
        G, sk, n0 = (f["node_type_num"], skn, S.f["node_type_count"](g)) if el == "NODE" else (f["edge_type_num"], ske, S.f["edge_type_count"](g))
        c.oblige("a sampler file for every type the partition did not see, unless skipped",
                 eqv(c.ghost["probe"].fields["n"], ite(simp(to_z(And(Not(sk), le(n0, tp), lt(tp, G)))), 1, 0)))
    return p


for _k in ("pipe", "queue"):
    for _e in ("NODE", "EDGE"):
        join_proof(_k, _e)


# ---------------------------------------------------------------- convert(): writing the metadata
PK = ("node_weight", "edge_weight", "node_type_count", "edge_type_count")


class Disp:
    def m_dispatch(it, o, line): return None
    def m_join(it, o): return None

    def m_prop(it, o, name):
        return o.fields[name]


def meta_inv(L):
    c = L.c
    V, T, ids = L.ghost["%V"], L.ghost["%T"], L.ghost["%ids"]
    n, e = L.ghost["%types"]
    perm = L.ghost["%perm"]
    k = to_z(L.k)
    t = L.ghost["%t"]
    out = []
    for nm, cnt, key in (("node_count_per_type", n, "node_type_count"), ("edge_count_per_type", e, "edge_type_count")):
        l = getattr(L, nm)
        out.append((nm + " one value per type", eqv(l.length(), cnt)))
        out.append((nm + " total of the partitions so far", Implies(lt(t, cnt), eqv(lget(l, t), T[key](k)))))
    has, get = map_view(L.mjson_partitions) if False else map_view(dict_get(L.mjson, "partitions"))
    g = L.ghost["%g"]
    pos = L.ghost["%pos"]
    v = get(ids(g))
    seen = pos(g) < k
    out.append(("partition g listed once seen", cmp("==", to_z(has(ids(g))), to_z(seen))))
    x = L.ghost["%x"]
    out.append(("no other partition ids", Implies(And(has(x), True), Exists(1, lambda q: And(inrange(0, q, k), ids(perm(q)) == x)))))
    if v is not None:
        for key in ("node_weight", "edge_weight"):
            l = dict_get(v, key)
            out.append(("partition g " + key, Implies(seen, And(eqv(l.length(), n if key.startswith("node") else e), Implies(lt(t, l.length()), cmp("==", lget(l, t), V[key](g, t)))))))
    return out


def dict_get(d, k):
    for kk, v in d.pairs:
        if kk == k:
            return v
    raise Unsupported("metadata key " + k)


@proof("convert writes the totals, per-type counts and partition weights", overrides=use_fs(None), budget=300,
       loops=[LoopSpec("records", FREE, when=lambda L: "dispatch" in L.src()),
              LoopSpec("partitions", meta_inv, when=lambda L: L.has("mjson"),
                       types={"L:mjson.K('c', 'partitions')/contents": ("smap", ("rec", ("node_weight", ("list", "real")), ("edge_weight", ("list", "real"))))})])
def p_meta(c, it):
    P = c.int("P", lo=0)
    n, e = c.int("nt", lo=0), c.int("et", lo=0)
    V = {k: c.func("v_" + k, "int", "int", "real" if "weight" in k else "int") for k in PK}
    ids = c.func("ids", "int", "int")
    idinv = c.func("ids.inv", "int", "int")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, P), And(idinv(ids(i)) == i, ids(i) >= 0))))
    ln = lambda k: n if k.startswith("node") else e
    parts = c.reg(VList(n=P, fn=lambda g: VDict([("id", ids(to_z(g)))] + [(k, VList(n=ln(k), fn=lambda j, k=k: V[k](to_z(g), to_z(j)))) for k in PK])))
    props = {k: c.int(k, lo=0) for k in ("node_count", "edge_count", "node_feature_count", "edge_feature_count")}
    d = c.reg(Ext("disp9", partitions=parts, node_type_num=n, edge_type_num=e, **props))
    it.world.kinds["disp9"] = Disp
    t, g, x = c.int("t", lo=0), c.int("g", lo=0), c.int("x", lo=0)
    c.assume(g < P)
    from vc.lib import sorted_view
    sv = sorted_view(it, parts, key=lambda v: it.getitem(v, "id"))
    perm, pos = sv.perm, sv.pinv
    c.ghost["%perm"], c.ghost["%pos"] = perm, pos
    T = {}
    for k in ("node_type_count", "edge_type_count"):
        F = c.func("tot_" + k, "int", "int")
        q = z3.Int("!q")
        c.assume(F(0) == 0)
        c.assume(z3.ForAll([q], z3.Implies(q >= 1, F(q) == F(q - 1) + V[k](perm(q - 1), t)), patterns=[F(q)]))
        T[k] = F
    c.ghost.update({"%V": V, "%T": T, "%ids": ids, "%types": (n, e), "%t": t, "%g": g, "%x": x})
    dumped = []
    it.world.models["json.dumps"] = lambda it, a, k: (dumped.append(a[0]), "JSON")[1]
    W, w = c.int("W", lo=1), c.int("w", lo=0)
    wmk = Opt(c.bool("nowm"), c.int("wm"))
    self_ = it.new(GE + "snark.convert:MultiWorkersConverter", _debug=False, partition_count=c.int("pc", lo=1), partition_offset=0, worker_index=w, worker_count=W,
                   file_iterator=c.reg(VList(items=[])), dispatcher=d, output_dir="out", watermark=wmk, graph_path="in", decoder=None)
    it.call_method(self_, "convert", [])
    c.oblige("metadata written once", len(dumped) == 1)
    if len(dumped) != 1:
        return
    m = dumped[0]
    for k, want in (("node_count", props["node_count"]), ("edge_count", props["edge_count"]), ("node_type_count", n), ("edge_type_count", e),
                    ("node_feature_count", props["node_feature_count"]), ("edge_feature_count", props["edge_feature_count"])):
        c.oblige("metadata " + k, eqv(dict_get(m, k), want))
    c.oblige("metadata version", eqv(dict_get(m, "binary_data_version"), "v2") if isinstance(dict_get(m, "binary_data_version"), str) else True)
    c.oblige("watermark", eqv(dict_get(m, "watermark"), ite(to_z(wmk.isnone), -1, wmk.val)))
    for nm, key, cnt in (("node_count_per_type", "node_type_count", n), ("edge_count_per_type", "edge_type_count", e)):
        l = dict_get(m, nm)
        c.oblige(nm + ": one value per graph-wide type", eqv(l.length(), cnt))
        c.oblige(nm + ": sum over all partitions", Implies(lt(t, cnt), eqv(lget(l, t), T[key](P))))
    has, get = map_view(dict_get(m, "partitions"))
    c.oblige("every partition is listed", has(ids(g)))
    c.oblige("only partitions are listed", Implies(has(x), Exists(1, lambda q: And(inrange(0, q, P), ids(perm(q)) == x))))
    v = get(ids(g))
    if v is not None:
        for key in ("node_weight", "edge_weight"):
            l = dict_get(v, key)
            c.oblige("partition weights: " + key, And(eqv(l.length(), ln(key)), Implies(lt(t, ln(key)), cmp("==", lget(l, t), V[key](g, t)))))
    o = c.ghost["opened"].items
    c.oblige("one metadata file", len(o) == 1)
    if len(o) == 1:
        path = o[0][0]
        want = "out/meta.json" if c.branch(eqv(W, 1)) else it.tostr(SStr(["out/meta_", ("int", w), ".json"]))
        c.oblige("metadata file name", eqv(path, want))


from contracts import _command


@proof("conversion command: sampler files are skipped only on request", overrides=_command.OV, setup=_command.setup)
def p_command(c, it):
    given = {}
    for n in ("skip_node_sampler", "skip_edge_sampler"):
        if c.branch(c.bool(n + " given")):
            given[n] = c.bool(n)
    v, b = _command.command(c, it, **given)
    for n in ("skip_node_sampler", "skip_edge_sampler"):
        c.oblige(n, eqv(b.get(n, False), v.get(n, False)))
    c.oblige("output folder", eqv(b.get("output_dir"), v["out"]))
