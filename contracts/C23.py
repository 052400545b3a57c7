"""C23: partitions, addresses and options reach the engine position by position; every partition has one server."""
import re
from vc.api import *
from contracts import _capi as K

LEVEL = "proof"
LEVEL_NOTE = ("Unbounded proof for every partition list, server count and index of the arguments handed to the engine by local graphs, servers and remote clients, and of the division of "
              "partitions among servers.")
ASSUMPTIONS = K.ASSUMED + ["a partition list is either all ids or all (location, id) pairs in the proof; mixed lists are only exercised concretely",
                           "the downloaded copy of a graph is identified by the folder name its contract (C11) returns"]
CL = GE + "snark.client"
SV = GE + "snark.server"


def setup(world):
    K.setup(world)
    M = world.models
    M["datetime.datetime.now"] = lambda it, a, k: it.ctx.reg(Ext("datetime"))
    world.kinds["datetime"] = K.Ctx_
    pre = z3.Function("startswith", Val, Val, z3.BoolSort())
    world.atom_methods.setdefault("str", {})["startswith"] = lambda it, o, x: Or(*[pre(o.expr, z3.Const(f"text:{y}", Val)) for y in (x if isinstance(x, tuple) else (x,))])
    M["platform.system"] = lambda it, a, k: "Linux"
    M["ctypes.CDLL"] = load
    M["os.path.join"] = lambda it, a, k: Tok("path", *a)
    M["os.path.dirname"] = lambda it, a, k: Tok("dirname", *a)
    world.kinds["environ"] = Environ
    world.consts["os.environ"] = lambda it: it.ctx.reg(Ext("environ"))

    def affinity(it, a, k):
        return it.ctx.ilist("!cpus", it.ctx.fresh_int("ncpu", lo=1) if False else it.ctx.int("ncpu", lo=1))
    M["os.sched_getaffinity"] = affinity
    M["tempfile.TemporaryDirectory"] = lambda it, a, k: it.ctx.reg(Ext("tmpdir", name=it.ctx.atom("str", "tmp")))
    world.kinds["tmpdir"] = TmpDir
    for x in ("tenacity.Retrying", "tenacity.stop_after_attempt", "tenacity.wait_exponential", "tenacity.before_log", "tenacity.after_log"):
        M[x] = (lambda x: lambda it, a, k: it.ctx.reg(Ext(x, a=tuple(a), k=dict(k))))(x)
        world.kinds[x] = K.Retry if x.endswith("Retrying") else K.Ctx_


class TmpDir:
    def a_name(it, o):
        return o.fields["name"]

    def m___enter__(it, o):
        return o.fields["name"]

    def m___exit__(it, o, *a):
        return None

    def m_cleanup(it, o):
        return None


def download(it, a, k):
    """contract of download_graph_data (C11): a folder holding the requested data"""
    c = it.ctx
    c.ghost["%downloaded"] = (a[0], a[1])
    return it.new(GE + "snark._downloader:GraphPath", path=c.ghost["%folder"])


class Environ:
    """process environment: only whether another engine library is named there"""
    def m___contains__(it, o, key):
        if key != "SNARK_LIB_PATH":
            raise Unsupported(f"environment variable {key}")
        return it.ctx.ghost.setdefault("%otherlib", it.ctx.bool("other library"))

    def m___getitem__(it, o, key):
        return it.ctx.atom("str", "env:" + key)


def load(it, a, k):
    """ctypes.CDLL: the engine library"""
    return it.ctx.ghost["%lib"]


def meta_(it, a, k):
    c = it.ctx
    c.ghost["%meta"] = tuple(a[1:])
    for x in ("node_count_per_type", "edge_count_per_type"):
        a[0].fields[x] = c.ilist("!" + x)
    return None


OV = {GE + "snark._downloader.download_graph_data": download,
      GE + "snark.meta.Meta.__init__": meta_, GE + "snark.meta._set_hadoop_classpath": lambda it, a, k: None}


def world(c, it):
    c.ghost["%calls"] = K.Calls()
    c.ghost["%lib"] = c.reg(Ext("clib", funcs=c.reg(VDict())))
    c.ghost["%folder"] = c.atom("str", "folder")


def partitions(c, it, meta):
    """partition list and the location and id of each entry"""
    n = c.int("n", lo=0)
    ids = c.func("ids", "int", "int")
    c.inputs["ids"] = ("list", n, ids)
    path = c.func("path", "int", "val")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), inrange(0, ids(i), 2 ** 32))))
    if c.choose(2) == 0:
        return c.reg(VList(n=n, fn=lambda i: ids(to_z(i)), etype="int")), n, lambda i: meta, ids
    at = lambda i: Atom("str", path(to_z(i)))
    return c.reg(VList(n=n, fn=lambda i: (at(i), ids(to_z(i))))), n, at, ids


def inv(L):
    n, at, ids = L.ghost["%parts"]
    r = []
    pw = L.partitions_with_path if L.has("partitions_with_path") else None
    if pw is not None and "partitions_with_path.append" in L.src():
        r.append(("entries so far", And(eqv(pw.length(), L.k), ForAll(1, lambda i: Implies(inrange(0, i, L.k), eqv(lget(pw, i), (at(i), ids(i))))))))
    for nm, f in (("partition_array", lambda o, i: eqv(o.fields["arr"].fn(i), ids(i))), ("location_array", lambda o, i: eqv(lget(o.fields["strs"], i), at(i)))):
        if L.has(nm) and re.search(rf"\b{nm}\b", L.src()):
            o = getattr(L, nm)
            if o.fields.get("strs") is not None:
                r.append((f"{nm} keeps its size", eqv(o.fields["strs"].length(), n)))
            r.append((f"{nm} so far", ForAll(1, lambda i, o=o, f=f: Implies(inrange(0, i, L.k), f(o, i)))))
    return r


TYPES = {"L:partitions_with_path/contents": ("tuple", ("atom", "str", Val), "int")}


def check_parts(c, a, n, at, ids):
    j = c.int("j", lo=0)
    c.oblige("number of partitions", And(eqv(a["count"], n), eqv(a["parts"].shape[0], n)))
    c.oblige("partition ids in order", Implies(j < n, eqv(a["parts"].fn(j), ids(j))))
    c.oblige("partition locations in order", And(eqv(a["locs"].fields["n"], n), Implies(j < n, eqv(lget(a["locs"].fields["strs"], j), at(j)))))
    if "%downloaded" in c.ghost:
        m, l = c.ghost["%downloaded"]
        c.oblige("data of these partitions is fetched", And(eqv(l.length(), n), Implies(j < n, eqv(lget(l, j), (at(j), ids(j))))))
    return j


def storage(c, it):
    k = c.choose(2)
    return it.getattr(it.get(CL + ":PartitionStorageType"), ("memory", "disk")[k]), k


@proof("local graph arguments", loops=[LoopSpec("MemoryGraph.__init__", inv, types=TYPES)], overrides=OV)
def p_local(c, it):
    world(c, it)
    meta = c.atom("str", "meta")
    ps, n, at, ids = partitions(c, it, meta)
    c.ghost["%parts"] = (n, at, ids)
    st, sv = storage(c, it)
    cfg = c.atom("str", "config")
    stream = c.choose(2) == 1
    try:
        g = it.call(it.get(CL + ":MemoryGraph"), [meta, ps, st, cfg, stream])
    except PyExc as e:
        c.oblige("rejected only for streaming to disk", And(e.cls is ValueError, sv == 1, stream))
        return
    a = K.single_call(c, "CreateLocalGraph").a
    check_parts(c, a, n, at, ids)
    c.oblige("graph location", eqv(a["meta"], meta if stream else c.ghost["%folder"]))
    c.oblige("metadata read from the graph location", eqv(c.ghost["%meta"][0], meta if stream else c.ghost["%folder"]))
    c.oblige("options", And(eqv(a["storage"], sv), eqv(a["config"], cfg)))


@proof("server arguments", loops=[LoopSpec("Server.__init__", inv, types=TYPES)], overrides=OV)
def p_server(c, it):
    world(c, it)
    meta = c.atom("str", "meta")
    ps, n, at, ids = partitions(c, it, meta)
    c.ghost["%parts"] = (n, at, ids)
    st, sv = storage(c, it)
    cfg, host = c.atom("str", "config"), c.atom("str", "host")
    stream = c.choose(2) == 1
    ssl = [c.atom("str", x) for x in ("key", "cert", "root")] if c.choose(2) else None
    conf = c.reg(VDict([("ssl_" + x, v) for x, v in zip(("key", "cert", "root"), ssl)])) if ssl else None
    sf, stt = c.bool("skip_features"), c.bool("skip_temporal")
    try:
        s = it.call(it.get(SV + ":Server"), [meta, ps, host, conf, st, cfg, stream, sf, stt])
    except PyExc as e:
        c.oblige("rejected only for streaming to disk", And(e.cls is ValueError, sv == 1, stream))
        return
    a = K.single_call(c, "StartServer").a
    check_parts(c, a, n, at, ids)
    c.oblige("graph location", eqv(a["meta"], meta if stream else c.ghost["%folder"]))
    c.oblige("address and options", And(eqv(a["host"], host), eqv(a["storage"], sv), eqv(a["config"], cfg), eqv(a["skipf"], sf), eqv(a["skipt"], stt)))
    for x, v in zip(("key", "cert", "root"), ssl or [None] * 3):
        c.oblige(f"certificate {x}", eqv(a[x], v))


@proof("local client loads the requested partitions", loops=[LoopSpec("MemoryGraph.__init__", inv, types=TYPES)], overrides=OV)
def p_client(c, it):
    world(c, it)
    path, cfg = c.atom("str", "meta"), c.atom("str", "config")
    n = c.int("n", lo=0)
    ids = c.ilist("ids", n, lo=0, hi=2 ** 32 - 1)
    m, f = ite(n > 0, n, 1), (lambda i: ite(n > 0, ids.fn(to_z(i)), 0))
    c.ghost["%parts"] = (m, lambda i: path, f)
    it.call(it.get(GE + "snark.local:Client"), [path, ids], dict(config_path=cfg))
    a = K.single_call(c, "CreateLocalGraph").a
    check_parts(c, a, m, lambda i: path, f)
    c.oblige("options", And(eqv(a["storage"], 0), eqv(a["config"], cfg)))


def strs(c, name, n):
    f = c.func(name, "int", "val")
    at = lambda i: Atom("str", f(to_z(i)))
    return at, c.reg(VList(n=n, fn=at))


def rinv(L):
    n, srv, m, key, val = L.ghost["%remote"]
    r = []
    for nm, size, f in (("pointers", n, srv), ("grpc_options_keys_pointers", m, key), ("grpc_options_values_pointers", m, val)):
        if (L.maybe if isinstance(size, int) and size == 0 else L.has)(nm) and re.search(rf"\b{nm}\b", L.src()):
            o = getattr(L, nm)
            if isinstance(o, Ext) and o.fields.get("strs") is not None:
                l = o.fields["strs"]
                r.append((f"{nm} so far", And(eqv(l.length(), size), ForAll(1, lambda i, l=l, f=f: Implies(inrange(0, i, L.k), eqv(lget(l, i), f(i)))))))
    return r


def parse_options(it, a, k):
    """contract of _parse_grpc_options (C22)"""
    c = it.ctx
    return c.reg(VDict([(x, c.fresh_int(x)) for x in ("max_attempts", "initial_backoff", "max_backoff", "backoff_multiplier")]))


@proof("remote client arguments", loops=[LoopSpec("DistributedGraph.__init__", rinv)], overrides=dict(OV, **{CL + "._parse_grpc_options": parse_options}))
def p_remote(c, it):
    world(c, it)
    n, m = c.int("n", lo=1), c.int("m", lo=0)
    srv, servers = strs(c, "server", n)
    key, _ = strs(c, "key", m)
    val, _ = strs(c, "value", m)
    opts = c.reg(VList(n=m, fn=lambda i: (key(i), val(i))))
    if c.choose(2) == 0:
        opts, m = None, 0
    c.ghost["%remote"] = (n, srv, m, key, val)
    cert = c.atom("str", "cert") if c.choose(2) else None
    th = c.int("threads", lo=1) if c.choose(2) else None
    cq = c.int("cqs", lo=1) if c.choose(2) else None
    how = c.choose(2)
    if how == 0:
        it.call(it.get(CL + ":DistributedGraph"), [servers, cert, th, cq, opts])
    else:
        it.call(it.get(GE + "snark.distributed:Client"), [servers, cert, opts, th, cq])
    a = K.single_call(c, "CreateRemoteClient").a
    j = c.int("j", lo=0)
    c.oblige("number of servers", And(eqv(a["count"], n), eqv(a["servers"].fields["n"], n)))
    c.oblige("servers in order", Implies(j < n, eqv(lget(a["servers"].fields["strs"], j), srv(j))))
    c.oblige("certificate", eqv(a["cert"], cert))
    c.oblige("threads", eqv(a["threads"], th) if th is not None else to_z(a["threads"]) >= 1)
    c.oblige("queues per thread", eqv(a["cqs"], cq if cq is not None else 1))
    c.oblige("number of options", And(eqv(a["nargs"], m), eqv(a["keys"].fields["n"], m), eqv(a["values"].fields["n"], m)))
    c.oblige("option keys in order", Implies(j < to_z(m), eqv(lget(a["keys"].fields["strs"], j), key(j))))
    c.oblige("option values in order", Implies(j < to_z(m), eqv(lget(a["values"].fields["strs"], j), val(j))))
    c.oblige("metadata read where the engine put it", eqv(c.ghost["%meta"][0], a["meta"]))


@proof("one server address as text", loops=[LoopSpec("DistributedGraph.__init__", rinv)], overrides=dict(OV, **{CL + "._parse_grpc_options": parse_options}))
def p_one(c, it):
    world(c, it)
    s = c.atom("str", "server")
    c.ghost["%remote"] = (1, lambda i: s, 0, None, None)
    it.call(it.get(GE + "snark.distributed:Client"), [SStr([("atom", s)])])
    a = K.single_call(c, "CreateRemoteClient").a
    c.oblige("one server", And(eqv(a["count"], 1), eqv(a["servers"].fields["n"], 1), eqv(lget(a["servers"].fields["strs"], 0), s)))


def start(it, a, k):
    """contract of server.Server.__init__ (proof "server arguments")"""
    names = ["meta_path", "partitions", "hostname", "ssl_config", "storage_type", "config_path", "stream", "skip_feature_loading", "skip_temporal_loading"]
    d = dict(ssl_config=None, storage_type=0, config_path="", stream=False, skip_feature_loading=False, skip_temporal_loading=False)
    d.update(dict(zip(names, a[1:])))
    d.update(k)
    it.ctx.ghost["%started"] = d
    return None


def load_meta(it, a, k):
    c = it.ctx
    c.ghost["%metafile"] = tuple(a)
    c.ghost["%metaname"] = c.atom("str", "metafile")
    return c.ghost["%metaname"]


class Parts:
    """the partitions entry of the metadata: only its size is used"""

    def m___len__(it, o):
        return o.fields["n"]


class File:
    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        return None


SO = {SV + ".Server.__init__": start, GE + "snark.meta.download_meta": load_meta}


def json_world(world):
    setup(world)
    world.kinds.update({"parts": Parts, "mfile": File})

    def op(it, a, k):
        it.ctx.oblige("the downloaded metadata is read", And(eqv(a[0], it.ctx.ghost.get("%metaname")), (list(a[1:]) + [k.get("mode", "r")])[0] in ("r", "rt")))
        return it.ctx.reg(Ext("mfile", name=a[0]))

    def load(it, a, k):
        if len(a) != 1 or k or not (isinstance(a[0], Ext) and a[0].kind == "mfile"):
            raise Unsupported("metadata read in another way")
        return it.ctx.reg(VDict([("partitions", it.ctx.reg(Ext("parts", n=it.ctx.ghost["%nparts"])))]))
    world.models["builtins.open"] = op
    world.models["json.load"] = load


def cluster(c, it, tag, path, P, total):
    """partition list with which server `index` of the cluster is started"""
    index = c.int("index" + tag, lo=0)
    c.assume(index < total)
    c.ghost["%nparts"] = P
    ssl = [c.atom("str", x + tag) for x in ("key", "root", "cert")] if c.choose(2) else None
    host, cfg = c.atom("str", "host" + tag), c.atom("str", "config")
    sf, stt, stream = c.bool("skip_features" + tag), c.bool("skip_temporal" + tag), c.bool("stream" + tag)
    st, sv = storage(c, it)
    it.call(it.get(GE + "snark.distributed:Server"), [host, path, index, total] + (ssl or [None] * 3) + [st, cfg, stream, sf, stt])
    d = c.ghost["%started"]
    c.oblige("metadata of this graph", eqv(c.ghost["%metafile"][0], path))
    c.oblige("server options", And(eqv(d["meta_path"], path), eqv(d["hostname"], host), eqv(K.val_of(it, d["storage_type"]), sv), eqv(d["config_path"], cfg),
                                   eqv(d["skip_feature_loading"], sf), eqv(d["skip_temporal_loading"], stt), eqv(d["stream"], stream)))
    sc = it.force(d["ssl_config"])
    if ssl is None:
        c.oblige("no certificates", sc is None)
    else:
        c.oblige("certificates", sc is not None and And(*[eqv(it.getitem(sc, "ssl_" + x), v) for x, v in zip(("key", "root", "cert"), ssl)]))
    return index, it.force(d["partitions"])


@proof("no partition is served twice", overrides=SO, setup=json_world)
def p_disjoint(c, it):
    world(c, it)
    P, total = c.int("P", lo=0), c.int("total", lo=1)
    path = c.atom("str", "data")
    s1, l1 = cluster(c, it, "1", path, P, total)
    i, j = c.int("i", lo=0), c.int("j", lo=0)
    e1 = it.seq(l1)
    if simp(e1.n) == 0:
        return
    v = e1.fn(i)
    c.oblige("partitions of the graph, from the data folder", Implies(i < to_z(e1.n), And(inrange(0, to_z(v[1]), P), eqv(v[0], path))))
    c.oblige("each partition once per server", Implies(And(i < j, j < to_z(e1.n)), Not(eqv(v[1], e1.fn(j)[1]))))
    s2, l2 = cluster(c, it, "2", path, P, total)
    e2 = it.seq(l2)
    c.assume(s1 < s2)
    if simp(e1.n) == 0 or simp(e2.n) == 0:
        return
    a, b = to_z(v[1]), to_z(e2.fn(j)[1])
    c.oblige("two servers share no partition", Implies(And(i < to_z(e1.n), j < to_z(e2.n)), a != b))


@proof("every partition is served", overrides=SO, setup=json_world)
def p_cover(c, it):
    world(c, it)
    P, total, p = c.int("P", lo=1), c.int("total", lo=1), c.int("p", lo=0)
    c.assume(p < P)
    path = c.atom("str", "data")
    s, l = cluster(c, it, "", path, P, total)
    q, r = c.divmod(p, total)
    c.assume(s == r)        # the server that takes turns with the others to serve p
    e = it.seq(l)
    c.oblige("p has a server", Not(eqv(e.n, 0)), kind="loop")
    if simp(e.n) == 0:
        return
    c.oblige("p is at position p // servers of its server", And(inrange(0, q, e.n), eqv(e.fn(q)[1], p)), kind="loop")


class Parser:
    """the command line parser hands over whatever was parsed"""

    def m_add_argument(it, o, *a, **k):
        return None

    def m_add_mutually_exclusive_group(it, o, *a, **k):
        return o

    def m_parse_known_args(it, o, *a):
        return (it.ctx.ghost["%args"], it.ctx.reg(VList(items=[])))

    def m_parse_args(it, o, *a):
        return it.ctx.ghost["%args"]


class Args:
    def dyn(it, o, name):
        return o.fields["v"].get(name)


def main_world(world):
    json_world(world)
    world.kinds.update({"argparser": Parser, "args": Args})
    world.models["argparse.ArgumentParser"] = lambda it, a, k: it.ctx.reg(Ext("argparser"))
    world.models["subprocess.check_call"] = lambda it, a, k: 0


def command(c, it, tag, total, P, data, group):
    v = {"port": c.atom("str", "port" + tag), "data_dir": data, "config_path": c.atom("str", "config"), "stream": c.bool("stream" + tag),
         "skip_feature_loading": c.bool("sf" + tag), "skip_temporal_loading": c.bool("st" + tag), "partitions": None, "server_group": None}
    st, sv = storage(c, it)
    v["storage_type"] = st
    if group:
        s = c.int("index" + tag, lo=0)
        c.assume(s < total)
        v["server_group"] = c.reg(VList(items=[s, total, P]))
    else:
        s = c.ilist("partitions" + tag)
        v["partitions"] = s
    c.ghost["%args"] = c.reg(Ext("args", v=v))
    it.run_main(SV)
    d = c.ghost["%started"]
    c.oblige("server options", And(eqv(d["meta_path"], data), eqv(d["hostname"], SStr(["0.0.0.0:", ("atom", v["port"])])), eqv(K.val_of(it, d["storage_type"]), sv),
                                   eqv(d["config_path"], v["config_path"]), eqv(d["skip_feature_loading"], v["skip_feature_loading"]),
                                   eqv(d["skip_temporal_loading"], v["skip_temporal_loading"]), eqv(d["stream"], v["stream"])))
    return s, it.seq(it.force(d["partitions"]))


MO = dict(SO, **{SV + ".Server.reset": lambda it, a, k: None})


@proof("server command: listed partitions", overrides=MO, setup=main_world)
def p_cmd_list(c, it):
    world(c, it)
    data = c.atom("str", "data")
    ps, e = command(c, it, "", None, None, data, False)
    j = c.int("j", lo=0)
    c.oblige("exactly the listed partitions from the data folder", And(eqv(e.n, ps.n), Implies(j < to_z(ps.n), eqv(e.fn(j), (data, ps.fn(j))))))


@proof("server command: no partition is served twice", overrides=MO, setup=main_world)
def p_cmd_disjoint(c, it):
    world(c, it)
    data = c.atom("str", "data")
    P, total = c.int("P", lo=0), c.int("total", lo=1)
    s1, e1 = command(c, it, "1", total, P, data, True)
    if simp(e1.n) == 0:
        return
    i, j = c.int("i", lo=0), c.int("j", lo=0)
    v = e1.fn(i)
    c.oblige("partitions of the graph, from the data folder", Implies(i < to_z(e1.n), And(inrange(0, to_z(v[1]), P), eqv(v[0], data))))
    c.oblige("each partition once per server", Implies(And(i < j, j < to_z(e1.n)), Not(eqv(v[1], e1.fn(j)[1]))))
    s2, e2 = command(c, it, "2", total, P, data, True)
    if simp(e2.n) == 0:
        return
    c.assume(s1 < s2)
    c.oblige("two servers share no partition", Implies(And(i < to_z(e1.n), j < to_z(e2.n)), to_z(v[1]) != to_z(e2.fn(j)[1])))


@proof("server command: every partition is served", overrides=MO, setup=main_world)
def p_cmd_cover(c, it):
    world(c, it)
    data = c.atom("str", "data")
    P, total, p = c.int("P", lo=1), c.int("total", lo=1), c.int("p", lo=0)
    c.assume(p < P)
    s, e = command(c, it, "", total, P, data, True)
    q, r = c.divmod(p, total)
    c.assume(s == r)
    c.oblige("p has a server", Not(eqv(e.n, 0)), kind="loop")
    if simp(e.n) == 0:
        return
    c.oblige("p is at position p // servers of its server", And(inrange(0, q, e.n), eqv(e.fn(q)[1], p)), kind="loop")


BK = GE + "backends.snark."


def started(it, a, k):
    """contract of SynchronizedServer (C26): one object of the given class, made from the given arguments"""
    names = ("self", "sync_path", "index", "timeout", "klass")
    k = dict(k)
    d = dict(zip(names, a))
    d.update({x: k.pop(x) for x in names if x in k and x not in d})
    it.ctx.ghost["%servers"].append(d)
    it.call(d["klass"], list(a[len(names):]), k)
    return None


BO = dict(SO, **{BK + "synchronized.SynchronizedServer.__init__": started, BK + "synchronized.SynchronizedClient.__init__": lambda it, a, k: None})


def back_world(world):
    json_world(world)
    world.models["os.makedirs"] = lambda it, a, k: None
    world.models["os.getpid"] = lambda it, a, k: 1


def backend(c, it, tag, data, P, n):
    """what the distributed backend of worker `tag` serves"""
    c.ghost["%nparts"] = P
    c.ghost.pop("%started", None)
    c.ghost["%servers"] = []
    srv, l = strs(c, "server", n)
    i = c.int("index" + tag, lo=-1)
    c.assume(i < n)
    st, sv = storage(c, it) if tag != "2" else (it.getattr(it.get(CL + ":PartitionStorageType"), "memory"), 0)
    cfg, stream = c.atom("str", "config"), c.bool("stream" + tag)
    o = it.new(GE + "backends.options:BackendOptions", servers=l, grpc_options=c.reg(VList(items=[])), num_threads=None, num_cq_per_thread=None, skip_ge_start=False, enable_ssl=False, ssl_cert=c.atom("str", "cert"),
               sync_dir="/sync" if tag == "2" else ("", "/sync")[c.choose(2)], model_dir=c.atom("str", "model"), data_dir=data, ge_start_timeout=c.int("timeout", lo=0), storage_type=st, config_path=cfg, stream=stream,
               server_idx=i, client_rank=c.int("rank" + tag, lo=-1), num_ge=c.int("num_ge", lo=0), partitions=c.ilist("listed"))
    it.call(it.get(BK + "client:SnarkDistributedBackend"), [o])
    d = c.ghost.get("%started")
    if d is None:
        c.oblige("a worker without a server index starts none", i < 0)
        return None
    c.oblige("started for a worker with a server index", i >= 0)
    c.oblige("one server", len(c.ghost["%servers"]) == 1)
    c.oblige("own address and options", And(eqv(d["meta_path"], data), eqv(d["hostname"], srv(i)), eqv(K.val_of(it, d["storage_type"]), sv), eqv(d["config_path"], cfg), eqv(d["stream"], stream)))
    c.oblige("everything is loaded", And(eqv(d["skip_feature_loading"], False), eqv(d["skip_temporal_loading"], False)))
    return i, it.seq(it.force(d["partitions"]))


@proof("backends: no partition is served twice", overrides=BO, setup=back_world)
def p_back_disjoint(c, it):
    world(c, it)
    data = c.atom("str", "data")
    P, n = c.int("P", lo=0), c.int("total", lo=1)
    r = backend(c, it, "1", data, P, n)
    if r is None or simp(r[1].n) == 0:
        return
    s1, e1 = r
    i, j = c.int("i", lo=0), c.int("j", lo=0)
    v = e1.fn(i)
    c.oblige("partitions of the graph, from the data folder", Implies(i < to_z(e1.n), And(inrange(0, to_z(v[1]), P), eqv(v[0], data))))
    c.oblige("each partition once per server", Implies(And(i < j, j < to_z(e1.n)), Not(eqv(v[1], e1.fn(j)[1]))))
    r = backend(c, it, "2", data, P, n)
    if r is None or simp(r[1].n) == 0:
        return
    s2, e2 = r
    c.assume(s1 < s2)
    c.oblige("two servers share no partition", Implies(And(i < to_z(e1.n), j < to_z(e2.n)), to_z(v[1]) != to_z(e2.fn(j)[1])))


@proof("backends: every partition is served", overrides=BO, setup=back_world)
def p_back_cover(c, it):
    world(c, it)
    data = c.atom("str", "data")
    P, n, p = c.int("P", lo=1), c.int("total", lo=1), c.int("p", lo=0)
    c.assume(p < P)
    r = backend(c, it, "", data, P, n)
    if r is None:
        return
    s, e = r
    q, m = c.divmod(p, n)
    c.assume(s == m)
    c.oblige("p has a server", Not(eqv(e.n, 0)), kind="loop")
    if simp(e.n) == 0:
        return
    c.oblige("p is at position p // servers of its server", And(inrange(0, q, e.n), eqv(e.fn(q)[1], p)), kind="loop")


@proof("local backend loads the configured partitions", loops=[LoopSpec("MemoryGraph.__init__", inv, types=TYPES)], overrides=OV)
def p_back_local(c, it):
    world(c, it)
    path, cfg = c.atom("str", "meta"), c.atom("str", "config")
    n = c.int("n", lo=0)
    ids = c.ilist("ids", n, lo=0, hi=2 ** 32 - 1)
    m, f = ite(n > 0, n, 1), (lambda i: ite(n > 0, ids.fn(to_z(i)), 0))
    c.ghost["%parts"] = (m, lambda i: path, f)
    st, sv = storage(c, it)
    stream = c.choose(2) == 1
    o = it.new(GE + "backends.options:BackendOptions", data_dir=path, partitions=ids, storage_type=st, config_path=cfg, stream=stream, servers=c.reg(VList(items=[])), num_ge=c.int("num_ge", lo=0))
    try:
        it.call(it.get(BK + "client:SnarkLocalBackend"), [o])
    except PyExc as e:
        c.oblige("rejected only for streaming to disk", And(e.cls is ValueError, sv == 1, stream))
        return
    a = K.single_call(c, "CreateLocalGraph").a
    check_parts(c, a, m, lambda i: path, f)
    c.oblige("options", And(eqv(a["storage"], sv), eqv(a["config"], cfg), eqv(a["meta"], path if stream else c.ghost["%folder"])))
