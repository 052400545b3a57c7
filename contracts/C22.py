"""C22: engine failures always surface; remote queries retry by the configured policy."""
from vc.api import *
from contracts import _capi as K
from contracts import C23 as P

LEVEL = "proof"
LEVEL_NOTE = ("Unbounded proof that a non-zero status from any native function reaches the caller as an exception, that every query goes through the client's retry policy, and that the policy "
              "equals the configuration or the defaults for every list of options and every shape of the configuration document.")
ASSUMPTIONS = K.ASSUMED + ["tenacity: a retrying call re-raises the last exception once `stop` says so and sleeps `wait` seconds between attempts; wait_exponential waits max(max(0, min), min(multiplier * base^k, max))",
                           "json.loads returns the document or raises; strptime with %Ss reads whole seconds below 62 or raises",
                           "at most one option holds the service configuration; its initial backoff does not exceed its maximum"]
CL, SV = P.CL, P.SV
LC = GE + "snark.local:Client"
KEY = "grpc.service_config"


def setup(world):
    P.setup(world)
    world.kinds["tenacity.Retrying"] = K.Retry


def failing(c, it):
    """the engine reports an arbitrary failure"""
    st = c.int("status", lo=-2 ** 31, hi=2 ** 31 - 1)
    c.assume(st != 0)
    c.ghost["%native"] = lambda it, call: st if c.ghost.get("%fail") is None or call.name == c.ghost["%fail"] else 0


def surfaces(c, it, f, name, retried=None):
    try:
        f()
    except PyExc as e:
        l = [x for x in c.ghost["%calls"].l if x.name == name]
        if not l:
            raise
        if retried:
            c.oblige("the query is made under the retry policy", And(*[x.retried for x in l]))
        c.oblige("raises an ordinary exception", issubclass(e.cls, Exception) if isinstance(e.cls, type) else True)
        return
    c.oblige("a failure is not returned as data", False)


def call(name, native, args, fixed=()):
    @proof(f"failure of {name} surfaces", loops=[LoopSpec("warnings", FREE)])
    def p(c, it):
        n = c.int("n", lo=0)
        nodes = lambda x="nodes": K.user_array(c, x, n)
        g = K.graph(c, it)
        g.fields["meta"] = it.new(GE + "snark.meta:Meta", watermark=c.int("watermark", lo=0), _node_feature_count=c.int("nfc", lo=0), _edge_feature_count=c.int("efc", lo=0))
        kinds = {"nodes": nodes, "src": lambda: nodes("src"), "dst": lambda: nodes("dst"), "tp": lambda: K.user_array(c, "tp", n, holds="int32"), "feat2": lambda: c.iarr("features", c.int("nf", lo=0), 2, holds="int32"),
                 "feat": lambda: c.iarr("features", c.int("nf", lo=0), holds="int32"), "dtype": lambda: c.atom("dtype", "D", itemsize=c.int("itemsize", lo=1)),
                 "etype": lambda: c.int("etype"), "count": lambda: c.int("count", lo=0), "p": lambda: c.real("p"), "bool": lambda: c.choose(2) == 1, "ts": lambda: nodes("ts")}
        a = [kinds[x]() for x in args.split()]
        if "feat2" in args:
            f = [x for x, k in zip(a, args.split()) if k == "feat2"][0]
            c.assume(ForAll(1, lambda q: f.fn(q, 1) >= 0))
            c.assume(lib.sumfn(c, lambda q: f.fn(q, 1))(to_z(f.shape[0])) >= 0)
        failing(c, it)
        surfaces(c, it, lambda: it.call_method(g, name, a), native, True)


for _n, _f, _a in (("node_features", "GetNodeFeature", "nodes feat2 dtype"), ("edge_features", "GetEdgeFeature", "src dst tp feat2 dtype"),
                   ("node_sparse_features", "GetNodeSparseFeature", "nodes feat dtype"), ("edge_sparse_features", "GetEdgeSparseFeature", "src dst tp feat dtype"),
                   ("node_string_features", "GetNodeStringFeature", "nodes feat dtype"), ("edge_string_features", "GetEdgeStringFeature", "src dst tp feat dtype"),
                   ("neighbor_counts", "NeighborCount", "nodes etype"), ("neighbors", "GetNeighbors", "nodes etype"),
                   ("weighted_sample_neighbors", "WeightedSampleNeighbor", "nodes etype count"), ("uniform_sample_neighbors", "UniformSampleNeighbor", "bool nodes etype count"),
                   ("ppr_neighbors", "PPRSampleNeighbor", "nodes etype count"), ("lastn_neighbors", "LastNCreatedNeighbor", "nodes etype ts count"),
                   ("random_walk", "RandomWalk", "nodes etype count p p"), ("node_types", "GetNodeType", "nodes etype")):
    call(_n, _f, _a)


def sampler(kind):
    C = kind.capitalize()

    @proof(f"failure of {kind} samplers surfaces")
    def p(c, it):
        from contracts import C21
        g, cnt = C21.graph(c, it)
        t = c.int("type")
        nt, f = cnt[kind]
        c.assume(And(inrange(0, t, nt), f(t) > 0))
        failing(c, it)
        k = c.choose(3)
        mk = lambda: it.call(it.get(CL + f":{C}Sampler"), [g, c.reg(VList(items=[t])), ("weighted", "uniform", "withoutreplacement")[k]])
        create = (f"CreateWeighted{C}Sampler", f"CreateUniform{C}Sampler", f"CreateUniform{C}SamplerWithoutReplacement")[k]
        if c.choose(2) == 0:
            c.ghost["%fail"] = create
            surfaces(c, it, mk, create)
            return
        c.ghost["%fail"] = f"Sample{C}s"
        s = mk()
        surfaces(c, it, lambda: it.call_method(s, "sample", [c.int("count", lo=0)]), f"Sample{C}s", True)


sampler("node")
sampler("edge")


@proof("failure to start or stop surfaces", loops=[LoopSpec("remote", P.rinv, func="DistributedGraph"), LoopSpec("partitions", P.inv, types=P.TYPES)],
       overrides=dict(P.OV, **{CL + "._parse_grpc_options": P.parse_options}))
def p_start(c, it):
    P.world(c, it)
    failing(c, it)
    meta = c.atom("str", "meta")
    ids = c.ilist("ids", c.int("n", lo=0), lo=0, hi=2 ** 32 - 1)
    c.ghost["%parts"] = (ids.n, lambda i: meta, ids.fn)
    k = c.choose(5)
    if k == 0:
        c.ghost["%fail"] = "CreateLocalGraph"
        surfaces(c, it, lambda: it.call(it.get(CL + ":MemoryGraph"), [meta, ids]), "CreateLocalGraph")
    elif k == 1:
        c.ghost["%fail"] = "StartServer"
        surfaces(c, it, lambda: it.call(it.get(SV + ":Server"), [meta, ids, c.atom("str", "host")]), "StartServer")
    elif k == 2:
        c.ghost["%fail"] = "CreateRemoteClient"
        n = c.int("servers", lo=1)
        srv, l = P.strs(c, "server", n)
        c.ghost["%remote"] = (n, srv, 0, None, None)
        surfaces(c, it, lambda: it.call(it.get(CL + ":DistributedGraph"), [l]), "CreateRemoteClient")
    elif k == 3:
        c.ghost["%fail"] = "ResetServer"
        s = it.call(it.get(SV + ":Server"), [meta, ids, c.atom("str", "host")])
        surfaces(c, it, lambda: it.call_method(s, "reset", []), "ResetServer")
    else:
        c.ghost["%fail"] = "ResetGraph"
        g = it.call(it.get(CL + ":MemoryGraph"), [meta, ids])
        surfaces(c, it, lambda: it.call_method(g, "reset", []), "ResetGraph")


@proof("failure to fetch remote metadata surfaces", overrides=P.OV)
def p_meta(c, it):
    P.world(c, it)
    failing(c, it)
    src, dst, cfg = (c.atom("str", x) for x in ("src", "dst", "config"))
    pre = z3.Function("startswith", Val, Val, z3.BoolSort())
    c.assume(Or(*[pre(src.expr, z3.Const("text:" + x, Val)) for x in ("hdfs://", "adl://", "file:///")]))
    surfaces(c, it, lambda: it.call(it.get(GE + "snark.meta:download_meta"), [src, dst, cfg]), "HDFSMoveMeta")


# ---------------------------------------------------------------- policy
def bound(it, name, x, names, defaults):
    """arguments of a recorded constructor by name"""
    x = it.force(x)
    if not (isinstance(x, Ext) and x.kind == name):
        raise Unsupported(f"retry policy {x!r}")
    d = dict(defaults)
    d.update(dict(zip(names, x.fields["a"])))
    d.update(x.fields["k"])
    return d


def policy(c, it, r):
    """(attempts, wait before attempt with factor e) of a tenacity.Retrying object"""
    d = bound(it, "tenacity.Retrying", r, ["sleep", "stop", "wait"], {"stop": None, "wait": None, "reraise": False})
    if d["stop"] is None:
        return None, None, d
    n = bound(it, "tenacity.stop_after_attempt", d["stop"], ["max_attempt_number"], {})["max_attempt_number"]
    if d["wait"] is None:
        return n, lambda e: 0, d
    w = bound(it, "tenacity.wait_exponential", d["wait"], ["multiplier", "max", "exp_base", "min"], {"multiplier": 1, "max": 2 ** 62, "exp_base": 2, "min": 0})
    lo, hi, mu = to_z(w["min"]), to_z(w["max"]), to_z(w["multiplier"])

    def wait(e):
        x = z3.If(mu * e < hi, mu * e, hi)
        a = z3.If(lo > 0, lo, 0)
        return z3.If(a > x, a, x)
    return n, wait, d


@proof("remote clients follow the configured policy", loops=[LoopSpec("DistributedGraph.__init__", P.rinv)],
       overrides=dict(P.OV, **{CL + "._parse_grpc_options": lambda it, a, k: it.ctx.ghost["%policy"]}))
def p_policy(c, it):
    P.world(c, it)
    n = c.int("servers", lo=1)
    srv, l = P.strs(c, "server", n)
    c.ghost["%remote"] = (n, srv, 0, None, None)
    N, lo, hi, mu = c.int("max_attempts"), c.int("initial_backoff", lo=0), c.int("max_backoff", lo=0), c.int("backoff_multiplier")
    c.assume(lo <= hi)
    c.ghost["%policy"] = c.reg(VDict([("max_attempts", N), ("initial_backoff", lo), ("max_backoff", hi), ("backoff_multiplier", mu)]))
    g = it.call(it.get(CL + ":DistributedGraph"), [l])
    at, wait, d = policy(c, it, g.fields["_retryer"])
    c.oblige("attempts", at is not None and eqv(at, N))
    e = c.int("e", lo=1)
    if at is not None:
        c.oblige("waits lie between the initial and the maximum backoff", And(wait(e) >= lo, wait(e) <= hi))
    c.oblige("the failure itself is raised in the end", d["reraise"] is True)


@proof("local graphs do not retry", loops=[LoopSpec("MemoryGraph.__init__", P.inv, types=P.TYPES)], overrides=P.OV)
def p_local(c, it):
    P.world(c, it)
    meta = c.atom("str", "meta")
    ids = c.ilist("ids", c.int("n", lo=0), lo=0, hi=2 ** 32 - 1)
    c.ghost["%parts"] = (ids.n, lambda i: meta, ids.fn)
    g = it.call(it.get(CL + ":MemoryGraph"), [meta, ids])
    at, wait, d = policy(c, it, g.fields["_retryer"])
    c.oblige("one attempt", at is not None and le(at, 1))
    c.oblige("the failure itself is raised", d["reraise"] is True)


# ---------------------------------------------------------------- configuration
FIELDS = [("maxAttempts", "max_attempts"), ("initialBackoff", "initial_backoff"), ("maxBackoff", "max_backoff"), ("backoffMultiplier", "backoff_multiplier")]
DEFAULT = {"max_attempts": 5, "initial_backoff": 2, "max_backoff": 10, "backoff_multiplier": 2}


def document(c, it):
    """(document or None when unreadable, expected policy)"""
    k = c.choose(9)
    d = lambda *p: c.reg(VDict(list(p)))
    if k == 0:
        return None, DEFAULT
    if k == 1:
        return d(), DEFAULT
    if k == 2:
        return d(("methodConfig", c.reg(VList(items=[])))), DEFAULT
    if k == 3:
        return d(("methodConfig", c.reg(VList(items=[d()])))), DEFAULT
    vals = {"maxAttempts": c.int("max_attempts"), "backoffMultiplier": c.int("multiplier")}
    want = {"max_attempts": vals["maxAttempts"], "backoff_multiplier": vals["backoffMultiplier"]}
    ok = True
    for f, w in FIELDS[1:3]:
        vals[f] = c.atom("str", f)
        want[w] = SEC(vals[f].expr)
        ok = And(ok, READ(vals[f].expr))
    if k < 8:
        del vals[FIELDS[k - 4][0]]
        want = DEFAULT
    else:
        want = {x: ite(ok, v, DEFAULT[x]) for x, v in want.items()}
    pol = d(*[(f, vals[f]) for f, _ in FIELDS if f in vals])
    return d(("methodConfig", c.reg(VList(items=[d(("retryPolicy", pol))])))), want


READ = z3.Function("readable", Val, z3.BoolSort())
SEC = z3.Function("seconds", Val, z3.IntSort())


def json_world(world):
    setup(world)

    def loads(it, a, k):
        c = it.ctx
        c.oblige("the service configuration is read", eqv(a[0], c.ghost["%text"]))
        if c.ghost["%doc"] is None:
            raise PyExc(ValueError, ("not json",))
        return c.ghost["%doc"]

    def strptime(it, a, k):
        t = it.force(a[0])
        if a[1] != "%Ss" or not isinstance(t, Atom):
            raise Unsupported("time format")
        if not it.ctx.branch(READ(t.expr)):
            raise PyExc(ValueError, ("time",))
        return it.ctx.reg(Ext("when", second=SEC(t.expr)))
    world.models["json.loads"] = loads
    world.models["datetime.datetime.strptime"] = strptime
    world.kinds["when"] = When


class When:
    def a_second(it, o):
        return o.fields["second"]


def oinv(L):
    key = L.ghost["%key"]
    lit = z3.Const("text:" + KEY, Val)
    return [("no configuration so far", ForAll(1, lambda i: Implies(inrange(0, i, L.k), key(i).expr != lit)))] if L.k is not None else []


@proof("the policy is the configuration or the defaults", loops=[LoopSpec("_parse_grpc_options", oinv)], setup=json_world)
def p_parse(c, it):
    m = c.int("m", lo=0)
    key, _ = P.strs(c, "key", m)
    val, _ = P.strs(c, "value", m)
    lit = z3.Const("text:" + KEY, Val)
    J = c.int("J", lo=-1)
    c.assume(J < m)
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, m), (key(i).expr == lit) == (i == J))))
    c.ghost["%key"] = key
    c.ghost["%text"] = val(J)
    c.ghost["%doc"], want = document(c, it)
    r = it.call(it.get(CL + ":_parse_grpc_options"), [c.reg(VList(n=m, fn=lambda i: (key(i), val(i))))])
    for x in DEFAULT:
        c.oblige(x, eqv(it.getitem(r, x), ite(J >= 0, want[x], DEFAULT[x])))


# ---------------------------------------------------------------- ways to a remote client
BK = GE + "backends.snark.client:"


def seen(it, a, k):
    """_parse_grpc_options: proved above; here only what it is given"""
    it.ctx.ghost["%given"].append(a[0])
    return P.parse_options(it, a, k)


class Lock:
    def m___enter__(it, o):
        return True

    def m___exit__(it, o, *a):
        return None


def route_world(world):
    setup(world)
    world.kinds["lock"] = Lock
    world.models["threading.Lock"] = lambda it, a, k: it.ctx.reg(Ext("lock"))
    world.models["os.getpid"] = lambda it, a, k: 1
    world.models["os.makedirs"] = lambda it, a, k: None


ROUTE = dict(P.OV, **{CL + "._parse_grpc_options": seen, GE + "backends.snark.synchronized._create_lock_file": lambda it, a, k: None,
                      GE + "backends.snark.synchronized.SynchronizedClient._wait_for_servers": lambda it, a, k: True,
                      GE + "backends.snark.synchronized.SynchronizedServer.__init__": lambda it, a, k: None,
                      GE + "backends.snark.client.SnarkDistributedBackend._get_server_index_client_rank": lambda it, a, k: it.ctx.ghost["%place"]})


@proof("every way to a remote client keeps the configured options", loops=[LoopSpec("DistributedGraph.__init__", P.rinv)], overrides=ROUTE, setup=route_world)
def p_route(c, it):
    P.world(c, it)
    n, m = c.int("servers", lo=1), c.int("m", lo=0)
    srv, l = P.strs(c, "server", n)
    key, _ = P.strs(c, "key", m)
    val, _ = P.strs(c, "value", m)
    opts = c.reg(VList(n=m, fn=lambda i: (key(i), val(i))))
    c.ghost["%remote"] = (n, srv, m, key, val)
    given = c.ghost["%given"] = []
    how = c.choose(4)
    if how < 2:
        i = c.int("server_idx", lo=-1)
        c.assume(i < n)
        c.ghost["%place"] = (i, c.int("rank", lo=0), c.int("world", lo=1))
        o = it.new(GE + "backends.options:BackendOptions", servers=l, grpc_options=opts, num_threads=None, num_cq_per_thread=None, skip_ge_start=how == 0, enable_ssl=c.choose(2) == 1, ssl_cert=c.atom("str", "cert"),
                   sync_dir=(None, "", "/sync")[c.choose(3)], model_dir=c.atom("str", "model"), data_dir=c.atom("str", "data"), ge_start_timeout=c.int("timeout", lo=0), storage_type=c.atom("storage", "S"),
                   config_path=c.atom("str", "config"), stream=c.choose(2) == 1)
        b = it.call(it.get(BK + "SnarkDistributedBackend"), [o])
        it.getattr(b, "graph")
    else:
        g = it.call(it.get(GE + "snark.distributed:Client"), [l], dict(grpc_options=opts))
        if how == 3:
            f, a = it.force(it.call_method(g, "__reduce__", []))
            given.clear()
            it.call(f, list(it.force(a)))
    c.oblige("connects", len(given) > 0)
    j = c.int("j", lo=0)
    for x in given:
        x = it.force(x)
        if x is opts:
            continue
        c.oblige("no option is dropped", isinstance(x, VList) and eqv(x.length(), m))
        if isinstance(x, VList) and not (isinstance(x.length(), int) and x.length() == 0):
            c.oblige("no option is changed", Implies(j < m, eqv(lget(x, j), (key(j), val(j)))))
