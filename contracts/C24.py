"""C24: each host of a training cluster starts one server with a unique index."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for every uniform cluster (rank = host * local size + local rank), every list of distinct workers in every order, every metadata file and every combination of launch environments."
ASSUMPTIONS = ["string order is a strict total order, and two sorted enumerations of the same distinct strings are equal",
               "counts of distinct hosts are monotone: base and step are discharged in each run, the induction itself is not mechanised",
               "the launcher sets ranks and sizes of a uniform cluster as decimal integers"]
CL = GE + "backends.snark.client:SnarkDistributedBackend"
B = z3.BoolSort()


class Environ:
    def m___contains__(it, o, k):
        return k in it.ctx.ghost["%env"]

    def m___getitem__(it, o, k):
        if k not in it.ctx.ghost["%env"]:
            raise PyExc(KeyError, (k,))
        return it.ctx.ghost["%env"][k]

    def m_get(it, o, k, d=None):
        return it.ctx.ghost["%env"].get(k, d)


HOST = z3.Function("host_of", Val, Val)


def rsplit(it, o, sep=None, n=-1):
    if sep != ":" or n != 1:
        raise Unsupported("worker address split")
    return it.ctx.reg(VList(items=[Atom("host", HOST(o.expr)), Atom("port", z3.Function("port_of", Val, Val)(o.expr))]))


def setup(world):
    world.kinds["environ"] = Environ
    world.consts["os.environ"] = lambda it: it.ctx.ghost["%environ"]
    world.models["os.getenv"] = lambda it, a, k: it.ctx.ghost["%env"].get(a[0], a[1] if len(a) > 1 else k.get("default"))
    world.models["os.environ.get"] = world.models["os.getenv"]
    world.models["os.path.join"] = lambda it, a, k: Tok("path", *a)
    world.models["json.loads"] = lambda it, a, k: it.ctx.ghost["%tf"](it, a[0])
    world.models["json.load"] = lambda it, a, k: it.ctx.ghost["%meta"](it, a[0])
    world.models["builtins.open"] = lambda it, a, k: it.ctx.ghost["%open"](it, a, k)
    world.kinds["file"] = File
    world.atom_methods["worker"] = {"rsplit": rsplit, "rpartition": lambda it, o, s: (rsplit(it, o, s, 1).items[0], s, rsplit(it, o, s, 1).items[1])}


class File:
    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        return None

    def m_readlines(it, o):
        raise Unsupported("lines of the metadata")


def backend(c, it, env=None, **opts):
    c.ghost["%env"] = env or {}
    c.ghost["%environ"] = c.reg(Ext("environ"))
    c.ghost["%open"] = lambda it, a, k: _no("opens a file")
    c.ghost["%tf"] = lambda it, a: _no("reads a cluster description")
    o = dict(num_ge=0, servers=c.reg(VList(items=["s"])), server_idx=None, client_rank=None, data_dir="d", model_dir="m")
    o.update(opts)
    return it.new(CL, _server=None), it.new(GE + "backends.options:BackendOptions", **o)


def _no(what):
    raise Unsupported(what)


def cluster(c):
    """one worker of a uniform cluster: host, position on the host, workers per host"""
    H, h, L, l = c.int("hosts", lo=1), c.int("host", lo=0), c.int("local_size", lo=1), c.int("local_rank", lo=0)
    c.assume(And(h < H, l < L))
    rank = h * L + l
    c.divmod(rank, L)
    c.assume(And(rank >= 0, rank < H * L))
    return h, l, L, rank, H * L


def expected(c, res, h, l, rank, size):
    s, r, w = res
    c.oblige("the first worker of every host starts the server of that host, no other worker does", eqv(s, ite(l == 0, h, -1)))
    c.oblige("own client rank", eqv(r, rank))
    c.oblige("common world size", eqv(w, size))


def env_of(it, kind, l, L, rank, size):
    names = {"ddp": ("LOCAL_RANK", "LOCAL_WORLD_SIZE", "RANK", "WORLD_SIZE"),
             "mpi": ("OMPI_COMM_WORLD_LOCAL_RANK", "OMPI_COMM_WORLD_LOCAL_SIZE", "OMPI_COMM_WORLD_RANK", "OMPI_COMM_WORLD_SIZE"),
             "horovod": ("HOROVOD_LOCAL_RANK", "HOROVOD_LOCAL_SIZE", "HOROVOD_RANK", "HOROVOD_SIZE")}[kind]
    return dict(zip(names, [it.tostr(x) for x in (l, L, rank, size)]))


@proof("ranks from the launcher")
def p_env(c, it):
    h, l, L, rank, size = cluster(c)
    b, o = backend(c, it, env_of(it, ("ddp", "mpi", "horovod")[c.choose(3)], l, L, rank, size))
    expected(c, it.force(it.call_method(b, "_get_server_index_client_rank", [o])), h, l, rank, size)


@proof("explicit indexes")
def p_explicit(c, it):
    h, l, L, rank, size = cluster(c)
    kind = (None, "ddp", "mpi", "horovod")[c.choose(4)]
    i, r, n, ns = c.int("server_idx"), c.int("client_rank"), c.int("num_ge", lo=1), c.int("servers", lo=1)
    given = c.choose(2) == 1
    srv = c.reg(VList(n=ns, fn=lambda j: c.atom("str", "s"))) if given else (None, c.reg(VList(items=[])))[c.choose(2)]
    b, o = backend(c, it, env_of(it, kind, l, L, rank, size) if kind else {}, server_idx=i, client_rank=r, num_ge=n, servers=srv)
    s, q, w = it.force(it.call_method(b, "_get_server_index_client_rank", [o]))
    c.oblige("the given indexes win over the environment", And(eqv(s, i), eqv(q, r)))
    c.oblige("world size is the number of servers", eqv(w, ns if given else n))


@proof("number of servers from the metadata")
def p_meta(c, it):
    n = c.int("partitions", lo=0)
    i, r = c.int("server_idx"), c.int("client_rank")
    b, o = backend(c, it, {}, server_idx=i, client_rank=r, servers=(None, c.reg(VList(items=[])))[c.choose(2)])
    f = c.reg(Ext("file"))
    opened = []

    def op(it, a, k):
        opened.append(a[0])
        return f
    c.ghost["%open"] = op
    parts = c.reg(SMap(lambda k: False, lambda k: None, n))
    c.ghost["%meta"] = lambda it, a: c.reg(VDict([("partitions", parts)])) if a is f else _no("other file")
    s, q, w = it.force(it.call_method(b, "_get_server_index_client_rank", [o]))
    c.oblige("metadata of this graph", And(len(opened) == 1, eqv(opened[0], Tok("path", "d", "meta.json"))))
    c.oblige("one server per partition, at most four", And(eqv(s, i), eqv(q, r), eqv(w, ite(n < 4, n, 4))))


# ---------------------------------------------------------------- worker lists
def inset(s, x):
    return s.has(x) if s.items is None else Or(*[eqv(y, x) for y in s.items])


def inv(L):
    g = L.ghost["%w"]
    seen = [v for v in [L.seen_hosts] if isinstance(v, VSet)][0]
    k = to_z(L.k)
    x = z3.Const("!hx", Val)
    pos = g["pos"]
    r = [("hosts of earlier workers", z3.ForAll([x], to_z(inset(seen, Atom("host", x))) == g["seen"](k, x)) if seen.items is None or seen.items else k == 0),
         ("their number", eqv(len(seen.items) if seen.items is not None else seen.n, g["D"](k))),
         ("the worker itself is not reached yet", k <= pos)]
    return r


def workers(c, it, n):
    """the cluster: workers in string order; every process sees them in some order of its own"""
    S = c.func("worker", "int", "val")
    lt_ = z3.Function("val_lt", Val, Val, B)
    c.assume(ForAll(2, lambda i, j: Implies(And(0 <= i, i < j, j < n), And(S(i) != S(j), lt_(S(i), S(j))))))
    host = lambda k: HOST(S(k))
    seen, first = c.func("seen", "int", "val", "bool"), c.func("first", "val", "int")
    D = c.func("distinct", "int", "int")
    k, x = z3.Int("!dk"), z3.Const("!dx", Val)
    # first(x): position of the first worker of host x, or beyond the end
    c.assume(z3.ForAll([k, x], seen(k, x) == z3.And(first(x) < k), patterns=[seen(k, x)]))
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), And(0 <= first(host(i)), first(host(i)) <= i, host(first(host(i))) == host(i)))))
    c.assume(z3.ForAll([x], z3.Or(first(x) >= n, z3.And(first(x) >= 0, host(first(x)) == x)), patterns=[first(x)]))
    step = lambda i: D(i + 1) == D(i) + ite(first(host(i)) < i, 0, 1)
    c.assume(D(0) == 0)
    c.assume(z3.ForAll([k], step(k), patterns=[D(k + 1)]))
    # lemma: counts grow, strictly past the first worker of a host
    a, b = c.fresh_int("a"), c.fresh_int("b")
    c.assume(And(step(a), step(b)))
    c.oblige("lemma: base", Implies(And(0 <= a, first(host(a)) == a), D(a + 1) > D(a)))
    c.oblige("lemma: step", Implies(And(0 <= a, a < b, D(b) > D(a)), D(b + 1) > D(a)))
    return S, host, seen, first, D


def listed(c, it, name, S, n):
    """a list of the workers in an arbitrary order, whose sorted order is S"""
    p, q = c.func(name + ".order", "int", "int"), c.func(name + ".at", "int", "int")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), And(inrange(0, p(i), n), q(p(i)) == i))))
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), And(inrange(0, q(i), n), p(q(i)) == i))))
    l = c.reg(VList(n=n, fn=lambda i: Atom("worker", S(p(to_z(i))))))
    s = sorted_view(it, l)
    k = z3.Int("!sk")
    # sorting is unique: the sorted list is S whatever the order of the list
    c.assume(ForAll(1, lambda k: Implies(inrange(0, k, n), p(s.perm(k)) == k)))
    return l, p


def ask(c, it, how, l, i, pos, S, seen, D, n):
    c.ghost["%w"] = {"pos": pos, "seen": seen, "D": D}
    before = l.fn
    if how == "config":
        b, o = backend(c, it, {"TF_CONFIG": c.atom("str", "TF_CONFIG")})
        cfg = c.reg(VDict([("task", c.reg(VDict([("type", "worker"), ("index", i)]))), ("cluster", c.reg(VDict([("worker", l)])))]))
        c.ghost["%tf"] = lambda it, a: cfg if eqv(a, c.ghost["%env"]["TF_CONFIG"]) is True else _no("other text")
    else:
        b, o = backend(c, it, {})
        it.setfield(o, "task_index", i)
        it.setfield(o, "worker_hosts", l)
    r = it.force(it.call_method(b, "_get_server_index_client_rank", [o]))
    j = c.fresh_int("j")
    if how == "args":
        c.oblige("the list of workers is left as given", And(eqv(l.length(), n), Implies(inrange(0, j, n), eqv(lget(l, j), before(j)))))
    return r


@proof("worker lists", loops=[LoopSpec("workers", inv, types={"L:seen_hosts/contents": "val"})])
def p_tf(c, it):
    n = c.int("n", lo=1)
    S, host, seen, first, D = workers(c, it, n)
    how = ("config", "args")[c.choose(2)]
    res = []
    for name in ("one", "two"):
        l, p = listed(c, it, name, S, n)
        i = c.int("index_" + name, lo=0)
        c.assume(i < n)
        pos = p(i)
        s, r, w = ask(c, it, how, l, i, pos, S, seen, D, n)
        c.oblige("own client rank", eqv(r, i))
        c.oblige("common world size", eqv(w, n))
        res.append((pos, s))
    (a, sa), (b, sb) = res
    # instances of the lemma: counts grow strictly past the first worker of a host
    for x, y in ((a, b), (b, a)):
        c.assume(Implies(And(0 <= x, x < y, first(host(x)) == x), D(y) > D(x)))
    c.assume(Implies(first(host(a)) == a, And(D(n) > D(a), D(a) >= 0)))
    c.oblige("exactly the first worker of a host starts a server", eqv(cmp(">=", sa, 0), first(host(a)) == a))
    c.oblige("at most one worker per host", Implies(And(a != b, host(a) == host(b)), Or(eqv(sa, -1), eqv(sb, -1))))
    c.oblige("indexes of different hosts differ", Implies(And(a != b, cmp(">=", sa, 0), cmp(">=", sb, 0)), Not(eqv(sa, sb))))
    c.oblige("indexes are below the number of hosts", And(cmp(">=", sa, -1), Implies(cmp(">=", sa, 0), cmp("<", sa, D(n)))))
