"""C25: discovered server addresses are ordered by server index."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for every number of workers, every assignment of server indexes and every listing order; the published file is read back by the same contract."
ASSUMPTIONS = ["server indexes of workers that start a server are distinct and run from 0 (C24)",
               "a strictly increasing sequence of m integers in [0, m) is the identity and prefix counts are monotone: base and step are discharged in each run, the induction itself is not mechanised",
               "directory listing returns every published file exactly once; addresses contain no line break; the operating system picks host and port"]
CL = GE + "backends.snark.client:"


class File:
    """an address file: read as two lines, or collecting what is written"""

    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        o.fields["closed"] = True
        return None

    def m_close(it, o):
        o.fields["closed"] = True

    def m_readlines(it, o):
        return it.ctx.reg(VList(items=list(it.ctx.ghost["%lines"](o.fields["i"]))))

    def m_write(it, o, s):
        it.ctx.oblige("written before the file is closed", not o.fields.get("closed"))
        o.fields["text"].append(s)

    def m_writelines(it, o, s):
        sq = it.seq(s)
        for i in range(simp(sq.n)):
            o.fields["text"].append(sq.fn(i))


def rstrip(it, o, ch=None):
    if ch not in (None, "\n"):
        raise Unsupported("strip of an address line")
    return Atom("str", o.expr)


def setup(world):
    world.kinds["file"] = File
    world.kinds["socket"] = Socket
    for k, v in (("AF_INET", 2), ("SOCK_DGRAM", 2), ("SOCK_STREAM", 1), ("SOL_SOCKET", 1), ("SO_REUSEADDR", 2)):
        world.consts["socket." + k] = v
    world.consts["os.linesep"] = "\n"
    world.models["os.path.join"] = lambda it, a, k: Tok("path", *a)
    world.models["os.makedirs"] = lambda it, a, k: None
    world.atom_methods["line"] = {"rstrip": rstrip, "strip": rstrip}


def files(c, n):
    """published files in listing order"""
    idx, addr, text = c.func("index", "int", "int"), c.func("address", "int", "val"), c.func("text", "int", "val")
    at = c.func("file", "int", "int")        # file of a server index
    m = c.int("servers", lo=0)
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), And(idx(i) >= -1, idx(i) < m, Implies(idx(i) >= 0, at(idx(i)) == i)))))
    c.assume(ForAll(1, lambda s: Implies(inrange(0, s, m), And(inrange(0, at(s), n), idx(at(s)) == s))))
    c.assume(z3.ForAll([z3.Int("!ti")], parse_int(text(z3.Int("!ti"))) == idx(z3.Int("!ti")), patterns=[text(z3.Int("!ti"))]))
    return idx, addr, text, at, m


def inv(L):
    g = L.ghost["%f"]
    c, idx, addr, cnt = L.c, g["idx"], g["addr"], g["cnt"]
    k = to_z(L.k)
    out = L.servers
    f, j = g["f"], z3.Int("!lj")
    r = [("one entry per worker with a server so far", eqv(out.length(), cnt(k))), ("counts", And(cnt(k) >= 0, cnt(k) <= k))]
    # instances of the definition and of the monotonicity lemma
    c.assume(g["grow"](f, k))
    c.assume(cnt(k + 1) == cnt(k) + ite(idx(k) >= 0, 1, 0))
    ent = lambda p: lget(out, p)
    if out.items is not None and not out.items:
        return r + [("nothing yet", cnt(k) == 0)]
    ok = lambda f: Implies(And(0 <= f, f < k, idx(f) >= 0), And(inrange(0, cnt(f), cnt(k)), eqv(ent(cnt(f)), (idx(f), Atom("str", addr(f))))))
    src = g["src"]
    back = lambda p: Implies(And(0 <= p, p < cnt(k)), And(inrange(0, src(p), k), idx(src(p)) >= 0, cnt(src(p)) == p, eqv(ent(p), (idx(src(p)), Atom("str", addr(src(p)))))))
    if L.phase == "step":
        c.assume(Implies(idx(k - 1) >= 0, src(cnt(k - 1)) == k - 1))     # definition of the worker behind entry cnt(k - 1)
    return r + [("entry of a worker", ok(f)), ("worker of an entry", ForAll(1, back))]


@proof("addresses by index", loops=[LoopSpec("files", inv, types={"L:servers/contents": ("tuple", "int", ("atom", "str", Val))})])
def p_read(c, it):
    n = c.int("n", lo=0)
    idx, addr, text, at, m = files(c, n)
    names = c.reg(VList(n=n, fn=lambda i: Tok("name", i)))
    asked = []

    def listing(it, a, k):
        asked.append(a[0])
        return names
    it.world.models["glob.glob"] = listing

    def op(it, a, k):
        c.oblige("reads published files only", isinstance(a[0], Tok) and a[0].kind == "name" and (len(a) < 2 or a[1] in ("r", "rt")))
        return c.reg(Ext("file", i=to_z(a[0].fields[0])))
    it.world.models["builtins.open"] = op
    c.ghost["%lines"] = lambda i: (Atom("line", addr(i)), Atom("str", text(i)))
    cnt, src = c.func("count", "int", "int"), c.func("source", "int", "int")
    c.assume(cnt(0) == 0)
    S = c.int("S", lo=0)
    c.assume(S < m)
    f = at(S)
    step = lambda k: cnt(k + 1) == cnt(k) + ite(idx(k) >= 0, 1, 0)
    a, b = c.fresh_int("a"), c.fresh_int("b")
    c.assume(And(step(a), step(b)))
    c.oblige("lemma: base", Implies(And(0 <= a, idx(a) >= 0), cnt(a + 1) > cnt(a)))
    c.oblige("lemma: step", Implies(And(0 <= a, a < b, cnt(b) > cnt(a)), cnt(b + 1) > cnt(a)))
    c.ghost["%f"] = {"idx": idx, "addr": addr, "cnt": cnt, "src": src, "f": f, "grow": lambda x, y: Implies(And(0 <= x, x < y, idx(x) >= 0), cnt(y) > cnt(x))}
    r = it.new(CL + "_AddressReader")
    folder = c.atom("str", "folder")
    it.call_method(r, "__init__", [folder])
    out = it.force(it.call_method(r, "servers", []))
    c.oblige("lists the published files of the folder", And(len(asked) == 1, eqv(asked[0], Tok("path", folder, "*.servername"))))
    c.oblige("one address per server", eqv(out.length(), cnt(n)))
    # the sorted indexes are 0, 1, 2, ...
    order = [e[1]() for e in it.enums() if e[0] == "order"]
    if not order:
        raise Unsupported("addresses are not sorted")
    num, el, perm, pinv = order[-1]
    v = lambda k: to_z(el(perm(k))[0])
    k = c.fresh_int("k")
    c.oblige("sorts the collected addresses", eqv(num, cnt(n)))
    c.assume(cnt(n) == m)          # as many workers with a server as servers (finite counting: indexes are a bijection with 0..m-1)
    c.oblige("lemma: sorted indexes increase", Implies(And(0 <= k, k + 1 < m), v(k) < v(k + 1)))
    c.oblige("lemma: sorted indexes are server indexes", Implies(inrange(0, k, m), inrange(0, v(k), m)))
    c.assume(Implies(inrange(0, S, m), v(S) == S))         # increasing within [0, m)
    c.oblige("position of an address is its server index", eqv(lget(out, S), Atom("str", addr(f))))


class Socket:
    """datagram socket: connecting may fail, then the own address is unknown; stream socket: binding to port 0 picks a free port"""

    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        o.fields["open"] = False
        return None

    def m_close(it, o):
        o.fields["open"] = False

    def m_connect(it, o, to):
        if it.ctx.choose(2) == 1:
            raise PyExc(OSError, ("unreachable",))
        o.fields["name"] = (it.ctx.ghost["%host"], it.ctx.fresh_int("own port"))

    def m_bind(it, o, to):
        to = it.seq(to)
        it.ctx.oblige("asks for any free port", eqv(to.fn(1), 0))
        p = it.ctx.fresh_int("port")
        it.ctx.assume(And(p >= 1, p <= 65535))
        o.fields["name"] = (to.fn(0), p)
        it.ctx.ghost["%bound"].append((to.fn(0), p))

    def m_setsockopt(it, o, *a):
        return None

    def m_settimeout(it, o, *a):
        return None

    def m_getsockname(it, o):
        it.ctx.oblige("named socket", o.fields["open"] and o.fields["name"] is not None)
        return o.fields["name"]


@proof("publishing an address")
def p_publish(c, it):
    i, s = c.int("id", lo=0), c.int("server_idx", lo=-1)
    own = c.ghost["%host"] = SStr([("atom", c.atom("str", "host"))])
    bound = c.ghost["%bound"] = []
    it.world.models["socket.socket"] = lambda it, a, k: c.reg(Ext("socket", open=True, name=None))
    opened = []

    def op(it, a, k):
        opened.append((a, k, c.reg(Ext("file", text=[], closed=False))))
        return opened[-1][2]
    it.world.models["builtins.open"] = op
    folder = c.atom("str", "folder")
    r = it.new(CL + "_AddressFinder")
    it.call_method(r, "__init__", [folder, i, s])
    c.oblige("one file", len(opened) == 1)
    if len(opened) != 1:
        return
    a, k, f = opened[0]
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    c.oblige("own file among the address files", And(eqv(a[0], Tok("path", folder, it.binop("Add", it.tostr(i), ".servername"))), isinstance(mode, str) and mode[0] == "w"))
    text = ""
    for t in f.fields["text"]:
        text = it.binop("Add", text, t)
    if len(bound) != 1:
        raise Unsupported("ports asked for")
    host, port = bound[0]
    c.oblige("the own address, or the local host if it is unknown", host == "localhost" if isinstance(host, str) else eqv(host, own))
    want = it.binop("Add", it.binop("Add", it.binop("Add", it.binop("Add", host, ":"), it.tostr(port)), "\n"), it.tostr(s))
    c.oblige("first line is the address, second line the server index", eqv(text, want))
    c.oblige("file is complete before the marker is published", f.fields["closed"])


SY = GE + "backends.snark.synchronized."


def log(what):
    return lambda it, a, k: it.ctx.ghost["%log"](what, a, k)


@proof("discovery", overrides={SY + "SynchronizedServer.__init__": log("server"), SY + "SynchronizedClient.__init__": log("client"), SY + "SynchronizedClient.client": log("get"),
                               SY + "SynchronizedServer.reset": log("stop server"), SY + "SynchronizedClient.reset": log("stop client")})
def p_discover(c, it):
    world, rank, s, timeout = c.int("world_size", lo=1), c.int("rank", lo=0), c.int("server_idx", lo=-1), c.int("timeout", lo=0)
    calls = []
    found = c.reg(VList(n=c.int("n", lo=0), fn=lambda i: c.atom("str", "address")))
    reader = it.new(CL + "_AddressReader", _servers=found)

    def rec(what, a, k):
        calls.append((what, a, k))
        if what == "get":
            return reader
    c.ghost["%log"] = rec
    given = c.choose(2) == 1
    srv = c.reg(VList(n=c.int("given", lo=1), fn=lambda i: c.atom("str", "s"))) if given else (None, c.reg(VList(items=[])))[c.choose(2)]
    b = it.new(CL + "SnarkDistributedBackend", _server=None)
    o = it.new(GE + "backends.options:BackendOptions", servers=srv, model_dir=c.atom("str", "model"), ge_start_timeout=timeout)
    it.call_method(b, "_check_servers_option", [o, world, rank, s])
    got = it.getattr(o, "servers")
    if given:
        c.oblige("given addresses are used as given", got is srv and not calls)
        return
    c.oblige("addresses are those collected", got is found)
    names = [x[0] for x in calls]
    c.oblige("publishes before collecting and stops afterwards", names.count("server") == 1 and names.count("client") == 1 and names.count("get") >= 1 and names.index("server") < names.index("get")
             and "stop client" in names and "stop server" in names and max(i for i, x in enumerate(names) if x == "get") < names.index("stop client") < names.index("stop server"))
    if sorted(set(names)) != sorted(["server", "client", "get", "stop client", "stop server"]):
        return
    sv, cl = [calls[names.index(x)] for x in ("server", "client")]
    sv, cl = bind(sv, ("self", "sync_path", "index", "timeout", "klass")), bind(cl, ("self", "path", "rank", "num_servers", "timeout", "klass"))
    c.oblige("publishes its own rank and server index", And(eqv(sv["index"], rank), sv["klass"] is it.get(CL + "_AddressFinder"), len(sv["rest"]) == 3 and And(eqv(sv["rest"][1], rank), eqv(sv["rest"][2], s))))
    c.oblige("waits for every worker", And(eqv(cl["num_servers"], world), eqv(cl["path"], sv["sync_path"]), eqv(cl["rank"], rank)))
    c.oblige("reads the folder written to", And(cl["klass"] is it.get(CL + "_AddressReader"), len(cl["rest"]) == 1 and eqv(cl["rest"][0], sv["rest"][0]) if len(sv["rest"]) == 3 else False))


def bind(call, names):
    """arguments of a constructor by name, the variable ones as a list"""
    _, a, k = call
    d = dict(zip(names, a))
    d.update(k)
    d["rest"] = list(a[len(names):]) + [k[n] for n in ("path", "id", "server_idx") if n in k and n not in names]
    return d
