"""C26: clients connect only after all servers started; servers outlive clients."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for every number of servers, timeout and order in which marker files appear and disappear; other threads of the client act between any two accesses outside the lock."
ASSUMPTIONS = ["a future's result either reports that the submitted task returned or a timeout; leaving the pool waits for its tasks", "a lock admits one thread at a time",
               "marker files of servers stay while clients connect (a server removes its marker only after every client marker is gone, also proved here, or a timeout)", "a server process runs the server until its stop event is set"]
SY = GE + "backends.snark.synchronized:"


def marker(it, p):
    """(number, kind of marker, text around the number) of a marker path"""
    if not (isinstance(p, Tok) and p.kind == "path"):
        raise Unsupported(f"path {p!r}")
    folder, name = p.fields
    it.ctx.oblige("markers are in the shared folder", eqv(folder, it.ctx.ghost["%folder"]))
    parts = SStr([name]).parts if isinstance(name, str) else name.parts
    if len(parts) != 3 or not isinstance(parts[0], str) or not isinstance(parts[2], str) or parts[1][0] != "int":
        raise Unsupported(f"marker name {name!r}")
    kind = parts[2].rsplit(".", 1)[-1]
    it.ctx.ghost["%names"].setdefault(kind, set()).add((parts[0], parts[2]))
    return parts[1][1], kind


def path(it, a, k):
    return Tok("path", *a) if len(a) == 2 else a[0]


def exists(it, a, k):
    c = it.ctx
    i, kind = marker(it, a[0])
    w = c.ghost["w"]
    there = c.fresh_bool("there")
    if kind == "server":
        it.setfield(w, "seen", Or(w.fields["seen"], And(there, eqv(i, c.ghost["%probe"]))))
    if c.ghost.get("%stale") is not None:
        c.ghost["%stale"](it, kind, there)
    return there


def remove(it, a, k):
    c = it.ctx
    i, kind = marker(it, a[0])
    c.ghost["log"].append(("remove", kind, i)) if isinstance(c.ghost["log"], list) else None
    c.ghost["%on_remove"](it, kind, i)


class Marker:
    def m_write(it, o, *a):
        return None

    def m_close(it, o):
        return None

    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        return None


def opened(it, a, k):
    i, kind = marker(it, a[0])
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    it.ctx.ghost["%on_open"](it, kind, i, mode)
    return it.ctx.reg(Ext("marker"))


class Pool:
    """threads running tasks; leaving the pool waits for every task"""

    def m_submit(it, o, task, *a, **k):
        if a or k or not isinstance(task, Inst):
            raise Unsupported("task of another form")
        return Tok("future", task)

    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        it.ctx.ghost["%on_leave"](it)


def result(it, f, *a, **k):
    c = it.ctx
    t = a[0] if a else k.get("timeout")
    c.oblige("waits no longer than the timeout", eqv(t, c.ghost["%timeout"]))
    c.ghost["%on_wait"](it, f.fields[0])
    if t is not None and c.branch(c.fresh_bool("late")):
        c.ghost["%on_late"](it, f.fields[0])
        raise PyExc(TimeoutError, ())
    it.call(f.fields[0], [])
    c.ghost["%on_done"](it, f.fields[0])


class Lock:
    """other threads of this process may have run before the lock is taken"""

    def m___enter__(it, o):
        it.ctx.oblige("not locked twice", Not(o.fields["held"]))
        it.setfield(o, "held", True)
        it.ctx.ghost["%on_lock"](it)
        return True

    def m___exit__(it, o, *a):
        it.ctx.ghost["%on_unlock"](it)
        it.setfield(o, "held", False)


class Event:
    def m_set(it, o):
        it.ctx.ghost["%on_stop"](it)

    def m_wait(it, o, *a):
        it.ctx.ghost["%on_event"](it)
        return True


class Client:
    def m_reset(it, o):
        it.ctx.ghost["%on_reset"](it)


def setup(world):
    world.kinds.update(pool=Pool, lock=Lock, event=Event, marker=Marker, client=Client)
    world.atom_methods["future"] = {"result": result}
    world.consts["concurrent.futures.TimeoutError"] = TimeoutError       # the same class since Python 3.11
    M = world.models
    M["pathlib.Path"] = path
    M["os.path.exists"] = exists
    M["os.path.join"] = lambda it, a, k: Tok("path", a[0], a[1])
    M["os.remove"] = M["os.unlink"] = remove
    M["builtins.open"] = opened
    M["concurrent.futures.ThreadPoolExecutor"] = lambda it, a, k: it.ctx.reg(Ext("pool"))
    M["threading.Lock"] = lambda it, a, k: it.ctx.reg(Ext("lock", held=False))
    M["multiprocessing.Event"] = lambda it, a, k: it.ctx.reg(Ext("event"))
    M["multiprocessing.Process"] = lambda it, a, k: None            # constructor of the base class
    M["multiprocessing.Process.start"] = lambda it, a, k: it.ctx.ghost["%start"](it, a[0])
    M["time.sleep"] = lambda it, a, k: None
    M["os.getpid"] = lambda it, a, k: it.ctx.ghost["%pid"]
    M["glob.glob"] = globbed


def globbed(it, a, k):
    c = it.ctx
    p = a[0]
    if not (isinstance(p, Tok) and p.kind == "path" and isinstance(p.fields[1], str) and p.fields[1].startswith("*")):
        raise Unsupported("glob pattern")
    c.oblige("looks in the shared folder", eqv(p.fields[0], c.ghost["%folder"]))
    n = c.fresh_int("clients")
    c.assume(n >= 0)
    c.ghost["%on_glob"](it, p.fields[1], n)
    return c.reg(VList(n=n, fn=lambda i: Atom("str", c.func("!client", "int", "val")(to_z(i)))))


# ---------------------------------------------------------------- client
def index_of(it, task):
    return it.getattr(task, "index")


def poll(L):
    w = L.ghost["w"].fields
    if L.phase == "init":
        L.ghost["%seen0"] = w["seen"]
    return [("what was seen stays seen", Implies(L.ghost["%seen0"], w["seen"]))]


def waits(L):
    w, k = L.ghost["w"].fields, L.k
    p = L.ghost["%probe"]
    return [("every server waited for so far was seen", Or(Not(L.result), Implies(cmp("<", p, k), w["seen"]))),
            ("a task that was given up is told to stop", Implies(cmp("<", p, k), Or(w["done"], w["told"]))),
            ("only tasks waited for were told to stop", Implies(cmp(">=", p, k), Not(w["told"])))]


def common(c, it, servers):
    w = c.reg(Ext("rec", seen=False, done=False, told=False, made=0, removed=0))
    folder = c.atom("str", "folder")
    p = c.int("server", lo=0)
    c.assume(p < servers)
    pid = c.int("pid")
    g = {"w": w, "%folder": folder, "%probe": p, "%names": {}, "%pid": pid, "%stale": None, "log": None}

    def mine(it, t):
        return eqv(index_of(it, t), p)
    g["%on_wait"] = lambda it, t: it.ctx.oblige("a task is waited for before it is told to stop", Implies(mine(it, t), Not(w.fields["told"])), kind="loop")
    g["%on_late"] = lambda it, t: None
    g["%on_done"] = lambda it, t: it.setfield(w, "done", Or(w.fields["done"], mine(it, t)))

    def told(it, o, place, v):
        if place != "F:keep_going" or v is not False:
            return False
        it.setfield(w, "told", Or(w.fields["told"], mine(it, o)))
        return True
    g["%on_shadow"] = told
    g["%on_leave"] = lambda it: it.ctx.oblige("leaving the pool does not wait forever", Or(w.fields["done"], w.fields["told"]))
    c.ghost.update(g)
    return w, folder, p, pid


CLIENT_LOOPS = [LoopSpec("poll", poll, func=r"__call__"), LoopSpec("waits", waits, func=r"_wait_for_servers")]


@proof("connecting", loops=CLIENT_LOOPS)
def p_client(c, it):
    n, t, rank = c.int("servers", lo=1), c.real("timeout"), c.int("rank", lo=0)
    w, folder, p, pid = common(c, it, n)
    c.ghost["%timeout"] = t
    cl = c.reg(Ext("client"))
    other = c.reg(Ext("client"))
    lock = c.reg(Ext("lock", held=False))
    up = c.fresh_bool("already")
    opid = c.int("original pid")

    def make(it, a, k):
        it.ctx.oblige("created while holding the lock", lock.fields["held"])
        it.ctx.oblige("created only once", And(Not(c.ghost["%up"]), eqv(w.fields["made"], 0)))
        it.ctx.oblige("created after the marker of every server was seen", w.fields["seen"])
        it.setfield(w, "made", add(w.fields["made"], 1))
        return cl
    s = it.new(SY + "SynchronizedClient", rank=rank, path=folder, original_pid=opid, num_servers=n, timeout=t, _client=None, _ktr=Prim("ktr", make), _lock=lock)
    before = c.choose(2) == 1       # created earlier
    if before:
        s.fields["_client"] = other
    c.ghost["%up"] = before

    def on_lock(it):
        if it.getattr(s, "_client") is None and c.choose(2) == 1:
            c.ghost["%up"] = True       # another thread was first
            s.fields["_client"] = other

    def on_unlock(it):
        it.ctx.oblige("a client that was created is kept", (it.getattr(s, "_client") is not None) == (bool(c.ghost["%up"]) or not eq0(w.fields["made"])))

    def on_remove(it, kind, i):
        it.ctx.oblige("removes only its own marker", And(kind == "client", eqv(i, rank), eqv(pid, opid)))
        it.setfield(w, "removed", add(w.fields["removed"], 1))
    resets = []
    c.ghost.update({"%on_lock": on_lock, "%on_unlock": on_unlock, "%on_remove": on_remove, "%on_reset": lambda it: resets.append(1)})
    try:
        r = it.getattr(s, "client")
    except PyExc as ex:
        c.oblige("fails only with a timeout", ex.cls is TimeoutError)
        c.oblige("no client was created", eqv(w.fields["made"], 0))
        c.oblige("its own marker is removed, once, by the process that wrote it", eqv(w.fields["removed"], ite(pid == opid, 1, 0)))
        return
    r = it.force(r)
    c.oblige("the client created is returned", r is (other if c.ghost["%up"] else cl))
    c.oblige("the marker stays", eqv(w.fields["removed"], 0))
    c.oblige("not reset", not resets)
    c.oblige("the lock is free", Not(lock.fields["held"]))


def eq0(x):
    return isinstance(x, int) and x == 0


def plain(c, **k):
    """ghost state of the proofs without servers to wait for"""
    nothing = lambda *a: None
    g = {"w": c.reg(Ext("rec", seen=False, step=0)), "%folder": c.atom("str", "folder"), "%probe": -1, "%names": {}, "%pid": c.int("pid"), "%stale": None, "log": None, "%timeout": None}
    g.update({"%on_" + x: nothing for x in ("wait", "late", "done", "leave", "lock", "unlock", "stop", "event", "reset", "remove", "open", "glob")})
    g.update(k)
    c.ghost.update(g)
    return g["w"], g["%folder"]


@proof("announcing a client")
def p_announce(c, it):
    w, folder = plain(c)
    rank, n = c.int("rank", lo=0), c.int("servers", lo=1)
    made, stale = [], []
    c.ghost["%on_open"] = lambda it, kind, i, mode: made.append((kind, i, mode, list(stale)))
    c.ghost["%stale"] = lambda it, kind, there: stale.append((kind, there))
    args = []
    klass = Prim("klass", lambda it, a, k: args.append((a, k)))
    x, y = c.atom("any", "x"), c.atom("any", "y")
    try:
        s = it.call(it.get(SY + "SynchronizedClient"), [folder, rank, n, c.real("timeout"), klass, x], {"option": y})
    except PyExc as ex:
        c.oblige("refused only over a marker left behind", And(len(stale) == 1 and stale[0][1]))
        c.oblige("nothing announced", not made)
        return
    c.oblige("announced once, under its own number", len(made) == 1 and And(made[0][0] == "client", eqv(made[0][1], rank)))
    c.oblige("not over a marker left behind", len(stale) == 1 and And(stale[0][0] == "client", Not(stale[0][1])))
    c.oblige("not connected yet", not args and it.getattr(s, "_client") is None)
    it.call(it.getattr(s, "_ktr"), [])
    c.oblige("connects with the caller's arguments", len(args) == 1 and len(args[0][0]) == 1 and args[0][0][0] is x and list(args[0][1]) == ["option"] and args[0][1]["option"] is y)


@proof("disconnecting a client")
def p_reset(c, it):
    w, folder = plain(c)
    rank, opid = c.int("rank", lo=0), c.int("original pid")
    lock = c.reg(Ext("lock", held=False))
    cl = c.reg(Ext("client")) if c.choose(2) else None
    s = it.new(SY + "SynchronizedClient", rank=rank, path=folder, original_pid=opid, num_servers=1, timeout=c.real("timeout"), _client=cl, _ktr=None, _lock=lock)
    log = []
    c.ghost["%on_reset"] = lambda it: log.append("reset")

    def on_remove(it, kind, i):
        it.ctx.oblige("removes only its own marker", And(kind == "client", eqv(i, rank), c.ghost["%pid"] == opid))
        log.append("removed")
    c.ghost["%on_remove"] = on_remove
    it.call_method(s, "reset", [])
    want = ["reset"] if cl is not None else []
    c.oblige("disconnects first, then removes the marker if this process wrote it", Or(And(c.ghost["%pid"] == opid, log == want + ["removed"]), And(c.ghost["%pid"] != opid, log == want)))
    c.oblige("the lock is free", Not(lock.fields["held"]))


def server(c, it, folder, index, **k):
    f = dict(id=index, sync_path=folder, _server=None, _ktr=None, _stop_event=c.reg(Ext("event")))
    f.update(k)
    return it.new(SY + "_ServerProcess", **f)


@proof("starting a server")
def p_run(c, it):
    w, folder = plain(c)
    i = c.int("server", lo=0)
    log = []
    there = []

    def start(it, a, k):
        log.append("start")
        return c.reg(Ext("client"))
    c.ghost["%stale"] = lambda it, kind, t: there.append((kind, t))

    def on_open(it, kind, j, mode):
        it.ctx.oblige("publishes its own marker", And(kind == "server", eqv(j, i)))
        log.append("publish")
    c.ghost["%on_open"] = on_open
    c.ghost["%on_event"] = lambda it: log.append("serve")
    p = server(c, it, folder, i, _ktr=Prim("ktr", start))
    try:
        it.call_method(p, "run", [])
    except PyExc as ex:
        c.oblige("refused only over a marker left behind", len(there) == 1 and there[0][1])
        c.oblige("nothing published", "publish" not in log)
        return
    c.oblige("published after the start, then serves until stopped", log == ["start", "publish", "serve"])
    c.oblige("not over a marker left behind", len(there) == 1 and And(there[0][0] == "server", Not(there[0][1])))


@proof("stopping a server", loops=[LoopSpec("poll", FREE, func=r"__call__")])
def p_join(c, it):
    w, folder = plain(c)
    i = c.int("server", lo=0)
    forever = c.choose(2) == 1
    t = None if forever else c.real("timeout")
    st = c.reg(Ext("rec", late=False, alone=False, told=False))
    c.ghost.update({"st": st, "%timeout": t})
    log = []

    def on_glob(it, pattern, n):
        it.ctx.ghost["%patterns"].append(pattern)
        it.setfield(st, "alone", eqv(n, 0))
    c.ghost["%patterns"] = []
    c.ghost["%on_glob"] = on_glob
    late = []
    c.ghost["%on_late"] = lambda it, task: late.append(task)

    def on_leave(it):
        it.ctx.oblige("leaving the pool does not wait forever", Or(not late, *[eqv(it.getattr(x, "keep_going"), False) for x in late]))
    c.ghost["%on_leave"] = on_leave

    def on_stop(it):
        it.ctx.oblige("stops only when no client is left or the timeout expired", Or(bool(late), st.fields["alone"]))
        log.append("stop")
    c.ghost["%on_stop"] = on_stop
    c.ghost["%on_reset"] = lambda it: log.append("unload")
    made = c.choose(2) == 1
    p = server(c, it, folder, i, _server=c.reg(Ext("client")) if made else None)
    it.call_method(p, "join", [] if forever and c.choose(2) else [t])
    c.oblige("stopped once, then unloaded", log == ["stop"] + (["unload"] if made else []))
    c.oblige("looks for markers of clients", all(x == "*.client" for x in c.ghost["%patterns"]))
    # marker names: clients announce themselves under a name that is looked for, and look for the names servers publish
    for nm in ("client", "server"):
        it.call(it.get(SY + "_check_lock_file"), [folder, i, nm])
    names = c.ghost["%names"]
    c.oblige("markers of clients match", all(b.endswith(".client") for a, b in names["client"]))


@proof("marker names")
def p_names(c, it):
    w, folder = plain(c)
    i = c.int("i", lo=0)
    for kind in ("client", "server"):
        for f in ("_check_lock_file", "_delete_lock_file", "_create_lock_file"):
            try:
                it.call(it.get(SY + f), [folder, i, kind])
            except PyExc:
                pass
    names = c.ghost["%names"]
    c.oblige("one name per marker", all(len(x) == 1 for x in names.values()) and set(names) == {"client", "server"})


@proof("shutting down a server", overrides={GE + "backends.snark.synchronized._ServerProcess.join": lambda it, a, k: it.ctx.ghost["%joined"](a, k)})
def p_down(c, it):
    w, folder = plain(c)
    i, t, opid = c.int("server", lo=0), c.real("timeout"), c.int("original pid")
    log = []

    def joined(a, k):
        c.oblige("waits for the configured time", eqv(a[1] if len(a) > 1 else k.get("timeout"), t))
        log.append("join")
    c.ghost["%joined"] = joined

    def on_remove(it, kind, j):
        it.ctx.oblige("removes only its own marker", And(kind == "server", eqv(j, i), c.ghost["%pid"] == opid))
        log.append("removed")
    c.ghost["%on_remove"] = on_remove
    s = it.new(SY + "SynchronizedServer", sync_path=folder, id=i, timeout=t, original_pid=opid, _server_process=server(c, it, folder, i))
    it.call_method(s, "reset", [])
    c.oblige("the marker is removed after the clients left, by the process that started the server", Or(And(c.ghost["%pid"] == opid, log == ["join", "removed"]), And(c.ghost["%pid"] != opid, log == ["join"])))


@proof("creating a server")
def p_new(c, it):
    w, folder = plain(c)
    i, t = c.int("server", lo=0), c.real("timeout")
    started, made = [], []
    c.ghost["%start"] = lambda it, o: started.append(o)
    x, y = c.atom("any", "argument"), c.atom("any", "option")

    def klass(it, a, k):
        made.append((tuple(a), dict(k)))
        return c.reg(Ext("client"))
    log = []
    c.ghost["%on_open"] = lambda it, kind, j, mode: log.append((kind, j))
    s = it.call(it.get(SY + "SynchronizedServer"), [folder, i, t, Prim("klass", klass), x], {"option": y})
    c.oblige("the server is not created in this process", not made and not log)
    c.oblige("one process is started", len(started) == 1)
    p = started[0]
    c.ghost["%stale"] = lambda it, kind, t: it.ctx.assume(Not(t))
    it.call_method(p, "run", [])
    c.oblige("the process creates the server with the arguments given", len(made) == 1 and len(made[0][0]) == 1 and made[0][0][0] is x and set(made[0][1]) == {"option"} and made[0][1]["option"] is y)
    c.oblige("and publishes the marker of its index", len(log) == 1 and And(log[0][0] == "server", eqv(log[0][1], i)))
    # what shutting down relies on
    f = s.fields
    c.oblige("settings kept for shutting down", And(eqv(f["timeout"], t), eqv(f["id"], i), f["_server_process"] is p, eqv(f["original_pid"], c.ghost["%pid"]), eqv(f["sync_path"], folder)))
