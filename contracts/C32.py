"""C32: uploaded lines are queued once each and in order, spread over uploaders."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for every number of lines, chunk size, number of processes, file size limit and sequence of chunks."
ASSUMPTIONS = ["queues accept data (a full queue is reported to the caller, a closed one is not modelled) and deliver it in order", "the store writes what it is given", "chunks are never empty"]
UP = GE + "adl_uploader:"


def put(it, q, chunk, **k):
    c, r = it.ctx, it.ctx.ghost["rec"]
    f = r.fields
    c.oblige("chunks go to the upload processes in rotation", eqv(q.expr, c.ghost["%turn"](c, f["count"])))
    parts = c.ghost["%parts"](it, chunk)
    n, line = parts
    c.oblige("chunks have between one line and the configured number", And(cmp(">=", n, 1), cmp("<=", n, c.ghost["%M"]), cmp("<=", add(f["next"], n), c.ghost["%n"])))
    t = c.fresh_int("t")
    c.oblige("lines of a chunk are the next lines in order", Implies(inrange(0, t, n), eqv(line(t), c.ghost["%line"](add(f["next"], t)))))
    it.setfield(r, "next", add(f["next"], n))
    it.setfield(r, "count", add(f["count"], 1))


def setup(world):
    world.atom_methods["queue32"] = {"put": put, "put_nowait": put}
    world.atom_methods["file32"] = {"truth": lambda it, o: True, "write": write, "close": close}
    world.kinds.update(incoming=Incoming, store=Store)


def parts(it, chunk):
    """lines of an encoded chunk: joined by line feeds, one at the end"""
    s = decoded(it, chunk)
    ps = s.parts if isinstance(s, SStr) else ()
    if len(ps) != 2 or ps[0][0] != "joined" or ps[0][1] != "\n" or ps[1] != "\n":
        raise Unsupported(f"chunk of another form: {s!r}")
    l = ps[0][2]
    return l.length(), lambda t: lget(l, t)


def decoded(it, b):
    if isinstance(b, Bytes) and len(b.segs) == 1 and b.segs[0][0] == "utf8":
        return b.segs[0][1]
    raise Unsupported(f"chunk {b!r}")


def linv(L):
    r, c = L.ghost["rec"].fields, L.c
    return [("next line", And(eqv(L.offset, r["next"]), cmp("<=", r["next"], L.ghost["%n"]), cmp(">=", r["next"], 0))),
            ("chunks so far", And(eqv(L.ghost["%up"].fields["total_chunk"], add(L.ghost["%T0"], r["count"])), cmp(">=", r["count"], 0))),
            ("nothing queued after closing", Or(L.ghost["%running"], eqv(r["next"], 0)))]


@proof("lines to chunks", loops=[LoopSpec("chunks", linv, variant=lambda L: sub(L.ghost["%n"], L.offset))])
def p_lines(c, it):
    n, M, P, T0 = c.int("n", lo=0), c.int("max_lines", lo=1), c.int("processes", lo=1), c.int("total_chunk", lo=0)
    lines = c.func("line", "int", "val")
    L = c.reg(VList(n=n, fn=lambda i: Atom("str", lines(to_z(i)))))
    queues = c.reg(VList(n=P, fn=lambda i: Atom("queue32", to_z(i))))
    running = c.choose(2) == 1
    up = it.new(UP + "AdlDataWriter", max_lines_per_chunk=M, data_queues=queues, processes=c.reg(VList(n=P, fn=lambda i: Atom("process", to_z(i)))), total_chunk=T0, is_running=running)
    rec = c.reg(Ext("rec", next=0, count=0))
    c.ghost.update({"rec": rec, "%turn": lambda c, k: c.divmod(add(T0, k), P)[1], "%parts": parts, "%M": M, "%n": n, "%line": lambda i: Atom("str", lines(to_z(i))), "%up": up, "%T0": T0, "%running": running})
    r = it.call_method(up, "writelines", [L])
    if running:
        c.oblige("every line is queued", eqv(rec.fields["next"], n))
        c.oblige("reported as written", eqv(r, True))
    else:
        c.oblige("nothing is queued after closing, and that is reported", And(eqv(rec.fields["next"], 0), Or(eqv(r, False), n == 0)))


@proof("one text")
def p_write(c, it):
    P, T0 = c.int("processes", lo=1), c.int("total_chunk", lo=0)
    queues = c.reg(VList(n=P, fn=lambda i: Atom("queue32", to_z(i))))
    up = it.new(UP + "AdlDataWriter", data_queues=queues, processes=c.reg(VList(n=P, fn=lambda i: Atom("process", to_z(i)))), total_chunk=T0, is_running=True)
    text_ = c.atom("str", "text")
    rec = c.reg(Ext("rec", next=0, count=0))

    def one(it, chunk):
        return 1, lambda t: decoded(it, chunk)
    c.ghost.update({"rec": rec, "%turn": lambda c, k: c.divmod(add(T0, k), P)[1], "%parts": one, "%M": 1, "%n": 1, "%line": lambda i: text_, "%up": up, "%T0": T0})
    it.call_method(up, "write", [text_])
    c.oblige("the text is queued once", eqv(rec.fields["next"], 1))
    c.oblige("the next chunk goes to the next process", eqv(it.getattr(up, "total_chunk"), add(T0, 1)))


# ---------------------------------------------------------------- one upload thread
class Incoming:
    """the queue of a process: chunks 0, 1, ... and then the end"""

    def m_get(it, o, *a, **k):
        c, f = it.ctx, o.fields
        c.oblige("the previous chunk was finished", And(eqv(f["done"], f["got"]), eqv(f["written"], f["got"])))
        it.setfield(o, "got", add(f["got"], 1))
        if c.branch(c.fresh_bool("more")):
            return Atom("chunk", o.fields["got"])
        it.setfield(o, "ended", True)
        return None if c.choose(2) else b""

    def m_task_done(it, o):
        it.setfield(o, "done", add(o.fields["done"], 1))


class Store:
    def m_open(it, o, path, mode="rb", **k):
        c, f = it.ctx, o.fields
        c.oblige("the previous file is closed", eqv(f["closed"], f["opened"]))
        c.oblige("opened for writing", mode == "wb")
        c.oblige("files are numbered", eqv(path, c.ghost["%name"](it, f["opened"])), kind="loop")
        i = f["opened"]
        it.setfield(o, "opened", add(i, 1))
        it.setfield(o, "chunks", 0)
        return Atom("file32", to_z(i))


def write(it, f, chunk):
    c = it.ctx
    s, q = c.ghost["store"], c.ghost["incoming"]
    c.oblige("writes to the open file", And(eqv(f.expr, sub(s.fields["opened"], 1)), eqv(s.fields["closed"], sub(s.fields["opened"], 1))))
    c.oblige("writes the chunk just taken, once", And(isinstance(chunk, Atom) and chunk.kind == "chunk" and eqv(chunk.expr, q.fields["got"]), eqv(q.fields["written"], sub(q.fields["got"], 1))))
    M = c.ghost["%max"]
    c.oblige("files hold at most the configured number of chunks", Or(M == 0, cmp("<", s.fields["chunks"], M)))
    it.setfield(s, "chunks", add(s.fields["chunks"], 1))
    it.setfield(q, "written", add(q.fields["written"], 1))


def close(it, f):
    s = it.ctx.ghost["store"]
    it.ctx.oblige("closes the open file", And(eqv(f.expr, sub(s.fields["opened"], 1)), eqv(s.fields["closed"], sub(s.fields["opened"], 1))))
    it.setfield(s, "closed", add(s.fields["closed"], 1))


def winv(L):
    c, s, q = L.c, L.ghost["store"].fields, L.ghost["incoming"].fields
    M, k, n, o = L.ghost["%max"], to_z(L.chunk_count), to_z(s["chunks"]), to_z(s["opened"])
    f = L.out_file
    none = f is None if not isinstance(f, Opt) else f.isnone
    fid = None if f is None else (f.val if isinstance(f, Opt) else f).expr
    return [("chunks taken", And(eqv(q["got"], k), eqv(q["written"], k), eqv(q["done"], k), k >= 0, Not(q["ended"]))),
            ("files", And(eqv(L.file_index, o), o >= 0, eqv(none, o == 0), eqv(s["closed"], ite(o == 0, 0, o - 1)), fid is None or Implies(o > 0, fid == o - 1))),
            ("no file before the first chunk", (k == 0) == (o == 0)),
            ("chunks in the open file", Implies(And(o > 0, M > 0), And(n >= 1, n <= M, k == (o - 1) * M + n)))]


@proof("chunks to files", loops=[LoopSpec("chunks", winv, types={"L:out_file": ("opt", ("atom", "file32", z3.IntSort()))})])
def p_files(c, it):
    M, pi, ti = c.int("max_chunks", lo=0), c.int("process", lo=0), c.int("thread", lo=0)
    q = c.reg(Ext("incoming", got=0, done=0, written=0, ended=False))
    start = c.int("opened")
    c.assume(start == 0)
    s = c.reg(Ext("store", opened=start, closed=0, chunks=0))
    prefix = c.atom("str", "prefix")
    w = it.new(UP + "MultiThreadsAdlDataWriter", logger=it.call(it.get("deepgnn:get_logger"), []), process_idx=pi, data_queue=q, file_path_prefix=SStr([("atom", prefix)]), max_chunks_per_file=M, adl=s)

    def name(it, i):
        r = SStr([("atom", prefix)])
        for x in ("_", it.tostr(pi), "_", it.tostr(ti), "_", it.tostr(i), ".tsv"):
            r = it.binop("Add", r, x)
        return r
    c.ghost.update({"incoming": q, "store": s, "%max": M, "%name": name})
    it.call_method(w, "_create_worker", [ti])
    c.oblige("stops at the end of the queue", q.fields["ended"])
    c.oblige("every chunk was written", eqv(q.fields["written"], sub(q.fields["got"], 1)))
    c.oblige("every file is closed", eqv(s.fields["closed"], s.fields["opened"]))
    c.oblige("every item was acknowledged", eqv(q.fields["done"], q.fields["got"]))


# ---------------------------------------------------------------- one upload process
class Feed:
    """chunks sent to a process, then the end"""

    def m_get(it, o, *a, **k):
        c, f = it.ctx, o.fields
        c.oblige("the previous chunk was passed on", eqv(f["passed"], f["got"]))
        if c.branch(c.fresh_bool("more")):
            it.setfield(o, "got", add(f["got"], 1))
            return Atom("chunk", to_z(o.fields["got"]))
        it.setfield(o, "ended", True)
        return None

    def m_put(it, o, x, *a, **k):
        it.ctx.oblige("only the end is sent when stopping", x is None)
        it.setfield(o, "ends", add(o.fields["ends"], 1))


def e_init(it, a, k):
    c, a = it.ctx, a[1:]
    c.oblige("uploader settings", And(not a, *[k.get(n) is not None and eqv(k[n], v) for n, v in c.ghost["%settings"].items()]))


def e_enqueue(it, a, k):
    chunk = a[1]
    f = it.ctx.ghost["feed"]
    it.ctx.oblige("passes on the chunk just received", isinstance(chunk, Atom) and eqv(chunk.expr, f.fields["got"]))
    it.setfield(f, "passed", add(f.fields["passed"], 1))


def e_stop(it, a, k):
    f = it.ctx.ghost["feed"]
    it.ctx.oblige("stops after the last chunk", f.fields["ended"])
    it.setfield(f, "stopped", add(f.fields["stopped"], 1))


W = GE + "adl_uploader.MultiThreadsAdlDataWriter."


def p_inv(L):
    f = L.ghost["feed"].fields
    return [("passed on", And(eqv(f["passed"], f["got"]), cmp(">=", f["got"], 0), Not(f["ended"]), eqv(f["stopped"], 0)))]


def fsetup(world):
    setup(world)
    world.kinds["feed"] = Feed
    world.atom_methods["worker32"] = {"is_alive": lambda it, o: True, "join": t_join}


@proof("chunks of one process", loops=[LoopSpec("chunks", p_inv)], setup=fsetup,
       overrides={W + "__init__": e_init, W + "enqueue": e_enqueue, W + "stop": e_stop, W + "is_alive": lambda it, a, k: True})
def p_process(c, it):
    P, i = c.int("processes", lo=1), c.int("process", lo=0)
    c.assume(i < P)
    feed = c.reg(Ext("feed", got=0, passed=0, stopped=0, ends=0, ended=False))
    other = c.reg(Ext("feed", got=0, passed=0, stopped=0, ends=0, ended=False))
    queues = c.reg(Ext("queues32"))

    class Queues:
        def m___getitem__(it, o, j):
            it.ctx.oblige("reads the queue of this process", eqv(j, i))
            return feed
    it.world.kinds["queues32"] = Queues
    s = dict(process_idx=i, adl_config=c.atom("any", "config"), max_chunks_per_file=c.int("max"), threads_per_process=c.int("threads"), store_name=c.atom("str", "store"), file_path_prefix=c.atom("str", "prefix"))
    up = it.new(UP + "AdlDataWriter", logger=it.call(it.get("deepgnn:get_logger"), []), data_queues=queues, is_running=True, **{k: v for k, v in s.items() if k != "process_idx"})
    c.ghost.update({"feed": feed, "%settings": s})
    it.call_method(up, "_start_process", [i])
    c.oblige("every chunk was passed on", And(eqv(feed.fields["passed"], feed.fields["got"]), feed.fields["ended"]))
    c.oblige("the uploader is stopped once", eqv(feed.fields["stopped"], 1))


def t_join(it, o, *a):
    f = it.ctx.ghost["feed"]
    it.ctx.oblige("waits for a worker that was told to stop", cmp("==", f.fields["ends"], it.ctx.ghost["%threads"]))
    it.setfield(f, "stopped", add(f.fields["stopped"], 1))


def s_inv(L):
    f = L.ghost["feed"].fields
    return [("ends sent", And(eqv(f["ends"], L.k), eqv(f["stopped"], 0)))]


def j_inv(L):
    f = L.ghost["feed"].fields
    return [("waited for", And(eqv(f["ends"], L.ghost["%threads"]), eqv(f["stopped"], L.k)))]


def nothing_sent(L):
    return isinstance(L.ghost["feed"].fields["ends"], int)


@proof("stopping the threads of a process", loops=[LoopSpec("ends", s_inv, when=nothing_sent), LoopSpec("waits", j_inv, when=lambda L: not nothing_sent(L))], setup=fsetup)
def p_stop(c, it):
    n = c.int("threads", lo=1)
    feed = c.reg(Ext("feed", got=0, passed=0, stopped=0, ends=0, ended=False))
    w = it.new(UP + "MultiThreadsAdlDataWriter", logger=it.call(it.get("deepgnn:get_logger"), []), process_idx=0, data_queue=feed, started=True, threads=c.reg(VList(n=n, fn=lambda i: Atom("worker32", to_z(i)))))
    c.ghost.update({"feed": feed, "%threads": n})
    it.call_method(w, "stop", [])
    c.oblige("one end for every thread, and all are waited for", And(eqv(feed.fields["ends"], n), eqv(feed.fields["stopped"], n)))
    c.oblige("no longer alive", eqv(it.call_method(w, "is_alive", []), False))


# ---------------------------------------------------------------- construction, starting and closing
def spawn(kind):
    """threading.Thread / multiprocessing.Process: an atom numbered by creation"""
    def f(it, a, k):
        c = it.ctx
        r = c.ghost["made"]
        t = k.get("target")
        name = t.fn.name if isinstance(t, Bound) else None
        c.oblige("runs a method of this object", isinstance(t, Bound) and t.self_ is c.ghost["%me"](), kind="loop")
        if name == c.ghost["%target"]:
            i = r.fields["made"]
            c.oblige("number i of the uploader is given to worker i", And(len(k.get("args", ())) == 1, eqv(k["args"][0], i) if k.get("args") else False))
            it.setfield(r, "made", add(i, 1))
            return Atom("spawned", to_z(i))
        c.oblige("the only other thread watches", name == "_monitor_thread", kind="loop")
        it.setfield(r, "watch", add(r.fields["watch"], 1))
        return Atom("watcher", to_z(0))
    return f


def sp_start(it, o):
    r = it.ctx.ghost["made"]
    it.ctx.oblige("workers are started once each, in order", And(eqv(o.expr, r.fields["started"]), cmp("<", r.fields["started"], r.fields["made"])), kind="loop")
    it.setfield(r, "started", add(r.fields["started"], 1))


def nset(it, o, n, v):
    return None


def csetup(world):
    setup(world)
    for k in ("threading.Thread", "multiprocessing.Process"):
        world.models[k] = spawn(k)
    world.atom_methods["spawned"] = {"start": sp_start, "setattr": nset}
    world.atom_methods["watcher"] = {"start": lambda it, o: None, "setattr": nset}
    world.models["queue.Queue"] = lambda it, a, k: it.ctx.ghost["%newq"](it, a, k)
    world.models["azure.datalake.store.lib.auth"] = lambda it, a, k: Atom("token", it.ctx.ghost["%cred"](k))
    world.models["azure.datalake.store.core.AzureDLFileSystem"] = lambda it, a, k: it.ctx.reg(Ext("store", token=k.get("token"), name=k.get("store_name"), opened=0, closed=0, chunks=0))


def made_inv(L):
    r = L.ghost["made"].fields
    t = L.ghost["%me"]().fields["threads"]
    return [("one thread per number", And(eqv(r["made"], L.k), eqv(t.length(), L.k), eqv(r["started"], 0), eqv(r["watch"], 0), every(t, L.k, lambda q, x: eqv(x.expr, q))))]


def start_inv(L):
    r = L.ghost["made"].fields
    return [("started so far", And(eqv(r["started"], L.k), eqv(r["made"], L.ghost["%T"]), eqv(r["watch"], 1)))]


@proof("a new uploader starts all its threads on one queue", setup=csetup,
       loops=[LoopSpec("threads", made_inv, when=lambda L: isinstance(L.ghost["made"].fields["made"], int)), LoopSpec("start", start_inv, when=lambda L: not isinstance(L.ghost["made"].fields["made"], int))])
def p_ctor(c, it):
    T, pi, M = c.int("threads", lo=1), c.int("process", lo=0), c.int("max", lo=0)
    cred = {k: c.atom("str", k) for k in ("TENANT_ID", "CLIENT_SECRET", "CLIENT_ID")}
    box = {}
    q = c.reg(Ext("incoming", got=0, done=0, written=0, ended=False))

    def newq(it, a, k):
        c.oblige("one queue without limit", And("q" not in box, not a and not k), kind="loop")
        box["q"] = 1
        return q
    same = lambda k: c.oblige("signs in with the given credentials", And(set(k) == {"tenant_id", "client_secret", "client_id"}, *[eqv(k[n.lower()], v) for n, v in cred.items() if n.lower() in k])) or z3.IntVal(0)
    c.ghost.update({"made": c.reg(Ext("rec", made=0, started=0, watch=0)), "%target": "_create_worker", "%me": lambda: w, "%newq": newq, "%cred": same, "%T": T})
    w = it.new(UP + "MultiThreadsAdlDataWriter")
    store, prefix = c.atom("str", "store"), c.atom("str", "prefix")
    it.call_method(w, "__init__", [], dict(adl_config=c.reg(VDict(list(cred.items()))), process_idx=pi, store_name=store, file_path_prefix=prefix, max_chunks_per_file=M, threads_per_process=T))
    f, r = w.fields, c.ghost["made"].fields
    c.oblige("every thread is started", And(eqv(r["made"], T), eqv(r["started"], T)))
    c.oblige("settings kept", And(f["data_queue"] is q, eqv(f["process_idx"], pi), eqv(f["file_path_prefix"], prefix), eqv(f["max_chunks_per_file"], M)))
    c.oblige("files go to the given store", eqv(f["adl"].fields["name"], store))
    c.oblige("alive", eqv(it.call_method(w, "is_alive", []), True))
    c.oblige("all threads are kept", eqv(f["threads"].length(), T))


@proof("an uploader queues the chunk it is given")
def p_enqueue(c, it):
    sent = []

    class Q:
        def m_put(it, o, x, *a, **k):
            sent.append(x)
    it.world.kinds["q32"] = Q
    chunk = Atom("chunk", c.int("i"))
    w = it.new(UP + "MultiThreadsAdlDataWriter", data_queue=c.reg(Ext("q32")))
    it.call_method(w, "enqueue", [chunk])
    c.oblige("queued once, unchanged", len(sent) == 1 and sent[0] is chunk)


def mp_queue(it, a, k):
    c = it.ctx
    r = c.ghost["made"]
    i = r.fields["queues"]
    it.setfield(r, "queues", add(i, 1))
    return Atom("mpq", to_z(i))


def p_made_inv(L):
    r = L.ghost["made"].fields
    f = L.ghost["%me"]().fields
    P, Q = f["processes"], f["data_queues"]
    return [("one process and one queue per number", And(eqv(r["made"], L.k), eqv(r["queues"], L.k), eqv(P.length(), L.k), eqv(Q.length(), L.k), eqv(r["started"], 0), eqv(r["watch"], 0))),
            ("in order", And(every(P, L.k, lambda q, x: eqv(x.expr, q)), every(Q, L.k, lambda q, x: eqv(x.expr, q))))]


def p_setup(world):
    csetup(world)
    world.models["multiprocessing.Queue"] = mp_queue
    world.atom_methods["mpq"] = {"cancel_join_thread": lambda it, o: None}


@proof("a new writer starts one process per queue", setup=p_setup, overrides={GE + "_adl_reader.AdlCredentialParser.read_credentials": lambda it, a, k: it.ctx.ghost["%config"]},
       loops=[LoopSpec("processes", p_made_inv, when=lambda L: isinstance(L.ghost["made"].fields["made"], int)), LoopSpec("start", start_inv, when=lambda L: not isinstance(L.ghost["made"].fields["made"], int))])
def p_writer(c, it):
    P, M, T, qs, ml = c.int("processes", lo=1), c.int("max", lo=0), c.int("threads", lo=1), c.int("queue_size", lo=1), c.int("max_lines", lo=1)
    config = c.atom("any", "config")
    c.ghost.update({"made": c.reg(Ext("rec", made=0, started=0, watch=0, queues=0)), "%target": "_start_process", "%me": lambda: w, "%config": config, "%T": P})
    w = it.new(UP + "AdlDataWriter")
    store, prefix = c.atom("str", "store"), c.atom("str", "prefix")
    it.call_method(w, "__init__", [store, prefix], dict(max_chunks_per_file=M, process_num=P, threads_per_process=T, queue_size=qs, max_lines_per_chunk=ml))
    f, r = w.fields, c.ghost["made"].fields
    c.oblige("every process is started", And(eqv(r["made"], P), eqv(r["started"], P)))
    c.oblige("as many queues as processes", And(eqv(f["data_queues"].length(), P), eqv(f["processes"].length(), P)))
    j = c.int("j", lo=0)
    c.assume(j < P)
    c.oblige("process j reads queue j", And(eqv(lget(f["processes"], j).expr, j), eqv(lget(f["data_queues"], j).expr, j)))
    c.oblige("nothing sent yet, accepting lines", And(eqv(f["total_chunk"], 0), eqv(f["is_running"], True)))
    c.oblige("settings kept", And(eqv(f["max_lines_per_chunk"], ml), eqv(f["max_chunks_per_file"], M), eqv(f["threads_per_process"], T), eqv(f["store_name"], store), eqv(f["file_path_prefix"], prefix), eqv(f["adl_config"], config)))


# closing: each process that is still alive gets one end on its own queue, and all are waited for
def e_put(it, q, x, *a, **k):
    c = it.ctx
    told = c.ghost["told"]
    c.oblige("only the end is sent when closing", x is None)
    c.oblige("no line can follow the end", eqv(it.getattr(c.ghost["%up"], "is_running"), False))
    c.oblige("told once", Not(told.has(q.expr)))
    it.call_method(told, "add", [q.expr])


def e_join(it, p, *a):
    c = it.ctx
    c.oblige("waits for a process that was told to stop or has stopped", Or(Not(c.ghost["%alive"](p.expr)), c.ghost["told"].has(p.expr)))
    it.call_method(c.ghost["waited"], "add", [p.expr])


def tell_inv(L):
    r = L.ghost
    al = L.ghost["%alive"]
    return [("told so far", ForAll(1, lambda z: r["told"].has(z) == And(inrange(0, z, L.k), al(z)))), ("none waited for", ForAll(1, lambda z: Not(r["waited"].has(z))))]


def wait_inv(L):
    r = L.ghost
    al = L.ghost["%alive"]
    return [("all told", ForAll(1, lambda z: r["told"].has(z) == And(inrange(0, z, L.ghost["%P"]), al(z)))), ("waited so far", ForAll(1, lambda z: r["waited"].has(z) == inrange(0, z, L.k)))]


def k_setup(world):
    setup(world)
    world.atom_methods["kq"] = {"put": e_put, "put_nowait": e_put}
    world.atom_methods["kp"] = {"is_alive": lambda it, o: it.ctx.ghost["%alive"](o.expr), "join": e_join}


def untold(L):
    return L.ghost["told"].has is L.ghost["%start"]


@proof("closing ends every process once and waits for it", setup=k_setup, loops=[LoopSpec("ends", tell_inv, when=untold), LoopSpec("waits", wait_inv, when=lambda L: not untold(L))])
def p_close(c, it):
    P = c.int("processes", lo=1)
    running = c.choose(2) == 1
    al = c.func("alive", "int", "bool")
    start = lambda z: z3.BoolVal(False)
    told, waited = c.reg(VSet(has=start)), c.reg(VSet(has=lambda z: z3.BoolVal(False)))
    up = it.new(UP + "AdlDataWriter", logger=it.call(it.get("deepgnn:get_logger"), []), data_queues=c.reg(VList(n=P, fn=lambda i: Atom("kq", to_z(i)))), processes=c.reg(VList(n=P, fn=lambda i: Atom("kp", to_z(i)))), is_running=running)
    c.ghost.update({"told": told, "waited": waited, "%alive": lambda z: al(to_z(z)), "%start": start, "%up": up, "%P": P})
    it.call_method(up, "__enter__", [])
    it.call_method(up, "__exit__", [None, None, None])
    c.oblige("closed", eqv(it.getattr(up, "is_running"), False))
    j = c.int("j", lo=0)
    c.assume(j < P)
    c.oblige("process j was told and waited for (when it was open)", And(eqv(told.has(j), And(running, al(j))), eqv(waited.has(j), running)))
