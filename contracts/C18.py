"""C18: prefetching delivers every query result exactly once and surfaces failures."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded inductive proof for one producer: whatever order results and the end marker arrive in, each step of the consumer returns one not yet returned result, "
    "stops only when all have been returned, raises for a failure report and never waits when nothing can come; the producer queries every sample once, reports one "
    "item per sample and one end marker with the right count, or a failure. Thread interleavings are covered by letting the queue hand over any item that may be in it."
)
BOUNDED = ["thread scheduling inside the pools: executed with forced and random orders"]
ASSUMPTIONS = ["a queue hands over each item put into it exactly once", "a submitted task runs exactly once unless the pool was shut down, when submit raises RuntimeError",
               "one producer per iterator (the default)"]
P = GE + "prefetch:"
A = GE + "_adl_reader:"
I_ = z3.IntSort()
SAMPLE = z3.Function("sample", I_, Val)
NORES = z3.Function("no_result", I_, z3.BoolSort())      # a query may return None


def opt(k, tok):
    return Opt(NORES(to_z(k)), tok)


def is_opt(v, kind, k):
    """v is the result number k, which may be None"""
    if isinstance(v, Opt):
        return And(eqv(v.isnone, NORES(to_z(k))), isinstance(v.val, Tok) and v.val.kind == kind and eqv(v.val.fields[0], k))
    if v is None:
        return NORES(to_z(k))
    return And(Not(NORES(to_z(k))), eqv(v.fields[0], k)) if isinstance(v, Tok) and v.kind == kind else False


def failure(c):
    """any exception, with any message or none"""
    return PyExc((OSError, RuntimeError, KeyboardInterrupt)[c.choose(3)], () if c.choose(2) else (c.atom("str", "!msg"),))


def setup(world):
    world.kinds.update({"q18": Queue, "ex18": Executor, "sem18": Sem, "fut18": Fut, "evt18": Evt, "samples": Samples, "object": type("O", (), {})})
    for n in ("traceback.print_exc", "atexit.unregister"):
        world.models[n] = lambda it, a, k: None
    world.models["traceback.format_exc"] = lambda it, a, k: it.ctx.atom("str", "!trace")


# ---------------------------------------------------------------- consumer
class Queue:
    def m_get(it, o, *a, **k):
        c, g = it.ctx, it.ctx.ghost["%g"].fields
        r, N, fd = to_z(g["r"]), c.ghost["%N"], g["fd"]
        if c.ghost["%fail"] and c.choose(2) == 1:
            it.setfield(c.ghost["%g"], "failed", True)
            return it.call(it.get(A + "FetchDone"), [c.int("!c"), c.atom("str", "!trace")])
        if c.choose(2) == 0:
            c.oblige("never waits when nothing can come", Or(r < N, Not(fd)))
            c.assume(r < N)
            it.setfield(c.ghost["%g"], "r", r + 1)
            return opt(r, Tok("result", r))
        c.assume(Not(fd))
        it.setfield(c.ghost["%g"], "fd", True)
        return it.call(it.get(A + "FetchDone"), [N])

    def m_task_done(it, o):
        return None

    def m_put(it, o, v, *a, **k):
        it.ctx.ghost["%put"](it, v)


def inv(c, o, g):
    """index counts everything received; the count is known once the end marker came"""
    r, fd = to_z(g.fields["r"]), g.fields["fd"]
    N = c.ghost["%N"]
    return And(r >= 0, r <= N, eqv(o.fields["index"], r + z3.If(to_z(fd), 1, 0)), Implies(fd, eqv(o.fields["count"], N)), Implies(Not(fd), to_z(o.fields["count"]) == c.ghost["%count0"]))


def start(c, it):
    """a new iterator, with what it handed to its pool"""
    subs = c.ghost["%subs"] = []
    it.world.models["queue.Queue"] = lambda it, a, k: it.ctx.reg(Ext("q18"))
    it.world.models["threading.Event"] = lambda it, a, k: it.ctx.reg(Ext("evt18"))
    it.world.models["concurrent.futures.ThreadPoolExecutor"] = lambda it, a, k: it.ctx.reg(Ext("ex18", shut=False))
    c.ghost["%submit"] = lambda it, f, a, k: subs.append((f, a, k))
    graph, sampler, query, coll = (c.reg(Ext("object")) for _ in range(4))
    par = c.int("max_parallel", lo=1)
    o = it.call(it.get(P + "Generator"), [graph, sampler, query], {"prefetch_size": c.int("size", lo=1), "max_parallel": par, "collate_fn": coll})
    return o, subs, (graph, sampler, query, par)


@proof("one producer gets graph, sampler and query")
def p_init(c, it):
    o, subs, (graph, sampler, query, par) = start(c, it)
    c.oblige("one producer", len(subs) == 1)
    got = []
    it.overrides[GE + "prefetch._produce_func"] = lambda it, a, k: got.append((a, k))
    f, a, k = subs[0]
    it.call(f, list(a), k)
    c.oblige("one run", len(got) == 1)
    names = ["graph", "sampler", "model_query_fn", "outputs", "max_workers", "stop_event", "collate_fn"]
    d = dict(zip(names, got[0][0]))
    d.update(got[0][1])
    c.oblige("graph", d.get("graph") is graph)
    c.oblige("sampler", d.get("sampler") is sampler)
    c.oblige("query", d.get("model_query_fn") is query)
    c.oblige("queue of the iterator", d.get("outputs") is o.fields["outputs"])
    c.oblige("parallel queries", eqv(d.get("max_workers"), par))
    c.oblige("is its own iterator", it.call_method(o, "__iter__", []) is o)


def consumer(fail):
    @proof("each step of the consumer" + (" with failures" if fail else ""))
    def p(c, it):
        N = c.int("samples", lo=0)
        c.ghost.update({"%N": N, "%fail": fail})
        o, subs, _ = start(c, it)
        c.ghost["%count0"] = to_z(o.fields["count"])
        g = c.reg(Ext("object", r=z3.IntVal(0), fd=False, failed=False))
        c.ghost["%g"] = g
        c.oblige("invariant holds at the start", inv(c, o, g))
        # any later state
        for x in ("index", "count"):
            o.fields[x] = c.int(x)
        r0, fd0 = c.int("received", lo=0), c.bool("marker")
        g.fields.update(r=r0, fd=fd0)
        c.assume(inv(c, o, g))
        try:
            v = it.call_method(o, "__next__", [])
        except PyExc as e:
            if e.cls is StopIteration:
                c.oblige("stops only with every result returned", And(eqv(g.fields["r"], N), eqv(g.fields["r"], r0)))
                c.oblige("stops only after the end marker", g.fields["fd"])
                c.oblige("a failure is not an end", Not(g.fields["failed"]))
                c.oblige("stays at the end", inv(c, o, g))
                return
            if not fail:
                raise
            c.oblige("raises only for a failure", g.fields["failed"])
            return
        c.oblige("a failure report is raised", Not(g.fields["failed"]))
        c.oblige("returns exactly the result received", is_opt(v, "result", r0))
        c.oblige("one result per step", eqv(g.fields["r"], r0 + 1))
        c.oblige("invariant kept", inv(c, o, g))
    return p


consumer(False)
consumer(True)


# ---------------------------------------------------------------- producer
class Evt:
    def m_is_set(it, o):
        return it.ctx.ghost["%stopped"]

    def m_set(it, o):
        return None


class Fut:
    def m_add_done_callback(it, o, f):
        it.call(f, [o])


class Sem:
    def m_acquire(it, o, *a, **k):
        it.setfield(o, "taken", add(o.fields["taken"], 1))
        return True

    def m_release(it, o, *a):
        it.ctx.oblige("a place is given back only after it was taken", gt(o.fields["taken"], 0))
        it.setfield(o, "taken", sub(o.fields["taken"], 1))


class Executor:
    def m_submit(it, o, f, *a, **k):
        h = it.ctx.ghost.get("%submit")
        if h:
            h(it, f, a, k)
            return it.ctx.reg(Ext("fut18"))
        if it.ctx.branch(o.fields["shut"]):
            raise PyExc(RuntimeError, ("cannot schedule new futures after shutdown",))
        try:
            it.call(f, list(a), k)
        except PyExc:
            pass
        return it.ctx.reg(Ext("fut18"))

    def m_shutdown(it, o, *a, **k):
        it.setfield(o, "shut", True)

    def m___exit__(it, o, *a):
        it.setfield(o, "shut", True)


class Samples:
    pass


def on_put(it, v):
    c, g = it.ctx, it.ctx.ghost["g"]
    f = g.fields
    if isinstance(v, Inst):
        info = v.fields["exception_info"]
        if c.branch(eqv(info, None)):
            c.oblige("end marker only after all samples", And(eqv(v.fields["count"], c.ghost["%N"]), eqv(f["asked"], c.ghost["%N"])))
            c.oblige("one end marker", Not(f["marker"]))
            it.setfield(g, "marker", True)
        else:
            it.setfield(g, "reported", True)
        return
    c.oblige("only results are delivered, here that of the sample just asked for", And(is_opt(v, "answer", to_z(f["asked"]) - 1), lt(f["put"], f["asked"])))
    it.setfield(g, "put", add(f["put"], 1))


def samples_inv(L):
    g = L.ghost["g"].fields
    sem = L.ghost["sem"].fields if L.ghost.get("sem") else {"taken": 0}
    ok = Not(g["reported"])
    return [("asked for each sample once", Implies(ok, eqv(g["asked"], L.k))), ("one item per sample", Implies(ok, eqv(g["put"], L.k))), ("count", eqv(L.count, L.k)),
            ("no end marker yet", Not(g["marker"])), ("places given back", eqv(sem["taken"], 0)), ("a failed query closes the pool", Implies(g["reported"], L.ghost["ex"].fields["shut"]) if L.ghost.get("ex") else True),
            ("sampler has not failed yet", le(L.k, L.ghost["%sbad"])), ("query fails at its sample", And(cmp("==", to_z(g["reported"]), gt(L.k, L.ghost["%qbad"])), Implies(g["reported"], And(eqv(L.k, add(L.ghost["%qbad"], 1)), eqv(g["asked"], L.k))))),
            ("asked in range", And(to_z(g["asked"]) >= to_z(g["put"]), le(g["asked"], L.k)))]


def producer(sampler_fails, query_fails):
    @proof(f"producer ({'failing' if sampler_fails else 'good'} sampler, {'failing' if query_fails else 'good'} queries)", loops=[LoopSpec("samples", samples_inv, when=lambda L: L.has("count"))])
    def p(c, it):
        N = c.int("samples", lo=0)
        bad = c.int("bad", lo=0)
        if sampler_fails or query_fails:
            c.assume(bad < N)
        graph = c.reg(Ext("object"))
        g = c.reg(Ext("object", asked=z3.IntVal(0), put=z3.IntVal(0), marker=False, reported=False))
        out = c.reg(Ext("q18"))
        stopped = c.choose(2)
        c.ghost.update({"%sbad": bad if sampler_fails else N, "%qbad": bad if query_fails else N, "%N": N, "g": g, "%put": on_put, "%stopped": c.bool("stopped") if stopped else False})

        def sem(it, a, k):
            c.oblige("some queries may run", gt(a[0], 0))
            s = c.reg(Ext("sem18", taken=z3.IntVal(0)))
            c.ghost["sem"] = s
            return s

        def pool(it, a, k):
            e = c.reg(Ext("ex18", shut=False))
            c.ghost["ex"] = e
            return e
        it.world.models["threading.BoundedSemaphore"] = sem
        it.world.models["concurrent.futures.ThreadPoolExecutor"] = pool

        def query(it, a, k):
            c.oblige("queries go to the graph", a[0] is graph)
            k0 = to_z(g.fields["asked"])
            c.oblige("samples are asked for once, in order", eqv(a[1], Atom("sample", SAMPLE(k0))))
            it.setfield(g, "asked", k0 + 1)
            if query_fails and c.branch(k0 == bad):
                raise failure(c)
            return opt(k0, Tok("answer", k0))

        def at(k):
            if sampler_fails and c.branch(to_z(k) == bad):
                raise failure(c)
            return Atom("sample", SAMPLE(to_z(k)))
        try:
            it.call(it.get(P + "_produce_func"), [graph, Seq(N, at), Prim("query", query), out, c.int("max_workers", lo=1), c.reg(Ext("evt18")) if stopped else None])
        except PyExc as e:
            c.oblige("a failure is reported", g.fields["reported"])
            c.oblige("no end marker after a failing sampler", Not(g.fields["marker"]) if sampler_fails else True)
            return
        if stopped and c.branch(Not(g.fields["marker"])):
            return
        if sampler_fails:
            c.oblige("a failing sampler is reported", g.fields["reported"])
            return
        c.oblige("the end is announced", Or(g.fields["marker"], g.fields["reported"]))
        if query_fails:
            c.oblige("a failing query is reported", g.fields["reported"])
            return
        c.oblige("one result for every sample", And(eqv(g.fields["asked"], N), eqv(g.fields["put"], N)))
    return p


for _s, _q in ((False, False), (True, False), (False, True)):
    producer(_s, _q)


@proof("bounded pool gives back its place when the pool is closed")
def p_bounded(c, it):
    s = c.reg(Ext("sem18", taken=z3.IntVal(0)))
    it.world.models["threading.BoundedSemaphore"] = lambda it, a, k: s
    it.world.models["concurrent.futures.ThreadPoolExecutor"] = lambda it, a, k: c.reg(Ext("ex18", shut=c.bool("shut")))
    runs = []
    x = it.call(it.get(P + "BoundedExecutor"), [c.int("w", lo=1), c.int("bound")])
    arg = c.atom("any", "arg")
    try:
        it.call_method(x, "submit", [Prim("f", lambda it, a, k: runs.append(a[0])), arg])
        c.oblige("the task runs once with its argument", len(runs) == 1 and runs[0] is arg)
    except PyExc as e:
        c.oblige("a closed pool is reported", e.cls is RuntimeError and not runs)
    c.oblige("place given back", eqv(s.fields["taken"], 0))
