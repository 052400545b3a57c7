"""C33: a dataset wires its sampler and query function without altering batches."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for every sampler signature (named parameters), every set of options and every sampler output."
ASSUMPTIONS = ["inspect.signature lists the constructor's parameters in order, each once", "parameters of samplers are not named like methods of the dataset or of every object",
               "prefetching hands the batches to the query function in order (C18)"]
DS = GE + "graph_dataset:DeepGNNDataset"
SETTINGS = ["num_workers", "worker_index", "batch_size", "epochs", "query_fn", "enable_prefetch", "collate_fn", "backend", "sampler_class"]


class Sampler:
    """the sampler class: records the arguments it is built with"""
    starstar = True

    def m___call__(it, o, *a, **k):
        it.ctx.ghost["%built"].append((a, k))
        return it.ctx.ghost["%sampler"]

    def a___init__(it, o):
        return it.ctx.ghost["%ctor"]


class Obj33:
    """the sampler: an iterator over opaque batches"""

    def m___iter__(it, o):
        it.ctx.ghost["%log"].append("iter")
        return it.ctx.reg(Ext("batches33"))

    def m___len__(it, o):
        return it.ctx.ghost["%len"]


class Batches:
    def m___next__(it, o):
        c = it.ctx
        c.ghost["%log"].append("next")
        if c.branch(c.ghost["%more"](len(c.ghost["%log"]))):
            return Tok("batch", len([x for x in c.ghost["%log"] if x == "next"]))
        raise PyExc(StopIteration, ())

    def m___iter__(it, o):
        return o


class Query:
    def m___call__(it, o, *a, **k):
        it.ctx.ghost["%asked"].append((a, k))
        return Tok("answer", len(it.ctx.ghost["%asked"]))


class Param:
    def a_annotation(it, o):
        g = it.ctx.ghost
        return it.get(GE + "_base:Graph") if it.ctx.branch(g["%isgraph"](as_text(o.fields["name"]))) else ExtRef("inspect.Parameter.empty")


class Backend:
    def a_graph(it, o):
        return it.ctx.ghost["%graph"]


class Sig:
    def a_parameters(it, o):
        return it.ctx.ghost["%params"]


def setup(world):
    world.kinds.update(sampler33=Sampler, object33=Obj33, batches33=Batches, query33=Query, param33=Param, backend33=Backend, sig33=Sig)

    def sig(it, a, k):
        it.ctx.oblige("looks at the constructor of the sampler class", a[0] is it.ctx.ghost["%ctor"])
        return it.ctx.reg(Ext("sig33"))
    world.models["inspect.signature"] = sig


def names(c, others):
    """parameter names: self, then distinct unknown names"""
    n = c.int("n", lo=1)
    P, at = c.func("name", "int", "val"), c.func("at", "val", "int")
    c.assume(P(0) == text("self"))
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), at(P(i)) == i)))
    texts = [text(x) for x in SETTINGS + others + ["graph", "self"]]
    c.assume(z3.Distinct(*texts))
    for x in others:
        c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), P(i) != text(x))))
    x = z3.Const("!kx", Val)
    un = z3.Function("text_unkey", z3.IntSort(), Val)
    c.assume(z3.ForAll([x], un(text_key(x)) == x, patterns=[text_key(x)]))
    return n, P, at


def inv(L):
    g = L.ghost["%g"]
    c, k, q = L.c, to_z(L.k), g["q"]
    has, get = map_view(L.sampler_args)
    key = Atom("str", q)
    there = And(g["at"](q) < k, g["param"], g["given"])
    r = [("arguments so far", eqv(has(key), there))]
    v = get(key)
    if v is not None:
        r.append(("their values", Implies(there, eqv(v, g["value"]))))
    else:
        r.append(("their values", Not(there)))
    return r


@proof("arguments of the sampler", loops=[LoopSpec("parameters", inv, types={"L:sampler_args/contents": ("smap", ("atom", "any", Val))})])
def p_args(c, it):
    cls = it.get(DS)
    others = sorted({n for k in cls.mro() if isinstance(k, VClass) for n in k.ns} | {"kwargs", "sampler"})
    n, P, at = names(c, others)
    isg = c.func("isgraph", "val", "bool")
    kwh, kwv = c.func("kw.has", "val", "bool"), c.func("kw.value", "val", "val")
    kw = c.reg(SMap(lambda x: kwh(as_text(x)), lambda x: Atom("any", kwv(as_text(x)))))
    graph = c.atom("any", "the graph")
    params = c.reg(SMap(lambda x: And(inrange(0, at(as_text(x)), n), P(at(as_text(x))) == as_text(x)), lambda x: c.reg(Ext("param33", name=x)), n))
    params.enum, params.distinct = Seq(n, lambda i: Atom("str", P(to_z(i)))), True
    vals = {s: c.atom("any", "setting " + s) for s in SETTINGS}
    sampler = c.reg(Ext("sampler33"))
    d = it.new(DS, **dict(vals, graph=graph, kwargs=kw, sampler_class=sampler))
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), P(i) != text("sampler_class"))))
    q = z3.Const("probe", Val)
    param = And(inrange(1, at(q), n), P(at(q)) == q)
    value, known = kwv(q), kwh(q)
    for s in SETTINGS[:-1] + ["graph"]:
        here = And(Not(kwh(q)), q == text(s))
        value = z3.If(to_z(here), (graph if s == "graph" else vals[s]).expr, value)
        known = Or(known, here)
    value, known = z3.If(isg(q), graph.expr, value), Or(isg(q), known)
    c.ghost.update({"%isgraph": isg, "%params": params, "%ctor": Tok("constructor"), "%built": [], "%sampler": c.reg(Ext("object33")),
                    "%g": {"q": q, "at": at, "param": param, "given": known, "value": Atom("any", value)}})
    it.call_method(d, "init_sampler", [])
    b = c.ghost["%built"]
    c.oblige("the sampler is built once, by name", len(b) == 1 and not b[0][0])
    c.oblige("the dataset keeps it", it.getattr(d, "sampler") is c.ghost["%sampler"])
    if len(b) != 1:
        return
    got = b[0][1]["**"] if set(b[0][1]) == {"**"} else c.reg(VDict(list(b[0][1].items())))
    has, get = map_view(got)
    c.oblige("exactly the parameters that have a value are given", eqv(has(Atom("str", q)), And(param, known)))
    v = get(Atom("str", q))
    c.oblige("the graph where one is expected, then explicit options, then settings", Implies(And(param, known), eqv(v, Atom("any", value)) if v is not None else False))


@proof("construction", overrides={GE + "graph_dataset.DeepGNNDataset.init_sampler": lambda it, a, k: it.ctx.ghost["%log"].append(("sampler", dict(a[0].fields)))})
def p_new(c, it):
    vals = {s: c.atom("any", "setting " + s) for s in SETTINGS if s != "backend"}
    with_backend = c.choose(2) == 1
    vals["backend"] = c.reg(Ext("backend33")) if with_backend else None
    opts = {"x1": c.atom("any", "x1"), "x2": c.atom("any", "x2")}
    c.ghost.update({"%log": [], "%graph": c.atom("any", "the graph")})
    d = it.call(it.get(DS), [], dict(vals, **opts))
    log = c.ghost["%log"]
    c.oblige("one sampler", len(log) == 1)
    for f in [log[0][1] if log else {}, d.fields]:
        for s, v in vals.items():
            c.oblige("settings are kept as given", s in f and f[s] is v)
        k = f.get("kwargs")
        c.oblige("options are kept as given", isinstance(k, VDict) and [x for x, _ in k.pairs] == ["x1", "x2"] and k.pairs[0][1] is opts["x1"] and k.pairs[1][1] is opts["x2"])
        c.oblige("graph of the backend", (f.get("graph") is c.ghost["%graph"]) if with_backend else True)


def dataset(c, it, **f):
    c.ghost.update({"%log": [], "%asked": [], "%graph": c.atom("any", "the graph"), "%len": c.int("len", lo=0)})
    q = c.reg(Ext("query33"))
    s = c.reg(Ext("object33"))
    return it.new(DS, **dict(dict(graph=c.ghost["%graph"], sampler=s, query_fn=q, enable_prefetch=False, collate_fn=None, kwargs=c.reg(VDict())), **f)), s, q


@proof("iteration")
def p_iter(c, it):
    d, s, q = dataset(c, it)
    more = [c.bool("more1"), c.bool("more2")]
    c.ghost["%more"] = lambda j: more[0] if j <= 2 else more[1]
    log, asked = c.ghost["%log"], c.ghost["%asked"]
    i = it.call_method(d, "__iter__", [])
    if not isinstance(i, Inst):
        raise Unsupported("iterator of another form")
    state = dict(i.fields)
    for step in (1, 2):
        try:
            r = it.call_method(i, "__next__", [])
        except PyExc as e:
            c.oblige("ends when the sampler ends, without another query", And(e.cls is StopIteration, Not(more[step - 1]), len(asked) == step - 1))
            return
        c.oblige("one batch per query", len(asked) == step and log == ["iter"] + ["next"] * step)
        a, k = asked[-1] if asked else ((), {})
        args = list(a) + list(k.values())
        c.oblige("query of this batch on the dataset's graph", len(args) == 2 and And(args[0] is c.ghost["%graph"], eqv(args[1], Tok("batch", step))))
        c.oblige("the answer is handed out unchanged", eqv(r, Tok("answer", step)))
        # a step leaves the iterator as it was, so every later step is like this one
        c.oblige("no other state than the sampler's position", set(i.fields) == set(state) and all(i.fields[x] is state[x] for x in state), kind="loop")


@proof("length")
def p_len(c, it):
    d, s, q = dataset(c, it)
    c.oblige("length of the sampler", eqv(it.call_method(d, "__len__", []), c.ghost["%len"]))


@proof("prefetching", overrides={GE + "prefetch.Generator.__init__": lambda it, a, k: it.ctx.ghost["%made"].append((a, k))})
def p_prefetch(c, it):
    given = c.choose(2) == 1
    kw = {"prefetch_queue_size": c.int("queue", lo=1), "prefetch_worker_size": c.int("workers", lo=1)} if given else {}
    col = c.atom("any", "collate")
    d, s, q = dataset(c, it, enable_prefetch=True, collate_fn=col, kwargs=c.reg(VDict(list(kw.items()))))
    c.ghost["%made"] = []
    g = it.call_method(d, "__iter__", [])
    m = c.ghost["%made"]
    c.oblige("one prefetching iterator", len(m) == 1 and isinstance(g, Inst) and g.cls is it.get(GE + "prefetch:Generator"))
    if len(m) == 1:
        a, k = m[0]
        k = dict(zip(("graph", "sampler", "model_query_fn", "prefetch_size", "max_parallel", "collate_fn"), a[1:]), **k)
        c.oblige("same graph, sampler, query and collation", k.get("graph") is c.ghost["%graph"] and k.get("sampler") is s and k.get("model_query_fn") is q and k.get("collate_fn") is col)
        if given:
            c.oblige("requested queue and workers", And(eqv(k.get("prefetch_size"), kw["prefetch_queue_size"]), eqv(k.get("max_parallel"), kw["prefetch_worker_size"])))
