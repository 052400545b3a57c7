"""C21: type counts, sampler creation and sampler reuse."""
from vc.api import *
from contracts import _capi as K
from contracts._capi import setup

LEVEL = "proof"
LEVEL_NOTE = ("Unbounded proof for every list of types and every table of counts; reuse is proved for any two requests, the first being the one that created the sampler found.")
ASSUMPTIONS = K.ASSUMED + ["set() enumerates the distinct elements; sorted returns the ascending permutation",
                           "texts of two integer lists are equal only when the lists are; arrays of more than 1000 elements may share one text",
                           "a dictionary entry is found only under an equal key"]
LC = GE + "snark.local:Client"
SS = GE + "_base:SamplingStrategy"


def meta(c, it):
    """graph metadata with arbitrary counts"""
    nt, et = c.int("ntypes", lo=0), c.int("etypes", lo=0)
    nc, ec = c.ilist("ncount", nt, lo=0), c.ilist("ecount", et, lo=0)
    m = it.new(GE + "snark.meta:Meta", node_type_count=nt, edge_type_count=et, node_count_per_type=nc, edge_count_per_type=ec)
    return m, {"node": (nt, nc.fn), "edge": (et, ec.fn)}


def graph(c, it):
    g = K.graph(c, it)
    g.fields["meta"], cnt = meta(c, it)
    return g, cnt


def S(c, cnt, s):
    n, f = cnt
    return sumfn(c, lambda i: ite(inrange(0, s.fn(i), n), f(s.fn(i)), 0))


def inv(L):
    P = L.ghost["%sum"]
    return [("sum of the distinct types seen", eqv(L.result, P(L.k)))] if L.has("result") else []


def counts(kind):
    for how in ("list", "client"):
        @proof(f"{kind} count of a set of types" + (" through the client" if how == "client" else ""), loops=[LoopSpec(f"MemoryGraph.get_{kind}_type_count", inv)])
        def p(c, it, how=how):
            g, cnt = graph(c, it)
            if how == "client":
                g = it.new(LC, graph=g)
            if how == "client" and c.choose(2) == 0:
                t = c.int("type")
                sq, arg = Seq(1, lambda i: t), t
            else:
                m = c.int("m", lo=1)
                arg = c.iarr("types", m) if how == "client" else c.ilist("types", m)
                sq = it.seq(arg)
            s = it.set_enum(sq)
            P = S(c, cnt[kind], s)
            c.ghost["%sum"] = P
            r = it.call_method(g, f"{kind}_count" if how == "client" else f"get_{kind}_type_count", [arg])
            c.oblige("sum over the distinct existing types", eqv(r, P(s.n)))


def instance(c, i):
    """instances, for input position i, of the axioms of the sets, sorts and filters so far (adds no assumption)"""
    ts = [i]
    for kind in ("set", "sort", "filter"):
        new = []
        for k, f in c.ghost["%enums"].d["l"] if "%enums" in c.ghost else []:
            if k == kind:
                for t in ts:
                    x, ax = f(t)
                    c.assume(ax)
                    new.append(x)
        ts = new + ts


def exact(c, et, ne, cnt, sq, what):
    """et is exactly the requested types that exist and are non-empty"""
    n, f = cnt
    ok = lambda t: And(inrange(0, t, n), f(t) > 0)
    j, k, i = c.int("j", lo=0), c.int("k", lo=0), c.int("i", lo=0)
    instance(c, i)
    c.oblige(f"{what}: length", eqv(et.shape[0], ne))
    v = to_z(et.fn(j))
    c.oblige(f"{what}: only existing non-empty types", Implies(j < to_z(ne), ok(v)))
    if sq is None:
        c.oblige(f"{what}: every existing non-empty type", Implies(ok(i), Exists(1, lambda x: And(inrange(0, x, ne), eqv(et.fn(x), i)))))
    else:
        c.oblige(f"{what}: only requested types", Implies(j < to_z(ne), Exists(1, lambda x: And(inrange(0, x, sq.n), eqv(sq.fn(x), v)))))
        c.oblige(f"{what}: every requested type", Implies(And(inrange(0, i, sq.n), ok(to_z(sq.fn(i)))), Exists(1, lambda x: And(inrange(0, x, ne), eqv(et.fn(x), sq.fn(i))))))
    c.oblige(f"{what}: each once", Implies(And(j < k, k < to_z(ne)), Not(eqv(v, et.fn(k)))))


def none_left(c, cnt, sq):
    n, f = cnt
    i = c.int("i", lo=0)
    instance(c, i)
    if sq is None:
        c.oblige("fails only when no type remains", Not(And(inrange(0, i, n), f(i) > 0)))
    else:
        c.oblige("fails only when no type remains", Implies(i < to_z(sq.n), Not(And(inrange(0, sq.fn(i), n), f(to_z(sq.fn(i))) > 0))))


KINDS = [("weighted", "CreateWeighted%sSampler"), ("uniform", "CreateUniform%sSampler"), ("withoutreplacement", "CreateUniform%sSamplerWithoutReplacement")]


def all_types(L):
    return [("types so far", And(eqv(L.types.length(), L.k), ForAll(1, lambda i: Implies(inrange(0, i, L.k), eqv(lget(L.types, i), i)))))] if L.has("types") and isinstance(L.types, VList) else []


def sampler(kind):
    C = kind.capitalize()

    @proof(f"{kind} sampler", loops=[LoopSpec(f"{C}Sampler.__init__", all_types, types={"L:types/contents": "int"})])
    def p(c, it):
        g, cnt = graph(c, it)
        w = c.choose(3)
        if w == 0:
            arg, sq = -1, None
        elif w == 1:
            arg = c.int("type")
            c.assume(arg != -1)
            sq = Seq(1, lambda i: arg)
        else:
            arg = c.ilist("types", c.int("m", lo=0))
            sq = it.seq(arg)
        name, native = KINDS[c.choose(3)]
        native = native % C
        try:
            s = it.call(it.get(GE + f"snark.client:{C}Sampler"), [g, arg] + ([name] if name != "weighted" or c.choose(2) == 0 else []))
        except PyExc:
            none_left(c, cnt[kind], sq)
            c.oblige("no sampler created", len(c.ghost["%calls"].l) == 0)
            return
        call = K.single_call(c, native)
        a = call.a
        exact(c, a["etypes"], a["ne"], cnt[kind], sq, "types")
        c.oblige("at least one type", to_z(a["ne"]) > 0)
        size = c.int("size", lo=1)
        seed = None if c.choose(2) == 0 else c.int("seed")
        r = it.force(it.call_method(s, "sample", [size, seed]))
        draw = c.ghost["%calls"].l[-1]
        sampled(c, draw, kind, r, size, seed, a["sampler"])


def sampled(c, draw, kind, r, size, seed, handle, stacked=False):
    c.oblige("draw from the engine", draw.name == f"Sample{kind.capitalize()}s")
    c.oblige("draw from this sampler", draw.a["sampler"] is handle)
    c.oblige("number of samples", eqv(draw.a["count"], size))
    s = draw.a["seed"]
    c.oblige("seed", eqv(s, seed) if seed is not None else is_intlike(s) and inrange(0, to_z(s), 2 ** 64))
    roles = [("out", "int64")] + ([("outdst", "int64")] if kind == "edge" else []) + [("outtypes", "int32")]
    i = c.int("x", lo=0)
    if stacked:
        c.oblige("shape", len(r.shape) == 2 and And(eqv(r.shape[0], size), eqv(r.shape[1], 3)))
        for k, (role, dt) in enumerate(roles):
            c.oblige(f"column {k}", Implies(i < size, eqv(snap(r)(i, k), draw.a[role + ".wrote"](i))))
        return
    for x, (role, dt) in zip(r, roles):
        c.oblige(f"{role}: what the engine drew", len(x.shape) == 1 and And(x.dtype == dt, eqv(x.shape[0], size), eqv(snap(x)(i), draw.a[role + ".wrote"](i))))


def reuse(kind):
    @proof(f"{kind} samplers are reused only for the same types and strategy")
    def p(c, it):
        g, cnt = graph(c, it)
        cl = it.new(LC, graph=g, node_samplers=c.reg(VDict()), edge_samplers=c.reg(VDict()), logger=it.call(it.get("deepgnn:get_logger"), []))
        natives = []
        calls = c.ghost["%calls"].l
        for x in range(2):
            if c.choose(2) == 0:
                arg = c.int(f"type{x}")
                c.assume(arg != -1)
                sq = Seq(1, lambda i, arg=arg: arg)
            else:
                arg = c.iarr(f"types{x}", c.int(f"m{x}", lo=0))
                sq = it.seq(arg)
            w = c.choose(3)
            strat = it.getattr(it.get(SS), ("Weighted", "Random", "RandomWithoutReplacement")[w])
            size = c.int(f"size{x}", lo=1)
            try:
                r = it.force(it.call_method(cl, f"sample_{kind}s", [size, arg, strat]))
            except PyExc:
                none_left(c, cnt[kind], sq)
                return
            draw = calls[-1]
            made = [z for z in calls if z.name.startswith("Create") and z.a["sampler"] is draw.a["sampler"]]
            c.oblige("drawn from a created sampler", len(made) == 1)
            c.oblige(f"request {x}: sampler has the requested strategy", made[0].name == KINDS[w][1] % kind.capitalize())
            exact(c, made[0].a["etypes"], made[0].a["ne"], cnt[kind], sq, f"request {x}")
            if kind == "edge":
                sampled(c, draw, kind, r, size, None, draw.a["sampler"], stacked=True)
            elif isinstance(arg, NArr):
                sampled(c, draw, kind, r, size, None, draw.a["sampler"])
            else:
                sampled(c, draw, kind, [r], size, None, draw.a["sampler"])


for _k in ("node", "edge"):
    counts(_k)
for _k in ("node", "edge"):
    sampler(_k)
for _k in ("node", "edge"):
    reuse(_k)
