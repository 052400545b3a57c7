"""C35: a bundled citation graph holds exactly the papers and citations listed."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = "Unbounded proof for every list of papers, labels and citations, every number of features and every number of partitions, of both full citation graphs: reading, the text of a node, the graph file and the building sequence."
ASSUMPTIONS = ["papers are listed once with as many features as announced; citations of the first dataset name listed papers",
               "label numbering: base and step of the counting lemma are discharged in each run, the induction itself is not mechanised",
               "zip extraction, downloads and the package resource lookup behave as documented; the converter is C01, C04, C06, C07, C11 and the node lists are C31"]
DU = GE + "data.data_util:"
DATA = [(GE + "data.cora:CoraFull", True), (GE + "data.citeseer:CiteseerFull", False)]
A = lambda e: Atom("str", e)


class Lines:
    """an input file: an unknown number of lines"""

    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        return None

    def m_close(it, o):
        return None

    def m_readlines(it, o):
        s = Lines.seq(it, o)
        return it.ctx.reg(VList(n=s.n, fn=s.fn))

    def seq(it, o):
        return Seq(o.fields["n"], lambda i: it.ctx.reg(Ext("line35", file=o, i=i)))


class Line:
    def strip(it, o, *a):
        return o
    m_strip = m_rstrip = strip

    def m_split(it, o, *a):
        if a and a[0] is not None:
            raise Unsupported("columns split at something else")
        return it.ctx.reg(o.fields["file"].fields["cols"](o.fields["i"]))


class Adj:
    """neighbors by node, empty to begin with"""

    def m___getitem__(it, o, k):
        return it.ctx.reg(Ext("adjset35", of=o, key=k))


class AdjSet:
    def m_add(it, o, v):
        a, k = o.fields["of"], o.fields["key"]
        f = a.fields["rel"].fields["f"]
        it.setfield(a, "rel", it.ctx.reg(Ext("rel35", f=lambda x, y: Or(f(x, y), And(eqv(x, k), eqv(y, v))))))


def fresh_rel(it, n):
    f = it.ctx.func("!rel", "int", "int", "bool")
    return it.ctx.reg(Ext("rel35", f=lambda x, y: f(to_z(x), to_z(y))))


def setup(world):
    world.kinds.update({"lines35": Lines, "line35": Line, "adj35": Adj, "adjset35": AdjSet, "file35": File, "text35": Text})
    world.models["os.path.join"] = lambda it, a, k: Tok("path", *a)

    def dd(it, a, k):
        if len(a) != 1 or not (a[0] is set or isinstance(a[0], Prim) and a[0].name == "set" or getattr(a[0], "path", "").endswith("set")):
            raise Unsupported(f"default of {a!r}")
        return it.ctx.reg(Ext("adj35", rel=it.ctx.reg(Ext("rel35", f=lambda x, y: False))))
    world.models["collections.defaultdict"] = dd


# ---------------------------------------------------------------- reading
def inv_papers(L):
    g, k = L.ghost["%g"], to_z(L.k)
    c, D, first, lab, paper, at = L.c, g["D"], g["first"], g["lab"], g["paper"], g["at"]
    if not L.has("paper_nodeid", "labelid", "nodes", "nid"):
        return [("names", False)]
    c.assume(D(k + 1) == D(k) + ite(first(lab(k)) == k, 1, 0))
    c.assume(And(D(0) == 0, D(k) >= 0))
    g["listed"](k)
    ph, pg = view(L.paper_nodeid)
    lh, lg = view(L.labelid)
    nh, ng = view(L.nodes)
    known = lambda x: And(inrange(0, at(x), k), paper(at(x)) == x)
    seen = lambda x: And(inrange(0, first(x), k), lab(first(x)) == x)
    P, B, X, J = g["P"], g["B"], g["X"], g["J"]
    num = lambda x: Implies(known(x), eqv(pg(A(x)), at(x) + 1)) if pg(A(x)) is not None else k == 0
    lnum = lambda x: Implies(seen(x), eqv(lg(A(x)), D(first(x)))) if lg(A(x)) is not None else k == 0
    r = [("ids from 1", eqv(L.nid, k + 1)),
         ("numbered papers", eqz(ph(A(P)), known(P))), ("numbers of papers", num(P)),
         ("numbered labels", eqz(lh(A(B)), seen(B))), ("numbers of labels", lnum(B)),
         ("count of labels", eqv(size(L.labelid), D(k))),
         ("nodes so far", eqz(nh(X), And(1 <= X, X <= k)))]
    if L.phase not in ("init", "step"):
        # the same for the paper and the label of the next line (P and B are arbitrary)
        r += [("next paper", And(eqz(ph(A(paper(k))), known(paper(k))), num(paper(k)))), ("next label", And(eqz(lh(A(lab(k))), seen(lab(k))), lnum(lab(k))))]
        g["instance"] = lambda x: And(eqz(ph(A(x)), known(x)), num(x))
    e = ng(X)
    if e is None:
        return r + [("no node yet", k == 0)]
    if not (isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], VList)):
        raise Unsupported("nodes kept in another form")
    h = And(1 <= X, X <= k)
    return r + [("label of a node", Implies(h, eqv(e[1], D(first(lab(X - 1)))))), ("number of features of a node", Implies(h, eqv(e[0].length(), g["F"]))),
                ("features of a node", Implies(And(h, inrange(0, J, g["F"])), eqv(lget(e[0], J), parse_real(g["tok"](X - 1, J + 1)))))]


def view(d):
    if isinstance(d, SMap):
        return d.has, d.get
    if isinstance(d, VDict) and not d.pairs:
        return (lambda x: False), (lambda x: None)
    raise Unsupported("table kept in another form")


def size(d):
    return d.n if isinstance(d, SMap) else len(d.pairs)


def eqz(a, b):
    return to_z(a) == to_z(b)


def inv_cites(L):
    g, k = L.ghost["%g"], to_z(L.k)
    if not L.has("train_adj_lists", "test_adj_lists"):
        return [("names", False)]
    c = L.c
    X, Y, link, train = g["X"], g["Y"], g["link"], g["train"]
    if L.phase not in ("init", "step"):
        for x in (g["c1"](k), g["c2"](k)):
            c.assume(g["instance"](x))          # the table of papers at the papers of this line
            if g["strict"]:
                c.assume(Implies(inrange(0, k, g["m"]), g["known"](x)))
    for b, S in ((True, g["S"][0]), (False, g["S"][1])):
        c.assume(Not(S(0)))
        c.assume(S(k + 1) == Or(S(k), And(link(k), g["both"](k) if b else Not(g["both"](k)))))
    return [(n, eqz(a.fields["rel"].fields["f"](X, Y), S(k))) for n, a, S in (("training links", L.train_adj_lists, g["S"][0]), ("other links", L.test_adj_lists, g["S"][1]))]


NT = {"L:paper_nodeid/contents": ("smap", "int"), "L:labelid/contents": ("smap", "int"), "L:nodes/contents": ("smap", ("tuple", ("list", "real"), "int"))}
CT = {"L:train_adj_lists/F:rel": ("make", fresh_rel), "L:test_adj_lists/F:rel": ("make", fresh_rel)}
which = lambda n: lambda L: L.seq is not None and eqv(L.seq.n, L.ghost["%g"][n]) is True


def select(it, a, k):
    return it.ctx.ghost["%select"](it, a, k)


@proof("papers and citations", overrides={GE + "data.data_util.select_training_test_nodes": select},
       loops=[LoopSpec("papers", inv_papers, when=which("n"), types=NT), LoopSpec("citations", inv_cites, when=which("m"), types=CT)])
def p_load(c, it):
    cls, strict = DATA[c.choose(2)]
    n, m, F = c.int("papers", lo=0), c.int("citations", lo=0), c.int("features", lo=1)
    paper, lab, tok = c.func("paper", "int", "val"), c.func("label", "int", "val"), c.func("token", "int", "int", "val")
    at, first, D = c.func("line_of", "val", "int"), c.func("first_line", "val", "int"), c.func("labels", "int", "int")
    c1, c2, train = c.func("citing", "int", "val"), c.func("cited", "int", "val"), c.func("train", "int", "bool")
    known = lambda x: And(inrange(0, at(x), n), paper(at(x)) == x)

    def listed(i):
        """papers are listed once; first line of a label"""
        c.assume(Implies(inrange(0, i, n), And(at(paper(i)) == i, inrange(0, first(lab(i)), i + 1), lab(first(lab(i))) == lab(i))))
    X, Y, J = c.int("X"), c.int("Y"), c.int("J")
    p1, p2 = (lambda j: at(c1(j)) + 1), (lambda j: at(c2(j)) + 1)
    link = lambda j: And(known(c1(j)), known(c2(j)), Or(And(X == p1(j), Y == p2(j)), And(X == p2(j), Y == p1(j))))
    both = lambda j: And(train(p1(j)), train(p2(j)))
    S = [c.func("training_links", "int", "bool"), c.func("other_links", "int", "bool")]
    g = c.ghost["%g"] = {"n": n, "m": m, "F": F, "D": D, "first": first, "lab": lab, "paper": paper, "at": at, "tok": tok, "X": X, "Y": Y, "J": J, "P": z3.Const("P", Val), "B": z3.Const("B", Val), "listed": listed, "c1": c1, "c2": c2, "known": known, "strict": strict,
                         "link": link, "both": both, "train": train, "S": S}
    content = c.reg(Ext("lines35", n=n, cols=lambda i: VList(n=F + 2, fn=lambda j: A(simp(z3.If(to_z(j) == 0, paper(to_z(i)), z3.If(to_z(j) == F + 1, lab(to_z(i)), tok(to_z(i), to_z(j)))))))))
    cites = c.reg(Ext("lines35", n=m, cols=lambda i: VList(items=[A(c1(to_z(i))), A(c2(to_z(i)))])))

    def op(it, a, k):
        p = a[0]
        name = p.fields[-1] if isinstance(p, Tok) and p.kind == "path" else None
        if not isinstance(name, str) or len(a) > 1 and a[1] not in ("r", "rt"):
            raise Unsupported("other file")
        return content if name.endswith(".content") else cites if name.endswith(".cites") else _no()
    it.world.models["builtins.open"] = op
    ratio, rand = c.atom("any", "ratio"), c.atom("any", "random")
    asked = []

    def sel(it, a, k):
        d = dict(zip(("nodeids", "train_node_ratio", "random_selection"), a), **k)
        asked.append(d)
        ids = it.force(d["nodeids"])
        j = c.fresh_int("j")
        c.oblige("every node is split", And(eqv(ids.length(), n), Implies(inrange(0, j, n), eqv(lget(ids, j), j + 1))))
        c.oblige("as requested", And(eqv(d["train_node_ratio"], ratio), eqv(d["random_selection"], rand)))
        return c.reg(SMap(lambda x: inrange(1, x, n + 1), lambda x: ite(train(to_z(x)), "train", "test"), n))
    c.ghost["%select"] = sel
    s = it.new(cls, FEATURE_DIM=F)
    out = it.force(it.call_method(s, "_load_raw_graph", [c.atom("str", "dir"), ratio, rand]))
    nodes, types, tr, te = out
    c.oblige("nodes are split once", len(asked) == 1)
    c.oblige("one node per paper, numbered from 1", eqz(view(nodes)[0](X), inrange(1, X, n + 1)))
    h = inrange(1, X, n + 1)
    e = view(nodes)[1](X)
    if e is None:
        raise Unsupported("papers")
    c.oblige("features of the paper", Implies(h, And(eqv(e[0].length(), F), Implies(inrange(0, J, F), eqv(lget(e[0], J), parse_real(tok(X - 1, J + 1)))))))
    # two papers have the same label number exactly when they have the same label
    listed(X - 1), listed(Y - 1)
    a, b = c.fresh_int("a"), c.fresh_int("b")
    step = lambda k: D(k + 1) == D(k) + ite(first(lab(k)) == k, 1, 0)
    c.assume(And(step(a), step(b), inrange(0, a, n), inrange(0, b, n)))
    c.oblige("lemma: base", Implies(first(lab(a)) == a, D(a + 1) > D(a)))
    c.oblige("lemma: step", Implies(And(a < b, D(b) > D(a)), D(b + 1) > D(a)))
    f1, f2 = first(lab(X - 1)), first(lab(Y - 1))
    listed(f1), listed(f2)
    grow = lambda x, y: Implies(And(0 <= x, x < y, y <= n, first(lab(x)) == x), D(y) > D(x))
    c.assume(And(grow(f1, f2), grow(f2, f1)))
    e2 = view(nodes)[1](Y)
    h2 = And(h, inrange(1, Y, n + 1), eqv(e2[1], D(f2)))     # the invariant at the other paper
    c.oblige("one label number per label", Implies(h2, (to_z(e[1]) == to_z(e2[1])) == (lab(X - 1) == lab(Y - 1))))
    for nm, r, q in (("training", tr, S[0]), ("other", te, S[1])):
        c.oblige(f"linked by {nm} links exactly when listed", eqz(r.fields["rel"].fields["f"](X, Y), q(m)))
    c.oblige("labels of nodes as split", And(Implies(h, eqv(types.get(X), ite(train(X), "train", "test")))))


def _no():
    raise Unsupported("other file")


# ---------------------------------------------------------------- text of a node
def line(it, g, b, i):
    """i-th line of the training (b = 0) or other (b = 1) links"""
    return mkstr([it.tostr(g["nid"]), f",{b},", it.tostr(lget(g["sorted"][b], i)), ",1.0\n"])


class Text:
    """the line of the node followed by the first `a` lines of training links and the first `b` lines of other links"""

    def add(it, o, s):
        c, g = it.ctx, it.ctx.ghost["%t"]
        a, b = o.fields["a"], o.fields["b"]
        if not isinstance(s, SStr):
            raise Unsupported("text appended in another form")
        kind = [p for p in s.parts if isinstance(p, str)][:1]
        if kind == [",0,"]:
            c.oblige("next line is the next link", And(eqv(b, 0), lt(a, g["n"][0]), eqv(s, line(it, g, 0, a))), kind="loop")
            return c.reg(Ext("text35", a=add(a, 1), b=b))
        c.oblige("next line is the next link", And(eqv(a, g["n"][0]), lt(b, g["n"][1]), eqv(s, line(it, g, 1, b))), kind="loop")
        return c.reg(Ext("text35", a=a, b=add(b, 1)))
    op_Add = add


def counts(it, v):
    """lines of links after the line of the node"""
    if isinstance(v, Ext) and v.kind == "text35":
        return v.fields["a"], v.fields["b"]
    if not isinstance(v, SStr):
        raise Unsupported("text in another form")
    g = it.ctx.ghost["%t"]
    ps = list(v.parts)
    i = [j for j, p in enumerate(ps) if isinstance(p, tuple) and p[0] == "joined"]
    if len(i) != 1 or ps[i[0]][1] != ",":
        raise Unsupported("features in another form")
    l = ps[i[0]][2]
    c = it.ctx
    c.oblige("line of the node", And(eqv(SStr(ps[:i[0]]), mkstr([it.tostr(g["nid"]), ",-1,", it.tostr(g["ntype"]), ",1.0,float32,", it.tostr(g["F"]), ","])),
                                     eqv(SStr(ps[i[0] + 1:]), mkstr([",float32,1,", it.tostr(g["label"]), "\n"])), eqv(l.n, g["F"]), eqv(l.fn(g["J"]), it.tostr(g["feat"].fn(g["J"])))))
    return 0, 0


def inv_text(L):
    if not L.has("output"):
        return [("names", False)]
    g, k = L.ghost["%t"], to_z(L.k)
    a, b = counts(L.interp, L.output)
    if eqv(L.seq.n, g["n"][0]) is True:
        return [("training links so far", And(eqv(a, k), eqv(b, 0)))]
    return [("other links so far", And(eqv(a, g["n"][0]), eqv(b, k)))]


TT = {"L:output": ("make", lambda it, n: it.ctx.reg(Ext("text35", a=it.ctx.fresh_int("a"), b=it.ctx.fresh_int("b"))))}


@proof("text of a node", loops=[LoopSpec("links", inv_text, types=TT)])
def p_text(c, it):
    n = (c.int("train_links", lo=0), c.int("other_links", lo=0))
    F, nid, label, J = c.int("features", lo=1), c.int("id", lo=1), c.int("label", lo=0), c.int("J", lo=0)
    c.assume(J < F)
    x, nbs = c.func("feature", "int", "real"), [c.func("train_neighbor", "int", "int"), c.func("other_neighbor", "int", "int")]
    feat = c.reg(VList(n=F, fn=lambda i: x(to_z(i))))
    sets = []
    for m, f in zip(n, nbs):
        at = c.func("position", "int", "int")
        has = lambda v, f=f, m=m, at=at: And(inrange(0, at(to_z(v)), m), f(at(to_z(v))) == to_z(v))
        s = c.reg(VSet([]))
        s.items, s.n, s.has, s.enum = None, m, has, Seq(m, lambda i, f=f: f(to_z(i)))
        sets.append(s)
    kind = c.choose(2)
    g = c.ghost["%t"] = {"n": n, "F": F, "nid": nid, "label": label, "J": J, "feat": feat, "ntype": kind}
    g["sorted"] = [sorted_view(it, c.reg(VList(n=m, fn=lambda i, f=f: f(to_z(i))))) for m, f in zip(n, nbs)]
    out = it.force(it.call(it.get(DU + "get_edge_list_node"), [nid, ("train", "test")[kind], feat, label] + sets))
    a, b = counts(it, out)
    c.oblige("every link of either kind once, in order of the neighbor", And(eqv(a, n[0]), eqv(b, n[1])))


# ---------------------------------------------------------------- graph file
class File:
    """text of one node per write"""

    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        it.setfield(o, "closed", True)

    def m_close(it, o):
        it.setfield(o, "closed", True)

    def m_write(it, o, s):
        if not (isinstance(s, Tok) and s.kind == "node text"):
            raise Unsupported("written in another form")
        it.ctx.oblige("written before the file is closed", Not(o.fields["closed"]))
        it.setfield(o, "n", add(o.fields["n"], 1))
        it.setfield(o, "probe", add(o.fields["probe"], ite(eqv(s.fields[0], it.ctx.ghost["%P"]), 1, 0)))


def inv_file(L):
    g, k = L.ghost["%g"], to_z(L.k)
    f = g["file"]
    return [("one text per node", eqv(f.fields["n"], k)), ("text of the node", eqv(f.fields["probe"], ite(g["p"] < k, 1, 0))), ("open", Not(f.fields["closed"]))]


@proof("graph file", loops=[LoopSpec("nodes", inv_file)], overrides={GE + "data.data_util.get_edge_list_node": lambda it, a, k: it.ctx.ghost["%text"](it, a, k)})
def p_file(c, it):
    n = c.int("n", lo=0)
    ids, at, train, label, feat = c.func("id", "int", "int"), c.func("at", "int", "int"), c.func("train", "int", "bool"), c.func("label", "int", "int"), c.func("features", "int", "val")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), at(ids(i)) == i)))
    has = lambda x: And(inrange(0, at(to_z(x)), n), ids(at(to_z(x))) == to_z(x))
    nodes = c.reg(SMap(has, lambda x: (Atom("any", feat(to_z(x))), label(to_z(x))), n))
    nodes.enum, nodes.distinct = Seq(n, lambda i: ids(to_z(i))), True
    types = c.reg(SMap(has, lambda x: ite(train(to_z(x)), "train", "test"), n))
    adj = [c.reg(Ext("adj35", rel=fresh_rel(it, "r"))) for _ in range(2)]
    p = c.int("p", lo=0)
    c.assume(p < n)
    f = c.reg(Ext("file35", n=0, probe=0, closed=False))
    name = c.atom("str", "graph_file")
    c.ghost.update({"%P": ids(p), "%g": {"p": p, "file": f}})
    opened = []

    def op(it, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        c.oblige("writes the graph file", And(eqv(a[0], name), mode in ("w", "wt", "w+")))
        opened.append(a)
        return f
    it.world.models["builtins.open"] = op

    def text(it, a, k):
        d = dict(zip(("node_id", "node_type", "flt_feat", "label", "train_neighbors", "test_neighbors"), a), **k)
        x = d["node_id"]
        c.oblige("type, features and label of the node", And(eqv(d["node_type"], ite(train(to_z(x)), "train", "test")), eqv(d["flt_feat"], Atom("any", feat(to_z(x)))), eqv(d["label"], label(to_z(x)))))
        for nm, s, r in (("training", d["train_neighbors"], adj[0]), ("other", d["test_neighbors"], adj[1])):
            c.oblige(f"{nm} links of the node", And(s.fields["of"] is r, eqv(s.fields["key"], x)) if isinstance(s, Ext) and s.kind == "adjset35" else False)
        return Tok("node text", x)
    c.ghost["%text"] = text
    s = it.new(DATA[0][0])
    it.call_method(s, "_write_edge_list_graph", [nodes, types] + adj + [name])
    c.oblige("one file", len(opened) == 1)
    c.oblige("every node once", And(eqv(f.fields["n"], n), eqv(f.fields["probe"], 1)))
    c.oblige("file is closed", f.fields["closed"])


# ---------------------------------------------------------------- building
def rec(what):
    return lambda it, a, k: it.ctx.ghost["%rec"](what, a, k)


OV = {GE + "data.cora.CoraFull._load_raw_graph": rec("load"), GE + "data.citeseer.CiteseerFull._load_raw_graph": rec("load"), GE + "data.data_util.Dataset._write_edge_list_graph": rec("write"),
      GE + "data.data_util.Dataset._log_graph_statistic": rec("log"), GE + "data.data_util.write_node_files": rec("lists"), GE + "data.data_util.download_file": rec("download"),
      GE + "snark.convert.MultiWorkersConverter.__init__": rec("converter"), GE + "snark.convert.MultiWorkersConverter.convert": rec("convert"), GE + "snark.local.Client.__init__": rec("open")}


class Zip:
    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        return None

    def m_close(it, o):
        return None

    def m_extractall(it, o, path=None, **k):
        it.ctx.ghost["%rec"]("extract", (o.fields["path"], path), k)


def resource(it, a, k=None):
    return Atom("str", z3.Const("bundled " + "/".join(str(x) for x in a), Val))


class Files:
    def m_joinpath(it, o, *a):
        return resource(it, [o.fields["of"], *a])


def setup_build(world):
    world.kinds.update({"zip35": Zip, "files35": Files})
    world.models["multiprocessing.cpu_count"] = lambda it, a, k: 1
    world.models["zipfile.ZipFile"] = lambda it, a, k: it.ctx.reg(Ext("zip35", path=a[0]))
    world.models["importlib.resources.resource_filename"] = resource
    world.models["importlib.resources.files"] = lambda it, a, k: it.ctx.reg(Ext("files35", of=a[0]))


@proof("building", overrides=OV, setup=setup_build)
def p_build(c, it):
    which = c.choose(2)
    cls, multi = DATA[which]
    P = c.int("partitions", lo=1) if multi else 1
    out, ratio, rand = SStr([("atom", c.atom("str", "output"))]), c.atom("any", "ratio"), c.atom("any", "random")
    log = []

    def r(what, a, k):
        log.append((what, a, k))
        if what == "load":
            return tuple(Tok(x) for x in ("nodes", "types", "train", "test"))
    c.ghost["%rec"] = r
    web = c.choose(2) == 1
    kw = dict(output_dir=out, train_node_ratio=ratio, random_selection=rand, **({"url": "http://host/graph.zip"} if web else {}), **({"num_partitions": P} if multi else {}))
    it.call(it.get(cls), [], kw)
    name = ("cora_full", "citeseer_full")[which]
    names = [x[0] for x in log]
    once = ["extract", "load", "write", "converter", "convert", "lists", "open"] + (["download"] if web else [])
    c.oblige("every step once", And(*[names.count(x) == 1 for x in once]))
    if not all(names.count(x) == 1 for x in once):
        return
    g = {x: log[names.index(x)] for x in once}
    at = names.index
    c.oblige("reads what was extracted, converts what was written, opens what was converted", at("extract") < at("load") < at("write") < at("convert") < at("open") and at("converter") < at("convert"))
    src = g["extract"][1][0]
    if web:
        u, d, f = bindargs(g["download"], ("url", "data_dir", "name"))
        c.oblige("downloads before extracting", eqv(u, "http://host/graph.zip") is True and at("download") < at("extract"))
        c.oblige("extracts the downloaded file", eqv(src, Tok("path", d, f)))
    else:
        c.oblige("extracts the bundled file", eqv(src, resource(it, ["deepgnn.graph_engine.data", name + ".zip"])))
    c.oblige("extracted to the output folder", eqv(g["extract"][1][1], out))
    d, a, b = bindargs(g["load"], ("self", "data_dir", "train_node_ratio", "random_selection"))[1:]
    c.oblige("split as requested", And(eqv(d, out), eqv(a, ratio), eqv(b, rand)))
    w = bindargs(g["write"], ("self", "nodes", "node_types", "train_adjs", "test_adjs", "graph_file"))[1:]
    c.oblige("writes what was read", And(*[eqv(x, Tok(y)) for x, y in zip(w, ("nodes", "types", "train", "test"))]))
    path, part, od, dec = bindargs(g["converter"], ("self", "graph_path", "output_dir", "decoder", "partition_count"), ("graph_path", "partition_count", "output_dir", "decoder"))
    c.oblige("converts the graph file into the output folder", And(eqv(path, w[4]), eqv(od, out), isinstance(dec, Inst) and dec.cls is it.get(GE + "snark.decoders:EdgeListDecoder")))
    c.oblige("partitions as requested", eqv(part if part is not None else 1, P))
    rest = {k: v for k, v in g["converter"][2].items() if k not in ("graph_path", "partition_count", "output_dir", "decoder")}
    if rest or len(g["converter"][1]) > 5:
        raise Unsupported("other converter settings")
    t, tr, te = bindargs(g["lists"], ("node_types", "train_file", "test_file"))
    c.oblige("node lists in the output folder", And(eqv(t, Tok("types")), eqv(tr, Tok("path", out, "train.nodes")), eqv(te, Tok("path", out, "test.nodes"))))
    op, ps = bindargs(g["open"], ("self", "path", "partitions"))[1:]
    ps = it.force(ps)
    j = c.fresh_int("j")
    c.oblige("opens every partition written", And(eqv(op, out), eqv(ps.length(), P), Implies(inrange(0, j, P), eqv(lget(ps, j), j))))


def bindargs(call, names, want=None):
    _, a, k = call
    d = dict(zip(names, a))
    d.update(k)
    return [d.get(n) for n in want or names]
