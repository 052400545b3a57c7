"""Shared contract of the partition writer: what each record of any record sequence does (C04, C06, C07, C08)."""
from vc.api import *

W = GE + "snark.converter.writers:"
WQ = GE + "snark.converter.writers."


class Recs:
    """the record sequence; yielding record k makes the defining equations of the specification at k available"""

    def stream(it, o):
        c = it.ctx
        S = c.ghost["%S"]
        k = o.fields["k"]
        if not c.branch(lt(k, o.fields["n"])):
            return StopIteration
        k = to_z(k)
        S.define(c, k)
        it.setfield(o, "cur", k)
        it.setfield(o, "k", add(k, 1))
        return (S.record(k),)


class Spec:
    """functions of the record index: what the records say and the state the partition must be in before record k"""

    def __init__(self, c, state):
        I = lambda n, *a: c.func(n, *(a or ("int",)), "int")
        B = lambda n: c.func(n, "int", "bool")
        R = lambda n: c.func(n, "int", "real")
        self.src, self.dst, self.typ, self.w = I("src"), I("dst"), I("typ"), R("w")
        self.crn, self.crv, self.rmn, self.rmv = B("cr.none"), I("cr"), B("rm.none"), I("rm")
        # state before record k
        self.pnd, self.pn, self.ptd, self.pt = B("pnode?"), I("pnode"), B("ptype?"), I("ptype")
        self.nc, self.nr = I("ncreated"), I("nremoved")
        self.nodes, self.edges, self.rows = I("nodes"), I("edges"), I("rows")
        self.mx, self.emx = I("ntypes"), I("etypes")
        self.ncnt, self.ecnt, self.nw, self.ew = I("ncount_t"), I("ecount_t"), R("nweight_t"), R("eweight_t")
        self.t = c.int("t", lo=0)
        self.state = state

    def record(self, k):
        return (self.src(k), self.dst(k), self.typ(k), self.w(k), Opt(self.crn(k), self.crv(k)), Opt(self.rmn(k), self.rmv(k)), Tok("features", k))

    def isnode(self, k):
        return self.dst(k) == -1

    def newsrc(self, k):
        """an edge whose source has no row yet"""
        return z3.And(z3.Not(self.isnode(k)), z3.Or(z3.Not(self.pnd(k)), self.pn(k) != self.src(k)))

    def life(self, k):
        """lifetime of the source node of record k (an edge)"""
        return z3.If(self.newsrc(k), 0, self.nc(k)), z3.If(self.newsrc(k), -1, self.nr(k))

    def bad_order(self, k):
        return z3.And(z3.Not(self.isnode(k)), z3.Not(self.newsrc(k)), self.ptd(k), self.typ(k) < self.pt(k))

    def bad_time(self, k):
        c, r = self.life(k)
        return z3.And(z3.Not(self.isnode(k)), z3.Or(z3.And(z3.Not(self.crn(k)), self.crv(k) < c), z3.And(z3.Not(self.rmn(k)), r != -1, self.rmv(k) > r)))

    def odd_time(self, k):
        """an edge explicitly without removal although its source node is removed: either answer is accepted"""
        c, r = self.life(k)
        return z3.And(z3.Not(self.isnode(k)), z3.Not(self.rmn(k)), r != -1, self.rmv(k) == -1)

    def define(self, c, k):
        n, ns, t = self.isnode(k), self.newsrc(k), self.t
        k1 = k + 1
        one = lambda b: z3.If(b, 1, 0)
        big = lambda a, b: z3.If(a > b, a, b)
        c.assume(z3.And(
            self.typ(k) >= 0, self.dst(k) >= -1, self.src(k) >= 0,
            self.pnd(k1), self.pn(k1) == self.src(k),
            self.ptd(k1) == z3.Not(n), z3.Implies(z3.Not(n), self.pt(k1) == self.typ(k)),
            self.nc(k1) == z3.If(n, z3.If(self.crn(k), 0, self.crv(k)), self.life(k)[0]),
            self.nr(k1) == z3.If(n, z3.If(self.rmn(k), -1, self.rmv(k)), self.life(k)[1]),
            self.nodes(k1) == self.nodes(k) + one(n), self.edges(k1) == self.edges(k) + one(z3.Not(n)),
            self.rows(k1) == self.rows(k) + one(z3.Or(n, ns)),
            self.mx(k1) == z3.If(n, big(self.mx(k), self.typ(k) + 1), self.mx(k)),
            self.emx(k1) == z3.If(n, self.emx(k), big(self.emx(k), self.typ(k) + 1)),
            self.ncnt(k1) == self.ncnt(k) + one(z3.And(n, self.typ(k) == t)), self.nw(k1) == self.nw(k) + z3.If(z3.And(n, self.typ(k) == t), self.w(k), 0),
            self.ecnt(k1) == self.ecnt(k) + one(z3.And(z3.Not(n), self.typ(k) == t)), self.ew(k1) == self.ew(k) + z3.If(z3.And(z3.Not(n), self.typ(k) == t), self.w(k), 0)))


def opt_is(v, none, val):
    if v is None:
        return none
    if isinstance(v, Opt):
        return z3.And(to_z(v.isnone) == none, z3.Or(none, to_z(v.val) == val))
    return And(z3.Not(none), eqv(v, val))


LISTS = (("node_weight", "node_type_num", "nw", "mx"), ("node_type_count", "node_type_num", "ncnt", "mx"),
         ("edge_weight", "edge_type_num", "ew", "emx"), ("edge_type_count", "edge_type_num", "ecnt", "emx"))


def records_inv(what):
    def inv(L):
        S, f, g = L.ghost["%S"], L.self.fields, L.ghost
        k = to_z(L.k)
        t = S.t
        out = [("record index", And(eqv(g["recs"].fields["k"], L.k), le(L.k, g["recs"].fields["n"]))),
               ("previous node", opt_is(f["prev_node_id"], z3.Not(S.pnd(k)), S.pn(k))),
               ("previous edge type", opt_is(f["prev_edge_type"], z3.Not(S.ptd(k)), S.pt(k))),
               ("node types", eqv(f["node_type_num"], S.mx(k))), ("edge types", eqv(f["edge_type_num"], S.emx(k)))]
        if "node_lifetime" in f:
            out += [("source node lifetime", eqv(f["node_lifetime"], (S.nc(k), S.nr(k))))]
        if L.has("node_created_at", "node_removed_at"):
            out += [("node created at", eqv(L.node_created_at, S.nc(k))), ("node removed at", eqv(L.node_removed_at, S.nr(k)))]
        for l, n, fn, mx in LISTS:
            v = f[l]
            out.append((l + " length", eqv(v.length(), getattr(S, mx)(k))))
            if "stats" in what:
                x = lget(v, t) if v.sym or v.items else None
                if x is not None:
                    out.append((l + " value", Implies(lt(t, getattr(S, mx)(k)), cmp("==", x, getattr(S, fn)(k)))))
                out.append((l + " zero beyond", Implies(le(getattr(S, mx)(k), t), getattr(S, fn)(k) == 0)))
        if "stats" in what:
            out += [("node count", eqv(f["node_count"], S.nodes(k))), ("edge count", eqv(f["edge_count"], S.edges(k)))]
        if "index" in what:
            out += [("rows", eqv(g["nw"].fields["rows"], S.rows(k))), ("neighbor rows", eqv(g["ew"].fields["rows"], S.rows(k))), ("edge records", eqv(g["ew"].fields["edges"], S.edges(k)))]
        if "alias" in what:
            out += [("sampler types", eqv(g["na"].fields["types"], S.mx(k))), ("edge sampler types", eqv(g["ea"].fields["types"], S.emx(k))),
                    ("sampler nodes", eqv(g["na"].fields["n"], S.nodes(k))), ("sampler edges", eqv(g["ea"].fields["n"], S.edges(k)))]
        return out
    return inv


def grow_inv(what):
    def inv(L):
        f, e = L.self.fields, L.entry.self.fields
        t = L.ghost["%S"].t
        out = []
        src = L.src()
        for l, n, fn, mx in LISTS:
            if l not in src:
                continue
            v, v0 = f[l], e[l]
            n0 = v0.length()
            out.append((l + " length", eqv(v.length(), add(n0, L.k))))
            if "stats" in what and (v.sym or v.items):
                x = lget(v, t)
                old = cmp("==", x, lget(v0, t)) if (v0.sym or v0.items) else True
                out.append((l + " kept", Implies(lt(t, n0), old)))
                out.append((l + " zeros", Implies(And(le(n0, t), lt(t, v.length())), cmp("==", x, 0))))
        if "alias" in what:
            for a in ("na", "ea"):
                n0 = L.entry.ghost[a].fields["types"]
                which = "node_alias" if a == "na" else "edge_alias"
                out.append((which + " types", eqv(L.ghost[a].fields["types"], add(n0, L.k) if which in src else n0)))
        return out
    return inv


class SubWriter:
    """stands for the writers behind the partition writer: states what each call must be"""

    def m_add(it, o, *a, **k):
        c, S = it.ctx, it.ctx.ghost["%S"]
        what = c.ghost["%what"]
        cur = c.ghost["recs"].fields["cur"]
        a = list(a) + list(k.values())
        role = o.fields["role"]
        temporal = c.ghost["%temporal"]
        if role == "node":
            nid, typ, feats, ca, ra = a + [None] * (5 - len(a))
            rows = o.fields["rows"]
            if "index" in what:
                c.oblige("a row is written only for a node record or an edge of a new source", z3.Or(S.isnode(cur), S.newsrc(cur)))
                c.oblige("row id", eqv(nid, S.src(cur)))
                c.oblige("row type", eqv(typ, z3.If(S.isnode(cur), S.typ(cur), -1)))
                none = isinstance(feats, VList) and feats.items == []
                c.oblige("row features", Implies(S.isnode(cur), isinstance(feats, Tok) and eqv(feats, Tok("features", cur))))
                c.oblige("a row made for an edge has no features", Implies(S.newsrc(cur), none))
            it.setfield(o, "rows", add(rows, 1))
            return None
        if role == "edge":
            dst, typ, w, feats, ca, ra = a + [None] * (6 - len(a))
            if "index" in what:
                c.oblige("edges are written only for edge records", z3.Not(S.isnode(cur)))
                c.oblige("edge destination, type and weight", And(eqv(dst, S.dst(cur)), eqv(typ, S.typ(cur)), eqv(w, S.w(cur))))
                c.oblige("edge features", isinstance(feats, Tok) and eqv(feats, Tok("features", cur)))
                c.oblige("its source row is the last one", And(eqv(o.fields["rows"], S.rows(cur + 1)), eqv(c.ghost["nw"].fields["rows"], S.rows(cur + 1))))
            if "stats" in what:
                c.oblige("edges of one source with decreasing type are rejected", z3.Not(S.bad_order(cur)))
            if "time" in what:
                c.oblige("edges outside the lifetime of their source node are rejected", z3.Not(S.bad_time(cur)))
                lc, lr = S.life(cur)
                if temporal:
                    c.oblige("creation time", False if ca is None else eqv(ca, z3.If(S.crn(cur), lc, S.crv(cur))))
                    c.oblige("removal time", False if ra is None else eqv(ra, z3.If(S.rmn(cur), lr, S.rmv(cur))))
            it.setfield(o, "edges", add(o.fields["edges"], 1))
            return None
        # samplers
        if "alias" in what:
            isn = role == "nalias"
            tp = a[1] if isn else a[2]
            c.oblige("sampler gets records of its own kind", S.isnode(cur) if isn else z3.Not(S.isnode(cur)))
            c.oblige("sampler gets the record's own id, type and weight",
                     And(eqv(a[0], S.src(cur)), eqv(a[1], S.typ(cur)), eqv(a[2], S.w(cur))) if isn else
                     And(eqv(a[0], S.src(cur)), eqv(a[1], S.dst(cur)), eqv(a[2], S.typ(cur)), eqv(a[3], S.w(cur))))
            c.oblige("the sampler knows the type", lt(tp, o.fields["types"]))
        it.setfield(o, "n", add(o.fields["n"], 1))
        return None

    def m_add_node(it, o):
        c, S = it.ctx, it.ctx.ghost["%S"]
        cur = c.ghost["recs"].fields["cur"]
        if "index" in c.ghost["%what"]:
            c.oblige("neighbor row only for a new row", z3.Or(S.isnode(cur), S.newsrc(cur)))
        it.setfield(o, "rows", add(o.fields["rows"], 1))

    def m_add_type(it, o):
        it.setfield(o, "types", add(o.fields["types"], 1))


def add_proof(what, temporal, name=None):
    what = set(what)
    loops = [LoopSpec("records", records_inv(what), when=lambda L: "prev_node_id" in L.src()),
             LoopSpec("grow", grow_inv(what), when=lambda L: "append" in L.src() or "extend" in L.src())]

    @proof(name or f"writing any sequence of records ({', '.join(sorted(what))}, {'temporal' if temporal else 'not temporal'})", loops=loops, budget=400)
    def p(c, it):
        it.world.kinds.update({"recs": Recs, "subw": SubWriter})
        S = Spec(c, None)
        n = c.int("n", lo=0)
        recs = c.reg(Ext("recs", k=0, cur=-1, n=n))
        g = {"nw": c.reg(Ext("subw", role="node", rows=S.rows(0))), "ew": c.reg(Ext("subw", role="edge", rows=S.rows(0), edges=S.edges(0))),
             "na": c.reg(Ext("subw", role="nalias", types=S.mx(0), n=S.nodes(0))), "ea": c.reg(Ext("subw", role="ealias", types=S.emx(0), n=S.edges(0)))}
        c.ghost.update(g)
        c.ghost.update({"recs": recs, "%S": S, "%what": what, "%temporal": temporal})
        c.assume(z3.And(S.mx(0) >= 0, S.emx(0) >= 0, S.nodes(0) >= 0, S.edges(0) >= 0, S.rows(0) >= 0))
        mk = lambda nm, n0, fn, sort: c.ilist(nm, n0, sort=sort)
        lists = {}
        for l, cnt, fn, mx in LISTS:
            v = c.ilist("l_" + l, getattr(S, mx)(0), sort="real" if "weight" in l else "int")
            lists[l] = v
            c.assume(Implies(lt(S.t, v.length()), cmp("==", lget(v, S.t), getattr(S, fn)(0))))
            c.assume(Implies(le(v.length(), S.t), getattr(S, fn)(0) == 0))
        w = it.new(W + "BinaryWriter", folder="out", suffix=0, skip_node_sampler=False, skip_edge_sampler=False, watermark=7 if temporal else None, is_temporal=temporal,
                   node_writer=g["nw"], edge_writer=g["ew"], node_alias=g["na"], edge_alias=g["ea"], node_count=S.nodes(0), edge_count=S.edges(0),
                   node_type_num=S.mx(0), edge_type_num=S.emx(0), prev_node_id=Opt(z3.Not(S.pnd(0)), S.pn(0)), prev_edge_type=Opt(z3.Not(S.ptd(0)), S.pt(0)),
                   node_lifetime=(S.nc(0), S.nr(0)), **lists)
        try:
            it.call_method(w, "add", [recs])
        except PyExc as e:
            cur = recs.fields["cur"]
            if isinstance(cur, int):
                c.oblige("no exception before the first record", False)
                return
            bad = z3.Or(S.bad_order(cur), S.bad_time(cur), S.odd_time(cur))
            c.oblige("only edges out of order or outside the lifetime of their source node are rejected", And(e.name() == "AssertionError", bad))
            return
        f = w.fields
        if "stats" in what:
            c.oblige("node count", eqv(f["node_count"], S.nodes(n)))
            c.oblige("edge count", eqv(f["edge_count"], S.edges(n)))
            c.oblige("one more node type than the largest seen", eqv(f["node_type_num"], S.mx(n)))
            c.oblige("one more edge type than the largest seen", eqv(f["edge_type_num"], S.emx(n)))
            for l, cnt, fn, mx in LISTS:
                v = f[l]
                c.oblige(l + ": one entry per type", eqv(v.length(), getattr(S, mx)(n)))
                if v.sym or v.items:
                    c.oblige(l + ": total of the records written", Implies(lt(S.t, v.length()), cmp("==", lget(v, S.t), getattr(S, fn)(n))))
        if "index" in what:
            c.oblige("one row per node record or new source", eqv(g["nw"].fields["rows"], S.rows(n)))
            c.oblige("one neighbor row per row", eqv(g["ew"].fields["rows"], S.rows(n)))
            c.oblige("one edge per edge record", eqv(g["ew"].fields["edges"], S.edges(n)))
        if "alias" in what:
            c.oblige("every node record reaches its sampler", eqv(g["na"].fields["n"], S.nodes(n)))
            c.oblige("every edge record reaches its sampler", eqv(g["ea"].fields["n"], S.edges(n)))
            c.oblige("a node sampler per type", eqv(g["na"].fields["types"], S.mx(n)))
            c.oblige("an edge sampler per type", eqv(g["ea"].fields["types"], S.emx(n)))
        if "time" in what:
            c.oblige("records consumed", eqv(recs.fields["k"], n))
    return p


def sub_new(kind):
    return lambda it, a, k: it.ctx.reg(Ext("subw", role=kind, args=tuple(a) + tuple(k.values()), rows=0, edges=0, types=0, n=0))


NEW = {WQ + "NodeWriter": sub_new("node"), WQ + "EdgeWriter": sub_new("edge"), WQ + "NodeAliasWriter": sub_new("nalias"), WQ + "EdgeAliasWriter": sub_new("ealias")}


def init_proof(check):
    @proof("a new partition writer starts empty and hands its settings on", overrides=NEW)
    def p(c, it):
        it.world.kinds.update({"subw": SubWriter})
        wm = Opt(c.bool("nowm"), c.int("wm"))
        sn, se = c.bool("skn"), c.bool("ske")
        suf = c.int("suffix", lo=0)
        w = it.call(it.get(W + "BinaryWriter"), ["out", suf, sn, se, wm])
        check(c, it, w, suf, sn, se, wm)
    return p
