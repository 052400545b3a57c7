"""C06: partition statistics."""
from contracts._writers import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof: any number of add calls with any number of records each, any types, weights and orders, from any consistent state; inductive invariant "
    "ties counts, per-type lists and type counts to the records written so far. Weights are summed as real numbers (no rounding)."
)
ASSUMPTIONS = ["node and edge types are non-negative; -1 as destination marks a node record (format)"]
add_proof({"stats"}, False)
add_proof({"stats"}, True)


def check(c, it, w, suf, sn, se, wm):
    f = w.fields
    for k in ("node_count", "edge_count", "node_type_num", "edge_type_num"):
        c.oblige(k + " starts at zero", eqv(f[k], 0))
    for l, *_ in LISTS:
        c.oblige(l + " starts empty", eqv(f[l].length(), 0))


init_proof(check)


class Closer:
    def m_close(it, o):
        c = it.ctx
        c.oblige("each writer closed once", o.fields["closed"] is False)
        it.setfield(o, "closed", True)


@proof("closing publishes the largest feature counts and closes every writer")
def p_close(c, it):
    it.world.kinds["closer"] = Closer
    mk = lambda **k: c.reg(Ext("closer", closed=False, **k))
    nf, ef = c.int("nf", lo=0), c.int("ef", lo=0)
    ws = {"node_writer": mk(feature_writer=mk(node_feature_count=nf)), "edge_writer": mk(feature_writer=mk(edge_feature_count=ef)), "node_alias": mk(), "edge_alias": mk()}
    w = it.new(W + "BinaryWriter", **ws)
    it.call_method(w, "close", [])
    c.oblige("node feature count", eqv(w.fields["node_feature_count"], nf))
    c.oblige("edge feature count", eqv(w.fields["edge_feature_count"], ef))
    for n, x in ws.items():
        c.oblige(n + " closed", x.fields["closed"] is True)


# ---------------------------------------------------------------- feature slots of a record
def setup(world):
    install_mp(world)
    install_binary(world)
    world.kinds["wfile"] = WFile


def slots_inv(L):
    if not L.has("i"):
        return []
    return [("last slot", z3.Implies(to_z(L.k) >= 1, to_z(L.i) == to_z(L.k) - 1)), ("before the first", z3.Implies(to_z(L.k) == 0, to_z(L.i) == to_z(L.entry.i)))]


def slots_proof(kind, cls, files, extra):
    @proof(f"the {kind} feature count is the largest number of slots of a record", overrides={WQ + "convert_features": lambda it, a, k: it.ctx.ghost["%conv"]},
           loops=[LoopSpec("features", slots_inv, when=lambda L: True)])
    def p(c, it):
        m, cnt = c.int("m", lo=0), c.int("maxf", lo=0)
        none, ln = c.func("absent", "int", "bool"), c.func("len", "int", "int")
        c.assume(ForAll(1, lambda j: ln(j) >= 0))
        c.ghost["%conv"] = c.reg(VList(n=m, fn=lambda j: Opt(none(to_z(j)), Bytes([("payload", (to_z(j),), ln(to_z(j)))]))))
        fs = {f: c.reg(Ext("wfile", role=f, pos=c.int(f, lo=0), writes=0, closed=False)) for f in files}
        w = it.new(W + cls, fs=None, folder="out", partition=0, iteration=0, watermark=None, **fs, **{extra: fs[extra[:-4]].fields["pos"], kind + "_feature_count": cnt})
        it.call_method(w, "add", [Tok("features", 0), None, None])
        c.oblige("feature count", eqv(w.fields[kind + "_feature_count"], z3.If(m > cnt, m, cnt)))


slots_proof("node", "NodeFeatureWriter", ("ni", "nfi", "nfd"), "nfd_pos")
slots_proof("edge", "EdgeFeatureWriter", ("efi", "efd"), "efd_pos")
