"""C04: partition index files."""
from contracts._writers import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof: any record sequence makes exactly the row/edge calls the format needs, and each writer, from any consistent state (any number of rows, edges and feature bytes "
    "already written), appends exactly the index entries that delimit the new row, edge or feature; closing appends the terminators. Offsets are the positions of the target file at that moment."
)
ASSUMPTIONS = ["files are opened empty and only written through these writers; write returns the number of bytes written",
               "ids, offsets and types fit their fields; struct.pack and ctypes encode as documented"]
add_proof({"index"}, False)


def setup(world):
    install_mp(world)
    install_binary(world)
    world.kinds["wfile"] = WFile


def conv(it, a, k):
    c = it.ctx
    c.oblige("the features given are converted", isinstance(a[0], Tok) and a[0].kind == "features")
    return c.ghost["%conv"]


def wf(c, role, pos):
    return c.reg(Ext("wfile", role=role, pos=pos, writes=0, closed=False))


def feature_list(c):
    m = c.int("m", lo=0)
    none, ln = c.func("absent", "int", "bool"), c.func("len", "int", "int")
    c.assume(ForAll(1, lambda j: ln(j) >= 0))
    l = c.reg(VList(n=m, fn=lambda j: Opt(none(to_z(j)), Bytes([("payload", (to_z(j),), ln(to_z(j)))]))))
    c.ghost["%conv"] = l
    c.ghost["%none"], c.ghost["%len"], c.ghost["%m"] = none, ln, m
    D = c.func("datapos", "int", "int")        # data position before feature j
    c.ghost["%D"] = D
    return m, none, ln, D


def unfold(c, D, none, ln, k):
    k = to_z(k)
    c.assume(D(k + 1) == D(k) + z3.If(none(k), 0, ln(k)))


def feat_inv(idx, data, posfield):
    def inv(L):
        c = L.c
        g = L.ghost
        D, none, ln = g["%D"], g["%none"], g["%len"]
        unfold(c, D, none, ln, L.k)
        if isinstance(L.k, int) is False:
            c.assume(z3.Implies(to_z(L.k) >= 1, D(to_z(L.k)) == D(to_z(L.k) - 1) + z3.If(none(to_z(L.k) - 1), 0, ln(to_z(L.k) - 1))))
        out = [("index entries", eqv(g[idx].fields["pos"], add(L.entry.ghost[idx].fields["pos"], mul(8, L.k)))),
               ("data position", And(eqv(g[data].fields["pos"], D(to_z(L.k))), eqv(L.self.fields[posfield], D(to_z(L.k)))))]
        if L.has("i"):
            out.append(("last index", z3.Implies(to_z(L.k) >= 1, to_z(L.i) == to_z(L.k) - 1)))
        if L.maybe("features_written"):
            out.append(("bytes of index entries", eqv(L.features_written, mul(8, L.k))))
        return out
    return inv


def feature_hooks(c, idx, data):
    """an index entry is the data position at that moment; payloads go to the data file in order, one entry before each"""
    def on_index(it, o, b):
        it.ctx.oblige("index entry is the start of the feature's data", bytes_are(b, [("Q", it.ctx.ghost[data].fields["pos"])]))

    def on_data(it, o, b):
        c = it.ctx
        ok = len(b.segs) == 1 and b.segs[0][0] == "payload"
        c.oblige("only payloads are stored as data", ok)
        if ok:
            j = b.segs[0][1][0]
            n0 = c.ghost["%base"]
            c.oblige("payload of feature j follows its own index entry", And(Not(c.ghost["%none"](j)), eqv(c.ghost[idx].fields["pos"], add(n0, mul(8, add(j, 1))))))
    c.ghost["%hook_" + idx] = on_index
    c.ghost["%hook_" + data] = on_data


def after_add(c, idx, data, posval, base, D, m):
    c.oblige("one index entry per feature", eqv(c.ghost[idx].fields["pos"], add(base, mul(8, m))))
    c.oblige("data holds exactly the payloads", eqv(c.ghost[data].fields["pos"], D(m)))
    c.oblige("next data position", eqv(posval, D(m)))


OV = {WQ + "convert_features": conv}


@proof("node features: row, index and data stay aligned", overrides=OV, loops=[LoopSpec("features", feat_inv("nfi", "nfd", "nfd_pos"), when=lambda L: True)])
def p_nf(c, it):
    F, R = c.int("F", lo=0), c.int("R", lo=0)
    m, none, ln, D = feature_list(c)
    base = 8 * F
    c.ghost.update({"ni": wf(c, "ni", 8 * R), "nfi": wf(c, "nfi", base), "nfd": wf(c, "nfd", D(0)), "%base": base})
    feature_hooks(c, "nfi", "nfd")
    c.ghost["%hook_ni"] = lambda it, o, b: it.ctx.oblige("row entry is the number of index entries before the row", bytes_are(b, [("Q", F)]))
    cnt = c.int("maxf", lo=0)
    w = it.new(W + "NodeFeatureWriter", fs=None, folder="out", partition=0, iteration=0, watermark=None, ni=c.ghost["ni"], nfi=c.ghost["nfi"], nfd=c.ghost["nfd"], nfd_pos=D(0), node_feature_count=cnt)
    it.call_method(w, "add", [Tok("features", 0), None, None])
    c.oblige("one row entry", eqv(c.ghost["ni"].fields["pos"], 8 * R + 8))
    after_add(c, "nfi", "nfd", w.fields["nfd_pos"], base, D, m)


@proof("node features: closing delimits the last row and feature", overrides=OV)
def p_nfclose(c, it):
    F, R, Dp = c.int("F", lo=0), c.int("R", lo=0), c.int("D", lo=0)
    fs = {"ni": wf(c, "ni", 8 * R), "nfi": wf(c, "nfi", 8 * F), "nfd": wf(c, "nfd", Dp)}
    c.ghost["%hook_ni"] = lambda it, o, b: it.ctx.oblige("last row entry is the number of index entries", bytes_are(b, [("Q", F)]))
    c.ghost["%hook_nfi"] = lambda it, o, b: it.ctx.oblige("last index entry is the end of the data", bytes_are(b, [("Q", Dp)]))
    c.ghost["%hook_nfd"] = lambda it, o, b: it.ctx.oblige("closing stores no data", False)
    w = it.new(W + "NodeFeatureWriter", fs=None, folder="out", partition=0, iteration=0, watermark=None, nfd_pos=Dp, node_feature_count=0, **fs)
    it.call_method(w, "close", [])
    c.oblige("one terminating row entry", eqv(fs["ni"].fields["pos"], 8 * R + 8))
    c.oblige("one terminating index entry", eqv(fs["nfi"].fields["pos"], 8 * F + 8))
    c.oblige("files closed", And(*[f.fields["closed"] for f in fs.values()]))


class FeatSink:
    def m_add(it, o, *a, **k):
        it.ctx.ghost["%calls"].append(a)
        r = o.fields.get("ret")
        if r is not None:
            e = it.ctx.ghost["efi"]
            it.setfield(e, "pos", add(e.fields["pos"], r))
            return r

    def m_tell(it, o):
        return o.fields["data"]

    def m_close(it, o):
        it.setfield(o, "closed", True)


@proof("node map: consecutive numbers with the node's id and type")
def p_node(c, it):
    it.world.kinds["fsink"] = FeatSink
    R = c.int("R", lo=0)
    nid, tp = c.int("id", lo=0), c.int("tp", lo=-1)
    nm = wf(c, "nm", 20 * R)
    fw = c.reg(Ext("fsink", closed=False))
    c.ghost["%calls"] = calls = []
    c.ghost["%hook_nm"] = lambda it, o, b: it.ctx.oblige("map entry: id, row number, type", bytes_are(b, [("Q", nid), ("Q", R), ("i", tp)]))
    w = it.new(W + "NodeWriter", fs=None, folder="out", partition=0, iteration=0, nm=nm, count=R, feature_writer=fw)
    ca, ra = Opt(c.bool("ca?"), c.int("ca")), Opt(c.bool("ra?"), c.int("ra"))
    it.call_method(w, "add", [nid, tp, Tok("features", 0), ca, ra])
    c.oblige("one map entry", eqv(nm.fields["pos"], 20 * R + 20))
    c.oblige("next row number", eqv(w.fields["count"], R + 1))
    c.oblige("features of the row stored once", len(calls) == 1 and isinstance(calls[0][0], Tok))
    c.ghost["%hook_nm"] = lambda it, o, b: it.ctx.oblige("closing writes nothing to the map", False)
    it.call_method(w, "close", [])
    c.oblige("files closed", And(nm.fields["closed"], fw.fields["closed"]))


def edge_writer(c, it, E, R, I, Dp, ret=None):
    it.world.kinds["fsink"] = FeatSink
    fs = {"nbi": wf(c, "nbi", 8 * R), "ei": wf(c, "ei", 24 * E), "efi": wf(c, "efi", 8 * I)}
    fw = c.reg(Ext("fsink", closed=False, data=Dp, ret=ret))
    c.ghost.update(fs)
    c.ghost["%calls"] = []
    w = it.new(W + "EdgeWriter", fs=None, folder="out", partition=0, iteration=0, watermark=None, efi_pos=8 * I, feature_writer=fw, **fs)
    return w, fs, fw


@proof("edges: neighbor rows and edge records stay aligned")
def p_edge(c, it):
    E, R, I, Dp, m = c.int("E", lo=0), c.int("R", lo=0), c.int("I", lo=0), c.int("D", lo=0), c.int("m", lo=0)
    w, fs, fw = edge_writer(c, it, E, R, I, Dp, 8 * m)
    dst, tp, wt = c.int("dst", lo=0), c.int("tp", lo=0), c.real("weight")
    c.ghost["%hook_nbi"] = lambda it, o, b: it.ctx.oblige("neighbor entry is the number of edges before the row", bytes_are(b, [("Q", E)]))
    it.call_method(w, "add_node", [])
    c.oblige("one neighbor entry", eqv(fs["nbi"].fields["pos"], 8 * R + 8))
    c.oblige("no edge record", eqv(fs["ei"].fields["pos"], 24 * E))
    c.ghost["%hook_nbi"] = lambda it, o, b: it.ctx.oblige("an edge adds no row", False)
    c.ghost["%hook_ei"] = lambda it, o, b: it.ctx.oblige("edge record: destination, first feature entry, type, weight", bytes_are(b, [("Q", dst), ("Q", I), ("i", tp), ("f", wt)]))
    it.call_method(w, "add", [dst, tp, wt, Tok("features", 0), None, None])
    c.oblige("one edge record", eqv(fs["ei"].fields["pos"], 24 * E + 24))
    c.oblige("features of the edge stored once", len(c.ghost["%calls"]) == 1 and isinstance(c.ghost["%calls"][0][0], Tok))
    c.oblige("next edge starts after this edge's feature entries", eqv(w.fields["efi_pos"], 8 * I + 8 * m))


@proof("edges: closing delimits the last row, edge and feature")
def p_edgeclose(c, it):
    E, R, I, Dp = c.int("E", lo=0), c.int("R", lo=0), c.int("I", lo=0), c.int("D", lo=0)
    w, fs, fw = edge_writer(c, it, E, R, I, Dp)
    c.ghost["%hook_nbi"] = lambda it, o, b: it.ctx.oblige("last neighbor entry is the number of edges", bytes_are(b, [("Q", E)]))

    def last(it, o, b):
        # destination, type and weight of the terminating record carry no meaning
        ok = len(b.segs) == 4 and [s[2] for s in b.segs] == [8, 8, 4, 4]
        it.ctx.oblige("terminating edge record points behind the last feature entry", And(ok, eqv(b.segs[1][1][0], I)) if ok else False)
    c.ghost["%hook_ei"] = last
    c.ghost["%hook_efi"] = lambda it, o, b: it.ctx.oblige("last feature entry is the end of the data", bytes_are(b, [("Q", Dp)]))
    it.call_method(w, "close", [])
    c.oblige("one terminating neighbor entry", eqv(fs["nbi"].fields["pos"], 8 * R + 8))
    c.oblige("one terminating edge record", eqv(fs["ei"].fields["pos"], 24 * E + 24))
    c.oblige("one terminating feature entry", eqv(fs["efi"].fields["pos"], 8 * I + 8))
    c.oblige("files closed", And(fw.fields["closed"], *[f.fields["closed"] for f in fs.values()]))


@proof("edge features: index and data stay aligned", overrides=OV, loops=[LoopSpec("features", feat_inv("efi", "efd", "efd_pos"), when=lambda L: True)])
def p_ef(c, it):
    F = c.int("F", lo=0)
    m, none, ln, D = feature_list(c)
    base = 8 * F
    c.ghost.update({"efi": wf(c, "efi", base), "efd": wf(c, "efd", D(0)), "%base": base})
    feature_hooks(c, "efi", "efd")
    cnt = c.int("maxf", lo=0)
    w = it.new(W + "EdgeFeatureWriter", fs=None, folder="out", partition=0, iteration=0, efi=c.ghost["efi"], efd=c.ghost["efd"], efd_pos=D(0), edge_feature_count=cnt)
    r = it.call_method(w, "add", [Tok("features", 0), None, None])
    after_add(c, "efi", "efd", w.fields["efd_pos"], base, D, m)
    c.oblige("reports the bytes of its index entries", eqv(r, 8 * m))
    c.oblige("reports the end of the data", eqv(it.call_method(w, "tell", []), D(m)))
    it.call_method(w, "close", [])
    c.oblige("data file closed", c.ghost["efd"].fields["closed"])


# ---------------------------------------------------------------- construction: the writers share files as the proofs above assume
class NFS:
    def m_open(it, o, path, mode="rb", **k):
        p = it.tostr(path)
        f = it.ctx.reg(Ext("wfile", role="new", pos=0, writes=0, closed=False))
        it.ctx.ghost["%opened"].append((p, mode, f))
        return f


def path_is(p, want, part):
    parts = want.split("#")
    return eqv(p, SStr([parts[0], ("int", part), parts[1]]))


@proof("new writers open their own empty files and share the feature index", overrides={GE + "_base.get_fs": lambda it, a, k: (it.ctx.ghost["nfs"], a[0])})
def p_new(c, it):
    it.world.kinds["nfs"] = NFS
    c.ghost["nfs"] = c.reg(Ext("nfs"))
    c.ghost["%opened"] = o = []
    part = c.int("part", lo=0)
    nw = it.call(it.get(W + "NodeWriter"), ["out", part, None])
    ew = it.call(it.get(W + "EdgeWriter"), ["out", part, None])
    c.oblige("all files opened for binary writing", And(*[m == "wb" for _, m, _ in o]))
    by = lambda f: next((p for p, _, g in o if g is f), None)
    nfw, efw = nw.fields["feature_writer"], ew.fields["feature_writer"]
    for f, want in ((nw.fields["nm"], "out/node_#_0.map"), (nfw.fields["ni"], "out/node_#_0.index"), (nfw.fields["nfi"], "out/node_features_#_0.index"),
                    (nfw.fields["nfd"], "out/node_features_#_0.data"), (ew.fields["nbi"], "out/neighbors_#_0.index"), (ew.fields["ei"], "out/edge_#_0.index"),
                    (ew.fields["efi"], "out/edge_features_#_0.index"), (efw.fields["efd"], "out/edge_features_#_0.data")):
        p = by(f)
        c.oblige("file " + want, p is not None and path_is(p, want, part))
    c.oblige("edge features use the edge writer's index", efw.fields["efi"] is ew.fields["efi"])
    c.oblige("start positions", And(eqv(nw.fields["count"], 0), eqv(nfw.fields["nfd_pos"], 0), eqv(ew.fields["efi_pos"], 0), eqv(efw.fields["efd_pos"], 0)))
