"""C07: edge lifetimes in temporal graphs."""
from contracts._writers import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof: any record sequence over any number of add calls; the times handed to the edge writer are the edge's own or its source node's, "
    "edges outside the lifetime of their source are rejected, and the edge writer stores exactly those times (and none without watermark)."
)
ASSUMPTIONS = ["times fit a signed 64-bit field; struct.pack and ctypes encode as documented",
               "an edge explicitly marked as never removed (-1) whose source node is removed may be stored or rejected"]
add_proof({"time"}, True)
add_proof({"time"}, False)


def setup(world):
    install_mp(world)
    install_binary(world)
    world.kinds["wfile"] = WFile


def check(c, it, w, suf, sn, se, wm):
    f = w.fields
    none = to_z(wm.isnone)
    c.oblige("temporal exactly when a watermark is given", cmp("==", to_z(it.truth_value(f["is_temporal"])), z3.Not(none)))
    for k in ("node_writer", "edge_writer"):
        a = f[k].fields["args"]
        c.oblige(k + " gets the watermark", len(a) == 3 and eqv(a[2], wm))
    if "node_lifetime" in f:
        c.oblige("sources without a node record live from the beginning and forever", eqv(f["node_lifetime"], (0, -1)))


init_proof(check)


class EFS:
    def m_open(it, o, path, mode="rb", **k):
        p = it.tostr(path)
        p = p if isinstance(p, str) else "".join(x if isinstance(x, str) else "#" for x in p.parts)
        role = "time" if p.endswith(".timestamp") else "other"
        if role == "time":
            it.ctx.ghost["%timefiles"].append(p)
        return it.ctx.reg(Ext("wfile", role=role, pos=0, writes=0, closed=False))


def feat_add(it, a, k):
    return 8 * it.ctx.int("written", lo=0)


OV = {GE + "_base.get_fs": lambda it, a, k: (it.ctx.ghost["efs"], a[0]), WQ + "EdgeFeatureWriter.add": feat_add}


@proof("edge writer stores exactly the times it is given", overrides=OV)
def p_edge(c, it):
    it.world.kinds["efs"] = EFS
    c.ghost["efs"] = c.reg(Ext("efs"))
    c.ghost["%timefiles"] = []
    wm = Opt(c.bool("nowm"), c.int("wm", lo=0))
    seen = []
    c.ghost["%hook_time"] = lambda it, o, b: seen.append((simp(o.fields["writes"]), b))
    e = it.call(it.get(W + "EdgeWriter"), ["out", c.int("part", lo=0), wm])
    none = to_z(wm.isnone)
    temporal = not c.branch(none)
    c.oblige("a time file exactly for temporal graphs", len(c.ghost["%timefiles"]) == (1 if temporal else 0))
    if temporal:
        c.oblige("time file starts with the watermark", len(seen) == 1 and bytes_are(seen[0][1], [("Q", wm.val)]))
    del seen[:]
    for i in range(2):
        ca, ra = c.int(f"created{i}"), c.int(f"removed{i}")
        it.call_method(e, "add", [c.int(f"dst{i}", lo=0), c.int(f"tp{i}", lo=0), c.real(f"w{i}"), c.reg(VList(items=[])), ca if temporal else None, ra if temporal else None])
        c.oblige("one time entry per edge of a temporal graph, none otherwise", len(seen) == (1 if temporal else 0))
        if temporal and len(seen) == 1:
            c.oblige("creation then removal time", bytes_are(seen[0][1], [("q", ca), ("q", ra)]))
        del seen[:]
    it.call_method(e, "close", [])
    c.oblige("closing adds no times", not seen)


from contracts import _command


@proof("conversion command: temporal exactly when a watermark is given", overrides=_command.OV, setup=_command.setup)
def p_command(c, it):
    given = {}
    wm = c.int("watermark", lo=-1)
    if c.branch(c.bool("watermark given")):
        given["watermark"] = wm
    v, b = _command.command(c, it, **given)
    got = b.get("watermark")
    if not given or c.branch(wm < 0):
        c.oblige("without a watermark the conversion is not temporal", eqv(got, None))
    else:
        c.oblige("the watermark given is used", eqv(got, wm))
