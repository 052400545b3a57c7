"""Contracts assumed for code outside the repository (and for a few repo
functions replaced by a contract).  Every one used in a run is listed in the
evidence under assumed_contracts."""
import z3
from .core import *
from .interp import *
from .lib import *


def use_fs(world_or_ov):
    """deepgnn get_fs(path) -> (file system object, path)"""
    def get_fs(it, a, k):
        fs = it.ctx.ghost.get("%fs")
        if fs is None:
            fs = it.ctx.reg(Ext("fs"))
            it.ctx.ghost["%fs"] = fs
            it.ctx.ghost.setdefault("opened", it.ctx.reg(VList(items=[])))
        return (fs, a[0])
    return {"deepgnn.graph_engine._base.get_fs": get_fs}


class FS:
    def m_open(it, o, path, mode="rb", **k):
        """open for writing truncates; every opened path is logged"""
        it.list_append(it.ctx.ghost["opened"], (it.tostr(path), mode))
        return it.ctx.reg(Ext("file", path=path, mode=mode, log=it.ctx.reg(VList(items=[])), pos=0, closed=False))


class File:
    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        it.setfield(o, "closed", True)
        return None

    def m_close(it, o):
        it.setfield(o, "closed", True)

    def m_write(it, o, data):
        data = it.force(data)
        it.list_append(o.fields["log"], data)
        if isinstance(data, (bytes, Bytes)):
            n = mkbytes(data).length()
            it.setfield(o, "pos", add(o.fields["pos"], n))
            return n
        return None

    def m_tell(it, o):
        return o.fields["pos"]

    def m_flush(it, o):
        return None

    def m_seek(it, o, p, w=0):
        raise Unsupported("seek")


CT = {"c_uint64": "Q", "c_int64": "q", "c_uint32": "I", "c_int32": "i", "c_uint": "I", "c_int": "i", "c_float": "f", "c_double": "d", "c_ulonglong": "Q", "c_longlong": "q",
      "c_size_t": "Q", "c_uint8": "B", "c_int8": "b", "c_uint16": "H", "c_int16": "h", "c_bool": "?"}
CSIZE = {"Q": 8, "q": 8, "I": 4, "i": 4, "f": 4, "d": 8, "B": 1, "b": 1, "H": 2, "h": 2, "?": 1}


def install_binary(world):
    """struct.pack and ctypes scalars as byte strings made of typed fields (values assumed to fit the field)"""
    def mk(name, code):
        def f(it, a, k):
            return it.ctx.reg(Ext("ctypes.value", ctype=code, size=CSIZE[code], value=it.force(a[0]) if a else 0))
        world.models["ctypes." + name] = f
    for n, code in CT.items():
        mk(n, code)

    def pack(it, a, k):
        fmt, args = a[0], list(a[1:])
        native = not (fmt and fmt[0] in "=<")
        if fmt and fmt[0] in ">!":
            raise Unsupported("big endian pack")
        segs, pos, num = [], 0, ""
        for ch in fmt.lstrip("=<@"):
            if ch.isdigit():
                num += ch
                continue
            if ch not in CSIZE:
                raise Unsupported(f"pack format {fmt}")
            for _ in range(int(num or 1)):
                n = CSIZE[ch]
                if native and pos % n:
                    segs.append(("pad", (), n - pos % n))
                    pos += n - pos % n
                if not args:
                    raise PyExc("struct.error", ("too few values",))
                segs.append(("c:" + ch, (it.force(args.pop(0)),), n))
                pos += n
            num = ""
        if args:
            raise PyExc("struct.error", ("too many values",))
        return Bytes(segs)
    world.models["struct.pack"] = pack
    world.models["numpy.ctypeslib.as_ctypes_type"] = lambda it, a, k: it.ctx.reg(Ext("ctypes.type", dtype=dtype_of(it, a[0])))
    world.kinds.update({"ctypes.type": CType, "ctypes.arrtype": CArrType, "ctypes.array": CArr})


class CType:
    def op_Mult(it, o, n):
        return it.ctx.reg(Ext("ctypes.arrtype", dtype=o.fields["dtype"], n=n))


class CArrType:
    def m___call__(it, o, *vals):
        if vals:
            raise Unsupported("ctypes array initialiser")
        return it.ctx.reg(Ext("ctypes.array", dtype=o.fields["dtype"], n=o.fields["n"], arr=None))


class CArr:
    """zero-filled ctypes array; only assignment of a whole sequence is modelled"""

    def m___setitem__(it, o, k, v):
        v = it.force(v)
        if not (isinstance(k, slice) and k == slice(None, None, None)) or not isinstance(v, NArr) or len(v.shape) != 1:
            raise Unsupported("partial ctypes array assignment")
        if not it.ctx.branch(eqv(v.shape[0], o.fields["n"])):
            raise PyExc(ValueError, ("Can only assign sequence of same size",))
        it.setfield(o, "arr", NArr(v.shape, snap(v), o.fields["dtype"]))

    def op_Add(it, o, b):
        return as_bytes(it, o).concat(as_bytes(it, b))

    def rop_Add(it, o, b):
        return as_bytes(it, b).concat(as_bytes(it, o))


def as_bytes(it, v):
    v = it.force(v)
    if isinstance(v, Ext) and v.kind == "ctypes.array":
        a, d = v.fields["arr"], v.fields["dtype"]
        if a is None:
            a = NArr((v.fields["n"],), lambda i: 0, d)
        return Bytes([("arr:" + d, a, mul(v.fields["n"], ITEMSIZE[d]))])
    if isinstance(v, Ext) and v.kind == "memoryview":
        a = v.fields["arr"]
        return Bytes([("arr:" + str(a.dtype), a, mul(arr_size(a), ITEMSIZE[a.dtype]))])
    if isinstance(v, Ext) and v.kind == "ctypes.value":
        return Bytes([("c:" + v.fields["ctype"], (v.fields["value"],), v.fields["size"])])
    if isinstance(v, (bytes, Bytes)):
        return mkbytes(v)
    raise Unsupported(f"bytes of {v!r}")


def bytes_are(b, fields):
    """b consists of exactly the typed values listed: [("Q", v), ...] (signedness of equal-size integers ignored)"""
    want = [(k, v) for k, v in fields]
    if len(b.segs) != len(want):
        return False
    r = True
    for (k, p, n), (wk, wv) in zip(b.segs, want):
        if not k.startswith("c:"):
            return False
        code = k[2:]
        if CSIZE[code] != CSIZE[wk] or (code in "fd") != (wk in "fd"):
            return False
        r = And(r, eqv(p[0], wv))
    return r


class WFile:
    """output file: position, and a hook that states what may be written at this point"""

    def m___enter__(it, o):
        return o

    def m___exit__(it, o, *a):
        WFile.m_close(it, o)

    def m_write(it, o, data):
        b = as_bytes(it, data)
        h = it.ctx.ghost.get("%hook_" + o.fields["role"])
        if h:
            h(it, o, b)
        n = b.length()
        it.setfield(o, "pos", add(o.fields["pos"], n))
        it.setfield(o, "writes", add(o.fields["writes"], 1))
        return n

    def m_tell(it, o):
        return o.fields["pos"]

    def m_close(it, o):
        h = it.ctx.ghost.get("%close_" + o.fields["role"])
        if h:
            h(it, o)
        it.setfield(o, "closed", True)

    def m_flush(it, o):
        return None


class Conn:
    """one end of a multiprocessing.Pipe or a queue; sends are logged as (channel, value)"""

    def m_send(it, o, v):
        it.list_append(it.ctx.ghost["sent"], (o.fields["idx"], v))

    def m_put(it, o, v, *a, **k):
        it.list_append(it.ctx.ghost["sent"], (o.fields["idx"], v))

    def m_close(it, o):
        return None


class Worker:
    def m_start(it, o):
        it.list_append(it.ctx.ghost["started"], o.fields["args"][3] if len(o.fields["args"]) > 3 else 0)

    def m_terminate(it, o):
        return None

    def m_join(it, o, *a):
        return None


def install_mp(world):
    M = world.models
    world.kinds.update({"fs": FS, "file": File, "conn": Conn, "worker": Worker, "object": type("O", (), {})})

    def idx(it):
        if it.generic is not None:
            return it.generic
        n = it.ctx.ghost.get("%pipes", 0)
        it.ctx.ghost["%pipes"] = n + 1
        return n

    M["multiprocessing.cpu_count"] = lambda it, a, k: it.ctx.int("cpus", lo=1)

    def pipe(it, a, k):
        i = idx(it)
        r = it.ctx.reg(Ext("conn", idx=i, end="r"))
        w = it.ctx.reg(Ext("conn", idx=i, end="w"))
        return (r, w)
    M["multiprocessing.Pipe"] = pipe
    M["multiprocessing.Queue"] = lambda it, a, k: it.ctx.reg(Ext("conn", idx=idx(it) if it.generic is not None else -1, end="q"))

    def worker(it, a, k):
        return it.ctx.reg(Ext("worker", target=k.get("target"), args=k.get("args", ())))
    M["multiprocessing.Process"] = worker
    M["threading.Thread"] = worker


class Summaries:
    """what worker g reports: free functions of g; per-type lists as long as the reported type counts"""
    KEYS = ("node_count", "edge_count", "node_type_count", "edge_type_count", "node_feature_count", "edge_feature_count")

    def __init__(self, c):
        self.f = {k: c.func("sum_" + k, "int", "int") for k in self.KEYS}
        self.id = c.func("sum_id", "int", "int")
        self.l = {"node_weight": c.func("sum_nw", "int", "int", "real"), "node_type_count": c.func("sum_ntc", "int", "int", "int"),
                  "edge_weight": c.func("sum_ew", "int", "int", "real"), "edge_type_count": c.func("sum_etc", "int", "int", "int")}

    def len(self, key, g):
        return self.f["node_type_count" if key.startswith("node") else "edge_type_count"](to_z(g))

    def make(self, it, g):
        c = it.ctx
        g = to_z(g)
        for k in self.KEYS:
            c.assume(self.f[k](g) >= 0)
        p = c.reg(VDict([("id", self.id(g))] + [(k, c.reg(VList(n=self.len(k, g), fn=lambda j, k=k: self.l[k](g, to_z(j))))) for k in self.l]))
        return c.reg(VDict([(k, self.f[k](g)) for k in self.KEYS] + [("partition", p)]))
