"""Contract of the native graph library (src/cc/lib/py_graph.h) as seen through ctypes.

A call records what each C parameter receives, obliges the argument to have the C
type of the header, fills output buffers with arbitrary values and invokes callbacks
with engine-owned buffers that are overwritten once the callback returned."""
from vc.api import *

CL = GE + "snark.client:"
ASSUMED = ["the native library follows src/cc/lib/py_graph.h: it reads inputs of the stated lengths, writes only its output buffers and owns callback buffers only during the callback",
           "ctypes passes an argument of the declared C type unchanged; data_as keeps the array alive",
           "callers pass feature matrices in row-major order",
           "types, feature indexes and feature sizes in bytes given by callers fit into 32 bits"]

SIG = {
    "GetNodeType": "graph:h nodes:*q n:Q out:*i default:i",
    "GetNodeFeature": "graph:h nodes:*q n:Q ts:?q features:*i nf:Q out:*B outn:Q",
    "GetNodeSparseFeature": "graph:h nodes:*q n:Q ts:?q features:*i nf:Q cb:f",
    "GetNodeStringFeature": "graph:h nodes:*q n:Q ts:?q features:*i nf:Q dims:*q cb:f",
    "GetEdgeFeature": "graph:h src:*q dst:*q tp:*i n:Q ts:?q features:*i nf:Q out:*B outn:Q",
    "GetEdgeSparseFeature": "graph:h src:*q dst:*q tp:*i n:Q ts:?q features:*i nf:Q cb:f",
    "GetEdgeStringFeature": "graph:h src:*q dst:*q tp:*i n:Q ts:?q features:*i nf:Q dims:*q cb:f",
    "NeighborCount": "graph:h nodes:*q n:Q ts:?q etypes:*i ne:Q out:*Q",
    "GetNeighbors": "graph:h retts:? nodes:*q n:Q ts:?q etypes:*i ne:Q out:*Q cb:f",
    "WeightedSampleNeighbor": "graph:h retts:? seed:q nodes:*q n:Q etypes:*i ne:Q ts:?q count:Q out:*q outtypes:*i outw:*f outts:?q dnode:q dweight:f dtype:i",
    "UniformSampleNeighbor": "graph:h norepl:? retts:? seed:q nodes:*q n:Q etypes:*i ne:Q ts:?q count:Q out:*q outtypes:*i outts:?q dnode:q dtype:i",
    "RandomWalk": "graph:h seed:q p:f q:f dnode:q nodes:*q n:Q ts:?q etypes:*i ne:Q count:Q out:*q",
    "PPRSampleNeighbor": "graph:h nodes:*q n:Q ts:?q etypes:*i ne:Q count:Q alpha:f eps:f dnode:q dweight:f out:*q outw:*f",
    "LastNCreatedNeighbor": "graph:h retts:? nodes:*q n:Q etypes:*i ne:Q ts:?q count:Q out:*q outtypes:*i outw:*f outts:?q dnode:q dweight:f dtype:i dts:q",
    "CreateWeightedNodeSampler": "graph:h sampler:h ne:Q etypes:*i",
    "CreateUniformNodeSampler": "graph:h sampler:h ne:Q etypes:*i",
    "CreateUniformNodeSamplerWithoutReplacement": "graph:h sampler:h ne:Q etypes:*i",
    "CreateWeightedEdgeSampler": "graph:h sampler:h ne:Q etypes:*i",
    "CreateUniformEdgeSampler": "graph:h sampler:h ne:Q etypes:*i",
    "CreateUniformEdgeSamplerWithoutReplacement": "graph:h sampler:h ne:Q etypes:*i",
    "SampleNodes": "sampler:h seed:q count:Q out:*q outtypes:*i",
    "SampleEdges": "sampler:h seed:q count:Q out:*q outdst:*q outtypes:*i",
    "ResetSampler": "sampler:h",
    "ResetGraph": "graph:h",
    "ResetServer": "server:h",
    "CreateLocalGraph": "graph:h meta:s count:Q parts:*I locs:*s storage:i config:s",
    "CreateRemoteClient": "graph:h meta:s servers:*s count:Q cert:?s threads:Q cqs:Q nargs:Q keys:*s values:*s",
    "StartServer": "server:h meta:s count:Q parts:*I locs:*s host:s key:?s cert:?s root:?s storage:i config:s skipf:? skipt:?",
    "HDFSMoveMeta": "src:s dst:s config:s",
}
SIG = {k: [tuple(x.split(":")) for x in v.split()] for k, v in SIG.items()}
OUT = {"out", "outtypes", "outw", "outts", "outdst", "dims"}
NP = {"q": "int64", "i": "int32", "Q": "uint64", "f": "float32", "B": "uint8", "I": "uint32"}


def code(t):
    """code of a ctypes type reference"""
    if isinstance(t, ExtRef) and t.path.startswith("ctypes."):
        n = t.path[7:]
        return "s" if n == "c_char_p" else CT.get(n)
    if isinstance(t, Ext) and t.kind == "ctypes.pointer":
        x = t.fields["to"]
        c = code(x)
        return "h" if c is None else "*" + c
    if isinstance(t, Ext) and t.kind == "cfunctype":
        return "f()"
    return None


class Pointer:
    def m___getitem__(it, o, i):
        return o.fields["at"](it, i)


class Ptr:
    """pointer into an array (or, with `at`, to engine data by index)"""

    def m___getitem__(it, o, i):
        if o.fields.get("at"):
            return o.fields["at"](it, i)
        a = o.fields["arr"]
        it.ctx.oblige("reads inside the engine's buffer", inrange(0, to_z(it.force(i)), a.shape[0]))
        return snap(a)(it.force(i))


class ArrCt:
    def m_data_as(it, o, t):
        a = o.fields["arr"]
        if a.base is not None:
            raise Unsupported("address of an array view")
        if a.strided:
            it.ctx.oblige("the engine gets contiguous data", False)
        return it.ctx.reg(Ext("ptr", arr=a, code=code(it.force(t))))


class Clib:
    def dyn(it, o, name):
        if name not in SIG:
            return None
        d = o.fields["funcs"]
        for k, v in d.pairs:
            if k == name:
                return v
        f = it.ctx.reg(Ext("cfunc", name=name, argtypes=None, restype=None, errcheck=None))
        d.pairs.append((name, f))
        return f


def arr_of(it, v):
    v = it.force(v)
    if isinstance(v, Ext) and v.kind == "ptr":
        return v.fields["arr"]
    if isinstance(v, Ext) and v.kind == "ctypes.array":
        return v.fields["arr"]
    return None


def val_of(it, v):
    v = it.force(v)
    if isinstance(v, Ext) and v.kind == "ctypes.value":
        return v.fields["value"]
    if isinstance(v, Inst) and "value" in v.fields:      # IntEnum
        return v.fields["value"]
    return v


class CFunc:
    def m___call__(it, o, *args):
        c, name = it.ctx, o.fields["name"]
        sig = SIG[name]
        args = [it.force(x) for x in args]
        if len(args) != len(sig):
            c.oblige(f"{name}: passes every parameter of the C function", False)
            raise PathEnd()
        at = o.fields["argtypes"]
        ats = None
        if at is not None:
            ats = [it.force(x) for x in (at.items if isinstance(at, VList) else at)]
            c.oblige(f"{name}: declares every parameter", len(ats) == len(sig))
        rec = {}
        for j, (role, ty) in enumerate(sig):
            v = args[j]
            ok, val = marshal(it, v, ty)
            if ok is None:
                raise Unsupported(f"{name} argument {role}: {v!r}")
            c.oblige(f"{name}: {role} has the type of the C parameter", ok)
            if ats is not None and j < len(ats):
                c.oblige(f"{name}: {role} is declared with the type of the C parameter", same_code(code(ats[j]), ty))
            elif ats is None and ty in ("q", "Q", "f") and is_num(v):
                c.oblige(f"{name}: {role} is not narrowed to a C int", False)
            if isinstance(val, NArr) and role not in OUT:
                val = NArr(val.shape, snap(val), val.dtype)
            rec[role] = val
        call = Call(name, rec, dict(zip([r for r, _ in sig], args)))
        call.retried = bool(c.ghost.get("%retry"))
        h = c.ghost.get("%native")
        status = 0
        if h:
            status = h(it, call)
        c.ghost["%calls"].l.append(call)
        if status is None:
            status = 0
        if simp(status) == 0:
            engine(it, call)
        ec = o.fields["errcheck"]
        if ec is not None:
            return it.call(ec, [status, o, tuple(args)])
        return status


class Call:
    def __init__(self, name, a, raw):
        self.name, self.a, self.raw = name, a, raw


class Calls:
    def __init__(self):
        self.l = []


def same_code(got, ty):
    if got is None:
        return False
    if ty == "h":
        return got == "h"
    if ty == "f":
        return got in ("f", "f()")
    if ty in ("?", "?s"):
        return got == ("?" if ty == "?" else "s")
    if ty[0] in "*?" and len(ty) == 2:
        return got == "*" + ty[1]
    return got == ty


def marshal(it, v, ty):
    """(does the argument have this C type, what the engine sees)"""
    if ty == "h":
        if isinstance(v, Ext) and v.kind == "byref":
            v = v.fields["of"]
        return isinstance(v, Inst) or None, v
    if ty == "f" and isinstance(v, Ext) and v.kind == "callback":
        return True, v
    if ty == "?s":
        return (True, None) if v is None else marshal(it, v, "s")
    if ty == "s":
        if isinstance(v, Ext) and v.kind == "cstr":
            return True, v.fields["value"]
        return (True, text(v)) if isinstance(v, (bytes, Bytes)) else (None, v)
    if ty[0] in "*?" and len(ty) == 2:
        if v is None:
            return ty[0] == "?", None
        if isinstance(v, Ext) and v.kind == "ptr":
            a = v.fields["arr"]
            cd = v.fields["code"]
            okd = ty[1] == "B" or a.dtype == NP.get(ty[1])
            return And(cd == "*" + ty[1], okd), a
        if isinstance(v, Ext) and v.kind == "ctypes.array":
            return v.fields.get("code") == ty[1], v.fields["arr"] if ty[1] != "s" else v
        return None, v
    if isinstance(v, Ext) and v.kind == "ctypes.value":
        return same_code(v.fields["ctype"], ty), val_of(it, v.fields["value"])
    if isinstance(v, Inst) and "value" in v.fields:
        return True, v.fields["value"]
    if ty == "f" and is_num(v):
        return True, v
    if is_intlike(v) or isinstance(v, bool):
        return True, v
    return None, v


def engine(it, call):
    c = it.ctx
    for role, v in list(call.a.items()):
        if role in OUT and isinstance(v, NArr):
            f = c.func("!native." + role, *(["int"] * len(v.shape)), "real" if "float" in str(v.dtype) or isinstance(v.dtype, Atom) else "int")
            fn = lambda *ix, f=f: f(*[to_z(i) for i in ix])
            it.arr_write(v, fn)
            call.a[role + ".wrote"] = fn
    if "cb" in call.a:
        c.ghost["%callback"](it, call, call.a["cb"].fields["f"])


class CFuncType:
    def m___call__(it, o, f):
        return it.ctx.reg(Ext("callback", f=f, sig=o.fields["sig"]))


class ArrType:
    star = True

    def m___call__(it, o, *vals):
        n, cd = o.fields["n"], o.fields["code"]
        if cd == "s":
            null = Atom("str", z3.Const("!null", Val))
            l = it.ctx.reg(VList(n=n, fn=lambda i: null))
            if vals:
                raise Unsupported("initialiser of a string array")
            return it.ctx.reg(Ext("ctypes.array", arr=None, code=cd, n=n, strs=l))
        d = NP.get(cd)
        if len(vals) == 1 and isinstance(vals[0], Star):
            sq = vals[0].seq
            if it.ctx.branch(gt(sq.n, n)):
                raise PyExc(IndexError, ("invalid index",))
            fn = lambda i, f=sq.fn, m=sq.n: ite(lt(i, m), f(i), 0)
        elif any(isinstance(x, Star) for x in vals):
            raise Unsupported("array initialiser")
        else:
            l = VList(items=[it.force(x) for x in vals])
            if it.ctx.branch(gt(len(vals), n)):
                raise PyExc(IndexError, ("invalid index",))
            fn = (lambda i: ite(lt(i, len(vals)), lget(l, i), 0)) if vals else (lambda i: 0)
        return it.ctx.reg(Ext("ctypes.array", arr=it.ctx.reg(NArr((n,), fn, d)), code=cd, n=n))


class CArray:
    def m___setitem__(it, o, i, v):
        i, v = it.force(i), it.force(v)
        if o.fields["code"] == "s":
            it.setitem(o.fields["strs"], i, v.fields["value"] if isinstance(v, Ext) else v)
            return
        it.arr_setitem(o.fields["arr"], i, val_of(it, v))

    def m___getitem__(it, o, i):
        return it.arr_getitem(o.fields["arr"], i)

    def m___len__(it, o):
        return o.fields["n"]


class Ctx_:
    pass


class Retry:
    """calls the function; native calls made meanwhile are under the retry policy"""

    def m___call__(it, o, f, *a, **k):
        g = it.ctx.ghost
        old, g["%retry"] = g.get("%retry"), True
        try:
            return it.call(f, list(a), k)
        finally:
            g["%retry"] = old


def cstr(it, v):
    if v is None:
        return None
    return it.ctx.reg(Ext("cstr", value=text(v)))


def text(v):
    """the string whose utf-8 bytes these are"""
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, Bytes) and len(v.segs) == 1 and v.segs[0][0] == "utf8":
        v = v.segs[0][1] if isinstance(v, Bytes) else v.parts[0][1]
    if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], tuple) and v.parts[0][0] == "atom":
        v = v.segs[0][1] if isinstance(v, Bytes) else v.parts[0][1]
    return v


def getrandbits(it, a, k):
    x = it.ctx.fresh_int("rand")
    it.ctx.assume(inrange(0, x, 2 ** int(a[0])))
    return x


def setup(world):
    models.install_binary(world)
    world.kinds.update({"ptr": Ptr, "ndarray.ctypes": ArrCt, "clib": Clib, "cfunc": CFunc, "cfunctype": CFuncType, "ctypes.arrtype2": ArrType,
                        "ctypes.array": CArray, "callback": Ctx_, "byref": Ctx_, "cstr": Ctx_, "retryer": Retry, "ctypes.pointer": Ctx_})
    M = world.models
    M["ctypes.POINTER"] = lambda it, a, k: it.ctx.reg(Ext("ctypes.pointer", to=it.force(a[0])))
    M["ctypes.CFUNCTYPE"] = lambda it, a, k: it.ctx.reg(Ext("cfunctype", sig=tuple(a)))
    M["ctypes.byref"] = lambda it, a, k: it.ctx.reg(Ext("byref", of=a[0]))
    M["ctypes.c_char_p"] = lambda it, a, k: cstr(it, it.force(a[0]) if a else None)
    M["random.getrandbits"] = getrandbits

    def mult(it, x, n):
        cd = code(x)
        if cd is None:
            return None
        n = it.force(n)
        if it.ctx.branch(lt(n, 0)):
            raise PyExc(ValueError, ("negative array length",))
        return it.ctx.reg(Ext("ctypes.arrtype2", code=cd, n=n))
    world.refops["Mult"] = mult

    def as_array(it, a, k):
        p = it.force(a[0])
        shape = a[1] if len(a) > 1 else k.get("shape")
        shape = it.force(shape)
        n = it.force(shape.items[0] if isinstance(shape, VList) else shape[0] if isinstance(shape, tuple) else shape)
        b = p.fields["arr"]
        it.ctx.oblige("reads inside the engine's buffer", And(le(0, n), le(n, b.shape[0])))
        r = NArr((n,), lambda i: snap(b)(i), b.dtype, base=(b, lambda i: (i,), lambda i: (True, (i,))))
        if b.typed is not None:
            r.typed = b.typed
            it.ctx.oblige("takes the whole byte buffer", eqv(n, b.shape[0]))
        return it.ctx.reg(r)
    M["numpy.ctypeslib.as_array"] = as_array


def ptr_to(c, arr, cd):
    return c.reg(Ext("ptr", arr=arr, code="*" + cd))


def graph(c, it, cls="MemoryGraph", **fields):
    """a graph object whose native functions have been described by the real code"""
    c.ghost["%calls"] = Calls()
    lib_ = c.reg(Ext("clib", funcs=c.reg(VDict())))
    g = it.new(CL + cls, lib=lib_, g_=it.call(it.get(CL + "_DEEP_GRAPH"), []), _retryer=c.reg(Ext("retryer")), **fields)
    it.call_method(g, "_describe_clib_functions", [])
    return g


def user_array(c, name, n, dtype="int64", **k):
    """caller's 1-d array: any memory layout"""
    a = c.iarr(name, n, dtype=dtype, **k)
    a.strided = True
    return a


def single_call(c, name):
    l = c.ghost["%calls"].l
    c.oblige(f"exactly one native call, to {name}", len(l) == 1 and l[0].name == name)
    if len(l) != 1 or l[0].name != name:
        raise PathEnd()
    return l[0]


def timestamps(c, it, n):
    """None, empty or one per item"""
    k = c.choose(3)
    if k == 0:
        return None, None
    if k == 1:
        return c.iarr("ts0", 0), None
    m = c.int("nts", lo=1)
    a = user_array(c, "ts", m)
    return a, a


def same_array(c, got, want, what, j):
    """whole 1-d contents equal (probe index j)"""
    c.oblige(f"{what}: length", got is not None and len(got.shape) == 1 and eqv(got.shape[0], want.shape[0]))
    c.oblige(f"{what}: values in order", got is not None and Implies(inrange(0, j, want.shape[0]), eqv(snap(got)(j), want.fn(j))))
