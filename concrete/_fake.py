"""A stand-in for the native library: real ctypes function pointers with the signatures of
src/cc/lib/py_graph.h that record what they receive, write known data and report a chosen status."""
import ctypes as C, json, os, random, shutil, tempfile
import numpy as np
import deepgnn.graph_engine.snark._lib as _lib

SIG = {
    "GetNodeType": "graph:h nodes:*q n:Q out:*i default:i",
    "GetNodeFeature": "graph:h nodes:*q n:Q ts:?q features:*i nf:Q out:*B outn:Q",
    "GetNodeSparseFeature": "graph:h nodes:*q n:Q ts:?q features:*i nf:Q cb:s",
    "GetNodeStringFeature": "graph:h nodes:*q n:Q ts:?q features:*i nf:Q dims:*q cb:t",
    "GetEdgeFeature": "graph:h src:*q dst:*q tp:*i n:Q ts:?q features:*i nf:Q out:*B outn:Q",
    "GetEdgeSparseFeature": "graph:h src:*q dst:*q tp:*i n:Q ts:?q features:*i nf:Q cb:s",
    "GetEdgeStringFeature": "graph:h src:*q dst:*q tp:*i n:Q ts:?q features:*i nf:Q dims:*q cb:t",
    "NeighborCount": "graph:h nodes:*q n:Q ts:?q etypes:*i ne:Q out:*Q",
    "GetNeighbors": "graph:h retts:b nodes:*q n:Q ts:?q etypes:*i ne:Q out:*Q cb:n",
    "WeightedSampleNeighbor": "graph:h retts:b seed:q nodes:*q n:Q etypes:*i ne:Q ts:?q count:Q out:*q outtypes:*i outw:*f outts:?q dnode:q dweight:f dtype:i",
    "UniformSampleNeighbor": "graph:h norepl:b retts:b seed:q nodes:*q n:Q etypes:*i ne:Q ts:?q count:Q out:*q outtypes:*i outts:?q dnode:q dtype:i",
    "RandomWalk": "graph:h seed:q p:f q:f dnode:q nodes:*q n:Q ts:?q etypes:*i ne:Q count:Q out:*q",
    "PPRSampleNeighbor": "graph:h nodes:*q n:Q ts:?q etypes:*i ne:Q count:Q alpha:f eps:f dnode:q dweight:f out:*q outw:*f",
    "LastNCreatedNeighbor": "graph:h retts:b nodes:*q n:Q etypes:*i ne:Q ts:?q count:Q out:*q outtypes:*i outw:*f outts:?q dnode:q dweight:f dtype:i dts:q",
    "CreateWeightedNodeSampler": "graph:h sampler:h ne:Q etypes:*i",
    "CreateUniformNodeSampler": "graph:h sampler:h ne:Q etypes:*i",
    "CreateUniformNodeSamplerWithoutReplacement": "graph:h sampler:h ne:Q etypes:*i",
    "CreateWeightedEdgeSampler": "graph:h sampler:h ne:Q etypes:*i",
    "CreateUniformEdgeSampler": "graph:h sampler:h ne:Q etypes:*i",
    "CreateUniformEdgeSamplerWithoutReplacement": "graph:h sampler:h ne:Q etypes:*i",
    "SampleNodes": "sampler:h seed:q count:Q out:*q outtypes:*i",
    "SampleEdges": "sampler:h seed:q count:Q out:*q outdst:*q outtypes:*i",
    "ResetSampler": "sampler:h",
    "ResetGraph": "graph:h",
    "ResetServer": "server:h",
    "CreateLocalGraph": "graph:h meta:z count:Q parts:*I locs:*z storage:i config:z",
    "CreateRemoteClient": "graph:h meta:z servers:*z count:Q cert:z threads:Q cqs:Q nargs:Q keys:*z values:*z",
    "StartServer": "server:h meta:z count:Q parts:*I locs:*z host:z key:z cert:z root:z storage:i config:z skipf:b skipt:b",
    "HDFSMoveMeta": "src:z dst:z config:z",
}
SIG = {k: [tuple(x.split(":")) for x in v.split()] for k, v in SIG.items()}
P = C.POINTER
CBS = {"s": C.CFUNCTYPE(None, P(P(C.c_int64)), P(C.c_size_t), P(P(C.c_uint8)), P(C.c_size_t), P(C.c_int64)),
       "t": C.CFUNCTYPE(None, C.c_size_t, P(C.c_uint8)),
       "n": C.CFUNCTYPE(None, P(C.c_int64), P(C.c_float), P(C.c_int32), P(C.c_int64), C.c_size_t)}
NP = {"q": np.int64, "i": np.int32, "Q": np.uint64, "f": np.float32, "B": np.uint8, "I": np.uint32}
ABI = {"q": C.c_int64, "Q": C.c_size_t, "i": C.c_int32, "f": C.c_float, "b": C.c_bool, "I": C.c_uint32, "z": C.c_char_p}
LEN = {"nodes": "n", "src": "n", "dst": "n", "tp": "n", "ts": "n", "features": "nf", "etypes": "ne", "parts": "count", "locs": "count", "servers": "count", "keys": "nargs", "values": "nargs"}


class Problem(Exception):
    pass


def mem(addr, ty, n):
    if n == 0:
        return np.empty(0, dtype=ty)
    return np.ctypeslib.as_array(C.cast(addr, P(C.c_uint8)), [n * np.dtype(ty).itemsize]).view(ty)


class Lib:
    """engine state: what was called, with which values, and what it answered"""

    def __init__(self):
        self.reset()
        self.fns = {}

    def reset(self, seed=0):
        self.calls, self.problems, self.status = [], [], {}
        self.rng = random.Random(seed)
        self.sparse = self.text = self.neigh = None
        self.meta = None
        self.before = None

    def __getattr__(self, name):
        if name not in SIG:
            raise AttributeError(name)
        if name not in self.fns:
            self.fns[name] = Fn(self, name)
        return self.fns[name]


class Fn:
    def __init__(self, lib, name):
        d = self.__dict__
        sig = SIG[name]
        d["lib"], d["name"] = lib, name
        types = [C.c_void_p if t[0] in "*?h" else C.c_void_p if t in CBS else ABI[t] for _, t in sig]
        d["raw"] = C.CFUNCTYPE(C.c_int32, *types)(lambda *a: self.impl(*a))
        d["fp"] = lib_ptr(C.cast(self.raw, C.c_void_p).value)

    def __getattr__(self, k):
        return getattr(self.fp, k)

    def __setattr__(self, k, v):
        setattr(self.fp, k, v)

    def sizes(self, vals):
        """elements each output buffer must hold"""
        n, c = vals.get("n", 0), vals.get("count", 0)
        nm = self.name
        if nm in ("SampleNodes", "SampleEdges"):
            return {k: c for k in ("out", "outdst", "outtypes")}
        if nm in ("GetNodeType", "NeighborCount", "GetNeighbors"):
            return {"out": n}
        if "StringFeature" in nm:
            return {"dims": n * vals["nf"]}
        if nm in ("GetNodeFeature", "GetEdgeFeature"):
            return {"out": vals["outn"]}
        if nm == "RandomWalk":
            return {"out": n * (c + 1)}
        return {k: n * c for k in ("out", "outtypes", "outw", "outts")}

    def __call__(self, *args):
        lib = self.lib
        sig = SIG[self.name]
        if len(args) != len(sig):
            raise TypeError(f"{self.name} takes {len(sig)} arguments")
        vals = {r: getattr(a, "value", a) for (r, t), a in zip(sig, args) if t in "qQifb"}
        need = self.sizes(vals)
        for (r, t), a in zip(sig, args):
            if t[0] not in "*?" or len(t) != 2 or a is None:
                continue
            arr = getattr(a, "_arr", None)
            have = arr.nbytes if arr is not None else C.sizeof(a) if isinstance(a, C.Array) else None
            if arr is not None and not arr.flags["C_CONTIGUOUS"]:
                lib.problems.append(f"{self.name}: {r} is not contiguous")
                return 0
            if r in need:
                want = need[r] * (np.dtype(NP[t[1]]).itemsize)
            elif r in LEN:
                k = vals[LEN[r]] * (2 if r == "features" and self.name in ("GetNodeFeature", "GetEdgeFeature") else 1)
                want = k * (8 if t[1] == "z" else np.dtype(NP[t[1]]).itemsize)
            else:
                continue
            if have is not None and have < want:
                lib.problems.append(f"{self.name}: buffer for {r} holds {have} bytes, the engine needs {want}")
                return 0
        return self.fp(*args)

    def impl(self, *a):
        lib, name = self.lib, self.name
        try:
            sig = SIG[name]
            v = dict(zip([r for r, _ in sig], a))
            need = self.sizes(v)
            rec, outs = {"!name": name}, {}
            for r, t in sig:
                x = v[r]
                if t in ("h",):
                    rec[r] = x
                elif t in CBS:
                    rec[r] = CBS[t](x)
                elif t[0] in "*?" and len(t) == 2:
                    if r in need:
                        rec[r] = None if x is None else "buffer"
                        if x is not None:
                            outs[r] = (x, NP[t[1]], need[r])
                    elif x is None:
                        rec[r] = None if t[0] == "?" or v[LEN[r]] == 0 else "null"
                        if rec[r] is None and t[0] == "*":
                            rec[r] = []
                    else:
                        k = v[LEN[r]] * (2 if r == "features" and name in ("GetNodeFeature", "GetEdgeFeature") else 1)
                        if t[1] == "z":
                            rec[r] = [s if s is None else s.decode() for s in C.cast(x, P(C.c_char_p))[:k]]
                        else:
                            rec[r] = mem(x, NP[t[1]], k).tolist()
                else:
                    rec[r] = x.decode() if isinstance(x, bytes) else x
            lib.calls.append(rec)
            st = lib.status.get(name, 0)
            if callable(st):
                st = st(rec)
            if st:
                return st
            if name == "CreateRemoteClient" and lib.meta is not None:
                json.dump(lib.meta, open(os.path.join(rec["meta"], "meta.json"), "w"))
            wrote = {}
            for r, (x, ty, k) in outs.items():
                m = mem(x, ty, k)
                if ty is np.uint8:
                    m[:] = [lib.rng.randrange(256) for _ in range(k)]
                elif ty is np.float32:
                    m[:] = [lib.rng.randrange(1000) / 8 for _ in range(k)]
                else:
                    m[:] = [lib.rng.randrange(1, 10 ** 6) for _ in range(k)]
                wrote[r] = m.copy()
            rec["wrote"] = wrote
            if "cb" in rec:
                self.callback(rec, dict(sig)["cb"], outs)
            return 0
        except BaseException as e:          # ctypes would swallow it
            lib.problems.append(f"stand-in failed: {e!r}")
            return 0

    def callback(self, rec, kind, outs):
        lib = self.lib
        if kind == "n":
            nodes, weights, types, ts = lib.neigh
            bufs = [np.array(nodes, np.int64), np.array(weights, np.float32), np.array(types, np.int32), np.array(ts, np.int64)]
            ptr = [b.ctypes.data_as(P(t)) for b, t in zip(bufs, (C.c_int64, C.c_float, C.c_int32, C.c_int64))]
            if not rec["retts"]:
                ptr[3] = P(C.c_int64)()
            rec["cb"](*ptr, len(nodes))
        elif kind == "t":
            data, lens = lib.text
            bufs = [np.frombuffer(data, dtype=np.uint8).copy()]
            m = mem(*outs["dims"])
            m[:] = lens
            rec["wrote"]["dims"] = m.copy()
            rec["cb"](len(data), bufs[0].ctypes.data_as(P(C.c_uint8)))
        else:
            ind, val, dims = lib.sparse
            bi = [np.array(x, np.int64).ravel() for x in ind]
            bv = [np.frombuffer(x, dtype=np.uint8).copy() for x in val]
            n = len(bi)
            pi = (P(C.c_int64) * max(n, 1))(*[b.ctypes.data_as(P(C.c_int64)) for b in bi])
            pv = (P(C.c_uint8) * max(n, 1))(*[b.ctypes.data_as(P(C.c_uint8)) for b in bv])
            li = (C.c_size_t * max(n, 1))(*[b.size for b in bi])
            lv = (C.c_size_t * max(n, 1))(*[b.size for b in bv])
            dm = np.array(dims, np.int64)
            bufs = bi + bv + [dm]
            rec["cb"](C.cast(pi, P(P(C.c_int64))), C.cast(li, P(C.c_size_t)), C.cast(pv, P(P(C.c_uint8))), C.cast(lv, P(C.c_size_t)), dm.ctypes.data_as(P(C.c_int64)))
        for b in bufs:
            b.view(np.uint8)[:] = 0x55      # the engine reuses its memory
        lib.keep = bufs
        del rec["cb"]


lib_ptr = C.CDLL(None)._FuncPtr
LIB = Lib()
_lib.CDLL = lambda *a, **k: LIB
for _f in list(vars(_lib).values()):
    if hasattr(_f, "cache_clear"):
        _f.cache_clear()
import deepgnn.graph_engine.snark.client as client


def meta(nodes=(3, 0, 2), edges=(4, 1), watermark=-1, nf=5, ef=4, parts=1):
    p = {str(i): {"node_weight": [1.0] * len(nodes), "edge_weight": [1.0] * len(edges)} for i in range(parts)}
    return {"binary_data_version": "v2", "node_count": sum(nodes), "edge_count": sum(edges), "node_type_count": len(nodes), "edge_type_count": len(edges),
            "node_feature_count": nf, "edge_feature_count": ef, "partitions": p, "node_count_per_type": list(nodes), "edge_count_per_type": list(edges), "watermark": watermark}


DIR = None


def folder(m):
    global DIR
    if DIR is None:
        DIR = tempfile.mkdtemp()
    json.dump(m, open(os.path.join(DIR, "meta.json"), "w"))
    return DIR


def cleanup():
    if DIR is not None:
        shutil.rmtree(DIR, ignore_errors=True)


def memory_graph(**k):
    return client.MemoryGraph(folder(meta(**k)))


def view(rng, vals, dtype):
    """an array with these values and some memory layout, or a list"""
    a = np.array(vals, dtype=dtype)
    k = rng.randrange(4)
    if k == 1:
        b = np.zeros(2 * len(vals) + 1, dtype=dtype)
        b[::2][:len(vals)] = a
        return b[::2][:len(vals)]
    if k == 2:
        b = np.zeros((len(vals), 3), dtype=dtype)
        b[:, 1] = a
        return b[:, 1]
    return a


def types_view(rng, vals):
    """type lists may have any shape"""
    a = view(rng, vals, np.int32)
    return a.reshape(2, -1) if len(vals) > 1 and len(vals) % 2 == 0 and rng.random() < .3 else a
