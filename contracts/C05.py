"""C05: feature payload encoding."""
from vc.api import *

LEVEL = "proof"
LEVEL_NOTE = (
    "Unbounded proof: feature lists of any length, arrays and coordinate lists of any size, every numeric dtype; each slot holds exactly the documented byte layout. "
    "Element values are unbounded integers/reals (the byte image of one element of a dtype is numpy's)."
)
ASSUMPTIONS = ["coordinates are int64 arrays of one or two dimensions and values are one-dimensional arrays (what the decoders produce)",
               "ndarray.tobytes, memoryviews and ctypes arrays hold the elements in row-major order in the array's dtype",
               "flat coordinates of several numbers with a single value are outside the proof (listed as known finding)"]
W = GE + "snark.converter.writers:"
DT = ["float32", "float64", "float16", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]


def setup(world):
    install_binary(world)


class F:
    """feature number j (all of the kind chosen on this path)"""

    def __init__(self, c, it):
        self.c = c
        self.kind = c.choose(5)       # absent, dense 1-D, text, sparse 1-D, sparse 2-D
        self.dt = DT[c.choose(len(DT))] if self.kind in (1, 3, 4) else None
        self.n, self.m, self.nv = c.func("n", "int", "int"), c.func("m", "int", "int"), c.func("nv", "int", "int")
        self.co = c.func("coord", "int", "int", "int", "int")
        self.va = c.func("value", "int", "int", "real" if "float" in (self.dt or "") else "int")
        self.tx = c.func("text", "int", "val")
        self.cache = {}

    def at(self, j):
        c, k, j = self.c, self.kind, to_z(j)
        self.last = j
        if k == 0:
            return None
        if k == 2:
            return SStr([("atom", Atom("str", self.tx(j)))])
        key = str(simp(j))
        if key in self.cache:
            return self.cache[key]
        c.assume(z3.And(self.n(j) >= 0, self.m(j) >= 1, self.nv(j) >= 0))
        vals = c.reg(NArr((self.nv(j),), lambda q: self.va(j, to_z(q)), self.dt))
        if k == 1:
            r = vals
        elif k == 3:
            c.assume(z3.Implies(self.nv(j) == 1, self.n(j) <= 1))
            r = (c.reg(NArr((self.n(j),), lambda q: self.co(j, to_z(q), 0), "int64")), vals)
        else:
            r = (c.reg(NArr((self.n(j), self.m(j)), lambda q, d: self.co(j, to_z(q), to_z(d)), "int64")), vals)
        self.cache[key] = r
        return r

    def mismatch(self, j):
        j = to_z(j)
        if self.kind not in (3, 4):
            return False
        return z3.And(self.n(j) > 0, self.nv(j) > 0, self.n(j) != self.nv(j))

    def check(self, j, out):
        """obligations (name, formula) for slot j"""
        c, k, j = self.c, self.kind, to_z(j)
        absent = isinstance(out, (type(None)))
        if isinstance(out, Opt):
            return [("slot is decided", False)]
        if k == 0:
            return [("an absent feature takes no bytes", absent or self.empty(out))]
        if k in (3, 4):
            none = z3.Or(self.n(j) == 0, self.nv(j) == 0)
            if absent:
                return [("only empty sparse features are dropped", none)]
        if absent:
            if k == 1:
                return [("only empty arrays may be dropped", self.nv(j) == 0)]
            return [("text is kept", False)]
        if not isinstance(out, (bytes, Bytes)):
            return [("slot holds bytes", False)]
        segs = mkbytes(out).segs
        if k == 2:
            return [("text is stored as its utf-8 bytes", len(segs) == 1 and segs[0][0] == "utf8" and isinstance(segs[0][1], Atom) and segs[0][1].expr == self.tx(j))]
        if k == 1:
            return [("dense values as they are", len(segs) == 1 and self.array(segs[0], self.at(j)))]
        co, va = self.at(j)
        res = [("only matching coordinates and values are stored", z3.Not(self.mismatch(j))),
               ("an empty sparse feature takes no bytes", z3.Not(none)),
               ("count, dimension, coordinates, values", len(segs) == 4)]
        if len(segs) == 4:
            size = self.n(j) if k == 3 else self.n(j) * self.m(j)
            res += [("number of coordinates", bytes_are(Bytes(segs[:1]), [("I", size)])),
                    ("coordinate dimension", bytes_are(Bytes(segs[1:2]), [("I", 1 if k == 3 else self.m(j))])),
                    ("coordinates", self.array(segs[2], co)), ("values", self.array(segs[3], va))]
        return res

    def empty(self, out):
        return isinstance(out, (bytes, Bytes)) and eqv(mkbytes(out).length(), 0)

    def array(self, seg, want):
        c = self.c
        kind, got, n = seg
        if kind != "arr:" + want.dtype or not isinstance(got, NArr):
            return False
        a, b = got, want
        if len(a.shape) == len(b.shape):
            ix = [c.int(f"ix{d}", lo=0) for d in range(len(a.shape))]
            return And(*[eqv(x, y) for x, y in zip(a.shape, b.shape)], Implies(And(*[lt(i, s) for i, s in zip(ix, b.shape)]), cmp("==", snap(a)(*ix), snap(b)(*ix))))
        q = c.int("q", lo=0)
        return And(eqv(arr_size(a), arr_size(b)), Implies(lt(q, arr_size(b)), cmp("==", self.flat(a, q), self.flat(b, q))))

    def flat(self, a, q):
        if len(a.shape) == 1:
            return snap(a)(q)
        if len(a.shape) != 2:
            raise Unsupported("payload of more dimensions")
        return snap(a)(*self.c.divmod(q, a.shape[1]))


@proof("one feature of any kind")
def p_one(c, it):
    f = F(c, it)
    try:
        out = it.call(it.get(W + "convert_features"), [c.reg(VList(items=[f.at(0)]))])
    except PyExc as e:
        c.oblige("only sparse features whose coordinates and values disagree are rejected", f.mismatch(0))
        return
    s = it.seq(out)
    c.oblige("one slot", eqv(s.n, 1))
    if simp(s.n) == 1:
        for n, g in f.check(0, it.force(s.fn(0))):
            c.oblige(n, g)


def inv(L):
    f = L.ghost["%f"]
    lists = [v for n, v in L.env.vars.items() if isinstance(v, VList) and v is not L.ghost["feats"]]
    if len(lists) != 1:
        raise Unsupported("result list not identified")
    o = lists[0]
    out = [("one slot per feature so far", eqv(o.length(), L.k))]
    if L.phase == "step":
        j = sub(L.k, 1)
        out += [("slot of this feature: " + n, g) for n, g in f.check(j, lget(o, sub(o.length(), 1)))]
    return out


LOOPS = [LoopSpec("features", inv, types={"L:output/contents": ("any", "payload")})]


@proof("feature lists of any length", loops=LOOPS)
def p_list(c, it):
    f = F(c, it)
    n = c.int("count", lo=0)
    feats = c.reg(VList(n=n, fn=f.at))
    c.ghost["%f"], c.ghost["feats"] = f, feats
    try:
        out = it.call(it.get(W + "convert_features"), [feats])
    except PyExc as e:
        c.oblige("only sparse features whose coordinates and values disagree are rejected", f.mismatch(f.last))
        return
    c.oblige("one slot per feature", eqv(it.seq(out).n, n))
