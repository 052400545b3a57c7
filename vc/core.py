"""Symbolic values, path exploration and obligation discharge.

A *path execution* (Ctx) interprets the real function bodies once.  Decisions
(branches on symbolic conditions) are recorded; the explorer re-executes the
target from scratch for every decision prefix, so the heap can be ordinary
mutable Python objects.
"""
import os
import time
import z3
from fractions import Fraction

z3.set_param("smt.random_seed", 7)


class Unsupported(Exception):
    """The construct is outside the verifier's reach: no verdict from proof."""


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, cls, args=(), inst=None):
        super().__init__(str(cls))
        self.cls = cls  # builtin exception class or VClass
        self.eargs = args
        self.inst = inst

    def name(self):
        return self.cls.__name__ if isinstance(self.cls, type) else self.cls.name


class PathEnd(Exception):
    """Path is over (infeasible or loop body finished)."""


class Rerun(Exception):
    """Loop frame grew; path must be re-executed with a larger havoc set."""


# ---------------------------------------------------------------- values
class Obj:
    """Base of heap objects; oid is the creation number inside one path."""
    oid = None


class Quot:
    """Exact quotient of two integers (kept exact for ceil/floor)."""

    def __init__(self, n, d):
        self.n, self.d = n, d

    def real(self):
        return to_real(self.n) / to_real(self.d)


class Opt:
    """Optional value: None iff isnone."""

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val


class SStr:
    """String template: literals and holes."""

    def __init__(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, str) and ps and isinstance(ps[-1], str):
                ps[-1] += p
            elif isinstance(p, str) and p == "":
                continue
            else:
                ps.append(p)
        self.parts = tuple(ps)

    def key(self):
        return tuple(p if isinstance(p, str) else ("hole",) + tuple(
            (q.sexpr() if isinstance(q, z3.ExprRef) else q) for q in (p if isinstance(p, tuple) else (p,))) for p in self.parts)

    def __repr__(self):
        return "SStr" + repr(self.key())


class Atom:
    """Opaque immutable value with a z3 identity (sort Val) and a python kind."""

    def __init__(self, kind, expr, attrs=None):
        self.kind, self.expr, self.attrs = kind, expr, attrs or {}

    def __repr__(self):
        return f"<{self.kind} {self.expr}>"


Val = z3.DeclareSort("Val")


class Tok:
    """A typed token (record) value: constructor name + fields. Compared structurally."""

    def __init__(self, kind, *fields, **kw):
        self.kind, self.fields = kind, tuple(fields)
        self.kw = kw

    def __repr__(self):
        return f"{self.kind}{self.fields}"


class VList(Obj):
    """Python list. Either concrete spine (items) or symbolic (n, fn)."""

    def __init__(self, items=None, n=None, fn=None, etype=None):
        self.items = items
        self.n = n
        self.fn = fn
        self.etype = etype
        self.parent = None

    @property
    def sym(self):
        return self.items is None

    def length(self):
        return len(self.items) if self.items is not None else self.n


class VDict(Obj):
    """dict with concrete-identity keys (list of (key, value)); insertion ordered."""

    def __init__(self, pairs=()):
        self.pairs = list(pairs)
        self.default = None  # callable for symbolic default content


class SMap(Obj):
    """dict from symbolic int keys: has(k)->Bool, get(k)->value."""

    enum = None         # Seq of the keys, all different when `distinct`
    distinct = False

    def __init__(self, has, get, n=None):
        self.has, self.get, self.n = has, get, n


class VSet(Obj):
    """set: concrete list of distinct items or symbolic via has(x)."""

    def __init__(self, items=None, has=None, enum=None):
        self.items, self.has, self.enum = items, has, enum
        self.n = None       # number of elements, when tracked


class Inst(Obj):
    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}

    def __repr__(self):
        return f"<Inst {getattr(self.cls,'name',self.cls)}>"


class Ext(Obj):
    """External object with a model: kind selects the model class in vc.models."""

    def __init__(*a, **f):
        self, kind = a
        self.kind = kind
        self.fields = f

    def __repr__(self):
        return f"<Ext {self.kind}>"


class NArr(Obj):
    """numpy array. shape: tuple of int/z3 Int; fn(*idx)->scalar; dtype: string."""

    def __init__(self, shape, fn, dtype="int64", base=None):
        self.shape, self.fn, self.dtype = tuple(shape), fn, dtype
        self.base = base  # (array, index-map) when this is a view
        self.typed = None     # for byte buffers: the array they hold
        self.merged = False   # one of several arrays: may be read, not written
        self.strided = False  # memory layout not known to be contiguous

    @property
    def ndim(self):
        return len(self.shape)


class Seq:
    """Normalised iterable: length + element function."""

    def __init__(self, n, fn, src=None):
        self.n, self.fn, self.src = n, fn, src


class Poison:
    def __init__(self, why):
        self.why = why


# ---------------------------------------------------------------- helpers
def isz(v):
    return isinstance(v, z3.ExprRef)


def is_sym(v):
    return isinstance(v, (z3.ExprRef, Quot))


def is_intlike(v):
    return (isinstance(v, int)) or (isz(v) and (z3.is_int(v) or z3.is_bool(v)))


def is_num(v):
    return isinstance(v, (int, float, Fraction, Quot)) or (isz(v) and (z3.is_arith(v) or z3.is_bool(v)))


def is_realv(v):
    return isinstance(v, (float, Fraction, Quot)) or (isz(v) and z3.is_real(v))


# positive infinity inside a merged value; a contract that meets it states which values are finite (c.finite)
INF = z3.Real("!inf")


def to_z(v):
    """python scalar -> z3"""
    if isz(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, float):
        if v == float("inf"):
            return INF
        if v == float("-inf") or v != v:
            raise Unsupported("non-finite float in arithmetic")
        return z3.RealVal(str(Fraction(v)))
    if isinstance(v, Quot):
        return v.real()
    if isinstance(v, Atom):
        return v.expr
    raise Unsupported(f"no z3 form for {v!r}")


def to_int(v):
    v = to_z(v)
    if z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def to_real(v):
    v = to_int(v)
    if z3.is_int(v):
        return z3.ToReal(v)
    return v


def simp(v):
    """simplify; turn literals into python values"""
    if not isz(v):
        return v
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    s = z3.simplify(v)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return v


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    if len(a) == 1:
        return a[0]
    return z3.And(*[to_z(x) for x in a])


def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    if len(a) == 1:
        return a[0]
    return z3.Or(*[to_z(x) for x in a])


def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def has_quant(f, _memo={}):
    seen = set()
    work = [f]
    while work:
        e = work.pop()
        if z3.is_quantifier(e):
            return True
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        work.extend(e.children())
    return False


def ForAll(names, body, lo=None):
    """ForAll over fresh ints: ForAll(1, lambda i: ...) or ForAll('ij', f)"""
    k = names if isinstance(names, int) else len(names)
    vs = [z3.Int(f"!q{ForAll.c + i}") for i in range(k)]
    ForAll.c += k
    b = body(*vs)
    if isinstance(b, bool):
        return b
    return z3.ForAll(vs, b)


ForAll.c = 0


def Exists(names, body):
    k = names if isinstance(names, int) else len(names)
    vs = [z3.Int(f"!q{ForAll.c + i}") for i in range(k)]
    ForAll.c += k
    b = body(*vs)
    if isinstance(b, bool):
        return b
    return z3.Exists(vs, b)


def add(a, b):
    return arith("+", a, b)


def sub(a, b):
    return arith("-", a, b)


def mul(a, b):
    return arith("*", a, b)


def arith(op, a, b):
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, float) and isinstance(b, Fraction) and a == a and abs(a) != float("inf"):
            a = Fraction(a)
        if isinstance(b, float) and isinstance(a, Fraction) and b == b and abs(b) != float("inf"):
            b = Fraction(b)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
    if is_realv(a) or is_realv(b):
        x, y = to_real(a), to_real(b)
    else:
        x, y = to_int(a), to_int(b)
    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]()
    return simp(r) if (z3.is_int_value(x) or z3.is_int_value(y) or z3.is_rational_value(x) or z3.is_rational_value(y)) else r


def cmp(op, a, b):
    """numeric comparison -> python bool or z3 Bool"""
    if not is_sym(a) and not is_sym(b):
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
                "==": lambda: a == b, "!=": lambda: a != b}[op]()
    for x, y, flip in ((a, b, False), (b, a, True)):
        if isinstance(y, float) and abs(y) == float("inf"):
            pos = y > 0
            o = op
            if flip:
                o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[o]
    if isz(a) and isz(b) and z3.is_bool(a) and z3.is_bool(b) and op in ("==", "!="):
        return (a == b) if op == "==" else z3.Not(a == b)
    if is_realv(a) or is_realv(b):
        x, y = to_real(a), to_real(b)
    else:
        x, y = to_int(a), to_int(b)
    r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
         "==": lambda: x == y, "!=": lambda: x != y}[op]()
    return simp(r)


def lt(a, b): return cmp("<", a, b)
def le(a, b): return cmp("<=", a, b)
def gt(a, b): return cmp(">", a, b)
def ge(a, b): return cmp(">=", a, b)


def inrange(lo, x, hi):
    return And(le(lo, x), lt(x, hi))


def key_of(v):
    """hashable identity of a concrete-ish value, or None"""
    if isinstance(v, (int, float, str, bytes, bool, type(None), Fraction)):
        return ("c", v)
    if isinstance(v, tuple):
        ks = tuple(key_of(x) for x in v)
        return None if None in ks else ("t", ks)
    if isinstance(v, SStr):
        return ("s", v.key())
    return None


def hole_eq(x, y):
    if x[0] == "ndstr":     # numpy leaves out the middle of large arrays
        size = 1
        for d in x[1].shape:
            size = mul(size, d)
        return Or(eqv(x[1], y[1]), And(cmp(">", size, 1000), z3.FreshBool("elided")))
    return eqv(x[1], y[1])


def eqv(a, b):
    """structural equality -> python bool or z3 Bool (spec-level and program-level ==)"""
    if a is b:
        return True
    if isinstance(a, Opt) or isinstance(b, Opt):
        if not isinstance(a, Opt):
            a, b = b, a
        if isinstance(b, Opt):
            return Or(And(a.isnone, b.isnone), And(Not(a.isnone), Not(b.isnone), eqv(a.val, b.val)))
        if b is None:
            return a.isnone
        return And(Not(a.isnone), eqv(a.val, b))
    if a is None or b is None:
        return False
    if is_num(a) and is_num(b):
        return cmp("==", a, b)
    if isinstance(a, Atom) and a.kind == "str" and isinstance(b, (str, SStr)):
        a = SStr([("atom", a)])
    elif isinstance(b, Atom) and b.kind == "str" and isinstance(a, (str, SStr)):
        b = SStr([("atom", b)])
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        ka = SStr([a]).key() if isinstance(a, str) else a.key()
        kb = SStr([b]).key() if isinstance(b, str) else b.key()
        if ka == kb:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return False
        pa = SStr([a]).parts if isinstance(a, str) else a.parts
        pb = SStr([b]).parts if isinstance(b, str) else b.parts
        while pa and pb and isinstance(pa[0], tuple) and SStr(pa[:1]).key() == SStr(pb[:1]).key():
            pa, pb = pa[1:], pb[1:]     # the same unknown text in front of both
        if len(pa) == len(pb) and all(
                (isinstance(x, str) and x == y) or (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and not isinstance(x[1], str) and not isinstance(y[1], str))
                for x, y in zip(pa, pb)):
            fs = [hole_eq(x, y) for x, y in zip(pa, pb) if isinstance(x, tuple)]
            if sum(isinstance(x, tuple) for x in pa) == 1:
                return And(*fs)
            # decimal numbers kept apart by literals that do not start with a digit: equal iff all numbers are
            if all(x[0] == "int" for x in pa if isinstance(x, tuple)) and all(
                    isinstance(pa[i + 1], str) and not pa[i + 1][0].isdigit() for i in range(len(pa) - 1) if isinstance(pa[i], tuple)):
                return And(*fs)
        sa = "".join(p for p in pa if isinstance(p, str))
        sb = "".join(p for p in pb if isinstance(p, str))
        if isinstance(a, str) and len(sb) > len(a) or isinstance(b, str) and len(sa) > len(b):
            return False
        i = 0
        while i < min(len(pa), len(pb)) and (pa[i] == pb[i] if isinstance(pa[i], str) or isinstance(pb[i], str) else False):
            i += 1
        if i < min(len(pa), len(pb)):
            x, y = pa[i], pb[i]
            if isinstance(y, str) and not isinstance(x, str):
                x, y = y, x
            if isinstance(x, str) and isinstance(y, str) and (x.startswith(y) or y.startswith(x)):
                # one literal continues where the other has a number
                rest, other = (x[len(y):], pb[i + 1:] if pa[i] is x else pa[i + 1:]) if len(x) > len(y) else (y[len(x):], pa[i + 1:] if pa[i] is x else pb[i + 1:])
                if rest and other and isinstance(other[0], tuple) and other[0][0] == "int" and not (rest[0].isdigit() or rest[0] == "-"):
                    return False
        if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str) and not pa[-1].endswith(pb[-1]) and not pb[-1].endswith(pa[-1]):
            return False
        if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str) and not pa[0].startswith(pb[0]) and not pb[0].startswith(pa[0]):
            return False
        for x, y in ((pa, b), (pb, a)):
            if isinstance(y, str) and len(x) == 1 and isinstance(x[0], tuple) and isinstance(x[0][1], Atom):
                return val_eq(x[0][1].expr, text(y))
        raise Unsupported(f"string comparison {a!r} {b!r}")
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[eqv(x, y) for x, y in zip(a, b)])
    if isinstance(a, Tok) and isinstance(b, Tok):
        if a.kind != b.kind or len(a.fields) != len(b.fields):
            return False
        return And(*[eqv(x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, Atom) and isinstance(b, Atom):
        if a.expr.sort() != b.expr.sort():
            return False
        return val_eq(a.expr, b.expr)
    if isinstance(a, VList) and isinstance(b, VList):
        if not a.sym and not b.sym:
            if len(a.items) != len(b.items):
                return False
            return And(*[eqv(x, y) for x, y in zip(a.items, b.items)])
        return And(cmp("==", a.length(), b.length()),
                   ForAll(1, lambda i: Implies(inrange(0, i, a.length()), eqv(lget(a, i), lget(b, i)))))
    if isinstance(a, NArr) and isinstance(b, NArr):
        if len(a.shape) != len(b.shape):
            return False
        d = len(a.shape)
        return And(*[cmp("==", x, y) for x, y in zip(a.shape, b.shape)],
                   ForAll(d, lambda *ix: Implies(And(*[inrange(0, i, s) for i, s in zip(ix, a.shape)]),
                                                 eqv(a.fn(*ix), b.fn(*ix)))))
    if isinstance(a, (str, bytes, bool, int, float)) and isinstance(b, (str, bytes, bool, int, float)):
        return a == b
    if isinstance(a, (Atom, Tok)) != isinstance(b, (Atom, Tok)):
        x, y = (a, b) if isinstance(a, (Atom, Tok)) else (b, a)
        if isinstance(x, Tok):
            return False
        if x.kind == "any":
            raise Unsupported(f"comparison of unknown value with {y!r}")
        return False
    if type(a) != type(b):
        return False
    if isinstance(a, (Inst, Ext)):
        return a is b
    if isinstance(a, VDict):
        da, db = {key_of(k): v for k, v in a.pairs}, {key_of(k): v for k, v in b.pairs}
        if None in da or None in db or set(da) != set(db):
            return False
        return And(*[eqv(da[k], db[k]) for k in da])
    raise Unsupported(f"equality of {a!r} and {b!r}")


def snap(a):
    """closure over the current contents"""
    if a.base is not None:
        b, mp = a.base[0], a.base[1]
        f = snap(b)
        return lambda *ix: f(*mp(*ix))
    return a.fn


def text(s):
    return z3.Const("text:" + s, Val)


text_key = z3.Function("text_key", Val, z3.IntSort())     # number of an unknown string as a map key; injectivity is assumed where it is used


def as_text(v):
    """opaque value of a string: a literal or an unknown string"""
    if isinstance(v, str):
        return text(v)
    if isinstance(v, SStr) and len(v.parts) == 1 and v.parts[0][0] == "atom":
        v = v.parts[0][1]
    return v.expr if isinstance(v, Atom) and v.kind == "str" else None


def val_eq(x, y):
    """equality of opaque values; distinct literals differ"""
    lit = lambda e: e.decl().name() if z3.is_const(e) and e.decl().name().startswith("text:") else None
    if lit(x) and lit(y):
        return lit(x) == lit(y)
    for u, v in ((x, y), (y, x)):
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE and "text:" in u.sexpr():
            g, p, q = u.children()
            return Or(And(g, val_eq(p, v)), And(Not(g), val_eq(q, v)))
    return simp(x == y)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, Opt) or isinstance(b, Opt) or (a is None) != (b is None):
        an = a.isnone if isinstance(a, Opt) else (a is None)
        bn = b.isnone if isinstance(b, Opt) else (b is None)
        av = a.val if isinstance(a, Opt) else a
        bv = b.val if isinstance(b, Opt) else b
        if av is None:
            av = bv
        if bv is None:
            bv = av
        return Opt(simp(z3.If(c, to_z(an), to_z(bn))), ite(c, av, bv))
    if a is None and b is None:
        return None
    if is_num(a) and is_num(b):
        if not is_sym(a) and not is_sym(b) and a == b and type(a) == type(b):
            return a
        if is_realv(a) or is_realv(b):
            return z3.If(c, to_real(a), to_real(b))
        za, zb = to_z(a), to_z(b)
        if z3.is_bool(za) and z3.is_bool(zb):
            return z3.If(c, za, zb)
        return z3.If(c, to_int(a), to_int(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Tok) and isinstance(b, Tok) and a.kind == b.kind and len(a.fields) == len(b.fields):
        return Tok(a.kind, *[ite(c, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, Atom) and isinstance(b, Atom) and a.expr.sort() == b.expr.sort():
        return Atom(a.kind if a.kind == b.kind else "any", z3.If(c, a.expr, b.expr), a.attrs)
    if isinstance(a, VList) and isinstance(b, VList) and a.items is not None and b.items is not None and len(a.items) == len(b.items):
        return VList(items=[ite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, NArr) and isinstance(b, NArr) and len(a.shape) == len(b.shape) and a.dtype == b.dtype:
        fa, fb = snap(a), snap(b)
        r = NArr([ite(c, x, y) for x, y in zip(a.shape, b.shape)], lambda *ix: ite(c, fa(*ix), fb(*ix)), a.dtype)
        r.merged = True
        return r
    if isinstance(a, VList) and isinstance(b, VList):
        return VList(n=ite(c, a.length(), b.length()), fn=lambda i: ite(c, lget(a, i), lget(b, i)))
    if isinstance(a, VDict) and isinstance(b, VDict) and [k for k, _ in a.pairs] == [k for k, _ in b.pairs]:
        return VDict([(k, ite(c, x, y)) for (k, x), (_, y) in zip(a.pairs, b.pairs)])
    if isinstance(a, (str, bytes)) and a == b:
        return a
    if isinstance(a, SStr) and isinstance(b, SStr) and a.key() == b.key():
        return a
    ta, tb = as_text(a), as_text(b)
    if ta is not None and tb is not None:
        return Atom("str", z3.If(c, ta, tb))
    raise Unsupported(f"merge of {a!r} and {b!r}")


def lget(l, i):
    """spec-level list access (no bounds check); i may be symbolic"""
    i = simp(i)
    if isinstance(l, Seq):
        return l.fn(i)
    if l.items is not None:
        if isinstance(i, int):
            if 0 <= i < len(l.items):
                return l.items[i]
            if l.items:
                return l.items[-1]
            return Poison("empty list element")
        if not l.items:
            return Poison("empty list element")
        r = l.items[-1]
        for j in range(len(l.items) - 2, -1, -1):
            r = ite(i == j, l.items[j], r)
        return r
    return l.fn(i)


# ---------------------------------------------------------------- context
class Obligation:
    __slots__ = ("name", "status", "backend", "time", "detail", "model", "kind", "stable")

    def __init__(self, name, status, backend, t, detail=None, model=None, kind="post"):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.detail, self.model, self.kind = detail, model, kind


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by_backend = {}


STATS = Stats()


def _z3check(solver, timeout_ms):
    solver.set("timeout", timeout_ms)
    t = time.time()
    r = solver.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    return r


def _cvc5check(assertions, timeout_ms):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*assertions)
        text = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms))
        slv.setLogic("ALL")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "vc")
        sm = parser.getSymbolManager()
        t = time.time()
        res = None
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if "unsat" in str(out):
                res = "unsat"
            elif str(out).strip() == "sat":
                res = "sat"
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        return res
    except Exception:
        return None


_LEMMA = {}


def div_lemma(a1, q1, r1, a2, q2, r2, b):
    """facts about two divisions by the same b > 0; each is proved once per run before it is used"""
    def parts(a1, q1, r1, a2, q2, r2, b):
        return [z3.Implies(a1 <= a2, q1 <= q2), z3.Implies(a2 <= a1, q2 <= q1),
                z3.Implies(q1 == q2, a1 - a2 == r1 - r2),
                z3.Implies(q1 == q2 + 1, a1 - a2 == b + r1 - r2), z3.Implies(q2 == q1 + 1, a2 - a1 == b + r2 - r1),
                z3.Implies(z3.And(a1 - a2 < b, a1 >= a2), q1 <= q2 + 1), z3.Implies(z3.And(a2 - a1 < b, a2 >= a1), q2 <= q1 + 1),
                z3.Implies(z3.And(a1 == a2 + 1, r2 + 1 < b), q1 == q2), z3.Implies(z3.And(a1 == a2 + 1, r2 + 1 == b), q1 == q2 + 1),
                z3.Implies(z3.And(a2 == a1 + 1, r1 + 1 < b), q1 == q2), z3.Implies(z3.And(a2 == a1 + 1, r1 + 1 == b), q2 == q1 + 1)]
    if "div" not in _LEMMA:
        v = z3.Ints("!a1 !q1 !r1 !a2 !q2 !r2 !b")
        A1, Q1, R1, A2, Q2, R2, B = v
        ok = []
        for i, f in enumerate(parts(*v)):
            s = z3.Solver()
            # split on the difference of the quotients: B*(Q1-Q2) is linear in each case
            s.add(B > 0, A1 == B * Q1 + R1, A2 == B * Q2 + R2, 0 <= R1, R1 < B, 0 <= R2, R2 < B, z3.Not(f))
            d = z3.Int("!d")
            s.add(d == Q1 - Q2)
            s.add(z3.Or(d == 0, z3.And(d >= 1, B * d >= B), z3.And(d <= -1, B * d <= -B)), A1 - A2 == B * d + R1 - R2)
            s.add(z3.Implies(d >= 2, B * d >= 2 * B), z3.Implies(d <= -2, B * d <= -2 * B), z3.Implies(d == 1, B * d == B), z3.Implies(d == -1, B * d == -B))
            s.set("timeout", 3000)
            if s.check() == z3.unsat:
                ok.append(i)
        _LEMMA["div"] = ok
    ps = parts(a1, q1, r1, a2, q2, r2, b)
    return z3.And(*[ps[i] for i in _LEMMA["div"]]) if _LEMMA["div"] else z3.BoolVal(True)


RANGES = {}     # inputs whose values fit into a smaller integer type: name of the symbol -> type


class Ctx:
    """One path of one target."""

    def __init__(self, runner, prefix):
        RANGES.clear()
        self.runner = runner
        self.prefix = list(prefix)
        self.trace = []
        self.pc = []
        self.solver = z3.Solver()   # everything assumed
        self.qf = z3.Solver()       # quantifier-free part only (sound subset)
        self.hasq = False
        self.nfresh = {}
        self.noid = 0
        self.inputs = {}
        self.ghost = {}
        self.loop_frames = []
        self.calls = 0
        self.live = not prefix
        self.divcache = {}
        self.divs = []
        self.gens = []      # generic indices of the comprehensions being evaluated
        self.defs = []      # definitions to assume once they are done
        self.nest = 0
        self.notes = []

    # ---- fresh
    def name(self, base):
        k = self.nfresh.get(base, 0)
        self.nfresh[base] = k + 1
        return base if k == 0 else f"{base}!{k}"

    def int(self, name, lo=None, hi=None, input=True):
        v = z3.Int(self.name(name))
        if input:
            self.inputs[str(v)] = v
        if lo is not None:
            self.assume(v >= to_z(lo))
        if hi is not None:
            self.assume(v <= to_z(hi))
        return v

    def real(self, name):
        v = z3.Real(self.name(name))
        self.inputs[str(v)] = v
        return v

    def bool(self, name):
        v = z3.Bool(self.name(name))
        self.inputs[str(v)] = v
        return v

    def fresh_int(self, name="t"):
        return z3.Int(self.name("!" + name))

    def fresh_real(self, name="r"):
        return z3.Real(self.name("!" + name))

    def fresh_bool(self, name="b"):
        return z3.Bool(self.name("!" + name))

    def atom(self, kind, name, **attrs):
        return Atom(kind, z3.Const(self.name(name), Val), attrs)

    def func(self, name, *sorts):
        S = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort(), "val": Val}
        return z3.Function(self.name(name), *[S[s] if isinstance(s, str) else s for s in sorts])

    def ilist(self, name, n=None, lo=None, hi=None, sort="int"):
        """symbolic input list of ints"""
        if n is None:
            n = self.int(name + ".len", lo=0)
        f = self.func(name, "int", sort)
        self.inputs[name] = ("list", n, f)
        if lo is not None:
            self.assume(ForAll(1, lambda i: to_z(lo) <= f(i)))
        if hi is not None:
            self.assume(ForAll(1, lambda i: f(i) <= to_z(hi)))
        return self.reg(VList(n=n, fn=lambda i: f(to_z(i)), etype=sort))

    def iarr(self, name, *shape, dtype="int64", sort="int", holds=None):
        """array; `holds` names the integer type the caller's values fit into, when smaller than dtype"""
        f = self.func(name, *(["int"] * len(shape)), sort)
        if holds:
            self.holds(f, holds)
        self.inputs[name] = ("array", shape, f)
        return self.reg(NArr(shape, lambda *ix: f(*[to_z(i) for i in ix]), dtype))

    def holds(self, f, dtype):
        """values of the function fit into the integer type (an assumption on the input)"""
        RANGES[(f if isinstance(f, z3.FuncDeclRef) else f.decl()).name()] = dtype
        return f

    def reg(self, o):
        if isinstance(o, Obj) and o.oid is None:
            o.oid = self.noid
            self.noid += 1
        return o

    # ---- logic
    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        f = to_z(f)
        self.pc.append(f)
        self.solver.add(f)
        if has_quant(f):
            self.hasq = True
        else:
            self.qf.add(f)

    def push(self):
        self.solver.push()
        self.qf.push()

    def pop(self):
        self.solver.pop()
        self.qf.pop()

    def addtmp(self, f):
        self.solver.add(f)
        if not has_quant(f):
            self.qf.add(f)
        else:
            self.hasq = True

    def feasible(self, f):
        """False only when proven infeasible."""
        f = simp(f)
        if isinstance(f, bool):
            return f
        q = has_quant(f)
        if not q:
            self.qf.push()
            self.qf.add(f)
            r = _z3check(self.qf, 1000)
            self.qf.pop()
            if r == z3.unsat:
                return False
            if not self.hasq:
                return True
        self.solver.push()
        self.solver.add(f)
        r = _z3check(self.solver, self.runner.feas_ms if self.runner.vain < 6 else min(60, self.runner.feas_ms))
        self.solver.pop()
        self.runner.vain = 0 if r == z3.unsat else self.runner.vain + 1
        return r != z3.unsat

    def entails(self, f):
        f = simp(f)
        if isinstance(f, bool):
            return f
        return not self.feasible(z3.Not(f))

    def branch(self, cond):
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        if len(self.trace) < len(self.prefix):
            d = self.prefix[len(self.trace)]
            self.trace.append(d)
            if len(self.trace) == len(self.prefix):
                self.live = True
            self.assume(cond if d else z3.Not(cond))
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond)) if t else True
        if not t:
            d = False
        elif not f:
            d = True
        else:
            d = True
            self.runner.push(self.trace + [False])
        self.trace.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """nondeterministic choice among n alternatives (all explored)"""
        for i in range(n - 1):
            b = self.fresh_bool("choice")
            if self.branch(b):
                return i
        return n - 1

    def oblige(self, name, f, kind="post"):
        if not self.live or self.runner.mute:
            if f is False and not self.live:
                pass
            return
        self.runner.discharge(self, name, f, kind)

    def oblige_assume(self, name, f, kind="post"):
        self.oblige(name, f, kind)
        self.assume(f)

    # ---- integer division (Python floor semantics)
    def divmod(self, a, b):
        if not is_sym(a) and not is_sym(b):
            return a // b, a % b
        za, zb = to_int(a), to_int(b)
        if z3.is_int_value(zb) and zb.as_long() > 0:
            return za / zb, za % zb
        k = (za.sexpr(), zb.sexpr())
        if k in self.divcache:
            return self.divcache[k]
        q, r = self.fresh_int("q"), self.fresh_int("rem")
        self.assume(za == zb * q + r)
        self.assume(z3.Implies(zb > 0, z3.And(0 <= r, r < zb)))
        self.assume(z3.Implies(zb < 0, z3.And(zb < r, r <= 0)))
        same = [(z3a, v) for (sb, z3a, v) in self.divs if sb == k[1]][-8:]
        for za2, (q2, r2) in same:
            self.assume(z3.Implies(zb > 0, div_lemma(za, q, r, za2, q2, r2, zb)))
        self.divs.append((k[1], za, (q, r)))
        self.divcache[k] = (q, r)
        return q, r

    def ceil(self, x):
        if isinstance(x, Quot):
            q, r = self.divmod(arith("-", 0, x.n), x.d)  # ceil(n/d) = -floor(-n/d)
            return arith("-", 0, q)
        if not is_sym(x):
            import math
            return math.ceil(x)
        if z3.is_int(x):
            return x
        c = self.fresh_int("ceil")
        self.assume(z3.And(z3.ToReal(c) >= x, z3.ToReal(c) - 1 < x))
        return c

    def floor(self, x):
        if isinstance(x, Quot):
            return self.divmod(x.n, x.d)[0]
        if not is_sym(x):
            import math
            return math.floor(x)
        if z3.is_int(x):
            return x
        c = self.fresh_int("floor")
        self.assume(z3.And(z3.ToReal(c) <= x, z3.ToReal(c) + 1 > x))
        return c


class Runner:
    """Explores all paths of one target and collects obligations."""

    def __init__(self, name, max_paths=4000, budget_s=300, qtimeout=10000):
        self.name = name
        self.stack = []
        self.obls = []
        self.paths = 0
        self.ended = 0
        self.nonvacuous = 0
        self.vac_checked = 0
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.feas_ms = 400
        self.qtimeout = qtimeout
        self.mute = False
        self.auto_havoc = {}
        self.reruns = 0
        self.cache = {}

    vain = 0  # feasibility checks with quantifiers in a row that excluded nothing

    def push(self, prefix):
        self.stack.append(prefix)

    def run(self, fn):
        t0 = time.time()
        self.stack = [[]]
        while self.stack:
            prefix = self.stack.pop()
            while True:
                if self.paths >= self.max_paths:
                    raise Unsupported(f"more than {self.max_paths} paths")
                if time.time() - t0 > self.budget_s:
                    raise Unsupported(f"time budget {self.budget_s}s exhausted")
                ForAll.c = 0
                ctx = Ctx(self, prefix)
                self.paths += 1
                try:
                    fn(ctx)
                    self.ended += 1
                    if self.vac_checked < 6 and self.nonvacuous < 1:
                        self.vac_checked += 1
                        if _z3check(ctx.solver, 3000) != z3.unsat:
                            self.nonvacuous += 1
                except PathEnd:
                    pass
                except Rerun:
                    # the frame of some loop grew: everything is re-done with it
                    self.reruns += 1
                    if self.reruns > 60:
                        raise Unsupported("loop frame inference does not converge")
                    self.stack, self.obls = [[]], []
                    self.ended = self.nonvacuous = self.vac_checked = 0
                break
        return self.obls

    def discharge(self, ctx, name, f, kind):
        t = time.time()
        f = simp(f)
        if f is True:
            self.obls.append(Obligation(name, "discharged", "simplifier", 0.0, kind=kind))
            STATS.by_backend["simplifier"] = STATS.by_backend.get("simplifier", 0) + 1
            return
        neg = z3.BoolVal(True) if f is False else z3.Not(f)
        status, backend, model = "unknown", None, None
        r = z3.unknown
        if ctx.hasq:
            # a proof from a subset of the assumptions is a proof
            ctx.qf.push()
            ctx.qf.add(neg)
            r = _z3check(ctx.qf, 1500)
            ctx.qf.pop()
            if r != z3.unsat:
                r = z3.unknown
        pushed = False
        if r != z3.unsat:
            pushed = True
            ctx.solver.push()
            ctx.solver.add(neg)
            r = _z3check(ctx.solver, 2000)
        if r == z3.sat:
            try:
                model = ctx.solver.model()
            except z3.Z3Exception:
                model = None
        if pushed:
            ctx.solver.pop()
        if r == z3.unsat:
            status, backend = "discharged", "z3"
        elif r == z3.sat:
            status, backend = "refuted", "z3"
        else:
            s = z3.Solver()
            s.add(*ctx.pc)
            s.add(neg)
            if _cvc5check(ctx.pc + [neg], 3000) == "unsat":
                status, backend = "discharged", "cvc5"
                r = z3.unsat
            else:
                r = _z3check(s, self.qtimeout)
            if status == "discharged":
                pass
            elif r == z3.unsat:
                status, backend = "discharged", "z3"
            elif r == z3.sat:
                status, backend, model = "refuted", "z3", s.model()
            else:
                c = _cvc5check(ctx.pc + [neg], self.qtimeout)
                if c == "unsat":
                    status, backend = "discharged", "cvc5"
                elif c == "sat":
                    status, backend = "refuted", "cvc5"
        if status == "discharged":
            STATS.by_backend[backend] = STATS.by_backend.get(backend, 0) + 1
        ob = Obligation(name, status, backend, time.time() - t, kind=kind)
        if os.environ.get("VERIF_TRACE") and ob.time > 0.5:
            print(f"      {ob.time:.1f}s {name} {status} {backend} pc={len(ctx.pc)}", flush=True)
        if status != "discharged":
            ob.detail = str(f)[:600]
            ob.model = self.model_values(ctx, model) if model is not None else None
        self.obls.append(ob)

    def model_values(self, ctx, model):
        out = {}
        for k, v in ctx.inputs.items():
            try:
                if isinstance(v, tuple) and v[0] == "list":
                    n = simp(model.eval(to_z(v[1]), model_completion=True))
                    out[k] = [_pyval(model.eval(v[2](i), model_completion=True)) for i in range(min(n, 40))] if isinstance(n, int) else None
                elif isinstance(v, tuple) and v[0] == "array":
                    shp = [simp(model.eval(to_z(d), model_completion=True)) for d in v[1]]
                    if any(not isinstance(d, int) or d > 40 for d in shp):
                        out[k] = None
                        continue
                    import itertools
                    out[k] = {"shape": shp, "flat": [_pyval(model.eval(v[2](*ix), model_completion=True)) for ix in itertools.product(*[range(d) for d in shp])]}
                else:
                    out[k] = _pyval(model.eval(v, model_completion=True))
            except z3.Z3Exception:
                out[k] = None
        return out


def _pyval(x):
    s = simp(x)
    if isinstance(s, Fraction):
        return float(s)
    if isz(s):
        return str(s)
    return s
