"""Python builtins, container methods and numpy arrays.

Semantics of the language runtime (trusted): integers are unbounded, floats are
exact rationals/reals (stated assumption), lists/dicts/sets as in CPython.
numpy integer arrays hold mathematical integers (no wrap-around)."""
import re
import z3
from fractions import Fraction
from .core import *
from .interp import *
from .interp import BUILTINS, METHODS, TYPE_ATTRS
from . import interp as I


class Args(list):
    """positional arguments of a modelled function; remembers how many the model looked at"""
    seen = 0

    def __getitem__(self, i):
        self.seen = max(self.seen, len(self) if isinstance(i, slice) or i < 0 else i + 1)
        return list.__getitem__(self, i)

    def __iter__(self):
        self.seen = len(self)
        return list.__iter__(self)


class Keywords(dict):
    """keyword arguments of a modelled function; remembers which ones the model looked at"""
    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()

    def __getitem__(self, n):
        self.seen.add(n)
        return dict.__getitem__(self, n)

    def __contains__(self, n):
        self.seen.add(n)
        return dict.__contains__(self, n)

    def get(self, n, d=None):
        self.seen.add(n)
        return dict.get(self, n, d)

    def pop(self, n, *d):
        self.seen.add(n)
        return dict.pop(self, n, *d)

    def all(self):
        self.seen.update(self.keys())

    def items(self):
        self.all()
        return dict.items(self)


def whole(name, f):
    """a model that did not look at an argument does not describe the call"""
    def g(it, a, k, **more):
        a, k = Args(a), Keywords(k)
        r = f(it, a, k, **more)
        left = [n for n in k.keys() if n not in k.seen]
        if left or a.seen < len(a):
            raise Unsupported(f"{name} with argument {left[0] if left else a.seen + 1}")
        return r
    return g


def builtin(name):
    def d(f):
        BUILTINS[name] = Prim(name, whole(name, f))
        return f
    return d


def method(t, name):
    def d(f):
        METHODS[(t, name)] = f
        return f
    return d


# ------------------------------------------------------------ sums
def sumfn(c, fn, real=False):
    """prefix-sum function of fn, with its defining axioms (cached per summand)"""
    k = z3.Int("!sumk")
    body = fn(k)
    zb = to_z(body)
    if z3.is_bool(zb):
        zb = to_int(zb)
    zb = z3.simplify(zb)
    txt = zb.sexpr()
    # inside a comprehension the summand depends on its index: one more argument
    gens = [g for g in c.gens if re.search(r"(?<![\w!.])" + re.escape(g.decl().name()) + r"(?![\w!.])", txt)]
    q = z3.Int("!sumq")
    names = [z3.Int(f"!sumg{j}") for j in range(len(gens))]
    zg = z3.substitute(zb, *zip(gens, names)) if gens else zb
    key = ("sum", zg.sexpr())
    cache = c.ghost.setdefault("%sums", SumCache()).d
    if key not in cache:
        S = z3.Function(c.name("!Sum"), *[z3.IntSort()] * (len(gens) + 1), zb.sort())
        z = z3.RealVal(0) if z3.is_real(zb) else z3.IntVal(0)
        bind = lambda vs, f, pat: z3.ForAll(vs, f, patterns=[pat]) if vs else f
        put = c.defs.append if gens else c.assume
        put(bind(names, S(*names, 0) == z, S(*names, 0)))
        if gens or not c.ghost.get("%lazy_sums"):       # otherwise the contract states the steps it needs
            put(bind(names + [q], z3.Implies(q >= 1, S(*names, q) == S(*names, q - 1) + z3.substitute(zg, (k, q - 1))), S(*names, q)))
        cache[key] = S
    S = cache[key]
    return (lambda q: S(*gens, to_z(q))) if gens else S


class SumCache:
    def __init__(self):
        self.d = {}


# ------------------------------------------------------------ builtins
@builtin("len")
def _len(it, a, k):
    v = it.force(a[0])
    if isinstance(v, VList):
        return v.length()
    if isinstance(v, (tuple, str, bytes)):
        return len(v)
    if isinstance(v, VDict):
        if v.default:
            return v.default.len()
        return len(v.pairs)
    if isinstance(v, VSet):
        if v.items is not None:
            return len(v.items)
        if v.enum is not None:
            return v.enum.n
        if v.n is not None:
            return v.n
        raise Unsupported("len of symbolic set")
    if isinstance(v, NArr):
        if not v.shape:
            raise PyExc(TypeError, ("len of unsized object",))
        return v.shape[0]
    if isinstance(v, Seq):
        return v.n
    if isinstance(v, Bytes):
        return v.length()
    if isinstance(v, Inst):
        return it.call_method(v, "__len__", [])
    if isinstance(v, Ext):
        return it.ext_method(v, "__len__", [], {})
    if isinstance(v, Atom):
        h = it.world.atom_methods.get(v.kind, {}).get("__len__")
        if h:
            return h(it, v)
    if isinstance(v, SMap) and v.n is not None:
        return v.n
    if isinstance(v, SMap) and getattr(v, "enum", None) is not None and v.distinct:
        return v.enum.n
    if v is None or is_num(v):
        raise PyExc(TypeError, ("object has no len()",))
    if isinstance(v, SStr):
        f = z3.Function("strlen", Val, z3.IntSort())
        if len(v.parts) == 1 and v.parts[0][0] == "atom":
            r = f(v.parts[0][1].expr)
            it.ctx.assume(r >= 0)
            return r
    raise Unsupported(f"len of {v!r}")


@builtin("range")
def _range(it, a, k):
    a = [it.force(x) for x in a]
    for x in a:
        if not is_intlike(x):
            raise PyExc(TypeError, ("range of non-int",))
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    c = it.ctx
    if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
        r = range(lo, hi, st)
        s = Seq(len(r), lambda i: add(lo, mul(i, st)))
    else:
        if c.branch(cmp("==", st, 0)):
            raise PyExc(ValueError, ("range step 0",))
        if c.branch(gt(st, 0)):
            n = it.slice_len(lo, hi, st)
        else:
            if c.branch(gt(lo, hi)):
                q, _ = c.divmod(sub(sub(lo, hi), 1), sub(0, st))
                n = add(q, 1)
            else:
                n = 0
        s = Seq(n, lambda i: add(lo, mul(i, st)))
    s.rng = (lo, hi, st)
    return s


@builtin("enumerate")
def _enumerate(it, a, k):
    s = it.seq(a[0])
    st = a[1] if len(a) > 1 else k.get("start", 0)
    return Seq(s.n, lambda i: (add(i, st), s.fn(i)))


@builtin("zip")
def _zip(it, a, k):
    ss = [it.seq(x) for x in a]
    fin = [s for s in ss if not getattr(s, "infinite", False)]
    n = fin[0].n
    for s in fin[1:]:
        if it.ctx.branch(lt(s.n, n)):
            n = s.n
    return Seq(n, lambda i: tuple(s.fn(i) for s in ss))


@builtin("reversed")
def _reversed(it, a, k):
    s = it.seq(a[0])
    return Seq(s.n, lambda i: s.fn(sub(sub(s.n, 1), i)))


def _minmax(it, a, k, op):
    if len(a) == 1:
        s = it.seq(a[0])
        n = simp(s.n)
        if not isinstance(n, int):
            if k:
                raise Unsupported("min/max with key")
            if not it.ctx.branch(gt(n, 0)):
                raise PyExc(ValueError, ())
            j = it.ctx.fresh_int("arg")
            r = s.fn(j)
            if not is_num(r):
                raise Unsupported("min/max of non numbers")
            it.ctx.assume(inrange(0, j, n))
            it.ctx.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), cmp("<=" if op == "<" else ">=", r, s.fn(i)))))
            return r
        a = [s.fn(i) for i in range(n)]
        if not a:
            if "default" in k:
                return k["default"]
            raise PyExc(ValueError, ())
    key = k.get("key")
    best = it.force(a[0])
    for x in a[1:]:
        x = it.force(x)
        kx, kb = (it.call(key, [x]), it.call(key, [best])) if key is not None else (x, best)
        if isinstance(kx, tuple):
            c = tuple_cmp(op, kx, kb)
        else:
            if not (is_num(kx) and is_num(kb)):
                if isinstance(kx, str) and isinstance(kb, str):
                    c = kx < kb if op == "<" else kx > kb
                else:
                    if kx is None or kb is None:
                        raise PyExc(TypeError, ())
                    raise Unsupported("min/max")
            else:
                c = cmp(op, kx, kb)
        best = ite(simp(c), x, best) if (is_num(x) and is_num(best)) else (x if it.ctx.branch(c) else best)
    return best


@builtin("min")
def _min(it, a, k):
    return _minmax(it, a, k, "<")


@builtin("max")
def _max(it, a, k):
    return _minmax(it, a, k, ">")


@builtin("sum")
def _sum(it, a, k):
    v = it.force(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    s = it.seq(v)
    n = simp(s.n)
    if isinstance(n, int):
        r = start
        for i in range(n):
            r = it.binop("Add", r, s.fn(i))
        return r
    S = sumfn(it.ctx, s.fn)
    return add(start, S(to_z(n)))


@builtin("abs")
def _abs(it, a, k):
    v = it.force(a[0])
    if not is_sym(v):
        return abs(v)
    return z3.If(to_z(v) >= 0, to_z(v), -to_z(v))


@builtin("round")
def _round(it, a, k):
    v = it.force(a[0])
    if not is_sym(v) and len(a) == 1:
        return round(v)
    raise Unsupported("round")


@builtin("divmod")
def _divmod(it, a, k):
    if it.ctx.branch(cmp("==", a[1], 0)):
        raise PyExc(ZeroDivisionError, ())
    return it.ctx.divmod(a[0], a[1])


parse_int = z3.Function("parse_int", Val, z3.IntSort())
parse_real = z3.Function("parse_real", Val, z3.RealSort())


def py_int(it, v):
    v = it.force(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, (float, Fraction)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyExc(ValueError, ())
    if isz(v):
        if z3.is_bool(v):
            return to_int(v)
        if z3.is_int(v):
            return v
        if it.ctx.branch(v >= 0):
            return it.ctx.floor(v)
        return it.ctx.ceil(v)
    if isinstance(v, Quot):
        if it.ctx.branch(Or(cmp("==", v.n, 0), cmp("==", gt(v.n, 0), gt(v.d, 0)))):
            return it.ctx.floor(v)
        return it.ctx.ceil(v)
    if isinstance(v, Atom) and v.kind in ("str", "any", "json"):
        return parse_int(v.expr)
    if isinstance(v, SStr) and len(v.parts) == 1 and v.parts[0][0] == "atom":
        return parse_int(v.parts[0][1].expr)
    if isinstance(v, SStr) and len(v.parts) == 1 and v.parts[0][0] == "int":
        return v.parts[0][1]
    if isinstance(v, NArr) and v.shape == ():
        return v.fn()
    if isinstance(v, Ext) and v.kind == "ctypes.value":
        return v.fields["value"]
    if v is None or isinstance(v, (VList, VDict, tuple)):
        raise PyExc(TypeError, ())
    raise Unsupported(f"int({v!r})")


def py_float(it, v):
    v = it.force(v)
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, (int, float, Fraction)):
        return v if not isinstance(v, int) else float(v)
    if isinstance(v, str):
        try:
            f = float(v)
        except ValueError:
            raise PyExc(ValueError, ())
        return f
    if isz(v):
        return to_real(v)
    if isinstance(v, Quot):
        return v
    if isinstance(v, Atom) and v.kind in ("str", "any", "json"):
        return parse_real(v.expr)
    if isinstance(v, SStr) and len(v.parts) == 1 and v.parts[0][0] == "atom":
        return parse_real(v.parts[0][1].expr)
    if v is None:
        raise PyExc(TypeError, ())
    raise Unsupported(f"float({v!r})")


def type_call(it, t, a, k):
    if t is int:
        return py_int(it, a[0]) if a else 0
    if t is float:
        return py_float(it, a[0]) if a else 0.0
    if t is str:
        return it.tostr(a[0]) if a else ""
    if t is bool:
        return it.truth_value(a[0]) if a else False
    if t is list:
        if not a:
            return it.ctx.reg(VList(items=[]))
        s = it.seq(a[0])
        n = simp(s.n)
        if isinstance(n, int):
            return it.ctx.reg(VList(items=[s.fn(i) for i in range(n)]))
        return it.ctx.reg(VList(n=n, fn=s.fn))
    if t is tuple:
        s = it.seq(a[0]) if a else Seq(0, None)
        n = simp(s.n)
        if isinstance(n, int):
            return tuple(s.fn(i) for i in range(n))
        return it.ctx.reg(VList(n=n, fn=s.fn))
    if t is set:
        if not a:
            return it.ctx.reg(VSet(items=[]))
        return it.to_set(a[0])
    if t is dict:
        d = it.ctx.reg(VDict())
        if a:
            src = it.force(a[0])
            if isinstance(src, VDict):
                d.pairs = list(src.pairs)
            else:
                s = it.seq(src)
                if not isinstance(simp(s.n), int):
                    raise Unsupported("dict of symbolic sequence")
                for i in range(simp(s.n)):
                    kk = it.seq(s.fn(i))
                    it.dict_set(d, kk.fn(0), kk.fn(1))
        for kk, v in k.items():
            it.dict_set(d, kk, v)
        return d
    if t is bytes and len(a) >= 1:
        v = it.force(a[0])
        enc = it.force(a[1] if len(a) > 1 else k.get("encoding"))
        if enc is not None and str(enc).lower() not in ("utf-8", "utf8"):
            raise Unsupported(f"encoding {enc}")
        if isinstance(v, str):
            return v.encode()
        if isinstance(v, (SStr, Atom)):
            return enc_str(it, v)
        if isinstance(v, (bytes, Bytes)):
            return v
        if isinstance(v, Ext) and v.kind in ("ctypes.array", "memoryview"):
            from .models import as_bytes
            return as_bytes(it, v)
        if isinstance(v, NArr):
            return it.call_method(v, "tobytes", [])
        if isinstance(v, Ext) and v.kind == "ctypes.value":
            f = v.fields
            return Bytes([("c:" + f["ctype"], (f["value"],), f["size"])])
        if isinstance(v, int):
            return bytes(v)
    if t is bytes and not a:
        return b""
    if t is object:
        return it.ctx.reg(Ext("object"))
    raise Unsupported(f"{t.__name__}() call")


strbytes_len = z3.Function("utf8len", Val, z3.IntSort())


def enc_str(it, v):
    """utf-8 bytes of a symbolic string"""
    if isinstance(v, SStr):
        if len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][0] == "atom":
            v = v.parts[0][1]
        else:
            return Bytes([("utf8", v, 0)])
    n = strbytes_len(v.expr)
    it.ctx.assume(n >= 0)
    return Bytes([("utf8", v, n)])


_orig_call = Interp.call


def _call(self, f, args=(), kwargs=None):
    if isinstance(f, type) and not issubclass(f, BaseException):
        return type_call(self, f, list(args), kwargs or {})
    return _orig_call(self, f, args, kwargs)


Interp.call = _call


@builtin("isinstance")
def _isinstance(it, a, k):
    v = it.force(a[0])
    t = a[1]
    if isinstance(t, tuple):
        return any(it.ctx.branch(_isinstance(it, [v, x], {})) for x in t)
    if isinstance(v, Atom):
        h = v.attrs.get("isinstance") or it.world.atom_methods.get(v.kind, {}).get("isinstance")
        if h:
            return h(it, v, t)
        if v.kind == "str":
            return t is str
        raise Unsupported(f"isinstance of {v!r}")
    if isinstance(t, ExtRef):
        p = t.path
        if p == "numpy.ndarray":
            return isinstance(v, NArr)
        if p.startswith("typing.") or p.startswith("collections.abc."):
            nm = p.split(".")[-1]
            return {"List": isinstance(v, VList), "Dict": isinstance(v, VDict), "Sequence": isinstance(v, (VList, tuple, str)),
                    "Iterable": isinstance(v, (VList, tuple, VDict, str))}.get(nm, False)
        if isinstance(v, Ext):
            return v.kind == p or p in v.fields.get("bases", ())
        if isinstance(v, Inst) and isinstance(v.cls, VClass):
            return v.cls.issub(t)
        return False
    if isinstance(t, VClass):
        return isinstance(v, Inst) and isinstance(v.cls, VClass) and v.cls.issub(t)
    if t is BUILTINS["type"]:
        return isinstance(v, (type, VClass))
    if isinstance(t, type):
        if t is int:
            return isinstance(v, int) or (isz(v) and z3.is_int(v))
        if t is bool:
            return isinstance(v, bool) or (isz(v) and z3.is_bool(v))
        if t is float:
            return isinstance(v, (float, Fraction, Quot)) or (isz(v) and z3.is_real(v))
        if t is str:
            return isinstance(v, (str, SStr))
        if t is list:
            return isinstance(v, VList)
        if t is tuple:
            return isinstance(v, tuple)
        if t is dict:
            return isinstance(v, (VDict, SMap))
        if t is set:
            return isinstance(v, VSet)
        if t is bytes:
            return isinstance(v, (bytes, Bytes))
        if issubclass(t, BaseException):
            if isinstance(v, Inst):
                return it.exc_match(PyExc(v.cls), t)
            return isinstance(v, Ext) and v.kind == "exception" and it.exc_match(PyExc(v.fields["cls"]), t)
        if t is object:
            return True
    raise Unsupported(f"isinstance({v!r}, {t!r})")


@builtin("issubclass")
def _issubclass(it, a, k):
    if isinstance(a[0], VClass):
        return a[0].issub(a[1])
    raise Unsupported("issubclass")


@builtin("type")
def _type(it, a, k):
    v = it.force(a[0])
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, Ext) and "pytype" in v.fields:
        return v.fields["pytype"]
    if isinstance(v, Tok):
        return ExtRef("token." + v.kind)
    for t, p in ((bool, bool), (int, int), (float, float), (str, str), (VList, list), (tuple, tuple), (VDict, dict), (SStr, str), (bytes, bytes), (type(None), type(None)), (VSet, set)):
        if isinstance(v, t):
            return p
    if isz(v):
        return bool if z3.is_bool(v) else int if z3.is_int(v) else float
    if isinstance(v, NArr):
        return ExtRef("numpy.ndarray")
    raise Unsupported("type()")


def attr_name(it, o, name):
    """the attribute of an object an unknown name denotes, by cases; None when it denotes none"""
    if not isinstance(o, Inst) or not isinstance(o.cls, VClass):
        raise Unsupported("attribute with symbolic name")
    names = list(o.fields)
    for k in o.cls.mro():
        names += [n for n in (k.ns if isinstance(k, VClass) else []) if n not in names]
    for n in names:
        if it.ctx.branch(eqv(name, n)):
            return n
    # attributes every object has are not considered: a parameter is never named like those
    return None


@builtin("hasattr")
def _hasattr(it, a, k):
    o = it.force(a[0])
    if as_text(a[1]) is not None and not isinstance(a[1], str):
        return attr_name(it, o, a[1]) is not None
    if isinstance(o, Inst):
        if a[1] in o.fields:
            return True
        if isinstance(o.cls, VClass):
            return o.cls.find(a[1])[0] is not None
    if isinstance(o, Ext):
        kd = it.world.kinds.get(o.kind)
        if a[1] in o.fields or hasattr(kd, "a_" + a[1]) or hasattr(kd, "m_" + a[1]):
            return True
        h = getattr(kd, "hasattr", None)
        return h(it, o, a[1]) if h else False
    if isinstance(o, VClass):
        return o.find(a[1])[0] is not None
    if isinstance(o, Atom):
        return a[1] in o.attrs
    if isinstance(o, ExtRef):
        return it.ctx.fresh_bool("hasattr")
    if isinstance(o, (str, int, float)):
        return hasattr(o, a[1])
    raise Unsupported("hasattr")


@builtin("getattr")
def _getattr(it, a, k):
    if as_text(a[1]) is not None and not isinstance(a[1], str):
        n = attr_name(it, it.force(a[0]), a[1])
        if n is None:
            if len(a) > 2:
                return a[2]
            raise PyExc(AttributeError, ())
        return it.getattr(a[0], n)
    if not isinstance(a[1], str):
        raise Unsupported("getattr with symbolic name")
    if len(a) > 2:
        try:
            return it.getattr(a[0], a[1])
        except PyExc as e:
            if e.cls is AttributeError:
                return a[2]
            raise
    return it.getattr(a[0], a[1])


@builtin("setattr")
def _setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


@builtin("print")
def _print(it, a, k):
    return None


@builtin("map")
def _map(it, a, k):
    ss = [it.seq(x) for x in a[1:]]
    sq = ss[0] if len(ss) == 1 else _zip(it, a[1:], {})
    n = simp(sq.n)
    f = (lambda v: it.call(a[0], [v])) if len(ss) == 1 else (lambda v: it.call(a[0], list(v)))
    if isinstance(n, int):
        return it.ctx.reg(VList(items=[f(sq.fn(i)) for i in range(n)]))
    return it.map_seq(sq, f)


@builtin("filter")
def _filter(it, a, k):
    sq = it.seq(a[1])
    n = simp(sq.n)
    p = (lambda v: it.truth_value(it.call(a[0], [v]))) if a[0] is not None else it.truth_value
    if isinstance(n, int):
        return it.ctx.reg(VList(items=[x for x in [sq.fn(i) for i in range(n)] if it.ctx.branch(p(x))]))
    return it.filter_map(sq, p, lambda v: v)


@builtin("any")
def _any(it, a, k):
    s = it.seq(a[0])
    n = simp(s.n)
    if isinstance(n, int):
        return Or(*[it.truth_value(s.fn(i)) for i in range(n)])
    return Exists(1, lambda i: And(inrange(0, i, n), it.truth_value(s.fn(i))))


@builtin("all")
def _all(it, a, k):
    s = it.seq(a[0])
    n = simp(s.n)
    if isinstance(n, int):
        return And(*[it.truth_value(s.fn(i)) for i in range(n)])
    return ForAll(1, lambda i: Implies(inrange(0, i, n), it.truth_value(s.fn(i))))


@builtin("bytearray")
def _bytearray(it, a, k):
    h = it.world.models.get("builtins.bytearray")
    if h:
        return h(it, a, k)
    raise Unsupported("bytearray")


@builtin("iter")
def _iter(it, a, k):
    v = it.force(a[0])
    if isinstance(v, Inst):
        return it.call_method(v, "__iter__", [])
    if isinstance(v, Ext) and v.kind in ("generator", "iterator"):
        return v
    if isinstance(v, Ext):
        kd = it.world.kinds.get(v.kind)
        if hasattr(kd, "m___iter__"):
            return it.ext_method(v, "__iter__", [], {})
    s = it.seq(v)
    return it.ctx.reg(Ext("iterator", seq=s, pos=0))


@builtin("next")
def _next(it, a, k):
    v = it.force(a[0])
    default = a[1:]
    try:
        if isinstance(v, Inst):
            return it.call_method(v, "__next__", [])
        if isinstance(v, Ext) and v.kind == "generator":
            v = Ext("iterator", seq=it.seq(v.fields["list"]), pos=v.fields["pos"]) if False else v
            s = it.seq(v.fields["list"])
            p = v.fields["pos"]
            if not it.ctx.branch(lt(p, s.n)):
                raise PyExc(StopIteration, ())
            it.setfield(v, "pos", add(p, 1))
            return s.fn(p)
        if isinstance(v, Ext) and v.kind == "iterator":
            s, p = v.fields["seq"], v.fields["pos"]
            if not it.ctx.branch(lt(p, s.n)):
                raise PyExc(StopIteration, ())
            it.setfield(v, "pos", add(p, 1))
            return s.fn(p)
        if isinstance(v, Ext):
            return it.ext_method(v, "__next__", [], {})
    except PyExc as e:
        if e.cls is StopIteration and default:
            return default[0]
        raise
    raise Unsupported(f"next({v!r})")


class _Iterator:
    @staticmethod
    def seq(it, o):
        s, p = o.fields["seq"], o.fields["pos"]
        it.setfield(o, "pos", s.n)
        return Seq(sub(s.n, p) if p != 0 else s.n, lambda i: s.fn(add(i, p)))

    def m___next__(it, o):
        return _next(it, [o], {})

    def m___iter__(it, o):
        return o


@builtin("sorted")
def _sorted(it, a, k):
    s = it.seq(a[0])
    n = simp(s.n)
    key = k.get("key")
    rev = k.get("reverse", False)
    c = it.ctx
    keyf = (lambda v: it.call(key, [v])) if key is not None else (lambda v: v)
    if isinstance(n, int):
        items = [s.fn(i) for i in range(n)]
        ks = [keyf(x) for x in items]
        if all(key_of(x) is not None and not isinstance(x, SStr) for x in ks):
            try:
                idx = sorted(range(n), key=lambda i: ks[i], reverse=bool(rev))
                return c.reg(VList(items=[items[i] for i in idx]))
            except TypeError:
                raise PyExc(TypeError, ())
        # insertion sort with symbolic comparisons (stable); complete for concrete lengths
        out = []
        for i in range(n):
            j = len(out)
            while j > 0:
                x, y = ks[i], out[j - 1][0]
                lessc = key_less(x, y) if not rev else key_less(y, x)
                if c.branch(lessc):
                    j -= 1
                else:
                    break
            out.insert(j, (ks[i], items[i]))
        return c.reg(VList(items=[v for _, v in out]))
    # symbolic length: stable sorted permutation
    return sort_sym(it, s, keyf, rev)


def sort_sym(it, s, keyf, rev=False):
    c = it.ctx
    n = s.n
    kk = c.fresh_int("sk")
    kv = it.pure_at(kk, inrange(0, kk, n), lambda: keyf(s.fn(kk)), "sort key")
    K = lambda i: I.subst(kv, kk, to_z(i))
    # sorted() is a function of its input: same input, same permutation
    ck = ("sort", repr(simp(n)), valkey(I.subst(s.fn(kk), kk, z3.Int("!sk0"))), valkey(K(z3.Int("!sk0"))), bool(rev))
    cache = c.ghost.setdefault("%sorts", SumCache()).d
    if ck in cache and None not in ck:
        p, q = cache[ck]
        l = c.reg(VList(n=n, fn=lambda i: s.fn(p(to_z(i)))))
        l.perm, l.pinv = p, q
        return l
    p = c.func("!perm", "int", "int")
    q = c.func("!pinv", "int", "int")
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), And(inrange(0, p(i), n), q(p(i)) == i))))
    c.assume(ForAll(1, lambda i: Implies(inrange(0, i, n), And(inrange(0, q(i), n), p(q(i)) == i))))

    def le_(x, y, i, j):
        l = key_less(x, y) if not rev else key_less(y, x)
        return Or(l, And(eqv(x, y), p(i) < p(j)))
    c.assume(ForAll(2, lambda i, j: Implies(And(0 <= i, i < j, lt(j, n)), le_(K(p(i)), K(p(j)), i, j))))
    l = c.reg(VList(n=n, fn=lambda i: s.fn(p(to_z(i)))))
    l.perm, l.pinv = p, q
    it.enums().append(("sort", lambda i: (q(i), Implies(inrange(0, i, n), And(inrange(0, q(i), n), p(q(i)) == i)))))
    it.enums().append(("order", lambda: (n, s.fn, p, q)))
    cache[ck] = (p, q)
    return l


def valkey(v):
    if isz(v):
        return v.sexpr()
    if isinstance(v, (int, str, float, bool)) or v is None:
        return repr(v)
    if isinstance(v, Atom):
        return v.kind + v.expr.sexpr()
    if isinstance(v, tuple):
        ks = [valkey(x) for x in v]
        return None if None in ks else "(" + ",".join(ks) + ")"
    if isinstance(v, VList) and v.items is not None:
        return valkey(tuple(v.items))
    if isinstance(v, VList):
        ks = [valkey(v.n), valkey(v.fn(z3.Int("!vk")))]
        return None if None in ks else "[" + ";".join(ks) + "]"
    if isinstance(v, VDict) and not v.default:
        ks = [valkey(x) for kv in v.pairs for x in kv]
        return None if None in ks else "{" + ",".join(ks) + "}"
    return None


def sorted_view(it, l, key=None):
    """the sorted order of a list, for specifications"""
    return sort_sym(it, it.seq(l), key or (lambda v: v))


def key_less(x, y):
    if isinstance(x, tuple):
        return tuple_cmp("<", x, y)
    if is_num(x) and is_num(y):
        return cmp("<", x, y)
    if isinstance(x, str) and isinstance(y, str):
        return x < y
    if isinstance(x, Atom) and isinstance(y, Atom):
        f = z3.Function("val_lt", Val, Val, z3.BoolSort())
        return f(x.expr, y.expr)
    if isinstance(x, SStr) and isinstance(y, SStr) and len(x.parts) == 1 and len(y.parts) == 1 and x.parts[0][0] == y.parts[0][0] == "atom":
        f = z3.Function("val_lt", Val, Val, z3.BoolSort())
        return f(x.parts[0][1].expr, y.parts[0][1].expr)
    if x is None or y is None:
        raise PyExc(TypeError, ())
    raise Unsupported(f"ordering of {x!r}, {y!r}")


@builtin("super")
def _super(it, a, k):
    raise Unsupported("super with arguments")


@builtin("callable")
def _callable(it, a, k):
    return isinstance(a[0], (VFunc, Bound, Prim, VClass))


@builtin("repr")
def _repr(it, a, k):
    return it.tostr(a[0])


@builtin("open")
def _open(it, a, k):
    return it.call_ext("builtins.open", list(a), dict(k.items()))


@builtin("id")
def _id(it, a, k):
    return it.ctx.fresh_int("id")


class _Super:
    @staticmethod
    def dyn(it, o, name):
        cls, self_ = o.fields["cls"], o.fields["self"]
        mro = self_.cls.mro()
        i = mro.index(cls)
        for c in mro[i + 1:]:
            if isinstance(c, VClass) and name in c.ns:
                m = c.ns[name]
                return Bound(m, self_) if isinstance(m, VFunc) else m
        if name == "__init__":
            exts = [c for c in mro[i + 1:] if not isinstance(c, VClass)]

            def init(it_, a, k):
                for e in exts:
                    if isinstance(e, ExtRef) and e.path in it_.world.models:
                        return it_.call_ext(e.path, [self_] + list(a), k)
                if exts and any(isinstance(e, ExtRef) and e.path.split(".")[-1] not in ("ABC", "object", "Generic", "Protocol", "Enum", "Iterator", "Dataset", "IterableDataset") for e in exts):
                    raise Unsupported(f"external base constructor {exts}")
                return None
            return Prim("super.__init__", init)
        for c in mro[i + 1:]:
            if isinstance(c, ExtRef) and (c.path + "." + name) in it.world.models:
                return Prim(name, lambda it_, a, k: it_.call_ext(c.path + "." + name, [self_] + list(a), k))
        raise Unsupported(f"super().{name}")


# ------------------------------------------------------------ list methods
@method("list", "append")
def _(it, l, v):
    it.list_append(l, v)


@method("list", "extend")
def _(it, l, v):
    it.list_extend(l, it.force(v))


@method("list", "pop")
def _(it, l, idx=-1):
    n = l.length()
    idx = simp(idx)
    if not it.ctx.branch(gt(n, 0)):
        raise PyExc(IndexError, ("pop from empty list",))
    it.note_write(l, "contents")
    if l.items is not None and isinstance(idx, int):
        if not -len(l.items) <= idx < len(l.items):
            raise PyExc(IndexError, ())
        v = l.items.pop(idx)
        it.writeback(l)
        return v
    i = it.norm_index(idx, n)
    if l.items is not None:
        for j in range(len(l.items)):
            if it.ctx.branch(i == j):
                return l.items.pop(j)
        raise PathEnd()
    v = l.fn(i)
    old = l.fn
    if idx == -1:
        l.n = sub(n, 1)
    else:
        l.fn = lambda q: ite(lt(q, i), old(q), old(add(q, 1)))
        l.n = sub(n, 1)
    it.writeback(l)
    return v


@method("list", "insert")
def _(it, l, idx, v):
    if l.items is not None and isinstance(idx, int):
        it.note_write(l, "contents", v)
        l.items.insert(idx, v)
        return
    raise Unsupported("list.insert")


@method("list", "sort")
def _(it, l, key=None, reverse=False):
    r = _sorted(it, [l], {"key": key, "reverse": reverse})
    it.note_write(l, "contents")
    l.items, l.n, l.fn = r.items, r.n, r.fn
    if r.items is None:
        l.perm, l.pinv = r.perm, r.pinv


@method("list", "copy")
def _(it, l):
    return it.ctx.reg(VList(items=list(l.items) if l.items is not None else None, n=l.n, fn=l.fn))


@method("list", "clear")
def _(it, l):
    it.note_write(l, "contents")
    l.items, l.n, l.fn = [], None, None


@method("list", "index")
def _(it, l, v, *a):
    if a:
        raise Unsupported("list.index bounds")
    if l.items is not None:
        for i, x in enumerate(l.items):
            if it.ctx.branch(eqv(x, v)):
                return i
        raise PyExc(ValueError, ())
    c = it.ctx
    j = c.fresh_int("idx")
    if c.branch(Exists(1, lambda i: And(inrange(0, i, l.n), eqv(l.fn(i), v)))):
        c.assume(And(inrange(0, j, l.n), eqv(l.fn(j), v)))
        c.assume(ForAll(1, lambda i: Implies(inrange(0, i, j), Not(eqv(l.fn(i), v)))))
        return j
    raise PyExc(ValueError, ())


@method("list", "reverse")
def _(it, l):
    it.note_write(l, "contents")
    if l.items is not None:
        l.items.reverse()
    else:
        n, old = l.n, l.fn
        l.fn = lambda i: old(sub(sub(n, 1), i))


@method("list", "count")
def _(it, l, v):
    if l.items is not None:
        r = 0
        for x in l.items:
            r = add(r, to_int(eqv(x, v))) if isz(eqv(x, v)) else r + int(eqv(x, v))
        return r
    raise Unsupported("list.count")


@method("list", "__len__")
def _(it, l):
    return l.length()


@method("tuple", "index")
def _(it, l, v):
    for i, x in enumerate(l):
        if it.ctx.branch(eqv(x, v)):
            return i
    raise PyExc(ValueError, ())


# ------------------------------------------------------------ dict / set
@method("dict", "get")
def _(it, d, k, default=None):
    if isinstance(d, SMap):
        if it.ctx.branch(d.has(k)):
            return d.get(k)
        return default
    for kk, v in d.pairs:
        if it.ctx.branch(eqv(kk, k)):
            return v
    if d.default:
        if it.ctx.branch(d.default.has(k)):
            return d.default.get(it, k)
    return default


@method("dict", "pop")
def _(it, d, k, *dflt):
    for j, (kk, v) in enumerate(d.pairs):
        if it.ctx.branch(eqv(kk, k)):
            it.note_write(d, "contents")
            del d.pairs[j]
            return v
    if dflt:
        return dflt[0]
    raise PyExc(KeyError, (k,))


@method("dict", "setdefault")
def _(it, d, k, default=None):
    for kk, v in d.pairs:
        if it.ctx.branch(eqv(kk, k)):
            return v
    it.note_write(d, "contents")
    d.pairs.append((k, default))
    return default


@method("dict", "keys")
def _(it, d):
    if isinstance(d, SMap):
        return it.seq(d) if getattr(d, "enum", None) is not None and d.distinct else d
    return Seq(len(d.pairs), lambda i: d.pairs[i][0])


@method("dict", "values")
def _(it, d):
    if isinstance(d, SMap):
        s, get = it.seq(d), d.get
        return Seq(s.n, lambda i: get(s.fn(i)))
    ps = list(d.pairs)
    return Seq(len(ps), lambda i: ps[i][1])


@method("dict", "items")
def _(it, d):
    if isinstance(d, SMap):
        s, get = it.seq(d), d.get
        return Seq(s.n, lambda i: (s.fn(i), get(s.fn(i))))
    ps = list(d.pairs)
    return Seq(len(ps), lambda i: ps[i])


@method("dict", "update")
def _(it, d, o=None, **k):
    it.note_write(d, "contents")
    if isinstance(d, SMap) or isinstance(o, SMap):
        has, get = map_view(d)
        has2, get2 = map_view(o)
        if not isinstance(d, SMap):
            if not d.pairs:
                d.__class__, d.has, d.get, d.n = SMap, has2, get2, None
                return
            raise Unsupported("dict update with a symbolic dict")
        d.enum = None
        d.has = lambda x: Or(has2(x), has(x))
        d.get = lambda x: (lambda v, w: w if v is None else ite(simp(to_z(has2(x))), v, w))(get2(x), get(x))
        return
    if o is not None:
        for kk, v in o.pairs:
            it.dict_set(d, kk, v)
    for kk, v in k.items():
        it.dict_set(d, kk, v)


@method("dict", "copy")
def _(it, d):
    return it.ctx.reg(VDict(list(d.pairs)))


@method("set", "add")
def _(it, s, v):
    it.note_write(s, "contents", v)
    if s.items is not None:
        c = Or(*[eqv(x, v) for x in s.items])
        if not it.ctx.branch(c):
            s.items.append(v)
        return
    old = s.has
    if s.n is None and s.enum is not None:
        s.n = s.enum.n
    if s.n is not None:
        s.n = ite(old(v), s.n, add(s.n, 1))
    s.has = lambda x: Or(eqv(x, v), old(x))
    s.enum = None


@method("set", "update")
def _(it, s, v):
    sq = it.seq(v)
    n = simp(sq.n)
    if not isinstance(n, int):
        raise Unsupported("set.update symbolic")
    for i in range(n):
        METHODS[("set", "add")](it, s, sq.fn(i))


@method("set", "clear")
def _(it, s):
    it.note_write(s, "contents", None)
    if s.items is not None:
        s.items.clear()
        return
    s.has, s.enum, s.n = (lambda x: False), None, 0


@method("set", "discard")
def _(it, s, v):
    it.note_write(s, "contents", v)
    if s.items is not None:
        for j, x in enumerate(s.items):
            if it.ctx.branch(eqv(x, v)):
                del s.items[j]
                return
        return
    old = s.has
    if s.n is None and s.enum is not None:
        s.n = s.enum.n
    if s.n is not None:
        s.n = ite(old(v), sub(s.n, 1), s.n)
    s.enum = None
    s.has = lambda x: And(old(x), Not(eqv(x, v)))


@method("set", "difference")
def _(it, s, o):
    return it.binop("Sub", s, it.to_set(o))


@method("set", "union")
def _(it, s, o):
    o = it.to_set(o)
    r = it.ctx.reg(VSet(items=list(s.items)))
    for x in o.items:
        METHODS[("set", "add")](it, r, x)
    return r


# ------------------------------------------------------------ str
def _strm(name):
    def f(it, s, *a, **k):
        a = [simp(x) for x in a]
        if isinstance(s, str) and all(isinstance(x, (str, int, tuple, type(None))) for x in a):
            r = getattr(s, name)(*a, **k)
            return it.ctx.reg(VList(items=list(r))) if isinstance(r, list) else r
        if isinstance(s, SStr):
            h = STR_SYM.get(name)
            if h:
                return h(it, s, *a, **k)
        raise Unsupported(f"str.{name} on {s!r}")
    METHODS[("str", name)] = f


STR_SYM = {}
for _n in ("lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "startswith", "endswith", "replace", "find", "isdigit", "isnumeric",
           "splitlines", "partition", "rpartition", "title", "count", "index", "capitalize", "swapcase", "isalpha", "isalnum", "isspace", "zfill", "removeprefix", "removesuffix"):
    _strm(_n)


@method("list", "remove")
def _(it, l, x):
    if l.items is None:
        raise Unsupported("remove from a symbolic list")
    for i, y in enumerate(l.items):
        if it.ctx.branch(eqv(y, x)):
            it.note_write(l, "contents", None)
            del l.items[i]
            it.writeback(l)
            return None
    raise PyExc(ValueError, ("not in list",))


@method("str", "join")
def _(it, s, items):
    sq = it.seq(items)
    n = simp(sq.n)
    if isinstance(n, int):
        out = []
        for i in range(n):
            if i:
                out.append(s)
            v = it.force(sq.fn(i))
            if isinstance(v, Atom) and v.kind == "str":
                v = SStr([("atom", v)])
            if not isinstance(v, (str, SStr)):
                raise PyExc(TypeError, ("join of non-str",)) if not isinstance(v, Atom) else Unsupported("join")
            out.append(v)
        return mkstr(out)
    l = VList(n=sq.n, fn=sq.fn)
    return SStr([("joined", s, l)])


@method("str", "encode")
def _(it, s, *a, **k):
    if isinstance(s, str):
        return s.encode(*a)
    return enc_str(it, s)


@method("bytes", "decode")
def _(it, s, *a, **k):
    if isinstance(s, bytes):
        return s.decode(*a)
    raise Unsupported("decode")


@method("str", "format")
def _(it, s, *a, **k):
    if not isinstance(s, str):
        raise Unsupported("format")
    import string
    parts = []
    auto = 0
    for lit, fld, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if fld is None:
            continue
        if spec:
            raise Unsupported("format spec")
        if fld == "":
            v = a[auto]
            auto += 1
        elif fld.isdigit():
            v = a[int(fld)]
        elif fld in k:
            v = k[fld]
        else:
            raise Unsupported("format field")
        parts.append(it.tostr(v))
    return mkstr(parts)


@method("num", "item")
def _(it, v):
    return v


@method("num", "astype")
def _(it, v, t):
    return v


@method("num", "copy")
def _(it, v):
    return v


# ------------------------------------------------------------ numpy arrays
ITEMSIZE = {"int64": 8, "uint64": 8, "int32": 4, "uint32": 4, "int16": 2, "uint16": 2, "int8": 1, "uint8": 1, "float32": 4, "float64": 8,
            "float16": 2, "bool": 1}


def dtype_of(it, t):
    """dtype argument -> dtype string"""
    t = it.force(t)
    if t is None:
        return None
    if isinstance(t, str):
        return t
    if isinstance(t, ExtRef):
        n = t.path.split(".")[-1].rstrip("_")
        n = {"float": "float64", "int": "int64", "bool": "bool", "single": "float32", "double": "float64", "byte": "int8", "ubyte": "uint8"}.get(n, n)
        if n in ITEMSIZE:
            return n
    if t is int:
        return "int64"
    if t is float:
        return "float64"
    if t is bool:
        return "bool"
    if isinstance(t, Ext) and t.kind == "dtype":
        return t.fields["name"]
    if isinstance(t, Atom) and t.kind == "dtype":
        return t
    raise Unsupported(f"dtype {t!r}")


def itemsize(d):
    if isinstance(d, Atom):
        if "itemsize" not in (d.attrs or {}):
            raise Unsupported("item size of an unknown dtype")
        return d.attrs["itemsize"]
    return ITEMSIZE[d]


def mkdtype(it, d):
    if isinstance(d, Atom):
        return d
    return it.ctx.reg(Ext("dtype", name=d))


class _Dtype:
    def a_itemsize(it, o):
        return ITEMSIZE[o.fields["name"]]

    def a_name(it, o):
        return o.fields["name"]

    def op_Eq(it, a, b):
        try:
            return a.fields["name"] == dtype_of(it, b)
        except Unsupported:
            return False


def mkarr(it, shape, fn, dtype="int64"):
    return it.ctx.reg(NArr(shape, fn, dtype))


NARROW = {d: (0, 2 ** b - 1) if d[0] == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1) for b in (8, 16, 32) for d in (f"int{b}", f"uint{b}")}


WRAP = z3.Function("wrapped", z3.IntSort(), z3.StringSort(), z3.IntSort())     # what is left of a value that does not fit: some other value


def fits(src, dst):
    """every value of an array of the first type is kept by the second"""
    if dst not in NARROW or src == "bool":
        return True
    return src in NARROW and NARROW[dst][0] <= NARROW[src][0] and NARROW[src][1] <= NARROW[dst][1]


def narrowed(v, d):
    """value kept when v is stored in an integer type of fewer bits"""
    lo, hi = NARROW[d]
    if isinstance(v, bool) or not (isinstance(v, int) or (isz(v) and z3.is_int(v))):
        return v
    if isinstance(v, int):
        return v if lo <= v <= hi else (v - lo) % (hi - lo + 1) + lo
    if z3.is_app(v) and fits(RANGES.get(v.decl().name()), d):
        return v
    return ite(And(v >= lo, v <= hi), v, WRAP(v, z3.StringVal(d)))


def narrow_fn(fn, src, dst):
    return fn if isinstance(dst, Atom) or isinstance(src, Atom) or fits(src, dst) else lambda *ix: narrowed(fn(*ix), dst)


def cast_fn(it, fn, src, dst):
    if src == dst or isinstance(dst, Atom):
        return fn
    if dst == "bool":
        return lambda *ix: it.truth_value(fn(*ix))
    if src in ("float32", "float64") and dst not in ("float32", "float64", "float16"):
        raise Unsupported("float to int cast of array")
    if src == "bool":
        return lambda *ix: to_int(fn(*ix)) if isz(fn(*ix)) else int(fn(*ix))
    return narrow_fn(fn, src, dst)


def arr_size(a):
    r = 1
    for s in a.shape:
        r = mul(r, s)
    return r


def to_arr(it, v, dtype=None):
    """np.array(v): new array"""
    v = it.force(v)
    if isinstance(v, NArr):
        d = dtype or v.dtype
        r = mkarr(it, v.shape, cast_fn(it, snap(v), v.dtype, d), d)
        if v.typed is not None and d == v.dtype:
            r.typed = to_arr(it, v.typed)
        return r
    if is_num(v):
        return mkarr(it, (), lambda: v, dtype or scalar_dtype(v))
    if isinstance(v, Ext):
        kd = it.world.kinds.get(v.kind)
        h = getattr(kd, "to_arr", None)
        if h:
            return h(it, v, dtype)
    s = it.seq(v)
    n = simp(s.n)
    if isinstance(n, int):
        items = [it.force(s.fn(i)) for i in range(n)]
        if all(is_num(x) for x in items):
            d = dtype or (scalar_dtype(items) if items else "float64")
            l = VList(items=items)
            return mkarr(it, (n,), narrow_fn(lambda i: lget(l, i), None, d), d)
        if all(isinstance(x, (VList, tuple, NArr)) for x in items):
            arrs = [to_arr(it, x, dtype) for x in items]
            sh = arrs[0].shape
            for a in arrs[1:]:
                if len(a.shape) != len(sh) or not all(it.ctx.branch(cmp("==", p, q)) for p, q in zip(a.shape, sh)):
                    raise PyExc(ValueError, ("inhomogeneous",))
            fs = [a.fn for a in arrs]

            def fn(i, *r):
                i = simp(i)
                if isinstance(i, int):
                    return fs[i](*r)
                x = fs[-1](*r)
                for j in range(len(fs) - 2, -1, -1):
                    x = ite(i == j, fs[j](*r), x)
                return x
            return mkarr(it, (n,) + tuple(sh), fn, arrs[0].dtype)
        raise Unsupported(f"np.array of {items!r}")
    e = s.fn(it.ctx.fresh_int("e"))
    if is_num(e):
        return mkarr(it, (n,), narrow_fn(s.fn, None, dtype), dtype or scalar_dtype(e))
    if isinstance(e, tuple) and all(is_num(x) for x in e):
        return mkarr(it, (n, len(e)), narrow_fn(lambda i, j: lget(VList(items=list(s.fn(i))), j), None, dtype), dtype or scalar_dtype(list(e)))
    if isinstance(e, NArr):
        return mkarr(it, (n,) + e.shape, narrow_fn(lambda i, *r: s.fn(i).fn(*r), e.dtype, dtype or e.dtype), dtype or e.dtype)
    if isinstance(e, VList) and isinstance(simp(e.length()), int):
        return mkarr(it, (n, simp(e.length())), narrow_fn(lambda i, j: lget(s.fn(i), j), None, dtype), dtype or "int64")
    if isinstance(e, VList) and is_num(e.fn(it.ctx.fresh_int("e"))):
        if not it.ctx.branch(gt(n, 0)):
            return mkarr(it, (0,), lambda i: 0, dtype or "float64")
        m = simp(s.fn(0).length())
        if not isinstance(m, int):
            for q in range(9):
                if it.ctx.entails(cmp("==", m, q)):
                    m = q
                    break
        if not it.ctx.branch(ForAll(1, lambda q: Implies(inrange(0, q, n), cmp("==", s.fn(q).length(), m)))):
            raise PyExc(ValueError, ("inhomogeneous",))
        return mkarr(it, (n, m), narrow_fn(lambda i, j: lget(s.fn(i), j), None, dtype), dtype or scalar_dtype(e.fn(it.ctx.fresh_int("e"))))
    raise Unsupported("np.array of symbolic sequence")


def scalar_dtype(v):
    vs = v if isinstance(v, list) else [v]
    if any(is_realv(x) for x in vs):
        return "float64"
    if all(isinstance(x, bool) or (isz(x) and z3.is_bool(x)) for x in vs):
        return "bool"
    return "int64"


class ArrMixin:
    def bcast(self, a, b):
        """broadcast two operands -> shape, fa, fb"""
        sa = a.shape if isinstance(a, NArr) else ()
        sb = b.shape if isinstance(b, NArr) else ()
        fa = snap(a) if isinstance(a, NArr) else (lambda *ix: a)
        fb = snap(b) if isinstance(b, NArr) else (lambda *ix: b)
        nd = max(len(sa), len(sb))
        shape = []
        ma, mb = [], []
        for d in range(nd):
            ia, ib = d - (nd - len(sa)), d - (nd - len(sb))
            da = sa[ia] if ia >= 0 else None
            db = sb[ib] if ib >= 0 else None
            if da is None:
                shape.append(db)
                mb.append((d, False))
            elif db is None:
                shape.append(da)
                ma.append((d, False))
            elif simp(cmp("==", da, db)) is True or (not isinstance(da, int) and not isinstance(db, int) and self.ctx.entails(cmp("==", da, db))):
                shape.append(da)
                ma.append((d, False))
                mb.append((d, False))
            elif da == 1 if isinstance(da, int) else False:
                shape.append(db)
                ma.append((d, True))
                mb.append((d, False))
            elif db == 1 if isinstance(db, int) else False:
                shape.append(da)
                ma.append((d, False))
                mb.append((d, True))
            else:
                if self.ctx.branch(cmp("==", da, db)):
                    shape.append(da)
                    ma.append((d, False))
                    mb.append((d, False))
                elif self.ctx.branch(cmp("==", da, 1)):
                    shape.append(db)
                    ma.append((d, True))
                    mb.append((d, False))
                elif self.ctx.branch(cmp("==", db, 1)):
                    shape.append(da)
                    ma.append((d, False))
                    mb.append((d, True))
                else:
                    raise PyExc(ValueError, ("broadcast",))
        ga = lambda *ix: fa(*[0 if z else ix[d] for d, z in ma])
        gb = lambda *ix: fb(*[0 if z else ix[d] for d, z in mb])
        return shape, ga, gb

    def arr_kept(self, fn, src, dst):
        return narrow_fn(fn, src, dst)

    def arr_operand(self, v):
        if isinstance(v, (VList, tuple)):
            return to_arr(self, v)
        if isinstance(v, NArr) or is_num(v):
            return v
        raise Unsupported(f"array operand {v!r}")

    def arr_binop(self, op, a, b):
        a, b = self.arr_operand(a), self.arr_operand(b)
        shape, fa, fb = self.bcast(a, b)
        da = a.dtype if isinstance(a, NArr) else scalar_dtype(a)
        db = b.dtype if isinstance(b, NArr) else scalar_dtype(b)
        if op == "Div":
            for x in (b,):
                if not isinstance(x, NArr) and self.ctx.branch(cmp("==", x, 0)):
                    raise Unsupported("array division by zero")
            dt = "float64"
            fn = lambda *ix: to_real(fa(*ix)) / to_real(fb(*ix))
            return mkarr(self, shape, fn, dt)
        dt = a.dtype if isinstance(a, NArr) else b.dtype
        if isinstance(a, NArr) and isinstance(b, NArr) and not fits(db, dt):
            dt = db if fits(da, db) else "int64"
        if "float" in str(da) or "float" in str(db):
            dt = "float64"
        if op in ("Add", "Sub", "Mult"):
            o = {"Add": "+", "Sub": "-", "Mult": "*"}[op]
            return mkarr(self, shape, narrow_fn(lambda *ix: arith(o, fa(*ix), fb(*ix)), None, dt), dt)
        if op in ("BitAnd", "BitOr") and da == "bool":
            g = And if op == "BitAnd" else Or
            return mkarr(self, shape, lambda *ix: g(fa(*ix), fb(*ix)), "bool")
        if op in ("FloorDiv", "Mod") and not isinstance(b, NArr):
            if isinstance(b, int) and b > 0:
                def fn(*ix):
                    x = to_int(fa(*ix))
                    return x / b if op == "FloorDiv" else x % b
                return mkarr(self, shape, fn, dt)
            if is_intlike(b) and self.ctx.entails(gt(b, 0)):
                return mkarr(self, shape, lambda *ix: self.ctx.divmod(to_int(fa(*ix)), b)[0 if op == "FloorDiv" else 1], dt)
        raise Unsupported(f"array op {op}")

    def arr_compare(self, op, a, b):
        a, b = self.arr_operand(a), self.arr_operand(b)
        shape, fa, fb = self.bcast(a, b)
        o = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        return mkarr(self, shape, lambda *ix: cmp(o, fa(*ix), fb(*ix)), "bool")

    def arr_write(self, a, fn):
        """replace contents (same shape)"""
        if a.base is not None:
            self.arr_write_where(a, lambda *ix: True, fn)
            return
        if a.merged:
            raise Unsupported("write to one of several arrays")
        self.note_write(a, "contents")
        a.fn = fn

    def arr_write_where(self, a, cond, val):
        if a.base is not None:
            b, mp, inv = a.base
            if inv is None:
                raise Unsupported("write through view")
            shp = a.shape

            def c2(*bix):
                ok, vix = inv(*bix)
                return And(ok, cond(*vix))

            def v2(*bix):
                ok, vix = inv(*bix)
                return val(*vix)
            self.arr_write_where(b, c2, v2)
            return
        if a.merged:
            raise Unsupported("write to one of several arrays")
        self.note_write(a, "contents")
        old = a.fn
        a.fn = lambda *ix: _ite_lazy(cond(*ix), lambda: val(*ix), lambda: old(*ix))

    def arr_index(self, a, k):
        """normalise an index tuple -> list of per-axis ('int', i) / ('slice', lo, st, n) / ('new',)"""
        if not isinstance(k, tuple):
            k = (k,)
        k = list(k)
        nreal = sum(1 for x in k if x is not None and x is not Ellipsis)
        if Ellipsis in [x for x in k if not isinstance(x, (NArr, VList)) and not isz(x)]:
            i = [j for j, x in enumerate(k) if x is Ellipsis][0]
            k[i:i + 1] = [slice(None, None, None)] * (len(a.shape) - nreal)
        while sum(1 for x in k if x is not None) < len(a.shape):
            k.append(slice(None, None, None))
        out = []
        ax = 0
        for x in k:
            if x is None:
                out.append(("new",))
                continue
            if ax >= len(a.shape):
                raise PyExc(IndexError, ("too many indices",))
            n = a.shape[ax]
            if isinstance(x, slice):
                if x.start is None and x.stop is None and x.step is None:
                    out.append(("slice", 0, 1, n))
                else:
                    lo, hi, st = self.slice_bounds(x, n)
                    if st == -1:
                        out.append(("slice", lo, -1, n))
                    else:
                        out.append(("slice", lo, st, self.slice_len(lo, hi, st)))
            else:
                x = self.force(x)
                if isinstance(x, (NArr, VList)):
                    out.append(("arr", x if isinstance(x, NArr) else to_arr(self, x), n))
                else:
                    out.append(("int", self.norm_index(x, n)))
            ax += 1
        return out

    def arr_getitem(self, a, k):
        kk = self.force(k)
        if isinstance(kk, NArr) and kk.dtype == "bool":
            return self.mask_get(a, kk)
        ix = self.arr_index(a, k)
        if any(x[0] == "arr" for x in ix):
            arrs = [x for x in ix if x[0] == "arr"]
            if len(arrs) != 1 or any(x[0] == "new" for x in ix):
                raise Unsupported("fancy indexing")
            sel, n = arrs[0][1], arrs[0][2]
            if sel.dtype == "bool":
                raise Unsupported("mask in tuple index")
            sf = snap(sel)
            # bounds: every index must be valid
            g = ForAll(len(sel.shape), lambda *q: Implies(And(*[inrange(0, i, s) for i, s in zip(q, sel.shape)]), inrange(0, sf(*q), n)))
            if not self.ctx.branch(g):
                raise PyExc(IndexError, ())
            af = snap(a)
            shape = []
            plan = []
            for x in ix:
                if x[0] == "int":
                    plan.append(("c", x[1]))
                elif x[0] == "slice":
                    plan.append(("s", len(shape), x[1], x[2]))
                    shape.append(x[3])
                else:
                    plan.append(("a", len(shape), len(sel.shape)))
                    shape += list(sel.shape)

            def fn(*q):
                full = []
                for p in plan:
                    if p[0] == "c":
                        full.append(p[1])
                    elif p[0] == "s":
                        full.append(add(p[2], mul(q[p[1]], p[3])))
                    else:
                        full.append(sf(*q[p[1]:p[1] + p[2]]))
                return af(*full)
            return mkarr(self, shape, fn, a.dtype)
        if all(x[0] == "int" for x in ix):
            return a.fn(*[x[1] for x in ix])
        shape = [1 if x[0] == "new" else x[3] for x in ix if x[0] != "int"]

        def mp(*q):
            full = []
            j = 0
            for x in ix:
                if x[0] == "new":
                    j += 1
                elif x[0] == "int":
                    full.append(x[1])
                else:
                    full.append(add(x[1], mul(q[j], x[2])))
                    j += 1
            return full

        def inv(*bix):
            ok = True
            out = []
            ax = 0
            for x in ix:
                if x[0] == "new":
                    out.append(0)
                    continue
                b = bix[ax]
                ax += 1
                if x[0] == "int":
                    ok = And(ok, eqv(b, x[1]))
                elif x[2] == 1:
                    v = sub(b, x[1])
                    ok = And(ok, inrange(0, v, x[3]))
                    out.append(v)
                elif isinstance(x[2], int) and x[2] > 1:
                    d = to_int(sub(b, x[1]))
                    ok = And(ok, d % x[2] == 0, d >= 0, lt(d / x[2], x[3]))
                    out.append(d / x[2])
                else:
                    raise Unsupported("write through strided view")
            return ok, out
        v = NArr(shape, None, a.dtype, base=(a, mp, inv))
        v.fn = lambda *q: a.fn(*mp(*q))
        self.ctx.reg(v)
        return v

    def mask_get(self, a, m):
        if len(m.shape) != 1 or len(a.shape) < 1:
            raise Unsupported("mask indexing")
        if not self.ctx.branch(cmp("==", m.shape[0], a.shape[0])):
            raise PyExc(IndexError, ())
        mf, af = snap(m), snap(a)
        l = self.filter_map(Seq(a.shape[0], lambda i: (i, mf(i))), lambda v: v[1], lambda v: v[0])
        r = mkarr(self, (l.n,) + a.shape[1:], lambda i, *rest: af(l.fn(i), *rest), a.dtype)
        r.fl = l
        return r

    def arr_setitem(self, a, k, v):
        v = self.force(v)
        kk = self.force(k)
        if isinstance(kk, NArr) and kk.dtype == "bool":
            mf = snap(kk)
            if isinstance(v, NArr) or not is_num(v):
                raise Unsupported("masked array store")
            self.arr_write_where(a, lambda *ix: mf(*ix[:len(kk.shape)]), narrow_fn(lambda *ix: v, None, a.dtype))
            return
        ix = self.arr_index(a, k)
        if any(x[0] in ("arr", "new") for x in ix):
            if len(ix) == 1 and is_num(v):
                sel = ix[0][1]
                sf = snap(sel)
                n = sel.shape[0]
                self.arr_write_where(a, lambda b: Exists(1, lambda i: And(inrange(0, i, n), eqv(sf(i), b))), narrow_fn(lambda b: v, None, a.dtype))
                return
            if is_num(v) and len(ix) == 2 and all(x[0] == "arr" and len(x[1].shape) == 1 for x in ix):
                self.arr_set_pairs(a, [x[1] for x in ix], [x[2] for x in ix], v)
                return
            raise Unsupported("fancy store")
        shape = [x[3] for x in ix if x[0] == "slice"]
        h = self.ctx.ghost.get("%on_store")
        if h and not shape and len(ix) == 1:
            h(self, a, ix[0][1], v)       # ghost code attached to a single-element store
        elif h:
            raise Unsupported("store of several elements where ghost code follows single stores")
        if isinstance(v, (VList, tuple)):
            v = to_arr(self, v)
        if isinstance(v, NArr):
            # broadcast v to shape
            vf0 = snap(v)
            vs = v.shape
            if len(vs) > len(shape):
                if all(isinstance(x, int) and x == 1 for x in vs[:len(vs) - len(shape)]):
                    drop = len(vs) - len(shape)
                    vf1 = vf0
                    vf0 = lambda *q: vf1(*([0] * drop), *q)
                    vs = vs[drop:]
                else:
                    raise PyExc(ValueError, ("broadcast",))
            off = len(shape) - len(vs)
            ones = []
            for j, s in enumerate(vs):
                if isinstance(s, int) and s == 1 and not (isinstance(shape[off + j], int) and shape[off + j] == 1):
                    ones.append(j)
                elif not self.ctx.branch(cmp("==", s, shape[off + j])):
                    if self.ctx.branch(cmp("==", s, 1)):
                        ones.append(j)
                    else:
                        raise PyExc(ValueError, ("could not broadcast",))
            vf = lambda *q: vf0(*[0 if j in ones else q[off + j] for j in range(len(vs))])
        elif is_num(v) or isinstance(v, Atom):
            vf = lambda *q: v
        else:
            raise Unsupported(f"array store of {v!r}")

        def inv(*bix):
            ok = True
            out = []
            for x, b in zip(ix, bix):
                if x[0] == "int":
                    ok = And(ok, eqv(b, x[1]))
                elif x[2] == 1:
                    q = sub(b, x[1]) if isz(x[1]) or x[1] != 0 else b
                    ok = And(ok, inrange(0, q, x[3]))
                    out.append(q)
                elif isinstance(x[2], int) and x[2] > 1:
                    d = to_int(sub(b, x[1]))
                    ok = And(ok, d % x[2] == 0, d >= 0, lt(d / x[2], x[3]))
                    out.append(d / x[2])
                else:
                    raise Unsupported("strided store")
            return ok, out
        vf = narrow_fn(vf, v.dtype if isinstance(v, NArr) else None, a.dtype)
        self.arr_write_where(a, lambda *b: inv(*b)[0], lambda *b: vf(*inv(*b)[1]))

    def arr_set_pairs(self, a, sel, dims, v):
        """one value at the positions (rows[i], columns[i])"""
        c = self.ctx
        f, g = snap(sel[0]), snap(sel[1])
        n = sel[0].shape[0]
        if not c.branch(eqv(n, sel[1].shape[0])):
            raise Unsupported("broadcast of index arrays")
        if not c.branch(ForAll(1, lambda i: Implies(inrange(0, i, n), And(inrange(0, f(i), dims[0]), inrange(0, g(i), dims[1]))))):
            raise Unsupported("index arrays that count from the end or leave the array")
        hit, wit = c.func("!hit", "int", "int", "bool"), c.func("!hit.at", "int", "int", "int")
        p, q, e = (z3.Int(c.name("!h" + x)) for x in "pqe")
        sound = lambda x, y: Implies(hit(to_z(x), to_z(y)), And(inrange(0, wit(to_z(x), to_z(y)), n), eqv(f(wit(to_z(x), to_z(y))), x), eqv(g(wit(to_z(x), to_z(y))), y)))
        full = lambda i: Implies(inrange(0, i, n), hit(to_z(f(i)), to_z(g(i))))
        c.assume(z3.ForAll([p, q], to_z(sound(p, q)), patterns=[hit(p, q)]))
        c.assume(z3.ForAll([e], to_z(full(e))))
        self.enums().append(("hit", (hit, wit, sound, full)))
        self.arr_write_where(a, lambda x, y: hit(to_z(x), to_z(y)), narrow_fn(lambda x, y: v, None, a.dtype))

    def arr_attr(self, a, name):
        if name == "shape":
            return tuple(a.shape)
        if name == "size":
            return arr_size(a)
        if name == "ndim":
            return len(a.shape)
        if name == "dtype":
            return mkdtype(self, a.dtype)
        if name == "itemsize":
            return itemsize(a.dtype)
        if name == "nbytes":
            return mul(arr_size(a), itemsize(a.dtype))
        if name == "T" and len(a.shape) == 2:
            f = snap(a)
            return mkarr(self, (a.shape[1], a.shape[0]), lambda i, j: f(j, i), a.dtype)
        if name == "ctypes":
            return self.ctx.reg(Ext("ndarray.ctypes", arr=a))
        if name == "data":
            return self.ctx.reg(Ext("memoryview", arr=NArr(a.shape, snap(a), a.dtype)))
        return None


def _ite_lazy(c, a, b):
    c = simp(c)
    if c is True:
        return a()
    if c is False:
        return b()
    return ite(c, a(), b())


for _n, _f in list(ArrMixin.__dict__.items()):
    if callable(_f):
        setattr(Interp, _n, _f)


def reshape(it, a, shape):
    """row-major reshape"""
    c = it.ctx
    shape = [it.force(s) for s in shape]
    size = arr_size(a)
    f = snap(a)
    neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    known = 1
    for s in shape:
        if not (isinstance(s, int) and s == -1):
            known = mul(known, s)
    if neg:
        if len(shape) == 1:
            shape[neg[0]] = size
        elif isinstance(known, int) and isinstance(size, int):
            if known == 0 or size % known:
                raise PyExc(ValueError, ("cannot reshape",))
            shape[neg[0]] = size // known
        else:
            # common case: the other dims are a suffix/prefix of the old ones
            q = None
            if len(a.shape) >= 2:
                for cut in range(len(a.shape) + 1):
                    p1 = 1
                    for s in a.shape[cut:]:
                        p1 = mul(p1, s)
                    if simp(cmp("==", p1, known)) is True:
                        p2 = 1
                        for s in a.shape[:cut]:
                            p2 = mul(p2, s)
                        q = p2
                        if not c.branch(cmp("!=", known, 0)):
                            raise PyExc(ValueError, ("cannot reshape",))
                        break
            if q is None:
                if not c.branch(cmp("!=", known, 0)):
                    raise PyExc(ValueError, ("cannot reshape",))
                qq, r = c.divmod(size, known)
                if not c.branch(cmp("==", r, 0)):
                    raise PyExc(ValueError, ("cannot reshape",))
                q = qq
            shape[neg[0]] = q
    else:
        if simp(cmp("==", known, size)) is not True and not c.branch(cmp("==", known, size)):
            raise PyExc(ValueError, ("cannot reshape",))
    old = list(a.shape)
    new = list(shape)
    if len(old) == len(new) and all(simp(cmp("==", x, y)) is True for x, y in zip(old, new)):
        m = lambda *ix: ix
    elif len(new) == 1 and len(old) == 1:
        m = lambda i: (i,)
    else:
        # strip common leading dims
        lead = 0
        while lead < min(len(old), len(new)) and simp(cmp("==", old[lead], new[lead])) is True:
            lead += 1
        o2, n2 = old[lead:], new[lead:]

        def flat(ix, dims):
            r = 0
            for i, d in zip(ix, dims):
                r = add(mul(r, d), i)
            return r

        def unflat(k, dims):
            out = []
            for d in reversed(dims[1:]):
                q, r = it.ctx.divmod(k, d)
                out.append(r)
                k = q
            if dims:
                out.append(k)
            return list(reversed(out))

        def m(*ix):
            return list(ix[:lead]) + unflat(flat(ix[lead:], n2), o2)
    if a.base is not None:
        return it.ctx.reg(NArr(new, lambda *ix: snap(a)(*m(*ix)), a.dtype, base=(a, m, None)))
    r = mkarr(it, new, lambda *ix: f(*m(*ix)), a.dtype)
    # numpy returns a view of contiguous data; reads agree, writes are refused
    r.isview = a
    return r


@method("ndarray", "reshape")
def _(it, a, *shape):
    if len(shape) == 1 and isinstance(it.force(shape[0]), (tuple, VList)):
        s = it.force(shape[0])
        shape = s if isinstance(s, tuple) else s.items
    return reshape(it, a, shape)


@method("ndarray", "copy")
def _(it, a, *k):
    return to_arr(it, a)


@method("ndarray", "view")
def _(it, a, dtype=None):
    d = dtype_of(it, dtype)
    t = a.typed
    if d == a.dtype or d is None:
        t = a
    if t is None or not (t.dtype is d or t.dtype == d):
        raise Unsupported("view with another dtype")
    r = NArr(t.shape, lambda *i: snap(t)(*i), t.dtype, base=(t, lambda *i: i, lambda *i: (True, i)))
    return it.ctx.reg(r)


@method("ndarray", "flatten")
def _(it, a):
    return reshape(it, a, [-1])


METHODS[("ndarray", "ravel")] = METHODS[("ndarray", "flatten")]


@method("ndarray", "astype")
def _(it, a, dtype=None, copy=True):
    d = dtype_of(it, dtype)
    if copy is False and (d is a.dtype or d == a.dtype):
        return a
    return mkarr(it, a.shape, cast_fn(it, snap(a), a.dtype, d), d)


@method("ndarray", "tolist")
def _(it, a):
    f = snap(a)
    n = simp(a.shape[0])
    if len(a.shape) == 1:
        if isinstance(n, int):
            return it.ctx.reg(VList(items=[f(i) for i in range(n)]))
        return it.ctx.reg(VList(n=n, fn=f))
    raise Unsupported("tolist of nd array")


@method("ndarray", "fill")
def _(it, a, v):
    it.arr_write(a, lambda *ix: v)


@method("ndarray", "sum")
def _(it, a, axis=None):
    if len(a.shape) == 1 and axis is None:
        return _sum(it, [a], {})
    raise Unsupported("ndarray.sum")


@method("ndarray", "max")
def _(it, a, axis=None):
    if len(a.shape) == 1 and axis is None:
        return _max(it, [a], {})
    raise Unsupported("ndarray.max")


@method("ndarray", "min")
def _(it, a, axis=None):
    if len(a.shape) == 1 and axis is None:
        return _min(it, [a], {})
    raise Unsupported("ndarray.min")


@method("ndarray", "tobytes")
def _(it, a):
    n = mul(arr_size(a), ITEMSIZE[a.dtype]) if not isinstance(a.dtype, Atom) else it.ctx.fresh_int("nb")
    return Bytes([("arr:" + str(a.dtype), NArr(a.shape, snap(a), a.dtype), n)])


def install(world):
    """register kinds and numpy function contracts"""
    world.kinds["super"] = _Super
    world.kinds["iterator"] = _Iterator
    world.kinds["dtype"] = _Dtype
    M = world.models

    def model(path):
        def d(f):
            M[path] = whole(path, f)
            return f
        return d

    def arg(a, k, i, name, default=None):
        return a[i] if len(a) > i else k.get(name, default)

    for n in list(ITEMSIZE) + ["float", "int", "bool", "bool_", "float_", "int_"]:
        def conv(it, a, k, n=n):
            v = it.force(a[0])
            d = dtype_of(it, ExtRef("numpy." + n))
            if isinstance(v, (NArr, VList)):
                return to_arr(it, v, d)
            if isinstance(v, Ext) and v.kind == "dtype":
                return v
            if "float" in d:
                return py_float(it, v)
            return py_int(it, v)
        M["numpy." + n] = conv
    world.consts["numpy.newaxis"] = None
    world.consts["numpy.nan"] = lambda it: Atom("nan", z3.Const("nan", Val))
    world.consts["numpy.inf"] = float("inf")
    world.consts["math.inf"] = float("inf")

    world.consts["os.path.sep"] = world.consts["os.sep"] = "/"

    @model("os.path.join")
    def _(it, a, k):
        """posix join of parts that are not absolute and do not end with a slash"""
        r = it.tostr(a[0])
        for x in a[1:]:
            if isinstance(x, str) and x.startswith("/"):
                r = x
                continue
            last = r if isinstance(r, str) else r.parts[-1] if isinstance(r.parts[-1], str) else "x"
            r = it.binop("Add", r, ("" if last.endswith("/") or last == "" else "/"))
            r = it.binop("Add", r, it.tostr(x))
        return r

    @model("numpy.dtype")
    def _(it, a, k):
        return mkdtype(it, dtype_of(it, a[0]))

    @model("numpy.array")
    def _(it, a, k):
        return to_arr(it, a[0], dtype_of(it, arg(a, k, 1, "dtype")))

    @model("numpy.asarray")
    def _(it, a, k):
        v = it.force(a[0])
        d = dtype_of(it, arg(a, k, 1, "dtype"))
        if isinstance(v, NArr) and (d is None or d == v.dtype):
            return v
        return to_arr(it, v, d)

    @model("numpy.fromiter")
    def _(it, a, k):
        return to_arr(it, a[0], dtype_of(it, arg(a, k, 1, "dtype")))

    def shape_arg(it, s):
        s = it.force(s)
        if is_intlike(s):
            return (s,)
        if isinstance(s, VList):
            return tuple(s.items)
        return tuple(it.force(x) for x in s)

    def full(it, shape, v, d):
        for s in shape:
            if it.ctx.branch(lt(s, 0)):
                raise PyExc(ValueError, ("negative dimensions",))
        if isinstance(v, (VList, tuple)):
            v = to_arr(it, v)
        if isinstance(v, NArr):
            if len(v.shape) > len(shape):
                raise PyExc(ValueError, ("broadcast",))
            off = len(shape) - len(v.shape)
            ones = []
            for j, s in enumerate(v.shape):
                if it.ctx.branch(cmp("==", s, shape[off + j])):
                    continue
                if not it.ctx.branch(cmp("==", s, 1)):
                    raise PyExc(ValueError, ("broadcast",))
                ones.append(j)
            vf = snap(v)
            return mkarr(it, shape, narrow_fn(lambda *ix: vf(*[0 if j in ones else ix[off + j] for j in range(len(v.shape))]), v.dtype, d), d)
        return mkarr(it, shape, narrow_fn(lambda *ix: v, None, d), d)

    def conv(d, v):
        if d == "bool":
            return bool(v)
        return v

    @model("numpy.zeros")
    def _(it, a, k):
        d = dtype_of(it, arg(a, k, 1, "dtype")) or "float64"
        return full(it, shape_arg(it, arg(a, k, 0, "shape")), False if d == "bool" else 0, d)

    @model("numpy.ones")
    def _(it, a, k):
        d = dtype_of(it, arg(a, k, 1, "dtype")) or "float64"
        return full(it, shape_arg(it, arg(a, k, 0, "shape")), True if d == "bool" else 1, d)

    @model("numpy.full")
    def _(it, a, k):
        v = it.force(arg(a, k, 1, "fill_value"))
        return full(it, shape_arg(it, arg(a, k, 0, "shape")), v, dtype_of(it, arg(a, k, 2, "dtype")) or (scalar_dtype(v) if is_num(v) else "float64"))

    @model("numpy.full_like")
    def _(it, a, k):
        src = a[0]
        v = it.force(a[1])
        return full(it, src.shape, v, dtype_of(it, k.get("dtype")) or src.dtype)

    @model("numpy.zeros_like")
    def _(it, a, k):
        src = a[0]
        return full(it, src.shape, 0, dtype_of(it, k.get("dtype")) or src.dtype)

    @model("numpy.ones_like")
    def _(it, a, k):
        src = a[0]
        return full(it, src.shape, 1, dtype_of(it, k.get("dtype")) or src.dtype)

    @model("numpy.empty")
    def _(it, a, k):
        shape = shape_arg(it, arg(a, k, 0, "shape"))
        d = dtype_of(it, arg(a, k, 1, "dtype")) or "float64"
        f = it.ctx.func("!empty", *(["int"] * len(shape)), "real" if "float" in str(d) else "int")
        for s in shape:
            if it.ctx.branch(lt(s, 0)):
                raise PyExc(ValueError, ("negative dimensions",))
        return mkarr(it, shape, lambda *ix: f(*[to_z(i) for i in ix]) if ix else f(), d)

    @model("numpy.empty_like")
    def _(it, a, k):
        src = a[0]
        return M["numpy.empty"](it, [tuple(src.shape)], {"dtype": k.get("dtype") or mkdtype(it, src.dtype)})

    @model("numpy.arange")
    def _(it, a, k):
        if len(a) == 1:
            lo, hi, st = k.get("start", 0) if False else 0, a[0], k.get("step", 1)
        else:
            lo, hi = (a[0] if a else k.get("start", 0)), (a[1] if len(a) > 1 else k.get("stop"))
            st = a[2] if len(a) > 2 else k.get("step", 1)
        lo, hi, st = it.force(lo), it.force(hi), it.force(st)
        for x in (lo, hi, st):
            if not is_intlike(x):
                raise Unsupported("arange of non-integers")
        r = _range(it, [lo, hi, st], {})
        d = dtype_of(it, k.get("dtype")) or "int64"
        return mkarr(it, (r.n,), narrow_fn(r.fn, None, d), d)

    @model("numpy.unique")
    def _(it, a, k):
        if set(k) - {"return_inverse"} or len(a) > 1:
            raise Unsupported("np.unique options")
        v = to_arr(it, a[0])
        if len(v.shape) != 1:
            v = reshape(it, v, [-1])
        s = it.to_set(v)
        l = _sorted(it, [s], {})
        u = to_arr(it, l, v.dtype)
        it.enums().append(("ascending", lambda i, j: Implies(And(0 <= i, i < j, lt(j, u.shape[0])), lt(u.fn(i), u.fn(j)))))
        if not it.truth(k.get("return_inverse", False)):
            return u
        # position of every element among the distinct ones
        c = it.ctx
        f, m, n = u.fn, u.shape[0], v.shape[0]
        g = v.fn
        at = c.func("!inverse", "int", "int")
        q = z3.Int(c.name("!iq"))
        inst = lambda i: Implies(inrange(0, i, n), And(inrange(0, at(i), m), eqv(f(at(i)), g(i))))
        c.assume(z3.ForAll([q], to_z(inst(q)), patterns=[at(q)]))
        it.enums().append(("inverse", lambda i: (at(i), inst(i))))
        return (u, mkarr(it, (n,), lambda i: at(to_z(i)), "int64"))

    @model("numpy.fill_diagonal")
    def _(it, a, k):
        v = it.force(a[0])
        if not isinstance(v, NArr) or len(v.shape) != 2 or not is_num(it.force(a[1])) or len(a) > 2 or k:
            raise Unsupported("fill_diagonal")
        x = it.force(a[1])
        it.arr_write_where(v, lambda i, j: eqv(i, j), lambda i, j: x)

    @model("numpy.eye")
    def _(it, a, k):
        if len(a) > 1 or set(k) - {"dtype"}:
            raise Unsupported("eye")
        n = it.force(a[0])
        return mkarr(it, (n, n), lambda i, j: ite(eqv(i, j), 1, 0), dtype_of(it, k.get("dtype")) or "float64")

    @model("numpy.ascontiguousarray")
    def _(it, a, k):
        return to_arr(it, a[0], dtype_of(it, arg(a, k, 1, "dtype")))

    @model("numpy.copy")
    def _(it, a, k):
        return to_arr(it, a[0])

    @model("numpy.concatenate")
    def _(it, a, k):
        v = it.force(a[0])
        axis = arg(a, k, 1, "axis", 0)
        s = it.seq(v)
        n = simp(s.n)
        if not isinstance(n, int):
            return concat_all(it, s, axis)
        arrs = [to_arr(it, s.fn(i)) for i in range(n)]
        if not arrs:
            raise PyExc(ValueError, ("need at least one array",))
        if axis is None:
            arrs = [reshape(it, x, [-1]) for x in arrs]
            axis = 0
        if axis < 0:
            axis += len(arrs[0].shape)
        r = arrs[0]
        for b in arrs[1:]:
            r = concat2(it, r, b, axis)
        return r

    def concat_all(it, s, axis):
        """a symbolic number of arrays along the first axis"""
        c = it.ctx
        e = s.fn(c.fresh_int("block"))
        if axis != 0 or not isinstance(e, NArr) or any(is_sym(simp(x)) for x in e.shape[1:]):
            raise Unsupported("concatenate of symbolic list")
        if c.branch(eqv(s.n, 0)):
            raise PyExc(ValueError, ("need at least one array",))
        ln = lambda i: s.fn(i).shape[0]
        S = sumfn(c, ln)
        n = to_z(s.n)
        at = c.func("!blockof", "int", "int")
        q = z3.Int(c.name("!bq"))
        inst = lambda r: Implies(inrange(0, r, S(n)), And(inrange(0, at(r), n), S(at(r)) <= r, r < S(at(r) + 1)))
        c.assume(z3.ForAll([q], to_z(inst(q)), patterns=[at(q)]))
        it.enums().append(("concat", lambda r: ((S, ln, at, n), inst(r))))
        return mkarr(it, (S(n),) + tuple(e.shape[1:]), lambda r, *ix: s.fn(at(to_z(r))).fn(to_z(r) - S(at(to_z(r))), *ix), e.dtype)

    @model("numpy.nditer")
    def _(it, a, k):
        v = it.force(a[0])
        if isinstance(v, NArr):
            v = VList(items=[v])
        l = it.seq(v)
        arrs = [to_arr(it, l.fn(i)) for i in range(simp(l.n))]
        if any(len(x.shape) != 1 for x in arrs):
            raise Unsupported("nditer of several dimensions")
        for x in arrs[1:]:
            if not it.ctx.branch(eqv(arrs[0].shape[0], x.shape[0])):
                raise Unsupported("nditer broadcast")
        n = arrs[0].shape[0]
        if it.ctx.branch(eqv(n, 0)):
            raise PyExc(ValueError, ("Iteration of zero-sized operands is not enabled",))
        fs = [snap(x) for x in arrs]
        one = lambda f, x, i: f(i)
        return Seq(n, (lambda i: fs[0](i)) if len(fs) == 1 else lambda i: tuple(f(i) for f in fs))

    @model("numpy.block")
    def _(it, a, k):
        l = it.seq(it.force(a[0]))
        arrs = [to_arr(it, l.fn(i)) for i in range(simp(l.n))]
        if any(len(x.shape) != 2 for x in arrs):
            raise Unsupported("block")
        r = arrs[0]
        for b in arrs[1:]:
            r = concat2(it, r, b, 1)
        return r

    def concat2(it, x, y, axis):
        if len(x.shape) != len(y.shape):
            raise PyExc(ValueError, ("dims",))
        for d in range(len(x.shape)):
            if d != axis and not it.ctx.branch(cmp("==", x.shape[d], y.shape[d])):
                raise PyExc(ValueError, ("shape mismatch",))
        fx, fy = x.fn, y.fn
        n = x.shape[axis]
        shape = list(x.shape)
        shape[axis] = add(n, y.shape[axis])

        def fn(*ix):
            jx = list(ix)
            jx[axis] = sub(ix[axis], n)
            return _ite_lazy(lt(ix[axis], n), lambda: fx(*ix), lambda: fy(*jx))
        dt = x.dtype
        if "float" in str(y.dtype) and "float" not in str(x.dtype):
            dt = y.dtype
        return mkarr(it, shape, fn, dt)

    @model("numpy.append")
    def _(it, a, k):
        x, y = to_arr(it, a[0]), to_arr(it, a[1])
        ax = arg(a, k, 2, "axis")
        if ax is None:
            return concat2(it, reshape(it, x, [-1]), reshape(it, y, [-1]), 0)
        return concat2(it, x, y, ax)

    @model("numpy.repeat")
    def _(it, a, k):
        v = to_arr(it, a[0])
        r = it.force(arg(a, k, 1, "repeats"))
        ax = arg(a, k, 2, "axis")
        if ax is None:
            v = reshape(it, v, [-1])
            ax = 0
        if isinstance(r, (NArr, VList)):
            h = it.overrides.get("numpy.repeat:array") or M.get("numpy.repeat:array")
            if h is None:
                raise Unsupported("repeat with array counts")
            return h(it, v, r)
        if it.ctx.branch(lt(r, 0)):
            raise PyExc(ValueError, ())
        f = v.fn
        shape = list(v.shape)
        shape[ax] = mul(shape[ax], r)

        def fn(*ix):
            jx = list(ix)
            jx[ax] = it.ctx.divmod(ix[ax], r)[0]
            return f(*jx)
        return mkarr(it, shape, fn, v.dtype)

    @model("numpy.tile")
    def _(it, a, k):
        v = to_arr(it, a[0])
        r = it.force(a[1])
        if len(v.shape) != 1 or not is_intlike(r):
            raise Unsupported("tile")
        f, n = v.fn, v.shape[0]
        return mkarr(it, (mul(n, r),), lambda i: f(it.ctx.divmod(i, n)[1]), v.dtype)

    @model("numpy.stack")
    def _(it, a, k):
        s = it.seq(a[0])
        n = simp(s.n)
        axis = arg(a, k, 1, "axis", 0)
        if not isinstance(n, int):
            raise Unsupported("stack of symbolic list")
        arrs = [to_arr(it, s.fn(i)) for i in range(n)]
        sh = arrs[0].shape
        for b in arrs[1:]:
            if len(b.shape) != len(sh) or not all(it.ctx.branch(cmp("==", p, q)) for p, q in zip(b.shape, sh)):
                raise PyExc(ValueError, ("all input arrays must have the same shape",))
        if axis < 0:
            axis += len(sh) + 1
        shape = list(sh[:axis]) + [n] + list(sh[axis:])
        fs = [b.fn for b in arrs]

        def fn(*ix):
            j = simp(ix[axis])
            rest = list(ix[:axis]) + list(ix[axis + 1:])
            if isinstance(j, int):
                return fs[j](*rest)
            r = fs[-1](*rest)
            for q in range(len(fs) - 2, -1, -1):
                r = ite(j == q, fs[q](*rest), r)
            return r
        return mkarr(it, shape, fn, arrs[0].dtype)

    @model("numpy.pad")
    def _(it, a, k):
        v = to_arr(it, a[0])
        w = it.force(a[1])
        mode = arg(a, k, 2, "mode", "constant")
        cv = k.get("constant_values", 0)
        if mode != "constant" or isinstance(cv, tuple):
            raise Unsupported("pad mode")
        if isinstance(w, VList):
            w = tuple(w.items)
        if isinstance(w, tuple) and len(w) == 2 and not isinstance(w[0], (tuple, VList)) and len(v.shape) == 1:
            w = (w,)
        if is_intlike(w):
            w = tuple((w, w) for _ in v.shape)
        w = [tuple(x.items) if isinstance(x, VList) else x for x in w]
        f = v.fn
        shape = []
        for s, (lo, hi) in zip(v.shape, w):
            if it.ctx.branch(Or(lt(lo, 0), lt(hi, 0))):
                raise PyExc(ValueError, ("pad width",))
            shape.append(add(add(lo, s), hi))

        def fn(*ix):
            inside = And(*[inrange(lo, i, add(lo, s)) for i, s, (lo, hi) in zip(ix, v.shape, w)])
            return _ite_lazy(inside, lambda: f(*[sub(i, lo) for i, (lo, hi) in zip(ix, w)]), lambda: cv)
        return mkarr(it, shape, fn, v.dtype)

    @model("numpy.reshape")
    def _(it, a, k):
        s = it.force(a[1])
        return reshape(it, to_arr(it, a[0]), [s] if is_intlike(s) else (s if isinstance(s, tuple) else s.items))

    for _nm, _op in (("multiply", "Mult"), ("add", "Add"), ("subtract", "Sub"), ("divide", "Div"), ("true_divide", "Div")):
        M["numpy." + _nm] = lambda it, a, k, op=_op: it.binop(op, to_arr(it, a[0]) if isinstance(it.force(a[0]), VList) else a[0], to_arr(it, a[1]) if isinstance(it.force(a[1]), VList) else a[1])

    @model("numpy.sum")
    def _(it, a, k):
        return _sum(it, [to_arr(it, a[0])], {})

    @model("numpy.max")
    def _(it, a, k):
        return _max(it, [to_arr(it, a[0])], {})

    @model("numpy.ceil")
    def _(it, a, k):
        return it.ctx.ceil(it.force(a[0]))

    @model("numpy.prod")
    def _(it, a, k):
        s = it.seq(a[0])
        n = simp(s.n)
        if not isinstance(n, int):
            raise Unsupported("prod")
        r = 1
        for i in range(n):
            r = mul(r, s.fn(i))
        return r

    @model("math.ceil")
    def _(it, a, k):
        return it.ctx.ceil(it.force(a[0]))

    @model("math.floor")
    def _(it, a, k):
        return it.ctx.floor(it.force(a[0]))

    @model("itertools.repeat")
    def _(it, a, k):
        n = arg(a, k, 1, "times")
        v = a[0]
        if n is None:
            s = Seq(None, lambda i: v)
            s.infinite = True
            return s
        return Seq(n, lambda i: v)

    @model("itertools.chain")
    def _(it, a, k):
        l = it.ctx.reg(VList(items=[]))
        for x in a:
            it.list_extend(l, x)
        return l

    @model("operator.add")
    def _(it, a, k):
        return it.binop("Add", a[0], a[1])

    @model("typing.cast")
    def _(it, a, k):
        return a[1]

    # logging: no effect on results
    world.kinds["logger"] = type("Logger", (), {"dyn": staticmethod(lambda it, o, n: Prim(n, lambda i2, a, k: None))})
    for p in ("logging.getLogger",):
        M[p] = lambda it, a, k: it.ctx.reg(Ext("logger"))
    M["logging.basicConfig"] = lambda it, a, k: None


def default_overrides():
    """repo functions replaced by contracts everywhere: logging only"""
    ov = {}
    for q in ("deepgnn.logging_utils.get_logger", "deepgnn.get_logger"):
        ov[q] = lambda it, a, k: it.ctx.reg(Ext("logger"))
    return ov
