"""Symbolic interpreter for the Python subset used by /repo, working on the AST
of the files as they are on disk at the time of the run."""
import ast
import builtins as _b
import os
import re
import numpy as _np
import z3
from fractions import Fraction
from .core import *
from .core import _pyval

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src/python")


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class ExtRef:
    """reference to something outside the repo, by dotted path"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"


class VModule:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path).read(), path)
        self.src = open(path).read()
        self.defs = {}
        self.env = None


class VFunc(Obj):
    def __init__(self, node, module, env, qual, cls=None, defaults=None, kwdefaults=None):
        self.node, self.module, self.env, self.qual, self.cls = node, module, env, qual, cls
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}
        self.kind = "func"
        self.isgen = None

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")


class VClass(Obj):
    def __init__(self, name, node, module, bases, qual):
        self.name, self.node, self.module, self.bases, self.qual = name, node, module, bases, qual
        self.ns = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, VClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, VClass) and name in c.ns:
                return c.ns[name], c
        return None, None

    def issub(self, other):
        for c in self.mro():
            if c is other:
                return True
            if isinstance(c, type) and isinstance(other, type) and issubclass(c, other):
                return True
            if isinstance(c, ExtRef) and isinstance(other, ExtRef) and c.path == other.path:
                return True
        return False

    def __repr__(self):
        return f"<class {self.name}>"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Prim:
    """primitive implemented in the verifier: f(interp, args, kwargs)"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<prim {self.name}>"


class Env:
    def __init__(self, parent, module, func=None, locals_=None):
        self.vars = {}
        self.parent, self.module, self.func = parent, module, func
        self.localnames = locals_ or set()
        self.globals_ = set()
        self.nonlocals = set()
        self.cls = None

    def lookup_env(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


def assigned_names(body):
    """names bound by statements (not descending into nested defs)"""
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in body:
        visit(s)
    return out


def has_yield(node):
    def v(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if v(c):
                return True
        return False
    return v(node)


def FREE(L):
    """no invariant needed"""
    return []


class LoopSpec:
    """Loop annotation. `when(L)` selects it, `inv(L)` gives [(name, formula)], None for no invariant,
    `variant(L)` an int expression that must decrease and stay >= 0,
    `types` gives havoc types for places whose type cannot be inferred."""

    def __init__(self, name, inv, when=None, variant=None, types=None, func=None, ghost=None, counts=False):
        self.name, self.inv, self.when, self.variant = name, inv, when, variant
        self.counts = counts          # written for a while loop: the number of rounds is meant
        self.types = types or {}
        self.func = func
        self.ghost = ghost


class LoopView:
    """What annotations see at a loop head."""

    def __init__(self, interp, env, k, seq, entry, node, spec=None):
        self.__dict__.update(interp=interp, env=env, rounds=k, seq=seq, entry=entry, node=node, c=interp.ctx, ghost=interp.ctx.ghost, phase="", spec=spec)

    @property
    def k(self):
        """rounds so far; in a while loop they say nothing about the values of the round, unless the annotation is for one"""
        if isinstance(self.node, ast.While) and self.spec is not None and not self.spec.counts:
            self.interp.world.asked.setdefault(f"(rounds of {self.spec.name})", False)
        return self.rounds

    def __getattr__(self, name):
        e = self.env.lookup_env(name)
        if e is None:
            raise Unsupported(f"annotation name {name!r} does not bind at loop line {self.node.lineno}")
        return e.vars[name]

    def has(self, *names):
        log = self.interp.world.asked
        for n in names:
            log[n] = log.get(n, False) or self.env.lookup_env(n) is not None
        return all(self.env.lookup_env(n) is not None for n in names)

    def maybe(self, name):
        """bound here? (no matter if it never is)"""
        return self.env.lookup_env(name) is not None

    def src(self):
        return ast.unparse(self.node)

    def func(self):
        return self.env.func.qual if self.env.func else ""


class Star:
    """*args of symbolic length, for callables that accept it"""

    def __init__(self, seq):
        self.seq = seq


class World:
    """Parsed repo + registered external models."""

    def __init__(self):
        self.asked = {}       # variable names annotations ask for -> bound at some loop
        self.modules = {}
        self.models = {}      # dotted path -> f(interp, args, kwargs)
        self.consts = {}      # dotted path -> value factory(interp)
        self.kinds = {}       # Ext kind -> class with methods
        self.used = set()
        self.functions = {}   # qual -> (file, line)
        self.classcache = {}
        self.atom_methods = {}
        self.overrides = {}   # repo qual -> model
        self.refops = {}      # operators on references to external names

    def modpath(self, name):
        base = os.path.join(SRC, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        return None

    def module(self, name):
        if name not in self.modules:
            p = self.modpath(name)
            if p is None:
                raise Unsupported(f"module {name} not found")
            self.modules[name] = VModule(name, p)
        return self.modules[name]

    def class_text(self, c):
        """source text of the modules a class and its bases are in"""
        ps = {x.module.path for x in c.mro() if isinstance(x, VClass)}
        return "\n".join(open(p).read() for p in sorted(ps))

    def defined(self, qual):
        """is a dotted name of the repo a function or class in its module?"""
        ps = qual.split(".")
        for n in range(len(ps) - 1, 0, -1):
            p = self.modpath(".".join(ps[:n]))
            if p:
                x = ps[-1]
                for y in (x, re.sub(r"^_[A-Za-z]\w*?(?=__)", "", x)):
                    if re.search(rf"\b(def|class) {y}\b|^\s*{y}\s*(:[^=]*)?=", open(p).read(), re.M):
                        return True
                # inherited, or imported from elsewhere
                return n < len(ps) - 1 and x.startswith("__") or re.search(rf"\bimport\s*(\([^)]*|[^\n(]*)\b{x}\b", open(p).read()) is not None
        return False


class Interp:
    def __init__(self, ctx, world, loops=(), overrides=None):
        self.ctx, self.world = ctx, world
        self.loops = list(loops)
        self.modenv = {}
        self.loopcount = {}
        self.active_loops = []   # (entry_noid, key, pathmap, allowed)
        self.yields = []
        self.depth = 0
        self.overrides = overrides or {}
        self.curline = 0
        self.handlers = []
        self.generic = None      # index of the comprehension element being evaluated

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modenv:
            return self.modenv[name]
        m = self.world.module(name)
        env = Env(None, m)
        env.lazy = {}
        self.modenv[name] = env
        for s in m.tree.body:
            self._lazy_top(env, s)
        return env

    def run_main(self, name):
        """execute the `if __name__ == "__main__"` block of a module"""
        env = self.load_module(name)
        for s in env.module.tree.body:
            if isinstance(s, ast.If) and "__name__" in ast.unparse(s.test):
                e = Env(env, env.module)
                self.exec_block(s.body, e)

    def _lazy_top(self, env, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                nm = a.asname or a.name.split(".")[0]
                full = a.name if a.asname else a.name.split(".")[0]
                env.lazy[nm] = ("import", full, None)
        elif isinstance(s, ast.ImportFrom):
            mod = s.module or ""
            if s.level:
                pk = env.module.name.split(".")
                if not env.module.path.endswith("__init__.py"):
                    pk = pk[:-1]
                pk = pk[:len(pk) - (s.level - 1)]
                mod = ".".join(pk + ([mod] if mod else []))
            for a in s.names:
                env.lazy[a.asname or a.name] = ("from", mod, a.name)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            env.lazy[s.name] = ("def", s, None)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.lazy[t.id] = ("expr", s.value, None)
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            env.lazy[s.target.id] = ("expr", s.value, None)
        elif isinstance(s, ast.If):
            # platform switches: take the else branch if the test mentions Windows
            t = ast.unparse(s.test)
            body = s.orelse if ("Windows" in t or "Darwin" in t or "TYPE_CHECKING" in t) else s.body
            if "__name__" in t:
                body = []
            for x in body:
                self._lazy_top(env, x)
        elif isinstance(s, ast.Try):
            for x in s.body:
                self._lazy_top(env, x)

    def resolve_lazy(self, env, name):
        kind, a, b = env.lazy[name]
        if kind == "import":
            v = self.import_module(a)
        elif kind == "from":
            v = self.import_from(a, b)
        elif kind == "def":
            v = self.make_def(a, env, env.module.name)
        else:
            v = self.eval(a, env)
        env.vars[name] = v
        return v

    def import_module(self, name):
        if self.world.modpath(name):
            return self.load_module(name)
        return ExtRef(name)

    def import_from(self, mod, name):
        if self.world.modpath(mod + "." + name):
            return self.load_module(mod + "." + name)
        if self.world.modpath(mod):
            env = self.load_module(mod)
            v = self.module_attr(env, name)
            return v
        return ExtRef(mod + "." + name)

    def module_attr(self, env, name):
        if name in env.vars:
            return env.vars[name]
        if name in env.lazy:
            return self.resolve_lazy(env, name)
        sub = env.module.name + "." + name
        if self.world.modpath(sub):
            return self.load_module(sub)
        if name.startswith("__"):
            raise Unsupported(f"module attribute {name}")
        if self.depth == 0:
            raise Unsupported(f"{name} not found")
        raise PyExc(AttributeError, (name,))

    def make_def(self, s, env, qualbase):
        if isinstance(s, ast.ClassDef):
            return self.make_class(s, env, qualbase)
        return self.make_func(s, env, qualbase)

    def make_func(self, s, env, qualbase, cls=None):
        qual = qualbase + "." + s.name
        f = VFunc(s, env.module, env, qual, cls)
        f.defaults = [self.eval(d, env) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        f.isgen = has_yield(s)
        for d in s.decorator_list:
            n = ast.unparse(d)
            if n in ("property", "abc.abstractproperty", "abstractproperty"):
                f.kind = "property"
            elif n == "staticmethod":
                f.kind = "static"
            elif n == "classmethod":
                f.kind = "class"
            elif n.endswith(".setter"):
                f.kind = "setter"
            elif n.endswith("abstractmethod") or n.startswith("overload") or n.endswith("deprecated"):
                pass
            elif n.endswith("contextmanager"):
                f.kind = "ctxmgr"
            elif n.split("(")[0].split(".")[-1] in ("lru_cache", "cache") and (qual in self.overrides or not (s.args.args or s.args.vararg or s.args.kwarg or s.args.kwonlyargs)):
                f.memo = True        # without arguments: one result, returned again by later calls
            else:
                raise Unsupported(f"decorator {n}")
        self.ctx.reg(f)
        return f

    def make_class(self, s, env, qualbase):
        bases = [self.eval(b.value if isinstance(b, ast.Subscript) else b, env) for b in s.bases]
        c = VClass(s.name, s, env.module, bases, qualbase + "." + s.name)
        self.ctx.reg(c)
        cenv = Env(env, env.module)
        cenv.cls = c
        cenv.vars = c.ns
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, env, c.qual, c)
                if f.kind == "setter":
                    c.ns["%set_" + st.name] = f
                else:
                    c.ns[st.name] = f
            elif isinstance(st, ast.ClassDef):
                c.ns[st.name] = self.make_class(st, env if env.cls is None else env, c.qual)
            elif isinstance(st, ast.Assign):
                v = self.eval(st.value, cenv)
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.ns[t.id] = v
            elif isinstance(st, ast.AnnAssign):
                if st.value is not None:
                    c.ns[st.target.id] = self.eval(st.value, cenv)
        ext_enum = any(isinstance(b, ExtRef) and b.path in ("enum.Enum", "enum.IntEnum") for b in c.mro())
        if ext_enum:
            for k, v in list(c.ns.items()):
                if isinstance(v, (int, str)) and not k.startswith("_"):
                    e = self.ctx.reg(Inst(c, {"value": v, "name": k}))
                    c.ns[k] = e
            c.ns["__members__"] = self.ctx.reg(VDict([(k, v) for k, v in c.ns.items() if isinstance(v, Inst) and v.cls is c]))
        c.dataclass = any(ast.unparse(d).split("(")[0].endswith("dataclass") for d in s.decorator_list)
        return c

    def get(self, dotted):
        """resolve 'pkg.mod:Class.method' to a value"""
        mod, _, path = dotted.partition(":")
        env = self.load_module(mod)
        v = None
        for i, p in enumerate(path.split(".")):
            if i == 0:
                v = self.module_attr(env, p)
            else:
                x, _ = v.find(p)
                if x is None and isinstance(v, VClass) and p.startswith("__") and not p.endswith("__"):
                    x, _ = v.find(p)
                if x is None:
                    raise Unsupported(f"{dotted} not found")
                v = x
        return v

    def new(self, dotted, **fields):
        c = self.get(dotted)
        text = self.world.class_text(c)
        for n in fields:
            n = re.sub(r"^_[A-Za-z]\w*?(?=__)", "", n)
            if not re.search(rf"\.{n}\b", text):
                self.world.asked.setdefault(n, False)
        o = self.ctx.reg(Inst(c, dict(fields)))
        o.partial = True
        return o

    # ------------------------------------------------------------ writes/frames
    def note_write(self, obj, place, val=None):
        """called on every mutation of a heap object"""
        if getattr(obj, "escaped", False):
            raise Unsupported("write to an object that was stored in a symbolic list")
        if getattr(obj, "shadow", False) and getattr(obj, "parent", None) is None:
            h = self.ctx.ghost.get("%on_shadow")
            if h is None or not h(self, obj, place, val):
                raise Unsupported("write to an element of a symbolic collection")
        for fr in self.active_loops:
            if obj.oid is not None and obj.oid < fr["noid"] and not fr.get("done"):
                key = (fr["paths"].get(obj.oid), place)
                if key[0] is None:
                    raise Unsupported(f"loop writes object not reachable by name ({obj!r}.{place}) at line {self.curline}")
                if key not in fr["havoc"]:
                    tbl = self.ctx.runner.auto_havoc.setdefault(fr["key"], {})
                    if key in tbl:
                        t = join_type(tbl[key], typeof(val) if val is not None else None)
                        if t == tbl[key]:
                            raise Unsupported(f"loop havoc of {key} failed")
                        tbl[key] = t
                    else:
                        tbl[key] = typeof(val) if val is not None else None
                    raise Rerun()
                elif val is not None and place == "contents" and isinstance(obj, VList):
                    tbl = self.ctx.runner.auto_havoc.setdefault(fr["key"], {})
                    t = join_type(tbl.get(key), typeof(val))
                    if key not in tbl or t != tbl[key]:
                        if fr["spec_types"].get(key) is None and obj.etype is None:
                            tbl[key] = t
                            raise Rerun()

    def setfield(self, obj, name, val):
        self.note_write(obj, "F:" + name, val)
        obj.fields[name] = val

    # ------------------------------------------------------------ calls
    def force(self, v):
        while isinstance(v, Opt):
            if self.ctx.branch(v.isnone):
                return None
            v = v.val
        if isinstance(v, Poison):
            raise Unsupported(f"read of unknown value ({v.why}) at line {self.curline}")
        return v

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Bound):
            if isinstance(f.fn, Prim):
                return f.fn.f(self, [f.self_] + args, kwargs)
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, Prim):
            return f.f(self, args, kwargs)
        if isinstance(f, VFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExtRef):
            return self.call_ext(f.path, args, kwargs)
        if isinstance(f, Inst):
            m, _ = f.cls.find("__call__") if isinstance(f.cls, VClass) else (None, None)
            if m:
                return self.call(m, [f] + args, kwargs)
        if isinstance(f, Ext):
            return self.ext_method(f, "__call__", args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            e = self.ctx.reg(Inst(f, {"args": tuple(args)}))
            return e
        if isinstance(f, Atom) and f.kind == "callable":
            return f.attrs["call"](self, args, kwargs)
        raise Unsupported(f"call of {f!r} at line {self.curline}")

    def call_ext(self, path, args, kwargs):
        m = self.overrides.get(path) or self.world.models.get(path)
        if m is None:
            raise Unsupported(f"external function {path} has no contract (line {self.curline})")
        self.world.used.add(path)
        return m(self, args, kwargs)

    def instantiate(self, c, args, kwargs):
        ov = self.overrides.get(c.qual)
        if ov is not None:
            self.world.used.add("repo:" + c.qual)
            return ov(self, args, kwargs)
        for b in c.mro():
            if isinstance(b, type) and issubclass(b, BaseException):
                o = self.ctx.reg(Inst(c, {"args": tuple(args)}))
                init, _ = c.find("__init__")
                if init:
                    self.call(init, [o] + args, kwargs)
                return o
        if any(isinstance(b, ExtRef) and b.path.startswith("enum.") for b in c.mro()):
            for v in c.ns.values():
                if isinstance(v, Inst) and v.cls is c and simp(eqv(v.fields["value"], args[0])) is True:
                    return v
            raise PyExc(ValueError, tuple(args))
        o = self.ctx.reg(Inst(c))
        init, owner = c.find("__init__")
        if init is not None:
            self.call(init, [o] + args, kwargs)
        elif getattr(c, "dataclass", False):
            names = []
            for k in reversed([x for x in c.mro() if isinstance(x, VClass)]):
                for st in k.node.body:
                    if isinstance(st, ast.AnnAssign) and st.target.id not in names:
                        names.append(st.target.id)
            for n, a in zip(names, args):
                o.fields[n] = a
            for n in names[len(args):]:
                if n in kwargs:
                    o.fields[n] = kwargs[n]
                else:
                    d, _ = c.find(n)
                    o.fields[n] = d
        elif any(isinstance(b, ExtRef) and b.path in ("typing.NamedTuple",) for b in c.mro()):
            raise Unsupported("NamedTuple")
        elif args or kwargs:
            exts = [b for b in c.mro() if isinstance(b, ExtRef)]
            if exts and not all(e.path in ("abc.ABC", "object", "typing.Generic", "typing.Protocol", "collections.abc.Iterator") for e in exts):
                raise Unsupported(f"external base constructor {exts}")
        return o

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        vars_ = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for n in pos:
            if args:
                vars_[n] = args.pop(0)
            elif n in kwargs:
                vars_[n] = kwargs.pop(n)
        for n in list(kwargs):
            if n in pos and n in vars_:
                raise PyExc(TypeError, (f"multiple values for {n}",))
        if a.vararg:
            vars_[a.vararg.arg] = tuple(args)
        elif args:
            raise PyExc(TypeError, ("too many positional arguments",))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vars_:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyExc(TypeError, (f"missing argument {n}",))
                vars_[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vars_[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vars_[x.arg] = f.kwdefaults[x.arg]
            else:
                raise PyExc(TypeError, (f"missing argument {x.arg}",))
        if a.kwarg:
            vars_[a.kwarg.arg] = self.ctx.reg(VDict([(k, v) for k, v in kwargs.items()]))
        elif kwargs:
            raise PyExc(TypeError, (f"unexpected keyword {list(kwargs)}",))
        return vars_

    def call_func(self, f, args, kwargs):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            self.world.used.add("repo:" + f.qual)
            return ov(self, args, kwargs)
        if getattr(f, "memo", False):
            memo = self.ctx.ghost.setdefault("%memo", {})
            if f.qual not in memo:
                f.memo = False
                try:
                    memo[f.qual] = self.call_func(f, args, kwargs)
                finally:
                    f.memo = True
            return memo[f.qual]
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion depth")
        self.world.functions[f.qual] = (f.module.path, f.node.lineno)
        env = Env(f.env, f.module, f)
        env.vars = self.bind_args(f, args, kwargs)
        fid = id(f.node)
        if isinstance(f.node, ast.Lambda):
            try:
                return self.eval(f.node.body, env)
            finally:
                self.depth -= 1
        env.localnames = assigned_names(f.node.body) | set(env.vars)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Nonlocal):
                env.nonlocals |= set(n.names)
            if isinstance(n, ast.Global):
                env.globals_ |= set(n.names)
        env.localnames -= env.nonlocals | env.globals_
        gen = f.isgen if f.isgen is not None else has_yield(f.node)
        saved_loops = self.active_loops
        try:
            if gen:
                if f.kind == "ctxmgr":
                    raise Unsupported("contextmanager generator")
                out = self.ctx.reg(VList(items=[]))
                self.yields.append(out)
                env.vars["%yield"] = out
                try:
                    self.exec_block(f.node.body, env)
                except _Ret:
                    pass
                finally:
                    self.yields.pop()
                return self.ctx.reg(Ext("generator", list=out, pos=0))
            try:
                self.exec_block(f.node.body, env)
            except _Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.curline = s.lineno
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        pass

    def s_Nonlocal(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            env.vars[nm] = self.import_module(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = self.import_from(s.module, a.name)

    def s_FunctionDef(self, s, env):
        q = env.func.qual + ".<locals>" if env.func else env.module.name
        env.vars[s.name] = self.make_func(s, env, q)

    def s_ClassDef(self, s, env):
        q = env.func.qual + ".<locals>" if env.func else env.module.name
        env.vars[s.name] = self.make_class(s, env, q)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.eval(s.value.value, env) if s.value.value is not None else None
            self.do_yield(env, v)
            return
        if isinstance(s.value, ast.YieldFrom):
            it = self.eval(s.value.value, env)
            sq = self.seq(it)
            if isinstance(simp(sq.n), int):
                for i in range(simp(sq.n)):
                    self.do_yield(env, sq.fn(i))
                return
            raise Unsupported("yield from symbolic")
        self.eval(s.value, env)

    def do_yield(self, env, v):
        e = env.lookup_env("%yield")
        if e is None:
            raise Unsupported("yield outside generator")
        self.list_append(e.vars["%yield"], v)

    def s_Return(self, s, env):
        raise _Ret(self.eval(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise _Brk()

    def s_Continue(self, s, env):
        raise _Cont()

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.eval(t.value, env))
                k = self.eval(t.slice, env)
                if isinstance(o, VDict):
                    for j, (kk, _) in enumerate(o.pairs):
                        if self.ctx.branch(eqv(kk, k)):
                            self.note_write(o, "contents")
                            del o.pairs[j]
                            break
                    else:
                        raise PyExc(KeyError, (k,))
                else:
                    raise Unsupported("del item")
            else:
                raise Unsupported("del attribute")

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, env)
            new = self.inplace(op, cur, self.eval(s.value, env))
            self.assign(s.target, new, env)
        elif isinstance(s.target, ast.Attribute):
            o = self.force(self.eval(s.target.value, env))
            nm = self.mangle(s.target.attr, env)
            cur = self.getattr(o, nm)
            new = self.inplace(op, cur, self.eval(s.value, env))
            self.setattr(o, nm, new)
        elif isinstance(s.target, ast.Subscript):
            o = self.force(self.eval(s.target.value, env))
            k = self.eval_index(s.target.slice, env)
            cur = self.getitem(o, k)
            new = self.inplace(op, cur, self.eval(s.value, env))
            self.setitem(o, k, new)

    def inplace(self, op, cur, v):
        cur = self.force(cur)
        if isinstance(cur, VList) and op == "Add":
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, NArr) and op in ("Add", "Sub", "Mult", "Div"):
            r = self.binop(op, cur, v)
            self.arr_write(cur, self.arr_kept(r.fn, r.dtype, cur.dtype))
            return cur
        if isinstance(cur, Ext):
            h = getattr(self.world.kinds.get(cur.kind), "iop_" + op, None)
            if h:
                h(self, cur, v)
                return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                e = env
                while e.parent is not None:
                    e = e.parent
                e.vars[t.id] = v
                return
            if t.id in env.nonlocals:
                e = env.parent.lookup_env(t.id)
                e.vars[t.id] = v
                return
            env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.force(self.eval(t.value, env))
            self.setattr(o, self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, env))
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, env):
        v = self.force(v)
        sq = self.seq(v)
        n = simp(sq.n)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if not isinstance(n, int):
                if not self.ctx.branch(ge(n, len(elts) - 1)):
                    raise PyExc(ValueError, ("not enough values to unpack",))
                for j in range(i):
                    self.assign(elts[j], sq.fn(j), env)
                rest = self.ctx.reg(VList(n=sub(n, i + after), fn=lambda q: sq.fn(add(q, i))))
                self.assign(elts[i].value, rest, env)
                for j in range(after):
                    self.assign(elts[i + 1 + j], sq.fn(add(sub(n, after), j)), env)
                return
            items = [sq.fn(j) for j in range(n)]
            if n < len(elts) - 1:
                raise PyExc(ValueError, ("not enough values to unpack",))
            for j in range(i):
                self.assign(elts[j], items[j], env)
            self.assign(elts[i].value, self.ctx.reg(VList(items=items[i:n - after])), env)
            for j in range(after):
                self.assign(elts[i + 1 + j], items[n - after + j], env)
            return
        if not self.ctx.branch(cmp("==", n, len(elts))):
            raise PyExc(ValueError, ("unpack length",))
        for j, e in enumerate(elts):
            self.assign(e, sq.fn(j), env)

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyExc(AssertionError, ())

    def s_Raise(self, s, env):
        if s.exc is None:
            if self.handlers:
                raise self.handlers[-1]
            raise Unsupported("bare raise")
        e = self.eval(s.exc, env)
        if isinstance(e, (type, VClass, ExtRef)):
            e = self.call(e, [])
        if isinstance(e, Inst):
            raise PyExc(e.cls, e.fields.get("args", ()), e)
        if isinstance(e, Ext) and e.kind == "exception":
            raise PyExc(e.fields["cls"], (), e)
        raise Unsupported("raise of non exception")

    def exc_match(self, exc, spec):
        if spec is None:
            return True
        if isinstance(spec, tuple):
            return any(self.exc_match(exc, s) for s in spec)
        c = exc.cls
        if isinstance(spec, ExtRef):
            spec = self.world.consts.get(spec.path, spec)
        if isinstance(c, ExtRef) or isinstance(spec, ExtRef):
            if isinstance(c, ExtRef) and isinstance(spec, ExtRef):
                return c.path == spec.path
            if spec in (Exception, BaseException):
                return True
            return False
        if isinstance(c, VClass):
            return c.issub(spec)
        if isinstance(spec, VClass):
            return False
        return issubclass(c, spec)

    def s_Try(self, s, env):
        def main():
            try:
                self.exec_block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    spec = self.eval(h.type, env) if h.type is not None else None
                    if self.exc_match(e, spec):
                        if h.name:
                            env.vars[h.name] = e.inst or self.ctx.reg(Inst(e.cls, {"args": e.eargs}))
                        self.handlers.append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.handlers.pop()
                        return
                raise
            else:
                self.exec_block(s.orelse, env)
        if not s.finalbody:
            main()
            return
        try:
            main()
        except (PyExc, _Ret, _Brk, _Cont):
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def s_With(self, s, env):
        self.with_items(s, 0, env)

    def with_items(self, s, i, env):
        if i == len(s.items):
            self.exec_block(s.body, env)
            return
        it = s.items[i]
        cm = self.force(self.eval(it.context_expr, env))
        v = self.call_method(cm, "__enter__", [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(s, i + 1, env)
        except PyExc as e:
            r = self.call_method(cm, "__exit__", [e.cls, e.inst, None])
            if r is True:
                return
            raise
        except (_Ret, _Brk, _Cont):
            self.call_method(cm, "__exit__", [None, None, None])
            raise
        else:
            self.call_method(cm, "__exit__", [None, None, None])

    # ------------------------------------------------------------ loops
    def s_For(self, s, env):
        it = self.force(self.eval(s.iter, env))
        if isinstance(it, Ext) and it.kind in self.world.kinds and hasattr(self.world.kinds[it.kind], "stream"):
            return self.stream_loop(s, env, it)
        if isinstance(it, Inst):
            m, _ = it.cls.find("__iter__")
            it = self.call_method(it, "__iter__", [])
            if isinstance(it, Inst):
                return self.iter_loop(s, env, it)
        sq = self.seq(it)
        n = simp(sq.n)
        if isinstance(n, int) and n <= 64:
            for i in range(n):
                self.assign(s.target, sq.fn(i), env)
                try:
                    self.exec_block(s.body, env)
                except _Brk:
                    return
                except _Cont:
                    continue
            self.exec_block(s.orelse, env)
            return
        def get(k):
            v = sq.fn(k)
            if isinstance(it, VList) and it.items is None:
                return self.handle(v, it, k)
            return v
        self.loop(s, env, sq, lambda k: lt(k, n), lambda k: self.assign(s.target, get(k), env), n)

    def iter_loop(self, s, env, it):
        """for over an interpreted iterator object: while True: x = next(it)"""
        def step(k):
            try:
                v = self.call_method(it, "__next__", [])
            except PyExc as e:
                if self.exc_match(e, StopIteration):
                    raise _Brk()
                raise
            self.assign(s.target, v, env)
        if s.orelse:
            raise Unsupported("for-else over iterator object")
        self.loop(s, env, None, lambda k: True, step, None)

    def stream_loop(self, s, env, it):
        kd = self.world.kinds[it.kind]

        def step(k):
            v = kd.stream(self, it)
            if v is StopIteration:
                raise _Brk()
            self.assign(s.target, v[0], env)
        self.loop(s, env, None, lambda k: True, step, None)

    def as_for(self, s, env):
        """`while True: try: x = next(i) except StopIteration: break; ...` over an iterator of its own is a for loop"""
        if not (isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and len(s.body) > 1 and isinstance(s.body[0], ast.Try)):
            return None
        t = s.body[0]
        if len(t.body) != 1 or len(t.handlers) != 1 or t.orelse or t.finalbody or not isinstance(t.body[0], ast.Assign):
            return None
        a, h = t.body[0], t.handlers[0]
        v = a.value
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "next" and len(v.args) == 1 and isinstance(v.args[0], ast.Name) and not v.keywords):
            return None
        if not (isinstance(h.type, ast.Name) and h.type.id == "StopIteration" and len(h.body) == 1 and isinstance(h.body[0], ast.Break)) or len(a.targets) != 1:
            return None
        nm = v.args[0].id
        if any(isinstance(x, ast.Name) and x.id == nm for b in s.body[1:] for x in ast.walk(b)) or nm not in env.vars:
            return None
        i = self.force(env.vars[nm])
        if not (isinstance(i, Ext) and i.kind == "iterator" and i.fields.get("pos") == 0):
            return None
        return ast.copy_location(ast.For(a.targets[0], v.args[0], s.body[1:], []), s)

    def s_While(self, s, env):
        f = self.as_for(s, env)
        if f is not None:
            self.s_For(f, env)
            env.vars[f.iter.id] = Poison("iterator after its loop")
            return
        # concrete prefix: run while the condition is concretely decided
        if self.find_spec(s, env, None) is None:
            for i in range(5000):
                c = self.eval(s.test, env)
                t = self.truth_value(c)
                if isz(t):
                    if not self.ctx.feasible(t):
                        t = False
                    elif i > 40:
                        raise Unsupported(f"while loop without annotation at line {s.lineno}")
                    else:
                        raise Unsupported(f"while loop without annotation at line {s.lineno}")
                if not t:
                    self.exec_block(s.orelse, env)
                    return
                if i > 200 and isinstance(s.test, ast.Constant):
                    raise Unsupported(f"unbounded loop at line {s.lineno}")
                try:
                    self.exec_block(s.body, env)
                except _Brk:
                    return
                except _Cont:
                    continue
            raise Unsupported("loop bound")

        def cond(k):
            return self.truth_value(self.eval(s.test, env))
        self.loop(s, env, None, cond, lambda k: None, None)

    def find_spec(self, s, env, seq):
        L = LoopView(self, env, 0, seq, None, s)
        for sp in self.loops:
            if sp.func is not None and not re.search(sp.func, L.func()):
                continue
            try:
                if sp.when is None or sp.when(L):
                    return sp
            except Unsupported:
                continue
        return None

    def reach(self, env):
        """object number -> access path, from names visible at the loop head"""
        paths = {}
        work = []
        e = env
        while e is not None and e.parent is not None:
            for k, v in e.vars.items():
                work.append(("L:" + k, v))
            e = e.parent
        for k, v in self.ctx.ghost.items():
            work.append(("G:" + k, v))
        i = 0
        while i < len(work):
            p, v = work[i]
            i += 1
            if isinstance(v, Bound):
                work.append((p + ".B", v.self_))
            if isinstance(v, tuple):
                for j, x in enumerate(v):
                    work.append((p + f".T{j}", x))
                continue
            if not isinstance(v, Obj) or v.oid is None or v.oid in paths:
                continue
            paths[v.oid] = p
            paths[("obj", p)] = v
            if isinstance(v, (Inst, Ext)):
                for k, x in v.fields.items():
                    work.append((p + ".F:" + k, x))
            elif isinstance(v, VList) and v.items is not None:
                for j, x in enumerate(v.items):
                    work.append((p + f".I{j}", x))
            elif isinstance(v, VDict):
                for kk, x in v.pairs:
                    work.append((p + f".K{key_of(kk)}", x))
            elif isinstance(v, VFunc) and v.env is not None and v.env.parent is not None:
                for k, x in v.env.vars.items():
                    work.append((p + ".E:" + k, x))
        return paths

    def loop(self, s, env, seq, cond, step, n):
        spec = self.find_spec(s, env, seq)
        if spec is None:
            raise Unsupported(f"loop without annotation at line {s.lineno} in {env.func.qual if env.func else '?'}")
        lname = spec.name
        c = self.ctx
        key = (env.module.name, s.lineno, s.col_offset)
        self.loopcount[key] = self.loopcount.get(key, 0) + 1
        paths = self.reach(env)
        assigned = assigned_names(s.body) | (assigned_names([s]) if isinstance(s, ast.For) else set())
        entry = {k: v for k, v in env.vars.items()}
        entry_snap = Snapshot(self, env)
        L0 = LoopView(self, env, 0, seq, entry_snap, s, spec)
        L0.__dict__["phase"] = "init"
        if spec.ghost:
            spec.ghost(L0)
        for nm, f in spec.inv(L0) or []:
            c.oblige(f"{lname}/init:{nm}", f, "loop")
        # havoc
        havoc = {}
        for nm in assigned:
            e = env
            if nm in env.nonlocals:
                e = env.parent.lookup_env(nm)
            if nm in e.vars:
                t = spec.types.get("L:" + nm) or typeof(e.vars[nm])
                e.vars[nm] = fresh_of(self, t, nm)
            else:
                e.vars[nm] = Poison(f"{nm} bound only inside the loop")
        tbl = c.runner.auto_havoc.get(key, {})
        stypes = {}
        for (p, place), t in sorted(tbl.items(), key=lambda x: (x[0][0], x[0][1].startswith("F:"), x[0][1])):
            o = paths.get(("obj", p))
            havoc[(p, place)] = True
            if o is None:
                continue
            st = spec.types.get(f"{p}/{place}")
            stypes[(p, place)] = st
            if place.startswith("F:"):
                f = place[2:]
                cur = o.fields.get(f)
                tt = st or join_type(typeof(cur) if f in o.fields else None, t)
                o.fields[f] = fresh_of(self, tt, f)
            else:
                havoc_contents(self, o, st or t)
        k = c.fresh_int("k")
        c.assume(k >= 0)
        if n is not None:
            c.assume(le(k, n) if not isinstance(n, int) else le(k, n))
        L = LoopView(self, env, k, seq, entry_snap, s, spec)
        L.__dict__["phase"] = "assume"
        invs = spec.inv(L)
        if invs == [] and spec.inv is not FREE:
            self.world.asked.setdefault(f"(invariant of {lname})", False)
        for nm, f in invs or []:
            c.assume(f)
        var0 = spec.variant(L) if spec.variant else None
        frame = {"noid": c.noid, "paths": paths, "havoc": havoc, "key": key, "spec_types": stypes}
        # objects reachable: those created before the loop only
        frame["noid"] = entry_snap.noid
        self.active_loops.append(frame)
        if c.branch(cond(k)):
            try:
                step(k)
                self.exec_block(s.body, env)
            except _Brk:
                self.active_loops.remove(frame)
                return
            except _Cont:
                pass
            except (_Ret, PyExc):
                self.active_loops.remove(frame)
                raise
            L2 = LoopView(self, env, k + 1, seq, entry_snap, s, spec)
            L2.__dict__["phase"] = "step"      # obligations stated only here are proved per iteration and never assumed
            for nm, f in spec.inv(L2) or []:
                c.oblige(f"{lname}/step:{nm}", f, "loop")
            if spec.variant:
                v1 = spec.variant(L2)
                c.oblige(f"{lname}/variant", And(ge(v1, 0), lt(v1, var0)), "loop")
            raise PathEnd()
        self.active_loops.remove(frame)
        if n is not None:
            c.assume(cmp("==", k, n))
        self.exec_block(s.orelse, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {e.lineno}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v == v and abs(v) != float("inf"):
                return Fraction(v) if v != int(v) else float(v)
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if name in e.localnames:
                raise PyExc(UnboundLocalError, (name,))
            if e.parent is None and hasattr(e, "lazy") and name in e.lazy:
                return self.resolve_lazy(e, name)
            e = e.parent
        b = BUILTINS.get(name)
        if b is not None:
            return b
        if hasattr(_b, name) and isinstance(getattr(_b, name), type):
            return getattr(_b, name)
        if name == "__file__":
            return "/module.py"
        if name == "__name__":
            return env.module.name
        if hasattr(_b, name) or name.startswith("__"):
            raise Unsupported(f"builtin {name} at line {self.curline}")
        raise PyExc(NameError, (name,))

    def e_Tuple(self, e, env):
        return tuple(self.splat(e.elts, env))

    def splat(self, elts, env, call=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                sq = self.seq(self.force(self.eval(x.value, env)))
                n = simp(sq.n)
                if not isinstance(n, int):
                    if call:
                        out.append(Star(sq))
                        continue
                    raise Unsupported("star of symbolic sequence")
                out += [sq.fn(i) for i in range(n)]
            else:
                out.append(self.eval(x, env))
        return out

    def e_List(self, e, env):
        return self.ctx.reg(VList(items=self.splat(e.elts, env)))

    def e_Set(self, e, env):
        return self.mkset(self.splat(e.elts, env))

    def e_Dict(self, e, env):
        d = self.ctx.reg(VDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.force(self.eval(v, env))
                for kk, vv in o.pairs:
                    self.dict_set(d, kk, vv)
            else:
                self.dict_set(d, self.eval(k, env), self.eval(v, env))
        return d

    def mkset(self, items):
        out = []
        for x in items:
            if not any(simp(eqv(x, y)) is True or (not isinstance(simp(eqv(x, y)), bool) and self.ctx.branch(eqv(x, y))) for y in out):
                out.append(x)
        return self.ctx.reg(VSet(items=out))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return False if isz(v) and z3.is_bool(v) else v
            if not isand and t:
                return True if isz(v) and z3.is_bool(v) else v
        return v

    def e_UnaryOp(self, e, env):
        v = self.force(self.eval(e.operand, env))
        if isinstance(e.op, ast.Not):
            t = self.truth_value(v)
            return Not(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, NArr):
                return self.ctx.reg(NArr(v.shape, lambda *i, f=v.fn: arith("-", 0, f(*i)), v.dtype))
            return arith("-", 0, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, NArr):
            return self.ctx.reg(NArr(v.shape, lambda *i, f=v.fn: Not(f(*i)), v.dtype))
        raise Unsupported("unary op")

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, NArr) or isinstance(b, NArr):
            return self.arr_binop(op, a, b)
        if is_num(a) and is_num(b):
            return self.num_binop(op, a, b)
        if (isinstance(a, (str, SStr)) or isinstance(b, (str, SStr))) and not isinstance(a, Ext) and not isinstance(b, Ext):
            if op == "Add" and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return mkstr([a, b])
            if op == "Mod" and isinstance(a, str):
                return self.str_percent(a, b)
            if op == "Mult" and isinstance(a, str) and isinstance(b, int):
                return a * b
            if op == "Add" and all(x is None or isinstance(x, (str, SStr, VList, VDict, VSet, tuple)) or is_num(x) for x in (a, b)):
                raise PyExc(TypeError, ("str concat",))
            raise Unsupported(f"string {op}")
        if isinstance(a, VList) and isinstance(b, VList) and op == "Add":
            return self.list_concat(a, b)
        if isinstance(a, VList) and op == "Mult" and is_intlike(b):
            return self.list_mult(a, b)
        if isinstance(b, VList) and op == "Mult" and is_intlike(a):
            return self.list_mult(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == "Mult":
            return a * b
        if isinstance(a, VSet) and isinstance(b, VSet) and op == "Sub" and a.items is not None and b.items is not None:
            return self.ctx.reg(VSet(items=[x for x in a.items if not any(self.ctx.branch(eqv(x, y)) for y in b.items)]))
        if isinstance(a, bytes) and isinstance(b, bytes) and op == "Add":
            return a + b
        if isinstance(a, (bytes, Bytes)) and isinstance(b, (bytes, Bytes)) and op == "Add":
            return mkbytes(a).concat(mkbytes(b))
        for x, y, rev in ((a, b, False), (b, a, True)):
            if isinstance(x, ExtRef):
                h = self.world.refops.get(op)
                r = h(self, x, y) if h else None
                if r is not None:
                    return r
            if isinstance(x, Atom) and x.kind in self.world.atom_methods:
                h = self.world.atom_methods[x.kind].get(("r" if rev else "") + "op_" + op)
                if h:
                    return h(self, x, y)
            if isinstance(x, Ext):
                kd = self.world.kinds.get(x.kind)
                h = getattr(kd, ("r" if rev else "") + "op_" + op, None)
                if h:
                    return h(self, x, y)
            if isinstance(x, Inst) and isinstance(x.cls, VClass):
                nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Mod": "mod"}.get(op)
                m, _ = x.cls.find(f"__{'r' if rev else ''}{nm}__")
                if m:
                    return self.call(m, [x, y])
        if (a is None or b is None):
            raise PyExc(TypeError, (f"unsupported operand {op}",))
        raise Unsupported(f"{op} on {a!r}, {b!r} at line {self.curline}")

    def num_binop(self, op, a, b):
        c = self.ctx
        if op in ("Add", "Sub", "Mult"):
            return arith({"Add": "+", "Sub": "-", "Mult": "*"}[op], a, b)
        if op in ("Div", "FloorDiv", "Mod"):
            if c.branch(cmp("==", b, 0)):
                raise PyExc(ZeroDivisionError, ())
            if op == "Div":
                if not is_sym(a) and not is_sym(b):
                    return Fraction(a) / Fraction(b)
                if is_intlike(a) and is_intlike(b):
                    return Quot(a, b)
                if isinstance(a, Quot) and is_intlike(b):
                    return Quot(a.n, mul(a.d, b))
                return to_real(a) / to_real(b)
            if is_intlike(a) and is_intlike(b):
                q, r = c.divmod(a, b)
                return q if op == "FloorDiv" else r
            if op == "FloorDiv" and isinstance(a, Quot):
                return c.floor(Quot(a.n, mul(a.d, b)))
            raise Unsupported("real mod")
        if op == "Pow":
            if isinstance(b, int) and 0 <= b <= 8:
                r = 1
                for _ in range(b):
                    r = mul(r, a)
                return r
            if not is_sym(a) and not is_sym(b):
                return a ** b
        if not is_sym(a) and not is_sym(b) and isinstance(a, int) and isinstance(b, int):
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
        if op in ("BitAnd", "BitOr") and isz(to_z(a)) and z3.is_bool(to_z(a)) and z3.is_bool(to_z(b)):
            return And(a, b) if op == "BitAnd" else Or(a, b)
        raise Unsupported(f"numeric op {op}")

    def str_percent(self, fmt, args):
        if not isinstance(args, tuple):
            args = (args,)
        parts = re.split(r"%[sd]", fmt)
        if len(parts) != len(args) + 1:
            raise Unsupported("percent format")
        out = [parts[0]]
        for a, p in zip(args, parts[1:]):
            out += [self.tostr(a), p]
        return mkstr(out)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            v = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if isinstance(a, Opt) and b is None:
                r = a.isnone
            elif isinstance(b, Opt) and a is None:
                r = b.isnone
            else:
                a, b = self.force(a), self.force(b)
                if a is None or b is None:
                    r = a is b
                elif isinstance(a, bool) or isinstance(b, bool):
                    r = eqv(a, b)
                elif isinstance(a, Atom) and isinstance(b, Atom):
                    r = eqv(a, b)
                else:
                    r = a is b
            return r if op == "Is" else Not(r)
        if op in ("In", "NotIn"):
            r = self.contains(self.force(b), a)
            return r if op == "In" else Not(r)
        if op in ("Eq", "NotEq") and (isinstance(a, Opt) or isinstance(b, Opt)):
            r = eqv(a, b)
            return r if op == "Eq" else Not(r)
        a, b = self.force(a), self.force(b)
        if isinstance(a, NArr) or isinstance(b, NArr):
            return self.arr_compare(op, a, b)
        if op in ("Eq", "NotEq"):
            if isinstance(a, Ext):
                kd = self.world.kinds.get(a.kind)
                h = getattr(kd, "op_Eq", None)
                if h:
                    r = h(self, a, b)
                    return r if op == "Eq" else Not(r)
            if isinstance(a, Atom) and "op_Eq" in self.world.atom_methods.get(a.kind, {}):
                r = self.world.atom_methods[a.kind]["op_Eq"](self, a, b)
                return r if op == "Eq" else Not(r)
            if isinstance(a, ExtRef) and isinstance(b, ExtRef):
                r = a.path == b.path
            elif isinstance(a, (VClass, type, ExtRef)) or isinstance(b, (VClass, type, ExtRef)):
                r = a is b
            elif isinstance(a, (Bytes, bytes)) and isinstance(b, (Bytes, bytes)):
                r = mkbytes(a).eq(mkbytes(b))
            else:
                r = eqv(a, b)
            return r if op == "Eq" else Not(r)
        o = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        if is_num(a) and is_num(b):
            return cmp(o, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple_cmp(o, a, b)
        if a is None or b is None:
            raise PyExc(TypeError, ("comparison with None",))
        if isinstance(a, Atom) and o in self.world.atom_methods.get(a.kind, {}):
            return self.world.atom_methods[a.kind][o](self, a, b)
        raise Unsupported(f"comparison {o} of {a!r} {b!r} at line {self.curline}")

    def contains(self, c, x):
        if isinstance(c, VList) and c.sym:
            b = self.ctx.fresh_bool("in")
            j = self.ctx.fresh_int("at")
            self.ctx.assume(z3.Implies(b, to_z(And(inrange(0, j, c.n), eqv(c.fn(j), x)))))
            self.ctx.assume(z3.Implies(z3.Not(b), to_z(ForAll(1, lambda i: Implies(inrange(0, i, c.n), Not(eqv(c.fn(i), x)))))))
            return b
        if isinstance(c, VDict):
            if c.default:
                return c.default.has(x)
            return Or(*[eqv(k, x) for k, _ in c.pairs])
        if isinstance(c, SMap):
            return c.has(x)
        if isinstance(c, VSet) and c.items is None:
            return c.has(x)
        if isinstance(c, (VList, VSet)):
            return Or(*[eqv(y, x) for y in c.items])
        if isinstance(c, tuple):
            return Or(*[eqv(y, x) for y in c])
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Ext):
            return self.ext_method(c, "__contains__", [x], {})
        if isinstance(c, Seq):
            n = simp(c.n)
            if isinstance(n, int) and n <= 64:
                return Or(*[eqv(c.fn(i), x) for i in range(n)])
            if getattr(c, "rng", None):
                lo, hi, st = c.rng
                if st == 1:
                    return inrange(lo, x, hi)
        if isinstance(c, Inst):
            m, _ = c.cls.find("__contains__")
            if m:
                return self.call(m, [c, x])
        raise Unsupported(f"membership in {c!r}")

    def truth_value(self, v):
        """python bool or z3 Bool"""
        v = self.force(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes, tuple, Fraction)):
            return bool(v)
        if isz(v):
            if z3.is_bool(v):
                return simp(v)
            return simp(v != 0)
        if isinstance(v, Quot):
            return cmp("!=", v.n, 0)
        if isinstance(v, VList):
            return cmp("!=", v.length(), 0)
        if isinstance(v, VDict):
            return len(v.pairs) > 0
        if isinstance(v, VSet):
            if v.items is not None:
                return len(v.items) > 0
            if v.enum is None and v.n is not None:
                return cmp("!=", v.n, 0)
            return cmp("!=", v.enum.n, 0)
        if isinstance(v, NArr):
            if len(v.shape) == 0:
                return self.truth_value(v.fn())
            raise PyExc(ValueError, ("truth value of an array",))
        if isinstance(v, Seq):
            return cmp("!=", v.n, 0)
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            if any(not isinstance(p, str) and p[0] == "int" for p in v.parts):
                return True
            p = v.parts[0]
            if len(v.parts) == 1 and p[0] == "atom" and isinstance(p[1], Atom):
                k = z3.Function("strempty", Val, z3.BoolSort())
                return z3.Not(k(p[1].expr))
            raise Unsupported("truth of symbolic string")
        if isinstance(v, Atom):
            h = self.world.atom_methods.get(v.kind, {}).get("truth")
            if h:
                return h(self, v)
            if v.kind in ("str", "any") and isz(v.expr) and v.expr.sort() == Val:
                return z3.Not(z3.Function("strempty" if v.kind == "str" else "falsy", Val, z3.BoolSort())(v.expr))
            return True
        if isinstance(v, Bytes):
            return cmp("!=", v.length(), 0)
        if isinstance(v, Inst):
            if isinstance(v.cls, VClass):
                m, _ = v.cls.find("__len__")
                if m:
                    return self.truth_value(self.call(m, [v]))
            return True
        if isinstance(v, Ext):
            h = getattr(self.world.kinds.get(v.kind), "truth", None)
            if h:
                return h(self, v)
            if hasattr(self.world.kinds.get(v.kind), "m___len__"):
                return cmp("!=", self.ext_method(v, "__len__", [], {}), 0)
            return True
        if isinstance(v, (VClass, VFunc, Prim, ExtRef, Bound, type)):
            return True
        raise Unsupported(f"truth of {v!r}")

    def truth(self, v):
        return self.ctx.branch(self.truth_value(v))

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        f = VFunc(e, env.module, env, (env.func.qual if env.func else env.module.name) + ".<lambda>")
        f.defaults = [self.eval(d, env) for d in e.args.defaults]
        f.isgen = False
        return self.ctx.reg(f)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    x = self.eval(v.value, env)
                    parts.append(("atom", f"fmt@{v.lineno}:{v.col_offset}"))
                    continue
                parts.append(self.tostr(self.eval(v.value, env)))
        return mkstr(parts)

    def tostr(self, v):
        v = self.force(v)
        if isinstance(v, (str, SStr)):
            return v
        if v is None or isinstance(v, bool):
            return str(v)
        if isinstance(v, int):
            return SStr([str(v)]) if False else str(v)
        if isz(v) and z3.is_int(v):
            return SStr([("int", v)])
        if isz(v):
            return SStr([("num", v)])
        if isinstance(v, (float, Fraction)):
            return str(float(v))
        if isinstance(v, Quot):
            return SStr([("num", v.real())])
        if isinstance(v, Atom):
            if v.kind == "str":
                return SStr([("atom", v)])
            return SStr([("str", v)])
        if isinstance(v, Inst) and isinstance(v.cls, VClass):
            m, _ = v.cls.find("__str__")
            if m:
                return self.call(m, [v])
            if "value" in v.fields and "name" in v.fields:
                return f"{v.cls.name}.{v.fields['name']}"
        if isinstance(v, Inst) and isinstance(v.cls, type) and issubclass(v.cls, BaseException) and isinstance(v.fields.get("args"), tuple):
            a = v.fields["args"]
            return "" if not a else self.tostr(a[0]) if len(a) == 1 else self.tostr(a)
        if isinstance(v, NArr):
            return SStr([("ndstr", NArr(v.shape, snap(v), v.dtype))])
        if isinstance(v, VList) and (v.sym or v.items and all(is_intlike(x) and not isinstance(x, bool) for x in v.items) and any(isz(x) for x in v.items)):
            return SStr([("val", VList(n=v.length(), fn=Seq(v.length(), (lambda l: lambda i: lget(l, i))(VList(items=list(v.items)) if not v.sym else VList(n=v.n, fn=v.fn))).fn))])
        if isinstance(v, (tuple, VList)):
            items = v if isinstance(v, tuple) else (v.items if not v.sym else None)
            if items is not None:
                return mkstr(["(" if isinstance(v, tuple) else "["] + sum([[self.tostr(x), ", "] for x in items], []) + [")" if isinstance(v, tuple) else "]"])
        return SStr([("repr", f"obj")]) if not isinstance(v, (VList, NArr)) else SStr([("val", v)])

    def e_FormattedValue(self, e, env):
        return self.tostr(self.eval(e.value, env))

    def comp(self, e, env, elt, unordered=False):
        """comprehension -> VList"""
        def rec(gens, env2, emit):
            if not gens:
                emit(env2)
                return
            g = gens[0]
            sq = self.seq(self.force(self.eval(g.iter, env2)))
            n = simp(sq.n)
            if not isinstance(n, int):
                raise _Sym(g, sq, gens)
            for i in range(n):
                e3 = Env(env2, env2.module, env2.func)
                e3.cls = env2.cls
                self.assign(g.target, sq.fn(i), e3)
                if all(self.truth(self.eval(c, e3)) for c in g.ifs):
                    rec(gens[1:], e3, emit)
        out = []
        try:
            rec(e.generators, env, lambda e2: out.append(elt(e2)))
            return self.ctx.reg(VList(items=out))
        except _Sym as sy:
            if len(e.generators) != 1:
                raise Unsupported(f"nested symbolic comprehension at line {e.lineno}")
            g, sq = sy.g, sy.sq
        if g.ifs:
            return self.filter_map(sq, lambda v: self._comp_pred(g, env, v), lambda v: self._comp_elt(g, env, v, elt))
        return self.map_seq(sq, lambda v: self._comp_elt(g, env, v, elt))

    def _comp_env(self, g, env, v):
        e3 = Env(env, env.module, env.func)
        e3.cls = env.cls
        self.assign(g.target, v, e3)
        return e3

    def _comp_elt(self, g, env, v, elt):
        return elt(self._comp_env(g, env, v))

    def _comp_pred(self, g, env, v):
        e3 = self._comp_env(g, env, v)
        r = True
        for c in g.ifs:
            r = And(r, self.truth_value(self.eval(c, e3)))
        return r

    def pure(self, thunk, what):
        """run thunk; result merged over internal branches. No heap writes allowed to old objects."""
        c = self.ctx
        # enumerate internal paths with a nested exploration on a scratch context
        results = []
        stack = [[]]
        base_pc = len(c.pc)
        noid = c.noid
        count = 0
        while stack:
            pre = stack.pop()
            count += 1
            if count > 64:
                raise Unsupported(f"too many paths in {what}")
            sub_ = SubCtx(c, pre, stack)
            saved, self.ctx = self.ctx, sub_
            frame = {"noid": noid, "paths": {}, "havoc": {}, "key": ("pure",), "spec_types": {}}
            self.active_loops.append(frame)
            try:
                v = thunk()
                results.append((list(sub_.conds), v, None))
            except PyExc as ex:
                results.append((list(sub_.conds), None, ex))
            except PathEnd:
                pass
            finally:
                self.active_loops.remove(frame)
                self.ctx = saved
                sub_.close()
        return results

    def map_seq(self, sq, f):
        """[f(x) for x in seq] with symbolic length; f must be pure"""
        c = self.ctx
        k = c.fresh_int("mapk")
        n = sq.n
        res = self.pure_at(k, inrange(0, k, n), lambda: f(sq.fn(k)), "comprehension")
        return c.reg(VList(n=n, fn=lambda i: subst(res, k, to_z(i))))

    def pure_at(self, k, guard, thunk, what):
        c = self.ctx
        if isinstance(c, SubCtx):
            return self.pure_nested(k, guard, thunk)
        saved_generic, self.generic = self.generic, k
        c.gens.append(k)
        c.push()
        c.addtmp(to_z(guard))
        npc = len(c.pc)
        c.pc.append(to_z(guard))
        try:
            results = self.pure(thunk, what)
        finally:
            self.generic = saved_generic
            c.gens.pop()
            c.pop()
            extra = c.pc[npc + 1:]
            del c.pc[npc:]
        defs, c.defs = c.defs, []
        for f in defs:
            c.assume(f)
        for f in extra:
            # definitions introduced while evaluating at generic k hold for every k in range
            fk = z3.ForAll([k], z3.Implies(to_z(guard), f))
            raise Unsupported(f"{what} needs an auxiliary definition")
        excs = [(cs, ex) for cs, v, ex in results if ex is not None]
        for cs, ex in excs:
            # an element may raise: does some index in range raise?
            g = And(guard, *cs)
            anyraise = z3.Exists([k], to_z(g))
            if c.branch(anyraise):
                raise ex
        vals = [(cs, v) for cs, v, ex in results if ex is None]
        if not vals:
            return None
        r = vals[-1][1]
        for cs, v in reversed(vals[:-1]):
            r = ite(And(*cs), v, r)
        return r

    def pure_nested(self, k, guard, thunk):
        """comprehension inside a comprehension: its element may not branch"""
        c = self.ctx
        saved, self.generic = self.generic, k
        c.gens.append(k)
        c.push()
        npc = len(c.pc)
        c.pc.append(to_z(guard))
        c.addtmp(to_z(guard))
        c.nest += 1
        try:
            return thunk()
        finally:
            c.nest -= 1
            del c.pc[npc:]
            c.pop()
            c.gens.pop()
            self.generic = saved

    def filter_map(self, sq, pred, f):
        """[f(x) for x in seq if pred(x)] with symbolic length.
        Result described by a strictly increasing index map onto exactly the selected positions."""
        c = self.ctx
        k = c.fresh_int("fk")
        n = sq.n
        p = self.pure_at(k, inrange(0, k, n), lambda: pred(sq.fn(k)), "filter")
        P = lambda i: subst(p, k, to_z(i)) if isz(p) else p
        m = c.fresh_int("flen")
        mp = c.func("!fmap", "int", "int")
        inv = c.func("!finv", "int", "int")
        c.assume(And(m >= 0, le(m, n)))
        c.assume(ForAll(1, lambda j: Implies(inrange(0, j, m), And(inrange(0, mp(j), n), P(mp(j)), inv(mp(j)) == j))))
        c.assume(ForAll(1, lambda i: Implies(And(inrange(0, i, n), P(i)), And(inrange(0, inv(i), m), mp(inv(i)) == i))))
        c.assume(ForAll(2, lambda i, j: Implies(And(0 <= i, i < j, j < m), mp(i) < mp(j))))
        res = self.pure_at(k, And(inrange(0, k, n), P(k)), lambda: f(sq.fn(k)), "comprehension")
        l = c.reg(VList(n=m, fn=lambda j: subst(res, k, mp(to_z(j)))))
        l.fmap, l.finv, l.fpred, l.fsrc = mp, inv, P, sq
        self.enums().append(("filter", lambda i: (inv(i), Implies(And(inrange(0, i, n), P(i)), And(inrange(0, inv(i), m), mp(inv(i)) == i)))))
        return l

    def enums(self):
        """for every set, sort and filter so far: index of an input position in the result, with the axiom instance saying so"""
        from .lib import SumCache
        return self.ctx.ghost.setdefault("%enums", SumCache()).d.setdefault("l", [])

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda e2: self.eval(e.elt, e2))

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, lambda e2: self.eval(e.elt, e2))

    def e_SetComp(self, e, env):
        l = self.comp(e, env, lambda e2: self.eval(e.elt, e2))
        return self.to_set(l)

    def e_DictComp(self, e, env):
        l = self.comp(e, env, lambda e2: (self.eval(e.key, e2), self.eval(e.value, e2)))
        if l.sym:
            return self.map_of(l)
        d = self.ctx.reg(VDict())
        for k, v in l.items:
            self.dict_set(d, k, v)
        return d

    def map_of(self, l):
        """dict of the symbolic list of (key, value) pairs l: the last value of a key counts"""
        c = self.ctx
        if lget(l, z3.Int("!dk")) is None:     # no element is possible
            return c.reg(VDict())
        h = c.func("!dict.has", "int", "bool")
        pos = c.func("!dict.pos", "int", "int")
        kf = lambda i: to_z(int_key(lget(l, i)[0]))
        n = to_z(l.length())
        x = z3.Int("!dk")
        c.assume(z3.ForAll([x], z3.Implies(h(x), z3.And(pos(x) >= 0, pos(x) < n, kf(pos(x)) == x)), patterns=[h(x)]))
        c.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.And(h(kf(x)), pos(kf(x)) >= x)), patterns=[h(kf(x))] if not z3.is_int_value(kf(x)) else []))
        m = c.reg(SMap(lambda k: h(to_z(int_key(k))), lambda k: lget(l, pos(to_z(int_key(k))))[1]))
        return m

    def to_set(self, v):
        sq = self.seq(v)
        n = simp(sq.n)
        if isinstance(n, int):
            return self.mkset([sq.fn(i) for i in range(n)])
        has = lambda x: Exists(1, lambda i: And(inrange(0, i, n), eqv(sq.fn(i), x)))
        x = sq.fn(self.ctx.fresh_int("e"))
        return self.ctx.reg(VSet(has=has, enum=self.set_enum(sq) if is_intlike(x) else None))

    def set_enum(self, sq):
        """the distinct integers of a sequence in the (unspecified) iteration order of the set"""
        from .lib import valkey, SumCache
        c, n = self.ctx, sq.n
        ck = ("set", repr(simp(n)), valkey(to_z(sq.fn(z3.Int("!se")))))
        cache = c.ghost.setdefault("%sorts", SumCache()).d
        if ck not in cache:
            x = c.fresh_int("sx")
            for k, o in list(cache.items()):
                # the same sequence written differently has the same enumeration
                if k[0] == "set" and c.entails(And(eqv(n, o.src.n), Implies(inrange(0, x, n), to_z(sq.fn(x)) == to_z(o.src.fn(x))))):
                    cache[ck] = o
                    break
        if ck not in cache:
            m, e, w, ix = c.fresh_int("set.n"), c.func("!set.el", "int", "int"), c.func("!set.from", "int", "int"), c.func("!set.at", "int", "int")
            f = lambda i: to_z(sq.fn(i))
            c.assume(And(m >= 0, m <= to_z(n), Implies(to_z(n) > 0, m > 0)))
            c.assume(ForAll(1, lambda i: Implies(inrange(0, i, m), And(inrange(0, w(i), n), f(w(i)) == e(i), ix(w(i)) == i))))
            c.assume(ForAll(1, lambda j: Implies(inrange(0, j, n), And(inrange(0, ix(j), m), e(ix(j)) == f(j)))))
            c.assume(ForAll(2, lambda i, j: Implies(And(0 <= i, i < j, j < m), e(i) != e(j))))
            s = Seq(m, lambda i: e(to_z(i)))
            s.at, s.src = ix, sq
            self.enums().append(("set", lambda i: (ix(i), Implies(inrange(0, i, n), And(inrange(0, ix(i), m), e(ix(i)) == f(i))))))
            cache[ck] = s
        return cache[ck]

    # ---- attribute / subscript
    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__"):
            e = env
            while e is not None:
                if e.func is not None and e.func.cls is not None:
                    return "_" + e.func.cls.name.lstrip("_") + name
                if e.func is not None:
                    # module function or nested: look outward
                    pass
                e = e.parent
        return name

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        return self.getattr(o, self.mangle(e.attr, env))

    def getattr(self, o, name, default=_Ret):
        o = self.force(o)
        if isinstance(o, Env):
            return self.module_attr(o, name)
        if isinstance(o, ExtRef):
            p = o.path + "." + name
            if p in self.world.consts:
                v = self.world.consts[p]
                return v(self) if callable(v) and not isinstance(v, type) else v
            return ExtRef(p)
        if isinstance(o, Inst):
            if name in o.fields:
                return o.fields[name]
            if isinstance(o.cls, VClass):
                m, owner = o.cls.find(name)
                if m is None and name.startswith("_"):
                    # private name mangling of methods
                    for c in o.cls.mro():
                        if isinstance(c, VClass):
                            pre = "_" + c.name.lstrip("_")
                            if name.startswith(pre + "__") and name[len(pre):] in c.ns:
                                m = c.ns[name[len(pre):]]
                                break
                if m is not None:
                    if isinstance(m, VFunc):
                        if m.kind == "property":
                            return self.call(m, [o])
                        if m.kind == "static":
                            return m
                        if m.kind == "class":
                            return Bound(m, o.cls)
                        return Bound(m, o)
                    return m
                for b in o.cls.mro():
                    if isinstance(b, ExtRef) and b.path in self.world.kinds:
                        return self.ext_attr(o, name, self.world.kinds[b.path])
                    if isinstance(b, ExtRef) and b.path + "." + name in self.world.models:
                        return Prim(name, lambda it, a, k, p=b.path + "." + name: it.call_ext(p, [o] + list(a), k))
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return VDict(list(o.fields.items()))
            if default is not _Ret:
                return default
            if isinstance(o.cls, VClass):
                for b in o.cls.mro():
                    if isinstance(b, ExtRef) and b.path.split(".")[-1] not in ("ABC", "object", "Generic", "Protocol", "Enum", "IntEnum", "Iterator"):
                        raise Unsupported(f"{name} of external base class {b.path}")
            if name.startswith("__") and name.endswith("__"):
                raise Unsupported(f"{name} of an instance")
            if self.depth == 0:
                raise Unsupported(f"{name} of {o.cls.name} not found")
            if getattr(o, "partial", False) and isinstance(o.cls, VClass) and re.search(rf"\.{name}\b\s*(=[^=]|:|,)", self.world.class_text(o.cls)):
                raise Unsupported(f"attribute {name} of {o.cls.name} is not in the contract")
            raise PyExc(AttributeError, (name,))
        if isinstance(o, VClass):
            m, _ = o.find(name)
            if m is None:
                if name == "__name__":
                    return o.name
                if name.startswith("_" + o.name.lstrip("_") + "__"):
                    m, _ = o.find(name[len("_" + o.name.lstrip("_")):])
                if m is None:
                    if (name.startswith("__") and name.endswith("__")) or any(isinstance(b, ExtRef) for b in o.mro()):
                        raise Unsupported(f"{name} of class {o.name}")
                    if self.depth == 0:
                        raise Unsupported(f"{name} of class {o.name} not found")
                    raise PyExc(AttributeError, (name,))
            if isinstance(m, VFunc) and m.kind == "class":
                return Bound(m, o)
            return m
        if isinstance(o, Ext):
            return self.ext_attr(o, name, self.world.kinds.get(o.kind), default)
        if isinstance(o, VFunc) and name == "__name__":
            return o.name
        if isinstance(o, Bound) and name == "__name__":
            return o.fn.name
        if isinstance(o, type):
            if (o, name) in TYPE_ATTRS:
                return TYPE_ATTRS[(o, name)]
            if name == "__name__":
                return o.__name__
            if not callable(getattr(o, name, None)) or getattr(getattr(o, name), "__self__", None) is o:
                raise Unsupported(f"{o.__name__}.{name} at line {self.curline}")
            return Prim(f"{o.__name__}.{name}", lambda it, a, k: it.call_method(a[0], name, a[1:], k))
        if isinstance(o, Atom):
            t = self.world.atom_methods.get(o.kind, {})
            if name in o.attrs:
                v = o.attrs[name]
                return v
            if name in t:
                f = t[name]
                return Prim(name, lambda it, a, k: f(it, o, *a, **k))
            if "." + name in t:
                return t["." + name](self, o)
        if isinstance(o, Tok) and name in self.world.atom_methods.get(o.kind, {}):
            f = self.world.atom_methods[o.kind][name]
            return Prim(name, lambda it, a, k: f(it, o, *a, **k))
        if isinstance(o, NArr):
            v = self.arr_attr(o, name)
            if v is not None:
                return v
        tname = {VList: "list", VDict: "dict", VSet: "set", NArr: "ndarray", str: "str", SStr: "str", tuple: "tuple",
                 bytes: "bytes", Bytes: "bytes", SMap: "dict", Seq: "seq", int: "int", float: "float"}.get(type(o))
        if isz(o):
            tname = "num"
        f = METHODS.get((tname, name))
        if f is not None:
            return Prim(f"{tname}.{name}", lambda it, a, k: f(it, o, *a, **k))
        if default is not _Ret:
            return default
        if tname in ("list", "dict", "str", "tuple", "set", "int", "float", "bytes", "num") or o is None:
            pyt = {"list": list, "dict": dict, "str": str, "tuple": tuple, "set": set, "int": int, "float": float, "bytes": bytes, "num": int}.get(tname, type(None))
            if tname == "num" or tname in ("int", "float") and hasattr(_np.generic, name):      # may be a numpy number
                raise Unsupported(f"attribute {name} of a number at line {self.curline}")
            if not hasattr(pyt, name):
                raise PyExc(AttributeError, (name,))
        raise Unsupported(f"attribute {name} of {o!r} at line {self.curline}")

    def ext_attr(self, o, name, kd, default=_Ret):
        if kd is not None:
            a = getattr(kd, "a_" + name, None)
            if a is not None:
                self.world.used.add(f"{o.kind if isinstance(o, Ext) else kd.__name__}.{name}")
                return a(self, o)
            m = getattr(kd, "m_" + name, None)
            if m is not None:
                def f(it, args, kw):
                    it.world.used.add(f"{o.kind if isinstance(o, Ext) else kd.__name__}.{name}")
                    return m(it, o, *args, **kw)
                return Prim(name, f)
            dyn = getattr(kd, "dyn", None)
            if dyn is not None:
                v = dyn(self, o, name)
                if v is not NotImplemented:
                    return v
        if isinstance(o, Ext) and name in o.fields:
            return o.fields[name]
        if default is not _Ret:
            return default
        raise Unsupported(f"external attribute {getattr(o,'kind',o)}.{name} (line {self.curline})")

    def ext_method(self, o, name, args, kwargs):
        f = self.ext_attr(o, name, self.world.kinds.get(o.kind))
        return self.call(f, args, kwargs)

    def call_method(self, o, name, args, kwargs=None):
        return self.call(self.getattr(o, name), args, kwargs or {})

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Inst):
            if isinstance(o.cls, VClass):
                st, _ = o.cls.find("%set_" + name)
                if st is not None:
                    self.call(st, [o, v])
                    return
            self.setfield(o, name, v)
            return
        if isinstance(o, Ext):
            kd = self.world.kinds.get(o.kind)
            h = getattr(kd, "set_" + name, None)
            if h:
                h(self, o, v)
                return
            self.note_write(o, "F:" + name, v)
            o.fields[name] = v
            return
        if isinstance(o, VFunc):
            return
        if isinstance(o, Atom) and "setattr" in self.world.atom_methods.get(o.kind, {}):
            return self.world.atom_methods[o.kind]["setattr"](self, o, name, v)
        raise Unsupported(f"attribute store {name} on {o!r}")

    def eval_index(self, sl, env):
        if isinstance(sl, ast.Slice):
            return slice(self.eval(sl.lower, env) if sl.lower else None,
                         self.eval(sl.upper, env) if sl.upper else None,
                         self.eval(sl.step, env) if sl.step else None)
        if isinstance(sl, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in sl.elts)
        return self.eval(sl, env)

    def e_Subscript(self, e, env):
        o = self.force(self.eval(e.value, env))
        if isinstance(o, (ExtRef, type, VClass)):
            return o  # typing generics
        return self.getitem(o, self.eval_index(e.slice, env))

    def norm_index(self, i, n):
        """Python index semantics; may fork and raise IndexError"""
        c = self.ctx
        i = self.force(i)
        if isinstance(i, int) and isinstance(n, int):
            if -n <= i < n:
                return i + n if i < 0 else i
            raise PyExc(IndexError, (i,))
        if not is_intlike(i):
            raise Unsupported(f"index {i!r}")
        if c.branch(And(le(0, i), lt(i, n))):
            return i
        if c.branch(And(lt(i, 0), ge(add(i, n), 0))):
            return add(i, n)
        raise PyExc(IndexError, (i,))

    def getitem(self, o, k):
        o = self.force(o)
        if isinstance(o, VList):
            if isinstance(k, slice):
                return self.list_slice(o, k)
            i = self.norm_index(k, o.length())
            return self.lget_obj(o, i)
        if isinstance(o, tuple):
            if isinstance(k, slice):
                return o[slice(*[simp(x) if x is not None else None for x in (k.start, k.stop, k.step)])]
            k = self.force(k)
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                raise PyExc(IndexError, ())
            i = self.norm_index(k, len(o))
            return lget(VList(items=list(o)), i)
        if isinstance(o, VDict):
            self.live(o)
            for j, (kk, v) in enumerate(o.pairs):
                if self.ctx.branch(eqv(kk, k)):
                    if getattr(o, "parent", None) is not None and isinstance(v, (VList, VDict)) and v.oid is None:
                        v = self.handle(v, o, kk)
                        o.pairs[j] = (kk, v)
                    return v
            if o.default:
                return o.default.get(self, k)
            raise PyExc(KeyError, (k,))
        if isinstance(o, SMap):
            if not self.ctx.branch(o.has(k)):
                raise PyExc(KeyError, (k,))
            return o.get(k)
        if isinstance(o, NArr):
            return self.arr_getitem(o, k)
        if isinstance(o, str):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise PyExc(IndexError, ())
            if isinstance(k, slice):
                return o[k]
        if isinstance(o, Seq):
            i = self.norm_index(k, o.n)
            return o.fn(i)
        if isinstance(o, Ext):
            return self.ext_method(o, "__getitem__", [k], {})
        if isinstance(o, Inst):
            return self.call_method(o, "__getitem__", [k])
        if isinstance(o, Atom):
            t = self.world.atom_methods.get(o.kind, {})
            if "__getitem__" in t:
                return t["__getitem__"](self, o, k)
        if isinstance(o, Bytes) and isinstance(k, slice):
            return o.slice(self, k)
        if isinstance(o, SStr) or o is None:
            if o is None:
                raise PyExc(TypeError, ("None is not subscriptable",))
        raise Unsupported(f"subscript of {o!r} at line {self.curline}")

    def lget_obj(self, o, i):
        """list element; forks for concrete lists of heap objects"""
        i = simp(i)
        if o.items is not None:
            if isinstance(i, int):
                return o.items[i]
            if all(not isinstance(x, Obj) for x in o.items):
                try:
                    return lget(o, i)
                except Unsupported:
                    pass
            for j in range(len(o.items)):
                if self.ctx.branch(i == j):
                    return o.items[j]
            raise PathEnd()
        self.live(o)
        return self.handle(o.fn(i), o, i)

    def setitem(self, o, k, v):
        if isinstance(o, VList):
            if isinstance(k, slice):
                raise Unsupported("list slice store")
            i = simp(self.norm_index(k, o.length()))
            self.note_write(o, "contents", v)
            if o.items is not None and isinstance(i, int):
                o.items[i] = v
            elif o.items is not None:
                for j in range(len(o.items)):
                    if self.ctx.branch(i == j):
                        o.items[j] = v
                        return
                raise PathEnd()
            else:
                old = o.fn
                v = self.stored(v)
                o.fn = lambda q: ite(simp(to_z(q) == to_z(i)), v, old(q))
                o.ver = getattr(o, "ver", 0) + 1
            self.writeback(o)
            return
        if isinstance(o, VDict):
            self.note_write(o, "contents", v)
            self.dict_set(o, k, v)
            self.writeback(o)
            return
        if isinstance(o, SMap):
            self.note_write(o, "contents", v)
            has, get = o.has, o.get
            v = self.stored(v)
            same = (lambda x: eqv(int_key(x), int_key(k))) if isinstance(k, SStr) else (lambda x: eqv(x, k))
            o.enum = None
            if o.n is not None:
                o.n = add(o.n, ite(simp(to_z(has(k))), 0, 1))
            o.has = lambda x: Or(same(x), has(x))
            o.get = lambda x: ite(simp(to_z(same(x))), v, get(x))
            return
        if isinstance(o, NArr):
            self.arr_setitem(o, k, v)
            return
        if isinstance(o, Ext):
            self.ext_method(o, "__setitem__", [k, v], {})
            return
        raise Unsupported(f"item store on {o!r}")

    def writeback(self, o):
        if getattr(o, "parent", None) is not None:
            self.live(o)
            p, i = o.parent
            snap = freeze(o)
            p.ver = o.pver = getattr(p, "ver", 0) + 1
            self.note_write(p, "contents", snap)
            if isinstance(p, VDict):
                p.pairs = [(k, o if k == i else x) for k, x in p.pairs]
                for _, x in p.pairs:
                    if isinstance(x, Obj) and getattr(x, "parent", None) is not None and x.parent[0] is p:
                        x.pver = p.ver
                self.writeback(p)
                return
            old = p.fn
            if p.items is not None:
                raise Unsupported("writeback")
            p.fn = lambda q: ite(simp(to_z(q) == to_z(i)), snap, old(q))
            self.writeback(p)

    def dict_set(self, d, k, v):
        for j, (kk, _) in enumerate(d.pairs):
            if self.ctx.branch(eqv(kk, k)):
                d.pairs[j] = (kk, v)
                return
        d.pairs.append((k, v))

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(env)
        f = self.eval(e.func, env)
        self.curline = e.lineno
        if isinstance(f, Prim) and f.name == "super":
            return self.make_super(env)
        args = self.splat(e.args, env, isinstance(f, Ext) and getattr(self.world.kinds.get(f.kind), "star", False))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, env))
                if isinstance(d, SMap) and isinstance(f, Ext) and getattr(self.world.kinds.get(f.kind), "starstar", False):
                    kwargs["**"] = d        # the model takes any keyword arguments
                    continue
                if isinstance(d, SMap):
                    raise Unsupported("symbolic keyword arguments")
                for kk, vv in d.pairs:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs)

    def make_super(self, env):
        e = env
        while e is not None and (e.func is None or e.func.cls is None):
            e = e.parent
        cls = e.func.cls
        self_ = e.vars[e.func.node.args.args[0].arg]
        return self.ctx.reg(Ext("super", cls=cls, self=self_))

    # ---- sequences
    def seq(self, v):
        v = self.force(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, VList):
            if v.items is not None:
                items = list(v.items)
                return Seq(len(items), lambda i: lget(VList(items=items), i) if not isinstance(simp(i), int) else items[simp(i)], v)
            self.live(v)
            fn = v.fn
            return Seq(v.n, fn, v)
        if isinstance(v, tuple):
            return Seq(len(v), lambda i: v[simp(i)] if isinstance(simp(i), int) else lget(VList(items=list(v)), i))
        if isinstance(v, VDict):
            if v.default:
                raise Unsupported("iteration over symbolic dict")
            ks = [k for k, _ in v.pairs]
            return Seq(len(ks), lambda i: ks[i])
        if isinstance(v, SMap):
            if getattr(v, "enum", None) is None or not v.distinct:
                raise Unsupported("iteration over symbolic dict")
            return v.enum
        if isinstance(v, VSet):
            if v.items is not None:
                its = list(v.items)
                return Seq(len(its), lambda i: its[simp(i)] if isinstance(simp(i), int) else lget(VList(items=its), i))
            if v.enum is not None:
                return v.enum
            raise Unsupported("iteration over symbolic set")
        if isinstance(v, str):
            return Seq(len(v), lambda i: v[i])
        if isinstance(v, NArr):
            if len(v.shape) == 0:
                raise PyExc(TypeError, ("0-d array",))
            if len(v.shape) == 1:
                return Seq(v.shape[0], lambda i: v.fn(i), v)
            return Seq(v.shape[0], lambda i: self.ctx.reg(NArr(v.shape[1:], lambda *r: v.fn(i, *r), v.dtype)), v)
        if isinstance(v, Ext):
            if v.kind == "generator":
                l = v.fields["list"]
                s = self.seq(l)
                p = v.fields["pos"]
                if p == 0:
                    return s
                return Seq(sub(s.n, p), lambda i: s.fn(add(i, p)))
            kd = self.world.kinds.get(v.kind)
            h = getattr(kd, "seq", None)
            if h:
                return h(self, v)
        if isinstance(v, Inst) and isinstance(v.cls, VClass):
            m, _ = v.cls.find("__iter__")
            if m is None:
                g, _ = v.cls.find("__getitem__")
                raise Unsupported("iteration protocol")
            return self.seq(self.call(m, [v]))
        if isinstance(v, VClass) and any(isinstance(b, ExtRef) and b.path.startswith("enum.") for b in v.mro()):
            es = [x for x in v.ns.values() if isinstance(x, Inst) and x.cls is v]
            return Seq(len(es), lambda i: es[i])
        if v is None or (isz(v)) or isinstance(v, (int, float)):
            raise PyExc(TypeError, ("not iterable",))
        raise Unsupported(f"iteration over {v!r} at line {self.curline}")

    # ---- lists
    def list_append(self, l, v):
        self.note_write(l, "contents", v)
        if l.items is not None:
            l.items.append(v)
        else:
            n, old = l.n, l.fn
            self.store_list = l
            v = self.stored(v)
            l.fn = lambda i: ite(simp(to_z(i) == to_z(n)), v, old(i))
            l.n = add(n, 1)
        self.writeback(l)

    def stored(self, v):
        """value kept inside a symbolic list: a copy; the original may not be written afterwards"""
        h = self.ctx.ghost.get("%stored")
        if h:
            v = h(self, v)
        if isinstance(v, (VList, VDict)):
            c = freeze(v)
            v.escaped = True
            return c
        return v

    def handle(self, v, o, i):
        """element i of symbolic container o as a heap object that writes back"""
        if isinstance(v, (VList, VDict, NArr)) and v.oid is None:
            v = copy_shallow(v)
            self.ctx.reg(v)
            v.parent = (o, i)
            o.ver = getattr(o, "ver", 0)
            v.pver = o.ver
        return v

    def live(self, o):
        p = getattr(o, "parent", None)
        if p is not None:
            if getattr(p[0], "ver", 0) != getattr(o, "pver", 0):
                raise Unsupported("element accessed through a stale handle")
            self.live(p[0])

    def list_extend(self, l, v):
        sq = self.seq(v)
        m = simp(sq.n)
        if isinstance(m, int):
            for i in range(m):
                self.list_append(l, sq.fn(i))
            return
        self.note_write(l, "contents", None if m == 0 else sq.fn(0))
        n = l.length()
        oldl = VList(items=l.items, n=l.n, fn=l.fn)
        if isinstance(n, int) and n == 0:
            l.items, l.n, l.fn = None, m, sq.fn
        else:
            l.items = None
            l.fn = lambda i: ite(lt(i, n), lget(oldl, i), sq.fn(sub(i, n)))
            l.n = add(n, m)
        self.writeback(l)

    def list_concat(self, a, b):
        if not a.sym and not b.sym:
            return self.ctx.reg(VList(items=a.items + b.items))
        r = self.ctx.reg(VList(items=list(a.items) if a.items is not None else None, n=a.n, fn=a.fn))
        self.list_extend(r, b)
        return r

    def list_mult(self, a, m):
        m = simp(m)
        n = a.length()
        if isinstance(m, int) and not a.sym:
            return self.ctx.reg(VList(items=a.items * m))
        if n == 1:
            v = lget(a, 0)
            cnt = z3.If(to_z(m) > 0, to_z(m), z3.IntVal(0))
            if self.ctx.entails(ge(m, 0)):
                cnt = m
            l = self.ctx.reg(VList(n=cnt, fn=lambda i: v))
            l.alias = isinstance(v, Obj)
            return l
        raise Unsupported("list repetition")

    def slice_bounds(self, k, n):
        """python slice.indices for symbolic bounds; step must be concrete-signed or symbolic positive"""
        c = self.ctx
        step = 1 if k.step is None else simp(self.force(k.step))
        if not is_intlike(step):
            raise Unsupported("slice step")
        if isinstance(step, int) and step < 0:
            if k.start is None and k.stop is None and step == -1:
                return sub(n, 1), -1, -1
            raise Unsupported("negative slice step")
        if not isinstance(step, int):
            if c.branch(cmp("==", step, 0)):
                raise PyExc(ValueError, ())
            if not c.branch(gt(step, 0)):
                raise Unsupported("negative slice step")

        def clamp(x, dflt):
            x = self.force(x) if x is not None else None
            if x is None:
                return dflt
            if c.branch(lt(x, 0)):
                x = add(x, n)
                if c.branch(lt(x, 0)):
                    return 0
                return x
            if c.branch(gt(x, n)):
                return n
            return x
        return clamp(k.start, 0), clamp(k.stop, n), step

    def slice_len(self, lo, hi, step):
        c = self.ctx
        if not c.branch(lt(lo, hi)):
            return 0
        if step == 1:
            return sub(hi, lo)
        q, r = c.divmod(sub(sub(hi, lo), 1), step)
        return add(q, 1)

    def list_slice(self, l, k):
        n = l.length()
        if not l.sym and all(x is None or isinstance(simp(x), int) for x in (k.start, k.stop, k.step)):
            return self.ctx.reg(VList(items=l.items[slice(*[None if x is None else simp(x) for x in (k.start, k.stop, k.step)])]))
        lo, hi, st = self.slice_bounds(k, n)
        snap = VList(items=list(l.items) if l.items is not None else None, n=l.n, fn=l.fn)
        if st == -1:
            return self.ctx.reg(VList(n=n, fn=lambda i: lget(snap, sub(sub(n, 1), i))))
        m = self.slice_len(lo, hi, st)
        return self.ctx.reg(VList(n=m, fn=lambda i: lget(snap, add(lo, mul(i, st)))))

    # arrays: provided by vc.arrays (mixed in)


class _Sym(Exception):
    def __init__(self, g, sq, gens):
        self.g, self.sq, self.gens = g, sq, gens


class SubCtx:
    """context proxy for nested pure exploration"""

    def __init__(self, parent, prefix, stack):
        self.__dict__["p"] = parent
        self.__dict__["prefix"] = prefix
        self.__dict__["strace"] = []
        self.__dict__["conds"] = []
        self.__dict__["stack"] = stack
        parent.push()
        self.__dict__["npc"] = len(parent.pc)

    def close(self):
        self.p.pop()
        del self.p.pc[self.npc:]

    def __getattr__(self, n):
        return getattr(self.p, n)

    def __setattr__(self, n, v):
        setattr(self.p, n, v)

    def reg(self, o):
        return self.p.reg(o)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        raise Unsupported("auxiliary assumption in pure evaluation")

    def oblige(self, *a, **k):
        raise Unsupported("obligation in pure evaluation")

    def entails(self, f):
        return self.p.entails(f)

    def divmod(self, a, b):
        if not is_sym(a) and not is_sym(b):
            return a // b, a % b
        za, zb = to_int(a), to_int(b)
        if z3.is_int_value(zb) and zb.as_long() > 0:
            return za / zb, za % zb
        if self.p.entails(zb > 0):
            return za / zb, za % zb
        raise Unsupported("division in pure evaluation")

    def branch(self, cond):
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        if self.p.nest:
            if not self.p.feasible(cond):
                return False
            if not self.p.feasible(z3.Not(cond)):
                return True
            raise Unsupported("branching in a nested symbolic comprehension")
        if len(self.strace) < len(self.prefix):
            d = self.prefix[len(self.strace)]
        else:
            t = self.p.feasible(cond)
            f = self.p.feasible(z3.Not(cond)) if t else True
            if t and f:
                d = True
                self.stack.append(self.strace + [False])
            else:
                d = t
        self.strace.append(d)
        g = cond if d else z3.Not(cond)
        self.conds.append(g)
        self.p.pc.append(g)
        self.p.addtmp(g)
        return d


def subst(v, k, i):
    """replace generic index k by i in a (structured) value; mutable parts come out as read-only copies"""
    r = subst_(v, k, i)
    if isinstance(r, (VList, VDict, NArr, Inst, Ext)) and r is not v:
        r.shadow = True
    return r


def subst_(v, k, i):
    if isz(v):
        return simp(z3.substitute(v, (k, to_z(i))))
    if isinstance(v, tuple):
        return tuple(subst(x, k, i) for x in v)
    if isinstance(v, Opt):
        return Opt(subst(v.isnone, k, i), subst(v.val, k, i))
    if isinstance(v, Tok):
        return Tok(v.kind, *[subst(x, k, i) for x in v.fields])
    if isinstance(v, Atom):
        return Atom(v.kind, z3.substitute(v.expr, (k, to_z(i))), {a: (subst(b, k, i) if not callable(b) else b) for a, b in v.attrs.items()})
    if isinstance(v, Quot):
        return Quot(subst(v.n, k, i), subst(v.d, k, i))
    if isinstance(v, SStr):
        return SStr([p if isinstance(p, str) else (p[0],) + tuple(subst(x, k, i) for x in p[1:]) for p in v.parts])
    if isinstance(v, VList):
        if v.items is not None:
            return VList(items=[subst(x, k, i) for x in v.items])
        return VList(n=subst(v.n, k, i), fn=lambda j: subst(v.fn(j), k, i))
    if isinstance(v, NArr):
        return NArr([subst(s, k, i) for s in v.shape], lambda *ix: subst(v.fn(*ix), k, i), v.dtype)
    if isinstance(v, Bytes):
        return v.map(lambda x: subst(x, k, i))
    if isinstance(v, VDict):
        return VDict([(subst(a, k, i), subst(b, k, i)) for a, b in v.pairs])
    if v is None or isinstance(v, (int, float, str, bytes, bool, Fraction, type, VClass, VFunc, ExtRef, Prim, Poison)):
        return v
    if isinstance(v, (Inst, Ext)):
        nv = type(v).__new__(type(v))
        nv.__dict__.update(v.__dict__)
        nv.oid = None
        nv.fields = {a: subst(b, k, i) for a, b in v.fields.items()}
        return nv
    raise Unsupported(f"generic element {v!r}")


def copy_shallow(v):
    n = type(v).__new__(type(v))
    n.__dict__.update(v.__dict__)
    n.oid = None
    if isinstance(v, VList) and v.items is not None:
        n.items = list(v.items)
    if isinstance(v, VDict):
        n.pairs = list(v.pairs)
    return n


def freeze(v):
    """immutable deep copy of lists and dicts"""
    if isinstance(v, VList):
        if v.items is not None:
            return VList(items=[freeze(x) for x in v.items], etype=v.etype)
        return VList(n=v.n, fn=v.fn, etype=v.etype)
    if isinstance(v, VDict) and not v.default:
        return VDict([(k, freeze(x)) for k, x in v.pairs])
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


class Bytes:
    """byte string as a list of segments; each segment (kind, payload, length)"""

    def __init__(self, segs):
        self.segs = list(segs)

    def length(self):
        r = 0
        for _, _, n in self.segs:
            r = add(r, n)
        return r

    def concat(self, o):
        return Bytes(self.segs + o.segs)

    def map(self, f):
        return Bytes([(k, tuple(f(x) for x in p) if isinstance(p, tuple) else f(p), f(n)) for k, p, n in self.segs])

    def eq(self, o):
        a, b = self.segs, o.segs
        if len(a) != len(b):
            la = simp(self.length())
            lb = simp(o.length())
            if isinstance(la, int) and isinstance(lb, int) and la != lb:
                return False
            raise Unsupported("bytes comparison")
        r = True
        for (k1, p1, n1), (k2, p2, n2) in zip(a, b):
            if k1 != k2:
                if isinstance(n1, int) and isinstance(n2, int) and n1 != n2:
                    return False
                raise Unsupported(f"bytes comparison {k1} {k2}")
            r = And(r, eqv(p1, p2), eqv(n1, n2))
        return r

    def __repr__(self):
        return f"Bytes{self.segs}"


def mkbytes(b):
    if isinstance(b, Bytes):
        return b
    return Bytes([("lit", b, len(b))] if b else [])


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            out += list(p.parts)
        else:
            out.append(p)
    s = SStr(out)
    if all(isinstance(p, str) for p in s.parts):
        return "".join(s.parts)
    return s


def tuple_cmp(o, a, b):
    """lexicographic comparison"""
    if not a or not b:
        la, lb = len(a), len(b)
        return {"<": la < lb, "<=": la <= lb, ">": la > lb, ">=": la >= lb}[o]
    strict = "<" if o in ("<", "<=") else ">"
    if not (is_num(a[0]) and is_num(b[0])):
        from .lib import key_less
        first = key_less(a[0], b[0]) if strict == "<" else key_less(b[0], a[0])
    else:
        first = cmp(strict, a[0], b[0])
    return Or(first, And(eqv(a[0], b[0]), tuple_cmp(o, a[1:], b[1:])))


# ---------------------------------------------------------------- havoc types
def typeof(v):
    if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
        return "bool"
    if isinstance(v, int) or (isz(v) and z3.is_int(v)):
        return "int"
    if isinstance(v, (float, Fraction, Quot)) or (isz(v) and z3.is_real(v)):
        return "real"
    if isinstance(v, tuple):
        return ("tuple",) + tuple(typeof(x) for x in v)
    if isinstance(v, Opt):
        return ("opt", typeof(v.val))
    if v is None:
        return ("opt", None)
    if isinstance(v, Atom):
        return ("atom", v.kind, v.expr.sort())
    if isinstance(v, Tok):
        return ("tok", v.kind) + tuple(typeof(x) for x in v.fields)
    if isinstance(v, VList):
        if v.items is not None:
            t = None
            for x in v.items:
                t = join_type(t, typeof(x))
            return ("list", v.etype if t is None else t)
        return ("list", typeof(v.fn(z3.Int("!ty"))))
    if isinstance(v, VDict) and not v.default and all(key_of(k) is not None for k, _ in v.pairs):
        return ("rec",) + tuple((k, typeof(x)) for k, x in v.pairs)
    if isinstance(v, NArr):
        return ("arr", v.shape, v.dtype, typeof(v.fn(*[z3.Int("!ty")] * len(v.shape))))
    if isinstance(v, (str, SStr)):
        return "str"
    if isinstance(v, (Inst, Ext)):
        return ("obj", v)
    if isinstance(v, Bytes):
        return ("bytes", tuple((k, tuple(typeof(x) for x in p) if isinstance(p, tuple) else p, typeof(n)) for k, p, n in v.segs))
    return ("any", repr(type(v)))


def join_type(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if isinstance(a, tuple) and a[0] == "opt" or isinstance(b, tuple) and b[0] == "opt":
        x = a[1] if isinstance(a, tuple) and a[0] == "opt" else a
        y = b[1] if isinstance(b, tuple) and b[0] == "opt" else b
        return ("opt", join_type(x, y))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple) and isinstance(y, tuple) and (x[0] == "arrof" and y[0] == "arr" and len(x[1]) == len(y[1]) or x[0] == "items" and y[0] == "list"):
            return x
    if {a, b} <= {"int", "real"} if isinstance(a, str) and isinstance(b, str) else False:
        return "real"
    if {a, b} <= {"int", "bool"} if isinstance(a, str) and isinstance(b, str) else False:
        return "int"
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] in ("tuple", "tok") and len(a) == len(b):
            if a[0] == "tok" and a[1] != b[1]:
                return ("any", "mixed")
            return (a[0],) + tuple(join_type(x, y) if not (a[0] == "tok" and j == 0) else x for j, (x, y) in enumerate(zip(a[1:], b[1:])))
        if a[0] == "list":
            return ("list", join_type(a[1], b[1]))
        if a[0] == "atom":
            return a
        if a[0] == "rec" and [x for x, _ in a[1:]] == [x for x, _ in b[1:]]:
            return ("rec",) + tuple((x, join_type(t, u)) for (x, t), (_, u) in zip(a[1:], b[1:]))
    return ("any", "mixed")


def fresh_of(it, t, name):
    c = it.ctx
    if t == "int":
        return c.fresh_int(name)
    if t == "real":
        return c.fresh_real(name)
    if t == "bool":
        return c.fresh_bool(name)
    if t == "str":
        return SStr([("atom", c.atom("str", "!" + name))])
    if t is None:
        return Poison(f"{name} unknown after loop")
    if t[0] == "make":
        return t[1](it, name)
    if t[0] == "tuple":
        return tuple(fresh_of(it, x, name) for x in t[1:])
    if t[0] == "opt":
        return Opt(c.fresh_bool(name + "?"), fresh_of(it, t[1], name))
    if t[0] == "atom":
        return Atom(t[1], z3.Const(c.name("!" + name), t[2]))
    if t[0] == "tok":
        return Tok(t[1], *[fresh_of(it, x, name) for x in t[2:]])
    if t[0] == "list":
        l = VList(items=[])
        c.reg(l)
        havoc_contents(it, l, t[1])
        return l
    if t[0] in ("arrof", "items"):
        return fresh_fn(it, t, name, 0)()
    if t[0] == "arr":
        f = c.func("!" + name, *(["int"] * len(t[1])), t[3])
        return c.reg(NArr(t[1], lambda *ix: f(*[to_z(i) for i in ix]), t[2]))
    if t[0] == "rec":
        return c.reg(VDict([(x, fresh_of(it, u, f"{name}.{x}")) for x, u in t[1:]]))
    if t[0] == "obj":
        return Poison(f"{name} rebound in loop")
    return Poison(f"{name} unknown after loop")


def fresh_fn(it, t, name, d=1):
    """function of d ints returning a fresh structured value of type t"""
    c = it.ctx
    if isinstance(t, str) and t in ("int", "real", "bool"):
        f = c.func("!" + name, *(["int"] * d), t)
        return lambda *ix: f(*[to_z(i) for i in ix])
    if t == "str":
        f = c.func("!" + name, *(["int"] * d), "val")
        return lambda *ix: SStr([("atom", Atom("str", f(*[to_z(i) for i in ix])))])
    if t is None:
        return lambda *ix: Poison(f"element of {name}")
    if t[0] in ("tuple",):
        fs = [fresh_fn(it, x, f"{name}.{j}", d) for j, x in enumerate(t[1:])]
        return lambda *ix: tuple(f(*ix) for f in fs)
    if t[0] == "tok":
        fs = [fresh_fn(it, x, f"{name}.{j}", d) for j, x in enumerate(t[2:])]
        return lambda *ix: Tok(t[1], *[f(*ix) for f in fs])
    if t[0] == "opt":
        b = fresh_fn(it, "bool", name + "?", d)
        f = fresh_fn(it, t[1], name, d)
        return lambda *ix: Opt(b(*ix), f(*ix))
    if t[0] == "atom":
        f = c.func("!" + name, *(["int"] * d), t[2])
        return lambda *ix: Atom(t[1], f(*[to_z(i) for i in ix]))
    if t[0] == "list":
        n = fresh_fn(it, "int", name + ".n", d)
        f = fresh_fn(it, t[1], name, d + 1)
        return lambda *ix: VList(n=n(*ix), fn=lambda j: f(*ix, j))
    if t[0] == "rec":
        fs = [(x, fresh_fn(it, u, f"{name}.{x}", d)) for x, u in t[1:]]
        return lambda *ix: VDict([(x, f(*ix)) for x, f in fs])
    if t[0] == "items":     # list of known length
        fs = [fresh_fn(it, u, f"{name}.{j}", d) for j, u in enumerate(t[1:])]
        return lambda *ix: VList(items=[f(*ix) for f in fs])
    if t[0] == "arrof":     # array; None for a dimension that varies
        dims = [fresh_fn(it, "int", f"{name}.dim{j}", d) if s is None else (lambda s: lambda *ix: s)(s) for j, s in enumerate(t[1])]
        f = fresh_fn(it, t[3], name, d + len(t[1]))

        def arrof(*ix):
            a = NArr(tuple(g(*ix) for g in dims), lambda *jx: f(*ix, *jx), t[2])
            a.merged = True
            return a
        return arrof
    return lambda *ix: Poison(f"element of {name}")


def int_key(k):
    """the integer inside a key that is an int or a string made of exactly one int"""
    if isinstance(k, SStr) and len(k.parts) == 1 and isinstance(k.parts[0], tuple) and is_intlike(k.parts[0][1]):
        return k.parts[0][1]
    if isinstance(k, str) and k.isdigit():
        return int(k)
    if is_intlike(k):
        return k
    t = as_text(k)
    if t is not None:
        return text_key(t)
    raise Unsupported(f"map key {k!r}")


def fresh_map(it, t, name):
    h = it.ctx.func("!" + name + ".has", "int", "bool")
    f = fresh_fn(it, t, name)
    return (lambda x: h(to_z(int_key(x)))), (lambda x: f(int_key(x)))


def map_view(d):
    """(has, get) of a dict with int-like keys, symbolic or not"""
    if isinstance(d, SMap):
        return d.has, d.get

    def has(x):
        return Or(False, *[eqv(int_key(k), int_key(x)) for k, _ in d.pairs])

    def get(x):
        r = None
        for k, v in d.pairs:
            r = v if r is None else ite(simp(to_z(eqv(int_key(k), int_key(x)))), v, r)
        return r
    return has, get


def havoc_contents(it, o, t):
    c = it.ctx
    if isinstance(t, tuple) and t[0] == "fill":      # the contract gives the arbitrary state
        t[1](it, o)
        return
    if isinstance(o, VList):
        et = join_type(t, o.etype) if t is not None else o.etype
        cur = typeof(o)[1] if not (o.items is not None and not o.items) else None
        et = join_type(cur, et)
        o.items = None
        o.n = c.fresh_int("len")
        c.assume(o.n >= 0)
        o.fn = fresh_fn(it, et, f"elem{o.oid}")
        o.etype = et
        return
    if isinstance(o, NArr):
        et = typeof(o.fn(*[z3.Int("!ty")] * len(o.shape)))
        f = fresh_fn(it, et, f"arr{o.oid}", len(o.shape))
        o.fn = f
        return
    if isinstance(o, SMap) and t is not None and t[0] == "smap":
        o.has, o.get = fresh_map(it, t[1], f"map{o.oid}")
        if o.n is not None:
            o.n = c.fresh_int("size")
            c.assume(o.n >= 0)
        return
    if isinstance(o, SMap):
        return
    if isinstance(o, VSet):
        o.items, o.enum = None, None
        o.n = c.fresh_int("set.n")
        c.assume(o.n >= 0)
        if t == "val":      # set of opaque values
            f = c.func("!set", "val", "bool")
            o.has = lambda x: f(val_of(x))
        else:
            f = c.func("!set", "int", "bool")
            o.has = lambda x: f(to_z(x))
        return
    if isinstance(o, VDict) and t is not None and t[0] == "smap":
        o.__class__ = SMap
        o.has, o.get = fresh_map(it, t[1], f"map{o.oid}")
        o.n = c.fresh_int("size")
        c.assume(o.n >= 0)
        return
    if isinstance(o, VDict):
        for j, (k, v) in enumerate(o.pairs):
            tv = typeof(v)
            o.pairs[j] = (k, fresh_of(it, tv, f"d{key_of(k)}"))
        return
    raise Unsupported(f"havoc of {o!r}")


class Snapshot:
    """state at loop entry, for annotations (by name)"""

    def __init__(self, it, env):
        self.noid = it.ctx.noid
        self.vals = {}
        memo = {}
        e = env
        while e is not None and e.parent is not None:
            for k, v in e.vars.items():
                self.vals.setdefault(k, copyval(v, memo))
            e = e.parent
        self.ghost = {k: copyval(v, memo) for k, v in it.ctx.ghost.items()}

    def __getattr__(self, n):
        if n in self.__dict__.get("vals", {}):
            return self.vals[n]
        raise Unsupported(f"annotation entry name {n} does not bind")


def val_of(x):
    if isinstance(x, SStr) and len(x.parts) == 1 and x.parts[0][0] == "atom":
        x = x.parts[0][1]
    if isinstance(x, Atom):
        return x.expr
    raise Unsupported(f"opaque value of {x!r}")


def copyval(v, memo):
    if isinstance(v, (VClass, VFunc)) or not isinstance(v, Obj):
        if isinstance(v, tuple):
            return tuple(copyval(x, memo) for x in v)
        return v
    if id(v) in memo:
        return memo[id(v)]
    n = type(v).__new__(type(v))
    memo[id(v)] = n
    n.__dict__.update(v.__dict__)
    if isinstance(v, VList) and v.items is not None:
        n.items = [copyval(x, memo) for x in v.items]
    elif isinstance(v, (Inst, Ext)):
        n.fields = {k: copyval(x, memo) for k, x in v.fields.items()}
    elif isinstance(v, VDict):
        n.pairs = [(k, copyval(x, memo)) for k, x in v.pairs]
    elif isinstance(v, VSet) and v.items is not None:
        n.items = list(v.items)
    return n


BUILTINS = {}
METHODS = {}
TYPE_ATTRS = {}
