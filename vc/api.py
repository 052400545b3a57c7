"""What contract files import."""
import z3
from .core import *
from .interp import *
from .lib import *
from . import lib

PROOFS = []


class Proof:
    def __init__(self, name, fn, loops, overrides, setup, opts):
        self.name, self.fn, self.loops, self.overrides, self.setup, self.opts = name, fn, loops, overrides, setup, opts


def proof(name, loops=(), overrides=None, setup=None, **opts):
    """register a proof: fn(c, it) sets up the precondition, calls the real
    function through `it` and states the postcondition with c.oblige"""
    def d(fn):
        PROOFS.append(Proof(name, fn, loops, overrides, setup, opts))
        return fn
    return d


GE = "deepgnn.graph_engine."
from .models import *
from . import models


def every(l, n, f):
    """for all q < n: f(q, l[q]) (n is at most the length of l)"""
    if l.items is not None:
        return And(le(n, len(l.items)), *[Implies(lt(q, n), f(q, x)) for q, x in enumerate(l.items)])
    return And(le(n, l.length()), ForAll(1, lambda q: Implies(inrange(0, q, n), f(q, lget(l, q)))))
