"""Shared helpers of the contracts: symbolic set-up, specification functions, concrete generators."""
import io
import os
import sys
import z3
import pyvc  # noqa: F401
from pyvc.terms import (S, mk, term, bterm, And, Or, Not, Implies, Iff, ite, isS, Unsupported, Raised, PathEnd, ctx,
                        to_real, cast)
from pyvc.values import SBytes, SArr, SList, SDict, SFilt, SChoice, veq, norm_int
from pyvc.interp import Interp, SStruct, SymIter, Bound, IFunc
from pyvc import sums
from vf import Job

_o = sys.stdout
sys.stdout = io.StringIO()
try:
    import numpy as np
    from protocol_meta import dialect_meta as meta
    import protocol_meta
    from protocol_meta import msg_header
finally:
    sys.stdout = _o


class NamedInt:
    """symbolic integer input"""
    def __init__(self, name, s):
        self.name, self.s = name, s

    def concretize(self, model):
        from pyvc.values import model_int, model_real, model_bool
        if self.s.is_bool:
            return model_bool(model, self.s)
        if self.s.is_real:
            return model_real(model, self.s)
        return model_int(model, self.s)


class GCall:
    """a ghost method: f(it, *args, **kw)"""
    def __init__(self, f):
        self.f = f

    def _pyvc_call(self, it, args, kw):
        return self.f(it, *args, **kw)


def sym(c, name, sort='int', lo=None, hi=None):
    s = c.fresh(name, sort)
    c.inputs.append(NamedInt(name, s))
    if lo is not None:
        c.assume(s >= lo)
    if hi is not None:
        c.assume(s <= hi)
    return s


def outcome(it, f, args, kwargs=None):
    """('ret', value) or ('exc', exception)"""
    try:
        return 'ret', it.call(f, list(args), kwargs or {})
    except Raised as r:
        return 'exc', r.exc


def returns(c, it, f, args, kwargs=None, what=''):
    """call and require a normal return"""
    k, v = outcome(it, f, args, kwargs)
    if k == 'exc':
        c.prove(f'no exception: {what or getattr(f, "__qualname__", f)} (raised {type(v).__name__})', False, kind='exc')
        raise PathEnd()
    return v


def forall(c, name, n, p, kind='post'):
    """prove p(i) for an arbitrary 0 <= i < n"""
    i = c.fresh('i_any', 'int')
    return c.prove(name, Implies(And(i >= 0, i < n), p(i)), kind=kind)


def cover(c, name='precondition is satisfiable'):
    """vacuity guard: the path condition is satisfiable"""
    s = z3.Solver()
    s.set('timeout', 5000)
    for p in c.pc:
        if not z3.is_quantifier(p):
            s.add(p)
    if s.check() == z3.unsat:
        c.prove(name, False, kind='cover')


def alive(c):
    """end the path if its condition is contradictory"""
    if not c.feasible(z3.BoolVal(True)):
        raise PathEnd()


def popcount_bits(bits):
    return mk(z3.Sum([z3.If(b, z3.IntVal(1), z3.IntVal(0)) for b in bits])) if bits else 0


def hd8(const, byte):
    """spec: number of differing bits of two 8 bit values (const is a python int, byte symbolic)"""
    from pyvc.terms import get_bits
    bs = get_bits(byte)
    bs = bs + [z3.BoolVal(False)] * (8 - len(bs))
    return mk(z3.Sum([z3.If(z3.Not(b) if const >> i & 1 else b, z3.IntVal(1), z3.IntVal(0)) for i, b in enumerate(bs)]))


def rand_bytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))
