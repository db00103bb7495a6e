"""Symbolic scalars (wrappers around z3 terms) and the per-path proof context.

Integers are mathematical integers, floats are mathematical reals (plus an explicit NaN flag);
both are listed as assumptions in the evidence.
"""
import time
from fractions import Fraction
import numpy as np
import z3

z3.set_param('auto_config', True)


class Unsupported(Exception):
    """The code left the dialect the engine understands (never reported as a violation)."""


class ForkNeeded(Exception):
    """Raised in speculative (merging) mode when a decision would be needed."""


class PathEnd(Exception):
    """The current path is finished (infeasible, or a loop-step path whose job is done)."""


class Raised(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


CTX = None  # current path context


def ctx():
    if CTX is None:
        raise Unsupported("no path context")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ------------------------------------------------------------------------------------------------
# conversions
_num = (int, float, bool, Fraction, np.integer, np.floating, np.bool_)


def is_num(x):
    return isinstance(x, _num)


def isS(x):
    return isinstance(x, S)


def term(x):
    """z3 term of a python number / symbolic scalar"""
    if isinstance(x, S):
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, (float, np.floating)):
        if x != x:
            return z3.RealVal(0)
        if x in (float('inf'), float('-inf')):
            raise Unsupported("infinity")
        return z3.RealVal(Fraction(float(x)))
    raise Unsupported(f"not a scalar: {type(x)}")


def nan_of(x):
    if isinstance(x, S):
        return x.nan
    if isinstance(x, (float, np.floating)) and x != x:
        return True
    return None


def _arith(t):
    if t.sort() == z3.BoolSort():
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def mk(t, nan=None, bits=None):
    """wrap a z3 term; fold integer / boolean constants to python values"""
    if nan is None:
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return S(t, nan, bits)


def simp(t):
    return z3.simplify(t)


def nor(*ns):
    """disjunction of NaN flags (None = never)"""
    out = []
    for n in ns:
        if n is None or n is False:
            continue
        if n is True:
            return True
        out.append(n)
    if not out:
        return None
    return out[0] if len(out) == 1 else z3.Or(*out)


def pair(a, b):
    ta, tb = _arith(term(a)), _arith(term(b))
    if ta.sort() != tb.sort():
        if ta.sort() == z3.IntSort():
            ta = z3.ToReal(ta)
        if tb.sort() == z3.IntSort():
            tb = z3.ToReal(tb)
    return ta, tb


def ok_scalar(x):
    return isinstance(x, S) or is_num(x)


def binop(f, a, b):
    if not ok_scalar(a) or not ok_scalar(b):
        return NotImplemented
    ta, tb = pair(a, b)
    return mk(f(ta, tb), nor(nan_of(a), nan_of(b)))


def cmpop(f, a, b):
    if not ok_scalar(a) or not ok_scalar(b):
        return NotImplemented
    n = nor(nan_of(a), nan_of(b))
    if n is True:
        return False
    ta, tb = pair(a, b)
    r = f(ta, tb)
    if n is not None:
        r = z3.And(z3.Not(n), r)
    return mk(simp_small(r))


def simp_small(t):
    if all(z3.is_int_value(c) or z3.is_rational_value(c) or z3.is_true(c) or z3.is_false(c) for c in t.children()):
        return z3.simplify(t)
    if t.num_args() == 2 and t.arg(0).eq(t.arg(1)):
        return z3.simplify(t)
    return t


# uninterpreted real functions; the axioms used are instantiated on demand
F_LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
F_EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())
F_SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
F_ERF = z3.Function('erf', z3.RealSort(), z3.RealSort())
F_POW2 = z3.Function('pow2', z3.RealSort(), z3.RealSort())


def to_real(x):
    t = _arith(term(x))
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def fdiv(a, b):
    ta, tb = pair(a, b)
    if ta.sort() == z3.RealSort():
        raise Unsupported("real floor division")
    if z3.is_int_value(tb):
        if tb.as_long() > 0:
            return mk(simp_if(ta / tb))
        if tb.as_long() == 0:
            raise Raised(ZeroDivisionError())
        return mk(simp_if((-ta) / (-tb)))
    return mk(z3.If(tb > 0, ta / tb, (-ta) / (-tb)))


def fmod(a, b):
    ta, tb = pair(a, b)
    if ta.sort() == z3.RealSort():
        raise Unsupported("real modulo")
    if z3.is_int_value(tb):
        if tb.as_long() > 0:
            return mk(simp_if(ta % tb))
        if tb.as_long() == 0:
            raise Raised(ZeroDivisionError())
    return a - b * fdiv(a, b)


def simp_if(t):
    return z3.simplify(t) if all(z3.is_int_value(c) for c in t.children()) else t


class S:
    __slots__ = ('t', 'nan', 'bits')
    __array_ufunc__ = None

    def __init__(self, t, nan=None, bits=None):
        self.t = t
        self.nan = nan
        self.bits = bits      # optional: list of z3 Bools, least significant first

    def __repr__(self):
        return f"S({str(self.t)[:80]})"

    __hash__ = object.__hash__

    @property
    def is_bool(self):
        return self.t.sort() == z3.BoolSort()

    @property
    def is_int(self):
        return self.t.sort() == z3.IntSort()

    @property
    def is_real(self):
        return self.t.sort() == z3.RealSort()

    def __add__(self, o): return binop(lambda a, b: a + b, self, o)
    def __radd__(self, o): return binop(lambda a, b: a + b, o, self)
    def __sub__(self, o): return binop(lambda a, b: a - b, self, o)
    def __rsub__(self, o): return binop(lambda a, b: a - b, o, self)
    def __mul__(self, o): return binop(lambda a, b: a * b, self, o)
    def __rmul__(self, o): return binop(lambda a, b: a * b, o, self)

    def __truediv__(self, o):
        if not ok_scalar(o):
            return NotImplemented
        return mk(to_real(self) / to_real(o), nor(nan_of(self), nan_of(o)))

    def __rtruediv__(self, o):
        if not ok_scalar(o):
            return NotImplemented
        return mk(to_real(o) / to_real(self), nor(nan_of(self), nan_of(o)))

    def __floordiv__(self, o): return fdiv(self, o) if ok_scalar(o) else NotImplemented
    def __rfloordiv__(self, o): return fdiv(o, self) if ok_scalar(o) else NotImplemented
    def __mod__(self, o): return fmod(self, o) if ok_scalar(o) else NotImplemented
    def __rmod__(self, o): return fmod(o, self) if ok_scalar(o) else NotImplemented
    def __neg__(self): return mk(-_arith(self.t), self.nan)
    def __pos__(self): return self
    def __abs__(self):
        t = _arith(self.t)
        return mk(z3.If(t >= 0, t, -t), self.nan)

    def __pow__(self, o): return s_pow(self, o)
    def __rpow__(self, o): return s_pow(o, self)

    def __lt__(self, o): return cmpop(lambda a, b: a < b, self, o)
    def __le__(self, o): return cmpop(lambda a, b: a <= b, self, o)
    def __gt__(self, o): return cmpop(lambda a, b: a > b, self, o)
    def __ge__(self, o): return cmpop(lambda a, b: a >= b, self, o)

    def __eq__(self, o):
        if o is self and self.nan is None:
            return True
        if not ok_scalar(o):
            return False if not hasattr(o, '__array_ufunc__') else NotImplemented
        return cmpop(lambda a, b: a == b, self, o)

    def __ne__(self, o):
        if not ok_scalar(o):
            return True if not hasattr(o, '__array_ufunc__') else NotImplemented
        r = self.__eq__(o)
        return Not(r)

    def __and__(self, o): return bitop('and', self, o)
    def __rand__(self, o): return bitop('and', o, self)
    def __or__(self, o): return bitop('or', self, o)
    def __ror__(self, o): return bitop('or', o, self)
    def __xor__(self, o): return bitop('xor', self, o)
    def __rxor__(self, o): return bitop('xor', o, self)
    def __invert__(self):
        if self.is_bool:
            return Not(self)
        return -self - 1

    def __lshift__(self, o):
        if isinstance(o, int):
            r = self * (1 << o)
            if self.bits is not None and isinstance(r, S):
                src = self
                return S(r.t, r.nan, lambda: [z3.BoolVal(False)] * o + get_bits(src))
            return r
        raise Unsupported("symbolic shift")

    def __rlshift__(self, o):
        raise Unsupported("symbolic shift")

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported("symbolic shift")

    def __bool__(self):
        return ctx().branch(truth_term(self))

    def __index__(self):
        v = ctx().concrete_int(self.t)
        if v is None:
            raise Unsupported("symbolic value used as index of a native object")
        return v

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("symbolic value converted natively to float")

    # numpy scalar / array-like protocol bits
    ndim = 0
    shape = ()

    @property
    def size(self): return 1

    def item(self): return self
    def any(self): return truth(self)
    def all(self): return truth(self)
    def astype(self, dt, **k): return cast(self, dtype_kind(dt))
    def copy(self): return self

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"


def truth_term(x):
    t = x.t
    if t.sort() == z3.BoolSort():
        return t
    r = t != 0
    if x.nan is not None:
        r = z3.Or(r, x.nan) if x.nan is not True else z3.BoolVal(True)
    return r


def truth(x):
    """boolean value of a scalar without branching"""
    if isinstance(x, S):
        return mk(truth_term(x))
    return bool(x)


def s_pow(a, b):
    if not ok_scalar(a) or not ok_scalar(b):
        return NotImplemented
    if is_num(b) and not isinstance(b, S):
        if float(b) == int(b) and 0 <= int(b) <= 4:
            r = 1
            for _ in range(int(b)):
                r = r * a
            return r if int(b) else 1
        if b == 0.5:
            return f_sqrt(a)
        if float(b) == int(b) and b < 0:
            return 1 / s_pow(a, -b)
    if is_num(a) and not isinstance(a, S):
        if a == -1:
            tb = _arith(term(b))
            if tb.sort() == z3.IntSort():
                return mk(z3.If(tb % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        if a == 2:
            return f_pow2(b)
    raise Unsupported("power")


def bitop(op, a, b):
    if not ok_scalar(a) or not ok_scalar(b):
        return NotImplemented
    ta, tb = term(a), term(b)
    B = z3.BoolSort()
    if ta.sort() == B and tb.sort() == B:
        f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
        return mk(simp_bool(f(ta, tb)))
    ba, bb = get_bits(a), get_bits(b)
    if ba is not None and bb is not None:
        n = max(len(ba), len(bb))
        ba = ba + [z3.BoolVal(False)] * (n - len(ba))
        bb = bb + [z3.BoolVal(False)] * (n - len(bb))
        f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
        r = [z3.simplify(f(x, y)) for x, y in zip(ba, bb)]
        return S(z3.Sum([z3.If(x, z3.IntVal(1 << i), z3.IntVal(0)) for i, x in enumerate(r)]), None, r)
    ta, tb = _arith(ta), _arith(tb)
    c = ctx()
    if not c.implied(z3.And(ta >= 0, ta <= 1, tb >= 0, tb <= 1)):
        raise Unsupported("bitwise operation on general integers")
    if op == 'xor':
        return mk(z3.If(ta == tb, z3.IntVal(0), z3.IntVal(1)))
    if op == 'and':
        return mk(z3.If(z3.And(ta == 1, tb == 1), z3.IntVal(1), z3.IntVal(0)))
    return mk(z3.If(z3.Or(ta == 1, tb == 1), z3.IntVal(1), z3.IntVal(0)))


def simp_bool(t):
    if any(z3.is_true(c) or z3.is_false(c) for c in t.children()):
        return z3.simplify(t)
    return t


def get_bits(x):
    if isinstance(x, S):
        if x.bits is None:
            return None
        return list(x.bits() if callable(x.bits) else x.bits)
    if isinstance(x, (bool, np.bool_)):
        return [z3.BoolVal(bool(x))]
    if isinstance(x, (int, np.integer)) and x >= 0:
        return [z3.BoolVal(bool(int(x) >> i & 1)) for i in range(max(1, int(x).bit_length()))]
    return None


# ---- logic for specifications (never branch) -----------------------------------------------------
def bterm(x):
    if isinstance(x, S):
        return truth_term(x)
    if isinstance(x, z3.ExprRef):
        return x
    return z3.BoolVal(bool(x))


def Not(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    return mk(z3.simplify(z3.Not(bterm(a))) if z3.is_not(bterm(a)) else z3.Not(bterm(a)))


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        t = bterm(x)
        if z3.is_false(t):
            return False
        if not z3.is_true(t):
            out.append(t)
    if not out:
        return True
    return mk(z3.And(*out) if len(out) > 1 else out[0])


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        t = bterm(x)
        if z3.is_true(t):
            return True
        if not z3.is_false(t):
            out.append(t)
    if not out:
        return False
    return mk(z3.Or(*out) if len(out) > 1 else out[0])


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    ta, tb = bterm(a), bterm(b)
    return mk(z3.simplify(ta == tb) if (z3.is_true(ta) or z3.is_false(ta) or z3.is_true(tb) or z3.is_false(tb)) else ta == tb)


def _lazy(x):
    return x() if callable(x) and not isinstance(x, (S, z3.ExprRef)) and type(x).__name__ == 'function' else x


def ite(c, a, b):
    """if-then-else value; a and b may be thunks (plain functions)"""
    if isinstance(c, (bool, np.bool_)):
        return _lazy(a) if c else _lazy(b)
    ct = bterm(c)
    if z3.is_true(ct):
        return _lazy(a)
    if z3.is_false(ct):
        return _lazy(b)
    a, b = _lazy(a), _lazy(b)
    if a is b:
        return a
    from .values import merge_values
    return merge_values(ct, a, b)


def scalar_ite(ct, a, b):
    na, nb = nan_of(a), nan_of(b)
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        ta, tb = pair(a, b)
    if ta.eq(tb) and na is None and nb is None:
        return a
    nan = None
    if na is not None or nb is not None:
        f = lambda n: z3.BoolVal(False) if n is None else z3.BoolVal(True) if n is True else n
        nan = z3.simplify(z3.If(ct, f(na), f(nb)))
        if z3.is_false(nan):
            nan = None
        elif z3.is_true(nan):
            nan = True
    bits = None
    if isinstance(a, S) and a.bits or isinstance(b, S) and b.bits:
        ba, bb = get_bits(a), get_bits(b)
        if ba is not None and bb is not None:
            n = max(len(ba), len(bb))
            ba += [z3.BoolVal(False)] * (n - len(ba))
            bb += [z3.BoolVal(False)] * (n - len(bb))
            bits = [z3.simplify(z3.If(ct, x, y)) for x, y in zip(ba, bb)]
    return mk(z3.If(ct, ta, tb), nan, bits)


# ---- real functions with instantiated axioms ------------------------------------------------------
def f_log(x):
    c = ctx()
    t = to_real(x)
    r = F_LOG(t)
    c.inst_log(t)
    return mk(r, nan_of(x))


def f_exp(x):
    c = ctx()
    t = to_real(x)
    r = F_EXP(t)
    c.axiom(('exp', t.get_id()), r > 0, keep=t)
    c.inst_mono('exp', F_EXP, t, strict=True)
    c.axiom(('exp0',), F_EXP(z3.RealVal(0)) == 1)
    c.axiom(('expneg', t.get_id()), z3.And(z3.Implies(t < 0, r < 1), z3.Implies(t > 0, r > 1)), keep=t)
    return mk(r, nan_of(x))


def f_sqrt(x):
    c = ctx()
    t = to_real(x)
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        import math
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return S(z3.RealVal(Fraction(a, b)))
    r = F_SQRT(t)
    c.axiom(('sqrt', t.get_id()), z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)), keep=t)
    c.axiom(('sqrt2', t.get_id()), z3.And(z3.Implies(t == 0, r == 0), z3.Implies(t == 1, r == 1),
                                          z3.Implies(t > 0, r > 0), z3.Implies(z3.And(t >= 0, t <= 1), r <= 1)), keep=t)
    n = nor(nan_of(x), z3.simplify(t < 0))
    if n is not None and z3.is_expr(n):
        if z3.is_false(n):
            n = None
        elif c.implied(z3.Not(n)):
            n = None
    return mk(r, n)


def f_erf(x):
    c = ctx()
    t = to_real(x)
    r = F_ERF(t)
    c.axiom(('erf', t.get_id()), z3.And(r > -1, r < 1, z3.Implies(t == 0, r == 0), z3.Implies(t > 0, r > 0),
                                        z3.Implies(t < 0, r < 0)), keep=t)
    c.inst_mono('erf', F_ERF, t, strict=True)
    return mk(r, nan_of(x))


def f_pow2(x):
    c = ctx()
    t = to_real(x)
    r = F_POW2(t)
    c.axiom(('pow2', t.get_id()), r > 0, keep=t)
    c.inst_mono('pow2', F_POW2, t, strict=True)
    return mk(r, nan_of(x))


def s_round(x):
    """python round-half-even of a real"""
    t = _arith(term(x))
    if t.sort() == z3.IntSort():
        return mk(t)
    fl = z3.ToInt(t)
    fr = t - z3.ToReal(fl)
    half = z3.RealVal(Fraction(1, 2))
    return mk(z3.If(fr < half, fl, z3.If(fr > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))


def s_trunc(x):
    t = _arith(term(x))
    if t.sort() == z3.IntSort():
        return mk(t)
    return mk(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


class Narrow(str):
    """kind of an integer array whose elements do not have the full (mathematical) range"""
    @classmethod
    def of(cls, d):
        r = cls('i')
        i = np.iinfo(d)
        r.lo, r.hi, r.dt = int(i.min), int(i.max), d
        return r


def dtype_kind(dt):
    """'i' integer, 'f' float, 'b' bool, 'O' object, 'u8' unsigned byte"""
    if dt is None:
        return None
    if dt in ('i', 'f', 'b', 'O'):
        return dt
    if dt is int:
        return 'i'
    if dt is float:
        return 'f'
    if dt is bool:
        return 'b'
    if dt is object:
        return 'O'
    if isinstance(dt, Narrow):
        return dt
    try:
        d = np.dtype(dt)
        k = d.kind
    except TypeError:
        raise Unsupported(f"dtype {dt}")
    if k == 'f' and d.itemsize < 8:
        raise Unsupported(f"rounding to {d}")
    if k == 'i' and d.itemsize < 8 or k == 'u':
        return Narrow.of(d)
    return {'i': 'i', 'u': 'i', 'f': 'f', 'b': 'b', 'O': 'O'}.get(k) or 'O'


def cast(x, kind):
    if kind is None or kind == 'O':
        return x
    if isinstance(kind, Narrow):
        r = cast(x, 'i')
        if not isinstance(r, S) or r.bits is None or callable(r.bits) or len(r.bits) > kind.hi.bit_length():
            ok = And(r >= kind.lo, r <= kind.hi)
            if ok is not True and (ok is False or not ctx().implied(ok)):
                raise Unsupported(f"value stored as {kind.dt} may not fit")
        return r
    if x is None:
        if kind == 'f':
            return float('nan')
        raise Raised(TypeError("None"))
    if not ok_scalar(x):
        raise Unsupported(f"cast of {type(x)}")
    if not isinstance(x, S):
        if kind == 'f':
            return x if isinstance(x, Fraction) else float(x)
        if kind == 'i':
            return int(x)
        return bool(x)
    if kind == 'f':
        return mk(to_real(x), x.nan) if not x.is_real else x
    if kind == 'i':
        if x.is_real:
            return s_trunc(x)
        if x.is_bool:
            return S(_arith(x.t), None, [x.t])
        return x
    return truth(x)
