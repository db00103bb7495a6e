"""Symbolic containers: byte strings, lists, dictionaries, numpy arrays (element closures), choices."""
import enum
import numpy as np
import z3
from . import terms
from .terms import (S, mk, term, bterm, isS, is_num, ok_scalar, Unsupported, ForkNeeded, PathEnd, Raised, And, Or, Not,
                    Implies, ite, scalar_ite, cast, dtype_kind, ctx, truth, nan_of, to_real)


# ------------------------------------------------------------------------------------------------ choices
_objs = []
_codes = {}


def code_of(o):
    try:
        k = ('h', type(o), o)
        if k in _codes:
            return _codes[k]
    except TypeError:
        k = ('i', id(o))
        if k in _codes:
            return _codes[k]
    _codes[k] = len(_objs)
    _objs.append(o)
    return _codes[k]


class SChoice:
    """one of several interned python objects; t is the z3 Int code"""
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SChoice):
            return mk(self.t == o.t)
        if isinstance(o, (SArr,)):
            return NotImplemented
        return mk(self.t == code_of(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else Not(r)

    __hash__ = object.__hash__

    def __repr__(self):
        return f"SChoice({self.t})"


def choice_term(x):
    return x.t if isinstance(x, SChoice) else z3.IntVal(code_of(x))


def is_atom(x):
    return isinstance(x, (enum.Enum, str, type(None), bytes, SChoice))


def merge_values(ct, a, b):
    if a is b:
        return a
    if ok_scalar(a) and ok_scalar(b):
        return scalar_ite(ct, a, b)
    if is_atom(a) and is_atom(b):
        if not isinstance(a, SChoice) and not isinstance(b, SChoice) and type(a) == type(b) and a == b:
            return a
        return SChoice(z3.If(ct, choice_term(a), choice_term(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_values(ct, x, y) for x, y in zip(a, b))
    if (a is None or isinstance(a, SOpt)) and (b is None or isinstance(b, (SOpt, tuple))) or \
            (b is None or isinstance(b, SOpt)) and isinstance(a, tuple):
        na, va = opt_parts(a)
        nb, vb = opt_parts(b)
        v = vb if va is None else va if vb is None else merge_values(ct, va, vb)
        return SOpt(ite(mk(ct), na, nb), v)
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim and all(same_dim(x, y) for x, y in zip(a.shape, b.shape)):
        fa, fb = a.reader(), b.reader()
        return SArr.new(a.shape, lambda idx: ite(mk(ct), lambda: fa(idx), lambda: fb(idx)), a.kind)
    if hasattr(a, '_pyvc_merge') and type(a) is type(b):
        return a._pyvc_merge(ct, b)
    if ctx().spec:
        raise ForkNeeded()
    raise Unsupported(f"cannot merge {type(a).__name__} / {type(b).__name__}")


class SOpt:
    """None or a tuple"""
    _pyvc_sym = True

    def __init__(self, none, val):
        self.none, self.val = none, val

    def _pyvc_isnone(self):
        return self.none

    def _pyvc_getitem(self, it, k):
        if it.branch(self.none):
            raise Raised(TypeError("'NoneType' object is not subscriptable"))
        return self.val[k]

    def _pyvc_truth(self):
        return Not(self.none)

    def _pyvc_iter(self, it):
        if it.branch(self.none):
            raise Raised(TypeError("'NoneType' object is not iterable"))
        return list(self.val)


def opt_parts(x):
    if x is None:
        return True, None
    if isinstance(x, SOpt):
        return x.none, x.val
    return False, x


def veq(a, b):
    """equality of two values as a formula (no branching)"""
    if a is b:
        return True
    if isinstance(a, SChoice) or isinstance(b, SChoice):
        if isinstance(a, (S, SArr)) or isinstance(b, (S, SArr)):
            return False
        return mk(z3.simplify(choice_term(a) == choice_term(b)))
    if ok_scalar(a) and ok_scalar(b):
        na, nb = nan_of(a), nan_of(b)
        if na is None and nb is None:
            r = terms.cmpop(lambda x, y: x == y, a, b)
            return r
        fa = False if na is None else True if na is True else mk(na)
        fb = False if nb is None else True if nb is True else mk(nb)
        ta, tb = terms.pair(a, b)
        return Or(And(fa, fb), And(Not(fa), Not(fb), mk(ta == tb)))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b) or isinstance(a, tuple) != isinstance(b, tuple):
            return False
        return And(*[veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, SBytes) and isinstance(b, SBytes):
        raise Unsupported("byte string equality in a formula needs a quantifier")
    if is_atom(a) and is_atom(b):
        return a == b
    if isinstance(a, SOpt) or isinstance(b, SOpt):
        if not all(x is None or isinstance(x, (SOpt, tuple)) for x in (a, b)):
            return False
        na, va = opt_parts(a)
        nb, vb = opt_parts(b)
        if va is None or vb is None:
            return And(na, nb)
        return And(terms.Iff(na, nb), Or(na, veq(va, vb)))
    if ok_scalar(a) != ok_scalar(b):
        return False
    if type(a) != type(b):
        return False
    if hasattr(a, '_pyvc_veq'):
        return a._pyvc_veq(b)
    return bool(a == b)


# ------------------------------------------------------------------------------------------------ lengths, slices
def same_dim(a, b):
    if isinstance(a, S) or isinstance(b, S):
        if isinstance(a, S) and isinstance(b, S) and a.t.eq(b.t):
            return True
        return ctx().implied(term(a) == term(b))
    return a == b


def norm_int(x):
    """python int if x is numeral-like"""
    if isinstance(x, S):
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
        return S(t, None, x.bits) if x.is_int else x
    if isinstance(x, (np.integer, np.bool_)):
        return int(x)
    return x


def smin(a, b):
    if not isS(a) and not isS(b):
        return min(a, b)
    if ctx().implied(a <= b):
        return a
    if ctx().implied(b <= a):
        return b
    return ite(a <= b, a, b)


def smax(a, b):
    if not isS(a) and not isS(b):
        return max(a, b)
    if ctx().implied(a >= b):
        return a
    if ctx().implied(b >= a):
        return b
    return ite(a >= b, a, b)


def slice_bounds(sl, n):
    """(start, length) of a unit-step slice of a sequence of length n"""
    step = sl.step
    if step not in (None, 1):
        if all(not isS(v) for v in (sl.start, sl.stop, n)):
            raise Unsupported("strided slice")
        raise Unsupported("strided slice")
    n = norm_int(n)

    def clip(v, default):
        if v is None:
            return default
        v = norm_int(v)
        if not ok_scalar(v) or (isinstance(v, S) and v.is_real) or isinstance(v, float):
            raise Raised(TypeError("slice indices must be integers or None or have an __index__ method"))
        if not isS(v) and not isS(n):
            return max(0, v + n) if v < 0 else min(v, n)
        if not isS(v):
            neg = v < 0
        elif ctx().implied(v >= 0):
            neg = False
        elif ctx().implied(v < 0):
            neg = True
        else:
            neg = None
        if neg is False:
            return smin(v, n)
        if neg is True:
            return smax(v + n, 0)
        return ite(v >= 0, smin(v, n), smax(v + n, 0))
    a = clip(sl.start, 0)
    b = clip(sl.stop, n)
    ln = norm_int(b - a)
    if isS(ln):
        if not ctx().implied(ln >= 0):
            ln = smax(ln, 0)
    else:
        ln = max(0, ln)
    return norm_int(a), norm_int(ln)


def check_index(i, n, what='index'):
    """python index semantics: negative wrap, IndexError path"""
    i = norm_int(i)
    n = norm_int(n)
    if isinstance(i, S) and i.is_bool:
        i = cast(i, 'i')
    if isinstance(i, bool):
        i = int(i)
    if not isS(i) and not isS(n):
        if i < -n or i >= n:
            raise Raised(IndexError(what))
        return i + n if i < 0 else i
    if isinstance(i, float) or (isS(i) and i.is_real):
        raise Raised(IndexError("only integers, slices, ..."))
    c = ctx()
    if not isS(i):
        if i >= 0:
            if not c.branch(bterm(i < n)):
                raise Raised(IndexError(what))
            return i
        if not c.branch(bterm(-i <= n)):
            raise Raised(IndexError(what))
        return norm_int(n + i)
    if c.implied(And(i >= 0, i < n)):
        return i
    if c.branch(bterm(And(i >= 0, i < n))):
        return i
    if c.branch(bterm(And(i < 0, i + n >= 0))):
        return norm_int(i + n)
    raise Raised(IndexError(what))


# ------------------------------------------------------------------------------------------------ bytes
class SBytes:
    """immutable byte string: length and element function (index -> S int with lazily linked bits)"""
    __array_ufunc__ = None

    def __init__(self, length, fn, src=None, off=0):
        self.length = norm_int(length)
        self.fn = fn
        self.src = src          # (base object, offset) for identity of slices
        self.off = off

    @classmethod
    def fresh(cls, name, length=None, maxlen=None):
        c = ctx()
        if length is None:
            length = c.fresh(name + '_len', 'int')
            c.assume(length >= 0)
            if maxlen is not None:
                c.assume(length <= maxlen)
        bf = c.fresh_fn(name + '_byte', 'int', 'int')
        bitf = c.fresh_fn(name + '_bit', 'int', 'int', 'bool')

        def fn(i):
            t = term(i)
            b = bf(t)
            c.axiom((name, bf.name(), z3.simplify(t).sexpr()), z3.And(b >= 0, b <= 255))

            def bits():
                bs = [bitf(t, z3.IntVal(j)) for j in range(8)]
                c.axiom((name, 'bits', bf.name(), z3.simplify(t).sexpr()),
                        b == z3.Sum([z3.If(x, z3.IntVal(1 << j), z3.IntVal(0)) for j, x in enumerate(bs)]))
                return bs
            return S(b, None, bits)
        o = cls(length, fn)
        o.src = o
        o.bf = bf
        o.bitf = bitf
        o.name = name
        o.maxlen = 4096
        c.inputs.append(o)
        return o

    def concretize(self, model):
        n = model_int(model, self.length)
        if n > self.maxlen:
            raise ValueError('too long')
        return bytes(model_int(model, self.fn_t(i)) % 256 for i in range(n))

    def fn_t(self, i):
        return S(self.bf(z3.IntVal(i)))

    def slice(self, sl):
        a, ln = slice_bounds(sl, self.length)
        fn = self.fn
        r = SBytes(ln, (lambda i: fn(i + a)), self.src, self.off + a)
        return r

    def getitem(self, k):
        if isinstance(k, slice):
            return self.slice(k)
        return self.fn(check_index(k, self.length, 'index out of range'))

    def elem(self, i):
        return self.fn(i)

    def as_list(self):
        n = self.length if not isS(self.length) else ctx().concrete_int(self.length.t)
        if n is None:
            return None
        return [self.fn(i) for i in range(n)]


def model_int(model, x):
    if not isS(x):
        return int(x)
    v = model.eval(x.t, model_completion=True)
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return v.as_long()
    raise ValueError('no value')


def model_real(model, x):
    if not isS(x):
        return float(x)
    v = z3.simplify(model.eval(to_real(x), model_completion=True))
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return v.numerator_as_long() / v.denominator_as_long()
    raise ValueError('no value')


def model_bool(model, x):
    if not isS(x):
        return bool(x)
    return z3.is_true(z3.simplify(model.eval(x.t, model_completion=True)))


# ------------------------------------------------------------------------------------------------ lists
class SList:
    """python list of symbolic length, as a concatenation of segments:
       ('items', [v...]) | ('fn', n, f) | ('comp', n, cond, f) | ('opaque', token, length, f|None)"""

    def __init__(self, segs=None, name='list'):
        self.segs = list(segs or [])
        self.name = name
        self.writes = 0

    def copy(self):
        return SList([(s[0], list(s[1])) if s[0] == 'items' else s for s in self.segs], self.name)

    def length(self):
        n = 0
        for s in self.segs:
            if s[0] == 'items':
                n = n + len(s[1])
            elif s[0] == 'fn':
                n = n + s[1]
            elif s[0] == 'comp':
                from .sums import count
                n = n + count(s[1], s[2])
            else:
                n = n + s[2]
        return norm_int(n)

    def append(self, v):
        touch(self)
        if self.segs and self.segs[-1][0] == 'items':
            self.segs[-1][1].append(v)
        else:
            self.segs.append(('items', [v]))

    def extend(self, vs):
        touch(self)
        if isinstance(vs, SList):
            for s in vs.segs:
                self.segs.append((s[0], list(s[1])) if s[0] == 'items' else s)
            return
        for v in vs:
            self.append(v)

    def pop(self, k=-1):
        n = self.length()
        k = check_index(k, n, 'pop index out of range')
        touch(self)
        src = self.copy()
        v = src.elem(k)
        self.segs = [('fn', norm_int(n - 1), lambda i: src.elem(ite(i < k, i, i + 1)))]
        return v

    def elem(self, i):
        """value at index i (assumed in range)"""
        i = norm_int(i)
        pos = 0
        out = []
        for s in self.segs:
            if s[0] == 'items':
                for v in s[1]:
                    out.append((pos, 1, (lambda p, v=v: v)))
                    pos = norm_int(pos + 1)
            elif s[0] == 'fn':
                out.append((pos, s[1], s[2]))
                pos = norm_int(pos + s[1])
            elif s[0] == 'opaque' and s[3] is not None:
                out.append((pos, s[2], s[3]))
                pos = norm_int(pos + s[2])
            else:
                raise Unsupported("random access to a filtered list")
        if not out:
            raise Raised(IndexError('list index out of range'))
        # nested ite from the last
        def build(k):
            p, n, f = out[k]
            rel = norm_int(i - p)
            if k == len(out) - 1:
                return f(rel)
            return ite(rel < n, lambda: f(rel), lambda: build(k + 1))
        return build(0)

    def getitem(self, k):
        n = self.length()
        if isinstance(k, slice):
            a, ln = slice_bounds(k, n)
            src = self.copy()
            return SList([('fn', ln, lambda i: src.elem(i + a))], self.name)
        return self.elem(check_index(k, n, 'list index out of range'))

    def as_pylist(self):
        n = self.length()
        if isS(n):
            n = ctx().concrete_int(n.t)
        if n is None:
            return None
        return [self.elem(i) for i in range(n)]

    def __repr__(self):
        return f"SList({[s[0] for s in self.segs]})"


def touch(o):
    """record a mutation of a heap object"""
    c = ctx()
    if c.spec:
        raise ForkNeeded()
    if id(o) in c.shared:
        raise Unsupported("state kept between calls")
    if c.heaplog is not None:
        c.heaplog[id(o)] = o
    if c.ro is not None and id(o) in c.ro:
        c.prove('frame: argument is not modified (' + c.ro[id(o)] + ')', False, kind='frame')


class SDict:
    """dictionary with symbolic keys: membership and value functions over key terms (insertion order not modelled)"""

    def __init__(self, has, get, nkeys=1, default_kind=None):
        self.has = has
        self.get = get
        self.empty = None

    @classmethod
    def new_empty(cls):
        d = cls(lambda k: False, lambda k: 0)
        d.empty = True
        return d

    def setitem(self, key, val):
        touch(self)
        h, g = self.has, self.get
        self.has = lambda k: Or(veq(k, key), h(k))
        self.get = lambda k: ite(veq(k, key), lambda: val, lambda: g(k))
        self.empty = False

    def getitem(self, key):
        if not ctx().branch(bterm(self.has(key))):
            raise Raised(KeyError('key'))
        return self.get(key)


# ------------------------------------------------------------------------------------------------ arrays
class Cell:
    __slots__ = ('shape', 'fn', 'kind', 'name', '__weakref__')

    def __init__(self, shape, fn, kind, name=''):
        self.shape, self.fn, self.kind, self.name = tuple(norm_int(s) for s in shape), fn, kind, name


class SArr:
    """numpy array: shared cell + view descriptor"""
    __array_ufunc__ = None

    def __init__(self, cell, desc, shape):
        self.cell = cell
        self.desc = desc          # per base axis: ('s', start, vaxis) | ('f', index)
        self._shape = tuple(norm_int(s) for s in shape)

    @classmethod
    def new(cls, shape, fn, kind, name=''):
        cell = Cell(shape, fn, kind, name)
        return cls(cell, tuple(('s', 0, k) for k in range(len(cell.shape))), cell.shape)

    @classmethod
    def fresh(cls, name, shape, kind='f', lo=None, hi=None):
        """fresh input array; kind f/i/b"""
        c = ctx()
        shape = tuple(norm_int(s) for s in shape)
        F = c.fresh_fn(name, *(['int'] * len(shape)), {'f': 'real', 'i': 'int', 'b': 'bool'}[kind])

        def fn(idx):
            t = F(*[term(i) for i in idx])
            if lo is not None:
                c.axiom((F.name(), 'lo', t.sexpr()), t >= lo)
            if hi is not None:
                c.axiom((F.name(), 'hi', t.sexpr()), t <= hi)
            bits = [t == 1] if kind == 'i' and lo == 0 and hi == 1 else None
            return mk(t, None, bits)
        a = cls.new(shape, fn, kind, name)
        a.cell.name = name
        a.F = F
        c.inputs.append(InputArr(name, shape, kind, F, lo, hi))
        return a

    @classmethod
    def from_np(cls, a):
        a = np.asarray(a)
        if a.size > 4096:
            raise Unsupported("large concrete array")
        k = dtype_kind(a.dtype)
        shape = a.shape
        data = a.copy()

        def fn(idx):
            idx = [norm_int(i) for i in idx]
            if all(not isS(i) for i in idx):
                v = data[tuple(idx)]
                return v.item() if isinstance(v, np.generic) else v
            # ite chain over the first symbolic axis
            for ax, i in enumerate(idx):
                if isS(i):
                    n = shape[ax]
                    vals = [fn(idx[:ax] + [j] + idx[ax + 1:]) for j in range(n)]
                    if not vals:
                        return 0
                    r = vals[-1]
                    for j in range(n - 2, -1, -1):
                        r = ite(i == j, vals[j], r)
                    return r
        return cls.new(shape, fn, k)

    # -- basic protocol --------------------------------------------------------------------------
    @property
    def shape(self): return self._shape

    @property
    def ndim(self): return len(self._shape)

    @property
    def kind(self): return self.cell.kind

    @property
    def dtype(self):
        return {'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool), 'O': np.dtype(object)}[self.cell.kind]

    @property
    def size(self):
        n = 1
        for s in self._shape:
            n = n * s
        return norm_int(n)

    def length(self):
        if not self._shape:
            raise Raised(TypeError("len() of unsized object"))
        return self._shape[0]

    def base(self, idx):
        out = []
        for d in self.desc:
            if d[0] == 'f':
                out.append(d[1])
            else:
                out.append(norm_int(d[1] + idx[d[2]]) if d[1] != 0 or isS(d[1]) else idx[d[2]])
        return tuple(out)

    def reader(self):
        fn = self.cell.fn
        if all(d[0] == 's' and not isS(d[1]) and d[1] == 0 and d[2] == k for k, d in enumerate(self.desc)) and len(self.desc) == self.ndim:
            return fn
        return lambda idx: fn(self.base(idx))

    def elem(self, *idx):
        return self.cell.fn(self.base(tuple(idx)))

    def is_full_view(self):
        return len(self.desc) == self.ndim and all(
            d[0] == 's' and not isS(d[1]) and d[1] == 0 and d[2] == k for k, d in enumerate(self.desc)) and \
            all(same_dim(a, b) for a, b in zip(self._shape, self.cell.shape))

    def write(self, val, cond=None):
        """assign val(idx) to every element of this view for which cond(idx) holds"""
        touch(self.cell)
        old = self.cell.fn
        desc, shape, kind = self.desc, self._shape, self.cell.kind
        full = self.is_full_view()

        def fn(b):
            vidx = [0] * len(shape)
            conds = []
            for d, bi in zip(desc, b):
                if d[0] == 'f':
                    conds.append(bi == d[1] if isS(bi) or isS(d[1]) else bi == d[1])
                else:
                    r = norm_int(bi - d[1]) if isS(d[1]) or d[1] != 0 else bi
                    vidx[d[2]] = r
                    if not full:
                        conds.append(And(r >= 0, r < shape[d[2]]))
            vi = tuple(vidx)
            if cond is not None:
                g = And(*conds)
                if g is False:
                    return old(b)
                conds.append(cond(vi))
            return ite(And(*conds), lambda: cast(val(vi), kind), lambda: old(b))
        self.cell.fn = fn

    # -- indexing -----------------------------------------------------------------------------------
    def view(self, key):
        """basic indexing -> SArr view or scalar index"""
        key = list(key)
        nd = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in key if k is Ellipsis]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (self.ndim - nd)
        else:
            key += [slice(None)] * (self.ndim - nd)
        if nd > self.ndim:
            raise Raised(IndexError("too many indices for array"))
        newshape, vmap, ax = [], {}, 0
        for k in key:
            if k is None:
                newshape.append(1)
                continue
            if isinstance(k, slice):
                a, ln = slice_bounds(k, self._shape[ax])
                vmap[ax] = ('s', a, len(newshape))
                newshape.append(ln)
            else:
                vmap[ax] = ('f', check_index(k, self._shape[ax], 'index out of bounds'))
            ax += 1
        desc = []
        for d in self.desc:
            if d[0] == 'f':
                desc.append(d)
            else:
                v = vmap[d[2]]
                if v[0] == 'f':
                    desc.append(('f', norm_int(d[1] + v[1])))
                else:
                    desc.append(('s', norm_int(d[1] + v[1]), v[2]))
        return SArr(self.cell, tuple(desc), newshape)

    def getitem(self, key):
        if isinstance(key, np.ndarray):
            key = SArr.from_np(key)
        if isinstance(key, list):
            key = SArr.from_np(np.array(key)) if all(not isS(k) for k in key) else list_to_arr(key)
        if isinstance(key, tuple) and any(isinstance(k, (SArr, np.ndarray, SFilt)) for k in key):
            return self._adv(key)
        if isinstance(key, (SArr, SFilt)):
            return self._adv((key,))
        if not isinstance(key, tuple):
            key = (key,)
        v = self.view(key)
        if v.ndim == 0:
            return v.elem()
        return v

    def _adv(self, key):
        k0 = key[0]
        if isinstance(k0, np.ndarray):
            k0 = SArr.from_np(k0)
        rest = key[1:]
        if rest and any(isinstance(k, (SArr, SFilt)) for k in rest):
            if isinstance(k0, slice) and k0 == slice(None) and len(rest) == 1 and isinstance(rest[0], SArr) and rest[0].kind == 'i':
                m = rest[0]
                f, mf = self.reader(), m.reader()
                return SArr.new((self._shape[0],) + m.shape, lambda idx: f((idx[0],) + (mf(idx[1:]),)), self.kind)
            raise Unsupported("advanced indexing on several axes")
        f = self.reader()
        if isinstance(k0, SArr) and k0.kind == 'b':
            if k0.ndim != 1 or self.ndim != 1 or rest:
                raise Unsupported("boolean mask on multi-dimensional array")
            mask_dim_check(k0, self)
            m = k0.reader()
            return SFilt(k0.shape[0], lambda i: m((i,)), lambda i: f((i,)), self.kind)
        if isinstance(k0, SFilt):
            if self.ndim != 1:
                raise Unsupported("fancy index on 2d array")
            require_in_bounds(k0, self._shape[0])
            v = k0.val
            return SFilt(k0.n, k0.cond, lambda i: f((v(i),)), self.kind, k0.tag)
        if isinstance(k0, SArr) and k0.kind == 'i':
            m = k0.reader()
            sub = SFilt(k0.shape[0], lambda i: True, lambda i: m((i,)), 'i') if k0.ndim == 1 else None
            if sub is not None:
                require_in_bounds(sub, self._shape[0])
            elif k0.ndim > 1:
                raise Unsupported("multi-dimensional fancy index")
            v = self.view((slice(None),) + rest) if rest else self
            g = v.reader()
            nd = k0.ndim
            return SArr.new(k0.shape + v.shape[1:], lambda idx: g((m(idx[:nd]),) + idx[nd:]), self.kind)
        raise Unsupported("index kind")

    def setitem(self, key, val):
        if isinstance(key, np.ndarray):
            key = SArr.from_np(key)
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, (SArr, SFilt)):
            return self._scatter(key, val)
        if isinstance(key, tuple) and any(isinstance(k, (SArr, np.ndarray, SFilt)) for k in key):
            raise Unsupported("advanced assignment")
        if not isinstance(key, tuple):
            key = (key,)
        v = self.view(key)
        v.assign(val)

    def assign(self, val):
        """self[...] = val with broadcasting"""
        if isinstance(val, (list, tuple)):
            val = list_to_arr(val)
        if isinstance(val, np.ndarray):
            val = SArr.from_np(val)
        if isinstance(val, SList):
            n, src = val.length(), val.copy()
            val = SArr.new((n,), lambda idx: src.elem(idx[0]), self.kind)
        if isinstance(val, SFilt):
            raise Unsupported("filtered array assigned to a slice")
        if isinstance(val, SArr):
            while val.ndim > self.ndim >= 1 and not isS(val.shape[0]) and val.shape[0] == 1:
                val = val.view((0,))
            vs = broadcast_to(val, self._shape)
            self.write(vs)
        else:
            if isinstance(val, SBytes):
                raise Unsupported("bytes assigned to array")
            self.write(lambda idx: val)

    def _scatter(self, key, val):
        if self.ndim != 1:
            if self.ndim == 2 and isinstance(key, SArr) and key.kind == 'b':
                raise Unsupported("2d mask assignment")
            raise Unsupported("scatter into 2d array")
        if isinstance(key, SArr) and key.kind == 'b':
            mask_dim_check(key, self)
            m = key.reader()
            n = key.shape[0]
            if isinstance(val, SFilt):
                if not same_filter(val, n, lambda i: m((i,))):
                    raise Unsupported("mask assignment from a different filter")
                v = val.val
                self.write(lambda idx: v(idx[0]), lambda idx: m((idx[0],)))
            elif isinstance(val, SArr) and val.ndim == 1:
                # values are taken in order: only all-equal lengths supported when the value array length equals the count
                mask_value_assign(self, m, n, val)
            else:
                if isinstance(val, (list, tuple, np.ndarray)):
                    raise Unsupported("mask assignment from list")
                self.write(lambda idx: val, lambda idx: m((idx[0],)))
            return
        if isinstance(key, SArr):
            m = key.reader()
            key = SFilt(key.shape[0], lambda i: True, lambda i: m((i,)), 'i')
        require_in_bounds(key, self._shape[0])
        n, cond, idxf = key.n, key.cond, key.val
        if isinstance(val, SFilt):
            if not (val.tag is key.tag and val.tag is not None or same_filter(val, n, cond)):
                raise Unsupported("scatter of values with a different filter")
            vf = val.val
        elif isinstance(val, SArr) and val.ndim == 1:
            if not same_dim(val.shape[0], n) or key.cond(0) is not True:
                j = ctx().fresh('j', 'int')
                if idxf(j) is not j:
                    raise Unsupported("scatter value shape")
                mask_value_assign(self, lambda i: cond(i[0]), n, val)      # positions of a mask
                return
            r = val.reader()
            vf = lambda i: r((i,))
        else:
            vf = lambda i: val
        W = inverse_of(key)

        def hit(j):
            w = W(j)
            return And(w >= 0, w < n, cond(w), veq(idxf(w), j))
        self.write(lambda idx: vf(W(idx[0])), lambda idx: hit(idx[0]))

    # -- methods --------------------------------------------------------------------------------------
    @property
    def T(self):
        n = self.ndim
        desc = tuple(d if d[0] == 'f' else ('s', d[1], n - 1 - d[2]) for d in self.desc)
        return SArr(self.cell, desc, tuple(reversed(self._shape)))

    def copy(self):
        return SArr.new(self._shape, self.reader(), self.kind)

    def astype(self, dt, **k):
        kind = dtype_kind(dt)
        f = self.reader()
        return SArr.new(self._shape, lambda idx: cast(f(idx), kind), kind)

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        if self.ndim == 2:
            ones = [k for k, s in enumerate(self._shape) if s == 1]
            f = self.reader()
            if ones and ones[0] == 1:
                return SArr.new((self._shape[0],), lambda idx: f((idx[0], 0)), self.kind)
            if ones and ones[0] == 0:
                return SArr.new((self._shape[1],), lambda idx: f((0, idx[0])), self.kind)
        raise Unsupported("flatten")

    def __bool__(self):
        n = self.size
        if not isS(n) and n == 1:
            return bool(truth(self.elem(*([0] * self.ndim))))
        raise Unsupported("truth value of an array")

    # -- operators ---------------------------------------------------------------------------------------
    def _bin(self, o, f, kind=None, rev=False):
        return elementwise((lambda a, b: f(b, a)) if rev else f, self, o, kind=kind)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, rev=True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, rev=True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, rev=True)
    def __truediv__(self, o): return self._bin(o, sdiv, kind='f')
    def __rtruediv__(self, o): return self._bin(o, sdiv, kind='f', rev=True)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __pow__(self, o): return self._bin(o, lambda a, b: terms.s_pow(a, b) if isS(a) or isS(b) else a ** b)
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __abs__(self): return elementwise(lambda a: abs(a), self)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, kind='b')
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, kind='b')
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, kind='b')
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, kind='b')
    def __eq__(self, o): return self._bin(o, peq, kind='b')
    def __ne__(self, o): return self._bin(o, lambda a, b: Not(peq(a, b)), kind='b')
    def __and__(self, o): return self._bin(o, lambda a, b: tobool_and(a, b))
    def __rand__(self, o): return self._bin(o, lambda a, b: tobool_and(a, b))
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b)
    def __rxor__(self, o): return self._bin(o, lambda a, b: a ^ b)
    def __invert__(self): return elementwise(lambda a: Not(a) if self.kind == 'b' else ~a, self)
    __hash__ = object.__hash__

    def inplace(self, o, f):
        if isinstance(o, (list, tuple)):
            o = list_to_arr(o)
        if isinstance(o, np.ndarray):
            o = SArr.from_np(o)
        r = self.reader()
        if isinstance(o, SArr):
            g = broadcast_to(o, self._shape)
            self.write(lambda idx: f(r(idx), g(idx)))
        elif isinstance(o, SFilt):
            raise Unsupported("in-place with filtered array")
        else:
            self.write(lambda idx: f(r(idx), o))
        return self


def tobool_and(a, b):
    return a & b


def peq(a, b):
    """python equality of two elements (nan-aware)"""
    if ok_scalar(a) and ok_scalar(b):
        if isS(a) or isS(b):
            return terms.cmpop(lambda x, y: x == y, a, b)
        return a == b
    return veq(a, b)


def sdiv(a, b):
    if isS(a) or isS(b):
        if getattr(terms.ctx(), 'nan_div', False):      # 0/0 is NaN (x/0 an arbitrary value)
            r = a / b if isS(a) else S.__rtruediv__(b, a)
            z = And(veq(a, 0), veq(b, 0))
            return r if z is False or terms.ctx().implied(Not(z), 200) else mk(r.t, terms.nor(terms.nan_of(r), z.t if isS(z) else z))
        return a / b if isS(a) else S.__rtruediv__(b, a)
    from fractions import Fraction
    if b == 0:
        raise Unsupported("concrete division by zero")
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return S(z3.RealVal(Fraction(a) / Fraction(b)))
    return a / b


class InputArr:
    def __init__(self, name, shape, kind, F, lo, hi):
        self.name, self.shape, self.kind, self.F, self.lo, self.hi = name, shape, kind, F, lo, hi

    def concretize(self, model):
        shape = tuple(model_int(model, s) for s in self.shape)
        if int(np.prod(shape)) > 20000:
            raise ValueError('too large')
        a = np.zeros(shape, dtype={'f': float, 'i': int, 'b': bool}[self.kind])
        for idx in np.ndindex(*shape):
            t = S(self.F(*[z3.IntVal(i) for i in idx]))
            a[idx] = {'f': model_real, 'i': model_int, 'b': model_bool}[self.kind](model, t)
        return a


def list_to_arr(lst):
    """1-d or 2-d array from a python list of scalars / lists"""
    lst = list(lst)
    if lst and isinstance(lst[0], (list, tuple)):
        m = len(lst[0])
        rows = [list(r) for r in lst]
        flat = [v for r in rows for v in r]
        kind = kind_of(flat)

        def fn(idx):
            i, j = norm_int(idx[0]), norm_int(idx[1])
            if not isS(i) and not isS(j):
                return cast(rows[i][j], kind)
            if isS(i):
                r = fn((len(rows) - 1, j))
                for q in range(len(rows) - 2, -1, -1):
                    r = ite(i == q, (lambda q=q: fn((q, j))), r)
                return r
            r = fn((i, m - 1))
            for q in range(m - 2, -1, -1):
                r = ite(j == q, (lambda q=q: fn((i, q))), r)
            return r
        return SArr.new((len(rows), m), fn, kind)
    if lst and isinstance(lst[0], SArr):
        first = lst[0]
        for a in lst:
            if a.ndim != first.ndim or not all(same_dim(x, y) for x, y in zip(a.shape, first.shape)):
                raise Unsupported("ragged array list")
        readers = [a.reader() for a in lst]

        def fn3(idx):
            i = norm_int(idx[0])
            if not isS(i):
                return readers[i](idx[1:])
            r = readers[-1](idx[1:])
            for q in range(len(readers) - 2, -1, -1):
                r = ite(i == q, (lambda q=q: readers[q](idx[1:])), r)
            return r
        return SArr.new((len(lst),) + first.shape, fn3, first.kind)
    kind = kind_of(lst)

    def fn1(idx):
        i = norm_int(idx[0])
        if not isS(i):
            return cast(lst[i], kind)
        if not lst:
            return 0
        r = cast(lst[-1], kind)
        for q in range(len(lst) - 2, -1, -1):
            r = ite(i == q, cast(lst[q], kind), r)
        return r
    return SArr.new((len(lst),), fn1, kind)


def kind_of(vals):
    ks = set()
    for v in vals:
        if isinstance(v, S):
            ks.add('b' if v.is_bool else 'i' if v.is_int else 'f')
        elif isinstance(v, (bool, np.bool_)):
            ks.add('b')
        elif isinstance(v, (int, np.integer)):
            ks.add('i')
        elif is_num(v):
            ks.add('f')
        else:
            return 'O'
    if not ks:
        return 'f'
    return 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'


def broadcast_shapes(sa, sb):
    n = max(len(sa), len(sb))
    a = (1,) * (n - len(sa)) + tuple(sa)
    b = (1,) * (n - len(sb)) + tuple(sb)
    out = []
    for x, y in zip(a, b):
        if not isS(x) and x == 1:
            out.append(y)
        elif not isS(y) and y == 1:
            out.append(x)
        elif same_dim(x, y):
            out.append(x if not isS(x) else y)
        else:
            if ctx().branch(bterm(term(x) == term(y))):
                out.append(x)
            else:
                if isS(x) and ctx().branch(term(x) == 1) or isS(y) and ctx().branch(term(y) == 1):
                    raise Unsupported("symbolic broadcasting")
                raise Raised(ValueError("operands could not be broadcast together"))
    return tuple(out)


def bc_reader(a, shape):
    """reader of a broadcast to shape"""
    r = a.reader()
    off = len(shape) - a.ndim
    ones = [(not isS(s) and s == 1 and not (not isS(shape[off + k]) and shape[off + k] == 1)) for k, s in enumerate(a.shape)]
    if off == 0 and not any(ones):
        return r
    return lambda idx: r(tuple(0 if ones[k] else idx[off + k] for k in range(a.ndim)))


def broadcast_to(a, shape):
    sh = broadcast_shapes(a.shape, shape)
    if len(sh) != len(shape):
        raise Raised(ValueError("could not broadcast"))
    for x, y in zip(sh, shape):
        if not same_dim(x, y):
            if not isS(x) and not isS(y):
                raise Raised(ValueError("could not broadcast"))
            if not ctx().branch(bterm(term(x) == term(y))):
                raise Raised(ValueError("could not broadcast"))
    return bc_reader(a, shape)


def as_arr(x):
    if isinstance(x, np.ndarray):
        return SArr.from_np(x)
    if isinstance(x, (list, tuple)):
        return list_to_arr(x)
    return x


def res_kind(kinds):
    return 'O' if 'O' in kinds else 'f' if 'f' in kinds else 'i' if 'i' in kinds else 'b'


def skind(x):
    if isinstance(x, (SArr, SFilt)):
        return x.kind
    return kind_of([x])


def elementwise(f, *xs, kind=None):
    xs = [as_arr(x) for x in xs]
    if any(isinstance(x, SFilt) for x in xs):
        return filt_elementwise(f, *xs, kind=kind)
    arrs = [x for x in xs if isinstance(x, SArr)]
    if not arrs:
        return f(*xs)
    shape = arrs[0].shape
    for a in arrs[1:]:
        shape = broadcast_shapes(shape, a.shape)
    rd = [bc_reader(x, shape) if isinstance(x, SArr) else x for x in xs]
    k = kind or res_kind([skind(x) for x in xs])
    isarr = [isinstance(x, SArr) for x in xs]
    return SArr.new(shape, lambda idx: f(*[r(idx) if q else r for r, q in zip(rd, isarr)]), k)


# ---- filtered arrays ---------------------------------------------------------------------------------
class SFilt:
    """1-d array of the values val(i), in increasing i, over those i in [0, n) with cond(i)"""
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, n, cond, val, kind, tag=None):
        self.n, self.cond, self.val, self.kind = norm_int(n), cond, val, kind
        self.tag = tag if tag is not None else object()

    def length(self):
        from .sums import count
        return count(self.n, self.cond)

    @property
    def size(self): return self.length()

    @property
    def shape(self): return (self.length(),)

    @property
    def dtype(self):
        return {'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool), 'O': np.dtype(object)}[self.kind]

    def copy(self): return self

    def astype(self, dt, **k):
        kd = dtype_kind(dt)
        v = self.val
        return SFilt(self.n, self.cond, lambda i: cast(v(i), kd), kd, self.tag)

    def _b(self, o, f, kind=None, rev=False):
        return filt_elementwise((lambda a, b: f(b, a)) if rev else f, self, o, kind=kind)

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, rev=True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, rev=True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, rev=True)
    def __truediv__(self, o): return self._b(o, sdiv, kind='f')
    def __neg__(self): return self._b(0, lambda a, b: -a)
    def __lt__(self, o): return self._b(o, lambda a, b: a < b, kind='b')
    def __le__(self, o): return self._b(o, lambda a, b: a <= b, kind='b')
    def __gt__(self, o): return self._b(o, lambda a, b: a > b, kind='b')
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b, kind='b')
    def __eq__(self, o): return self._b(o, peq, kind='b')
    def __ne__(self, o): return self._b(o, lambda a, b: Not(peq(a, b)), kind='b')
    def __xor__(self, o): return self._b(o, lambda a, b: a ^ b)
    __hash__ = object.__hash__

    def getitem(self, key):
        if isinstance(key, SFilt) and key.kind == 'b' and key.tag is self.tag:
            kc, c = key.val, self.cond
            return SFilt(self.n, lambda i: And(c(i), kc(i)), self.val, self.kind)
        if isinstance(key, slice) and key == slice(None):
            return self
        raise Unsupported("indexing of a filtered array")

    def setitem(self, key, val):
        raise Unsupported("assignment into a filtered array")


def filt_elementwise(f, *xs, kind=None):
    fs = [x for x in xs if isinstance(x, SFilt)]
    a = fs[0]
    for x in xs:
        if isinstance(x, SArr):
            raise Unsupported("mixing filtered and full arrays")
    for b in fs[1:]:
        if b.tag is not a.tag and not same_filter(b, a.n, a.cond):
            raise Unsupported("mixing differently filtered arrays")
    vs = [(lambda i, x=x: x.val(i)) if isinstance(x, SFilt) else (lambda i, x=x: x) for x in xs]
    k = kind or res_kind([skind(x) for x in xs])
    return SFilt(a.n, a.cond, lambda i: f(*[v(i) for v in vs]), k, a.tag)


def same_filter(a, n, cond):
    """does filter a have domain n and an equivalent condition (proved pointwise)?"""
    if not same_dim(a.n, n):
        return False
    c = ctx()
    i = c.fresh('fi', 'int')
    ca, cb = a.cond(i), cond(i)
    if ca is cb or (ca is True and cb is True):
        return True
    return c.implied(Implies(And(i >= 0, i < n), terms.Iff(ca, cb)))


def mask_dim_check(mask, arr):
    """numpy: boolean index must match the dimension (a zero-length mask is accepted and selects nothing)"""
    a, b = mask.shape[0], arr.shape[0]
    if same_dim(a, b):
        return
    c = ctx()
    if not isS(a) and a == 0:
        return
    if c.branch(bterm(term(a) == term(b))):
        return
    if c.branch(term(a) == 0):
        return
    raise Raised(IndexError("boolean index did not match indexed array"))


def require_in_bounds(filt, n):
    c = ctx()
    i = c.fresh('ib', 'int')
    v = filt.val(i)
    g = Implies(And(i >= 0, i < filt.n, filt.cond(i)), And(v >= 0, v < n))
    if not c.implied(g):
        # negative or too large indices: only the in-range case is modelled
        c.prove('array index in bounds', g, kind='bounds')


def inverse_of(key):
    """uninterpreted inverse of an injective index array (injectivity is required)"""
    c = ctx()
    n, cond, f = key.n, key.cond, key.val
    i, j = c.fresh('inj', 'int'), c.fresh('inj', 'int')
    # identity index: no need of quantifiers
    if veq(f(i), i) is True:
        return lambda q: q
    inj = Implies(And(i >= 0, i < n, j >= 0, j < n, cond(i), cond(j), Not(veq(i, j))), Not(veq(f(i), f(j))))
    if not c.implied(inj):
        raise Unsupported("scatter with possibly repeated indices")
    W = c.fresh_fn('inv', 'int', 'int')
    e = z3.Int(f'e!{W.name()}')
    fe = term(f(S(e)))
    body = z3.Implies(z3.And(e >= 0, e < term(n), bterm(cond(S(e)))), W(fe) == e)
    c.axiom(('inv', W.name()), z3.ForAll([e], body))
    c.skolem_facts = getattr(c, 'skolem_facts', [])
    c.skolem_facts.append(lambda k: mk(z3.substitute(body, (e, term(k)))))
    return lambda q: S(W(term(q)))


def mask_value_assign(arr, m, n, val):
    """arr[mask] = val for a value array: the selected positions must be a contiguous run starting at their first index"""
    c = ctx()
    r = val.reader()
    ln = val.shape[0]
    # find the start of the run: the k-th selected position must be start + k
    st = c.fresh('runstart', 'int')
    q = c.fresh('run', 'int')
    lnT = term(ln)
    hint = getattr(c, 'run_hint', None)
    if hint is None:
        raise Unsupported("mask assignment from an array")
    start = hint(m)
    cond = terms.Iff(m((q,)), And(q >= start, q < start + ln))
    if not c.implied(Implies(And(q >= 0, q < n), cond)):
        raise Unsupported("mask assignment: mask is not a run of the value's length")
    arr.write(lambda idx: r((idx[0] - start,)), lambda idx: m((idx[0],)))
