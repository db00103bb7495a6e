"""Models of builtins, numpy, bitstring, struct ... used by the interpreted code.

Every model states what the library function does on symbolic values; they are the assumed contracts on
dependencies that the evidence lists.  tools/crosscheck.py compares each with the real library on random inputs.
"""
import array as _array
import itertools
import math
import struct as _struct
import numpy as np
from scipy.special import logsumexp as scipy_logsumexp
import z3
from fractions import Fraction
from . import terms
from .terms import (S, mk, term, bterm, isS, is_num, ok_scalar, Unsupported, ForkNeeded, PathEnd, Raised, And, Or, Not,
                    Implies, Iff, ite, cast, dtype_kind, ctx, truth, nan_of, to_real, nor)
from .values import (SChoice, SBytes, SList, SDict, SArr, SFilt, touch, veq, norm_int, check_index, slice_bounds, same_dim,
                     list_to_arr, as_arr, elementwise, smin, smax, kind_of, broadcast_shapes, bc_reader, sdiv)
from .sums import mk_sum, count
from .interp import (SymIter, DictView, SStruct, Bound, IFunc, is_sym, is_ghost, truth_nb, Poison, SymStr, repo_class)

M = {}


def model(*fs):
    def deco(h):
        for f in fs:
            M[f] = h
        return h
    return deco


def native_ok(args, kwargs):
    return not is_sym(args) and not is_sym(kwargs)


# ------------------------------------------------------------------------------------------------ builtins
def py_sum(items, start=0):
    r = start
    for v in items:
        if isinstance(v, bool) or isinstance(v, S) and v.is_bool:
            v = cast(v, 'i')
        r = r + v
    return r


@model(len)
def b_len(it, args, kw):
    o = args[0]
    if isinstance(o, SBytes):
        return o.length
    if isinstance(o, (SList, SArr, SFilt)):
        return o.length()
    if isinstance(o, SStruct):
        return o.n
    if isinstance(o, SymIter):
        return o.n
    if isinstance(o, SDict):
        if hasattr(o, 'count'):
            return o.count()
        raise Unsupported("size of a symbolic dict")
    if isinstance(o, DictView):
        return b_len(it, [o.d], kw)
    if hasattr(o, '_pyvc_len'):
        return o._pyvc_len(it)
    if isinstance(o, S):
        raise Raised(TypeError("object of type 'int' has no len()"))
    if repo_class(type(o)) and hasattr(type(o), '__len__'):
        return it.call(Bound(type(o).__len__, o))
    if isinstance(o, Poison):
        raise Unsupported("loop temporary")
    if is_ghost(o):
        raise Unsupported(f"length of {type(o).__name__}")
    try:
        return len(o)
    except TypeError as e:
        raise Raised(e)


@model(range)
def b_range(it, args, kw):
    args = [norm_int(a) for a in args]
    for a in args:
        if isinstance(a, float) or (isS(a) and a.is_real):
            raise Raised(TypeError("'float' object cannot be interpreted as an integer"))
        if not ok_scalar(a):
            raise Raised(TypeError("cannot be interpreted as an integer"))
    if all(not isS(a) for a in args):
        return range(*args)
    lo, hi, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
    if isS(st) or st == 0:
        raise Unsupported("symbolic range step")
    if st == 1:
        n = hi - lo
        n = norm_int(n)
        if isS(n) and not ctx().implied(n >= 0):
            n = ite(n >= 0, n, 0)
        return SymIter(n, lambda k: norm_int(lo + k), 'range', (lo, hi))
    if st > 1:
        n = (hi - lo + (st - 1)) // st
        if isS(n) and not ctx().implied(n >= 0):
            n = ite(n >= 0, n, 0)
        return SymIter(n, lambda k: norm_int(lo + k * st), 'srange', (lo, hi, st))
    raise Unsupported("descending symbolic range")


@model(enumerate)
def b_enumerate(it, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    items = it.iter_items(args[0])
    if items is not None:
        return [(i + start, v) for i, v in enumerate(items)]
    si = it.sym_iter(args[0])
    return SymIter(si.n, lambda k: (norm_int(k + start), si.el(k)), 'enumerate', si)


@model(zip)
def b_zip(it, args, kw):
    lists = [it.iter_items(a) for a in args]
    if all(x is not None for x in lists):
        return list(zip(*lists))
    sis = []
    for a, l in zip(args, lists):
        if l is not None:
            raise Unsupported("zip of concrete and symbolic iterables")
        sis.append(it.sym_iter(a))
    n = sis[0].n
    for s in sis[1:]:
        n = n if same_dim(n, s.n) else smin(n, s.n)
    return SymIter(n, lambda k: tuple(s.el(k) for s in sis), 'zip', sis)


@model(reversed)
def b_reversed(it, args, kw):
    items = it.iter_items(args[0])
    if items is None:
        si = it.sym_iter(args[0])
        return SymIter(si.n, lambda k: si.el(si.n - 1 - k), 'reversed', si)
    return items[::-1]


@model(isinstance)
def b_isinstance(it, args, kw):
    o, t = args
    ts = t if isinstance(t, tuple) else (t,)
    import types as _t
    out = False
    for q in ts:
        if isinstance(q, _t.UnionType):
            out = out or any(b_isinstance(it, [o, x], {}) for x in q.__args__)
        else:
            out = out or _isinst(o, q)
    return out


def _isinst(o, t):
    import collections.abc as abc
    import bitstring
    if isinstance(o, SBytes):
        return t in (bytes, object, abc.Sequence)
    if isinstance(o, (SArr, SFilt)):
        return t in (np.ndarray, object)
    if isinstance(o, SList):
        return t in (list, object, abc.Sequence, abc.MutableSequence)
    if isinstance(o, (SDict, SStruct)):
        return t in (dict, object)
    if isinstance(o, S):
        if o.is_bool:
            return t in (bool, int, object)
        if o.is_int:
            return t in (int, object)
        return t in (float, object, np.floating, np.float64)
    if isinstance(o, SChoice):
        raise Unsupported("type of a choice")
    if hasattr(o, '_pyvc_isinstance'):
        return o._pyvc_isinstance(t)
    if isinstance(o, Poison):
        raise Unsupported("loop temporary")
    try:
        return isinstance(o, t)
    except TypeError as e:
        raise Raised(e)


@model(type)
def b_type(it, args, kw):
    o = args[0]
    if len(args) != 1:
        raise Unsupported("type()")
    if isinstance(o, S):
        return bool if o.is_bool else int if o.is_int else float
    for c, t in ((SBytes, bytes), (SArr, np.ndarray), (SList, list), (SDict, dict)):
        if isinstance(o, c):
            return t
    return type(o)


@model(int)
def b_int(it, args, kw):
    o = args[0] if args else 0
    if isinstance(o, BitStr) and len(args) > 1 and args[1] == 2:
        return o.to_int()
    if isinstance(o, SArr) and o.size == 1:
        o = o.elem(*([0] * o.ndim))
    if isinstance(o, S):
        if nan_of(o) is not None:
            raise Unsupported("int of a possible NaN")
        return cast(o, 'i')
    if isinstance(o, Fraction):
        return int(o)
    return it.native(int, args, kw)


@model(float, np.float_, np.double)
def b_float(it, args, kw):
    o = args[0] if args else 0
    if isinstance(o, SArr):
        if o.ndim == 0 or o.size == 1:
            o = o.elem(*([0] * o.ndim))
        else:
            raise Raised(TypeError("only length-1 arrays can be converted to Python scalars"))
    if isinstance(o, S):
        return cast(o, 'f')
    return it.native(float, [o], kw)


@model(bool, np.bool_)
def b_bool(it, args, kw):
    o = args[0] if args else False
    if isinstance(o, S):
        return truth(o)
    return it.branch(o)


@model(abs, np.abs, np.absolute, np.fabs)
def b_abs(it, args, kw):
    o = args[0]
    if isinstance(o, (SArr, SFilt, np.ndarray, list)):
        if isinstance(o, SFilt):
            from .values import filt_elementwise
            return filt_elementwise(lambda a: abs(a), o)
        return elementwise(lambda a: abs(a), as_arr(o))
    if hasattr(o, '_pyvc_abs'):
        return o._pyvc_abs()
    if is_ghost(o):
        raise Unsupported(f"abs of {type(o).__name__}")
    try:
        return abs(o)
    except TypeError as e:
        raise Raised(e)


@model(round)
def b_round(it, args, kw):
    o = args[0]
    if isinstance(o, S):
        if len(args) > 1 and args[1] not in (None, 0):
            raise Unsupported("round to digits")
        return terms.s_round(o)
    return it.native(round, args, kw)


def fold_minmax(it, items, ismin):
    if not items:
        raise Raised(ValueError("arg is an empty sequence"))
    r = items[0]
    for v in items[1:]:
        if not ok_scalar(v) or not ok_scalar(r):
            raise Unsupported("min/max of non-scalars")
        if not isS(v) and not isS(r):
            r = min(r, v) if ismin else max(r, v)
            continue
        c = v < r if ismin else v > r
        r = ite(c, v, r)
    return r


def minmax(it, args, kw, ismin):
    if 'key' in kw and kw['key'] is not None:
        items = it.iter_items(args[0]) if len(args) == 1 else list(args)
        if items is None:
            raise Unsupported("min/max with key over a symbolic iterable")
        if not items:
            if 'default' in kw:
                return kw['default']
            raise Raised(ValueError("arg is an empty sequence"))
        keys = [it.call(kw['key'], [x]) for x in items]
        best, bk = items[0], keys[0]
        try:
            ctx().spec += 1
            try:
                b2, k2 = best, bk
                for v, k in zip(items[1:], keys[1:]):
                    c = lex_lt(k, k2) if ismin else lex_lt(k2, k)
                    b2, k2 = ite(c, v, b2), ite(c, k, k2)
            finally:
                ctx().spec -= 1
            return b2
        except (ForkNeeded, Unsupported):
            for v, k in zip(items[1:], keys[1:]):
                c = lex_lt(k, bk) if ismin else lex_lt(bk, k)
                if it.branch(c):
                    best, bk = v, k
            return best
    if len(args) == 1:
        o = args[0]
        if isinstance(o, (SArr, SFilt)):
            return np_reduce_extreme(it, o, ismin)
        items = it.iter_items(o)
        if items is None:
            if isinstance(o, SList) and len(o.segs) == 1 and o.segs[0][0] == 'fn':
                n, f = o.segs[0][1], o.segs[0][2]
                return extreme(n, f, ismin, lambda: Raised(ValueError("empty sequence")))
            raise Unsupported("min/max of a symbolic iterable")
        if not items and 'default' in kw:
            return kw['default']
    else:
        items = list(args)
    if any(isinstance(v, tuple) for v in items) and is_sym(items):
        r = items[0]
        for v in items[1:]:
            c = lex_lt(v, r) if ismin else lex_lt(r, v)
            r = ite(c, v, r)
        return r
    if not is_sym(items):
        return it.native(min if ismin else max, [items], {})
    return fold_minmax(it, items, ismin)


def lex_lt(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if not a or not b:
            return len(a) < len(b)
        return Or(lex_lt(a[0], b[0]), And(veq(a[0], b[0]), lex_lt(a[1:], b[1:])))
    if not ok_scalar(a) or not ok_scalar(b):
        raise Unsupported("ordering")
    return a < b


@model(min)
def b_min(it, args, kw):
    return minmax(it, args, kw, True)


@model(max)
def b_max(it, args, kw):
    return minmax(it, args, kw, False)


@model(sum)
def b_sum(it, args, kw):
    o = args[0]
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    items = it.iter_items(o) if not isinstance(o, SFilt) else None
    if items is not None:
        r = start
        for v in items:
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, S) and v.is_bool:
                v = cast(v, 'i')
            import ast
            r = it.binop(ast.Add(), r, v)
        return r
    if isinstance(o, (SArr, SFilt)):
        return np_sum(it, [o], {})
    if isinstance(o, SList) and len(o.segs) == 1:
        s = o.segs[0]
        if s[0] == 'fn':
            return start + mk_sum(s[1], s[2])
        if s[0] == 'comp':
            return start + mk_sum(s[1], lambda i: ite(s[2](i), lambda: num01(s[3](i)), 0))
    raise Unsupported("sum of a symbolic iterable")


def num01(v):
    if isinstance(v, bool) or isinstance(v, S) and v.is_bool:
        return cast(v, 'i')
    return v


@model(any)
def b_any(it, args, kw):
    o = args[0]
    items = it.iter_items(o) if not isinstance(o, SFilt) else None
    if items is not None:
        return Or(*[truth_nb(v) for v in items])
    if isinstance(o, SArr):
        return arr_any(o)
    if isinstance(o, SList) and len(o.segs) == 1:
        s = o.segs[0]
        if s[0] == 'fn':
            return exists(s[1], lambda i: truth_nb(s[2](i)))
        if s[0] == 'comp':
            return exists(s[1], lambda i: And(s[2](i), truth_nb(s[3](i))))
    raise Unsupported("any of a symbolic iterable")


@model(all)
def b_all(it, args, kw):
    o = args[0]
    items = it.iter_items(o) if not isinstance(o, SFilt) else None
    if items is not None:
        return And(*[truth_nb(v) for v in items])
    if isinstance(o, SArr):
        return forall_arr(o)
    if isinstance(o, SList) and len(o.segs) == 1:
        s = o.segs[0]
        if s[0] == 'fn':
            return Not(exists(s[1], lambda i: Not(truth_nb(s[2](i)))))
        if s[0] == 'comp':
            return Not(exists(s[1], lambda i: And(s[2](i), Not(truth_nb(s[3](i))))))
    raise Unsupported("all of a symbolic iterable")


def exists(n, p):
    """boolean constant equivalent to: some i in [0, n) satisfies p (witness + quantified converse)"""
    n = norm_int(n)
    if not isS(n) and n <= 64:
        return Or(*[p(i) for i in range(n)])
    c = ctx()
    if not hasattr(c, 'exists_cache'):
        c.exists_cache = []
    from .sums import bound, define
    body, I = bound(c, 'ex_idx', p)
    body = bterm(body)
    nt = term(n)
    for b0, n0, e0 in c.exists_cache:
        if b0.eq(body) and n0.eq(nt):
            return e0
    e = c.fresh('some', 'bool')
    w = c.fresh('wit', 'int')
    define(c, e.t, body, nt)
    pw = z3.substitute(body, (I, w.t))
    c.axiom(('exw', e.t.sexpr()), z3.Implies(e.t, z3.And(w.t >= 0, w.t < nt, pw)))
    j = z3.Int('exj!' + e.t.sexpr())
    c.axiom(('exa', e.t.sexpr()), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nt, z3.Not(e.t)),
                                                            z3.Not(z3.substitute(body, (I, j))))))
    c.inst_facts = getattr(c, 'inst_facts', [])
    c.inst_facts.append(lambda k: mk(z3.Implies(z3.And(term(k) >= 0, term(k) < nt, z3.Not(e.t)),
                                                z3.Not(z3.substitute(body, (I, term(k)))))))
    if not c.spec:
        c.exists_cache.append((body, nt, e))
    return e


@model(tuple)
def b_tuple(it, args, kw):
    if not args:
        return ()
    items = it.iter_items(args[0])
    if items is None:
        o = args[0]
        if isinstance(o, SBytes):
            return SymTuple(o.length, o.elem)
        if isinstance(o, SArr) and o.ndim == 1:
            r = o.reader()
            return SymTuple(o.length(), lambda i: r((i,)))
        raise Unsupported("tuple of a symbolic iterable")
    return tuple(items)


class SymTuple:
    """immutable sequence of symbolic length"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, n, el):
        self.n, self.el = norm_int(n), el

    def _pyvc_getattr(self, it, name):
        raise Unsupported("tuple attribute")

    def _pyvc_len(self, it):
        return self.n

    def _pyvc_iter(self, it):
        n = self.n
        if isS(n):
            n = ctx().concrete_int(n.t)
            if n is None:
                return None
        return [self.el(i) for i in range(n)]

    def _pyvc_symiter(self, it):
        return SymIter(self.n, self.el, 'tuple', self)

    def _pyvc_isinstance(self, t):
        return t in (tuple, object)

    def _pyvc_getitem(self, it, k):
        if isinstance(k, slice):
            a, ln = slice_bounds(k, self.n)
            el = self.el
            return SymTuple(ln, lambda i: el(norm_int(i + a)))
        return self.el(check_index(k, self.n, 'tuple index out of range'))

    def _pyvc_binop(self, it, op, other, rev):
        import ast
        if not isinstance(op, ast.Add):
            raise Unsupported("tuple operation")
        a, b = (other, self) if rev else (self, other)
        na, ea = tup_parts(a)
        nb, eb = tup_parts(b)

        def el(i):
            cond = i < na
            if isS(cond):
                c = ctx()
                if c.implied(cond):
                    return ea(i)
                if c.implied(Not(cond)):
                    return eb(norm_int(i - na))
            return ite(cond, lambda: ea(i), lambda: eb(norm_int(i - na)))
        return SymTuple(na + nb, el)


def tup_parts(t):
    if isinstance(t, SymTuple):
        return t.n, t.el
    if isinstance(t, tuple):
        def el(i):
            i = norm_int(i)
            if not isS(i):
                return t[i]
            r = t[-1]
            for q in range(len(t) - 2, -1, -1):
                r = ite(i == q, t[q], r)
            return r
        return len(t), el
    raise Raised(TypeError("can only concatenate tuple"))


@model(list)
def b_list(it, args, kw):
    if not args:
        return []
    o = args[0]
    items = it.iter_items(o)
    if items is None:
        if isinstance(o, SList):
            return o.copy()
        si = it.sym_iter(o)
        return SList([('fn', si.n, si.el)])
    return list(items)


@model(dict)
def b_dict(it, args, kw):
    if not args:
        return dict(kw)
    if isinstance(args[0], (SDict, SStruct)):
        raise Unsupported("copy of a symbolic dict")
    if isinstance(args[0], dict):
        d = dict(args[0])
        d.update(kw)
        return d
    items = it.iter_items(args[0])
    if items is None or is_sym([k for k, _ in items]):
        raise Unsupported("dict of a symbolic iterable")
    d = dict(items)
    d.update(kw)
    return d


@model(set, frozenset)
def b_set(it, args, kw):
    if not args:
        return set()
    items = it.iter_items(args[0])
    if items is None or is_sym(items):
        raise Unsupported("set of symbolic values")
    return set(items)


@model(map)
def b_map(it, args, kw):
    f = args[0]
    lists = [it.iter_items(a) for a in args[1:]]
    if any(l is None for l in lists):
        raise Unsupported("map over a symbolic iterable")
    return [it.call(f, list(xs)) for xs in zip(*lists)]


@model(filter)
def b_filter(it, args, kw):
    items = it.iter_items(args[1])
    if items is None:
        raise Unsupported("filter over a symbolic iterable")
    return [x for x in items if it.branch(it.call(args[0], [x]) if args[0] is not None else x)]


@model(sorted)
def b_sorted(it, args, kw):
    items = it.iter_items(args[0])
    if items is None:
        raise Unsupported("sorted symbolic iterable")
    if 'key' in kw and kw['key'] is not None:
        keys = [it.call(kw['key'], [x]) for x in items]
    else:
        keys = items
    if is_sym(keys):
        raise Unsupported("sorting symbolic values")
    try:
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(kw.get('reverse', False)))
    except Exception as e:
        raise Raised(e)
    return [items[i] for i in order]


@model(print)
def b_print(it, args, kw):
    return None


@model(str)
def b_str(it, args, kw):
    if args and isinstance(args[0], (S, SChoice)):
        v = args[0]
        if isinstance(v, S) and v.is_int and ctx().implied(And(v >= 0, v <= 1)):
            return BitChar(v)
        return SymStr([v])
    if args and is_sym(args[0]):
        return SymStr([args[0]])
    if args and isinstance(args[0], SArr):
        raise Unsupported("str of array")
    return it.native(str, args, kw)


@model(repr)
def b_repr(it, args, kw):
    if is_sym(args):
        return '<sym>'
    return it.native(repr, args, kw)


class BitChar:
    """str of a 0/1 integer"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, v):
        self.v = v

    def _pyvc_getattr(self, it, name):
        raise Unsupported("string method")


class BitStr:
    """string of 0/1 digits, most significant first"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, items):
        self.items = items

    def _pyvc_getattr(self, it, name):
        raise Unsupported("string method")

    def to_int(self):
        n = len(self.items)
        bits, t = [], 0
        for i, x in enumerate(self.items):
            v = x.v if isinstance(x, BitChar) else int(x)
            t = t * 2 + v
            bits.append(bterm(v == 1) if isS(v) else z3.BoolVal(v == 1))
        if not n:
            raise Raised(ValueError("invalid literal for int()"))
        return S(z3.simplify(term(t)) if False else term(t), None, list(reversed(bits))) if isS(t) else t


@model(ord)
def b_ord(it, args, kw):
    if isinstance(args[0], SBytes):
        b = args[0]
        if not it.branch(mk(term(b.length) == 1)):
            raise Raised(TypeError("ord() expected a character"))
        return b.elem(0)
    return it.native(ord, args, kw)


@model(getattr)
def b_getattr(it, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported("getattr with a symbolic name")
    try:
        return it.getattr_(args[0], args[1])
    except Raised as r:
        if isinstance(r.exc, AttributeError) and len(args) > 2:
            return args[2]
        raise


@model(hasattr)
def b_hasattr(it, args, kw):
    try:
        it.getattr_(args[0], args[1])
        return True
    except Raised as r:
        if isinstance(r.exc, AttributeError):
            return False
        raise


@model(setattr)
def b_setattr(it, args, kw):
    it.setattr_(args[0], args[1], args[2])


@model(callable)
def b_callable(it, args, kw):
    return isinstance(args[0], (IFunc, Bound)) or callable(args[0]) or hasattr(args[0], '_pyvc_call')


@model(iter)
def b_iter(it, args, kw):
    items = it.iter_items(args[0])
    if items is None:
        raise Unsupported("iterator over a symbolic iterable")
    return IterObj(items)


class IterObj:
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, items):
        self.items = list(items)

    def _pyvc_getattr(self, it, name):
        raise Unsupported("iterator attribute")

    def _pyvc_iter(self, it):
        return self.items


@model(next)
def b_next(it, args, kw):
    o = args[0]
    if isinstance(o, list):
        o = IterObj(o)
    if isinstance(o, IterObj):
        if o.items:
            touch(o)
            return o.items.pop(0)
        if len(args) > 1:
            return args[1]
        raise Raised(StopIteration())
    raise Unsupported("next")


@model(bytes)
def b_bytes(it, args, kw):
    if not args:
        return b''
    o = args[0]
    if isinstance(o, SBytes):
        return o
    if isinstance(o, ByteArr):
        return o.b
    if isinstance(o, S):
        if o.is_real or o.is_bool:
            raise Unsupported("bytes(n)")
        if not it.branch(o >= 0):
            raise Raised(ValueError("negative count"))
        return SBytes(o, lambda i: 0)
    if native_ok(args, kw):
        return it.native(bytes, args, kw)
    items = it.iter_items(o)
    if items is None:
        if isinstance(o, SList):
            n, src = o.length(), o.copy()
            k = ctx().fresh('byte', 'int')
            v = src.elem(k)
            if not ctx().implied(Implies(And(k >= 0, k < n), And(v >= 0, v <= 255))):
                raise Unsupported("bytes of values that may not be bytes")
            return SBytes(n, lambda i: src.elem(i))
        raise Unsupported("bytes of a symbolic iterable")
    for v in items:
        if not ok_scalar(v) or (isS(v) and v.is_real):
            raise Raised(TypeError("cannot be interpreted as an integer"))
        if isS(v):
            if not it.branch(And(v >= 0, v <= 255)):
                raise Raised(ValueError("bytes must be in range(0, 256)"))
        elif not 0 <= v <= 255:
            raise Raised(ValueError("bytes must be in range(0, 256)"))
    items = list(items)

    def fn(i):
        i = norm_int(i)
        if not isS(i):
            return items[i]
        r = items[-1]
        for j in range(len(items) - 2, -1, -1):
            r = ite(i == j, items[j], r)
        return r
    return SBytes(len(items), fn)


class ByteArr:
    """array('B', bytes)"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, b):
        self.b = b

    def _pyvc_getattr(self, it, name):
        if name == 'tobytes':
            b = self.b
            return _K(lambda i, a, k: b)
        raise Unsupported("array attribute")

    def _pyvc_len(self, it):
        return self.b.length if isinstance(self.b, SBytes) else len(self.b)

    def _pyvc_getitem(self, it, k):
        r = it.getitem(self.b, k)
        return ByteArr(r) if isinstance(k, slice) else r


class _K:
    def __init__(self, f):
        self.f = f

    def _pyvc_call(self, it, args, kw):
        return self.f(it, args, kw)


@model(_array.array)
def b_array(it, args, kw):
    if not is_sym(args):
        return it.native(_array.array, args, kw)
    if args[0] != 'B' or not isinstance(args[1], SBytes):
        raise Unsupported("array.array")
    return ByteArr(args[1])


@model(itertools.combinations)
def b_comb(it, args, kw):
    items = it.iter_items(args[0])
    if items is None and not isS(args[1]) and args[1] == 2:
        # the pairs of positions a < b, each exactly once (their order is not modelled)
        si = it.sym_iter(args[0])
        c, n = ctx(), si.n
        C1, C2, IX = c.fresh_fn('pair1', 'int', 'int'), c.fresh_fn('pair2', 'int', 'int'), c.fresh_fn('pairidx', 'int', 'int', 'int')
        np_ = c.fresh('pairs', 'int')
        c.assume(And(np_ >= 0, Implies(n >= 2, np_ >= 1)))

        def pair_at(q):
            a, b = C1(term(q)), C2(term(q))
            c.axiom(('comb', a.sexpr()), z3.Implies(z3.And(term(q) >= 0, term(q) < term(np_)),
                                                    z3.And(a >= 0, a < b, b < term(n), IX(a, b) == term(q))))
            return mk(a), mk(b)

        def index_of(a, b):
            q = IX(term(a), term(b))
            c.axiom(('combix', q.sexpr()), z3.Implies(z3.And(term(a) >= 0, term(a) < term(b), term(b) < term(n)),
                                                      z3.And(q >= 0, q < term(np_), C1(q) == term(a), C2(q) == term(b))))
            return mk(q)
        c.__dict__.setdefault('combs', []).append((n, np_, pair_at, index_of))
        return SymIter(np_, lambda q: tuple(si.el(x) for x in pair_at(q)), 'combinations', None)
    if items is None or isS(args[1]):
        raise Unsupported("combinations of a symbolic iterable")
    return list(itertools.combinations(items, args[1]))


# ------------------------------------------------------------------------------------------------ bitstring
import bitstring  # noqa: E402


class SBits:
    """bitstring.Bits: length and bit function"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, n, bit):
        self.n, self.bit = norm_int(n), bit

    def _pyvc_isinstance(self, t):
        return t in (bitstring.Bits, object)

    def _pyvc_len(self, it):
        return self.n

    def _pyvc_iter(self, it):
        n = self.n
        if isS(n):
            n = ctx().concrete_int(n.t)
            if n is None:
                raise Unsupported("iteration over bits")
        return [self.bit(i) for i in range(n)]

    def _pyvc_getattr(self, it, name):
        if name == 'count':
            def cnt(i, a, k):
                val = a[0]
                if isS(val):
                    raise Unsupported("count of symbolic value")
                want = bool(val)
                return count_bits(self.n, (lambda j: self.bit(j)) if want else (lambda j: Not(self.bit(j))))
            return _K(cnt)
        if name in ('len', 'length'):
            return self.n
        raise Unsupported(f"Bits.{name}")

    def _pyvc_binop(self, it, op, other, rev):
        import ast
        o = to_bits(it, other)
        if not isinstance(op, (ast.BitXor, ast.BitAnd, ast.BitOr)):
            raise Unsupported("Bits operation")
        if not same_dim(self.n, o.n):
            if not it.branch(mk(term(self.n) == term(o.n))):
                raise Raised(ValueError("Bitstrings must have the same length"))
        a, b = self.bit, o.bit
        if isinstance(op, ast.BitXor):
            return SBits(self.n, lambda i: bxor(a(i), b(i)))
        if isinstance(op, ast.BitAnd):
            return SBits(self.n, lambda i: And(a(i), b(i)))
        return SBits(self.n, lambda i: Or(a(i), b(i)))

    def _pyvc_eq(self, it, o):
        raise Unsupported("Bits equality")


def bxor(a, b):
    ta, tb = bterm(a), bterm(b)
    return mk(z3.simplify(z3.Xor(ta, tb)))


def count_bits(n, p):
    n = norm_int(n)
    if not isS(n) and n <= 256:
        r = [z3.If(bterm(p(i)), z3.IntVal(1), z3.IntVal(0)) for i in range(n)]
        r = [z3.simplify(x) for x in r]
        if all(z3.is_int_value(x) for x in r):
            return sum(x.as_long() for x in r)
        return mk(z3.Sum(r))
    return count(n, p)


def bits_of_byte(b):
    """MSB-first list of 8 bool values of a byte value"""
    bs = terms.get_bits(b)
    if bs is None:
        t = term(b)
        return [mk(((t / (1 << (7 - j))) % 2) == 1) for j in range(8)]
    bs = bs + [z3.BoolVal(False)] * (8 - len(bs))
    return [mk(x) for x in reversed(bs[:8])]


def to_bits(it, o):
    if isinstance(o, SBits):
        return o
    if isinstance(o, bitstring.Bits):
        data = [bool(x) for x in o]
        return SBits(len(data), lambda i: data[i] if not isS(i) else SArr.from_np(np.array(data)).elem(i))
    raise Unsupported("conversion to Bits")


def bytes_to_bits(o):
    if isinstance(o, bytes):
        data = np.unpackbits(np.frombuffer(o, dtype=np.uint8)).astype(bool)
        return SBits(len(data), lambda i: bool(data[i]) if not isS(i) else SArr.from_np(data).elem(i))
    n = o.length

    def bit(i):
        i = norm_int(i)
        if not isS(i):
            return bits_of_byte(o.elem(i // 8))[i % 8]
        q, r = i // 8, i % 8
        if hasattr(o, 'src') and o.src is not None and hasattr(o.src, 'bitf'):
            o.elem(q)
            bv = o.elem(q)
            b = terms.get_bits(bv)     # link axiom
            off = o.off
            return mk(o.src.bitf(term(norm_int(q + off)), 7 - term(r)))
        bb = bits_of_byte(o.elem(q))
        x = bb[7]
        for j in range(6, -1, -1):
            x = ite(r == j, bb[j], x)
        return x
    return SBits(norm_int(n * 8), bit)


@model(bitstring.Bits, bitstring.BitArray)
def b_Bits(it, args, kw):
    if native_ok(args, kw):
        return it.native(bitstring.Bits, args, kw)
    kw = dict(kw)
    if args:
        kw['auto'] = args[0]
    if 'bytes' in kw:
        if not isinstance(kw['bytes'], (SBytes, bytes)):
            raise Unsupported("Bits(bytes=...)")
        return bytes_to_bits(kw['bytes'])
    if 'uint' in kw:
        v, n = kw['uint'], kw.get('length')
        if isS(n) or n is None:
            raise Unsupported("Bits(uint) with symbolic length")
        if n == 0:
            raise Raised(bitstring.CreationError("zero length"))
        if isS(v):
            if v.is_bool:
                v = cast(v, 'i')
            if not v.is_int:
                raise Unsupported("Bits(uint=real)")
            if not it.branch(And(v >= 0, v < (1 << n))):
                raise Raised(bitstring.CreationError("uint too large"))
            bs = terms.get_bits(v)
            if bs is None:
                t = term(v)
                bs = [((t / (1 << j)) % 2) == 1 for j in range(n)]
            bs = (bs + [z3.BoolVal(False)] * n)[:n]
        else:
            try:
                bitstring.Bits(uint=v, length=n)
            except Exception as e:
                raise Raised(e)
            bs = [z3.BoolVal(bool(v >> j & 1)) for j in range(n)]
        bl = [mk(x) for x in reversed(bs)]

        def fn(i):
            i = norm_int(i)
            if not isS(i):
                return bl[i]
            r = bl[-1]
            for j in range(n - 2, -1, -1):
                r = ite(i == j, bl[j], r)
            return r
        return SBits(n, fn)
    if 'auto' in kw:
        a = kw['auto']
        if isinstance(a, np.ndarray):
            a = SArr.from_np(a)
        if isinstance(a, SArr) and a.ndim == 1:
            r = a.reader()
            return SBits(a.length(), lambda i: truth_nb(r((i,))))
        if isinstance(a, SBits):
            return a
        if isinstance(a, SBytes):
            return bytes_to_bits(a)
        if isinstance(a, (list, tuple)):
            vals = [truth_nb(x) for x in a]
            return SBits(len(vals), lambda i: vals[i])
        raise Unsupported("Bits(auto)")
    raise Unsupported("Bits(...)")


# ------------------------------------------------------------------------------------------------ struct
@model(_struct.unpack)
def s_unpack(it, args, kw):
    fmt, buf = args
    if native_ok(args, kw):
        return it.native(_struct.unpack, args, kw)
    return struct_unpack(it, fmt, buf)


def fmt_fields(fmt):
    """[(char, size, offset)] of a little-endian format without repeats other than of s"""
    if fmt[0] != '<':
        raise Unsupported("struct byte order")
    out, off, i = [], 0, 1
    while i < len(fmt):
        num = ''
        while fmt[i].isdigit():
            num += fmt[i]
            i += 1
        ch = fmt[i]
        i += 1
        n = int(num) if num else 1
        if ch == 's':
            out.append(('s', n, off))
            off += n
            continue
        sz = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'Q': 8, 'q': 8, 'f': 4, 'c': 1, 'd': 8}.get(ch)
        if sz is None:
            raise Unsupported(f"struct format {ch}")
        for _ in range(n):
            out.append((ch, sz, off))
            off += sz
    return out, off


F_FLOAT = z3.Function('ieee_float32', z3.IntSort(), z3.RealSort())


def struct_unpack(it, fmt, buf):
    fields, total = fmt_fields(fmt)
    if isinstance(buf, bytes):
        return it.native(_struct.unpack, [fmt, buf], {})
    if hasattr(buf, '_pyvc_bytes'):
        buf = buf._pyvc_bytes()
    if not isinstance(buf, SBytes):
        raise Unsupported("unpack of " + type(buf).__name__)
    if not it.branch(mk(term(buf.length) == total)):
        raise Raised(_struct.error("unpack requires a buffer of %d bytes" % total))
    return tuple(decode_field(buf.elem, ch, sz, off) for ch, sz, off in fields)


def decode_field(elem, ch, sz, off):
    if ch == 's':
        return SBytes(sz, lambda i: elem(norm_int(i + off)))
    if ch == 'c':
        return SBytes(1, lambda i: elem(norm_int(i + off)))
    v = 0
    for k in range(sz):
        b = elem(off + k)
        v = v + b * (256 ** k)
    if ch == 'f':
        return mk(F_FLOAT(term(v)))
    if ch == 'd':
        raise Unsupported("double")
    if ch in 'bhiq':
        return ite(v >= 2 ** (8 * sz - 1), v - 2 ** (8 * sz), v)
    if sz == 1:
        return elem(off)
    if isS(v):
        def bits():
            out = []
            for k in range(sz):
                bs = terms.get_bits(elem(off + k))
                if bs is None:
                    raise Unsupported("bits of a packed integer")
                out += bs + [z3.BoolVal(False)] * (8 - len(bs))
            return out
        return S(v.t, None, bits)
    return v


class UnpackerMethod:
    pass


@model(_struct.pack)
def s_pack(it, args, kw):
    fmt = args[0]
    vals = args[1:]
    if native_ok(args, kw):
        return it.native(_struct.pack, args, kw)
    fields, total = fmt_fields(fmt)
    if len(fields) != len(vals):
        raise Raised(_struct.error("pack expected %d items" % len(fields)))
    bs = []
    for (ch, sz, off), v in zip(fields, vals):
        if ch == 's' and isinstance(v, (SBytes, bytes)):
            # cut or zero-filled to the size of the field
            n = v.length if isinstance(v, SBytes) else len(v)
            for k in range(sz):
                if isinstance(v, bytes):
                    bs.append(v[k] if k < n else 0)
                else:
                    bs.append(ite(mk(term(n) > k), v.fn(k), 0))
            continue
        if ch == 's' or ch == 'c':
            raise Unsupported("pack of symbolic string")
        if ch == 'f':
            if not ok_scalar(v):
                raise Raised(_struct.error("required argument is not a float"))
            F = FLOATBYTE
            rv = to_real(v)
            cc = ctx()
            for k in range(4):
                t = F(rv, z3.IntVal(k))
                cc.axiom(('fb', t.sexpr()), z3.And(t >= 0, t <= 255))
                bs.append(S(t))
            continue
        if isinstance(v, float) or (isS(v) and v.is_real):
            raise Raised(_struct.error("required argument is not an integer"))
        lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if ch in 'bhiq' else (0, (1 << (8 * sz)) - 1)
        if not it.branch(And(v >= lo, v <= hi)):
            raise Raised(_struct.error("argument out of range"))
        u = ite(v < 0, v + (1 << (8 * sz)), v) if ch in 'bhiq' else v
        for k in range(sz):
            bs.append((u // (256 ** k)) % 256)
    return SBytes(len(bs), lambda i: bs[i] if not isS(i) else _sel(bs, i))


FLOATBYTE = z3.Function('float32_byte', z3.RealSort(), z3.IntSort(), z3.IntSort())


def _sel(xs, i):
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = ite(i == j, xs[j], r)
    return r


# ------------------------------------------------------------------------------------------------ numpy: creation
def to_arr(it, o, kind=None):
    """np.array(o)"""
    if isinstance(o, SArr):
        return o
    if isinstance(o, SFilt):
        return o
    if isinstance(o, np.ndarray):
        return SArr.from_np(o)
    if isinstance(o, SBits):
        b = o.bit
        return SArr.new((o.n,), lambda idx: b(idx[0]), 'b')
    if isinstance(o, SList):
        n, src = o.length(), o.copy()
        if len(src.segs) == 1 and src.segs[0][0] == 'comp':
            _, n0, cond, f = src.segs[0]
            k = kind_of([f(ctx().fresh('k', 'int'))])
            return SFilt(n0, cond, f, k)
        if not isS(n) and n == 0:
            return SArr.new((0,), lambda idx: 0, 'f')
        probe = src.elem(ctx().fresh('k', 'int')) if src.segs else 0
        if isinstance(probe, (SArr,)):
            sh = probe.shape
            return SArr.new((n,) + tuple(sh), lambda idx: src.elem(idx[0]).elem(*idx[1:]), probe.kind)
        if isinstance(probe, tuple):
            return SArr.new((n, len(probe)), lambda idx: _sel(list(src.elem(idx[0])), idx[1]) if isS(idx[1]) else src.elem(idx[0])[idx[1]], kind_of(list(probe)))
        return SArr.new((n,), lambda idx: src.elem(idx[0]), kind_of([probe]))
    if isinstance(o, SymIter):
        return SArr.new((o.n,), lambda idx: o.el(idx[0]), 'i')
    if isinstance(o, SymTuple):
        return SArr.new((o.n,), lambda idx: o.el(idx[0]), kind_of([o.el(0)]))
    if isinstance(o, range):
        return SArr.from_np(np.array(o))
    if isinstance(o, (list, tuple)):
        if not is_sym(o):
            try:
                a = np.array(o)
            except Exception as e:
                raise Raised(e)
            if a.dtype.kind in 'iufbO' or a.size == 0:
                return SArr.from_np(a)
            raise Unsupported("array of strings")
        return nested_arr(it, o)
    if ok_scalar(o):
        return SArr.new((), lambda idx: o, kind_of([o]))
    if isinstance(o, (SBytes,)):
        raise Unsupported("array of bytes")
    if is_sym(o):
        raise Unsupported(f"array of {type(o).__name__}")
    try:
        return SArr.from_np(np.array(o))
    except Unsupported:
        raise
    except Exception as e:
        raise Raised(e)


def nested_arr(it, o):
    items = [to_arr(it, x) if isinstance(x, (list, tuple, SArr, np.ndarray, SList)) else x for x in o]
    if items and isinstance(items[0], SArr):
        return list_to_arr(items)
    return list_to_arr(items)


@model(np.array, np.asarray, np.asanyarray)
def np_array(it, args, kw):
    o = args[0]
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    a = to_arr(it, o)
    k = dtype_kind(dt)
    if isinstance(a, SFilt):
        return a.astype(dt) if k else a
    f = a.reader()
    kk = k or a.kind
    if k in ('i', 'b') and a.kind == 'f':
        pass
    return SArr.new(a.shape, (lambda idx: cast(f(idx), kk)) if kk != a.kind else f, kk)


def shape_arg(it, s):
    if isinstance(s, (tuple, list)):
        return tuple(norm_int(x) for x in s)
    if isinstance(s, (float,)) or (isS(s) and s.is_real):
        raise Raised(TypeError("'float' object cannot be interpreted as an integer"))
    return (norm_int(s),)


def _const_arr(it, shape, v, kind):
    shape = shape_arg(it, shape)
    for s in shape:
        if isS(s):
            if not ctx().implied(s >= 0):
                if it.branch(s < 0):
                    raise Raised(ValueError("negative dimensions are not allowed"))
        elif s < 0:
            raise Raised(ValueError("negative dimensions are not allowed"))
    return SArr.new(shape, lambda idx: v, kind)


@model(np.zeros)
def np_zeros(it, args, kw):
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    k = dtype_kind(dt) or 'f'
    return _const_arr(it, args[0], {'b': False}.get(k, 0), k)


@model(np.ones)
def np_ones(it, args, kw):
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    k = dtype_kind(dt) or 'f'
    return _const_arr(it, args[0], {'b': True}.get(k, 1), k)


@model(np.empty)
def np_empty(it, args, kw):
    if args[0] in ([], ()):
        return SArr.new((), lambda idx: 0, 'f')
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    k = dtype_kind(dt) or 'f'
    F = None
    shape = shape_arg(it, args[0])
    F = ctx().fresh_fn('empty', *(['int'] * len(shape)), {'f': 'real', 'i': 'int', 'b': 'bool', 'O': 'int'}[k])
    return SArr.new(shape, lambda idx: mk(F(*[term(i) for i in idx])), k)


@model(np.full)
def np_full(it, args, kw):
    dt = args[2] if len(args) > 2 else kw.get('dtype')
    v = args[1]
    k = dtype_kind(dt) or kind_of([v])
    return _const_arr(it, args[0], cast(v, k), k)


@model(np.zeros_like)
def np_zeros_like(it, args, kw):
    a = to_arr(it, args[0])
    k = dtype_kind(kw.get('dtype') if len(args) < 2 else args[1]) or a.kind
    if isinstance(a, SFilt):
        return SFilt(a.n, a.cond, lambda i: 0, k, a.tag)
    return SArr.new(a.shape, lambda idx: False if k == 'b' else 0, k)


@model(np.ones_like)
def np_ones_like(it, args, kw):
    a = to_arr(it, args[0])
    k = dtype_kind(kw.get('dtype') if len(args) < 2 else args[1]) or a.kind
    return SArr.new(a.shape, lambda idx: True if k == 'b' else 1, k)


@model(np.eye, np.identity)
def np_eye(it, args, kw):
    n = norm_int(args[0])
    return SArr.new((n, n), lambda idx: ite(veq(idx[0], idx[1]), 1.0, 0.0), 'f')


@model(np.arange)
def np_arange(it, args, kw):
    r = b_range(it, args, {})
    return to_arr(it, r)


@model(np.diag)
def np_diag(it, args, kw):
    a = to_arr(it, args[0])
    if a.ndim == 2:
        f = a.reader()
        n = a.shape[0] if same_dim(a.shape[0], a.shape[1]) else smin(a.shape[0], a.shape[1])
        return SArr.new((n,), lambda idx: f((idx[0], idx[0])), a.kind)
    raise Unsupported("diag")


@model(np.column_stack)
def np_column_stack(it, args, kw):
    xs = [to_arr(it, x) for x in it.iter_items(args[0])]
    if any(isinstance(x, SFilt) or x.ndim != 1 for x in xs):
        raise Unsupported("column_stack")
    n = xs[0].shape[0]
    for x in xs[1:]:
        if not same_dim(n, x.shape[0]):
            raise Unsupported("column_stack of different lengths")
    rs = [x.reader() for x in xs]
    from .values import res_kind
    k = res_kind([x.kind for x in xs])

    def fn(idx):
        j = norm_int(idx[1])
        if not isS(j):
            return cast(rs[j]((idx[0],)), k)
        return _sel([cast(r((idx[0],)), k) for r in rs], j)
    return SArr.new((n, len(xs)), fn, k)


@model(np.append, )
def np_append(it, args, kw):
    a, b = to_arr(it, args[0]), to_arr(it, args[1])
    axis = args[2] if len(args) > 2 else kw.get('axis')
    return concat2(it, a, b, axis)


def concat2(it, a, b, axis):
    from .values import res_kind
    k = res_kind([a.kind, b.kind])
    if axis is None:
        if a.ndim == 1 and b.ndim <= 1:
            axis = 0
            if b.ndim == 0:
                b = SArr.new((1,), lambda idx, e=b: e.elem(), b.kind)
        else:
            raise Unsupported("append without axis")
    if a.ndim != b.ndim:
        raise Raised(ValueError("all the input arrays must have same number of dimensions"))
    if axis < 0:
        axis += a.ndim
    for d in range(a.ndim):
        if d != axis and not same_dim(a.shape[d], b.shape[d]):
            if not it.branch(mk(term(a.shape[d]) == term(b.shape[d]))):
                raise Raised(ValueError("all the input array dimensions must match exactly"))
    fa, fb = a.reader(), b.reader()
    na = a.shape[axis]
    shape = tuple(norm_int(na + b.shape[axis]) if d == axis else a.shape[d] for d in range(a.ndim))

    def fn(idx):
        i = idx[axis]
        return ite(i < na, lambda: cast(fa(idx), k),
                   lambda: cast(fb(tuple(norm_int(i - na) if d == axis else idx[d] for d in range(len(idx)))), k))
    return SArr.new(shape, fn, k)


@model(np.concatenate, np.hstack)
def np_concatenate(it, args, kw):
    xs = [to_arr(it, x) for x in it.iter_items(args[0])]
    axis = args[1] if len(args) > 1 else kw.get('axis', 0)
    r = xs[0]
    for x in xs[1:]:
        r = concat2(it, r, x, axis)
    return r


@model(np.vstack, np.stack)
def np_vstack(it, args, kw):
    xs = [to_arr(it, x) for x in it.iter_items(args[0])]
    if all(x.ndim == 1 for x in xs) and kw.get('axis', 0) == 0:
        return list_to_arr(xs)
    if all(x.ndim == 1 for x in xs) and kw.get('axis') in (1, -1):
        return np_column_stack(it, [xs], {})
    raise Unsupported("vstack")


@model(np.reshape)
def np_reshape(it, args, kw):
    a = to_arr(it, args[0])
    shp = args[1] if len(args) > 1 else kw.get('newshape')
    if not isinstance(shp, tuple):
        shp = (shp,)
    f = a.reader()
    if a.ndim == 1 and len(shp) == 2:
        if shp in ((1, -1),) or (shp[0] == 1):
            return SArr.new((1, a.shape[0]), lambda idx: f((idx[1],)), a.kind)
        if shp in ((-1, 1),) or (shp[1] == 1):
            return SArr.new((a.shape[0], 1), lambda idx: f((idx[0],)), a.kind)
    if len(shp) == 1 and a.ndim == 2:
        return a.flatten()
    if len(shp) == 1 and a.ndim == 1:
        return a
    raise Unsupported("reshape")


@model(np.pad)
def np_pad(it, args, kw):
    a = to_arr(it, args[0])
    w = args[1]
    if kw.get('mode', 'constant') != 'constant' or a.ndim != 1 or not (isinstance(w, tuple) and len(w) == 2):
        raise Unsupported("pad")
    lo, hi = w
    for v in (lo, hi):
        if isS(v):
            if not ctx().implied(v >= 0) and it.branch(v < 0):
                raise Raised(ValueError("index can't contain negative values"))
        elif v < 0:
            raise Raised(ValueError("index can't contain negative values"))
    f, n = a.reader(), a.shape[0]
    return SArr.new((norm_int(n + lo + hi),), lambda idx: ite(And(idx[0] >= lo, idx[0] < n + lo), lambda: f((norm_int(idx[0] - lo),)), lambda: cast(0, a.kind)), a.kind)


# ------------------------------------------------------------------------------------------------ numpy: elementwise
def ew(it, f, *xs, kind=None):
    xs = [SArr.from_np(x) if isinstance(x, np.ndarray) else to_arr(it, x) if isinstance(x, (list, tuple, SList)) else x for x in xs]
    for x in xs:
        if not isinstance(x, (SArr, SFilt)) and not ok_scalar(x):
            if x is None:
                raise Raised(TypeError("unsupported operand type: NoneType"))
            raise Unsupported(f"numpy function of {type(x).__name__}")
    if not any(isinstance(x, (SArr, SFilt)) for x in xs):
        return f(*xs)
    if any(isinstance(x, SFilt) for x in xs):
        from .values import filt_elementwise
        return filt_elementwise(f, *xs, kind=kind)
    return elementwise(f, *xs, kind=kind)


def _num_fn(npf, symf):
    def g(v):
        if isS(v):
            return symf(v)
        return npf(v).item() if hasattr(npf(v), 'item') else npf(v)
    return g


@model(np.log)
def np_log(it, args, kw):
    def g(v):
        if isS(v):
            return terms.f_log(v)
        if v == 1:
            return 0.0
        if v <= 0:
            raise Unsupported("log of a non-positive constant")
        return terms.f_log(S(term(float(v))))
    return ew(it, g, args[0], kind='f')


@model(np.exp)
def np_exp(it, args, kw):
    def g(v):
        if isS(v):
            return terms.f_exp(v)
        if v == 0:
            return 1.0
        return terms.f_exp(S(term(float(v))))
    return ew(it, g, args[0], kind='f')


@model(np.sqrt, math.sqrt)
def np_sqrt(it, args, kw):
    def g(v):
        if isS(v):
            return terms.f_sqrt(v)
        if v < 0:
            return float('nan')
        return terms.f_sqrt(S(to_real(v)))
    return ew(it, g, args[0], kind='f')


@model(np.power)
def np_power(it, args, kw):
    return ew(it, lambda a, b: terms.s_pow(a, b) if isS(a) or isS(b) else a ** b, args[0], args[1])


@model(np.square)
def np_square(it, args, kw):
    return ew(it, lambda a: a * a, args[0])


@model(np.sign)
def np_sign(it, args, kw):
    return ew(it, lambda a: ite(a > 0, 1, ite(a < 0, -1, 0)), args[0])


@model(np.maximum, np.fmax)
def np_maximum(it, args, kw):
    return ew(it, lambda a, b: max2(a, b), args[0], args[1])


@model(np.minimum, np.fmin)
def np_minimum(it, args, kw):
    return ew(it, lambda a, b: min2(a, b), args[0], args[1])


def nanflag(x):
    n = nan_of(x)
    return False if n is None else True if n is True else mk(n)


def with_nan(v, *srcs):
    n = nor(*[nan_of(s) for s in srcs])
    if n is None:
        return v
    return S(term(v) if isS(v) else to_real(v), n)


def max2(a, b):
    if not isS(a) and not isS(b):
        return max(a, b)
    r = scalar_pick(terms.pair(a, b)[0] >= terms.pair(a, b)[1], a, b)
    return with_nan(r, a, b)


def min2(a, b):
    if not isS(a) and not isS(b):
        return min(a, b)
    r = scalar_pick(terms.pair(a, b)[0] <= terms.pair(a, b)[1], a, b)
    return with_nan(r, a, b)


def scalar_pick(c, a, b):
    ta, tb = terms.pair(a, b)
    return mk(z3.If(c, ta, tb))


@model(np.clip)
def np_clip(it, args, kw):
    a = args[0]
    lo = args[1] if len(args) > 1 else kw.get('a_min', kw.get('min'))
    hi = args[2] if len(args) > 2 else kw.get('a_max', kw.get('max'))

    def g(v, l, h):
        r = v
        if l is not None:
            r = max2(r, l)
        if h is not None:
            r = min2(r, h)
        return r
    if lo is None and hi is None:
        raise Raised(ValueError("One of max or min must be given"))
    xs = [a] + ([lo] if lo is not None else []) + ([hi] if hi is not None else [])
    if lo is None:
        return ew(it, lambda v, h: g(v, None, h), *xs)
    if hi is None:
        return ew(it, lambda v, l: g(v, l, None), *xs)
    return ew(it, g, *xs)


@model(np.around, np.round, np.rint)
def np_around(it, args, kw):
    def g(v):
        if isS(v):
            return cast(terms.s_round(v), 'f')
        return float(np.around(v))
    return ew(it, g, args[0], kind='f')


@model(np.divide, np.true_divide)
def np_divide(it, args, kw):
    return ew(it, np_div, args[0], args[1], kind='f')


def np_div(a, b):
    return sdiv(a, b)


for _np, _op in ((np.add, lambda a, b: a + b), (np.subtract, lambda a, b: a - b), (np.multiply, lambda a, b: a * b),
                 (np.less, lambda a, b: a < b), (np.greater, lambda a, b: a > b), (np.less_equal, lambda a, b: a <= b),
                 (np.greater_equal, lambda a, b: a >= b), (np.logical_and, lambda a, b: And(truth_nb(a), truth_nb(b))),
                 (np.logical_or, lambda a, b: Or(truth_nb(a), truth_nb(b))), (np.equal, lambda a, b: truth_nb(veq(a, b))),
                 (np.not_equal, lambda a, b: Not(truth_nb(veq(a, b)))),
                 (np.bitwise_xor, lambda a, b: a ^ b), (np.bitwise_and, lambda a, b: a & b)):
    M[_np] = (lambda op: lambda it, args, kw: ew(it, op, args[0], args[1]))(_op)
M[np.logical_not] = lambda it, args, kw: ew(it, lambda a: Not(truth_nb(a)), args[0], kind='b')
M[np.negative] = lambda it, args, kw: ew(it, lambda a: -a, args[0])


@model(np.isnan)
def np_isnan(it, args, kw):
    return ew(it, lambda a: nanflag(a), args[0], kind='b')


@model(np.nan_to_num)
def np_nan_to_num(it, args, kw):
    def g(v):
        n = nan_of(v)
        if n is None:
            return v
        if n is True:
            return 0.0
        return ite(mk(n), 0.0, S(v.t))
    return ew(it, g, args[0])


@model(np.where)
def np_where(it, args, kw):
    if len(args) == 1:
        return (np_flatnonzero(it, args, {}),)
    return ew(it, lambda c, a, b: ite(truth_nb(c), a, b), args[0], args[1], args[2], kind=None)


@model(np.nonzero)
def np_nonzero(it, args, kw):
    return (np_flatnonzero(it, args, {}),)


@model(np.flatnonzero)
def np_flatnonzero(it, args, kw):
    a = to_arr(it, args[0])
    if a.ndim != 1:
        raise Unsupported("nonzero of a 2-d array")
    if isinstance(a, SFilt):
        raise Unsupported("nonzero of a filtered array")
    r = a.reader()
    return SFilt(a.shape[0], lambda i: truth_nb(r((i,))), lambda i: i, 'i')


@model(np.finfo)
def np_finfo(it, args, kw):
    return np.finfo(float)


# ------------------------------------------------------------------------------------------------ numpy: reductions
def arr_any(a):
    if isinstance(a, SFilt):
        return exists(a.n, lambda i: And(a.cond(i), truth_nb(a.val(i))))
    f = a.reader()
    if a.ndim == 1:
        return exists(a.shape[0], lambda i: truth_nb(f((i,))))
    if a.ndim == 0:
        return truth_nb(f(()))
    if a.ndim == 2:
        n, m = a.shape
        if not isS(m):
            return exists(n, lambda i: Or(*[truth_nb(f((i, j))) for j in range(m)]))
        if not isS(n):
            return exists(m, lambda j: Or(*[truth_nb(f((i, j))) for i in range(n)]))
    raise Unsupported("any over two symbolic axes")


def forall_arr(a):
    if isinstance(a, SFilt):
        return Not(exists(a.n, lambda i: And(a.cond(i), Not(truth_nb(a.val(i))))))
    return Not(arr_any(elementwise(lambda v: Not(truth_nb(v)), a, kind='b')))


def axis_arg(args, kw, pos=1):
    return args[pos] if len(args) > pos else kw.get('axis')


@model(np.any)
def np_any(it, args, kw):
    a = to_arr(it, args[0])
    ax = axis_arg(args, kw)
    if ax is None:
        return arr_any(a)
    return axis_reduce(it, a, ax, lambda n, f: exists(n, lambda i: truth_nb(f(i))), 'b')


@model(np.all)
def np_all(it, args, kw):
    a = to_arr(it, args[0])
    ax = axis_arg(args, kw)
    if ax is None:
        return forall_arr(a)
    return axis_reduce(it, a, ax, lambda n, f: Not(exists(n, lambda i: Not(truth_nb(f(i))))), 'b')


def axis_reduce(it, a, ax, red, kind):
    if isinstance(a, SFilt):
        raise Unsupported("axis reduction of a filtered array")
    if isinstance(ax, tuple):
        raise Unsupported("several axes")
    if ax < 0:
        ax += a.ndim
    if ax >= a.ndim:
        raise Raised(np.AxisError("axis out of bounds"))
    f = a.reader()
    if a.ndim == 1:
        return red(a.shape[0], lambda i: f((i,)))
    shape = a.shape[:ax] + a.shape[ax + 1:]
    n = a.shape[ax]
    cache = {}

    def fn(idx):
        key = tuple(i if not isS(i) else i.t.sexpr() for i in idx)
        c = ctx()
        kk = (id(c), c.spec, key)
        if kk not in cache:
            cache[kk] = red(n, lambda i: f(idx[:ax] + (i,) + idx[ax:]))
        return cache[kk]
    return SArr.new(shape, fn, kind)


@model(np.sum)
def np_sum(it, args, kw):
    a = to_arr(it, args[0])
    ax = axis_arg(args, kw)
    k = 'f' if a.kind == 'f' else 'i'
    if isinstance(a, SFilt):
        return mk_sum(a.n, lambda i: ite(a.cond(i), lambda: num01(a.val(i)), 0))
    red = lambda n, f: mk_sum(n, lambda i: num01(f(i)))
    if ax is None:
        f = a.reader()
        if a.ndim == 1:
            return red(a.shape[0], lambda i: f((i,)))
        if a.ndim == 0:
            return f(())
        if a.ndim == 2:
            n, m = a.shape
            if not isS(m):
                return red(n, lambda i: py_sum([num01(f((i, j))) for j in range(m)]))
            if not isS(n):
                return red(m, lambda j: py_sum([num01(f((i, j))) for i in range(n)]))
            return mk_sum(n, lambda i: mk_sum(m, lambda j: num01(f((i, j)))))
        raise Unsupported("sum of a 3-d array")
    return axis_reduce(it, a, ax, red, k)


@model(np.count_nonzero)
def np_count_nonzero(it, args, kw):
    a = to_arr(it, args[0])
    if len(args) > 1 or kw or a.ndim != 1:
        raise Unsupported('count_nonzero')
    if isinstance(a, SFilt):
        return mk_sum(a.n, lambda i: ite(And(a.cond(i), truth_nb(a.val(i))), 1, 0))
    f = a.reader()
    return mk_sum(a.shape[0], lambda i: ite(truth_nb(f((i,))), 1, 0))


@model(np.mean)
def np_mean(it, args, kw):
    a = to_arr(it, args[0])
    ax = axis_arg(args, kw)
    if isinstance(a, SFilt):
        s = np_sum(it, [a], {})
        n = a.length()
        return np_div_checked(it, s, n)
    n = a.size if ax is None else a.shape[ax]
    s = np_sum(it, [a], {'axis': ax} if ax is not None else {})
    if isinstance(s, SArr):
        f = s.reader()
        return SArr.new(s.shape, lambda idx: np_div_checked(it, f(idx), n), 'f')
    return np_div_checked(it, s, n)


def np_div_checked(it, s, n):
    """mean of an empty array is NaN"""
    if not isS(n):
        if n == 0:
            return float('nan')
        return sdiv(s, n)
    c = ctx()
    q = to_real(s) / to_real(n)
    if c.implied(n > 0):
        return mk(q, nan_of(s))
    return mk(q, nor(nan_of(s), term(n) == 0))


def extreme(n, f, ismin, empty):
    """minimum / maximum of f(i), i in [0, n), n >= 1"""
    n = norm_int(n)
    if not isS(n) and n <= 64:
        if n == 0:
            raise empty()
        r = f(0)
        for i in range(1, n):
            r = min2(r, f(i)) if ismin else max2(r, f(i))
        return r
    c = ctx()
    if isS(n) and not c.implied(n > 0):
        if c.branch(bterm(n <= 0)):
            raise empty()
    from .sums import bound, define
    try:
        v, I = bound(c, 'ext_idx', f)
    except Unsupported:
        if c.binders:
            raise
        if c.spec:
            raise ForkNeeded()
        # values defined by a sum per index: the extreme is one of them (what else is known of it is left out)
        w = c.fresh('arg', 'int')
        c.assume(And(w >= 0, w < n))
        r = f(w)
        if nan_of(r) is not None:
            raise Unsupported("extreme of possibly NaN values")
        return r
    if nan_of(v) is not None:
        raise Unsupported("extreme of possibly NaN values")
    body = terms._arith(term(v))
    cache = c.__dict__.setdefault('ext_cache', [])
    for b0, n0, m0, r0 in cache:
        if b0.eq(body) and n0.eq(term(n)) and m0 == ismin:
            return r0
    if not c.binders and not c.spec:
        # the same values written differently
        k0 = c.fresh('ext_any', 'int').t
        for b0, n0, m0, r0, f0 in c.__dict__.get('ext_fns', [])[-4:]:
            if m0 == ismin and b0.sort() == body.sort() and n0.eq(term(n)):
                x, y = terms._arith(term(f0(S(k0)))), terms._arith(term(f(S(k0))))
                if c.implied(z3.Implies(z3.And(k0 >= 0, k0 < term(n)), x == y)):
                    cache.append((body, n0, ismin, r0))
                    return r0
    r = c.fresh('min' if ismin else 'max', 'int' if body.sort() == z3.IntSort() else 'real')
    w = c.fresh('arg', 'int')
    define(c, r.t, body, term(n))
    if not c.binders:
        f(w)        # what is known of the values at the index of the extreme
    c.axiom(('extw', r.t.sexpr()), z3.And(w.t >= 0, w.t < term(n), r.t == z3.substitute(body, (I, w.t))))
    j = z3.Int('extj!' + r.t.sexpr())
    bj = z3.substitute(body, (I, j))
    c.axiom(('exta', r.t.sexpr()), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < term(n)), (r.t <= bj) if ismin else (r.t >= bj))))
    c.inst_facts = getattr(c, 'inst_facts', [])

    def inst(k):
        bk = z3.substitute(body, (I, term(k)))
        return mk(z3.Implies(z3.And(term(k) >= 0, term(k) < term(n)), (r.t <= bk) if ismin else (r.t >= bk)))
    c.inst_facts.append(inst)
    if not c.spec:
        cache.append((body, term(n), ismin, r))
        c.__dict__.setdefault('ext_fns', []).append((body, term(n), ismin, r, f))
    return r


def np_reduce_extreme(it, a, ismin):
    err = lambda: Raised(ValueError("zero-size array to reduction operation"))
    if isinstance(a, SFilt):
        raise Unsupported("extreme of a filtered array")
    f = a.reader()
    if a.ndim == 1:
        return extreme(a.shape[0], lambda i: f((i,)), ismin, err)
    if a.ndim == 2:
        n, m = a.shape
        if not isS(m):
            def row(i):
                r = f((i, 0))
                for j in range(1, m):
                    r = min2(r, f((i, j))) if ismin else max2(r, f((i, j)))
                return r
            return extreme(n, row, ismin, err)
    raise Unsupported("extreme of a 2-d array")


def axis_extreme(it, a, ax, ismin):
    """extreme along an axis of symbolic length of a matrix: a function of the other index (usable under sums)"""
    from .sums import new_names
    if ax < 0:
        ax += a.ndim
    n, m = a.shape[ax], a.shape[1 - ax]
    f = a.reader()
    state = {}

    def build():
        c = ctx()
        key = (id(c),)
        if key in state:
            return state[key]
        if not c.implied(n > 0):
            raise Unsupported("extreme of a possibly empty axis")
        i, j = z3.Int('exti!'), z3.Int('exto!')
        start = c.nfresh
        c.binders += [i, j]
        try:
            v = f((S(i), S(j)) if ax == 0 else (S(j), S(i)))
        finally:
            c.binders.pop()
            c.binders.pop()
        if nan_of(v) is not None:
            raise Unsupported("extreme of possibly NaN values")
        body = z3.simplify(terms._arith(term(v)))
        if any(True for _ in new_names(body, start)):
            raise Unsupported("a quantity defined per index under an extreme")
        for b0, n0, m0, r0 in c.__dict__.setdefault('axext', []):
            if b0.eq(body) and n0.eq(term(n)) and m0 == ismin:
                state[key] = r0
                return r0
        kind = 'int' if body.sort() == z3.IntSort() else 'real'
        MX, W = c.fresh_fn('min' if ismin else 'max', 'int', kind), c.fresh_fn('arg', 'int', 'int')
        at = lambda p, o: z3.substitute(body, (i, p), (j, o))
        cmp = (lambda x, y: x <= y) if ismin else (lambda x, y: x >= y)
        c.axiom(('axext', MX.name()), z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < term(n)), cmp(MX(j), body)), patterns=[z3.MultiPattern(MX(j), body)] if z3.is_app(body) and body.num_args() and body.decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
        c.axiom(('axextw', MX.name()), z3.ForAll([j], z3.And(W(j) >= 0, W(j) < term(n), MX(j) == at(W(j), j)), patterns=[MX(j)]))
        c.closed_ok.add(MX.name())
        state[key] = MX
        c.axext.append((body, term(n), ismin, MX))
        return MX
    return SArr.new((m,), lambda idx: mk(build()(term(idx[0]))), a.kind)


@model(np.max, np.amax)
def np_max(it, args, kw):
    a = to_arr(it, args[0])
    ax = axis_arg(args, kw)
    if isinstance(a, SArr) and a.ndim == 2 and isinstance(ax, int) and isS(a.shape[ax]):
        return axis_extreme(it, a, ax, False)
    if ax is not None and a.ndim > 1:
        return axis_reduce(it, a, ax, lambda n, f: extreme(n, f, False, lambda: Raised(ValueError())), a.kind)
    return np_reduce_extreme(it, a, False)


@model(np.min, np.amin)
def np_min(it, args, kw):
    a = to_arr(it, args[0])
    ax = axis_arg(args, kw)
    if ax is not None and a.ndim > 1:
        return axis_reduce(it, a, ax, lambda n, f: extreme(n, f, True, lambda: Raised(ValueError())), a.kind)
    return np_reduce_extreme(it, a, True)


def arg_extreme(it, a, ismin, ax=None):
    a = to_arr(it, a)
    if ax is not None and a.ndim == 2:
        return axis_reduce(it, a, ax, lambda n, f: arg_extreme(it, SArr.new((n,), lambda i: f(i[0]), a.kind), ismin), 'i')
    if a.ndim == 2 and not isS(a.shape[0]) and a.shape[0] == 1:
        f0 = a.reader()
        a = SArr.new((a.shape[1],), lambda idx: f0((0, idx[0])), a.kind)
    if a.ndim != 1:
        raise Unsupported("argmin of a 2-d array")
    f, n = a.reader(), a.shape[0]
    if isS(n):
        return arg_symbolic(n, f, ismin)
    if n == 0:
        raise Raised(ValueError("attempt to get argmin of an empty sequence"))
    bi, bv = 0, f((0,))
    for i in range(1, n):
        v = f((i,))
        c = (v < bv) if ismin else (v > bv)
        bi, bv = ite(c, i, bi), ite(c, v, bv)
    return bi


def arg_symbolic(n, f, ismin):
    """index of the first extreme of f(i), i in [0, n)"""
    c = ctx()
    if c.binders or c.spec:
        raise Unsupported("argmin per index")
    if not c.implied(n > 0):
        if c.branch(bterm(n <= 0)):
            raise Raised(ValueError("attempt to get argmin of an empty sequence"))
    from .sums import bound
    v, I = bound(c, 'arg_idx', lambda i: f((i,)))
    if nan_of(v) is not None:
        raise Unsupported("argmin of possibly NaN values")
    body = terms._arith(term(v))
    w = c.fresh('arg', 'int')
    f((w,))
    best = z3.substitute(body, (I, w.t))
    j = z3.Int('argj!' + w.t.sexpr())
    bj = z3.substitute(body, (I, j))
    le = (best <= bj) if ismin else (best >= bj)
    lt = (best < bj) if ismin else (best > bj)
    c.assume(And(w >= 0, w < n))
    c.axiom(('argx', w.t.sexpr()), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < term(n)), z3.And(le, z3.Implies(j < w.t, lt)))))
    return w


@model(np.argmin)
def np_argmin(it, args, kw):
    return arg_extreme(it, args[0], True, axis_arg(args, kw))


@model(np.argmax)
def np_argmax(it, args, kw):
    return arg_extreme(it, args[0], False, axis_arg(args, kw))


@model(np.tensordot)
def np_tensordot(it, args, kw):
    a, b = to_arr(it, args[0]), to_arr(it, args[1])
    ax = args[2] if len(args) > 2 else kw.get('axes', 2)
    if not isinstance(ax, (tuple, list)) or len(ax) != 2 or a.ndim != 2 or b.ndim != 2:
        raise Unsupported("tensordot")
    ax = [x[0] if isinstance(x, (tuple, list)) and len(x) == 1 else x for x in ax]
    if not all(isinstance(x, int) and x in (0, 1, -1, -2) for x in ax):
        raise Unsupported("tensordot axes")
    p, q = ax[0] % 2, ax[1] % 2
    n = a.shape[p]
    if not same_dim(n, b.shape[q]) and not it.branch(mk(term(n) == term(b.shape[q]))):
        raise Raised(ValueError("shape-mismatch for sum"))
    fa, fb = a.reader(), b.reader()
    A = lambda i, k: num01(fa((i, k) if p == 1 else (k, i)))
    B = lambda i, k: num01(fb((i, k) if q == 1 else (k, i)))
    kind = 'f' if 'f' in (a.kind, b.kind) else 'i'
    return SArr.new((a.shape[1 - p], b.shape[1 - q]), lambda idx: mk_sum(n, lambda k: A(idx[0], k) * B(idx[1], k)), kind)


@model(np.einsum)
def np_einsum(it, args, kw):
    if kw or len(args) != 3 or not isinstance(args[0], str):
        raise Unsupported("einsum")
    spec = args[0].replace(' ', '')
    if '->' not in spec or spec.count(',') != 1:
        raise Unsupported("einsum subscripts")
    ins, outs = spec.split('->')
    i1, i2 = ins.split(',')
    a, b = to_arr(it, args[1]), to_arr(it, args[2])
    if len(i1) != a.ndim or len(i2) != b.ndim or not (i1 + i2 + outs).isalpha() or \
            len(set(i1)) != len(i1) or len(set(i2)) != len(i2) or len(set(outs)) != len(outs) or not set(outs) <= set(i1 + i2):
        raise Unsupported("einsum subscripts")
    dims = {}
    for lab, n in list(zip(i1, a.shape)) + list(zip(i2, b.shape)):
        if lab in dims:
            if not same_dim(dims[lab], n) and not it.branch(mk(term(dims[lab]) == term(n))):
                raise Raised(ValueError("operands could not be broadcast together"))
        else:
            dims[lab] = n
    rest = [x for x in dims if x not in outs]
    if len(rest) != 1:
        raise Unsupported("einsum with other than one summed index")
    fa, fb = a.reader(), b.reader()

    def fn(idx):
        e = dict(zip(outs, idx))

        def body(k):
            d = dict(e)
            d[rest[0]] = k
            return num01(fa(tuple(d[x] for x in i1))) * num01(fb(tuple(d[x] for x in i2)))
        return mk_sum(dims[rest[0]], body)
    return SArr.new(tuple(dims[x] for x in outs), fn, 'f' if 'f' in (a.kind, b.kind) else 'i')


@model(scipy_logsumexp)
def m_logsumexp(it, args, kw):
    a = to_arr(it, args[0])
    ax = axis_arg(args, {k: v for k, v in kw.items() if k == 'axis'})
    if len(args) > 2 or set(kw) - {'axis'}:
        raise Unsupported("logsumexp options")
    red = lambda n, f: terms.f_log(mk_sum(n, lambda i: terms.f_exp(f(i))))
    if ax is None:
        if a.ndim != 1:
            raise Unsupported("logsumexp of a matrix")
        f = a.reader()
        return red(a.shape[0], lambda i: f((i,)))
    return axis_reduce(it, a, ax, red, 'f')


class ModelRandomState:
    """a random generator: uniform draws are arbitrary values of the range"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def _pyvc_getattr(self, it, name):
        if name != 'uniform':
            raise Unsupported("random generator: " + name)
        return GenUniform()


class GenUniform:
    _pyvc_sym = True

    def _pyvc_call(self, it, args, kw):
        d = dict(zip(('low', 'high', 'size'), args))
        d.update(kw)
        lo, hi, size = d.get('low', 0.0), d.get('high', 1.0), d.get('size')
        if isS(lo) or isS(hi) or not isinstance(size, tuple):
            raise Unsupported("uniform draws")
        from fractions import Fraction
        F = lambda v: z3.RealVal(str(Fraction(v)))
        return SArr.fresh('uniform', size, 'f', F(lo), F(hi))


@model(np.random.RandomState)
def m_randomstate(it, args, kw):
    return ModelRandomState()


@model(np.matmul, np.dot)
def m_matmul(it, args, kw):
    a, b = to_arr(it, args[0]), to_arr(it, args[1])
    fa, fb = a.reader(), b.reader()
    if a.ndim == 2 and b.ndim == 2:
        if not same_dim(a.shape[1], b.shape[0]):
            if not it.branch(mk(term(a.shape[1]) == term(b.shape[0]))):
                raise Raised(ValueError("matmul: dimension mismatch"))
        return SArr.new((a.shape[0], b.shape[1]), lambda idx: mk_sum(a.shape[1], lambda k: fa((idx[0], k)) * fb((k, idx[1]))), 'f')
    if a.ndim == 1 and b.ndim == 2:
        return SArr.new((b.shape[1],), lambda idx: mk_sum(a.shape[0], lambda k: fa((k,)) * fb((k, idx[0]))), 'f')
    if a.ndim == 2 and b.ndim == 1:
        return SArr.new((a.shape[0],), lambda idx: mk_sum(a.shape[1], lambda k: fa((idx[0], k)) * fb((k,))), 'f')
    if a.ndim == 1 and b.ndim == 1:
        return mk_sum(a.shape[0], lambda k: fa((k,)) * fb((k,)))
    raise Unsupported("matmul")


# ------------------------------------------------------------------------------------------------ numpy: bits
@model(np.packbits)
def np_packbits(it, args, kw):
    a = to_arr(it, args[0])
    if kw.get('axis') is not None or a.ndim != 1:
        raise Unsupported("packbits")
    if kw.get('bitorder', 'big') != 'big':
        raise Unsupported("packbits bit order")
    if isinstance(a, SFilt):
        raise Unsupported("packbits of a filtered array")
    n, f = a.shape[0], a.reader()
    nb = norm_int((n + 7) // 8)
    full = ctx().implied(mk(term(n) % 8 == 0))

    def fn(idx):
        i = idx[0]
        bits = []
        for j in range(8):
            p = norm_int(i * 8 + j)
            v = truth_nb(f((p,))) if full else ite(p < n, lambda p=p: truth_nb(f((p,))), False)
            bits.append(bterm(v))
        t = z3.Sum([z3.If(x, z3.IntVal(1 << (7 - j)), z3.IntVal(0)) for j, x in enumerate(bits)])
        return S(t, None, list(reversed(bits)))
    r = SArr.new((nb,), fn, 'i')
    r.packed_from = (n, f)
    r.is_u8 = True
    return r


@model(np.unpackbits)
def np_unpackbits(it, args, kw):
    a = to_arr(it, args[0])
    if a.ndim != 1:
        raise Unsupported("unpackbits")
    n, f = a.shape[0], a.reader()

    def fn(idx):
        i = norm_int(idx[0])
        if not isS(i):
            return cast(bits_of_byte(f((i // 8,)))[i % 8], 'i')
        q, r = i // 8, i % 8
        bb = [cast(x, 'i') for x in bits_of_byte(f((q,)))]
        return _sel(bb, r)
    return SArr.new((norm_int(n * 8),), fn, 'i')


@model(np.frombuffer)
def np_frombuffer(it, args, kw):
    b = args[0]
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    if np.dtype(dt) != np.dtype(np.uint8):
        raise Unsupported("frombuffer dtype")
    if isinstance(b, bytes):
        return SArr.from_np(np.frombuffer(b, dtype=np.uint8))
    if isinstance(b, ByteArr):
        b = b.b
    if isinstance(b, SBytes):
        return SArr.new((b.length,), lambda idx: b.elem(idx[0]), 'i')
    raise Unsupported("frombuffer")


def arr_tobytes(it, a):
    """only byte arrays: an int array of machine words would serialise differently"""
    if getattr(a, 'is_u8', False):
        f = a.reader()
        o = SBytes(a.shape[0], lambda i: f((i,)))
        o.packed_from = getattr(a, 'packed_from', None)
        return o
    raise Unsupported("tobytes of an array that is not uint8")


@model(np.sort)
def np_sort(it, args, kw):
    raise Unsupported("sort of a symbolic array")


@model(np.unique)
def np_unique(it, args, kw):
    raise Unsupported("unique of a symbolic array")


@model(np.isin, np.in1d)
def np_isin(it, args, kw):
    raise Unsupported("isin")


import contextlib  # noqa: E402


@model(contextlib.suppress)
def c_suppress(it, args, kw):
    return contextlib.suppress(*args)


@model(np.int_, np.int64, np.uint8, np.int32)
def np_int(it, args, kw):
    return b_int(it, args, kw)
