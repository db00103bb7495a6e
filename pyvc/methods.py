"""Attributes and methods of symbolic values and of native containers holding symbolic values."""
import numpy as np
import z3
from . import terms
from .terms import (S, mk, term, bterm, isS, ok_scalar, Unsupported, ForkNeeded, PathEnd, Raised, And, Or, Not, Implies, ite,
                    cast, dtype_kind, ctx, truth)
from .values import (SChoice, SBytes, SList, SDict, SArr, SFilt, touch, veq, norm_int, check_index, same_dim, list_to_arr,
                     elementwise)
from . import models
from .interp import Bound, SymIter, DictView, SStruct, is_sym, truth_nb, SymStr

ARR_METHODS = {'sum', 'mean', 'max', 'min', 'any', 'all', 'astype', 'flatten', 'tolist', 'dot', 'reshape', 'argmin', 'argmax',
               'copy', 'tobytes', 'std', 'var', 'nonzero', 'ravel', 'prod', 'item', 'fill', 'clip', 'transpose', 'squeeze',
               'round', 'cumsum'}
NATIVE_CONTAINER = {'append', 'extend', 'get', 'items', 'keys', 'values', 'index', 'insert', 'pop', 'remove', 'copy', 'clear',
                    'update', 'setdefault', 'join', 'format', 'count', 'add', 'reverse', 'sort', 'discard', 'popitem'}


def get_attr(it, o, name):
    if isinstance(o, S):
        if name in ('size', 'ndim', 'shape'):
            return getattr(o, name)
        if name == 'real':
            return o
        if name == 'dtype':
            return np.dtype(float) if o.is_real else np.dtype(bool) if o.is_bool else np.dtype(int)
        if name in ('item', 'any', 'all', 'astype', 'copy', 'bit_length', 'tolist', 'sum', 'mean', 'flatten', 'is_integer', 'round'):
            return Bound(name, o)
        if any(hasattr(t, name) for t in (int, float, bool, np.float64, np.int64)):
            raise Unsupported(f"scalar attribute {name}")
        raise Raised(AttributeError(name))
    if isinstance(o, SArr):
        if name in ('shape', 'ndim', 'dtype', 'size', 'T'):
            return getattr(o, name)
        if name in ARR_METHODS:
            return Bound(name, o)
        raise Unsupported(f"array attribute {name}")
    if isinstance(o, SFilt):
        if name in ('shape', 'ndim', 'dtype', 'size'):
            return getattr(o, name)
        if name == 'T':
            return o
        if name in ARR_METHODS:
            return Bound(name, o)
        raise Unsupported(f"array attribute {name}")
    if isinstance(o, SChoice):
        # an attribute of one of several interned objects
        from .values import _objs
        if name in ('value', 'name'):
            raise Unsupported("attribute of a choice")
        raise Unsupported(f"attribute {name} of a choice")
    if isinstance(o, (SBytes, SList, SDict, SStruct, DictView, SymIter)):
        return Bound(name, o)
    if hasattr(type(o), '_pyvc_attrs'):
        if isinstance(o, SymStr):
            return Bound(name, o)
        return o._pyvc_getattr(it, name)
    raise Unsupported(f"attribute {name} of {type(o).__name__}")


def call_method(it, o, name, args, kwargs):
    if isinstance(o, S):
        if name in ('item', 'copy', 'tolist', 'sum', 'mean', 'flatten') and not args:
            return o
        if name in ('any', 'all'):
            return truth(o)
        if name == 'astype':
            return cast(o, dtype_kind(args[0]))
        raise Unsupported(f"scalar method {name}")
    if isinstance(o, (SArr, SFilt)):
        return arr_method(it, o, name, args, kwargs)
    if isinstance(o, SBytes):
        if name == 'hex':
            raise Unsupported("hex of symbolic bytes")
        if name == 'tobytes':
            return o
        raise Unsupported(f"bytes method {name}")
    if isinstance(o, SList):
        if name == 'append':
            o.append(args[0])
            return None
        if name == 'extend':
            items = it.iter_items(args[0])
            if items is not None:
                for x in items:
                    o.append(x)
            else:
                o.extend(args[0])
            return None
        if name == 'copy':
            return o.copy()
        if name == 'pop':
            return o.pop(*args)
        if name == 'index':
            raise Unsupported("index in a symbolic list")
        raise Unsupported(f"list method {name}")
    if isinstance(o, SDict):
        if name == 'keys':
            return DictView(o, 'keys')
        if name == 'items':
            return DictView(o, 'items')
        if name == 'values':
            return DictView(o, 'values')
        if name == 'get':
            d = args[1] if len(args) > 1 else None
            if it.branch(truth_nb(o.has(args[0]))):
                return o.get(args[0])
            return d
        raise Unsupported(f"dict method {name}")
    if isinstance(o, SStruct):
        if name in ('items', 'keys', 'values'):
            return DictView(o, name)
        raise Unsupported(f"structure method {name}")
    if isinstance(o, SymStr):
        if name in ('format', 'strip', 'lower', 'upper'):
            return o
        raise Unsupported("string method")
    return native_container(it, o, name, args, kwargs)


def native_container(it, o, name, args, kwargs):
    if isinstance(o, list):
        if name == 'append':
            touch(o)
            o.append(args[0])
            return None
        if name == 'extend':
            items = it.iter_items(args[0])
            if items is None:
                raise Unsupported("extend with a symbolic iterable")
            touch(o)
            o.extend(items)
            return None
        if name == 'index':
            for i, v in enumerate(o):
                if it.branch(truth_nb(it.equal(v, args[0]))):
                    return i
            raise Raised(ValueError("not in list"))
        if name == 'count':
            return models.py_sum([cast(truth_nb(it.equal(v, args[0])), 'i') for v in o])
        if name in ('pop', 'insert', 'remove', 'clear', 'reverse', 'sort'):
            touch(o)
            if name == 'pop' and args and isinstance(args[0], S):
                k = check_index(args[0], len(o), 'pop index out of range')
                if isS(k):
                    for i in range(len(o)):
                        if i == len(o) - 1 or ctx().branch(bterm(k == i)):
                            return o.pop(i)
                return o.pop(k)
            if name == 'sort' and (is_sym(o) or kwargs):
                raise Unsupported("sorting symbolic values")
    if isinstance(o, dict):
        if name == 'get':
            return it.dict_get(o, args[0], args[1] if len(args) > 1 else kwargs.get('default'))
        if name in ('items', 'keys', 'values'):
            return getattr(o, name)()
        if name in ('pop', 'update', 'setdefault', 'clear', 'popitem'):
            touch(o)
            if args and is_sym(args[0]) and not isinstance(args[0], dict):
                raise Unsupported("dict method with a symbolic key")
            if name != 'clear':
                from .interp import has_symkeys
                if has_symkeys(o) or (args and isinstance(args[0], dict) and has_symkeys(args[0])):
                    raise Unsupported("dict method with symbolic keys")
    if isinstance(o, set) and name in ('add', 'remove', 'discard', 'update', 'clear'):
        touch(o)
        if is_sym(args):
            raise Unsupported("symbolic set element")
    if isinstance(o, str):
        if name == 'format' and (is_sym(args) or is_sym(kwargs)):
            return '<sym>'
        if name == 'join':
            items = it.iter_items(args[0])
            if items is None:
                raise Unsupported("join of a symbolic iterable")
            if is_sym(items):
                if o == '' and all(isinstance(x, (models.BitChar, str)) for x in items):
                    return models.BitStr(items)
                raise Unsupported("join of symbolic strings")
            args = [items]
        elif is_sym(args):
            raise Unsupported(f"string method {name}")
    try:
        return getattr(o, name)(*args, **kwargs)
    except (Unsupported, ForkNeeded, PathEnd, Raised):
        raise
    except Exception as e:
        raise Raised(e)


def arr_method(it, o, name, args, kwargs):
    M = models
    if name == 'copy':
        return o.copy()
    if name == 'astype':
        return o.astype(args[0])
    if name in ('flatten', 'ravel'):
        return o.flatten()
    if name in ('any', 'all', 'sum', 'mean', 'max', 'min', 'argmin', 'argmax'):
        f = {'any': M.np_any, 'all': M.np_all, 'sum': M.np_sum, 'mean': M.np_mean, 'max': M.np_max, 'min': M.np_min,
             'argmin': M.np_argmin, 'argmax': M.np_argmax}[name]
        return f(it, [o] + list(args), kwargs)
    if name == 'dot':
        return M.m_matmul(it, [o, args[0]], {})
    if name == 'tolist':
        n = o.length()
        if isinstance(o, SArr) and o.ndim == 1:
            if isS(n):
                r = o.reader()
                return SList([('fn', n, lambda i: r((i,)))])
            return [o.getitem(i) for i in range(n)]
        raise Unsupported("tolist")
    if name == 'tobytes':
        return M.arr_tobytes(it, o)
    if name == 'reshape':
        shp = args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args)
        return M.np_reshape(it, [o, shp], {})
    if name == 'fill':
        o.assign(args[0])
        return None
    if name == 'clip':
        return M.np_clip(it, [o] + list(args), kwargs)
    if name == 'nonzero':
        return (M.np_flatnonzero(it, [o], {}),)
    if name == 'item':
        return o.elem(*([0] * o.ndim))
    if name == 'transpose' and not args:
        return o.T
    raise Unsupported(f"array method {name}")
