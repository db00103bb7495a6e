"""Symbolic interpreter of the repository's own source (AST read from /repo on every run)."""
import ast
import builtins
import collections
import inspect
import operator
import os
import types
import numpy as np
import z3
from . import REPO, terms
from .terms import (S, mk, term, bterm, isS, is_num, ok_scalar, Unsupported, ForkNeeded, PathEnd, Raised, And, Or, Not,
                    Implies, Iff, ite, cast, dtype_kind, ctx, truth, nan_of)
from .values import (SChoice, SBytes, SList, SDict, SArr, SFilt, touch, veq, norm_int, check_index, slice_bounds,
                     same_dim, list_to_arr, as_arr, elementwise, merge_values, is_atom, smin, smax)

SYM = (S, SChoice, SBytes, SList, SDict, SArr, SFilt)


class Poison:
    """value of a loop temporary after a loop cut"""
    def __init__(self, name):
        self.name = name


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class RetryLoop(Exception):
    """the chosen loop state candidates do not fit"""
    def __init__(self, key, why):
        super().__init__(why)
        self.key = key


class IFunc:
    """a function of the interpreted program (nested def, lambda)"""
    def __init__(self, node, env, glob, cls, name, defaults=(), kwdefaults=None, file=''):
        self.node, self.env, self.glob, self.cls, self.name = node, env, glob, cls, name
        self.defaults, self.kwdefaults, self.file = defaults, kwdefaults or {}, file


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SymIter:
    """an iterable of symbolic length"""
    def __init__(self, n, el, kind='seq', src=None):
        self.n, self.el, self.kind, self.src = norm_int(n), el, kind, src


class DictView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class SStruct:
    """dictionary of symbolic size with ordered items: key(k), value(k) for 0 <= k < n; keys pairwise distinct"""
    def __init__(self, n, key, val):
        self.n, self.key, self.val = n, key, val


# ------------------------------------------------------------------------------------------------ source
_trees = {}


def func_node(fn):
    code = fn.__code__
    path = code.co_filename
    if path not in _trees:
        with open(path) as f:
            src = f.read()
        idx = {}
        for node in ast.walk(ast.parse(src)):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([node.lineno] + [d.lineno for d in node.decorator_list])
                idx[(line, node.name)] = node
            elif isinstance(node, ast.Lambda):
                idx.setdefault((node.lineno, '<lambda>'), node)
        _trees[path] = idx
    node = _trees[path].get((code.co_firstlineno, code.co_name))
    if node is None:
        raise Unsupported(f"no source for {fn.__qualname__}")
    return node


def has_symkeys(d):
    """a dictionary with keys that are only known symbolically (hashed by identity)"""
    return any(isinstance(x, (S, SChoice)) or (isinstance(x, tuple) and is_sym(x)) for x in d)


def in_repo(path):
    return path is not None and os.path.realpath(path).startswith(os.path.realpath(REPO) + os.sep)


def repo_func(f):
    return isinstance(f, types.FunctionType) and in_repo(f.__code__.co_filename)


MUTABLE = (dict, list, set, bytearray, collections.defaultdict, collections.OrderedDict, collections.deque, collections.Counter)
_known = []


def known_attrs():
    if not _known:
        import json
        import os
        _known.append(json.load(open(os.path.join(os.path.dirname(__file__), 'known_attrs.json'))))
    return _known[0]


def shared(v):
    """a container that outlives the call (module global, class attribute, default argument, unknown attribute)"""
    ctx().shared[id(v)] = v


def repo_class(c):
    if not isinstance(c, type):
        return False
    import sys
    m = sys.modules.get(c.__module__)
    return m is not None and in_repo(getattr(m, '__file__', None))


def is_ghost(x):
    """x is an object of the specification, whose missing operations say nothing about the code"""
    return hasattr(x, '_pyvc_sym') or isinstance(x, (SStruct, DictView, SymIter, Poison, IFunc)) or type(x).__module__.startswith('contracts')


def is_sym(x, depth=3):
    if isinstance(x, SYM) or isinstance(x, (IFunc, Bound, SymIter, DictView, SStruct, Poison)):
        return True
    if hasattr(x, '_pyvc_sym'):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(is_sym(v, depth - 1) for v in x)
    if depth and isinstance(x, dict):
        return any(is_sym(v, depth - 1) for v in x.values()) or any(is_sym(v, depth - 1) for v in x.keys())
    if isinstance(x, slice):
        return any(is_sym(v) for v in (x.start, x.stop, x.step))
    return False


class Frame:
    def __init__(self, interp, glob, cls, name, parent=None, func=None):
        self.locals = {}
        self.glob = glob
        self.cls = cls
        self.name = name
        self.parent = parent
        self.nonlocals = set()
        self.globals_decl = set()
        self.obj = None
        self.func = func
        self.localnames = None


def assigned_names(nodes):
    out = set()
    for n in nodes:
        for w in ast.walk(n):
            if isinstance(w, ast.Name) and isinstance(w.ctx, (ast.Store, ast.Del)):
                out.add(w.id)
            elif isinstance(w, (ast.FunctionDef,)):
                out.add(w.name)
    return out


def used_names(nodes):
    out = set()
    for n in nodes:
        for w in ast.walk(n):
            if isinstance(w, ast.Name):
                out.add(w.id)
    return out


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
          ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
          ast.MatMult: operator.matmul}


class Interp:
    def __init__(self, models, contracts=None, loops=None, max_unroll=400):
        self.models = models              # callable object -> model(interp, args, kwargs)
        self.contracts = contracts or {}  # function -> handler(interp, args, kwargs)
        self.loops = loops or []
        self.max_unroll = max_unroll
        self.depth = 0
        self.frames = []
        self.merge = 0
        self.trace = set()                # names of repo functions interpreted

    # ---------------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Poison):
            raise Unsupported(f"value of loop temporary {f.name} used after the loop")
        if isinstance(f, Bound):
            return self.call_bound(f, args, kwargs)
        if isinstance(f, IFunc):
            return self.run_ifunc(f, args, kwargs)
        if isinstance(f, types.MethodType):
            h = self.lookup_handler(f.__func__)
            if h is not None:
                return h(self, [f.__self__] + args, kwargs)
            if repo_func(f.__func__):
                return self.run_func(f.__func__, [f.__self__] + args, kwargs)
            return self.native(f, args, kwargs)
        h = self.lookup_handler(f)
        if h is not None:
            if kwargs and not args and not repo_func(f):
                # the first argument of a library function given by name
                for n in ('shape', 'object', 'a', 'x', 'ary', 'arr', 'm', 'condition', 'array'):
                    if n in kwargs:
                        kwargs = dict(kwargs)
                        args = [kwargs.pop(n)]
                        break
            return h(self, args, kwargs)
        if hasattr(f, '_pyvc_call'):
            return f._pyvc_call(self, args, kwargs)
        if repo_func(f):
            return self.run_func(f, args, kwargs)
        if isinstance(f, type) and repo_class(f):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            try:
                return f(*[a if not is_sym(a) else '<sym>' for a in args])
            except Exception:
                return f()
        return self.native(f, args, kwargs)

    def lookup_handler(self, f):
        try:
            h = self.contracts.get(f)
            if h is None:
                h = self.models.get(f)
            return h
        except TypeError:
            return None

    def native(self, f, args, kwargs):
        if is_sym(args) or is_sym(kwargs):
            import struct
            if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, struct.Struct) and not kwargs:
                from . import models
                if f.__name__ == 'unpack':
                    return models.struct_unpack(self, f.__self__.format, args[0])
                if f.__name__ == 'pack':
                    return models.s_pack(self, [f.__self__.format] + list(args), {})
            raise Unsupported(f"call of {getattr(f, '__qualname__', f)} with symbolic arguments")
        try:
            return f(*args, **kwargs)
        except (Unsupported, ForkNeeded, PathEnd):
            raise
        except Exception as e:
            raise Raised(e)

    def call_bound(self, b, args, kwargs):
        f = b.fn
        if isinstance(f, str):
            from . import methods
            return methods.call_method(self, b.obj, f, args, kwargs)
        return self.call(f, [b.obj] + list(args), kwargs)

    def instantiate(self, cls, args, kwargs):
        import enum
        if issubclass(cls, BaseException):
            try:
                return cls(*['<sym>' if is_sym(a) else a for a in args])
            except Exception:
                return cls()
        if issubclass(cls, enum.Enum):
            return self.native(cls, args, kwargs)
        new = cls.__new__
        if new is not object.__new__:
            raise Unsupported("class with __new__")
        o = object.__new__(cls)
        init = cls.__init__
        h = self.lookup_handler(init)
        if h is not None:
            h(self, [o] + list(args), kwargs)
        elif repo_func(init):
            self.run_func(init, [o] + list(args), kwargs)
        elif init is not object.__init__:
            raise Unsupported(f"constructor of {cls}")
        return o

    def bind(self, node, args, kwargs, defaults, kwdefaults, fname):
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(params) and a.vararg is None:
            raise Raised(TypeError(f"{fname}() takes {len(params)} positional arguments"))
        for p, v in zip(params, args):
            env[p] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(params):])
        for k in list(kwargs):
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                if k in env:
                    raise Raised(TypeError("multiple values for argument"))
                env[k] = kwargs.pop(k)
        if kwargs:
            if a.kwarg is None:
                raise Raised(TypeError(f"{fname}() got an unexpected keyword argument"))
            env[a.kwarg.arg] = kwargs
        elif a.kwarg is not None:
            env[a.kwarg.arg] = {}
        nd = len(defaults)
        for i, p in enumerate(params):
            if p not in env:
                j = i - (len(params) - nd)
                if j < 0:
                    raise Raised(TypeError(f"{fname}() missing argument {p}"))
                env[p] = defaults[j]
                if type(defaults[j]) in MUTABLE:
                    shared(defaults[j])
        for p in a.kwonlyargs:
            if p.arg not in env:
                if p.arg not in kwdefaults:
                    raise Raised(TypeError(f"{fname}() missing keyword argument"))
                env[p.arg] = kwdefaults[p.arg]
        return env

    def run_func(self, fn, args, kwargs):
        node = func_node(fn)
        if isinstance(node, ast.AsyncFunctionDef):
            raise Unsupported("async")
        self.trace.add(fn.__module__ + '.' + fn.__qualname__)
        cls = None
        glob = fn.__globals__
        if '.' in fn.__qualname__ and '<locals>' not in fn.__qualname__:
            cls = glob.get(fn.__qualname__.split('.')[0])
        fr = Frame(self, glob, cls, fn.__qualname__)
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    fr.locals.setdefault(n, c.cell_contents)
                except ValueError:
                    pass
        fr.locals.update(self.bind(node, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__ or {}, fn.__name__))
        if node.args.args and args:
            fr.obj = args[0]
        return self.run_body(node, fr)

    def run_ifunc(self, f, args, kwargs):
        fr = Frame(self, f.glob, f.cls, f.name, parent=f.env)
        fr.obj = f.env.obj if f.env else None
        fr.locals.update(self.bind(f.node, args, kwargs, f.defaults, f.kwdefaults, f.name))
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, fr)
        return self.run_body(f.node, fr)

    def run_body(self, node, fr):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node)):
            raise Unsupported("generator function")
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion depth")
        self.frames.append(fr)
        try:
            self.block(node.body, fr)
            return None
        except ReturnSig as r:
            return r.v
        finally:
            self.depth -= 1
            self.frames.pop()

    # ---------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr):
        ns = {}
        exec(compile(ast.Module([s], []), '<import>', 'exec'), fr.glob, ns)
        fr.locals.update(ns)

    s_ImportFrom = s_Import

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            v = self.ev(s.value, fr)
            self.assign(t, self.inplace(s.op, old, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr_(o, self.mangle(t.attr, fr))
            v = self.ev(s.value, fr)
            self.setattr_(o, self.mangle(t.attr, fr), self.inplace(s.op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            old = self.getitem(o, k)
            v = self.ev(s.value, fr)
            self.setitem(o, k, self.inplace(s.op, old, v))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, old, v):
        if isinstance(old, SArr):
            f = BINOPS[type(op)]
            from .values import sdiv
            if isinstance(op, ast.Div):
                f = sdiv
            if old.kind == 'i' and (isinstance(op, ast.Div) or kindof(v) == 'f'):
                raise Raised(TypeError("Cannot cast ufunc output"))
            if isinstance(v, np.ndarray):
                v = SArr.from_np(v)
            k = old.kind
            g = lambda a, b: bool_arith(f, a, b)
            return old.inplace(v, g)
        if isinstance(old, SList) and isinstance(op, ast.Add):
            items = self.iter_items(v)
            if items is not None:
                for x in items:
                    old.append(x)
            elif isinstance(v, SList):
                old.extend(v)
            else:
                raise Unsupported("list += symbolic iterable")
            return old
        if isinstance(old, list) and isinstance(op, ast.Add):
            items = self.iter_items(v)
            if items is None:
                raise Unsupported("list += symbolic iterable")
            touch(old)
            old.extend(items)
            return old
        return self.binop(op, old, v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                if isinstance(o, SList):
                    o.pop(k)
                elif isinstance(o, (list, dict)) and not is_sym(k) and not (isinstance(o, dict) and has_symkeys(o)):
                    touch(o)
                    try:
                        del o[k]
                    except Exception as e:
                        raise Raised(e)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_Return(self, s, fr):
        raise ReturnSig(None if s.value is None else self.ev(s.value, fr))

    def s_Break(self, s, fr):
        raise BreakSig()

    def s_Continue(self, s, fr):
        raise ContinueSig()

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if cur is None:
                raise Raised(RuntimeError("No active exception to reraise"))
            raise Raised(cur)
        e = self.ev(s.exc, fr)
        if isinstance(e, type):
            e = self.call(e)
        raise Raised(e)

    def s_Assert(self, s, fr):
        if not self.branch(self.ev(s.test, fr)):
            raise Raised(AssertionError())

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        fr.locals[s.name] = self.make_func(s, fr, s.name)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {p.arg: self.ev(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return IFunc(node, fr, fr.glob, fr.cls, name, defaults, kwd)

    def s_With(self, s, fr):
        import contextlib
        if len(s.items) != 1:
            inner = ast.With(items=s.items[1:], body=s.body)
            ast.copy_location(inner, s)
            outer = ast.With(items=s.items[:1], body=[inner])
            ast.copy_location(outer, s)
            return self.s_With(outer, fr)
        it = s.items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, contextlib.suppress):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, None, fr)
            try:
                self.block(s.body, fr)
            except Raised as r:
                if not isinstance(r.exc, cm._exceptions):
                    raise
            return
        if hasattr(cm, '_pyvc_enter'):
            v = cm._pyvc_enter(self)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                self.block(s.body, fr)
            finally:
                cm._pyvc_exit(self)
            return
        raise Unsupported(f"with {type(cm)}")

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except Raised as r:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        tp = self.ev(h.type, fr)
                        match = isinstance(r.exc, tp)
                    if match:
                        if h.name:
                            fr.locals[h.name] = r.exc
                        old = getattr(self, 'handling', None)
                        self.handling = r.exc
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            import sys
            et = sys.exc_info()[0]
            if s.finalbody and (et is None or issubclass(et, (Raised, ReturnSig, BreakSig, ContinueSig))):
                self.block(s.finalbody, fr)

    def s_If(self, s, fr):
        c = self.ev(s.test, fr)
        if isinstance(c, S) and self.merge and simple_block(s.body) and simple_block(s.orelse):
            if self.merge_if(s, c, fr):
                return
        if self.branch(c):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def merge_if(self, s, c, fr):
        ct = bterm(c)
        cx = ctx()
        base = dict(fr.locals)
        outs = []
        for cond, blk in ((ct, s.body), (z3.Not(ct), s.orelse)):
            fr.locals = dict(base)
            ok, _ = self.speculate(cond, lambda: self.block(blk, fr))
            if not ok:
                fr.locals = base
                return False
            outs.append(fr.locals)
        a, b = outs
        merged = dict(base)
        try:
            for k in set(a) | set(b):
                if k not in a or k not in b:
                    if k in base:
                        raise ForkNeeded()
                    merged[k] = a.get(k, b.get(k))    # defined on one side only: value unreachable on the other
                    if k not in a or k not in b:
                        raise ForkNeeded()
                elif a[k] is b[k]:
                    merged[k] = a[k]
                else:
                    cx.spec += 1
                    try:
                        merged[k] = merge_values(ct, a[k], b[k])
                    finally:
                        cx.spec -= 1
        except (ForkNeeded, Unsupported):
            fr.locals = base
            return False
        fr.locals = merged
        return True

    def speculate(self, cond, fn):
        """run fn under the extra assumption cond without forking; (ok, result)"""
        cx = ctx()
        npc = len(cx.pc)
        axk = dict(cx.axioms)
        cx.spec += 1
        cx.solver.push()
        ok, res = False, None
        try:
            if cond is not None:
                cx.pc.append(cond)
                cx.solver.add(cond)
            res = fn()
            ok = True
        except (ForkNeeded, Raised, ReturnSig, BreakSig, ContinueSig, PathEnd):
            ok = False
        finally:
            cx.spec -= 1
            cx.solver.pop()
            new = cx.pc[npc + (1 if cond is not None else 0):]
            del cx.pc[npc:]
            cx.axioms = axk
            if ok:
                for t in new:
                    g = t if cond is None else z3.Implies(cond, t)
                    cx.pc.append(g)
                    cx.solver.add(g)
        return ok, res

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, S):
            return ctx().branch(terms.truth_term(c))
        if isinstance(c, SList):
            n = c.length()
            return self.branch(n != 0 if isS(n) else n != 0)
        if isinstance(c, SDict):
            raise Unsupported("truth of symbolic dict")
        if isinstance(c, SStruct):
            return self.branch(c.n > 0)
        if isinstance(c, SBytes):
            n = c.length
            return self.branch(n > 0 if isS(n) else n > 0)
        if isinstance(c, SArr):
            return bool(c)
        if isinstance(c, SChoice):
            raise Unsupported("truth of a choice")
        if isinstance(c, Poison):
            raise Unsupported(f"loop temporary {c.name} used after the loop")
        if hasattr(c, '_pyvc_truth'):
            return self.branch(c._pyvc_truth())
        if not isinstance(c, (str, bytes, int, float, tuple, list, dict, set, type(None), np.generic, np.ndarray)) and \
                hasattr(type(c), '__len__') and repo_class(type(c)):
            return self.branch(self.call(Bound(type(c).__len__, c)) != 0)
        return bool(c)

    # ---------------------------------------------------------------- loops
    def s_While(self, s, fr):
        n = 0
        while True:
            c = self.ev(s.test, fr)
            if isinstance(c, S):
                st = z3.simplify(c.t)
                if z3.is_true(st) or z3.is_false(st):
                    c = z3.is_true(st)
            if isinstance(c, S):
                spec = self.find_loop(s, fr, None)
                if spec is not None and n == 0:
                    self.loop_cut(s, fr, None, spec)
                    return
                raise Unsupported("while loop with symbolic condition and no loop contract")
            if not self.branch(c):
                break
            try:
                self.block(s.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                pass
            n += 1
            if n > self.max_unroll:
                raise Unsupported("too many loop iterations")
        self.block(s.orelse, fr)

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        items = self.iter_items(it)
        if items is None:
            si = self.sym_iter(it)
            spec = self.find_loop(s, fr, si)
            if spec is None:
                raise Unsupported(f"loop over a symbolic range without a loop contract (line {s.lineno})")
            self.loop_cut(s, fr, si, spec)
            return
        if self.loops:
            for spec in self.loops:
                if spec.concrete and len(items) > 1 and spec.applies(self, s, fr, None):
                    spec.cut(self, s, fr, None, items)
                    return
        if len(items) > self.max_unroll:
            raise Unsupported("too many loop iterations")
        m = 1 if len(items) > 6 else 0
        self.merge += m
        try:
            for v in items:
                self.assign(s.target, v, fr)
                try:
                    self.block(s.body, fr)
                except BreakSig:
                    return
                except ContinueSig:
                    pass
        finally:
            self.merge -= m
        self.block(s.orelse, fr)

    def find_loop(self, s, fr, si):
        for spec in self.loops:
            if spec.applies(self, s, fr, si):
                return spec
        return None

    def loop_cut(self, s, fr, si, spec):
        spec.cut(self, s, fr, si)

    def iter_items(self, it):
        """python list of the items of a concrete-length iterable, or None"""
        if isinstance(it, (list, tuple, range, str, bytes, set, frozenset)):
            return list(it)
        if isinstance(it, np.ndarray):
            return list(it)
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, (type({}.keys()), type({}.values()), type({}.items()), enumerate, zip, map, filter)):
            return list(it)
        if isinstance(it, SBytes):
            return it.as_list()
        if isinstance(it, SList):
            if all(g[0] == 'items' for g in it.segs):
                return [v for g in it.segs for v in g[1]]
            n = it.length()
            if not isS(n):
                return it.as_pylist()
            return None
        if isinstance(it, SArr):
            n = it.length()
            if isS(n):
                n = ctx().concrete_int(n.t)
                if n is None:
                    return None
            return [it.getitem(i) for i in range(n)]
        if isinstance(it, SymIter):
            n = it.n
            if isS(n):
                n = ctx().concrete_int(n.t)
                if n is None:
                    return None
            return [it.el(i) for i in range(n)]
        if isinstance(it, DictView):
            if isinstance(it.d, SStruct):
                n = it.d.n
                if isS(n):
                    n = ctx().concrete_int(n.t)
                if n is not None:
                    si = self.sym_iter(it)
                    return [si.el(i) for i in range(n)]
            return None
        if isinstance(it, (SDict, SFilt, SStruct)):
            return None
        if isinstance(it, Poison):
            raise Unsupported(f"loop temporary {it.name} used after the loop")
        if isinstance(it, S) or it is None or isinstance(it, (int, float)):
            raise Raised(TypeError("object is not iterable"))
        if hasattr(it, '_pyvc_iter'):
            return it._pyvc_iter(self)
        if hasattr(it, '_pyvc_symiter'):
            return None
        if getattr(type(it), '_pyvc_sym', False):
            raise Unsupported(f"iteration over {type(it).__name__}")
        if repo_class(type(it)) and hasattr(type(it), '__iter__'):
            return self.iter_items(self.call(Bound(type(it).__iter__, it)))
        if inspect.isgenerator(it) or hasattr(it, '__iter__'):
            try:
                return list(it)
            except Unsupported:
                raise
            except Exception as e:
                raise Raised(e)
        raise Raised(TypeError("object is not iterable"))

    def sym_iter(self, it):
        if isinstance(it, SymIter):
            return it
        if isinstance(it, SBytes):
            return SymIter(it.length, it.elem, 'bytes', it)
        if isinstance(it, SList):
            return SymIter(it.length(), it.elem, 'list', it)
        if isinstance(it, SArr):
            return SymIter(it.length(), lambda i: it.getitem(i), 'arr', it)
        if isinstance(it, DictView) and isinstance(it.d, SStruct):
            d = it.d
            if it.kind == 'items':
                return SymIter(d.n, lambda k: (d.key(k), d.val(k)), 'items', d)
            if it.kind == 'keys':
                return SymIter(d.n, lambda k: d.key(k), 'keys', d)
            return SymIter(d.n, lambda k: d.val(k), 'values', d)
        if isinstance(it, SStruct):
            return SymIter(it.n, lambda k: it.key(k), 'keys', it)
        if hasattr(it, '_pyvc_symiter'):
            return it._pyvc_symiter(self)
        raise Unsupported(f"iteration over {type(it).__name__}")

    # ---------------------------------------------------------------- targets
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.locals:
                    f = f.parent
                if f is None:
                    raise Unsupported("nonlocal")
                if ctx().spec:
                    raise ForkNeeded()
                f.locals[t.id] = v
                return
            fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.iter_items(v)
            if items is None:
                if isinstance(v, SBytes):
                    # unpacking checks the length
                    n = len(t.elts)
                    if star:
                        raise Unsupported("starred unpacking")
                    if not self.branch(mk(term(v.length) == n)):
                        raise Raised(ValueError("unpack"))
                    items = [v.elem(i) for i in range(n)]
                elif isinstance(v, SList):
                    n = len(t.elts)
                    ln = v.length()
                    if star or not self.branch(mk(term(ln) == n)):
                        raise Raised(ValueError("unpack"))
                    items = [v.elem(i) for i in range(n)]
                elif isinstance(v, (SArr,)):
                    n = len(t.elts)
                    if not self.branch(mk(term(v.length()) == n)):
                        raise Raised(ValueError("unpack"))
                    items = [v.getitem(i) for i in range(n)]
                else:
                    raise Unsupported("unpacking a symbolic iterable")
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise Raised(ValueError("not enough values to unpack"))
                items = items[:i] + [items[i:len(items) - after]] + items[len(items) - after:]
            if len(items) != len(t.elts):
                raise Raised(ValueError("wrong number of values to unpack"))
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.cls is not None:
            return '_' + fr.cls.__name__.lstrip('_') + name
        return name

    def setattr_(self, o, name, v):
        if ctx().spec:
            raise ForkNeeded()
        if hasattr(o, '_pyvc_setattr'):
            return o._pyvc_setattr(self, name, v)
        d = inspect.getattr_static(type(o), name, None)
        if isinstance(d, property):
            if d.fset is None:
                raise Raised(AttributeError("can't set attribute"))
            self.call(d.fset, [o, v])
            return
        if isinstance(o, SYM):
            raise Unsupported("attribute assignment on a symbolic value")
        if isinstance(o, (types.ModuleType, type, types.FunctionType)):
            raise Unsupported("assignment to a global attribute")
        if self.unknown_state(o, name):
            raise Unsupported(f"state kept in an attribute the contracts do not know: {name}")
        c = ctx()
        if c.heaplog is not None:
            c.heaplog[(id(o), name)] = (o, name)
        if c.ro is not None and (id(o), name) in c.ro:
            c.prove('frame: attribute is not modified (' + c.ro[(id(o), name)] + ')', False, kind='frame')
        object.__setattr__(o, name, v)

    def unknown_state(self, o, name):
        """an attribute outside the known state of its class, used outside construction: between calls it may hold anything"""
        t = type(o)
        if not repo_class(t) or any(f.name.split('.')[-1] in ('__init__', '__post_init__', '__new__') for f in self.frames):
            return False
        ks = [k for k in (known_attrs().get(x.__name__) for x in t.__mro__) if k is not None]
        return bool(ks) and not any(name in k for k in ks)

    def getattr_(self, o, name):
        v = self.getattr0(o, name)
        if type(v) in MUTABLE:
            if isinstance(o, (types.ModuleType, type, types.FunctionType)):
                shared(v)
            elif repo_class(type(o)) and hasattr(o, '__dict__') and (name not in o.__dict__ or self.unknown_state(o, name)):
                d = inspect.getattr_static(type(o), name, None)
                if d is v or name in o.__dict__:
                    shared(v)
        return v

    def getattr0(self, o, name):
        from . import methods
        if isinstance(o, Poison):
            raise Unsupported(f"loop temporary {o.name} used after the loop")
        if isinstance(o, Super):
            mro = type(o.obj).__mro__
            for k in mro[mro.index(o.cls) + 1:]:
                if name in k.__dict__:
                    f = k.__dict__[name]
                    if isinstance(f, types.FunctionType):
                        return Bound(f, o.obj)
                    if isinstance(f, property):
                        return self.call(f.fget, [o.obj])
            if name == '__init__':
                return lambda *a, **k: None
            raise Raised(AttributeError(name))
        if isinstance(o, SYM) or isinstance(o, (SStruct, DictView, SymIter)) or hasattr(type(o), '_pyvc_attrs'):
            return methods.get_attr(self, o, name)
        if isinstance(o, (list, dict, set, bytes, str, tuple)) and name in methods.NATIVE_CONTAINER:
            return Bound(name, o)
        if isinstance(o, types.ModuleType) or isinstance(o, type):
            try:
                v = inspect.getattr_static(o, name) if isinstance(o, type) else getattr(o, name)
            except AttributeError as e:
                raise Raised(e)
            if isinstance(o, type):
                if isinstance(v, staticmethod):
                    return v.__func__
                if isinstance(v, classmethod):
                    return Bound(v.__func__, o)
                if isinstance(v, types.FunctionType):
                    return v
                return getattr(o, name)
            return v
        if hasattr(o, '__dict__') and not isinstance(o, types.FunctionType):
            try:
                d = inspect.getattr_static(type(o), name)
            except AttributeError:
                d = None
            if isinstance(d, property):
                if repo_func(d.fget):
                    return self.call(d.fget, [o])
                return getattr(o, name)
            if name in o.__dict__:
                return o.__dict__[name]
            if isinstance(d, types.FunctionType):
                return Bound(d, o)
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return Bound(d.__func__, type(o))
        if isinstance(o, np.ndarray):
            o2 = SArr.from_np(o) if name in methods.ARR_METHODS else None
            if o2 is not None:
                return methods.get_attr(self, o2, name)
        try:
            return getattr(o, name)
        except AttributeError as e:
            if is_ghost(o):
                raise Unsupported(f"attribute {name} of {type(o).__name__}")
            raise Raised(e)

    # ---------------------------------------------------------------- subscripts
    def ev_index(self, node, fr):
        if isinstance(node, ast.Slice):
            return slice(*[None if x is None else self.ev(x, fr) for x in (node.lower, node.upper, node.step)])
        if isinstance(node, ast.Tuple):
            return tuple(self.ev_index(e, fr) for e in node.elts)
        return self.ev(node, fr)

    def getitem(self, o, k):
        if isinstance(o, (SBytes, SList, SArr, SFilt)):
            if isinstance(o, SArr) and isinstance(k, (np.integer,)):
                k = int(k)
            return o.getitem(k)
        if isinstance(o, SDict):
            return o.getitem(k)
        if isinstance(o, Poison) or isinstance(k, Poison):
            raise Unsupported("loop temporary used after the loop")
        if isinstance(o, SStruct):
            raise Unsupported("lookup in a symbolic structure")
        if hasattr(o, '_pyvc_getitem'):
            return o._pyvc_getitem(self, k)
        if isinstance(o, np.ndarray):
            if is_sym(k):
                return SArr.from_np(o).getitem(k)
            try:
                return o[k]
            except Exception as e:
                raise Raised(e)
        if isinstance(o, (list, tuple, range, str, bytes)):
            if isinstance(k, slice) and is_sym(k):
                a, ln = slice_bounds(k, len(o))
                a = concretize_small(a)
                ln = concretize_small(ln)
                return o[a:a + ln]
            if isinstance(k, S):
                if isinstance(o, bytes):
                    return SArr.from_np(np.frombuffer(o, dtype=np.uint8)).elem(check_index(k, len(o)))
                k = check_index(k, len(o), 'list index out of range')
                if isS(k):
                    return self.select(list(o), k)
            try:
                return o[k]
            except (Unsupported, ForkNeeded, PathEnd, Raised):
                raise
            except Exception as e:
                raise Raised(e)
        if isinstance(o, dict):
            return self.dict_get(o, k)
        if repo_class(type(o)) and hasattr(type(o), '__getitem__'):
            return self.call(Bound(type(o).__getitem__, o), [k])
        if isinstance(o, type):
            try:
                return o[k]
            except Exception as e:
                raise Raised(e)
        if is_sym(k) or is_ghost(o):
            raise Unsupported(f"subscript of {type(o).__name__}")
        try:
            return o[k]
        except Exception as e:
            raise Raised(e)

    def select(self, items, k):
        """items[k] for a symbolic in-range k"""
        try:
            r = items[-1]
            for i in range(len(items) - 2, -1, -1):
                r = ite(k == i, items[i], r)
            return r
        except Unsupported:
            # fork on the value of the index
            for i in range(len(items) - 1):
                if ctx().branch(bterm(k == i)):
                    return items[i]
            return items[-1]

    def dict_get(self, d, k, default=KeyError):
        if isinstance(k, (S, SChoice)) or (isinstance(k, tuple) and is_sym(k)) or has_symkeys(d):
            keys = list(d.keys())
            conds = [k == x if isinstance(x, str) and isinstance(k, str) else
                     veq(k, x) if not isinstance(x, str) and not isinstance(k, str) else False for x in keys]
            mem = Or(*conds)
            if default is KeyError:
                if not self.branch(mem):
                    raise Raised(KeyError('key'))
                if len(keys) == 0:
                    raise Raised(KeyError('key'))
                items = [(c, d[x]) for c, x in zip(conds, keys) if c is not False]
                try:
                    r = items[-1][1]
                    for c, v in reversed(items[:-1]):
                        r = ite(c, v, r)
                    return r
                except Unsupported:
                    for c, v in items[:-1]:
                        if self.branch(c):
                            return v
                    return items[-1][1]
            try:
                r = default
                for c, x in reversed(list(zip(conds, keys))):
                    if c is False:
                        continue
                    r = ite(c, d[x], r)
                return r
            except Unsupported:
                if not self.branch(mem):
                    return default
                return self.dict_get(d, k)
        try:
            if default is KeyError:
                return d[k]
            return d.get(k, default)
        except TypeError as e:
            raise Raised(e)
        except KeyError as e:
            raise Raised(e)

    def setitem(self, o, k, v):
        if isinstance(o, SArr):
            return o.setitem(k, v)
        if isinstance(o, SDict):
            return o.setitem(k, v)
        if isinstance(o, SList):
            return o_setitem_slist(self, o, k, v)
        if isinstance(o, list):
            touch(o)
            if isinstance(k, S):
                k = check_index(k, len(o), 'list assignment index out of range')
                if isS(k):
                    try:
                        new = [ite(k == i, v, o[i]) for i in range(len(o))]
                    except (Unsupported, ForkNeeded):
                        for i in range(len(o)):
                            if i == len(o) - 1 or ctx().branch(bterm(k == i)):
                                o[i] = v
                                return
                    o[:] = new
                    return
            try:
                o[k] = v
            except Exception as e:
                raise Raised(e)
            return
        if isinstance(o, dict):
            if is_sym(k) or has_symkeys(o):
                return self.dict_symset(o, k, v)
            touch(o)
            try:
                o[k] = v
            except TypeError as e:
                raise Raised(e)
            return
        if isinstance(o, (tuple, bytes, str, SBytes)):
            raise Raised(TypeError("object does not support item assignment"))
        if hasattr(o, '_pyvc_setitem'):
            return o._pyvc_setitem(self, k, v)
        if repo_class(type(o)) and hasattr(type(o), '__setitem__'):
            return self.call(Bound(type(o).__setitem__, o), [k, v])
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def dict_symset(self, o, k, v):
        """d[k] = v with a symbolic key: fork on which existing key it equals"""
        touch(o)
        for x in list(o.keys()):
            c = x == k if isinstance(x, str) and isinstance(k, str) else veq(x, k)
            if c is False:
                continue
            if c is True or self.branch(c):
                o[x] = v
                return
        o[HKey.wrap(k)] = v

    # ---------------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.locals:
                v = f.locals[e.id]
                if isinstance(v, Poison):
                    raise Unsupported(f"loop temporary {v.name} used after the loop")
                return v
            f = f.parent
        if e.id in fr.glob:
            v = fr.glob[e.id]
            if type(v) in MUTABLE:
                shared(v)
            return v
        if hasattr(builtins, e.id):
            return getattr(builtins, e.id)
        raise Raised(UnboundLocalError(f"cannot access local variable '{e.id}'"))

    def e_Attribute(self, e, fr):
        return self.getattr_(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def e_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def e_Set(self, e, fr):
        xs = self.elts(e.elts, fr)
        if is_sym(xs):
            raise Unsupported("set of symbolic values")
        return set(xs)

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                items = self.iter_items(self.ev(x.value, fr))
                if items is None:
                    raise Unsupported("starred symbolic iterable")
                out.extend(items)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, fr)
                if not isinstance(m, dict):
                    raise Unsupported("dict unpacking")
                d.update(m)
            else:
                kk = self.ev(k, fr)
                if is_sym(kk):
                    raise Unsupported("symbolic dict key")
                d[kk] = self.ev(v, fr)
        return d

    def e_JoinedStr(self, e, fr):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.ev(p.value, fr)
                if is_sym(v) or (hasattr(v, '__dict__') and not isinstance(v, (type, types.ModuleType))):
                    return SymStr.make([self.ev(q.value, fr) if not isinstance(q, ast.Constant) else q.value
                                        for q in e.values])
                spec = self.ev(p.format_spec, fr) if p.format_spec is not None else ''
                if p.conversion == 114:
                    v = repr(v)
                elif p.conversion == 115:
                    v = str(v)
                out.append(format(v, spec))
        return ''.join(out)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, '<lambda>')

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_IfExp(self, e, fr):
        c = self.ev(e.test, fr)
        if isinstance(c, S):
            ct = bterm(c)
            st = z3.simplify(ct)
            if not (z3.is_true(st) or z3.is_false(st)):
                cx = ctx()
                if cx.implied(ct):
                    return self.ev(e.body, fr)
                if cx.implied(z3.Not(ct)):
                    return self.ev(e.orelse, fr)
                ok1, a = self.speculate(ct, lambda: self.ev(e.body, fr))
                if ok1 and (ok_scalar(a) or is_atom(a)):
                    ok2, b = self.speculate(z3.Not(ct), lambda: self.ev(e.orelse, fr))
                    if ok2 and (ok_scalar(b) and ok_scalar(a)):
                        return ite(c, a, b)
        if self.branch(c):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        return self.boolop(isand, e.values, fr)

    def boolop(self, isand, vals, fr):
        v = self.ev(vals[0], fr)
        if len(vals) == 1:
            return v
        if isinstance(v, S) and v.is_bool:
            st = z3.simplify(v.t)
            if z3.is_true(st) or z3.is_false(st):
                b = z3.is_true(st)
                return self.boolop(isand, vals[1:], fr) if b == isand else v
            cond = v.t if isand else z3.Not(v.t)
            ok, r = self.speculate(cond, lambda: self.boolop(isand, vals[1:], fr))
            if ok and (isinstance(r, bool) or (isinstance(r, S) and r.is_bool) or isinstance(r, np.bool_)):
                return And(v, r) if isand else Or(v, r)
        b = self.branch(v)
        if isand:
            return self.boolop(isand, vals[1:], fr) if b else v
        return v if b else self.boolop(isand, vals[1:], fr)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, S):
                return Not(truth(v))
            return not self.branch(v)
        if isinstance(e.op, ast.USub):
            return -v if not isinstance(v, bool) else -int(v)
        if isinstance(e.op, ast.UAdd):
            return v
        try:
            return ~v
        except TypeError as ex:
            raise Raised(ex)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("loop temporary used after the loop")
        if hasattr(a, '_pyvc_binop'):
            return a._pyvc_binop(self, op, b, False)
        if hasattr(b, '_pyvc_binop'):
            return b._pyvc_binop(self, op, a, True)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (list, SList)) and (ok_scalar(y)):
                    return list_repeat(x, y)
                if isinstance(x, (bytes, str, tuple)) and isinstance(y, S):
                    if isinstance(x, bytes) and len(x) == 1:
                        return SBytes(smax(y, 0), lambda i: x[0])
                    raise Unsupported("sequence repetition")
        if isinstance(op, ast.Add):
            if isinstance(a, (list, SList)) and isinstance(b, (list, SList)):
                if isinstance(a, list) and isinstance(b, list):
                    return a + b
                r = a.copy() if isinstance(a, SList) else SList([('items', list(a))])
                if isinstance(b, SList):
                    for s in b.segs:
                        r.segs.append(s)
                else:
                    r.segs.append(('items', list(b)))
                return r
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, SBytes) or isinstance(b, SBytes):
                return bytes_concat(a, b)
        if isinstance(op, ast.Div) and (isS(a) or isS(b)) and ok_scalar(a) and ok_scalar(b):
            return self.div(a, b)
        if isinstance(a, np.ndarray) and isinstance(b, SYM):
            a = SArr.from_np(a)
        if isinstance(b, np.ndarray) and isinstance(a, SYM):
            b = SArr.from_np(b)
        if isinstance(op, ast.MatMult):
            from .models import m_matmul
            return m_matmul(self, [a, b], {})
        if isinstance(op, ast.Mod) and isinstance(a, str) and is_sym(b):
            return '<sym>'
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and isS(b) and ok_scalar(a):
            if not ctx().implied(b != 0):
                if self.branch(b == 0):
                    raise Raised(ZeroDivisionError())
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and ok_scalar(a) and ok_scalar(b) and (isS(a) or isS(b)):
            return terms.bitop({ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor'}[type(op)], a, b)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Pow, ast.LShift)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (SArr, SFilt)) and isinstance(x.kind, terms.Narrow) and not (
                        isinstance(y, (SArr, SFilt)) and y.kind in ('i', 'f') and not isinstance(y.kind, terms.Narrow)
                        or isinstance(y, float) or isS(y) and y.is_real):
                    raise Unsupported("arithmetic on narrow integers may wrap around")
        try:
            r = BINOPS[type(op)](a, b)
        except (Unsupported, ForkNeeded, PathEnd, Raised):
            raise
        except z3.Z3Exception as ex:
            raise Unsupported(str(ex))
        except Exception as ex:
            if any(is_ghost(x) or isinstance(x, SYM) and not isinstance(x, S) for x in (a, b)):
                raise Unsupported(f"operator on {type(a).__name__} and {type(b).__name__}")
            raise Raised(ex)
        return r

    def div(self, a, b):
        """python float division with its ZeroDivisionError"""
        if isS(b):
            if not ctx().implied(to_arith_ne0(b)):
                if self.branch(b == 0):
                    raise Raised(ZeroDivisionError())
        elif b == 0:
            raise Raised(ZeroDivisionError())
        return a / b

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        if len(e.ops) == 1:
            return self.compare(e.ops[0], left, self.ev(e.comparators[0], fr))
        res = True
        for op, cn in zip(e.ops, e.comparators):
            right = self.ev(cn, fr)
            r = self.compare(op, left, right)
            if isinstance(r, (SArr, SFilt)):
                raise Unsupported("chained array comparison")
            if not isinstance(r, S) and not self.branch(r):
                return False if res is True else And(res, False)
            res = And(res, r)
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("loop temporary used after the loop")
        if isinstance(op, ast.Is):
            return is_same(a, b)
        if isinstance(op, ast.IsNot):
            return Not(is_same(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return Not(truth_nb(self.contains(b, a)))
        if isinstance(a, np.ndarray) and isinstance(b, SYM):
            a = SArr.from_np(a)
        if isinstance(b, np.ndarray) and isinstance(a, SYM):
            b = SArr.from_np(b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, ast.Eq):
                return r
            if isinstance(r, (SArr, SFilt)):
                return elementwise(Not, r, kind='b')
            if isinstance(r, np.ndarray):
                return ~r
            return Not(truth_nb(r))
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        if isinstance(a, (tuple, list)) and is_sym(a) or isinstance(b, (tuple, list)) and is_sym(b):
            raise Unsupported("ordering of symbolic tuples")
        if hasattr(a, '_pyvc_cmp'):
            return a._pyvc_cmp(self, op, b)
        try:
            return f(a, b)
        except (Unsupported, ForkNeeded, PathEnd, Raised):
            raise
        except Exception as ex:
            if any(is_ghost(x) or isinstance(x, SYM) and not isinstance(x, S) for x in (a, b)):
                raise Unsupported(f"ordering of {type(a).__name__} and {type(b).__name__}")
            raise Raised(ex)

    def equal(self, a, b):
        if a is b and not isinstance(a, (SArr, SFilt, np.ndarray, S, float)):
            return True
        if isinstance(a, (SArr, SFilt)) or isinstance(b, (SArr, SFilt)):
            x, y = (a, b) if isinstance(a, (SArr, SFilt)) else (b, a)
            if y is None or isinstance(y, (str, bytes, SBytes, dict)):
                return False if not isinstance(x, SArr) or x.kind != 'O' else x == y
            return x == y
        if isinstance(a, (S, SChoice)) or isinstance(b, (S, SChoice)):
            if ok_scalar(a) and ok_scalar(b):
                return terms.cmpop(lambda x, y: x == y, a, b)
            return veq(a, b)
        if isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes)):
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a == b
            return bytes_eq(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (is_sym(a) or is_sym(b)):
            if type(a) != type(b) or len(a) != len(b):
                return False
            return And(*[truth_nb(self.equal(x, y)) for x, y in zip(a, b)])
        if isinstance(a, SDict) and isinstance(b, dict) and len(b) == 0:
            return dict_is_empty(a)
        if isinstance(b, SDict) and isinstance(a, dict) and len(a) == 0:
            return dict_is_empty(b)
        if isinstance(a, SStruct) and isinstance(b, dict) and len(b) == 0:
            return mk(term(a.n) == 0)
        if hasattr(a, '_pyvc_eq'):
            return a._pyvc_eq(self, b)
        if hasattr(b, '_pyvc_eq'):
            return b._pyvc_eq(self, a)
        if isinstance(a, SYM) or isinstance(b, SYM):
            if type(a).__name__ != type(b).__name__ and not (isinstance(a, (SList, list)) and isinstance(b, (SList, list))):
                return False
            raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")
        if repo_class(type(a)) and repo_func(getattr(type(a), '__eq__', None)):
            return self.call(Bound(type(a).__eq__, a), [b])
        if repo_class(type(b)) and repo_func(getattr(type(b), '__eq__', None)):
            return self.call(Bound(type(b).__eq__, b), [a])
        if isinstance(a, dict) and isinstance(b, dict) and (is_sym(a) or is_sym(b)):
            if set(a) != set(b):
                return False
            return And(*[truth_nb(self.equal(a[k], b[k])) for k in a])
        if is_ghost(a) and b is not None or is_ghost(b) and a is not None:
            raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")
        try:
            return a == b
        except Exception as ex:
            raise Raised(ex)

    def contains(self, c, x):
        if isinstance(c, SDict):
            return c.has(x)
        if isinstance(c, DictView):
            if isinstance(c.d, SDict) and c.kind == 'keys':
                return c.d.has(x)
            if isinstance(c.d, SStruct):
                raise Unsupported("membership in symbolic structure")
            raise Unsupported("membership")
        if isinstance(c, SArr):
            from .models import arr_any
            return arr_any(elementwise(lambda a: truth_nb(veq(a, x)), c, kind='b'))
        if hasattr(c, '_pyvc_contains'):
            return c._pyvc_contains(self, x)
        if isinstance(c, SList):
            items = self.iter_items(c)
            if items is None:
                raise Unsupported("membership in a symbolic list")
            c = items
        if isinstance(c, range) and isinstance(x, S):
            if x.is_real:
                raise Unsupported("float in range")
            r = And(x >= min(c.start, c.stop), x < c.stop) if c.step == 1 else None
            if r is None:
                raise Unsupported("membership in a strided range")
            return r
        if isinstance(c, SymIter) and c.kind == 'range':
            lo, hi = c.src
            return And(lo <= x, x < hi)
        if isinstance(c, (dict, type({}.keys()), list, tuple, set, frozenset, type({}.values()))):
            if is_sym(x) or is_sym(list(c)):
                return Or(*[truth_nb(self.equal(x, k)) for k in c])
            try:
                return x in c
            except Exception as ex:
                raise Raised(ex)
        if isinstance(c, np.ndarray) and not is_sym(x):
            return bool((c == x).any())
        if isinstance(c, np.ndarray):
            return Or(*[truth_nb(self.equal(x, k)) for k in c.flatten().tolist()])
        if repo_class(type(c)) and hasattr(type(c), '__contains__'):
            return self.call(Bound(type(c).__contains__, c), [x])
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if is_sym(c) or is_sym(x):
            raise Unsupported(f"membership in {type(c).__name__}")
        try:
            return x in c
        except Exception as ex:
            raise Raised(ex)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return Super(fr.cls, fr.obj)
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.ev(k.value, fr)
                if not isinstance(m, dict):
                    raise Unsupported("** argument")
                kwargs.update(m)
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    # comprehensions
    def comp(self, gens, elt, fr, out):
        sub = Frame(self, fr.glob, fr.cls, fr.name, parent=fr)
        sub.obj = fr.obj
        self.comp_rec(gens, 0, elt, sub, out)

    def comp_rec(self, gens, i, elt, sub, out):
        if i == len(gens):
            out(elt(sub))
            return
        g = gens[i]
        it = self.ev(g.iter, sub)
        items = self.iter_items(it)
        if items is None:
            raise SymComp(it)
        for v in items:
            self.assign(g.target, v, sub)
            ok = True
            for c in g.ifs:
                if not self.branch(self.ev(c, sub)):
                    ok = False
                    break
            if ok:
                self.comp_rec(gens, i + 1, elt, sub, out)

    def e_ListComp(self, e, fr):
        x = self.image_comp(e, fr, 'list')
        if x is not None:
            return x
        res = []
        try:
            self.comp(e.generators, lambda s: self.ev(e.elt, s), fr, res.append)
            return res
        except SymComp as sc:
            if len(e.generators) != 1:
                raise Unsupported("nested symbolic comprehension")
            return self.sym_comp(e, sc.it, fr)

    def sym_comp(self, e, it, fr):
        si = self.sym_iter(it)
        g = e.generators[0]
        base = Frame(self, fr.glob, fr.cls, fr.name, parent=snapshot(fr))
        base.obj = fr.obj

        def at(i, what):
            sub = Frame(self, fr.glob, fr.cls, fr.name, parent=base.parent)
            sub.obj = fr.obj
            self.assign(g.target, si.el(i), sub)
            return what(sub)

        n = si.n
        c = ctx()

        def dom(i):
            return And(i >= 0, i < n)

        def under(i, cond, f, what):
            cond = bterm(cond)
            if z3.is_false(cond):
                raise Unsupported("comprehension element out of its domain")
            ok, r = self.speculate(cond, lambda: at(i, f))
            if not ok:
                raise Unsupported(f"comprehension {what} needs case distinctions")
            return r

        def guard(i):
            r, d = True, dom(i)
            for q in g.ifs:
                r = And(r, under(i, And(d, r), lambda sub: truth_nb(self.ev(q, sub)), 'guard'))
            return r

        def elem(i):
            return under(i, And(dom(i), guard(i) if g.ifs else True), lambda sub: self.ev(e.elt, sub), 'element')
        # evaluate once at an arbitrary position so that exceptions and unsupported constructs show
        k = c.fresh('comp', 'int')
        if c.feasible(dom(k)):
            gk = guard(k)
            if c.feasible(And(dom(k), gk)):
                elem(k)
        if g.ifs:
            return SList([('comp', n, guard, elem)])
        return SList([('fn', n, elem)])

    def pure(self, f):
        """evaluate without forking"""
        c = ctx()
        c.spec += 1
        try:
            return f()
        except (ForkNeeded, ReturnSig):
            raise Unsupported("case distinction inside a symbolic comprehension")
        finally:
            c.spec -= 1

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def image_comp(self, e, fr, how):
        """comprehension over a ghost collection that knows the image of a function of its elements"""
        g = e.generators[0]
        if len(e.generators) != 1 or g.ifs:
            return None
        if not isinstance(g.iter, (ast.Name, ast.Attribute)):
            return None
        o = self.ev(g.iter, fr)
        if not hasattr(type(o), '_pyvc_image'):
            return None

        def f(v):
            sub = Frame(self, fr.glob, fr.cls, fr.name, parent=fr)
            sub.obj = fr.obj
            self.assign(g.target, v, sub)
            return self.ev(e.elt, sub)
        return o._pyvc_image(self, f, how)

    def e_SetComp(self, e, fr):
        x = self.image_comp(e, fr, 'set')
        if x is not None:
            return x
        res = []
        try:
            self.comp(e.generators, lambda s: self.ev(e.elt, s), fr, res.append)
        except SymComp:
            raise Unsupported("symbolic set comprehension")
        if is_sym(res):
            raise Unsupported("symbolic set")
        return set(res)

    def e_DictComp(self, e, fr):
        res = {}
        def out(kv):
            if is_sym(kv[0]):
                raise Unsupported("symbolic key")
            res[kv[0]] = kv[1]
        try:
            self.comp(e.generators, lambda s: (self.ev(e.key, s), self.ev(e.value, s)), fr, out)
        except SymComp:
            raise Unsupported("symbolic dict comprehension")
        return res

    def e_Await(self, e, fr):
        raise Unsupported("await")


class SymComp(Exception):
    def __init__(self, it):
        self.it = it


def snapshot(fr):
    f = Frame(None, fr.glob, fr.cls, fr.name, parent=fr.parent)
    f.locals = dict(fr.locals)
    f.obj = fr.obj
    return f


def own_nodes(node):
    """AST nodes of a function excluding nested functions"""
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def simple_block(stmts):
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                for q in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if not isinstance(q, ast.Name):
                        return False
        elif isinstance(s, ast.If):
            if not simple_block(s.body) or not simple_block(s.orelse):
                return False
        elif isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            pass
        else:
            return False
    return True


def is_same(a, b):
    if a is b:
        return True
    if isinstance(a, SChoice) or isinstance(b, SChoice):
        if isinstance(a, (S, SArr)) or isinstance(b, (S, SArr)):
            return False
        return veq(a, b)
    if a is None or b is None:
        o = b if a is None else a
        if hasattr(o, '_pyvc_isnone'):
            return o._pyvc_isnone()
        return False
    if isinstance(a, S) or isinstance(b, S):
        x, y = (a, b) if isinstance(a, S) else (b, a)
        if isinstance(y, bool) and x.is_bool:
            return veq(x, y)
        if isinstance(y, bool):
            return False
        raise Unsupported("identity of numbers")
    return False


def truth_nb(x):
    """truth value as formula for bool-like values"""
    if isinstance(x, S):
        return truth(x)
    if isinstance(x, (bool, np.bool_, int, float, np.generic)):
        return bool(x)
    if x is None:
        return False
    if isinstance(x, SArr):
        raise Unsupported("truth value of an array")
    if isinstance(x, (str, bytes, tuple, list, dict)):
        return len(x) > 0
    raise Unsupported(f"truth of {type(x).__name__}")


def to_arith_ne0(b):
    return b != 0


def kindof(v):
    from .values import kind_of
    if isinstance(v, (SArr, SFilt)):
        return v.kind
    if isinstance(v, np.ndarray):
        return dtype_kind(v.dtype)
    if ok_scalar(v):
        return kind_of([v])
    return 'O'


def bool_arith(f, a, b):
    """numpy in-place arithmetic with boolean operands counts them as 0/1"""
    if isinstance(b, bool):
        b = int(b)
    if isinstance(b, S) and b.is_bool:
        b = cast(b, 'i')
    return f(a, b)


def list_repeat(x, y):
    y = norm_int(y)
    if not isS(y) and isinstance(x, list):
        if isinstance(y, (float,)):
            raise Raised(TypeError("can't multiply sequence by non-int of type 'float'"))
        return x * int(y)
    if isinstance(y, S) and y.is_real:
        raise Raised(TypeError("can't multiply sequence by non-int of type 'float'"))
    if isinstance(x, list):
        m = len(x)
        if m == 0:
            return []
        if m == 1:
            v = x[0]
            return SList([('fn', smax(y, 0), lambda i: v)])
        v = list(x)
        from .values import SArr as _A
        def el(i):
            r = v[-1]
            for j in range(m - 2, -1, -1):
                r = ite(i % m == j, v[j], r)
            return r
        return SList([('fn', smax(y, 0) * m, el)])
    # SList repeated: constant element function
    if isinstance(x, SList) and len(x.segs) == 1 and x.segs[0][0] == 'fn':
        n, f = x.segs[0][1], x.segs[0][2]
        if not isS(y):
            if y <= 0:
                return []
            return SList([('fn', n * y, lambda i: f(i % n) if isS(n) and not _const(f) else f(i))])
    raise Unsupported("list repetition")


def _const(f):
    a, b = f(0), f(1)
    return a is b


def bytes_concat(a, b):
    def parts(x):
        if isinstance(x, bytes):
            return len(x), (lambda i: SArr.from_np(np.frombuffer(x, dtype=np.uint8)).elem(i) if len(x) else 0)
        if isinstance(x, SBytes):
            return x.length, x.elem
        raise Raised(TypeError("can't concat"))
    la, fa = parts(a)
    lb, fb = parts(b)
    return SBytes(la + lb, lambda i: ite(i < la, lambda: fa(i), lambda: fb(norm_int(i - la))))


def bytes_eq(a, b):
    la = len(a) if isinstance(a, bytes) else a.length
    lb = len(b) if isinstance(b, bytes) else b.length
    n = la if not isS(la) else lb if not isS(lb) else None
    ga = (lambda i: a[i]) if isinstance(a, bytes) else a.elem
    gb = (lambda i: b[i]) if isinstance(b, bytes) else b.elem
    if n is None or n > 300:
        i = ctx().fresh('beq', 'int')
        raise Unsupported("equality of byte strings of symbolic length")
    return And(mk(term(la) == term(lb)) if isS(la) or isS(lb) else la == lb, *[veq(ga(i), gb(i)) for i in range(n)])


def dict_is_empty(d):
    if d.empty is True:
        return True
    if d.empty is False:
        return False
    if callable(getattr(d, 'is_empty', None)):
        return d.is_empty()
    raise Unsupported("emptiness of a symbolic dict")


def o_setitem_slist(interp, o, k, v):
    n = o.length()
    if isinstance(k, slice):
        raise Unsupported("slice assignment to a symbolic list")
    k = check_index(k, n, 'list assignment index out of range')
    touch(o)
    src = o.copy()
    o.segs = [('fn', n, lambda i: ite(veq(i, k), lambda: v, lambda: src.elem(i)))]


def concretize_small(x):
    if not isS(x):
        return x
    v = ctx().concrete_int(x.t)
    if v is None:
        raise Unsupported("symbolic slice of a concrete sequence")
    return v


class SymStr:
    """string built from symbolic parts; equal parts make equal strings"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, parts):
        self.parts = parts

    @classmethod
    def make(cls, parts):
        return cls(parts)

    def _pyvc_eq(self, interp, o):
        if isinstance(o, SymStr) and len(o.parts) == len(self.parts):
            r = True
            for a, b in zip(self.parts, o.parts):
                e = interp.equal(a, b)
                if e is False and isinstance(a, str) and isinstance(b, str):
                    raise Unsupported("equality of composed strings")
                r = And(r, truth_nb(e))
            return r
        raise Unsupported("equality of composed strings")


class HKey:
    """hashable wrapper of a symbolic dictionary key (identity hash)"""
    @staticmethod
    def wrap(k):
        if isinstance(k, tuple):
            return k
        return k
