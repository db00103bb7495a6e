"""Loop contracts: a loop is cut at its invariant.

For every loop with a contract the engine emits (a) the invariant holds on entry, (b) one arbitrary iteration from
an arbitrary state satisfying the invariant re-establishes it, and continues after the loop from (c) an arbitrary
state satisfying the invariant with the loop finished (break / return / raise inside the arbitrary iteration continue
as ordinary paths).  Names the body assigns and the contract does not describe are undefined (Poison) at the start of
an iteration and after the loop; heap objects that existed before the loop and are touched by the body must be
described by the contract, otherwise the loop is outside the verifier's reach.
"""
import ast
import types
from .terms import S, And, Implies, Unsupported, PathEnd, Raised, isS, mk, term, ctx
from .values import SArr, SList, SDict, SFilt, Cell, SBytes
from .interp import Poison, BreakSig, ContinueSig, ReturnSig, assigned_names, IFunc, Bound, SymIter, Frame


class NoRole(Exception):
    """the loop does not have the shape the contract describes"""


def reachable(roots, limit=200000):
    """ids of heap objects reachable from the roots (through containers, objects and frames)"""
    seen = {}
    stack = list(roots)
    while stack:
        o = stack.pop()
        if o is None or isinstance(o, (int, float, str, bytes, bool, S, type, types.ModuleType, types.FunctionType,
                                       types.BuiltinFunctionType)):
            continue
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if len(seen) > limit:
            raise Unsupported("heap too large")
        if isinstance(o, (list, tuple, set, frozenset)):
            stack.extend(o)
        elif isinstance(o, dict):
            stack.extend(o.keys())
            stack.extend(o.values())
        elif isinstance(o, SArr):
            stack.append(o.cell)
        elif isinstance(o, SList):
            for s in o.segs:
                if s[0] == 'items':
                    stack.extend(s[1])
                for x in s:
                    if callable(x) and getattr(x, '__closure__', None):
                        for cell in x.__closure__:
                            try:
                                v = cell.cell_contents
                            except ValueError:
                                continue
                            if not isinstance(v, types.FunctionType):
                                stack.append(v)
        elif isinstance(o, Frame):
            stack.extend(o.locals.values())
            stack.append(o.parent)
            stack.append(o.obj)
        elif isinstance(o, IFunc):
            stack.append(o.env)
        elif isinstance(o, (Bound, types.MethodType)):
            stack.append(getattr(o, 'obj', None) or getattr(o, '__self__', None))
        elif isinstance(o, (Cell, SBytes, SFilt, SDict)):
            pass
        elif hasattr(o, '__dict__') and not type(o).__module__.startswith(('z3', 'numpy')):
            stack.extend(vars(o).values())
    return seen


class View:
    """what a contract sees of the loop"""
    def __init__(self, it, s, fr, si, names):
        self.it, self.stmt, self.fr, self.si, self.names = it, s, fr, si, names
        self.covered = {}
        self.old = dict(fr.locals)
        self.data = {}

    def get(self, n):
        return self.fr.locals[n]

    def set(self, n, v):
        self.fr.locals[n] = v

    def cover(self, obj):
        """declare a heap object as described by the invariant"""
        self.covered[id(obj)] = obj
        if isinstance(obj, SArr):
            self.covered[id(obj.cell)] = obj.cell

    def cover_attr(self, obj, name):
        self.covered[(id(obj), name)] = obj


def veq_int(a, b):
    return mk(term(a) == term(b))


class LoopContract:
    """override: match, enter, havoc, check; n() for the number of iterations"""
    name = 'loop'
    peel = False         # continue after the loop from the last iteration itself instead of from the invariant
    concrete = False     # also cut loops over containers of concrete length (one step path per element)

    def match(self, it, s, fr, si):
        return True

    def enter(self, c, L):
        """find the roles of the variables (raise NoRole); record covered heap objects"""

    def abstract_items(self, c, L):
        """a symbolic generalisation (SymIter) of the concrete items, or None for one step path per item"""
        return None

    def havoc(self, c, L, k):
        """put an arbitrary state satisfying the invariant before iteration k in place"""

    def check(self, c, L, k, what):
        """prove that the current state satisfies the invariant before iteration k"""

    def done(self, c, L):
        """after the loop (normal exit)"""

    # -- engine -----------------------------------------------------------------------------------
    def applies(self, it, s, fr, si):
        try:
            return bool(self.match(it, s, fr, si))
        except NoRole:
            return False

    def cut(self, it, s, fr, si, items=None):
        c = ctx()
        if c.spec:
            from .terms import ForkNeeded
            raise ForkNeeded()
        isfor = isinstance(s, ast.For)
        assigned = assigned_names(s.body) | (assigned_names([s.target]) if isfor else set())
        if not isfor:
            assigned |= assigned_names([s.test])
        if assigned & fr.nonlocals:
            raise Unsupported("loop assigns a nonlocal name")
        L = View(it, s, fr, si, {n for n in assigned if n in fr.locals})
        L.items = items
        try:
            self.enter(c, L)
        except NoRole as e:
            raise Unsupported(f"loop contract '{self.name}' does not fit: {e}")
        if items is not None:
            ab = self.abstract_items(c, L)
            if ab is not None:
                items, si = None, ab
                L.si = ab
        if isfor:
            N = len(items) if items is not None else si.n
        else:
            N = None
        pre = reachable([f for f in it.frames] + [fr] + ([v for v in fr.locals.values()]))
        self.checked(c, L, 0, 'on entry')
        if items is not None:
            alt = c.choose(N + 1)
            step = alt < N
        else:
            alt = c.choose(2)
            step = alt == 0
        peel = self.peel and isfor and items is None
        if not step and peel:
            c.assume(N <= 0)
            if not c.feasible():
                raise PathEnd()
            if s.orelse:
                it.block(s.orelse, fr)
            return
        if not step:
            for n in assigned:
                fr.locals[n] = Poison(n)
            k = N
            if N is None:
                k = c.fresh('iter', 'int')
                c.assume(k >= 0)
            self.havoc(c, L, k)
            if not isfor:
                t = it.ev(s.test, fr)
                if it.branch(t):
                    raise PathEnd()
            self.done(c, L)
            if s.orelse:
                it.block(s.orelse, fr)
            return
        # one arbitrary iteration
        if items is not None:
            k = alt
        else:
            k = c.fresh('iter', 'int')
            c.assume(k >= 0)
            if isfor:
                c.assume(k < N)
        for n in assigned:
            fr.locals[n] = Poison(n)
        self.havoc(c, L, k)
        if not isfor:
            t = it.ev(s.test, fr)
            if not it.branch(t):
                raise PathEnd()
        oldlog = c.heaplog
        c.heaplog = {}
        ok = False
        try:
            if isfor:
                it.assign(s.target, items[k] if items is not None else si.el(k), fr)
            self.body_start(c, L, k)
            try:
                it.block(s.body, fr)
                ok = True
            except ContinueSig:
                ok = True
            except BreakSig:
                ok = False
        finally:
            log = c.heaplog
            c.heaplog = oldlog
            if oldlog is not None:
                oldlog.update(log)
            bad = None
            for key, o in log.items():
                if key in L.covered:
                    continue
                oid = key[0] if isinstance(key, tuple) else key
                if oid in pre:
                    bad = o
            if bad is not None:
                raise Unsupported(f"loop body modifies a {type(bad[0] if isinstance(bad, tuple) else bad).__name__} "
                                  f"the contract does not describe")
        if not ok:
            self.on_break(c, L, k)
            return
        if peel and c.choose(2) == 1:
            c.assume(veq_int(k, N - 1))
            self.done(c, L)
            if s.orelse:
                it.block(s.orelse, fr)
            return
        self.checked(c, L, k + 1, 'is preserved')
        raise PathEnd()

    def checked(self, c, L, k, what):
        c.in_inv += 1
        try:
            self.check(c, L, k, what)
        finally:
            c.in_inv -= 1

    def body_start(self, c, L, k):
        pass

    def on_break(self, c, L, k):
        pass


class Scan(LoopContract):
    """contract given by closures (for the simple cases)"""
    def __init__(self, name, match=None, enter=None, havoc=None, check=None, concrete=False, done=None):
        self.name = name
        self.concrete = concrete
        if match:
            self.match = match
        if enter:
            self.enter = enter
        if havoc:
            self.havoc = havoc
        if check:
            self.check = check
        if done:
            self.done = done


def in_func(*names):
    """match loops of functions with these (qualified) names"""
    def f(it, s, fr, si):
        return fr.name in names or fr.name.split('.')[-1] in names
    return f
