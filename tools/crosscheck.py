"""Cross-check of the verifier's semantics against the real interpreter and libraries: every function of tools/snippets.py
is run natively and symbolically on the same inputs (the symbolic inputs are assumed equal to the concrete ones, once with
fixed and once with symbolic lengths). Required: the real result is permitted by the model (its negation is not provable)
and the path condition is not contradictory. Reported: how many results the model determines exactly.
usage: crosscheck.py [repetitions] [-v]"""
import inspect
import os
import random
import sys
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vf  # noqa
import numpy as np
import z3
import snippets
from pyvc.ctx import Run
from pyvc.terms import Unsupported, ForkNeeded, Raised, PathEnd, mk, term, isS, And, Or, Not, bterm, S
from pyvc.interp import Interp
from pyvc.values import SArr, SBytes, SList, SFilt
from pyvc import models, interp
_in = interp.in_repo
interp.in_repo = lambda p: p == snippets.__file__ or _in(p)

warnings.simplefilter('ignore')
np.seterr(all='ignore')


def gen(rng, name):
    def dy(): return rng.randrange(-12, 13) / 4
    n = rng.choice([3, 3, 4, 5])
    if name in ('A', 'B'):
        return 'vec', lambda n: np.array([dy() for _ in range(n)])
    if name == 'A3':
        return 'fix', np.array([dy() for _ in range(3)])
    if name == 'I':
        return 'vec', lambda n: np.array([rng.randrange(0, 9) for _ in range(n)])
    if name == 'Q':
        return 'vec', lambda n: np.array([rng.randrange(2) for _ in range(n)])
    if name == 'Q8':
        return 'fix', np.array([rng.randrange(2) for _ in range(16)])
    if name == 'M':
        return 'fix', np.array([[dy(), dy()] for _ in range(3)])
    if name in ('n', 'k'):
        return 'int', rng.randrange(1, 4)
    if name in ('x', 'y'):
        return 'real', dy()
    if name == 'D':
        return 'bytes', bytes(rng.randrange(256) for _ in range(rng.choice([3, 4])))
    if name == 'L':
        return 'list', [rng.randrange(0, 8) for _ in range(n)]
    return None


def lift(c, kind, name, v, symlen):
    if kind == 'int':
        s = c.fresh(name, 'int')
        c.assume(s == v)
        return s
    if kind == 'real':
        s = c.fresh(name, 'real')
        c.assume(s == v)
        return s
    if kind in ('vec', 'fix'):
        shape = list(v.shape)
        if symlen and kind == 'vec':
            s = c.fresh('len', 'int')
            c.assume(s == shape[0])
            shape[0] = s
        a = SArr.fresh(name, shape, 'f' if v.dtype == float else 'i')
        for idx in np.ndindex(*v.shape):
            c.assume(a.elem(*idx) == v[idx].item())
        return a
    if kind == 'bytes':
        b = SBytes.fresh(name, None if symlen else len(v))
        if symlen:
            c.assume(b.length == len(v))
        for i, x in enumerate(v):
            c.assume(b.fn(i) == x)
        return b
    if kind == 'list':
        out = []
        for i, x in enumerate(v):
            s = c.fresh(name, 'int')
            c.assume(s == x)
            out.append(s)
        return out


class Odd(Exception):
    pass


def num(a, b):
    if isinstance(b, (float, np.floating)) and b != b:
        return True          # NaN-ness is compared by the predicates (isnan, comparisons)
    if isinstance(b, (bool, np.bool_)):
        b = bool(b)
        if isS(a) and not a.is_bool:
            return a == int(b)
        return (a if b else Not(a)) if isS(a) else bool(a) == b
    if isinstance(b, (float, np.floating)):
        b = float(b)
        return And(a - b <= 1e-9, b - a <= 1e-9) if isS(a) else abs(a - b) <= 1e-9
    if isS(a) and a.is_bool:
        return a if b else Not(a)
    return a == int(b)


def same(a, b):
    """conditions for the symbolic value a to be the concrete value b"""
    if isinstance(b, np.ndarray):
        if isinstance(a, SFilt):
            from pyvc.terms import ctx
            c = ctx()
            n = a.n if not isS(a.n) else c.concrete_int(a.n.t)
            if n is None or b.ndim != 1:
                raise Odd('filtered')
            hit = []
            for i in range(n):
                q = a.cond(i)
                if c.implied(q):
                    hit.append(i)
                elif not c.implied(Not(q)):
                    raise Odd('filtered')
            if len(hit) != len(b):
                return [False]
            return [a.length() == len(b)] + [num(a.val(i), y) for i, y in zip(hit, b)]
        if isinstance(a, np.ndarray):
            a = SArr.from_np(a)
        if not isinstance(a, SArr):
            raise Odd(f'{type(a).__name__} for an array')
        if a.ndim != b.ndim:
            return [False]
        out = [x == y for x, y in zip(a.shape, b.shape)]
        return out + [num(a.elem(*i), b[i]) for i in np.ndindex(*b.shape)]
    if isinstance(b, (tuple, list)):
        from pyvc.models import SymTuple, tup_parts
        if isinstance(a, SymTuple):
            raise Odd('symbolic tuple')
        if isinstance(a, (SList, SArr)):
            n = a.length() if callable(a.length) else a.length
            return [n == len(b)] + [z for i, y in enumerate(b) for z in same(a.elem(i), y)]
        if not isinstance(a, (tuple, list)):
            raise Odd(type(a).__name__)
        if len(a) != len(b):
            return [False]
        return [z for x, y in zip(a, b) for z in same(x, y)]
    if isinstance(b, bytes):
        if isinstance(a, bytes):
            return [a == b]
        if not isinstance(a, SBytes):
            raise Odd(type(a).__name__)
        return [a.length == len(b)] + [a.fn(i) == y for i, y in enumerate(b)]
    if isinstance(b, (int, float, np.generic)):
        if isS(a) or isinstance(a, (int, float, np.generic)):
            return [num(a, b)]
        raise Odd(type(a).__name__)
    if isinstance(b, str) and isinstance(a, str):
        return [a == b]
    raise Odd(f'{type(a).__name__} for {type(b).__name__}')


def one(f, rng, symlen):
    names = [p.name for p in inspect.signature(f).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD]
    N = rng.choice([3, 4, 5])
    vals = []
    for nm in names:
        g = gen(rng, nm)
        k, v = g
        vals.append((k, nm, v(N) if callable(v) else v))
    import copy
    try:
        real = ('ret', f(*copy.deepcopy([v for _, _, v in vals])))
    except Exception as e:
        real = ('exc', e)
    run = Run(f.__name__, timeout_ms=1500, branch_ms=700, budget_s=40, max_paths=200)
    st = dict(paths=0, bad=None, exact=True, note='')

    def body(c):
        args = [lift(c, k, nm, v, symlen) for k, nm, v in vals]
        it = Interp(models.M, None, None)
        it.trace, it.assumed = set(), set()
        try:
            got = ('ret', it.call(f, args, {}))
        except Raised as r:
            got = ('exc', r.exc)
        if not c.feasible(True):
            return
        st['paths'] += 1
        if got[0] != real[0] or got[0] == 'exc' and type(got[1]).__name__ != type(real[1]).__name__:
            # a path with another outcome must not be the only one; counted as not exact
            st['exact'] = False
            st['paths'] -= 1
            return
        if got[0] == 'exc':
            return
        conds = same(got[1], real[1])
        t = z3.And([bterm(x) for x in conds]) if conds else z3.BoolVal(True)
        s = z3.Solver()
        s.set('timeout', 2000)
        for p in c.pc:
            s.add(p)
        for a in list(c.axioms.values()) if isinstance(c.axioms, dict) else []:
            if z3.is_expr(a):
                s.add(a)
        if s.check(t) == z3.unsat:
            st['bad'] = f'real result {real[1]!r} excluded; args {[v for _, _, v in vals]}'
        if s.check(z3.Not(t)) != z3.unsat:
            st['exact'] = False
    try:
        run.explore(body)
    except (Unsupported, ForkNeeded, Odd) as e:
        st['note'] = f'outside: {e}'
        return st
    if st['paths'] == 0:
        st['bad'] = f'no feasible path has the real outcome {real[0]} {real[1]!r}; args {[v for _, _, v in vals]}'
    return st


def main():
    reps = int(sys.argv[1]) if len(sys.argv) > 1 and sys.argv[1].isdigit() else 2
    verbose = '-v' in sys.argv
    bad = exact = ok = out = 0
    outs = []
    for name, f in sorted(vars(snippets).items()):
        if not inspect.isfunction(f) or f.__module__ != 'snippets':
            continue
        for symlen in (False, True):
            for r in range(reps):
                rng = random.Random(f'{name}/{r}')
                try:
                    st = one(f, rng, symlen)
                except Exception as e:
                    import traceback
                    if verbose:
                        traceback.print_exc()
                    st = dict(bad=None, exact=False, note=f'outside: {type(e).__name__} {e}')
                if st['bad']:
                    bad += 1
                    print('MISMATCH', name, 'symbolic length' if symlen else '', st['bad'])
                elif st['note']:
                    out += 1
                    outs.append((name, symlen, st['note']))
                else:
                    ok += 1
                    exact += st['exact']
                    if verbose and not st['exact']:
                        print('not exact', name, symlen)
                if st['note']:
                    break
    if verbose:
        for o in outs:
            print(*o)
    print(f'crosscheck: {ok} agreements ({exact} exact), {out} outside the verifier\'s reach, {bad} mismatches')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
