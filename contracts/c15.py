"""C15 empirical probabilities"""
from fractions import Fraction
from .common import *
from utils.information_theory import prob, prob_with_alphabet

from pyvc.loops import LoopContract, NoRole
from pyvc.terms import dtype_kind
from pyvc.sums import mk_sum
from utils.custom_exceptions import UnsupportedDtype

TRUSTED = ['np.unique gives the distinct values in increasing order and how often each occurs; the counts of a sample add up to its length']


class Alphabet:
    """np.unique(data).tolist(): the distinct values of the whole sample"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, W):
        self.W = W

    def _pyvc_isinstance(self, t):
        return t in (list, object)

    def _pyvc_len(self, it):
        return self.W.m

    def _pyvc_getitem(self, it, k):
        if isinstance(k, slice):
            raise Unsupported('part of the alphabet')
        if not isS(k) and k < 0:
            k = self.W.m + k
        return self.W.A(k)

    def _pyvc_symiter(self, it):
        return SymIter(self.W.m, self.W.A, 'list')

    def _pyvc_contains(self, it, v):
        raise Unsupported('membership in the alphabet')

    def _pyvc_getattr(self, it, name):
        if name == 'index':
            return GCall(self.index)
        raise Unsupported('alphabet attribute ' + name)

    def index(self, it, v):
        p = self.W.pos(v)
        ctx().prove('alphabet.index: the value is in the alphabet', And(p >= 0, p < self.W.m, veq(self.W.A(p), v)), kind='exc')
        return p


class Sample:
    """an arbitrary sample; A = its distinct values in increasing order, cnt(r, v) = occurrences of v in row r"""
    def __init__(self, c, ndim, kind):
        self.c = c
        self.n = sym(c, 'observations', lo=1)
        self.rows = sym(c, 'rows', lo=1) if ndim == 2 else 1
        self.ndim = ndim
        lo, hi = (0, 1) if kind == 'b' else (None, None)
        shape = (self.rows, self.n) if ndim == 2 else (self.n,)
        src = SArr.fresh('data', shape, 'i', lo, hi)
        r = src.reader()
        self.data = SArr.new(shape, (lambda x: cast(r(x), 'b')) if kind == 'b' else r, kind)
        self.m = sym(c, 'symbols', lo=1)
        self.fA, self.fpos = c.fresh_fn('symbol', 'int', 'int'), c.fresh_fn('position', 'int', 'int')
        self.fcnt = c.fresh_fn('occurrences', 'int', 'int', 'int')
        self.fm, self.fV, self.ft = c.fresh_fn('rowsymbols', 'int', 'int'), c.fresh_fn('rowsymbol', 'int', 'int', 'int'), c.fresh_fn('rowposition', 'int', 'int', 'int')
        self.R, self.K = c.fresh('R', 'int'), c.fresh('K', 'int')
        c.assume(And(self.R >= 0, self.R < self.rows, self.K >= 0, self.K < self.m))
        c.ro = dict(c.ro or {})
        c.ro[id(self.data.cell)] = 'data'
        self.kind = kind
        # the fixed symbol: its position is its own; present in row R iff it occurs there
        self.sym_facts(self.K)

    def A(self, k):
        v = mk(self.fA(term(k)))
        self.sym_facts(k, v)
        return cast(v, 'b') if self.kind == 'b' else v

    def sym_facts(self, k, v=None):
        v = mk(self.fA(term(k))) if v is None else v
        c = self.c
        c.axiom(('C15sym', term(k).sexpr()), bterm(Implies(And(k >= 0, k < self.m), And(veq(mk(self.fpos(term(v))), k), *( [Or(veq(v, 0), veq(v, 1))] if self.kind == 'b' else [])))))

    def num(self, v):
        return cast(v, 'i') if isS(v) and v.is_bool or isinstance(v, bool) else v

    def pos(self, v):
        return mk(self.fpos(term(self.num(v))))

    def cnt(self, r, v):
        x = mk(self.fcnt(term(r), term(self.num(v))))
        self.c.axiom(('C15cnt', x.t.sexpr()), z3.And(x.t >= 0, x.t <= term(self.n)))
        return x

    def rm(self, r):
        x = mk(self.fm(term(r)))
        self.c.axiom(('C15rm', x.t.sexpr()), z3.And(x.t >= 1, x.t <= term(self.m)))
        return x

    def V(self, r, t):
        """t-th distinct value of row r"""
        x = mk(self.fV(term(r), term(t)))
        ok = And(t >= 0, t < self.rm(r))
        p = mk(self.fpos(x.t))
        # it occurs in the data, so it is in the alphabet; its position among the row's values is t
        self.c.axiom(('C15V', x.t.sexpr()), bterm(Implies(ok, And(p >= 0, p < self.m, veq(mk(self.fA(p.t)), x), veq(mk(self.ft(term(r), x.t)), t),
                                                                 self.cnt(r, x) >= 1, *([Or(veq(x, 0), veq(x, 1))] if self.kind == 'b' else [])))))
        return x

    def where(self, r, v):
        """position of v among the distinct values of row r, and whether it occurs there"""
        t = mk(self.ft(term(r), term(v)))
        occ = self.cnt(r, v) >= 1
        self.c.axiom(('C15w', t.t.sexpr()), bterm(Implies(occ, And(t >= 0, t < self.rm(r), veq(mk(self.fV(term(r), t.t)), v)))))
        self.V(r, t)
        return t, occ

    def unique(self, it, args, kw):
        a = args[0]
        rc = kw.get('return_counts', False)
        if len(args) > 1 or set(kw) - {'return_counts'} or not isinstance(rc, bool) or not isinstance(a, SArr) or a.cell is not self.data.cell:
            raise Unsupported('use of np.unique')
        k = self.kind
        conv = (lambda v: cast(v, 'b')) if k == 'b' else (lambda v: v)
        if a.is_full_view() and a.ndim == self.ndim:
            arr = SArr.new((self.m,), lambda x: self.A(x[0]), k)
            self.alpha = arr
            if not rc:
                return Unique(self, arr)
            if self.ndim == 2:
                raise Unsupported('counts over all rows')
            return (Unique(self, arr), SArr.new((self.m,), lambda x: self.cnt(0, mk(self.fA(term(x[0])))), 'i'))
        if a.ndim == 1 and self.ndim == 2 and a.desc[0][0] == 'f' and a.desc[1][0] == 's' and a.desc[1][1] == 0 and self.c.implied(veq(a.shape[0], self.n)):
            r = a.desc[0][1]
            vals = SArr.new((self.rm(r),), lambda x: conv(self.V(r, x[0])), k)
            if not rc:
                return vals
            return (vals, SArr.new((self.rm(r),), lambda x: self.cnt(r, self.V(r, x[0])), 'i'))
        raise Unsupported('use of np.unique')


class Unique:
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, W, arr):
        self.W, self.arr = W, arr

    def _pyvc_isinstance(self, t):
        return t in (np.ndarray, object)

    def _pyvc_len(self, it):
        return self.W.m

    def _pyvc_symiter(self, it):
        return SymIter(self.W.m, self.W.A, 'arr')

    def _pyvc_getitem(self, it, k):
        return self.arr.getitem(k)

    def _pyvc_getattr(self, it, name):
        if name == 'tolist':
            return GCall(lambda it_: Alphabet(self.W))
        return it.getattr(self.arr, name)


class Rows(LoopContract):
    """before row k, the counts of the fixed symbol K are in place for the rows before k (fixed row R) and 0 from there on"""
    name = 'rows'

    def __init__(self, W):
        self.W = W

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1].startswith('prob') and si is not None and not hasattr(self.W, 'row')

    def enter(self, c, L):
        W = self.W
        if not c.implied(veq(L.si.n, W.rows)):
            raise NoRole('number of rows')
        cands = [v for v in L.fr.locals.values() if isinstance(v, SArr) and v.ndim == 2 and v.kind == 'f' and v.is_full_view()
                 and c.implied(And(veq(v.shape[0], W.rows), veq(v.shape[1], W.m)))]
        if len({id(v.cell) for v in cands}) != 1:
            raise NoRole('table of counts')
        self.a = W.table = cands[0]
        L.cover(self.a)

    def inv(self, k):
        W = self.W
        return veq(self.a.elem(W.R, W.K), ite(W.R < k, cast(W.cnt(W.R, W.A(W.K)), 'f'), 0.0))

    def havoc(self, c, L, k):
        self.a.cell.fn = SArr.fresh('part', self.a.shape, 'f').reader()
        c.assume(self.inv(k))

    def body_start(self, c, L, k):
        self.W.row = k

    def check(self, c, L, k, what):
        if hasattr(self.W, 'row'):
            del self.W.row
        c.prove(f'occurrences counted for the rows handled so far, 0 elsewhere ({what})', self.inv(k))


class Values(LoopContract):
    """before value t of row k, the symbol K is counted iff it is among the first t values of the row; other rows are unchanged"""
    name = 'values of a row'

    def __init__(self, W):
        self.W = W

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1].startswith('prob') and si is not None and hasattr(self.W, 'row')

    def enter(self, c, L):
        W = self.W
        self.r = W.row
        if not c.implied(veq(L.si.n, W.rm(self.r))):
            raise NoRole('number of values of the row')
        self.old = W.table.elem(W.R, W.K)
        self.a = W.table
        L.cover(self.a)

    def inv(self, t):
        W = self.W
        v = mk(W.fA(term(W.K)))
        p, occ = W.where(self.r, v)
        return And(Implies(Not(veq(W.R, self.r)), veq(self.a.elem(W.R, W.K), self.old)),
                   Implies(veq(W.R, self.r), veq(self.a.elem(W.R, W.K), ite(And(occ, p < t), cast(W.cnt(self.r, v), 'f'), 0.0))))

    def havoc(self, c, L, t):
        self.a.cell.fn = SArr.fresh('part', self.a.shape, 'f').reader()
        c.assume(self.inv(t))

    def check(self, c, L, t, what):
        c.prove(f'the symbol is counted in its row iff it was met ({what})', self.inv(t))


def jobs(tier):
    out = []

    def run(ndim, dt, f):
        def body(c, mkit):
            W = Sample(c, ndim, dtype_kind(dt))
            it = mkit(contracts={np.unique: W.unique}, loops=[Values(W), Rows(W)])
            r = returns(c, it, f, [W.data])
            if f is prob_with_alphabet:
                if not isinstance(r, tuple) or len(r) != 2:
                    raise Unsupported('result')
                pr, al = r
                if not isinstance(al, Alphabet):
                    raise Unsupported('form of the alphabet')
            else:
                pr = r
            if not isinstance(pr, SArr):
                raise Unsupported('form of the probabilities')
            if pr.ndim == 1 and ndim == 1:
                c.prove('one column per distinct symbol', veq(pr.shape[0], W.m))
                p = pr.elem(W.K)
            else:
                c.prove('one row per dimension and one column per distinct symbol', pr.ndim == 2 and And(veq(pr.shape[0], W.rows), veq(pr.shape[1], W.m)))
                p = pr.elem(W.R, W.K)
            c.prove('each entry is the number of occurrences over the number of observations',
                    veq(p, mk(z3.ToReal(term(W.cnt(W.R if ndim == 2 else 0, mk(W.fA(term(W.K)))))) / z3.ToReal(term(W.n)))))
            c.prove('the entry lies in [0, 1]', And(cast(p, 'f') >= 0, cast(p, 'f') <= 1))
        return body
    for dt in ('int64', 'bool', 'uint8', 'int8'):
        for ndim in (1, 2):
            for f in (prob_with_alphabet, prob):
                out.append(Job(f'{f.__name__}, {ndim}-D {dt}', run(ndim, dt, f)))

    def rejects(ndim, kind, f):
        def body(c, mkit):
            it = mkit()
            a = SArr.fresh('data', tuple(sym(c, f'n{i}', lo=1) for i in range(ndim)), kind)
            k, v = outcome(it, f, [a])
            c.prove('the sample is rejected', k == 'exc')
        return body
    for f in (prob_with_alphabet, prob):
        for ndim in (0, 1, 2, 3, 4):
            out.append(Job(f'{f.__name__} rejects {ndim}-D floating point data', rejects(ndim, 'f', f)))
        for ndim in (0, 3, 4):
            out.append(Job(f'{f.__name__} rejects {ndim}-D data', rejects(ndim, 'i', f)))

    def total(c, mkit):
        """each entry being count / n, and the counts adding up to n, a row sums to 1"""
        n, m = sym(c, 'n', lo=1), sym(c, 'm', lo=1)
        cnt = c.fresh_fn('cnt', 'int', 'int')
        f, g = (lambda i: cast(mk(cnt(term(i))), 'f')), None
        inv = mk(1 / z3.ToReal(term(n)))
        # induction on the number of columns: sum of the first k of cnt / n = (sum of the first k of cnt) / n
        s, t, k = c.fresh('sum_of_counts', 'real'), c.fresh('sum_of_ratios', 'real'), c.fresh('k', 'int')
        N = mk(z3.ToReal(term(n)))
        c.prove('lemma: base', veq(mk(z3.RealVal(0)), mk(z3.RealVal(0)) / N), kind='lemma')
        c.assume(veq(t, s / N))
        c.prove('lemma: step', veq(t + f(k) / N, (s + f(k)) / N), kind='lemma')
        c.assume(veq(s, N))
        c.prove('lemma: the row sums to 1', veq(t, 1), kind='lemma')
    out.append(Job('rows sum to 1', total))
    return out


def mkarr(case):
    _, rows, dtype = case
    return np.array(rows, dtype=dtype)


def check(case):
    if case[0] == 'reject':
        _, a = case
        try:
            r = prob_with_alphabet(a)
        except Exception:
            r = None
        else:
            return f'accepted an array of dtype {a.dtype} and {a.ndim} dimensions: {r}'
        try:
            prob(a)
        except Exception:
            return
        return f'prob accepted an array of dtype {a.dtype} and {a.ndim} dimensions'
    a = mkarr(case)
    keep = a.copy()
    pr, alphabet = prob_with_alphabet(a)
    if not np.array_equal(a, keep):
        return 'the data was modified'
    if not np.array_equal(np.asarray(prob(a)), np.asarray(pr)):
        return 'prob and prob_with_alphabet disagree'
    want = sorted(set(a.flatten().tolist()))
    if list(alphabet) != want:
        return f'alphabet {alphabet}, expected {want} for {case[1]}'
    rows = a.tolist() if a.ndim == 2 else [a.tolist()]
    pr = np.asarray(pr)
    if a.ndim == 2 and pr.shape != (len(rows), len(want)) or a.ndim == 1 and pr.shape not in ((len(want),), (1, len(want))):
        return f'shape {pr.shape} for {len(rows)} dimensions and {len(want)} symbols'
    pr = pr.reshape(len(rows), len(want))
    for r, row in enumerate(rows):
        for k, s in enumerate(want):
            e = row.count(s) / len(row)
            if not abs(pr[r, k] - e) < 1e-12:
                return f'probability of {s} in row {r} is {pr[r, k]}, expected {e}; data {case[1]}'
        if not abs(sum(pr[r]) - 1) < 1e-9:
            return f'row {r} sums to {sum(pr[r])}'


def cases(rng, tier, part, nparts):
    yield ('reject', np.array([0.5, 1.0]))
    yield ('reject', np.array([[0.5, 1.0]]))
    yield ('reject', np.zeros((2, 2, 2), dtype=int))
    yield ('reject', np.array(3))
    # many occurrences of a symbol
    yield ('2d', [[0] * 300 + [1] * 20, [1] * 320], 'int64')
    yield ('1d', [3] * 300 + [1] * 270, 'int64')
    yield ('2d', [[0] * 66000 + [1] * 3, [1] * 66003], 'uint8')
    yield ('2d', [[i % 2] * 2 for i in range(300)], 'int64')
    yield ('1d', list(range(300)), 'int64')
    while True:
        dt = rng.choice(['int64', 'uint8', 'bool', 'int8', 'int32'])
        lo, hi = (0, 1) if dt == 'bool' or rng.random() < 0.4 else (0, 3) if rng.random() < 0.5 else (-5, 120) if dt != 'uint8' else (0, 255)
        m = rng.choice([1, 1, 2, 3, 7, 40, 600]) if rng.random() < 0.2 else rng.choice([1, 2, 3, 7])
        if rng.random() < 0.4:
            yield ('1d', [rng.randint(lo, hi) for _ in range(m)], dt)
        else:
            rows = [[rng.randint(lo, hi) for _ in range(m)] for _ in range(rng.randrange(1, 5))]
            if rng.random() < 0.3:
                rows[-1] = [rows[-1][0]] * m
            yield ('2d', rows, dt)


def shrink(case):
    if case[0] == '1d':
        h = len(case[1]) // 2
        if h > 8:
            yield ('1d', case[1][:h], case[2])
            yield ('1d', case[1][h:], case[2])
        for i in range(len(case[1])):
            if len(case[1]) > 1:
                yield ('1d', case[1][:i] + case[1][i + 1:], case[2])
    elif case[0] == '2d':
        rows = case[1]
        h = len(rows[0]) // 2
        if h > 8:
            yield ('2d', [r[:h] for r in rows], case[2])
            yield ('2d', [r[h:] for r in rows], case[2])
        for i in range(len(rows)):
            if len(rows) > 1:
                yield ('2d', rows[:i] + rows[i + 1:], case[2])
        for i in range(len(rows[0])):
            if len(rows[0]) > 1:
                yield ('2d', [r[:i] + r[i + 1:] for r in rows], case[2])
