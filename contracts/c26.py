"""C26 performance metrics"""
from .common import *
from utils.performance_analysis import stats, ber
import decoders.mavlink_decoder as md
import decoders.combined_decoder as cd
import decoders.combined_unified_decoder as cu


from pyvc.loops import LoopContract, NoRole
from pyvc.sums import mk_sum, count
from pyvc.terms import Narrow, dtype_kind
from pyvc import models
from .sm import returned_names
from sklearn.metrics import confusion_matrix
import ast

TRUSTED = ['sklearn.metrics.confusion_matrix', 'np.intersect1d / np.setdiff1d give the intersection and differences of the index sets',
           'finite sums of non-negative numbers: every term is at most the sum; the diagonal is at most the total']


def ratio(a, b):
    return mk(z3.ToReal(term(a)) / z3.ToReal(term(b)))


class Confusion:
    """an arbitrary n x n confusion matrix: entries, row and column sums"""
    def __init__(self, c):
        self.c = c
        self.n = sym(c, 'n', lo=1)
        self.cm = SArr.fresh('cm', (self.n, self.n), 'i', 0)
        self.R, self.C = c.fresh_fn('rowsum', 'int', 'int'), c.fresh_fn('colsum', 'int', 'int')
        self.tot = c.fresh('total', 'int')
        c.assume(self.tot >= 1)
        self.diag = mk_sum(self.n, lambda i: self.cm.elem(i, i))
        c.assume(And(self.diag >= 0, self.diag <= self.tot))
        c.ro = dict(c.ro or {})
        c.ro[id(self.cm.cell)] = 'confusion matrix'

    def sums(self, f, k):
        v = mk(f(term(k)))
        self.c.axiom(('cmsum', v.t.sexpr()), z3.And(v.t >= 0, v.t >= term(self.cm.elem(k, k))))
        return v

    def row(self, k):
        return self.sums(self.R, k)

    def col(self, k):
        return self.sums(self.C, k)

    def np_sum(self, it, args, kw):
        a = args[0]
        ax = args[1] if len(args) > 1 else kw.get('axis')
        if isinstance(a, SArr) and a.cell is self.cm.cell and len(args) <= 2 and set(kw) <= {'axis'}:
            if a.ndim == 2 and a.is_full_view():
                if ax is None:
                    return self.tot
                if ax in (1, -1):
                    return SArr.new((self.n,), lambda x: self.row(x[0]), 'i')
                if ax in (0, -2):
                    return SArr.new((self.n,), lambda x: self.col(x[0]), 'i')
            if a.ndim == 1 and ax in (None, 0) and len(a.desc) == 2 and ctx().implied(veq(a.shape[0], self.n)):
                (x, y) = a.desc
                if x[0] == 'f' and y[0] == 's' and y[1] == 0:
                    return self.row(x[1])
                if y[0] == 'f' and x[0] == 's' and x[1] == 0:
                    return self.col(y[1])
            raise Unsupported('sum over part of the confusion matrix')
        return models.M[np.sum](it, args, kw)


class PerClass(LoopContract):
    """before class i, the values of the classes before it are in [0, 1] and the textbook ratios"""
    name = 'per class values'

    def __init__(self, W, K):
        self.W, self.K = W, K

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'stats' and si is not None

    def enter(self, c, L):
        names = {x.value.id for x in ast.walk(L.stmt) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
        if len(names) != 1:
            raise NoRole('array filled by the loop')
        nm = names.pop()
        self.a = L.fr.locals[nm]
        if not isinstance(self.a, SArr) or self.a.ndim != 1 or not c.implied(veq(self.a.shape[0], self.W.n)):
            raise NoRole('array filled by the loop')
        j = c.fresh('rj', 'int')
        if not c.implied(veq(L.si.el(j), j)) or not c.implied(veq(L.si.n, self.W.n)):
            raise NoRole('range of the loop')
        L.cover(self.a)
        # role: the filled array is one of those returned
        roles = returned_names(stats)
        if roles is None or len(roles) != 5 or nm not in roles:
            raise NoRole('role of the array filled by the loop')
        self.which = ('confusion', 'recall', 'precision', 'F1', 'accuracy')[roles.index(nm)]
        if self.which not in ('recall', 'precision', 'F1'):
            raise NoRole('role of the array filled by the loop')

    def spec(self):
        return good(self.W, self.K, self.a.elem(self.K), self.which)

    def havoc(self, c, L, i):
        self.a.cell.fn = SArr.fresh('part', self.a.shape, 'f').reader()
        c.assume(Implies(self.K < i, self.spec()))

    def check(self, c, L, i, what):
        c.prove(f'{self.which} of every class handled so far is a number in [0, 1], the textbook ratio where that is defined ({what})',
                Implies(self.K < i, self.spec()), ms=20000)


def good(W, k, v, which):
    """v is in [0, 1] and the textbook value for a class that occurs among both the actual and the predicted labels"""
    d, r, p = W.cm.elem(k, k), W.row(k), W.col(k)
    both = And(r > 0, p > 0)
    # F1 = 2 d / (row + col): equal to 2 R P / (R + P) when d > 0, and 0 when d = 0
    want = ratio(d, r) if which == 'recall' else ratio(d, p) if which == 'precision' else ratio(2 * d, r + p)
    x = cast(v, 'f')
    nan = x.nan if isS(x) and x.nan is not None else False
    return And(Not(mk(nan)) if not isinstance(nan, bool) else not nan, x >= 0, x <= 1, Implies(both, veq(x, want)))


def textbook(c, mkit):
    """2 R P / (R + P) with R = d / row, P = d / col equals 2 d / (row + col)"""
    d, r, p = [c.fresh(x, 'real') for x in 'drp']
    c.assume(And(d > 0, r >= d, p >= d))
    R, P = d / r, d / p
    c.prove('lemma: F1 as harmonic mean of recall and precision is 2 d / (row + col)', veq(2 * R * P / (R + P), 2 * d / (r + p)), kind='lemma')


def jobs(tier):
    out = [Job('F1 formula', textbook)]
    KINDS = ['bool', 'uint8', 'int8', 'int64', 'float64', 'uint64']

    def ber_job(ta, tb):
        def body(c, mkit):
            it = mkit()
            n = sym(c, 'n', lo=1)
            arrs = []
            for nm, t in (('a', ta), ('b', tb)):
                src = SArr.fresh(nm, (n,), 'i', 0, 1)
                r = src.reader()
                k = dtype_kind(t)
                x = SArr.new((n,), (lambda r, k: lambda i: cast(r(i), k) if not isinstance(k, Narrow) else r(i))(r, k), k)
                c.ro = dict(c.ro or {})
                c.ro[id(x.cell)] = nm
                arrs.append((x, r))
            e = returns(c, it, ber, [arrs[0][0], arrs[1][0]])
            diff = count(n, lambda i: Not(veq(arrs[0][1]((i,)), arrs[1][1]((i,)))))
            c.prove('the bit error rate is the fraction of differing positions', veq(e, ratio(diff, n)))
        return body
    for ta in KINDS:
        for tb in KINDS if tier == 'thorough' else (ta, 'int64', 'bool'):
            out.append(Job(f'ber ({ta}, {tb})', ber_job(ta, tb)))

    def st(given):
        def body(c, mkit):
            W = Confusion(c)
            K = c.fresh('K', 'int')
            c.assume(And(K >= 0, K < W.n))
            act, pred = SArr.fresh('actual', (sym(c, 'm', lo=1),), 'i'), None
            pred = SArr.fresh('predicted', act.shape, 'i')
            W.asked = False

            def conf(it, args, kw):
                ks = dict(zip(('y_true', 'y_pred'), args), **kw)
                if set(ks) != {'y_true', 'y_pred'}:
                    raise Unsupported('form of the confusion matrix')
                c.prove('the confusion matrix is that of the actual and the predicted labels', ks['y_true'] is act and ks['y_pred'] is pred)
                W.asked = True
                return W.cm
            it = mkit(contracts={np.sum: W.np_sum, confusion_matrix: conf}, loops=[PerClass(W, K)])
            if given:
                r = returns(c, it, stats, [], {'cm': W.cm})
            else:
                r = returns(c, it, stats, [act, pred])
            if not isinstance(r, tuple) or len(r) != 5 or not isinstance(r[0], SArr) or not all(isinstance(x, SArr) and x.ndim == 1 for x in r[1:4]):
                raise Unsupported('result of stats')
            k = c.fresh('k', 'int')
            c.prove('the confusion matrix is returned', r[0].cell is W.cm.cell and r[0].is_full_view())
            for nm, v in zip(('recall', 'precision', 'F1'), r[1:4]):
                c.prove(f'one {nm} per class', veq(v.shape[0], W.n))
                c.prove(f'{nm} is a number in [0, 1], the textbook ratio for classes among both actual and predicted labels', good(W, K, v.elem(K), nm), ms=20000)
            c.prove('accuracy is the fraction of correct predictions, in [0, 1]', And(veq(r[4], ratio(W.diag, W.tot)), r[4] >= 0, r[4] <= 1))
        return body
    for given in (True, False):
        out.append(Job(f'stats ({"confusion matrix" if given else "labels"} given)', st(given)))

    def conf_job(mod):
        def body(c, mkit):
            tp, fp, fn = [sym(c, x, lo=0) for x in ('tp', 'fp', 'fn')]
            neg = sym(c, 'negative', lo=0)
            P, A = SArr.fresh('predicted', (tp + fp,), 'i'), SArr.fresh('actual', (tp + fn,), 'i')

            def of(x):
                if x is P or x is A:
                    return x
                if isinstance(x, SArr) and x.cell in (P.cell, A.cell) and x.is_full_view():
                    return P if x.cell is P.cell else A
                raise Unsupported('index sets')

            def inter(it, args, kw):
                if {id(of(x)) for x in args[:2]} != {id(P), id(A)}:
                    raise Unsupported('intersection')
                return SArr.fresh('both', (tp,), 'i')

            def diff(it, args, kw):
                a, b = of(args[0]), of(args[1])
                if a is b:
                    return SArr.fresh('none', (0,), 'i')
                return SArr.fresh('only', (fp if a is P else fn,), 'i')
            it = mkit(contracts={np.intersect1d: inter, np.setdiff1d: diff})
            r = returns(c, it, mod.confusion, [P, A, neg])
            if not isinstance(r, SArr) or r.ndim != 1:
                raise Unsupported('result of confusion')
            c.prove('six numbers', veq(r.shape[0], 6))
            want = [tp, fp, neg - fp, fn, tp + fn, neg]
            c.prove('true/false positives and negatives of the two sets, positives, negatives', And(*[veq(r.elem(i), w) for i, w in enumerate(want)]))
            c.prove('the four counts add up to the population', veq(r.elem(0) + r.elem(1) + r.elem(2) + r.elem(3), r.elem(4) + r.elem(5)))
        return body
    for m in (md, cd, cu):
        out.append(Job(f'{m.__name__}.confusion', conf_job(m)))
    return out


def check(case):
    if case[0] == 'ber':
        _, a, b, ta, tb = case
        x, y = np.array(a, dtype=ta), np.array(b, dtype=tb)
        r = ber(x, y)
        want = sum(p != q for p, q in zip(a, b)) / len(a)
        return None if abs(r - want) < 1e-12 else f'ber {r} of {a} ({ta}) and {b} ({tb}), expected {want}'
    if case[0] == 'confusion':
        _, pred, act, neg = case
        P, A = set(pred), set(act)
        want = [len(P & A), len(P - A), neg - len(P - A), len(A - P), len(A), neg]
        for m in (md, cd, cu):
            for pp in (list(pred), np.array(pred, dtype=int)):
                r = m.confusion(pp, np.array(act, dtype=int), neg)
                if [int(x) for x in r] != want:
                    return f'{m.__name__}.confusion({pred}, {act}, {neg}) = {r}, expected {want}'
        return
    if case[0] == 'labels':
        _, act, pred = case
        ls = sorted(set(act) | set(pred))
        cm = [[sum(a == i and p == j for a, p in zip(act, pred)) for j in ls] for i in ls]
        r = stats(np.array(act), np.array(pred))
        if np.asarray(r[0]).tolist() != cm:
            return f'confusion matrix {r[0]} of {act}, {pred}'
    else:
        _, cm = case
        r = stats(cm=np.array(cm))
    n = len(cm)
    _, rec, pre, f1, acc = r
    for nm, v in (('recall', rec), ('precision', pre), ('F1', f1)):
        if np.shape(v) != (n,):
            return f'{nm} of shape {np.shape(v)}'
        for k in range(n):
            if not (0 <= v[k] <= 1 + 1e-12):
                return f'{nm} of class {k} is {v[k]} for {cm}'
    tot = sum(map(sum, cm))
    if not (0 <= acc <= 1) or abs(acc - sum(cm[i][i] for i in range(n)) / tot) > 1e-12:
        return f'accuracy {acc} for {cm}'
    for k in range(n):
        a, p = sum(cm[k]), sum(x[k] for x in cm)
        if a and p:
            R, Q = cm[k][k] / a, cm[k][k] / p
            F = 2 * R * Q / (R + Q) if R + Q else 0
            if abs(rec[k] - R) > 1e-12 or abs(pre[k] - Q) > 1e-12 or abs(f1[k] - F) > 1e-12:
                return f'class {k} of {cm}: recall {rec[k]}, precision {pre[k]}, F1 {f1[k]}; expected {R}, {Q}, {F}'


DT = ['bool', 'uint8', 'int8', 'int64', 'float64', 'uint64']


def cases(rng, tier, part, nparts):
    for z in range(3 ** 4):
        yield ('cm', [[z % 3, z // 3 % 3], [z // 9 % 3, z // 27]]) if z else ('cm', [[1]])
    # large counts
    for n in (300, 520, 70000):
        for dt in DT:
            yield ('ber', [i % 2 for i in range(n)], [1 - i % 2 for i in range(n)], dt, rng.choice(DT))
        yield ('cm', [[n, 3], [7, 2 * n]])
        yield ('labels', [int(i % 3 == 0) for i in range(n)], [int(i % 5 == 0) for i in range(n)])
    yield ('confusion', list(range(0, 900, 2)), list(range(300, 900)), 300)
    while True:
        n = rng.choice([1, 2, 5, 30])
        a = [rng.getrandbits(1) for _ in range(n)]
        b = [x ^ (rng.random() < 0.3) for x in a]
        yield ('ber', a, b, rng.choice(DT), rng.choice(DT))
        m = rng.randrange(1, 5)
        cm = [[rng.choice([0, 0, 0, 1, 2, 7]) for _ in range(m)] for _ in range(m)]
        if sum(map(sum, cm)):
            yield ('cm', cm)
        k = rng.choice([1, 2, 4, 12])
        yield ('labels', [rng.randrange(m) for _ in range(k)], [rng.randrange(m) for _ in range(k)])
        N = rng.randrange(1, 20)
        act = rng.sample(range(N), rng.randrange(N + 1))
        yield ('confusion', rng.sample(range(N), rng.randrange(N + 1)), act, N - len(act))


def shrink(case):
    if case[0] == 'cm':
        cm = case[1]
        for i in range(len(cm)):
            if len(cm) > 1:
                y = [r[:i] + r[i + 1:] for j, r in enumerate(cm) if j != i]
                if sum(map(sum, y)):
                    yield ('cm', y)
