"""C16 entropy, Hellinger distance, typical set bounds"""
import math
from .common import *
from utils.information_theory import entropy, hellinger, typical_set_cardinality


from scipy.stats import entropy as scipy_ent
from pyvc.terms import f_sqrt, f_pow2
from pyvc.sums import mk_sum


class Entropies:
    """contract of scipy.stats.entropy: the entropy of a row depends on that row and the base only"""
    def __init__(self, c):
        self.c, self.recs = c, []

    def of(self, n, el, base):
        c = self.c
        i = c.fresh('e', 'int')
        for n2, el2, b2, h in self.recs:
            if c.implied(veq(base, b2)) and c.implied(veq(n, n2)) and c.implied(Implies(And(i >= 0, i < n), veq(el(i), el2(i)))):
                return h
        h = c.fresh('entropy', 'real')
        self.recs.append((n, el, base, h))
        return h

    def __call__(self, it, args, kw):
        kw = dict(kw)
        for name, v in zip(('pk', 'qk', 'base', 'axis'), args):
            kw[name] = v
        pk, base, ax = kw.pop('pk'), kw.pop('base', None), kw.pop('axis', 0)
        if kw.pop('qk', None) is not None or kw or not isinstance(pk, SArr) or base is None or isS(ax):
            raise Unsupported('form of the call of scipy entropy')
        rd = pk.reader()
        if ax < 0:
            ax += pk.ndim
        if pk.ndim == 1 and ax == 0:
            return self.of(pk.shape[0], lambda i: rd((i,)), base)
        if pk.ndim == 2 and ax in (0, 1):
            pick = (lambda r, i: rd((r, i))) if ax == 1 else (lambda r, i: rd((i, r)))
            return SArr.new((pk.shape[1 - ax],), lambda idx: self.of(pk.shape[ax], lambda i: pick(idx[0], i), base), 'f')
        raise Unsupported('dimensions')


def jobs(tier):
    out = []

    def pmf(c, name, n, rows=None):
        a = SArr.fresh(name, (n,) if rows is None else (rows, n), 'f', 0)
        c.ro = dict(c.ro or {})
        c.ro[id(a.cell)] = name
        return a

    def laws(c, d, B):
        c.prove('the distance is a number in [0, 1]', isS(d) and And(True if d.nan is None else Not(mk(d.nan) if d.nan is not True else True),
                                                                     d >= 0, d <= 1) if isS(d) else 0 <= d <= 1)
        c.prove('square of the distance is one minus the Bhattacharyya coefficient (at least 0)',
                veq(d * d, ite(B <= 1, 1 - B, 0)))

    def hel1(form):
        def body(c, mkit):
            it = mkit()
            n = sym(c, 'n', lo=1)
            p = pmf(c, 'p', n)
            q = p if form == 'equal' else pmf(c, 'q', n)
            for a in (p, q):
                c.assume(veq(mk_sum(n, a.elem), 1))
            if form == 'disjoint':
                z = z3.Int('dj')
                c.assume(mk(z3.ForAll([z], bterm(Implies(And(mk(z) >= 0, mk(z) < n), Or(veq(p.elem(mk(z)), 0), veq(q.elem(mk(z)), 0)))))))
            d = returns(c, it, hellinger, [p, q])
            B = mk_sum(n, lambda i: f_sqrt(p.elem(i) * q.elem(i)))
            laws(c, d, B)
            if form == 'equal':
                c.prove('distance of equal distributions is 0', veq(d, 0))
            elif form == 'disjoint':
                c.prove('distance of disjoint distributions is 1', veq(d, 1))
            else:
                e = returns(c, it, hellinger, [q, p])
                c.prove('the distance is symmetric', veq(d, e))
        return body
    for form in ('any', 'equal', 'disjoint'):
        out.append(Job(f'hellinger of two distributions ({form})', hel1(form)))

    def hel2(form):
        def body(c, mkit):
            it = mkit()
            n, rows = sym(c, 'n', lo=1), sym(c, 'rows', lo=1)
            p = pmf(c, 'p', n, rows)
            q = p if form == 'equal' else pmf(c, 'q', n, rows)
            r = c.fresh('row', 'int')
            c.assume(And(r >= 0, r < rows))
            for a in (p, q):
                c.assume(veq(mk_sum(n, lambda i: a.elem(r, i)), 1))
            d = returns(c, it, hellinger, [p, q])
            c.prove('one distance per row', isinstance(d, SArr) and d.ndim == 1 and veq(d.shape[0], rows))
            dr = d.elem(r)
            B = mk_sum(n, lambda i: f_sqrt(p.elem(r, i) * q.elem(r, i)))
            laws(c, dr, B)
            if form == 'equal':
                c.prove('distance of equal rows is 0', veq(dr, 0))
            else:
                e = returns(c, it, hellinger, [q, p])
                c.prove('the distance is symmetric', veq(dr, e.elem(r)))
        return body
    for form in ('any', 'equal'):
        out.append(Job(f'hellinger per row ({form})', hel2(form)))

    def ent_job(ndim, given):
        def body(c, mkit):
            E = Entropies(c)
            it = mkit(contracts={scipy_ent: E})
            n, rows = sym(c, 'n', lo=1), sym(c, 'rows', lo=1)
            p = pmf(c, 'p', n, rows if ndim == 2 else None)
            base = sym(c, 'base', lo=2) if given else 2
            h = returns(c, it, entropy, [p, base] if given else [p])
            if ndim == 1:
                c.prove('a zero-dimensional array is returned', isinstance(h, SArr) and h.ndim == 0)
                c.prove('entropy of the distribution in the requested base', veq(h.elem(), E.of(n, p.elem, base)))
            else:
                r = c.fresh('row', 'int')
                c.assume(And(r >= 0, r < rows))
                c.prove('one entropy per row', isinstance(h, SArr) and h.ndim == 1 and veq(h.shape[0], rows))
                c.prove('entropy of that row alone in the requested base', veq(h.elem(r), E.of(n, lambda i: p.elem(r, i), base)))
        return body
    for ndim in (1, 2):
        for given in (True, False):
            out.append(Job(f'entropy, {ndim}-D{", base given" if given else ""}', ent_job(ndim, given)))

    def dims(c, mkit):
        it = mkit(contracts={scipy_ent: Entropies(c)})
        arr = {0: SArr.fresh('a0', (), 'f', 0)}
        for k in (1, 2, 3):
            arr[k] = SArr.fresh(f'a{k}', tuple(sym(c, f'd{k}{j}', lo=1) for j in range(k)), 'f', 0)
        for k in (0, 3):
            o, e = outcome(it, entropy, [arr[k]])
            c.prove(f'entropy rejects {k} dimensions', o == 'exc' and isinstance(e, ValueError))
        for a in arr:
            for b in arr:
                if (a, b) not in ((1, 1), (2, 2)):
                    o, e = outcome(it, hellinger, [arr[a], arr[b]])
                    c.prove(f'hellinger rejects {a} against {b} dimensions', o == 'exc' and isinstance(e, ValueError))
    out.append(Job('unsupported dimensions are rejected', dims))

    def typical(have_pk, have_ent, have_eps):
        def body(c, mkit):
            E = Entropies(c)

            def ent_c(it, args, kw):
                args = args + [kw[x] for x in ('pk', 'base') if x in kw]
                base = args[1] if len(args) > 1 else 2
                pk = args[0]
                if not isinstance(pk, SArr) or pk.ndim != 1:
                    raise Unsupported('distribution')
                return SArr.new((), lambda idx: E.of(pk.shape[0], pk.elem, base), 'f')
            it = mkit(contracts={entropy: ent_c, scipy_ent: E})
            n = sym(c, 'n')
            kw = {'n': n}
            eps, H = 1e-5, None
            if have_eps:
                eps = kw['eps'] = sym(c, 'eps', 'real')
            if have_pk:
                m = sym(c, 'symbols', lo=1)
                kw['pk'] = pmf(c, 'p', m)
                H = E.of(m, kw['pk'].elem, 2)
            if have_ent:
                H = kw['ent'] = sym(c, 'H', 'real')
            o, r = outcome(it, typical_set_cardinality, [], kw)
            if o == 'exc':
                c.prove('only bad arguments are rejected (with ValueError)', isinstance(r, ValueError) and Or(n <= 0, eps <= 0, H is None), kind='exc')
                return
            c.prove('non-positive n or eps and missing information are rejected', And(n > 0, eps > 0, H is not None))
            if H is None:
                return
            lo, hi = r
            c.prove('upper bound is 2^(n(H+eps))', veq(hi, f_pow2(n * (H + eps))))
            c.prove('lower bound is (1-eps) 2^(n(H-eps))', veq(lo, (1 - eps) * f_pow2(n * (H - eps))))
            a, b = c.fresh('pl', 'real'), c.fresh('ph', 'real')
            c.prove('exponents are ordered', n * (H - eps) < n * (H + eps), kind='lemma')
            f_pow2(n * (H - eps)), f_pow2(n * (H + eps))
            c.prove('lemma: scaling a smaller positive number down', Implies(And(a > 0, a < b, eps > 0), (1 - eps) * a <= b), kind='lemma')
            c.prove('powers are ordered', And(f_pow2(n * (H - eps)) > 0, f_pow2(n * (H - eps)) < f_pow2(n * (H + eps))), kind='lemma')
            la, lb = f_pow2(n * (H - eps)), f_pow2(n * (H + eps))
            c.assume(Implies(And(la > 0, la < lb, eps > 0), (1 - eps) * la <= lb))   # instance of the lemma
            c.prove('lower bound <= upper bound', lo <= hi)
        return body
    for have_pk in (False, True):
        for have_ent in (False, True):
            for have_eps in (False, True):
                out.append(Job(f'typical set bounds{", distribution" if have_pk else ""}{", entropy" if have_ent else ""}{", eps" if have_eps else ""} given',
                               typical(have_pk, have_ent, have_eps)))
    return out


TRUSTED = ['scipy.stats.entropy(pk, base, axis) returns, per row along the axis, a number determined by that row and the base',
           'sqrt, 2**x and finite sums through their algebraic laws over the reals (rounding not modelled)']


def ent(row, base):
    t = sum(row)
    return -sum(x / t * math.log(x / t) for x in row if x > 0) / math.log(base)


def hel(p, q):
    return math.sqrt(max(0.0, 1 - math.fsum(math.sqrt(a * b) for a, b in zip(p, q))))


def near(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def rejects(f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception:
        return None
    return f'{f.__name__}{a}{k} accepted: {r}'


def check(case):
    if case[0] == 'hel':
        _, p, q = case
        P, Q = np.array(p), np.array(q)
        keep = P.copy(), Q.copy()
        d = np.asarray(hellinger(P, Q))
        e = np.asarray(hellinger(Q, P))
        if not (np.array_equal(P, keep[0]) and np.array_equal(Q, keep[1])):
            return 'hellinger modified its arguments'
        if P.ndim == 1:
            want = [hel(p, q)]
            if d.ndim != 0:
                return f'distance of shape {d.shape} for one dimension'
        else:
            want = [hel(a, b) for a, b in zip(p, q)]
            if d.shape != (len(want),):
                return f'{d.shape} distances for {len(want)} dimensions'
        for k, (x, y, w) in enumerate(zip(d.flatten(), e.flatten(), want)):
            if not (0 <= x <= 1):
                return f'Hellinger distance {x} of {p} and {q}'
            if not near(x * x, w * w, 1e-9) or not near(y * y, x * x, 1e-9):
                return f'Hellinger distance {x} (swapped {y}) of {p} and {q}, expected {w}'
        return
    if case[0] == 'ent':
        _, rows, base = case
        a = np.array(rows)
        keep = a.copy()
        r = entropy(a) if base is None else entropy(a, base)
        if not np.array_equal(a, keep):
            return 'entropy modified its argument'
        want = [ent(x, base or 2) for x in rows] if a.ndim == 2 else ent(rows, base or 2)
        if not isinstance(r, np.ndarray) or r.shape != np.shape(want):
            return f'entropy of shape {np.shape(r)} for {rows}'
        if not np.allclose(r, want, atol=1e-9):
            return f'entropy of {rows} base {base}: {r}, expected {want}'
        return
    if case[0] == 'typ':
        _, n, pk, h, eps = case
        args = dict(n=n)
        if pk is not None:
            args['pk'] = np.array(pk)
        if h is not None:
            args['ent'] = h
        if eps is not None:
            args['eps'] = eps
        e = 1e-5 if eps is None else eps
        if n <= 0 or e <= 0 or (pk is None and h is None):
            return rejects(typical_set_cardinality, **args)
        H = h if h is not None else ent(pk, 2)
        if n * (H + e) > 900:
            return
        lo, hi = typical_set_cardinality(**args)
        if not near(hi / 2.0 ** (n * (H + e)), 1, 1e-6):
            return f'upper bound {hi} for n={n}, H={H}, eps={e}'
        if not near(lo, (1 - e) * 2.0 ** (n * (H - e)), 1e-6 ):
            return f'lower bound {lo} for n={n}, H={H}, eps={e}'
        if not lo <= hi:
            return f'bounds {lo} > {hi}'
        return
    if case[0] == 'dims':
        a = np.full((2, 2, 2), 0.5)
        return rejects(entropy, a) or rejects(hellinger, a, a) or rejects(hellinger, a[0], a[0, 0]) or \
            rejects(hellinger, a[0, 0], a[0]) or rejects(entropy, np.array(0.5)) or rejects(hellinger, np.array(1.0), np.array(1.0))


def rand_pmf(rng, n):
    m = rng.random()
    if m < 0.15:
        x = [0.0] * n
        x[rng.randrange(n)] = 1.0
        return x
    x = [rng.random() ** rng.choice([1, 4]) * (rng.random() > 0.2) for _ in range(n)]
    if sum(x) == 0:
        x[0] = 1.0
    s = sum(x)
    return [v / s for v in x]


def cases(rng, tier, part, nparts):
    yield ('dims',)
    for n, rows in ((300, 0), (2, 300), (70, 40), (1100, 2)):     # large alphabets, many variables
        p, q = [rand_pmf(rng, n) for _ in range(rows or 1)], [rand_pmf(rng, n) for _ in range(rows or 1)]
        yield ('hel', p if rows else p[0], q if rows else q[0])
        yield ('ent', p if rows else p[0], rng.choice([None, 2, 10]))
        yield ('typ', 3000, p[0], None, rng.choice([None, 0.1]))
    while True:
        n = rng.choice([1, 2, 2, 2, 3, 5])
        if rng.random() < 0.4:
            p = rand_pmf(rng, n)
            q = p if rng.random() < 0.3 else rand_pmf(rng, n)
        else:
            p = [rand_pmf(rng, n) for _ in range(rng.randrange(1, 4))]
            q = [x if rng.random() < 0.4 else rand_pmf(rng, n) for x in p]
        yield ('hel', p, q)
        yield ('ent', p, rng.choice([None, 2, 10, 3]))
        pk = rand_pmf(rng, n)
        yield ('typ', rng.choice([-1, 0, 1, 2, 5, 20, 100]), rng.choice([None, pk, pk]),
               rng.choice([None, rng.uniform(0, 4), 0, 1]), rng.choice([None, 0, -0.1, 1e-5, 0.1, 0.5, 1.5]))
