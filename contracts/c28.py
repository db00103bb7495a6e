"""C28 Bernoulli mixture (expectation maximisation)"""
from .common import *
from .emle import q
from inference.bmm import BMM
from scipy.special import logsumexp
from pyvc.sums import mk_sum
from pyvc.terms import f_log, f_exp
from pyvc.loops import LoopContract, NoRole


def new(c, it, K, mi=None):
    return it.call(BMM, [K, sym(c, 'max_iter', lo=0) if mi is None else mi], {})


def put(o, **kw):
    for k, v in kw.items():
        setattr(o, k, v)


def idx(c, name, n):
    i = c.fresh(name, 'int')
    c.assume(And(i >= 0, i < n))
    return i


def exp_div(c, a, b):
    """exp(a - b) exp(b) = exp(a)"""
    a, b = to_real(a), to_real(b)
    c.assume(mk(term(f_exp(mk(a - b))) * term(f_exp(mk(b))) == term(f_exp(mk(a)))))


def exp_log_add(c, p, l):
    """exp(log p + l) = p exp(l) for p > 0"""
    c.assume(Implies(p > 0, mk(term(f_exp(f_log(p) + l)) == to_real(p) * term(f_exp(l)))))


def exp_log(c, s):
    """exp(log s) = s for s > 0"""
    c.assume(Implies(s > 0, mk(term(f_exp(f_log(s))) == to_real(s))))


ASSUMED_EXP = 'exp(a - b) exp(b) = exp(a), exp(log s) = s and exp(log p + l) = p exp(l) for positive s, p (real exponential and logarithm)'


def scale_lemma(c):
    """sum of g(k) s = sum of f(k) when g(k) s = f(k) at every k: the induction over the number of terms"""
    G, F = c.fresh('partial_g', 'real'), c.fresh('partial_f', 'real')
    g, f, s = c.fresh('g', 'real'), c.fresh('f', 'real'), c.fresh('s', 'real')
    c.prove('scaled sums, step of the induction', Implies(And(veq(G * s, F), veq(g * s, f)), veq((G + g) * s, F + f)), kind='lemma')
    z = c.fresh('s', 'real')
    c.prove('scaled sums, empty sum', mk(z3.RealVal(0) * term(z) == 0), kind='lemma')


class Columns(LoopContract):
    """gamma[:, k] filled column by column"""
    name = 'columns filled so far'

    def __init__(self, W):
        self.W = W

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'get_responsibilities' and si is not None

    def enter(self, c, L):
        W = self.W
        arrs = [v for v in L.fr.locals.values() if isinstance(v, SArr) and v.ndim == 2 and v is not W.lb]
        if len(arrs) != 1 or not c.implied(veq(si_n(L.si), W.K)):
            raise NoRole('one array of responsibilities')
        self.a = arrs[0]
        L.cover(self.a)
        self.i, self.k = idx(c, 'i_any', W.n), idx(c, 'k_any', W.K)
        self.val = None

    def fact(self, j):
        W = self.W
        return Implies(self.k < j, W.is_gamma(self.a.elem(self.i, self.k), self.i, self.k))

    def havoc(self, c, L, j):
        self.a.cell.fn = SArr.fresh('gamma_part', self.a.shape, 'f').reader()
        self.W.lemmas(self.i, self.k)
        c.assume(self.fact(j))

    def check(self, c, L, j, what):
        self.W.lemmas(self.i, self.k)
        c.prove(f'the columns so far are responsibilities ({what})', self.fact(j))


def si_n(si):
    return si.n


class RespWorld:
    def __init__(self, c):
        self.c = c
        self.n, self.K = sym(c, 'n', lo=1), sym(c, 'K', lo=1)
        self.pi = SArr.fresh('pi', (self.K,), 'f')
        p = self.pi.reader()
        z = z3.Int('kq!')
        c.axiom(('pipos',), z3.ForAll([z], z3.Implies(z3.And(z >= 0, z < term(self.K)), term(p((S(z),))) > 0)))
        self.lb = SArr.fresh('log_bernoullis', (self.n, self.K), 'f')
        self.p = lambda k: p((k,))
        r = self.lb.reader()
        self.l = lambda i, k: r((i, k))
        self.seen = {}

    def e(self, i, k):
        """weight times likelihood, as the exponential of the log weight plus the log likelihood"""
        return f_exp(f_log(self.p(k)) + self.l(i, k))

    def total(self, i):
        return mk_sum(self.K, lambda j: self.e(i, j))

    def lemmas(self, i, k):
        c = self.c
        s = self.total(i)
        key = term(i).sexpr()
        if key not in self.seen:
            self.seen[key] = True
            # a sum of positive terms is positive
            self.e(i, 0)
            w = self.e(i, k)
            c.assume(Implies(And(k >= 0, k < self.K), mk(term(s) >= term(w))))   # sum of non-negative terms is at least each of them
            exp_log(c, s)
        exp_div(c, f_log(self.p(k)) + self.l(i, k), f_log(s))

    def is_gamma(self, v, i, k):
        """v is the share of component k in the mixture likelihood of sample i"""
        return And(v >= 0, mk(to_real(v) * term(self.total(i)) == term(self.e(i, k))))


def jobs(tier):
    out = []

    def save_single(c, mkit):
        it = mkit()
        n, K, D = sym(c, 'n', lo=0), sym(c, 'K', lo=1), sym(c, 'D', lo=0)
        x = SArr.fresh('x', (n, D), 'i', 0, 1)
        mu = SArr.fresh('mu', (K, D), 'f', 0, 1)
        c.ro = {id(x.cell): 'x', id(mu.cell): 'mu'}
        o = new(c, it, K)
        r = returns(c, it, BMM.get_save_single, [o, x, mu])
        if not isinstance(r, SArr) or r.ndim != 2:
            raise Unsupported('result of get_save_single')
        c.prove('one value per sample and component', And(veq(r.shape[0], n), veq(r.shape[1], K)))
        from pyvc.models import M
        mx = M[np.max](it, [mu], {'axis': 0})
        c.assume(n >= 1)
        i, k = idx(c, 'i_any', n), idx(c, 'k_any', K)
        X, U, mr = x.reader(), mu.reader(), mx.reader()

        def P(k, d):
            p = ite(mr((d,)) <= q(1e-15), q(1e-15), U((k, d)))
            return ite(p < q(1e-200), q(1e-200), p)
        want = mk_sum(D, lambda d: to_r(X((i, d))) * f_log(P(k, d)))
        c.prove('the log likelihood of the ones is the sum of the log floored probabilities of the bits that are one', veq(r.elem(i, k), want))
        d = idx(c, 'd_any', D)
        c.prove('probabilities are floored at a positive value and otherwise unchanged', And(P(k, d) > 0, Implies(U((k, d)) > q(1e-15), inst_max(c, mx, d, k, lambda: veq(P(k, d), U((k, d)))))))
    out.append(Job('BMM.get_save_single', save_single))

    def log_bern(c, mkit):
        n, K, D = sym(c, 'n', lo=1), sym(c, 'K', lo=1), sym(c, 'D', lo=1)
        x = SArr.fresh('x', (n, D), 'i', 0, 1)
        mu = SArr.fresh('mu', (K, D), 'f', 0, 1)
        i, k, d = idx(c, 'i_any', n), idx(c, 'k_any', K), idx(c, 'd_any', D)
        calls = []

        def single(it, args, kw):
            if len(args) != 3 or kw:
                raise Unsupported('call of get_save_single')
            a, m = args[1:]
            if not isinstance(a, SArr) or not isinstance(m, SArr) or a.ndim != 2 or m.ndim != 2:
                raise Unsupported('arguments of get_save_single')
            ones = c.implied(And(veq(a.elem(i, d), x.elem(i, d)), veq(m.elem(k, d), mu.elem(k, d))))
            zeros = c.implied(And(veq(a.elem(i, d), 1 - x.elem(i, d)), veq(m.elem(k, d), 1 - mu.elem(k, d))))
            kind = 'ones' if ones else 'zeros' if zeros else 'other'
            if kind == 'other':
                is_x = c.implied(Or(veq(a.elem(i, d), x.elem(i, d)), veq(a.elem(i, d), 1 - x.elem(i, d))))
                if not is_x or not c.implied(Or(veq(m.elem(k, d), mu.elem(k, d)), veq(m.elem(k, d), 1 - mu.elem(k, d)))):
                    raise Unsupported('arguments of get_save_single')
            c.prove('the likelihood is taken of the bits that are one under the probabilities of a one, or of the zeros under those of a zero', kind != 'other')
            c.prove('shapes', And(veq(a.shape[0], n), veq(a.shape[1], D), veq(m.shape[0], K), veq(m.shape[1], D)))
            r = SArr.fresh('part_' + kind, (n, K), 'f')
            calls.append((kind, r.reader()))
            return r
        it = mkit(contracts={BMM.get_save_single: single})
        o = new(c, it, K)
        put(o, mu=mu)
        c.ro = {id(x.cell): 'x', id(mu.cell): 'mu'}
        r = returns(c, it, BMM.get_log_bernoullis, [o, x])
        if not isinstance(r, SArr) or r.ndim != 2 or sorted(a for a, _ in calls) != ['ones', 'zeros']:
            raise Unsupported('result of get_log_bernoullis')
        c.prove('the log likelihood is that of the ones plus that of the zeros', veq(r.elem(i, k), calls[0][1]((i, k)) + calls[1][1]((i, k))))
        c.prove('one value per sample and component', And(veq(r.shape[0], n), veq(r.shape[1], K)))
    out.append(Job('BMM.get_log_bernoullis', log_bern))

    def resp(c, mkit):
        W = RespWorld(c)
        lp = Columns(W)
        it = mkit(loops=[lp])
        it.assumed.add(ASSUMED_EXP)
        o = new(c, it, W.K)
        put(o, pi=W.pi)
        c.ro = {id(W.pi.cell): 'pi', id(W.lb.cell): 'log_bernoullis'}
        r = returns(c, it, BMM.get_responsibilities, [o, W.lb])
        if not isinstance(r, SArr) or r.ndim != 2:
            raise Unsupported('result of get_responsibilities')
        if hasattr(lp, 'i'):
            i, k = lp.i, lp.k
        else:
            i, k = idx(c, 'i_any', W.n), idx(c, 'k_any', W.K)
        W.lemmas(i, k)
        v = r.elem(i, k)
        exp_log_add(c, W.p(k), W.l(i, k))
        s = W.total(i)
        c.prove('one responsibility per sample and component', And(veq(r.shape[0], W.n), veq(r.shape[1], W.K)))
        c.prove('the responsibility is the share of the component: weight times likelihood over their sum', W.is_gamma(v, i, k))
        c.prove('responsibilities are not negative and at most 1', And(v >= 0, v <= 1))
        c.prove('what is shared is weight times likelihood', veq(W.e(i, k), W.p(k) * f_exp(W.l(i, k))))
        scale_lemma(c)
        t = c.fresh('sum_of_responsibilities', 'real')     # by the lemma: sum * total = total
        c.prove('responsibilities of a sample sum to 1', Implies(veq(t * s, s), veq(t, 1)))
    out.append(Job('BMM.get_responsibilities', resp))

    def mstep(c, mkit):
        n, K, D = sym(c, 'n', lo=1), sym(c, 'K', lo=1), sym(c, 'D', lo=1)
        it = mkit()
        x = SArr.fresh('x', (n, D), 'i', 0, 1)
        g = SArr.fresh('gamma', (n, K), 'f', 0, 1)
        c.ro = {id(x.cell): 'x', id(g.cell): 'gamma'}
        o = new(c, it, K)
        mu0, pi0 = SArr.fresh('mu', (K, D), 'f', 0, 1), SArr.fresh('pi', (K,), 'f', 0, 1)
        put(o, x=x, gamma=g, n_samples=n, n_features=D, mu=mu0, pi=pi0)
        for f in (BMM.get_Neff, BMM.get_mu, BMM.get_pi):
            returns(c, it, f, [o])
        if not all(isinstance(getattr(o, a, None), SArr) for a in ('pi', 'mu')):
            raise Unsupported('parameters')
        if o.mu.cell is mu0.cell or o.pi.cell is pi0.cell:     # the contract used for fit is that of new arrays
            raise Unsupported('parameters updated in place')
        k, d = idx(c, 'k_any', K), idx(c, 'd_any', D)
        G, X = g.reader(), x.reader()
        N = mk_sum(n, lambda i: G((i, k)))
        num = mk_sum(n, lambda i: G((i, k)) * to_r(X((i, d))))
        c.prove('one weight per component', And(o.pi.ndim == 1, veq(o.pi.shape[0], K)))
        c.prove('one mean per component and bit', And(o.mu.ndim == 2, veq(o.mu.shape[0], K), veq(o.mu.shape[1], D)))
        c.prove('the weight is the mean responsibility', veq(o.pi.elem(k) * cast(n, 'f'), N))
        c.prove('the weight is in [0, 1]', And(o.pi.elem(k) >= 0, o.pi.elem(k) <= 1))
        m = o.mu.elem(k, d)
        if c.branch(bterm(N > 0)):
            c.prove('the mean is the average of the bit weighted by responsibility', mk(to_real(num_only(m)) * term(N) == term(num)))
            c.prove('the mean is in [0, 1]', And(m >= 0, m <= 1))
    out.append(Job('BMM.get_Neff, get_mu, get_pi', mstep))

    def lemma_weights(c, mkit):
        mkit()
        # partial sums over the samples i < t of gamma(i, k) are N(k); their sum over k is t
        A, Bs, s, a, b = (c.fresh(x, 'real') for x in ('A', 'B', 'S', 'a', 'b'))
        c.prove('sum of sums, step', Implies(veq(A + Bs, s), veq((A + a) + (Bs + b), s + (a + b))), kind='lemma')
        t = c.fresh('samples', 'int')
        tot, row = c.fresh('total', 'real'), c.fresh('row', 'real')
        c.prove('one more sample adds its responsibilities, which sum to 1', Implies(And(veq(tot, cast(t, 'f')), veq(row, 1)), veq(tot + row, cast(t + 1, 'f'))), kind='lemma')
        n, T, w = c.fresh('n', 'int'), c.fresh('sum_of_Neff', 'real'), c.fresh('sum_of_weights', 'real')
        c.assume(n >= 1)
        scale_lemma(c)
        c.prove('weights sum to 1', Implies(And(veq(T, cast(n, 'f')), veq(w * cast(n, 'f'), T)), veq(w, 1)), kind='lemma')
    out.append(Job('lemma: the weights of a mixture sum to 1', lemma_weights))

    def sample_ll(c, mkit):
        W = RespWorld(c)
        it = mkit()
        it.assumed.add(ASSUMED_EXP)
        o = new(c, it, W.K)
        put(o, pi=W.pi)
        c.ro = {id(W.pi.cell): 'pi', id(W.lb.cell): 'log_bernoullis'}
        r = returns(c, it, BMM.get_sample_log_likelihood, [o, W.lb])
        if not isinstance(r, SArr) or r.ndim != 1:
            raise Unsupported('result of get_sample_log_likelihood')
        i = idx(c, 'i_any', W.n)
        c.prove('one value per sample', veq(r.shape[0], W.n))
        c.prove('log of the sum of weight times likelihood', veq(r.elem(i), f_log(W.total(i))))
        k = idx(c, 'k_any', W.K)
        exp_log_add(c, W.p(k), W.l(i, k))
        c.prove('what is summed is weight times likelihood', veq(W.e(i, k), W.p(k) * f_exp(W.l(i, k))))
    out.append(Job('BMM.get_sample_log_likelihood', sample_ll))

    def using(c, mkit, what):
        """predict, score, score_samples and get_log_likelihood over the contracts of what they call"""
        n, K, D = sym(c, 'n', lo=1), sym(c, 'K', lo=1), sym(c, 'D', lo=1)
        x = SArr.fresh('x', (n, D), 'i', 0, 1)
        lb, ga, sl = SArr.fresh('lb', (n, K), 'f'), SArr.fresh('gamma', (n, K), 'f', 0, 1), SArr.fresh('sample_ll', (n,), 'f')
        ll = sym(c, 'll', 'real')

        i0, k0, d0 = idx(c, 'i_any', n), idx(c, 'k_any', K), idx(c, 'd_any', D)

        def given(a, b, ix, what):
            if not isinstance(a, SArr) or a.ndim != len(ix):
                raise Unsupported(what)
            c.prove(what, And(*[veq(u, v) for u, v in zip(a.shape, b.shape)], veq(a.elem(*ix), b.elem(*ix))))

        def lbern(it, args, kw):
            if len(args) != 2:
                raise Unsupported('call of get_log_bernoullis')
            given(args[1], x, (i0, d0), 'the log likelihoods are those of the samples given')
            return lb

        def want_lb(f):
            def h(it, args, kw):
                if len(args) != 2:
                    raise Unsupported('call')
                given(args[1], lb, (i0, k0), 'the log likelihoods used are those of the samples given')
                return f()
            return h
        con = {BMM.get_log_bernoullis: lbern, BMM.get_responsibilities: want_lb(lambda: ga), BMM.get_sample_log_likelihood: want_lb(lambda: sl)}
        if what == 'score':
            con[BMM.get_log_likelihood] = want_lb(lambda: ll)
        it = mkit(contracts=con)
        o = new(c, it, K)
        put(o, pi=SArr.fresh('pi', (K,), 'f', 0, 1), mu=SArr.fresh('mu', (K, D), 'f', 0, 1))
        c.ro = {id(v.cell): v.cell.name for v in (x, o.pi, o.mu, lb, ga, sl)}
        before = dict(vars(o))
        if what == 'score':        # the contract of get_log_likelihood
            c.assume(mk(to_real(ll) * z3.ToReal(term(n)) == term(mk_sum(n, lambda i: sl.elem(i)))))
        if what == 'predict':
            Z, (P0, L0, G0) = SArr.fresh('log_total', (n,), 'f'), (a.reader() for a in (o.pi, lb, ga))

            def given_gamma(i, k):     # the contract of get_responsibilities: shares of weight times likelihood
                c.assume(Implies(And(k >= 0, k < K), And(P0((k,)) > 0, veq(G0((i, k)), f_exp(f_log(P0((k,))) + L0((i, k)) - Z.elem(i))))))
        r = returns(c, it, getattr(BMM, what), [o, lb if what == 'get_log_likelihood' else x])
        if what == 'predict':
            if not isinstance(r, SArr) or r.ndim != 1:
                raise Unsupported('result of predict')
            i, k = idx(c, 'i_any', n), idx(c, 'k_any', K)
            v = r.elem(i)
            given_gamma(i, k)
            given_gamma(i, v)
            c.prove('one label per sample', veq(r.shape[0], n))
            c.prove('the label is a component', And(v >= 0, v < K))
            c.prove('the label has the greatest responsibility', ga.elem(i, v) >= ga.elem(i, k))
            c.prove('the first of equals is taken', Implies(k < v, ga.elem(i, k) < ga.elem(i, v)))
        elif what == 'get_log_likelihood':
            c.prove('the score is the mean over the samples', mk(to_real(r) * z3.ToReal(term(n)) == term(mk_sum(n, lambda i: sl.elem(i)))))
        elif what == 'score':
            c.prove('the score is the log likelihood of the samples', veq(r, ll))
        else:
            i = idx(c, 'i_any', n)
            c.prove('the scores are those of the samples', And(isinstance(r, SArr) and r.ndim == 1, veq(r.shape[0], n), veq(r.elem(i), sl.elem(i))))
        c.prove('parameters do not change', all(vars(o).get(a) is before[a] for a in ('pi', 'mu', 'n_components')), kind='frame')
    for what in ('predict', 'score_samples', 'get_log_likelihood', 'score'):
        out.append(Job(f'BMM.{what}', lambda c, mkit, what=what: using(c, mkit, what)))

    class Norm(LoopContract):
        name = 'rows normalised so far'

        def match(self, it, s, fr, si):
            return fr.name.split('.')[-1] == 'normalize_mu' and si is not None

        def enter(self, c, L):
            o = L.fr.locals.get('self')
            self.a = getattr(o, 'mu', None)
            if not isinstance(self.a, SArr):
                raise NoRole('mu')
            L.cover(self.a)
            K, D = self.a.shape
            self.k, self.d = idx(c, 'k_any', K), idx(c, 'd_any', D)
            self.old = self.a.reader()
            self.sum = mk_sum(D, lambda d: self.old((self.k, d)))
            self.c = c

        def fact(self, j):
            v, u = self.a.elem(self.k, self.d), self.old((self.k, self.d))
            return And(Implies(self.k < j, mk(to_real(v) * term(self.sum) == term(u))), Implies(self.k >= j, veq(v, u)))

        def havoc(self, c, L, j):
            F = c.fresh_fn('mu_part', 'int', 'int', 'real')
            d0 = z3.Int('rowd!')
            k, D = j, self.a.shape[1]
            old = self.old
            # rows not reached yet are as before
            self.a.cell.fn = lambda ix: ite(ix[0] >= k, lambda: old(ix), lambda: mk(F(term(ix[0]), term(ix[1]))))
            c.assume(self.fact(j))

        def check(self, c, L, j, what):
            if what != 'on entry':      # equal rows have equal sums
                c.assume(Implies(veq(self.k, j - 1), veq(self.sum, mk_sum(self.a.shape[1], lambda d: self.old((j - 1, d))))))
            c.prove(f'rows so far are divided by their sum, others as before ({what})', self.fact(j))

    def init(c, mkit):
        n, K, D = sym(c, 'n', lo=1), sym(c, 'K', lo=1), sym(c, 'D', lo=1)
        x = SArr.fresh('x', (n, D), 'i', 0, 1)
        lp = Norm()
        it = mkit(loops=[lp])
        o = new(c, it, K)
        put(o, x=x)
        c.ro = {id(x.cell): 'x'}
        returns(c, it, BMM.init_params, [o])
        if not all(isinstance(getattr(o, a, None), SArr) for a in ('pi', 'mu')) or not hasattr(lp, 'k'):
            raise Unsupported('initial parameters')
        k = lp.k
        c.prove('one weight per component', And(o.pi.ndim == 1, veq(o.pi.shape[0], K)))
        c.prove('initial weights are equal', mk(to_real(o.pi.elem(k)) * z3.ToReal(term(K)) == 1))
        c.prove('one mean per component and bit', And(o.mu.ndim == 2, veq(o.mu.shape[0], K), veq(o.mu.shape[1], D)))
        m, u, s = o.mu.elem(k, lp.d), lp.old((k, lp.d)), lp.sum
        c.assume(mk(term(s) >= term(u)))     # a sum of non-negative terms is at least each of them
        c.prove('initial means are in (0, 1]', And(m > 0, m <= 1))
        c.prove('the number of samples is kept', veq(o.n_samples, n))
    out.append(Job('BMM.init_params', init))

    class EM(LoopContract):
        name = 'expectation maximisation steps'

        def __init__(self, W):
            self.W = W

        def match(self, it, s, fr, si):
            return fr.name.split('.')[-1] == 'fit' and si is not None

        def enter(self, c, L):
            W = self.W
            o = W.o
            if not all(isinstance(getattr(o, a, None), SArr) for a in ('pi', 'mu')):
                raise NoRole('parameters')
            lbs = [n for n, v in L.fr.locals.items() if isinstance(v, SArr) and v is not W.x]
            if len(lbs) != 1:
                raise NoRole('log likelihoods')
            self.lb = lbs[0]
            for a in ('pi', 'mu', 'gamma', 'Neff', 'logL', 'old_logL', 'old_mu', 'old_pi', 'old_gamma'):
                L.cover_attr(o, a)
            self.seen = False

        def havoc(self, c, L, t):
            W, o = self.W, self.W.o
            W.t = t
            o.pi, o.mu = W.PI(t), W.MU(t)
            L.set(self.lb, W.LB(t))
            for a in ('gamma', 'Neff', 'old_mu', 'old_pi', 'old_gamma'):
                o.__dict__.pop(a, None)
            # the log likelihood of the parameters is known unless no step was made
            o.logL = W.LL(t)
            o.old_logL = W.LL(t)
            c.assume(Implies(t > 0, Not(mk(W.isnan(t)))))

        def check(self, c, L, t, what):
            W, o = self.W, self.W.o
            k, i, d = W.k, W.i, W.d
            c.prove(f'the weights are those of step t ({what})', W.same(o.pi, W.PI(t), (k,)))
            c.prove(f'the means are those of step t ({what})', W.same(o.mu, W.MU(t), (k, d)))
            c.prove(f'the log likelihoods are those of step t ({what})', W.same(L.get(self.lb), W.LB(t), (i, k)))
            if what != 'on entry':
                c.prove(f'the log likelihood is that of step t ({what})', W.same_ll(o.logL, t))

        def on_break(self, c, L, t):
            self.W.stopped = t

    class World:
        pass

    def fit(c, mkit):
        W = World()
        W.stopped = None
        W.n, W.K, W.D = n, K, D = sym(c, 'n', lo=1), sym(c, 'K', lo=1), sym(c, 'D', lo=1)
        W.x = SArr.fresh('x', (n, D), 'i', 0, 1)
        c.ro = {id(W.x.cell): 'x'}
        fn = lambda name, m: (lambda F: lambda t, shape: SArr.new(shape, lambda ix: mk(F(term(t), *[term(j) for j in ix])), 'f'))(c.fresh_fn(name, *(['int'] * m), 'real'))
        pi, mu, lb, ga = fn('PI', 2), fn('MU', 3), fn('LB', 3), fn('GA', 3)
        W.PI, W.MU = (lambda t: pi(t, (K,))), (lambda t: mu(t, (K, D)))
        W.LB, W.GA = (lambda t: lb(t, (n, K))), (lambda t: ga(t, (n, K)))
        L_, N_ = c.fresh_fn('LL', 'int', 'real'), c.fresh_fn('LLnan', 'int', 'bool')
        W.isnan = lambda t: N_(term(t))
        W.LL = lambda t: mk(L_(term(t)), N_(term(t)))
        W.i, W.k, W.d = idx(c, 'i_any', n), idx(c, 'k_any', K), idx(c, 'd_any', D)
        W.t = 0

        def same(a, b, ix):
            if not isinstance(a, SArr) or a.ndim != len(ix):
                raise Unsupported('parameters')
            return And(*[veq(p, r) for p, r in zip(a.shape, b.shape)], veq(a.elem(*ix), b.elem(*ix)))

        def same_ll(v, t):
            if not isS(v):
                raise Unsupported('log likelihood')
            from pyvc.terms import nan_of
            vn = nan_of(v)
            vn = z3.BoolVal(False) if vn is None or vn is False else vn
            return And(mk(vn == W.isnan(t)), Implies(Not(mk(W.isnan(t))), mk(v.t == L_(term(t)))))
        W.same, W.same_ll = same, same_ll
        k, i, d = W.k, W.i, W.d

        def at(v, f, ix):
            """the step whose quantity the value is: the current one, the next or the one before"""
            for o in (0, 1, -1):
                if isinstance(v, SArr) and v.ndim == len(ix) and c.implied(same(v, f(W.t + o), ix)):
                    return o
            raise Unsupported('a quantity computed otherwise than by the step functions')

        def is_x(o):
            if getattr(o, 'x', None) is not W.x:
                raise Unsupported('samples')

        def c_init(it, args, kw):
            o = args[0]
            is_x(o)
            put(o, pi=W.PI(0), mu=W.MU(0), n_samples=n, n_features=D)

        def c_lb(it, args, kw):
            if len(args) != 2 or args[1] is not W.x:
                raise Unsupported('samples')
            return W.LB(W.t + at(getattr(args[0], 'mu', None), W.MU, (k, d)))

        def lbt(o, v):
            t = at(v, W.LB, (i, k))
            p = at(getattr(o, 'pi', None), W.PI, (k,))
            c.prove('log likelihoods and weights are of the same step', p == t)
            if p != t:
                raise PathEnd()
            return W.t + t

        def tt(f):
            return lambda it, args, kw: f(args[0], *args[1:])

        def c_ll(o, v):
            return W.LL(lbt(o, v))

        def c_resp(o, v):
            return W.GA(lbt(o, v))

        # the M-step: Neff, mu and pi of gamma (job get_Neff, get_mu, get_pi)
        ne = fn('NEFF', 2)

        def c_neff(o):
            o.Neff = ne(W.t + at(getattr(o, 'gamma', None), W.GA, (i, k)), (K,))

        def c_mu(o):
            is_x(o)
            t = at(getattr(o, 'gamma', None), W.GA, (i, k))
            u = at(getattr(o, 'Neff', None), lambda s: ne(s, (K,)), (k,))
            c.prove('means are updated from the responsibilities of the step', u == t)
            if u != t:
                raise PathEnd()
            o.mu = W.MU(W.t + t + 1)

        def c_pi(o):
            u = at(getattr(o, 'Neff', None), lambda s: ne(s, (K,)), (k,))
            if getattr(o, 'n_samples', None) is not n:
                raise Unsupported('number of samples')
            o.pi = W.PI(W.t + u + 1)
        lp = EM(W)
        it = mkit(loops=[lp], contracts={BMM.init_params: c_init, BMM.get_log_bernoullis: c_lb, BMM.get_log_likelihood: tt(c_ll), BMM.get_responsibilities: tt(c_resp),
                                         BMM.get_Neff: tt(c_neff), BMM.get_mu: tt(c_mu), BMM.get_pi: tt(c_pi)})
        mi = sym(c, 'max_iter', lo=0)
        o = W.o = new(c, it, K, mi)
        returns(c, it, BMM.fit, [o, W.x])
        if W.stopped is None:
            T = mi
        else:
            T = W.stopped
            c.prove('fitting stops early only if the likelihood of a step is not a number', mk(W.isnan(T + 1)))
        c.prove('the weights are those of the last valid step', W.same(o.pi, W.PI(T), (k,)))
        c.prove('the means are those of the last valid step', W.same(o.mu, W.MU(T), (k, d)))
        c.prove('the log likelihood kept is that of the parameters', Or(veq(mi, 0), W.same_ll(o.logL, T)))
        c.prove('fitting does not return parameters of undefined likelihood', Or(veq(T, 0), Not(mk(W.isnan(T)))))
    out.append(Job('BMM.fit', fit))
    return out


def to_r(x):
    return cast(x, 'f')


def num_only(v):
    return mk(v.t) if isS(v) else v


def inst_max(c, mx, d, k, f):
    return f()


# ------------------------------------------------------------------------------------------------ run-time check
def P(mu):
    mu = np.where(mu.max(axis=0) <= 1e-15, 1e-15, mu)
    return np.where(mu < 1e-200, 1e-200, mu)


def loglik(x, mu):
    one = np.asarray(x) != 0
    a, b = np.log(P(mu)), np.log(P(1 - mu))
    return np.stack([np.where(one, a[k], b[k]).sum(axis=1) for k in range(len(mu))], axis=1)


def mixture(x, pi, mu):
    """responsibilities and log likelihood per sample"""
    with np.errstate(all='ignore'):
        t = np.log(pi)[None, :] + loglik(x, mu)
        m = t.max(axis=1, keepdims=True)
        e = np.exp(t - m)
        s = e.sum(axis=1, keepdims=True)
        return e / s, (m + np.log(s))[:, 0]


def step(x, pi, mu):
    g, _ = mixture(x, pi, mu)
    N = g.sum(axis=0)
    with np.errstate(all='ignore'):
        return N / len(x), (g.T @ x) / N[:, None], N


def rounded(mu):
    """the means with other roundings"""
    r = np.random.RandomState(1)
    yield mu
    for _ in range(3):
        yield np.clip(mu * (1 + r.choice([-4e-16, 0, 4e-16], size=mu.shape)), 0, 1)
    yield np.where(mu > 1 - 1e-14, 1.0, mu)
    yield np.where(mu > 1 - 1e-14, 1 - 2.0 ** -53, mu)
    yield np.where(mu < 1e-14, 0.0, mu)


def stable(vals):
    """the first value if rounding of the means does not matter, else None"""
    vals = list(vals)
    return vals[0] if all(close(v, vals[0]) for v in vals[1:]) else None


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=1e-9, equal_nan=False)


def check(case):
    kind, X, K, mi, seed, dt, Y = case
    x = np.array(X, dtype=dt).reshape(len(X), -1)
    keep = x.copy()
    hist = []
    RS = np.random.RandomState

    def seeded(*a, **kw):
        return RS(seed)
    old, st = np.random.RandomState, np.random.get_state()
    out = sys.stdout
    try:
        for m in range(0, mi + 1):
            np.random.RandomState = seeded
            np.random.seed(seed)
            sys.stdout = io.StringIO()
            b = BMM(K, m)
            with np.errstate(all='ignore'):
                b.fit(x)
            np.random.RandomState = old
            sys.stdout = out
            hist.append((np.array(b.pi, float), np.array(b.mu, float), getattr(b, 'logL', None)))
    finally:
        np.random.RandomState = old
        np.random.set_state(st)
        sys.stdout = out
    if not np.array_equal(x, keep):
        return 'fitting modified the samples'
    pi, mu, _ = hist[0]
    if pi.shape != (K,) or mu.shape != (K, x.shape[1]):
        return f'shapes {pi.shape} {mu.shape} of the initial parameters'
    if not np.allclose(pi, 1 / K) or not (np.all(mu > 0) and np.all(mu <= 1)):
        return f'initial parameters {pi} {mu}'
    stopped = False
    for m in range(1, mi + 1):
        p0, m0, _ = hist[m - 1]
        p1, m1, ll = hist[m]
        if not (np.all(np.isfinite(p1)) and np.all(np.isfinite(m1))):
            return f'parameters are not numbers after {m} iterations'
        if abs(p1.sum() - 1) > 1e-9 or (p1 < 0).any():
            return f'weights {p1} after {m} iterations'
        if (m1 < -1e-12).any() or (m1 > 1 + 1e-9).any():
            return f'means outside [0, 1] after {m} iterations'
        same = close(p1, p0) and close(m1, m0)
        steps = [step(x, p0, v) for v in rounded(m0)]
        N = steps[0][2]
        if stopped or all((v[2] == 0).any() for v in steps):
            stopped = True
            if not same:
                return f'step {m} is undefined (a component has no samples) but the parameters changed'
        elif any((v[2] < 1e-280).any() for v in steps) or same and (steps[0][1] > 1 - 1e-12).any():
            stopped = same       # on the edge of underflow, or a mean rounded above 1 (its likelihood is no number)
        else:
            wp, wm = stable(v[0] for v in steps), stable(v[1] for v in steps)
            if wp is not None and not close(p1, wp) or wm is not None and not close(m1, wm):
                return f'step {m}: weights {p1} means {str(m1.tolist())[:300]}, expectation maximisation gives {wp} {str(wm.tolist())[:300]}'
        want = stable(mixture(x, p1, v)[1].mean() for v in rounded(m1))
        if ll is None or want is not None and not close(ll, want):
            return f'log likelihood {ll} kept after {m} iterations, that of the parameters is {want}'
    # use of the fitted mixture
    pi, mu, _ = hist[-1]
    y = np.array(Y, dtype=dt).reshape(len(Y), -1)
    keep = y.copy()
    with np.errstate(all='ignore'):
        lab, sc, ss = np.asarray(b.predict(y)), b.score(y), np.asarray(b.score_samples(y))
    if not np.array_equal(y, keep):
        return 'prediction modified the samples'
    if not np.array_equal(b.pi, pi) or not np.array_equal(b.mu, mu):
        return 'prediction changed the parameters'
    vs = [mixture(y, pi, v) for v in rounded(mu)]
    g, l = vs[0]
    if lab.shape != (len(y),):
        return f'labels of shape {lab.shape}'
    for i, k in enumerate(lab):
        if not 0 <= int(k) < K or all(v[0][i, int(k)] < v[0][i].max() * (1 - 1e-7) - 1e-12 for v in vs):
            return f'sample {i} is assigned to component {k}; responsibilities {g[i]}'
    if ss.shape != (len(y),):
        return f'scores of shape {ss.shape}'
    for i in range(len(y)):
        if stable(v[1][i] for v in vs) is not None and not close(ss[i], l[i]):
            return f'score of sample {i} is {ss[i]}, log likelihood {l[i]}'
    if stable(v[1].mean() for v in vs) is not None and not close(sc, l.mean()):
        return f'score {sc}, mean log likelihood {l.mean()}'


def cases(rng, tier, part, nparts):
    def bits(n, d, protos, noise):
        out = []
        for _ in range(n):
            p = protos[rng.randrange(len(protos))]
            out.append([b ^ (rng.random() < noise) for b in p])
        return [[int(v) for v in r] for r in out]
    def far():
        # few samples far apart and many components: some component loses all samples
        d, K = rng.choice([1800, 2500, 3500]), rng.choice([6, 12, 20])
        a = [rng.randrange(2) for _ in range(d)]
        X = [a, [1 - v for v in a]]
        return ('far', X, K, rng.choice([3, 5]), rng.randrange(1 << 30), 'int64', [X[0], [rng.randrange(2) for _ in range(d)]])
    for _ in range(4):
        yield far()
    while True:
        if rng.random() < 0.15:
            yield far()
        d = rng.choice([1, 2, 3, 5, 8, 20, 60, 300])
        n = rng.choice([1, 2, 3, 5, 10, 30]) if d < 100 else rng.choice([2, 4, 8])
        K = rng.choice([1, 2, 2, 3, 4, 6])
        protos = [[rng.randrange(2) for _ in range(d)] for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.2:
            protos = [[rng.randrange(2)] * d for _ in range(2)]
        noise = rng.choice([0, 0.02, 0.1, 0.3])
        X = bits(n, d, protos, noise)
        Y = bits(rng.choice([1, 2, 7]), d, protos + [[rng.randrange(2) for _ in range(d)]], rng.choice([0, 0.2]))
        mi = rng.choice([1, 2, 3, 6, 15])
        yield ('fit', X, K, mi, rng.randrange(1 << 30), rng.choice(['int64', 'int64', 'uint8', 'float64', 'int8']), Y)


TRUSTED = [
    'scipy logsumexp(a, axis=1) is the logarithm of the sum of the exponentials of each row',
    'np.tensordot and np.einsum with two operands are the sums of products over the contracted axis',
    'RandomState.uniform(low, high, size) returns values in [low, high)',
]
ASSUMPTIONS = [
    'Real arithmetic; weights are positive in the proof (a weight that underflows to 0 is covered by the bounded run-time check only).',
    'Exchange of the sums over samples and components (weights sum to 1) is taken from the induction steps proved in the lemma job.',
    'A sum of non-negative terms is at least each of its terms (induction on the length).',
    'fit is verified against the contracts of its steps; that a likelihood is NaN exactly when a component lost all samples is left to the run-time check.',
]
