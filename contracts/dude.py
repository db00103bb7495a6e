"""Contracts of the two denoisers (C19, C20): ghost context dictionaries, channel, expected-loss specification."""
from .common import *
from .clus import put
from pyvc.loops import LoopContract, NoRole
from pyvc.models import SymTuple, tup_parts
from pyvc.interp import truth_nb
import ast


def rows(v, x):
    """entry x of the 2 x 2 matrix with rows (v0, 1 - v0) and (v1, 1 - v1)"""
    def row(r):
        return ite(veq(x[1], 0), v[r], 1 - v[r])
    return ite(veq(x[0], 0), row(0), row(1))


def inverse_lemma(c, mkit):
    """a stochastic 2 x 2 matrix with an inverse: the rows of the inverse sum to one and every symbol can be produced"""
    t, i = SArr.fresh('T', (2, 2), 'f', 0, 1).elem, SArr.fresh('Ti', (2, 2), 'f').elem
    for a in (0, 1):
        c.assume(veq(t(a, 0) + t(a, 1), 1))
        for b in (0, 1):
            c.assume(veq(t(a, 0) * i(0, b) + t(a, 1) * i(1, b), int(a == b)))
    cover(c)
    c.prove('lemma: the rows of the inverse channel sum to one', And(veq(i(0, 0) + i(0, 1), 1), veq(i(1, 0) + i(1, 1), 1)), kind='lemma', ms=30000)
    for o in (0, 1):
        c.prove(f'lemma: some input can produce symbol {o}', Or(t(0, o) > 0, t(1, o) > 0), kind='lemma')


class Channel:
    """a binary channel with an invertible transition matrix and its inverse.  The rows of both sum to one (for the
    inverse: lemma, proved by inverse_lemma from T Ti = I, the contract of np.linalg.inv)"""
    def __init__(self, c):
        t, i = [c.fresh('t%d' % r, 'real') for r in (0, 1)], [c.fresh('inv%d' % r, 'real') for r in (0, 1)]
        for x in t:
            c.assume(And(x >= 0, x <= 1))
        self.T = SArr.new((2, 2), lambda x: rows(t, x), 'f')
        self.Ti = SArr.new((2, 2), lambda x: rows(i, x), 'f')
        self.loss = SArr.fresh('loss', (2, 2), 'f')
        T = self.T.elem
        for o in (0, 1):
            c.assume(Or(T(0, o) > 0, T(1, o) > 0))     # second part of the lemma
        c.ro = dict(c.ro or {})
        for n in ('T', 'Ti', 'loss'):
            c.ro[id(getattr(self, n).cell)] = n

    def estimate(self, cnt):
        """counts @ Ti"""
        I = self.Ti.elem
        return [cnt(0) * I(0, s) + cnt(1) * I(1, s) for s in (0, 1)]

    def col(self, o, s):
        return ite(veq(o, 0), self.T.elem(s, 0), self.T.elem(s, 1)) if isS(o) else self.T.elem(s, o)

    def losses(self, cnt, o):
        """expected loss of the estimates 0 and 1"""
        e = self.estimate(cnt)
        p = [e[s] * self.col(o, s) for s in (0, 1)]
        return [p[0] * self.loss.elem(0, x) + p[1] * self.loss.elem(1, x) for x in (0, 1)]


def hard_obligations(c, ch, est, cost, cnt, o, kind='post', who='the sample'):
    l = ch.losses(cnt, o)
    c.prove('the estimate is a symbol of the alphabet', Or(veq(est, 0), veq(est, 1)), kind=kind)
    if isS(est):
        v = c.choose(2)
        c.assume(veq(est, v))
        alive(c)
        if isS(cost):
            cost = mk(z3.substitute(cost.t, (est.t, z3.IntVal(v))))      # equal under the assumption
        est = v
    pick = ite(veq(est, 0), l[0], l[1])
    c.prove('the hard estimate minimises the expected loss under the counts of the context', And(pick <= l[0], pick <= l[1]), kind=kind, ms=10000)
    if cost is not None:
        c.prove('the cost is the expected loss of the estimate', veq(cost, pick), kind=kind, ms=10000)


def soft_vector(v):
    """the two components of a soft estimate, or None"""
    if isinstance(v, SArr):
        if v.ndim == 2 and v.shape == (1, 2):
            return [v.elem(0, 0), v.elem(0, 1)]
        if v.ndim == 1 and v.shape == (2,):
            return [v.elem(0), v.elem(1)]
    raise Unsupported('form of the soft estimate')


def same_tuple(c, a, b):
    """are two tuples of symbols equal in length and content"""
    na, ea = tup_parts(a)
    nb, eb = tup_parts(b)
    if na == 0 and not isS(na) or nb == 0 and not isS(nb):
        return veq(na, nb)
    i = c.fresh('ti', 'int')
    return And(veq(na, nb), Implies(And(i >= 0, i < nb), veq(ea(i), eb(i))))


class GContexts:
    """an arbitrary record of contexts, seen through the one key the contract is about"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, key, has, rec, kind='post'):
        self.key, self.has, self.rec, self.kind = key, has, rec, kind
        self.used = 0

    def use(self, it, k):
        if not isinstance(k, (SymTuple, tuple)):
            raise Unsupported('key of a context record')
        c = ctx()
        if not any(x is k for x in self.__dict__.setdefault('seen', [])):
            self.seen.append(k)
            c.prove('the record consulted is that of the k samples that preceded the observation', same_tuple(c, k, self.key), kind=self.kind)
        self.used += 1

    def _pyvc_contains(self, it, k):
        self.use(it, k)
        return self.has

    def _pyvc_getitem(self, it, k):
        self.use(it, k)
        if not it.branch(truth_nb(self.has)):
            raise Raised(KeyError('context'))
        return self.rec

    def _pyvc_setitem(self, it, k, v):
        self.use(it, k)
        self.has, self.rec = True, v

    def _pyvc_getattr(self, it, name):
        if name in ('get', 'setdefault'):
            d = self

            class M:
                def _pyvc_call(self, it, args, kw):
                    d.use(it, args[0])
                    if it.branch(truth_nb(d.has)):
                        return d.rec
                    v = args[1] if len(args) > 1 else None
                    if name == 'setdefault':
                        d.has, d.rec = True, v
                    return v
            return M()
        raise Unsupported('operation on the context record: ' + name)


def inv_contract(ch):
    def h(it, args, kw):
        a = args[0]
        if not isinstance(a, SArr) or kw:
            raise Unsupported('np.linalg.inv')
        same = And(*[veq(a.elem(i, j), ch.T.elem(i, j)) for i in (0, 1) for j in (0, 1)])
        ctx().prove('the channel matrix is what is inverted', same, kind='pre')
        return ch.Ti
    return {np.linalg.inv: h}


def make(c, it, cls, ch, k, hard, explicit=True):
    d = it.call(cls, [ch.T, ch.loss, k, hard] + ([2] if explicit else []), {})
    return d


def online(c, it, ch, k, hard, full):
    """a denoiser in an arbitrary state reached by any history: fewer than k samples seen (full=False) or a full context"""
    from inference.dude import OnlineDude
    d = make(c, it, OnlineDude, ch, k, hard)
    if type(d.contexts) is not dict or d._last_context != ():
        raise Unsupported('representation of the contexts')
    m = c.fresh('seen', 'int')
    c.assume(And(m >= 0, m < k) if not full else veq(m, k))
    ca = SArr.fresh('context', (m,), 'i', 0, 1)
    old = SymTuple(m, lambda i: ca.elem(i))
    has = c.fresh('known', 'bool')
    n0, n1 = c.fresh('n0', 'real'), c.fresh('n1', 'real')
    c.assume(And(n0 >= 0, n1 >= 0))
    cnt = SArr.new((2,), lambda x: ite(veq(x[0], 0), n0, n1), 'f')
    g = GContexts(old, has, cnt)
    put(d, contexts=g, _last_context=old)
    before = [ite(has, cnt.elem(s), 0) for s in (0, 1)]
    return d, old, g, before


def online_jobs():
    from inference.dude import OnlineDude
    out = [Job('inverse of a stochastic matrix', inverse_lemma)]

    def untouched(c, d, g, old, before, what):
        c.prove(f'{what}: no record changes', And(*[veq(ite(g.has, lambda: g.rec.elem(s), 0) if isinstance(g.rec, SArr) else 0, before[s]) for s in (0, 1)]))

    def first(hard):
        def body(c, mkit):
            ch = Channel(c)
            it = mkit(contracts=inv_contract(ch))
            k = sym(c, 'k', lo=1)
            d, old, g, before = online(c, it, ch, k, hard, False)
            o = sym(c, 'observation', lo=0, hi=1)
            r = returns(c, it, OnlineDude.denoise_sample, [d, o])
            if not isinstance(r, tuple) or len(r) != 2:
                raise Unsupported('result of denoise_sample')
            e, cost = r
            if hard:
                c.prove('one of the first k samples is passed through', veq(e, o))
            else:
                v = soft_vector(e)
                c.prove('one of the first k samples is passed through', And(veq(v[0], 1 - o), veq(v[1], o)))
            c.prove('at zero cost', veq(cost, 0))
            c.prove('no context is counted', g.used == 0 and d.contexts is g)
            untouched(c, d, g, old, before, 'first samples')
            c.prove('the sample is appended to the context', same_tuple(c, d._last_context, old._pyvc_binop(it, ast.Add(), (o,), False)))
        return body

    def later(hard):
        def body(c, mkit):
            ch = Channel(c)
            it = mkit(contracts=inv_contract(ch))
            k = sym(c, 'k', lo=0)
            d, old, g, before = online(c, it, ch, k, hard, True)
            o = c.choose(2)            # both symbols of the alphabet
            r = returns(c, it, OnlineDude.denoise_sample, [d, o])
            if not isinstance(r, tuple) or len(r) != 2:
                raise Unsupported('result of denoise_sample')
            e, cost = r
            now = [before[s] + ite(veq(o, s), 1, 0) for s in (0, 1)]
            if d.contexts is not g:
                raise Unsupported('the record of contexts is replaced')
            rec = g.rec
            c.prove('the observation is counted exactly once in the record of its context',
                    And(g.has, *[veq(rec.elem(s), now[s]) for s in (0, 1)]) if isinstance(rec, SArr) and rec.shape == (2,) else False)
            nk, ek = tup_parts(d._last_context)
            i = c.fresh('i', 'int')
            c.prove('the context slides by one sample', And(veq(nk, k), Implies(And(i >= 0, i < k), veq(ek(i), ite(i < k - 1, lambda: old.el(i + 1), o)))))
            if hard:
                hard_obligations(c, ch, e, cost, lambda s: now[s], o)
            else:
                soft_obligations(c, ch, soft_vector(e), lambda s: now[s], o, cost)
        return body
    for hard in (True, False):
        w = 'hard' if hard else 'soft'
        out.append(Job(f'OnlineDude.denoise_sample, first k samples ({w})', first(hard)))
        out.append(Job(f'OnlineDude.denoise_sample, full context ({w})', later(hard), timeout_ms=15000))

    def bad(full):
        def body(c, mkit):
            ch = Channel(c)
            it = mkit(contracts=inv_contract(ch))
            k = sym(c, 'k', lo=0)
            d, old, g, before = online(c, it, ch, k, bool(c.choose(2)), full)
            o = sym(c, 'observation')
            c.assume(Or(o < 0, o > 1))
            had = g.has
            r, e = outcome(it, OnlineDude.denoise_sample, [d, o])
            c.prove('an observation outside the alphabet is rejected', r == 'exc' and isinstance(e, ValueError))
            untouched(c, d, g, old, before, 'rejected observation')
            c.prove('a rejected observation leaves the context alone', d.contexts is g and (d._last_context is old or same_tuple(c, d._last_context, old)))
            c.prove('a rejected observation adds no record', Implies(g.has, had))
        return body
    for full in (False, True):
        out.append(Job(f'OnlineDude.denoise_sample, observation outside the alphabet ({"full" if full else "partial"} context)', bad(full)))

    def reset(c, mkit):
        ch = Channel(c)
        it = mkit(contracts=inv_contract(ch))
        k = sym(c, 'k', lo=0)
        d, old, g, before = online(c, it, ch, k, True, bool(c.choose(2)))
        returns(c, it, OnlineDude.reset, [d])
        fresh = make(c, it, OnlineDude, ch, k, True)
        a, b = vars(d), vars(fresh)
        c.prove('after a reset nothing is remembered', d.contexts == {} and type(d.contexts) is dict and same_tuple(c, d._last_context, ()))
        c.prove('a reset keeps the configuration', set(a) == set(b) and And(veq(a['k'], k), a['hard_decision'] is True, veq(a['alphabet_size'], 2),
                a['channel_transition_matrix'] is b['channel_transition_matrix'], a['loss_matrix'] is b['loss_matrix']))
    out.append(Job('OnlineDude.reset', reset))

    def init(c, mkit):
        ch = Channel(c)
        it = mkit(contracts=inv_contract(ch))
        k = sym(c, 'k', lo=0)
        d, old, g, before = online(c, it, ch, k, True, bool(c.choose(2)))
        m = sym(c, 'm', lo=0)
        ca = SArr.fresh('given', (m,), 'i', 0, 1)
        t = SymTuple(m, lambda i: ca.elem(i))
        r, e = outcome(it, OnlineDude.initial_context, [d, t])
        c.prove('a context of length k is accepted, any other rejected', Iff(veq(m, k), r == 'ret'))
        if r == 'ret':
            c.prove('the given context is used', same_tuple(c, d._last_context, t))
        else:
            c.prove('rejected with ValueError', isinstance(e, ValueError))
            c.prove('a rejected context leaves the context alone', same_tuple(c, d._last_context, old))
        untouched(c, d, g, old, before, 'initial context')
    out.append(Job('OnlineDude.initial_context', init))

    class Seq(LoopContract):
        name = 'samples denoised in order'

        def __init__(self, W):
            self.W = W

        def match(self, it, s, fr, si):
            return fr.name.split('.')[-1] == 'denoise_sequence' and si is not None

        def enter(self, c, L):
            W = self.W
            arrs = [v for v in L.fr.locals.values() if isinstance(v, SArr) and v is not W.obs]
            e = [v for v in arrs if v.ndim == (1 if W.hard else 2) and v.kind == ('i' if W.hard else 'f')]
            k = [v for v in arrs if v.ndim == 1 and v.kind == 'f']
            if len(e) != 1 or len(k) != 1 or len(arrs) != 2:
                raise NoRole('arrays of estimates and costs')
            self.e, self.k = e[0], k[0]
            L.cover(self.e)
            L.cover(self.k)
            self.j = c.fresh('j_any', 'int')
            c.assume(And(self.j >= 0, Or(self.j < W.n, veq(W.n, 0))))

        def havoc(self, c, L, i):
            W = self.W
            W.calls = i
            for a in (self.e, self.k):
                a.cell.fn = SArr.fresh('part', a.shape, a.kind).reader()
                a.touch() if hasattr(a, 'touch') else None
            c.assume(self.fact(i))

        def fact(self, i):
            W, j = self.W, self.j
            r = [veq(self.k.elem(j), W.cost(j))]
            if W.hard:
                r.append(veq(self.e.elem(j), W.est(j, 0)))
            else:
                r += [veq(self.e.elem(j, s), W.est(j, s)) for s in (0, 1)]
            return Implies(And(j < i, j < W.n), And(*r))

        def check(self, c, L, i, what):
            c.prove(f'samples are denoised in order, each once ({what})', veq(self.W.calls, i))
            c.prove(f'estimates and costs so far are those of the samples ({what})', self.fact(i))

    class World:
        pass

    def seq(hard):
        def body(c, mkit):
            ch = Channel(c)
            W = World()
            W.hard, W.calls = hard, 0
            W.n = sym(c, 'n', lo=0)
            W.obs = SArr.fresh('observations', (W.n,), 'i', 0, 1)
            c.inputs.append(W.obs)
            c.ro = dict(c.ro or {})
            c.ro[id(W.obs.cell)] = 'observations'
            E = [c.fresh_fn(f'est{s}', 'int', 'int' if hard else 'real') for s in (0, 1)]
            K = c.fresh_fn('cost', 'int', 'real')
            W.est, W.cost = (lambda j, s: mk(E[s](term(j)))), (lambda j: mk(K(term(j))))

            def sample(it, args, kw):
                o = args[1] if len(args) > 1 else kw.get('observation')
                i = W.calls
                c.prove('the sample denoised is the next one of the sequence', And(i < W.n, veq(o, W.obs.elem(i))))
                W.calls = i + 1
                e = W.est(i, 0) if hard else SArr.new((1, 2), lambda idx: ite(veq(idx[1], 0), W.est(i, 0), W.est(i, 1)), 'f')
                return e, W.cost(i)
            con = inv_contract(ch)
            con[OnlineDude.denoise_sample] = sample
            lp = Seq(W)
            it = mkit(contracts=con, loops=[lp])
            d = make(c, it, OnlineDude, ch, sym(c, 'k', lo=0), hard)
            r = returns(c, it, OnlineDude.denoise_sequence, [d, W.obs])
            if not isinstance(r, tuple) or len(r) != 2 or not all(isinstance(x, SArr) for x in r) or not hasattr(lp, 'j'):
                raise Unsupported('result of denoise_sequence')
            es, cs = r
            j = lp.j
            c.prove('one estimate and one cost per observation', And(veq(es.shape[0], W.n), veq(cs.shape[0], W.n)))
            c.prove('every sample was denoised', veq(W.calls, W.n))
            c.prove('estimates are those of the samples', Implies(j < W.n, veq(es.elem(j), W.est(j, 0)) if hard else And(*[veq(es.elem(j, s), W.est(j, s)) for s in (0, 1)])))
            c.prove('costs are those of the samples', Implies(j < W.n, veq(cs.elem(j), W.cost(j))))
        return body
    for hard in (True, False):
        out.append(Job(f'OnlineDude.denoise_sequence ({"hard" if hard else "soft"})', seq(hard)))
    return out


def soft_obligations(c, ch, v, cnt, o, cost=None, kind='post'):
    e = ch.estimate(cnt)
    s0 = ite(e[0] < 1, 1, e[0])
    s1 = ite(And(e[0] >= 1, e[1] < 1), 1, e[1])
    p = [s0 * ch.col(o, 0), s1 * ch.col(o, 1)]
    c.prove('the components of the soft estimate are non-negative', And(v[0] >= 0, v[1] >= 0), kind=kind, ms=20000)
    c.prove('the components of the soft estimate sum to one', veq(v[0] + v[1], 1), kind=kind, ms=20000)
    c.prove('the soft estimate is the smoothed posterior under the counts', And(*[veq(v[s], mk(term(to_real(p[s])) / term(to_real(p[0] + p[1])))) for s in (0, 1)]), kind=kind, ms=20000)
    if cost is not None:
        l = ch.loss.elem
        c.prove('the cost is the expected loss of the soft estimate', veq(cost, sum((v[a] * v[b] * l(a, b) for a in (0, 1) for b in (0, 1)), 0)), kind=kind, ms=20000)


# ---------------------------------------------------------------------------------------------------------------------
# two-sided denoiser (C20)

class GTwoSided:
    """the record of two-sided contexts seen from one inner position I (arbitrary): the record of I's context is
    explicit, the record of any other context is arbitrary.  Every access must be by the context of the position the
    loop is at."""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, W, has, rec):
        self.W, self.has, self.rec = W, has, rec
        self.pos = None
        self.final = False

    def at(self, it, key):
        """is the key that of the focus position's context; creates the record of another context"""
        c, W = ctx(), self.W
        if self.pos is None:
            raise Unsupported('context record used outside the loops')
        if not any(x is key for x in self.seen):
            self.seen.append(key)
            c.prove('the context of a sample is its k left and k right neighbours', W.is_context(c, key, self.pos))
        if self.focus is None:
            self.focus = it.branch(W.same(self.pos) if not self.final else veq(self.pos, W.I))
            if not self.focus:
                cnt = SArr.fresh('other', (2,), 'f', 0)
                if self.final:
                    c.assume(cnt.elem(0) + cnt.elem(1) >= 1)       # the invariant of the first loop at this position
                    c.ro[id(cnt.cell)] = 'counts'
                self.other = [True if self.final else c.fresh('known', 'bool'), cnt]
        return self.focus

    def start(self, pos):
        self.pos, self.focus, self.seen = pos, None, []

    def _pyvc_contains(self, it, k):
        return self.has if self.at(it, k) else self.other[0]

    def _pyvc_getitem(self, it, k):
        f = self.at(it, k)
        if not it.branch(truth_nb(self.has if f else self.other[0])):
            raise Raised(KeyError('context'))
        return self.rec if f else self.other[1]

    def _pyvc_setitem(self, it, k, v):
        if self.final:
            raise Unsupported('context record changed in the second pass')
        if self.at(it, k):
            self.has, self.rec = True, v
        else:
            self.other = [True, v]

    def _pyvc_getattr(self, it, name):
        if name in ('get', 'setdefault'):
            d = self

            class M:
                def _pyvc_call(self, it, args, kw):
                    if it.branch(truth_nb(d._pyvc_contains(it, args[0]))):
                        return d._pyvc_getitem(it, args[0])
                    v = args[1] if len(args) > 1 else None
                    if name == 'setdefault':
                        d._pyvc_setitem(it, args[0], v)
                    return v
            return M()
        raise Unsupported('operation on the context record: ' + name)


class TwoSided:
    """shared state of the two passes"""
    def __init__(self, c, ch, n, k, obs, hard):
        self.c, self.ch, self.n, self.k, self.obs, self.hard = c, ch, n, k, obs, hard
        self.I = c.fresh('I', 'int')                      # an arbitrary inner position
        self.J = c.fresh('J', 'int')                      # an arbitrary edge position
        self.inner = c.choose(2) == 0                     # are there inner samples at all
        if self.inner:
            c.assume(And(self.I >= k, self.I < n - k))
            alive(c)
        else:
            c.assume(n - k <= k)
            alive(c)
        self.E = c.fresh_fn('samectx', 'int', 'bool')
        self.Nf = [c.fresh_fn(f'N{s}', 'int', 'int') for s in (0, 1)]
        c.assume(self.same(self.I))
        self.g = None

    def same(self, p):
        """do positions p and I have the same two-sided context"""
        return mk(self.E(term(p)))

    def N(self, p, s):
        """number of positions k <= q < p with the context of I and symbol s"""
        return mk(self.Nf[s](term(p)))

    def base(self):
        return And(*[veq(self.N(self.k, s), 0) for s in (0, 1)])

    def step(self, p):
        """definition of N at p"""
        return And(*[veq(self.N(p + 1, s), self.N(p, s) + ite(And(self.same(p), veq(self.obs.elem(p), s)), 1, 0)) for s in (0, 1)])

    def is_context(self, c, key, p):
        k, o = self.k, self.obs
        i = c.fresh('ci', 'int')
        left, right = (lambda i: o.elem(p - k + i)), (lambda i: o.elem(p + 1 + i))
        if isinstance(key, tuple) and len(key) == 2 and all(isinstance(x, (SymTuple, tuple)) for x in key):
            (nl, el), (nr, er) = tup_parts(key[0]), tup_parts(key[1])
            r = And(veq(nl, k), veq(nr, k))
            if not isS(k) and k == 0:
                return r
            return And(r, Implies(And(i >= 0, i < k), And(veq(el(i), left(i)), veq(er(i), right(i)))))
        if isinstance(key, SymTuple):
            return And(veq(key.n, 2 * k), Implies(And(i >= 0, i < k), And(veq(key.el(i), left(i)), veq(key.el(k + i), right(i)))))
        raise Unsupported('key of a context record')

    def inner_range(self, c, si, what):
        """the loop runs over the inner positions in order"""
        if si is None or not isinstance(si, SymIter):
            raise NoRole('range of the loop')
        j = c.fresh('rj', 'int')
        c.assume(j >= 0)
        first = si.el(0)
        if not (isS(first) or isinstance(first, int)) or not c.implied(veq(first, self.k)) or not c.implied(veq(si.el(j), self.k + j)):
            raise NoRole('range of the loop')
        c.prove(f'{what} covers exactly the inner samples', ite(self.n - 2 * self.k > 0, veq(si.n, self.n - 2 * self.k), si.n <= 0))


class Counting(LoopContract):
    name = 'counts of the two-sided contexts'

    def __init__(self, W):
        self.W = W

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'denoise_sequence' and si is not None and self.W.g is None

    def enter(self, c, L):
        W = self.W
        W.inner_range(c, L.si, 'the first pass')
        d = [x for x, v in L.fr.locals.items() if type(v) is dict and not v]
        if len(d) != 1:
            raise NoRole('record of the contexts')
        self.d = d[0]

    def havoc(self, c, L, i):
        W = self.W
        p = W.k + i
        has = c.fresh('known', 'bool')
        n0, n1 = c.fresh('n0', 'int'), c.fresh('n1', 'int')
        cnt = SArr.new((2,), lambda x: ite(veq(x[0], 0), cast(n0, 'f'), cast(n1, 'f')), 'f')
        W.g = GTwoSided(W, has, cnt)
        c.assume(And(n0 >= 0, n1 >= 0))
        c.assume(W.base())
        c.assume(self.fact(W, p, has, [n0, n1]))
        W.counts = [n0, n1]
        L.set(self.d, W.g)
        W.g.mark = 'loop 1'

    def fact(self, W, p, has, n):
        return And(*[veq(ite(has, n[s], 0), W.N(p, s)) for s in (0, 1)], *[W.N(p, s) >= 0 for s in (0, 1)],
                   Implies(W.I < p, And(has, W.N(p, 0) + W.N(p, 1) >= 1)) if W.inner else True)

    def body_start(self, c, L, i):
        W = self.W
        c.assume(W.step(W.k + i))
        W.g.start(W.k + i)

    def check(self, c, L, i, what):
        W = self.W
        if what == 'on entry':
            return
        g = W.g
        if L.fr.locals.get(self.d) is not g:
            raise Unsupported('record of the contexts replaced')
        r = g.rec
        if not (isinstance(r, SArr) and r.ndim == 1):
            raise Unsupported('record of a context')
        p = W.k + i
        c.prove('every sample is counted once under its own context and under no other',
                And(veq(r.shape[0], 2), *[veq(ite(g.has, lambda: r.elem(s), 0), W.N(p, s)) for s in (0, 1)]))
        c.prove('a counted context has a record with at least one symbol',
                And(*[W.N(p, s) >= 0 for s in (0, 1)], Implies(W.I < p, And(g.has, W.N(p, 0) + W.N(p, 1) >= 1)) if W.inner else True), kind='inv')

    def done(self, c, L):
        g = self.W.g
        c.ro[id(g.rec.cell)] = 'counts'
        g.final = True


class Estimating(LoopContract):
    name = 'estimates of the inner samples'

    def __init__(self, W):
        self.W = W

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'denoise_sequence' and si is not None and self.W.g is not None

    def enter(self, c, L):
        W = self.W
        W.inner_range(c, L.si, 'the second pass')
        arrs = [v for v in L.fr.locals.values() if isinstance(v, SArr) and v is not W.obs]
        e = [v for v in arrs if v.ndim == (1 if W.hard else 2) and v.kind == ('i' if W.hard else 'f')]
        k = [v for v in arrs if v.ndim == 1 and v.kind == 'f']
        if len(e) != 1 or len(k) > 1 or len(arrs) != len(e) + len(k):
            raise NoRole('arrays of estimates and costs')
        self.e, self.k = e[0], k
        W.e = self.e
        for a in [self.e] + k:
            L.cover(a)

    def val(self, i, e=None):
        e = self.e if e is None else e
        return [e.elem(i)] if self.W.hard else [e.elem(i, s) for s in (0, 1)]

    def done(self, c, L):
        if self.W.inner:
            self.last = self.val(self.W.I)

    def edge(self, W, e=None):
        e = self.e if e is None else e
        if W.hard:
            w = veq(e.elem(W.J), W.obs.elem(W.J))
        else:
            w = And(*[veq(e.elem(W.J, s), ite(veq(W.obs.elem(W.J), s), 1, 0)) for s in (0, 1)])
        return Implies(And(W.J >= 0, W.J < W.n, Or(W.J < W.k, W.J >= W.n - W.k)), w)

    def havoc(self, c, L, i):
        W = self.W
        for a in [self.e] + self.k:
            a.cell.fn = SArr.fresh('part', a.shape, a.kind).reader()
        c.assume(self.edge(W))
        self.before = self.val(W.I) if W.inner else None
        self.pos = W.k + i

    def body_start(self, c, L, i):
        self.W.g.start(W_pos(self.W, i))

    def check(self, c, L, i, what):
        W = self.W
        c.prove(f'edge samples are as observed ({what})', self.edge(W))
        if what == 'on entry' or not W.inner:
            return
        now = self.val(W.I)
        if L.it.branch(veq(W.I, self.pos)):
            self.phi(c, L, now)
        else:
            c.prove('the estimate of a sample is not changed when another sample is estimated', And(*[veq(a, b) for a, b in zip(now, self.before)]))

    def phi(self, c, L, now):
        """the specification of the estimate at I"""
        W = self.W
        end = [W.counts[s] for s in (0, 1)]
        for o in (0, 1):
            if L.it.branch(veq(W.obs.elem(W.I), o)):
                break
        if W.hard:
            hard_obligations(c, W.ch, now[0], None, lambda s: cast(end[s], 'f'), o)
        else:
            soft_obligations(c, W.ch, now, lambda s: cast(end[s], 'f'), o)


def W_pos(W, i):
    return W.k + i


def twosided_jobs():
    from inference.dude import DUDE
    out = []

    def seq(hard, zero):
        def body(c, mkit):
            ch = Channel(c)
            n = sym(c, 'n', lo=1)
            k = 0 if zero else sym(c, 'k', lo=1)
            obs = SArr.fresh('observations', (n,), 'i', 0, 1)
            c.inputs.append(obs)
            c.ro[id(obs.cell)] = 'observations'
            W = TwoSided(c, ch, n, k, obs, hard)
            lp = Estimating(W)
            it = mkit(contracts=inv_contract(ch), loops=[Counting(W), lp])
            d = make(c, it, DUDE, ch, k, hard)
            r = returns(c, it, DUDE.denoise_sequence, [d, obs])
            if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[0], SArr) or r[0].ndim != (1 if hard else 2):
                raise Unsupported('result of denoise_sequence')
            es = r[0]
            c.prove('one estimate per observation', veq(es.shape[0], n))
            c.prove('edge samples are as observed', lp.edge(W, es))
            if W.inner:
                if not hasattr(lp, 'last'):
                    raise Unsupported('no second pass')
                c.prove('the estimates of the second pass are returned', And(*[veq(a, b) for a, b in zip(lp.val(W.I, es), lp.last)]))
        return body
    for hard in (True, False):
        for zero in (False, True):
            out.append(Job(f'DUDE.denoise_sequence ({"hard" if hard else "soft"}, k {"= 0" if zero else ">= 1"})', seq(hard, zero), timeout_ms=15000))
    return out
