"""Contracts of the entropy aided denoiser (C21)."""
from .common import *
from .clus import put
from .c16 import Entropies
from scipy.stats import entropy as scipy_ent
from pyvc.sums import mk_sum, count
from pyvc.terms import f_log, f_exp
from pyvc.loops import LoopContract, NoRole
from inference.entropy_mle import EMLE

EPS = float(np.finfo(np.float64).eps)


def q(x):
    """exact rational of a float"""
    from fractions import Fraction
    return mk(z3.RealVal(str(Fraction(x))))


def clip01(x):
    return ite(x < 0, 0, ite(x > 1, 1, x))


class Model:
    """an EMLE in an arbitrary state: no buffer seen, or a window of m >= 1 buffers of L bits"""
    def __init__(self, c, it, E, hard, soft, seen, windowed):
        self.c, self.E = c, E
        self.f = sym(c, 'f', 'real')
        c.assume(And(self.f > 0, self.f * 2 < 1))
        self.thr = sym(c, 'threshold', 'real')
        self.win = sym(c, 'window', lo=1) if windowed else 0
        self.center, self.slope = sym(c, 'center'), sym(c, 'slope', 'real')
        self.L = sym(c, 'L', lo=1)
        self.e = it.call(EMLE, [self.f, self.thr, self.win, self.center, self.slope, hard, soft], {})
        e = self.e
        self.m = 0
        self.data = None
        if seen:
            self.m = sym(c, 'm', lo=1)
            self.full = False
            if windowed:
                self.full = c.choose(2) == 0
                c.assume(veq(self.m, self.win) if self.full else self.m < self.win)
            self.data = SArr.fresh('seen', (self.L, self.m), 'i', 0, 1)
            old = self.data.reader()
            self.buf = lambda j, b: old((j, b))
            # the values the previous update left (its postcondition): arbitrary probabilities and their entropies
            p1 = SArr.fresh('p1', (self.L,), 'f', 0, 1)
            ent = SArr.fresh('entropies', (self.L,), 'f', 0, 1)
            self.p1r, self.entr = p1.reader(), ent.reader()
            put(e, model_data=self.data, p1=p1, model_entropy=ent, model_size=self.m)
        self.config = {k: v for k, v in vars(e).items() if k not in ('model_data', 'p1', 'model_entropy', 'model_size')}

    def spec_p1(self, n, one, j):
        """fraction of ones corrected for the channel, clipped"""
        v = mk(z3.ToReal(term(mk_sum(n, lambda b: one(j, b)))) / z3.ToReal(term(n))) if isS(n) else cast(one(j, 0), 'f')
        return clip01((v - self.f) / (1 - 2 * self.f))

    def p1(self, j):
        return self.p1r((j,))

    def ent(self, j):
        return self.entr((j,))

    def H(self, p):
        """entropy in bits of (1 - p, p)"""
        return self.E.of(2, lambda i: ite(veq(i, 0), 1 - p, p) if isS(i) else (p if i else 1 - p), 2)

    def conf(self):
        x = -(self.m - self.center) * self.slope
        return ite(self.m <= 1, 0, lambda: mk(z3.RealVal(1) / (1 + term(f_exp(x)))))

    def window(self, bit):
        """(number, bit function (position, buffer)) of the model after observing the bits"""
        if self.data is None:
            return 1, lambda j, b: bit(j)
        n = self.win if self.full else self.m + 1
        off = 1 if self.full else 0

        def g(j, b):
            i = b + off
            return ite(i < self.m, lambda: self.buf(j, i), lambda: bit(j))
        return n, g


def emle_jobs():
    out = []

    def buffer(hard, soft, seen, windowed):
        def body(c, mkit):
            E = Entropies(c)
            it = mkit(contracts={scipy_ent: E})
            M = Model(c, it, E, hard, soft, seen, windowed)
            obs = SArr.fresh('observation', (M.L,), 'f') if soft else SArr.fresh('observation', (M.L,), 'i', 0, 1)
            c.ro = dict(c.ro or {})
            c.ro[id(obs.cell)] = 'observation'
            o = obs.reader()
            r = returns(c, it, EMLE.denoise_buffer, [M.e, obs])
            if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[0], SArr):
                raise Unsupported('result of denoise_buffer')
            est, cost = r
            j = c.fresh('j_any', 'int')
            c.assume(And(j >= 0, j < M.L))
            ch = f_log((1 - M.f) / M.f)

            def llr(j):
                x = o((j,))
                return x if soft else ite(veq(x, 0), ch, -ch)

            def bit(j):
                x = o((j,))
                return ite(x < 0, 1, 0) if soft else x

            def delta(j):
                if not seen:
                    return 0
                p = M.p1(j)
                d = M.conf() * f_log((1 - p + q(EPS)) / (p + q(EPS)))
                return ite(And(M.ent(j) < M.thr, M.m > 1), d, 0)

            c.prove('one value per bit', And(est.ndim == 1, veq(est.shape[0], M.L)))
            want = llr(j) + delta(j)
            if hard:
                c.prove('the hard estimate is the sign of the llr aided by the model', veq(est.elem(j), ite(want < 0, 1, 0)))
            else:
                c.prove('the llr changes by the confidence weighted log-odds of bits of low entropy, otherwise not at all', veq(est.elem(j), want))
            c.prove('the cost is the number of bits whose hard value changed',
                    veq(cost, count(M.L, lambda i: Not(veq(bit(i), ite(llr(i) + delta(i) < 0, 1, 0))))))
            if seen:
                p = M.p1(j)
                c.prove('bits are moved towards the modelled value', And(Implies(p * 2 < 1, delta(j) >= 0), Implies(p * 2 > 1, delta(j) <= 0)))
            # the model afterwards
            e = M.e
            n, g = M.window(bit)
            d, p1, en = e.model_data, e.p1, e.model_entropy
            if not all(isinstance(x, SArr) for x in (d, p1, en)):
                raise Unsupported('representation of the model')
            if d.ndim != 2 or not c.implied(veq(d.shape[0], M.L)):
                raise Unsupported('representation of the buffers seen')
            b = c.fresh('b_any', 'int')
            c.assume(And(b >= 0, b < n))
            c.prove('the model holds the last window of observed buffers', And(d.ndim == 2, veq(d.shape[0], M.L), veq(d.shape[1], n), veq(d.elem(j, b), g(j, b))))
            c.prove('the model size is the number of buffers seen, capped at the window', veq(e.model_size, n))
            p = M.spec_p1(n, g, j)
            c.prove('the model is the corrected fraction of ones', And(p1.ndim == 1, veq(p1.shape[0], M.L), veq(p1.elem(j), p)))
            c.prove('modelled probabilities are in [0, 1]', And(p1.elem(j) >= 0, p1.elem(j) <= 1))
            c.prove('the entropy is that of the modelled bit', And(en.ndim == 1, veq(en.shape[0], M.L), veq(en.elem(j), M.H(p1.elem(j)))))
            c.prove('the configuration does not change', all(vars(e).get(k) is v for k, v in M.config.items()))
            if isinstance(d, SArr):
                c.prove('the model does not share memory with the observation', d.cell is not obs.cell, kind='frame')
        return body
    for hard in (True, False):
        for soft in (True, False):
            for seen, windowed in ((False, True), (True, True), (True, False)):
                out.append(Job(f'EMLE.denoise_buffer ({"hard" if hard else "soft"} output, {"soft" if soft else "hard"} input, '
                               f'{"model" if seen else "first buffer"}{", window" if windowed else ""})', buffer(hard, soft, seen, windowed)))

    class Seq(LoopContract):
        name = 'buffers denoised in order'

        def __init__(self, W):
            self.W = W

        def match(self, it, s, fr, si):
            return fr.name.split('.')[-1] == 'denoise_sequence' and si is not None

        def enter(self, c, L):
            W = self.W
            arrs = [v for v in L.fr.locals.values() if isinstance(v, SArr) and v is not W.obs]
            e, k = [v for v in arrs if v.ndim == 2], [v for v in arrs if v.ndim == 1]
            if len(e) != 1 or len(k) != 1:
                raise NoRole('arrays of estimates and costs')
            self.e, self.k = e[0], k[0]
            L.cover(self.e)
            L.cover(self.k)
            self.r, self.j = c.fresh('row', 'int'), c.fresh('j_any', 'int')
            c.assume(And(self.r >= 0, Or(self.r < W.n, veq(W.n, 0)), self.j >= 0, self.j < W.L))

        def havoc(self, c, L, i):
            self.W.calls = i
            for a in (self.e, self.k):
                a.cell.fn = SArr.fresh('part', a.shape, a.kind).reader()
            c.assume(self.fact(i))

        def fact(self, i):
            W, r, j = self.W, self.r, self.j
            return Implies(And(r < i, r < W.n), And(veq(self.k.elem(r), W.cost(r)), veq(self.e.elem(r, j), W.est(r, j))))

        def check(self, c, L, i, what):
            c.prove(f'buffers are denoised in order, each once ({what})', veq(self.W.calls, i))
            c.prove(f'estimates and costs so far are those of the buffers ({what})', self.fact(i))

    class World:
        pass

    def seq(hard, soft):
        def body(c, mkit):
            W = World()
            W.calls = 0
            W.n, W.L = sym(c, 'n', lo=0), sym(c, 'L', lo=1)
            W.obs = SArr.fresh('buffers', (W.n, W.L), 'f') if soft else SArr.fresh('buffers', (W.n, W.L), 'i', 0, 1)
            c.ro = dict(c.ro or {})
            c.ro[id(W.obs.cell)] = 'buffers'
            Ef, K = c.fresh_fn('est', 'int', 'int', 'int' if hard else 'real'), c.fresh_fn('cost', 'int', 'int')
            W.est, W.cost = (lambda r, j: mk(Ef(term(r), term(j)))), (lambda r: mk(K(term(r))))

            def one(it, args, kw):
                o = args[1] if len(args) > 1 else kw.get('observation')
                i = W.calls
                if not isinstance(o, SArr) or o.ndim != 1:
                    raise Unsupported('buffer')
                j = c.fresh('oj', 'int')
                c.prove('the buffer denoised is the next one of the sequence', And(i < W.n, veq(o.shape[0], W.L), Implies(And(j >= 0, j < W.L), veq(o.elem(j), W.obs.elem(i, j)))))
                W.calls = i + 1
                return SArr.new((W.L,), lambda x: W.est(i, x[0]), 'i' if hard else 'f'), W.cost(i)
            lp = Seq(W)
            it = mkit(contracts={EMLE.denoise_buffer: one}, loops=[lp])
            e = it.call(EMLE, [sym(c, 'f', 'real'), sym(c, 'threshold', 'real'), sym(c, 'window', lo=0), 40, q(0.35), hard, soft], {})
            r = returns(c, it, EMLE.denoise_sequence, [e, W.obs])
            if not isinstance(r, tuple) or len(r) != 2 or not all(isinstance(x, SArr) for x in r) or not hasattr(lp, 'j'):
                raise Unsupported('result of denoise_sequence')
            es, cs = r
            c.prove('one estimate and one cost per buffer', And(es.ndim == 2, veq(es.shape[0], W.n), veq(es.shape[1], W.L), veq(cs.shape[0], W.n)))
            c.prove('every buffer was denoised', veq(W.calls, W.n))
            c.prove('estimates are those of the buffers', Implies(lp.r < W.n, veq(es.elem(lp.r, lp.j), W.est(lp.r, lp.j))))
            c.prove('costs are those of the buffers', Implies(lp.r < W.n, veq(cs.elem(lp.r), W.cost(lp.r))))
        return body
    for hard in (True, False):
        for soft in (True, False):
            out.append(Job(f'EMLE.denoise_sequence ({"hard" if hard else "soft"} output, {"soft" if soft else "hard"} input)', seq(hard, soft)))

    def reset(seen):
        def body(c, mkit):
            E = Entropies(c)
            it = mkit(contracts={scipy_ent: E})
            M = Model(c, it, E, bool(c.choose(2)), bool(c.choose(2)), seen, bool(c.choose(2)))
            returns(c, it, EMLE.reset, [M.e])
            e = M.e

            def empty(x):
                return isinstance(x, np.ndarray) and x.size == 0 or isinstance(x, SArr) and veq(x.size, 0)
            c.prove('a reset forgets everything', And(veq(e.model_size, 0), empty(e.model_data), empty(e.p1), empty(e.model_entropy)))
            c.prove('a reset keeps the configuration', all(vars(e).get(k) is v for k, v in M.config.items()))
        return body
    for seen in (True, False):
        out.append(Job(f'EMLE.reset ({"model" if seen else "nothing seen"})', reset(seen)))
    return out
