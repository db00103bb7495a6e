"""Contracts of the model aided decoders (C22 - C25): symbolic execution of decode_buffer against an arbitrary LDPC decoder.

The LDPC decoder is a ghost that records every word it is given and answers with arbitrary values; the segmentation of
bits into messages, the classifier and the field models enter by their contracts (C05, C17, C18, C11 - C13).
facet: 'rect' (what the LDPC decoder is given), 'ret' (what is returned), 'learn' (labels and models)."""
from .common import *
from .clus import put
from .c16 import Entropies
from .emle import q, clip01, EPS
from scipy.stats import entropy as scipy_ent
from pyvc.loops import LoopContract, NoRole
from pyvc.models import M
from pyvc.sums import mk_sum, count
from pyvc.terms import f_log, f_exp
from inference import BufferClassifier, BufferSegmentation, MsgParts, OnlineDude
from ldpc.decoder import LogSpaDecoder, WbfDecoder, GalBfDecoder
from decoders.turbo import TurboDecoder
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder
from decoders.classifiying_decoder import ClassifyingEntropyDecoder
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder, \
    EntropyBitwiseWeightedDecoder

TRUSTED = ['the LDPC decoder (pyldpc package) answers with arbitrary values and does not write the word it is given',
           'scipy.stats.entropy as a function of the row']
ASSUMED = ['BufferClassifier.classify (C17, C18): -1 or a label below the number of clusters', 'BufferSegmentation.segment_buffer (C05, C06): a function of the bytes']


class G:
    """ghost object with the given attributes"""
    _pyvc_sym = True
    _pyvc_attrs = True
    kinds = (object,)

    def _pyvc_isinstance(self, t):
        return any(k in self.kinds for k in (t if isinstance(t, tuple) else (t,)))

    def _pyvc_getattr(self, it, name):
        f = getattr(self, 'm_' + name, None)
        if f is not None:
            return GCall(f)
        f = getattr(self, 'a_' + name, None)
        if f is not None:
            return f()
        raise Unsupported(f'use of {type(self).__name__}.{name}')


class Attempt:
    """one LDPC decoding: the word given, the extra arguments and the answer"""
    def __init__(self, W, word, rest):
        c = W.c
        if not isinstance(word, SArr) or word.ndim != 1:
            raise Unsupported('word given to the LDPC decoder')
        self.n, self.word, self.rest = word.shape[0], word.reader(), rest
        k = len(W.attempts)
        self.est = SArr.fresh(f'estimate{k}', (W.n,), 'i', 0, 1)
        self.llr = SArr.fresh(f'soft{k}', (W.n,), 'f')
        self.ok = sym(c, f'success{k}', 'bool')
        self.iterations = sym(c, f'iterations{k}', lo=0)
        self.syn, self.vn = SArr.fresh(f'syndrome{k}', (sym(c, f'checks{k}', lo=0),), 'i'), SArr.fresh(f'validity{k}', (W.n,), 'i')
        self.e, self.l, self.s, self.v = (a.reader() for a in (self.est, self.llr, self.syn, self.vn))


class Ldpc(G):
    def __init__(self, W, kind):
        self.W, self.kind = W, kind
        self.kinds = (object, kind)

    def a_info_idx(self):
        return self.W.info

    def a_n(self):
        return self.W.n

    def m_decode(self, it, word, *rest, **kw):
        a = Attempt(self.W, word, list(rest) + list(kw.values()))
        self.W.attempts.append(a)
        if self.kind is LogSpaDecoder:
            if a.rest:
                raise Unsupported('arguments of the LDPC decoder')
            return a.est, a.llr, a.ok, a.iterations, a.syn, a.vn
        return a.est, a.ok, a.iterations, a.syn, a.vn

    def m_info_bits(self, it, x):
        """the information bits: the first k (they form a prefix)"""
        W = self.W
        if not isinstance(x, SArr) or x.ndim != 1:
            raise Unsupported('information bits')
        r = x.reader()
        return SArr.new((W.k,), r, x.kind)


class Packed(G):
    def __init__(self, n, bit):
        self.n, self.bit = n, bit

    def m_tobytes(self, it):
        return self

    def _pyvc_len(self, it):
        raise Unsupported('number of bytes')


class Parts(G):
    def __init__(self, unknown):
        self.unknown = unknown

    def _pyvc_contains(self, it, x):
        if x is MsgParts.UNKNOWN:
            return self.unknown
        raise Unsupported('parts of a buffer')


class Structure(G):
    kinds = (dict, object)

    def __init__(self, count):
        self.count = count

    def _pyvc_len(self, it):
        return self.count

    def _pyvc_truth(self):
        return self.count > 0

    def _pyvc_eq(self, it, o):
        if isinstance(o, dict) and not o:
            return veq(self.count, 0)
        return o is self


class Segment:
    def __init__(self, c, k, n, bit):
        self.n, self.bit = n, bit
        self.unknown = sym(c, f'unparsed{k}', 'bool')
        self.structure = Structure(sym(c, f'messages{k}', lo=0))
        m = n if isS(n) and c.implied(veq(n % 8, 0)) else norm_int((n + 7) // 8 * 8)
        self.valid = SArr.fresh(f'in_message{k}', (m,), 'i', 0, 1)
        self.v = self.valid.reader()


class Classifier(G):
    def __init__(self, W):
        self.W = W

    def m_classify(self, it, bits):
        W = self.W
        if W.label is not None or not isinstance(bits, SArr) or bits.ndim != 1:
            raise Unsupported('classification')
        W.classified = (bits.shape[0], bits.reader())
        it.assumed.add(ASSUMED[0])
        if W.c.choose(2) == 0:
            W.label = -1
        else:
            W.label = sym(W.c, 'label', lo=0)
            W.c.assume(W.label < W.clusters)
        return W.label


class State:
    """model of one cluster: no sample, or a window of m samples of L bits with the distribution left by the last update"""
    def __init__(self, W, name, seen):
        c = W.c
        self.W, self.seen, self.name = W, seen, name
        empty = lambda: np.array([])
        self.m, self.full = 0, False
        if not seen:
            self.data, self.dist, self.ent = empty(), empty(), empty()
            return
        self.m = sym(c, name + '_samples', lo=1)
        if W.window is not None:
            self.full = c.choose(2) == 0
            c.assume(veq(self.m, W.window) if self.full else self.m < W.window)
        self.data = SArr.fresh(name + '_data', (W.L, self.m), 'i', 0, 1)
        p1 = SArr.fresh(name + '_p1', (W.L,), 'f', 0, 1).reader()
        self.dist = SArr.new((W.L, 2), lambda x: (p1((x[0],)) if x[1] else 1 - p1((x[0],))) if not isS(x[1]) else ite(veq(x[1], 1), p1((x[0],)), 1 - p1((x[0],))), 'f')
        self.ent = SArr.fresh(name + '_entropies', (W.L,), 'f', 0, 1)
        old, en = self.data.reader(), self.ent.reader()
        self.p1, self.h, self.buf = (lambda j: p1((j,))), (lambda j: en((j,))), (lambda j, b: old((j, b)))

    def conf(self, center, slope):
        if not self.seen:
            return 0
        x = -(self.m - center) * slope
        return ite(self.m <= 1, 0, lambda: mk(z3.RealVal(1) / (1 + term(f_exp(x)))))

    def odds(self, j):
        p = self.p1(j)
        return f_log((q(EPS) + (1 - p)) / (p + q(EPS)))

    def structural(self, j, thr):
        """model bit j is structural"""
        if not self.seen:
            return False
        return And(j >= 0, j < self.W.L, self.h(j) < thr)

    def window(self, bit):
        if not self.seen:
            return 1, lambda j, b: bit(j)
        n = self.W.window if self.full else self.m + 1
        off = 1 if self.full else 0

        def g(j, b):
            i = b + off
            return ite(i < self.m, lambda: self.buf(j, i), lambda: bit(j))
        return n, g


class PerCluster(G):
    """list with one item per cluster; items are those of the arbitrary state of the cluster until written"""
    kinds = (list, object)

    def __init__(self, W, item):
        self.W, self.item, self.log, self.after = W, item, [], []

    def _pyvc_len(self, it):
        return self.W.clusters

    def same(self, a, b):
        c = self.W.c
        x = veq(a, b)
        if not isS(x):
            return x
        return c.branch(bterm(x))

    def index(self, k):
        if isinstance(k, slice) or not isS(k) and not isinstance(k, (int, np.integer)):
            raise Unsupported('index of a cluster')
        if not self.W.c.implied(And(k >= 0, k < self.W.clusters)):
            raise Unsupported('index of a cluster')

    def _pyvc_getitem(self, it, k):
        self.index(k)
        for a, v in reversed(self.log + self.after):
            if self.same(a, k):
                return v
        return self.item(self.W.state(k))

    def _pyvc_setitem(self, it, k, v):
        self.index(k)
        self.log.append((k, v))

    def now(self, k):
        return self._pyvc_getitem(None, k)


class World:
    def __init__(self, c, mkit, facet, kind=LogSpaDecoder, prefix=True, window=None, clusters='one', contracts=None, loops=(), soft=True, updates=()):
        self.c, self.facet = c, facet
        self.attempts, self.segments, self.states = [], [], []
        self.label = self.classified = None
        self.n, self.L = sym(c, 'n', lo=1), sym(c, 'model_length', lo=1)
        c.assume(self.L <= self.n)
        L = self.L
        rest = SArr.fresh('info', (self.n,), 'b')
        r = rest.reader()
        self.k = sym(c, 'k', lo=1)
        c.assume(self.k <= self.n)
        self.prefix = prefix
        if prefix:      # the model bits are information bits
            self.info = SArr.new((self.n,), lambda x: Or(x[0] < L, r(x)), 'b')
        else:           # the model covers all information bits
            self.info = rest
            c.assume(count(self.n, lambda i: r((i,))) <= L)
        self.infor = self.info.reader()
        self.E = Entropies(c)
        self.window = sym(c, 'window', lo=1) if window else None
        self.multi = clusters != 'one'
        self.clusters = sym(c, 'clusters', lo=2) if self.multi else 1
        self.clustering = clusters == 'classifier'
        self.soft, self.updates, self.modular = soft, [], []
        contracts = dict(contracts or {})
        for cls, name in updates:
            f = vars(cls).get(name)
            if f is not None:
                contracts[f] = lambda it, args, kw, name=name: self.update(it, name, args, kw)
                self.modular.append(name)
        self.thr, self.clip = sym(c, 'threshold', 'real'), sym(c, 'clipping', 'real')
        self.center, self.slope = sym(c, 'center'), sym(c, 'slope', 'real')
        self.it = mkit(contracts={scipy_ent: self.E, np.flatnonzero: self.flatnonzero, np.packbits: self.packbits, BufferClassifier: lambda it, a, k: Classifier(self),
                                  BufferSegmentation: lambda it, a, k: Segmentor(self), **(contracts or {})}, loops=list(loops))
        self.ldpc = Ldpc(self, kind)
        self.ch = SArr.fresh('channel', (self.n,), 'f') if soft else SArr.fresh('channel', (self.n,), 'i', 0, 1)
        self.o = self.ch.reader()
        c.ro = dict(c.ro or {})
        c.ro[id(self.ch.cell)] = 'channel'
        self.p = c.fresh('p_any', 'int')      # arbitrary bit of the codeword
        c.assume(And(self.p >= 0, self.p < self.n))
        self.j = c.fresh('j_any', 'int')      # arbitrary bit of the model
        c.assume(And(self.j >= 0, self.j < self.L))

    # -- contracts ----------------------------------------------------------------------------------
    def flatnonzero(self, it, args, kw):
        a = args[0]
        if len(args) == 1 and not kw and isinstance(a, SArr) and a.ndim == 1 and a.kind == 'b' and same(self.c, a.shape[0], self.n):
            r = a.reader()
            i = self.c.fresh('fi', 'int')
            if self.c.implied(Implies(And(i >= 0, i < self.n), Iff(r((i,)), i < self.L))):
                return SArr.new((self.L,), lambda x: x[0], 'i')
        return M[np.flatnonzero](it, args, kw)

    def packbits(self, it, args, kw):
        a = args[0]
        if kw or len(args) != 1 or not isinstance(a, SArr) or a.ndim != 1:
            raise Unsupported('packbits')
        r = a.reader()
        return Packed(a.shape[0], lambda i: veq(r((i,)), 1) if a.kind != 'b' else r((i,)))

    def segment(self, it, x):
        if not isinstance(x, Packed):
            raise Unsupported('bytes to segment')
        it.assumed.add(ASSUMED[1])
        return self.segment_of(x.n, x.bit)

    def segment_of(self, n, bit):
        c = self.c
        i = c.fresh('si', 'int')
        hit = [s for s in self.segments if same(c, s.n, n) and c.implied(Implies(And(i >= 0, i < n), Iff(s.bit(i), bit(i))))]
        for s in hit[1:]:       # segmentation is a function of the bits
            t = hit[0]
            c.assume(And(veq(s.structure.count, t.structure.count), Iff(s.unknown, t.unknown)))
            c.assume(veq(s.v((self.p,)), t.v((self.p,))))
        if len(hit) > 1 and not c.feasible():
            raise PathEnd()
        if hit:
            return hit[0]
        s = Segment(c, len(self.segments), n, bit)
        self.segments.append(s)
        return s

    def make_state(self):
        return State(self, 'model', self.c.choose(2) == 1)

    def state(self, k):
        for a, s in self.states:
            x = veq(a, k)
            if not isS(x):
                if x:
                    return s
            elif self.c.branch(bterm(x)):
                return s
        s = self.make_state()
        self.states.append((k, s))
        return s

    def update(self, it, name, args, kw):
        """contract of an update of the model (proved by its own job): the bits are recorded"""
        kw = dict(kw)
        names = ['self', 'bits', 'cluster_id']
        d = dict(zip(names, args))
        if set(d) & set(kw) or len(args) > 3:
            raise Unsupported('arguments of ' + name)
        d.update(kw)
        k, bits = d.pop('cluster_id', 0), d.pop('bits', None)
        if set(d) != {'self'} or not isinstance(bits, SArr) or bits.ndim != 1 or not same(self.c, bits.shape[0], self.L):
            raise Unsupported('arguments of ' + name)
        self.updates.append((name, k, bits.reader()))
        self.after_update(d['self'], name, k)

    def after_update(self, dec, name, k):
        pass

    def learns(self, want, what, written=False, name=None, label=0):
        """exactly one update with the bits want(j) (want None: none)"""
        us = [u for u in self.updates if name is None or u[0] == name]
        if written:
            raise Unsupported('models are updated directly')
        if want is None:
            self.P('learn', f'{what}: nothing is learnt', not us)
            return
        self.P('learn', f'{what}: one sample is learnt', len(us) == 1)
        if len(us) == 1:
            self.P('learn', f'{what}: the sample is learnt by the model of the label', veq(us[0][1], label))
            self.P('learn', f'{what}: the bits learnt', veq(us[0][2]((self.j,)), want(self.j)))

    # -- specification --------------------------------------------------------------------------------
    def P(self, facet, name, x, kind='post'):
        if facet == self.facet:
            self.c.prove(name, x, kind=kind)

    def top(self):
        """largest channel magnitude"""
        return self.it.call(max, [self.it.call(np.abs, [self.ch])])

    def bit(self, j):
        """received hard bit"""
        return ite(self.o((j,)) < 0, 1, 0) if self.soft else self.o((j,))

    def H(self, p):
        return self.E.of(2, lambda i: ite(veq(i, 0), 1 - p, p) if isS(i) else (p if i else 1 - p), 2)

    def given(self, k, want, what):
        """attempt k was made on the word with values want(p)"""
        a = self.attempts[k]
        self.P('rect', what, And(veq(a.n, self.n), veq(a.word((self.p,)), want(self.p))))

    def verdict(self, k, r, soft=True, pos=()):
        """the results are those of attempt k; pos: positions of iterations, syndrome, validity"""
        a = self.attempts[k]

        def equal(x, n, rd):
            if not isinstance(x, SArr) or x.ndim != 1:
                return False if isinstance(x, np.ndarray) else unsupported('array returned')
            i = self.c.fresh('ri', 'int')
            return And(veq(x.shape[0], n), Implies(And(i >= 0, i < n), veq(x.elem(i), rd((i,)))))
        self.P('ret', 'the estimate is that of the last LDPC decoding', equal(r[0], self.n, a.e))
        if soft:
            self.P('ret', 'the soft output is that of the last LDPC decoding', equal(r[1], self.n, a.l))
        self.P('ret', 'success is that of the last LDPC decoding', Iff(r[2], a.ok) if isS(r[2]) or isinstance(r[2], bool) else unsupported('success'))
        for p, w in zip(pos, ('iterations', 'syndrome', 'validity')):
            if p is None:
                continue
            if w == 'iterations':
                self.P('ret', 'the iteration count is that of the last LDPC decoding', veq(r[p], a.iterations))
            elif w == 'syndrome':
                self.P('ret', 'the syndrome is that of the last LDPC decoding', equal(r[p], a.syn.shape[0], a.s))
            else:
                self.P('ret', 'the node validity is that of the last LDPC decoding', equal(r[p], self.n, a.v))

    def reported(self, what, dist, ent, rdist, ridx):
        """a distribution and the structural bits returned are those of the model (dist, ent)"""
        if self.facet != 'ret':
            return
        empty = lambda x: isinstance(x, np.ndarray) and x.size == 0
        if empty(dist) or empty(ent):
            none = lambda x: True if empty(x) else veq(x.length() if isinstance(x, SFilt) else x.shape[0], 0) if isinstance(x, (SArr, SFilt)) \
                else isinstance(x, np.ndarray) and False
            self.P('ret', what + ': nothing is reported', And(none(rdist), none(ridx)))
            return
        if not isinstance(dist, SArr) or not isinstance(ent, SArr) or not isinstance(rdist, SArr) or not isinstance(ridx, SFilt) or dist.ndim != 2:
            raise Unsupported('model reported')
        i, b = self.c.fresh('ri', 'int'), self.c.fresh('rb', 'int')
        inside = And(i >= 0, i < self.L, b >= 0, b < 2)
        self.P('ret', what + ': the distribution reported is that of the model',
               And(rdist.ndim == 2, veq(rdist.shape[0], dist.shape[0]), Implies(inside, lambda: veq(rdist.reader()((i, b)), dist.reader()((i, b))))))
        j = self.j
        c = ridx.cond(j)
        self.P('ret', what + ': the structural bits reported are those of the model',
               And(veq(ridx.n, ent.shape[0]), Iff(c, ent.reader()((j,)) < self.thr), Implies(c, lambda: veq(ridx.val(j), j))))

    def learnt(self, what, old, data, dist, ent, bit, flip):
        """the model holds the last window of samples, with their corrected fraction of ones"""
        if self.facet != 'learn':
            return
        c, L, j = self.c, self.L, self.j
        if not all(isinstance(x, SArr) for x in (data, dist, ent)) or data.ndim != 2 or dist.ndim != 2 or ent.ndim != 1:
            if any(isinstance(x, np.ndarray) and x.size == 0 for x in (data, dist, ent)):
                self.P('learn', f'{what} learns a sample', False)
                raise PathEnd()
            raise Unsupported('representation of a model')
        n, g = old.window(bit)
        b = c.fresh('b_any', 'int')
        c.assume(And(b >= 0, b < n))
        self.P('learn', f'{what} holds the last window of samples', And(veq(data.shape[0], L), veq(data.shape[1], n), veq(data.elem(j, b), g(j, b))))
        v = mk(z3.ToReal(term(mk_sum(n, lambda b: g(j, b)))) / z3.ToReal(term(n))) if isS(n) else cast(g(j, 0), 'f')
        p = v if flip is None else clip01((v - flip) / (1 - 2 * flip))
        self.P('learn', f'{what}: fraction of ones', And(veq(dist.shape[0], L), veq(dist.shape[1], 2), veq(dist.elem(j, 1), p), veq(dist.elem(j, 0), 1 - p)))
        self.P('learn', f'{what}: probabilities', And(dist.elem(j, 1) >= 0, dist.elem(j, 1) <= 1))
        self.P('learn', f'{what}: entropies', And(veq(ent.shape[0], L), veq(ent.elem(j), self.H(dist.elem(j, 1)))))
        self.P('learn', f'{what} does not share memory with the channel word', data.cell is not self.ch.cell, kind='frame')

    def unchanged(self, what, old, data, dist, ent):
        self.P('learn', f'{what} does not change', data is old.data and dist is old.dist and ent is old.ent)


def unsupported(what):
    raise Unsupported(what)


def same(c, a, b):
    x = veq(a, b)
    return c.implied(x) if isS(x) else x


class Segmentor(G):
    def __init__(self, W):
        self.W = W

    def m_segment_buffer(self, it, x):
        s = self.W.segment(it, x)
        return Parts(s.unknown), s.valid, s.structure


def clipped(x, b):
    return ite(x < -b, -b, ite(x > b, b, x))



def fresh_model(W, name):
    """arrays of a model with at least one sample"""
    s = State.__new__(State)
    w, W.window = W.window, None
    try:
        s.__init__(W, name, True)
    finally:
        W.window = w
    return s


def direction(W, st):
    """the log-odds point at the value predicted"""
    if st.seen and W.facet == 'rect':
        p = st.p1(W.j)
        W.P('rect', 'the model moves a bit towards the value it predicts', And(Implies(p * 2 < 1, st.odds(W.j) >= 0), Implies(p * 2 > 1, st.odds(W.j) <= 0)))


def starts_empty(W, *lists):
    if W.facet != 'learn':
        return
    c = W.c
    for x in lists:
        if isinstance(x, SList):
            k = c.fresh('k_any', 'int')
            c.assume(And(k >= 0, k < x.length()))
            e, n = x.elem(k), x.length()
        elif isinstance(x, list) and x:
            e, n = x[0], len(x)
        elif isinstance(x, (np.ndarray, SArr)):
            e, n = x, W.clusters
        else:
            raise Unsupported('list of models')
        if not isinstance(e, (np.ndarray, SArr)):
            raise Unsupported('model without samples')
        W.P('learn', 'a new decoder has learnt nothing, one model per cluster', And(veq(n, W.clusters), veq(e.size, 0)))


class FixedState(State):
    """a supplied distribution"""
    def __init__(self, W):
        c = W.c
        self.W, self.seen, self.m, self.full = W, True, 0, False
        R = sym(c, 'rows', lo=1)
        c.assume(R >= W.L)
        p1 = SArr.fresh('supplied', (R,), 'f', 0, 1).reader()
        self.p1 = lambda j: p1((j,))
        self.model = SArr.new((R, 2), lambda x: (self.p1(x[0]) if x[1] else 1 - self.p1(x[0])) if not isS(x[1]) else ite(veq(x[1], 1), self.p1(x[0]), 1 - self.p1(x[0])), 'f')
        self.h = lambda j: W.H(self.p1(j))
        c.ro = dict(c.ro or {})
        c.ro[id(self.model.cell)] = 'supplied model'

    def conf(self, center, slope):
        return 1


def known_entropies(W, st, dec):
    """the entropies of the supplied rows, checked at an arbitrary bit, become a plain array"""
    e = dec.models_entropy
    if type(e) is not list or len(e) != 1 or not isinstance(e[0], SArr) or e[0].ndim != 1 or not same(W.c, e[0].shape[0], W.L):
        raise Unsupported('entropies of the supplied model')
    W.P('rect', 'the entropies are those of the supplied rows', veq(e[0].elem(W.j), st.h(W.j)))
    ent = SArr.fresh('entropies', (W.L,), 'f', 0, 1)
    r = ent.reader()
    st.h = lambda j: r((j,))
    e[0] = ent


def fixed_unchanged(W, st, data, dist, ent):
    """the supplied model is still used as it was"""
    if W.facet != 'learn':
        return
    if not (isinstance(dist, SArr) and isinstance(ent, SArr) and dist.ndim == 2):
        raise Unsupported('representation of the supplied model')
    W.P('learn', 'the supplied model is never changed', And(veq(dist.elem(W.j, 1), st.p1(W.j)), veq(dist.elem(W.j, 0), 1 - st.p1(W.j)), veq(ent.elem(W.j), st.h(W.j))))
    W.P('learn', 'no sample is stored', veq(data.size, 0))


# ------------------------------------------------------------------------------------------------ classifying decoder
def round_robin(W, dec, attr='running_idx'):
    """label expected of the next buffer without clustering"""
    c = W.c
    W.P('learn', 'the first label is 0', veq(vars(dec).get(attr, -1), -1))
    idx = sym(c, 'last_label', lo=-1)
    c.assume(idx < W.clusters)
    put(dec, **{attr: idx})
    return ite(idx + 1 < W.clusters, idx + 1, 0)


def label_of(W, dec, want, got, attr='running_idx'):
    if W.multi and W.clustering:
        if W.label is None:
            raise Unsupported('the buffer is not classified')
        want = W.label
        n, b = W.classified
        W.P('learn', 'the received model bits are classified', And(veq(n, W.L), veq(b((W.j,)), W.bit(W.j))))
    elif W.multi:
        W.P('learn', 'labels follow the round robin', veq(vars(dec)[attr], want))
    W.P('learn', 'the label is returned', veq(got, want))
    return want


def make_cls(W, fixed=None, rel=0):
    c = W.c
    flip = sym(c, 'flip', 'real', lo=0)
    c.assume(flip * 2 < 1)
    c.assume(W.clip >= 0)
    dec = W.it.call(ClassifyingEntropyDecoder, [W.ldpc, W.L, W.thr, W.clip, sym(c, 'training', lo=2), W.clusters],
                    dict(window_length=W.window, conf_center=W.center, conf_slope=W.slope, bit_flip=flip, cluster=int(W.clustering), reliability_method=rel,
                         data_model=None if fixed is None else fixed.model))
    return dec, flip


def cls_lists(W, dec):
    data, dist, ent = (PerCluster(W, f) for f in (lambda s: s.data, lambda s: s.dist, lambda s: s.ent))
    starts_empty(W, dec.models_data, dec.distributions, dec.models_entropy)
    put(dec, models_data=data, distributions=dist, models_entropy=ent)

    def after(d, name, k):
        s = fresh_model(W, 'next')
        for g, x in ((data, s.data), (dist, s.dist), (ent, s.ent)):
            g.after.append((k, x))
    W.after_update = after
    return data, dist, ent


def cls_jobs(facet):
    out = []
    C = ClassifyingEntropyDecoder

    def body_(prefix, window, clusters, fixed=False, kind=LogSpaDecoder, rel=0):
        def body(c, mkit):
            predictions, cs = [], {}
            f = vars(C).get('model_prediction')
            if f is not None and kind is not LogSpaDecoder:
                cs[f] = lambda it, args, kw: prediction(W, predictions, it, args, kw)
            W = World(c, mkit, facet, kind, prefix, window, clusters, updates=[] if fixed else [(C, 'update_model')], contracts=cs)
            it = W.it
            fs = FixedState(W) if fixed else None
            dec, flip = make_cls(W, fs, rel)
            if not fixed:
                data, dist, ent = cls_lists(W, dec)
            else:
                known_entropies(W, fs, dec)
            want = round_robin(W, dec) if W.multi and not W.clustering else 0
            k, r = outcome(it, Bound(C.decode_buffer, dec), [W.ch])
            if k == 'exc':
                if kind is not LogSpaDecoder and isinstance(r, ZeroDivisionError):
                    raise PathEnd()     # the rectified word is zero everywhere
                returns(c, Again(r), None, [])
            if not isinstance(r, tuple) or len(r) != 9:
                raise Unsupported('result of decode_buffer')
            want = label_of(W, dec, want, r[8])
            W.P('ret', 'one LDPC decoding', len(W.attempts) == 1)
            if len(W.attempts) != 1:
                raise PathEnd()
            W.verdict(0, r, kind is LogSpaDecoder, (3, 4, 5))
            written = not fixed and bool(data.log or dist.log or ent.log)
            hard = lambda p: ite(W.o((p,)) < 0, 1, 0)
            if not isS(want) and want < 0:
                W.given(0, hard if kind is GalBfDecoder else lambda p: W.o((p,)), 'during classifier training the channel values go in as they are')
                W.learns(None, 'classifier training', written)
                W.reported('classifier training', np.array([]), np.array([]), r[6], r[7])
                return
            if prefix and not fixed and W.facet == 'ret':
                W.reported('the model of the label', dist.now(want), ent.now(want), r[6], r[7])
            if W.facet == 'rect':
                st = fs if fixed else W.state(want)
                top = W.top()
                cf = st.conf(W.center, W.slope)

                if len(predictions) > 1:
                    raise Unsupported('several predictions')

                def mod(p):
                    if predictions:
                        return predictions[0][1](p)
                    return ite(And(st.structural(p, W.thr), cf > 0), lambda: cf * st.odds(p), 0) if st.seen else 0
                if predictions:
                    W.P('rect', 'the prediction is that of the model of the label', veq(predictions[0][0], want))
                if kind is LogSpaDecoder:
                    W.given(0, lambda p: clipped(W.o((p,)) + mod(p), W.clip * top),
                            'structural bits move by the confidence weighted log-odds, everything within the clipping bound')
                else:
                    weak(W, st, mod, top, hard, rel, kind)
                direction(W, st)
            a = W.attempts[0]
            if fixed:
                fixed_unchanged(W, fs, dec.models_data[0], dec.distributions[0], dec.models_entropy[0])
            else:
                W.learns(lambda j: ite(a.ok, a.e((j,)), W.bit(j)), 'each buffer', written, label=want)
                W.P('learn', 'the lists of models stay', dec.models_data is data and dec.distributions is dist and dec.models_entropy is ent)
        return body

    for cl in ('one', 'round robin', 'classifier'):
        out.append(Job(f'ClassifyingEntropyDecoder.decode_buffer ({cl})', body_(True, True, cl)))
    out.append(Job('ClassifyingEntropyDecoder.decode_buffer (no window)', body_(True, False, 'one')))
    out.append(Job('ClassifyingEntropyDecoder.decode_buffer (model covers the information bits)', body_(False, True, 'one')))
    out.append(Job('ClassifyingEntropyDecoder.decode_buffer (supplied model)', body_(True, True, 'one', True)))
    for kd, nm in ((WbfDecoder, 'WBF'), (GalBfDecoder, 'Gallager B')):
        for rel in (0, 3):
            out.append(Job(f'ClassifyingEntropyDecoder.decode_buffer ({nm}, method {rel})', body_(True, True, 'classifier' if rel == 0 else 'one', False, kd, rel)))

    def predict(fixed, clusters):
        def body(c, mkit):
            W = World(c, mkit, facet, LogSpaDecoder, True, True, clusters)
            fs = FixedState(W) if fixed else None
            dec, flip = make_cls(W, fs)
            if fixed:
                known_entropies(W, fs, dec)
                k = 0
            else:
                cls_lists(W, dec)
                k = sym(c, 'label', lo=0)
                c.assume(k < W.clusters)
            r = returns(c, W.it, Bound(C.model_prediction, dec), [W.n, k])
            if not isinstance(r, SArr) or r.ndim != 1:
                raise Unsupported('prediction')
            st = fs if fixed else W.state(k)
            cf = st.conf(W.center, W.slope)
            want = ite(And(st.structural(W.p, W.thr), cf > 0), lambda: cf * st.odds(W.p), 0) if st.seen else 0
            W.P('rect', 'the prediction is the confidence weighted log-odds of the structural bits', And(veq(r.shape[0], W.n), veq(r.elem(W.p), want)))
        return body
    if facet == 'rect' and 'model_prediction' in vars(C):
        for fx in (False, True):
            out.append(Job('ClassifyingEntropyDecoder.model_prediction' + (' (supplied model)' if fx else ''), predict(fx, 'one' if fx else 'round robin')))

    def update(window, clusters):
        def body(c, mkit):
            W = World(c, mkit, facet, LogSpaDecoder, True, window, clusters)
            dec, flip = make_cls(W)
            data, dist, ent = cls_lists(W, dec)
            k = sym(c, 'label', lo=0)
            c.assume(k < W.clusters)
            bits = SArr.fresh('bits', (W.L,), 'i', 0, 1)
            b = bits.reader()
            c.ro[id(bits.cell)] = 'bits'
            returns(c, W.it, Bound(C.update_model, dec), [bits, k])
            W.P('learn', 'only the model of the label is written', And(*[veq(x, k) for g in (data, dist, ent) for x, _ in g.log]))
            W.learnt('the model of the label', W.state(k), data.now(k), dist.now(k), ent.now(k), lambda j: b((j,)), flip)
        return body
    if facet == 'learn' and 'update_model' in vars(C):
        for w in (True, False):
            out.append(Job(f'ClassifyingEntropyDecoder.update_model ({"" if w else "no "}window)', update(w, 'round robin')))
    return out


def prediction(W, log, it, args, kw):
    """contract of model_prediction (proved by its own job): the log-odds of the model of the cluster"""
    d = dict(zip(['self', 'observation_size', 'cluster_id'], args))
    if len(args) > 3 or set(d) & set(kw):
        raise Unsupported('arguments of model_prediction')
    d.update(kw)
    if set(d) != {'self', 'observation_size', 'cluster_id'} or not same(W.c, d['observation_size'], W.n):
        raise Unsupported('arguments of model_prediction')
    a = SArr.fresh('model_llr', (W.n,), 'f')
    r = a.reader()
    log.append((d['cluster_id'], lambda p: r((p,))))
    return a


class Again:
    """a call whose outcome is known"""
    def __init__(self, e):
        self.e = e

    def call(self, f, args, kw):
        raise Raised(self.e)


def weak(W, st, mod, top, hard, rel, kind):
    """what a WBF or Gallager B decoder is given"""
    a = W.attempts[0]
    for x in a.rest:
        if not isinstance(x, SArr) or x.ndim != 1:
            raise Unsupported('priors')
        W.P('rect', 'no prior is given', veq(x.elem(W.p), 0))
    n = W.n
    mx = lambda f: W.it.call(max, [W.it.call(np.abs, [SArr.new((n,), lambda x: f(x[0]), 'f')])])
    big = mx(mod)
    if not W.c.branch(bterm(big > 0)):
        W.given(0, hard if kind is GalBfDecoder else lambda p: W.o((p,)), 'without a model the channel values go in')
        return
    if rel == 0:
        if W.c.branch(bterm(big > top)):
            s = lambda p: W.o((p,)) + mod(p) * top / big
        else:
            s = lambda p: W.o((p,)) + mod(p)
        tot = mx(s)
        out = lambda p: s(p) * (top / tot)
        W.given(0, (lambda p: ite(out(p) < 0, 1, 0)) if kind is GalBfDecoder else out, 'the sum of channel and (normalised) model, scaled to the channel')
    else:
        use = st.m >= W.window if st.seen else False
        W.given(0, lambda p: ite(And(use, st.structural(p, W.thr)), lambda: ite(mod(p) < 0, 1, 0), lambda: hard(p)), 'structural bits are forced once the window is full')


# ------------------------------------------------------------------------------------------------ entropy decoders
def entropy_jobs(facet):
    out = []

    def run(C, window, fixed):
        soft = C is EntropyBitwiseDecoder

        def body(c, mkit):
            W = World(c, mkit, facet, LogSpaDecoder, True, window, 'one', soft=soft, updates=[(C, 'update_model')])
            it = W.it
            fs = FixedState(W) if fixed else None
            mind = sym(c, 'min_data', lo=0)
            c.assume(W.clip >= 0)
            dec = it.call(C, [W.ldpc, W.L, W.thr] + ([W.clip] if soft else []), dict(min_data=mind, window_length=W.window, model=fs.model if fixed else None))
            if not fixed:
                starts_empty(W, dec.model_data, dec.distribution, dec.entropy)
                st = W.state(0)
                put(dec, model_data=st.data, distribution=st.dist, entropy=st.ent)
            else:
                st = fs
            old = {k: vars(dec)[k] for k in ('model_data', 'distribution', 'entropy')}

            def after(d, name, k):
                s = fresh_model(W, 'next')
                put(d, model_data=s.data, distribution=s.dist, entropy=s.ent)
                old.update(model_data=s.data, distribution=s.dist, entropy=s.ent)
            if not fixed:
                W.after_update = after
            r = returns(c, it, Bound(C.decode_buffer, dec), [W.ch])
            two_attempts(W, r, 5, 4)
            if W.facet == 'rect' and len(W.attempts) == 2:
                W.given(1, lambda p: flipped(W, st, p, mind, fixed) if not soft else rectified(W, st, p, mind, fixed), 'structural bits follow the model, the others keep their channel value')
                direction(W, st)
            written = any(vars(dec).get(k) is not v for k, v in old.items())
            a = W.attempts[-1]
            s = W.segment_of(W.L, lambda j: veq(a.e((j,)), 1))
            if fixed:       # update_model refuses (proved by its job)
                if written:
                    raise Unsupported('the supplied model is replaced')
                fixed_unchanged(W, fs, dec.model_data, dec.distribution, dec.entropy)
            elif W.facet == 'learn':
                if c.branch(bterm(s.unknown)):
                    W.learns(None, 'a buffer that does not parse', written)
                else:
                    W.learns(lambda j: a.e((j,)), 'a buffer that parses', written)
        return body

    def update(C, window, fixed):
        soft = C is EntropyBitwiseDecoder

        def body(c, mkit):
            W = World(c, mkit, facet, LogSpaDecoder, True, window, 'one', soft=soft)
            fs = FixedState(W) if fixed else None
            dec = W.it.call(C, [W.ldpc, W.L, W.thr] + ([W.clip] if soft else []), dict(min_data=sym(c, 'min_data', lo=0), window_length=W.window, model=fs.model if fixed else None))
            if not fixed:
                st = W.state(0)
                put(dec, model_data=st.data, distribution=st.dist, entropy=st.ent)
            bits = SArr.fresh('bits', (W.L,), 'i', 0, 1)
            b = bits.reader()
            c.ro[id(bits.cell)] = 'bits'
            returns(c, W.it, Bound(C.update_model, dec), [bits])
            if fixed:
                fixed_unchanged(W, fs, dec.model_data, dec.distribution, dec.entropy)
            else:
                W.learnt('the model', st, dec.model_data, dec.distribution, dec.entropy, lambda j: b((j,)), None)
        return body
    for C in (EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder):
        for w, f in ((True, False), (False, False), (True, True)):
            nm = 'supplied model' if f else 'window' if w else 'no window'
            out.append(Job(f'{C.__name__}.decode_buffer ({nm})', run(C, w, f)))
            if facet == 'learn' and 'update_model' in vars(C):
                out.append(Job(f'{C.__name__}.update_model ({nm})', update(C, w, f)))
    return out


def two_attempts(W, r, size, count_at, pos=(3,)):
    """plain attempt first; one more on the rectified word if it failed"""
    c = W.c
    if not isinstance(r, tuple) or len(r) != size:
        raise Unsupported('result of decode_buffer')
    if not W.attempts:
        W.P('ret', 'the buffer is decoded', False)
        raise PathEnd()
    first = W.attempts[0]
    for f in ('ret', 'rect'):
        W.P(f, 'the first attempt is on the plain channel word', And(veq(first.n, W.n), veq(first.word((W.p,)), W.o((W.p,)))))
    n = len(W.attempts)
    W.P('ret', 'a second attempt is made exactly if the first failed', n in (1, 2) and Iff(first.ok, n == 1))
    if n > 2:
        raise PathEnd()
    W.verdict(-1, r, True, pos)
    a = W.attempts[-1]
    s = W.segment_of(W.L, lambda j: veq(a.e((j,)), 1))
    W.P('ret', 'the number of messages is that of the decoded bits', veq(r[count_at], s.structure.count))


def usable(W, st, mind, fixed):
    return True if fixed else False if not st.seen else st.m >= mind


def rectified(W, st, p, mind, fixed):
    x = W.o((p,))
    if not st.seen:
        return x
    return ite(And(usable(W, st, mind, fixed), st.structural(p, W.thr)), lambda: x + clipped(st.odds(p), W.clip * W.top()), lambda: x)


def flipped(W, st, p, mind, fixed):
    x = W.o((p,))
    if not st.seen:
        return x
    return ite(And(usable(W, st, mind, fixed), st.structural(p, W.thr)), lambda: ite(st.p1(p) * 2 > 1, 1, 0), lambda: x)


# ------------------------------------------------------------------------------------------------ two-model decoder
class BayesState(State):
    """counts of ones and zeros per bit, each starting from one"""
    def __init__(self, W, name, seen):
        c = W.c
        self.W, self.seen, self.name, self.full = W, seen, name, False
        if not seen:
            self.ones, self.zeros = (SArr.new((W.L,), lambda x: 1, 'i') for _ in 'oz')
            self.dist, self.ent = np.array([]), np.array([])
            self.m = 0
        else:
            self.ones, self.zeros = (SArr.fresh(f'{name}_{x}', (W.L,), 'i', 1) for x in ('ones', 'zeros'))
            p1 = SArr.fresh(name + '_p1', (W.L,), 'f', 0, 1).reader()
            self.dist = SArr.new((W.L, 2), lambda x: (p1((x[0],)) if x[1] else 1 - p1((x[0],))) if not isS(x[1]) else ite(veq(x[1], 1), p1((x[0],)), 1 - p1((x[0],))), 'f')
            self.ent = SArr.fresh(name + '_entropies', (W.L,), 'f', 0, 1)
            en = self.ent.reader()
            self.p1, self.h = (lambda j: p1((j,))), (lambda j: en((j,)))
        o, z = self.ones.reader(), self.zeros.reader()
        self.o, self.z = (lambda j: o((j,))), (lambda j: z((j,)))
        if seen:
            self.m = self.o(0) + self.z(0) - 2

    def attrs(self, x):
        return {x + '_ones_prior': self.ones, x + '_zeros_prior': self.zeros, x + '_distribution': self.dist, x + '_entropy': self.ent}


class Gcd:
    """np.gcd of positive integers: a common divisor, at least one (assumed contract)"""
    def __init__(self, c):
        self.c, self.F = c, c.fresh_fn('gcd', 'int', 'int', 'int')

    def of(self, a, b):
        t = self.F(term(a), term(b))
        a, b = term(a), term(b)
        self.c.assume(mk(z3.Implies(z3.And(a >= 1, b >= 1), z3.And(t >= 1, (a / t) * t == a, (b / t) * t == b, a / t >= 1, b / t >= 1))))
        return mk(t)

    def __call__(self, it, args, kw):
        a, b = args[:2]
        if kw or len(args) != 2 or not all(isinstance(x, SArr) and x.ndim == 1 for x in (a, b)) or not same(self.c, a.shape[0], b.shape[0]):
            raise Unsupported('gcd')
        it.assumed.add('np.gcd of positive integers is a positive common divisor')
        ra, rb = a.reader(), b.reader()
        return SArr.new(a.shape, lambda x: self.of(ra(x), rb(x)), 'i')


def make_weighted(W, scheme, corrected=False, bayes=False):
    c = W.c
    flip = sym(c, 'flip', 'real', lo=0)
    c.assume(flip * 2 < 1)
    c.assume(W.clip >= 0)
    par = {x: (sym(c, x + '_center'), sym(c, x + '_slope', 'real')) for x in 'ab'}
    dec = W.it.call(EntropyBitwiseWeightedDecoder, [W.ldpc, W.L, W.thr, W.clip],
                    dict(window_length=W.window, a_conf_center=par['a'][0], a_conf_slope=par['a'][1], b_conf_center=par['b'][0], b_conf_slope=par['b'][1],
                         confidence=scheme, bit_flip=flip, corrected_dist=corrected, **(dict(estimator='Bayes') if bayes else {})))
    for x in 'ab':
        if bayes:
            o, z, d, e = (getattr(dec, x + y) for y in ('_ones_prior', '_zeros_prior', '_distribution', '_entropy'))
            if not all(isinstance(y, SArr) and y.ndim == 1 for y in (o, z)) or not all(isinstance(y, (SArr, np.ndarray)) for y in (d, e)):
                raise Unsupported('priors')
            W.P('learn', 'counts start at one, nothing learnt', And(veq(o.shape[0], W.L), veq(z.shape[0], W.L), veq(o.elem(W.j), 1), veq(z.elem(W.j), 1), veq(d.size, 0), veq(e.size, 0),
                                                                    o.cell is not z.cell, o.cell is not getattr(dec, 'ba'['ab'.index(x)] + '_ones_prior').cell))
            continue
        starts_empty(W, getattr(dec, f'model_{x}_data'), getattr(dec, x + '_distribution'), getattr(dec, x + '_entropy'))
    return dec, flip, par


def install(W, dec, x, s):
    if isinstance(s, BayesState):
        put(dec, **s.attrs(x))
        return
    put(dec, **{f'model_{x}_data': s.data, x + '_distribution': s.dist, x + '_entropy': s.ent})


def weighted_state(W, dec, bayes=False):
    sts = {}
    for x in 'ab':
        sts[x] = (BayesState if bayes else State)(W, x, W.c.choose(2) == 1)
        sts[x].var = 1.0
        install(W, dec, x, sts[x])
        if sts[x].seen:
            sts[x].var = sym(W.c, x + '_variance', 'real')
            W.c.assume(sts[x].var > 0)
            put(dec, **{x + '_normalized_variance': sts[x].var})
    return sts


def confidences(scheme, sts, par):
    a, b = (sts[x].conf(*par[x]) for x in 'ab')
    if scheme in (1, 2):
        t = a + b if scheme == 1 else 2 * a + b
        pos = t > 0
        if not isS(pos):
            return (a * (scheme * a / t), b * (b / t)) if pos else (a, b)
        div = lambda x, y: mk(z3.ToReal(term(x)) / term(y)) if not isS(x) or x.t.is_int() else x / y
        return tuple(x if not isS(x) and not x else ite(pos, lambda x=x, f=f: x * (f * x / t), x) for x, f in ((a, scheme), (b, 1)))
    if scheme == 3:
        return a, 0
    if scheme == 4:
        w = lambda s: 1 - f_exp(q(-0.1) / s.var) if isS(s.var) else 1 - f_exp(mk(q(-0.1)) if not isS(q(-0.1)) else q(-0.1))
        return tuple(0 if not isS(x) and not x else x * w(sts[y]) for x, y in ((a, 'a'), (b, 'b')))
    if scheme == 5:
        return 0, b
    return a, b


def weighted_jobs(facet):
    C = EntropyBitwiseWeightedDecoder
    out = []

    def run(scheme, window, bayes=False):
        def body(c, mkit):
            W = World(c, mkit, facet, LogSpaDecoder, True, window, 'one', updates=[(C, 'update_model_a'), (C, 'update_model_b')])
            dec, flip, par = make_weighted(W, scheme, bayes=bayes)
            sts = weighted_state(W, dec, bayes)
            old = dict(sts)

            def after(d, name, k):
                x = name[-1]
                old[x] = BayesState(W, 'next_' + x, True) if bayes else fresh_model(W, 'next_' + x)
                install(W, d, x, old[x])
            W.after_update = after
            r = returns(c, W.it, Bound(C.decode_buffer, dec), [W.ch])
            two_attempts(W, r, 11, 6, (3, 4, 5))
            if W.facet == 'ret':
                for x, d, t in (('a', 7, 9), ('b', 8, 10)):
                    W.reported(f'model {x}', vars(dec)[x + '_distribution'], vars(dec)[x + '_entropy'], r[d], r[t])
            a = W.attempts[-1]
            if W.facet == 'rect' and len(W.attempts) == 2:
                ca, cb = confidences(scheme, sts, par)
                top = W.top()

                def term_(s, cf, p):
                    if not s.seen or not isS(cf) and not cf:
                        return 0
                    return ite(And(s.structural(p, W.thr), cf > 0), lambda: cf * s.odds(p), 0)
                anyst = [s for s in sts.values() if s.seen]
                some = [count(W.L, lambda j, s=s: s.h(j) < W.thr) > 0 for s in anyst]
                use = Or(*some) if some else False
                moved = lambda p: clipped(W.o((p,)) + term_(sts['a'], ca, p) + term_(sts['b'], cb, p), W.clip * top)
                W.given(1, lambda p: ite(use, lambda: moved(p), lambda: W.o((p,))) if isS(use) else W.o((p,)),
                        'structural bits move by the confidence weighted log-odds of the two models, everything within the clipping bound')
                for s in anyst:
                    direction(W, s)
            if W.facet == 'learn':
                written = any(vars(dec).get(k) is not v for x in 'ab' for k, v in (old[x].attrs(x).items() if bayes else (
                    (f'model_{x}_data', old[x].data), (x + '_distribution', old[x].dist), (x + '_entropy', old[x].ent))))
                sg = W.segment_of(W.L, lambda j: veq(a.e((j,)), 1))
                bad = c.branch(bterm(sg.unknown))
                est = lambda j: a.e((j,))
                W.learns(None if bad else est, 'the model of good data', written, 'update_model_a')
                W.learns(W.bit if bad and len(W.attempts) == 2 else est, 'the model of all data', written, 'update_model_b')
        return body

    class Mean:
        """mean of a vector: a value determined by its elements"""
        def __init__(self, c):
            self.c, self.log = c, []

        def __call__(self, it, args, kw):
            if not kw and len(args) == 1 and isinstance(args[0], SArr) and args[0].ndim == 1:
                m = self.c.fresh('mean', 'real')
                self.log.append((args[0].shape[0], args[0].reader(), m))
                return m
            return M[np.mean](it, args, kw)

        def of(self, n, f):
            """mean of f(i), i < n, if the code takes it"""
            c = self.c
            i = c.fresh('mi', 'int')
            c.assume(And(i >= 0, i < n))
            for k, g, m in self.log:
                if c.implied(And(veq(k, n), veq(g((i,)), f(i))), 5000):
                    return m
            raise Unsupported('form of the variance')

    def update(x, window, corrected, bayes=False):
        def body(c, mkit):
            mean, gcd = Mean(c), Gcd(c)
            c.nan_div = bayes
            W = World(c, mkit, facet, LogSpaDecoder, True, window, 'one', contracts={np.mean: mean, np.gcd: gcd})
            dec, flip, par = make_weighted(W, 0, corrected, bayes)
            sts = weighted_state(W, dec, bayes)
            bits = SArr.fresh('bits', (W.L,), 'i', 0, 1)
            b = bits.reader()
            c.ro[id(bits.cell)] = 'bits'
            before = {k: (v, v.cell.fn) for k, v in vars(dec).items() if isinstance(v, SArr)}
            returns(c, W.it, Bound(getattr(C, 'update_model_' + x), dec), [bits])
            y = 'ab'['ba'.index(x)]
            if bayes:
                W.P('learn', 'the other model does not change', all(vars(dec).get(k) is v and not (k in before and before[k][1] is not v.cell.fn) for k, v in sts[y].attrs(y).items()))
                counted(W, gcd, mean, dec, x, sts[x], lambda j: b((j,)), flip)
                return
            g = lambda y: (getattr(dec, f'model_{y}_data'), getattr(dec, y + '_distribution'), getattr(dec, y + '_entropy'))
            W.unchanged('the other model', sts[y], *g(y))
            W.learnt('the model', sts[x], *g(x), lambda j: b((j,)), flip if corrected else None)
            dist = g(x)[1]
            v = getattr(dec, x + '_normalized_variance')
            p = lambda i: dist.elem(i, 1)
            W.P('learn', 'the variance is relative to that of a fair bit', veq(v, 2 * mean.of(W.L, lambda i: p(i) - p(i) * p(i))))
        return body

    def counted(W, gcd, mean, dec, x, st, bit, flip):
        """one more zero or one is counted per bit; beyond twice the window counts are divided by their greatest common divisor and scaled up to the window again"""
        c, j, w = W.c, W.j, W.window
        o, z, dist, ent = (getattr(dec, x + y) for y in ('_ones_prior', '_zeros_prior', '_distribution', '_entropy'))
        if not all(isinstance(y, SArr) for y in (o, z, dist, ent)) or (o.ndim, z.ndim, dist.ndim, ent.ndim) != (1, 1, 2, 1):
            raise Unsupported('priors')
        o1, z1 = (lambda j: st.o(j) + bit(j)), (lambda j: st.z(j) + 1 - bit(j))
        if not c.branch(bterm(o1(0) + z1(0) > 2 * w)):
            o2, z2 = o1, z1
        else:
            div = lambda f: lambda j: f(j) // gcd.of(o1(j), z1(j))
            o2, z2 = div(o1), div(z1)
            if c.branch(bterm(o2(0) + z2(0) < w)):
                t = w // (o2(0) + z2(0))
                c.prove('the factor is positive', t >= 1, kind='lemma')
                o2, z2 = (lambda f: lambda j: f(j) * t)(o2), (lambda f: lambda j: f(j) * t)(z2)
        W.P('learn', 'counts per bit', And(veq(o.shape[0], W.L), veq(z.shape[0], W.L), veq(o.elem(j), o2(j)), veq(z.elem(j), z2(j))))
        W.P('learn', 'counts stay positive', And(o.elem(j) >= 1, z.elem(j) >= 1))
        a, b = o.elem(j), z.elem(j)
        c.assume(And(a >= 1, b >= 1))
        v = ite(veq(a + b, 2), 0, lambda: mk(z3.ToReal(term(a - 1)) / z3.ToReal(term(a + b - 2))))
        p = clip01((v - flip) / (1 - 2 * flip))
        W.P('learn', 'no count is divided by zero', Implies(veq(a + b, 2), veq(a, 1)))
        W.P('learn', 'fraction of ones', And(veq(dist.shape[0], W.L), veq(dist.shape[1], 2), veq(dist.elem(j, 1), p), veq(dist.elem(j, 0), 1 - p)))
        W.P('learn', 'probabilities', And(dist.elem(j, 1) >= 0, dist.elem(j, 1) <= 1))
        W.P('learn', 'entropies', And(veq(ent.shape[0], W.L), veq(ent.elem(j), W.H(dist.elem(j, 1)))))
        var = getattr(dec, x + '_normalized_variance')
        co, cz = o.reader(), z.reader()

        def beta(i):
            a, b = co((i,)), cz((i,))
            return a * b / ((a + b + 1) * (a + b) * (a + b))
        k = 1 / (1 - 2 * flip)
        W.P('learn', 'the variance of the estimate is relative to that of a uniform probability', veq(var, 12 * (k * k * mean.of(W.L, beta))))
        W.P('learn', 'counts do not share memory', o.cell is not z.cell and o.cell is not W.ch.cell and z.cell is not W.ch.cell, kind='frame')

    for scheme in range(6) if facet == 'rect' else (0,):
        out.append(Job(f'EntropyBitwiseWeightedDecoder.decode_buffer (scheme {scheme})', run(scheme, False)))
    out.append(Job('EntropyBitwiseWeightedDecoder.decode_buffer (Bayes)', run(0, True, True)))
    if facet == 'learn':
        for x in 'ab':
            for w in (True, False):
                for cor in (False, True):
                    out.append(Job(f'EntropyBitwiseWeightedDecoder.update_model_{x} ({"" if w else "no "}window{", corrected" if cor else ""})', update(x, w, cor)))
            out.append(Job(f'EntropyBitwiseWeightedDecoder.update_model_{x} (Bayes)', update(x, True, False, True)))
    return out


def jobs(facet, prop):
    return cls_jobs(facet) + entropy_jobs(facet) + weighted_jobs(facet) + dude_jobs(facet)


# ------------------------------------------------------------------------------------------------ turbo decoder
class Alternate(LoopContract):
    """before iteration k the first decoder's prior is the extrinsic information of the second decoder's last answer (0 at first)"""
    name = 'turbo iterations'
    peel = True

    def __init__(self, T):
        self.T = T

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'decode_buffer'

    def enter(self, c, L):
        T = self.T
        i = c.fresh('zi', 'int')
        T.c.assume(And(i >= 0, i < T.n))
        self.i = i
        self.cand = [x for x in sorted(L.names) if isinstance(L.get(x), SArr) and L.get(x).ndim == 1 and same(c, L.get(x).shape[0], T.n)
                     and c.implied(veq(L.get(x).elem(i), 0))]
        if not self.cand:
            raise NoRole('prior of the first decoder')

    def havoc(self, c, L, k):
        T = self.T
        T.prior, T.k, T.N = {}, k, L.si.n
        for x in self.cand:
            a = SArr.fresh('prior_' + x, (T.n,), 'f')
            T.prior[x] = a.reader()
            L.set(x, a)
        T.calls = []

    def check(self, c, L, k, what):
        T = self.T
        if what == 'on entry':
            return
        if len(T.calls) != 2 or T.role is None:
            raise Unsupported('calls of an iteration')
        x = L.get(T.role)
        if not isinstance(x, SArr) or x.ndim != 1:
            raise Unsupported('prior of the first decoder')
        T.P("the first decoder's prior is the second decoder's extrinsic information",
            And(veq(x.shape[0], T.n), veq(x.elem(T.i), T.calls[1].l((T.i,)) - T.o((T.i,)) - T.prior2(T.i))))


class TurboWorld:
    def __init__(self, c, mkit):
        self.c = c
        self.n = sym(c, 'n', lo=1)
        self.ch = SArr.fresh('channel', (self.n,), 'f')
        self.o = self.ch.reader()
        c.ro = dict(c.ro or {})
        c.ro[id(self.ch.cell)] = 'channel'
        self.calls, self.role, self.count = [], None, 0
        self.i = c.fresh('i_any', 'int')
        c.assume(And(self.i >= 0, self.i < self.n))
        self.attempts = []
        self.prior = None
        self.it = mkit(contracts={}, loops=[Alternate(self)])

    def P(self, name, x):
        self.c.prove(name, x, kind='post')

    def call(self, which, it, word, *rest, **kw):
        if rest or kw or self.prior is None:
            raise Unsupported('call of a constituent decoder')
        self.attempts = self.calls
        a = Attempt(self, word, [])
        a.which = which
        k = len(self.calls)
        self.P('the decoders alternate, the first one first', k < 2 and which == k + 1)
        if k >= 2 or which != k + 1:
            raise PathEnd()
        w, i, o = a.word, self.i, self.o
        if which == 1:
            fit = [x for x in self.prior if self.c.implied(veq(w((i,)), o((i,)) + self.prior[x]((i,))))]
            self.role = fit[0] if fit else sorted(self.prior)[0]
            self.P('the first decoder is given the channel plus its prior', And(veq(a.n, self.n), veq(w((i,)), o((i,)) + self.prior[self.role]((i,)))))
            if not fit:
                raise PathEnd()
            self.prior2 = lambda i: a.l((i,)) - o((i,)) - self.prior[self.role]((i,))
        else:
            self.P('the second decoder runs only if the first failed', Not(self.calls[0].ok))
            self.P('the second decoder is given the channel plus the extrinsic information of the first', And(veq(a.n, self.n), veq(w((i,)), o((i,)) + self.prior2(i))))
        self.calls.append(a)
        return a.est, a.llr, a.ok, a.iterations, a.syn, a.vn


class Constituent(G):
    def __init__(self, T, which):
        self.T, self.which = T, which

    def m_decode_buffer(self, it, word, *rest, **kw):
        if self.which != 1:
            raise Unsupported('second decoder')
        return self.T.call(1, it, word, *rest, **kw)

    def m_decode(self, it, word, *rest, **kw):
        if self.which != 2:
            raise Unsupported('first decoder')
        return self.T.call(2, it, word, *rest, **kw)


def turbo_jobs(debug=False):
    def body(c, mkit):
        T = TurboWorld(c, mkit)
        T.m = sym(c, 'max_iter', lo=1)
        errors = np.array([3], dtype=np.int_)
        if debug:
            from decoders import turbo as mod

            def track(it, args, kw):
                d = dict(zip(('error_idx', 'rx', 'estimate'), args), **kw)
                rx, est = d['rx'], d['estimate']
                if d['error_idx'] is not errors or not all(isinstance(x, SArr) and x.ndim == 1 for x in (rx, est)):
                    raise Unsupported('arguments of track_errors')
                n = sym(c, 'wrong_bits', lo=0)
                T.tracked.append((n, rx.shape[0], rx.reader(), est.shape[0], est.reader()))
                return n
            T.tracked = []
            T.it.contracts[mod.track_errors] = track
        dec = T.it.call(TurboDecoder, [Constituent(T, 1), Constituent(T, 2), T.m], {'debug': True} if debug else {})
        r = returns(c, T.it, Bound(TurboDecoder.decode_buffer, dec), [T.ch, errors])
        if not isinstance(r, tuple) or len(r) != 5 or not T.calls:
            raise Unsupported('result of decode_buffer')
        a = T.calls[-1]
        i = T.i
        for x, rd, what in ((r[0], a.e, 'estimate'), (r[1], a.l, 'soft output')):
            if not isinstance(x, SArr) or x.ndim != 1:
                raise Unsupported('array returned')
            T.P(f'the {what} is that of the last decoding', And(veq(x.shape[0], T.n), veq(x.elem(i), rd((i,)))))
        T.P('success is that of the last decoding', Iff(r[2], a.ok) if isS(r[2]) or isinstance(r[2], bool) else unsupported('success'))
        T.P('the decoder that produced the result is reported', veq(r[3], a.which))
        T.P('it stops early only on success', Or(a.ok, And(a.which == 2, veq(T.k, T.N - 1), veq(T.N, T.m))))
        if debug and c.branch(bterm(a.ok)):
            T.P('no errors after a success', veq(r[4], 0))
        elif debug:
            t = [x for x in T.tracked if x[0] is r[4]]
            if not t:
                raise Unsupported('number of errors')
            _, n, rx, m, e = t[0]
            T.P('the errors counted are those of the last estimate', And(veq(n, T.n), veq(m, T.n), veq(rx((i,)), ite(T.o((i,)) < 0, 1, 0)), veq(e((i,)), a.e((i,)))))
    return [Job('TurboDecoder.decode_buffer', body)]


# ------------------------------------------------------------------------------------------------ denoising decoder
class DudeState:
    """denoisers of one cluster: size buffers seen, p(j, o) the probability denoiser j gives a one on observing o (C19)"""
    def __init__(self, W):
        self.W = W
        self.size = sym(W.c, 'buffers', lo=0)
        self.fn = W.c.fresh_fn('denoised', 'int', 'int', 'real')
        self.dudes = Dudes(self)
        self.used = 0

    def p1(self, j, o):
        c = self.W.c
        x = mk(self.fn(term(j), term(o)))
        c.axiom(('denoised', x.t.sexpr()), And(x >= 0, x <= 1))
        return x


class Dudes(G):
    kinds = (list, object)

    def __init__(self, st):
        self.st = st

    def _pyvc_len(self, it):
        return self.st.W.L

    def _pyvc_getitem(self, it, k):
        if isinstance(k, slice) or not self.st.W.c.implied(And(k >= 0, k < self.st.W.L)):
            raise Unsupported('index of a denoiser')
        raise Unsupported('single denoiser')

    def _pyvc_symiter(self, it):
        from pyvc.interp import SymIter
        self.st.used += 1
        return SymIter(self.st.W.L, lambda k: Dude(self.st, k))


class Dude(G):
    def __init__(self, st, k):
        self.st, self.k, self.n = st, k, 0

    def m_denoise_sample(self, it, x):
        self.n += 1
        if self.n > 1 or not isS(x) and not isinstance(x, (int, np.integer)):
            raise Unsupported('denoiser used twice')
        it.assumed.add('OnlineDude.denoise_sample with soft decisions (C19): a row of two probabilities adding up to one')
        p = self.st.p1(self.k, x)
        return SArr.new((1, 2), lambda i: ite(veq(i[1], 1), p, 1 - p) if isS(i[1]) else (p if i[1] else 1 - p), 'f'), 0


class NewDude:
    """a denoiser as constructed"""
    _pyvc_sym = True

    def __init__(self, args, kw):
        d = dict(zip(['channel_transition_matrix', 'loss_matrix', 'k', 'hard_decision', 'alphabet_size'], args))
        d.update(kw)
        self.d = d


def stack(W, it, args, kw):
    """np.array of a list of rows"""
    x = args[0] if args else None
    if isinstance(x, SList) and len(args) == 1 and not kw:
        c = W.c
        n = x.length()
        k = c.fresh('row', 'int')
        c.assume(And(k >= 0, k < n))
        e = x.elem(k)
        if isinstance(e, SArr) and e.ndim == 2 and tuple(e.shape) == (1, 2):
            return SArr.new((n, 1, 2), lambda i: x.elem(i[0]).reader()((i[1], i[2])), 'f')
    return M[np.array](it, args, kw)


def dude_jobs(facet):
    C = ClassifyingDudeDecoder
    out = []

    def run(clusters, prefix):
        def body(c, mkit):
            cs = {OnlineDude: lambda it, a, k: NewDude(a, k), np.array: lambda it, a, k: stack(W, it, a, k)}
            W = World(c, mkit, facet, LogSpaDecoder, prefix, None, clusters, contracts=cs)
            it = W.it
            W.make_state = lambda: DudeState(W)
            flip = sym(c, 'flip', 'real', lo=0)
            c.assume(flip * 2 < 1)
            c.assume(W.clip >= 0)
            ctxl = sym(c, 'context_length', lo=0)
            dec = it.call(C, [W.ldpc, W.L, W.clip, sym(c, 'training', lo=2), W.clusters, ctxl],
                          dict(conf_center=W.center, conf_slope=W.slope, bit_flip=flip, cluster=int(W.clustering)))
            built(W, dec, flip, ctxl)
            sizes, dudes = PerCluster(W, lambda s: s.size), PerCluster(W, lambda s: s.dudes)
            put(dec, data_size=sizes, dudes=dudes)
            want = round_robin(W, dec, 'classifier') if W.multi and not W.clustering else 0
            r = returns(c, it, Bound(C.decode_buffer, dec), [W.ch])
            if not isinstance(r, tuple) or len(r) != 6:
                raise Unsupported('result of decode_buffer')
            want = label_of(W, dec, want, r[4], 'classifier')
            W.P('ret', 'one LDPC decoding', len(W.attempts) == 1)
            if len(W.attempts) != 1:
                raise PathEnd()
            W.verdict(0, r, True, (3,))
            if W.facet == 'ret':
                if not isinstance(r[5], SArr) or r[5].ndim != 1:
                    raise Unsupported('denoised bits')
                W.P('ret', 'the denoised bits are the hard decisions of the word handed to the LDPC decoder',
                    And(veq(r[5].shape[0], W.n), Iff(veq(r[5].elem(W.p), 1), W.attempts[0].word((W.p,)) < 0), Or(veq(r[5].elem(W.p), 0), veq(r[5].elem(W.p), 1))))
            if not isS(want) and want < 0:
                W.given(0, lambda p: W.o((p,)), 'during classifier training the channel values go in as they are')
                W.P('rect', 'the denoisers see nothing during training', all(s.used == 0 for _, s in W.states))
                W.P('learn', 'nothing is counted during classifier training', not sizes.log)
                return
            st = W.state(want)
            used = [(a, s.used) for a, s in W.states]
            W.P('rect', 'each denoiser of the label sees the buffer once', sum(u for _, u in used) == 1 and st.used == 1)
            n = st.size + 1
            x = -(n - W.center) * W.slope
            cf = ite(n <= 1, 0, lambda: mk(z3.RealVal(1) / (1 + term(f_exp(x)))))
            top = W.top()

            def moved(p):
                q1 = lambda: st.p1(p, W.bit(p))
                return clipped(W.o((p,)) + ite(p < W.L, lambda: cf * f_log((1 - q1() + q(EPS)) / (q1() + q(EPS))), 0), W.clip * top)
            W.given(0, moved, 'model bits move by the confidence weighted log-odds of their denoisers, everything within the clipping bound')
            W.P('learn', 'the buffer is counted for its label', And(*[veq(k, want) for k, _ in sizes.log], veq(sizes.now(want), n)))
        return body

    def built(W, dec, flip, ctxl):
        c = W.c
        x, s = dec.dudes, dec.data_size
        k = c.fresh('cl_any', 'int')
        c.assume(And(k >= 0, k < W.clusters))

        def at(x, k, n):
            if isinstance(x, SList):
                W.P('rect', 'one denoiser per model bit and cluster', veq(x.length(), n))
                return x.elem(k)
            if isinstance(x, list) and len(x) == 1:
                return x[0]
            raise Unsupported('list of denoisers')
        e = at(at(x, k, W.clusters), W.j, W.L)
        if not isinstance(e, NewDude):
            raise Unsupported('denoiser')
        W.P('learn', 'no buffer is counted at first', veq(at(s, k, W.clusters), 0))
        T = e.d.get('channel_transition_matrix')
        if not isinstance(T, (SArr, np.ndarray)) or T.ndim != 2:
            raise Unsupported('channel of a denoiser')
        el = (lambda i, j: T.elem(i, j)) if isinstance(T, SArr) else (lambda i, j: T[i, j])
        W.P('rect', 'the denoisers know the channel', And(*[veq(el(i, j), 1 - flip if i == j else flip) for i in (0, 1) for j in (0, 1)]))
        W.P('rect', 'soft decisions with the given context', And(veq(e.d.get('k'), ctxl), veq(e.d.get('hard_decision', True), False)))
    for cl in ('one', 'round robin', 'classifier'):
        out.append(Job(f'ClassifyingDudeDecoder.decode_buffer ({cl})', run(cl, True)))
    out.append(Job('ClassifyingDudeDecoder.decode_buffer (model covers the information bits)', run('one', False)))
    return out
