"""C29 debugging observes without disturbing, and counts exactly"""
import sys
from .common import *
from . import dec, decv, mavv
from .mavv import mav_world, Opaque, Fields, CombinedDecoder, CombinedUnifiedDecoder, MavlinkRectifyingDecoder
from .decv import G
from pyvc.values import SFilt
from pyvc.sums import count, mk_sum
from decoders import turbo as turbo_mod
from decoders.turbo import TurboDecoder

CLASSES = (MavlinkRectifyingDecoder, CombinedDecoder, CombinedUnifiedDecoder)


class Image(G):
    """list of the fields of the errors, one per error"""
    def __init__(self, D):
        self.D = D


class Damaged(G):
    """answer of find_damaged_fields (C11): (name, field index) for each error that lies in a field"""
    kinds = (list, object)

    def __init__(self, c, n, hit):
        self.c, self.n, self.hit = c, n, hit
        self.fields = count(n, hit)
        self.m = sym(c, 'errors_in_fields', lo=0)
        c.assume(And(self.m >= self.fields, Iff(self.m > 0, self.fields > 0)))
        self.set = SFilt(n, hit, lambda i: i, 'i')

    def _pyvc_len(self, it):
        return self.m

    def _pyvc_truth(self):
        return self.m > 0

    def _pyvc_image(self, it, f, how):
        j = self.c.fresh('field', 'int')
        self.c.assume(And(j >= 0, j < self.n))
        r = f(('name', j))
        if not isS(r) or not self.c.implied(veq(r, j)):
            raise Unsupported('part of a damaged field')
        return self.set if how == 'set' else Image(self)


def through(default):
    def h(it, args, kw):
        if args and isinstance(args[0], Image):
            if default is None:
                return args[0]
            return args[0].D.set
        if args and isinstance(args[0], SFilt) and not kw:
            return args[0]
        return it.models[h.f](it, args, kw) if h.f in it.models else it.native(h.f, args, kw)
    return h


def passing():
    out = {}
    for f, d in ((tuple, None), (list, None), (sorted, None), (set, 1), (frozenset, 1), (np.unique, 1)):
        h = through(d)
        h.f = f
        out[f] = h
    return out


class Conf:
    """confusion by its contract (C26)"""
    def __init__(self, C):
        self.f = sys.modules[C.__module__].confusion
        self.log = []

    def __call__(self, it, args, kw):
        d = mavv.bound(self.f, args, kw)
        if len(d) != 3:
            raise Unsupported('arguments of confusion')
        a, b, n = d.values()
        r = SArr.fresh(f'counts{len(self.log)}', (6,), 'i')
        self.log.append((a, b, n, r))
        return r

    def of(self, r):
        for x in self.log:
            if isinstance(r, SArr) and r.cell is x[3].cell and r.is_full_view():
                return x
        raise Unsupported('confusion vector reported')


def is_set(c, x, n, cond):
    """x holds exactly the indices j below n with cond(j)"""
    if not isinstance(x, SFilt):
        raise Unsupported('index set')
    j = c.fresh('j', 'int')
    c.assume(And(j >= 0, j < n))
    return And(veq(x.n, n), Iff(x.cond(j), cond(j)), Implies(cond(j), veq(x.val(j), j)))


def classifier_job(C):
    def body(c, mkit):
        conf = Conf(C)
        N = sym(c, 'n_fields', lo=0)
        h = c.fresh_fn('hit', 'int', 'bool')
        hit = lambda i: mk(h(term(i)))

        def diff(it, args, kw):
            a, b = args[:2]
            i = c.fresh('i', 'int')
            c.assume(And(i >= 0, i < N))
            if not isinstance(a, SArr) or a.ndim != 1 or not isinstance(b, SFilt) or b.n is not D.set.n or not c.implied(veq(a.shape[0], N)) \
                    or not c.implied(veq(a.elem(i), i)) or not c.implied(veq(b.val(i), i)):
                raise Unsupported('difference of index sets')
            return SFilt(N, lambda i: Not(b.cond(i)), lambda i: i, 'i')
        cs = {conf.f: conf, np.setdiff1d: diff, **passing()}
        W, d, _ = mav_world(c, mkit, 'debug', C, 'round robin', None, True, False, debug=True, contracts=cs)
        D = Damaged(c, N, hit)
        k = sym(c, 'label', lo=0)
        c.assume(k < W.clusters)
        st = W.state(k)
        good, bad, errors = Opaque(), Opaque(), Opaque()
        asked = []

        def damaged(it, e, structure, length):
            W.P('debug', 'the damaged fields are those of the errors in the structure of the label', And(e is errors, structure is st.structure, veq(length * 8, W.n)))
            asked.append(1)
            return D
        W.model.m_find_damaged_fields = damaged
        r = returns(c, W.it, Bound(C.classifier_analysis, d), [good, bad, errors, N, k])
        if not isinstance(r, dict):
            raise Unsupported('result of the analysis')
        if st.structure is None:
            W.P('debug', 'no analysis without a structure', not r)
            return
        if not r:
            W.P('debug', 'no analysis only without damaged fields', len(asked) == 1 and veq(D.fields, 0))
            return
        W.P('debug', 'what is reported', set(r) == {'n_fields_in_buffer', 'n_damaged_fields_in_buffer', 'good_fields_performance', 'bad_fields_performance'})
        W.P('debug', 'fields of the buffer', veq(r['n_fields_in_buffer'], N))
        W.P('debug', 'damaged fields are counted once', veq(r['n_damaged_fields_in_buffer'], D.fields))
        a, b, n, _ = conf.of(r['bad_fields_performance'])
        W.P('debug', 'fields judged invalid against the damaged ones', And(a is bad, is_set(c, b, N, hit), veq(n, N - D.fields)))
        a, b, n, _ = conf.of(r['good_fields_performance'])
        W.P('debug', 'fields judged valid against the undamaged ones', And(a is good, is_set(c, b, N, lambda j: Not(hit(j))), veq(n, D.fields)))
    return body


def forcing_job(C):
    def body(c, mkit):
        conf = Conf(C)
        W, d, _ = mav_world(c, mkit, 'debug', C, 'round robin', None, True, False, debug=True, contracts={conf.f: conf})
        k = sym(c, 'label', lo=0)
        c.assume(k < W.clusters)
        st = W.state(k)
        F, E = (c.fresh_fn(x, 'int', 'bool') for x in ('forced', 'error'))
        fo, er = lambda i: mk(F(term(i))), lambda i: mk(E(term(i)))
        forced, errors = SFilt(W.n, fo, lambda i: i, 'i'), SFilt(W.n, er, lambda i: i, 'i')
        rx = SArr.fresh('received', (W.n,), 'i', 0, 1)
        x = rx.reader()
        c.ro[id(rx.cell)] = 'received bits'
        r = returns(c, W.it, Bound(C.forcing_analysis, d), [forced, errors, rx, k])
        if not isinstance(r, dict):
            raise Unsupported('result of the analysis')
        if st.structure is None:
            W.P('debug', 'no analysis without a structure', not r)
            return
        W.P('debug', 'what is reported', set(r) == {'bits_confusion_matrix', 'flipping_confusion_matrix', 'forcing_quality'})
        img = W.model.image(st.structure)
        ne, nf = count(W.n, er), count(W.n, fo)
        flipped = lambda i: And(fo(i), Not(veq(img(i), x((i,)))))
        a, b, n, _ = conf.of(r['bits_confusion_matrix'])
        W.P('debug', 'forced bits against the errors', And(is_set(c, a, W.n, fo), is_set(c, b, W.n, er), veq(n, W.n - ne)))
        a, b, n, v = conf.of(r['flipping_confusion_matrix'])
        W.P('debug', 'bits flipped by forcing against the errors', And(is_set(c, a, W.n, flipped), is_set(c, b, W.n, er), veq(n, W.n - ne)))
        q = r['forcing_quality']
        if not isinstance(q, SArr) or q.ndim != 1:
            raise Unsupported('quality vector')
        W.P('debug', 'numbers of errors, forced and flipped bits, right and wrong flips',
            And(veq(q.shape[0], 6), *[veq(q.elem(i), y) for i, y in enumerate([ne, nf, count(W.n, flipped), v.elem(0), v.elem(1)])]))
        wrong = mk_sum(W.n, lambda i: ite(fo(i), lambda: ite(Iff(veq(img(i), 1), Not(Iff(veq(x((i,)), 1), er(i)))), 0, 1), 0))
        if c.branch(bterm(nf > 0)):
            W.P('debug', 'fraction of forced bits whose model value was not sent', veq(q.elem(5) * nf, wrong))
        else:
            W.P('debug', 'nothing forced, nothing wrong', veq(q.elem(5), 0))
    return body


def track_job(c, mkit):
    n = sym(c, 'n', lo=1)
    E = c.fresh_fn('error', 'int', 'bool')
    er = lambda i: mk(E(term(i)))
    errors = SFilt(n, er, lambda i: i, 'i')
    rx, est = (SArr.fresh(x, (n,), 'i', 0, 1) for x in ('received', 'estimate'))
    c.ro = dict(c.ro or {})
    for a, nm in ((rx, 'received bits'), (est, 'estimate')):
        c.ro[id(a.cell)] = nm
    x, e = rx.reader(), est.reader()
    it = mkit()
    r = returns(c, it, turbo_mod.track_errors, [errors, rx, est])
    sent = lambda i: ite(er(i), lambda: 1 - x((i,)), lambda: x((i,)))
    c.prove('number of bits in which the estimate differs from the word sent', veq(r, count(n, lambda i: Not(veq(sent(i), e((i,)))))), kind='post')


def jobs(tier):
    out = []
    for f in ('rect', 'ret', 'learn'):
        out += mavv.mav_jobs(f, debug=True)
    for C in CLASSES:
        if 'classifier_analysis' in vars(C):
            out.append(Job(f'{C.__name__}.classifier_analysis', classifier_job(C)))
        if 'forcing_analysis' in vars(C):
            out.append(Job(f'{C.__name__}.forcing_analysis', forcing_job(C)))
    out.append(Job('track_errors', track_job))
    out += decv.turbo_jobs(debug=True)
    return out


# ------------------------------------------------------------------------------------------------ bounded search
def counts(pred, actual, negative):
    a, b = set(map(int, pred)), set(actual)
    return [len(a & b), len(a - b), negative - len(a - b), len(b - a), len(b), negative]


class Watch:
    """what the debugging decoder analyses, against the fields, forced bits and errors of the buffer"""
    def errors(self, llr):
        est = self.steps[self.t][1][0][0]
        e = [i for i, (x, y) in enumerate(zip(llr, est)) if int(x < 0) != y]
        if self.t % 3 == 1:
            e = sorted(set(e) ^ {(7 * self.t + 3) % self.n, (5 * self.t + 11) % self.n, 9 % self.n, 10 % self.n})
        if self.t % 4 == 2:
            e = sorted(set(e) | set(range(self.n // 9, self.n, 1 + self.t % 3)))
        return e[::-1] if self.t % 2 else e

    def make(self):
        super().make()
        self.seen = {}
        for nm in ('classifier_analysis', 'forcing_analysis'):
            f = getattr(self.dec, nm, None)
            if f is not None:
                setattr(self.dec, nm, self.spy(nm, f))

    def spy(self, nm, f):
        def g(*a, **kw):
            r = f(*a, **kw)
            self.seen.setdefault(nm, []).append({k: np.array(v) for k, v in r.items()} if isinstance(r, dict) else r)
            return r
        return g

    def args(self, llr):
        self.err = self.errors(llr)
        self.given = np.array(self.err, dtype=int)
        self.seen = {}
        if self.cls == 'uni' and self.t % 5 == 3:        # the error positions are optional here
            return (llr,)
        return (llr, self.given)

    def verdict(self, r):
        self.answer = r
        yield from super().verdict(r)

    def inputs(self, llr, got, lab):
        bad = list(super().inputs(llr, got, lab))
        if self.given.tolist() != self.err:
            bad.append(('debug', 'the error indices were modified'))
        m = self.analysis(llr, got, lab)
        return bad + ([('debug', m)] if m else [])

    def analysis(self, llr, got, lab):
        want = self.want(llr, got, lab)
        names = ('classifier_analysis', 'forcing_analysis')
        if self.cls == 'mav':
            if len(self.answer) != 12:
                return f'{len(self.answer)} results'
            have = dict(zip(names, [[x] for x in self.answer[10:]]))
        else:
            have = self.seen
        for nm, w in zip(names, want):
            for h in have.get(nm, []):
                if not isinstance(h, dict) or set(h) != set(w):
                    return f'{nm} reports {h}, expected {w}'
                for k, v in w.items():
                    if not nearly(h[k], v):
                        return f'{nm}: {k} is {np.asarray(h[k]).tolist()}, expected {v} (errors {self.err})'

    def want(self, llr, got, lab):
        st = self.sets[lab] if lab >= 0 else None
        if st is None:
            return {}, {}
        word = llr if len(got) == 1 else np.array(self.steps[self.t][1][len(got) - 2][1], dtype=float)
        pred, per = self.f.predict(self.hard(word), st)
        P, E, bits = self.P, set(self.err), self.hard(llr)
        good = [i for i, p in enumerate(per) if p is not None and not dec.below(p, 1 - P['valid_thr'])]
        bad = [i for i, p in enumerate(per) if p is not None and dec.below(p, P['invalid_thr'])]
        hit = [i for i, (_, _, a, b) in enumerate(dec.layout(st)) if any(a <= e < b for e in E)]
        n = len(per)
        cl = {} if not hit else dict(n_fields_in_buffer=n, n_damaged_fields_in_buffer=len(hit),
                                     good_fields_performance=counts(good, set(range(n)) - set(hit), len(hit)),
                                     bad_fields_performance=counts(bad, hit, n - len(hit)))
        forced = {i: img for i, (p, sd, img) in pred.items() if sd == 0 and (p <= 0 or (self.unified and not self.learning))}
        flipped = [i for i, img in forced.items() if img != bits[i]]
        c1, c2 = (counts(x, E, self.n - len(E)) for x in (forced, flipped))
        wrong = sum(img != bits[i] ^ (i in E) for i, img in forced.items())
        return cl, dict(bits_confusion_matrix=c1, flipping_confusion_matrix=c2,
                        forcing_quality=[len(E), len(forced), len(flipped), c2[0], c2[1], wrong / len(forced) if forced else 0])


class WMav(Watch, dec.Mav):
    pass


class WComb(Watch, dec.Comb):
    pass


class WUni(Watch, dec.Uni):
    pass


WATCH = dict(mav=WMav, comb=WComb, uni=WUni)
nearly = dec.nearly


def watch(case):
    try:
        W = WATCH[case[1]](case[:3] + (dict(case[3], debug=True),) + case[4:])
        W.tags = ('rect', 'ret', 'learn', 'debug')
        found = W.run()
    except dec.Ambiguous:
        return None
    if not found:
        return None
    quiet = {t for t, _ in dec.run(case)}       # what the decoder gets wrong without debugging is for C22 - C25
    if quiet >= {'rect', 'ret', 'learn'}:
        return None
    for tag, m in found:
        if tag not in quiet:
            return f'{W.dec.__class__.__name__} with debugging: {m}'


def turbo(case):
    _, word, max_iter, s1, s2, errors = case
    w, e = np.array(word, dtype=float), np.array(errors, dtype=int)
    sent = np.array([int(x < 0) for x in word])
    sent[errors] ^= 1
    res = []
    for debug in (False, True):
        a, b = _First(s1), _First(s2)
        r = TurboDecoder(a, b, max_iter, debug).decode_buffer(w.copy(), e)
        res.append((a.log, b.log, r))
    if e.tolist() != list(errors):
        return 'the error indices were modified'
    (a0, b0, r0), (a1, b1, r1) = res
    if [x.tolist() for x in a0 + b0] != [x.tolist() for x in a1 + b1] or list(r0[0]) != list(r1[0]) or list(r0[1]) != list(r1[1]) \
            or bool(r0[2]) != bool(r1[2]) or r0[3] != r1[3]:
        return 'debugging changes what the turbo decoder does'
    n = 0 if r1[2] else int((np.asarray(r1[0]) != sent).sum())
    if r1[4] != n:
        return f'{r1[4]} final errors reported, {n} bits of the final estimate are wrong'


class _First:
    def __init__(self, script):
        self.s, self.log = list(script), []

    def decode_buffer(self, w):
        self.log.append(np.array(w, dtype=float))
        est, llr, ok, it = self.s.pop(0)
        return np.array(est), np.array(llr), ok, it

    decode = decode_buffer


def check(case):
    return turbo(case) if case[0] == 'turbo' else watch(case)


def cases(rng, tier, part, nparts):
    while True:
        for k in WATCH:
            yield dec.GEN[k](rng)
            yield steady(rng, k)
        n, m = rng.randrange(1, 6), rng.randrange(1, 4)
        p = rng.choice([0.0, 0.3])

        def outs():
            return [dec.rand_outcome(rng, [rng.getrandbits(1) for _ in range(n)], p) for _ in range(m)]
        err = rng.sample(range(n), rng.randrange(n + 1))
        yield ('turbo', [rng.uniform(-4, 4) for _ in range(n)], m, outs(), outs(), err)


def steady(rng, cls):
    """a known structure whose fields have been constant, then a damaged buffer: bits are forced"""
    c = dec.GEN[cls](rng)
    st = c[7][0]
    good = [s for s in c[8] if s[1][0][2]]
    if not good or st is None or any(x is None for x in st):
        return c
    est = good[0][1][0][0]
    steps = []
    for t in range(rng.randrange(2, 6)):
        llr = [(-1) ** b * rng.uniform(0.5, 3) for b in est]
        if t > 1:
            for j in rng.sample(range(len(est)), rng.choice([1, 2, 5, 12])):
                llr[j] = -llr[j]
        o = [(est, [(-1) ** b * 4.0 for b in est], True, 3) if t < 2 or rng.random() < 0.5 else dec.rand_outcome(rng, est, 0.2) for _ in good[0][1]]
        steps.append((llr, o))
    return c[:7] + ((st, None if rng.random() < 0.7 else [(est, dict(st[0]))] * 2),) + (steps,)


def shrink(case):
    if case[0] == 'dec':
        yield from dec.shrink_case(case)


TRUSTED = [
    'np.intersect1d / np.setdiff1d / np.unique on index sets; confusion by its contract (C26), find_damaged_fields and bitwise_model_mean by C11, C13',
    'the LDPC decoder is an arbitrary function that does not write to its input',
    'BufferClassifier.classify by its contract (C17, C18); segmentation by C05/C06; BufferModel.predict / add_buffer by C11-C13',
]
ASSUMPTIONS = [
    'Error indices are distinct positions of the buffer (an index set).',
    'The preconditions of C23-C25 for the decoders; turbo decoder: max_iter >= 1.',
    'The combined decoders discard their analyses: only the methods\' answers are specified, and that computing them has no effect.',
]
