"""Contracts of the MAVLink-aware decoders (C23, C24, C25): symbolic execution of decode_buffer with the field model
(BufferModel, C11 - C13), the segmentation (C05, C06), the classifier (C17, C18) and the LDPC decoder by contract."""
import inspect
from .decv import *
from .decv import G, GCall, World, State, Structure, PerCluster
from inference import BufferModel
from pyvc.values import SFilt, SOpt
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
from decoders.combined_decoder import CombinedDecoder
from decoders.combined_unified_decoder import CombinedUnifiedDecoder

ASSUMED_MODEL = 'BufferModel.predict, bitwise_model_mean, add_buffer (C11 - C13): functions of the bits, the structure and the model; bits outside modelled fields are NaN'


class Prediction:
    def __init__(self, W, n, bit, structure, k):
        c = W.c
        self.n, self.bit, self.structure = n, bit, structure
        fp, fs, fn = c.fresh_fn(f'valid_p{k}', 'int', 'real'), c.fresh_fn(f'std{k}', 'int', 'real'), c.fresh_fn(f'unmodelled{k}', 'int', 'bool')
        self.p = lambda i: S(fp(term(i)), fn(term(i)))
        self.std = lambda i: S(fs(term(i)), fn(term(i)))
        q_, r_ = c.fresh_fn(f'field_p{k}', 'int', 'real'), c.fresh_fn(f'no_model{k}', 'int', 'bool')
        m = sym(c, f'fields{k}', lo=0)
        self.fields = SList([('fn', m, lambda i: SOpt(mk(r_(term(i))), ('field', mk(q_(term(i))), 0)))])
        self.arrays = (SArr.new((n,), lambda x: self.p(x[0]), 'f'), SArr.new((n,), lambda x: self.std(x[0]), 'f'))


class Fields(G):
    """a field model"""
    kinds = (BufferModel, object)

    def __init__(self, W):
        self.W = W
        self.size = sym(W.c, 'model_size', lo=0)
        self.predictions, self.images, self.added, self.created = [], [], [], None

    def a_model_size(self):
        return self.size

    def _pyvc_isnone(self):
        return False

    def prediction_of(self, n, bit, structure):
        c = self.W.c
        i = c.fresh('pi', 'int')
        for x in self.predictions:
            if x.structure is structure and same(c, x.n, n) and c.implied(Implies(And(i >= 0, i < n), Iff(x.bit(i), bit(i)))):
                return x
        x = Prediction(self.W, n, bit, structure, len(self.predictions))
        self.predictions.append(x)
        return x

    def m_predict(self, it, bits, structure):
        if not isinstance(structure, Structure) or not isinstance(bits, SArr) or bits.ndim != 1:
            raise Unsupported('arguments of predict')
        if not self.W.c.implied(veq(bits.shape[0] % 8, 0)):
            raise Unsupported('length of the buffer')
        it.assumed.add(ASSUMED_MODEL)
        r = bits.reader()
        x = self.prediction_of(bits.shape[0], (lambda i: r((i,))) if bits.kind == 'b' else (lambda i: veq(r((i,)), 1)), structure)
        return x.fields, x.arrays[0], x.arrays[1]

    def image(self, structure):
        c = self.W.c
        for s, f in self.images:
            if s is structure:
                return f
        g = c.fresh_fn(f'image{len(self.images)}', 'int', 'int')

        def f(i):
            x = mk(g(term(i)))
            c.axiom(('image', x.t.sexpr()), And(x >= 0, x <= 1))
            return x
        self.images.append((structure, f))
        return f

    def m_bitwise_model_mean(self, it, idx, length, structure):
        if not isinstance(structure, Structure) or not isinstance(idx, SFilt) or not same(self.W.c, length * 8, self.W.n):
            raise Unsupported('arguments of bitwise_model_mean')
        f = self.image(structure)
        v = idx.val
        return SFilt(idx.n, idx.cond, lambda i: f(v(i)), 'i', idx.tag)

    def m_add_buffer(self, it, bits, structure):
        if not isinstance(structure, Structure) or not isinstance(bits, SArr) or bits.ndim != 1:
            raise Unsupported('arguments of add_buffer')
        self.added.append((bits.shape[0], bits.reader(), structure))


class Pad(G):
    def m_astype(self, it, t):
        return self


class MavState:
    """structure and (combined decoders) entropy model of one cluster"""
    def __init__(self, W, combined):
        c = W.c
        self.structure = Structure(sym(c, 'known_messages', lo=0)) if c.choose(2) else None
        self.e = State(W, 'model', c.choose(2) == 1) if combined else None


METHOD = {MavlinkRectifyingDecoder: 'model_prediction', CombinedDecoder: 'mavlink_model_prediction', CombinedUnifiedDecoder: 'mavlink_model_prediction'}


def rectification(W, it, args, kw):
    """contract of the rectification by the field model (proved by its own job)"""
    d = dict(zip(['self', 'observation', 'cluster_id'], args))
    if len(args) > 3 or set(d) & set(kw):
        raise Unsupported('arguments of the rectification')
    d.update(kw)
    if set(d) != {'self', 'observation', 'cluster_id'}:
        raise Unsupported('arguments of the rectification')
    obs, k = d['observation'], d['cluster_id']
    if not isinstance(obs, SArr) or obs.ndim != 1 or obs.cell is W.ch.cell:
        raise Unsupported('observation to rectify')
    n, r = obs.shape[0], obs.reader()
    st = W.state(k)
    empty = lambda: np.array([])
    if st.structure is None:
        W.rectified.append((k, n, r, r))
        W.aux = empty(), empty(), [], [], 0, empty(), empty()
        return (obs, *W.aux)
    obs.setitem(slice(None, None, None), SArr.fresh('scratch', (n,), 'f'))
    out = SArr.fresh('rectified', (n,), 'f')
    W.rectified.append((k, n, r, out.reader()))
    W.aux = tuple(Opaque() for _ in range(7))
    return (out, *W.aux)


def bound(f, args, kw):
    try:
        b = inspect.signature(f).bind(*args, **kw)
    except TypeError:
        raise Unsupported(f'arguments of {f.__name__}')
    b.apply_defaults()
    return b.arguments


def analysis(W, f, parts):
    """contract of a debugging analysis inside decode_buffer: it is about this buffer and the model before learning"""
    def h(it, args, kw):
        d = bound(f, args, kw)
        if set(d) != set(parts) | {'self', 'label'}:
            raise Unsupported('arguments of ' + f.__name__)
        ok = True
        for name, want in parts.items():
            x = d[name]
            if want == 'errors':
                if not isinstance(x, type(W.errors)):
                    raise Unsupported('error indices')
                if x is not W.errors:
                    j = W.p
                    ok = And(ok, veq(x.n, W.n), Iff(x.cond(j), W.errors.cond(j)), Implies(x.cond(j), veq(x.val(j), j)))
            elif want == 'received':
                if not isinstance(x, SArr) or x.ndim != 1:
                    raise Unsupported('received bits')
                ok = And(ok, veq(x.shape[0], W.n), veq(x.elem(W.p), W.bit(W.p)))
            else:
                ok = And(ok, W.aux is not None and x is W.aux[want])
        W.P('ret', f'{f.__name__} is about the errors of this buffer and its last rectification', ok)
        W.P('learn', 'a buffer is analysed before it is learnt', not W.model.added and not W.structs.log)
        r = Opaque()
        W.analysed.append((f.__name__, d['label'], r))
        return r
    return h


class Opaque(G):
    pass


class Segments(LoopContract):
    """before iteration k every earlier decoding of the buffer failed, what is to be rectified is the channel word (k = 0) or the
    soft output of the previous decoding, the iterations are counted, and nothing was classified or learnt meanwhile"""
    name = 'segmentation iterations'
    peel = True

    def __init__(self):
        self.W = None

    def match(self, it, s, fr, si):
        return self.W is not None and self.W.rounds is not None and fr.name.split('.')[-1] == 'decode_buffer' and si is not None

    def enter(self, c, L):
        W = self.W
        i = c.fresh('zi', 'int')
        c.assume(And(i >= 0, i < W.n))
        V = {x: L.get(x) for x in sorted(L.names)}
        self.words = [x for x, v in V.items() if isinstance(v, SArr) and v.ndim == 1 and same(c, v.shape[0], W.n) and c.implied(veq(v.elem(i), W.o((i,))))]
        self.counts = [x for x, v in V.items() if type(v) is int and v == 0]
        if len(self.words) != 1 or len(self.counts) > 1:
            raise NoRole('word to rectify')

    def havoc(self, c, L, k):
        W = self.W
        if W.attempts or W.rectified or W.model.added or W.structs.log:
            raise Unsupported('decoding or learning before the loop')
        a = SArr.fresh('word', (W.n,), 'f')
        W.word, W.round, W.rounds_n = a.reader(), k, L.si.n
        c.assume(Implies(veq(k, 0), veq(W.word((W.p,)), W.o((W.p,)))))
        L.set(self.words[0], a)
        for x in self.counts:
            W.counted = sym(c, 'iterations_so_far', lo=0)
            L.set(x, W.counted)

    def check(self, c, L, k, what):
        W = self.W
        if what == 'on entry':
            return
        W.P('ret', 'one LDPC decoding per iteration', len(W.attempts) == 1)
        W.P('learn', 'nothing is learnt before the last iteration', not W.model.added and not W.structs.log)
        if len(W.attempts) != 1:
            raise PathEnd()
        a = W.attempts[0]
        W.P('ret', 'decoding goes on only after a failure', Not(a.ok))
        x = L.get(self.words[0])
        if not isinstance(x, SArr) or x.ndim != 1:
            raise Unsupported('word to rectify')
        W.P('rect', 'the soft output is rectified next', And(veq(x.shape[0], W.n), veq(x.elem(W.p), a.l((W.p,)))))
        for n in self.counts:
            W.P('ret', 'iterations are counted', veq(L.get(n), W.counted + a.iterations))
        if W.facet == 'rect':
            W.rectifies()


def mav_world(c, mkit, facet, C, clusters, window, learning, modular=True, rounds=False, debug=False, contracts=None):
    combined = C is not MavlinkRectifyingDecoder
    made = []
    cs = {}
    f = vars(C).get(METHOD[C])
    if f is not None and modular:
        cs[f] = lambda it, a, k: rectification(W, it, a, k)
    if debug and modular:
        for nm, parts in (('classifier_analysis', dict(good_fields_idx=2, bad_fields_idx=3, error_idx='errors', n_fields_in_buffer=4)),
                          ('forcing_analysis', dict(forced_bits=5, error_idx='errors', rx='received'))):
            if nm in vars(C):
                cs[vars(C)[nm]] = (lambda f, p: lambda it, a, k: analysis(W, f, p)(it, a, k))(vars(C)[nm], parts)
    cs.update(contracts or {})

    def new_model(it, a, k):
        f = Fields(W)
        f.created = (a, k)
        made.append(f)
        return f
    seg = Segments()
    W = World(c, mkit, facet, LogSpaDecoder, True, window, clusters, contracts={BufferModel: new_model, np.pad: lambda it, a, k: Pad(), **cs},
              loops=[seg] if rounds else [],
              updates=[(C, 'update_entropy_model')] if combined and modular else [])
    W.rectified = []
    W.aux, W.analysed, W.errors = None, [], np.array([0])
    if debug:
        E = c.fresh_fn('error', 'int', 'bool')
        W.errors = SFilt(W.n, lambda i: mk(E(term(i))), lambda i: i, 'i')
    W.make_state = lambda: MavState(W, combined)
    kb, nb = sym(c, 'info_bytes', lo=1), sym(c, 'code_bytes', lo=1)
    c.assume(And(veq(W.k, kb * 8), veq(W.n, nb * 8)))
    W.vthr, W.ithr, W.vf, W.inf = (sym(c, x, 'real') for x in ('valid_threshold', 'invalid_threshold', 'valid_factor', 'invalid_factor'))
    W.fixed = None if learning else Fields(W)
    kw = dict(data_model=W.fixed, window_length=W.window, conf_center=W.center, conf_slope=W.slope, cluster=W.clustering, classifier_training_size=sym(c, 'training', lo=2))
    flip = sym(c, 'flip', 'real', lo=0)
    c.assume(flip * 2 < 1)
    c.assume(W.clip >= 0)
    W.flipping = None
    if combined:
        kw.update(entropy_threshold=W.thr, clipping_factor=W.clip, bit_flip=flip)
    if C is CombinedUnifiedDecoder:
        c.assume(W.center >= 0)
        W.flipping = c.choose(2) == 1
        kw['flip'] = W.flipping
    W.rounds = W.counted = None
    if debug:
        kw['debug'] = True
    if rounds:
        W.rounds = kw['segmentation_iterations'] = sym(c, 'segmentation_iterations', lo=1)
        seg.W = W
    dec = W.it.call(C, [W.ldpc, W.L, W.vthr, W.ithr, W.clusters, W.vf, W.inf], kw)
    if learning:
        if len(made) != 1:
            raise Unsupported('the field model')
        W.model = made[0]
        a, k = W.model.created
        w = k.get('window_size', a[1] if len(a) > 1 else None)
        W.P('learn', 'the field model has the window of the decoder', veq(w, W.window) if W.window is not None else w is None)
    else:
        W.model = W.fixed
    if dec.model is not W.model:
        raise Unsupported('the field model')
    bs = dec.buffer_structures
    if isinstance(bs, SList):
        e, n = bs.elem(0), bs.length()
    elif isinstance(bs, list) and bs:
        e, n = bs[0], len(bs)
    else:
        raise Unsupported('structures')
    W.P('learn', 'no structure is known at first', e is None and veq(n, W.clusters))
    W.structs = PerCluster(W, lambda s: s.structure)
    put(dec, buffer_structures=W.structs)
    if combined:
        data, dist, ent = (PerCluster(W, f) for f in (lambda s: s.e.data, lambda s: s.e.dist, lambda s: s.e.ent))
        starts_empty(W, dec.entropy_models_data, dec.distributions, dec.models_entropy)
        put(dec, entropy_models_data=data, distributions=dist, models_entropy=ent)
        W.lists = data, dist, ent

        def after(d, name, k):
            s = fresh_model(W, 'next')
            for g, x in ((data, s.data), (dist, s.dist), (ent, s.ent)):
                g.after.append((k, x))
        W.after_update = after
    return W, dec, flip


def factors(W, learning):
    if not learning:
        return W.vf, W.inf
    x = -(W.model.size - W.center) * W.slope
    cf = ite(W.model.size <= 1, 0, lambda: mk(z3.RealVal(1) / (1 + term(f_exp(x)))))
    return (W.vf - 1) * cf + 1, (W.inf - 1) * cf + 1


def expected(W, C, st, learning):
    """value of bit p given to the LDPC decoder"""
    c, o = W.c, lambda p: W.o((p,))
    out = o
    if st.structure is not None:
        s = st.structure
        pr = W.model.prediction_of(W.n, lambda i: o(i) < 0, s)
        vf, inf = factors(W, learning)
        top = W.top()
        good = lambda p: pr.p(p) > 1 - W.vthr
        bad = lambda p: pr.p(p) < W.ithr
        if C is CombinedUnifiedDecoder:
            e = st.e
            ready = c.branch(bterm(e.m > W.center)) if e.seen else False
            low = lambda p: e.structural(p, W.thr)
            f = -1 if W.flipping else 1

            def x1(p):
                if not ready:
                    return o(p)
                v = ite(And(good(p), low(p)), lambda: o(p) * vf, lambda: o(p))
                wrong = lambda p: Not(Iff(e.p1(p) * 2 > 1, o(p) < 0))
                return ite(And(bad(p), low(p), wrong(p)), lambda: v * (inf * f), lambda: v)
            force = lambda p: And(pr.p(p) <= 0, pr.std(p) == 0) if learning else pr.std(p) == 0
        else:
            def x1(p):
                v = ite(good(p), lambda: o(p) * vf, lambda: o(p))
                return ite(bad(p), lambda: v * inf, lambda: v)
            force = lambda p: And(pr.p(p) <= 0, pr.std(p) == 0)
        img = W.model.image(s)
        x2 = lambda p: ite(force(p), lambda: ite(veq(img(p), 1), -top, top) * ite(vf > 1, vf, 1), lambda: x1(p))
        sg = W.segment_of(W.k, lambda i: o(i) < 0)
        if c.branch(bterm(sg.structure.count > 0)):
            out = lambda p: ite(And(p < W.k, lambda_in(sg, p)), lambda: o(p) * 2 * vf, lambda: x2(p))
        else:
            s2 = W.segment_of(W.k, lambda i: x2(i) < 0)
            if c.branch(bterm(s2.structure.count > 0)):
                out = lambda p: ite(And(p < W.k, lambda_in(s2, p)), lambda: x2(p) * 2, lambda: x2(p))
            else:
                out = x2
    return out


def with_entropy(W, C, st, out):
    if C is MavlinkRectifyingDecoder:
        return out
    e = st.e
    cf = e.conf(W.center, W.slope)
    if not e.seen:
        return out
    return lambda p: out(p) + ite(And(e.structural(p, W.thr), cf > 0), lambda: clipped(cf * e.odds(p), W.clip * W.top()), 0)


def lambda_in(sg, p):
    return veq(sg.v((p,)), 1)


def mav_jobs(facet, debug=False):
    out = []

    def run(C, clusters, learning, window=False, rounds=False):
        combined = C is not MavlinkRectifyingDecoder

        def body(c, mkit):
            W, dec, flip = mav_world(c, mkit, facet, C, clusters, window, learning, rounds=rounds, debug=debug)
            want = round_robin(W, dec) if W.multi and not W.clustering else 0

            def rectifies():
                if len(W.rectified) != 1:
                    raise Unsupported('rectifications of an iteration')
                k, n, rd, res = W.rectified[0]
                W.P('rect', 'the word is rectified with one structure', And(k >= 0, k < W.clusters, veq(n, W.n), veq(rd((W.p,)), W.word((W.p,)))))
                a = W.attempts[0]
                W.P('rect', 'the rectified word is decoded', And(veq(a.n, W.n), veq(a.word((W.p,)), res((W.p,)))))
            W.rectifies = rectifies
            r = returns(c, W.it, Bound(C.decode_buffer, dec), [W.ch, W.errors])
            if not isinstance(r, tuple) or len(r) != (5 if combined else 12):
                raise Unsupported('result of decode_buffer')
            want = label_of(W, dec, want, r[4 if combined else 6])
            W.P('ret', 'one LDPC decoding', len(W.attempts) == 1)
            if len(W.attempts) != 1:
                raise PathEnd()
            if debug:
                W.P('ret', 'the analyses are about the model of the label', And(*[veq(k, want) for _, k, _ in W.analysed]))
                if not combined:
                    for nm, x in (('classifier_analysis', r[10]), ('forcing_analysis', r[11])):
                        if not isS(want) and want < 0:
                            W.P('ret', 'no analysis during classifier training', isinstance(x, dict) and not x)
                        else:
                            W.P('ret', f'the result of {nm} is returned', [y for n, _, y in W.analysed if n == nm and y is x] != [])
            looped = W.rounds is not None and hasattr(W, 'word')
            W.verdict(0, r, True, (3,) if combined else (None if looped else 3, 4, 5))
            if looped:
                a = W.attempts[0]
                if W.counted is None:
                    raise Unsupported('iteration count')
                W.P('ret', 'the iteration count is that of all decodings of the buffer', veq(r[3], W.counted + a.iterations))
                W.P('ret', 'decoding ends only on success or after the last iteration', Or(a.ok, And(veq(W.round, W.rounds_n - 1), veq(W.rounds_n, W.rounds))))
            added, written = W.model.added, W.structs.log
            if not isS(want) and want < 0:
                W.given(0, lambda p: W.o((p,)), 'during classifier training the channel values go in as they are')
                W.P('learn', 'nothing is learnt during classifier training', not added and not written)
                if combined:
                    W.learns(None, 'classifier training')
                return
            st = W.state(want)
            if W.facet == 'rect' and looped:
                W.rectifies()
                W.P('rect', 'the structure is that of the label', veq(W.rectified[0][0], want))
            elif W.facet == 'rect':
                if W.rectified:
                    if len(W.rectified) != 1:
                        raise Unsupported('several rectifications')
                    k, n, rd, res = W.rectified[0]
                    W.P('rect', 'the channel values are rectified with the structure of the label', And(veq(k, want), veq(n, W.n), veq(rd((W.p,)), W.o((W.p,)))))
                    base = lambda p: res((p,))
                else:
                    base = expected(W, C, st, learning)
                W.given(0, with_entropy(W, C, st, base), 'the rectified word')
            if W.facet == 'learn':
                a = W.attempts[0]
                ok = c.branch(bterm(a.ok))
                s = st.structure
                if ok and s is None and learning:
                    s = W.segment_of(W.k, lambda i: veq(a.e((i,)), 1)).structure
                    W.P('learn', 'the structure of the first decoded buffer is kept', len(written) == 1 and And(veq(written[0][0], want), written[0][1] is s))
                else:
                    W.P('learn', 'a known structure stays', not written)
                if learning and s is not None:
                    W.P('learn', 'the field model learns the buffer once', len(added) == 1)
                    if len(added) == 1:
                        n, b, t = added[0]
                        W.P('learn', 'the field model learns the decoded bits, or the received ones if decoding failed',
                            And(veq(n, W.n), veq(b((W.p,)), a.e((W.p,)) if ok else W.bit(W.p)), t is s))
                else:
                    W.P('learn', 'nothing is learnt without a structure, or by a supplied model', not added)
                if combined:
                    W.learns((lambda j: a.e((j,))) if ok else W.bit, 'each buffer', bool(W.lists[0].log or W.lists[1].log or W.lists[2].log), label=want)
                W.P('learn', 'the field model stays', dec.model is W.model)
        return body

    def predict(C, learning, clusters):
        def body(c, mkit):
            W, dec, flip = mav_world(c, mkit, facet, C, clusters, None, learning, False)
            k = sym(c, 'label', lo=0)
            c.assume(k < W.clusters)
            obs = SArr.new((W.n,), W.ch.reader(), 'f')
            r = returns(c, W.it, Bound(getattr(C, METHOD[C]), dec), [obs, k])
            if not isinstance(r, tuple) or len(r) != 8 or not isinstance(r[0], SArr) or r[0].ndim != 1:
                raise Unsupported('result of the rectification')
            W.P('rect', 'valid, invalid, certainly wrong and intact bits are treated as described, all others unchanged',
                And(veq(r[0].shape[0], W.n), veq(r[0].elem(W.p), expected(W, C, W.state(k), learning)(W.p))))
        return body

    def update(C, window):
        def body(c, mkit):
            W, dec, flip = mav_world(c, mkit, facet, C, 'round robin', window, True, False)
            k = sym(c, 'label', lo=0)
            c.assume(k < W.clusters)
            bits = SArr.fresh('bits', (W.L,), 'i', 0, 1)
            b = bits.reader()
            c.ro[id(bits.cell)] = 'bits'
            returns(c, W.it, Bound(C.update_entropy_model, dec), [bits, k])
            data, dist, ent = W.lists
            W.P('learn', 'only the model of the label is written', And(*[veq(x, k) for g in W.lists for x, _ in g.log]))
            W.learnt('the model of the label', W.state(k).e, data.now(k), dist.now(k), ent.now(k), lambda j: b((j,)), flip)
        return body
    if debug:
        for C in (MavlinkRectifyingDecoder, CombinedDecoder, CombinedUnifiedDecoder):
            what = {'rect': 'words decoded', 'ret': 'result', 'learn': 'learning'}[facet]
            for cl in ('one', 'classifier'):
                out.append(Job(f'{C.__name__}.decode_buffer ({what}, {cl})', run(C, cl, True)))
            out.append(Job(f'{C.__name__}.decode_buffer ({what}, supplied model)', run(C, 'one', False)))
        out.append(Job(f'MavlinkRectifyingDecoder.decode_buffer ({what}, segmentation iterations)', run(MavlinkRectifyingDecoder, 'round robin', True, rounds=True)))
        return out
    for C in (MavlinkRectifyingDecoder, CombinedDecoder, CombinedUnifiedDecoder):
        for cl in ('one', 'round robin', 'classifier'):
            out.append(Job(f'{C.__name__}.decode_buffer ({cl})', run(C, cl, True)))
        out.append(Job(f'{C.__name__}.decode_buffer (supplied model)', run(C, 'one', False)))
        if C is MavlinkRectifyingDecoder:
            for cl in ('one', 'round robin', 'classifier'):
                out.append(Job(f'{C.__name__}.decode_buffer (segmentation iterations, {cl})', run(C, cl, True, rounds=True)))
            out.append(Job(f'{C.__name__}.decode_buffer (segmentation iterations, supplied model)', run(C, 'one', False, rounds=True)))
        if facet == 'rect' and METHOD[C] in vars(C):
            for ln in (True, False):
                out.append(Job(f'{C.__name__}.{METHOD[C]} ({"learning" if ln else "supplied model"})', predict(C, ln, 'round robin')))
        if facet == 'learn' and 'update_entropy_model' in vars(C):
            for w in (True, False):
                out.append(Job(f'{C.__name__}.update_entropy_model ({"" if w else "no "}window)', update(C, w)))
    return out
