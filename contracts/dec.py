"""Scripted LDPC decoders and the executable specification of every model-aided decoder (used by C22-C25).

run(case) drives the real decoder through a history and yields (tag, message) for the first step that departs from the
specification; tags: 'rect' (what the LDPC decoder is given, caller's array), 'ret' (what is returned), 'learn' (model
state), 'label'."""
import math
from .common import *
from .frames import MAP, TABLE, frame, Parser, segment_spec, wire_fields, SIZES
from .c11 import layout, values, to_bits
from .c12 import nice_frame, NICESMALL, stats_of
from .c10 import spec_bits
from .c13 import prob_of
from .c19 import smooth
from ldpc.decoder import LogSpaDecoder, WbfDecoder, GalBfDecoder
from decoders.classifiying_decoder import ClassifyingEntropyDecoder
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder, \
    EntropyBitwiseWeightedDecoder
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
from decoders.combined_decoder import CombinedDecoder
from decoders.combined_unified_decoder import CombinedUnifiedDecoder
from inference.statistical_models import BufferModel

EPS = float(np.finfo(np.float64).eps)


class _Script:
    def setup(self, n, info, soft):
        self.n, self.info_idx, self.soft = n, np.array(info, dtype=bool), soft
        self.h = np.ones((2, n), dtype=int)
        self.log = []
        self.script = []
        return self

    def decode(self, word, *a, **kw):
        w = np.array(word, dtype=float)
        self.log.append((w, [None if x is None else np.array(x) for x in a] + [np.array(v) for v in kw.values()]))
        est, llr, ok, it = self.script.pop(0)
        est = np.array(est, dtype=np.int_)
        llr = np.array(llr, dtype=float)
        syn, vn = np.array([it, 1, int(ok)]), np.array([it + 7] * self.n)
        self.last = (est, llr, ok, it, syn, vn)
        self.kept = (est.copy(), llr.copy())
        return self.last if self.soft else (est, ok, it, syn, vn)

    def info_bits(self, e):
        return e[self.info_idx]


class ScriptSpa(_Script, LogSpaDecoder):
    def __init__(self, n, info):
        self.setup(n, info, True)


class ScriptWbf(_Script, WbfDecoder):
    def __init__(self, n, info):
        self.setup(n, info, False)


class ScriptGal(_Script, GalBfDecoder):
    def __init__(self, n, info):
        self.setup(n, info, False)


LDPC = {'spa': ScriptSpa, 'wbf': ScriptWbf, 'gal': ScriptGal}


def ent2(p):
    return -sum(x * math.log2(x) for x in (p, 1 - p) if x > 0)


def conf(size, center, slope):
    if size <= 1:
        return 0.0
    x = -(size - center) * slope
    return 0.0 if x > 700 else 1 / (1 + math.exp(x))


def odds(p1):
    return math.log((EPS + (1 - p1)) / (p1 + EPS))


def corrected(v, f):
    return min(1.0, max(0.0, (v - f) / (1 - 2 * f)))


class Ambiguous(Exception):
    """a comparison of the specification is too close to call in floating point"""


def below(x, thr):
    if abs(x - thr) < 1e-9 * (1 + abs(thr)):
        raise Ambiguous()
    return x < thr


class BitModel:
    """window of bit vectors and its distribution"""

    def __init__(self, window, flip, fixed=None):
        self.window, self.flip, self.fixed, self.rows = window, flip, fixed, []

    def learn(self, bits):
        self.rows.append([int(b) for b in bits])
        if self.window is not None:
            self.rows = self.rows[-self.window:]

    @property
    def size(self):
        return len(self.rows)

    def p1(self):
        if self.fixed is not None:
            return [r[1] for r in self.fixed]
        if not self.rows:
            return []
        return [corrected(sum(c) / len(self.rows), self.flip) for c in zip(*self.rows)]

    def structural(self, thr):
        """[(model bit, p1)]"""
        def low(p):
            if not self.flip and (p, thr) in ((0.5, 1.0), (0.0, 0.0), (1.0, 0.0)):    # entropy equals the threshold exactly
                return False
            return below(ent2(p), thr)
        return [(j, p) for j, p in enumerate(self.p1()) if low(p)]

    def compare(self, what, data, dist, ent):
        if self.fixed is None:
            d = np.asarray(data)
            got = d.T.tolist() if d.size else []
            if got != self.rows:
                return f'{what}: stored samples {got}, expected {self.rows}'
        elif np.size(data):
            return f'{what}: learnt although a model was supplied'
        p = self.p1()
        d = np.asarray(dist)
        if not p:
            return None if d.size == 0 else f'{what}: distribution {d.tolist()} without samples'
        if d.shape != (len(p), 2) or not np.allclose(d[:, 1], p, atol=1e-9) or not np.allclose(d[:, 0], 1 - np.array(p), atol=1e-9) \
                or not ((d >= 0) & (d <= 1)).all():
            return f'{what}: distribution {d.tolist()}, expected p1 {p}'
        if ent is not None and not np.allclose(np.asarray(ent), [ent2(x) for x in p], atol=1e-7):
            return f'{what}: entropy {np.asarray(ent).tolist()}'


class BayesModel(BitModel):
    """counts per bit; beyond twice the window they are divided by their greatest common divisor and scaled up to the window"""

    def __init__(self, window, flip):
        BitModel.__init__(self, None, flip)
        self.w, self.o, self.z = window, None, None

    def learn(self, bits):
        b = [int(x) for x in bits]
        o, z = self.o or [1] * len(b), self.z or [1] * len(b)
        o, z = [x + y for x, y in zip(o, b)], [x + 1 - y for x, y in zip(z, b)]
        if o[0] + z[0] > 2 * self.w:
            g = [math.gcd(x, y) for x, y in zip(o, z)]
            o, z = [x // y for x, y in zip(o, g)], [x // y for x, y in zip(z, g)]
            if o[0] + z[0] < self.w:
                m = self.w // (o[0] + z[0])
                o, z = [x * m for x in o], [x * m for x in z]
        self.o, self.z = o, z

    @property
    def size(self):
        return self.o[0] + self.z[0] - 2 if self.o else 0

    def p1(self):
        return [corrected((x - 1) / (x + y - 2) if x + y > 2 else 0.0, self.flip) for x, y in zip(self.o or [], self.z or [])]


def nearly(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-6 * (1 + np.abs(b))))


PARSER = Parser('real')


def segment(bits):
    """(all bytes belong to messages, structure, valid bit positions) of the packed bits"""
    b = np.packbits(np.array(bits, dtype=np.uint8)).tobytes()
    ms = segment_spec(b, PARSER.accepts)
    valid = set()
    for s, _, n in ms:
        valid.update(range(8 * s, 8 * (s + n)))
    return len(valid) == 8 * len(b), {s: m for s, m, _ in ms}, valid


class Fields:
    """field models of a BufferModel"""

    def __init__(self, window):
        self.window, self.h, self.count = window, {}, 0

    def add(self, bits, structure):
        buf = np.packbits(np.array(bits, dtype=np.uint8)).tobytes()
        for (nm, _, _, _), v in zip(layout(structure), values(buf, structure)):
            x = self.h.setdefault(nm, [])
            x.append(v)
            if self.window is not None:
                del x[:-self.window]
        self.count += 1

    @property
    def size(self):
        return self.count if self.window is None else min(self.count, self.window)

    def predict(self, bits, structure):
        """{bit: (probability, spread, model bit)}, [probability or None per field]"""
        buf = np.packbits(np.array(bits, dtype=np.uint8)).tobytes()
        out, per = {}, []
        for (nm, tp, a, b), v in zip(layout(structure), values(buf, structure)):
            if nm not in self.h:
                per.append(None)
                continue
            if tp == 'float' and not math.isfinite(v):
                raise Ambiguous()
            if not all(math.isfinite(x) for x in self.h[nm]):
                raise Ambiguous()
            p, sd = prob_of(self.h[nm], v), stats_of(self.h[nm])[1]
            if len(set(self.h[nm])) == 1:
                if float(self.h[nm][0]) != self.h[nm][0] or float(np.mean(self.h[nm])) != self.h[nm][0]:
                    raise Ambiguous()
                sd = 0.0
            elif sd == 0 or sd < 1e-9 * max(abs(float(x)) for x in self.h[nm]) or abs(v) > 1e15:
                raise Ambiguous()
            per.append(p)
            mean = float(np.mean(self.h[nm]))
            img = spec_bits(mean, tp) if not (tp == 'float' and abs(mean) > 3e38) else None
            for i in range(a, b):
                out[i] = (p, sd, img[i - a])
        return out, per

    def compare(self, bm):
        if bm.model_size != self.size:
            return f'model size {bm.model_size}, expected {self.size}'
        if set(bm.fields_names()) != set(self.h):
            return f'fields {sorted(bm.fields_names())}, expected {sorted(self.h)}'
        for nm, x in self.h.items():
            s = bm[nm].samples
            if len(s) != len(x) or not all(a == b or a != a and b != b for a, b in zip(s, x)):
                return f'samples of {nm}: {s}, expected {x}'


class Sim:
    """one decoder under a scripted LDPC decoder"""
    tags = ('rect', 'ret', 'learn')

    def __init__(self, case):
        _, self.cls, self.kind, P, self.n, self.info, self.ml, self.extra, self.steps = case
        self.P = dict(P)
        self.ld = LDPC[self.kind](self.n, self.info)
        self.rr = -1
        self.idx = self.model_idx()
        self.make()

    def model_idx(self):
        return list(range(self.ml))

    def label(self, got):
        k = self.P.get('n_clusters', 1)
        if k == 1:
            return 0
        if not self.P.get('cluster', 1):
            self.rr = (self.rr + 1) % k
            return self.rr
        return got

    def hard(self, llr):
        return [int(x < 0) for x in llr]

    def pick(self, bits):
        return [int(bits[j]) for j in self.idx]

    def args(self, llr):
        return (llr,)

    def run(self):
        """first step departing from the specification: [(tag, message)]"""
        if getattr(self, 'problems', None):
            return self.problems
        for t, (word, outs) in enumerate(self.steps):
            self.t = t
            w = np.array(word, dtype=int if self.cls == 'flip' else float)
            keep = w.copy()
            self.ld.log, self.ld.script = [], [tuple(o) for o in outs]
            try:
                r = self.dec.decode_buffer(*self.args(w))
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                m = f'step {t}: {type(e).__name__}: {e} at ' + ' < '.join(f'{f.filename.split("/")[-1]}:{f.lineno}' for f in reversed(tb[-3:]))
                return [(x, m) for x in self.tags]
            bad = []
            if not np.array_equal(w, keep):
                bad.append(('rect', f'step {t}: the channel word was modified'))
            if not self.ld.log:
                return [(x, f'step {t}: nothing was decoded') for x in self.tags]
            bad += [(x, f'step {t}: {m}') for x, m in self.verdict(r)]
            lab = self.label(self.returned_label(r))
            if lab != self.returned_label(r):
                bad.append(('learn', f'step {t}: label {self.returned_label(r)}, expected {lab}'))
            inputs = [x for x, _ in self.ld.log]
            bad += [(x, f'step {t}: {m}') for x, m in self.inputs(keep, inputs, lab)]
            self.learn(keep, outs, len(inputs), lab)
            bad += [('ret', f'step {t}: {m}') for m in self.reported(r, lab)]
            bad += [('learn', f'step {t}: {m}') for m in [self.state()] if m]
            if bad:
                return bad
            # the caller goes on to use its array and the arrays it got for something else
            for x in [w] + list(r[:2]):
                if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
                    x[...] = ~x if x.dtype == bool else 1 - x
            bad = [('learn', f'step {t}, after reuse of the arrays: {m}') for m in [self.state()] if m]
            if bad:
                return bad
        return []

    def verdict(self, r):
        est, llr, ok, it, syn, vn = self.ld.last
        it = self.iterations(r, it)
        if not np.array_equal(r[0], self.ld.kept[0]):
            yield 'ret', f'estimate {np.asarray(r[0]).tolist()} returned, LDPC decoder gave {self.ld.kept[0].tolist()}'
        if self.ld.soft and not np.array_equal(r[1], self.ld.kept[1]):
            yield 'ret', 'soft output is not that of the last LDPC decoding'
        if bool(r[2]) != bool(ok):
            yield 'ret', f'success {r[2]} returned, LDPC decoder gave {ok}'
        for pos, want, nm in ((self.pos_it, it, 'iterations'), (self.pos_syn, syn, 'syndrome'), (self.pos_vn, vn, 'node validity')):
            if pos is not None and not np.array_equal(r[pos], want):
                yield 'ret', f'{nm} {r[pos]} returned, LDPC decoder gave {want}'

    pos_it, pos_syn, pos_vn, pos_label = 3, None, None, None

    def iterations(self, r, it):
        return it

    def reported(self, r, lab):
        return []

    def model_reported(self, m, dist, idx, nm=''):
        """a model distribution and its structural bits, as returned by a decoder"""
        p, d = m.p1() if m is not None else [], np.asarray(dist)
        if (d.size and d.shape != (len(p), 2)) or (len(p) and not d.size) or (d.size and not (np.allclose(d[:, 1], p, atol=1e-9) and np.allclose(d.sum(axis=1), 1))):
            yield f'distribution {d.tolist()} reported{nm}, the model has p1 {p}'
        want = [self.idx[j] for j, _ in m.structural(self.P['entropy_threshold'])] if m is not None else []
        if [int(x) for x in np.asarray(idx).tolist()] != want:
            yield f'structural bits {np.asarray(idx).tolist()} reported{nm}, those of the model are {want}'

    def returned_label(self, r):
        return 0 if self.pos_label is None else int(r[self.pos_label])

    def expect(self, got, want, what):
        if not nearly(got, want):
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            if g.shape != w.shape:
                return [('rect', f'{what}: {g.shape} values handed to the LDPC decoder')]
            j = int(np.argmax(np.abs(g - w) - 1e-6 * (1 + np.abs(w))))
            return [('rect', f'{what}: bit {j} handed to the LDPC decoder as {g[j]}, expected {w[j]}')]
        return []


class ClsEntropy(Sim):
    pos_syn, pos_vn, pos_label = 4, 5, 8

    def make(self):
        P = dict(self.P)
        fixed = self.extra
        self.dec = ClassifyingEntropyDecoder(self.ld, self.ml, data_model=None if fixed is None else np.array(fixed), **P)
        self.m = [BitModel(P.get('window_length'), P.get('bit_flip', 0), fixed) for _ in range(P['n_clusters'])]

    def inputs(self, llr, got, lab):
        if len(got) != 1:
            return [('ret', f'{len(got)} LDPC decodings')]
        if lab < 0:
            want = llr if self.kind != 'gal' else np.array(self.hard(llr))
            return self.expect(got[0], want, 'classifier training')
        P, m = self.P, self.m[lab]
        c = 1.0 if m.fixed is not None else conf(m.size, P.get('conf_center', 40), P.get('conf_slope', 0.35))
        mod = np.zeros(self.n)
        for j, p in m.structural(P['entropy_threshold']):
            mod[self.idx[j]] += c * odds(p)
        top = max(abs(llr))
        if self.kind == 'spa':
            clip = P['clipping_factor'] * top
            return self.expect(got[0], np.clip(llr + mod, -clip, clip), 'rectification')
        big = max(abs(mod))
        rel = P.get('reliability_method', 0)
        want = llr
        if big > 0:
            if rel == 0:
                want = llr + (mod * top / big if big > top else mod)
                if max(abs(want)) < 1e-9:
                    raise Ambiguous()
                want = want * top / max(abs(want))
                if self.kind == 'gal':
                    if any(abs(x) < 1e-9 and (a or b) for x, a, b in zip(want, llr, mod)):
                        raise Ambiguous()
                    want = np.array(self.hard(want))
            elif rel == 3:
                want = np.array(self.hard(llr))
                if m.size >= P['window_length']:
                    for j, p in m.structural(P['entropy_threshold']):
                        want[self.idx[j]] = int(mod[self.idx[j]] < 0)
            elif self.kind == 'gal':
                want = np.array(self.hard(llr))
        elif self.kind == 'gal':
            want = np.array(self.hard(llr))
        if self.kind == 'wbf':
            prior = np.zeros(self.n)
            if big > 0 and rel in (1, 2):       # structural bits that contradict the channel are less reliable, bits that agree more
                prior = -np.sign(llr * mod) * np.abs(mod)
                for bound in (top, 1 if rel == 1 else (sum(x * x for x in llr) / self.n) ** 0.5 / np.mean([sum(r) for r in self.ld.h.tolist()])):
                    if 0 < max(abs(prior)) > bound:
                        prior = prior * bound / max(abs(prior))
            for x in self.ld.log[0][1]:
                if not nearly(x, prior):
                    return [('rect', f'priors {np.asarray(x).tolist()}, expected {prior.tolist()}')]
        return self.expect(got[0], want, 'rectification')

    def learn(self, llr, outs, ncalls, lab):
        if lab >= 0 and self.m[lab].fixed is None:
            self.m[lab].learn(self.pick(outs[0][0]) if outs[0][2] else self.pick(self.hard(llr)))

    def reported(self, r, lab):
        return self.model_reported(self.m[lab] if lab >= 0 else None, r[6], r[7])

    def state(self):
        for k, m in enumerate(self.m):
            r = m.compare(f'model {k}', self.dec.models_data[k], self.dec.distributions[k], self.dec.models_entropy[k])
            if r:
                return r


class ClsDude(Sim):
    pos_label = 4

    def make(self):
        self.dec = ClassifyingDudeDecoder(self.ld, self.ml, **self.P)
        f = self.P.get('bit_flip', 0)
        self.T = np.array([[1 - f, f], [f, 1 - f]])
        self.Ti = np.linalg.inv(self.T)
        self.st = [[((), {}) for _ in range(self.ml)] for _ in range(self.P['n_clusters'])]
        self.size = [0] * self.P['n_clusters']

    def inputs(self, llr, got, lab):
        if len(got) != 1:
            return [('ret', f'{len(got)} LDPC decodings')]
        if lab < 0:
            return self.expect(got[0], llr, 'classifier training')
        self.size[lab] += 1
        P, k = self.P, self.P['context_length']
        c = conf(self.size[lab], P.get('conf_center', 40), P.get('conf_slope', 0.35))
        bits = self.pick(self.hard(llr))
        want = llr.copy()
        for j in range(self.ml):
            ctx, cnt = self.st[lab][j]
            o = bits[j]
            if len(ctx) < k:
                p1 = o
                ctx += (o,)
            else:
                v = cnt.setdefault(ctx, [0, 0])
                v[o] += 1
                p1 = smooth(v, self.T, self.Ti, o)[1]
                ctx = (ctx + (o,))[1:]
            self.st[lab][j] = (ctx, cnt)
            want[self.idx[j]] += c * odds(p1)
        clip = P['clipping_factor'] * max(abs(llr))
        return self.expect(got[0], np.clip(want, -clip, clip), 'rectification')

    def learn(self, llr, outs, ncalls, lab):
        pass

    def reported(self, r, lab):
        want = (np.asarray(self.ld.log[-1][0]) < 0).astype(int)
        if not np.array_equal(np.asarray(r[5]), want):
            yield f'denoised bits {np.asarray(r[5]).tolist()} reported, the word handed to the LDPC decoder reads {want.tolist()}'

    def state(self):
        for lab, row in enumerate(self.st):
            for j, (ctx, cnt) in enumerate(row):
                got = {tuple(int(x) for x in c): [int(y) for y in v] for c, v in self.dec.dudes[lab][j].contexts.items() if any(v)}
                if got != cnt:
                    return f'denoiser of bit {j}, cluster {lab}: counts {got}, expected {cnt}'


class Entropy(Sim):
    def model_idx(self):
        return [i for i in range(self.n) if self.info[i] and i < self.ml]

    def make(self):
        self.dec = EntropyBitwiseDecoder(self.ld, self.ml, model=None if self.extra is None else np.array(self.extra), **self.P)
        self.m = BitModel(self.P.get('window_length'), 0, self.extra)

    def usable(self):
        return self.m.fixed is not None or (self.m.size > 0 and self.m.size >= self.P['min_data'])

    def rectified(self, llr):
        want = llr.copy()
        if self.usable():
            clip = self.P['clipping_factor'] * max(abs(llr))
            for j, p in self.m.structural(self.P['entropy_threshold']):
                want[self.idx[j]] += min(clip, max(-clip, odds(p)))
        return want

    def inputs(self, llr, got, lab):
        ok = bool(self.cur[0][2])
        if len(got) != (1 if ok else 2):
            return [('ret', f'{len(got)} LDPC decodings, the plain attempt {"succeeded" if ok else "failed"}')]
        bad = []
        if not nearly(got[0], llr):
            bad.append(('ret', 'the first attempt is not on the plain channel word'))
        if not ok:
            bad += self.expect(got[1], self.rectified(llr), 'rectification')
        return bad

    def learn(self, llr, outs, ncalls, lab):
        o = outs[min(ncalls, 2) - 1]
        bits = self.pick(o[0])
        if self.m.fixed is None and segment(bits)[0]:
            self.m.learn(bits)

    def state(self):
        return self.m.compare('model', self.dec.model_data, self.dec.distribution, self.dec.entropy)

    def verdict(self, r):
        yield from super().verdict(r)
        n = len(segment(self.pick(self.ld.kept[0]))[1])
        if int(r[4]) != n:
            yield 'ret', f'{r[4]} messages reported, {n} in the decoded bits'

    def args(self, llr):
        return (llr,)

    @property
    def cur(self):
        return self._cur

    def run(self):
        steps = self.steps
        for t in range(len(steps)):
            self.steps = steps[t:t + 1]
            self._cur = steps[t][1]
            bad = super().run()
            if bad:
                return [(x, m.replace('step 0', f'step {t}', 1)) for x, m in bad]
        return []


class Flip(Entropy):
    def make(self):
        self.dec = EntropyBitwiseFlippingDecoder(self.ld, self.ml, model=None if self.extra is None else np.array(self.extra), **self.P)
        self.m = BitModel(self.P.get('window_length'), 0, self.extra)

    def rectified(self, word):
        want = word.copy()
        if self.usable():
            for j, p in self.m.structural(self.P['entropy_threshold']):
                if 0 < abs(p - 0.5) < 1e-9:
                    raise Ambiguous()
                want[self.idx[j]] = int(p > 0.5)
        return want


class Weighted(Entropy):
    pos_syn, pos_vn = 4, 5

    def make(self):
        self.dec = EntropyBitwiseWeightedDecoder(self.ld, self.ml, **self.P)
        P = self.P
        self.bayes = P.get('estimator', 'MLE') == 'Bayes'
        f = P.get('bit_flip', 0) if (self.bayes or P.get('corrected_dist')) else 0
        w = P.get('window_length')
        self.a, self.b = ((BayesModel if self.bayes else BitModel)(w, f) for _ in 'ab')

    def verdict(self, r):
        yield from Sim.verdict(self, r)
        n = len(segment(self.pick(self.ld.kept[0]))[1])
        if int(r[6]) != n:
            yield 'ret', f'{r[6]} messages reported, {n} in the decoded bits'

    def variance(self, m):
        P = self.P
        p = m.p1()
        if not p:
            return None
        if self.bayes:
            s = sum(o * z / ((o + z + 1) * (o + z) ** 2) for o, z in zip(m.o, m.z))
            return 12 * s / len(p) * (1 / (1 - 2 * P.get('bit_flip', 0))) ** 2
        return 2 * sum(x - x * x for x in p) / len(p)

    def rectified(self, llr):
        P = self.P
        thr = P['entropy_threshold']
        sa, sb = self.a.structural(thr), self.b.structural(thr)
        if not sa and not sb:
            return llr
        ca = conf(self.a.size, P.get('a_conf_center', 20), P.get('a_conf_slope', 0.35))
        cb = conf(self.b.size, P.get('b_conf_center', 40), P.get('b_conf_slope', 0.35))
        sch = P.get('confidence', 0)
        if sch == 1 and ca + cb > 0:
            ca, cb = ca * ca / (ca + cb), cb * cb / (ca + cb)
        elif sch == 2 and 2 * ca + cb > 0:
            ca, cb = 2 * ca * ca / (2 * ca + cb), cb * cb / (2 * ca + cb)
        elif sch == 3:
            cb = 0
        elif sch == 4:
            va, vb = self.variance(self.a), self.variance(self.b)
            ca *= 1 if not va else 1 - math.exp(-0.1 / va)
            cb *= 1 if not vb else 1 - math.exp(-0.1 / vb)
        elif sch == 5:
            ca = 0
        clip = P['clipping_factor'] * max(abs(llr))
        want = llr.copy()
        for c, s in ((ca, sa), (cb, sb)):
            if c > 0:
                for j, p in s:
                    want[self.idx[j]] += c * odds(p)
        return np.clip(want, -clip, clip)

    def learn(self, llr, outs, ncalls, lab):
        o = outs[min(ncalls, 2) - 1]
        bits = self.pick(o[0])
        full = segment(bits)[0]
        if full:
            self.a.learn(bits)
        if ncalls == 1 or full:
            self.b.learn(bits)
        else:
            self.b.learn(self.pick(self.hard(llr)))

    def reported(self, r, lab):
        yield from self.model_reported(self.a, r[7], r[9], ' for model a')
        yield from self.model_reported(self.b, r[8], r[10], ' for model b')

    def state(self):
        d = self.dec
        for m, nm in ((self.a, 'a'), (self.b, 'b')):
            dist, ent = getattr(d, nm + '_distribution'), getattr(d, nm + '_entropy')
            if self.bayes:
                x = np.asarray(dist)
                if x.size and (not ((x >= 0) & (x <= 1)).all() or not np.allclose(x.sum(axis=1), 1)):
                    return f'model {nm}: distribution {x.tolist()}'
                data = np.array([])
            else:
                data = getattr(d, f'model_{nm}_data')
            r = m.compare('model ' + nm, data, dist, ent)
            if r:
                return r


class Mav(Sim):
    pos_syn, pos_vn, pos_label = 4, 5, 6
    combined = unified = False
    learning_attr = 'learning'

    def make(self):
        P = dict(self.P)
        sets, train = self.extra
        w = P.get('window_length')
        self.learning = train is None
        self.f = Fields(w if self.learning else None)
        dm = None
        if train is not None:
            dm = BufferModel()
            for bits, st in train:
                dm.add_buffer(np.array(bits), st)
                self.f.add(bits, st)
        self.dm = dm
        self.dec = self.construct(dm, P)
        self.sets = [None] * P['n_clusters']
        if sets is not None:
            self.dec.set_buffer_structures([None if s is None else dict(s) for s in sets])
            self.sets = [None if s is None else dict(s) for s in sets]
        self.problems = []
        for wrong in ([None] * (P['n_clusters'] + 1), [{}] * (P['n_clusters'] - 1)):
            try:
                self.dec.set_buffer_structures(wrong)
                self.problems.append(('rect', f"{len(wrong)} structures accepted for {P['n_clusters']} clusters"))
            except ValueError:
                pass
        if self.combined:
            self.m = [BitModel(w, P.get('bit_flip', 0)) for _ in range(P['n_clusters'])]

    def construct(self, dm, P):
        return MavlinkRectifyingDecoder(self.ld, self.ml, data_model=dm, **P)

    def args(self, llr):
        return (llr, np.array([0], dtype=int))

    def attempts(self, lab):
        """LDPC decodings of a buffer: one, or one per segmentation iteration until the first success"""
        outs = self.steps[self.t][1]
        m = self.P.get('segmentation_iterations', 1) if lab >= 0 else 1
        return next((i + 1 for i in range(m) if outs[i][2]), m)

    def iterations(self, r, it):
        outs = self.steps[self.t][1]
        return sum(o[3] for o in outs[:self.attempts(self.returned_label(r))])

    def inputs(self, llr, got, lab):
        if len(got) != self.attempts(lab):
            return [('ret', f'{len(got)} LDPC decodings, expected {self.attempts(lab)}')]
        if lab < 0:
            return self.expect(got[0], llr, 'classifier training')
        want = self.mav(llr, lab)
        for i in range(1, len(got)):     # feedback: the soft output is rectified again
            bad = self.expect(got[i - 1], want, f'rectification {i}')
            if bad:
                return bad
            llr = np.array(self.steps[self.t][1][i - 1][1], dtype=float)
            want = self.mav(llr, lab)
        got = got[-1:]
        if self.combined:
            P, m = self.P, self.m[lab]
            c = conf(m.size, P.get('conf_center', 0), P.get('conf_slope', 0))
            clip = P['clipping_factor'] * max(abs(llr))
            if c > 0:
                for j, p in m.structural(P['entropy_threshold']):
                    want[self.idx[j]] += min(clip, max(-clip, c * odds(p)))
        return self.expect(got[0], want, 'rectification')

    def mav(self, llr, lab):
        P, st = self.P, self.sets[lab]
        out = llr.copy()
        if st is None:
            return out
        bits = self.hard(llr)
        pred, _ = self.f.predict(bits, st)
        vf, inf = P['valid_factor'], P['invalid_factor']
        if self.learning:
            c = conf(self.f.size, P.get('conf_center', 0), P.get('conf_slope', 0))
            vf, inf = (vf - 1) * c + 1, (inf - 1) * c + 1
        if self.unified:
            m = self.m[lab]
            if m.size > P.get('conf_center', 0):
                low = dict(m.structural(P['entropy_threshold']))
                flip = -1 if P.get('flip') else 1
                for i, (p, sd, img) in pred.items():
                    if i < self.ml and i in low:
                        if not below(p, 1 - P['valid_thr']) :
                            out[i] *= vf
                        if below(p, P['invalid_thr']) and (bits[i] != int(low[i] > 0.5)):
                            out[i] *= inf * flip
        else:
            for i, (p, sd, img) in pred.items():
                if not below(p, 1 - P['valid_thr']):
                    out[i] *= vf
                if below(p, P['invalid_thr']):
                    out[i] *= inf
        top = max(abs(llr))
        for i, (p, sd, img) in pred.items():
            if sd == 0 and (p <= 0 or (self.unified and not self.learning)):
                out[i] = (-1) ** img * top * max(vf, 1)
        info = [i for i in range(self.n) if self.info[i]]
        full, found, valid = segment([bits[i] for i in info])
        if found:
            for i in valid:
                out[i] = llr[i] * 2 * vf
        else:
            if any(abs(out[i]) < 1e-9 for i in info):
                raise Ambiguous()
            hb = self.hard(out)
            full, found, valid = segment([hb[i] for i in info])
            if found:
                for i in valid:
                    out[i] *= 2
        return out

    def learn(self, llr, outs, ncalls, lab):
        if lab < 0:
            return
        est, _, ok, _ = outs[self.attempts(lab) - 1]
        bits = self.hard(llr)
        if self.learning:
            if ok:
                if self.sets[lab] is None:
                    self.sets[lab] = segment([est[i] for i in range(self.n) if self.info[i]])[1]
                self.f.add(est, self.sets[lab])
            elif self.sets[lab] is not None:
                self.f.add(bits, self.sets[lab])
        if self.combined:
            self.m[lab].learn(self.pick(est) if ok else self.pick(bits))

    def state(self):
        if [None if s is None else dict(s) for s in self.dec.buffer_structures] != self.sets:
            return f'structures {self.dec.buffer_structures}, expected {self.sets}'
        r = self.f.compare(self.dec.model)
        if r:
            return r
        if self.combined:
            for k, m in enumerate(self.m):
                r = m.compare(f'model {k}', self.dec.entropy_models_data[k], self.dec.distributions[k], self.dec.models_entropy[k])
                if r:
                    return r


class Comb(Mav):
    pos_syn = pos_vn = None
    pos_label = 4
    combined = True

    def construct(self, dm, P):
        return CombinedDecoder(self.ld, self.ml, data_model=dm, **P)


class Uni(Comb):
    unified = True

    def construct(self, dm, P):
        return CombinedUnifiedDecoder(self.ld, self.ml, data_model=dm, **P)


SIMS = dict(clsent=ClsEntropy, clsdude=ClsDude, entropy=Entropy, flip=Flip, weighted=Weighted, mav=Mav, comb=Comb, uni=Uni)


def run(case):
    try:
        return SIMS[case[1]](case).run()
    except Ambiguous:
        return []


def verdict_for(case, tags):
    for tag, m in run(case):
        if tag in tags:
            return f'{SIMS[case[1]].__name__}: {m}'
    return None


# ------------------------------------------------------------------------------------------------ generators
def rand_word(rng, bits, p_flip=0.1):
    amp = rng.choice(['one', 'rnd', 'ints'])
    out = []
    for b in bits:
        b = b ^ (rng.random() < p_flip)
        a = 1.0 if amp == 'one' else rng.uniform(0.05, 6) if amp == 'rnd' else float(rng.randrange(1, 9))
        out.append((-1) ** b * a)
    if rng.random() < 0.15 and len(out) > 1:       # erasures
        for j in rng.sample(range(len(out)), rng.choice([1, 1, 2, len(out) // 2 or 1])):
            out[j] = 0.0
        if not any(out):
            out[0] = 1.0
    return out


def rand_outcome(rng, bits, p_ok=0.5):
    ok = rng.random() < p_ok
    est = list(bits) if ok or rng.random() < 0.3 else [b ^ (rng.random() < 0.2) for b in bits]
    return (est, [(-1) ** b * rng.uniform(0.1, 9) for b in est], ok, rng.randrange(1, 30))


def rand_case(rng, kinds=None):
    cls = rng.choice(kinds or list(SIMS))
    return GEN[cls](rng)


def bit_protos(rng, n, k=2):
    return [[rng.getrandbits(1) for _ in range(n)] for _ in range(k)]


def bit_steps(rng, n, nsteps, two=False):
    protos = bit_protos(rng, n, rng.choice([1, 2]))
    steps = []
    for _ in range(nsteps):
        b = list(rng.choice(protos))
        for j in range(n):
            if rng.random() < 0.08:
                b[j] ^= 1
        steps.append((rand_word(rng, b), [rand_outcome(rng, b)] + ([rand_outcome(rng, b)] if two else [])))
    return steps


def rand_dist(rng, rows):
    pool = rng.choice([[0.0, 1.0, 0.02, 0.97, 0.5, None], [0.6, 0.75, 0.97, 1.0], [0.4, 0.25, 0.02, 0.0], [None]])
    ps = [rng.random() if p is None else p for p in (rng.choice(pool) for _ in range(rows))]
    return [[1 - p, p] for p in ps]


def gen_clsent(rng):
    n = rng.choice([6, 9, 12])
    k = rng.randrange(2, n)
    ml = rng.choice([k, k, rng.randrange(1, k + 1), n])
    info = [i < k for i in range(n)]
    kind = rng.choice(['spa', 'spa', 'spa', 'wbf', 'gal'])
    win = rng.choice([None, 1, 2, 4])
    rel = rng.choice([0, 0, 1, 2, 3]) if kind != 'spa' else 0
    if rel == 3 and win is None:
        win = 2
    P = dict(entropy_threshold=rng.choice([0.1, 0.45, 0.9, 1.5, 1.0, 0.0]), clipping_factor=rng.choice([0.5, 1.0, 2, 10]),
             classifier_training=rng.choice([2, 3]), n_clusters=rng.choice([1, 1, 2, 3]), window_length=win,
             conf_center=rng.choice([0, 2, 40]), conf_slope=rng.choice([0.35, 1.0]), bit_flip=rng.choice([0, 0, 0.1, 0.3]),
             cluster=rng.choice([0, 1]), reliability_method=rel)
    extra = rand_dist(rng, ml) if rng.random() < 0.2 and rel == 0 else None
    return ('dec', 'clsent', kind, P, n, info, ml, extra, bit_steps(rng, n, rng.randrange(1, 9)))


def gen_clsdude(rng):
    n = rng.choice([4, 6, 9])
    k = rng.randrange(2, n)
    ml = rng.choice([k, rng.randrange(1, k + 1), n])
    P = dict(clipping_factor=rng.choice([0.5, 1.0, 2, 10]), classifier_training=rng.choice([2, 3]), n_clusters=rng.choice([1, 1, 2]),
             context_length=rng.choice([0, 1, 2]), conf_center=rng.choice([0, 2, 40]), conf_slope=rng.choice([0.35, 1.0]),
             bit_flip=rng.choice([0, 0.05, 0.2]), cluster=rng.choice([0, 1]))
    return ('dec', 'clsdude', 'spa', P, n, [i < k for i in range(n)], ml, None, bit_steps(rng, n, rng.randrange(1, 9)))


def frame_bits(rng, parts):
    b = b''.join(nice_frame(rng, m) for m in parts)
    return [int(x) for x in to_bits(b)]


TINY = sorted(NICESMALL, key=lambda i: TABLE[i])[:3]


def frame_steps(rng, nsteps, parity, tail=0, two=True, kinds=None):
    """histories of words carrying messages; returns (n, info bits, steps)"""
    parts = [rng.choice(TINY) for _ in range(rng.choice([1, 1, 2]))]
    base = [nice_frame(rng, m) for m in parts]
    steps = []
    for _ in range(nsteps):
        fr = []
        for m, b in zip(parts, base):
            x = bytearray(b)
            if rng.random() < 0.7:
                j = rng.randrange(2, len(x) - 2)
                if j != 5:
                    x[j] ^= 1 << rng.randrange(8)
            fr.append(frame(m, bytes(x[6:-2]), x[2], x[3], x[4]))
        info = [int(x) for x in to_bits(b''.join(fr))] + [rng.getrandbits(1) for _ in range(tail)]
        cw = info + [rng.getrandbits(1) for _ in range(parity)]
        noise = rng.choice([0, 0.01, 0.05])
        outs = [rand_outcome(rng, cw)]
        if two:
            outs.append(rand_outcome(rng, cw))
        steps.append((rand_word(rng, cw, noise), outs))
    return len(info), len(cw), steps, parts


def short_model(rng, k, parts):
    """length of the model: usually all information bits, sometimes only the first frame or a few bytes less"""
    r = rng.random()
    return 8 * (TABLE[parts[0]] + 8) if r < 0.15 else k - 8 * rng.randrange(1, 4) if r < 0.25 else k


def gen_entropy(rng, cls='entropy'):
    parity = rng.choice([8, 3])
    k, n, steps, parts = frame_steps(rng, rng.randrange(1, 8), parity)
    info = [i < k for i in range(n)]
    P = dict(entropy_threshold=rng.choice([0.1, 0.45, 0.9, 1.5, 1.0, 0.0]), min_data=rng.choice([0, 1, 2, 3]),
             window_length=rng.choice([None, 1, 2, 4]))
    if cls != 'flip':
        P['clipping_factor'] = rng.choice([0.5, 1, 2, 10])
    else:
        steps = [([int(x < 0) for x in w], o) for w, o in steps]
    ml, extra = short_model(rng, k, parts), None
    if rng.random() < 0.3:
        if rng.random() < 0.5:
            info = [rng.random() < 0.7 for _ in range(n)]
            ml = n
        rows = sum(info[:ml])
        extra = rand_dist(rng, rows)
    return ('dec', cls, 'spa', P, n, info, ml, extra, steps)


def gen_weighted(rng):
    parity = rng.choice([8, 3])
    k, n, steps, parts = frame_steps(rng, rng.randrange(1, 8), parity)
    est = rng.choice(['MLE', 'MLE', 'Bayes'])
    P = dict(entropy_threshold=rng.choice([0.1, 0.45, 0.9, 1.5, 1.0, 0.0]), clipping_factor=rng.choice([0.5, 1, 2, 10]),
             window_length=rng.choice([None, 1, 2, 4]) if est == 'MLE' else rng.choice([1, 2, 3, 5, 10]),
             a_conf_center=rng.choice([0, 2, 20]), b_conf_center=rng.choice([0, 2, 40]), confidence=rng.choice([0, 1, 2, 3, 4, 5]),
             estimator=est, bit_flip=rng.choice([0, 0, 0.1]), corrected_dist=rng.random() < 0.5)
    return ('dec', 'weighted', 'spa', P, n, [i < k for i in range(n)], short_model(rng, k, parts), None, steps)


def gen_mav(rng, cls='mav'):
    parity = rng.choice([8, 16])
    tail = rng.choice([0, 0, 8])
    k, n, steps, parts = frame_steps(rng, rng.randrange(1, 8), parity, tail, two=False)
    info = [i < k for i in range(n)]
    ml = rng.choice([k, k, k - 8, n]) if cls != 'mav' else k
    st, pos = {}, 0
    for m in parts:
        st[pos] = m
        pos += TABLE[m] + 8
    nc = rng.choice([1, 1, 2])
    P = dict(valid_thr=rng.choice([0.05, 0.5, 0.9]), invalid_thr=rng.choice([0.001, 0.1, 0.4]), n_clusters=nc,
             valid_factor=rng.choice([1.0, 1.3, 2.0]), invalid_factor=rng.choice([0.0, 0.5, 0.9]),
             classifier_training_size=rng.choice([2, 3]), cluster=rng.random() < 0.5, window_length=rng.choice([None, 1, 2, 4]),
             conf_center=rng.choice([0, 2, 5]), conf_slope=rng.choice([0.35, 1.0]))
    if cls != 'mav':
        P.update(entropy_threshold=rng.choice([0.1, 0.45, 0.9, 1.0, 0.0]), clipping_factor=rng.choice([0.5, 1.0, 3]), bit_flip=rng.choice([0, 0.1]))
    if cls == 'uni':
        P['flip'] = rng.random() < 0.5
    if cls == 'mav' and rng.random() < 0.4:
        P['segmentation_iterations'] = m = rng.choice([2, 2, 3])
        steps = [(w, o + [rand_outcome(rng, o[0][0]) for _ in range(m - 1)]) for w, o in steps]
    sets = rng.choice([None, [dict(st) for _ in range(nc)], [dict(st)] + [None] * (nc - 1)])
    train = None
    if rng.random() < 0.4:
        train = []
        for _ in range(rng.choice([1, 2, 4])):
            w, o = rng.choice(steps)
            train.append((o[0][0] if rng.random() < 0.5 else [int(x < 0) for x in w], dict(st)))
        if sets is None:
            sets = [dict(st) for _ in range(nc)]
    return ('dec', cls, 'spa', P, n, info, ml, (sets, train), steps)


GEN = dict(clsent=gen_clsent, clsdude=gen_clsdude, entropy=gen_entropy, flip=lambda r: gen_entropy(r, 'flip'), weighted=gen_weighted,
           mav=gen_mav, comb=lambda r: gen_mav(r, 'comb'), uni=lambda r: gen_mav(r, 'uni'))


def shrink_case(case):
    st = case[-1]
    for i in range(len(st)):
        if len(st) > 1:
            yield case[:-1] + (st[:i] + st[i + 1:],)
