"""C23 decoders return the LDPC decoder's verdict; turbo alternation"""
from .common import *
from . import dec, decv, mavv
from decoders.turbo import TurboDecoder


def jobs(tier):
    return decv.jobs('ret', 'C23') + decv.turbo_jobs() + mavv.mav_jobs('ret')


class _First:
    def __init__(self, script):
        self.script, self.log = list(script), []

    def _next(self, w):
        self.log.append(np.array(w, dtype=float))
        est, llr, ok, it = self.script.pop(0)
        return np.array(est, dtype=int), np.array(llr, dtype=float), ok, it

    def decode_buffer(self, w):
        e = self._next(w)
        w += 1.0        # the word handed over is the decoder's own
        return e

    def decode(self, w):
        e = self._next(w)
        w += 1.0
        return e


def turbo(case):
    _, word, max_iter, s1, s2, debug = case
    a, b = _First(s1), _First(s2)
    w = np.array(word, dtype=float)
    keep = w.copy()
    r = TurboDecoder(a, b, max_iter, debug).decode_buffer(w, np.array([], dtype=int))
    if not np.array_equal(w, keep):
        return 'the channel word was modified'
    p1 = np.zeros(len(word))
    na = nb = 0
    want = None
    for t in range(max_iter):
        if na >= len(a.log):
            return f'decoder 1 ran {len(a.log)} times, expected more'
        if not dec.nearly(a.log[na], keep + p1):
            return f'decoder 1 was given {a.log[na].tolist()}, expected {(keep + p1).tolist()}'
        e = s1[na]
        na += 1
        if e[2]:
            want = (e, 1)
            break
        p2 = np.array(e[1]) - keep - p1
        if nb >= len(b.log):
            return f'decoder 2 ran {len(b.log)} times, expected more'
        if not dec.nearly(b.log[nb], keep + p2):
            return f'decoder 2 was given {b.log[nb].tolist()}, expected {(keep + p2).tolist()}'
        e = s2[nb]
        nb += 1
        want = (e, 2)
        if e[2]:
            break
        p1 = np.array(e[1]) - keep - p2
    if (na, nb) != (len(a.log), len(b.log)):
        return f'decoders ran {len(a.log)}, {len(b.log)} times, expected {na}, {nb}'
    e, which = want
    if list(r[0]) != list(e[0]) or list(r[1]) != list(e[1]) or bool(r[2]) != bool(e[2]):
        return f'returned {r[:3]}, decoder {which} gave {e[:3]}'
    if r[3] != which:
        return f'reports decoder {r[3]}, expected {which}'


def check(case):
    if case[0] == 'turbo':
        return turbo(case)
    return dec.verdict_for(case, ('ret',))


def cases(rng, tier, part, nparts):
    while True:
        for k in dec.SIMS:
            yield dec.GEN[k](rng)
        for _ in range(3):
            n, m = rng.randrange(1, 5), rng.randrange(1, 5)

            def outs():
                return [dec.rand_outcome(rng, [rng.getrandbits(1) for _ in range(n)], 0.3) for _ in range(m)]
            yield ('turbo', [rng.uniform(-4, 4) for _ in range(n)], m, outs(), outs(), rng.random() < 0.3)


def shrink(case):
    if case[0] == 'dec':
        yield from dec.shrink_case(case)


TRUSTED = [
    'the LDPC decoder is an arbitrary function that does not write to its input',
    'BufferClassifier.classify by its contract (C17, C18); segmentation by C05/C06 as a function of the bits',
    'BufferModel.predict / bitwise_model_mean / add_buffer and the denoisers by their contracts (C11-C13, C19)',
    'finite sums, log and exp through algebraic laws over the reals',
]
ASSUMPTIONS = [
    'Information bits form a prefix of the codeword, len(model_bits_idx) == model_length, k and n multiples of 8; windows at least 1.',
    'A supplied model has at least model_length rows, each summing to one; clipping factor >= 0; confidence centre >= 0.',
    'Weighted decoder: confidence scheme 4 assumes a positive variance; Bayes estimator: np.gcd of positive integers is a positive common divisor.',
    'WBF / Gallager reliability methods 1 and 2 (marked "don\'t use" in the code) are outside; method 0 excludes an identically zero rectified word.',
    'Turbo decoder: max_iter >= 1.',
    'Sharing of denoiser objects between clusters is covered only by the bounded run-time check.',
]
