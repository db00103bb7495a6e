"""C25 what the MAVLink-aware decoders hand to the LDPC decoder"""
from .common import *
from . import dec

KINDS = ('mav', 'comb', 'uni')


def jobs(tier):
    from . import mavv
    return [Job(f'{C.__name__}.set_buffer_structures', structures(C)) for C in mavv.METHOD] + mavv.mav_jobs('rect')


def structures(C):
    """one structure per cluster, anything else is rejected and changes nothing"""
    def body(c, mkit):
        it = mkit()
        d = object.__new__(C)
        n, m = sym(c, 'clusters', lo=1), sym(c, 'given', lo=0)
        F = c.fresh_fn('structure', 'int', 'int')
        elem = lambda i: mk(F(term(i)))
        old, new = object(), SList([('fn', m, elem)])
        d.n_clusters, d.buffer_structures = n, old
        c.ro = {id(new): 'structures given'}
        k, r = outcome(it, C.set_buffer_structures, [d, new])
        c.ro = None
        if k == 'exc':
            c.prove('only a wrong number of structures is rejected, with ValueError', And(isinstance(r, ValueError), Not(veq(n, m))))
            c.prove('the structures set before are kept', d.buffer_structures is old)
            return
        c.prove('a wrong number of structures is rejected', veq(n, m))
        s = d.buffer_structures
        if not isinstance(s, SList):
            raise Unsupported('structures kept')
        c.prove('one structure per cluster', veq(s.length(), n))
        forall(c, 'the structures given are used', n, lambda i: veq(s.copy().elem(i), elem(i)))
        c.prove('nothing else changes', d.n_clusters is n and set(vars(d)) == {'n_clusters', 'buffer_structures'}, kind='frame')
    return body


def check(case):
    return dec.verdict_for(case, ('rect',))


def cases(rng, tier, part, nparts):
    while True:
        for k in KINDS:
            yield dec.GEN[k](rng)


shrink = dec.shrink_case


TRUSTED = [
    'the LDPC decoder is an arbitrary function that does not write to its input',
    'BufferClassifier.classify by its contract (C17, C18); segmentation by C05/C06 as a function of the bits',
    'BufferModel.predict / bitwise_model_mean / add_buffer and the denoisers by their contracts (C11-C13, C19)',
    'finite sums, log and exp through algebraic laws over the reals',
]
ASSUMPTIONS = [
    'Information bits form a prefix of the codeword, len(model_bits_idx) == model_length, k and n multiples of 8; windows at least 1.',
    'A supplied model has at least model_length rows, each summing to one; clipping factor >= 0; confidence centre >= 0.',
    'Weighted decoder: confidence scheme 4 assumes a positive variance; Bayes estimator: np.gcd of positive integers is a positive common divisor.',
    'WBF / Gallager reliability methods 1 and 2 (marked "don\'t use" in the code) are outside; method 0 excludes an identically zero rectified word.',
    'Turbo decoder: max_iter >= 1.',
    'Sharing of denoiser objects between clusters is covered only by the bounded run-time check.',
]
