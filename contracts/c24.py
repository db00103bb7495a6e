"""C24 what the decoders learn"""
from .common import *
from . import dec, decv, mavv


def jobs(tier):
    return decv.jobs('learn', 'C24') + mavv.mav_jobs('learn')


def check(case):
    return dec.verdict_for(case, ('learn',))


def cases(rng, tier, part, nparts):
    while True:
        for k in dec.SIMS:
            yield dec.GEN[k](rng)


shrink = dec.shrink_case


TRUSTED = [
    'the LDPC decoder is an arbitrary function that does not write to its input',
    'BufferClassifier.classify by its contract (C17, C18); segmentation by C05/C06 as a function of the bits',
    'BufferModel.predict / bitwise_model_mean / add_buffer and the denoisers by their contracts (C11-C13, C19)',
    'finite sums, log and exp through algebraic laws over the reals',
]
ASSUMPTIONS = [
    'Information bits form a prefix of the codeword, len(model_bits_idx) == model_length, k and n multiples of 8; windows at least 1.',
    'A supplied model has at least model_length rows, each summing to one; clipping factor >= 0; confidence centre >= 0.',
    'Weighted decoder: confidence scheme 4 assumes a positive variance; Bayes estimator: np.gcd of positive integers is a positive common divisor.',
    'WBF / Gallager reliability methods 1 and 2 (marked "don\'t use" in the code) are outside; method 0 excludes an identically zero rectified word.',
    'Turbo decoder: max_iter >= 1.',
    'Sharing of denoiser objects between clusters is covered only by the bounded run-time check.',
]
