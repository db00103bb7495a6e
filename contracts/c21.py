"""C21 entropy aided denoiser"""
import math
from .common import *
from inference.entropy_mle import EMLE

EPS = float(np.finfo(np.float64).eps)


def jobs(tier):
    from .emle import emle_jobs
    return emle_jobs()


def ent2(p):
    return -sum(x * math.log2(x) for x in (p, 1 - p) if x > 0)


def conf(size, center, slope):
    return 0.0 if size <= 1 else 1 / (1 + math.exp(-(size - center) * slope))


def check(case):
    _, f, thr, win, center, slope, hard, soft, ops = case
    e = EMLE(f, thr, win, center, slope, hard, soft)
    hist, size = [], 0
    for op, arg in ops:
        if op == 'reset':
            e.reset()
            hist, size = [], 0
            if e.model_size != 0 or np.size(e.model_data) or np.size(e.p1) or np.size(e.model_entropy):
                return 'reset kept something'
            continue
        rows = [arg] if op == 'buffer' else arg
        a = np.array(arg, dtype=float if soft else int)
        keep = a.copy()
        r = e.denoise_buffer(a) if op == 'buffer' else e.denoise_sequence(a)
        if not np.array_equal(a, keep):
            return 'the observation was modified'
        r = tuple(np.array(x) for x in r)
        a[...] = -a if soft else 1 - a       # the caller reuses its array
        outs = [r] if op == 'buffer' else list(zip(r[0], r[1]))
        if len(outs) != len(rows):
            return f'{len(outs)} estimates for {len(rows)} buffers'
        for row, (est, cost) in zip(rows, outs):
            L = len(row)
            if soft:
                llr = [float(x) for x in row]
                bits = [int(x < 0) for x in row]
            else:
                q = math.log((1 - f) / f)
                llr = [-q if x else q for x in row]
                bits = list(row)
            c = conf(size, center, slope)
            held = hist[-win:] if win else hist
            out, amb = [], set()
            for j in range(L):
                v = llr[j]
                if held and c > 0:
                    p1 = min(1.0, max(0.0, (sum(h[j] for h in held) / len(held) - f) / (1 - 2 * f)))
                    H = ent2(p1)
                    if abs(H - thr) < 1e-9:
                        amb.add(j)
                    elif H < thr:
                        v += c * math.log((1 - p1 + EPS) / (p1 + EPS))
                        if p1 in (0.0, 1.0):
                            pass
                out.append(v)
            if np.shape(est) != (L,):
                return f'estimate of shape {np.shape(est)} for {L} bits'
            flips = 0
            for j in range(L):
                if j in amb:
                    flips = None
                    continue
                near0 = abs(out[j]) < 1e-6 and out[j] != llr[j]
                if near0:
                    flips = None
                b = int(out[j] < 0)
                if flips is not None:
                    flips += b != bits[j]
                if hard:
                    if not near0 and int(est[j]) != b:
                        return f'bit {j} estimated {est[j]}, llr {out[j]} (channel {llr[j]})'
                elif abs(est[j] - out[j]) > 1e-5 * (1 + abs(out[j])):
                    return f'llr {j} became {est[j]}, expected {out[j]} (channel {llr[j]}, model of {size} buffers)'
            if flips is not None and int(cost) != flips:
                return f'cost {cost}, {flips} bits changed'
            hist.append(bits)
            size = len(hist) if not win else min(len(hist), win)
        held = hist[-win:] if win else hist
        if not held:
            continue
        if e.model_size != size:
            return f'model size {e.model_size} after {len(hist)} buffers, window {win}'
        if np.asarray(e.model_data).T.tolist() != held:
            return f'model data {np.asarray(e.model_data).T.tolist()}, expected {held}'
        for j in range(len(held[0])):
            p1 = min(1.0, max(0.0, (sum(h[j] for h in held) / len(held) - f) / (1 - 2 * f)))
            if abs(e.p1[j] - p1) > 1e-9 or not 0 <= e.p1[j] <= 1:
                return f'modelled probability of bit {j}: {e.p1[j]}, expected {p1}'
            if abs(e.model_entropy[j] - ent2(p1)) > 1e-7:
                return f'entropy of bit {j}: {e.model_entropy[j]}'


def cases(rng, tier, part, nparts):
    # more than 255 bits corrected in a buffer, more than 255 buffers in the model
    for soft in (False, True):
        p = [1.0] * 600 if soft else [0] * 600
        yield ('emle', 0.1, 0.9, rng.choice([0, 9]), 1, 5.0, rng.random() < 0.5, soft, [('seq', [p] * 6 + [[-0.5] * 600 if soft else [1] * 600])])
        yield ('emle', 0.1, 0.9, rng.choice([0, 290]), 2, 0.35, True, soft, [('seq', [[1.0, -2.0, 0.5] if soft else [0, 1, 0]] * 300), ('buffer', [-1.0, -1.0, 1.0] if soft else [1, 1, 0])])
    while True:
        soft = rng.random() < 0.6
        L = rng.choice([1, 3, 8])
        f = rng.choice([0.01, 0.1, 0.3, rng.uniform(0.01, 0.49)])
        proto = [rng.getrandbits(1) for _ in range(L)]

        def row():
            b = [x ^ (rng.random() < 0.15) for x in proto]
            return [(-1) ** x * rng.choice([1.0, 2.5, rng.uniform(0.01, 6)]) * (rng.random() >= gaps) for x in b] if soft else b
        gaps = rng.choice([0, 0, 0.15])      # erasures
        ops = []
        for _ in range(rng.randrange(1, 7)):
            m = rng.random()
            if m < 0.5:
                ops.append(('buffer', row()))
            elif m < 0.9:
                ops.append(('seq', [row() for _ in range(rng.randrange(1, 6))]))
            else:
                ops.append(('reset', None))
        yield ('emle', f, rng.choice([0.0, 0.3, 0.5, 0.9, 1.5]), rng.choice([0, 0, 1, 2, 5]), rng.choice([0, 2, 5, 40]),
               rng.choice([0.35, 1.0, 0.05]), rng.random() < 0.5, soft, ops)


def shrink(case):
    ops = case[-1]
    for i in range(len(ops)):
        yield case[:-1] + (ops[:i] + ops[i + 1:],)


TRUSTED = [
    'scipy.stats.entropy is a function of each row',
    'log and exp through sign, monotonicity and inverse laws',
]
ASSUMPTIONS = [
    'Window lengths are at least 1.',
]
