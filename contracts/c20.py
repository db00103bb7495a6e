"""C20 two-sided sequence denoiser"""
from .common import *
from .c19 import check_est, rand_channel, rand_loss, rand_obs
from inference.dude import DUDE


def jobs(tier):
    from .dude import twosided_jobs, inverse_lemma
    return [Job('inverse of a stochastic matrix', inverse_lemma)] + twosided_jobs()


def check(case):
    _, T, loss, k, hard, obs = case
    T, loss = np.array(T), np.array(loss)
    Ti = np.linalg.inv(T)
    d = DUDE(T.copy(), loss.copy(), k, hard)
    a = np.array(obs, dtype=int)
    est, cost = d.denoise_sequence(a)
    if a.tolist() != obs:
        return 'the observations were modified'
    n = len(obs)
    if len(est) != n:
        return f'{len(est)} estimates for {n} observations'
    counts = {}
    for i in range(k, n - k):
        c = tuple(obs[i - k:i]), tuple(obs[i + 1:i + k + 1])
        counts.setdefault(c, [0, 0])[obs[i]] += 1
    tot = 0.0
    for i in range(n):
        if i < k or i >= n - k:
            if hard and int(est[i]) != obs[i] or not hard and np.asarray(est[i]).tolist() != [1 - obs[i], obs[i]]:
                return f'edge sample {i} of {n} (k={k}) is {est[i]}, observed {obs[i]}'
            continue
        c = tuple(obs[i - k:i]), tuple(obs[i + 1:i + k + 1])
        if hard:
            w = (np.array(counts[c], dtype=float) @ Ti * T[:, obs[i]]) @ loss
            e = int(est[i])
            ec = w[e] if e in (0, 1) else 0
        else:
            p = np.asarray(est[i]).flatten()
            ec = p @ loss @ p
        tot += ec
        r = check_est(hard, est[i], ec, counts[c], T, Ti, loss, obs[i])
        if r:
            return f'sample {i} of {n} (k={k}): {r}; context {c}, counts {counts[c]}'
    if n and abs(cost - tot / n) > 1e-6 * (1 + abs(tot)):
        return f'cost {cost}, expected {tot / n}'


def cases(rng, tier, part, nparts):
    # many samples in one context
    yield ('seq', rand_channel(rng), rand_loss(rng), 1, True, [0] * 600 + [1] * 300 + rand_obs(rng, 50))
    yield ('seq', rand_channel(rng), rand_loss(rng), 0, False, rand_obs(rng, 900))
    if part == 0:
        yield ('seq', rand_channel(rng), rand_loss(rng), 0, True, [0] * 66000 + [1] * 20)
    # many contexts (more than 256)
    for k in (3, 5):
        yield ('seq', rand_channel(rng), rand_loss(rng), k, k == 3, [rng.getrandbits(1) for _ in range(900)] + rand_obs(rng, 600))
    while True:
        k = rng.choice([0, 1, 1, 2, 3, 4])
        n = rng.choice([1, 2, k + 1, 2 * k, 2 * k + 1, 2 * k + 2, 12, 40])
        yield ('seq', rand_channel(rng), rand_loss(rng), k, rng.random() < 0.5, rand_obs(rng, max(n, 1)))


def shrink(case):
    o = case[-1]
    if len(o) > 1:
        yield case[:-1] + (o[1:],)
        yield case[:-1] + (o[:-1],)
        yield case[:-1] + (o[:len(o) // 2],)


TRUSTED = [
    'np.linalg.inv gives the inverse of the channel matrix (T · Ti = I); the row-sum lemma used is proved',
]
ASSUMPTIONS = [
    'The mean of the costs is not part of the property. DUDE.denoise_sample (dead code, always AttributeError) is outside.',
]
