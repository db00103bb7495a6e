"""C19 online denoiser"""
from .common import *
from inference.dude import OnlineDude


def jobs(tier):
    from .dude import online_jobs
    return online_jobs()


def post(counts, T, Ti, o):
    return (np.array(counts, dtype=float) @ Ti) * T[:, o]


def smooth(counts, T, Ti, o):
    t = np.array(counts, dtype=float) @ Ti
    if t[0] < 1:
        t = np.array([1, t[1]])
    elif t[1] < 1:
        t = np.array([t[0], 1])
    t = t * T[:, o]
    return t / t.sum()


def check_est(hard, est, cost, counts, T, Ti, loss, o):
    if hard:
        c = post(counts, T, Ti, o) @ loss
        e = int(est)
        if e not in (0, 1) or c[e] > c.min() + 1e-7 * (1 + abs(c).max()):
            return f'estimate {est} with expected losses {c}'
        if abs(cost - c[e]) > 1e-6 * (1 + abs(c).max()):
            return f'cost {cost}, expected loss {c[e]}'
    else:
        p = np.asarray(est).flatten()
        if p.shape != (2,) or not (p >= 0).all() or abs(p.sum() - 1) > 1e-9:
            return f'soft estimate {p} is no probability vector'
        w = smooth(counts, T, Ti, o)
        if np.abs(p - w).max() > 1e-7:
            return f'soft estimate {p}, expected {w} (counts {counts}, observation {o})'
        if abs(cost - w @ loss @ w) > 1e-6 * (1 + abs(loss).max()):
            return f'cost {cost}, expected {w @ loss @ w}'


def check(case):
    _, T, loss, k, hard, ops = case
    T, loss = np.array(T), np.array(loss)
    Ti = np.linalg.inv(T)
    d = OnlineDude(T.copy(), loss.copy(), k, hard)
    ctx, counts = (), {}
    for op, arg in ops:
        if op == 'reset':
            d.reset()
            ctx, counts = (), {}
            continue
        if op == 'init':
            try:
                d.initial_context(tuple(arg))
                ok = True
            except ValueError:
                ok = False
            if ok != (len(arg) == k):
                return f'initial context {arg} {"accepted" if ok else "rejected"} for k={k}'
            if ok:
                ctx = tuple(arg)
            continue
        if op == 'bad':
            before = {c: v.tolist() for c, v in d.contexts.items()}, d._last_context
            try:
                r = d.denoise_sample(arg)
                return f'observation {arg} accepted: {r}'
            except ValueError:
                pass
            if ({c: v.tolist() for c, v in d.contexts.items()}, d._last_context) != before:
                return f'rejected observation {arg} changed the state'
            continue
        seq = [arg] if op == 'sample' else list(arg)
        if op == 'seq':
            arr = np.array(seq, dtype=int)
            keep = arr.copy()
            es, cs = d.denoise_sequence(arr)
            if not np.array_equal(arr, keep):
                return 'the observations were modified'
            es, cs = np.array(es), np.array(cs)
            arr[...] = 1 - arr          # the caller reuses its array
            if len(es) != len(seq) or len(cs) != len(seq):
                return f'{len(es)} estimates for {len(seq)} observations'
        for i, o in enumerate(seq):
            e, c = d.denoise_sample(o) if op == 'sample' else (es[i], cs[i])
            if len(ctx) < k:
                ctx += (o,)
                if c != 0 or (hard and int(e) != o) or (not hard and np.asarray(e).flatten().tolist() != [1 - o, o]):
                    return f'one of the first {k} samples ({o}) gave {e} at cost {c}'
            else:
                v = counts.setdefault(ctx, [0, 0])
                v[o] += 1
                r = check_est(hard, e, c, v, T, Ti, loss, o)
                if r:
                    return f'{r}; context {ctx}, observation {o}, k={k}'
                ctx = (ctx + (o,))[1:]
        got = {tuple(int(x) for x in c): [int(y) for y in v] for c, v in d.contexts.items() if any(v)}
        if got != counts:
            return f'counts {got}, expected {counts}'


def rand_channel(rng):
    if rng.random() < 0.5:
        f = rng.choice([0, 0.01, 0.1, 0.3, 0.45])
        return [[1 - f, f], [f, 1 - f]]
    a, b = rng.uniform(0, 0.45), rng.uniform(0, 0.45)
    return [[1 - a, a], [b, 1 - b]]


def rand_loss(rng):
    return rng.choice([[[0, 1], [1, 0]], [[0.0, 1.0], [1.0, 0.0]], [[0, 2.0], [1.0, 0]], [[0.0, 0.5], [3.0, 0.1]]])


def rand_obs(rng, n):
    q = rng.choice([0.1, 0.5, 0.9])
    if rng.random() < 0.3:
        return [i % 2 if rng.random() > 0.1 else rng.getrandbits(1) for i in range(n)]
    return [int(rng.random() < q) for _ in range(n)]


def cases(rng, tier, part, nparts):
    # many samples in one context
    yield ('online', rand_channel(rng), rand_loss(rng), 1, True, [('seq', [0] * 600 + [1] * 300 + rand_obs(rng, 50))])
    yield ('online', rand_channel(rng), rand_loss(rng), 0, False, [('seq', rand_obs(rng, 900)), ('sample', 1)])
    if part == 0:
        yield ('online', rand_channel(rng), rand_loss(rng), 0, True, [('seq', [0] * 66000 + [1] * 20)])
    # many contexts (more than 256), each met again later
    for k in (4, 6, 9):
        s = [rng.getrandbits(1) for _ in range(120 << max(0, k - 6))]
        o = rand_obs(rng, 1500)
        yield ('online', rand_channel(rng), rand_loss(rng), k, k != 6, [('seq', s + o), ('sample', 1), ('sample', 0), ('seq', s + o[:700])])
    n = 0
    while True:
        n += 1
        k = rng.choice([0, 1, 1, 2, 3]) if n % 40 else rng.choice([4, 5, 7, 10])
        if n % 40 == 0:
            yield ('online', rand_channel(rng), rand_loss(rng), k, rng.random() < 0.5, [('seq', [rng.getrandbits(1) for _ in range(400)])])
            continue
        ops = []
        for _ in range(rng.randrange(1, 5)):
            m = rng.random()
            if m < 0.45:
                ops.append(('seq', rand_obs(rng, rng.choice([0, 1, k, k + 1, 10, 40]))))
            elif m < 0.75:
                ops += [('sample', o) for o in rand_obs(rng, rng.randrange(1, 8))]
            elif m < 0.85:
                ops.append(('bad', rng.choice([2, -1, 7])))
            elif m < 0.92:
                ops.append(('init', [rng.getrandbits(1) for _ in range(rng.choice([k, k, k + 1, 0]))]))
            else:
                ops.append(('reset', None))
        yield ('online', rand_channel(rng), rand_loss(rng), k, rng.random() < 0.5, ops)


def shrink(case):
    ops = case[-1]
    for i in range(len(ops)):
        yield case[:-1] + (ops[:i] + ops[i + 1:],)
        if ops[i][0] == 'seq' and ops[i][1]:
            yield case[:-1] + (ops[:i] + [('seq', ops[i][1][:-1])] + ops[i + 1:],)
            yield case[:-1] + (ops[:i] + [('seq', ops[i][1][1:])] + ops[i + 1:],)


TRUSTED = [
    'np.linalg.inv gives the inverse of the channel matrix (T · Ti = I); the row-sum lemma used is proved',
]
ASSUMPTIONS = [
    'Binary alphabet as in the class; loss matrix and channel matrix 2x2 and arbitrary.',
]
