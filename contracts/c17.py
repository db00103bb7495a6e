"""C17 cluster accounting"""
from .common import *
from inference.clustering import Cluster, BufferClassifier


def jobs(tier):
    from . import clus
    return clus.cluster_jobs() + clus.classifier_jobs('C17')


TRUSTED = ['utils.bit_operations.hamming_distance and utils.information_theory.hellinger by their contracts (decided as C04, C16)',
           'scipy.stats.entropy(p, q, base=2, axis=1) is a function of the two rows']


def inv(cl, ones, n, L):
    """cluster against the multiset of samples it holds: ones[j] ones among n samples"""
    if cl.n_samples != n or len(cl) != n:
        return f'{cl.n_samples} samples recorded, {n} held'
    d = np.asarray(cl.dist)
    if d.shape != (L, 2):
        return f'distribution of shape {d.shape} for {L} bits'
    h = np.asarray(cl.hard_bits)
    if h.shape != (L,):
        return f'hard bits of shape {h.shape}'
    for j in range(L):
        if abs(d[j, 1] * n - ones[j]) > 1e-6 or abs(d[j, 0] * n - (n - ones[j])) > 1e-6:
            return f'bit {j}: distribution {d[j]}, {ones[j]} ones among {n} samples'
        if int(h[j]) != int(ones[j] > n - ones[j]):
            return f'bit {j}: hard value {h[j]} with {ones[j]} ones among {n} samples'


def mkbuf(bits, form):
    if form == 'bits':
        from bitstring import Bits
        return Bits(bits)
    return np.array(bits, dtype=form)


def reuse(a):
    """the caller overwrites its array"""
    if isinstance(a, np.ndarray):
        a[...] = ~a if a.dtype == bool else 1 - a


def check(case):
    if case[0] == 'cluster':
        _, L, ops = case
        pool = []      # (cluster, ones, n)
        for op in ops:
            if op[0] == 'new':
                b = np.array(op[1], dtype=int)
                pool.append([Cluster(np.column_stack((b == 0, b == 1)), len(pool)), list(op[1]), 1])
            elif op[0] == 'add':
                x = pool[op[1] % len(pool)]
                b = mkbuf(op[2], op[3])
                x[0].add_sample(b)
                reuse(b)
                x[1] = [a + b for a, b in zip(x[1], op[2])]
                x[2] += 1
            elif op[0] == 'merge':
                i, j = op[1] % len(pool), op[2] % len(pool)
                if i == j:
                    continue
                x, y = pool[i], pool[j]
                x[0].merge_cluster(y[0])
                r = inv(y[0], y[1], y[2], L)
                if r:
                    return f'the merged-in cluster changed: {r}'
                x[1] = [a + b for a, b in zip(x[1], y[1])]
                x[2] += y[2]
                pool.pop(j)
            elif op[0] == 'double':
                x = pool[op[1]]
                import copy
                x[0].merge_cluster(copy.deepcopy(x[0]))
                x[1], x[2] = [2 * a for a in x[1]], 2 * x[2]
            for k, (cl, ones, n) in enumerate(pool):
                r = inv(cl, ones, n, L)
                if r:
                    return f'after {op[0]}: {r}'
        return
    _, md, k, cd, mgd, ws, form, bufs = case
    bc = BufferClassifier(md, k, cd, mgd, ws)
    tot = [0] * len(bufs[0])
    for t, b in enumerate(bufs):
        a = mkbuf(b, form)
        bc.classify(a)
        if np.array(a).astype(int).tolist() != [int(v) for v in b]:
            return 'classification modified the buffer'
        reuse(a)
        tot = [x + y for x, y in zip(tot, b)]
        ns = sum(c.n_samples for c in bc.clusters)
        if ns != t + 1:
            return f'{ns} samples in all clusters after {t + 1} buffers (training {md}, k {k}, {cd}, {mgd}, {ws})'
        for c in bc.clusters:
            n = c.n_samples
            d = np.asarray(c.dist)
            if not np.allclose(d.sum(axis=1), 1) or not np.allclose(d * n, np.round(d * n)):
                return f'counts of a cluster of {n} samples do not add up: {d.tolist()}'
            hb = (np.round(d * n)[:, 1] > np.round(d * n)[:, 0]).astype(int)
            if not np.array_equal(np.asarray(c.hard_bits), hb):
                return f'hard bits {c.hard_bits} with distribution {d.tolist()}'
        ones = sum(np.round(np.asarray(c.dist)[:, 1] * c.n_samples) for c in bc.clusters)
        if [int(x) for x in ones] != tot:
            return f'ones per bit over all clusters {ones}, in the buffers {tot}'


def rand_bufs(rng, L, n):
    protos = [[rng.getrandbits(1) for _ in range(L)] for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.3:
        protos.append([0] * L)
    out = []
    for _ in range(n):
        p = rng.choice(protos)
        out.append([x ^ (rng.random() < 0.15) for x in p])
    return out


def cases(rng, tier, part, nparts):
    # many samples in a cluster
    yield ('cluster', 2, [('new', [0, 1])] + [('add', 0, [i % 7 == 0, i % 300 > 0], 'int64') for i in range(600)])
    # clusters of equal size merged again and again: 2^17 samples
    yield ('cluster', 2, [('new', [0, 1])] + [('double', 0)] * 17 + [('add', 0, [1, 1], 'int64')])
    L = 4
    yield ('classify', 3, 2, 'LL', 'Hellinger', 'linear', 'int64', rand_bufs(rng, L, 700))
    while True:
        L = rng.choice([1, 2, 3, 8])
        ops = [('new', [rng.getrandbits(1) for _ in range(L)])]
        for _ in range(rng.randrange(1, 14)):
            m = rng.random()
            b = [rng.getrandbits(1) for _ in range(L)]
            if m < 0.3:
                ops.append(('new', b))
            elif m < 0.75:
                ops.append(('add', rng.randrange(10), b, rng.choice(['bits', 'int64', 'uint8', 'bool'])))
            else:
                ops.append(('merge', rng.randrange(10), rng.randrange(10)) if m < 0.95 else ('double', 0))
        yield ('cluster', L, ops)
        yield rand_classify(rng)


def rand_classify(rng):
    L = rng.choice([1, 4, 8, 16])
    return ('classify', rng.choice([2, 2, 3, 5, 8]), rng.choice([1, 2, 2, 3, 6]), rng.choice(['LL', 'hamming', 'x']),
            rng.choice(['Hellinger', 'KlDiv', 'x']), rng.choice(['linear', 'sqrt', 'none']),
            rng.choice(['bits', 'int64', 'uint8', 'bool']), rand_bufs(rng, L, rng.randrange(1, 16)))


def shrink(case):
    if case[0] == 'classify':
        b = case[-1]
        for i in range(len(b)):
            if len(b) > 1:
                yield case[:-1] + (b[:i] + b[i + 1:],)
    else:
        o = case[-1]
        for i in range(1, len(o)):
            yield case[:-1] + (o[:i] + o[i + 1:],)
