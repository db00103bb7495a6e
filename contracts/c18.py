"""C18 classification"""
import math
from .common import *
from .c17 import mkbuf, rand_bufs, rand_classify
from inference.clustering import Cluster, BufferClassifier

EPS = float(np.finfo(np.float64).eps)


def jobs(tier):
    from . import clus
    return clus.classifier_jobs('C18')


from .c17 import TRUSTED


def dist(cl):
    """(ones, n) of a cluster"""
    n = cl.n_samples
    return tuple(int(round(x)) for x in np.asarray(cl.dist)[:, 1] * n), n


def metric(state, b, cd):
    ones, n = state
    if cd == 'hamming':
        return -sum(int(o > n - o) != x for o, x in zip(ones, b))
    s = 0.0
    for o, x in zip(ones, b):
        p = (o if x else n - o) / n
        s += min(0.0, max(-100.0, math.log(p + EPS)))
    return s / len(b)


def pair_dist(x, y, mgd, ws):
    (o1, n1), (o2, n2) = x, y
    mx = (n1 + n2) / 2
    w = math.sqrt(mx) if ws == 'sqrt' else mx if ws == 'linear' else 1
    s = 0.0
    for a, b in zip(o1, o2):
        p, q = a / n1, b / n2
        if mgd == 'KlDiv':
            d = 0.0
            for u, v in ((p, q), (1 - p, 1 - q), (q, p), (1 - q, 1 - p)):
                if u > 0:
                    d += math.inf if v == 0 else u * math.log2(u / v)
            s += min(10.0, max(0.0, d))
        else:
            s += math.sqrt(max(0.0, 1 - math.sqrt(p * q) - math.sqrt((1 - p) * (1 - q))))
    return w * s / len(o1)


def tol(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def check_step(states, after, mgd, ws):
    """after is the list of states after one merge of the closest pair"""
    n = len(states)
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    ds = {p: pair_dist(states[p[0]], states[p[1]], mgd, ws) for p in pairs}
    best = min(ds.values())
    for (i, j), d in ds.items():
        if tol(d, best):
            m = (tuple(a + b for a, b in zip(states[i][0], states[j][0])), states[i][1] + states[j][1])
            want = [m if k == i else s for k, s in enumerate(states) if k != j]
            if sorted(want) == sorted(after):
                return None
    return f'merging {states} under {mgd}/{ws} gave {after}; the closest pair is {min(ds, key=ds.get)} at {best}'


def check(case):
    if case[0] == 'step':
        _, counts, mgd, ws = case
        bc = BufferClassifier(2, len(counts) - 1, 'LL', mgd, ws)
        for k, (ones, n) in enumerate(counts):
            o = np.array(ones)
            bc.clusters.append(Cluster(np.column_stack(((n - o) / n, o / n)), 7 + k, n))
        if [dist(c) for c in bc.clusters] != [(tuple(o), n) for o, n in counts]:
            return           # rounding in the construction itself
        bc.merge_clusters()
        if [c.uid for c in bc.clusters] != list(range(len(counts) - 1)):
            return f'cluster ids {[c.uid for c in bc.clusters]} after merging to {len(counts) - 1}'
        return check_step([(tuple(o), n) for o, n in counts], [dist(c) for c in bc.clusters], mgd, ws)
    _, md, k, cd, mgd, ws, form, bufs = case
    bc = BufferClassifier(md, k, cd, mgd, ws)
    for t, b in enumerate(bufs):
        before = [dist(c) for c in bc.clusters]
        if t + 1 == md:
            # replay the merging on copies, one step at a time
            cur = before
            for size in range(len(before) - 1, k - 1, -1):
                tmp = BufferClassifier(md, size, cd, mgd, ws)
                for q, (o, n) in enumerate(cur):
                    c = Cluster(np.column_stack((np.array(o) == 0, np.array(o) == 1)), q)
                    c._data = np.column_stack((n - np.array(o), np.array(o)))
                    c.n_samples = n
                    tmp.clusters.append(c)
                tmp.merge_clusters()
                nxt = [dist(c) for c in tmp.clusters]
                r = check_step(cur, nxt, mgd, ws)
                if r:
                    return r
                cur = nxt
            before = cur
        label = bc.classify(mkbuf(b, form))
        after = [dist(c) for c in bc.clusters]
        if t + 1 < md:
            if label != -1:
                return f'label {label} for buffer {t} of a training of {md}'
            if after != before + [(tuple(b), 1)]:
                return f'training buffer not stored as its own cluster: {before} -> {after}'
            continue
        want_n = min(k, md - 1)
        if len(bc.clusters) != want_n or [c.uid for c in bc.clusters] != list(range(want_n)):
            return f'{len(bc.clusters)} clusters with ids {[c.uid for c in bc.clusters]}; training {md}, k {k}'
        if not 0 <= label < want_n:
            return f'label {label} with {want_n} clusters'
        upd = [((tuple(x + y for x, y in zip(o, b)), n + 1) if q == label else (o, n)) for q, (o, n) in enumerate(before)]
        if after != upd:
            return f'buffer labelled {label} changed the clusters {before} to {after}'
        ms = [metric(s, b, cd) for s in before]
        best = max(ms)
        if not tol(ms[label], best):
            return f'buffer {b} labelled {label} with metrics {ms} ({cd})'
        if cd == 'hamming' and label != ms.index(best):
            return f'tie not resolved to the first cluster: label {label}, metrics {ms}'
        if cd != 'hamming':
            first = next(q for q in range(want_n) if tol(ms[q], best))
            if first < label and before[first] == before[label]:
                return f'tie not resolved to the first cluster: label {label}, metrics {ms}'


def cases(rng, tier, part, nparts):
    while True:
        yield rand_classify(rng)
        L = rng.choice([1, 2, 5])
        cs = []
        for _ in range(rng.randrange(2, 6)):
            n = rng.choice([1, 1, 2, 4, 8, 16])
            cs.append(([rng.randrange(n + 1) for _ in range(L)], n))
        yield ('step', cs, rng.choice(['Hellinger', 'KlDiv', 'x']), rng.choice(['linear', 'sqrt', 'none']))


def shrink(case):
    if case[0] == 'classify':
        b = case[-1]
        for i in range(len(b)):
            if len(b) > 1:
                yield case[:-1] + (b[:i] + b[i + 1:],)
