"""C27 Markov source"""
from .common import *
from utils.random_sources import generate_markov_samples


from pyvc.loops import LoopContract, NoRole
from pyvc.models import SymTuple, tup_parts, to_arr


class Matrix:
    """a transition matrix of any order: only its dimensions and the selection of rows matter"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, order, rows, cols, T):
        self.order, self.rows, self.cols, self.T = order, rows, cols, T

    def _pyvc_isinstance(self, t):
        return t in (np.ndarray, object)

    def _pyvc_len(self, it):
        raise Unsupported('length of the matrix')

    def _pyvc_getattr(self, it, name):
        if name == 'ndim':
            return self.order + 1
        if name == 'shape':
            return Shape(self)
        raise Unsupported('matrix attribute ' + name)

    def _pyvc_getitem(self, it, k):
        if not isinstance(k, (tuple, SymTuple)):
            raise Unsupported('selection of a row')
        return Row(self, k)


class Shape:
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, m):
        self.m = m

    def _pyvc_getattr(self, it, name):
        raise Unsupported('shape')

    def _pyvc_len(self, it):
        return self.m.order + 1

    def _pyvc_getitem(self, it, k):
        if isS(k) or k not in (-1, -2):
            raise Unsupported('dimension of the matrix')
        return self.m.cols if k == -1 else self.m.rows


class Row:
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, m, key):
        self.m, self.key = m, key

    def _pyvc_getattr(self, it, name):
        raise Unsupported('row attribute')


class Drawing(LoopContract):
    name = 'samples drawn so far'

    def __init__(self, W):
        self.W = W

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'generate_markov_samples' and si is not None

    def enter(self, c, L):
        W = self.W
        a = [v for v in L.fr.locals.values() if isinstance(v, SArr) and v.ndim == 1 and v is not W.init]
        if len(a) != 1:
            raise NoRole('array of states')
        first = L.si.el(0)
        j = c.fresh('rj', 'int')
        if not c.implied(veq(first, W.order)) or not c.implied(veq(L.si.el(j), W.order + j)):
            raise NoRole('range of the loop')
        self.s = a[0]
        L.cover(self.s)
        self.J = c.fresh('J', 'int')              # an arbitrary initial position
        self.P = c.fresh('P', 'int')              # an arbitrary later position
        self.Q = c.fresh('Q', 'int')              # an arbitrary context position of it
        c.assume(And(self.J >= 0, self.J < W.order, self.P >= W.order, self.P < W.n, self.Q >= 0, self.Q < W.order))
        self.W.lp = self

    def init_ok(self, s=None):
        return veq((self.s if s is None else s).elem(self.J), self.W.state0(self.J))

    def havoc(self, c, L, i):
        W = self.W
        self.s.cell.fn = SArr.fresh('part', self.s.shape, 'i').reader()
        W.now = W.order + i
        c.assume(self.init_ok())
        # the sample at P and the q-th state of its context, once drawn, are what the draw saw and gave
        self.old = [self.s.elem(self.P), self.s.elem(self.P - W.order + self.Q)]
        W.drawn = None

    def check(self, c, L, i, what):
        W = self.W
        c.prove(f'the sequence starts with the initial states ({what})', self.init_ok())
        if what == 'on entry':
            return
        p = W.now
        new = [self.s.elem(self.P), self.s.elem(self.P - W.order + self.Q)]
        if L.it.branch(veq(self.P, p)):
            if W.drawn is None:
                raise Unsupported('no draw')
            key, x = W.drawn
            c.prove('the sample is the state drawn', veq(new[0], x))
            n, el = tup_parts(key)
            c.prove('the row drawn from is selected by exactly the preceding states in order', And(veq(n, W.order), veq(el(self.Q), new[1])))
        else:
            c.prove('earlier samples are not changed by a draw', Implies(self.P < p, And(*[veq(a, b) for a, b in zip(new, self.old)])))

    def done(self, c, L):
        self.last = [self.s.elem(self.P), self.s.elem(self.P - self.W.order + self.Q)]
        # every position has been drawn
        c.prove('every later sample is drawn', veq(self.W.order + L.si.n, self.W.n))


class World:
    pass


def jobs(tier):
    out = []

    def setup(c, form):
        W = World()
        W.order = 1 if form == 'int' else sym(c, 'order', lo=1)
        W.rows, W.cols = sym(c, 'rows', lo=1), sym(c, 'cols', lo=1)
        W.n = sym(c, 'n')
        W.M = Matrix(W.order, W.rows, W.cols, None)
        W.lp = None
        if form == 'int':
            W.init = sym(c, 'state')
            W.len = 1
            W.state0 = lambda j: W.init
        else:
            W.len = sym(c, 'len', lo=0)
            a = SArr.fresh('states', (W.len,), 'i')
            r = a.reader()
            W.init = a if form == 'array' else SList([('fn', W.len, lambda i: r((i,)))])
            W.state0 = lambda j: r((j,))
            if form == 'array':
                c.ro = dict(c.ro or {})
                c.ro[id(a.cell)] = 'initial states'

        def choice(it, args, kw):
            kw = dict(kw)
            for nm, v in zip(('a', 'size', 'replace', 'p'), args):
                kw[nm] = v
            a, p = kw.pop('a'), kw.pop('p', None)
            kw.pop('replace', None)
            if kw.pop('size', None) is not None or kw:
                raise Unsupported('form of the draw')
            if p is None:
                c.prove('samples are drawn with the probabilities of the row', False)
                raise PathEnd()
            if not isinstance(p, Row):
                raise Unsupported('probabilities of the draw')
            j = c.fresh('cj', 'int')
            if isinstance(a, range):
                a = SymIter(len(a), lambda k: a[k], 'range', None)
            if isinstance(a, SymIter):
                n, el = a.n, a.el
            elif isinstance(a, SArr) and a.ndim == 1:
                n, el = a.shape[0], lambda i: a.elem(i)
            elif isS(a) or isinstance(a, int):
                n, el = a, lambda i: i
            else:
                raise Unsupported('population of the draw')
            c.prove('samples are drawn among the states', And(veq(n, W.cols), Implies(And(j >= 0, j < n), veq(el(j), j))))
            x = c.fresh('x', 'int')
            c.assume(And(x >= 0, x < n))
            if W.__dict__.get('drawn') is not None:
                raise Unsupported('more than one draw per sample')
            W.drawn = (p.key, x)
            return x
        return W, {np.random.choice: choice}

    def run(form):
        def body(c, mkit):
            W, con = setup(c, form)
            c.assume(And(veq(W.rows, W.cols), veq(W.len, W.order)))
            c.assume(W.n > W.order if c.choose(2) == 0 else veq(W.n, W.order))
            cover(c)
            it = mkit(contracts=con, loops=[Drawing(W)])
            s = returns(c, it, generate_markov_samples, [W.M, W.init, W.n])
            if not isinstance(s, SArr) or s.ndim != 1:
                raise Unsupported('result')
            c.prove('the sequence has the requested length', veq(s.shape[0], W.n))
            if W.lp is None:
                j = c.fresh('j', 'int')
                c.prove('the sequence starts with the initial states', Implies(And(j >= 0, j < W.order), veq(s.elem(j), W.state0(j))))
                c.prove('every later sample is drawn', veq(W.n, W.order))
                return
            lp = W.lp
            c.prove('the sequence starts with the initial states', lp.init_ok(s))
            c.prove('the samples returned are those drawn', And(veq(s.elem(lp.P), lp.last[0]), veq(s.elem(lp.P - W.order + lp.Q), lp.last[1])))
        return body

    def reject(form):
        def body(c, mkit):
            W, con = setup(c, form)
            c.assume(Or(Not(veq(W.rows, W.cols)), Not(veq(W.len, W.order))))
            c.assume(W.n >= W.order)
            cover(c)
            it = mkit(contracts=con, loops=[Drawing(W)])
            r, e = outcome(it, generate_markov_samples, [W.M, W.init, W.n])
            c.prove('initial states not matching the order and inconsistent dimensions are rejected', r == 'exc' and isinstance(e, ValueError))
        return body

    def reject_int(c, mkit):
        # a single initial state does not determine a chain of higher order: rejected, whatever the kind of error
        W, con = setup(c, 'int')
        W.order = sym(c, 'order', lo=2)
        W.M.order = W.order
        c.assume(W.n >= W.order)
        cover(c)
        it = mkit(contracts=con, loops=[Drawing(W)])
        r, e = outcome(it, generate_markov_samples, [W.M, W.init, W.n])
        c.prove('a single initial state is rejected by a chain of order two or more', r == 'exc')
    out.append(Job('generate_markov_samples rejects one state for a higher order', reject_int))
    for form in ('int', 'list', 'array'):
        out.append(Job(f'generate_markov_samples ({form} initial state)', run(form)))
        out.append(Job(f'generate_markov_samples rejects ({form} initial state)', reject(form)))
    return out


def check(case):
    if case[0] == 'reject':
        _, shape, init, n = case
        t = np.full(shape, 1.0 / shape[-1])
        try:
            r = generate_markov_samples(t, init, n)
        except ValueError:
            return
        except Exception as e:
            if isinstance(init, int) and len(shape) > 2:
                return
            return f'matrix of shape {shape}, initial state {init}: {type(e).__name__} instead of ValueError'
        return f'matrix of shape {shape} with initial state {init} accepted: {r}'
    _, T, init, n, seed = case
    T = np.array(T)
    order = T.ndim - 1
    keep = T.copy()
    np.random.seed(seed)
    i0 = init if isinstance(init, int) else list(init)
    s = generate_markov_samples(T, i0, n)
    if len(s) != n:
        return f'{len(s)} samples instead of {n}'
    want0 = [init] if isinstance(init, int) else list(init)
    if [int(x) for x in s[:order]] != want0[:n]:
        return f'starts with {s[:order]} instead of {want0}'
    if not np.array_equal(T, keep):
        return 'the transition matrix was modified'
    cnt = {}
    for i in range(order, n):
        c = tuple(int(x) for x in s[i - order:i])
        x = int(s[i])
        if not 0 <= x < T.shape[-1]:
            return f'sample {x} is no state'
        if T[c][x] == 0:
            return f'transition {c} -> {x} of probability 0 at position {i}; init {init}, sequence {list(map(int, s[:i + 1]))[-12:]}'
        cnt.setdefault(c, [0] * T.shape[-1])[x] += 1
    if case[0] == 'rare':
        k = sum(1 for x in s[1:] if x)
        if not 40 <= k <= 240:      # 120 expected, deviation 11
            return f'{k} of {n - 1} samples are rare, 120 expected'
    if case[0] == 'freq':
        for c, v in cnt.items():
            N = sum(v)
            for x, k in enumerate(v):
                p = float(T[c][x])
                dev = abs(k - N * p)
                # Hoeffding: probability of a false alarm below 2 exp(-32) per entry
                if dev > 4 * (N ** 0.5):
                    return f'transition {c} -> {x} occurs {k} of {N} times, probability {p}'


def rand_T(rng, order, k, onehot):
    shape = [k] * (order + 1)
    T = np.zeros(shape)
    for idx in np.ndindex(*shape[:-1]):
        if onehot:
            T[idx + (rng.randrange(k),)] = 1
        else:
            v = [rng.random() * (rng.random() > 0.3) for _ in range(k)]
            if not sum(v):
                v[rng.randrange(k)] = 1.0
            z = sum(v)
            T[idx] = [x / z for x in v]
    return T.tolist()


def cases(rng, tier, part, nparts):
    for shape, init, n in [((2, 2), [0, 1], 5), ((2, 2, 2), [0], 5), ((3, 2), 0, 5), ((2, 3), 0, 5), ((2, 2, 3), [0, 0], 6),
                           ((2, 2, 2), [0, 0, 0], 7), ((2, 3, 2), [0, 0], 5), ((3, 3), [0, 1, 2], 8),
                           ((2, 2, 2), 0, 5), ((3, 3, 3, 3), 1, 9)]:
        yield ('reject', shape, init, n)
    for k in (130, 257, 300):       # many states: a cycle through all of them
        T = np.zeros((k, k))
        for i in range(k):
            T[i, (i + 1) % k] = 1
        yield ('path', T.tolist(), k - 6, 2 * k + 9, 1)
    T = np.zeros((140, 140, 140))
    T[:, :, 0] = 1
    T[:, 138, :] = 0
    T[:, 138, 139] = 1
    T[139, 138, :] = 0
    T[139, 138, 137] = 1
    yield ('path', T.tolist(), [139, 138], 4, 1)
    yield ('path', rand_T(rng, 1, 3, False), 1, 70000, 5)
    # many rare states, each nearly impossible, together 2 %
    yield ('rare', [[0.98] + [0.02 / 59] * 59] * 60, 0, 6000, rng.randrange(1 << 30))
    while True:
        order = rng.choice([1, 1, 2, 2, 3])
        k = rng.choice([2, 3, 4])
        init = [rng.randrange(k) for _ in range(order)]
        if order == 1 and rng.random() < 0.6:
            init = init[0]
        n = rng.choice([order, order + 1, order + 2, 10, 60])
        yield ('path', rand_T(rng, order, k, rng.random() < 0.6), init, n, rng.randrange(1 << 30))
        if rng.random() < 0.02:
            yield ('freq', rand_T(rng, order, k, False), init, 3000, rng.randrange(1 << 30))


TRUSTED = [
    'np.random.choice(m, p=row) returns a state in 0..m-1 whose probability in row is positive',
]
ASSUMPTIONS = [
    'Distributional accuracy of np.random.choice is checked only by the bounded run-time check (Hoeffding bound).',
]
