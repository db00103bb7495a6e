"""Proof jobs about clusters and the buffer classifier, shared by C17 and C18."""
from .common import *
from scipy.stats import entropy as scipy_ent
from utils.information_theory import hellinger
from utils.bit_operations import hamming_distance
from inference.clustering import Cluster, BufferClassifier
from pyvc.models import SBits, to_arr
from pyvc.loops import LoopContract, NoRole
from pyvc.interp import Poison
from pyvc.sums import mk_sum, count
from pyvc.terms import f_sqrt, f_log
from fractions import Fraction

EPS = Fraction(float(np.finfo(np.float64).eps))


def put(o, **kw):
    """give existing attributes new values (the contract does not fit an object without them)"""
    for k, v in kw.items():
        if k not in vars(o):
            raise Unsupported(f'{type(o).__name__} has no attribute {k}')
        setattr(o, k, v)


def sym_buffer(c, form, L, name='buffer'):
    """(buffer, bit function 0/1)"""
    a = SArr.fresh(name, (L,), 'i', 0, 1)
    if form == 'bits':
        return SBits(L, lambda i: veq(a.elem(i), 1)), a.elem
    if form == 'bool':
        r = a.reader()
        b = SArr.new((L,), lambda idx: veq(r(idx), 1), 'b')
        c.ro = {id(b.cell): name}
        return b, a.elem
    c.ro = {id(a.cell): name}
    return a, a.elem


def counts_attr(cl):
    """name of the attribute holding the (bits, 2) counts"""
    xs = [k for k, v in vars(cl).items() if isinstance(v, SArr) and v.ndim == 2]
    if len(xs) != 1:
        raise Unsupported('representation of a cluster')
    return xs[0]


def new_cluster(c, it, L, uid=0, tag='s'):
    s = SArr.fresh(tag, (L,), 'i', 0, 1)
    d = SArr.new((L, 2), lambda idx: cast(veq(s.elem(idx[0]), idx[1]), 'b'), 'b')
    return it.call(Cluster, [d, uid]), s


def arbitrary_cluster(c, it, L, tag='c'):
    """a cluster in any state satisfying the invariant"""
    cl, _ = new_cluster(c, it, L, sym(c, tag + '_uid'), tag)
    n = sym(c, tag + '_n', lo=1)
    D = c.fresh_fn(tag + '_ones', 'int', 'int')

    def ones(i):
        t = D(term(i))
        c.axiom((tag, t.sexpr()), z3.Implies(z3.And(term(i) >= 0, term(i) < term(L)), z3.And(t >= 0, t <= term(n))))
        return mk(t)
    k = counts_attr(cl)
    setattr(cl, k, SArr.new((L, 2), lambda idx: ite(veq(idx[1], 1), lambda: ones(idx[0]), lambda: n - ones(idx[0])), 'i'))
    put(cl, n_samples=n)
    return cl, n, ones


def invariant(c, cl, L, ones, n, what, kind='post'):
    """the cluster holds n samples with ones(i) ones at bit i, through its public face"""
    it = c.it
    c.prove(f'{what}: number of samples', And(veq(cl.n_samples, n), veq(it.call(type(cl).__len__, [cl]), n)), kind=kind)
    d = it.call(type(cl).dist.fget, [cl])
    h = it.call(type(cl).hard_bits.fget, [cl])
    c.prove(f'{what}: shapes', isinstance(d, SArr) and d.ndim == 2 and isinstance(h, SArr) and h.ndim == 1 and
            And(veq(d.shape[0], L), veq(d.shape[1], 2), veq(h.shape[0], L)), kind=kind)
    i = c.fresh('bit', 'int')
    c.assume(And(i >= 0, i < L))
    a = getattr(cl, counts_attr(cl))
    c.prove(f'{what}: counts of zeros and ones add up to the samples', And(veq(a.elem(i, 0) + a.elem(i, 1), n), veq(a.elem(i, 1), ones(i))), kind=kind)
    c.prove(f'{what}: distribution is counts / samples', And(veq(d.elem(i, 0), to_q(n - ones(i), n)), veq(d.elem(i, 1), to_q(ones(i), n))), kind=kind)
    c.prove(f'{what}: hard bits are the strict majority', veq(h.elem(i), cast(ones(i) > n - ones(i), 'i')), kind=kind)


def to_q(a, n):
    return mk(to_real(a) / to_real(n))


FORMS = ('int', 'bool', 'bits')


def cluster_jobs():
    out = []

    def init(c, mkit):
        it = c.it = mkit()
        L = sym(c, 'L', lo=1)
        cl, s = new_cluster(c, it, L, sym(c, 'uid'))
        invariant(c, cl, L, s.elem, 1, 'new cluster')
        c.prove('counts can grow without wrapping around', getattr(cl, counts_attr(cl)).kind in ('i', 'f', 'O'))
    out.append(Job('Cluster.__init__ establishes the invariant', init))

    def views(c, mkit):
        it = c.it = mkit()
        L = sym(c, 'L', lo=1)
        cl, n, ones = arbitrary_cluster(c, it, L)
        u = cl.uid
        invariant(c, cl, L, ones, n, 'cluster')
        invariant(c, cl, L, ones, n, 'after looking at it')
        c.prove('id unchanged', veq(cl.uid, u))
    out.append(Job('Cluster.dist, hard_bits, len', views))

    def add(form):
        def body(c, mkit):
            it = c.it = mkit()
            L = sym(c, 'L', lo=1)
            cl, n, ones = arbitrary_cluster(c, it, L)
            u = cl.uid
            buf, bit = sym_buffer(c, form, L)
            returns(c, it, cl.add_sample, [buf])
            c.ro = None
            c.prove('id unchanged', veq(cl.uid, u))
            invariant(c, cl, L, lambda i: ones(i) + bit(i), n + 1, 'after adding a sample')
        return body
    for f in FORMS:
        out.append(Job(f'Cluster.add_sample({f}) counts every bit once', add(f)))

    def merge(c, mkit):
        it = c.it = mkit()
        L = sym(c, 'L', lo=1)
        cl, n, ones = arbitrary_cluster(c, it, L)
        c2, n2, ones2 = arbitrary_cluster(c, it, L, 'd')
        u = cl.uid
        returns(c, it, cl.merge_cluster, [c2])
        c.prove('id unchanged', veq(cl.uid, u))
        invariant(c, cl, L, lambda i: ones(i) + ones2(i), n + n2, 'after merging')
        invariant(c, c2, L, ones2, n2, 'the cluster merged in is unchanged')
    out.append(Job('Cluster.merge_cluster adds counts and samples', merge))
    return out


# ------------------------------------------------------------------------------------------------ classifier
class World:
    """the clusters of a classifier, seen through the contracts of Cluster: cluster j (an arbitrary identity) holds
    N(j) >= 1 samples with ones O(j, i) at bit i"""
    def __init__(self, c, L):
        self.c, self.L = c, L
        self.log = []
        self.havoc()

    def havoc(self):
        c = self.c
        self.Nf, self.Of, self.Uf = c.fresh_fn('n', 'int', 'int'), c.fresh_fn('ones', 'int', 'int', 'int'), c.fresh_fn('uid', 'int', 'int')

    def n(self, j):
        t = self.Nf(term(j))
        self.c.axiom(('wn', t.sexpr()), t >= 1)
        return mk(t)

    def ones(self, j, i):
        t, n = self.Of(term(j), term(i)), self.n(j)
        self.c.axiom(('wo', t.sexpr()), z3.Implies(z3.And(term(i) >= 0, term(i) < term(self.L)), z3.And(t >= 0, t <= term(n))))
        return mk(t)

    def p(self, j, i, x):
        o = self.ones(j, i)
        return to_q(ite(veq(x, 1), o, self.n(j) - o), self.n(j))

    def hard(self, j, i):
        return cast(self.ones(j, i) > self.n(j) - self.ones(j, i), 'i')

    def uid(self, j):
        return mk(self.Uf(term(j)))

    # specification of the metrics
    def ll(self, j, bit):
        def one(i):
            v = f_log(ite(veq(bit(i), 1), lambda: self.p(j, i, 1), lambda: self.p(j, i, 0)) + EPS)
            return ite(v < -100, -100, lambda: ite(v > 0, 0, v))
        return mk(to_real(mk_sum(self.L, one)) / to_real(self.L))

    def ham(self, j, bit):
        return count(self.L, lambda i: Not(veq(bit(i), self.hard(j, i))))

    def pair(self, a, b, mgd, ws):
        mx = to_q(self.n(a) + self.n(b), 2)
        w = f_sqrt(mx) if ws == 'sqrt' else mx if ws == 'linear' else 1
        P = lambda j, i: (self.p(j, i, 0), self.p(j, i, 1))
        if mgd == 'KlDiv':
            def row(i):
                v = kl(P(a, i), P(b, i)) + kl(P(b, i), P(a, i))
                return ite(v < 0, 0, lambda: ite(v > 10, 10, v))
        else:
            def row(i):
                return hel(P(a, i), P(b, i))
        return w * mk(to_real(mk_sum(self.L, row)) / to_real(self.L))


KL = z3.Function('KL', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())


def kl(p, q):
    return mk(KL(*[to_real(x) for x in p + q]))


def hel(p, q):
    B = f_sqrt(p[0] * q[0]) + f_sqrt(p[1] * q[1])
    return f_sqrt(ite(1 - B >= 0, 1 - B, 0))


def hel_contract(it, args, kw):
    """call-site contract of hellinger for two-column distributions (decided as C16)"""
    a = list(args) + [kw[k] for k in ('pk', 'qk') if k in kw]
    a = [to_arr(it, x) for x in a]
    if not all(x.ndim == 2 and not isS(x.shape[1]) and x.shape[1] == 2 for x in a):
        raise Unsupported('hellinger of these shapes')
    x, y = a[0].reader(), a[1].reader()
    return SArr.new((a[0].shape[0],), lambda idx: hel((x((idx[0], 0)), x((idx[0], 1))), (y((idx[0], 0)), y((idx[0], 1)))), 'f')


def kl_contract(it, args, kw):
    kw = dict(kw)
    for name, v in zip(('pk', 'qk', 'base', 'axis'), args):
        kw[name] = v
    p, q = to_arr(it, kw['pk']), kw.get('qk')
    if q is None or kw.get('base') != 2 or kw.get('axis', 0) not in (1, -1) or p.ndim != 2 or isS(p.shape[1]) or p.shape[1] != 2:
        raise Unsupported('entropy call')
    x, y = p.reader(), to_arr(it, q).reader()
    return SArr.new((p.shape[0],), lambda idx: kl((x((idx[0], 0)), x((idx[0], 1))), (y((idx[0], 0)), y((idx[0], 1)))), 'f')


def ham_contract(it, args, kw):
    """call-site contract of hamming_distance on equally long bit strings (decided as C04)"""
    def bits(o):
        if isinstance(o, SBits):
            return o.n, (lambda i: cast(o.bit(i), 'i'))
        if isinstance(o, SArr) and o.ndim == 1:
            r = o.reader()
            return o.shape[0], (lambda i: cast(r((i,)), 'i'))
        raise Unsupported('operand of hamming_distance')
    if len(args) != 2 or kw:
        raise Unsupported('hamming_distance arguments')
    (n, a), (m, b) = bits(args[0]), bits(args[1])
    ctx().prove('operands of equal length', veq(n, m), kind='pre')
    return count(n, lambda i: Not(veq(a(i), b(i))))


BOTH = ['one merge removes exactly one cluster', 'exactly one merge per step', 'no merging and no cluster touched in training', 'one more cluster', 'earlier clusters stay', 'the buffer is added to exactly one cluster', 'that cluster is one of the classifier']


def P(c, name, x, **kw):
    """obligation of the property being decided (classification as such belongs to C18, conservation to C17 and C18)"""
    return c.prove(name, x, kind='post' if c.facet == 'C18' or name in BOTH else 'inv', **kw)


class GCluster:
    """the cluster with identity j"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, W, j):
        self.W, self.j = W, norm_int(j)

    def _pyvc_merge(self, ct, o):
        return GCluster(self.W, ite(mk(ct), self.j, o.j))

    def _pyvc_veq(self, o):
        return veq(self.j, o.j)

    def _pyvc_eq(self, it, o):
        return veq(self.j, o.j) if isinstance(o, GCluster) else False

    def _pyvc_len(self, it):
        return self.W.n(self.j)

    def _pyvc_isnone(self):
        return False

    def _pyvc_isinstance(self, t):
        return t in (Cluster, object)

    def _pyvc_getattr(self, it, name):
        W, j = self.W, self.j
        if name == 'n_samples':
            return W.n(j)
        if name == 'uid':
            return W.uid(j)
        if name == 'dist':
            return SArr.new((W.L, 2), lambda idx: ite(veq(idx[1], 1), lambda: W.p(j, idx[0], 1), lambda: W.p(j, idx[0], 0)), 'f')
        if name == 'hard_bits':
            return SArr.new((W.L,), lambda idx: W.hard(j, idx[0]), 'i')
        if name in ('add_sample', 'merge_cluster', '__len__'):
            return Bound(getattr(Cluster, name), self)
        raise Unsupported('cluster attribute ' + name)

    def _pyvc_setattr(self, it, name, v):
        if name != 'uid':
            raise Unsupported('cluster attribute set: ' + name)
        self.W.log.append(('uid', self.j, v))


def contracts(W):
    def add(it, args, kw):
        if not isinstance(args[0], GCluster):
            return it.run_func(Cluster.add_sample, args, kw)
        W.log.append(('add', args[0].j, (args[1:] + list(kw.values()))[0]))

    def merge(it, args, kw):
        a, b = args[0], (args[1:] + list(kw.values()))[0]
        if not isinstance(a, GCluster) or not isinstance(b, GCluster):
            raise Unsupported('merging of other clusters')
        W.log.append(('merge', a.j, b.j))

    def length(it, args, kw):
        return W.n(args[0].j) if isinstance(args[0], GCluster) else it.run_func(Cluster.__len__, args, kw)
    return {Cluster.add_sample: add, Cluster.merge_cluster: merge, Cluster.__len__: length, hellinger: hel_contract,
            scipy_ent: kl_contract, hamming_distance: ham_contract}


class Closest(LoopContract):
    """before cluster k the best of the clusters 0 .. k-1 (first one on ties) is known with its metric"""
    name = 'best cluster so far'

    def __init__(self, W, bit, cd, clusters):
        self.W, self.bit, self.cd, self.clusters = W, bit, cd, clusters
        self.Mf = None

    def match(self, it, s, fr, si):
        return si is not None and si.kind == 'list' and si.src is self.clusters()

    def enter(self, c, L):
        # roles: the best cluster is the name assigned the loop's cluster, the metric the other name that is None before the loop
        from pyvc.interp import assigned_names
        import ast
        t = assigned_names([L.stmt.target])
        cand = set()
        for n in ast.walk(L.stmt):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    pairs = zip(x.elts, n.value.elts) if isinstance(x, ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                        len(x.elts) == len(n.value.elts) else [(x, n.value)]
                    cand |= {y.id for y, v in pairs if isinstance(y, ast.Name) and isinstance(v, ast.Name) and v.id in t}
        if len(cand) != 1:
            raise NoRole('best cluster')
        self.cl = cand.pop()
        m = [n for n in L.names if n != self.cl and L.get(n) is None]
        m = [n for n in m if n in L.fr.locals] or m
        if len(m) != 1:
            raise NoRole('metric of the best cluster')
        self.m = m[0]
        # the metric may be kept with the opposite sign: look which values count as improvements
        dirs = set()
        for n in ast.walk(L.stmt):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                less = isinstance(n.ops[0], (ast.Lt, ast.LtE))
                if isinstance(n.comparators[0], ast.Name) and n.comparators[0].id == self.m:
                    dirs.add(less)
                elif isinstance(n.left, ast.Name) and n.left.id == self.m:
                    dirs.add(not less)
        self.sign = -1 if dirs == {self.cd != 'hamming'} else 1
        self.W.c.keepJ = None
        self.J = c.fresh('J', 'int')
        c.assume(And(self.J >= 0, self.J < L.si.n))
        self.Mf = c.fresh_fn('metric', 'int', 'real')

    def M(self, j):
        return mk(self.Mf(term(j)))

    def better(self, x, y):
        return x < y if self.cd == 'hamming' else x > y

    def fact(self, k, best, metric):
        J = self.J
        return And(best >= 0, best < k, veq(metric, self.M(best)),
                   Implies(J < k, Not(self.better(self.M(J), self.M(best)))),
                   Implies(And(J < k, J < best), Not(veq(self.M(J), self.M(best)))))

    def havoc(self, c, L, k):
        if c.choose(2) == 0:
            c.assume(veq(k, 0))
            alive(c)
            L.set(self.m, None)
            if self.cl in L.fr.locals:
                L.set(self.cl, None)
            return
        c.assume(k > 0)
        best, met = c.fresh('best', 'int'), c.fresh('met', 'real')
        c.assume(self.fact(k, best, met))
        L.set(self.m, self.sign * met)
        L.set(self.cl, GCluster(self.W, best))
        self.best, self.met = best, met

    def body_start(self, c, L, k):
        # definition of the metric of cluster k
        v = self.W.ham(k, self.bit) if self.cd == 'hamming' else self.W.ll(k, self.bit)
        c.assume(veq(self.M(k), v))

    def check(self, c, L, k, what):
        if what == 'on entry':
            return
        cl, m = L.fr.locals.get(self.cl), L.get(self.m)
        if not isinstance(cl, GCluster) or m is None:
            P(c, 'a cluster has been chosen', False)
            return
        P(c, 'the metric kept is that of the cluster kept', veq(m, self.sign * self.M(cl.j)), ms=15000)
        P(c, 'the best cluster so far is kept, the first one on ties', self.fact(k, cl.j, self.sign * m), ms=15000)

    def done(self, c, L):
        self.L = L

    def extreme(self, f, sign):
        """max / min of the clusters under a key: the first cluster of extreme key"""
        def h(it, args, kw):
            if len(args) != 1 or args[0] is not self.clusters() or set(kw) != {'key'}:
                return it.models[f](it, args, kw)
            c, n = self.W.c, args[0].length()
            c.prove('there is a cluster to choose', n > 0, kind='exc')
            best = c.fresh('best', 'int')
            self.J = c.fresh('J', 'int')
            self.Mf = c.fresh_fn('metric', 'int', 'real')
            c.assume(And(best >= 0, best < n, self.J >= 0, self.J < n))
            key = []
            for j in (best, self.J):
                self.body_start(c, None, j)
                key.append(sign * it.call(kw['key'], [GCluster(self.W, j)]))
            c.assume(And(key[1] <= key[0], Implies(self.J < best, key[1] < key[0])))
            return GCluster(self.W, best)
        return h


class Uids(LoopContract):
    """every cluster gets its position as id"""
    name = 'renumbering'

    def __init__(self, W, clusters):
        self.W, self.clusters = W, clusters
        self.ran = []

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'merge_clusters' and isinstance(s, __import__('ast').For) and si is not None and si.kind != 'combinations' \
            and not self.is_pairs(si)

    def is_pairs(self, si):
        try:
            e = si.el(ctx().fresh('probe', 'int'))
        except Unsupported:
            return False
        return isinstance(e, tuple) and all(isS(x) for x in e)

    def enter(self, c, L):
        self.n = L.si.n
        self.mark = len(self.W.log)

    def body_start(self, c, L, k):
        self.mark = len(self.W.log)

    def check(self, c, L, k, what):
        if what == 'on entry':
            return
        p = k - 1
        ev = self.W.log[self.mark:]
        cl = self.clusters().elem(p)
        P(c, 'the cluster at each position gets that position as its id',
                len(ev) == 1 and ev[0][0] == 'uid' and And(veq(ev[0][1], cl.j), veq(ev[0][2], p)))

    def done(self, c, L):
        self.ran.append(self.n)


class Pairs(LoopContract):
    """before pair q the closest of the pairs so far is known with its distance"""
    name = 'closest pair so far'

    def __init__(self, W, clusters, mgd, ws):
        self.W, self.clusters, self.mgd, self.ws = W, clusters, mgd, ws

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'merge_clusters' and si is not None and bool(ctx().__dict__.get('combs')) and si.n is not None \
            and veq(si.n, ctx().combs[-1][1]) is True or (si is not None and bool(ctx().__dict__.get('combs')) and term(si.n).eq(term(ctx().combs[-1][1])))

    def enter(self, c, L):
        n, self.np_, self.pair_at, self.index_of = c.combs[-1]
        c.prove('the pairs of all clusters are considered', veq(n, self.clusters().length()), kind='inv')
        m = [x for x in L.names if L.get(x) is None]
        if len(m) != 1:
            raise NoRole('distance of the closest pair')
        self.m = m[0]
        import ast
        from pyvc.interp import assigned_names
        tgt = [e.id for e in L.stmt.target.elts] if isinstance(L.stmt.target, ast.Tuple) else []
        cand = set()
        for x in ast.walk(L.stmt):
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Tuple) and \
                    [getattr(e, 'id', None) for e in x.value.elts] == tgt:
                for y in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(y, ast.Name):
                        cand.add(y.id)
        if len(cand) != 1:
            raise NoRole('closest pair')
        self.pr = cand.pop()
        self.A, self.B = c.fresh('A', 'int'), c.fresh('B', 'int')
        c.assume(And(self.A >= 0, self.A < self.B, self.B < n))
        self.q0 = self.index_of(self.A, self.B)
        self.Df = c.fresh_fn('pairdist', 'int', 'real')

    def D(self, q):
        return mk(self.Df(term(q)))

    def fact(self, q, best, dist):
        return And(best >= 0, best < q, veq(dist, self.D(best)), Implies(self.q0 < q, self.D(best) <= self.D(self.q0)))

    def havoc(self, c, L, q):
        if c.choose(2) == 0:
            c.assume(veq(q, 0))
            alive(c)
            L.set(self.m, None)
            return
        c.assume(q > 0)
        best, met = c.fresh('bestpair', 'int'), c.fresh('mind', 'real')
        c.assume(self.fact(q, best, met))
        L.set(self.m, met)
        a, b = self.pair_at(best)
        self.best = best
        L.set(self.pr, (a, b))

    def body_start(self, c, L, q):
        a, b = self.pair_at(q)
        cl = self.clusters()
        c.assume(veq(self.D(q), self.W.pair(cl.elem(a).j, cl.elem(b).j, self.mgd, self.ws)))   # definition

    def check(self, c, L, q, what):
        if what == 'on entry':
            return
        p, m = L.fr.locals.get(self.pr), L.get(self.m)
        if m is None or not isinstance(p, tuple):
            P(c, 'a pair has been chosen', False)
            return
        now = q - 1
        P(c, 'the pair kept is one of the pairs seen, with its distance; no pair seen is closer',
                Or(*[And(veq(p, self.pair_at(x)), self.fact(q, x, m)) for x in ([now] if not hasattr(self, 'best') else [now, self.best])]),
                ms=20000)

    def done(self, c, L):
        pass


class Merging(LoopContract):
    """while loop of merge_clusters: at most m0 clusters, never fewer than min(k, m0)"""
    name = 'merging down to k clusters'

    def __init__(self, W, bc, pairs, k, m0):
        self.W, self.bc, self.pairs, self.k, self.m0 = W, bc, pairs, k, m0

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'merge_clusters' and isinstance(s, __import__('ast').While)

    def enter(self, c, L):
        L.cover(self.bc.clusters)
        L.cover_attr(self.bc, 'clusters')

    def havoc(self, c, L, k):
        self.W.havoc()
        m = c.fresh('m', 'int')
        c.assume(And(m <= self.m0, m >= 1, Or(m >= self.k, veq(m, self.m0))))
        Id = c.fresh_fn('ident', 'int', 'int')
        self.m, self.Id = m, Id
        cl = SList([('fn', m, lambda i: GCluster(self.W, mk(Id(term(i)))))])
        self.bc.clusters.segs = cl.segs
        c.__dict__['combs'] = []

    def body_start(self, c, L, k):
        self.mark = len(self.W.log)

    def check(self, c, L, k, what):
        cl = self.bc.clusters
        if not isinstance(cl, SList):
            raise Unsupported('list of clusters')
        n = cl.length()
        P(c, f'cluster count {what}', And(n <= self.m0, n >= 1, Or(n >= self.k, veq(n, self.m0))))
        if what == 'on entry':
            return
        m, pr = self.m, self.pairs
        ev = self.W.log[self.mark:]
        P(c, 'one merge removes exactly one cluster', veq(n, m - 1))
        ok = len(ev) == 1 and ev[0][0] == 'merge'
        P(c, 'exactly one merge per step', ok)
        if not ok:
            return
        # positions of the pair in the list before the step
        a, b = pr.pair_at(pr.best)
        ida, idb = mk(self.Id(term(a))), mk(self.Id(term(b)))
        P(c, 'the pair merged is the closest one (not farther apart than any pair)',
                And(a < b, Or(And(veq(ev[0][1], ida), veq(ev[0][2], idb)), And(veq(ev[0][1], idb), veq(ev[0][2], ida))), pr.D(pr.best) <= pr.D(pr.q0)))
        gone = ite(veq(ev[0][2], idb), b, a)
        i = c.fresh('pos', 'int')
        c.assume(And(i >= 0, i < n))
        old = ite(i < gone, i, i + 1)
        P(c, 'all other clusters stay, in order', veq(cl.elem(i).j, mk(self.Id(term(old)))))


def classifier_jobs(facet):
    out = []

    def machine(c, it, W, md, k, cd, mgd, ws, m):
        bc = it.call(BufferClassifier, [md, k, cd, mgd, ws])
        Id = lambda i: i
        put(bc, clusters=SList([('fn', m, lambda i: GCluster(W, i))]))
        for a, v in vars(bc).items():
            if a.startswith('_') and type(v) is int:
                setattr(bc, a, sym(c, a.split('__')[-1], lo=0))
        return bc

    def classify(cd, form, phase):
        def body(c, mkit):
            c.facet = facet
            L = sym(c, 'L', lo=1)
            W = World(c, L)
            buf, bit = sym_buffer(c, form, L)
            box = []
            loop = Closest(W, bit, cd, lambda: box[0].clusters)
            con = contracts(W)
            merged = []

            def merge_c(it, args, kw):
                """contract of merge_clusters: min(k, m) clusters, ids are positions"""
                bc = args[0]
                n = bc.clusters.length()
                merged.append(n)
                m2 = ite(n > k, k, n)
                W.havoc()
                U = W.uid
                W.uid = lambda j: norm_int(j)
                bc.clusters = SList([('fn', m2, lambda i: GCluster(W, i))])
                return None
            it = c.it = mkit(contracts={**con, BufferClassifier.merge_clusters: merge_c, max: loop.extreme(max, 1), min: loop.extreme(min, -1)},
                             loops=[loop])
            md, k, m = sym(c, 'min_data_size', lo=2), sym(c, 'k', lo=1), sym(c, 'clusters', lo=0)
            seen = sym(c, 'seen', lo=0)
            bc = machine(c, it, W, md, k, cd, 'Hellinger', 'linear', m)
            box.append(bc)
            put(bc, samples=seen)
            if phase == 'training':
                c.assume(And(seen + 1 < md, veq(m, seen)))
            elif phase == 'switch':
                c.assume(And(veq(seen + 1, md), veq(m, seen)))
            else:
                c.assume(And(seen + 1 > md, m >= 1, veq(m, ite(k < md - 1, k, md - 1))))
                put(bc, init=True)
                W.uid = lambda j: norm_int(j)
            r = returns(c, it, bc.classify, [buf])
            P(c, 'one more buffer seen' if phase == 'training' else 'training is over for good', veq(bc.samples, seen + 1) if phase == 'training' else bc.samples >= md)
            adds = [e for e in W.log if e[0] == 'add']
            if phase == 'training':
                P(c, 'training returns -1', veq(r, -1))
                P(c, 'no merging and no cluster touched in training', not W.log and not merged and bc.init is False)
                P(c, 'one more cluster', veq(bc.clusters.length(), m + 1))
                i = c.fresh('old', 'int')
                last = bc.clusters.segs[-1]
                if last[0] != 'items' or len(last[1]) != 1 or not isinstance(last[1][0], Cluster) or len(bc.clusters.segs) != 2:
                    raise Unsupported('list of clusters')
                c.ro = None
                invariant(c, last[1][0], L, bit, 1, 'the new cluster holds the buffer')
                e = bc.clusters.segs[0][2](i)
                P(c, 'earlier clusters stay', isinstance(e, GCluster) and veq(e.j, i))
                return
            m2 = m
            if phase == 'switch':
                P(c, 'clusters are merged exactly once, before the first real classification', len(merged) == 1 and veq(merged[0], m))
                P(c, 'the training phase is over', bc.init is True)
                m2 = ite(m > k, k, m)
            else:
                P(c, 'no merging after training', not merged and bc.init is True)
            P(c, 'the number of clusters does not change', veq(bc.clusters.length(), m2))
            P(c, 'the buffer is added to exactly one cluster', len(adds) == 1 and len(W.log) == 1 and adds[0][2] is buf)
            if len(adds) != 1:
                return
            j = adds[0][1]
            P(c, 'that cluster is one of the classifier', And(j >= 0, j < m2))
            P(c, 'the label is the id (position) of that cluster', veq(r, j))
            J = loop.J
            P(c, 'no cluster is better under the metric and no earlier one is as good',
                    And(Not(loop.better(loop.M(J), loop.M(j))), Implies(J < j, Not(veq(loop.M(J), loop.M(j))))))
        return body
    for cd in ('LL', 'hamming', 'other'):
        for form in ('int', 'bits'):
            out.append(Job(f'classify after training ({cd}, {form})', classify(cd, form, 'after'), budget=200, timeout_ms=8000))
    for form in FORMS:
        out.append(Job(f'classify during training ({form})', classify('LL', form, 'training')))
    out.append(Job('classify, end of training', classify('hamming', 'int', 'switch'), budget=200, timeout_ms=8000))

    def merging(mgd, ws):
        def body(c, mkit):
            c.facet = facet
            L = sym(c, 'L', lo=1)
            W = World(c, L)
            box = []
            k, m0 = sym(c, 'k', lo=1), sym(c, 'clusters', lo=1)
            cls_ = lambda: box[0].clusters
            pairs = Pairs(W, cls_, mgd, ws)
            uids = Uids(W, cls_)
            it = c.it = mkit(contracts=contracts(W))
            bc = machine(c, it, W, sym(c, 'md', lo=2), k, 'LL', mgd, ws, m0)
            box.append(bc)
            it.loops = [Merging(W, bc, pairs, k, m0), pairs, uids]
            returns(c, it, bc.merge_clusters, [])
            n = bc.clusters.length()
            P(c, 'min(k, clusters) clusters remain', veq(n, ite(m0 < k, m0, k)))
            P(c, 'all of them are renumbered', len(uids.ran) == 1 and veq(uids.ran[0], n))
        return body
    for mgd in ('Hellinger', 'KlDiv', 'other'):
        for ws in ('linear', 'sqrt', 'none'):
            out.append(Job(f'merge_clusters ({mgd}, {ws})', merging(mgd, ws), budget=200, timeout_ms=8000))
    return out
