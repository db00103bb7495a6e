"""C13 validity probabilities, prediction, bit image of the model"""
import math
from .common import *
from .frames import *
from .c11 import OK, OKSMALL, layout, values, to_bits, rand_case
from .c12 import nice_frame, NICE, NICESMALL, stats_of
from .c10 import spec_bits
from inference.statistical_models import FieldModel, BufferModel


def jobs(tier):
    from .sm import LIB, mean_std, structure_contracts, GDict, GField, returned_names, num2bits, LoopContract, NoRole
    from .c12 import field_state
    out = []

    def classify(c, mkit):
        it = mkit(contracts=LIB)
        w = None
        m, n, el = field_state(c, it, 'float', w)
        c.assume(n > 0)
        mu, sd = mean_std(n, el)
        x = sym(c, 'x', 'real')
        r = returns(c, it, m.classify_value, [x])
        c.prove('a pair is returned', isinstance(r, tuple) and len(r) == 2)
        p, s = r
        c.prove('probability is a number between 0 and 1', And(p >= 0, p <= 1))
        c.prove('probability is 1 at the mean', Implies(veq(x, mu), veq(p, 1)))
        c.prove('zero spread: 0 away from the mean', Implies(And(veq(sd, 0), Not(veq(x, mu))), veq(p, 0)))
        c.prove('the spread reported is that of the model', veq(s, sd))
        if not isS(sd) or c.implied(sd <= 0):
            return
        y = sym(c, 'y', 'real')
        c.assume(abs(mu - x) <= abs(mu - y))
        r2 = returns(c, it, m.classify_value, [y])
        c.prove('probability does not increase with the distance from the mean', r2[0] <= p)
        c.prove('the spread does not depend on the value', veq(r2[1], s))
    out.append(Job('FieldModel.classify_value', classify, timeout_ms=10000))

    class Gm:
        """statistics of the model stored under a name (contracts of FieldModel, C12 and above)"""
        def __init__(self, c):
            self.c = c
            self.H = c.fresh_fn('has', 'int', 'bool')
            self.M, self.Sd = c.fresh_fn('mean', 'int', 'real'), c.fresh_fn('std', 'int', 'real')
            self.Pr = c.fresh_fn('prob', 'int', 'real', 'real')
            self.Im = c.fresh_fn('image', 'real', 'int', 'int', 'int')
            self.dict = GDict(self.has, lambda k: GField(k, self))
            self.n2b = []

        def has(self, k):
            return mk(self.H(term(k)))

        def mean(self, k):
            return mk(self.M(term(k)))

        def std(self, k):
            t = self.Sd(term(k))
            self.c.axiom(('sdn', t.sexpr()), t >= 0)
            return mk(t)

        def prob(self, k, v):
            t = self.Pr(term(k), to_real(v))
            self.c.axiom(('prn', t.sexpr()), z3.And(t >= 0, t <= 1))
            return mk(t)

        def image(self, v, tp, q):
            """wire bits (contract of num2bits, C10)"""
            t = self.Im(to_real(v), term(tp), term(q))
            self.c.axiom(('img', t.sexpr()), z3.And(t >= 0, t <= 1))
            return mk(t)

    class Fill(LoopContract):
        """before field k the bit arrays hold the probability / spread of the modelled fields below k and NaN elsewhere,
        the list holds the entries of the modelled fields below k"""
        name = 'prediction per field'

        def __init__(self, G, M, nbits):
            self.G, self.M, self.nbits = G, M, nbits
            self.roles = returned_names(BufferModel.predict)

        def match(self, it, s, fr, si):
            return fr.name.split('.')[-1] == 'predict'

        def enter(self, c, L):
            if self.roles is None or len(self.roles) != 3:
                raise NoRole('predict returns three local names')
            self.lst, self.p, self.s = [L.fr.locals.get(n) for n in self.roles]
            if not (isinstance(self.p, SArr) and isinstance(self.s, SArr) and isinstance(self.lst, (SList, list))):
                raise NoRole('state of the prediction')
            if isinstance(self.lst, list) or self.p.cell is self.s.cell:
                raise NoRole('state of the prediction')
            for o in (self.lst, self.p, self.s):
                L.cover(o)

        def entry(self, j):
            G, M = self.G, self.M
            nm = G.name(j)
            return nm, M.prob(nm, G.value(j)), M.std(nm)

        def bit(self, i, k, which):
            G, M = self.G, self.M
            j = G.b2v(i)
            return ite(And(j >= 0, j < k, M.has(G.name(j))), lambda: self.entry(j)[which], float('nan'))

        def field(self, j, k):
            from pyvc.values import SOpt
            return SOpt(Not(And(j < k, self.M.has(self.G.name(j)))), self.entry(j))

        def havoc(self, c, L, k):
            self.p.cell.fn = lambda idx: self.bit(idx[0], k, 1)
            self.s.cell.fn = lambda idx: self.bit(idx[0], k, 2)
            self.lst.segs = [('fn', self.G.n, lambda j: self.field(j, k))]
            if self.G.n is not L.si.n:
                c.prove('one iteration per field', veq(L.si.n, self.G.n), kind='inv')

        def check(self, c, L, k, what):
            i, j = c.fresh('bit', 'int'), c.fresh('fld', 'int')
            dom = And(i >= 0, i < self.nbits)
            if isS(k):
                j0 = self.G.b2v(i)
            c.prove(f'probabilities per bit {what}', Implies(dom, veq(self.p.elem(i), self.bit(i, k, 1))), kind='inv')
            c.prove(f'spreads per bit {what}', Implies(dom, veq(self.s.elem(i), self.bit(i, k, 2))), kind='inv')
            c.prove(f'number of entries {what}', veq(self.lst.length(), self.G.n), kind='inv')
            c.prove(f'entries {what}', Implies(And(j >= 0, j < self.G.n), veq(self.lst.elem(j), self.field(j, k))), kind='inv')

    def predict(form):
        def body(c, mkit):
            G = structure_contracts(c)
            M = Gm(c)

            def cv(it, args, kw):
                f, v = args
                return M.prob(f.name, v), M.std(f.name)
            if form == 'bytes':
                buf = SBytes.fresh('buffer')
                ln = buf.length
            else:
                ln = c.fresh('nbytes', 'int')
                c.assume(ln >= 0)
                buf = SArr.fresh('bits', (ln * 8,), 'i', 0, 1)
                c.ro = {id(buf.cell): 'buffer'}
            loop = Fill(G, M, ln * 8)
            it = mkit(contracts={**G.contracts, FieldModel.classify_value: cv}, loops=[loop])
            bm = it.call(BufferModel, [])
            bm._field_models = M.dict
            r = returns(c, it, bm.predict, [buf, G.structure])
            c.prove('three results', isinstance(r, tuple) and len(r) == 3)
            fp, bp, bs = r
            c.prove('values are decoded from this buffer and structure', len(G.value_calls) >= 1 and all(a is buf and s is G.structure for a, s in G.value_calls))
            c.prove('the bit map covers this buffer', And(*[veq(l, ln) for b, l in G.struct_calls if b]))
            for a in (bp, bs):
                c.prove('one entry per bit', isinstance(a, SArr) and a.ndim == 1 and veq(a.shape[0], ln * 8))
            i, j = c.fresh('bit', 'int'), c.fresh('fld', 'int')
            dom = And(i >= 0, i < ln * 8)
            f = G.b2v(i)
            nm = G.name(f)
            mod = And(f >= 0, M.has(nm))
            nanv = float('nan')
            for a, w, what in ((bp, M.prob(nm, G.value(f)), 'probability'), (bs, M.std(nm), 'spread')):
                v = a.elem(i)
                c.prove(f'bits of a modelled field have its {what}', Implies(And(dom, mod), veq(v, w)))
                c.prove(f'{what} of other bits is NaN', Implies(And(dom, Not(mod)), veq(v, nanv)))
            n, e = (fp.length(), fp.elem) if isinstance(fp, SList) else (len(fp), lambda q: fp[q])
            c.prove('one entry per field', veq(n, G.n))
            if isinstance(fp, SList):
                ej = e(j)
                none = True if ej is None else ej._pyvc_isnone() if hasattr(ej, '_pyvc_isnone') else False
                val = getattr(ej, 'val', ej)
                dj = And(j >= 0, j < G.n)
                c.prove('no entry exactly for unmodelled fields', Implies(dj, Iff(none, Not(M.has(G.name(j))))))
                if val is not None:
                    c.prove('entry j is (name, probability, spread) of field j',
                            Implies(And(dj, M.has(G.name(j))), veq(val, (G.name(j), M.prob(G.name(j), G.value(j)), M.std(G.name(j))))))
        return body
    out.append(Job('BufferModel.predict(bytes)', predict('bytes')))
    out.append(Job('BufferModel.predict(bits)', predict('bits')))

    class Image(LoopContract):
        """before field k the image holds the wire bits of the means of the modelled fields below k, 0 elsewhere"""
        name = 'bit image per field'

        def __init__(self, G, M, nbits):
            self.G, self.M, self.nbits = G, M, nbits

        def match(self, it, s, fr, si):
            return fr.name.split('.')[-1] == 'bitwise_model_mean'

        def enter(self, c, L):
            arrs = {id(v.cell): v for n, v in L.fr.locals.items() if isinstance(v, SArr) and v.ndim == 1
                    and v.cell not in self.fixed}
            if len(arrs) != 1:
                raise NoRole('one image array')
            self.a = list(arrs.values())[0]
            L.cover(self.a)
            self.L = L

        def bit(self, i, k):
            G, M = self.G, self.M
            j = G.b2v(i)
            nm = G.name(j)
            return ite(And(j >= 0, j < k, M.has(nm)), lambda: M.image(M.mean(nm), G.ftype(j), i - G.start(j)), 0)

        def havoc(self, c, L, k):
            self.a.cell.fn = lambda idx: self.bit(idx[0], k)

        def body_start(self, c, L, k):
            self.G.focus(k)
            c.run_hint = lambda m: self.G.start(k)

        def check(self, c, L, k, what):
            i = c.fresh('bit', 'int')
            c.prove(f'image {what}', Implies(And(i >= 0, i < self.nbits), veq(self.a.elem(i), self.bit(i, k))), kind='inv')

    def image(c, mkit):
        G = structure_contracts(c)
        M = Gm(c)

        def n2b(it, args, kw):
            args = args + [kw[k] for k in ('num', 'field_type')[len(args):]]
            v, tp = args
            ln = G.FL(term(tp))
            c.axiom(('tlen', ln.sexpr()), ln >= 1)
            return SArr.new((mk(8 * ln),), lambda idx: M.image(v, tp, idx[0]), 'i')
        ln = c.fresh('nbytes', 'int')
        c.assume(ln >= 0)
        # every field lies inside the buffer (precondition of the structure)
        q = z3.Int('fq')
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < G.n.t), z3.And(G.St(q) >= 0, G.St(q) + 8 * G.FL(G.T(q)) <= 8 * ln.t))))
        k = c.fresh('asked', 'int')
        c.assume(k >= 0)
        idx = SArr.fresh('idx', (k,), 'i')
        a = z3.Int('aq')
        c.assume(z3.ForAll([a], z3.And(idx.F(a) >= 0, idx.F(a) < 8 * ln.t)))
        loop = Image(G, M, ln * 8)
        loop.fixed = [idx.cell]
        orig = G.unpack_structure

        def us(it, args, kw):
            r = orig(it, args, kw)
            loop.fixed.append(r[0].cell)
            return r
        c.ro = {id(idx.cell): 'bit indices'}
        it = mkit(contracts={**G.contracts, BufferModel.unpack_structure: us, num2bits: n2b}, loops=[loop])
        bm = it.call(BufferModel, [])
        bm._field_models = M.dict
        r = returns(c, it, bm.bitwise_model_mean, [idx, ln, G.structure])
        c.prove('one bit per index asked for', isinstance(r, SArr) and r.ndim == 1 and veq(r.shape[0], k))
        w = c.fresh('w', 'int')
        i = idx.elem(w)
        f = G.b2v(i)
        nm = G.name(f)
        mod = And(f >= 0, M.has(nm))
        dom = And(w >= 0, w < k)
        v = r.elem(w)
        c.prove('bits of a modelled field are the wire bits of its mean',
                Implies(And(dom, mod), veq(v, M.image(M.mean(nm), G.ftype(f), i - G.start(f)))))
        c.prove('all other bits are 0', Implies(And(dom, Not(mod)), veq(v, 0)))
    out.append(Job('BufferModel.bitwise_model_mean', image))
    return out


TRUSTED = ['scipy.stats.norm.fit returns the sample mean and the population standard deviation',
           'scipy.special.erf is odd, strictly increasing and between -1 and 1',
           'BufferModel.unpack_structure and unpack_values by their contracts (decided as C11); num2bits by its contract (C10)']


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def prob_of(samples, v):
    m, s = stats_of(samples)
    if len(set(samples)) == 1:
        return 1.0 if v == m else 0.0
    return math.erfc(abs(m - v) / s / math.sqrt(2))


def check(case):
    if case[0] == 'value':
        _, t, samples, vals = case
        f = FieldModel('x', t)
        for x in samples:
            f.add_sample(x)
        m, s = stats_of(samples)
        got = []
        for v in vals + [f.mean]:
            p, sd = f.classify_value(v)
            if not (0 <= p <= 1):
                return f'probability {p} of value {v} under samples {samples}'
            if not close(sd, s):
                return f'spread {sd} reported, samples {samples} have {s}'
            if not close(p, prob_of(samples, v), 1e-7):
                return f'probability {p} of value {v} under samples {samples}, expected {prob_of(samples, v)}'
            got.append((abs(v - m), p))
        if not close(got[-1][1], 1):
            return f'probability at the mean is {got[-1][1]} under samples {samples}'
        got.sort()
        for (d1, p1), (d2, p2) in zip(got, got[1:]):
            if d2 > d1 + 1e-9 and p2 > p1 + 1e-9:
                return f'probability grows with the distance from the mean: {got}'
        return
    _, structure, train, buf, drop = case
    bm = BufferModel()
    for b in train:
        bm.add_buffer(b, structure)
    lay = layout(structure)
    names, types, where = [x[0] for x in lay], [x[1] for x in lay], [x[2:4] for x in lay]
    vals = values(buf, structure)
    hist = {}
    for b in train:
        for n, v in zip(names, values(b, structure)):
            hist.setdefault(n, []).append(v)
    for d in drop:
        n = names[d % len(names)] if names else None
        if n in hist:
            del bm._field_models[n]
            del hist[n]
    for form in (buf, np.array(to_bits(buf))):
        fp, bp, bs = bm.predict(form, structure)
        if len(fp) != len(names):
            return f'{len(fp)} field entries for {len(names)} fields'
        if len(bp) != 8 * len(buf) or len(bs) != 8 * len(buf):
            return f'bit arrays of {len(bp)}/{len(bs)} entries for {len(buf)} bytes'
        wp = [None] * (8 * len(buf))
        wsd = [None] * (8 * len(buf))
        for k, n in enumerate(names):
            if n not in hist:
                if fp[k] is not None:
                    return f'entry {fp[k]} for the unmodelled field {n}'
                continue
            p = prob_of(hist[n], vals[k])
            sd = stats_of(hist[n])[1]
            if fp[k] is None or fp[k][0] != n or not close(fp[k][1], p, 1e-7) or not close(fp[k][2], sd):
                return f'entry {fp[k]} of field {k}, expected {(n, p, sd)}'
            for i in range(*where[k]):
                wp[i], wsd[i] = p, sd
        for i in range(8 * len(buf)):
            if wp[i] is None:
                if not math.isnan(bp[i]) or not math.isnan(bs[i]):
                    return f'bit {i} of no modelled field has probability {bp[i]}, spread {bs[i]}'
            elif not close(bp[i], wp[i], 1e-7) or not close(bs[i], wsd[i]):
                return f'bit {i}: probability {bp[i]}, spread {bs[i]}; expected {wp[i]}, {wsd[i]}'
    want = [0] * (8 * len(buf))
    for k, n in enumerate(names):
        if n in hist:
            bits = spec_bits(float(np.mean(np.array(hist[n]))), types[k])
            want[where[k][0]:where[k][1]] = bits
    idx = np.array(sorted(range(8 * len(buf)), key=lambda i: (i * 7919) % 1009), dtype=int)
    got = bm.bitwise_model_mean(idx, len(buf), structure)
    if [int(x) for x in got] != [want[i] for i in idx]:
        bad = [int(i) for i, x in zip(idx, got) if int(x) != want[i]]
        return f'bit image of the model differs from the wire bits of the means at bits {bad[:10]}'


def cases(rng, tier, part, nparts):
    while True:
        for _ in range(20):
            t = rng.choice(['uint8_t', 'int16_t', 'uint32_t', 'float'])
            n = rng.choice([1, 1, 2, 3, 5, 20])
            base = rng.randrange(0, 100)
            if rng.random() < 0.3:
                samples = [base] * n
            elif t == 'float':
                samples = [rng.gauss(base, rng.choice([5, 5, 1e-3, 1e-6, 1e4])) for _ in range(n)]
            else:
                samples = [base + rng.randrange(0, 30) for _ in range(n)]
            if len(samples) == 1 or len(set(samples)) > 1 or all(float(x).is_integer() for x in samples):
                vals = [base, base + 1, base - 1, 0, 1000] + [rng.uniform(-50, 150) for _ in range(4)]
                if len(samples) > 1 and t == 'float':
                    vals += [samples[0], 2 * samples[0] - samples[1], rng.uniform(min(samples), max(samples))]
                yield ('value', t, samples, vals)
        yield rand_predict(rng)


def rand_predict(rng):
    st, pos, fr = {}, 0, []
    for _ in range(rng.randrange(1, 4)):
        g = rng.choice([0, 0, 2])
        mid = rng.choice(NICESMALL)
        st[pos + g] = mid
        fr.append((g, mid))
        pos += g + len(nice_frame(rng, mid))
    tail = rng.choice([0, 1, 3])

    def buf():
        return b''.join(rand_bytes(rng, g) + nice_frame(rng, m) for g, m in fr) + rand_bytes(rng, tail)
    train = [buf() for _ in range(rng.choice([1, 1, 2, 4]))]
    b = train[0] if rng.random() < 0.3 else buf()
    if rng.random() < 0.4:
        x = bytearray(train[-1])
        x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
        b = bytes(x)
    return ('predict', st, train, b, [rng.randrange(50) for _ in range(rng.choice([0, 0, 1, 3]))])
