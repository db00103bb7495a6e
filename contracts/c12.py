"""C12 model windows and freshness"""
from .common import *
from .frames import *
from .c11 import OK, OKSMALL, layout, values, to_bits, rand_case
from scipy.stats import norm
from inference.statistical_models import BufferModel, FieldModel


def field_state(c, it, tp, win):
    """an arbitrary field model satisfying the invariant: at most window samples; if marked up to date there are samples
    and the cached statistics are theirs"""
    m = it.call(FieldModel, ['f', tp, win])
    if set(vars(m)) != {'name', 'field_type', 'field_len', '_mean', '_std', 'samples', '_up2date', 'window_size', 'int_type',
                        'signed'}:
        raise Unsupported('field model with other state')
    n = c.fresh('held', 'int')
    c.assume(n >= 0)
    if win is not None:
        c.assume(n <= win)
    F = c.fresh_fn('sample', 'int', 'real')
    el = lambda i: mk(F(term(i)))
    m.samples = SList([('fn', n, el)])
    u, mu, sd = c.fresh('up2date', 'bool'), c.fresh('cmean', 'real'), c.fresh('cstd', 'real')
    m._up2date, m._mean, m._std = u, mu, sd
    if c.choose(2):
        c.assume(u)
        c.assume(n > 0)
        from .sm import mean_std
        a, b = mean_std(n, el)
        c.assume(And(veq(mu, a), veq(sd, b)))
    else:
        c.assume(Not(u))
    return m, n, el


def held(c, m):
    s = m.samples
    if isinstance(s, list):
        s = SList([('items', list(s))])
    if not isinstance(s, SList):
        c.prove('samples are kept in a list', False)
        raise PathEnd()
    return s.length(), s.copy().elem


def fresh_ok(c, m):
    """invariant: statistics marked up to date are those of the samples held"""
    from .sm import mean_std
    u = m._up2date
    if not (isinstance(u, bool) or isS(u) and u.is_bool):
        raise Unsupported('flag')
    if u is False:
        return
    n, el = held(c, m)
    c.prove('statistics are only marked up to date with samples', Implies(u, n > 0), kind='inv')
    if not c.feasible(And(u, n > 0)):
        return
    c.assume(Implies(u, n > 0))
    a, b = mean_std(n, el)
    c.prove('statistics marked up to date are the mean of the samples held', Implies(u, veq(m._mean, a)), kind='inv')
    c.prove('statistics marked up to date are the standard deviation of the samples held', Implies(u, veq(m._std, b)), kind='inv')


def jobs(tier):
    from .sm import LIB, mean_std, GDict, LIB_TRUST
    from .c04 import contract as _  # noqa: F401
    out = []
    TP = ['uint8_t', 'int16_t', 'float']

    def window(c, kind):
        if kind == 'none':
            return None
        w = sym(c, 'window')
        c.assume(w >= 1)
        return w

    def add(kind, many, tp):
        def body(c, mkit):
            it = mkit(contracts=LIB)
            w = window(c, kind)
            m, n, el = field_state(c, it, tp, w)
            if many:
                k = c.fresh('added', 'int')
                c.assume(k >= 0)
                G = c.fresh_fn('new', 'int', 'real')
                new = lambda i: mk(G(term(i)))
                arg = SList([('fn', k, new)])
            else:
                k, x = 1, c.fresh('x', 'real')
                new = lambda i: x
                arg = x
            c.ro = {id(arg): 'list of samples'}
            returns(c, it, m.add_sample, [arg])
            c.ro = None
            tot = n + k
            ln, e = held(c, m)
            want = tot if w is None else ite(tot > w, w, tot)
            c.prove('holds min(window, number added) samples', veq(ln, want))
            c.prove('model_size is the number of samples held', veq(returns(c, it, type(m).model_size.fget, [m]), want))
            off = tot - want

            def sample(i):
                j = i + off
                return ite(j < n, lambda: el(j), lambda: new(j - n))
            forall(c, 'holds the most recent samples in order', want, lambda i: veq(e(i), sample(i)))
            c.prove('window unchanged', m.window_size is w)
            fresh_ok(c, m)
            # what is reported next
            q = c.choose(3)
            if q == 0 or not c.feasible(want > 0):
                return
            c.assume(want > 0)
            a, b = mean_std(want, sample)
            if q == 1:
                c.prove('mean reported after the addition is that of the samples held',
                        veq(returns(c, it, type(m).mean.fget, [m]), a))
            else:
                c.prove('standard deviation reported after the addition is that of the samples held',
                        veq(returns(c, it, type(m).std.fget, [m]), b))
        return body
    for kind in ('none', 'window'):
        for many in (False, True):
            out.append(Job(f'FieldModel.add_sample({"list" if many else "one sample"}), window {kind}', add(kind, many, 'float'), timeout_ms=8000))

    def query(op):
        def body(c, mkit):
            seen = []
            from .sm import num2bits

            def n2b(it, args, kw):
                seen.append((args[0], args[1]))
                return SArr.fresh('bits', (8,), 'i', 0, 1)
            def density(it, args, kw):
                seen.append(list(args[1:]) + [kw[k] for k in ('loc', 'scale') if k in kw])
                return c.fresh('density', 'real')
            N = type(norm)
            it = mkit(contracts={**LIB, num2bits: n2b, **{f: density for f in (N.pdf, N.cdf)}})
            w = window(c, 'window')
            m, n, el = field_state(c, it, 'uint8_t' if op == 'bitwise_mean' else 'int16_t' if op == 'p_of_sign_bit' else 'float', w)
            c.assume(n > 0)
            a, b = mean_std(n, el)
            samples = m.samples
            c.ro = {id(samples): 'samples'}
            if op in ('mean', 'std'):
                r = returns(c, it, getattr(type(m), op).fget, [m])
                c.prove(f'{op} is that of the samples held', veq(r, a if op == 'mean' else b))
            elif op == 'classify_value':
                x = c.fresh('x', 'real')
                r = returns(c, it, m.classify_value, [x])
                c.prove('classification returns a pair', isinstance(r, tuple) and len(r) == 2)
                c.prove('spread reported is that of the samples held', veq(r[1], b))
                c.prove('at the mean of the samples held the value is no outlier', Implies(veq(x, a), veq(r[0], 1)))
            elif op == 'bitwise_mean':
                returns(c, it, m.bitwise_mean, [])
                c.prove('bit image of the mean of the samples held', len(seen) == 1 and seen[0][1] == 'uint8_t' and veq(seen[0][0], a))
            elif op in ('pdf', 'cdf'):
                x = c.fresh('x', 'real')
                returns(c, it, getattr(m, op), [x])
                c.prove(f'{op} of the normal law with mean and standard deviation of the samples held',
                        And(len(seen) == 1 and len(seen[0]) == 3, *[veq(g, v) for g, v in zip(seen[0], (x, a, b))]) if seen else False)
            elif op == 'p_of_sign_bit':
                c.assume(b > 0)
                returns(c, it, m.p_of_sign_bit, [])
                c.prove('sign probability of the normal law of the samples held',
                        And(len(seen) == 1 and len(seen[0]) == 1, veq(seen[0][0] * b, ite(a < 0, a, -a))) if seen else False)
            elif op == 'str':
                returns(c, it, m.__str__, [])
            c.ro = None
            ln, e = held(c, m)
            c.prove('asking does not change the number of samples', veq(ln, n))
            forall(c, 'asking does not change the samples', n, lambda i: veq(e(i), el(i)))
            fresh_ok(c, m)
        return body
    for op in ('mean', 'std', 'classify_value', 'bitwise_mean', 'pdf', 'cdf', 'p_of_sign_bit', 'str'):
        out.append(Job(f'FieldModel.{op} uses the samples held', query(op), timeout_ms=8000))

    def init(c, mkit):
        it = mkit(contracts=LIB)
        w = window(c, ('none', 'window')[c.choose(2)])
        tp = (list(SIZES) + ['double', ''])[c.choose(len(SIZES) + 2)]
        args = ['f', tp] if w is None else ['f', tp, w]
        k, m = outcome(it, FieldModel, args)
        if tp not in SIZES:
            c.prove('unsupported types are rejected', k == 'exc' and type(m) is ValueError)
            return
        if k == 'exc':
            c.prove('supported types are accepted', False, kind='exc')
            return
        c.prove('a new model is empty and has the name, type and window given',
                m.name == 'f' and m.field_type == tp and m.window_size is w and m.samples == [])
        c.prove('a new model is not marked up to date', m._up2date is False, kind='inv')
    out.append(Job('FieldModel.__init__', init))

    # -- buffer model
    def bm_add_sample(c, mkit):
        log = []

        def fm_add(it, args, kw):
            log.append((args[0], args[1]))
            return None
        it = mkit(contracts={**LIB, FieldModel.add_sample: fm_add})
        w = window(c, ('none', 'window')[c.choose(2)])
        bm = it.call(BufferModel, [], {'window_size': w})
        present = c.fresh('has', 'bool')

        known = object.__new__(FieldModel)
        d = GDict(lambda q: present, lambda q: known)
        bm._field_models = d
        name, x = c.fresh('name', 'int'), c.fresh('x', 'real')
        size = c.fresh('size', 'int')
        bm.model_size = size
        returns(c, it, bm.add_sample, [name, x, 'int16_t'])
        c.prove('the sample is added exactly once', len(log) == 1)
        if len(log) != 1:
            return
        m, v = log[0]
        c.prove('the value added is the sample', v is x)
        if c.implied(present):
            c.prove('an existing model of the name gets the sample and no model is created', m is known and not d.sets)
        else:
            c.prove('a missing model is created once, under the name', len(d.sets) == 1 and d.sets[0][0] is name and d.sets[0][1] is m)
            if isinstance(m, FieldModel):
                c.prove('created with the name, type and window of the buffer model',
                        And(veq(m.name, name), m.field_type == 'int16_t', m.window_size is w))
            else:
                c.prove('created model is a field model', False)
        c.prove('the size does not change', bm.model_size is size)
    out.append(Job('BufferModel.add_sample reaches one model', bm_add_sample))

    def bm_views(c, mkit):
        it = mkit(contracts=LIB)
        bm = it.call(BufferModel, [], {})
        F = c.fresh_fn('modelled', 'int', 'bool')
        objs = {}

        def obj(q):
            k = term(q).sexpr()
            return objs.setdefault(k, object.__new__(FieldModel))
        d = GDict(lambda q: mk(F(term(q))), obj)
        bm._field_models = d
        name = c.fresh('name', 'int')
        has = mk(F(term(name)))
        q = c.choose(4)
        if q == 0:
            r = returns(c, it, BufferModel.__contains__, [bm, name])
            c.prove('membership tells whether the field is modelled', Iff(r, has))
        elif q == 1:
            k, r = outcome(it, BufferModel.__getitem__, [bm, name])
            c.prove('the model of the name, KeyError for a field that is not modelled',
                    And(has, r is obj(name)) if k == 'ret' else And(Not(has), isinstance(r, KeyError)))
        elif q == 2:
            r = returns(c, it, bm.get_field_model, [name])
            c.prove('the model of the name, None for a field that is not modelled', Not(has) if r is None else And(has, r is obj(name)))
        else:
            v = object.__new__(FieldModel)
            returns(c, it, BufferModel.__setitem__, [bm, name, v])
            other = c.fresh('other', 'int')
            c.prove('a model set is found under its name', returns(c, it, BufferModel.__getitem__, [bm, name]) is v)
            c.assume(Not(veq(other, name)))
            c.prove('setting a model concerns its name only', And(veq(len(d.sets), 1), Iff(returns(c, it, BufferModel.__contains__, [bm, other]), mk(F(term(other))))))
            return
        c.prove('asking creates no model', not d.sets, kind='frame')
    out.append(Job('BufferModel views of its field models', bm_views))

    def bm_add_buffer(form):
        def body(c, mkit):
            from .sm import EachOnce, structure_contracts
            log = []

            def bms(it, args, kw):
                vals = list(args[1:4]) + [kw[k] for k in ('field_name', 'sample', 'field_type')[len(args) - 1:] if k in kw]
                log.append((args[0], tuple(vals)))
                return None
            w = window(c, ('none', 'window')[c.choose(2)])
            buf = SBytes.fresh('buffer') if form == 'bytes' else None
            if buf is None:
                nb = c.fresh('nbytes', 'int')
                c.assume(nb >= 0)
                buf = SArr.fresh('bits', (nb * 8,), 'i', 0, 1)
            G = structure_contracts(c)
            st = G.structure
            loop = EachOnce(log, G, 'add_buffer')
            it = mkit(contracts={**LIB, **G.contracts, BufferModel.add_sample: bms}, loops=[loop])
            bm = it.call(BufferModel, [], {'window_size': w})
            size = c.fresh('size', 'int')
            c.assume(size >= 0)
            if w is not None:
                c.assume(size <= w)
            bm.model_size = size
            returns(c, it, bm.add_buffer, [buf, st])
            loop.verify(c, lambda j: (G.name(j), G.value(j), G.ftype(j)), bm)
            c.prove('values are decoded from this buffer and structure', all(a is buf and s is st for a, s in G.value_calls) and len(G.value_calls) == 1)
            c.prove('the size grows by one up to the window', veq(bm.model_size, size + 1 if w is None else ite(size < w, size + 1, w)))
        return body
    out.append(Job('BufferModel.add_buffer(bytes): each field once', bm_add_buffer('bytes')))
    out.append(Job('BufferModel.add_buffer(bits): each field once', bm_add_buffer('bits')))

    def bm_reject(c, mkit):
        it = mkit(contracts=LIB)
        for bad in ('ab', 5, None, [1, 0], {}):
            bm = it.call(BufferModel, [])
            k, r = outcome(it, bm.add_buffer, [bad, {0: 0}])
            c.prove('other buffer kinds are rejected with ValueError', k == 'exc' and type(r) is ValueError)
            c.prove('a rejected buffer is not counted', bm.model_size == 0 and bm._field_models == {})
    out.append(Job('BufferModel.add_buffer rejects other kinds', bm_reject))
    return out


TRUSTED = ['scipy.stats.norm.fit returns the sample mean and the population standard deviation',
           'BufferModel.unpack_structure and unpack_values by their contracts (decided as C11)']


def stats_of(xs):
    xs = [float(x) for x in xs]
    m = sum(xs) / len(xs)
    return m, (sum((x - m) ** 2 for x in xs) / len(xs)) ** 0.5


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-6 * (1 + abs(b) + scale)


def check_stats(m, held, ask):
    if not held:
        return
    mu, sd = stats_of(held)
    sc = max(abs(float(x)) for x in held)
    if ask == 'mean' and not close(m.mean, mu, sc):
        return f'mean {m.mean}, samples held {held} have {mu}'
    if ask == 'std' and not close(m.std, sd, sc):
        return f'std {m.std}, samples held {held} have {sd}'
    if ask == 'classify':
        r = m.classify_value(mu if len(set(held)) > 1 else held[0])
        if not close(r[1], sd, sc) or not close(r[0], 1, 0):
            return f'classification at the mean of {held}: {r}'
    if ask == 'bits' and m.field_type != 'float':
        from .c10 import spec_bits
        if [int(x) for x in m.bitwise_mean()] != spec_bits(float(np.mean(held)), m.field_type):
            return f'bitwise mean of {held}'
    if ask in ('pdf', 'cdf') and sd > 1e-3 * (1 + sc):
        from math import exp, pi, erf
        for x in (mu, mu - sd / 2, mu + sd, held[-1]):
            z = (x - mu) / sd
            w = exp(-z * z / 2) / (sd * (2 * pi) ** 0.5) if ask == 'pdf' else (1 + erf(z / 2 ** 0.5)) / 2
            if abs(getattr(m, ask)(x) - w) > 1e-6 * (1 + w):
                return f'{ask}({x}) = {getattr(m, ask)(x)}, samples held {held} give {w}'
    if ask == 'str':
        str(m)


def check(case):
    if case[0] == 'field':
        _, tp, win, ops = case
        m = FieldModel('f', tp, win)
        allx = []
        for op, arg in ops:
            if op == 'add':
                m.add_sample(list(arg) if isinstance(arg, list) else arg)
                allx += arg if isinstance(arg, list) else [arg]
            else:
                held = allx if win is None else allx[-win:]
                r = check_stats(m, held, op)
                if r:
                    return r + f' (after {len(allx)} samples, window {win})'
            held = allx if win is None else allx[-win:]
            if list(m.samples) != held or m.model_size != len(held):
                return f'window {win}: samples {m.samples}, expected {held}'
        return
    _, win, bufs = case
    bm = BufferModel(window_size=win)
    held = {}
    types = {}
    for k, (st, buf, bits, ask) in enumerate(bufs):
        arg = to_bits(buf) if bits else buf
        st = dict(st)
        bm.add_buffer(arg, st)
        for (nm, tp, _, _), v in zip(layout(st), values(buf, st)):
            held.setdefault(nm, []).append(v)
            types.setdefault(nm, tp)
        n = k + 1 if win is None else min(k + 1, win)
        if bm.model_size != n:
            return f'model size {bm.model_size} after {k + 1} buffers, window {win}'
        if set(bm.fields_names()) != set(held) or len(bm) != len(held):
            return f'field models {sorted(bm.fields_names())}, expected {sorted(held)}'
        if sorted(m.name for m in bm) != sorted(held) or any(bm.get_field_model(x) is not bm[x] for x in held) \
                or 'no such field' in bm or bm.get_field_model('no such field') is not None:
            return 'the views of the field models disagree'
        for nm in held:
            h = held[nm] if win is None else held[nm][-win:]
            m = bm[nm]
            if not (nm in bm) or m.name != nm or m.field_type != types[nm] or m.window_size != win:
                return f'model of {nm}: {m.name}, {m.field_type}, window {m.window_size}'
            if len(m.samples) != len(h) or not all(a == b or a != a and b != b for a, b in zip(m.samples, h)):
                return f'samples of {nm}: {m.samples}, expected {h}'
            if ask and all(abs(float(x)) < 1e12 for x in h):
                r = check_stats(m, h, 'mean') or check_stats(m, h, 'std')
                if r:
                    return f'{nm}: {r}'


def nice_frame(rng, m):
    """frame whose float fields are small numbers and which has no char fields"""
    out = b''
    for _, t, _ in wire_fields(m):
        out += struct.pack('<f', rng.uniform(-10, 10)) if t == 'float' else rand_bytes(rng, SIZES[t])
    return frame(m, out, rng.randrange(256), rng.randrange(256), rng.randrange(256))


NICE = [i for i in OK if all(t != 'char' for _, t, _ in wire_fields(i))]
NICESMALL = [i for i in OKSMALL if i in NICE]


def cases(rng, tier, part, nparts):
    while True:
        tp = rng.choice(['uint8_t', 'int16_t', 'float', 'uint32_t', 'int8_t'])
        win = rng.choice([None, 1, 2, 3, 5, 10]) if rng.random() < 0.95 else rng.choice([50, 101, 200, 257])
        ops = []
        for _ in range(rng.randrange(1, 14)):
            if rng.random() < 0.6:
                n = rng.choice([None, None, None, 0, 1, 2, 4, 7]) if rng.random() < 0.97 else rng.choice([40, 130, 300])
                g = (lambda: rng.uniform(-50, 50)) if tp == 'float' else (lambda: rng.randrange(0, 100))
                ops.append(('add', g() if n is None else [g() for _ in range(n)]))
            else:
                ops.append((rng.choice(['mean', 'std', 'classify', 'bits', 'str', 'mean', 'pdf', 'cdf']), None))
        yield ('field', tp, win, ops)
        bufs = []
        win = rng.choice([None, 1, 2, 3])
        pool = rng.sample(NICESMALL if rng.random() < 0.7 else NICE, 2)
        for _ in range(rng.randrange(1, 6)):
            st, buf = {}, b''
            for _ in range(rng.choice([1, 1, 2])):
                m = rng.choice(pool)
                st[len(buf)] = m
                buf += nice_frame(rng, m)
            bufs.append((st, buf, rng.random() < 0.4, rng.random() < 0.5))
        yield ('buffer', win, bufs)
