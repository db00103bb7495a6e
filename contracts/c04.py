"""C04 Hamming distance"""
from .common import *
import bitstring
from utils.bit_operations import hamming_distance
from pyvc.models import SBits, count_bits
from pyvc.terms import get_bits


def bits8(x):
    bs = get_bits(x)
    if bs is None:
        raise Unsupported('operand without bit structure')
    return bs


def contract():
    """call-site contract of hamming_distance (proved by the jobs of C04)"""
    def h(it, args, kw):
        getattr(it, 'assumed', set()).add('utils.bit_operations.hamming_distance (contract proved by C04)')
        a, b = args[0], args[1]
        uint_len = args[2] if len(args) > 2 else kw.get('uint_len', 8)
        num = lambda v: isinstance(v, int) and not isinstance(v, bool) or isS(v) and v.is_int
        byt = lambda v: isinstance(v, (bytes, SBytes))
        if num(a) and num(b) and uint_len == 8:
            c = ctx()
            ok = And(a >= 0, a <= 255, b >= 0, b <= 255)
            if not c.branch(bterm(ok)):
                raise Raised(bitstring.CreationError())
            x, y = bits8(a), bits8(b)
            n = max(len(x), len(y))
            x = x + [z3.BoolVal(False)] * (n - len(x))
            y = y + [z3.BoolVal(False)] * (n - len(y))
            return popcount_bits([z3.simplify(z3.Xor(p, q)) for p, q in zip(x, y)])
        if byt(a) and byt(b):
            la = len(a) if isinstance(a, bytes) else a.length
            lb = len(b) if isinstance(b, bytes) else b.length
            if not it.branch(veq(la, lb)):
                raise Raised(ValueError('Bitstrings must have the same length for ^ operator.'))
            n = norm_int(la)
            if isS(n):
                n = ctx().concrete_int(n.t)
            if n is None or n > 16:
                raise Unsupported('hamming_distance on long byte strings')
            ea = (lambda i: a[i]) if isinstance(a, bytes) else a.elem
            eb = (lambda i: b[i]) if isinstance(b, bytes) else b.elem
            return popcount_bits([z3.Xor(p, q) for i in range(n) for p, q in zip(pad8(ea(i)), pad8(eb(i)))])
        return it.run_func(hamming_distance, args, kw)
    return {hamming_distance: h}


def pad8(x):
    b = bits8(x)
    return b + [z3.BoolVal(False)] * (8 - len(b))


# spec bit images: (length in bits, bit function i -> Bool)
def image(kind, c, name, L, n_arr=None):
    """returns (value, nbits, bit(i))"""
    if kind == 'bytes':
        v = SBytes.fresh(name)

        def bit(i):
            # most significant bit first
            q, r = i // 8, i % 8
            t = term(q)
            return mk(v.bitf(t, z3.IntVal(7) - term(r)))
        return v, v.length * 8, bit
    if kind == 'int':
        v = sym(c, name)
        return v, L, None
    if kind == 'bits':
        n = c.fresh(name + '_nbits', 'int')
        c.assume(n >= 0)
        F = c.fresh_fn(name + '_b', 'int', 'bool')
        v = SBits(n, lambda i: mk(F(term(i))))
        return v, n, (lambda i: mk(F(term(i))))
    if kind == 'arr':
        n = c.fresh(name + '_n', 'int')
        c.assume(n >= 0)
        v = SArr.fresh(name, (n,), 'i', 0, 1)
        r = v.reader()
        return v, n, (lambda i: veq(r((i,)), 1))


def jobs(tier):
    out = []

    def seq(ka, kb):
        def body(c, mkit):
            it = mkit()
            a, na, fa = image(ka, c, 'a', 8)
            b, nb, fb = image(kb, c, 'b', 8)
            k, r = outcome(it, hamming_distance, [a, b])
            if k == 'exc':
                c.prove('exception only for unequal bit lengths', Not(veq(na, nb)), kind='exc')
                return
            c.prove('accepted operands have equal bit length', veq(na, nb))
            want = sums.count(na, lambda i: Not(Iff(fa(i), fb(i))))
            c.prove('distance = number of differing bit positions', veq(r, want))
            c.prove('0 <= distance <= number of bits', And(r >= 0, r <= na))
        return body
    for ka, kb in (('bytes', 'bytes'), ('bits', 'bits'), ('arr', 'arr'), ('bytes', 'arr'), ('bits', 'bytes'), ('arr', 'bits')):
        out.append(Job(f'hamming_distance({ka}, {kb}), all lengths', seq(ka, kb)))

    def ints(L):
        def body(c, mkit):
            it = mkit()
            # operands given by their bits when they fit; any integer otherwise
            def opnd(name):
                v = c.fresh(name, 'int')
                bs = [z3.Bool(f'{name}_b{j}!{c.nfresh}') for j in range(L)]
                c.assume(z3.Implies(z3.And(v.t >= 0, v.t < (1 << L)),
                                    v.t == z3.Sum([z3.If(x, z3.IntVal(1 << j), z3.IntVal(0)) for j, x in enumerate(bs)])))
                s = S(v.t, None, bs)
                c.inputs.append(NamedInt(name, s))
                return s, bs
            a, ab = opnd('a')
            b, bb = opnd('b')
            fits = And(a >= 0, a < (1 << L), b >= 0, b < (1 << L))
            k, r = outcome(it, hamming_distance, [a, b] + ([L] if L != 8 else []))
            if k == 'exc':
                c.prove('exception only for integers that do not fit', Not(fits), kind='exc')
                return
            c.prove('accepted integers fit', fits)
            c.prove('distance = number of differing bits', Implies(fits, veq(r, popcount_bits([z3.Xor(x, y) for x, y in zip(ab, bb)]))))
        return body
    for L in (8, 1, 3, 16, 32):
        out.append(Job(f'hamming_distance(int, int), width {L}', ints(L), concretize=lambda v, L=L: ('int', v['a'], v['b'], L)))

    def types_(c, mkit):
        it = mkit()
        for bad in (3.5, 'ab', None, [1, 0], (1,), {}):
            for args in ([bad, b'a'], [b'a', bad], [bad, bad]):
                k, r = outcome(it, hamming_distance, args)
                c.prove('other operand kinds raise TypeError', k == 'exc' and type(r) is TypeError)
    out.append(Job('hamming_distance, other operand kinds', types_))
    return out


# ---------------------------------------------------------------- run-time contract
def to_bits(x, L):
    if isinstance(x, bytes):
        return [(v >> (7 - j)) & 1 for v in x for j in range(8)]
    if isinstance(x, np.ndarray):
        return [int(v) for v in x]
    if isinstance(x, bitstring.Bits):
        return [int(v) for v in x]
    if isinstance(x, int):
        if x < 0 or x >> L:
            return None
        return [(x >> (L - 1 - j)) & 1 for j in range(L)]


def mkop(o):
    k, v = o
    return v if k in ('int', 'bytes', 'bad') else bitstring.Bits(bin=v) if k == 'bits' else np.array([int(x) for x in v], dtype=np.dtype(k[3:] or 'int64'))


def check(case):
    if case[0] == 'bad':
        a, b = case[1:]
        try:
            r = hamming_distance(a, b)
        except TypeError:
            return None
        return f'hamming_distance({a!r}, {b!r}) = {r}, expected TypeError'
    if case[0] == 'int':
        a, b, L = case[1:]
        args = (a, b) if L == 8 else (a, b, L)
    else:
        a, b, L = mkop(case[1]), mkop(case[2]), case[3]
        args = (a, b) if L == 8 else (a, b, L)
    x, y = to_bits(a, L), to_bits(b, L)
    bad = x is None or y is None or len(x) != len(y)
    try:
        r = hamming_distance(*args)
    except Exception as e:
        return None if bad else f'hamming_distance{case[1:]} raised {type(e).__name__}'
    if bad:
        return f'hamming_distance{case[1:]} = {r} instead of being rejected'
    e = sum(p != q for p, q in zip(x, y))
    if r != e:
        return f'hamming_distance{case[1:]} = {r}, expected {e}'


def cases(rng, tier, part, nparts):
    for bad in (3.5, 'ab', None, [1, 0], (1,), {}, {1}):
        for other in (b'a', 3, bitstring.Bits(bin='0101'), bad):
            yield ('bad', bad, other)
            yield ('bad', other, bad)
    for a in range(256):
        for b in range(256):
            if (a * 256 + b) % nparts == part:
                yield ('int', a, b, 8)
    for L in (1, 2, 7, 8, 9, 16, 24, 32, 64):
        for _ in range(30):
            a, b = rng.getrandbits(L), rng.getrandbits(L)
            yield ('int', a, b, L)
            yield ('int', a, a, L)
            yield ('int', a, a ^ (1 << rng.randrange(L)), L)
            yield ('int', a, b + (1 << L), L)
            yield ('int', -a - 1, b, L)
            yield ('int', b, -1, L)
    dts = ['arr', 'arruint8', 'arrint32', 'arrbool', 'arrint8']
    for nb in (256, 264, 512, 2048, 65536, 66048):      # all bits differ
        s = ''.join(rng.choice('01') for _ in range(nb))
        t = ''.join('10'[int(x)] for x in s)
        for k in ['bits'] + dts:
            yield ('seq', (k, s), (rng.choice(['bits'] + dts), t), 8)
        yield ('seq', ('bytes', int(s, 2).to_bytes(nb // 8, 'big')), ('bytes', int(t, 2).to_bytes(nb // 8, 'big')), 8)
    for _ in range(3000 if tier == 'quick' else 200000):
        n = rng.choice([0, 1, 2, 3, 5, 8, 16, 17, 64])
        nb = n * 8
        s = ''.join(rng.choice('01') for _ in range(nb))
        t = list(s)
        for _ in range(rng.choice([0, 1, 2, nb])):
            if nb:
                t[rng.randrange(nb)] = rng.choice('01')
        t = ''.join(t)
        if rng.random() < 0.1:
            d = rng.choice([1, 1, 8, 16])
            t = t[:-d] if rng.random() < .5 else t + '0' * d

        def op(q):
            k = rng.choice(['bytes', 'bits', rng.choice(dts)])
            if k == 'bytes' and len(q) % 8:
                k = 'bits'
            if k == 'bytes':
                return 'bytes', int(q, 2).to_bytes(len(q) // 8, 'big') if q else b''
            return k, q
        yield ('seq', op(s), op(t), 8)
        L = rng.choice([4, 8, 12])
        v = rng.getrandbits(L)
        yield ('mix', ('int', v), ('bits', format(rng.getrandbits(L), f'0{L}b')), L)
        yield ('mix', (rng.choice(dts), format(rng.getrandbits(L), f'0{L}b')), ('int', v), L)
