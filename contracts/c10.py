"""C10 num2bits"""
import math
import struct
from fractions import Fraction
from .common import *
from .frames import SIZES, FMT
from inference.statistical_models import num2bits

TYPES = list(SIZES)


def spec_bits(num, t):
    if t == 'char':
        b = bytes([ord(num)])
    elif t == 'float':
        b = struct.pack('<f', num)
    else:
        w = 8 * SIZES[t]
        r = round(num)
        if t[0] == 'u':
            r = min(max(r, 0), 2 ** w - 1)
        else:
            r = min(r, 2 ** (w - 1) - 1)
        b = (r % 2 ** w).to_bytes(SIZES[t], 'little')
    return [(x >> (7 - i)) & 1 for x in b for i in range(8)]


def jobs(tier):
    from pyvc.models import FLOATBYTE
    out = []

    def shape_ok(c, r, n):
        if not isinstance(r, SArr) or r.ndim != 1:
            if isinstance(r, np.ndarray):
                r = SArr.from_np(r)
            else:
                c.prove('the bit image is a one-dimensional array', False)
                raise PathEnd()
        c.prove('8 bits per byte of the field', veq(r.shape[0], n))
        c.prove('integer bits', r.kind == 'i')
        return [r.elem(i) for i in range(n)]

    def byte(bs, k):
        """value of the k-th byte, most significant bit first"""
        v = 0
        for j in range(8):
            v = v + bs[8 * k + j] * (1 << (7 - j))
        return v

    def integer(t, sort):
        def body(c, mkit):
            it = mkit()
            w = 8 * SIZES[t]
            x = sym(c, 'num', sort)
            lo, hi = (0, 2 ** w - 1) if t[0] == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            if t[0] != 'u':
                c.assume(x >= lo)        # wire values below a signed field's minimum have no image
            r = returns(c, it, num2bits, [x, t], what=f'num2bits(num, {t})')
            bs = shape_ok(c, r, w)
            # nearest integer, ties to even, clipped to the range of the field
            q = c.fresh('nearest', 'int')
            if sort == 'int':
                c.assume(q == x)
            else:
                d = x - q
                half = S(z3.RealVal('1/2'))
                c.assume(And(d <= half, -half <= d, Implies(Or(veq(d, half), veq(d, -half)), mk(q.t % 2 == 0))))
            v = ite(q > hi, hi, q)
            if t[0] == 'u':
                v = ite(x < 0, 0, v)
            u = ite(v < 0, v + 2 ** w, v)
            for k in range(SIZES[t]):
                c.prove(f'byte {k} of the image is byte {k} of the little-endian wire encoding',
                        veq(byte(bs, k), (u // 256 ** k) % 256))
            for i in range(w):
                c.prove('every entry is 0 or 1', And(bs[i] >= 0, bs[i] <= 1))
        return body

    for t in TYPES:
        if t in ('char', 'float'):
            continue
        for sort in ('int', 'real'):
            out.append(Job(f'num2bits(num: {sort}, {t})', integer(t, sort),
                           concretize=lambda v, t=t: ('cex', v['num'], t)))

    def flt(sort):
        def body(c, mkit):
            it = mkit()
            x = sym(c, 'num', sort)
            r = returns(c, it, num2bits, [x, 'float'], what='num2bits(num, float)')
            bs = shape_ok(c, r, 32)
            for k in range(4):
                t = FLOATBYTE(z3.simplify(to_real(x)), z3.IntVal(k))
                c.axiom(('fbspec', k), z3.And(t >= 0, t <= 255))
                c.prove(f'byte {k} of the image is byte {k} of the single precision encoding', veq(byte(bs, k), mk(t)))
        return body
    out.append(Job('num2bits(num: real, float)', flt('real'), concretize=lambda v: ('cex', v['num'], 'float')))
    out.append(Job('num2bits(num: int, float)', flt('int'), concretize=lambda v: ('cex', v['num'], 'float')))

    def char(c, mkit):
        it = mkit()
        k = c.choose(256)
        r = returns(c, it, num2bits, [chr(k), 'char'], what='num2bits(char, char)')
        bs = shape_ok(c, r, 8)
        c.prove('the image of a character is its code', veq(byte(bs, 0), k))
        for i in range(8):
            c.prove('every entry is 0 or 1', And(bs[i] >= 0, bs[i] <= 1))
    out.append(Job('num2bits(character, char): all 256 codes', char))

    def bad(c, mkit):
        it = mkit()
        for t in ('uint128_t', 'double', '', 'bool', 'int', 'unsigned', 'uint', 'int8', 'Float', 'char[4]'):
            k, r = outcome(it, num2bits, [1, t])
            c.prove('unsupported types are rejected with ValueError', k == 'exc' and type(r) is ValueError)
    out.append(Job('num2bits, unsupported types', bad))
    return out


TRUSTED = ['struct.pack, numpy.frombuffer and numpy.unpackbits follow their documented byte layout (pyvc models)',
           'struct.pack("<f", x) is the IEEE single precision encoding of x (uninterpreted)']


def check(case):
    _, num, t = case
    if t not in SIZES:
        try:
            r = num2bits(num, t)
        except ValueError:
            return None
        return f'type {t!r} accepted: {r}'
    r = num2bits(num, t)
    want = spec_bits(num, t)
    if len(r) != 8 * SIZES[t] or [int(x) for x in r] != want:
        return f'num2bits({num!r}, {t}) = {"".join(str(int(x)) for x in r)}, wire encoding {"".join(map(str, want))}'


def cases(rng, tier, part, nparts):
    for t in ('uint128_t', 'double', '', 'bool', 'int'):
        yield ('bad', 1, t)
    for k in range(128):
        yield ('char', chr(k), 'char')
    for k in range(128, 256):
        yield ('char', chr(k), 'char')
    for t in TYPES:
        if t == 'char':
            continue
        w = 8 * SIZES[t]
        if t == 'float':
            vals = [0.0, -0.0, 1.5, -1.5, 1e30, -1e-30, 3.4028235e38, 16777217.0, 0.1, np.float64(0.3), 7]
        else:
            hi = 2 ** w - 1 if t[0] == 'u' else 2 ** (w - 1) - 1
            lo = 0 if t[0] == 'u' else -2 ** (w - 1)
            vals = [0, 1, 2, hi, hi - 1, hi + 1, lo, lo + 1, 0.5, 1.5, 2.5, 0.49999, 126.5, 255.5, 65534.5, np.float64(hi),
                    float(hi), hi / 2, hi * 2.0, np.int64(min(hi, 2 ** 63 - 1))]
            if t[0] == 'u':
                vals += [-1, -0.4, -0.5, -0.6, -1e9, -2.0 ** 80]
            else:
                vals += [-1, -0.5, -1.5, -2.5, -0.4, lo + 0.5, lo / 2]
        for v in vals:
            yield ('edge', v, t)
    while True:
        t = rng.choice([x for x in TYPES if x != 'char'])
        w = 8 * SIZES[t]
        if t == 'float':
            v = rng.choice([rng.gauss(0, 1), rng.uniform(-1e6, 1e6), rng.gauss(0, 1) * 10.0 ** rng.randrange(-30, 30)])
        else:
            hi = 2 ** w if t[0] == 'u' else 2 ** (w - 1)
            lo = -hi / 4 if t[0] == 'u' else -hi
            v = rng.choice([rng.randrange(int(lo), hi), rng.uniform(lo, hi), rng.uniform(lo, hi) / 2 ** rng.randrange(w),
                            rng.randrange(int(lo), hi) / 2, rng.randrange(0, 70000) + 0.5, float(rng.randrange(int(lo), hi))])
            v = max(v, lo)
            if rng.random() < 0.2:
                v = np.float64(v)
        yield ('rnd', v, t)
