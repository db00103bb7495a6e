"""C02 frame headers"""
from .common import *
from protocol_meta.msg_header import FrameHeader, is_valid_header, HeaderLength, NonExistentMsdId
from utils.custom_exceptions import NonUint8

TABLE = dict(meta.msgs_payload_length)
ACC = ('length', 'sequence', 'sys_id', 'comp_id', 'msg_id')


def exp_ctor(msg_id, sys_id, comp_id, seq):
    """spec: ('ok', bytes) or ('exc', class)"""
    if any(v < 0 or v > 255 for v in (sys_id, comp_id, seq)):
        return 'exc', NonUint8
    if msg_id in TABLE:
        return 'ok', bytes([0xFE, TABLE[msg_id], seq, sys_id, comp_id, msg_id])
    if msg_id < 0 or msg_id > 255:
        return 'exc', NonUint8
    return 'exc', NonExistentMsdId


def table_len(i):
    r = -1
    for k, n in TABLE.items():
        r = ite(i == k, n, r)
    return r


def verify_header(c, it, h, mid, sid, cid, seq, tag):
    vals = dict(length=table_len(mid), sequence=seq, sys_id=sid, comp_id=cid, msg_id=mid)
    for a in ACC:
        try:
            v = it.getattr_(h, a)
        except Raised as r:
            c.prove(f'{tag}: accessor {a} does not raise', False, kind='exc')
            continue
        c.prove(f'{tag}: accessor {a}', veq(v, vals[a]))
    buf = it.getattr_(h, 'buffer')
    c.prove(f'{tag}: header is a byte string of 6 bytes', isinstance(buf, (bytes, SBytes)) and veq(
        len(buf) if isinstance(buf, bytes) else buf.length, 6))
    want = [0xFE, table_len(mid), seq, sid, cid, mid]
    el = (lambda i: buf[i]) if isinstance(buf, bytes) else buf.elem
    c.prove(f'{tag}: header bytes', And(*[veq(el(i), want[i]) for i in range(6)]))
    c.prove(f'{tag}: header test accepts', returns(c, it, is_valid_header, [buf]))


def jobs(tier):
    def ctor(c, mkit):
        it = mkit()
        mid, sid, cid, seq = (sym(c, n) for n in ('msg_id', 'sys_id', 'comp_id', 'seq'))
        k, h = outcome(it, FrameHeader, [mid, sid, cid, seq])
        u8 = And(*[And(x >= 0, x <= 255) for x in (sid, cid, seq)])
        known = Or(*[mid == i for i in TABLE])
        idu8 = And(mid >= 0, mid <= 255)
        if k == 'ret':
            c.prove('constructor succeeds only for a known id and uint8 arguments', And(u8, known))
            verify_header(c, it, h, mid, sid, cid, seq, 'FrameHeader')
        else:
            c.prove('constructor raises only for invalid arguments', Not(And(u8, known)))
            c.prove('NonUint8 exactly for out-of-range arguments', Iff(type(h) is NonUint8, Or(Not(u8), And(Not(known), Not(idu8)))))
            c.prove('NonExistentMsdId exactly for unknown uint8 ids', Iff(type(h) is NonExistentMsdId, And(u8, Not(known), idu8)))

    def from_buf(force):
        def body(c, mkit):
            it = mkit()
            b = SBytes.fresh('buffer')
            args = [b]
            fid = None
            if force:
                fid = sym(c, 'force')
                args.append(fid)
            k, h = outcome(it, it.getattr_(FrameHeader, 'from_buffer'), args)
            mid = fid if force else b.elem(5)
            known = Or(*[mid == i for i in TABLE])
            if k == 'ret':
                c.prove('from_buffer succeeds only on 6 bytes with a known id', And(b.length == 6, known))
                verify_header(c, it, h, mid, b.elem(3), b.elem(4), b.elem(2), 'from_buffer')
            else:
                c.prove('from_buffer raises only when it must', Not(And(b.length == 6, known)))
                c.prove('HeaderLength exactly for a wrong length', Iff(type(h) is HeaderLength, b.length != 6))
                c.prove('NonExistentMsdId for unknown uint8 id', Iff(type(h) is NonExistentMsdId, And(b.length == 6, Not(known), mid >= 0, mid <= 255)))
                c.prove('NonUint8 for an id that is no uint8', Iff(type(h) is NonUint8, And(b.length == 6, Or(mid < 0, mid > 255))))
        return body

    def hd(c, mkit):
        from . import c04
        it = mkit(contracts=c04.contract())
        h = object.__new__(FrameHeader)
        h.buffer = SBytes.fresh('own', 6)
        b = SBytes.fresh('buffer')
        k, v = outcome(it, Bound(FrameHeader.hamming_distance, h), [b])
        if k == 'exc':
            c.prove('hamming_distance rejects exactly other lengths', And(type(v) is HeaderLength, b.length != 6))
        else:
            c.prove('hamming_distance accepts only 6 bytes', b.length == 6)
            from pyvc.terms import get_bits
            bits = []
            for i in range(6):
                bits += [z3.Xor(x, y) for x, y in zip(get_bits(h.buffer.elem(i)), get_bits(b.elem(i)))]
            c.prove('hamming_distance = number of differing bits', veq(v, popcount_bits(bits)))
    return [Job('FrameHeader constructor, all integers', ctor, concretize=lambda v: ('ctor', v['msg_id'], v['sys_id'], v['comp_id'], v['seq'])),
            Job('from_buffer, all byte strings', from_buf(False), concretize=lambda v: ('buf', v['buffer'], None)),
            Job('from_buffer with forced id', from_buf(True), concretize=lambda v: ('buf', v['buffer'], v['force'])),
            Job('FrameHeader.hamming_distance', hd, concretize=lambda v: ('hd', 0, v['buffer']))]


def check_hdr(h, exp):
    if h.buffer != exp:
        return f'header {h.buffer!r}, expected {exp!r}'
    got = (h.length, h.sequence, h.sys_id, h.comp_id, h.msg_id)
    if got != tuple(exp[1:]):
        return f'accessors {got}, expected {tuple(exp[1:])}'
    if not is_valid_header(h.buffer):
        return 'header test refuses its own header'
    if h.bit_string.bytes != exp:
        return 'bit_string differs'


def check(case):
    if case[0] == 'ctor':
        k, e = exp_ctor(*case[1:])
        try:
            h = FrameHeader(*case[1:])
        except Exception as x:
            return None if k == 'exc' and type(x) is e else f'FrameHeader{case[1:]} raised {type(x).__name__}, expected {k} {e}'
        if k == 'exc':
            return f'FrameHeader{case[1:]} accepted, expected {e.__name__}'
        m = check_hdr(h, e)
        if m:
            return m
        h2 = FrameHeader.from_buffer(h.buffer)
        return check_hdr(h2, e)
    if case[0] == 'buf':
        b, f = case[1:]
        try:
            h = FrameHeader.from_buffer(b, f) if f is not None else FrameHeader.from_buffer(b)
        except Exception as x:
            if len(b) != 6:
                return None if type(x) is HeaderLength else f'from_buffer({b!r}) raised {type(x).__name__}'
            k, e = exp_ctor(b[5] if f is None else f, b[3], b[4], b[2])
            return None if k == 'exc' and type(x) is e else f'from_buffer({b!r}, {f}) raised {type(x).__name__}, expected {k} {e}'
        if len(b) != 6:
            return f'from_buffer accepted {len(b)} bytes'
        k, e = exp_ctor(b[5] if f is None else f, b[3], b[4], b[2])
        if k == 'exc':
            return f'from_buffer({b!r}, {f}) accepted, expected {e.__name__}'
        return check_hdr(h, e)
    if case[0] == 'hd':
        mid, b = case[1:]
        h = FrameHeader(mid, 1, 2, 3)
        try:
            d = h.hamming_distance(b)
        except HeaderLength:
            return None if len(b) != 6 else 'HeaderLength for 6 bytes'
        if len(b) != 6:
            return 'wrong length accepted'
        e = sum(bin(x ^ y).count('1') for x, y in zip(h.buffer, b))
        return None if d == e else f'distance {d}, expected {e}'


def cases(rng, tier, part, nparts):
    edge = [-1000, -256, -2, -1, 0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 100000]
    ids = list(TABLE)
    for i in list(range(-3, 260)) + edge:
        for t in ((0, 0, 0), (255, 255, 255), (1, 2, 3), (255, 0, 128)):
            yield ('ctor', i) + t
    for p in range(3):
        for v in edge:
            for i in (ids[0], ids[-1], 300, -1, next(x for x in range(256) if x not in TABLE)):
                t = [7, 8, 9]
                t[p] = v
                yield ('ctor', i, *t)
    for n in range(0, 20):
        yield ('buf', rand_bytes(rng, n), None)
        yield ('buf', (bytes(FrameHeader(rng.choice(ids), 1, 2, 3).buffer) * 4)[:n], rng.choice(ids))
    for f in edge + ids + list(range(256)):
        yield ('buf', bytes([0xFE, rng.getrandbits(8)]) + rand_bytes(rng, 4), f)
    for i in range(256):
        yield ('buf', rand_bytes(rng, 5) + bytes([i]), None)
    for _ in range(3000 if tier == 'quick' else 300000):
        yield ('ctor', rng.choice(ids), rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(8))
        yield ('buf', rand_bytes(rng, 6), rng.choice([None, rng.choice(ids)]))
        yield ('hd', rng.choice(ids), rand_bytes(rng, rng.choice([5, 6, 6, 6, 6, 7])))
