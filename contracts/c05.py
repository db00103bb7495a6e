"""C05 segmentation soundness"""
from .common import *
from .frames import *
from inference.buffer_segmentation import BufferSegmentation, MsgParts


def expected_parts(buffer, spec):
    parts = [MsgParts.UNKNOWN] * len(buffer)
    bits = [0.0] * (8 * len(buffer))
    for i, mid, n in spec:
        parts[i:i + 6] = [MsgParts.HEADER] * 6
        parts[i + 6:i + n - 2] = [MsgParts.PAYLOAD] * (n - 8)
        parts[i + n - 2:i + n] = [MsgParts.CHECKSUM] * 2
        bits[8 * i:8 * (i + n)] = [1.0] * (8 * n)
    return parts, bits


TRUSTED = ['the parser is a function of the bytes it is given']


def jobs(tier):
    from .seg import segment_job, lemmas
    return [Job('segment_buffer', segment_job('C05')), Job('reported frames', lemmas)]


def check(case):
    _, buffer, kind = case
    p = Parser(kind)
    seg = BufferSegmentation(p)
    if len(buffer) % 2:      # an object that has segmented other buffers before
        for d in decoys(buffer):
            seg.segment_buffer(d)
    parts, bits, structure = seg.segment_buffer(buffer)
    if len(parts) != len(buffer) or len(bits) != 8 * len(buffer):
        return f'array lengths {len(parts)}, {len(bits)} for {len(buffer)} bytes'
    rep, end = [], 0
    for s, mid in sorted(structure.items()):
        h = buffer[s:s + 6]
        if s < 0 or not valid_header(h) or h[5] != mid:
            return f'reported start {s} with id {mid} has no such valid header'
        n = 8 + TABLE[mid]
        if s + n > len(buffer):
            return f'reported message at {s} exceeds the buffer'
        if s < end:
            return f'reported message at {s} overlaps the previous one'
        if not p.accepts(bytes(buffer[s:s + n])):
            return f'reported message at {s} is not accepted by the parser'
        if bytes(buffer[s:s + n]) not in p.calls:
            return f'reported message at {s} was not shown to the parser on its own bytes'
        end = s + n
        rep.append((s, mid, n))
    ep, eb = expected_parts(buffer, rep)
    if list(parts) != ep:
        j = next(k for k in range(len(ep)) if parts[k] != ep[k])
        return f'byte {j} classified {parts[j]}, expected {ep[j]} (messages {rep})'
    if [float(x) for x in bits] != eb:
        j = next(k for k in range(len(eb)) if bits[k] != eb[k])
        return f'bit {j} validity {bits[j]}, expected {eb[j]} (messages {rep})'


def cases(rng, tier, part, nparts):
    for n in range(0, 12):
        yield ('short', rand_bytes(rng, n), 'real')
        yield ('short', b'\xfe' * n, 'all')
    for q, i in enumerate(TABLE):      # every message on its own, exactly filling the buffer
        if q % nparts == part:
            f = frame(i, rand_bytes(rng, TABLE[i]))
            yield ('single', f, 'real')
            yield ('single', b'\x00' + f, 'all')
            yield ('single', f[:-1], 'all')
            yield ('single', f[:-1], 'real')
            yield ('double', f + f, 'real')
    while True:
        b = rand_buffer(rng)
        yield ('real', b, 'real')
        yield ('fake', b, rng.choice(['all', 'none', rng.randrange(256), rng.randrange(256)]))


def shrink(case):
    k, b, kind = case
    for n in (len(b) // 2, 8, 4, 1):
        if 0 < n < len(b):
            yield k, b[n:], kind
            yield k, b[:-n], kind
