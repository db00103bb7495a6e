"""C01 header recognition"""
from .common import *
from protocol_meta.msg_header import is_valid_header

TABLE = dict(meta.msgs_payload_length)


def spec_valid(buf):
    return len(buf) == 6 and buf[0] == 0xFE and buf[5] in TABLE and TABLE[buf[5]] == buf[1]


def sym_valid(b):
    """specification over a symbolic byte string of length 6"""
    return And(b.elem(0) == 0xFE, Or(*[And(b.elem(5) == i, b.elem(1) == n) for i, n in TABLE.items()]))


def jobs(tier):
    def body(c, mkit):
        it = mkit()
        b = SBytes.fresh('buffer')
        b.maxlen = 100000
        r = returns(c, it, is_valid_header, [b], what='is_valid_header')
        want = And(b.length == 6, sym_valid(b))
        c.prove('is_valid_header(b) <=> well-formed dialect header', Iff(r, want))
    return [Job('is_valid_header, all byte strings', body, concretize=lambda v: ('hdr', v['buffer']))]


def check(case):
    b = case[1]
    got = is_valid_header(b)
    if bool(got) != spec_valid(b):
        return f'is_valid_header({b!r}) = {got!r}, well-formed: {spec_valid(b)}'


def cases(rng, tier, part, nparts):
    ids = list(TABLE.items())
    for n in range(0, 40):
        yield ('len', rand_bytes(rng, n))
        i, ln = rng.choice(ids)
        yield ('len', (bytes([0xFE, ln]) + rand_bytes(rng, 3) + bytes([i]) + rand_bytes(rng, 40))[:n])
        yield ('len', (rand_bytes(rng, n) + bytes([0xFE, ln]) + rand_bytes(rng, 3) + bytes([i]))[-max(n, 1):])
    # every (length, id) pair with the marker, split between the workers
    for i in range(256):
        for ln in range(256):
            if (i * 256 + ln) % nparts == part:
                yield ('pair', bytes([0xFE, ln]) + rand_bytes(rng, 3) + bytes([i]))
    for i, ln in ids:
        for s in range(256):
            if s % nparts == part:
                yield ('marker', bytes([s, ln]) + rand_bytes(rng, 3) + bytes([i]))
    for i, ln in ids:
        for p in (2, 3, 4):
            for v in (0, 1, 0xFE, 255, i, ln):
                b = bytearray(bytes([0xFE, ln]) + rand_bytes(rng, 3) + bytes([i]))
                b[p] = v
                yield ('free', bytes(b))
    for _ in range(20000 if tier == 'quick' else 2000000):
        i, ln = rng.choice(ids)
        b = bytearray(bytes([0xFE, ln]) + rand_bytes(rng, 3) + bytes([i]))
        for _ in range(rng.randint(0, 2)):
            b[rng.randrange(6)] = rng.getrandbits(8)
        yield ('rnd', bytes(b))
