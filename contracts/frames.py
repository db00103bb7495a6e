"""MAVLink v1 frames for the concrete contract checks (independent of the code under test where possible)."""
import struct
from .common import *
from mavlink_utils import HC_dialect as dialect

MAP = dialect.mavlink_map
TABLE = dict(meta.msgs_payload_length)      # the recorded payload lengths (judged by C09)
SCALAR = [i for i in MAP if all(x == 0 for x in MAP[i].array_lengths)]   # messages without array fields
SIZES = {'uint64_t': 8, 'int64_t': 8, 'uint32_t': 4, 'int32_t': 4, 'float': 4, 'uint16_t': 2, 'int16_t': 2,
         'uint8_t': 1, 'int8_t': 1, 'char': 1}
FMT = {'uint64_t': 'Q', 'int64_t': 'q', 'uint32_t': 'I', 'int32_t': 'i', 'float': 'f', 'uint16_t': 'H', 'int16_t': 'h',
       'uint8_t': 'B', 'int8_t': 'b', 'char': 'c'}


def crc16(data):
    crc = 0xFFFF
    for b in data:
        t = b ^ (crc & 0xFF)
        t = (t ^ (t << 4)) & 0xFF
        crc = ((crc >> 8) ^ (t << 8) ^ (t << 3) ^ (t >> 4)) & 0xFFFF
    return crc


def frame(mid, payload, seq=0, sysid=1, comp=1):
    h = bytes([0xFE, len(payload), seq, sysid, comp, mid])
    return h + payload + struct.pack('<H', crc16(h[1:] + payload + bytes([MAP[mid].crc_extra])))


def wire_fields(mid):
    """[(name, type, array length)] in wire order"""
    cls = MAP[mid]
    return [(n, cls.fieldtypes[cls.fieldnames.index(n)], L) for n, L in zip(cls.ordered_fieldnames, cls.array_lengths)]


def rand_payload(rng, mid, n=None):
    n = TABLE[mid] if n is None else n
    if rng.random() < 0.5:
        return rand_bytes(rng, n)
    return bytes(rng.choice([0, 0, 1, 255, 0xFE, 7, rng.randrange(256)]) for _ in range(n))


def rand_frame(rng, mids=None, safe=False):
    """a frame with a valid checksum (safe: char fields hold ASCII)"""
    mid = rng.choice(mids or list(TABLE))
    p = rand_payload(rng, mid)
    if safe:
        p = bytes(b & 0x7F for b in p)
    return frame(mid, p, rng.randrange(256), rng.randrange(256), rng.randrange(256))


SMALL = sorted(TABLE, key=lambda i: TABLE[i])[:40]


def rand_buffer(rng, maxparts=6, mids=None, safe=False):
    out = b''
    for _ in range(rng.randrange(0, maxparts)):
        k = rng.random()
        small = mids or (SMALL if rng.random() < 0.6 else list(TABLE))
        if k < 0.4:
            out += rand_frame(rng, small, safe)
        elif k < 0.5:      # damaged frame
            f = bytearray(rand_frame(rng, small, safe))
            f[rng.randrange(len(f))] ^= 1 << rng.randrange(8)
            out += bytes(f)
        elif k < 0.6:      # truncated frame
            f = rand_frame(rng, small, safe)
            out += f[:rng.randrange(len(f))]
        elif k < 0.7:      # bare header (followed by whatever comes next)
            i = rng.choice(small)
            out += bytes([0xFE, TABLE[i], 1, 2, 3, i])
        elif k < 0.8:      # frame nested in the payload of another one (outer one valid or broken)
            inner = rand_frame(rng, SMALL, safe)
            big = [i for i in TABLE if TABLE[i] >= len(inner)]
            if big:
                o = rng.choice(big)
                pad = TABLE[o] - len(inner)
                a = rng.randrange(pad + 1)
                f = frame(o, rand_bytes(rng, a) + inner + rand_bytes(rng, pad - a))
                if rng.random() < 0.6:
                    f = f[:-1] + bytes([f[-1] ^ 0x55])
                out += f
        elif k < 0.9:
            out += bytes(rng.choice([0xFE, 0xFE, rng.randrange(256)]) for _ in range(rng.randrange(1, 9)))
        else:
            out += rand_bytes(rng, rng.randrange(1, 14))
    if rng.random() < 0.2:
        out = out[:-rng.randrange(1, 4)] if len(out) > 4 else out
    return out


class Parser:
    """protocol parser stand-ins; all refuse incomplete frames, as the dialect's parser does"""
    def __init__(self, kind):
        self.kind = kind
        self.calls = []

    def accepts(self, b):
        if len(b) < 8 or b[0] != 0xFE or len(b) != 8 + b[1]:
            return False
        if self.kind == 'real':
            return b[5] in MAP and struct.unpack('<H', b[-2:])[0] == crc16(b[1:-2] + bytes([MAP[b[5]].crc_extra]))
        if self.kind == 'all':
            return True
        if self.kind == 'none':
            return False
        return crc16(bytes([self.kind & 255]) + b) % 3 != 0

    def __call__(self, msgbuf):
        b = bytes(msgbuf)
        self.calls.append(b)
        if self.kind == 'real':
            return meta.protocol_parser(msgbuf)
        if not self.accepts(b):
            raise dialect.MAVError('refused')
        return object()


def valid_header(h):
    return len(h) == 6 and h[0] == 0xFE and h[5] in TABLE and TABLE[h[5]] == h[1]


def segment_spec(buffer, accepts):
    """leftmost-first list of (start, id, frame length)"""
    out, end = [], 0
    for i in range(len(buffer) - 7):
        if i < end:
            continue
        h = buffer[i:i + 6]
        if valid_header(h):
            n = 8 + h[1]
            if i + n <= len(buffer) and accepts(bytes(buffer[i:i + n])):
                out.append((i, h[5], n))
                end = i + n
    return out


def decoys(buffer):
    """buffers to segment before the one under test: same length, start or frames, different rest"""
    b = bytes(buffer)
    n = len(b)
    out = [b, b[:6] + bytes(max(n - 6, 0)), bytes(n), b[n // 2:] + b[:n // 2], b[1:] + b[:1]]
    out += [b[:k] + bytes([b[k] ^ 1]) + b[k + 1:] for k in sorted({n - 1, n // 2, n // 3}) if 0 <= k < n]
    i = b.find(b'\xfe', 1)
    if i > 0:
        out += [b[:i] + b'\0' + b[i + 1:], b[:i], b[i:]]
    return out
