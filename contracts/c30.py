"""C30 the dialect: frames packed, sent and decoded"""
import array
import ast
import struct
from .common import *
from .frames import crc16, SIZES, FMT, dialect
from .decv import G
from pyvc import models
from pyvc.values import slice_bounds

_o = sys.stdout
sys.stdout = io.StringIO()
try:
    from mavlink_utils import minimal_dialect as minimal
finally:
    sys.stdout = _o

DIALECTS = {'HC': dialect, 'minimal': minimal}
TRUSTED = ['pymavlink.x25crc is a function of the bytes accumulated (the X.25 checksum, compared with an independent implementation by the search)',
           'struct packs and unpacks single fields in the standard little-endian form',
           'text fields: to_string and MAVString are functions of the bytes of the field (compared by the search)']


def wire(cls):
    """[(name, type, array length)] in wire order"""
    return [(n, cls.fieldtypes[cls.fieldnames.index(n)], L) for n, L in zip(cls.ordered_fieldnames, cls.array_lengths)]


def fmt_of(t, L):
    return '<' + (f'{max(L, 1)}s' if t == 'char' else FMT[t] * max(L, 1))


def definition(D):
    """{id: (name, fields, fields in wire order, extra byte)} of the definition file"""
    import xml.etree.ElementTree as ET
    out = {}
    path = os.path.join(os.path.dirname(D.__file__), D.DIALECT + '.xml')
    for m in ET.parse(path).getroot().iter('message'):
        fields = []
        for f in m:
            if f.tag == 'extensions':
                break
            if f.tag == 'field':
                t, _, L = f.get('type').partition('[')
                fields.append((f.get('name'), 'uint8_t' if t == 'uint8_t_mavlink_version' else t, int(L[:-1]) if L else 0))
        order = sorted(fields, key=lambda f: -SIZES[f[1]])
        text = (m.get('name') + ' ').encode()
        for n, t, L in order:
            text += f'{t} {n} '.encode() + (bytes([L]) if L else b'')
        x = crc16(text)
        out[int(m.get('id'))] = m.get('name'), fields, order, (x & 255) ^ (x >> 8)
    return out


def definition_problem(D):
    defs = definition(D)
    if set(defs) != set(D.mavlink_map):
        return f'messages {sorted(set(defs) ^ set(D.mavlink_map))[:5]} are not in both'
    for k, (name, fields, order, extra) in defs.items():
        cls = D.mavlink_map[k]
        if cls.id != k or cls.name != name or getattr(D, 'MAVLINK_MSG_ID_' + name) != k:
            return f'message {k} is {cls.name} ({cls.id}) instead of {name}'
        if [(n, t, L) for n, t, L in wire(cls)] != order or sorted(cls.fieldnames) != sorted(f[0] for f in fields):
            return f'layout of message {k} ({name})'
        if list(cls.fieldnames) != [f[0] for f in fields] or list(cls.fieldtypes) != [f[1] for f in fields]:
            return f'fields of message {k} ({name})'
        fmt = '<' + ''.join(('%ds' % L if t == 'char' else '%d%s' % (L, FMT[t])) if L else FMT[t] for _, t, L in order)
        if cls.unpacker.format != fmt or cls.format != fmt:
            return f'format {cls.unpacker.format} of message {k} ({name}) instead of {fmt}'
        if cls.crc_extra != extra:
            return f'extra byte of message {k} ({name}) is {cls.crc_extra} instead of {extra}'
        if [cls.ordered_fieldnames[i] for i in cls.orders] != list(cls.fieldnames):
            return f'order of message {k} ({name})'
    return None


# ------------------------------------------------------------------------------------------------ proofs
class Buf(G):
    """a byte array; its content is a (symbolic) byte string"""
    kinds = (array.array, bytearray, object)

    def __init__(self, b):
        self.b = b

    def _pyvc_bytes(self):
        return self.b

    def _pyvc_len(self, it):
        return self.b.length

    def _pyvc_isnone(self):
        return False

    def _pyvc_getitem(self, it, k):
        return Buf(self.b.slice(k)) if isinstance(k, slice) else self.b.getitem(k)

    def m_append(self, it, v):
        b, n = self.b.fn, self.b.length
        self.b = SBytes(n + 1, lambda i: ite(veq(i, n), v, b(i)))

    def m_extend(self, it, v):
        b, n = self.b.fn, self.b.length
        m, f = content(v)
        self.b = SBytes(n + m, lambda i: ite(i < n, b(i), f(i - n)))

    def m_tobytes(self, it):
        return self.b

    def _pyvc_binop(self, it, op, other, rev):
        if not isinstance(op, ast.Add):
            raise Unsupported('operation on a byte array')
        (n, f), (m, g) = (content(other), content(self)) if rev else (content(self), content(other))
        return Buf(SBytes(n + m, lambda i: ite(i < n, f(i), g(i - n))))

    def _pyvc_iter(self, it):
        return None

    def _pyvc_symiter(self, it):
        raise Unsupported('iteration over a byte array')


def content(v):
    """(length, element function) of a sequence of bytes"""
    if isinstance(v, Buf):
        v = v.b
    if isinstance(v, SBytes):
        return v.length, v.fn
    if isinstance(v, SList):
        return v.length(), v.elem
    if isinstance(v, (bytes, bytearray, list, tuple)):
        v = list(v)
        return len(v), lambda i: v[i] if not isS(i) else models._sel(v, i)
    raise Unsupported('content of ' + type(v).__name__)


class Crc(G):
    """a checksum in progress"""
    def __init__(self, W, v=None):
        self.W, self.parts = W, []
        W.crcs.append(self)
        self.val = None
        if v is not None:
            self.m_accumulate(None, v)

    def m_accumulate(self, it, v):
        if self.val is not None:
            raise Unsupported('checksum continued after it was read')
        self.parts.append(content(v))

    m_accumulate_str = m_accumulate

    def a_crc(self):
        if self.val is None:
            self.val = sym(self.W.c, 'crc', lo=0, hi=65535)
        return self.val

    def agrees(self, n, f):
        """over exactly the bytes f(0), ..., f(n - 1)"""
        i = self.W.c.fresh('i_crc', 'int')
        tot, conds = 0, []
        for m, g in self.parts:
            lo = tot
            conds.append(Implies(And(i >= lo, i < lo + m), veq(g(norm_int(i - lo)), f(i))))
            tot = tot + m
        return And(veq(tot, n), *conds)


class Text(G):
    kinds = (str, object)

    def __init__(self, b, stage):
        self.b, self.stage = b, stage

    def _pyvc_isnone(self):
        return False


class World:
    def __init__(self, c, mkit, D):
        self.c, self.crcs, self.D = c, [], D

        def to_string(it, args, kw):
            b, = args
            if not isinstance(b, SBytes):
                raise Unsupported('text')
            it.assumed.add(TRUSTED[2])
            return Text(b, 1)

        def terminate(it, args, kw):
            t, = args
            if not isinstance(t, Text) or t.stage != 1:
                raise Unsupported('text')
            return Text(t.b, 2)

        def to_str(it, args, kw):
            if args and isinstance(args[0], Text):
                t = args[0]
                return Text(t.b, 3 if t.stage == 2 else t.stage)
            return models.M[str](it, args, kw) if str in models.M else it.native(str, args, kw)

        def crc(it, args, kw):
            it.assumed.add(TRUSTED[0])
            return Crc(self, *args, **kw)
        def byte_array(it, args, kw):
            if kw or not args or args[0] != 'B':
                raise Unsupported('byte array')
            return Buf(SBytes(*content(args[1])) if len(args) > 1 else SBytes(0, lambda i: 0))

        def to_bytes(kind):
            def f(it, args, kw):
                if len(args) == 1 and isinstance(args[0], Buf):
                    return args[0].b if kind is bytes else Buf(args[0].b)
                h = models.M.get(kind)
                return h(it, args, kw) if h else it.native(kind, args, kw)
            return f
        self.it = mkit(contracts={array.array: byte_array, bytes: to_bytes(bytes), bytearray: to_bytes(bytearray),
                                  D.to_string: to_string, D.MAVString: terminate, str: to_str, D.x25crc: crc})


def tail(b):
    return b.fn(b.length - 2) + 256 * b.fn(b.length - 1)


def decode_job(D, ids):
    def body(c, mkit):
        k = ids[c.choose(len(ids))] if ids else None
        cls = D.mavlink_map.get(k)
        W = World(c, mkit, D)
        it = W.it
        base = SBytes.fresh('frame')
        n = base.length
        fn = base.fn
        b = SBytes(n, lambda i: fn(i) if isS(i) else 0xFE if i == 0 else k if i == 5 and ids else fn(i))
        c.assume(And(veq(fn(0), 0xFE), n >= 6))
        c.assume(veq(fn(5), k) if ids else And(*[Not(veq(fn(5), i)) for i in D.mavlink_map]))
        buf = Buf(b)
        mav = D.MAVLink(None)
        before = dict(vars(mav)), dict(vars(mav.signing))
        kind, m = outcome(it, D.MAVLink.decode, [mav, buf])
        length_ok = veq(n, fn(1) + 8)
        crcs = [x for x in W.crcs if x.val is not None]
        extra = cls.crc_extra if cls else 0

        def covered():
            """the checksum computed is that of the frame (without marker and checksum) and the extra byte of the message"""
            x = crcs[-1]
            return x.agrees(n - 2, lambda i: ite(i < n - 3, fn(i + 1), extra))
        if kind == 'exc':
            c.prove(f'decode {k}: a frame that is not intact is refused with MAVError', isinstance(m, D.MAVError), kind='exc')
            if cls is None:
                return
            if not crcs:
                c.prove(f'decode {k}: only frames of the wrong length are refused before the checksum', Not(length_ok))
                return
            c.prove(f'decode {k}: checksum of the frame', Implies(length_ok, covered()))
            c.prove(f'decode {k}: only damaged frames are refused', Not(And(length_ok, veq(tail(base), crcs[-1].val))))
            return
        c.prove(f'decode {k}: the message is known', cls is not None)
        c.prove(f'decode {k}: the length of an accepted frame is right', length_ok)
        if not crcs:
            c.prove(f'decode {k}: accepted without a checksum', False)
            return
        c.prove(f'decode {k}: checksum of the frame', covered())
        c.prove(f'decode {k}: the checksum of an accepted frame is right', veq(tail(base), crcs[-1].val))
        if cls is None:
            return
        c.prove(f'decode {k}: class of the message', type(m) is cls)
        if type(m) is not cls:
            return
        c.prove(f'decode {k}: the decoder is unchanged', all(same_dict(a, vars(o)) for a, o in zip(before, (mav, mav.signing))), kind='frame')
        pad = lambda j: ite(j < n - 8, fn(6 + j), 0)
        off = 0
        for name, t, L in wire(cls):
            fields, size = models.fmt_fields(fmt_of(t, L))
            want = [models.decode_field(lambda j, o=off: pad(j + o), ch, sz, o2) for ch, sz, o2 in fields]
            got = getattr(m, name, None)
            if t == 'char':
                ok = isinstance(got, Text) and got.stage == 3
                c.prove(f'decode {k}: field {name} is a terminated text', ok)
                if ok:
                    same = And(veq(got.b.length, size), *[veq(got.b.fn(j), want[0].fn(j)) for j in range(size)])
                    c.prove(f'decode {k}: text of field {name}', same)
            else:
                got = list(got) if L and isinstance(got, (list, tuple)) else got if L else [got]
                ok = isinstance(got, list) and len(got) == len(want) and all(g is not None for g in got)
                c.prove(f'decode {k}: field {name}', And(*[veq(g, w) for g, w in zip(got, want)]) if ok else False)
            off += size
        h = m._header
        for a, w in dict(mlen=fn(1), seq=fn(2), srcSystem=fn(3), srcComponent=fn(4), msgId=k, incompat_flags=0, compat_flags=0).items():
            c.prove(f'decode {k}: header {a}', veq(getattr(h, a), w))
        c.prove(f'decode {k}: checksum kept', veq(m._crc, tail(base)))
        c.prove(f'decode {k}: not signed', m._signed is False)
        pn, pf = content(m._payload)
        c.prove(f'decode {k}: length of the payload kept', veq(pn, n - 8))
        forall(c, f'decode {k}: payload kept', n - 8, lambda i: veq(pf(i), fn(6 + i)))
        mb, mf = content(m._msgbuf)
        c.prove(f'decode {k}: frame kept', veq(mb, n))
        forall(c, f'decode {k}: bytes of the frame kept', n, lambda i: veq(mf(i), fn(i)), kind='frame')
    return body


def same_dict(a, b):
    return set(a) == set(b) and all(a[k] is b[k] or a[k] == b[k] for k in a)


def short_job(D):
    """buffers that hold no complete header, and buffers with a wrong marker"""
    def body(c, mkit):
        W = World(c, mkit, D)
        base = SBytes.fresh('frame')
        n, fn = base.length, base.fn
        if c.choose(2):
            c.assume(And(n >= 1, n < 6, veq(fn(0), 0xFE)))
        else:
            c.assume(And(n >= 1, Not(veq(fn(0), 0xFE)), Not(veq(fn(0), 0xFD))))
        kind, m = outcome(W.it, D.MAVLink.decode, [D.MAVLink(None), Buf(base)])
        c.prove('decode: no message in a header cut short or behind a wrong marker', kind == 'exc' and isinstance(m, D.MAVError),
                kind='exc' if kind == 'exc' else 'post')
    return body


RANGE = {'uint64_t': (0, 2 ** 64 - 1), 'int64_t': (-2 ** 63, 2 ** 63 - 1), 'uint32_t': (0, 2 ** 32 - 1), 'int32_t': (-2 ** 31, 2 ** 31 - 1),
         'uint16_t': (0, 65535), 'int16_t': (-32768, 32767), 'uint8_t': (0, 255), 'int8_t': (-128, 127)}


class File(G):
    def __init__(self):
        self.written = []

    def m_write(self, it, b):
        self.written.append(b)
        return None

    def _pyvc_isnone(self):
        return False


def send_job(D, ids):
    def body(c, mkit):
        k = ids[c.choose(len(ids))]
        cls = D.mavlink_map[k]
        W = World(c, mkit, D)
        vals = {}
        for name, t, L in wire(cls):
            if t == 'char':
                vals[name] = SBytes.fresh(name, maxlen=300)
            elif t == 'float':
                x = [sym(c, f'{name}{j}', 'real') for j in range(max(L, 1))]
                vals[name] = x if L else x[0]
            else:
                x = [sym(c, f'{name}{j}', lo=RANGE[t][0], hi=RANGE[t][1]) for j in range(max(L, 1))]
                vals[name] = x if L else x[0]
        file = File()
        mav = D.MAVLink(file)
        mav.seq, mav.srcSystem, mav.srcComponent = seq, s, q = [sym(c, x, lo=0, hi=255) for x in ('seq', 'system', 'component')]
        mav.total_packets_sent, mav.total_bytes_sent = p0, b0 = sym(c, 'packets', lo=0), sym(c, 'bytes', lo=0)
        before = dict(vars(mav))
        returns(c, W.it, getattr(D.MAVLink, cls.name.lower() + '_send'), [mav] + [vals[n] for n in cls.fieldnames])
        c.prove(f'send {k}: one frame is written', len(file.written) == 1)
        if len(file.written) != 1:
            return
        size = sum(SIZES[t] * max(L, 1) for _, t, L in wire(cls))
        n, f = content(file.written[0])
        want = [0xFE, size, seq, s, q, k]
        for name, t, L in wire(cls):
            v = vals[name]
            if t == 'char':
                want += [ite(j < v.length, v.fn(j), 0) for j in range(L)]
            else:
                x = models.s_pack(W.it, [fmt_of(t, L)] + (v if L else [v]), {})
                want += [x.fn(j) for j in range(SIZES[t] * max(L, 1))]
        c.prove(f'send {k}: length of the frame', veq(n, size + 8))
        for j, w in enumerate(want):
            c.prove(f'send {k}: byte of the frame ({"header" if j < 6 else "payload"})', veq(f(j), w))
        crcs = [x for x in W.crcs if x.val is not None]
        c.prove(f'send {k}: the frame has a checksum', len(crcs) >= 1)
        if crcs:
            c.prove(f'send {k}: checksum over header, payload and the extra byte',
                    crcs[-1].agrees(size + 6, lambda i: models._sel(want[1:] + [cls.crc_extra], i)))
            c.prove(f'send {k}: checksum in the frame', veq(f(size + 6) + 256 * f(size + 7), crcs[-1].val))
        c.prove(f'send {k}: sequence number', veq(mav.seq, (seq + 1) % 256))
        c.prove(f'send {k}: counters', And(veq(mav.total_packets_sent, p0 + 1), veq(mav.total_bytes_sent, b0 + size + 8)))
        rest = {x: v for x, v in vars(mav).items() if x not in ('seq', 'total_packets_sent', 'total_bytes_sent')}
        c.prove(f'send {k}: nothing else changes', all(x in before and before[x] is v for x, v in rest.items()), kind='frame')
    return body


def definitions(c, mkit):
    for D in DIALECTS.values():
        p = definition_problem(D)
        c.prove(f'{D.DIALECT}: every message is the one of the definition file {p or ""}'.strip(), p is None, kind='lemma')


def chunks(x, n):
    return [x[i::n] for i in range(n) if x[i::n]]


def jobs(tier):
    out = [Job('definitions', definitions)]
    for name, D in DIALECTS.items():
        ids = sorted(D.mavlink_map)
        out.append(Job(f'{name}: refused', short_job(D)))
        out.append(Job(f'{name}: decode, unknown message', decode_job(D, None)))
        for i, x in enumerate(chunks(ids, 8)):
            out.append(Job(f'{name}: decode {i}', decode_job(D, x), budget=300))
            out.append(Job(f'{name}: send {i}', send_job(D, x), budget=300))
    return out


# ------------------------------------------------------------------------------------------------ search
def build(D, k, payload, seq, s, q):
    h = bytes([0xFE, len(payload), seq, s, q, k])
    return h + payload + struct.pack('<H', crc16(h[1:] + payload + bytes([definition(D)[k][3]])))


_defs = {}
_definition = definition


def definition(D):      # noqa: F811  (read once per run)
    if D not in _defs:
        _defs[D] = _definition(D)
    return _defs[D]


def fields_of(D, k, payload):
    """{name: value} of a payload (cut or zero-filled)"""
    _, _, order, _ = definition(D)[k]
    size = sum(SIZES[t] * max(L, 1) for _, t, L in order)
    payload = (payload + bytes(size))[:size]
    out, off = {}, 0
    for n, t, L in order:
        if t == 'char':
            out[n] = payload[off:off + max(L, 1)]
        else:
            x = struct.unpack_from('<%d%s' % (max(L, 1), FMT[t]), payload, off)
            out[n] = x if L else x[0]
        off += SIZES[t] * max(L, 1)
    return out


def same_value(a, b):
    if isinstance(b, tuple):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(b, float):
        return isinstance(a, float) and struct.pack('<d', a) == struct.pack('<d', b)
    return type(a) in (int, float) and a == b


def text_of(b):
    """the text of a field, None where it is not text"""
    try:
        return b.decode('utf-8').partition('\0')[0]
    except UnicodeDecodeError:
        return None


def check_decoded(D, raw, m):
    k, payload = raw[5], raw[6:-2]
    name, fields, order, extra = definition(D)[k]
    if type(m) is not D.mavlink_map[k] or m.get_type() != name or m.get_msgId() != k:
        return f'message {k} decoded as {type(m).__name__}'
    want = fields_of(D, k, payload)
    if list(m.get_fieldnames()) != [f[0] for f in fields]:
        return f'field names of message {k}: {m.get_fieldnames()}'
    for n, t, L in fields:
        got = getattr(m, n)
        if t == 'char':
            w = text_of(want[n])
            if w is not None and (got != w or not isinstance(got, str)):
                return f'field {n} of message {k} ({name}) is {got!r}, the frame holds {want[n]!r}'
        elif not same_value(got, want[n]):
            return f'field {n} of message {k} ({name}) is {got!r}, the frame holds {want[n]!r}'
    if (m.get_header().mlen, m.get_seq(), m.get_srcSystem(), m.get_srcComponent()) != tuple(raw[1:5]):
        return f'header of message {k}'
    if bytes(m.get_payload()) != payload or bytes(m.get_msgbuf()) != raw or m.get_crc() != raw[-2] + 256 * raw[-1] or m.get_signed():
        return f'payload, frame or checksum kept with message {k}'


def decode_one(D, mav, raw):
    buf = array.array('B', raw)
    try:
        m = mav.decode(buf)
    except D.MAVError:
        m = None
    if bytes(buf) != raw:
        return None, 'the buffer given to the decoder was changed'
    return m, None


class Sink:
    def __init__(self):
        self.out = []

    def write(self, b):
        self.out.append(bytes(b))


def check(case):
    D = DIALECTS[case[1]]
    if case[0] == 'definitions':
        return definition_problem(D)
    if case[0] == 'frames':      # one decoder, several buffers
        mav = D.MAVLink(None)
        defs = definition(D)
        for raw in case[2]:
            intact = len(raw) >= 8 and raw[0] == 0xFE and len(raw) == 8 + raw[1] and raw[5] in defs \
                and raw[-2] + 256 * raw[-1] == crc16(raw[1:-2] + bytes([defs[raw[5]][3]]))
            m, p = decode_one(D, mav, raw)
            if p:
                return p
            if (m is not None) != intact:
                return f'{"intact" if intact else "damaged"} frame {raw[:12].hex()}... ({len(raw)} bytes) {"refused" if intact else "accepted"}'
            if m is not None:
                p = check_decoded(D, raw, m)
                if p:
                    return p
        return
    _, _, seq, s, q, msgs = case      # sent one after the other through one connection, then received
    sink = Sink()
    mav = D.MAVLink(sink, s, q)
    mav.seq = seq
    rx = D.MAVLink(None)
    total = 0
    for j, (k, payload) in enumerate(msgs):
        name, fields, order, extra = definition(D)[k]
        size = sum(SIZES[t] * max(L, 1) for _, t, L in order)
        vals = fields_of(D, k, payload)
        want = build(D, k, pack_fields(order, vals), (seq + j) % 256, s, q)
        args = [vals[f[0]] for f in fields]
        if j % 2:
            m = getattr(mav, name.lower() + '_encode')(*args)
            if type(m) is not D.mavlink_map[k] or any(getattr(m, f[0]) is not vals[f[0]] for f in fields):
                return f'{name.lower()}_encode mixes up its arguments'
            mav.send(m)
        else:
            getattr(mav, name.lower() + '_send')(*args)
        total += size + 8
        if len(sink.out) != j + 1 or sink.out[-1] != want:
            return f'message {k} ({name}) was sent as {sink.out[-1].hex() if sink.out else None}, expected {want.hex()}'
        if mav.seq != (seq + j + 1) % 256 or mav.total_packets_sent != j + 1 or mav.total_bytes_sent != total:
            return f'counters after message {k}: {mav.seq}, {mav.total_packets_sent}, {mav.total_bytes_sent}'
        m, p = decode_one(D, rx, want)
        p = p or (f'the frame of message {k} ({name}) is refused' if m is None else check_decoded(D, want, m))
        if p:
            return p


def pack_fields(order, vals):
    return b''.join(struct.pack('%ds' % max(L, 1), vals[n]) if t == 'char'
                    else struct.pack('<%d%s' % (max(L, 1), FMT[t]), *(vals[n] if L else [vals[n]])) for n, t, L in order)


def rand_pl(rng, D, k):
    """random payload; floats and text mostly ordinary"""
    out = b''
    for n, t, L in definition(D)[k][2]:
        for _ in range(max(L, 1)):
            x = rand_bytes(rng, SIZES[t])
            y = rng.random()
            if t == 'float' and y < 0.8:
                x = struct.pack('<f', rng.choice([0.0, -0.0, 1.0, rng.uniform(-1e6, 1e6), rng.gauss(0, 1), float('inf')]))
            elif t == 'char' and y < 0.95:
                x = bytes([rng.choice([0, 65, 66, 122, 48, rng.randrange(32, 127)])])
            elif y < 0.3:
                x = rng.choice([bytes(SIZES[t]), b'\xff' * SIZES[t], b'\xff' * (SIZES[t] - 1) + b'\x7f', bytes(SIZES[t] - 1) + b'\x80'])
            out += x
    return out


def damage(rng, D, f):
    f = bytearray(f)
    k = rng.random()
    if k < 0.4:
        j = rng.randrange(1, len(f)) if rng.random() < 0.6 else rng.choice([0, 1, 5, len(f) - 1, len(f) - 2])
        f[j] ^= 1 << rng.randrange(8)
    elif k < 0.55:
        f = f[:rng.randrange(1, len(f))]
    elif k < 0.65:
        f += rand_bytes(rng, rng.randrange(1, 4))
    elif k < 0.75:      # checksum bytes exchanged
        f[-1], f[-2] = f[-2], f[-1]
    elif k < 0.85:      # checksum without (or with another) extra byte
        f[-2:] = struct.pack('<H', crc16(bytes(f[1:-2]) + rng.choice([b'', b'\0', rand_bytes(rng, 1)])))
    elif k < 0.95:      # unknown or other id under a checksum of the old one
        f[5] = rng.randrange(256)
        f[-2:] = struct.pack('<H', crc16(bytes(f[1:-2]) + rng.choice([b'', bytes([rng.randrange(256)])])))
    else:
        f = bytearray(rand_bytes(rng, rng.randrange(1, 20)))
    if f[0] == 0xFD:
        f[0] = 0xFC
    return bytes(f)


def rand_frames(rng, name, ids, n):
    D = DIALECTS[name]
    out = []
    for _ in range(n):
        k = rng.choice(ids)
        p = rand_pl(rng, D, k)
        if rng.random() < 0.3:
            p = p[:rng.randrange(len(p) + 1)] if rng.random() < 0.6 else (p + rand_bytes(rng, rng.randrange(1, 5)))[:255]
        f = build(D, k, p, rng.randrange(256), rng.randrange(256), rng.randrange(256))
        if rng.random() < 0.5:
            out.append(damage(rng, D, f))
        out.append(f)
        if rng.random() < 0.2:
            out.append(f)
    return out


def cases(rng, tier, part, nparts):
    for name in DIALECTS:
        yield ('definitions', name)
    for name, D in DIALECTS.items():
        for j, k in enumerate(sorted(definition(D))):
            if j % nparts == part:
                a, b = rand_pl(rng, D, k), rand_pl(rng, D, k)
                yield ('send', name, rng.choice([0, 254, 255, rng.randrange(256)]), rng.randrange(256), rng.randrange(256), [(k, a), (k, b), (k, a)])
                yield ('frames', name, rand_frames(rng, name, [k], 4))
    while True:
        name = 'HC' if rng.random() < 0.85 else 'minimal'
        D = DIALECTS[name]
        ids = sorted(definition(D))
        if rng.random() < 0.5:
            yield ('send', name, rng.choice([0, 254, 255, rng.randrange(256)]), rng.randrange(256), rng.randrange(256),
                   [(k, rand_pl(rng, D, k)) for k in (rng.choice(ids) for _ in range(rng.randrange(1, 5)))])
        else:
            yield ('frames', name, rand_frames(rng, name, ids, rng.randrange(1, 5)))


def shrink(case):
    if case[0] in ('send', 'frames'):
        x = case[-1]
        for i in range(len(x)):
            if len(x) > 1:
                yield case[:-1] + (x[:i] + x[i + 1:],)
