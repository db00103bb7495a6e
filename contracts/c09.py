"""C09 metadata against the dialect: complete enumeration of the (finite) dialect"""
from .common import *
from .frames import MAP, SIZES, FMT, wire_fields
from mavlink_utils import HC_dialect as dialect

IDS = sorted(MAP)
SEARCH_S = 10


def wire_len(mid):
    return sum(SIZES[t] * (L or 1) for _, t, L in wire_fields(mid))


def pack_one(mid):
    """the frame the dialect itself packs for an all-default message"""
    import inspect
    cls = MAP[mid]
    args = []
    for n, t in zip(cls.fieldnames, cls.fieldtypes):
        L = cls.array_lengths[cls.ordered_fieldnames.index(n)]
        if t == 'char':
            args.append(b'a' * (L or 1))
        else:
            args.append([1] * L if L else 1)
    return cls(*args).pack(dialect.MAVLink(None))


def meta_problems(mid, length=True):
    m = meta
    if length:
        if m.msgs_payload_length.get(mid) != wire_len(mid):
            return f'recorded payload length of message {mid} ({MAP[mid].name}) is {m.msgs_payload_length.get(mid)}, ' \
                   f'the dialect packs {wire_len(mid)} bytes'
        return None
    want = [(n, t) for n, t, _ in wire_fields(mid)]
    if m.msgs_fields.get(mid) != want:
        return f'recorded fields of message {mid}: {m.msgs_fields.get(mid)}, dialect: {want}'
    f = pack_one(mid)
    if len(f) != wire_len(mid) + m.protocol_overhead or f[0] != m.stx or f[1] != wire_len(mid) or f[5] != mid:
        return f'packed frame of message {mid} has {len(f)} bytes'
    if m.header_len != 6 or m.crc_len != 2 or m.protocol_overhead != 8:
        return f'header/crc/overhead lengths {m.header_len}, {m.crc_len}, {m.protocol_overhead}'


def known():
    """(key, still fails, text) of every message with a wrong recorded length"""
    out = []
    for i in IDS:
        p = meta_problems(i, True)
        # listed: array fields counted once each (the exact wrong value is part of the finding)
        key = f'msg {i}: {meta.msgs_payload_length.get(i)} instead of {wire_len(i)}'
        out.append((key, p is not None, p))
    return out


def check(case):
    if case[0] == 'table':
        if sorted(meta.msgs_payload_length) != IDS or sorted(meta.msgs_fields) != IDS or sorted(meta.msg_ids) != IDS:
            return 'the metadata does not cover exactly the messages of the dialect'
        if dict(meta.field_lengths) != SIZES:
            return f'field lengths {meta.field_lengths}'
        import protocol_meta as pm
        for t in SIZES:
            if pm.format_strings.get(t) != '<' + FMT[t] or pm.inv_format_strings.get(FMT[t]) != t or pm.field_lengths.get(t) != SIZES[t]:
                return f'format of type {t}'
        return
    if case[0] == 'known':
        mid = int(case[1].split()[1].rstrip(':'))
        return meta_problems(mid, True)
    return meta_problems(case[1], False)


def cases(rng, tier, part, nparts):
    yield ('table',)
    for i in IDS:
        yield ('msg', i)


def jobs(tier):
    import json, os
    kf = {k['key'] for k in json.load(open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')))['known']
          if k['property'] == 'C09'} if os.path.exists(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')) else set()
    C = type(meta)
    init = C.__init__

    def body(c, mkit):
        """the constructor, interpreted from its source on the dialect's tables: the two tables come out as specified for
        every message id of the dialect (a finite, complete case distinction)"""
        from protocol_meta import protocol_meta as pm
        it = mkit()
        o = object.__new__(C)
        returns(c, it, init, [o, pm.STX, pm.header_length, pm.crc_length, list(pm.msg_ids), dict(pm.field_lengths), None])
        c.prove('overhead is header plus checksum', And(veq(o.protocol_overhead, 8), veq(o.header_len, 6), veq(o.crc_len, 2), veq(o.stx, 0xFE)))
        c.prove('the tables cover exactly the dialect', sorted(o.msgs_payload_length) == IDS and sorted(o.msgs_fields) == IDS
                and sorted(o.msg_ids) == IDS)
        for i in IDS:
            c.prove('field list: every field once, in wire order, with its own type',
                    [tuple(x) for x in o.msgs_fields[i]] == [(n, t) for n, t, _ in wire_fields(i)])
            got = o.msgs_payload_length[i]
            if f'msg {i}: {got} instead of {wire_len(i)}' in kf:
                continue      # known finding, reported separately
            c.prove('recorded payload length equals the wire length', got == wire_len(i))
    return [Job('metadata construction over the whole dialect', body, max_paths=10)]
