"""C06 segmentation completeness and agreement of its views"""
import math
from .common import *
from .frames import *
from .c05 import shrink  # noqa: F401
from inference.buffer_segmentation import BufferSegmentation, BufferStructure


TRUSTED = ['the parser is a function of the bytes it is given', "the dialect's decoder on a complete frame returns a message of the class of its id with the header of the frame (C30)"]


def jobs(tier):
    from .seg import segment_job, views
    return [Job('segment_buffer', segment_job('C06')), Job('get_buffer_structure', views('structure', TABLE, wire_fields)),
            Job('get_msg_fields', views('fields', TABLE, wire_fields))]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


def check(case):
    k, buffer, kind = case
    p = Parser(kind)
    want = segment_spec(buffer, p.accepts)
    seg = BufferSegmentation(p)
    used = decoys(buffer)[1:] if len(buffer) % 2 else []      # an object that has segmented other buffers before
    for d in used:
        seg.segment_buffer(d)
    _, _, structure = seg.segment_buffer(buffer)
    if list(structure.items()) != [(s, m) for s, m, _ in want]:
        return f'segmentation reports {structure}, frames present: {want}'
    seg = BufferSegmentation(Parser(kind))
    for d in used:
        seg.get_buffer_structure(d)
    view = seg.get_buffer_structure(buffer)
    if not isinstance(view, BufferStructure) or dict(view.structure) != structure or len(view) != len(structure) \
            or view.reception_count != 0 or list(view.received_buffers):
        return f'structure view {view} differs from segmentation {structure}'
    if kind != 'real':
        return
    seg = BufferSegmentation(meta.protocol_parser)
    for d in used:
        try:
            seg.get_msg_fields(d)
        except UnicodeDecodeError:      # an altered text field
            pass
    fields, desc = seg.get_msg_fields(buffer)
    wd, wf = [], {}
    for s, m, n in want:
        cls = MAP[m]
        wd.append(bytes(buffer[s:s + 6]))
        pl = buffer[s + 6:s + n - 2]
        wire = wire_fields(m)
        scal = all(L == 0 for _, _, L in wire)
        off = 0
        for name, tp, L in wire:
            wd.append((f'{cls.name}_{name}', tp))
            v = None
            if scal and tp != 'char':
                v = struct.unpack_from('<' + FMT[tp], pl, off)[0]
            off += SIZES[tp]
            wf[f'{cls.name}_{name}'] = (v, tp)
        wd.append('crc')
    if list(desc) != wd:
        j = next((q for q in range(min(len(desc), len(wd))) if desc[q] != wd[q]), min(len(desc), len(wd)))
        return f'buffer description differs at item {j}: {desc[j:j + 2]} instead of {wd[j:j + 2]}'
    if set(fields) != set(wf):
        return f'field names {sorted(set(fields) ^ set(wf))[:4]} differ'
    for n, (v, tp) in wf.items():
        if fields[n][1] != tp:
            return f'field {n} has type {fields[n][1]}, expected {tp}'
        if v is not None and not same(fields[n][0], v):
            return f'field {n} has value {fields[n][0]}, the wire holds {v}'


def cases(rng, tier, part, nparts):
    for n in range(0, 12):
        yield ('short', b'\xfe' * n, 'all')
        yield ('short', rand_bytes(rng, n), 'real')
    for q, i in enumerate(TABLE):
        if q % nparts == part:
            f = frame(i, bytes(b & 0x7F for b in rand_bytes(rng, TABLE[i])), rng.randrange(256), rng.randrange(256), rng.randrange(256))
            yield ('single', f, 'real')
            yield ('single', b'\xfe\x01' + f + b'\xfe', 'real')
            g = rand_frame(rng, SMALL, True)
            yield ('pair', f + g, 'real')
            yield ('pair', g + f[:7] + g, 'real')
    while True:
        yield ('real', rand_buffer(rng, safe=True), 'real')
        yield ('fake', rand_buffer(rng), rng.choice(['all', 'none', rng.randrange(256), rng.randrange(256)]))
