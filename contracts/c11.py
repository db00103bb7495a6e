"""C11 bits, fields and values stay aligned"""
import math
from .common import *
from .frames import *
from inference.statistical_models import BufferModel

OK = [i for i in SCALAR if TABLE[i] == sum(SIZES[t] for _, t, _ in wire_fields(i))]
OKSMALL = sorted(OK, key=lambda i: TABLE[i])[:30]
ASSUMPTIONS = ['Messages with array fields are outside the property (unpack_structure cannot describe them).']


def layout(structure):
    """[(name, type, first bit, last bit + 1)] in wire order"""
    out = []
    for s, m in structure.items():
        nm = MAP[m].name
        for k, n in enumerate(['magic', f'{nm}_mlen', 'seq', 'srcSystem', f'{nm}_srcComponent', f'{nm}_msgId']):
            out.append((n, 'uint8_t', 8 * (s + k), 8 * (s + k) + 8))
        p = 8 * (s + 6)
        for n, t, _ in wire_fields(m):
            out.append((f'{nm}_{n}', t, p, p + 8 * SIZES[t]))
            p += 8 * SIZES[t]
    return out


def values(buffer, structure):
    return [struct.unpack_from('<' + FMT[t], buffer, a // 8)[0] for _, t, a, _ in layout(structure)]


def to_bits(b, dtype=np.int_):
    return np.array([(x >> (7 - i)) & 1 for x in b for i in range(8)], dtype=dtype)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


HEAD = ['magic', '{}_mlen', 'seq', 'srcSystem', '{}_srcComponent', '{}_msgId']


def block_of(m):
    """spec: [(name, type, first byte, length)] of one message, in wire order"""
    nm = MAP[m].name
    out = [(n.format(nm), 'uint8_t', k, 1) for k, n in enumerate(HEAD)]
    p = 6
    for n, t, _ in wire_fields(m):
        out.append((f'{nm}_{n}', t, p, SIZES[t]))
        p += SIZES[t]
    return out


def jobs(tier):
    from pyvc.loops import LoopContract, NoRole
    from pyvc.models import SymTuple, decode_field
    from pyvc.values import SChoice, choice_term
    from .sm import returned_names, structure_contracts
    out = []

    class Gs:
        """an arbitrary structure: n messages, message k at byte P(k), of length L(k) (payload), with NF(k) fields before it"""
        def __init__(self, c, ids):
            self.c, self.ids = c, ids
            self.n = c.fresh('messages', 'int')
            c.assume(self.n >= 0)
            self.Pf, self.Lf, self.NFf = [c.fresh_fn(x, 'int', 'int') for x in ('pos', 'len', 'nf')]
            self.chosen = {}
            self.ln = c.fresh('nbytes', 'int')
            c.assume(self.ln >= 0)
            self.struct = SStruct(self.n, self.P, self.ident)

        def P(self, k):
            t = self.Pf(term(k))
            self.c.axiom(('P', t.sexpr()), z3.Implies(z3.And(term(k) >= 0, term(k) < self.n.t),
                                                      z3.And(t >= 0, t + 6 + self.Lf(term(k)) <= self.ln.t)))
            return mk(t)

        def L(self, k):
            t = self.Lf(term(k))
            self.c.axiom(('L', t.sexpr()), t >= 0)
            return mk(t)

        def NF(self, k):
            t = self.NFf(term(k))
            self.c.axiom(('NF', t.sexpr()), t >= 0)
            self.c.axiom(('NF0',), self.NFf(z3.IntVal(0)) == 0)
            return mk(t)

        def ident(self, k):
            """the id of message k: one of the dialect's (all are explored)"""
            c = self.c
            key = z3.simplify(term(k)).sexpr()
            if key not in self.chosen:
                if c.spec:
                    raise Unsupported('message id inside a speculative step')
                m = self.ids[c.choose(len(self.ids))]
                self.chosen[key] = m
                c.assume(mk(self.Lf(term(k)) == TABLE[m]))
                c.assume(mk(self.NFf(term(k) + 1) == self.NFf(term(k)) + len(block_of(m))))
            return self.chosen[key]

        def disjoint(self, a, b):
            """messages do not overlap"""
            self.c.assume(Or(veq(a, b), self.P(a) + 6 + self.L(a) <= self.P(b), self.P(b) + 6 + self.L(b) <= self.P(a)))

        def inside(self, i, k):
            return And(i >= 8 * self.P(k), i < 8 * (self.P(k) + 6 + self.L(k)))

    def fidx(m, off):
        """index, within message m, of the field that contains bit off"""
        blk = block_of(m)
        r = len(blk) - 1
        for q in range(len(blk) - 2, -1, -1):
            _, _, p, ln = blk[q]
            r = ite(off < 8 * (p + ln), q, r)
        return r

    class Unpack(LoopContract):
        """before message k: field_idx = NF(k); names and types hold the NF(k) entries of the messages so far; for an
        arbitrary message J and bit I inside it, once J was handled the map holds J's field index at I; an arbitrary bit O
        outside all messages is still -1"""
        name = 'structure of the messages so far'

        def __init__(self, G, J, I, VJ, O, bitwise):
            self.G, self.J, self.I, self.VJ, self.O, self.bitwise = G, J, I, VJ, O, bitwise
            self.roles = returned_names(BufferModel.unpack_structure)

        def match(self, it, s, fr, si):
            return fr.name.split('.')[-1] == 'unpack_structure' and si is not None and si.src is self.G.struct

        def enter(self, c, L):
            if self.roles is None or len(self.roles) != 3:
                raise NoRole('three returned names')
            self.arr = L.fr.locals.get(self.roles[0])
            if self.bitwise and not (isinstance(self.arr, SArr) and self.arr.ndim == 1):
                raise NoRole('bit map')
            if self.bitwise:
                L.cover(self.arr)
            for r in self.roles[1:]:
                if L.get(r) != []:
                    raise NoRole('lists start empty')
            ctr = [n for n in L.names if n not in self.roles and type(L.get(n)) is int]
            self.ctr = ctr[0] if len(ctr) == 1 else None
            if len(ctr) > 1:
                raise NoRole('one running index')

        def lists(self, k):
            G = self.G
            return [SList([('opaque', f'{w}{k}', G.NF(k), lambda i, F=F: SChoice(F(term(i))))])
                    for w, F in (('names', self.Nm), ('types', self.Tp))]

        def havoc(self, c, L, k):
            G = self.G
            self.Nm, self.Tp = c.fresh_fn('nm', 'int', 'int'), c.fresh_fn('tp', 'int', 'int')
            self.A = c.fresh_fn('map', 'int', 'int')
            if self.bitwise:
                self.arr.cell.fn = lambda idx: mk(self.A(term(idx[0])))
                c.assume(Implies(self.J < k, veq(mk(self.A(self.I.t)), self.VJ)))
                c.assume(veq(mk(self.A(self.O.t)), -1))
            for r, l in zip(self.roles[1:], self.lists(k)):
                L.set(r, l)
            if self.ctr is not None:
                L.set(self.ctr, G.NF(k) if self.bitwise else 0)

        def body_start(self, c, L, k):
            G = self.G
            m = G.ident(k)
            G.disjoint(self.J, k)
            c.assume(Not(G.inside(self.O, k)))
            c.assume(Implies(veq(self.J, k), veq(self.VJ, G.NF(k) + fidx(m, self.I - 8 * G.P(k)))))
            c.assume(Implies(veq(self.J, k), G.inside(self.I, k)))

        def check(self, c, L, k, what):
            G = self.G
            if what == 'on entry':
                if self.bitwise:
                    c.prove(f'all bits are unassigned {what}', veq(self.arr.elem(self.O), -1), kind='inv')
                    c.prove(f'one entry per bit', veq(self.arr.shape[0], 8 * G.ln), kind='inv')
                return
            p = k - 1
            m = G.ident(p)
            blk = block_of(m)
            for r, F, col in ((self.roles[1], self.Nm, 0), (self.roles[2], self.Tp, 1)):
                l = L.get(r)
                if not isinstance(l, SList):
                    raise Unsupported('list of fields')
                c.prove(f'message adds its fields to the {("names", "types")[col]}', veq(l.length(), G.NF(p) + len(blk)), kind='post')
                ok = And(*[veq(l.elem(G.NF(p) + q), blk[q][col]) for q in range(len(blk))])
                c.prove(f'{("names", "types")[col]} of the message, in wire order', ok, kind='post')
                j = c.fresh('old', 'int')
                c.prove(f'earlier {("names", "types")[col]} are kept', Implies(And(j >= 0, j < G.NF(p)), veq(l.elem(j), SChoice(F(j.t)))), kind='post')
            if self.bitwise:
                c.prove('bits of a message map to its fields', Implies(self.J < k, veq(self.arr.elem(self.I), self.VJ)), kind='post')
                c.prove('bits outside all messages stay unassigned', veq(self.arr.elem(self.O), -1), kind='post')
                if self.ctr is not None:
                    c.prove('running index', veq(L.get(self.ctr), G.NF(k)), kind='inv')
            elif self.ctr is not None:
                c.prove('running index', veq(L.get(self.ctr), 0), kind='inv')

        def done(self, c, L):
            self.final = [self.Nm, self.Tp]

    def structure(ids, bitwise):
        def body(c, mkit):
            G = Gs(c, ids)
            J, I, VJ, O = [c.fresh(x, 'int') for x in ('J', 'I', 'VJ', 'O')]
            c.assume(And(J >= 0, J < G.n, G.inside(I, J), O >= 0, O < 8 * G.ln))
            loop = Unpack(G, J, I, VJ, O, bitwise)
            it = mkit(loops=[loop])
            r = returns(c, it, BufferModel.unpack_structure, [bitwise, G.ln, G.struct])
            c.prove('three results', isinstance(r, tuple) and len(r) == 3)
            a, nm, tp = r
            if bitwise:
                c.prove('one entry per bit of the buffer', isinstance(a, SArr) and a.ndim == 1 and veq(a.shape[0], 8 * G.ln))
                c.prove('a bit of any message maps to its field', veq(a.elem(I), VJ))
                c.prove('a bit outside all messages maps to -1', veq(a.elem(O), -1))
            for l, F in ((nm, loop.final[0]), (tp, loop.final[1])):
                c.prove('as many entries as fields', isinstance(l, SList) and veq(l.length(), G.NF(G.n)))
                j = c.fresh('j', 'int')
                c.prove('entries as collected', Implies(And(j >= 0, j < G.NF(G.n)), veq(l.elem(j), SChoice(F(j.t)))))
        return body
    NP = 8
    for p in range(NP):
        ids = OK[p::NP]
        out.append(Job(f'unpack_structure(bitwise) step, messages {p + 1} of {NP}', structure(ids, True), budget=240))
    out.append(Job('unpack_structure(not bitwise) step, all messages', structure(OK, False), budget=240))

    class Values(LoopContract):
        """before message k the values are those of the fields of the messages so far (NF(k) of them)"""
        name = 'values of the messages so far'

        def __init__(self, G, byte):
            self.G, self.byte = G, byte

        def match(self, it, s, fr, si):
            return fr.name.split('.')[-1] == 'unpack_values' and si is not None and si.src is self.G.struct

        def enter(self, c, L):
            self.v = [n for n in L.names if L.get(n) == ()]
            if len(self.v) != 1:
                raise NoRole('values start empty')
            self.v = self.v[0]

        def havoc(self, c, L, k):
            self.Vf = c.fresh_fn('val', 'int', 'int')
            self.tok = {}
            L.set(self.v, SymTuple(self.G.NF(k), lambda i: Tok(self.Vf(term(i)))))

        def body_start(self, c, L, k):
            self.G.ident(k)

        def check(self, c, L, k, what):
            if what == 'on entry':
                return
            G, p = self.G, k - 1
            m = G.ident(p)
            blk = block_of(m)
            v = L.get(self.v)
            if not isinstance(v, SymTuple):
                raise Unsupported('tuple of values')
            c.prove('message adds one value per field', veq(v.n, G.NF(p) + len(blk)), kind='post')
            for q, (_, t, off, ln) in enumerate(blk):
                got = v.el(norm_int(G.NF(p) + q))
                want = decode_field(lambda i: self.byte(G.P(p) + i), FMT[t], ln, off)
                if t == 'char':
                    good = isinstance(got, SBytes) and And(veq(got.length, 1), veq(got.elem(0), self.byte(G.P(p) + off)))
                else:
                    good = veq(got, want)
                c.prove("value is the decoding of the field's own bytes", good, kind='post')
            j = c.fresh('old', 'int')
            c.assume(And(j >= 0, j < G.NF(p)))
            old = v.el(j)
            c.prove('earlier values are kept', isinstance(old, Tok) and mk(old.t == self.Vf(j.t)), kind='post')

        def done(self, c, L):
            self.final = self.Vf

    def vals(ids, form):
        def body(c, mkit):
            G = Gs(c, ids)
            if form == 'bytes':
                buf = SBytes.fresh('buffer', G.ln)
                byte = buf.elem
            else:
                buf = SArr.fresh('bits', (G.ln * 8,), 'i', 0, 1)

                def byte(i):
                    v = 0
                    for j in range(8):
                        v = v + buf.elem(norm_int(8 * i + j)) * (1 << (7 - j))
                    return v
                c.ro = {id(buf.cell): 'buffer'}
            loop = Values(G, byte)
            it = mkit(loops=[loop])
            r = returns(c, it, BufferModel.unpack_values, [buf, G.struct])
            c.prove('as many values as fields', isinstance(r, SymTuple) and veq(r.n, G.NF(G.n)))
            j = c.fresh('j', 'int')
            c.assume(And(j >= 0, j < G.NF(G.n)))
            e = r.el(j)
            c.prove('values as collected', isinstance(e, Tok) and mk(e.t == loop.final(j.t)))
        return body
    for p in range(2):
        out.append(Job(f'unpack_values(bytes) step, messages {p + 1} of 2', vals(OK[p::2], 'bytes'), budget=240))
    for p in range(4):
        out.append(Job(f'unpack_values(bits) step, messages {p + 1} of 4', vals(OK[p::4], 'bits'), budget=240))

    def reject(c, mkit):
        it = mkit()
        for bad in ('ab', 5, None, [1, 0], {}):
            k, r = outcome(it, BufferModel.unpack_values, [bad, {0: OK[0]}])
            c.prove('other buffer kinds are rejected with ValueError', k == 'exc' and type(r) is ValueError)
    out.append(Job('unpack_values rejects other kinds', reject))

    def damaged(c, mkit):
        G = structure_contracts(c)
        ln = c.fresh('nbytes', 'int')
        c.assume(ln >= 0)
        k = c.fresh('errors', 'int')
        c.assume(k >= 0)
        errs = SArr.fresh('err', (k,), 'i', 0)
        Srt = c.fresh_fn('sorted', 'int', 'int')

        def el(i):
            t = Srt(term(i))
            c.axiom(('srt', t.sexpr()), t >= 0)
            return mk(t)

        def sort_(it, args, kw):
            c.prove('the error positions are what is sorted', args[0] is errs and len(args) == 1 and not kw)
            return SArr.new((k,), lambda idx: el(idx[0]), 'i')
        it = mkit(contracts={**G.contracts, np.sort: sort_})
        bm = it.call(BufferModel, [])
        r = returns(c, it, bm.find_damaged_fields, [errs, G.structure, ln])
        c.prove('a list is returned', isinstance(r, SList))
        c.prove('the bit map covers the buffer', all(b for b, _ in G.struct_calls) and And(*[veq(l, ln) for _, l in G.struct_calls]))
        if len(r.segs) != 1 or r.segs[0][0] != 'comp':
            raise Unsupported('form of the result')
        _, n, cond, f = r.segs[0]
        c.prove('one candidate per error position, in increasing order', veq(n, k))
        i = c.fresh('i', 'int')
        dom = And(i >= 0, i < k)
        e = el(i)
        hit = And(e < 8 * ln, G.b2v(e) >= 0)
        c.prove('exactly the positions inside a field are reported', Implies(dom, Iff(cond(i), hit)))
        c.assume(And(dom, hit))
        v = f(i)
        c.prove('reported with the name and index of the field', isinstance(v, tuple) and len(v) == 2 and
                And(veq(v[0], G.name(G.b2v(e))), veq(v[1], G.b2v(e))))
    out.append(Job('find_damaged_fields', damaged))
    return out


class Tok:
    """opaque value of an earlier message"""
    _pyvc_sym = True

    def __init__(self, t):
        self.t = t


TRUSTED = ['numpy.sort returns the same positions in increasing order',
           'struct.unpack follows its documented little-endian layout; single precision decoding is uninterpreted']


def check(case):
    _, structure, buf, tail, errs = case
    structure = dict(structure)
    keep = dict(structure)
    n = len(buf)
    lay = layout(structure)
    b2v, names, types = BufferModel.unpack_structure(True, n, structure)
    want = [-1] * (8 * n)
    for k, (_, _, a, b) in enumerate(lay):
        want[a:b] = [k] * (b - a)
    if [int(x) for x in b2v] != want:
        j = next((q for q in range(min(len(b2v), len(want))) if b2v[q] != want[q]), -1)
        return f'bit {j} mapped to field {b2v[j] if 0 <= j else len(b2v)}, expected {want[j]}; structure {structure}, {n} bytes'
    if list(names) != [x[0] for x in lay] or list(types) != [x[1] for x in lay]:
        j = next((q for q in range(min(len(names), len(lay))) if (names[q], types[q]) != lay[q][:2]), -1)
        return f'field {j} is {names[j]}/{types[j]}, expected {lay[j][:2]}'
    _, names2, types2 = BufferModel.unpack_structure(False, n, structure)
    if names2 != names or types2 != types:
        return 'names and types depend on the bitwise flag'
    vals = values(buf, structure)
    for src, what in ((buf, 'bytes'), (to_bits(buf), 'bits')):
        v = BufferModel.unpack_values(src, structure)
        if len(v) != len(vals) or not all(same(x, y) for x, y in zip(v, vals)):
            return f'values from {what}: {v}, expected {vals}'
    if structure != keep:
        return 'the structure was modified'
    got = BufferModel().find_damaged_fields(np.array(errs, dtype=np.int_), structure, n)
    wd = []
    for e in sorted(errs):
        if e < 8 * n and want[e] >= 0:
            wd.append((lay[want[e]][0], want[e]))
    if got is None or [tuple(x) for x in got] != wd:
        return f'damaged fields of errors {sorted(errs)}: {got}, expected {wd}'


def rand_case(rng, mids=None):
    st, buf = {}, b''
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        buf += rand_bytes(rng, rng.choice([0, 0, 1, 3, 8]))
        m = rng.choice(mids or (OKSMALL if rng.random() < 0.5 else OK))
        st[len(buf)] = m
        buf += frame(m, rand_payload(rng, m), rng.randrange(256), rng.randrange(256), rng.randrange(256))
    tail = rng.choice([0, 0, 1, 5])
    buf += rand_bytes(rng, tail)
    if rng.random() < 0.1 and st:     # a structure that ends exactly with the payload
        buf = buf[:max(st) + 6 + TABLE[st[max(st)]]]
    errs = [rng.randrange(8 * len(buf) + 20) for _ in range(rng.choice([0, 1, 5, 20]))]
    return st, buf, tail, errs


def cases(rng, tier, part, nparts):
    for q, m in enumerate(OK):
        if q % nparts == part:
            f = frame(m, rand_bytes(rng, TABLE[m]), 3, 4, 5)
            yield ('single', {0: m}, f, 0, list(range(0, 8 * len(f) + 3, 3)))
            yield ('pair', {2: m, 2 + len(f): OK[0]}, b'\0\1' + f + frame(OK[0], bytes(TABLE[OK[0]])), 0, [5, 17, 8 * len(f) + 17, 0])
            # messages whose dictionary order is not the order of their positions
            g = frame(OKSMALL[1], bytes(TABLE[OKSMALL[1]]))
            yield ('order', {len(g): m, 0: OKSMALL[1]}, g + f, 0, [1, 60, 8 * len(g) + 1])
    while True:
        yield ('rnd',) + rand_case(rng)
