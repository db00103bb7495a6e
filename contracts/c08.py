"""C08 buffer structure registry"""
from .common import *
from .frames import *
from inference.buffer_segmentation import BufferStructure

from pyvc.loops import LoopContract, NoRole
from protocol_meta import FrameHeader
from protocol_meta.msg_header import HeaderLength, NonExistentMsdId
from .seg import Log


class Structure:
    """an arbitrary dictionary start position -> message id"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, c, tag='structure'):
        self.c = c
        self.N = c.fresh(tag + '_messages', 'int')
        c.assume(self.N >= 0)
        self.fp, self.fi = c.fresh_fn(tag + '_start', 'int', 'int'), c.fresh_fn(tag + '_id', 'int', 'int')
        self.eqs = {}

    def pos(self, j):
        v = mk(self.fp(term(j)))
        self.c.axiom(('pos', v.t.sexpr()), v.t >= 0)
        return v

    def id(self, j):
        return mk(self.fi(term(j)))

    def _pyvc_isinstance(self, t):
        return t in (dict, object)

    def _pyvc_len(self, it):
        return self.N

    def _pyvc_truth(self):
        return self.N > 0

    def _pyvc_eq(self, it, o):
        if o is self:
            return True
        if isinstance(o, Structure):
            k = frozenset((id(self), id(o)))
            if k not in self.eqs:
                self.eqs[k] = o.eqs[k] = self.c.fresh('same', 'bool')
            return self.eqs[k]
        if isinstance(o, BufferStructure) or type(o) is dict:
            raise Unsupported('comparison of the structure')
        return False

    def _pyvc_getattr(self, it, name):
        if name == 'items':
            return GCall(lambda it_: SymIter(self.N, lambda j: (self.pos(j), self.id(j)), 'items', self))
        raise Unsupported('structure attribute ' + name)


class Checked(LoopContract):
    """all messages before k are carried by the buffer"""
    name = 'recorded messages'

    def __init__(self, W, J):
        self.W, self.J = W, J

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'adheres_to_structure' and si is not None and getattr(si, 'src', None) is self.W.st

    def enter(self, c, L):
        if L.names:
            raise NoRole('no state is kept')

    def havoc(self, c, L, k):
        self.k = k
        c.assume(Implies(self.J < k, self.W.ok(self.J)))

    def check(self, c, L, k, what):
        c.prove(f'the messages looked at are carried by the buffer ({what})', Implies(self.J < k, self.W.ok(self.J)))


class Case:
    def __init__(self, c):
        self.c = c
        self.st = Structure(c)
        self.buf = SBytes.fresh('buffer')
        self.n = self.buf.length
        self.fk = c.fresh_fn('known_id', 'int', 'bool')

    def ok(self, j):
        p = self.st.pos(j)
        i = self.buf.elem(p + 5)
        return And(p + 6 <= self.n, veq(i, self.st.id(j)), mk(self.fk(term(i))))

    def from_buffer(self, it, args, kw):
        args = [a for a in args if a is not FrameHeader]
        if len(args) != 1 or kw or not isinstance(args[0], SBytes) or args[0].src is not self.buf:
            raise Unsupported('form of the header construction')
        b = args[0]
        it.assumed.add('FrameHeader.from_buffer (contract proved by C02)')
        if not it.branch(veq(b.length, 6)):
            raise Raised(HeaderLength('length'))
        if not it.branch(mk(self.fk(term(b.elem(5))))):
            raise Raised(NonExistentMsdId('id'))
        return Hdr(b)


class Hdr:
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, b):
        self.b = b

    def _pyvc_getattr(self, it, name):
        if name in ('length', 'sequence', 'sys_id', 'comp_id', 'msg_id'):
            return self.b.elem(1 + ('length', 'sequence', 'sys_id', 'comp_id', 'msg_id').index(name))
        raise Unsupported('header attribute ' + name)


def obj(**kw):
    o = object.__new__(BufferStructure)
    BufferStructure.__init__(o, {})
    for k, v in kw.items():
        if not hasattr(o, k):
            raise Unsupported('attribute ' + k)
        object.__setattr__(o, k, v)
    return o


def jobs(tier):
    def adheres(c, mkit):
        W = Case(c)
        J = c.fresh('J', 'int')
        c.assume(J >= 0)
        lc = Checked(W, J)
        it = mkit(contracts={FrameHeader.from_buffer: W.from_buffer, FrameHeader.from_buffer.__func__: W.from_buffer}, loops=[lc])
        o = obj(structure=W.st)
        k, r = outcome(it, Bound(BufferStructure.adheres_to_structure, o), [W.buf])
        if k == 'exc' or r is False:
            # some message is not carried: the one being looked at
            if not hasattr(lc, 'k'):
                raise Unsupported('refused without looking at the messages')
            c.prove('refused only when a recorded message is not carried', And(lc.k >= 0, lc.k < W.st.N, Not(W.ok(lc.k))))
        elif r is True:
            c.prove('accepted only when every recorded message is carried', Implies(J < W.st.N, W.ok(J)))
        else:
            raise Unsupported('answer')

    def register(answer):
        def body(c, mkit):
            def adh(it, args, kw):
                if args[1] is not buf:
                    raise Unsupported('buffer tested')
                if answer == 'raises':
                    raise Raised(HeaderLength('length'))
                return answer == 'accepted'
            buf = SBytes.fresh('buffer')
            cnt = sym(c, 'count', lo=0)
            rec = Log(list, cnt)        # invariant: the count is the number of recorded buffers
            o = obj(structure=Structure(c), received_buffers=rec, reception_count=cnt)
            st = o.structure
            it = mkit(contracts={BufferStructure.adheres_to_structure: adh})
            k, r = outcome(it, Bound(BufferStructure.register_buffer, o), [buf])
            if o.received_buffers is not rec:
                raise Unsupported('record replaced')
            if answer == 'accepted':
                c.prove('an adhering buffer is accepted', k == 'ret', kind='exc')
                c.prove('it is appended once', len(rec.log) == 1 and rec.log[0] is buf)
                c.prove('the count grows by one', veq(o.reception_count, cnt + 1))
            else:
                c.prove('a buffer that does not adhere is refused', k == 'exc')
                c.prove('record and count are unchanged', And(len(rec.log) == 0, veq(o.reception_count, cnt)))
            c.prove('the structure is unchanged', o.structure is st)
        return body

    def equal(c, mkit):
        it = mkit()
        a, b = Structure(c, 'a'), Structure(c, 'b')
        x, y = obj(structure=a, reception_count=sym(c, 'n1', lo=0), received_buffers=Log(list)), obj(structure=b, reception_count=sym(c, 'n2', lo=0), received_buffers=Log(list))
        same = a._pyvc_eq(it, b)
        for u, v, t in ((x, y, 'structures'), (x, b, 'structure and dictionary')):
            r = returns(c, it, Bound(BufferStructure.__eq__, u), [v])
            c.prove(f'{t} are equal iff they map the same positions to the same ids', Iff(r, same))
        for v in (5, None, 'x', [1], (1, 2), 2.5):
            c.prove('nothing else is equal to a structure', Not(returns(c, it, Bound(BufferStructure.__eq__, x), [v])))
        c.prove('the length is the number of messages', veq(returns(c, it, Bound(BufferStructure.__len__, x), []), a.N))

    def fresh(c, mkit):
        it = mkit()
        st = Structure(c)
        o = returns(c, it, BufferStructure, [st])
        c.prove('a new structure has no registrations', o.structure is st and o.reception_count == 0 and type(o.received_buffers) is list and o.received_buffers == [])
    return [Job('adheres_to_structure', adheres), Job('new structure', fresh), Job('equality', equal)] + \
        [Job(f'register_buffer ({a})', register(a)) for a in ('accepted', 'refused', 'raises')]


def accepted(structure, b):
    return all(len(b[i:i + 6]) == 6 and b[i + 5] == m and m in TABLE for i, m in structure.items())


def check(case):
    if case[0] == 'eq':
        _, a, b, regs = case
        x, y = BufferStructure(dict(a)), BufferStructure(dict(b))
        for r in regs:
            if accepted(a, r):
                x.register_buffer(r)
        want = a == b
        for u, v, txt in ((x, y, 'structures'), (x, dict(b), 'structure and dict')):
            if bool(u == v) != want or bool(u != v) == want:
                return f'{txt} {a} and {b}: equality {u == v}, inequality {u != v}'
        if (x == 5) or (x == None) or (x == list(a)):      # noqa: E711
            return 'structure equal to something that is no structure'
        if len(x) != len(a):
            return f'length {len(x)} of a structure with {len(a)} messages'
        return
    _, structure, bufs = case
    st = BufferStructure(dict(structure))
    want = []
    for b in bufs:
        ok = accepted(structure, b)
        try:
            r = st.adheres_to_structure(b)
        except Exception:
            r = False
        if bool(r) != ok:
            return f'adheres_to_structure({b!r}) = {r} for {structure}, expected {ok}'
        try:
            st.register_buffer(b)
            done = True
        except Exception:
            done = False
        if done != ok:
            return f'register_buffer({b!r}) {"accepted" if done else "refused"} for {structure}, expected {ok}'
        if ok:
            want.append(b)
        if list(st.received_buffers) != want or st.reception_count != len(want):
            return f'record {st.received_buffers!r}, count {st.reception_count}; expected {want!r}'
    if dict(st.structure) != structure:
        return 'the structure itself changed'


def rand_structure(rng):
    out, pos, buf = {}, 0, b''
    for _ in range(rng.randrange(0, 4)):
        g = rng.choice([0, 0, 1, 5])
        f = rand_frame(rng, SMALL)
        out[pos + g] = f[5]
        buf += rand_bytes(rng, g) + f
        pos += g + len(f)
    return out, buf


def cases(rng, tier, part, nparts):
    while True:
        st, buf = rand_structure(rng)
        if st and rng.random() < 0.2:      # an id no message has
            s = rng.choice(list(st))
            st[s] = rng.choice([i for i in range(256) if i not in TABLE])
            if rng.random() < 0.7:
                buf = buf[:s + 5] + bytes([st[s]]) + buf[s + 6:]
        bufs = []
        for _ in range(rng.randrange(1, 6)):
            b = bytearray(buf)
            m = rng.random()
            if m < 0.3 and b:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            elif m < 0.5 and st:
                s = rng.choice(list(st))
                b[s + 5] = rng.choice(list(TABLE) + [255])
            elif m < 0.65:
                b = b[:rng.randrange(len(b) + 1)]
            elif m < 0.8:
                b += rand_bytes(rng, 3)
            elif m < 0.9 and st:
                s = rng.choice(list(st))
                b = b[:s + rng.randrange(5, 8)]
            bufs.append(bytes(b))
        yield ('reg', st, bufs)
        st2 = dict(st)
        m = rng.random()
        if m < 0.4 and st2:
            s = rng.choice(list(st2))
            st2[s] = rng.choice(list(TABLE))
        elif m < 0.6 and st2:
            st2.pop(rng.choice(list(st2)))
        elif m < 0.8:
            st2[rng.randrange(50)] = rng.choice(SMALL)
        yield ('eq', st, st2, bufs)
        yield ('eq', st, dict(reversed(list(st.items()))), bufs)
