"""Contracts of the segmentation of buffers (C05, C06).

Ghost specification over an arbitrary buffer of n bytes:  VH(i) a valid header starts at i, id(i) / L(i) its message id
and payload length, ACC(i) the parser accepts exactly the frame [i, i + 8 + L(i)).  A frame is reported at i iff
VH(i), ACC(i) and i >= E(i), where E(i) is the end of the last frame reported before i.  own(J, i) is the start of the
frame reported before i that covers byte J (-1: none)."""
from .common import *
from pyvc.loops import LoopContract, NoRole
from pyvc.models import ByteArr, M
from pyvc.terms import truth
from inference.buffer_segmentation import BufferSegmentation, BufferStructure, MsgParts
from protocol_meta import FrameHeader, is_valid_header, MAVError
import protocol_meta.msg_header as mh

H, OV = 6, 8


class Frames:
    """the ghost functions, for an arbitrary buffer"""
    def __init__(self, c, buffer=None):
        self.c = c
        self.buf = buffer if buffer is not None else SBytes.fresh('buffer')
        self.n = self.buf.length
        self.fvh = c.fresh_fn('valid_header', 'int', 'bool')
        self.facc = c.fresh_fn('accepted', 'int', 'int', 'bool')
        self.fE = c.fresh_fn('end_before', 'int', 'int')
        self.fown = c.fresh_fn('owner', 'int', 'int', 'int')

    def VH(self, i):
        v = mk(self.fvh(term(i)))
        # C01: a valid header is 6 bytes inside the buffer starting with the marker
        self.c.axiom(('VH', v.t.sexpr()), bterm(Implies(v, And(i >= 0, i + H <= self.n, veq(self.buf.elem(i), meta.stx)))))
        return v

    def L(self, i):
        return self.buf.elem(i + 1)

    def id(self, i):
        return self.buf.elem(i + 5)

    def verdict(self, i, length):
        """the parser's verdict on the bytes [i, i + length): it refuses incomplete frames"""
        v = mk(self.facc(term(i), term(length)))
        self.c.axiom(('ACC', v.t.sexpr()), bterm(Implies(v, And(i >= 0, veq(length, OV + self.L(i)), i + length <= self.n))))
        return v

    def ACC(self, i):
        return self.verdict(i, OV + self.L(i))

    def E(self, i):
        return mk(self.fE(term(i)))

    def end(self, i):
        return i + OV + self.L(i)

    def rep(self, i):
        return And(i >= 0, self.VH(i), self.ACC(i), i >= self.E(i))

    def own(self, J, i):
        return mk(self.fown(term(J), term(i)))

    def start(self, *Js):
        """definitions at 0"""
        self.c.assume(And(veq(self.E(0), 0), *[veq(self.own(J, 0), -1) for J in Js]))

    def step(self, i, *Js):
        """definitions at i + 1"""
        r = self.rep(i)
        self.c.assume(And(veq(self.E(i + 1), ite(r, self.end(i), self.E(i))),
                          *[veq(self.own(J, i + 1), ite(And(r, i <= J, J < self.end(i)), i, self.own(J, i))) for J in Js]))

    def part(self, J, i):
        """class of byte J when the frames reported before i are marked"""
        o = self.own(J, i)
        d = J - o
        return o, And(o >= 0, d < H), And(o >= 0, d >= H, d < H + self.L(o)), And(o >= 0, d >= H + self.L(o))

    # ---- contracts of the callees
    def slice_of(self, x):
        b = x.b if isinstance(x, ByteArr) else x
        if not isinstance(b, SBytes) or b.src is not self.buf:
            raise Unsupported('bytes that are not a part of the buffer')
        return mk(term(b.off)), b.length

    def is_valid(self, it, args, kw):
        if len(args) != 1 or kw:
            raise Unsupported('form of the header test')
        s, ln = self.slice_of(args[0])
        it.assumed.add('is_valid_header (contract proved by C01)')
        if not it.branch(veq(ln, H)):
            return False
        return self.VH(s)

    def from_buffer(self, it, args, kw):
        args = [a for a in args if a is not FrameHeader]
        if len(args) != 1 or kw:
            raise Unsupported('form of the header construction')
        s, ln = self.slice_of(args[0])
        it.assumed.add('FrameHeader.from_buffer (contract proved by C02)')
        if not self.c.implied(And(veq(ln, H), self.VH(s))):
            raise Unsupported('header constructed from bytes that are not known to be a valid header')
        return Header(self, s)

    def parser(self, it, arg):
        s, ln = self.slice_of(arg)
        if not it.branch(self.verdict(s, ln)):
            raise Raised(MAVError('refused'))
        return Opaque()

    def contracts(self):
        return {is_valid_header: self.is_valid, FrameHeader.from_buffer: self.from_buffer,
                FrameHeader.from_buffer.__func__: self.from_buffer}


class Opaque:
    """a value nothing is known about"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def _pyvc_getattr(self, it, name):
        raise Unsupported('attribute of an unknown object')


class Header:
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, F, s):
        self.F, self.s = F, s

    def _pyvc_getattr(self, it, name):
        F, s = self.F, self.s
        if name == 'length':
            return F.L(s)
        if name == 'msg_id':
            return F.id(s)
        if name == 'buffer':
            return F.buf.slice(slice(s, s + H))
        raise Unsupported('header attribute ' + name)


class Reported:
    """dictionary start -> id of the frames reported before position i"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, F, i):
        self.F, self.i, self.sets = F, i, []

    def _pyvc_isinstance(self, t):
        return t in (dict, object)

    def _pyvc_setitem(self, it, k, v):
        self.sets.append((k, v))

    def _pyvc_getattr(self, it, name):
        raise Unsupported('use of the structure while it is built')

    def _pyvc_len(self, it):
        raise Unsupported('size of the structure while it is built')


class Positions(LoopContract):
    """before position i: the arrays mark exactly the frames reported before i (bytes J; any byte Q from i on is marked iff
    it lies before E(i)), the dictionary holds exactly these frames, in order"""
    name = 'positions of the buffer'

    def __init__(self, F, J, Q, B):
        self.F, self.J, self.Q, self.B = F, J, Q, B
        self.ran = False

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'segment_buffer' and si is not None

    def enter(self, c, L):
        F = self.F
        j = c.fresh('rj', 'int')
        if not c.implied(veq(L.si.el(j), j)):
            raise NoRole('positions of the loop')
        if not c.implied(Implies(F.n >= OV, L.si.n >= F.n - OV + 1)) or not c.implied(L.si.n <= F.n):
            raise NoRole('range of the loop')
        arrs = [(n, v) for n, v in L.fr.locals.items() if isinstance(v, SArr) and v.ndim == 1]
        parts = [v for n, v in arrs if v.kind == 'O' and c.implied(veq(v.shape[0], F.n))]
        bits = [v for n, v in arrs if v.kind == 'f' and c.implied(veq(v.shape[0], 8 * F.n))]
        dicts = [n for n, v in L.fr.locals.items() if type(v) is dict and not v]
        if len(parts) != 1 or len(bits) != 1 or len(dicts) != 1 or dicts[0] in L.names:
            raise NoRole('classification, validity and structure')
        self.p, self.b, self.d = parts[0], bits[0], dicts[0]
        L.cover(self.p)
        L.cover(self.b)
        self.ran = True
        self.g = None

    def facts(self, i):
        F, J, Q = self.F, self.J, self.Q
        o, h, p, ck = F.part(J, i)
        U = MsgParts.UNKNOWN
        e, b = self.p.elem(J), self.b.elem(self.B)
        inr = And(J >= 0, J < F.n)
        return [('bytes are classified as the frames reported so far say',
                 Implies(inr, And(Implies(h, eqp(e, MsgParts.HEADER)), Implies(p, eqp(e, MsgParts.PAYLOAD)), Implies(ck, eqp(e, MsgParts.CHECKSUM)),
                                  Implies(o < 0, eqp(e, U))))),
                ('bits are valid exactly in the frames reported so far', Implies(inr, veq(b, ite(o >= 0, 1.0, 0.0)))),
                ('bytes still to visit are marked iff they belong to the last frame', self.ahead(Q, i)),
                ('the frames reported so far end inside the buffer', And(F.E(i) >= 0, F.E(i) <= F.n)),
                ('the owner of a byte is a frame around it', Implies(o >= 0, And(o < i, o <= J, J < F.end(o), F.rep(o))))]

    def ahead(self, q, i):
        F = self.F
        return Implies(And(q >= i, q >= 0, q < F.n), Iff(Not(eqp(self.p.elem(q), MsgParts.UNKNOWN)), q < F.E(i)))

    def havoc(self, c, L, i):
        F = self.F
        n = F.n
        code = c.fresh_fn('part', 'int', 'int')
        from pyvc.values import code_of
        ks = [code_of(m) for m in MsgParts]

        def rd(x):
            t = code(term(x[0]))
            c.axiom(('code', t.sexpr()), z3.Or(*[t == k for k in ks]))
            return SChoice(t)
        self.p.cell.fn = rd
        self.b.cell.fn = SArr.fresh('validity', (8 * n,), 'f').reader()
        self.g = Reported(F, i)
        L.fr.locals[self.d] = self.g
        for _, f in self.facts(i):
            c.assume(f)
        c.assume(self.ahead(i, i))

    def body_start(self, c, L, i):
        self.F.step(i, self.J)

    def check(self, c, L, i, what):
        F = self.F
        if self.g is None:
            F.start(self.J)
        for nm, f in self.facts(i):
            c.prove(f'{nm} ({what})', f)
        if self.g is not None:
            g = self.g
            if L.fr.locals.get(self.d) is not g:
                raise Unsupported('the structure was replaced')
            k = i - 1
            if len(g.sets) > 1:
                raise Unsupported('several entries per position')
            if g.sets:
                c.prove(f'an entry is made only for a frame that is reported here, with its start and id ({what})',
                        And(F.rep(k), veq(g.sets[0][0], k), veq(g.sets[0][1], F.id(k))))
            else:
                c.prove(f'no frame is missed ({what})', Not(F.rep(k)))

    def done(self, c, L):
        self.N = L.si.n


def eqp(e, m):
    r = e == m
    return r if isinstance(r, bool) else mk(bterm(r))


def segment_job(facet):
    def body(c, mkit):
        F = Frames(c)
        J, Q, r = c.fresh('J', 'int'), c.fresh('Q', 'int'), c.choose(8)
        B = 8 * J + r
        P = Positions(F, J, Q, B)
        it = mkit(contracts=F.contracts(), loops=[P])
        bs = object.__new__(BufferSegmentation)
        returns(c, it, Bound(BufferSegmentation.__init__, bs), [GCall(F.parser)])
        res = returns(c, it, Bound(BufferSegmentation.segment_buffer, bs), [F.buf])
        if not isinstance(res, tuple) or len(res) != 3 or not P.ran:
            raise Unsupported('form of the result')
        parts, bits, st = res
        if not isinstance(st, Reported) or st is not P.g or st.sets:
            raise Unsupported('form of the structure')
        if not isinstance(parts, SArr) or not isinstance(bits, SArr):
            raise Unsupported('form of the arrays')
        N = P.N
        if facet == 'C05':
            c.prove('one class per byte and one validity per bit', And(veq(parts.shape[0], F.n), veq(bits.shape[0], 8 * F.n)))
            c.assume(And(J >= 0, J < F.n))
            o, h, p, ck = F.part(J, N)
            e = parts.elem(J)
            c.prove('header, payload and checksum bytes of the frame around the byte, unknown where no frame is',
                    And(Implies(h, eqp(e, MsgParts.HEADER)), Implies(p, eqp(e, MsgParts.PAYLOAD)), Implies(ck, eqp(e, MsgParts.CHECKSUM)),
                        Implies(o < 0, eqp(e, MsgParts.UNKNOWN))))
            c.prove('the bit is valid iff a reported frame covers it', veq(bits.elem(B), ite(o >= 0, 1.0, 0.0)))
            c.prove('the frame around the byte was reported', Implies(o >= 0, And(F.rep(o), o <= J, J < F.end(o), F.end(o) <= F.n)))
        else:
            i = c.fresh('pos', 'int')
            c.prove('every position at which a frame can start is visited', Implies(And(i >= 0, i + OV <= F.n), i < N))
    return body


def lemmas(c, mkit):
    """consequences of the definition of the reported frames (each by induction on i)"""
    F = Frames(c)
    i, J, St = c.fresh('i', 'int'), c.fresh('J', 'int'), c.fresh('St', 'int')
    F.start(J)
    c.assume(And(i >= 0, St >= 0))
    # frames reported before i end at or before E(i)
    c.prove('lemma (base): reported frames end before E', Implies(And(F.rep(St), St < 0), F.end(St) <= F.E(0)), kind='lemma')
    hyp1 = Implies(And(F.rep(St), St < i), F.end(St) <= F.E(i))
    c.assume(hyp1)
    hyp2 = Implies(And(F.rep(St), St < i, St <= J, J < F.end(St)), veq(F.own(J, i), St))
    c.prove('lemma (base): a byte of a reported frame belongs to it', Implies(And(F.rep(St), St < 0), veq(F.own(J, 0), St)), kind='lemma')
    c.assume(hyp2)
    F.step(i, J)
    c.prove('lemma (step): reported frames end before E', Implies(And(F.rep(St), St < i + 1), F.end(St) <= F.E(i + 1)), kind='lemma')
    c.prove('lemma (step): a byte of a reported frame belongs to it', Implies(And(F.rep(St), St < i + 1, St <= J, J < F.end(St)), veq(F.own(J, i + 1), St)), kind='lemma')
    # two reported frames are disjoint
    c.prove('lemma: a frame reported at i starts after the end of every frame reported before', Implies(And(F.rep(St), St < i, F.rep(i)), i >= F.end(St)), kind='lemma')
    c.prove('lemma: a reported frame lies inside the buffer', Implies(F.rep(St), And(St >= 0, F.end(St) <= F.n)), kind='lemma')


# ------------------------------------------------------------------------------------------------ views of a segmentation
class Messages:
    """the dictionary segment_buffer returns: N frames, the j-th starts at start(j) with message id id(j)"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, c, F):
        self.c, self.F = c, F
        self.N = c.fresh('messages', 'int')
        c.assume(self.N >= 0)
        self.fs = c.fresh_fn('start', 'int', 'int')
        self.pick = {}

    def start(self, j):
        v = mk(self.fs(term(j)))
        F = self.F
        # contract of segment_buffer (C05): the frame is complete and has a valid header
        self.c.axiom(('msg', v.t.sexpr()), bterm(And(v >= 0, v + OV <= F.n, F.rep(v), v + OV + F.L(v) <= F.n, veq(F.buf.elem(v), meta.stx))))
        return v

    def id(self, j):
        p = self.pick.get(term(j).sexpr())
        return p if p is not None else self.F.id(self.start(j))

    def _pyvc_isinstance(self, t):
        return t in (dict, object)

    def _pyvc_len(self, it):
        return self.N

    def _pyvc_truth(self):
        return self.N > 0

    def _pyvc_eq(self, it, o):
        if type(o) is dict and not o:
            return veq(self.N, 0)
        if o is self:
            return True
        raise Unsupported('comparison of the structure')

    def _pyvc_getattr(self, it, name):
        if name == 'items':
            return GCall(lambda it_: SymIter(self.N, lambda j: (self.start(j), self.id(j)), 'items', self))
        if name == 'keys':
            return GCall(lambda it_: SymIter(self.N, lambda j: self.start(j), 'keys', self))
        raise Unsupported('structure attribute ' + name)


class Log:
    """a list or dictionary that is only added to"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, kind, size=None):
        self.kind, self.log, self.size = kind, [], size

    def _pyvc_isinstance(self, t):
        return t in (self.kind, object)

    def _pyvc_setitem(self, it, k, v):
        if self.kind is not dict:
            raise Unsupported('list item replaced')
        self.log.append((k, v))

    def _pyvc_len(self, it):
        if self.size is not None and self.kind is list:
            return self.size + len(self.log)
        raise Unsupported('size of a growing container')

    def _pyvc_getattr(self, it, name):
        if self.kind is list and name == 'append':
            return GCall(lambda it_, v: self.log.append(v))
        if self.kind is list and name == 'extend':
            return GCall(self.extend)
        if self.kind is dict and name == 'update' :
            return GCall(self.update)
        raise Unsupported('use of a growing container')

    def extend(self, it, v):
        items = it.iter_items(v)
        if items is None:
            raise Unsupported('extension')
        self.log.extend(items)

    def update(self, it, v):
        if type(v) is not dict:
            raise Unsupported('update')
        self.log.extend(v.items())

    def _pyvc_binop(self, it, op, o, *a):
        raise Unsupported('operator on a growing container')


class EachMessage(LoopContract):
    """every message contributes one header item, its fields in wire order with their types, and one crc item"""
    name = 'messages of the buffer'

    def __init__(self, D, table, wire):
        self.D, self.table, self.wire = D, table, wire
        self.msg = None

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'get_msg_fields' and si is not None and getattr(si, 'src', None) is self.D

    def enter(self, c, L):
        ds = [n for n, v in L.fr.locals.items() if type(v) is dict and not v]
        ls = [n for n, v in L.fr.locals.items() if type(v) is list and not v]
        if len(ds) != 1 or len(ls) != 1 or ds[0] in L.names or ls[0] in L.names:
            raise NoRole('fields and description')
        self.d, self.l = ds[0], ls[0]
        self.gd = self.gl = None

    def havoc(self, c, L, k):
        self.gd, self.gl = Log(dict), Log(list)
        L.fr.locals[self.d], L.fr.locals[self.l] = self.gd, self.gl
        if k is not L.si.n:
            ids = list(self.table)
            p = ids[c.choose(len(ids))]
            # valid header (C01): the length byte is the recorded length of its id
            c.assume(And(veq(self.D.id(k), p), veq(self.D.F.L(self.D.start(k)), self.table[p])))
            self.D.pick[term(k).sexpr()] = p
            self.mid, self.k = p, k

    def check(self, c, L, k, what):
        if self.gd is None:
            return
        if L.fr.locals.get(self.d) is not self.gd or L.fr.locals.get(self.l) is not self.gl:
            raise Unsupported('containers replaced')
        s = self.D.start(self.k)
        name = self.cls(self.mid).name
        d, f = list(self.gl.log), list(self.gd.log)
        wire = self.wire(self.mid)
        if len(d) != len(wire) + 2:
            c.prove('one header item, one item per field and one crc item per message', False)
            raise PathEnd()
        buf = self.D.F.buf
        h = d[0]
        if not isinstance(h, SBytes):
            raise Unsupported('header item')
        c.prove('the header item is the 6 header bytes of the message', And(veq(h.length, H), *[veq(h.elem(i), buf.elem(s + i)) for i in range(H)]))
        c.prove('field items in wire order with their types', d[1:-1] == [(f'{name}_{n}', t) for n, t, _ in wire])
        c.prove('crc item', d[-1] == 'crc')
        c.prove('one entry per field', [x[0] for x in f] == [f'{name}_{n}' for n, _, _ in wire])
        c.prove('each field has the value and type of the message', And(*[And(isinstance(x[1], tuple) and len(x[1]) == 2 and x[1][1] == t,
                                                                            veq(x[1][0], self.msg[n])) for x, (n, t, _) in zip(f, wire)]) if len(f) == len(wire) else False)

    def cls(self, mid):
        from mavlink_utils import HC_dialect
        return HC_dialect.mavlink_map[mid]

    def done(self, c, L):
        self.complete = True

    # ---- contract of the dialect's decoder on a complete frame
    def decode(self, it, args, kw):
        args = args[-1:]
        F = self.D.F
        b = args[0].b if isinstance(args[0], ByteArr) else None
        if not isinstance(b, SBytes) or b.src is not F.buf or kw:
            raise Unsupported('argument of the decoder')
        c = F.c
        s = self.D.start(self.k)
        c.prove('the decoder is given exactly the bytes of the reported message', And(veq(mk(term(b.off)), s), veq(b.length, OV + F.L(s))))
        from mavlink_utils import HC_dialect
        cls = self.cls(self.mid)
        vals = {n: c.fresh('value', 'int') for n in cls.fieldnames}
        m = cls(*vals.values())
        e = lambda i: F.buf.elem(s + i)
        m._header = HC_dialect.MAVLink_header(self.mid, 0, 0, e(1), e(2), e(3), e(4))
        self.msg = vals
        it.assumed.add("the dialect's decoder returns the message of the frame with that header (C30)")
        return m


def views(which, table, wire):
    def body(c, mkit):
        F = Frames(c)
        D = Messages(c, F)
        EM = EachMessage(D, table, wire)
        # contract of segment_buffer (decided as C05 and by the jobs above)
        def seg(it, args, kw):
            if len(args) != 2 or args[1] is not F.buf or kw:
                raise Unsupported('argument of segment_buffer')
            return Opaque(), Opaque(), D
        from mavlink_utils import HC_dialect
        con = {BufferSegmentation.segment_buffer: seg, HC_dialect.MAVLink.decode: EM.decode}
        it = mkit(contracts=con, loops=[EM])
        bs = object.__new__(BufferSegmentation)
        bs.protocol_parser = GCall(F.parser)
        if which == 'structure':
            r = returns(c, it, Bound(BufferSegmentation.get_buffer_structure, bs), [F.buf])
            if type(r) is not BufferStructure:
                raise Unsupported('form of the structure view')
            c.prove('the structure view holds the reported frames', r.structure is D)
            c.prove('nothing is registered yet', r.reception_count == 0 and type(r.received_buffers) is list and r.received_buffers == [])
            c.prove('one message per reported frame', veq(returns(c, it, Bound(BufferStructure.__len__, r), []), D.N))
            return
        r = returns(c, it, Bound(BufferSegmentation.get_msg_fields, bs), [F.buf])
        if not isinstance(r, tuple) or len(r) != 2:
            raise Unsupported('form of the field view')
        f, d = r
        if type(f) is dict and type(d) is list:
            c.prove('empty views only when no frame was reported', f == {} and d == [] and veq(D.N, 0))
        else:
            c.prove('the views cover all reported frames', f is EM.gd and d is EM.gl and getattr(EM, 'complete', False) and not f.log and not d.log)
    return body
