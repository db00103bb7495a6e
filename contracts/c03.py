"""C03 nearest valid header"""
from .common import *
from protocol_meta.msg_header import hamming_distance_2_valid_header, HeaderLength

TABLE = dict(meta.msgs_payload_length)


def spec(b, max_len):
    adm = [(bin(0xFE ^ b[0]).count('1') + bin(n ^ b[1]).count('1') + bin(i ^ b[5]).count('1'), i)
           for i, n in TABLE.items() if max_len is None or n <= max_len]
    return adm


def jobs(tier):
    from pyvc.loops import LoopContract, NoRole
    from utils.bit_operations import hamming_distance
    ids = list(TABLE.items())

    def hd_contract(c, HD):
        """call-site contract of hamming_distance for two uint8 values (C04): HD(a, b), between 0 and 8"""
        def h(it, args, kw):
            a, b = args[:2]
            if len(args) > 2 or kw or not all(isS(x) or isinstance(x, int) for x in (a, b)):
                raise Unsupported('hamming_distance of other operands')
            c.prove('precondition of hamming_distance: operands fit 8 bits',
                    And(mk(term(a) >= 0), mk(term(a) <= 255), mk(term(b) >= 0), mk(term(b) <= 255)), kind='pre')
            it.assumed.add('hamming_distance(a, b) on uint8 values is the number of differing bits (proved as C04)')
            return HD(a, b)
        return {hamming_distance: h}

    class Best(LoopContract):
        """before candidate k: d is not above the cost of any admissible candidate seen, and either chosen is an
        admissible candidate w < k with cost d, or none was admissible and d >= 17.  J and M are arbitrary candidates."""
        name = 'running minimum over the message table'
        concrete = True

        def __init__(self, N, Id, Len, ok, cost, J, M):
            self.N, self.Id, self.Len, self.ok, self.cost, self.JM = N, Id, Len, ok, cost, (J, M)

        def match(self, it, s, fr, si):
            return fr.name.split('.')[-1] == 'hamming_distance_2_valid_header'

        def enter(self, c, L):
            L.pairs = L.items == ids
            if not L.pairs and L.items != [i for i, _ in ids]:
                raise NoRole('not a loop over the message table')
            names = sorted(L.names)
            d = [n for n in names if isinstance(L.get(n), (int, float)) and not isinstance(L.get(n), bool) and L.get(n) >= 17]
            o = [n for n in names if n not in d]
            if len(d) != 1 or len(o) != 1:
                raise NoRole('expected a minimum and an argument')
            L.d, L.o = d[0], o[0]

        def abstract_items(self, c, L):
            if L.pairs:
                return SymIter(self.N, lambda k: (self.Id(k), self.Len(k)), 'items')
            return None

        def inv(self, d, ch, k, w):
            f = [Implies(And(j < k, self.ok(self.Len(j))), self.cost(j) >= d) for j in self.JM]
            some = And(w >= 0, w < k, veq(ch, self.Id(w)), self.ok(self.Len(w)), self.cost(w) == d)
            none = And(*[Implies(j < k, Not(self.ok(self.Len(j)))) for j in self.JM], d >= 17)
            return And(*f, Or(some, none))

        def havoc(self, c, L, k):
            d, ch, L.w = c.fresh('min', 'int'), c.fresh('arg', 'int'), c.fresh('w', 'int')
            L.set(L.d, d)
            L.set(L.o, ch)
            L.ch, L.k = ch, k
            c.assume(self.inv(d, ch, k, L.w))

        def check(self, c, L, k, what):
            d, ch = L.get(L.d), L.get(L.o)
            if not isS(k):
                c.prove(f'invariant of the table scan {what}', d >= 17, kind='inv')
                return
            if not all(isS(x) or isinstance(x, int) for x in (d, ch)):
                raise Unsupported('state of the scan is not a pair of integers')
            # the witness is the old one or the candidate just seen
            c.prove(f'invariant of the table scan {what}', Or(self.inv(d, ch, k, L.w), self.inv(d, ch, k, k - 1)), kind='inv')

    out = []

    def body(lim):
        def f(c, mkit):
            b = SBytes.fresh('buffer')
            ml = None
            args = [b]
            if lim:
                ml = sym(c, 'max_len')
                args.append(ml)
            ok = (lambda n: True) if ml is None else (lambda n: ml >= n)
            N = c.fresh('messages', 'int')
            fi, fl, fh = c.fresh_fn('id', 'int', 'int'), c.fresh_fn('len', 'int', 'int'), c.fresh_fn('hd', 'int', 'int', 'int')

            def byte(F, lo=0, hi=255):
                def g(k):
                    t = F(term(k))
                    c.axiom((F.name(), t.sexpr()), z3.And(t >= lo, t <= hi))
                    return mk(t)
                return g
            Id, Len = byte(fi), byte(fl, min(n for _, n in ids), max(n for _, n in ids))

            def HD(a, q):
                t = fh(term(a), term(q))
                c.axiom(('hd', t.sexpr()), z3.And(t >= 0, t <= 8))
                return mk(t)

            def cost(j):
                return HD(Len(j), b.elem(1)) + HD(Id(j), b.elem(5))
            # an arbitrary table of uint8 pairs in which message M fits the limit; J is any message
            J, M = c.fresh('J', 'int'), c.fresh('M', 'int')
            c.assume(And(J >= 0, J < N, M >= 0, M < N, ok(Len(M))))
            it = mkit(contracts=hd_contract(c, HD), loops=[Best(N, Id, Len, ok, cost, J, M)])
            cover(c)
            k, r = outcome(it, hamming_distance_2_valid_header, args)
            if k == 'exc':
                c.prove('only wrong lengths are rejected', And(type(r) is HeaderLength, b.length != 6), kind='exc')
                return
            c.prove('accepted buffers have 6 bytes', b.length == 6)
            d, mid = r
            base = HD(0xFE, b.elem(0))
            c.prove('no admissible header is closer than the returned distance', Implies(ok(Len(J)), base + cost(J) >= d))
            w = z3.Int('w_any')
            c.prove('the returned message is admissible and attains the distance',
                    mk(z3.Exists([w], bterm(And(mk(w) >= 0, mk(w) < N, veq(mid, mk(fi(w))), ok(mk(fl(w))),
                                                base + mk(fh(fl(w), term(b.elem(1)))) + mk(fh(fi(w), term(b.elem(5)))) == d)))))
        return f

    def table(c, mkit):
        c.prove('the message table holds uint8 ids and lengths', all(0 <= i <= 255 and 0 <= n <= 255 for i, n in ids))
    out.append(Job('nearest header, all buffers, no limit', body(False)))
    out.append(Job('nearest header, all buffers and limits', body(True)))
    out.append(Job('message table', table))
    return out


def check(case):
    b, ml = case[1:]
    try:
        r = hamming_distance_2_valid_header(b, ml) if ml is not None else hamming_distance_2_valid_header(b)
    except HeaderLength:
        return None if len(b) != 6 else 'HeaderLength for a 6 byte buffer'
    if len(b) != 6:
        return f'{len(b)} bytes accepted'
    adm = spec(b, ml)
    if not adm:
        return None
    m = min(adm)[0]
    d, i = r
    if d != m or (d, i) not in adm:
        return f'hamming_distance_2_valid_header({b!r}, {ml}) = {r}; minimum {m} at ids {[j for x, j in adm if x == m]}'


def cases(rng, tier, part, nparts):
    ids = list(TABLE.items())
    lens = sorted(set(TABLE.values()))
    for n in range(0, 20):
        yield ('len', rand_bytes(rng, n), None)
    # exact headers under every limit (thinned in quick)
    for q, (i, n) in enumerate(ids):
        if q % nparts == part:
            for ml in ([None, n, n - 1, n + 1] + lens if tier != 'quick' else [None, n, n - 1, n + 1, rng.choice(lens)]):
                if ml is None or ml >= lens[0]:
                    yield ('exact', bytes([0xFE, n, 1, 2, 3, i]), ml)
    while True:
        i, n = rng.choice(ids)
        b = bytearray(bytes([0xFE, n]) + rand_bytes(rng, 3) + bytes([i]))
        for _ in range(rng.choice([0, 1, 1, 2, 3, 8])):
            p = rng.choice([0, 1, 1, 5, 5])
            b[p] ^= 1 << rng.randrange(8)
        ml = rng.choice([None, None, rng.choice(lens), n, n - 1, n + 1, 255, 1000])
        if ml is not None and ml < lens[0]:
            ml = lens[0]
        yield ('rnd', bytes(b), ml)
        yield ('rnd', rand_bytes(rng, 6), ml)
