"""C07 bad buffer parts"""
from .common import *
from inference.buffer_segmentation import BufferSegmentation, MsgParts
from pyvc.loops import LoopContract, NoRole
from .seg import Log
import ast

P = list(MsgParts)
U = MsgParts.UNKNOWN


def runs(parts):
    out, s = [], None
    for i, p in enumerate(parts):
        if p == U and s is None:
            s = i
        if p != U and s is not None:
            out.append((s, i))
            s = None
    if s is not None:
        out.append((s, len(parts)))
    return out


class Scan(LoopContract):
    """before byte i: length = number of unknown bytes directly before i; exactly the runs that end before i are recorded"""
    name = 'bytes of the buffer'

    def __init__(self, W):
        self.W = W

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] in ('bad_buffer_parts', 'bad_buffer_idx')

    def enter(self, c, L):
        W = self.W
        zero = [n for n in L.names if type(L.get(n)) is int and L.get(n) == 0]
        if isinstance(L.stmt, ast.While):
            tn = {x.id for x in ast.walk(L.stmt.test) if isinstance(x, ast.Name)}
            idx = [n for n in zero if n in tn]
            if len(idx) != 1:
                raise NoRole('position')
            self.idx = idx[0]
            zero = [n for n in zero if n != self.idx]
        else:
            j = c.fresh('rj', 'int')
            e = L.si.el(j)
            if isinstance(e, tuple):
                e = e[0]
            if not isS(e) or not c.implied(veq(e, j)) or not c.implied(veq(L.si.n, W.n)):
                raise NoRole('positions of the loop')
            self.idx = None
        if len(zero) != 1:
            raise NoRole('length of the current run')
        self.ln = zero[0]
        outs = [n for n, v in L.fr.locals.items() if type(v) in (dict, list) and not v]
        if len(outs) != 1 or outs[0] in L.names:
            raise NoRole('recorded runs')
        self.out = outs[0]
        self.kind = type(L.fr.locals[self.out])
        self.g = None

    def state(self, L, i):
        W = self.W
        ln = L.fr.locals[self.ln]
        return And(ln >= 0, ln <= i, i <= W.n, Or(veq(ln, i), Not(W.U(i - ln - 1))), *[Implies(And(i - ln <= p, p < i), W.U(p)) for p in W.ps + ([i - 1] if isS(i) else [])],
                   *([veq(L.fr.locals[self.idx], i)] if self.idx else []))

    def havoc(self, c, L, i):
        self.i = i
        L.set(self.ln, c.fresh('length', 'int'))
        if self.idx:
            L.set(self.idx, i)
        self.g = Log(self.kind)
        L.fr.locals[self.out] = self.g
        c.assume(self.state(L, i))

    def check(self, c, L, i, what):
        W = self.W
        if not all(isS(L.fr.locals[x]) or type(L.fr.locals[x]) is int for x in [self.ln] + ([self.idx] if self.idx else [])):
            raise Unsupported('state of the scan')
        c.prove(f'the current run is the unknown bytes directly before the position ({what})', self.state(L, i))
        if self.g is not None:
            if L.fr.locals.get(self.out) is not self.g:
                raise Unsupported('record replaced')
            k = i - 1
            W.recorded(c, self.g, k, And(k > 0, W.U(k - 1), Not(W.U(k))), f'({what})')

    def done(self, c, L):
        self.W.scan = self
        if not self.idx:
            self.W.atend = True
            c.assume(self.state(L, self.W.n))


class World:
    def __init__(self, c):
        self.c = c
        self.buf = SBytes.fresh('buffer')
        self.n = self.buf.length
        self.code = c.fresh_fn('class', 'int', 'int')
        from pyvc.values import code_of
        self.ks = [code_of(m) for m in MsgParts]
        self.u = code_of(U)

        def rd(x):
            t = self.code(term(x[0]))
            c.axiom(('code', t.sexpr()), z3.Or(*[t == k for k in self.ks]))
            return SChoice(t)
        self.parts = SArr.new((self.n,), rd, 'O')
        c.ro = dict(c.ro or {})
        c.ro[id(self.parts.cell)] = 'classification'
        self.P = c.fresh('P', 'int')
        self.ps = [self.P]
        self.scan = None

    def U(self, p):
        return mk(self.code(term(p)) == self.u)

    def recorded(self, c, g, e, ends, tag):
        """in this step: a run ending at e (exclusive) is recorded iff there is one, as a maximal run"""
        if len(g.log) > 1:
            raise Unsupported('several records in one step')
        if not g.log:
            c.prove(f'a run that ends here is recorded {tag}', Not(ends))
            return
        x = g.log[0]
        if not isinstance(x, tuple) or len(x) != 2:
            raise Unsupported('form of a record')
        a, b = x
        P = self.P
        c.prove(f'only runs that end here are recorded {tag}', ends)
        c.prove(f'the recorded start is that of the maximal run {tag}',
                And(a >= 0, a < e, Or(veq(a, 0), Not(self.U(a - 1))), Implies(And(a <= P, P < e), self.U(P))))
        if g.kind is list:
            c.prove(f'the recorded end is that of the run {tag}', veq(b, e))
        else:
            if not isinstance(b, SBytes) or b.src is not self.buf:
                raise Unsupported('recorded bytes')
            c.prove(f'the recorded bytes are those of the run {tag}', And(veq(mk(term(b.off)), a), veq(b.length, e - a)))


def part_job(fn, kind):
    def body(c, mkit):
        W = World(c)
        # with / without unknown bytes
        some = c.choose(2) == 0
        w = c.fresh('unknown_at', 'int')
        if some:
            c.assume(And(w >= 0, w < W.n, W.U(w)))
        else:
            z = z3.Int('cq')
            c.assume(mk(z3.ForAll([z], bterm(Implies(And(mk(z) >= 0, mk(z) < W.n), Not(W.U(mk(z))))))))
        sc = Scan(W)
        it = mkit(loops=[sc])
        r = returns(c, it, fn, [W.buf, W.parts])
        if not some:
            if r is None or type(r) in (dict, list):
                c.prove('no unknown bytes: no index list / an empty dictionary', r is None if kind is list else type(r) is dict and r == {})
            elif isinstance(r, Log):
                # the scan ran; nothing can have been recorded
                raise Unsupported('scan of a buffer without unknown bytes')
            return
        if not isinstance(r, Log) or r is not sc.g:
            if type(r) in (dict, list) or r is None:
                c.prove('unknown bytes are reported', False)
            raise Unsupported('form of the result')
        # after the loop: a run that reaches the end of the buffer
        W.recorded(c, r, W.n, And(W.n > 0, W.U(W.n - 1)), '(end of the buffer)')
    return body


def jobs(tier):
    return [Job('bad_buffer_idx', part_job(BufferSegmentation.bad_buffer_idx, list)),
            Job('bad_buffer_parts', part_job(BufferSegmentation.bad_buffer_parts, dict))]


def check(case):
    _, buffer, codes = case
    parts = np.array([P[k] for k in codes], dtype=object)
    keep = list(parts)
    want = runs(keep)
    idx = BufferSegmentation.bad_buffer_idx(buffer, parts)
    d = BufferSegmentation.bad_buffer_parts(buffer, parts)
    if list(parts) != keep:
        return 'the classification was modified'
    if not want:
        if idx is not None or d != {}:
            return f'no unknown byte, but views are {idx} and {d}'
        return
    if idx is None or [tuple(int(v) for v in x) for x in idx] != want:
        return f'index view {idx}, maximal unknown runs {want}'
    if list(d.items()) != [(a, buffer[a:b]) for a, b in want]:
        return f'dictionary view {d}, maximal unknown runs {want}'


def cases(rng, tier, part, nparts):
    import itertools
    for n in range(0, 8):      # every pattern of known / unknown bytes of up to 7 bytes
        for bits in itertools.product([0, 1], repeat=n):
            yield ('pattern', bytes(range(65, 65 + n)), tuple(3 if b else rng.randrange(3) for b in bits))
    while True:
        n = rng.choice([1, 2, 5, 16, 17, 64, 255, 256, 300, 1030])
        out = []
        while len(out) < n:
            out += [rng.choice([3, 3, 0, 1, 2])] * rng.choice([1, 1, 2, 3, 8, 40, 260])
        yield ('runs', rand_bytes(rng, n), tuple(out[:n]))


def shrink(case):
    k, b, c = case
    for n in (len(b) // 2, 4, 1):
        if 0 < n < len(b):
            yield k, b[n:], c[n:]
            yield k, b[:-n], c[:-n]
