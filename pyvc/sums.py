"""Finite sums over symbolic ranges.

A sum is a z3 constant identified by its (length, body) normal form.  The lemmas about sums that are
added on demand (congruence, sign, bounds, zero, monotonicity, complement) are instances of theorems
about finite sums proved by induction on the length (see DESIGN.md); their pointwise premises are
discharged by the solver for an arbitrary index.
"""
import z3
from .terms import S, mk, term, bterm, ctx, isS, And, Implies, ite, to_real, Unsupported, cast
from .values import norm_int

MAX_UNROLL = 64


def bound(c, base, fn):
    """fn at a bound variable; the constants it introduces must not depend on that variable"""
    d = len(c.binders)
    if d > 6:
        raise Unsupported("deeply nested binders")
    var = z3.Int(base + 'x' * d)
    start = c.nfresh
    c.binders.append(var)
    try:
        v = fn(S(var))
    finally:
        c.binders.pop()
    if isS(v):
        for x in [v.t] + ([v.nan] if v.nan is not None and not isinstance(v.nan, bool) else []):
            for name in new_names(x, start):
                if name not in c.closed_ok:
                    raise Unsupported("a quantity defined per index under a sum or quantifier")
    return v, var


def subterms(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        stack.extend(x.children())


def new_names(t, start):
    t = bterm(t) if not z3.is_expr(t) else t
    for x in subterms(t):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            k = n.rsplit('!', 1)
            if len(k) == 2 and k[1].isdigit() and int(k[1]) > start:
                yield n


def closed(c, *ts):
    """do the terms avoid the bound variables in scope"""
    bad = {v.get_id() for v in c.binders}
    return not bad or not any(x.get_id() in bad for t in ts for x in subterms(t))


def define(c, const, *ts):
    """const is defined by the terms: allowed under binders only if it does not depend on them"""
    if c.binders:
        if not closed(c, *ts):
            raise Unsupported("a quantity defined per index under a sum or quantifier")
        c.closed_ok.add(const.sexpr())


class SumRec:
    __slots__ = ('c', 'n', 'fn', 'body', 'sort')

    def __init__(self, c, n, fn, body, sort):
        self.c, self.n, self.fn, self.body, self.sort = c, n, fn, body, sort


def mk_sum(n, fn, kind=None):
    """sum of fn(i) for 0 <= i < n"""
    n = norm_int(n)
    if not isS(n) and n <= MAX_UNROLL:
        r = 0
        for i in range(n):
            v = fn(i)
            if isS(v) and v.is_bool or isinstance(v, bool):
                v = cast(v, 'i')
            r = r + v
        return r
    c = ctx()
    v, _ = bound(c, 'sum_idx', fn)
    if isS(v) and v.is_bool or isinstance(v, bool):
        v = cast(v, 'i')
    nan = v.nan if isS(v) else None
    if nan is not None:
        raise Unsupported("sum of possibly NaN values")
    bt = z3.simplify(term(v))
    sort = bt.sort()
    nt = term(n)
    key = ('sum', z3.simplify(nt).sexpr(), bt.sexpr())
    for rec in c.sums:
        if rec.body.eq(bt) and (rec.n.eq(nt) or z3.simplify(rec.n == nt).eq(z3.BoolVal(True))):
            return mk(rec.c)
    s = c.fresh('sum', 'int' if sort == z3.IntSort() else 'real')
    define(c, s.t, bt, nt)
    rec = SumRec(s.t, nt, fn, bt, sort)
    c.sums.append(rec)
    c.axiom(('sum0', s.t.sexpr()), z3.Implies(nt <= 0, s.t == 0))
    if sort == z3.IntSort() or True:
        _basic(c, rec)
    return s


def at(rec, i):
    """body at index i (evaluated, so that the facts about its terms get instantiated)"""
    v = rec.fn(S(i))
    if isS(v) and v.is_bool or isinstance(v, bool):
        v = cast(v, 'i')
    t = term(v)
    return z3.ToReal(t) if t.sort() != rec.sort and rec.sort == z3.RealSort() else t


def _basic(c, rec):
    i = z3.Int('sumq!%d' % len(c.sums))
    b = at(rec, i)
    dom = z3.And(i >= 0, i < rec.n)
    zero = z3.IntVal(0) if rec.sort == z3.IntSort() else z3.RealVal(0)
    n = rec.n if rec.sort == z3.IntSort() else z3.ToReal(rec.n)
    pos = z3.If(n >= 0, n, zero)
    if c.implied(z3.Implies(dom, b >= 0)):
        c.axiom(('sumnn', rec.c.sexpr()), rec.c >= 0)
        if c.implied(z3.Implies(dom, b <= 1)):
            c.axiom(('sumub', rec.c.sexpr()), rec.c <= pos)
        # a non-negative sum is zero iff all terms are zero; witness form for a positive one
        w = z3.Int('sumw!' + rec.c.sexpr())
        bw = at(rec, w)
        c.axiom(('sumw', rec.c.sexpr()), z3.Implies(rec.c > 0, z3.And(w >= 0, w < rec.n, bw > 0)))
        c.axiom(('sumz', rec.c.sexpr()), z3.ForAll([i], z3.Implies(z3.And(dom, rec.c <= 0), b <= 0)))


def sum_lemmas(c, ms):
    """pairwise lemmas for the sums of a path"""
    out = []
    recs = c.sums[-14:]
    for a in range(len(recs)):
        for b in range(a + 1, len(recs)):
            ra, rb = recs[a], recs[b]
            key = ('sumpair', ra.c.sexpr(), rb.c.sexpr())
            if key in c.axioms:
                continue
            if not ra.n.eq(rb.n) and not c.implied(ra.n == rb.n):
                continue
            i = z3.Int('sump!%d_%d' % (a, b))
            ba, bb = at(ra, i), at(rb, i)
            ca, cb = ra.c, rb.c
            n = ra.n
            if ba.sort() != bb.sort():
                if ba.sort() == z3.IntSort():
                    ba, ca = z3.ToReal(ba), z3.ToReal(ca)
                if bb.sort() == z3.IntSort():
                    bb, cb = z3.ToReal(bb), z3.ToReal(cb)
            dom = z3.And(i >= 0, i < n)
            nn = n if ba.sort() == z3.IntSort() else z3.ToReal(n)
            lem = None
            if c.implied(z3.Implies(dom, ba == bb), ms):
                lem = ca == cb
            elif c.implied(z3.Implies(dom, ba + bb == 1), ms):
                lem = z3.Implies(n >= 0, ca + cb == nn)
            elif c.implied(z3.Implies(dom, ba <= bb), ms):
                lem = ca <= cb
            elif c.implied(z3.Implies(dom, bb <= ba), ms):
                lem = cb <= ca
            c.axioms[key] = True if lem is None else lem
            if lem is not None:
                out.append(lem)
                c.pc.append(lem)
                c.solver.add(lem)
    return out


def count(n, cond):
    """number of i in [0, n) with cond(i)"""
    n = norm_int(n)
    from .terms import mk as _mk
    r = bound(ctx(), 'sum_idx', cond)[0] if isS(n) or n > MAX_UNROLL else None
    if r is True:
        return n
    if r is False:
        return 0
    return mk_sum(n, lambda i: cast(cond(i), 'i'))
