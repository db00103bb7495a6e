"""Path contexts: path condition, forking by re-execution, obligations, solvers."""
import os
import subprocess
import tempfile
import time
import z3
from . import terms
from .terms import Unsupported, ForkNeeded, PathEnd, Raised, S, mk, bterm, term, set_ctx


DECISIVE = ('post', 'frame', 'exc', 'lemma')


class Obligation:
    __slots__ = ('name', 'status', 'time', 'backend', 'model', 'note', 'path', 'kind', 'smt')

    def __init__(self, name, status, t, backend, model=None, note='', path=(), kind='post'):
        self.name, self.status, self.time, self.backend = name, status, t, backend
        self.model, self.note, self.path, self.kind = model, note, path, kind
        self.smt = None


class Run:
    """exploration of all paths of one proof job"""

    def __init__(self, label, timeout_ms=4000, branch_ms=1500, budget_s=240, max_paths=6000, use_cvc5=True):
        self.label = label
        self.timeout_ms = timeout_ms
        self.branch_ms = branch_ms
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.obligations = {}
        self.cache = {}
        self.worklist = [()]
        self.paths = 0
        self.ended = 0
        self.solver_time = 0.0
        self.use_cvc5 = use_cvc5
        self.stop_on_fail = True
        self.loop_choice = {}

    def explore(self, body):
        """body(ctx) is executed once per path"""
        while self.worklist:
            if time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            if self.paths >= self.max_paths:
                raise Unsupported("too many paths")
            prefix = self.worklist.pop()
            c = Ctx(self, prefix)
            set_ctx(c)
            try:
                body(c)
                self.ended += 1
            except PathEnd:
                pass
            finally:
                set_ctx(None)
            self.paths += 1
            if self.stop_on_fail and any(o.status == 'failed' and o.kind in DECISIVE for o in self.obligations.values()):
                break
        return list(self.obligations.values())


class Ctx:
    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set('timeout', run.branch_ms)
        self.pc = []
        self.spec = 0
        self.nfresh = 0
        self.in_inv = 0
        self.binders = []
        self.closed_ok = set()
        self.nquery = 0
        self.axioms = {}
        self.keep = []
        self.mono = {}
        self.logs = {}
        self.sums = []
        self.calls = []          # ghost call log of abstract functions
        self.events = []
        self.loop_depth = 0
        self.abstract = False    # loop cut / abstraction on this path
        self.inputs = []         # symbolic inputs (for concretisation)
        self.heaplog = None      # objects mutated (when recording)
        self.ro = None
        self.shared = {}         # containers that outlive the call
        self.skolems = []

    # -- naming ---------------------------------------------------------------------------------
    def fresh(self, name, sort='int'):
        self.nfresh += 1
        n = f"{name}!{self.nfresh}"
        if sort == 'int':
            return S(z3.Int(n))
        if sort == 'real':
            return S(z3.Real(n))
        if sort == 'bool':
            return S(z3.Bool(n))
        raise ValueError(sort)

    def fresh_fn(self, name, *sorts):
        self.nfresh += 1
        m = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}
        return z3.Function(f"{name}!{self.nfresh}", *[m[s] for s in sorts])

    # -- assumptions ------------------------------------------------------------------------------
    def assume(self, x):
        t = bterm(x)
        if z3.is_true(t):
            return
        self.pc.append(t)
        self.solver.add(t)
        if z3.is_false(t):
            raise PathEnd()

    def axiom(self, key, x, keep=None):
        if key in self.axioms:
            return
        t = bterm(x)
        self.axioms[key] = t
        if keep is not None:
            self.keep.append(keep)
        self.pc.append(t)
        self.solver.add(t)

    def inst_mono(self, name, F, t, strict=False):
        lst = self.mono.setdefault(name, [])
        for u in lst:
            if u.eq(t):
                return
        for u in lst:
            self.axiom((name, 'mono', u.get_id(), t.get_id()),
                       z3.And(z3.Implies(u < t, F(u) < F(t)), z3.Implies(t < u, F(t) < F(u)),
                              z3.Implies(u == t, F(u) == F(t))), keep=(u, t))
        lst.append(t)

    def inst_log(self, t):
        F = terms.F_LOG
        self.axiom(('log', t.get_id()), z3.And(z3.Implies(t == 1, F(t) == 0),
                                                z3.Implies(z3.And(t > 0, t < 1), F(t) < 0),
                                                z3.Implies(t > 1, F(t) > 0)), keep=t)
        # log(a/b) = log a - log b  for positive a, b
        if z3.is_app_of(t, z3.Z3_OP_DIV):
            a, b = t.arg(0), t.arg(1)
            self.axiom(('logdiv', t.get_id()), z3.Implies(z3.And(a > 0, b > 0), F(t) == F(a) - F(b)), keep=t)
        lst = self.mono.setdefault('log', [])
        for u in lst:
            if u.eq(t):
                return
        for u in lst:
            self.axiom(('log', 'mono', u.get_id(), t.get_id()),
                       z3.Implies(z3.And(u > 0, t > 0),
                                  z3.And(z3.Implies(u < t, F(u) < F(t)), z3.Implies(t < u, F(t) < F(u)),
                                         z3.Implies(u == t, F(u) == F(t)))), keep=(u, t))
        lst.append(t)

    # -- solver access ------------------------------------------------------------------------------
    def _check(self, t, ms):
        """sat/unsat/unknown of pc and t; cached across re-executions"""
        self.nquery += 1
        key = (tuple(self.decisions), self.nquery)
        r = self.run.cache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        self.solver.push()
        self.solver.add(t)
        self.solver.set('timeout', ms)
        r = str(self.solver.check())
        self.solver.pop()
        self.run.solver_time += time.time() - t0
        self.run.cache[key] = r
        return r

    def implied(self, x, ms=None):
        t = bterm(x)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self._check(z3.Not(t), ms or self.run.branch_ms) == 'unsat'

    def feasible(self, x=True):
        t = bterm(x)
        if z3.is_false(t):
            return False
        return self._check(t, self.run.branch_ms) != 'unsat'

    def concrete_int(self, t):
        """the unique integer value of t under the path condition, or None"""
        t = z3.simplify(term(t))
        if z3.is_int_value(t):
            return t.as_long()
        self.nquery += 1
        key = (tuple(self.decisions), self.nquery, 'ci')
        if key in self.run.cache:
            return self.run.cache[key]
        t0 = time.time()
        v = None
        self.solver.set('timeout', self.run.branch_ms)
        if self.solver.check() == z3.sat:
            v = self.solver.model().eval(t, model_completion=True)
            v = v.as_long() if z3.is_int_value(v) else None
            if v is not None:
                self.solver.push()
                self.solver.add(t != v)
                if self.solver.check() != z3.unsat:
                    v = None
                self.solver.pop()
        self.run.solver_time += time.time() - t0
        self.run.cache[key] = v
        return v

    def branch(self, t):
        t = z3.simplify(t) if t.num_args() <= 3 else t
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.decisions)
        if not self.spec and i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.nquery += 2
            if d[0] == 'f':      # forced decision, condition implied
                return d[1]
            self.assume(t if d[1] else z3.Not(t))
            return d[1]
        a = self._check(t, self.run.branch_ms) != 'unsat'
        b = self._check(z3.Not(t), self.run.branch_ms) != 'unsat'
        if not a and not b:
            raise PathEnd()
        if a and b:
            if self.spec:
                raise ForkNeeded()
            self.run.worklist.append(tuple(self.decisions) + (('b', False),))
            self.decisions.append(('b', True))
            self.assume(t)
            return True
        if not self.spec:
            self.decisions.append(('f', a))
        return a

    def choose(self, n, what=''):
        """non-deterministic choice between n alternatives (all explored)"""
        if self.spec:
            raise ForkNeeded()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            return d[1]
        for k in range(n - 1, 0, -1):
            self.run.worklist.append(tuple(self.decisions) + (('c', k),))
        self.decisions.append(('c', 0))
        return 0

    # -- obligations ----------------------------------------------------------------------------------
    def prove(self, name, x, kind='post', ms=None):
        if self.spec:
            raise ForkNeeded()
        if kind == 'post' and self.in_inv:
            kind = 'inv'
        t = bterm(x)
        self.nquery += 1
        key = (tuple(self.decisions), self.nquery, name)
        o = self.run.obligations.get(key)
        if o is not None:
            return o.status == 'proved'
        t0 = time.time()
        ms = ms or self.run.timeout_ms
        status, backend, model, note = solve(self.pc, t, ms, self)
        o = Obligation(name, status, time.time() - t0, backend, None, note, tuple(self.decisions), kind)
        self.run.solver_time += o.time
        if status != 'proved':
            o.model = model
            o.note = (o.note + ' goal: ' + str(t)[:600]).strip()
            o.smt = (list(self.pc), t, list(self.inputs))
        self.run.obligations[key] = o
        return status == 'proved'


def is_nl(t):
    return z3.is_mul(t) and sum(not z3.is_rational_value(a) and not z3.is_int_value(a) for a in t.children()) > 1


def nonlinear(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_nl(x):
            return True
        st.extend(x.children())
    return False


def linear_unsat(pc, goal, ms):
    """is pc and not goal unsatisfiable when the monomials of the expanded polynomials are opaque (sound: weaker facts)"""
    fs = [z3.simplify(f, som=True, hoist_mul=False, blast_distinct=False) for f in list(pc) + [z3.Not(goal)]]
    table, done = {}, {}

    def mono(t):
        num, fac = [], []
        for a in t.children():
            (num if z3.is_rational_value(a) or z3.is_int_value(a) else fac).append(a)
        fac.sort(key=lambda a: a.get_id())
        key = tuple(a.get_id() for a in fac)
        v = table.get(key)
        if v is None:
            v = table[key] = (z3.FreshConst(t.sort(), 'mono'), fac)
        r = v[0]
        for a in num:
            r = a * r
        return r

    def walk(t):
        i = t.get_id()
        if i in done:
            return done[i][0]
        if z3.is_mul(t) and is_nl(t):
            r = mono(t)
        elif t.num_args() == 0 or z3.is_quantifier(t):
            r = t
        else:
            ch = [walk(a) for a in t.children()]
            r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
        done[i] = (r, t)
        return r
    s = z3.Solver()
    s.set('timeout', ms)
    try:
        for f in fs:
            s.add(walk(f))
        return s.check() == z3.unsat
    except (z3.Z3Exception, RecursionError):
        return False


def solve(pc, goal, ms, c=None):
    """prove pc => goal; returns (status, backend, model, note)"""
    goal_s = z3.simplify(goal)
    if z3.is_true(goal_s):
        return 'proved', 'simplifier', None, ''
    if nonlinear(goal_s) and not has_quant(pc) and linear_unsat(pc, goal, min(ms, 3000)):
        return 'proved', 'z3', None, 'monomials as opaque terms'
    s = z3.Solver()
    s.set('timeout', ms)
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', None, ''
    if r == z3.sat and not has_quant(pc) and (c is None or not c.sums) and not has_abstract(pc + [goal]):
        return 'failed', 'z3', s.model(), 'refuted'
    if c is not None and c.sums:
        from .sums import sum_lemmas
        extra = sum_lemmas(c, ms)
        if extra:
            for e in extra:
                s.add(e)
            r2 = s.check()
            if r2 == z3.unsat:
                return 'proved', 'z3', None, 'sum lemmas'
            r = r2
            pc = pc + extra
    if r == z3.sat:
        # a model in which sums, log, exp ... are only constrained by lemmas is no refutation
        if not (c is not None and c.sums) and not has_abstract(pc + [goal]):
            return 'failed', 'z3', s.model(), 'sat'
        m = refuted_without(pc, goal, c, ms)
        return 'failed' if m is not None else 'unknown', 'z3', m if m is not None else s.model(), 'sat'
    reason = s.reason_unknown()
    if c is None or c.run.use_cvc5:
        rr = cvc5_check(pc, goal, max(ms, 3000))
        if rr == 'unsat':
            return 'proved', 'cvc5', None, ''
    # second z3 attempt: different strategy
    for seed, opts in ((7, {'smt.arith.solver': 2}), (11, {'smt.mbqi': False})):
        try:
            s2 = z3.SolverFor('ALL') if False else z3.Solver()
            s2.set('timeout', ms)
            s2.set('random_seed', seed)
            for k, v in opts.items():
                s2.set(k, v)
            for p in pc:
                s2.add(p)
            s2.add(z3.Not(goal))
            r = s2.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return 'proved', 'z3', None, ''
        if r == z3.sat and 'smt.mbqi' not in opts:
            return ('failed' if not (c is not None and c.sums) and not has_abstract(pc + [goal]) else 'unknown'), 'z3', s2.model(), 'sat'
    return 'unknown', 'z3+cvc5', None, f'unknown: {reason}'


def refuted_without(pc, goal, c, ms):
    """a model of the path without the facts about sums, log, exp ... if nothing but such facts mentions them: as these
    facts hold of the real functions, the model extends to a counterexample"""
    if c is None or has_abstract([goal], True):
        return None
    facts = {t.get_id() for t in c.axioms.values() if z3.is_expr(t)}
    keep = []
    for p in pc:
        if has_abstract([p], True):
            if p.get_id() not in facts:
                return None
        else:
            keep.append(p)
    s = z3.Solver()
    s.set('timeout', ms)
    for p in keep:
        s.add(p)
    s.add(z3.Not(goal))
    return s.model() if s.check() == z3.sat else None


ABSTRACT = {'log', 'exp', 'sqrt', 'erf', 'pow2'}


def has_abstract(ts, sums=False):
    seen = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            n = t.decl().name().split('!')[0]
            if n in ABSTRACT or sums and n in ('sum', 'sumw', 'sumq'):
                return True
        stack.extend(t.children())
    return False


def has_quant(ts):
    seen = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        stack.extend(t.children())
    return False


def cvc5_check(pc, goal, ms):
    s = z3.Solver()
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='pyvc_')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        p = subprocess.run(['cvc5', f'--tlimit={ms}', path], capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        return out
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    finally:
        os.unlink(path)
