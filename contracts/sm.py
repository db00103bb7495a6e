"""Ghost values and call-site contracts shared by the proofs about the statistical models (C11 - C14, C25)."""
from .common import *
from scipy.stats import norm
from scipy.special import erf
from pyvc.models import SymTuple, to_arr
from pyvc.terms import f_erf, f_sqrt
from pyvc.loops import LoopContract, NoRole
from pyvc.interp import truth_nb
from inference.statistical_models import FieldModel, BufferModel, num2bits

LIB_TRUST = ['scipy.stats.norm.fit returns the sample mean and the population standard deviation',
             'scipy.special.erf: odd, strictly increasing, in (-1, 1), 0 at 0']


def mean_std(n, el):
    """spec: (mean, population standard deviation) of n > 0 numbers, as functions of the list: equal lists have equal
    statistics (the only fact used besides std >= 0)"""
    c = ctx()
    recs = c.__dict__.setdefault('stats', [])
    for (n2, el2, m, s) in recs:
        i = c.fresh('st', 'int')
        if c.implied(veq(n, n2)) and c.implied(Implies(And(i >= 0, i < n), veq(el(i), el2(i)))):
            return m, s
    m, s = c.fresh('mean', 'real'), c.fresh('std', 'real')
    c.axiom(('std', s.t.sexpr()), s.t >= 0)
    recs.append((n, el, m, s))
    return m, s


def fit_model(it, args, kw):
    data = args[1]
    if kw or len(args) != 2:
        raise Unsupported('norm.fit arguments')
    if isinstance(data, list):
        if not data:
            raise Raised(ValueError('empty'))
        data = SList([('items', list(data))])
    if isinstance(data, SArr) and data.ndim == 1:
        r = data.reader()
        data = SList([('fn', data.shape[0], lambda i: r((i,)))])
    if not isinstance(data, SList):
        raise Unsupported('norm.fit of ' + type(data).__name__)
    n = data.length()
    if isS(n):
        if not it.branch(n > 0):
            raise Raised(ValueError('empty'))
    elif n == 0:
        raise Raised(ValueError('empty'))
    src = data.copy()
    return mean_std(n, src.elem)


def erf_model(it, args, kw):
    x = args[0]
    if isinstance(x, S):
        return f_erf(x)
    return it.native(erf, args, kw)


LIB = {type(norm).fit: fit_model, erf: erf_model}


class GNames:
    """membership view of a ghost dictionary"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, d):
        self.d = d

    def _pyvc_contains(self, it, x):
        return self.d.has(x)

    def _pyvc_getattr(self, it, name):
        raise Unsupported('view attribute ' + name)


class GDict:
    """an arbitrary dictionary from names to field models; each present name has its own model"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, has, obj):
        self.has, self.obj = has, obj
        self.sets = []

    def _pyvc_contains(self, it, x):
        return self.has(x)

    def _pyvc_getitem(self, it, k):
        for key, v in reversed(self.sets):
            if it.branch(veq(k, key)):
                return v
        if not it.branch(truth_nb(self.has(k))):
            raise Raised(KeyError('name'))
        return self.obj(k)

    def _pyvc_setitem(self, it, k, v):
        self.sets.append((k, v))
        h = self.has
        self.has = lambda q: Or(veq(q, k), h(q))

    def _pyvc_getattr(self, it, name):
        if name == 'keys':
            return lambda: GNames(self)
        if name == 'get':
            return GGet(self)
        raise Unsupported('dictionary method ' + name)


class GGet:
    def __init__(self, d):
        self.d = d

    def _pyvc_call(self, it, args, kw):
        if it.branch(truth_nb(self.d.has(args[0]))):
            return self.d._pyvc_getitem(it, args[0])
        return args[1] if len(args) > 1 else None


class GField:
    """the field model stored under a name, seen through the contracts of its methods"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, name, G):
        self.name, self.G = name, G

    def _pyvc_getattr(self, it, attr):
        if attr in ('classify_value', 'add_sample', 'bitwise_mean'):
            return Bound(getattr(FieldModel, attr), self)
        if attr == 'mean':
            return self.G.mean(self.name)
        if attr == 'std':
            return self.G.std(self.name)
        if attr == 'field_type':
            return self.G.ftype(self.name)
        raise Unsupported('field model attribute ' + attr)


class structure_contracts:
    """call-site contracts of BufferModel.unpack_structure / unpack_values (decided as C11) for an arbitrary structure:
    n fields, field j has name(j), type ftype(j), value value(j); bit i belongs to field b2v(i) in -1 .. n-1, and
    field j covers exactly the bits start(j) .. start(j) + width(j) - 1"""
    def __init__(self, c):
        self.c = c
        self.n = c.fresh('fields', 'int')
        c.assume(self.n >= 0)
        self.N, self.T = c.fresh_fn('fname', 'int', 'int'), c.fresh_fn('ftype', 'int', 'int')
        self.V = c.fresh_fn('fvalue', 'int', 'real')
        self.B = c.fresh_fn('b2v', 'int', 'int')
        self.St, self.FL = c.fresh_fn('fstart', 'int', 'int'), c.fresh_fn('tlen', 'int', 'int')
        self.structure = GStruct()
        self.struct_calls, self.value_calls = [], []
        self.contracts = {BufferModel.unpack_structure: self.unpack_structure, BufferModel.unpack_values: self.unpack_values}

    def name(self, j):
        return mk(self.N(term(j)))

    def ftype(self, j):
        return mk(self.T(term(j)))

    def value(self, j):
        return mk(self.V(term(j)))

    def b2v(self, i):
        t = self.B(term(i))
        if self.c.axioms.get(('b2v', z3.simplify(term(i)).sexpr())) is None:
            self.c.axiom(('b2v', z3.simplify(term(i)).sexpr()),
                         z3.And(t >= -1, t < self.n.t, z3.Implies(t >= 0, bterm(self.inside(i, mk(t))))))
        return mk(t)

    def start(self, j):
        return mk(self.St(term(j)))

    def width(self, j):
        """bits of field j: 8 times the length of its type, positive"""
        t = self.FL(self.T(term(j)))
        self.c.axiom(('tlen', t.sexpr()), t >= 1)
        return mk(8 * t)

    def inside(self, i, j):
        return And(i >= self.start(j), i < self.start(j) + self.width(j))

    def focus(self, j):
        """all bits of field j are mapped to j"""
        q = z3.Int('bit!q')
        self.c.axiom(('focus', z3.simplify(term(j)).sexpr()),
                     z3.ForAll([q], z3.Implies(bterm(self.inside(S(q), j)), self.B(q) == term(j))))

    def unpack_structure(self, it, args, kw):
        args = args + [kw[k] for k in ('bitwise', 'buffer_len', 'buffer_structure')[len(args):]]
        bitwise, ln, st = args
        c = self.c
        if st is not self.structure:
            c.prove('the structure given is the one unpacked', False)
            raise PathEnd()
        if not isinstance(bitwise, bool):
            raise Unsupported('symbolic flag')
        self.struct_calls.append((bitwise, ln))
        arr = SArr.new((ln * 8,), lambda idx: self.b2v(idx[0]), 'i') if bitwise else SArr.new((0,), lambda idx: 0, 'i')
        return (arr, SList([('fn', self.n, self.name)]), SList([('fn', self.n, self.ftype)]))

    def unpack_values(self, it, args, kw):
        args = args + [kw[k] for k in ('buffer', 'buffer_structure')[len(args):]]
        self.value_calls.append((args[0], args[1]))
        return SymTuple(self.n, self.value)


class GStruct:
    """an arbitrary buffer structure, only handed on"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def _pyvc_getattr(self, it, name):
        raise Unsupported('structure accessed directly')


class EachOnce(LoopContract):
    """every iteration makes exactly one logged call, with that iteration's data; iterations do not depend on each other"""
    def __init__(self, log, G, fn):
        self.log, self.G, self.fn = log, G, fn
        self.name = 'one call per field'
        self.ran = []
        self.want = None
        self.step = None

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == self.fn

    def enter(self, c, L):
        self.n = L.si.n
        self.before = len(self.log)

    def havoc(self, c, L, k):
        pass

    def body_start(self, c, L, k):
        self.k, self.mark = k, len(self.log)

    def check(self, c, L, k, what):
        if what == 'on entry':
            return
        new = self.log[self.mark:]
        c.prove('each field reaches the models exactly once', len(new) == 1)
        if len(new) == 1:
            j, G = self.k, self.G
            w = (G.name(j), G.value(j), G.ftype(j))
            got = new[0][1]
            c.prove('a field is added with its own name, value and type', len(got) == 3 and And(*[veq(a, b) for a, b in zip(got, w)]))

    def done(self, c, L):
        self.ran.append(self.n)

    def verify(self, c, want, obj):
        c.prove('all fields are visited', len(self.ran) == 1 and veq(self.ran[0], self.G.n))
        c.prove('nothing else is added', len(self.log) == 0)


def returned_names(fn):
    """names in the returned tuple of a function (roles of its locals)"""
    import ast
    from pyvc.interp import func_node, own_nodes
    out = None
    for r in own_nodes(func_node(fn)):
        if isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple) and all(isinstance(e, ast.Name) for e in r.value.elts):
            out = [e.id for e in r.value.elts]
    return out
