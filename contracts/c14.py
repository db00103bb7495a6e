"""C14 save / load round trip"""
import math
import os
import tempfile
from .common import *
from .frames import *
from inference.statistical_models import FieldModel, BufferModel
from inference.buffer_segmentation import BufferSegmentation

import json
import builtins
from collections.abc import Sequence
from pyvc.loops import LoopContract, NoRole
from .sm import LIB, mean_std
from .c12 import field_state, held
from .seg import Log
from .clus import put

TRUSTED = ['json.dump / json.load: a document of dictionaries, lists, strings, numbers and null loads back as written (tuples as lists; '
           'objects through the default function); numbers round-trip', 'bytes.hex / bytes.fromhex are inverse and the hex string is not "crc"',
           'scipy.stats.norm.fit is a function of the samples']


class Hex:
    """hexadecimal string of some bytes"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, b):
        self.b = b

    def _pyvc_isinstance(self, t):
        return t in (str, object, Sequence)

    def _pyvc_eq(self, it, o):
        if isinstance(o, str):
            if o == 'crc':
                return False
            raise Unsupported('comparison of a hex string')
        return False

    def _pyvc_getattr(self, it, name):
        raise Unsupported('string method ' + name)


class HeaderBytes:
    """some bytes object"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def _pyvc_isinstance(self, t):
        return t in (bytes, object, Sequence)

    def _pyvc_getattr(self, it, name):
        if name == 'hex':
            return GCall(lambda it_: Hex(self))
        raise Unsupported('bytes method ' + name)

    def _pyvc_eq(self, it, o):
        return o is self


class Models:
    """the field models of the saved model: N models, the j-th has name name(j)"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, W):
        self.W = W

    def _pyvc_isinstance(self, t):
        return t in (dict, object)

    def _pyvc_len(self, it):
        return self.W.N

    def _pyvc_getattr(self, it, name):
        W = self.W
        if name == 'values':
            return GCall(lambda it_: SymIter(W.N, W.model, 'values', self))
        if name == 'items':
            return GCall(lambda it_: SymIter(W.N, lambda j: (W.name(j), W.model(j)), 'items', self))
        raise Unsupported('use of the field models: ' + name)


class DocModels:
    """the same as a loaded document"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, W):
        self.W = W

    def _pyvc_isinstance(self, t):
        return t in (dict, object)

    def _pyvc_getattr(self, it, name):
        W = self.W
        if name == 'items':
            return GCall(lambda it_: SymIter(W.N, lambda j: (W.name(j), W.json(W.model(j))), 'items', self))
        raise Unsupported('use of the loaded models: ' + name)


class Desc:
    """a buffer description of N items: headers, (name, type) items and 'crc'"""
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, W, form):
        self.W, self.form = W, form      # 'saved', 'document', 'loaded'
        self.sets = []

    def _pyvc_isinstance(self, t):
        return t in (list, object, Sequence)

    def _pyvc_len(self, it):
        return self.W.items

    def item(self, j):
        x = self.W.item(j)
        if self.form == 'document':
            return self.W.json(x)
        if self.form == 'loaded':
            x = self.W.json(x)
            return x.b if isinstance(x, Hex) else x
        return x

    def _pyvc_symiter(self, it):
        return SymIter(self.W.items, self.item, 'list', self)

    def _pyvc_getitem(self, it, k):
        if isinstance(k, slice):
            raise Unsupported('part of the description')
        return self.item(k)

    def _pyvc_setitem(self, it, k, v):
        self.sets.append((k, v))

    def _pyvc_getattr(self, it, name):
        raise Unsupported('use of the description: ' + name)


class File:
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, mode):
        self.mode, self.open = mode, False

    def _pyvc_enter(self, it):
        self.open = True
        return self

    def _pyvc_exit(self, it):
        self.open = False

    def _pyvc_getattr(self, it, name):
        raise Unsupported('use of a file: ' + name)


class World:
    def __init__(self, c, mkit, window, described):
        self.c = c
        self.N, self.items = sym(c, 'models', lo=0), sym(c, 'items', lo=0)
        self.fn = c.fresh_fn('name', 'int', 'int')
        self.cache, self.icache = {}, {}
        self.doc = self.default = None
        self.written = None
        self.it = mkit(contracts={**LIB, json.dump: self.dump, json.load: self.load, builtins.open: self.open_, bytes.fromhex: self.fromhex,
                                  FieldModel.add_sample: self.add_sample},
                       loops=[Update(self), LoadModels(self), LoadDesc(self), Ordered(self)])
        self.window = sym(c, 'window', lo=1) if window else None
        self.size = sym(c, 'size', lo=0)
        self.bm = self.it.call(BufferModel, [])
        put(self.bm, _field_models=Models(self), window_size=self.window, model_size=self.size, _buffer_description=Desc(self, 'saved') if described else None,
            ordered_field_names=Ghost('names of the saved model') if described else None)

    def name(self, j):
        return mk(self.fn(term(j)))

    def model(self, j):
        """the j-th field model (an arbitrary one; one index per path)"""
        k = term(j).sexpr()
        if k not in self.cache:
            c = self.c
            tp = [t for t in SIZES if t != 'char'][c.choose(len(SIZES) - 1)]
            win = sym(c, 'field_window', lo=1) if c.choose(2) else None
            m, n, el = field_state(c, self.it, tp, win)
            put(m, name=self.name(j))
            self.cache[k] = (m, n, el, dict(vars(m)))
        return self.cache[k][0]

    def item(self, j):
        k = term(j).sexpr()
        if k not in self.icache:
            f = self.c.choose(3)
            self.icache[k] = HeaderBytes() if f == 0 else 'crc' if f == 1 else (self.c.fresh('field', 'int'), 'float')
        return self.icache[k]

    def json(self, x):
        """x as it comes back from the document"""
        if x is None or isinstance(x, (bool, int, float, str)) or isS(x):
            return x
        if isinstance(x, Models):
            return DocModels(self)
        if isinstance(x, Desc):
            return Desc(self, 'document')
        if isinstance(x, SList):
            return x.copy()
        if type(x) is dict:
            return {k: self.json(v) for k, v in x.items()}
        if type(x) in (list, tuple):
            return [self.json(v) for v in x]
        if isinstance(x, Hex):
            return x
        if isinstance(x, (FieldModel, HeaderBytes)):
            return self.json(self.it.call(self.default, [x]))
        raise Unsupported('document of other values')

    def open_(self, it, args, kw):
        mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
        if args[0] is not self.path:
            raise Unsupported('file name')
        return File(mode)

    def dump(self, it, args, kw):
        f = args[1]
        if not isinstance(f, File) or not f.open or f.mode not in ('w', 'wt', 'w+') or self.doc is not None:
            raise Unsupported('writing')
        if set(kw) - {'default', 'indent', 'sort_keys'} or type(args[0]) is not dict:
            raise Unsupported('form of the document')
        self.default = kw.get('default')
        self.doc = args[0]

    def load(self, it, args, kw):
        f = args[0]
        if not isinstance(f, File) or not f.open or f.mode not in ('r', 'rt') or kw or self.doc is None:
            raise Unsupported('reading')
        return self.json(self.doc)

    def add_sample(self, it, args, kw):
        """contract of FieldModel.add_sample (proved by C12) for a list added to a new model"""
        m, s = args
        if kw or not isinstance(m, FieldModel) or m.samples != [] or not isinstance(s, SList):
            raise Unsupported('samples added')
        if m.window_size is not None and not self.c.implied(s.length() <= m.window_size):
            raise Unsupported('more samples than the window holds')
        it.assumed.add('FieldModel.add_sample (contract proved by C12)')
        put(m, samples=s.copy(), _up2date=False)

    def fromhex(self, it, args, kw):
        if not isinstance(args[-1], Hex):
            raise Unsupported('fromhex')
        return args[-1].b


class Ghost:
    _pyvc_sym = True
    _pyvc_attrs = True

    def __init__(self, what):
        self.what = what

    def _pyvc_getattr(self, it, name):
        raise Unsupported('use of ' + self.what)


def unchanged(c, W, k, what):
    """the samples, name, type and window of the k-th model are as before"""
    m, n, el, old = W.cache[term(k).sexpr()]
    ln, e = held(c, m)
    c.prove(f'saving leaves the samples ({what})', veq(ln, n))
    forall(c, f'saving leaves every sample ({what})', n, lambda i: veq(e(i), el(i)))
    c.prove(f'saving leaves name, type and window ({what})', And(*[vars(m).get(a) is old[a] or veq(vars(m).get(a), old[a]) for a in ('name', 'field_type', 'window_size', 'field_len', 'int_type', 'signed')]))


class Update(LoopContract):
    """models are only brought up to date"""
    name = 'models to save'

    def __init__(self, W):
        self.W = W

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'save' and si is not None and isinstance(getattr(si, 'src', None), Models)

    def enter(self, c, L):
        if L.names:
            raise NoRole('no state is kept')
        self.k = None

    def havoc(self, c, L, k):
        if k is not L.si.n:
            self.k = k
            m = self.W.model(k)
            L.cover(m)
            L.cover(m.samples)
            for a in vars(m):
                L.cover_attr(m, a)

    def check(self, c, L, k, what):
        if self.k is not None:
            unchanged(c, self.W, self.k, what)


class LoadModels(LoopContract):
    """one model per saved model, with its name, type, window and samples"""
    name = 'models to load'

    def __init__(self, W):
        self.W = W
        self.g = None

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'load' and si is not None and isinstance(getattr(si, 'src', None), DocModels)

    def enter(self, c, L):
        objs = [v for v in L.fr.locals.values() if isinstance(v, BufferModel) and v is not self.W.bm]
        if len({id(x) for x in objs}) != 1 or type(vars(objs[0]).get('_field_models')) is not dict or objs[0]._field_models or L.names:
            raise NoRole('model under construction')
        self.obj = objs[0]
        self.k = None

    def havoc(self, c, L, k):
        self.g = Log(dict)
        put(self.obj, _field_models=self.g)
        L.cover(self.g)
        if k is not L.si.n:
            self.k = k
            # the saving half left the samples of this model as they were (proved by the loop of save)
            self.W.model(k)
        self.W.loaded = self.g

    def check(self, c, L, k, what):
        if self.g is None:
            return
        if self.obj._field_models is not self.g:
            raise Unsupported('models replaced')
        if self.k is None:
            return
        W = self.W
        if len(self.g.log) != 1:
            c.prove('each saved model is loaded once', False)
            raise PathEnd()
        nm, m = self.g.log[0]
        src, n, el, old = W.cache[term(self.k).sexpr()]
        if not isinstance(m, FieldModel):
            raise Unsupported('loaded model')
        c.prove('loaded under its name', veq(nm, W.name(self.k)))
        c.prove('same name, type and window', And(veq(m.name, W.name(self.k)), m.field_type == old['field_type'], m.field_len == old['field_len'], m.int_type == old['int_type'],
                                                m.signed == old['signed'], veq(m.window_size, old['window_size']) if m.window_size is not None and old['window_size'] is not None
                                                else m.window_size is old['window_size']))
        ln, e = held(c, m)
        c.prove('same number of samples', veq(ln, n))
        forall(c, 'same samples in the same order', n, lambda i: veq(e(i), el(i)))
        # statistics reported afterwards are those of the same samples
        u = m._up2date
        if u is not False:
            c.assume(n > 0)
            a, b = mean_std(n, el)
            c.prove('statistics marked up to date are those of the saved samples', Implies(u, And(veq(m._mean, a), veq(m._std, b))))


class LoadDesc(LoopContract):
    """hex strings are turned back into bytes, other items stay"""
    name = 'description to load'

    def __init__(self, W):
        self.W = W

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'load' and si is not None and not isinstance(getattr(si, 'src', None), DocModels)

    def enter(self, c, L):
        ds = [v for v in L.fr.locals.values() if isinstance(v, Desc)]
        if len({id(x) for x in ds}) != 1 or L.names or ds[0].form != 'document':
            raise NoRole('description')
        self.d = ds[0]
        j = c.fresh('rj', 'int')
        if not c.implied(veq(L.si.n, self.W.items)):
            raise NoRole('items of the description')
        L.cover(self.d)
        self.k = None

    def havoc(self, c, L, k):
        self.d.sets = []
        if k is not L.si.n:
            self.k = k

    def check(self, c, L, k, what):
        if self.k is None:
            return
        x = self.W.item(self.k)
        if isinstance(x, HeaderBytes):
            c.prove('a header is turned back into its bytes', len(self.d.sets) == 1 and And(veq(self.d.sets[0][0], self.k), self.d.sets[0][1] is x))
        else:
            for q, v in self.d.sets:
                c.prove('other items stay', And(veq(q, self.k), v == self.W.json(x)))

    def done(self, c, L):
        self.d.form = 'loaded'


class Ordered(LoopContract):
    """the names of the field items, in order"""
    name = 'field names of the description'

    def __init__(self, W):
        self.W = W
        self.g = None

    def match(self, it, s, fr, si):
        return fr.name.split('.')[-1] == 'set_buffer_description' and si is not None

    def enter(self, c, L):
        self.obj = L.fr.locals.get('self')
        if not isinstance(self.obj, BufferModel) or type(vars(self.obj).get('ordered_field_names')) is not list or self.obj.ordered_field_names or L.names:
            raise NoRole('names of the fields')
        if not isinstance(getattr(L.si, 'src', None), Desc) or not c.implied(veq(L.si.n, self.W.items)):
            raise NoRole('items of the description')
        self.k = None

    def havoc(self, c, L, k):
        self.g = Log(list)
        put(self.obj, ordered_field_names=self.g)
        L.cover(self.g)
        if k is not L.si.n:
            self.k = k

    def check(self, c, L, k, what):
        if self.k is None:
            return
        if self.obj.ordered_field_names is not self.g:
            raise Unsupported('names replaced')
        x = self.W.item(self.k)
        if isinstance(x, tuple):
            c.prove('a field item contributes its name', len(self.g.log) == 1 and veq(self.g.log[0], x[0]))
        else:
            c.prove('other items contribute nothing', not self.g.log)

    def done(self, c, L):
        self.W.ordered = self.g


def jobs(tier):
    def rt(window, described):
        def body(c, mkit):
            W = World(c, mkit, window, described)
            it = W.it
            W.path = Ghost('file name')
            W.loaded = W.ordered = None
            bm = W.bm
            old = dict(vars(bm))
            returns(c, it, Bound(BufferModel.save, bm), [W.path])
            if W.doc is None:
                c.prove('the model is written', False)
                raise PathEnd()
            c.prove('saving leaves the model', all(vars(bm).get(k) is v for k, v in old.items()) and set(vars(bm)) == set(old)
                    and (not described or not bm._buffer_description.sets))
            ld = returns(c, it, it.getattr_(BufferModel, 'load'), [W.path])
            if type(ld) is not BufferModel or W.loaded is None:
                raise Unsupported('form of the loaded model')
            c.prove('a new model is made', ld is not bm)
            c.prove('same window', ld.window_size is W.window or veq(ld.window_size, W.window))
            c.prove('same size', veq(ld.model_size, W.size))
            c.prove('the models are those loaded', ld._field_models is W.loaded and not W.loaded.log)
            d = ld._buffer_description
            if not described:
                c.prove('no description', d is None)
            else:
                if not isinstance(d, Desc):
                    c.prove('the description is loaded', d is not None)
                    raise Unsupported('form of the description')
                c.prove('the description has its headers back as bytes', d.form == 'loaded' and d is not bm._buffer_description)
                c.prove('the field names follow the description', W.ordered is not None and ld.ordered_field_names is W.ordered and not W.ordered.log)
            c.prove('loading leaves the saved model', all(vars(bm).get(k) is v for k, v in old.items()))
        return body
    return [Job(f'save and load, {"with" if w else "no"} window, {"with" if d else "no"} description', rt(w, d)) for w in (False, True) for d in (False, True)]


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def snapshot(bm):
    return ({n: (bm[n].name, bm[n].field_type, bm[n].window_size, list(bm[n].samples)) for n in bm.fields_names()},
            bm.window_size, bm.model_size, None if bm.get_buffer_description() is None else list(bm.get_buffer_description()))


def build(case):
    _, win, fields, desc, size = case
    models = {}
    for n, t, w, chunks in fields:
        f = FieldModel(n, t, w)
        for c in chunks:
            f.add_sample(c)
        models[n] = f
    bm = BufferModel(models, win) if models or win is not None else BufferModel()
    bm.window_size = win
    bm.model_size = size
    if desc is not None:
        bm.set_buffer_description(list(desc))
    return bm


def check(case):
    bm = build(case)
    before = snapshot(bm)
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'm.json')
    try:
        bm.save(p)
        ld = BufferModel.load(p)
    finally:
        if os.path.exists(p):
            os.remove(p)
        os.rmdir(d)
    after = snapshot(bm)
    if repr(after) != repr(before):
        return f'saving changed the model: {before} -> {after}'
    if ld.window_size != bm.window_size or ld.model_size != bm.model_size:
        return f'window/size {ld.window_size}/{ld.model_size} loaded, saved {bm.window_size}/{bm.model_size}'
    if sorted(ld.fields_names()) != sorted(bm.fields_names()):
        return f'fields {ld.fields_names()} loaded, saved {bm.fields_names()}'
    for n in bm.fields_names():
        a, b = bm[n], ld[n]
        if (b.name, b.field_type, b.window_size, b.int_type, b.signed, b.field_len) != \
                (a.name, a.field_type, a.window_size, a.int_type, a.signed, a.field_len):
            return f'field {n} loaded as {b.name}, {b.field_type}, window {b.window_size}'
        if len(a.samples) != len(b.samples) or not all(same(x, y) for x, y in zip(a.samples, b.samples)):
            return f'samples of {n}: {b.samples} loaded, saved {a.samples}'
        if a.samples and not (same(float(a.mean), float(b.mean)) and same(float(a.std), float(b.std))):
            return f'statistics of {n}: {b.mean}, {b.std} loaded, saved {a.mean}, {a.std}'
    x, y = bm.get_buffer_description(), ld.get_buffer_description()
    if x is None:
        if y is not None:
            return f'description {y} loaded, none saved'
    else:
        norm = [v if isinstance(v, (bytes, str)) else tuple(v) for v in x]
        got = None if y is None else [v if isinstance(v, (bytes, str)) else tuple(v) for v in y]
        if norm != got:
            return f'description {y} loaded, saved {x}'
        if list(ld.ordered_field_names) != [v[0] for v in x if not isinstance(v, (bytes, str))] or \
                list(bm.ordered_field_names) != [v[0] for v in x if not isinstance(v, (bytes, str))]:
            return f'ordered fields {ld.ordered_field_names} loaded, saved {bm.ordered_field_names}'


def cases(rng, tier, part, nparts):
    types = [t for t in SIZES if t != 'char']
    while True:
        win = rng.choice([None, None, 1, 2, 5])
        fields = []
        for k in range(rng.randrange(0, 5)):
            t = rng.choice(types)
            w = rng.choice([win, win, None, 3])

            def v():
                if t == 'float':
                    return rng.choice([rng.gauss(0, 100), float(rng.randrange(100)), rng.uniform(0, 1e-30)])
                return rng.randrange(-2 ** (8 * SIZES[t] - 1), 2 ** (8 * SIZES[t] - 1)) if t[0] == 'i' else rng.randrange(2 ** (8 * SIZES[t]))
            chunks = [v() if rng.random() < 0.6 else [v() for _ in range(rng.randrange(0, 4))] for _ in range(rng.randrange(0, 6))]
            fields.append((rng.choice(['seq', 'ATT_roll', 'magic', 'Ab_c', 'z', 'crc', 'HEARTBEAT_type']) + (str(k) if rng.random() < 0.6 else ''),
                           t, w, chunks))
        fields = list({f[0]: f for f in fields}.values())
        if rng.random() < 0.3:
            desc = None
        else:
            desc = []
            for _ in range(rng.randrange(0, 3)):
                desc.append(rand_frame(rng, SMALL)[:6])
                for f in fields:
                    if rng.random() < 0.7:
                        desc.append((f[0], f[1]))
                desc.append('crc')
        yield ('rt', win, fields, desc, rng.choice([0, 1, 5, 100]))


def shrink(case):
    k, win, fields, desc, size = case
    for i in range(len(fields)):
        yield (k, win, fields[:i] + fields[i + 1:], desc, size)
    if desc:
        for i in range(len(desc)):
            yield (k, win, fields, desc[:i] + desc[i + 1:], size)
        yield (k, win, fields, None, size)
