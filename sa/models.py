"""Models of builtins, numpy and array methods for the abstract interpreter."""
import ast
from fractions import Fraction
from . import terms as tm
from .terms import T, const, app, kw, sym, NONE, TRUE, FALSE

MODALIAS = {'numpy': 'np', 'numexpr': 'ne', 'scipy.linalg': 'scipy.linalg'}
EXTMODS = {'np.linalg', 'np.fft', 'np.random', 'scipy.linalg', 'scipy.fft',
           'np.testing', 'np.ma', 'np.lib', 'np.core', 'os.path',
           'scipy.sparse', 'scipy.fftpack', 'pyfftw.interfaces',
           'scipy.signal', 'scipy.ndimage', 'scipy.interpolate',
           'scipy.misc', 'scipy.special',
           'scipy.sparse.linalg'}
EXTCONST = {'np.newaxis': NONE, 'np.pi': sym('pi'), 'np.inf': sym('inf'),
            'np.nan': sym('nan'), 'future.utils.PY2': tm.FALSE}

# functions whose result is a condition
BOOLFUNCS = {'isinstance', 'hasattr', 'callable', 'truth', 'np.isrealobj',
             'np.iscomplexobj', 'issubclass', 'exc', 'loopret', 'isnone',
             'np.any', 'np.all', 'any', 'all', 'np.allclose', 'looped',
             'sporco.fft.is_complex_dtype', 'is_alive', 'str.startswith'}

ARRAYFUNCS = set()

# functions returning scalars (reductions without axis)
REDUCE = {'np.sum', 'np.max', 'np.min', 'np.mean', 'np.prod', 'np.median',
          'np.std', 'np.var', 'np.amax', 'np.amin'}

# method name -> numpy function with the array first
METH = {'sum': 'np.sum', 'max': 'np.max', 'min': 'np.min',
        'mean': 'np.mean', 'prod': 'np.prod', 'conj': 'np.conj',
        'conjugate': 'np.conj', 'reshape': 'np.reshape',
        'ravel': 'np.ravel', 'flatten': 'np.flatten',
        'transpose': 'np.transpose', 'dot': 'np.dot', 'copy': 'np.copy',
        'squeeze': 'np.squeeze', 'swapaxes': 'np.swapaxes',
        'astype': 'astype', 'any': 'np.any', 'all': 'np.all',
        'clip': 'np.clip', 'std': 'np.std', 'var': 'np.var',
        'argsort': 'np.argsort', 'argmax': 'np.argmax',
        'argmin': 'np.argmin', 'cumsum': 'np.cumsum', 'item': 'np.item',
        'tolist': 'np.tolist', 'repeat': 'np.repeat', 'round': 'np.round',
        'nonzero': 'np.nonzero', 'diagonal': 'np.diagonal',
        'view': 'np.view', 'trace': 'np.trace'}

CANON = {'np.absolute': 'np.abs', 'abs': 'np.abs', 'np.conjugate': 'np.conj',
         'np.amax': 'np.max', 'np.amin': 'np.min', 'np.add': '+',
         'np.multiply': '*', 'np.subtract': '-', 'np.divide': '/',
         'np.true_divide': '/', 'np.power': '**', 'np.square': 'sq',
         'np.sqrt': 'sqrt', 'np.fabs': 'np.abs', 'np.negative': 'neg',
         'pow': '**', 'np.matmul': 'np.matmul', 'np.reciprocal': 'recip',
         'math.sqrt': 'sqrt', 'np.logical_not': 'lnot',
         'np.less': '<', 'np.greater': '>', 'np.less_equal': '<=',
         'np.greater_equal': '>=', 'np.equal': '==', 'np.not_equal': '!=',
         'np.float_power': '**'}

# parameter names of library functions (to normalise call style)
PARAMS = {
    'np.sum': ['a', 'axis', 'dtype', 'out', 'keepdims'],
    'np.mean': ['a', 'axis', 'dtype', 'out', 'keepdims'],
    'np.max': ['a', 'axis', 'out', 'keepdims'],
    'np.min': ['a', 'axis', 'out', 'keepdims'],
    'np.prod': ['a', 'axis', 'dtype', 'out', 'keepdims'],
    'np.std': ['a', 'axis', 'dtype', 'out', 'ddof', 'keepdims'],
    'np.var': ['a', 'axis', 'dtype', 'out', 'ddof', 'keepdims'],
    'np.average': ['a', 'axis', 'weights'],
    'np.linalg.norm': ['x', 'ord', 'axis', 'keepdims'],
    'np.zeros': ['shape', 'dtype', 'order'],
    'np.ones': ['shape', 'dtype', 'order'],
    'np.empty': ['shape', 'dtype', 'order'],
    'np.full': ['shape', 'fill_value', 'dtype', 'order'],
    'np.zeros_like': ['a', 'dtype'],
    'np.ones_like': ['a', 'dtype'],
    'np.empty_like': ['a', 'dtype'],
    'np.asarray': ['a', 'dtype', 'order'],
    'np.asanyarray': ['a', 'dtype', 'order'],
    'np.ascontiguousarray': ['a', 'dtype'],
    'np.array': ['object', 'dtype', 'copy', 'order', 'subok', 'ndmin'],
    'np.copy': ['a', 'order', 'subok'],
    'astype': ['a', 'dtype', 'order', 'casting', 'subok', 'copy'],
    'np.reshape': ['a', 'newshape', 'order'],
    'np.ravel': ['a', 'order'],
    'np.flatten': ['a', 'order'],
    'np.concatenate': ['arrays', 'axis', 'out', 'dtype'],
    'np.stack': ['arrays', 'axis', 'out'],
    'np.moveaxis': ['a', 'source', 'destination'],
    'np.rollaxis': ['a', 'axis', 'start'],
    'np.swapaxes': ['a', 'axis1', 'axis2'],
    'np.transpose': ['a', 'axes'],
    'np.expand_dims': ['a', 'axis'],
    'np.squeeze': ['a', 'axis'],
    'np.roll': ['a', 'shift', 'axis'],
    'np.pad': ['array', 'pad_width', 'mode'],
    'np.clip': ['a', 'a_min', 'a_max', 'out'],
    'np.where': ['condition', 'x', 'y'],
    'np.maximum': ['x1', 'x2', 'out'],
    'np.minimum': ['x1', 'x2', 'out'],
    'np.dot': ['a', 'b', 'out'],
    'np.tensordot': ['a', 'b', 'axes'],
    'np.cumsum': ['a', 'axis', 'dtype', 'out'],
    'np.sort': ['a', 'axis', 'kind', 'order'],
    'np.argsort': ['a', 'axis', 'kind', 'order'],
    'np.linalg.svd': ['a', 'full_matrices', 'compute_uv'],
    'np.fft.fftn': ['a', 's', 'axes', 'norm'],
    'np.fft.ifftn': ['a', 's', 'axes', 'norm'],
    'np.fft.rfftn': ['a', 's', 'axes', 'norm'],
    'np.fft.irfftn': ['a', 's', 'axes', 'norm'],
    'np.any': ['a', 'axis', 'out', 'keepdims'],
    'np.all': ['a', 'axis', 'out', 'keepdims'],
    'np.einsum': None,
    'np.identity': ['n', 'dtype'],
    'np.eye': ['N', 'M', 'k', 'dtype'],
    'np.arange': None,
    'np.take': ['a', 'indices', 'axis'],
    'np.diff': ['a', 'n', 'axis', 'prepend', 'append'],
}
DEFAULTS = {'np.array': {'copy': TRUE}, 'astype': {'copy': TRUE},
            'np.linalg.norm': {'keepdims': FALSE},
            'np.sum': {'keepdims': FALSE}, 'np.mean': {'keepdims': FALSE},
            'np.max': {'keepdims': FALSE}, 'np.min': {'keepdims': FALSE},
            'np.prod': {'keepdims': FALSE},
            'np.concatenate': {'axis': const(0)},
            'np.linalg.svd': {'full_matrices': TRUE, 'compute_uv': TRUE}}

# views: result shares memory with the first argument
# functions with a second parameter that is not an axis or type
POS2 = {'np.reshape', 'np.full', 'np.dot', 'np.matmul', 'np.moveaxis',
        'np.tile', 'np.repeat', 'np.pad', 'np.maximum', 'np.minimum',
        'np.isclose', 'np.vdot', 'np.outer', 'np.kron', 'np.broadcast_to'}
VIEWS = {'np.reshape', 'np.ravel', 'np.swapaxes', 'np.transpose',
         'np.moveaxis', 'np.rollaxis', 'np.squeeze', 'np.expand_dims',
         'np.atleast_1d', 'np.atleast_2d', 'np.atleast_3d', 'np.real',
         'np.imag', 'np.view', 'np.broadcast_to', 'np.diagonal'}
# may return the argument itself
MAYALIAS = {'np.asarray', 'np.asanyarray', 'np.ascontiguousarray',
            'np.require'}
CASTS = {'np.asarray', 'np.array', 'np.asanyarray', 'np.ascontiguousarray',
         'astype', 'np.copy', 'float', 'np.float32', 'np.float64',
         'np.require', 'complex', 'np.double', 'np.asfortranarray',
         'copy.copy', 'copy.deepcopy'}

# sporco functions kept as operators: qualified name -> model
SPORCO = {}



# ---------------------------------------------------------------- indices

def fullslice(t):
    return t.tag == 'slice' and t.a[0] is NONE and t.a[1] is NONE and \
        (t.a[2] is NONE) or t.tag == 'c' and t.a[0] is Ellipsis


def fullindex(t):
    if fullslice(t):
        return True
    return t.tag == 'tup' and len(t.a[0]) > 0 and \
        all(fullslice(x) for x in t.a[0]) or t.tag == 'tup' and \
        len(t.a[0]) == 0


def isviewindex(t):
    """basic indexing (view)?  Masks and fancy indices copy."""
    if t.tag == 'slice' or t.tag == 'c':
        return True
    if t.tag == 'tup':
        return all(isviewindex(x) for x in t.a[0])
    if t.tag in ('s', 'sum', 'kw'):
        return True
    if t.tag == 'app':
        if t.a[0] in ('rep', 'tcat', 'tuple', 'np.s_', 'attr', 'len', 'int',
                      'slice', 'elem'):
            return True
    if t.tag == 'ite':
        return isviewindex(t.a[1]) and isviewindex(t.a[2])
    return False


def subterm(c, i):
    if fullindex(i):
        return c
    if c.tag == 'tup' and tm.isnum(i):
        k = int(i.a[0])
        if -len(c.a[0]) <= k < len(c.a[0]):
            return c.a[0][k]
    if c.tag == 'upd' and c.a[1] is i:
        return c.a[2]
    if c.tag == 'upd' and disjoint(c.a[1], i):
        return subterm(c.a[0], i)
    if c.tag == 'ite':
        return tm.ite(c.a[0], subterm(c.a[1], i), subterm(c.a[2], i))
    k = part(c, i)
    if k is not None:
        return c.a[1][0].a[0][k]
    if c.tag == 'app' and c.a[0] == 'sum0' and c.a[1][1] is tm.ZERO and \
            newlead(i):
        return s_sum(c.a[1][0], kw('axis', tm.ZERO), kw('keepdims', TRUE))
    if c.tag == 'app' and c.a[0] == 'np.sum' and i.tag == 'tup' and \
            len(c.a[1]) == 3 and c.a[1][2] is kw('keepdims', TRUE) and \
            tm.isnum(c.a[1][1].a[1]):
        ax = c.a[1][1].a[1].a[0]
        ix = i.a[0]
        if 0 <= ax < len(ix) and ix[int(ax)] is tm.ZERO and all(
                fullslice(y) for k, y in enumerate(ix) if k != ax):
            return s_sum(c.a[1][0], c.a[1][1])
    if c.tag == 'app' and tm.isnum(i) and isinstance(c.a[0], str) and \
            c.a[0].startswith('sporco.') and i.a[0] >= 0:
        return itemterm(c, int(i.a[0]))
    if c.tag == 'app' and spatialfft(c) and axis_prefix(i) in OTHERAX:
        # a transform over the spatial axes commutes with selection on
        # another axis
        return tm.reapp(c.a[0], (subterm(c.a[1][0], i),) + c.a[1][1:])
    return app('sub', c, i)


FFTS = {'sporco.fft.rfftn', 'sporco.fft.fftn', 'sporco.fft.irfftn',
        'sporco.fft.ifftn'}
OTHERAX = {'axisM', 'axisC', 'axisK'}


def isattr(t, names):
    return t.tag == 'app' and t.a[0] == 'attr' and t.a[1][1].a[0] in names


def spatialfft(c):
    return c.a[0] in FFTS and len(c.a[1]) == 3 and \
        isattr(c.a[1][2], {'axisN'})


def axis_prefix(i):
    """the axis a (:,)*axis + (slice,) index selects on"""
    if i.tag == 'app' and i.a[0] == 'tcat' and len(i.a[1]) == 2:
        p, q = i.a[1]
        if p.tag == 'app' and p.a[0] == 'rep' and isattr(p.a[1][1], OTHERAX) \
                and q.tag == 'tup' and len(q.a[0]) == 1:
            e = p.a[1][0]
            if e.tag == 'tup' and len(e.a[0]) == 1 and fullindex(e.a[0][0]):
                return p.a[1][1].a[1][1].a[0]
    return None


def part(c, i):
    """i selects one part of the two-block concatenation c"""
    if not (c.tag == 'app' and c.a[0] == 'np.concatenate' and
            len(c.a[1]) >= 2 and c.a[1][0].tag == 'tup' and
            len(c.a[1][0].a[0]) == 2):
        return None
    ax = c.a[1][1]
    ax = ax.a[1] if ax.tag == 'kw' else ax
    p = axis_prefix(i)
    if p is None or not isattr(ax, {p}):
        return None
    sl = i.a[1][1].a[0][0]
    if sl.tag != 'slice' or sl.a[2] is not NONE:
        return None
    lo, hi = sl.a[0], sl.a[1]
    if (lo is NONE or lo is tm.ZERO) and isattr(hi, {'Cd', 'M', 'C', 'Cx'}):
        return 0
    if hi is NONE and isattr(lo, {'Cd', 'M', 'C', 'Cx'}):
        return 1
    return None


def disjoint(i, j):
    """the two indices select disjoint ranges of one axis"""
    if i.tag == 'app' and j.tag == 'app' and i.a[0] == j.a[0] == 'tcat' and \
            len(i.a[1]) == len(j.a[1]) == 2 and i.a[1][0] is j.a[1][0]:
        return disjoint(i.a[1][1], j.a[1][1])
    if i.tag == 'tup' or j.tag == 'tup':
        (p, q), (r, s) = splitindex(i), splitindex(j)
        if any(disjoint(x, y) for x, y in zip(p, r)):
            return True
        if q is not None and s is not None:
            return any(disjoint(x, y) for x, y in zip(q[::-1], s[::-1]))
        return False
    if tm.isnum(i) and tm.isnum(j):
        return i.a[0] != j.a[0]
    if i.tag == 'slice' and j.tag == 'slice':
        (a, b, c), (d, e, f) = i.a, j.a
        if c is not NONE or f is not NONE:
            return False
        return before(b, d) or before(e, a)
    return False


def before(b, d):
    """the end b of a range is not after the start d of another"""
    if b is NONE or d is NONE:
        return False
    if b is d:
        return True
    return tm.isnum(b) and tm.isnum(d) and 0 <= b.a[0] <= d.a[0]


def splitindex(i):
    """entries of an index before and after an Ellipsis (None: none)"""
    x = list(i.a[0]) if i.tag == 'tup' else [i]
    for k, y in enumerate(x):
        if y.tag == 'c' and y.a[0] is Ellipsis:
            if any(z.tag not in ('slice', 'c') or z is NONE for z in x):
                return [], None
            return x[:k], x[k + 1:]
    p = []
    for y in x:
        if y is NONE or y.tag not in ('slice', 'c'):
            break
        p.append(y)
    return p, None


def normindex(it, base, st, i):
    """canonical form of an index into an array of known shape"""
    if not it.fnmode or i.tag not in ('slice', 'tup') and not (
            i.tag == 'c' and i.a[0] is Ellipsis):
        return i
    s = it.cellshape.get(base.cell) if not base.view else None
    s = shape_of(it, it.term(base, st)) if s is None else s
    if s is None:
        return i
    x = list(i.a[0]) if i.tag == 'tup' else [i]
    if any(y.tag != 'slice' and not (tm.isnum(y) or y.tag == 'c' and
                                     y.a[0] is Ellipsis) for y in x):
        return i
    e = [k for k, y in enumerate(x) if y.tag == 'c' and y.a[0] is Ellipsis]
    n = len(s) - (len(x) - len(e))
    if len(e) > 1 or n < 0:
        return i
    k = e[0] if e else len(x)
    x[k:k + len(e)] = [FULL] * n
    r = []
    for y, m in zip(x, s):
        if y.tag == 'slice':
            lo, hi, st = y.a
            st = NONE if st is tm.ONE else st
            if st is NONE:
                lo = NONE if lo is tm.ZERO else lo
                hi = NONE if hi is m or tm.isnum(hi) and tm.isnum(m) and \
                    hi.a[0] >= m.a[0] else hi
            y = tm.mk('slice', lo, hi, st)
        elif tm.isnum(m) and -m.a[0] <= y.a[0] < 0:
            y = const(y.a[0] + m.a[0])
        r.append(y)
    while r and r[-1] is FULL:
        r.pop()
    if not r:
        return const(Ellipsis)
    return r[0] if len(r) == 1 else tm.tup(r)


FULL = tm.mk('slice', NONE, NONE, NONE)


def s_swapaxes(*a):
    x = a[0]
    if x.tag == 'ite':
        return tm.ite(x.a[0], s_swapaxes(x.a[1], *a[1:]),
                      s_swapaxes(x.a[2], *a[1:]))
    if x.tag == 'app' and x.a[0] == 'np.swapaxes' and x.a[1][1:] == a[1:]:
        return x.a[1][0]
    if x.tag == 'app' and spatialfft(x) and all(
            isattr(y.a[1] if y.tag == 'kw' else y, OTHERAX) for y in a[1:]):
        return tm.reapp(x.a[0], (s_swapaxes(x.a[1][0], *a[1:]),) +
                        x.a[1][1:])
    return app('np.swapaxes', *a)


tm.SIMP['np.swapaxes'] = s_swapaxes


def itemterm(t, i):
    if t.tag == 'tup' and i < len(t.a[0]):
        return t.a[0][i]
    if t.tag == 'ite':
        return tm.ite(t.a[0], itemterm(t.a[1], i), itemterm(t.a[2], i))
    if t.tag == 'app' and t.a[0] == 'attr' and t.a[1][1] is const('shape'):
        return app('sub', t, const(i))
    return app('item', t, const(i))


def viewterm(t, op):
    if op[0] == 'sub':
        return subterm(t, op[1])
    if t.tag == 'upd' and t.a[1].tag == 'app' and t.a[1].a[0] == 'view' and \
            t.a[1].a[1] == (const(op[1]),) + tuple(op[2]):
        return t.a[2]
    return tm.reapp(op[1], (t,) + tuple(op[2]))


def store(base, view, t):
    if not view:
        return t
    op = view[0]
    if op[0] == 'sub':
        i = op[1]
        if len(view) == 1:
            return upd(base, i, t)
        return upd(base, i, store(subterm(base, i), view[1:], t))
    if op[1] == 'np.swapaxes':
        return tm.reapp(op[1], (store(viewterm(base, op), view[1:], t),) +
                        tuple(op[2]))
    key = app('view', const(op[1]), *op[2])
    inner = store(viewterm(base, op), view[1:], t)
    return upd(base, key, inner)


def upd(b, i, v):
    if fullindex(i):
        return v
    if b.tag == 'upd' and b.a[1] is i:
        b = b.a[0]
    if b.tag == 'ite':
        return tm.ite(b.a[0], upd(b.a[1], i, v), upd(b.a[2], i, v))
    k = part(b, i)
    if k is not None:
        ps = list(b.a[1][0].a[0])
        ps[k] = v
        return tm.reapp('np.concatenate', (tm.tup(ps),) + b.a[1][1:])
    if i.tag in ('cmp', 'not', 'and'):
        # masked store = elementwise selection
        return app('select', i, v, b)
    return tm.mk('upd', b, i, v)


# ------------------------------------------------- literal integer vectors

def litvec(t):
    """elementwise value of arithmetic on literal vectors, as a tuple"""
    if t.tag not in ('sum', 'app'):
        return None
    if t.tag == 'app' and t.a[0] in LITFN:
        t = tm.mk('app', t.a[0], tuple(litvec(x) or x for x in t.a[1]))
    if t.tag == 'sum':
        if not any(at.tag == 'tup' for m, c in t.a[0] for at, e in m):
            return None
        n = [len(at.a[0]) for m, c in t.a[0] for at, e in m
             if at.tag == 'tup']
    else:
        if t.a[0] not in LITFN or not any(x.tag == 'tup' for x in t.a[1]):
            return None
        n = [len(x.a[0]) for x in t.a[1] if x.tag == 'tup']
    if len(set(n)) != 1:
        return None

    def at_(x, k):
        return x.a[0][k] if x.tag == 'tup' else x
    r = []
    for k in range(n[0]):
        if t.tag == 'sum':
            y = tm.ZERO
            for m, c in t.a[0]:
                z = tm.mk('c', c)
                for at, e in m:
                    z = tm.mul(z, tm.power(at_(at, k), e))
                y = tm.add(y, z)
        else:
            y = LITFN[t.a[0]](*[at_(x, k) for x in t.a[1]])
        r.append(y)
    return tm.tup(r)


def litcmp(c):
    """elementwise comparisons of literal vectors"""
    if c.tag != 'cmp' or c.a[0] not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return None
    x, y = c.a[1], c.a[2]
    n = [len(z.a[0]) for z in (x, y) if z.tag == 'tup']
    if not n or len(set(n)) != 1:
        return None
    u, v = [z.a[0] if z.tag == 'tup' else (z,) * n[0] for z in (x, y)]
    return [tm.cmp_(c.a[0], p, q) for p, q in zip(u, v)]


# ---------------------------------------------------------------- operators

def numset(t):
    return t.tag == 'app' and t.a[0] == 'set' and all(
        tm.isnum(x) for x in t.a[1])


def binterm(op, a, b):
    if op in ('sub', 'band', 'bor') and numset(a) and numset(b):
        x, y = set(a.a[1]), set(b.a[1])
        r = x - y if op == 'sub' else x & y if op == 'band' else x | y
        return app('set', *sorted(r, key=lambda u: u.a[0]))
    if op == 'add':
        return tm.add(a, b)
    if op == 'sub':
        return tm.sub(a, b)
    if op == 'mul':
        return tm.mul(a, b)
    if op == 'div':
        return tm.div(a, b)
    if op == 'pow':
        if tm.isnum(b):
            return tm.power(a, b.a[0])
        return app('pow', a, b)
    if op == 'matmul':
        return app('np.dot', a, b)
    if op in ('band', 'bor') and _isbool(a) and _isbool(b):
        return tm.and_(a, b) if op == 'band' else tm.or_(a, b)
    if op in ('floordiv', 'mod') and tm.isnum(a) and tm.isnum(b) and \
            b.a[0] != 0:
        return const(a.a[0] // b.a[0] if op == 'floordiv'
                     else a.a[0] % b.a[0])
    if op == 'mod':
        return app('np.mod', a, b)
    return app(op, a, b)


def _isbool(t):
    return t.tag in ('cmp', 'not', 'and') or t.tag == 'app' and \
        t.a[0] in BOOLFUNCS


# term-level simplifiers ------------------------------------------------

def s_conj(x):
    if x.tag == 'c':
        return x
    if x.tag == 'app' and x.a[0] == 'np.conj':
        return x.a[1][0]
    if x.tag == 'app' and x.a[0] in REALFUNCS:
        return x
    if x.tag == 'sum':
        r = []
        for m, c in x.a[0]:
            y = tm.mk('c', c)
            for at, e in m:
                y = tm.mul(y, tm.power(s_conj(at), e))
            r.append(y)
        return tm.add(*r)
    if x.tag == 'ite':
        return tm.ite(x.a[0], s_conj(x.a[1]), s_conj(x.a[2]))
    return tm.mk('app', 'np.conj', (x,))


REALFUNCS = {'np.abs', 'np.real', 'np.imag', 'len', 'np.max', 'np.min'}


def s_abs(x):
    if tm.isnum(x):
        return const(abs(x.a[0]))
    if x.tag == 'app' and x.a[0] in ('np.abs',):
        return x
    if x.tag == 'app' and x.a[0] == 'np.conj':
        return s_abs(x.a[1][0])
    if x.tag == 'ite':
        return tm.ite(x.a[0], s_abs(x.a[1]), s_abs(x.a[2]))
    if x.tag == 'sum':
        if len(x.a[0]) == 1:
            m, c = x.a[0][0]
            if all(e.denominator == 1 for a, e in m):
                r = const(abs(c))
                for at, e in m:
                    r = tm.mul(r, tm.power(s_abs(at) if e % 2 else
                                           s_abs(at), e))
                return r
        else:
            # |a-b| == |b-a|
            c0 = x.a[0][0][1]
            if c0 < 0:
                return s_abs(tm.neg(x))
    return tm.mk('app', 'np.abs', (x,))


def s_select(c, a, b):
    if c.tag == 'not':
        return s_select(c.a[0], b, a)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return tm.mk('app', 'select', (c, a, b))


def s_max(*xs):
    s = set()
    for x in xs:
        if x.tag == 'app' and x.a[0] == 'max2':
            s |= set(x.a[1])
        else:
            s.add(x)
    nums = [x for x in s if tm.isnum(x)]
    if len(nums) > 1:
        s -= set(nums)
        s.add(const(max(x.a[0] for x in nums)))
    if len(s) == 1:
        return s.pop()
    return tm.mk('app', 'max2', tuple(sorted(s, key=lambda t: t.id)))


LITFN = {'max2': lambda *a: s_max(*a), 'min2': lambda *a: s_min(*a),
         'floordiv': lambda x, y: binterm('floordiv', x, y),
         'mod': lambda x, y: binterm('mod', x, y),
         'np.mod': lambda x, y: binterm('mod', x, y)}


def s_min(*xs):
    s = set()
    for x in xs:
        if x.tag == 'app' and x.a[0] == 'min2':
            s |= set(x.a[1])
        else:
            s.add(x)
    nums = [x for x in s if tm.isnum(x)]
    if len(nums) > 1:
        s -= set(nums)
        s.add(const(min(x.a[0] for x in nums)))
    if len(s) == 1:
        return s.pop()
    return tm.mk('app', 'min2', tuple(sorted(s, key=lambda t: t.id)))


def s_sum(x, *rest):
    """np.sum: pull out numeric factors"""
    if x.tag == 'app' and x.a[0] in ('np.ravel', 'np.flatten') and not rest:
        return s_sum(x.a[1][0])
    if x.tag == 'sum' and len(x.a[0]) == 1:
        m, c = x.a[0][0]
        if c != 1:
            return tm.mul(const(c), s_sum(tm.mul(const(1 / c), x), *rest))
    if x.tag == 'app' and x.a[0] == 'np.concatenate' and len(rest) == 1 and \
            len(x.a[1]) == 2 and x.a[1][0].tag == 'tup':
        p = [lastpart(y) for y in x.a[1][0].a[0]]
        a, b = x.a[1][1], rest[0]
        if None not in p and lastaxis(a) and lastaxis(b):
            return tm.add(*p)
    if x.tag == 'app' and x.a[0] == 'np.stack' and len(rest) == 1 and \
            len(x.a[1]) == 2 and x.a[1][0].tag == 'tup' and \
            x.a[1][1] is rest[0]:
        return tm.add(*x.a[1][0].a[0])
    return tm.mk('app', 'np.sum', (x,) + rest)


def lastaxis(k):
    k = k.a[1] if k.tag == 'kw' and k.a[0] == 'axis' else k
    if k.tag == 'kw':
        return False
    if tm.isnum(k):
        return k.a[0] == -1
    k = tm.add(k, const(1))
    return k.tag == 'app' and k.a[0] == 'attr' and k.a[1][1] is const('ndim')


def lastpart(y):
    """x when y is x[..., np.newaxis]; x[..., k] when y is x[..., k:k+1]"""
    if not (y.tag == 'app' and y.a[0] == 'sub' and y.a[1][1].tag == 'tup' and
            len(y.a[1][1].a[0]) == 2):
        return None
    e, i = y.a[1][1].a[0]
    if not (e.tag in ('c', 's') and 'Ellipsis' in str(e.a[0])):
        return None
    if i is NONE:
        return y.a[1][0]
    if i.tag == 'slice' and i.a[2] is NONE and tm.isnum(i.a[0]):
        lo, hi = i.a[0].a[0], i.a[1]
        if lo == -1 and hi is NONE or tm.isnum(hi) and hi.a[0] == lo + 1:
            return subterm(y.a[1][0], tm.mk('tup', (e, i.a[0])))
    return None


def s_real(x):
    return tm.mk('app', 'np.real', (x,))


tm.SIMP.update({'np.conj': s_conj, 'np.abs': s_abs, 'select': s_select,
                'max2': s_max, 'min2': s_min, 'np.sum': s_sum})


def norm(x, ord_, axis, keepdims):
    """np.linalg.norm in terms of sums (vector norms only)"""
    flat = x.tag == 'app' and x.a[0] in ('np.ravel', 'np.flatten')
    base = x.a[1][0] if flat else x
    rest = ()
    if axis is not NONE:
        rest = (kw('axis', axis),)
        if keepdims is TRUE:
            rest += (kw('keepdims', keepdims),)
        elif keepdims is not FALSE:
            rest += (kw('keepdims', keepdims),)
    if ord_ is NONE or flat and tm.isnum(ord_) and ord_.a[0] == 2:
        return tm.power(s_sum(tm.power(s_abs(base), 2), *rest),
                        Fraction(1, 2))
    if flat and tm.isnum(ord_) and ord_.a[0] == 1:
        return s_sum(s_abs(base), *rest)
    return app('np.linalg.norm', x, kw('ord', ord_), *rest)


# ---------------------------------------------------------------- attributes

def array_attr(it, base, name, st, node):
    from .interp import VT, VA, VB, VX, VTup
    t = it.term(base, st)
    if t.tag == 'app' and t.a[0] in ('namedtuple', 'ntuple') and (
            name in ('_fields', '_make') or t.a[0] == 'ntuple'):
        ft = t.a[1][1] if t.a[0] == 'namedtuple' else t.a[1][0]
        if name == '_fields':
            return tupval(ft)
        if name == '_make':
            return VT(app('nt_make', t))
        if t.a[0] == 'ntuple' and ft.tag == 'tup':
            names = [x.a[0] if x.tag == 'c' else None for x in ft.a[0]]
            if name in names and len(t.a[1]) == len(names) + 1:
                return VT(t.a[1][1 + names.index(name)])
            if not it.muted and None not in names and not \
                    name.startswith('_'):
                it.hooks.attr_undef(it, st, base, name, node, TRUE)
    if name == 'T':
        if isinstance(base, VA):
            return VA(base.cell, base.view + (('fn', 'np.transpose', ()),))
        return VT(app('np.transpose', t))
    if name in ('real', 'imag'):
        if isinstance(base, VA):
            return VA(base.cell, base.view + (('fn', 'np.' + name, ()),))
        return VT(tm.reapp('np.' + name, (t,)))
    if name == 'max' and t.tag == 'app' and t.a[0] in ('np.iinfo', 'np.finfo'):
        return VT(sym('inf'))
    if name in METH or name in ('fill', 'sort', 'put', 'resize', 'itemset',
                                'partition', 'setfield', 'byteswap',
                                'append', 'update', 'keys', 'items',
                                'values', 'get', 'pop', 'index', 'extend',
                                'format', 'join', 'split', 'startswith',
                                'endswith', 'strip', 'lower', 'upper',
                                'replace', 'type'):
        if name == 'type' and isinstance(base, VT) or name == 'type':
            return VT(app('attr', t, const('type')))
        return VB(base, VX('arr.' + name))
    if t.tag == 'app' and t.a[0] == 'dtype' and name == 'type':
        return VT(app('attr', t, const('type')))
    if name == 'strides' and it.fnmode:
        s = shape_of(it, t)
        if s is not None:
            return VTup(tuple(VT(app('strides', t, const(k)))
                              for k in range(len(s))))
    if name in ('shape', 'ndim', 'size') and it.fnmode:
        s = it.cellshape.get(base.cell) if isinstance(base, VA) and \
            not base.view else None
        s = shape_of(it, t) if s is None else s
        if s is not None:
            if name == 'ndim':
                return VT(const(len(s)))
            if name == 'size':
                return VT(tm.mul(*s) if s else tm.ONE)
            return VTup(tuple(VT(x) for x in s))
    if name == 'shape' and t.tag == 'app' and t.a[0] in (
            'np.zeros', 'np.ones', 'np.empty'):
        return VT(t.a[1][0])
    if name == 'dtype' and not it.typed:
        return VT(app('attr', t, const('dtype')))
    return VT(attrterm(t, name))


def attrterm(t, name):
    if t.tag == 'ite':
        return tm.ite(t.a[0], attrterm(t.a[1], name),
                      attrterm(t.a[2], name))
    if name in ('size', 'shape', 'ndim'):
        t = shaperep(t)
    return tm.reapp('attr', (t, const(name)))


ELEMWISE = {'np.abs', 'np.conj', 'np.real', 'np.imag', 'np.sign', 'np.exp',
            'np.log', 'np.sqrt', 'max2', 'min2', 'select', 'np.copy',
            'np.log10', 'astype'}


def broadcast(ss):
    r = []
    for s in ss:
        s = list(s)
        n = max(len(r), len(s))
        r = [tm.ONE] * (n - len(r)) + r
        s = [tm.ONE] * (n - len(s)) + s
        for i in range(n):
            if r[i] is tm.ONE:
                r[i] = s[i]
            elif s[i] is not tm.ONE and s[i] is not r[i]:
                return None
    return tuple(r)


def shape_of(it, t):
    """declared shape (tuple of terms) of the array t, if known"""
    s = it.shapes.get(t)
    if s is not None:
        return s
    if t.tag == 'c':
        return () if tm.isnum(t) else None
    if t.tag == 's':
        return None
    if t.tag == 'sum':
        ss = []
        for m, c in t.a[0]:
            for at, e in m:
                ss.append(shape_of(it, at))
        return None if None in ss else broadcast(ss)
    if t.tag == 'cmp':
        ss = [shape_of(it, x) for x in t.a[1:] if isinstance(x, T)]
        return None if None in ss else broadcast(ss)
    if t.tag == 'upd':
        return shape_of(it, t.a[0])
    if t.tag == 'ite':
        a, b = shape_of(it, t.a[1]), shape_of(it, t.a[2])
        return a if a == b else None
    if t.tag != 'app':
        return None
    f, a = t.a
    if f in ELEMWISE:
        ss = [shape_of(it, x) for x in a if x.tag != 'kw']
        return None if None in ss else broadcast(ss)
    if f in ('np.zeros', 'np.ones', 'np.empty') and a[0].tag == 'tup':
        return a[0].a[0]
    if f in ('np.zeros_like', 'np.ones_like', 'np.empty_like'):
        return shape_of(it, a[0])
    if f == 'np.reshape' and len(a) >= 2:
        w = a[1].a[1] if a[1].tag == 'kw' else a[1]
        if w.tag == 'tup' and not any(tm.isnum(x) and x.a[0] < 0
                                      for x in w.a[0]):
            return w.a[0]
        return None
    if f == 'np.roll':
        return shape_of(it, a[0])
    if f == 'np.pad':
        s = shape_of(it, a[0])
        w = [x.a[1] for x in a if x.tag == 'kw' and x.a[0] == 'pad_width']
        if s is None or not w or w[0].tag != 'tup' or \
                len(w[0].a[0]) != len(s):
            return None
        return tuple(tm.add(x, *p.a[0]) for x, p in zip(s, w[0].a[0]))
    if f in SAMESHAPE:
        return shape_of(it, a[SAMESHAPE[f]])
    if f == 'np.sum' and len(a) == 3 and a[1].tag == 'kw' and \
            a[1].a[0] == 'axis' and tm.isnum(a[1].a[1]) and \
            a[2] is tm.kw('keepdims', TRUE):
        s = shape_of(it, a[0])
        i = int(a[1].a[1].a[0])
        if s is None or not -len(s) <= i < len(s):
            return None
        s = list(s)
        s[i] = tm.ONE
        return tuple(s)
    if f in FFTS and len(a) == 3:
        s = shape_of(it, a[0])
        if s is None or a[2].tag != 'tup':
            return None
        s = list(s)
        ax = [int(x.a[0]) for x in a[2].a[0]]
        if a[1].tag == 'tup' and len(a[1].a[0]) == len(ax):
            for k, v in zip(ax, a[1].a[0]):
                s[k] = v
        elif a[1] is not NONE or f.endswith('irfftn'):
            return None
        if f.endswith('.rfftn'):
            s[ax[-1]] = tm.add(tm.ONE, binterm('floordiv', s[ax[-1]],
                                               const(2)))
        return tuple(s)
    if f == 'np.transpose':
        s = shape_of(it, a[0])
        if len(a) == 1 or s is None:
            return None if s is None else s[::-1]
        w = a[1].a[1] if a[1].tag == 'kw' else a[1]
        if w.tag == 'tup' and len(w.a[0]) == len(s) and all(
                tm.isnum(x) for x in w.a[0]):
            return tuple(s[int(x.a[0])] for x in w.a[0])
        return None
    if f in ('np.ravel', 'np.flatten'):
        s = shape_of(it, a[0])
        return None if s is None else (tm.mul(*s) if s else tm.ONE,)
    if f == 'item' and a[0].tag == 'app' and a[0].a[0] == 'np.linalg.eigh':
        s = shape_of(it, a[0].a[1][0])
        return None if s is None else s[:1] if a[1] is tm.ZERO else s
    if f == 'np.dot':
        s, q = shape_of(it, a[0]), shape_of(it, a[1])
        if s and q and len(q) <= 2:
            return s[:-1] + (q[-1:] if len(q) > 1 else ())
        return None
    if f == 'sub':
        return shape_sub(shape_of(it, a[0]), a[1], it)
    return None


SAMESHAPE = {'sporco.linalg.solvedbi_sm': 2, 'sporco.linalg.solvedbd_sm': 2,
             'sporco.linalg.solvemdbi_ism': 2, 'sporco.prox._lp.prox_l1': 0}


def rank_of(it, t):
    """number of axes of the array t, if known"""
    s = shape_of(it, t)
    if s is not None:
        return len(s)
    if t.tag == 'sum':
        r = [rank_of(it, at) for m, c in t.a[0] for at, e in m]
        return None if None in r or not r else max(r)
    if t.tag == 'upd':
        return rank_of(it, t.a[0])
    if t.tag == 'ite':
        a, b = rank_of(it, t.a[1]), rank_of(it, t.a[2])
        return a if a == b else None
    if t.tag != 'app':
        return None
    f, a = t.a
    if f in SAMESHAPE:
        return rank_of(it, a[SAMESHAPE[f]])
    if f in FFTS and a:
        return rank_of(it, a[0])
    if f in ELEMWISE:
        r = [rank_of(it, x) for x in a if x.tag != 'kw']
        return None if None in r or not r else max(r)
    if f == 'np.sum' and any(x.tag == 'kw' and x.a[0] == 'keepdims' and
                             x.a[1] is TRUE for x in a):
        return rank_of(it, a[0])
    return None


def shape_sub(s, i, it=None):
    """shape after basic indexing"""
    if s is None:
        return None
    ix = i.a[0] if i.tag == 'tup' else (i,)
    n = sum(1 for x in ix if x is not NONE and not (
        x.tag == 'c' and x.a[0] is Ellipsis))
    if n > len(s):
        return None
    r, k = [], 0
    for x in ix:
        if x is NONE:
            r.append(tm.ONE)
        elif x.tag == 'c' and x.a[0] is Ellipsis:
            r += s[k:k + len(s) - n]
            k += len(s) - n
        elif x.tag == 'slice':
            w = slicelen(x, s[k])
            if w is None:
                return None
            r.append(w)
            k += 1
        elif x.tag == 'app' and x.a[0] == 'rows':
            r.append(const(len(x.a[1])))
            k += 1
        elif tm.isnum(x) or it is not None and x.tag == 's' and \
                it.shapes.get(x) == ():
            k += 1
        else:
            return None
    return tuple(r) + tuple(s[k:])


def slicelen(x, n):
    lo, hi, stp = x.a
    if stp is not NONE and stp is not tm.ONE:
        if lo is NONE and hi is NONE and stp is const(-1):
            return n
        return None
    if lo is NONE and hi is NONE:
        return n
    if all(y is NONE or tm.isnum(y) for y in (lo, hi)) and tm.isnum(n):
        f = lambda y: None if y is NONE else int(y.a[0])
        return const(len(range(int(n.a[0]))[f(lo):f(hi)]))
    lo = tm.ZERO if lo is NONE else lo
    if hi is NONE:
        return None
    if tm.isnum(lo) and tm.isnum(hi) and lo.a[0] >= 0 and hi.a[0] > 0:
        return None
    return None


def shaperep(t):
    """a term with the shape of t: elementwise operations on a single
    array are dropped"""
    while True:
        if t.tag == 'app' and t.a[0] in ('np.abs', 'np.conj', 'np.real',
                                         'np.sign', 'np.exp', 'np.log'):
            t = t.a[1][0]
        elif t.tag == 'app' and t.a[0] == 'np.sum' and len(t.a[1]) > 1:
            x = shaperep(t.a[1][0])
            return t if x is t.a[1][0] else \
                tm.mk('app', 'np.sum', (x,) + t.a[1][1:])
        elif t.tag == 'sum' and len(t.a[0]) == 1 and \
                len(t.a[0][0][0]) == 1:
            t = t.a[0][0][0][0][0]
        else:
            return t


# ---------------------------------------------------------------- calls

def call_method(it, slf, name, args, kwargs, st, node):
    from .interp import VT, VA, VL, VTup, VDict, VOpt, VX, VPhi, VB
    if name.startswith('opt.'):
        m = name[4:]
        if m == 'update':
            a = it.resolve(args[0], st) if args else None
            c = st.cells.get(a.cell) if isinstance(a, VL) else None
            if isinstance(c, VDict):
                for k, x in c.d.items():
                    it.optset(slf, const(k) if not isinstance(k, T) else k,
                              x, st, node)
            return VT(NONE)
        if m == 'copy':
            return slf
        if m == 'keys':
            return VT(app('keys', it.optterm(slf)))
        if m == 'get' and args:
            k = it.term(args[0], st)
            return it.optget(slf, k, st, node)
        if m == '__getitem__':
            return it.optget(slf, it.term(args[0], st), st, node)
        if m == '__setitem__':
            it.optset(slf, it.term(args[0], st), args[1], st, node)
            return VT(NONE)
        return VT(tm.unknown(name))
    if name.startswith('list.') or name.startswith('tuple.'):
        m = name.split('.')[1]
        c = st.cells.get(slf.cell) if isinstance(slf, VL) else slf
        if not it.muted:
            it.hooks.call(it, st, 'list.' + m, [slf] + list(args), kwargs,
                          node)
        if isinstance(c, VDict):
            if m == 'update':
                it.note_mutate(st, slf.cell, node, 'update')
                a = it.resolve(args[0], st) if args else None
                d = dict(c.d)
                opn = c.open
                ac = st.cells.get(a.cell) if isinstance(a, VL) else None
                if isinstance(ac, VDict):
                    d.update(ac.d)
                    opn = opn or ac.open
                elif a is not None:
                    opn = True
                for k, v in kwargs.items():
                    d[k] = v
                st.cells[slf.cell] = VDict(d, opn)
                return VT(NONE)
            if m == 'keys':
                if not c.open:
                    return VTup([VT(const(k) if not isinstance(k, T) else k)
                                 for k in c.d])
                return VT(app('keys', it.term(slf, st)))
            if m == 'values' and not c.open:
                return VTup(list(c.d.values()))
            if m == 'items' and not c.open:
                return VTup([VTup([VT(const(k) if not isinstance(k, T)
                                      else k), v]) for k, v in c.d.items()])
            if m in ('get', 'pop'):
                k = it.term(args[0], st)
                if m == 'pop':
                    it.note_mutate(st, slf.cell, node, 'pop')
                if k.tag == 'c' and k.a[0] in c.d:
                    v = c.d[k.a[0]]
                    if m == 'pop' and isinstance(slf, VL):
                        d = dict(c.d)
                        del d[k.a[0]]
                        st.cells[slf.cell] = VDict(d, c.open)
                    return v
                if not c.open and k.tag == 'c':
                    return args[1] if len(args) > 1 else VT(NONE)
                if not c.open and c.d:
                    r = args[1] if len(args) > 1 else VT(NONE)
                    for kk, v in c.d.items():
                        r = it.mergev(tm.cmp_('eq', k, const(kk)), v, r)
                    return r
                return VT(tm.unknown('dict.get'))
            if m == 'copy':
                return it.newdict(st, dict(c.d), c.open)
            if m in ('setdefault', 'clear', 'popitem'):
                it.note_mutate(st, slf.cell, node, m)
                return VT(tm.unknown(m))
        if m in ('append', 'extend', 'insert', 'pop', 'remove', 'reverse',
                 'sort', 'clear') and isinstance(slf, VL):
            it.note_mutate(st, slf.cell, node, m)
            if m == 'append' and isinstance(c, VTup):
                k = c.kind
                if k == 'openlist':
                    its = c.items[:1] + (args[0],)
                    st.cells[slf.cell] = VTup(its, 'openlist')
                else:
                    st.cells[slf.cell] = VTup(c.items + (args[0],), 'list')
                return VT(NONE)
            if m == 'extend' and isinstance(c, VTup) and c.kind == 'list':
                r = it.seqitems(args[0], st)
                if r is not None:
                    st.cells[slf.cell] = VTup(c.items + tuple(r), 'list')
                    return VT(NONE)
            st.cells[slf.cell] = VTup([VT(tm.unknown('list'))], 'openlist')
            return VT(tm.unknown(m))
        if m == 'index' or m == 'count':
            return VT(app(m, it.term(slf, st), it.term(args[0], st)))
        if m == 'copy':
            return it.newlist(st, c.items) if isinstance(c, VTup) and \
                c.kind == 'list' else VT(it.term(slf, st))
        return VT(app('call.' + m, it.term(slf, st),
                      *[it.term(a, st) for a in args]))
    if name.startswith('arr.'):
        m = name[4:]
        if m in METH:
            fn = METH[m]
            if m == 'reshape' and len(args) > 1:
                args = [VTup(args)]
            if m == 'transpose' and len(args) > 1:
                args = [VTup(args)]
            return call_external(it, fn, [slf] + list(args), kwargs, st,
                                 node)
        if m in ('fill', 'sort', 'put', 'resize', 'itemset', 'partition',
                 'byteswap'):
            t = it.term(slf, st)
            if isinstance(slf, VA):
                new = it.term(args[0], st) if m == 'fill' else \
                    app('np.sort', t) if m == 'sort' else \
                    app('inplace.' + m, t, *[it.term(a, st) for a in args])
                it.write(slf, new, st, node, '.%s()' % m)
            return VT(NONE)
        t = it.term(slf, st)
        if m in ('append', 'extend', 'update', 'pop') and isinstance(
                slf, VA):
            it.note_mutate(st, slf.cell, node, m)
        if m in ('keys', 'values', 'items'):
            return VT(app(m, t))
        if t.tag == 'c' and isinstance(t.a[0], str):
            ats = [it.term(a, st) for a in args]
            if all(a.tag == 'c' and isinstance(a.a[0], str) for a in ats):
                try:
                    r = getattr(t.a[0], m)(*[a.a[0] for a in ats])
                    if isinstance(r, (str, bool, int)):
                        return VT(const(r))
                except Exception:
                    pass
        return VT(app('call.' + m, t, *[it.term(a, st) for a in args]))
    return VT(tm.unknown(name))


def normargs(it, name, args, kwargs, st):
    """positional+keyword -> dict by parameter name (None if unknown)"""
    ps = PARAMS.get(name)
    if ps is None:
        return None
    if len(args) > len(ps) or '**' in kwargs:
        return None
    d = {}
    for p, a in zip(ps, args):
        d[p] = a
    for k, v in kwargs.items():
        d[k] = v
    return d


def intdtype(dt):
    return dt.tag in ('s', 'c') and str(dt.a[0]).split('.')[-1].startswith(
        ('bool', 'int', 'uint', 'object'))


def opaque_ext(it, name, args, kwargs, st, node):
    d = normargs(it, name, args, kwargs, st)
    if d is not None:
        first = PARAMS[name][0]
        ts = []
        if first in d:
            ts.append(it.term(d.pop(first), st))
        df = DEFAULTS.get(name, {})
        for k in sorted(d):
            if k == 'out':
                continue
            t = it.term(d[k], st)
            if t is NONE or df.get(k) is t:
                continue
            if k == 'dtype' and not it.typed and not intdtype(t):
                continue
            ts.append(kw(k, t))
        return tm.reapp(name, tuple(ts))
    ts = [it.term(a, st) for a in args] + \
        [kw(k, it.term(v, st)) for k, v in sorted(kwargs.items())
         if k != 'out' and not (k == 'dtype' and not it.typed and
                                not intdtype(it.term(v, st)))]
    return tm.reapp(name, tuple(ts))


def call_external(it, name, args, kwargs, st, node):
    from .interp import VT, VA, VL, VTup, VDict, VPhi, VO, VC, VF, VB, VX, \
        UNDEF, VOpt
    if it.fnmode and name.startswith('np.') and name in CANON:
        args = [it.arr(st, it.term(x, st)) if isinstance(x, VTup) or
                isinstance(x, VL) and it.seqitems(x, st) is not None else x
                for x in (it.resolve(y, st) for y in args)]
    name = CANON.get(name, name)
    ps = PARAMS.get(name, ())
    if kwargs and len(args) < 2 and any(p in kwargs for p in ps[:2]) and \
            (not args or name in POS2):
        # leading parameters given by keyword
        args, kwargs = list(args), dict(kwargs)
        for p in ps[len(args):2 if name in POS2 else 1]:
            if p not in kwargs:
                break
            args.append(kwargs.pop(p))
    if not it.muted:
        it.hooks.call(it, st, name, args, kwargs, node)
    r = _call_external(it, name, args, kwargs, st, node)
    if not it.muted:
        it.hooks.call_result(it, st, name, args, kwargs, node, r)
    # out= and where= arguments
    if 'where' in kwargs and name != 'np.where':
        w = it.term(kwargs['where'], st)
        if w is not TRUE:
            o = it.term(kwargs['out'], st) if 'out' in kwargs else NONE
            r = it.arr(st, tm.reapp('select', (
                w, it.term(r, st),
                tm.unknown('uninitialised') if o is NONE else o)))
    if 'out' in kwargs:
        o = it.resolve(kwargs['out'], st)
        if isinstance(o, VA):
            it.write(o, it.term(r, st), st, node, 'out=')
            return o
    return r


def _ret(it, st, args, t):
    """scalar operands give scalar results"""
    from .interp import VT
    if all(isinstance(a, VT) for a in args) or t.tag == 'c':
        return VT(t)
    return it.arr(st, t)


def _call_external(it, name, args, kwargs, st, node):
    from .interp import VT, VA, VL, VTup, VDict, VPhi, VO, VC, VF, VB, VX, \
        UNDEF, VOpt
    m = it.extra_models.get('ext:' + name)
    if m is not None:
        r = m(it, name, args, kwargs, st, node)
        if r is not NotImplemented:
            return r
    T_ = lambda v: it.term(v, st)
    a = args
    n = len(args)
    if name in ('np.mod', 'np.remainder', 'np.floor_divide') and n == 2 and \
            not kwargs:
        return _ret(it, st, a, binterm('floordiv' if name == 'np.floor_divide' else 'mod',
            T_(a[0]), T_(a[1])))
    if name == 'np.divmod' and n == 2 and it.fnmode:
        return VTup(tuple(it.arr(st, LITFN[f](T_(a[0]), T_(a[1])))
                          for f in ('floordiv', 'mod')))
    if name == 'collections.namedtuple' and n >= 2:
        f = a[1]
        its = it.seqitems(f, st)
        if its is not None:
            ft = tm.tup(it.term(x, st) for x in its)
        else:
            ft = T_(f)
            if ft.tag == 'c' and isinstance(ft.a[0], str):
                ft = tm.tup(const(x) for x in
                            ft.a[0].replace(',', ' ').split())
        return VT(app('namedtuple', T_(a[0]), ft))
    if name == 'ne.evaluate' and n >= 1:
        r = ne_evaluate(it, T_(a[0]), st)
        if it.typed and r is not None:
            r = it.arr(st, app('ne', it.term(r, st)))
        if r is not None:
            return it.arr(st, T_(r))
    if name in TUPRET and n >= 1 and not (
            'compute_uv' in kwargs and
            T_(kwargs['compute_uv']) is not TRUE):
        t = opaque_ext(it, name, args, kwargs, st, node)
        t = t if isinstance(t, T) else T_(t)
        return VTup(tuple(it.arr(st, itemterm(t, i))
                          for i in range(TUPRET[name])))
    if name == 'np.take' and n >= 3:
        k, ax = T_(a[1]), T_(a[2])
        if k.tag == 'tup' and len(k.a[0]) == 1 and tm.isnum(k.a[0][0]) and \
                tm.isnum(ax) and ax.a[0] >= 0 and k.a[0][0].a[0] >= 0:
            k = k.a[0][0]
            i = (tm.mk('slice', NONE, NONE, NONE),) * int(ax.a[0]) + (
                tm.mk('slice', k, tm.add(k, tm.ONE), NONE),)
            i = tm.tup(i)
            if isinstance(it.resolve(a[0], st), VA):
                i = normindex(it, it.resolve(a[0], st), st, i)
            return it.arr(st, subterm(T_(a[0]), i))
    if name == 'np.prod' and n == 1 and not kwargs:
        x = T_(a[0])
        if x.tag == 'tup':
            return VT(tm.mul(*x.a[0]) if x.a[0] else tm.ONE)
    if name == 'np.expand_dims':
        d = normargs(it, name, args, kwargs, st) or {}
        ax = T_(d['axis']) if 'axis' in d else NONE
        sh = shape_of(it, T_(a[0])) if it.shapes else None
        if tm.isnum(ax) and ax.a[0] < 0 and sh is not None:
            ax = tm.add(ax, const(len(sh) + 1))
        if tm.isnum(ax) and ax.a[0] >= 0:
            i = tm.tup((tm.mk('slice', NONE, NONE, NONE),) * int(ax.a[0]) +
                       (NONE,))
            if isinstance(a[0], VA):
                return VA(a[0].cell, a[0].view + (('sub', i),))
            return it.arr(st, subterm(T_(a[0]), i))
    if name == 'np.einsum' and n == 4:
        r = einsum0(T_(a[0]), T_(a[1]), T_(a[2]), T_(a[3]))
        if r is not None:
            return it.arr(st, r)
    if name.rpartition('.')[2] == 'LinearOperator' and 'matvec' in kwargs:
        x = it.symarr(st, 'linop.x')
        s = st.copy()
        r = it.call(kwargs['matvec'], [x], {}, s, node)
        return VT(app('linop', it.term(r, s)))
    # --- arithmetic ufuncs
    if name in ('+', '-', '*', '/', '**') and n >= 2:
        op = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div',
              '**': 'pow'}[name]
        return it.binop(op, a[0], a[1], st, node)
    if name == 'sq' and n:
        return _ret(it, st, a[:1], tm.power(T_(a[0]), 2))
    if name == 'sqrt' and n:
        return _ret(it, st, a[:1], tm.power(T_(a[0]), Fraction(1, 2)))
    if name == 'neg' and n:
        return _ret(it, st, a[:1], tm.neg(T_(a[0])))
    if name == 'recip' and n:
        return _ret(it, st, a[:1], tm.div(tm.ONE, T_(a[0])))
    if name in ('<', '>', '<=', '>=', '==', '!=') and n == 2:
        return VT(tm.cmp_({'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge',
                           '==': 'eq', '!=': 'ne'}[name], T_(a[0]),
                          T_(a[1])))
    if name == 'np.abs' and n:
        return _ret(it, st, a[:1], s_abs(T_(a[0])))
    if name == 'np.conj' and n:
        return _ret(it, st, a[:1], s_conj(T_(a[0])))
    if name == 'np.linalg.norm' and n:
        d = normargs(it, name, args, kwargs, st)
        f = lambda k: T_(d[k]) if k in d else NONE
        kd = f('keepdims')
        t = norm(f('x'), f('ord'), f('axis'), FALSE if kd is NONE else kd)
        return VT(t) if f('axis') is NONE else it.arr(st, t)
    if name in REDUCE:
        d = normargs(it, name, args, kwargs, st)
        t = opaque_ext(it, name, args, kwargs, st, node)
        if d is not None and ('axis' not in d or
                              it.term(d['axis'], st) is NONE):
            return VT(t)
        return it.arr(st, t)
    if name in ('np.maximum', 'np.minimum') and n >= 2:
        f = s_max if name == 'np.maximum' else s_min
        x, y = T_(a[0]), T_(a[1])
        return _ret(it, st, a, f(x, y))
    if name in ('np.any', 'np.all', 'any', 'all') and n == 1 and it.fnmode:
        r = litcmp(T_(a[0]))
        if r is None and T_(a[0]).tag == 'tup':
            r = [it.truth_t(x) for x in T_(a[0]).a[0]]
        if r is not None:
            return VT(tm.or_(*r) if name.endswith('any') else tm.and_(*r))
    if name == 'np.tolist' and n and T_(a[0]).tag == 'tup':
        return it.newlist(st, tuple(VT(x) for x in T_(a[0]).a[0]))
    if name in ('max', 'min'):
        f = s_max if name == 'max' else s_min
        if n >= 2:
            return _ret(it, st, a, f(*[T_(x) for x in a]))
        its = it.seqitems(a[0], st)
        if its is not None and its:
            return VT(f(*[T_(x) for x in its]))
        return VT(app('np.' + name, T_(a[0])))
    if name == 'np.clip' and n >= 3:
        x, lo, hi = T_(a[0]), T_(a[1]), T_(a[2])
        if lo is not NONE and lo is not tm.neg(sym('inf')):
            x = s_max(x, lo)
        if hi is not NONE and hi is not sym('inf'):
            x = s_min(x, hi)
        return it.arr(st, x)
    if name == 'np.where' and n == 3:
        c = T_(a[0])
        if not _isbool(c):
            c = it.truth_t(c)
        return it.arr(st, s_select(c, T_(a[1]), T_(a[2])))
    if name == 'np.real' and n:
        if isinstance(a[0], VA):
            return VA(a[0].cell, a[0].view + (('fn', 'np.real', ()),))
        return VT(app('np.real', T_(a[0])))
    if name in ('np.logical_and', 'np.logical_or') and n == 2:
        x, y = T_(a[0]), T_(a[1])
        if _isbool(x) and _isbool(y):
            return VT(tm.and_(x, y) if name.endswith('and') else
                      tm.or_(x, y))
    if name in ('set', 'frozenset') and n == 1:
        its = it.iteritems(a[0], st, node)
        if its is not None:
            ts = [T_(x) for x in its]
            if all(tm.isnum(x) for x in ts):
                return VT(app('set', *sorted(set(ts),
                                             key=lambda u: u.a[0])))
    if name == 'lnot' and n:
        return VT(tm.not_(T_(a[0])))
    # --- casts and copies
    if name in CASTS and n:
        r = cast(it, name, args, kwargs, st, node)
        v = it.resolve(a[0], st)
        if it.fnmode and isinstance(v, VA) and isinstance(r, VA) and \
                not v.view and not r.view and v.cell in it.cellshape:
            it.cellshape[r.cell] = it.cellshape[v.cell]
        return r
    if name in ('int',):
        t = T_(a[0]) if n else const(0)
        if tm.isnum(t):
            return VT(const(int(t.a[0])))
        if it.typed:
            return VT(app('int', t))
        return VT(app('int', t))
    if name == 'np.dtype':
        return VT(app('np.dtype', T_(a[0])))
    # --- views
    if name in VIEWS and n and isinstance(it.resolve(a[0], st), VA):
        v = it.resolve(a[0], st)
        d = normargs(it, name, args, kwargs, st)
        if d is None:
            ex = tuple(T_(x) for x in a[1:]) + tuple(
                kw(k, T_(x)) for k, x in sorted(kwargs.items()))
        else:
            ex = tuple(kw(k, T_(d[k])) for k in sorted(d)
                       if k != PARAMS[name][0])
        return VA(v.cell, v.view + (('fn', name, ex),))
    if name in VIEWS and n and isinstance(it.resolve(a[0], st), VPhi):
        p = it.resolve(a[0], st)
        return it.fork(
            p.c, st,
            lambda s: _call_external(it, name, [p.a] + list(a[1:]), kwargs,
                                     s, node),
            lambda s: _call_external(it, name, [p.b] + list(a[1:]), kwargs,
                                     s, node))
    if name in ('np.dot', 'np.matmul') and n >= 2:
        t = app('np.dot', T_(a[0]), T_(a[1]))
        return it.arr(st, t)
    if name == 'np.copyto' and n >= 2:
        d = it.resolve(a[0], st)
        if isinstance(d, VA):
            it.write(d, T_(a[1]), st, node, 'np.copyto')
        return VT(NONE)
    if name == 'np.put_along_axis' and n == 3 and 'axis' in kwargs or \
            name == 'np.put_along_axis' and n == 4:
        d = it.resolve(a[0], st)
        if isinstance(d, VA):
            ax = kwargs['axis'] if n == 3 else a[3]
            it.write(d, app('put_along', T_(d), T_(a[1]), T_(a[2]),
                            T_(ax)), st, node, name)
        return VT(NONE)
    if name in ('np.put', 'np.place', 'np.putmask', 'np.fill_diagonal') \
            and n:
        d = it.resolve(a[0], st)
        if isinstance(d, VA):
            it.write(d, tm.unknown(name), st, node, name)
        return VT(NONE)
    if name == 'np.random.shuffle' and n:
        d = it.resolve(a[0], st)
        if isinstance(d, VA):
            it.write(d, tm.unknown(name), st, node, name)
        return VT(NONE)
    if name in ('np.zeros', 'np.ones', 'np.empty', 'np.full',
                'np.zeros_like', 'np.ones_like', 'np.empty_like'):
        if not it.typed and name in ('np.zeros', 'np.zeros_like'):
            r = it.arr(st, tm.ZERO) if it.zeros_as_const() else \
                it.arr(st, opaque_ext(it, name, args[:1], {}, st, node))
        else:
            r = it.arr(st, opaque_ext(it, name, args, kwargs, st, node))
        if it.fnmode and n:
            t = T_(a[0])
            s = shape_of(it, t) if name.endswith('_like') else \
                t.a[0] if t.tag == 'tup' else None
            if s is not None:
                it.cellshape[r.cell] = s
        return r
    # --- builtins
    if name == 'len' and n:
        its = it.seqitems(a[0], st)
        if its is not None:
            return VT(const(len(its)))
        v = it.resolve(a[0], st)
        if isinstance(v, VL):
            c = st.cells.get(v.cell)
            if isinstance(c, VDict) and not c.open:
                return VT(const(len(c.d)))
        t = T_(a[0])
        if t.tag == 'c' and isinstance(t.a[0], str):
            return VT(const(len(t.a[0])))
        if t.tag == 'app' and t.a[0] == 'rep' and t.a[1][0].tag == 'tup':
            return VT(tm.mul(const(len(t.a[1][0].a[0])), t.a[1][1]))
        return VT(tm.reapp('len', (t,)))
    if name in ('range', 'xrange'):
        return VT(app('range', *[x for i, x in enumerate(
            T_(y) for y in a)])) if not (
                n == 2 and T_(a[0]) is tm.ZERO) else \
            VT(app('range', T_(a[1])))
    if name in ('tuple', 'list'):
        if not n:
            return VTup(()) if name == 'tuple' else it.newlist(st, ())
        its = it.iteritems(a[0], st, node)
        if its is not None:
            return VTup(its) if name == 'tuple' else it.newlist(st, its)
        v = it.resolve(a[0], st)
        if isinstance(v, VL):
            c = st.cells.get(v.cell)
            if name == 'list':
                return VL(it.newcell(st, c))
        t = T_(a[0])
        if t.tag == 'app' and t.a[0] in ('rep', 'tcat', 'tuple'):
            return VT(t)
        return VT(app('tuple', t)) if t.tag != 'u' else VT(t)
    if name == 'dict':
        d = {}
        opn = False
        if n:
            v = it.resolve(a[0], st)
            c = st.cells.get(v.cell) if isinstance(v, VL) else None
            if isinstance(c, VDict):
                d.update(c.d)
                opn = c.open
            else:
                its = it.iteritems(a[0], st, node)
                if its is not None:
                    for x in its:
                        p = it.seqitems(x, st)
                        if p and len(p) == 2 and T_(p[0]).tag == 'c':
                            d[T_(p[0]).a[0]] = p[1]
                        else:
                            opn = True
                else:
                    opn = True
        d.update({k: v for k, v in kwargs.items() if k != '**'})
        return it.newdict(st, d, opn or '**' in kwargs)
    if name == 'isinstance' and n == 2:
        return VT(isinst(it, a[0], a[1], st))
    if name == 'issubclass' and n == 2:
        x, y = it.resolve(a[0], st), it.resolve(a[1], st)
        if isinstance(x, VC) and isinstance(y, VC):
            return VT(const(y.ci in x.ci.mro))
        return VT(app('issubclass', T_(x), T_(y)))
    if name == 'hasattr' and n == 2:
        return VT(hasattr_(it, a[0], a[1], st))
    if name == 'getattr' and n >= 2:
        nm = T_(a[1])
        if nm.tag == 'c':
            if n == 3:
                c = it.decide(hasattr_(it, a[0], a[1], st), st)
                return it.fork(c, st,
                               lambda s: it.getattr(a[0], nm.a[0], s, node),
                               lambda s: a[2])
            return it.getattr(a[0], nm.a[0], st, node)
        return VT(app('getattr', T_(a[0]), nm))
    if name == 'setattr' and n == 3:
        nm = T_(a[1])
        if nm.tag == 'c':
            it.setattr(a[0], nm.a[0], a[2], st, node)
        return VT(NONE)
    if name == 'callable' and n:
        v = it.resolve(a[0], st)
        if isinstance(v, (VF, VB, VC)):
            return VT(TRUE)
        return VT(app('callable', T_(v)))
    if name == 'type' and n == 1:
        v = it.resolve(a[0], st)
        if isinstance(v, VO):
            return VC(v.cls)
        return VT(app('type', T_(v)))
    if name == 'enumerate' and n:
        its = it.iteritems(a[0], st, node)
        if its is not None:
            return VTup([VTup([VT(const(i)), x])
                         for i, x in enumerate(its)])
        return VT(app('enumerate', T_(a[0])))
    if name == 'zip':
        ls = [it.iteritems(x, st, node) for x in a]
        if ls and all(l is not None for l in ls):
            return VTup([VTup(x) for x in zip(*ls)])
        return VT(app('zip', *[T_(x) for x in a]))
    if name.endswith('.zip_longest') or name == 'zip_longest':
        ls = [it.iteritems(x, st, node) for x in a]
        if ls and all(l is not None for l in ls):
            fv = kwargs.get('fillvalue', VT(NONE))
            k = max(len(l) for l in ls)
            return VTup([VTup(x) for x in zip(*[
                list(l) + [fv] * (k - len(l)) for l in ls])])
    if name == 'np.ndindex' and n:
        ds = [T_(x) for x in (it.seqitems(a[0], st) or [a[0]])] if n == 1 \
            else [T_(x) for x in a]
        if all(tm.isnum(d) and d.a[0].denominator == 1 for d in ds):
            k = 1
            for d in ds:
                k *= int(d.a[0])
            if k <= 64:
                r = [()]
                for d in ds:
                    r = [x + (VT(const(i)),) for x in r
                         for i in range(int(d.a[0]))]
                return VTup([VTup(x) for x in r])
    if name in ('np.floor', 'np.ceil', 'math.floor', 'math.ceil') and \
            n == 1 and tm.isnum(T_(a[0])):
        import math
        return VT(const(getattr(math, name.split('.')[1])(T_(a[0]).a[0])))
    if name == 'scipy.optimize.brentq' and n >= 3 and it.fnmode:
        # the root of the function, given by its value at a symbol
        f = it.call(a[0], [VT(sym('$root'))], {}, st, node)
        return VT(app('brentq', T_(f), *[T_(x) for x in a[1:]]))
    if name == 'map' and n == 2:
        its = it.iteritems(a[1], st, node)
        if its is not None:
            return VTup([it.call(a[0], [x], {}, st, node) for x in its])
        idx = sym('$i%d' % it.loopdepth)
        it.loopdepth += 1
        v = it.call(a[0], [it.element(a[1], idx, st, node)], {}, st, node)
        it.loopdepth -= 1
        return VT(app('comp', T_(a[1]), T_(v)))
    if name == 'sum' and n:
        its = it.iteritems(a[0], st, node)
        if its is not None:
            r = tm.ZERO if n < 2 else T_(a[1])
            for x in its:
                r = tm.add(r, T_(x))
            return VT(r)
        return VT(app('sum', *[T_(x) for x in a]))
    if name in ('any', 'all') and n:
        its = it.iteritems(a[0], st, node)
        if its is not None:
            cs = [it.truth(x, st) for x in its]
            return VT(tm.or_(*cs) if name == 'any' else tm.and_(*cs)) \
                if cs else VT(const(name == 'all'))
        return VT(app(name, T_(a[0])))
    if name == 'slice':
        ts = [T_(x) for x in a]
        if n == 1:
            ts = [NONE] + ts
        while len(ts) < 3:
            ts.append(NONE)
        return VT(tm.mk('slice', *ts[:3]))
    if name == 'bool' and n:
        return VT(it.truth(a[0], st))
    if name == 'str' and n:
        t = T_(a[0])
        if t.tag == 'c' and isinstance(t.a[0], str):
            return VT(t)
        return VT(app('str', t))
    if name == 'print':
        p = it.extra_models.get('print')
        if p is not None:
            p(it, None, a, {}, st, node)
        return VT(NONE)
    if name == 'super.__new__' or name == 'object.__new__':
        o = getattr(it, 'pendingnew', None)
        if o is not None:
            it.pendingnew = None
            return o
        return VT(tm.unknown('new'))
    if name in ('super.__init__', 'object.__init__'):
        return VT(NONE)
    if name in ('sorted', 'reversed') and n:
        its = it.iteritems(a[0], st, node)
        if its is not None and name == 'reversed':
            return VTup(list(reversed(its)))
        return VT(app(name, T_(a[0])))
    if name == 'copy.deepcopy' or name == 'copy.copy':
        return deepcopy(it, a[0], st, name.endswith('deepcopy'))
    if name == 'collections.OrderedDict' and n == 0:
        return it.newdict(st, {})
    if name in ('types.MethodType', 'MethodType') and n == 2:
        f = it.resolve(a[0], st)
        return VB(a[1], f)
    if name in ('functools.partial', 'partial') and n:
        return partial(it, a, kwargs, st)
    t = opaque_ext(it, name, args, kwargs, st, node)
    if name in BOOLFUNCS:
        return VT(t)
    if all(isinstance(x, VT) for x in args) and n and name.startswith('np.'):
        return VT(t)
    return it.arr(st, t)


def einsum0(x, ix, y, iy):
    """einsum of the product over the leading axis"""
    if not (ix.tag == iy.tag == 'tup' and ix is iy and len(ix.a[0]) == 2 and
            ix.a[0][1].tag == 'c' and ix.a[0][1].a[0] is Ellipsis):
        return None

    def src(t):
        if t.tag == 'app' and t.a[0] == 'np.moveaxis':
            p = mvaxes(t.a[1])
            if p is not None and p[1] is tm.ZERO:
                return t.a[1][0], p[0]
        return t, tm.ZERO
    (u, a), (v, b) = src(x), src(y)
    if a is not b:
        return None
    return app('sum0', tm.mul(u, v), a)


def mvaxes(a):
    """(source, destination) of a moveaxis application"""
    if len(a) != 3:
        return None
    d = {u.a[0]: u.a[1] for u in a[1:] if u.tag == 'kw'}
    if set(d) == {'source', 'destination'}:
        return d['source'], d['destination']
    return (a[1], a[2]) if not d else None


def s_moveaxis(*a):
    x = a[0]
    p = mvaxes(a)
    if x.tag == 'app' and x.a[0] == 'sub' and p is not None and \
            p[0] is tm.ZERO and x.a[1][0].tag == 'app' and \
            x.a[1][0].a[0] == 'sum0' and x.a[1][0].a[1][1] is p[1] and \
            newlead(x.a[1][1]):
        return s_sum(x.a[1][0].a[1][0], kw('axis', p[1]),
                     kw('keepdims', TRUE))
    return tm.mk('app', 'np.moveaxis', a)


def newlead(i):
    return i is NONE or i.tag == 'tup' and i.a[0][0] is NONE and \
        (len(i.a[0]) == 1 or all(fullslice(y) for y in i.a[0][1:]))


tm.SIMP['np.moveaxis'] = s_moveaxis

TUPRET = {'np.linalg.svd': 3, 'np.linalg.eigh': 2, 'np.linalg.eig': 2,
          'scipy.linalg.lu_factor': 2, 'scipy.linalg.cho_factor': 2,
          'np.divmod': 2, 'np.linalg.qr': 2}
NEFN = {'where': 'np.where', 'abs': 'np.abs', 'sqrt': 'np.sqrt',
        'exp': 'np.exp', 'log': 'np.log', 'sin': 'np.sin', 'cos': 'np.cos',
        'conj': 'np.conj', 'real': 'np.real', 'imag': 'np.imag',
        'sum': 'np.sum', 'prod': 'np.prod', 'ones_like': 'np.ones_like',
        'min': 'np.min', 'max': 'np.max', 'arctan2': 'np.arctan2'}


def ne_evaluate(it, t, st):
    """value of a numexpr expression string in the caller's scope"""
    from .interp import VX
    if t.tag != 'c' or not isinstance(t.a[0], str):
        return None
    try:
        e = ast.parse(t.a[0].strip(), mode='eval').body
    except SyntaxError:
        return None
    used = {}
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            if not isinstance(x.func, ast.Name) or x.func.id not in NEFN:
                return None
            used['.ne.' + x.func.id] = VX(NEFN[x.func.id])
            x.func.id = '.ne.' + x.func.id
        if hasattr(x, 'lineno'):
            x.lineno = 0
    st.env.update(used)
    try:
        return it.ev(e, st)
    finally:
        for k in used:
            st.env.pop(k, None)


def partial(it, a, kwargs, st):
    from .interp import VT
    t = app('partial', *([it.term(x, st) for x in a] + [
        kw(k, it.term(v, st)) for k, v in sorted(kwargs.items())]))
    it.partials[t] = (list(a), dict(kwargs))
    return VT(t)


def deepcopy(it, v, st, deep):
    from .interp import VT, VA, VL, VTup, VDict, VPhi, VO, VOpt
    v = it.resolve(v, st)
    if isinstance(v, VL):
        c = st.cells.get(v.cell)
        if isinstance(c, VDict):
            return it.newdict(st, {k: deepcopy(it, x, st, deep) if deep
                                   else x for k, x in c.d.items()}, c.open)
        if isinstance(c, VTup):
            return VL(it.newcell(st, VTup(
                [deepcopy(it, x, st, deep) if deep else x
                 for x in c.items], c.kind)))
    if isinstance(v, VTup):
        return VTup([deepcopy(it, x, st, deep) if deep else x
                     for x in v.items], v.kind)
    if isinstance(v, VA):
        return it.arr(st, it.term(v, st))
    if isinstance(v, VOpt):
        root = it.fresh('optc')
        info = dict(it.optinfo[v.root])
        t = info['tree']
        for k in v.path:
            t = t.get(k, {}) if isinstance(t, dict) else {}
        info['tree'] = t
        if not info.get('concrete'):
            info['symfrom'] = (v.root, v.path)
        it.optinfo[root] = info
        ov = st.heap.get('opt:' + v.root, {})
        st.heap['opt:' + root] = {p[len(v.path):]: x for p, x in ov.items()
                                  if p[:len(v.path)] == v.path}
        return VOpt(root)
    if isinstance(v, VO):
        oid = it.fresh('o')
        d = {}
        for k, x in st.heap.get(v.oid, {}).items():
            d[k] = deepcopy(it, x, st, deep) if deep and isinstance(
                x, (VL, VTup, VA)) else x
        st.heap[oid] = d
        return VO(oid, v.cls)
    return v


def cast(it, name, args, kwargs, st, node):
    from .interp import VT, VA, VL, VTup, VDict, VPhi, VO, VOpt
    v = it.resolve(args[0], st)
    if name in ('copy.copy', 'copy.deepcopy'):
        return deepcopy(it, v, st, name.endswith('deepcopy'))
    if isinstance(v, VPhi):
        p = v
        return it.fork(p.c, st,
                       lambda s: cast(it, name, [p.a] + list(args[1:]),
                                      kwargs, s, node),
                       lambda s: cast(it, name, [p.b] + list(args[1:]),
                                      kwargs, s, node))
    t = it.term(v, st)
    if name in ('float', 'np.float32', 'np.float64', 'complex',
                'np.double'):
        if t.tag == 'c' and isinstance(t.a[0], str):
            s = t.a[0].strip().lower()
            if s in ('inf', '+inf', 'infinity'):
                return VT(sym('inf'))
            if s in ('-inf', '-infinity'):
                return VT(tm.neg(sym('inf')))
            return VT(app('float', t))
        return VT(app(name, t) if it.typed and not tm.isnum(t) else t)
    d = normargs(it, name, args, kwargs, st) or {}
    dt = it.term(d['dtype'], st) if 'dtype' in d else NONE
    cp = it.term(d['copy'], st) if 'copy' in d else \
        DEFAULTS.get(name, {}).get('copy', FALSE)
    if name == 'np.copy':
        cp = TRUE
    isbool = dt.tag == 's' and dt.a[0] in ('bool', 'np.bool_', 'int') or \
        dt.tag == 'c' and dt.a[0] in ('bool', 'int')
    if it.typed and dt is not NONE:
        t2 = app('cast', t, dt)
    elif isbool:
        t2 = app('cast', t, dt)
    elif it.typed and name == 'np.array' or it.typed and \
            name == 'np.asarray' and not isinstance(v, VA):
        t2 = app('mkarray', t)
    else:
        t2 = t
    if isinstance(v, VA) and cp is not TRUE and (
            name in MAYALIAS or name in ('astype', 'np.array')):
        if not it.typed and t2 is t:
            # may be the very same array
            return v
        # alias kept, but typed term differs: view through the cast
        return VA(v.cell, v.view + (('fn', 'cast', (dt,)),))
    return it.arr(st, t2)


def isdtype(t):
    if t.tag == 'ite':
        return isdtype(t.a[1]) and isdtype(t.a[2])
    return t.tag == 'app' and t.a[0] in (
        'sporco.fft.real_dtype', 'np.dtype', 'attr',
        'sporco.fft.complex_dtype')


def isinst(it, x, c, st):
    from .interp import VT, VA, VL, VTup, VDict, VPhi, VO, VC, VF, VB, VX, \
        VOpt
    x = it.resolve(x, st)
    c = it.resolve(c, st)
    if isinstance(x, VPhi):
        return tm.ite(x.c, isinst(it, x.a, c, st), isinst(it, x.b, c, st))
    its = it.seqitems(c, st)
    if its is not None:
        return tm.or_(*[isinst(it, x, y, st) for y in its])
    if isinstance(c, VC):
        if isinstance(x, VO):
            return const(c.ci in x.cls.mro)
        if isinstance(x, VOpt):
            ci = it.optinfo[x.root]['cls']
            if not x.path and ci is not None:
                return const(c.ci in ci.mro)
        if isinstance(x, (VA, VL, VTup)) and not (
                isinstance(x, VA) and it.cellinfo.get(
                    x.cell, ('',))[0] in ('param', 'option')):
            return FALSE
        if isinstance(x, VT) and x.t.tag == 'c':
            return FALSE
        if isinstance(x, VT) and x.t.tag == 'app' and \
                x.t.a[0].startswith('new:'):
            ci = it.classes.get(x.t.a[0][4:])
            if ci is not None:
                return const(c.ci in ci.mro)
    if isinstance(c, VX):
        n = c.name
        if isinstance(x, VTup):
            if n in ('tuple', 'list', 'dict', 'str', 'int', 'float',
                     'np.ndarray'):
                return const(n == x.kind)
        if isinstance(x, VL):
            cc = st.cells.get(x.cell)
            if isinstance(cc, VDict):
                return const(n == 'dict')
            if isinstance(cc, VTup):
                return const(n == 'list')
        if isinstance(x, VOpt):
            return const(n == 'dict')
        if n in ('tuple', 'list', 'dict', 'str', 'int', 'float') and \
                it.shapes and isinstance(x, VA) and \
                it.term(x, st) in it.shapes:
            return FALSE
        if isinstance(x, VT) and x.t.tag == 'c' and n in ('int', 'float') \
                and it.shapes is not None and it.fnmode and tm.isnum(x.t):
            return const((n == 'int') == (x.t.a[0].denominator == 1))
        if isinstance(x, VT) and x.t.tag == 'c':
            v = x.t.a[0]
            ty = {'str': str, 'bool': bool}.get(n)
            if ty:
                return const(isinstance(v, ty))
            if n in ('list', 'tuple', 'dict', 'np.ndarray'):
                return FALSE
            if isinstance(v, str) or v is None:
                return FALSE
        if n == 'type':
            if isinstance(x, VC):
                return TRUE
            if isinstance(x, VT) and isdtype(x.t):
                return FALSE
    t = it.term(x, st)
    ct = it.term(c, st)
    return app('isinstance', t, ct)


def hasattr_(it, o, nm, st):
    from .interp import VT, VA, VPhi, VO, VC, VM, UNDEF, VF, VOpt
    o = it.resolve(o, st)
    n = it.term(nm, st)
    if n.tag != 'c':
        return app('hasattr', it.term(o, st), n)
    name = n.a[0]
    if isinstance(o, VPhi):
        return tm.ite(o.c, hasattr_(it, o.a, nm, st),
                      hasattr_(it, o.b, nm, st))
    if isinstance(o, VO):
        if it.lookup(o.cls, name, st) is not None:
            return TRUE
        d = st.heap.get(o.oid, {})
        if name not in d:
            if name == '__qualname__':
                return TRUE
            return FALSE
        v = it.resolve(d[name], st)
        cs = []
        it.stripundef(v, TRUE, cs)
        if v is UNDEF:
            return FALSE
        return tm.not_(tm.or_(*cs)) if cs else TRUE
    if isinstance(o, VC):
        if it.lookup(o.ci, name, st) is not None:
            return TRUE
    if isinstance(o, VT) and o.t.tag == 'c':
        return FALSE if name in ('ndim', 'shape', 'dtype') else \
            app('hasattr', o.t, n)
    return app('hasattr', it.term(o, st), n)


def tupval(t):
    from .interp import VT, VTup
    if t.tag == 'tup':
        return VTup([tupval(x) for x in t.a[0]])
    return VT(t)


def call_term(it, fv, args, kwargs, st, node):
    """call of an unresolved callee"""
    from .interp import VT
    ft = it.term(fv, st)
    if ft.tag == 'app' and ft.a[0] == 'nt_make' and len(args) == 1:
        its = it.seqitems(args[0], st)
        if its is not None:
            args, ft = list(its), ft.a[1][0]
    if ft.tag == 'app' and ft.a[0] == 'namedtuple':
        fields = ft.a[1][1]
        if fields.tag == 'tup' and not kwargs:
            star = any(isinstance(a, VT) and a.t.tag == 'app' and
                       a.t.a[0] == 'star' for a in args)
            if not star and len(args) != len(fields.a[0]):
                if not it.muted:
                    it.hooks.unpack_error(it, st, len(fields.a[0]),
                                          len(args), node)
            if not star:
                r = VT(app('ntuple', fields, *[it.term(a, st)
                                               for a in args]))
                if not it.muted:
                    it.hooks.call_result(it, st, 'namedtuple', args, kwargs,
                                         node, r)
                return r
        return VT(app('ntuple*', fields, *[it.term(a, st) for a in args]))
    if not it.muted:
        it.hooks.call(it, st, 'term:' + tm.show(ft), args, kwargs, node)
    # dtype.type(x), dtype(x)
    if ft.tag == 'app' and (
            ft.a[0] == 'attr' and ft.a[1][1] is const('type') or
            ft.a[0] in ('np.dtype', 'sporco.fft.real_dtype',
                        'sporco.fft.complex_dtype')) and len(args) == 1:
        t = it.term(args[0], st)
        if it.typed:
            return VT(app('cast', t, ft.a[1][0] if ft.a[0] == 'attr'
                          else ft))
        return VT(t)
    if (it.fnmode or it.callpartials) and ft in it.partials:
        pa, pk = it.partials[ft]
        return it.call(pa[0], pa[1:] + list(args), dict(pk, **kwargs), st,
                       node)
    ts = [it.term(a, st) for a in args] + \
        [kw(k, it.term(v, st)) for k, v in sorted(kwargs.items())]
    return it.arr(st, app('call', ft, *ts))
