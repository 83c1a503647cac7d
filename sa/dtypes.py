"""Precision of a value-graph term: abstract interpretation over the lattice
weak Python scalar / integer / data precision / fixed double precision."""
from . import terms as tm

W, B, I, S, H, U = 'W', 'B', 'I', 'S', 'H', '?'


def promote(*ps):
    """result precision of an arithmetic operation (NumPy 2 promotion)"""
    ps = [p for p in ps if p != B] or [B]
    if H in ps:
        return H
    if U in ps:
        return U
    if S in ps:
        return H if I in ps else S
    if I in ps:
        return I
    return W if W in ps else B


def join(*ps):
    ps = set(ps)
    if len(ps) == 1:
        return ps.pop()
    if H in ps:
        return H
    if U in ps:
        return U
    ps.discard(W)
    ps.discard(B)
    return ps.pop() if len(ps) == 1 else H if ps == {S, I} else W


def flt(*ps):
    """floating-point function: integers and Python numbers become double"""
    p = promote(*ps)
    return H if p in (W, I, B) else p


# result has the precision of the first argument
FIRST = set('''np.abs np.conj np.real np.imag np.sign np.transpose np.reshape
np.swapaxes np.moveaxis np.rollaxis np.squeeze np.expand_dims np.ravel
np.flatten sub item upd np.roll np.pad np.cumsum np.sort np.diff np.tile
np.diag np.take np.round np.max np.min np.sum np.prod np.broadcast_to np.copy
np.atleast_1d np.atleast_2d np.atleast_3d np.flip np.fliplr np.flipud np.rot90
np.trace np.repeat np.array_split np.split np.triu np.tril np.negative
np.zeros_like np.ones_like np.empty_like np.trapz np.partition np.nan_to_num
np.floor np.ceil np.angle np.take_along_axis np.lib.stride_tricks.as_strided
scipy.ndimage.gaussian_filter scipy.ndimage.convolve scipy.fftpack.dct
scipy.fftpack.idct scipy.fft.dct scipy.fft.idct scipy.fft.dctn scipy.fft.idctn
pyfftw.interfaces.numpy_fft.fftn pyfftw.interfaces.numpy_fft.rfftn
pyfftw.interfaces.numpy_fft.ifftn pyfftw.interfaces.numpy_fft.irfftn
scipy.fft.fftn scipy.fft.ifftn scipy.fft.rfftn scipy.fft.irfftn
np.fft.fftn np.fft.ifftn np.fft.rfftn np.fft.irfftn
fold last range len float int'''.split())
FLOAT = set('''np.sqrt np.exp np.log np.log10 np.log2 np.sin np.cos np.tan
np.tanh np.sinh np.cosh np.arctan2 np.arctan np.mean np.std np.var np.median
np.linalg.norm np.linalg.svd np.linalg.inv np.linalg.solve np.linalg.qr
np.linalg.eig np.linalg.eigh np.hypot np.sinc'''.split())
ALL = set('''np.dot np.matmul max2 min2 np.outer np.kron np.vdot np.inner
np.tensordot np.einsum np.dstack scipy.signal.convolve2d
scipy.signal.fftconvolve scipy.sparse.linalg.cg np.result np.concatenate np.stack np.hstack np.vstack np.divide
np.add np.subtract np.multiply np.power np.maximum np.minimum np.clip
np.cross np.convolve np.linalg.lstsq
scipy.linalg.cho_solve scipy.linalg.lu_solve scipy.linalg.solve_triangular
scipy.linalg.lu_factor scipy.linalg.cho_factor'''.split())
INTS = set('''np.argmax np.argmin np.argsort np.searchsorted np.nonzero
np.count_nonzero np.argpartition'''.split())
BOOL = set('''np.isnan np.isinf np.isfinite np.any np.all truth isnone
isinstance hasattr band bor np.logical_and np.logical_or np.logical_not
np.isrealobj np.iscomplexobj np.array_equal np.allclose'''.split())
PRECS = {'float': H, 'np.float64': H, 'np.double': H, 'np.complex128': H,
         'complex': H, 'np.float32': S, 'np.complex64': S, 'np.single': S,
         'bool': B, 'np.bool_': B, 'int': I, 'np.int64': I, 'np.int32': I,
         'np.uint8': I, 'uint8': I, 'object': W, 'np.int_': I, 'float64': H, 'float32': S,
         'complex64': S, 'complex128': H}
MEASURES = ('shape', 'size', 'ndim', 'itemsize', 'nbytes')


class Precision(object):
    def __init__(self, env, option=None, kernels=None):
        self.env = env              # symbol name -> precision
        self.option = option or (lambda n: None)
        self.kernels = kernels      # name, argument precisions -> precision
        self.memo = {}
        self.unk = {}

    def unknown(self, what):
        self.unk[what] = self.unk.get(what, 0) + 1
        return U

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = U
            r = self.memo[t] = self.prec(t)
        return r

    def seq(self, t):
        if t.tag == 'tup':
            return [self(x) for x in t.a[0]]
        return [self(t)]

    def dtype(self, t):
        """precision that a dtype-valued term stands for"""
        if t.tag == 'ite':
            return join(self.dtype(t.a[1]), self.dtype(t.a[2]))
        if t.tag == 'c':
            if t.a[0] is None:
                return H
            return PRECS.get(t.a[0], U)
        if t.tag == 's':
            if t.a[0].endswith('[DataType]'):
                return S
            n = t.a[0]
            n = n[4:] if n.startswith('ext:') else n
            if n in PRECS or n in self.env:
                return PRECS[n] if n in PRECS else self.env[n]
            return S if n.endswith('dtype') else \
                self.unknown('dtype ' + n)
        if t.tag == 'app':
            f, a = t.a[0], t.a[1]
            if f == 'attr' and a[1].tag == 'c':
                if a[1].a[0] == 'dtype':
                    return self(a[0])
                if a[1].a[0] in ('type', 'base', 'newbyteorder', 'str',
                                 'name', 'char'):
                    return self.dtype(a[0])
            if f == 'kind' and len(a):
                return self.dtype(a[0])
            if f in ('np.dtype', 'sporco.fft.real_dtype',
                     'sporco.fft.complex_dtype'):
                return self.dtype(a[0])
            if f in ('np.result_type', 'np.promote_types',
                     'np.find_common_type'):
                return promote(*[self.dtype(x) if isdt(x) else self(x)
                                 for x in a])
        return self.unknown('dtype ' + tm.show(t)[:60])

    def prec(self, t):
        g, a = t.tag, t.a
        if g == 'c':
            v = a[0]
            return B if isinstance(v, bool) else W
        if g == 's':
            n = a[0]
            if n in self.env:
                return self.env[n]
            if n in ('pi', 'inf', 'nan', 'np.pi', 'np.inf', '1j'):
                return W
            if n.startswith(('$', 'fn:', 'mod:', 'class:', 'obj:', 'ext:')):
                return W
            o = self.option(n)
            if o is not None:
                return o
            return self.unknown('symbol ' + n)
        if g == 'ite':
            return join(self(a[1]), self(a[2]))
        if g == 'tup':
            return join(*[self(x) for x in a[0]]) if a[0] else W
        if g in ('cmp', 'not', 'and', 'or', 'op'):
            return B
        if g == 'u' and a[1] == 'undef':
            return W
        if g == 'upd':
            return self(a[0])
        if g == 'app':
            return self.app(a[0], a[1])
        return self.arith(t)

    def arith(self, t):
        if t.tag != 'sum':
            return self.unknown('tag ' + t.tag)
        ps = []
        for m, c in t.a[0]:
            if not m:
                ps.append(W)
            for x, e in m:
                p = self(x)
                e = tm.Fraction(e) if not isinstance(e, tm.T) else None
                if e is None or e.denominator != 1 or e < 0:
                    p = H if p in (I, B) else p
                ps.append(p)
        return promote(*ps)

    def weak(self, t):
        """is there an operand of Python number type in an expression
        evaluated by numexpr, which takes these as double precision?"""
        if t.tag == 'c':
            return t.a[0].denominator != 1 if hasattr(
                t.a[0], 'denominator') else False
        if self(t) == W:
            return True
        if t.tag == 'sum':
            return any(self.weak(x) for m, c in t.a[0] for x, e in m)
        if t.tag == 'ite':
            return self.weak(t.a[1]) or self.weak(t.a[2])
        if t.tag == 'app' and t.a[0] in ('np.abs', 'np.where', 'np.sqrt',
                                         'np.exp', 'max2', 'min2', 'select'):
            return any(self.weak(x) for x in t.a[1][t.a[0] in (
                'np.where', 'select'):])
        return False

    def kwdtype(self, a):
        for x in a:
            if x.tag == 'kw' and x.a[0] == 'dtype':
                return x.a[1]

    def app(self, f, a):
        if f == 'cast':
            return self.dtype(a[1])
        if f == 'np.dtype' or f in ('sporco.fft.real_dtype',
                                    'sporco.fft.complex_dtype'):
            return self.dtype(a[0])
        pos = [x for x in a if x.tag != 'kw']
        dt = self.kwdtype(a)
        if f in ('attr',):
            n = a[1].a[0] if a[1].tag == 'c' else None
            if n in MEASURES:
                return W
            if n in ('real', 'imag', 'T', 'flat'):
                return self(a[0])
            if a[0].tag == 'app' and a[0].a[0].startswith('new:'):
                return W
            if n in ('dtype', 'type'):
                return self.dtype(a[0]) if n == 'type' else self(a[0])
            return self.unknown('attribute %s' % n)
        if f == 'kind':
            return self(a[0])
        if f.startswith('new:'):
            return W
        if f == 'call' and a[0].tag == 'ite':
            return join(*[self.app('call', (x,) + tuple(pos[1:]))
                          for x in a[0].a[1:]])
        if f == 'call' and a[0].tag == 'app' and a[0].a[0] == 'partial':
            return self.app('call', (a[0].a[1][0],) + tuple(pos[1:]))
        if f == 'call' and a[0].tag == 's' and self.kernels:
            r = self.kernels(self, a[0].a[0].rpartition(':')[2], pos[1:])
            if r is not None:
                return r
        if f in ('tcat', 'tuple', 'list', 'slice', 'rep', 'while',
                 'comp', 'enumerate', 'linop',
                 'scipy.optimize.brentq', 'multiprocessing.cpu_count', 'os.cpu_count'):
            return W
        if f == 'ne':
            p = self(a[0])
            return H if p == S and self.weak(a[0]) else p
        if f == 'partial':
            return W
        if f == 'fold':
            return join(*[p for x in pos for p in self.seq(x)])
        if f in ('len', 'range', 'float', 'int', 'np.prod_shape'):
            return W
        if f in BOOL:
            return B
        if f in INTS:
            return I
        if dt is not None and dt is not tm.NONE:
            return self.dtype(dt)
        if f == 'mkarray':
            p = join(*self.seq(pos[0]))
            if p == W:
                return I if all(x.tag == 'c' and isinstance(x.a[0], int) or
                                x.tag == 'app' for x in (
                    pos[0].a[0] if pos[0].tag == 'tup' else pos)) else H
            return p
        if f in ('np.zeros', 'np.ones', 'np.empty', 'np.eye', 'np.identity',
                 'np.hanning', 'np.hamming', 'np.linspace',
                 'np.random.randn', 'np.random.rand', 'np.random.uniform',
                 'np.random.normal'):
            return H
        if f in ('pyfftw.empty_aligned',):
            return self.dtype(pos[1])
        if f == 'np.full':
            p = self(pos[1])
            return H if p == W else p
        if f == 'np.arange':
            return I
        if f == 'np.where' or f == 'select':
            return promote(*[self(x) for x in pos[1:]])
        if f in FIRST and pos:
            if f in ('np.sum', 'np.prod', 'np.max', 'np.min') and \
                    self(pos[0]) == W:
                return I
            return self(pos[0])
        if f in FLOAT and pos:
            return flt(self(pos[0]))
        if f in ALL and pos:
            return promote(*[p for x in pos for p in self.seq(x)])
        if self.kernels:
            r = self.kernels(self, f, pos)
            if r is not None:
                return r
        return self.unknown(f)


def isdt(t):
    if t.tag == 'ite':
        return isdt(t.a[1])
    return t.tag == 'app' and (t.a[0] in (
        'np.dtype', 'sporco.fft.real_dtype', 'sporco.fft.complex_dtype') or
        t.a[0] == 'attr' and t.a[1][1].a[0] in ('dtype', 'type')) or \
        t.tag == 's' and t.a[0] in PRECS

