"""C16: transforms, spectral norms, gradient operators and filters."""
from ..fnspec import *
from ..models import opaque_ext
from ..terms import kw

TABLE = 'fft'
RULE = ('The value graph of each transform wrapper (both back ends), '
        'frequency-domain norm, gradient operator and filter is compared '
        'with that of its documented formula.')
F = 'sporco.fft.'
S = 'sporco.signal.'
TR = {F + x for x in ('fftn', 'ifftn', 'rfftn', 'irfftn')}
OPAQUE = TR | {F + 'is_complex_dtype', F + 'complex_dtype',
               F + 'real_dtype'}


def fftmodel(nm):
    def f(it, name, args, kwargs, st, node):
        d = dict(zip(('a', 's', 'axes'), args))
        d.update(kwargs)
        ts = [it.term(d[k], st) if k in d else NONE
              for k in ('a', 's', 'axes')]
        ow = it.term(d['overwrite_input'], st) if 'overwrite_input' in d \
            else FALSE
        if 'norm' in d and it.term(d['norm'], st) is not NONE:
            ts.append(it.term(d['norm'], st))
        if ow is not FALSE:
            ts.append(kw('overwrite_input', ow))
        return it.arr(st, app('dft.' + nm, *ts))
    return f


def empty(it, name, args, kwargs, st, node):
    return it.arr(st, app('np.empty', it.term(args[0], st)))


MODELS = {}
for _n in ('fftn', 'ifftn', 'rfftn', 'irfftn'):
    for _p in ('numpy_fft', 'pyfftw.interfaces.numpy_fft', 'np.fft',
               'pyfftw.interfaces.scipy_fft'):
        MODELS['ext:%s.%s' % (_p, _n)] = fftmodel(_n)
MODELS['ext:pyfftw.empty_aligned'] = empty
MODELS['ext:np.empty'] = empty

GLOBS = [('sporco.fft', 'npfft', VX('np.fft'))]
WR = [dict(s='$s', axes='$axes'), dict(s=None, axes='$axes')]
GR = [dict(x=A('a', 'b', 'c'), axis=i, zero_pad=z)
      for i in (0, 1, 2, -1, -2) for z in (True, False)
      if not (z and i < 0)]
CONF = {F + 'irfftn': WR[:1], F + '_irfftn': WR[:1]}
for _n in ('fftn', 'ifftn', 'rfftn'):
    CONF[F + _n] = CONF[F + '_' + _n] = WR
CONF.update({
    F + 'is_complex_dtype': [dict(dtype='$dtype')],
    F + 'fftn_func': [dict(real=r, _apply=[A('a', 'b'), None, (0, 1)])
                      for r in (True, False)],
    F + 'ifftn_func': [dict(real=r, _real=False, _apply=[
        A('a', 'b'), ('$n0', '$n1'), (0, 1)]) for r in (True, False)],
    F + 'fl2norm2_func': [dict(real=r, _real=False, _apply=[
        A('a', 'b', 'c'), ('$n0', '$n1', '$n2'), (0, 1)])
        for r in (True, False)],
    F + 'dctii': [dict(x=A('a', 'b'), axes=x)
                  for x in (None, (0, 1), (1,), (2, 0, 1))],
    F + 'idctii': [dict(x=A('a', 'b'), axes=x)
                   for x in (None, (0, 1), (1,), (2, 0, 1))],
    F + 'fl2norm2': [dict(xf=A('a', 'b', 'c'), axis=x, _real=False)
                     for x in ((0, 1), (1, 2), (0,))],
    F + 'rfl2norm2': [dict(xf=A('a', 'b', 'c'), xs=('$n0', '$n1', '$n2'),
                           axis=x, _real=False)
                      for x in ((0, 1), (1, 2), (0,), (2, 0))],
    F + 'rfftn_empty_aligned': [dict(shape=('$n0', '$n1', '$n2'), axes=x,
                                     dtype='$dtype')
                                for x in ((0, 1), (1, 2), (0,), (2, 0))],
    F + 'fftconv': [dict(a=A('a', 'b'), b=A('c', 'd'), axes=x, origin=o,
                         _real=r)
                    for x in (None, (0, 1), (1,))
                    for o in (None, ('$o0', '$o1'))
                    for r in (True, False, {'a': False}, {'b': False})],
    S + 'local_contrast_normalise': [
        dict(s=A('a', 'b', *x), n=n, c=c) for x in ((), (3,)) for n in (2, 3)
        for c in (None, '$c')],
    S + 'grad': GR, S + 'gradT': GR,
    S + 'gradient_filters': [
        dict(ndim=n, axes=x, axshp='$axshp', dtype='$dtype')
        for n, x in ((2, (0, 1)), (5, (0, 1)), (3, (0, 2)), (4, (1, 2)),
                     (3, (0, 1, 2)), (3, (1,)))],
    S + 'spnoise': [dict(frc='$frc', smn='$smn', smx='$smx')],
    S + 'rndmask': [dict(shp='$shp', frc='$frc', dtype='$dtype')],
    S + 'rgb2gray': [dict(rgb=A('a', 'b', 3)), dict(rgb=A('a', 'b', 3, 'k'))],
    S + 'tikhonov_filter': [
        dict(s=s, lmbda='$lmbda', npd='$npd', _real=r)
        for s in (A('a', 'b'), A('a', 'b', 'c')) for r in (True, False)],
    S + 'gaussian': [dict(shape=7, sd='$sd'), dict(shape=(5, 7), sd='$sd')],
})
CONF[F + '_rfftn_empty'] = CONF[F + 'rfftn_empty_aligned']


def run(rep):
    rep.rule = RULE
    run_conf(rep, jobs('c16', TABLE, CONF), 60)
