"""C25: closed forms of the norms, proximal maps and projections."""
from ..lib import Pool
from .. import fnspec
from ..fnspec import *

RULE = ('The value graph of each norm, proximal map and projection (both '
        'the numexpr and the numpy variant, real and complex input, each '
        'axis mode) is compared with that of its closed form.')
SCALARS = {'alpha', 'beta', 'gamma', 'axis', 'eps'}
GLOBS = [('sporco.prox._lp', 'have_numexpr', VT(sym('have_numexpr')))]


def configs(q, f):
    for real in (True, False):
        for ax in ('sym', 'none') if 'axis' in f.fi.params else ('sym',):
            for al in ('sym', 'arr') if 'alpha' in f.fi.params else ('sym',):
                yield (real, ax, al)


def one(j):
    q, real, ax, al = j
    f = fnspec.table('prox')[q]
    args = {p: 'sym' for p in f.fi.params if p in SCALARS}
    args['axis'] = ax
    if 'alpha' in args:
        args['alpha'] = al
    return check_fn(q, f, args, real=real, globs=GLOBS,
                    ctx=' [%s%s%s]' % ('real' if real else 'complex',
                                       ' axis=None' if ax == 'none' else '',
                                       ' array alpha' if al == 'arr' else ''))


def run(rep):
    rep.rule = RULE
    js = [(q,) + c for q, f in sorted(fnspec.table('prox').items())
          for c in configs(q, f)]
    with Pool(8) as p:
        for k, v, t in p.imap_unordered(one, js):
            rep.count('comparisons')
            rep.inst(k, v, t)
    rep.floor('comparisons', 20)
