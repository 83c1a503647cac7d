"""C31: solvers start from the documented state."""
import ast

from ._spec import *
from .c14 import verdict, where_of

RULE = ('The value graph of every listed attribute after construction, for '
        'symbolic arguments and options, is compared with the reference '
        'value written in terms of the constructor arguments; array '
        'allocations keep their shape argument.')


def reads(ci, name):
    return any(isinstance(n, ast.Attribute) and n.attr == name and
               isinstance(n.ctx, ast.Load) and
               isinstance(n.value, ast.Name) and n.value.id == 'self'
               for c in ci.mro if hasattr(c, 'node')
               for n in ast.walk(c.node))


def job(j):
    q, mode, real, dn = j
    tab = spec.table('init', 'sporco.')
    lib.DIMN[0] = dn
    lib.POLICY.clear()
    key = '%s.__init__ [%s, %s, dimN=%d]' % (
        q, 'any options' if mode == 'sym' else 'opt omitted',
        'real' if real else 'complex', dn)
    try:
        s = Solver(q, mode, real=real, hooks=spec.SpecHooks(),
                   setup=lambda s: setattr(s.it, 'zeroconst', False))
    except (Dead, AnalysisError, KeyError) as e:
        return [(key, None, 'not constructed: %s' % e)]
    it, st = s.it, s.st
    own, f = spec.find(tab, s.o.cls, 'init')
    if f is None:
        return [(key, None, 'no reference')]
    out = []
    where = where_of(s, '__init__')
    st2 = st.copy()
    for k in [k for k in st2.heap if str(k).startswith('obj:')]:
        del st2.heap[k]
    it.hooks.inspec += 1
    try:
        args = {p: s.args[p] for p in f.fi.params[1:]}
        d = it.call(f, [s.o], args, st2, None)
    except Dead:
        return [(key, None, 'formula undefined here')]
    finally:
        it.hooks.inspec -= 1
    if it.hooks.bad:
        return [(key, None, 'formula refers to %s' % it.hooks.bad[0])]
    at = s.attrs()
    g = s.args.get('opt')
    if isinstance(g, VOpt):
        o = it.resolve(at.get('opt'), st)
        out.append((key + ': opt is the object given', isinstance(o, VOpt) and
                    o.root == g.root, '%s: the options object given by the '
                    'caller is not used' % where))
    if mode == 'none':
        o = it.resolve(at.get('opt'), st)
        c = it.optinfo[o.root]['cls'] if isinstance(o, VOpt) else None
        w = it.lookup(s.o.cls, 'Options', st)
        if c is not None and isinstance(w, VC):
            out.append((key + ': class of opt', c is w.ci or c.is_sub(w.ci),
                        '%s: default options are %s, those of the class are '
                        '%s' % (where, c.qual, w.ci.qual)))
        else:
            out.append((key + ': class of opt', None, 'not known'))
    for k, v in spec.dictof(it, d, st2).items():
        k = spec.kname(k)
        if k not in at:
            out.append(('%s: %s' % (key, k), False if reads(
                s.o.cls, k) else None, '%s: self.%s is used by the solver '
                'but not set' % (where, k)))
            continue
        verdict(out, '%s: %s' % (key, k), where, it.term(v, st2),
                it.term(at[k], st), dict(st2.pc), k)
    return out


def jobs():
    tab = spec.table('init', 'sporco.')
    r = []
    for q in SOLVERS:
        for mode in modes(q):
            for real in (True, False):
                for dn in (1, 2):
                    if q in tab:
                        r.append((q, mode, real, dn))
    return r


def run(rep):
    rep.rule = RULE
    with Pool(8) as p:
        for r in p.imap_unordered(job, jobs()):
            for k, v, t in r:
                rep.count('comparisons')
                rep.inst(k, v, t)
    rep.floor('comparisons', 100)
