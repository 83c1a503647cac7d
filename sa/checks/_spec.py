"""Shared driver of the reference-formula checks: every selected method of
every selected class is compared with its documented formula, for real and
complex data, with options given and omitted, in several solver states."""
from ..lib import Pool

from .. import lib, spec
from ..lib import *

TABLES = {'admm': 'sporco.admm.', 'pgm': 'sporco.pgm.'}
SCALARARGS = {'i', 'rho', 'j', 'k', 'r', 'd'}


def symargs(s, f):
    return [VT(sym('arg.' + p)) if p in SCALARARGS else
            s.it.symarr(s.st, 'arg.' + p) for p in f.fi.params[1:]]


# ---- states of the solver object

def st_iter(s):
    s.generic_state()


def st_rho(s):
    s.generic_state()
    s.set_rho()


def st_prerho(s):
    """arbitrary iterate and parameters of the penalty update"""
    s.generic_state()
    s.set_rho()
    for n in ('rho_tau', 'rho_mu', 'rho_xi'):
        s.st.setattr(s.o.oid, n, VT(sym('self.' + n)))


def st_autorho(s, zero='r'):
    """after one automatic update of the penalty parameter, one of the
    residuals being zero"""
    st_prerho(s)
    s.st.setattr(s.o.oid, 'rho_tau', VT(const(2)))
    s.run('update_rho', *[VT(const(0) if n == zero else sym('arg.' + n))
                          for n in 'krd'])


def st_autorho2(s):
    st_autorho(s, 'd')


def st_setdict(s):
    s.generic_state()
    newdata(s, 'setdict', 'D')


def st_setcoef(s):
    s.generic_state()
    newdata(s, 'setcoef', 'Z')


def newdata(s, meth, name):
    m = s.it.lookup(s.o.cls, meth, s.st)
    m = m.f if isinstance(m, VP) else m
    n = len(m.fi.params) - 1
    s.run(meth, *[s.it.symarr(s.st, 'new' + p) for p in m.fi.params[1:n + 1]])


PGM_ARR = ('X', 'Y', 'Xprv', 'Yprv', 'ZZ')
DFT_ARR = ('X', 'Xf', 'Yf', 'Xfprv', 'Yfprv', 'ZZf')


def st_pgm(s):
    """an arbitrary iterate of a proximal gradient solver"""
    it, st, oid = s.it, s.st, s.o.oid
    for n in (DFT_ARR if 'Xf' in s.attrs() else PGM_ARR):
        st.setattr(oid, n, it.symarr(st, 'self.' + n))
    for n in ('k', 't', 'L'):
        st.setattr(oid, n, VT(sym('self.' + n)))
    for n in ('objfn', 'objfn_prev'):
        st.setattr(oid, n, VTup(tuple(VT(sym('self.%s%d' % (n, i)))
                                      for i in range(3))))
    for a, ns in (('stepsizepolicy', ('xprv', 'gradprv')),
                  ('backtrack', ('Tk', 'Zrb'))):
        v = s.attrs().get(a)
        for o in leaves(v) if v is not None else ():
            o = it.resolve(o, st)
            if isinstance(o, VO):
                if 'maxiter' in st.heap.get(o.oid, {}):
                    # line search of at most two rounds
                    st.setattr(o.oid, 'maxiter', VT(const(2)))
                    it.unroll_while = 3
                for n in ns:
                    if n in st.heap.get(o.oid, {}):
                        nm = 'self.%s.%s' % (a, n)
                        st.setattr(o.oid, n, VT(sym(nm)) if n == 'Tk' else
                                   it.symarr(st, nm))
                        if n == 'Zrb':
                            it.maybe_none.add(nm)


PGM_POLICIES = [
    ',,MomentumNesterov', ',StepSizePolicyCauchy,MomentumLinear',
    ',StepSizePolicyBB,MomentumGenLinear',
    'BacktrackStandard,,MomentumNesterov',
    'BacktrackRobust,,MomentumLinear']


def st_pgmdict(s):
    st_pgm(s)
    newdata(s, 'setdict', 'D')


def st_pgmcoef(s):
    st_pgm(s)
    newdata(s, 'setcoef', 'Z')


STATES = {'pgm': st_pgm, 'pgmdict': st_pgmdict, 'pgmcoef': st_pgmcoef,
          'iter': st_iter, 'autorho': st_autorho,
          'autorho2': st_autorho2,
          'prerho': st_prerho, 'rho': st_rho, 'setdict': st_setdict,
          'setcoef': st_setcoef}


NEED = {'setdict': 'setdict', 'setcoef': 'setcoef', 'pgmdict': 'setdict',
        'pgmcoef': 'setcoef'}


def setup_for(qual):
    def setup(s):
        pass
    return setup


def job(j):
    tabname, qual, mode, real, state, meths = j
    tab = spec.table(tabname, TABLES[tabname])
    h = spec.SpecHooks()
    pol = None
    if ':' in state:
        state, pol = state.split(':')
    lib.POLICY.clear()
    if pol:
        lib.POLICY.update(zip(('Backtrack', 'StepSizePolicy', 'Momentum'),
                              [x or None for x in pol.split(',')]))
    lib.DIMN[0] = 2
    dn = ''
    if mode[-1].isdigit():
        lib.DIMN[0] = int(mode[-1])
        dn = ' dimN=' + mode[-1]
        mode = mode[:-1]
    ctx = ' [%s%s%s%s]' % (state + dn,
                           '' if mode == 'sym' else ' opt omitted',
                           '' if real else ' complex',
                           ' ' + pol if pol else '')
    out = []
    try:
        s = Solver(qual, mode, real=real, hooks=h, setup=setup_for(qual))
        if state in NEED and not s.has(NEED[state]):
            return j, out
        if state == 'rho' and not s.has('rhochange'):
            return j, out
        STATES[state](s)
    except Dead:
        return j, [('%s%s' % (qual, ctx), None, 'state not reachable')]
    except AnalysisError as e:
        return j, [('%s%s' % (qual, ctx), None, str(e))]
    ms = spec.methods(tab, s.ci)
    for m in sorted(ms):
        if meths is not None and m not in meths:
            continue
        own, f = spec.find(tab, s.ci, m)
        for k, v, t in spec.check_method(s, tab, m, symargs(s, f), ctx=ctx):
            out.append((k, v, t))
    return j, out


def modes(qual):
    """option modes of a class, and other numbers of spatial dimensions"""
    r = ['sym', 'none']
    it = make()
    init = it.lookup(cls(it, qual), '__init__', it.static)
    if isinstance(init, VF) and {'dimN', 'axes'} & set(init.fi.params):
        r += ['sym1', 'sym3']
    return r


def run_jobs(rep, jobs, n=8):
    with Pool(n) as p:
        for j, out in p.imap_unordered(job, jobs, chunksize=1):
            rep.count('configurations')
            for k, v, t in out:
                rep.count('comparisons')
                rep.inst(k, v, t)
