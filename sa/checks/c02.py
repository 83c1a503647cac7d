"""C02: computation is carried out in the data type of the signal."""
from ..lib import *
from ..lib import Pool
from ..interp import VTup, VL
from ..dtypes import Precision, promote, W, B, I, S, H, U
from . import c06
from .. import api

RULE = ('Data type inference on value graphs in which all conversions are '
        'kept, over the lattice Python number / integer / data precision / '
        'double, with the promotion rules of NumPy and numexpr. Signal: data '
        'precision; every other array or scalar argument and array-valued '
        'option: double; scalar options: Python numbers. Obligation per '
        'array attribute of a solver after construction and after each of '
        'two iterations, per array returned by an argument-free method, per '
        'dictionary or coefficient replacement, and per library function of '
        'data-precision arrays: no double precision is reached.')
# arguments that are plain Python values
PYTHON = set('''axes axis dimK dimN dsz caxis opt nproc ngrp Nb xshape axisM
axisK n N k shift rho tau L epsilon dimC dimM Nv t tol mit maxit shape ndim
axshp x0 sz isn dtype blksz stpsz pad_mode mode padding order s_is pd rsz
frc dimCd crp blkshape oshape lmbda mu alpha beta gamma rlx c b_ sd smn smx
lwr method zm step wsz axisC npd k_ naxes zero_pad'''.split())
# scalar arguments of solvers, possibly NumPy double precision scalars
NPSCALARS = {'lmbda', 'mu', 'epsilon', 'rho', 'gamma', 'alpha', 'L', 'tau'}
# input of the constructor of another solver, which converts it
EXEMPT = {('sporco.admm.cbpdn.AddMaskSim', 'imp')}
# deliberately computed in double precision, or without array input
DOUBLE = {'sporco.signal.' + x for x in (
    'rgb2gray', 'gaussian', 'complex_randn', 'local_contrast_normalise',
    'rndmask')} | {'sporco.fft.fl2norm2', 'sporco.fft.rfl2norm2'}
MODULES = ('linalg', 'prox', 'cnvrep', 'fft', 'array', 'signal')
SETTERS = ('setdict', 'setcoef')
STEPS = ('on_iteration_start', 'xstep', 'relax_AX', 'ystep', 'ustep')


def option(n):
    if n.startswith('opt'):
        m = n.rstrip(']')
        return H if m.endswith(('Weight', '0')) and \
            not m.endswith('SmoothWeight') else W


def kernel(P, f, pos):
    f = f[7:] if f.startswith('sporco.') else f
    if f == 'fft.empty_aligned' and len(pos) > 1:
        return P.dtype(pos[1])
    if f == 'fft.rfftn_empty_aligned' and len(pos) > 2:
        return P.dtype(pos[2])
    if f.split('.')[0] in ('user', 'prox', 'linalg', 'fft', 'cnvrep',
                           'signal', 'array'):
        return promote(*[p for x in pos for p in P.seq(x)])


def isarray(s, v, st):
    return any(isinstance(x, VA) for x in leaves(s.it.resolve(v, st)))


def record(out, key, p):
    # one finding per construct, whatever the iteration
    if out.get(key) != H:
        if p == H or key not in out or p == U:
            out[key] = p


def state(s, st, pr, out, tag):
    for k, v in sorted(s.attrs(st).items()):
        if (s.qual, k) not in EXEMPT and isarray(s, v, st):
            record(out, '%s %s' % (tag, k), pr(s.it.term(v, st)))


def solver(job):
    qual, mode, real = job
    s = Solver(qual, mode, real=real, typed=True)
    env = {k: W if k in PYTHON and k not in NPSCALARS else H for k in s.args}
    env.update(S=S, axes0=W, axes1=W, Wg=S)
    env.update({'arg:' + x: H for x in c06.ARRAYARGS})
    pr = Precision(env, option, kernel)
    out = {}
    state(s, s.st, pr, out, 'constructed')
    for i in range(2):
        try:
            for x in STEPS:
                if s.has(x):
                    s.run(x)
        except Dead:
            break
        state(s, s.st, pr, out, 'iterated')
    it = s.it
    pm = c06.public_methods(s)
    for k in sorted(pm):
        v, f = pm[k]
        a = c06.methodargs(s, v, f)
        if k == 'solve' or a and k not in SETTERS:
            continue
        st = s.st.copy()
        try:
            r = it.call(it.getattr(s.o, k, st), a, {}, st, None)
        except Dead:
            continue
        if k in SETTERS:
            state(s, st, pr, out, k)
        elif isarray(s, r, st):
            record(out, 'result of ' + k, pr(it.term(r, st)))
    return out, sorted(pr.unk)


def function(job):
    ns, name = job
    it = make(Hooks(), inline=lambda fi: True, opaque_classes=(), typed=True)
    st = fresh_static()
    f = program().static.heap[ns][name]
    ps = f.fi.params
    try:
        v = it.inlinecall(f, [VT(sym(p)) if p in PYTHON else
                              it.symarr(st, p) for p in ps], {}, st, None)
    except Dead:
        return {}, []
    pr = Precision({p: W if p in PYTHON else S for p in ps}, None,
                   lambda P, f, pos: None)
    out = {}

    def go(v, i):
        v = it.resolve(v, st)
        if isinstance(v, (VTup, VL)):
            its = it.seqitems(v, st)
            if its is not None:
                for k, x in enumerate(its):
                    go(x, k)
                return
        t = it.term(v, st)
        ts = t.a[0] if t.tag == 'tup' else (t,)
        for k, x in enumerate(ts):
            p = pr(x)
            if p in (S, H, U):
                record(out, 'result %d' % (k if len(ts) > 1 else i), p)
    go(v, 0)
    if all(p in PYTHON for p in ps):
        return {}, []
    return out, sorted(pr.unk)


def work(j):
    if len(j) == 2:
        return (j,) + function(j)
    return (j,) + solver(j)


def jobs():
    js = [(q, m, r) for q in SOLVERS if '.dictlrn.' not in q
          for m in ('sym', 'none') for r in (True, False)
          if r or 'cbpdn.' in q]
    for ns, h in program().static.heap.items():
        if ns.startswith('mod:sporco.') and \
                ns.split('.')[1] in MODULES:
            for name, f in sorted(h.items()):
                if isinstance(f, VF) and f.fi.mod.nsid == ns and \
                        f.fi.qual in api.PUBLIC - DOUBLE:
                    js.append((ns, name))
    return js


def run(rep):
    rep.rule = RULE
    with Pool(8) as p:
        for j, out, unk in p.imap_unordered(work, jobs()):
            if len(j) == 2:
                key = '%s.%s' % (j[0][4:], j[1])
                rep.count('functions', bool(out))
            else:
                key = '%s opt=%s %s' % (j[0], j[1],
                                        'real' if j[2] else 'complex')
                rep.count('solver configurations')
            for k, p in sorted(out.items()):
                rep.count('arrays')
                rep.inst('%s: %s' % (key, k), None if p == U else p != H,
                         'double precision for single precision data'
                         if p == H else '; '.join(unk)[:200] if p == U
                         else '')
    rep.floor('solver configurations', 60)
    rep.floor('arrays', 800)
    rep.floor('functions', 40)
