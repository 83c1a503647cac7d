"""C15: work items of the parallel solvers."""
import ast
from ..lib import Pool
from ..fnspec import *
from ..interp import VPhi
from .. import loop
from .c06 import nested
from .c14 import verdict, where_of

RULE = ('Each work item function of a parallel solver is given symbolic '
        'shared arrays; the content of every shared array after the call is '
        'compared with the reference update of the same item, which touches '
        'only the part owned by the item, and the array must be updated in '
        'place (the global name is not rebound, since a rebinding in a '
        'worker process is lost).')
P = 'sporco.dictlrn.prlcnscdl'
Q = 'sporco.admm.parcbpdn'
KERN = Inline(api.KERNELS - {'sporco.linalg.inner'})


def dims(n, *rest):
    return ('Nv0', 'Nv1', 'Nv2')[:n] + rest


def freq(n, real, *rest):
    """axes of the transform"""
    d = dims(n)
    if real:
        d = d[:-1] + (tm.add(tm.ONE, tm.reapp('floordiv', (
            sym(d[-1]), const(2)))),)
    return d + rest


def cns_globals(n, cd, K, md, kw, real):
    """shared arrays of the consensus dictionary learning solvers"""
    c = 1 if cd == 1 else 'C'
    N = dims(n)
    F = freq(n, real)
    X = A(K, *(N + (1, 1, 'M')))
    S = A(K, *(N + (c, 1, 1)))
    D = A(*(N + (c, 1, 'M')))
    DK = A(K, *(N + (c, 1, 'M')))
    r = dict(mp_xrho='$mp_xrho', mp_drho='$mp_drho', mp_lmbda='$mp_lmbda',
             mp_xrlx='$mp_xrlx', mp_drlx='$mp_drlx', mp_Df=A(*(F + (c, 1, 'M'))),
             mp_Zf=A(K, *(F + (1, 1, 'M'))),
             mp_Z_X=X, mp_D_X=DK)
    if md:
        r.update(mp_S=S, mp_Z_Y0=S, mp_Z_Y1=X, mp_Z_U0=S, mp_Z_U1=X,
                 mp_D_Y0=D, mp_D_Y1=S, mp_D_U0=DK, mp_D_U1=S, mp_DX=S,
                 mp_W=A(kw, *(N + (c, 1, 1))))
    else:
        r.update(mp_Sf=A(K, *(F + (c, 1, 1))),
                 mp_DSf=A(K, *(F + (1, 1, 'M'))),
                 mp_ZSf=A(K, *(F + (c, 1, 'M'))), mp_Z_Y=X, mp_Z_U=X,
                 mp_D_Y=D, mp_D_U=DK)
    r['mp_cri'] = lambda it, st: it.call(
        spec.load('par')['Cri'], [VT(const(cd)), VT(const(n)), VTup(tuple(
            VT(sym('Nv%d' % i)) for i in range(n))), VT(
                const(K) if isinstance(K, int) else sym(K))], {}, st, None)
    f = 'rfftn' if real else 'fftn'
    r['fftn'] = lambda it, st: resolve_fn(it, 'sporco.fft.' + f)
    r['ifftn'] = lambda it, st: resolve_fn(it, 'sporco.fft.i' + f)
    r['mp_dprox'] = lambda it, st: VX('user.Pcn')
    return r


def par_globals(n, cd, w, nneg, bnd, M='M', ngrp='ngrp'):
    N = dims(n)
    c = 1 if cd == 1 else 'C'
    X = A(M, *(N + (1, 'K')))
    if cd == 1:
        X = A(M, *(N + ('C', 'K')))
    Y0 = A(ngrp, *(N + ('C', 'K')))
    v = A(ngrp)
    r = dict(mp_X=X, mp_Xnr=X, mp_Y1=X, mp_Y1old=X, mp_U1=X, mp_Y0=Y0,
             mp_Y0old=Y0, mp_U0=Y0, mp_DX=Y0, mp_DXnr=Y0,
             mp_S=A(1, *(N + ('C', 'K'))), mp_b=A(1, *(N + ('C', 'K'))),
             mp_inv_off_diag=A(1, *(N + ('C', 'K'))),
             mp_Df=A(M, *(freq(n, True) + (c, 1))), mp_wl1=A(w, *(N + ('C', 'K'))),
             mp_grp=A('ngrp1'), mp_cache='sym', mp_alpha='$mp_alpha',
             mp_rho='$mp_rho', mp_lmbda='$mp_lmbda', mp_rlx='$mp_rlx',
             mp_Cd=cd, mp_axisM=0, mp_axisC=n + 1,
             mp_NonNegCoef=nneg, mp_NoBndryCross=bnd,
             mp_Dshp=tuple('$dsz%d' % i for i in range(n)),
             mp_Nv=tuple('$Nv%d' % i for i in range(n)),
             mp_axisN=tuple(range(1, n + 1)))
    for k in ('ry0', 'ry1', 'sy0', 'sy1', 'nrmAx', 'nrmBy', 'nrmu'):
        r['mp_' + k] = v
    return r


def build():
    js = []
    for n in (1, 2, 3):
        for cd in (1, 3):
            for real in (True, False):
                for md in (False, True):
                    for kw in ((1, 'K') if md else (1,)):
                        fn = 'md_step_group' if md else 'step_group'
                        js.append((P, fn, dict(
                            n=n, cd=cd, K='K', md=md, kw=kw, real=real)))
                    for kw in ((1, 2) if md else (1,)):
                        cl = 'ConvBPDNMaskDcplDictLearn_Consensus' if md \
                            else 'ConvBPDNDictLearn_Consensus'
                        js.append((P, 'step:' + cl, dict(
                            n=n, cd=cd, K=2, md=md, kw=kw, real=real)))
            for f in ('par_initial_stepgrp', 'y0astep',
                      'par_compute_residuals'):
                js.append((Q, f, dict(n=n, cd=cd, w=1, nneg=False,
                                      bnd=False)))
            for w in (1, 'M'):
                for nn in (True, False):
                    for bd in (True, False):
                        js.append((Q, 'par_final_stepgrp', dict(
                            n=n, cd=cd, w=w, nneg=nn, bnd=bd)))
            js.append((Q, 'par_stepgrp', dict(n=n, cd=cd, w='M', nneg=True,
                                              bnd=True)))
    return js


def work(j):
    mod, fn, c = j
    key = '%s.%s [%s]' % (mod, fn, ' '.join(
        '%s=%s' % kv for kv in sorted(c.items())))
    h = spec.SpecHooks()
    it = make(h, real=c.get('real', True), inline=KERN, opaque_classes=())
    it.fnmode = True
    st = lib.fresh_static()
    g = (cns_globals if mod == P else par_globals)(**c)
    vals = {}
    ns = spec.load('par')
    for k, v in sorted(g.items()):
        v = value(it, st, k, v)
        if v == 'sym':
            v = VT(sym(k))
        elif callable(v):
            v = v(it, st)
        vals[k] = v
    st1, st2 = st.copy(), st.copy()
    for k, v in vals.items():
        st1.setattr('mod:' + mod, k, v)
    h.inspec += 1
    oid = it.fresh('g')
    st2.heap[oid] = dict(vals)
    o = VO(oid, ns['Cri'].ci)
    args = [VT(sym('i'))]
    it.shapes[sym('i')] = ()
    if ':' in fn:
        cl = fn.split(':')[1]
        f = table_class(ns['step'])[cl]
        args = []
        ci = it.classes[mod + '.' + cl]
        so = it.fresh('o')
        st1.heap[so] = {'nproc': VT(const(0))}
        xo = it.fresh('x')
        st1.heap[xo] = {'cri': vals['mp_cri']}
        st1.setattr(so, 'xstep', VO(xo, ns['Cri'].ci))
        st1.setattr(so, 'dstep', VO(xo, ns['Cri'].ci))
        impl = it.getattr(VO(so, ci), 'step', st1, None)
        iargs = []
    else:
        f = table_class(ns[mod.replace('.', '__')])[fn]
        impl = resolve_fn(it, mod + '.' + fn)
        if impl is None:
            return [(key, None, 'no such function')]
        iargs = args = args[:len(f.fi.params) - 1]
    try:
        it.call(f, [o] + args, {}, st2, None)
    except Dead:
        return [(key, None, 'formula undefined here')]
    finally:
        h.inspec -= 1
    if h.bad:
        return [(key, None, 'formula refers to %s' % h.bad[0])]
    try:
        it.call(impl, list(iargs), {}, st1, None)
    except Dead:
        return [(key, None, 'always raises')]
    r = []
    lits = dict(st1.pc)
    for k, v in sorted(vals.items()):
        if not isinstance(v, VA):
            continue
        kk = '%s: %s' % (key, k)
        nv = st1.getattr('mod:' + mod, k)
        if nv is not v:
            r.append((kk, False, '%s.%s rebinds the shared array %s instead '
                      'of updating it in place' % (mod, fn, k)))
            continue
        r_, note, w = compare(lead(it.term(v, st2)), lead(it.term(v, st1)), lits=lits,
                              scalars={'i'}, cplx=it.cplx)
        if r_ == 'eq':
            r.append((kk, True, '%s.%s' % (mod, fn)))
        elif r_ == 'undecided':
            r.append((kk, None, note + (' | ' + spec.wit(w) if w else '')))
        else:
            r.append((kk, False, '%s.%s leaves a different value in %s (%s) '
                      '%s' % (mod, fn, k, note, spec.wit(w))))
    return r


LEAD = tm.tup((NONE, const(Ellipsis)))


def lead(t, memo=None):
    """x[np.newaxis, ...] broadcasts like x"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = tm.rebuild(t, lambda x: lead(x, memo))
        if r.tag == 'app' and r.a[0] == 'sub' and r.a[1][1] is LEAD:
            r = r.a[1][0]
        memo[t] = r
    return r


def table_class(v):
    return lib.program().static.heap.get(v.ci.nsid, {})


CNS = {P + '.ConvBPDNDictLearn_Consensus': False,
       P + '.ConvBPDNMaskDcplDictLearn_Consensus': True}
PAR = Q + '.ParConvBPDN'


def shared_model(it, f, args, kwargs, st, node):
    """mpraw_as_np: a zero array in shared memory"""
    b = it.bindargs(f, args, kwargs, st, node)
    return it.arr(st, app('shared', it.term(b['shape'], st)),
                  ('shared', 'mpraw_as_np'))


def solver(q, mode, models=None):
    def su(s):
        if q in CNS:
            nested(s.it, q, None)
    m = {P + '.mpraw_as_np': shared_model, Q + '.mpraw_as_np': shared_model}
    m.update(models or {})
    lib.DIMN[0] = 2
    return loop.Solver(q, mode, hooks=spec.SpecHooks(), setup=su, models=m)


def globs(s, mod):
    h = s.st.heap['mod:' + mod]
    return {k: h[k] for k in h
            if k.startswith('mp_') or k in ('fftn', 'ifftn', 'fl2norm2')}


def gobj(s, g):
    oid = s.it.fresh('g')
    s.st.heap[oid] = g
    return VO(oid, spec.load('par')['Cri'].ci)


# arrays each solver changes during the iterations
WRITTEN = {False: 'Df Zf Z_X D_X DSf ZSf Z_Y Z_U D_Y D_U',
           True: 'Df Zf Z_X D_X Z_Y0 Z_Y1 Z_U0 Z_U1 D_Y0 D_Y1 D_U0 D_U1 DX',
           None: 'X Xnr Y0 Y1 U0 U1 DX DXnr Y0old Y1old b ry0 ry1 sy0 sy1 '
                 'nrmAx nrmBy nrmu'}


def initial(j):
    """shared data set up by the constructor"""
    _, q, mode = j
    mod, cl = q.rpartition('.')[::2]
    key = q + '.__init__ [%s]' % ('any options' if mode == 'sym' else
                                  'opt omitted')
    f = table_class(spec.load('par')[cl])['shared']
    try:
        s = solver(q, mode)
    except (Dead, AnalysisError, KeyError) as e:
        return [(key, None, 'not constructed: %s' % e)]
    it, st = s.it, s.st
    where = where_of(s, '__init__')
    out = []
    g = globs(s, mod)
    for k in WRITTEN[CNS.get(q)].split():
        v = it.resolve(g.get('mp_' + k), st)
        vs = alts(v)
        ok = all(isinstance(x, VA) and
                 it.cellinfo.get(x.cell, ('',))[0] == 'shared' for x in vs)
        out.append(('%s: mp_%s allocated in shared memory' % (key, k), ok,
                    '%s: mp_%s is an ordinary array, changes made by worker '
                    'processes are lost' % (where, k)))
    st2 = st.copy()
    it.hooks.inspec += 1
    try:
        d = it.call(f, [s.o], {}, st2, None)
    except Dead:
        return [(key, None, 'formula undefined here')]
    finally:
        it.hooks.inspec -= 1
    if it.hooks.bad:
        return [(key, None, 'formula refers to %s' % it.hooks.bad[0])]
    for k, v in spec.dictof(it, d, st2).items():
        k = spec.kname(k)
        if k not in g:
            out.append(('%s: %s' % (key, k), False if reads(
                s.o.cls.mod.tree, k) else None, '%s: %s is used by the work '
                'items but not set' % (where, k)))
            continue
        verdict(out, '%s: %s' % (key, k), where, lead(it.term(v, st2)),
                lead(it.term(g[k], st)), dict(st2.pc), k)
    return out


def reads(tree, name):
    return any(isinstance(n, ast.Name) and n.id == name and
               isinstance(n.ctx, ast.Load) for n in ast.walk(tree))


def alts(v):
    if isinstance(v, VPhi):
        return alts(v.a) + alts(v.b)
    return [v]


def report(j):
    """dictionary, coefficients and objective reported from shared data"""
    _, q, mode = j
    mod, cl = q.rpartition('.')[::2]
    key = q + ' [%s]' % ('any options' if mode == 'sym' else 'opt omitted')
    tab = table_class(spec.load('par')[cl])
    try:
        s = solver(q, mode)
    except (Dead, AnalysisError, KeyError) as e:
        return [(key, None, 'not constructed: %s' % e)]
    it, st = s.it, s.st
    g = globs(s, mod)
    for k in WRITTEN[CNS.get(q)].split():
        g['mp_' + k] = it.symarr(st, 'mp_' + k)
        st.setattr('mod:' + mod, 'mp_' + k, g['mp_' + k])
    go = gobj(s, g)
    out = []
    for m, a in (('getdict', [VT(TRUE)]), ('getdict', [VT(FALSE)]),
                 ('getcoef', []), ('evaluate', [])) if q in CNS else (
                     ('obfn_dfd', []), ('obfn_reg', []),
                     ('obfn_gvar', []), ('obfn_fvar', [])):
        st1, st2 = st.copy(), st.copy()
        kk = '%s.%s(%s)' % (key, m, 'crop=%s' % tm.show(a[0].t) if a else '')
        it.hooks.inspec += 1
        try:
            sv = it.call(tab[m], [s.o, go] + a, {}, st2, None)
            iv = it.call(it.getattr(s.o, m, st1), a, {}, st1, None)
        except Dead:
            out.append((kk, None, 'always raises'))
            continue
        finally:
            it.hooks.inspec -= 1
        verdict(out, kk, where_of(s, m), it.term(sv, st2), it.term(iv, st1),
                dict(st1.pc), m)
    return out


def cnssolve(j):
    _, q, n, j0, cb, nproc = j
    from .c12 import TIMER, callback_model, setopt
    mod, cl = q.rpartition('.')[::2]
    key = '%s.solve [iterations=%d start=%d Callback=%s nproc=%d]' % (
        q, n, j0, 'given' if cb else None, nproc)
    ns = spec.load('loop')
    try:
        s = solver(q, 'none', models=dict(TIMER))
        it, st, oid = s.it, s.st, s.o.oid
        setopt(s, 'MaxMainIter', VT(const(n)))
        setopt(s, 'Callback', ns['callback'] if cb else VT(NONE))
        setopt(s, 'Verbose', VT(const(False)))
    except (Dead, AnalysisError, KeyError) as e:
        return [(key, None, 'not constructed: %s' % e)]
    st.setattr(oid, 'j', VT(const(j0)))
    st.setattr(oid, 'nproc', VT(const(nproc)))
    st.heap[loop.TRACE] = {}
    st.setattr(loop.TRACE, 't', VT(sym('$t0')))
    st.setattr(oid, '$data', VT(sym('$d0')))
    st.setattr(oid, 'itstat', it.instantiate(ns['Recorder'].ci, [], {}, st,
                                             None))
    it.extra_models['spec.loop.Recorder.append'] = loop.step('record')
    it.extra_models['spec.loop.callback'] = callback_model
    for m, f in (('step', loop.step('step', ('j', '$data'), ('$data',))),
                 ('evaluate', result('evaluate', 3)),
                 ('getdict', result('getdict', 1))):
        v = it.lookup(s.o.cls, m, st)
        it.extra_models[v.fi.qual] = f
    it.unroll_while = 4
    f = table_class(spec.load('par')[cl])['solve']
    return protocol(s, f, n, key)


def protocol(s, f, n, key, extra=()):
    it, st = s.it, s.st
    st1, st2 = st.copy(), st.copy()
    it.hooks.inspec += 1
    it.hooks.bad = []
    try:
        sv = it.call(f, [s.o, VT(const(n))], {}, st2, None)
        it.hooks.inspec -= 1
        bad = list(it.hooks.bad)
        iv = it.call(it.getattr(s.o, 'solve', st1), [], {}, st1, None)
    except (Dead, AnalysisError) as e:
        return [(key, None, 'not reachable: %s' % e)]
    if bad:
        return [(key, None, 'formula refers to %s' % bad[0])]
    out = []
    w = where_of(s, 'solve')
    lits = dict(st1.pc)
    ps = [('recorded statistics', loop.trace(st2), loop.trace(st1))]
    for k, v in spec.dictof(it, sv, st2).items():
        k = spec.kname(k)
        if k in 'jk' and not n:
            continue
        i = iv if k == 'return' else it.getattr(s.o, k, st1)
        ps.append(({'return': 'returned value', 'k': 'iteration counter',
                    'j': 'iteration counter'}.get(k, k),
                   it.term(v, st2), it.term(i, st1)))
    for k, v1, v2 in extra:
        ps.append((k, it.term(v2, st2), it.term(v1, st1)))
    if '$data' in st1.heap[s.o.oid]:
        ps.append(('shared data', *[it.term(x.heap[s.o.oid]['$data'], x)
                                    for x in (st2, st1)]))
    for nm, a, b in ps:
        verdict(out, key + ' ' + nm, w, a, b, lits, nm)
    return out


def result(name, n):
    """reads the shared data"""
    def model(it, f, args, kwargs, st, node):
        b = it.bindargs(f, args, kwargs, st, node)
        d = st.heap[it.resolve(args[0], st).oid]['$data']
        t = [const(name), it.term(d, st)] + [
            it.term(b[p], st) for p in f.fi.params[1:]]
        if n == 1:
            return it.arr(st, app('res', *t))
        return VTup(tuple(VT(app('res', const(i), *t)) for i in range(n)))
    return model


def parsolve(j):
    """whole `solve` method of the parallel convolutional BPDN solver, the
    work items executed in order"""
    _, n, k0, fast, auto, cb, cd, grp = j
    from .c12 import TIMER, callback_model, setopt
    key = '%s.solve [iterations=%d start=%d FastSolve=%s AutoRho=%s ' \
        'Callback=%s Cd=%d groups=%d]' % (
            PAR, n, k0, fast, auto, 'given' if cb else None, cd, grp)
    ns = spec.load('loop')
    try:
        s = solver(PAR, 'none', models=dict(TIMER))
        it, st, oid = s.it, s.st, s.o.oid
        it.fnmode = True
        it.inline = KERN
        setopt(s, 'MaxMainIter', VT(const(n)))
        setopt(s, 'FastSolve', VT(const(fast)))
        setopt(s, ('AutoRho', 'Enabled'), VT(const(auto)))
        setopt(s, 'Callback', ns['callback'] if cb else VT(NONE))
    except (Dead, AnalysisError, KeyError) as e:
        return [(key, None, 'not constructed: %s' % e)]
    g = {}
    b = {2: [0, 3], 3: [0, 1, 3]}[grp] + [5]
    for k, v in par_globals(2, cd, 5, False, False, 5, grp).items():
        v = value(it, st, k, v)
        if isinstance(v, str) and v == 'sym':
            v = VT(sym(k))
        g[k] = v
    g['mp_grp'] = it.newlist(st, [VT(const(x)) for x in b])
    g['mp_ngrp'] = VT(const(grp))
    for k, v in g.items():
        st.setattr('mod:' + Q, k, v)
    st.setattr(oid, 'g', gobj(s, g))
    for k, v in (('k', k0), ('ngrp', grp), ('nproc', 1)):
        st.setattr(oid, k, VT(const(v)))
    st.setattr(oid, 'rho', VT(sym('mp_rho')))
    st.heap[loop.TRACE] = {}
    st.setattr(loop.TRACE, 't', VT(sym('$t0')))
    st.setattr(oid, 'itstat', it.instantiate(ns['Recorder'].ci, [], {}, st,
                                             None))
    it.extra_models['spec.loop.Recorder.append'] = loop.step('record')
    it.extra_models['spec.loop.callback'] = callback_model
    for m, f in (('iteration_stats', loop.step('stats', ('k',), (), 1)),
                 ('display_start', loop.pure(2)),
                 ('display_status', loop.pure(0)),
                 ('display_end', loop.pure(0))):
        v = it.lookup(s.o.cls, m, st)
        it.extra_models[v.fi.qual] = f
    it.unroll_while = 4
    f = table_class(spec.load('par')['ParConvBPDN'])['solve']
    return protocol(s, f, n, key, [
        (k, v, v) for k, v in sorted(g.items())
        if k[3:] in WRITTEN[None].split()])


DO = dict(initial=initial, report=report, cnssolve=cnssolve,
          parsolve=parsolve)


def dispatch(j):
    return DO[j[0]](j) if j[0] in DO else work(j)


def jobs_all():
    js = []
    for q in list(CNS) + [PAR]:
        for m in ('sym', 'none'):
            js.append(('initial', q, m))
            js.append(('report', q, m))
    for q in CNS:
        for np in (0, 2):
            js += [('cnssolve', q, 2, 0, True, np),
                   ('cnssolve', q, 1, 3, False, np),
                   ('cnssolve', q, 3, 1, False, np),
                   ('cnssolve', q, 0, 0, True, np)]
    for cd in (1, 3):
        for grp in (2, 3):
            js += [('parsolve', 2, 0, False, False, True, cd, grp),
                   ('parsolve', 1, 3, False, True, False, cd, grp),
                   ('parsolve', 2, 1, True, False, False, cd, grp),
                   ('parsolve', 1, 0, True, True, True, cd, grp)]
    return js + build()


def run(rep):
    rep.rule = RULE
    with Pool(8) as p:
        for r in p.imap_unordered(dispatch, jobs_all()):
            for k, v, t in r:
                rep.count('comparisons')
                rep.inst(k, v, t)
    rep.floor('comparisons', 500)
