"""C20: online dictionary learning."""
from ..lib import Pool
from .. import spec, lib
from ..loop import *
from .c12 import TIMER, setopt
from .c14 import verdict, where_of

RULE = ('The value graphs of the state left by the constructor and by `solve` '
        '(dictionary, previous dictionary, coefficient maps, step size, '
        'iteration counter, recorded statistics and returned dictionary) of '
        'the online dictionary learning solvers, from an arbitrary '
        'dictionary and iteration count, for the first and for a subsequent '
        'training batch, are compared with those of projected stochastic '
        'gradient descent.')
ONLINE = [q for q in SOLVERS if '.onlinecdl.' in q]
STATS = ('ObjFun', 'DFid', 'RegL1', 'PrimalRsdl', 'DualRsdl', 'EpsPrimal',
         'EpsDual', 'Rho', 'XSlvRelRes', 'Time')


def coded(rec):
    """model of `solve` of the sparse coding object: its coefficients are a
    function of the problem it was given"""
    def model(it, f, args, kwargs, st, node):
        o = it.resolve(args[0], st)
        if not isinstance(o, VO):
            return NotImplemented
        h = st.heap[o.oid]
        if 'lmbda' not in h or 'cri' not in h:
            return NotImplemented
        v = app('user.coded', const(o.cls.name),
                *[it.term(h[n], st) for n in ('D', 'S', 'W', 'lmbda', 'opt')
                  if n in h])
        for n in ('X', 'Y'):
            st.setattr(o.oid, n, it.arr(st, app('res', v, const(n))))
        st.setattr(o.oid, 'itstat', VL(it.newcell(st, VTup([VT(app(
            'ntuple', tm.mk('tup', tuple(const(n) for n in STATS)),
            *[app('res', v, const(n)) for n in STATS]))] if rec else [],
            'list'))))
        return it.arr(st, app('res', v, const('min')))
    return model


def job(j):
    q, mode, batches, rec, same = j
    lib.DIMN[0] = 2
    lib.POLICY.clear()
    ctx = ' [%sbatch %d%s]' % ('opt omitted, ' if mode == 'none' else '',
                               batches, '' if rec else
                               ', dimK and inner statistics omitted')
    if batches == 0:
        ctx = ' [opt omitted]' if mode == 'none' else ' [ZeroMean=%s]' % rec
    if batches == 2:
        ctx = ctx[:-1] + ', %s size]' % ('same' if same else 'other')
    out = []
    tab = spec.table('dictlrn', 'sporco.dictlrn.')

    def setup(s):
        if mode == 'sym':
            for k, v in (('CUDA_CBPDN', False), ('ZeroMean', rec)):
                if batches == 0 or k != 'ZeroMean':
                    s.it.setitem(s.args['opt'], VT(const(k)), VT(const(v)),
                                 s.st, None)
    try:
        s = Solver(q, mode, hooks=spec.SpecHooks(), models=dict(TIMER),
                   setup=setup)
        it, st, oid = s.it, s.st, s.o.oid
    except (Dead, AnalysisError, KeyError) as e:
        return [(q + ctx, None, 'not constructed: %s' % e)]
    it.extra_models['sporco.admm.admm.ADMM.solve'] = coded(rec)
    it.maybe_none.discard('dimK')
    if batches == 0:
        it.callpartials = True
        own, f = spec.find(tab, s.o.cls, 'init')
        own, g = spec.find(tab, s.o.cls, 'init_impl')
        try:
            st1, st2 = st.copy(), st.copy()
            G = it.symarr(st, 'G')
            st1, st2 = st.copy(), st.copy()
            sp = it.term(it.call(f, [s.o, G] + [s.args[p] for p in
                                                f.fi.params[2:]], {}, st2,
                                 None), st2)
            im = it.term(it.call(g, [s.o, G], {}, st1, None), st1)
            for n, x, y in zip(('D', 'Dprv', 'j', 'eta_a', 'eta_b', 'dsz',
                                'Pcn'),
                               sp.a[0], im.a[0]):
                verdict(out, '%s.__init__:%s%s' % (q, n, ctx),
                        where_of(s, '__init__'), x, y, dict(st1.pc), n)
        except (Dead, AnalysisError) as e:
            out.append((q + '.__init__' + ctx, None, str(e)))
        return out
    # the projection, decided above, is an arbitrary function here
    it.extra_models['spec.dictlrn.project'] = \
        lambda it, f, args, kwargs, st, node: it.arr(st, app(
            'user.Pcn', it.term(args[0], st)))
    st.setattr(oid, 'Pcn', spec.load('dictlrn')['project'])
    it.maybe_none |= {'W1', 'W2'}
    mask = it.lookup(s.o.cls, 'solve', st).fi.params[2:3] == ['W']

    def data(i):
        a = [it.symarr(st, 'S%d' % i)]
        if mask:
            a.append(it.symarr(st, 'W%d' % i))
        return a + [VT(sym('dimK%d' % i) if rec else NONE)]
    try:
        if batches == 2:
            for n in ('D', 'Dprv'):
                st.setattr(oid, n, it.symarr(st, 'first.' + n))
            it.call(it.getattr(s.o, 'solve', st), data(1), {}, st, None)
            old = it.term(it.getattr(s.o, 'cri', st), st)
        for n in ('D', 'Dprv'):
            st.setattr(oid, n, it.symarr(st, 'self.' + n))
        st.setattr(oid, 'j', VT(sym('self.j')))
        a = data(batches)
        own, f = spec.find(tab, s.o.cls, 'solve')
        st1, st2 = st.copy(), st.copy()
        sv = it.call(f, [s.o] + a, {}, st2, None)
        iv = it.call(it.getattr(s.o, 'solve', st1), a, {}, st1, None)
        d = {spec.kname(k): x for k, x in spec.dictof(it, sv, st2).items()}
        c = st1.cells.get(it.resolve(it.getattr(s.o, 'itstat', st1),
                                     st1).cell)
        last = c.items[-1] if isinstance(c, VTup) and c.items else None
    except (Dead, AnalysisError, AttributeError) as e:
        return [(q + '.solve' + ctx, None, 'not reachable: %s' % e)]
    w = where_of(s, 'solve')
    lits, sub = dict(st1.pc), {}
    if batches == 2:
        # the layout of the first batch is the same as, or differs in size
        # from, that of the second one
        new = it.term(d['cri'], st2)
        if same:
            sub = {old: new}
            lits = {tm.subst(c, sub): v for c, v in lits.items()}
        else:
            for l, (a, b) in tm.cases([old, new]):
                for n in ('shpS', 'shpX'):
                    lits[tm.cmp_('eq', app('attr', a, const(n)),
                                 app('attr', b, const(n)))] = False
    for k, v in d.items():
        if k == 'return':
            im = it.term(iv, st1)
        elif k == 'itstat':
            if last is None:
                out.append(('%s.solve:itstat%s' % (q, ctx), None,
                            'records not known'))
                continue
            im = it.term(last, st1)
        else:
            im = it.term(it.getattr(s.o, k, st1), st1)
        verdict(out, '%s.solve:%s%s' % (q, k, ctx), w,
                tm.subst(it.term(v, st2), sub), tm.subst(im, sub), lits, k,
                ('new:sporco.cnvrep.', 'res'))
    return out


def run(rep):
    rep.rule = RULE
    js = [(q, m, b, r, e) for q in ONLINE for m in ('sym', 'none')
          for b in (0, 1, 2) for r in (True, False)
          for e in ((True, False) if b == 2 else (True,))]
    with Pool(8) as p:
        for out in p.imap_unordered(job, js, chunksize=1):
            for k, v, t in out:
                rep.count('comparisons')
                rep.inst(k, v, t)
    rep.floor('comparisons', 40)
