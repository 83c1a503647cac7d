"""C14: dictionary learning alternates coefficient and dictionary updates."""
from ..lib import Pool
from .. import loop, spec, lib
from ..loop import *
from .c06 import DICTMETHODS, documented, nested
from .c12 import callback_model, setopt

RULE = ('The value graphs of the initial state of the coefficient and '
        'dictionary update solvers, of the exchange of dictionary and '
        'coefficient maps between them and of the accurately evaluated '
        'objective, dictionary and reconstruction of every dictionary '
        'learning solver, and the trace of its `solve` method unrolled for '
        'up to two iterations, are compared with those of the documented '
        'alternating minimisation.')
LEARN = [q for q in SOLVERS if q.startswith('sporco.dictlrn.') and
         not any(x in q for x in ('.onlinecdl.', '.prlcnscdl.'))]
ARR = ('X', 'Y', 'U', 'Xf', 'Yf')


def construct(q, xd, mode, setup=None, models=None):
    lib.DIMN[0] = 2
    lib.POLICY.clear()
    lib.POLICY.update(Backtrack=None, StepSizePolicy=None,
                      Momentum='MomentumNesterov')

    def su(s):
        if xd:
            s.args['xmethod'] = VT(const(xd[0]))
            s.args['dmethod'] = VT(const(xd[1]))
            nested(s.it, q, xd)
        if setup:
            setup(s)
    s = Solver(q, mode, hooks=spec.SpecHooks(), setup=su, models=models)
    it, st = s.it, s.st
    xs, ds = [it.resolve(s.attrs()[n], st) for n in ('xstep', 'dstep')]
    if not (isinstance(xs, VO) and isinstance(ds, VO)):
        raise AnalysisError('inner solvers not known')
    return s, xs, ds


def where_of(s, meth):
    m = s.it.lookup(s.o.cls, meth, s.st)
    m = m.f if isinstance(m, VP) else m
    return '%s:%s %s' % (m.fi.file, m.fi.node.lineno, m.fi.qual) \
        if isinstance(m, VF) else ''


def verdict(out, key, where, sp, im, lits, what='value',
            allow=()):
    v, note, w = compare(sp, im, lits=lits, maxcases=4096, allow=allow)
    if v == 'eq':
        out.append((key, True, where))
    elif v == 'ne':
        out.append((key, False, '%s: %s differs from the documented one (%s)'
                    ' %s' % (where, what, note, spec.wit(w))))
    else:
        out.append((key, None, '%s %s' % (note, spec.wit(w))))


def formulas(j):
    q, xd, mode = j
    ctx = ' [%s%s]' % ('%s,%s' % xd if xd else '',
                       '' if mode == 'sym' else ' opt omitted')
    out = []
    tab = spec.table('dictlrn', 'sporco.dictlrn.')
    try:
        s, xs, ds = construct(q, xd, mode)
    except (Dead, AnalysisError, KeyError) as e:
        return [(q + ctx, None, 'not constructed: %s' % e)]
    it, st = s.it, s.st
    for o, c, n in zip((xs, ds), documented(q, xd),
                       ('coefficient', 'dictionary')):
        ok = o.cls.is_sub(c)
        out.append(('%s %s update solver%s' % (q, n, ctx), ok,
                    '%s: %s' % (where_of(s, '__init__'), o.cls.qual)))
    # initial state
    own, f = spec.find(tab, s.o.cls, 'init')
    own, g = spec.find(tab, s.o.cls, 'init_impl')
    if f is not None:
        st1, st2 = st.copy(), st.copy()
        try:
            a = [s.args[p] for p in f.fi.params[1:]]
            sp = it.term(it.call(f, [s.o] + a, {}, st2, None), st2)
            im = it.term(it.call(g, [s.o], {}, st1, None), st1)
            for i, (x, y) in enumerate(zip(sp.a[0], im.a[0])):
                verdict(out, '%s.__init__[%d]%s' % (q, i, ctx),
                        where_of(s, '__init__'), x, y, dict(st1.pc),
                        ('dictionary of the coefficient update',
                         'initial dictionary of the dictionary update',
                         'signal of the coefficient update',
                         'signal of the dictionary update',
                         'initial dual variable')[i])
        except (Dead, AnalysisError) as e:
            out.append((q + '.__init__' + ctx, None, str(e)))
    # an arbitrary state of both solvers
    for o, c in ((xs, 'x.'), (ds, 'd.')):
        for n in ARR:
            if n in st.heap[o.oid]:
                st.setattr(o.oid, n, it.symarr(st, c + n))
    for m in ('getdict', 'reconstruct', 'evaluate'):
        for k, v, t in spec.check_method(s, tab, m, [], ctx=ctx):
            out.append((k, v, t))
    return out


def version(st, oid):
    return st.heap[oid]['$ver'].t


def protocol(j):
    """x.solve; d.setcoef(x.getcoef()); d.solve; x.setdict(d.getdict());
    evaluate; record; callback"""
    q, xd, n, j0, cb, rec = j
    key = '%s.solve [%siterations=%d start=%d Callback=%s inner ' \
        'statistics=%s]' % (q, '%s,%s ' % xd if xd else '', n, j0,
                            'given' if cb else None, rec)
    from .c12 import TIMER
    ns = spec.load('loop')
    tab = spec.table('loop', '')
    out = []
    try:
        s, xs, ds = construct(q, xd, 'none', models=dict(TIMER))
        it, st, oid = s.it, s.st, s.o.oid
        setopt(s, 'MaxMainIter', VT(const(n)))
        setopt(s, 'Callback', ns['callback'] if cb else VT(NONE))
        setopt(s, 'Verbose', VT(const(False)))
    except (Dead, AnalysisError, KeyError) as e:
        return [(key, None, 'not constructed: %s' % e)]
    st.setattr(oid, 'j', VT(const(j0)))
    st.heap[TRACE] = {}
    st.setattr(TRACE, 't', VT(sym('$t0')))
    names = {xs.oid: 'x', ds.oid: 'd'}
    for o in (xs, ds):
        st.setattr(o.oid, '$ver', VT(sym('$v' + names[o.oid])))
        st.setattr(o.oid, 'itstat', VL(it.newcell(st, VTup(
            [VT(sym('$old' + names[o.oid])),
             VT(sym('$it' + names[o.oid]))] if rec else [], 'list'))))

    def change(name):
        def model(it, f, args, kwargs, st, node):
            o = it.resolve(args[0], st)
            if not isinstance(o, VO) or o.oid not in names:
                return NotImplemented
            b = it.bindargs(f, args, kwargs, st, node)
            v = app('after', version(st, o.oid), const(name),
                    *[it.term(b[p], st) for p in f.fi.params[1:]])
            st.setattr(o.oid, '$ver', VT(v))
            if name == 'solve' and rec:
                st.setattr(o.oid, 'itstat', VL(it.newcell(st, VTup(
                    [VT(app('res', const('old'), v)), VT(app('res', v))],
                    'list'))))
            return VT(NONE)
        return model

    def read(name):
        def model(it, f, args, kwargs, st, node):
            o = it.resolve(args[0], st)
            if not isinstance(o, VO) or o.oid not in names:
                return NotImplemented
            b = it.bindargs(f, args, kwargs, st, node)
            return it.arr(st, app('res', version(st, o.oid), const(name), *[
                it.term(b[p], st) for p in f.fi.params[1:]]))
        return model

    def both(name):
        def model(it, f, args, kwargs, st, node):
            b = it.bindargs(f, args, kwargs, st, node)
            return VT(app('res', const(name), version(st, xs.oid),
                          version(st, ds.oid),
                          *[it.term(b[p], st) for p in f.fi.params[1:]]))
        return model

    def evcb(it, f, args, kwargs, st, node):
        return VT(app('res', event(
            st, 'callback', version(st, xs.oid), version(st, ds.oid),
            it.term(it.getattr(s.o, 'j', st), st))))
    for o in (xs, ds):
        for m, k in (('solve', change), ('setcoef', change),
                     ('setdict', change), ('getcoef', read),
                     ('getdict', read)):
            v = it.lookup(o.cls, m, st)
            v = v.f if isinstance(v, VP) else v
            if isinstance(v, VF):
                it.extra_models[v.fi.qual] = k(m)
    v = it.lookup(s.o.cls, 'evaluate', st)
    it.extra_models[v.fi.qual] = both('evaluate')
    isc = it.resolve(s.attrs()['isc'], st)
    v = it.lookup(isc.cls, 'iterstats', st)
    it.extra_models[v.fi.qual] = both('record')
    it.extra_models['spec.loop.callback'] = evcb
    st.setattr(oid, 'itstat', it.instantiate(ns['Recorder'].ci, [], {}, st,
                                             None))
    it.extra_models['spec.loop.Recorder.append'] = step('record')
    it.unroll_while = 4
    own, f = spec.find(tab, s.o.cls, 'solve')
    st1, st2 = st.copy(), st.copy()
    try:
        sv = it.call(f, [s.o, VT(const(n))], {}, st2, None)
        iv = it.call(it.getattr(s.o, 'solve', st1), [], {}, st1, None)
    except (Dead, AnalysisError) as e:
        return [(key, None, 'not reachable: %s' % e)]
    d = {spec.kname(k): x for k, x in spec.dictof(it, sv, st2).items()}
    w = where_of(s, 'solve')
    lits = dict(st1.pc)
    pairs = [('recorded statistics', trace(st2), trace(st1)),
             ('coefficient update state', version(st2, xs.oid),
              version(st1, xs.oid)),
             ('dictionary update state', version(st2, ds.oid),
              version(st1, ds.oid)),
             ('returned value', it.term(d['return'], st2),
              it.term(iv, st1))]
    if n:
        pairs.append(('iteration counter', it.term(d['j'], st2),
                      it.term(it.getattr(s.o, 'j', st1), st1)))
    for nm, a, b in pairs:
        verdict(out, key + ' ' + nm, w, a, b, lits, nm)
    return out


def work(j):
    return formulas(j) if len(j) == 3 else protocol(j)


def run(rep):
    rep.rule = RULE
    js = []
    for q in LEARN:
        for xd in DICTMETHODS.get(q.split('.')[2], [None]):
            js += [(q, xd, m) for m in ('sym', 'none')]
            js += [(q, xd, 2, 0, True, True), (q, xd, 1, 3, False, True),
                   (q, xd, 2, 1, True, False), (q, xd, 0, 0, True, True)]
    with Pool(8) as p:
        for out in p.imap_unordered(work, js, chunksize=1):
            for k, v, t in out:
                rep.count('comparisons')
                rep.inst(k, v, t)
    rep.floor('comparisons', 100)
