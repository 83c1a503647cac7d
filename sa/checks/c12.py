"""C12: iteration protocol of the solvers."""
from ..lib import Pool
from .. import loop, spec, lib
from ..loop import *

RULE = ('The ordered trace of iteration steps (each with the state it sees), '
        'the termination decision, the recorded statistics, the iteration '
        'counter and the returned value of every `solve` method, unrolled '
        'for 0 to 3 iterations from a fresh and from a resumed state, are '
        'compared with those of the documented iteration.')
PRE = 'sporco.'
ADMM_EV = dict(
    xstep=step('xstep', ('k', 'Yprev', 'Y', 'U', 'rho'), ('X',)),
    relax_AX=step('relax_AX', ('X', 'Y', 'k'), ('AX', 'AXnr')),
    ystep=step('ystep', ('AX', 'U', 'Yprev', 'k', 'rho'), ('Y',)),
    ustep=step('ustep', ('AX', 'Y', 'U', 'k'), ('U',)),
    compute_residuals=step('residuals', ('X', 'Y', 'Yprev', 'U', 'rho', 'k'),
                           (), 4),
    iteration_stats=step('stats', ('X', 'Y', 'rho', 'k'), (), 1),
    update_rho=step('update_rho', ('rho', 'U', 'k'), ('rho', 'U')),
    display_start=pure(2), display_status=pure(0), display_end=pure(0))
PGM_EV = dict(
    on_iteration_start=step('start', ('k', 'X', 'Y'), ('Xprv', 'Yprv')),
    xstep=step('xstep', ('k', 'Y', 'L', 'Xprv', 'Yprv'), ('X', 'L', 'F',
                                                          'Q')),
    ystep=step('ystep', ('k', 'X', 'Xprv', 'Yprv'), ('Y', 't')),
    compute_residuals=step('residuals', ('X', 'Y', 'Xprv', 'Yprv', 'k'), (),
                           2),
    iteration_stats=step('stats', ('X', 'L', 'k'), (), 1),
    display_start=pure(2), display_status=pure(0), display_end=pure(0))
TIMER = {'sporco.util.Timer.' + n: pure(0)
         for n in ('start', 'stop', 'reset')}
TIMER['sporco.util.Timer.elapsed'] = lambda *a: VT(sym('$time'))


def classes(prefix):
    return [q for q in SOLVERS if q.startswith(prefix)]


def configs():
    r = []
    for fast in (False, True):
        for auto in (False, True):
            r.append((2, 0, fast, auto, True))
    r += [(0, 0, False, True, False), (1, 3, False, True, True),
          (3, 5, False, False, False), (1, 0, True, False, True),
          (0, 2, True, False, False)]
    return r


def setopt(s, key, v):
    it = s.it
    it.setitem(it.getattr(s.o, 'opt', s.st),
               VT(const(key)) if isinstance(key, str) else
               VTup(tuple(VT(const(k)) for k in key)), v, s.st, None)


def callback_model(it, f, args, kwargs, st, node):
    return VT(app('res', event(st, 'callback', *[it.term(a, st)
                                                  for a in args])))


def job(j):
    kind, qual, (n, k0, fast, auto, cb) = j
    ns = spec.load('loop')
    tab = spec.table('loop', '')
    lib.POLICY.clear()
    key = '%s.solve [iterations=%d start=%d FastSolve=%s AutoRho=%s ' \
        'Callback=%s]' % (qual, n, k0, fast, auto, 'given' if cb else None)
    if kind == 'pgm':
        key = key.replace('AutoRho', 'Backtrack')
    try:
        if kind == 'pgm':
            lib.POLICY.update(Backtrack='BacktrackStandard' if auto else None,
                              StepSizePolicy=None, Momentum=None)
        s = Solver(qual, 'sym' if kind == 'pgm' else 'none',
                   hooks=spec.SpecHooks(), models=TIMER)
        it, st, oid = s.it, s.st, s.o.oid
        if kind == 'admm':
            s.generic_state()
        for a in ('X', 'Y', 'U', 'Yprev', 'AX', 'AXnr', 'Xprv', 'Yprv'):
            v = s.attrs().get(a)
            if v is not None:
                st.setattr(oid, a, it.symarr(st, 'self.' + a))
        st.setattr(oid, 'rho', VT(sym('self.rho')))
        st.setattr(oid, 'k', VT(const(k0)))
        setopt(s, 'MaxMainIter', VT(const(n)))
        setopt(s, 'FastSolve', VT(const(fast)))
        if kind == 'admm':
            setopt(s, ('AutoRho', 'Enabled'), VT(const(auto)))
        setopt(s, 'Callback', ns['callback'] if cb else VT(NONE))
    except Dead:
        return key, None, 'state not reachable'
    except AnalysisError as e:
        return key, None, str(e)
    st.heap[TRACE] = {}
    st.setattr(TRACE, 't', VT(sym('$t0')))
    rec = it.instantiate(ns['Recorder'].ci, [], {}, st, None)
    st.setattr(oid, 'itstat', rec)
    it.extra_models['spec.loop.Recorder.append'] = step('record')
    for m, f in (ADMM_EV if kind == 'admm' else PGM_EV).items():
        v = it.lookup(s.o.cls, m, st)
        v = v.f if isinstance(v, VP) else v
        if isinstance(v, VF):
            if m in ('xstep', 'ystep', 'ustep', 'on_iteration_start'):
                f = step(*f.spec, inplace=writes_inplace(s, m, f.spec[2]))
            it.extra_models[v.fi.qual] = f
    if kind == 'pgm':
        for b in ('BacktrackStandard', 'BacktrackRobust'):
            it.extra_models['sporco.pgm.backtrack.%s.update' % b] = step(
                'backtrack', (), ())
    it.extra_models['spec.loop.callback'] = callback_model
    it.unroll_while = 4
    own, f = None, None
    for c in s.o.cls.mro:
        f = f or tab.get(c.qual, {}).get('solve')
    if f is None:
        return key, None, 'no reference protocol'
    h = it.hooks
    st1, st2 = st.copy(), st.copy()
    h.inspec += 1
    h.bad = []
    try:
        sv = it.call(f, [s.o, VT(const(n))], {}, st2, None)
        iv = it.call(it.getattr(s.o, 'solve', st1), [], {}, st1, None)
    except Dead:
        return key, None, 'method always raises'
    finally:
        h.inspec -= 1
    d = spec.dictof(it, sv, st2)
    m = it.lookup(s.o.cls, 'solve', st1)
    where = '%s:%s %s' % (m.fi.file, m.fi.node.lineno, m.fi.qual)
    pairs = [('step sequence', trace(st2), trace(st1))]
    for k, v in d.items():
        k = spec.kname(k)
        if k == 'k' and n == 0:
            continue
        i = iv if k == 'return' else it.getattr(s.o, k, st1)
        pairs.append(({'return': 'returned value', 'k': 'iteration counter'}[k],
                      it.term(v, st2), it.term(i, st1)))
    for nm, a, b in pairs:
        v, note, w = compare(a, b, lits=dict(st1.pc), maxcases=4096)
        if v == 'ne':
            return key, False, '%s: %s differs from the documented ' \
                'iteration (%s) %s' % (where, nm, note, spec.wit(w))
        if v != 'eq':
            return key, None, '%s: %s %s' % (nm, note, spec.wit(w))
    return key, True, where


def run(rep):
    rep.rule = RULE
    js = [(k, q, c) for k in ('admm', 'pgm')
          for q in classes('sporco.%s.' % k) for c in configs()
          if not q.endswith(('.MultiDictConvBPDN', '.AddMaskSim',
                             '.ParConvBPDN'))]
    with Pool(8) as p:
        for k, v, t in p.imap_unordered(job, js, chunksize=4):
            rep.count('comparisons')
            rep.inst(k, v, t)
    rep.floor('comparisons', 100)
