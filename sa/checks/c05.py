"""C05: iteration statistics and display columns contain what they name."""
from ..lib import Pool
from .. import spec, lib
from ..lib import *
from ._spec import STATES, PGM_POLICIES
from .c06 import DICTMETHODS

RULE = ('Every field of the record built by `iteration_stats` of each '
        'solver, in an arbitrary iterate, is compared with the quantity its '
        'documented name stands for, and the values printed under each '
        'column heading with the documented field of that heading.')
L1 = ('ObjFun', 'DFid', 'RegL1')
OBJ = {
    'admm.bpdn.BPDN': L1, 'admm.bpdn.BPDNJoint': L1 + ('RegL21',),
    'admm.bpdn.ElasticNet': L1 + ('RegL2',),
    'admm.bpdn.BPDNProjL1': ('ObjFun', 'Cnstr'),
    'admm.bpdn.MinL1InL2Ball': ('ObjFun', 'Cnstr'),
    'admm.cbpdn.ConvBPDN': L1, 'admm.cbpdn.ConvBPDNJoint': L1 + ('RegL21',),
    'admm.cbpdn.ConvElasticNet': L1 + ('RegL2',),
    'admm.cbpdn.ConvBPDNGradReg': L1 + ('RegGrad',),
    'admm.cbpdn.ConvBPDNProjL1': ('ObjFun', 'Cnstr'),
    'admm.cbpdn.ConvMinL1InL2Ball': ('ObjFun', 'Cnstr'),
    'admm.cbpdn.ConvBPDNMaskDcpl': L1,
    'admm.cbpdn.ConvL1L1Grd': L1 + ('RegGrad',),
    'admm.cbpdnin.ConvBPDNInhib': L1 + ('RegLat', 'RegSelf'),
    'admm.cbpdntv.ConvBPDNScalarTV': L1 + ('RegTV',),
    'admm.cbpdntv.ConvBPDNVectorTV': L1 + ('RegTV',),
    'admm.cbpdntv.ConvBPDNRecTV': L1 + ('RegTV',),
    'admm.ccmod.ConvCnstrMODBase': ('DFid', 'Cnstr'),
    'admm.ccmod.ConvCnstrMOD_Consensus': ('DFid', 'Cnstr'),
    'admm.ccmodmd.ConvCnstrMODMaskDcplBase': ('DFid', 'Cnstr'),
    'admm.ccmodmd.ConvCnstrMODMaskDcpl_Consensus': ('DFid', 'Cnstr'),
    'admm.cmod.CnstrMOD': ('DFid', 'Cnstr'),
    'admm.parcbpdn.ParConvBPDN': L1,
    'admm.pdcsc.ConvProdDictBPDN': L1,
    'admm.pdcsc.ConvProdDictBPDNJoint': L1 + ('RegL21',),
    'admm.pdcsc.ConvProdDictL1L1Grd': L1 + ('RegGrad',),
    'admm.pdcsc.ConvProdDictL1L1GrdJoint':
        ('ObjFun', 'DFid', 'RegL21', 'RegGrad'),
    'admm.ppp.PPP': ('FVal',), 'admm.ppp.PPPConsensus': (),
    'admm.rpca.RobustPCA': ('ObjFun', 'NrmNuc', 'NrmL1', 'Cnstr'),
    'admm.spline.SplineL1': ('ObjFun', 'DFid', 'Reg'),
    'admm.tvl1.TVL1Denoise': ('ObjFun', 'DFid', 'RegTV'),
    'admm.tvl1.TVL1Deconv': ('ObjFun', 'DFid', 'RegTV'),
    'admm.tvl2.TVL2Denoise': ('ObjFun', 'DFid', 'RegTV'),
    'admm.tvl2.TVL2Deconv': ('ObjFun', 'DFid', 'RegTV'),
    'pgm.bpdn.BPDN': L1, 'pgm.cbpdn.ConvBPDN': L1,
    'pgm.cbpdn.ConvBPDNMask': L1,
    'pgm.ccmod.ConvCnstrMOD': ('DFid', 'Cnstr'),
    'pgm.cmod.CnstrMOD': ('DFid', 'Cnstr'), 'pgm.ppp.PPP': ('FVal',),
}
EXTRA = {
    'admm.ccmod.ConvCnstrMOD_CG': ('XSlvRelRes', 'XSlvCGIt'),
    'admm.ccmodmd.ConvCnstrMODMaskDcpl_CG': ('XSlvRelRes', 'XSlvCGIt'),
    'admm.tvl1.TVL1Denoise': ('GSIter', 'GSRelRes'),
    'admm.tvl2.TVL2Denoise': ('GSIter', 'GSRelRes'),
}
LABEL = {'Itn': 'Iter', 'Fnc': 'ObjFun', 'DFid': 'DFid', 'Cnstr': 'Cnstr',
         'F': 'F_Btrack', 'Q': 'Q_Btrack', 'It_Bt': 'IterBTrack', 'L': 'L',
         'FVal': 'FVal', 'Rsdl': 'Rsdl', 'r': 'PrimalRsdl',
         's': 'DualRsdl', '\u03c1': 'Rho', 'NrmNuc': 'NrmNuc',
         'Nrm\u21131': 'NrmL1', 'Reg': 'Reg', 'RegLat': 'RegLat',
         'RegSelf': 'RegSelf', 'RegTV': 'RegTV', 'Regl1': 'RegL1',
         'Reg\u21131': 'RegL1', 'Reg\u21132': 'RegL2',
         'Reg\u21132,1': 'RegL21', 'Reg\u211321': 'RegL21',
         'Reg\u21132\u2207': 'RegGrad'}
ADMM_ARGS = ('k', 'r', 's', 'epri', 'edua')
PGM_ARGS = ('k', 'frcxd')


def lookup(table, ci):
    for c in ci.mro:
        if c.qual[len('sporco.'):] in table:
            return table[c.qual[len('sporco.'):]]
    return None


def fields(t):
    """name -> term of a record value"""
    if t.tag == 'app' and t.a[0] == 'ntuple':
        n = t.a[1][0]
        return dict(zip([x.a[0] for x in n.a[0]], t.a[1][1:]))
    return None


def project(t, i):
    if t.tag == 'tup':
        return t.a[0][i] if i < len(t.a[0]) else None
    if t.tag == 'ite':
        a, b = project(t.a[1], i), project(t.a[2], i)
        return None if a is None or b is None else tm.ite(t.a[0], a, b)
    return None


def items(t):
    return list(t.a[0]) if t.tag == 'tup' else None


def job(q):
    out = []
    pgm = q.startswith('sporco.pgm.')
    lib.POLICY.clear()
    lib.DIMN[0] = 2
    if pgm:
        lib.POLICY.update(zip(('Backtrack', 'StepSizePolicy', 'Momentum'),
                              [x or None
                               for x in PGM_POLICIES[0].split(',')]))
    try:
        s = Solver(q, 'sym', hooks=spec.SpecHooks())
        STATES['pgm' if pgm else 'iter'](s)
    except (Dead, AnalysisError) as e:
        return [(q, None, str(e))]
    it, st, oid = s.it, s.st, s.o.oid
    for n in (('F', 'Q', 'L', 'iterBTrack') if pgm else ('rho',)):
        if n != 'rho' or n in s.attrs():
            st.setattr(oid, n, VT(sym('self.' + n)))
    names = lookup(OBJ, s.ci)
    if names is None:
        return [(q, None, 'no documented fields')]
    where = ''
    m = it.lookup(s.o.cls, 'iteration_stats', st)
    if isinstance(m, VF):
        where = '%s:%s %s' % (m.fi.file, m.fi.node.lineno, m.fi.qual)
    args = [VT(sym('arg.' + p)) for p in (PGM_ARGS if pgm else ADMM_ARGS)]

    def run(meth, *a):
        st1 = st.copy()
        v = it.call(it.getattr(s.o, meth, st1), list(a), {}, st1, None)
        return it.term(v, st1)
    if pgm:
        # objective value kept from the step in the monotone variant
        st.setattr(oid, 'objfn', VTup(tuple(
            VT(sym('self.objfn%d' % i)) for i in range(len(names)))))
    try:
        rec = fields(run('iteration_stats', *args))
        obj = run('eval_objfn')
        ext = run('itstat_extra')
        fst = st.copy()
        elapsed = it.term(it.call(
            it.getattr(it.getattr(s.o, 'timer', fst), 'elapsed', fst),
            [it.getitem(it.getattr(s.o, 'opt', fst), VT(const('IterTimer')),
                        fst, None)], {}, fst, None), fst)
    except (Dead, AnalysisError) as e:
        return [(q, None, 'statistics not reachable: %s' % e)]
    if rec is None:
        return [(q, None, 'record not a known tuple')]
    exp = {'Iter': sym('arg.k'), 'Time': elapsed}
    if pgm:
        exp.update(Rsdl=sym('arg.frcxd'), F_Btrack=sym('self.F'),
                   Q_Btrack=sym('self.Q'), L=sym('self.L'),
                   IterBTrack=sym('self.iterBTrack'))
    else:
        exp.update(PrimalRsdl=sym('arg.r'), DualRsdl=sym('arg.s'),
                   EpsPrimal=sym('arg.epri'), EpsDual=sym('arg.edua'))
        exp['Rho'] = sym('self.rho')
    lits = dict(st.pc)

    def components(t, ns, what, monot=False):
        # a conditional tuple is compared component by component
        for i, n in enumerate(ns):
            c = project(t, i)
            if c is None:
                out.append(('%s.%s' % (q, n), None, 'not a known tuple'))
                continue
            if monot:
                c = tm.ite(monot, sym('self.objfn%d' % i), c)
            exp[n] = c
    monot = None
    if pgm:
        monot = it.truth(it.getitem(it.getattr(s.o, 'opt', st),
                                    VT(const('Monotone')), st, None), st)
    components(obj, names, 'objective', monot)
    en = lookup(EXTRA, s.ci)
    if en is None and 'XSlvRelRes' in rec:
        en = ('XSlvRelRes',)
    components(ext, en or (), 'extra')
    for n in exp:
        if n not in rec:
            out.append(('%s.%s' % (q, n), None,
                        'documented field not in the record'))
    for n, t in rec.items():
        key = '%s.itstat.%s' % (q, n)
        if n not in exp:
            out.append((key, None, 'field without documented meaning'))
            continue
        v, note, w = compare(exp[n], t, lits=lits)
        if v == 'eq':
            out.append((key, True, where))
        elif v == 'ne':
            out.append((key, False, '%s: field %s holds another value (%s) '
                        '%s' % (where, n, note, spec.wit(w))))
        else:
            out.append((key, None, note))
    out += display(s, q, rec, pgm, args)
    return out


def display(s, q, rec, pgm, args):
    """the value printed in each column is the field of its heading"""
    it, st = s.it, s.st
    out = []
    log = []

    def heading(it, f, a, kw_, st, node):
        log.append(('head', it.term(a[0], st), tuple(st.pc)))
        return VTup((VT(sym('$hdr')), VT(sym('$fmt')), VT(sym('$nsep'))))

    def prt(it, f, a, kw_, st, node):
        log.append(('print', [it.term(x, st) for x in a], tuple(st.pc)))
    it.extra_models['sporco.common.solve_status_str'] = heading
    it.extra_models['print'] = prt
    m = it.lookup(s.o.cls, 'display_status', st)
    where = '%s:%s %s' % (m.fi.file, m.fi.node.lineno, m.fi.qual) \
        if isinstance(m, VF) else ''
    extra = VT(app('ntuple', tm.mk('tup', tuple(const(n) for n in rec)),
                   *[sym('field.' + n) for n in rec]))
    for flag in (True, False):
        st1 = st.copy()
        opt = it.getattr(s.o, 'opt', st1)
        if pgm:
            if not flag:
                it.setitem(opt, VT(const('Backtrack')), VT(NONE), st1, None)
        else:
            it.setitem(opt, VTup((VT(const('AutoRho')),
                                  VT(const('Enabled')))),
                       VT(const(flag)), st1, None)
        it.setitem(opt, VT(const('Verbose')), VT(const(True)), st1, None)
        key = '%s.display [%s=%s]' % (
            q, 'Backtrack' if pgm else 'AutoRho', flag)
        del log[:]
        try:
            it.call(it.getattr(s.o, 'display_start', st1), [], {}, st1, None)
            h = [x for k, x, pc in log if k == 'head']
            del log[:]
            it.call(it.getattr(s.o, 'display_status', st1),
                    [VT(sym('$fmt')), extra], {}, st1, None)
            p = [x for k, x, pc in log if k == 'print']
        except (Dead, AnalysisError) as e:
            out.append((key, None, 'not reachable %s' % e))
            continue
        lab = items(h[0]) if len(h) == 1 else None
        out += columns(key, where, lab, p, LABEL)
    return out


DFIELD = {'Iter': 'j', 'Time': 't', 'Cnstr': 'd.Cnstr',
          'XPrRsdl': 'x.PrimalRsdl', 'XDlRsdl': 'x.DualRsdl',
          'XRho': 'x.Rho', 'X_F_Btrack': 'x.F_Btrack',
          'X_Q_Btrack': 'x.Q_Btrack', 'X_ItBt': 'x.IterBTrack',
          'X_L': 'x.L', 'XL': 'x.L', 'X_Rsdl': 'x.Rsdl', 'XRsdl': 'x.Rsdl',
          'DPrRsdl': 'd.PrimalRsdl', 'DDlRsdl': 'd.DualRsdl',
          'DRho': 'd.Rho', 'D_F_Btrack': 'd.F_Btrack',
          'D_Q_Btrack': 'd.Q_Btrack', 'D_ItBt': 'd.IterBTrack',
          'D_L': 'd.L', 'DL': 'd.L', 'D_Rsdl': 'd.Rsdl', 'DRsdl': 'd.Rsdl'}
DLABEL = {'Itn': 'Iter', 'Fnc': 'ObjFun', 'DFid': 'DFid',
          '\u21131': 'RegL1', 'Cnstr': 'Cnstr', 'r_X': 'XPrRsdl',
          's_X': 'XDlRsdl', '\u03c1_X': 'XRho', 'r_D': 'DPrRsdl',
          's_D': 'DDlRsdl', '\u03c1_D': 'DRho', 'F_X': 'X_F_Btrack',
          'Q_X': 'X_Q_Btrack', 'It_X': 'X_ItBt', 'L_X': 'X_L',
          'F_D': 'D_F_Btrack', 'Q_D': 'D_Q_Btrack', 'It_D': 'D_ItBt',
          'L_D': 'D_L', 'X_Rsdl': 'XRsdl', 'X_L': 'XL', 'D_Rsdl': 'DRsdl',
          'D_L': 'DL'}


def dictjob(j):
    """records of the dictionary learning solvers"""
    q, xd, acc, bt = j
    out = []
    lib.DIMN[0] = 2
    lib.POLICY.clear()
    lib.POLICY.update(Backtrack='BacktrackStandard' if bt else None,
                      StepSizePolicy=None, Momentum='MomentumNesterov')
    ctx = ' [%sAccurateDFid=%s Backtrack=%s]' % (
        '%s,%s ' % xd if xd else '', acc, bt)

    def setup(s):
        if xd:
            s.args['xmethod'] = VT(const(xd[0]))
            s.args['dmethod'] = VT(const(xd[1]))
        for k, v in (('AccurateDFid', acc), ('Verbose', True),
                     ('StatusHeader', True)):
            s.it.setitem(s.args['opt'], VT(const(k)), VT(const(v)), s.st,
                         None)
        for m, k in zip(xd or (), ('CBPDN', 'CCMOD')):
            if m == 'pgm':
                v = policy(s.it, s.st, 'Backtrack', 'bt') if bt else VT(NONE)
                s.it.setitem(s.args['opt'], VTup((VT(const(k)), VT(const(
                    'Backtrack')))), v, s.st, None)
    try:
        s = Solver(q, 'sym', hooks=spec.SpecHooks(), setup=setup)
        it, st = s.it, s.st
        isc = it.resolve(s.attrs()['isc'], st)
        xs, ds = [it.resolve(s.attrs()[n], st) for n in ('xstep', 'dstep')]
    except (Dead, AnalysisError, KeyError) as e:
        return [(q + ctx, None, 'not constructed: %s' % e)]
    recs = []
    for o, c in ((xs, 'x'), (ds, 'd')):
        f = None
        if isinstance(o, VO):
            v = it.term(it.getattr(o, 'IterationStats', st), st)
            f = tuplefields(v)
        if f is None:
            return [(q + ctx, None, 'inner record not known')]
        recs.append(VT(app('ntuple', tm.mk('tup', tuple(const(n)
                                                        for n in f)),
                           *[sym('%s.%s' % (c, n)) for n in f])))
    m = it.lookup(isc.cls, 'iterstats', st)
    where = '%s:%s %s' % (m.fi.file, m.fi.node.lineno, m.fi.qual)
    evl = it.newdict(st, {n: VT(sym('evl.' + n)) for n in L1}) if acc \
        else VT(NONE)
    try:
        st1 = st.copy()
        r = it.call(it.getattr(isc, 'iterstats', st1),
                    [VT(sym('j')), VT(sym('t'))] + recs + [evl], {}, st1,
                    None)
        rec = fields(it.term(r, st1))
    except (Dead, AnalysisError) as e:
        return [(q + ctx, None, 'statistics not reachable: %s' % e)]
    if rec is None:
        return [(q + ctx, None, 'record not a known tuple')]
    for n, t in rec.items():
        e = DFIELD.get(n)
        if n in L1:
            e = ('evl.' if acc else 'x.') + n
        key = '%s.itstat.%s%s' % (q, n, ctx)
        if e is None:
            out.append((key, None, 'field without documented meaning'))
        elif t is sym(e):
            out.append((key, True, where))
        else:
            c = s.it.lookup(s.o.cls, '__init__', st)
            out.append((key, False, '%s:%s %s: field %s holds %s instead of '
                        '%s' % (c.fi.file, c.fi.node.lineno, c.fi.qual, n,
                                tm.show(t)[:60], e)))
    log = []

    def prt(it, f, a, kw_, st, node):
        log.append([it.term(x, st) for x in a])
    it.extra_models['print'] = prt
    key = q + '.display' + ctx
    try:
        lab = items(it.term(it.getattr(isc, 'hdrtxt', st), st))
        st1 = st.copy()
        it.setattr(isc, 'fmtstr', VT(sym('$fmt')), st1, None)
        it.call(it.getattr(isc, 'printiterstats', st1),
                [VT(app('ntuple', tm.mk('tup', tuple(const(n)
                                                     for n in rec)),
                        *[sym('field.' + n) for n in rec]))], {}, st1, None)
    except (Dead, AnalysisError) as e:
        return out + [(key, None, 'display not reachable')]
    return out + columns(key, where, lab, log, DLABEL)


def columns(key, where, lab, log, table):
    out = []
    val = None
    if len(log) == 1 and len(log[0]) == 1:
        t = log[0][0]
        if t.tag == 'app' and t.a[0] == 'np.mod' and \
                t.a[1][0] is sym('$fmt'):
            val = items(t.a[1][1])
    if lab is None or val is None or not all(x.tag == 'c' for x in lab):
        return [(key, None, 'columns not understood')]
    bad = None
    if len(lab) != len(val):
        bad = '%d headings but %d values' % (len(lab), len(val))
    for a, b in zip(lab, val):
        n = table.get(a.a[0])
        if n is None:
            out.append((key + ' ' + str(a.a[0]), None,
                        'heading without documented meaning'))
        elif b is not sym('field.' + n) and not bad:
            bad = 'heading %s shows %s' % (a.a[0], tm.show(b)[:60])
    out.append((key, not bad, '%s %s' % (where, bad or '')))
    return out


OLABEL = {'Itn': 'Iter', 'X r': 'PrimalRsdl', 'X s': 'DualRsdl',
          'X \u03c1': 'Rho', 'D cnstr': 'Cnstr', 'D dlt': 'DeltaD',
          'D \u03b7': 'Eta'}


def onlinejob(q):
    """records of the online dictionary learning solvers"""
    lib.DIMN[0] = 2
    lib.POLICY.clear()
    try:
        s = Solver(q, 'sym', hooks=spec.SpecHooks())
        it, st, oid = s.it, s.st, s.o.oid
        for n in ('D', 'Dprv', 'G'):
            st.setattr(oid, n, it.symarr(st, 'self.' + n))
        for n in ('eta', 'j', 'cri'):
            st.setattr(oid, n, VT(sym('self.' + n)))
        names = L1 + ('PrimalRsdl', 'DualRsdl', 'EpsPrimal', 'EpsDual',
                      'Rho', 'XSlvRelRes', 'Time')
        st.setattr(oid, 'xstep_itstat', VT(app(
            'ntuple', tm.mk('tup', tuple(const(n) for n in names)),
            *[sym('x.' + n) for n in names])))
        it.call(it.getattr(s.o, 'manage_itstat', st), [], {}, st.copy(),
                None)
        st1 = st.copy()
        rec = fields(it.term(it.call(it.getattr(s.o, 'iteration_stats',
                                                st1), [], {}, st1, None),
                             st1))
        tab = spec.table('dictlrn', 'sporco.dictlrn.')
        own, f = spec.find(tab, s.o.cls, 'stats')
        st2 = st.copy()
        exp = {k: it.term(v, st2) for k, v in spec.dictof(
            it, it.call(f, [s.o], {}, st2, None), st2).items()}
    except (Dead, AnalysisError) as e:
        return [(q, None, 'statistics not reachable: %s' % e)]
    if rec is None:
        return [(q, None, 'record not a known tuple')]

    m = it.lookup(s.o.cls, 'iteration_stats', st)
    where = '%s:%s %s' % (m.fi.file, m.fi.node.lineno, m.fi.qual)
    out = []
    for n, t in rec.items():
        key = '%s.itstat.%s' % (q, n)
        if n not in exp:
            out.append((key, None, 'field without documented meaning'))
            continue
        v, note, w = compare(exp[n], t, lits=dict(st.pc))
        if v == 'eq':
            out.append((key, True, where))
        elif v == 'ne':
            out.append((key, False, '%s: field %s holds another value (%s) '
                        '%s' % (where, n, note, spec.wit(w))))
        else:
            out.append((key, None, note))
    log = []

    def prt(it, f, a, kw_, st, node):
        log.append([it.term(x, st) for x in a])
    it.extra_models['print'] = prt
    key = q + '.display'
    try:
        st1 = st.copy()
        lab = items(it.term(it.call(it.getattr(s.o, 'hdrtxt', st1), [], {},
                                    st1, None), st1))
        it.setitem(it.getattr(s.o, 'opt', st1), VT(const('Verbose')),
                   VT(const(True)), st1, None)
        it.call(it.getattr(s.o, 'display_status', st1),
                [VT(sym('$fmt')), VT(app(
                    'ntuple', tm.mk('tup', tuple(const(n) for n in rec)),
                    *[sym('field.' + n) for n in rec]))], {}, st1, None)
    except (Dead, AnalysisError):
        return out + [(key, None, 'display not reachable')]
    return out + columns(key, where, lab, log, OLABEL)


def tuplefields(t):
    if t.tag == 'app' and t.a[0] in ('namedtuple', 'ntuple'):
        for x in t.a[1]:
            if x.tag == 'tup':
                return [y.a[0] for y in x.a[0]]
    return None


def work(j):
    if not isinstance(j, str):
        return dictjob(j)
    return onlinejob(j) if '.onlinecdl.' in j else job(j)


def run(rep):
    rep.rule = RULE
    js = [q for q in SOLVERS if q.startswith(('sporco.admm.',
                                              'sporco.pgm.'))
          and not q.endswith(('.MultiDictConvBPDN', '.AddMaskSim'))]
    js += [q for q in SOLVERS if '.onlinecdl.' in q]
    for q in SOLVERS:
        if q.startswith('sporco.dictlrn.') and '.onlinecdl.' not in q:
            for xd in DICTMETHODS.get(q.split('.')[2], [None]):
                for acc in (False, True):
                    for bt in (False, True):
                        js.append((q, xd, acc, bt))
    with Pool(8) as p:
        for out in p.imap_unordered(work, js, chunksize=1):
            for k, v, t in out:
                rep.count('comparisons')
                rep.inst(k, v, t)
    rep.floor('comparisons', 300)
