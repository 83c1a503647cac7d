"""Shared layer between the analysis engine and the property checks:
program loading, solver construction, verdicts, evidence."""

import json
import os
import sys
import time

from . import terms as tm
from . import api, models, rint, interp
from .terms import sym, const, app, NONE, TRUE, FALSE, T
from .interp import (Interp, Hooks, AnalysisError, Dead, State, VT, VA, VL,
                     VTup, VDict, VO, VF, VB, VC, VM, VX, VP, VOpt, VPhi,
                     UNDEF)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPORCO_REPO', '/repo')

_base = None


def program():
    """the analysed program (cached per process)"""
    global _base
    if _base is None:
        _base = Interp()
        _base.load_program(REPO)
        if len(_base.mods) < 50 or len(_base.classes) < 120:
            raise AnalysisError('only %d modules / %d classes found' % (
                len(_base.mods), len(_base.classes)))
    return _base


def fresh_static():
    return program().static.copy()


# -------------------------------------------------- solver class catalogue

# constructor parameters that are arrays owned by the caller
ARRAYS = {'D', 'S', 'W', 'Z', 'D0', 'A', 'B', 'Wg', 'Whn', 'mu', 'xshape_',
          }
NOT_ARRAY = {'mu'}
MAYBE_NONE = {'dimK', 'W', 'Wg', 'Whn', 'win_args', 'lmbda', 'mu', 'S',
              'nproc', 'ngrp'}

# class -> constructor parameters which may legitimately be omitted / None
NONEABLE = {
    'lmbda': None,      # decided from the default value of the parameter
}

OPT_ARRAYS = ('Y0', 'U0', 'X0', 'L1Weight', 'L21Weight', 'GradWeight',
              'DFidWeight', 'TVWeight', 'NormWeight')

PKG = 'sporco.'
SOLVERS = [
    'admm.bpdn.BPDN', 'admm.bpdn.BPDNJoint', 'admm.bpdn.ElasticNet',
    'admm.bpdn.BPDNProjL1', 'admm.bpdn.MinL1InL2Ball',
    'admm.cbpdn.ConvBPDN', 'admm.cbpdn.ConvBPDNJoint',
    'admm.cbpdn.ConvElasticNet', 'admm.cbpdn.ConvBPDNGradReg',
    'admm.cbpdn.ConvBPDNProjL1', 'admm.cbpdn.ConvMinL1InL2Ball',
    'admm.cbpdn.ConvBPDNMaskDcpl', 'admm.cbpdn.ConvL1L1Grd',
    'admm.cbpdn.MultiDictConvBPDN', 'admm.cbpdn.AddMaskSim',
    'admm.cbpdnin.ConvBPDNInhib',
    'admm.cbpdntv.ConvBPDNScalarTV', 'admm.cbpdntv.ConvBPDNVectorTV',
    'admm.cbpdntv.ConvBPDNRecTV',
    'admm.ccmod.ConvCnstrMOD_IterSM', 'admm.ccmod.ConvCnstrMOD_CG',
    'admm.ccmod.ConvCnstrMOD_Consensus',
    'admm.ccmodmd.ConvCnstrMODMaskDcpl_IterSM',
    'admm.ccmodmd.ConvCnstrMODMaskDcpl_CG',
    'admm.ccmodmd.ConvCnstrMODMaskDcpl_Consensus',
    'admm.cmod.CnstrMOD', 'admm.parcbpdn.ParConvBPDN',
    'admm.pdcsc.ConvProdDictBPDN', 'admm.pdcsc.ConvProdDictBPDNJoint',
    'admm.pdcsc.ConvProdDictL1L1Grd', 'admm.pdcsc.ConvProdDictL1L1GrdJoint',
    'admm.ppp.PPP', 'admm.ppp.PPPConsensus',
    'admm.rpca.RobustPCA', 'admm.spline.SplineL1',
    'admm.tvl1.TVL1Denoise', 'admm.tvl1.TVL1Deconv',
    'admm.tvl2.TVL2Denoise', 'admm.tvl2.TVL2Deconv',
    'dictlrn.bpdndl.BPDNDictLearn', 'dictlrn.cbpdndl.ConvBPDNDictLearn',
    'dictlrn.cbpdndlmd.ConvBPDNMaskDictLearn',
    'dictlrn.wbpdndl.WeightedBPDNDictLearn',
    'dictlrn.onlinecdl.OnlineConvBPDNDictLearn',
    'dictlrn.onlinecdl.OnlineConvBPDNMaskDictLearn',
    'dictlrn.prlcnscdl.ConvBPDNDictLearn_Consensus',
    'dictlrn.prlcnscdl.ConvBPDNMaskDcplDictLearn_Consensus',
    'pgm.bpdn.BPDN', 'pgm.bpdn.WeightedBPDN',
    'pgm.cbpdn.ConvBPDN', 'pgm.cbpdn.ConvBPDNMask',
    'pgm.ccmod.ConvCnstrMOD', 'pgm.ccmod.ConvCnstrMODMask',
    'pgm.cmod.CnstrMOD', 'pgm.cmod.WeightedCnstrMOD', 'pgm.ppp.PPP',
]
SOLVERS = [PKG + s for s in SOLVERS]

OPAQUE_CLASSES = ('sporco.cnvrep.CSC_ConvRepIndexing',
                  'sporco.cnvrep.CDU_ConvRepIndexing', 'sporco.util.Timer',
                  'sporco.util.ContextTimer')


def lib_opaque(fi):
    """inline solver code, keep the numerical kernels as operators"""
    if fi.qual in api.KERNELS:
        return False
    return not fi.mod.name.startswith(api.NEVER)


def real_models(real):
    """decide real/complex data tests; real may map array names"""
    if isinstance(real, dict):
        def isreal(it, a, st):
            return all(real.get(x.a[0], True) for x in tm.walk(
                it.term(a[0], st)) if x.tag == 's')
        return {'ext:np.isrealobj': lambda it, n, a, k, st, nd:
                VT(const(isreal(it, a, st))),
                'ext:np.iscomplexobj': lambda it, n, a, k, st, nd:
                VT(const(not isreal(it, a, st)))}
    return {'ext:np.isrealobj': lambda it, n, a, k, st, nd:
            VT(const(bool(real))),
            'ext:np.iscomplexobj': lambda it, n, a, k, st, nd:
            VT(const(not real))}


def inner_model(it, f, args, kwargs, st, node):
    b = it.bindargs(f, args, kwargs, st, node)
    xy = tm.mul(it.term(b['x'], st), it.term(b['y'], st))
    ax = it.term(b['axis'], st)
    if tm.isnum(ax) and ax.a[0] < 0:
        n = models.rank_of(it, xy)
        if n is not None:
            ax = const(int(n + ax.a[0]))
    return it.arr(st, tm.reapp('np.sum', (
        xy, tm.kw('axis', ax), tm.kw('keepdims', TRUE))))


def aligned_model(it, f, args, kwargs, st, node):
    b = it.bindargs(f, args, kwargs, st, node)
    return it.arr(st, it.term(b['array'], st))


def _simp_sm(name, cname):
    def f(*a):
        if len(a) == 5 and a[3] is not NONE and a[3].tag == 'app' and \
                a[3].a[0] == cname:
            ah, aa, rho, ax = a[3].a[1]
            if ah is a[0] and rho is a[1] and ax is a[4] and \
                    aa is tm.reapp('np.conj', (a[0],)):
                return app(name, a[0], a[1], a[2], NONE, a[4])
        return app(name, *a)
    return f


tm.SIMP['sporco.linalg.solvedbi_sm'] = _simp_sm(
    'sporco.linalg.solvedbi_sm', 'sporco.linalg.solvedbi_sm_c')
tm.SIMP['sporco.linalg.solvedbd_sm'] = _simp_sm(
    'sporco.linalg.solvedbd_sm', 'sporco.linalg.solvedbd_sm_c')


def _simp_fac(name, fac, nf):
    def f(*a):
        # (A, rho, b, factor, piv/lwr, check)
        c, v = a[3], a[4]
        if c.tag == 'app' and c.a[0] == 'item' and v.tag == 'app' and \
                v.a[0] == 'item' and c.a[1][0] is v.a[1][0] and \
                c.a[1][1] is tm.ZERO and v.a[1][1] is tm.ONE:
            q = c.a[1][0]
            if q.tag == 'app' and q.a[0] == fac and q.a[1][0] is a[0] and \
                    q.a[1][1] is a[1]:
                return app(name, a[0], a[1], a[2], NONE, NONE, *a[5:])
        return app(name, *a)
    return f


for _k in ('lu', 'cho'):
    for _m in ('ATAI', 'AATI'):
        _n = 'sporco.linalg.%s_solve_%s' % (_k, _m)
        tm.SIMP[_n] = _simp_fac(_n, 'sporco.linalg.%s_factor' % _k, 0)


def _simp_attr(*a):
    b, n = a
    if n.a[0] == 'dimN' and b.tag == 'app' and isinstance(b.a[0], str) and \
            b.a[0].endswith('_ConvRepIndexing'):
        for x in b.a[1]:
            if x.tag == 'kw' and x.a[0] == 'dimN' and x.a[1].tag == 'c':
                return x.a[1]
    if n.a[0] == 'dsz' and b.tag == 'app' and \
            b.a[0] == 'new:sporco.cnvrep.CDU_ConvRepIndexing':
        for x in b.a[1]:
            if x.tag == 'kw' and x.a[0] == 'dsz':
                return x.a[1]
    if n.a[0] == 'ndim' and b.tag == 'tup' and b.a[0] and all(
            tm.isnum(x) for x in b.a[0]):
        return tm.ONE
    return app('attr', *a)


tm.SIMP['attr'] = _simp_attr


def _simp_len(*a):
    t = a[0]
    if t.tag == 'app' and t.a[0] == 'attr' and t.a[1][1].a[0] == 'axisN' \
            and t.a[1][0].tag == 'app' and \
            isinstance(t.a[1][0].a[0], str) and \
            t.a[1][0].a[0].endswith('_ConvRepIndexing'):
        return tm.reapp('attr', (t.a[1][0], const('dimN')))
    return app('len', *a)


tm.SIMP['len'] = _simp_len


def _simp_fft(name, inv):
    # fftn(ifftn(z, Nv, ax), None or Nv, ax) = z and conversely
    def f(*a):
        if len(a) == 3 and a[0].tag == 'app' and a[0].a[0] == inv and \
                len(a[0].a[1]) == 3 and a[0].a[1][2] is a[2]:
            b = a[0].a[1]
            if a[1] is b[1] or a[1] is NONE or b[1] is NONE:
                return b[0]
        return app(name, *a)
    return f


for _a, _b in (('rfftn', 'irfftn'), ('fftn', 'ifftn')):
    # only the forward transform of an inverse: the other order loses the
    # size information
    tm.SIMP['sporco.fft.' + _a] = _simp_fft('sporco.fft.' + _a,
                                            'sporco.fft.' + _b)


def make(hooks=None, inline=lib_opaque, opaque_classes=OPAQUE_CLASSES,
         real=None, models=None, **kw):
    m = {'sporco.linalg.inner': inner_model,
         'sporco.fft.byte_aligned': aligned_model}
    m.update(models or {})
    m = {k: v for k, v in m.items() if v is not None}
    if real is not None:
        m.update(real_models(real))
    it = Interp(program(), hooks=hooks, inline=inline,
                opaque_classes=opaque_classes, models=m, **kw)
    it.cplx = None if real is None or real is True else (
        lambda n: not real.get(n, True)) if isinstance(real, dict) else \
        api.is_complex
    return it


def cls(it, qual):
    ci = it.classes.get(qual)
    if ci is None:
        # follow re-exports / moved classes
        name = qual.rpartition('.')[2]
        mod, _, nm = qual.rpartition('.')
        v = it.static.getattr('mod:' + mod, nm)
        if isinstance(v, VC):
            return v.ci
        raise AnalysisError('class %s not found' % qual)
    return ci


def options_class(it, ci, st):
    v = it.lookup(ci, 'Options', st)
    v = it.resolve(v, st) if v is not None else None
    return v.ci if isinstance(v, VC) else None


def optional(fi, f, p):
    """parameter p of function value f has default None"""
    n = len(fi.params)
    i = fi.params.index(p)
    j = i - (n - len(f.defaults))
    return j >= 0 and isinstance(f.defaults[j], VT) and \
        f.defaults[j].t is NONE


DIMN = [2]      # number of spatial dimensions (loops over them are unrolled)


def ctor_args(it, ci, st, optmode='sym', optname='opt', skip=()):
    """symbolic constructor arguments; optmode: 'sym' (any configuration),
    'none' (argument omitted)"""
    init = it.lookup(ci, '__init__', st)
    if not isinstance(init, VF):
        return {}
    fi = init.fi
    args = {}
    for p in fi.params[1:]:
        if p in skip:
            continue
        if p == 'opt':
            oc = options_class(it, ci, st)
            if optmode == 'sym' and oc is not None:
                o = it.new_opt(oc, optname, st, arrays=OPT_ARRAYS)
                args[p] = o
                fixopt(it, o, oc, st)
            continue
        if p in ARRAYS and p not in NOT_ARRAY:
            args[p] = it.symarr(st, p)
        elif p == 'cbpdnclass':
            args[p] = VC(cls(it, PKG + 'admm.cbpdn.ConvBPDN'))
        elif p in ('f', 'proxf', 'proxg', 'gradf'):
            args[p] = VX('user.' + p)
        elif p == 'proxfi':
            args[p] = VT(sym(p))
        elif p == 'dimN':
            args[p] = VT(const(DIMN[0]))
        elif p == 'axes':
            args[p] = VTup(tuple(VT(sym('axes%d' % i))
                                 for i in range(DIMN[0])))
        else:
            args[p] = VT(sym(p))
        if optional(fi, init, p):
            it.maybe_none.add(p)
    return args


def fixopt(it, o, oc, st):
    """object-valued options: any of the concrete policy classes"""
    tree = it.optinfo[o.root]['tree']

    def rec(t, path):
        for k, v in t.items():
            p = path + (k,)
            if isinstance(v, dict):
                rec(v, p)
            elif k in ('Backtrack', 'StepSizePolicy', 'Momentum'):
                st.setattr('opt:' + o.root, p,
                           policy(it, st, k, '%s[%s]' % (o.root,
                                                         '.'.join(p))))
    rec(tree, ())


# when set: kind -> class name (or None), instead of every alternative
POLICY = {}


def policy(it, st, kind, name):
    base = {'Backtrack': 'pgm.backtrack.BacktrackBase',
            'StepSizePolicy': 'pgm.stepsize.StepSizePolicyBase',
            'Momentum': 'pgm.momentum.MomentumBase'}[kind]
    bc = cls(it, PKG + base)
    alts = []
    for q in sorted(it.classes):
        c = it.classes[q]
        if bc in c.mro and c is not bc and POLICY.get(
                kind, c.name) == c.name:
            kw_ = {}
            init = it.lookup(c, '__init__', st)
            if isinstance(init, VF):
                for p in init.fi.params[1:]:
                    kw_[p] = VT(sym('%s.%s' % (name, p)))
            m = it.muted
            it.muted += 1
            try:
                alts.append(it.instantiate(c, [], kw_, st, None))
            finally:
                it.muted = m
    if kind in POLICY:
        return alts[0] if alts else VT(NONE)
    if kind != 'Momentum':
        v = VT(NONE)
    else:
        v, alts = alts[-1], alts[:-1]
    for o in alts:
        v = VPhi(tm.cmp_('eq', app('kind', sym(name)), const(o.cls.name)),
                 o, v)
    return v


def construct(it, qual, st, optmode='sym', args=None):
    ci = cls(it, qual)
    a = args if args is not None else ctor_args(it, ci, st, optmode)
    if any(c.qual == 'sporco.dictlrn.dictlrn.DictLearn' for c in ci.mro):
        pass
    return it.instantiate(ci, [], a, st, None), a


def user_functions(it, o, st):
    pass


class Solver(object):
    """A solver object constructed from symbolic arguments."""

    STEPS = ('xstep', 'relax_AX', 'ystep', 'ustep')

    def __init__(self, qual, optmode='sym', real=True, hooks=None, args=None,
                 widen=0, models=None, setup=None, **kw):
        self.qual = qual
        self.it = make(hooks or Hooks(), real=real, models=models, **kw)
        self.it.widen = widen
        self.st = fresh_static()
        self.ci = cls(self.it, qual)
        self.args = args if args is not None else ctor_args(
            self.it, self.ci, self.st, optmode)
        if setup:
            setup(self)
        self.o = self.it.instantiate(self.ci, [], self.args, self.st, None)
        self.o = self.it.resolve(self.o, self.st)
        if not isinstance(self.o, VO):
            raise AnalysisError('%s: constructor not resolved' % qual)
        self.written = ()

    def has(self, name):
        return self.it.lookup(self.o.cls, name, self.st) is not None

    def attrs(self, st=None):
        return (st or self.st).heap.get(self.o.oid, {})

    def attr(self, name, st=None):
        st = st or self.st
        v = self.attrs(st).get(name)
        if v is None:
            m = self.it.muted
            self.it.muted += 1
            try:
                v = self.it.getattr(self.o, name, st)
            finally:
                self.it.muted = m
        return self.it.term(v, st)

    def value(self, name, st=None):
        return self.it.getattr(self.o, name, st or self.st)

    def run(self, name, *args, **kw):
        """call a method in place; returns the result value"""
        st = kw.pop('st', self.st)
        return self.it.call(self.it.getattr(self.o, name, st), list(args),
                            kw, st, None)

    def call(self, name, *args, **kw):
        """call on a copy of the state: (result term, state)"""
        st = kw.pop('st', self.st).copy()
        v = self.it.call(self.it.getattr(self.o, name, st), list(args), kw,
                         st, None)
        return self.it.term(v, st), st

    def symbolise(self, names, prefix='self.'):
        """make the named attributes arbitrary"""
        for n in names:
            v = self.attrs().get(n)
            if v is None:
                continue
            self.it.maybe_none.discard(prefix + n)
            self.st.setattr(self.o.oid, n, self.symval(v, prefix + n))

    def symval(self, v, name):
        v = self.it.resolve(v, self.st)
        if isinstance(v, VA):
            return self.it.symarr(self.st, name)
        if isinstance(v, VPhi):
            ls = leaves(v)
            if any(isinstance(x, VA) for x in ls):
                return self.it.symarr(self.st, name)
            if all(isinstance(x, VT) or x is UNDEF for x in ls):
                return VT(sym(name))
            return v
        if isinstance(v, VT):
            if v.t is NONE:
                return self.it.symarr(self.st, name)
            return VT(sym(name))
        return v

    def step_attrs(self, steps=None):
        """attributes changed by the iteration steps"""
        steps = steps or self.STEPS
        it = self.it
        m = it.muted
        it.muted += 1
        h = it.hooks
        st = self.st.copy()
        try:
            for s in steps:
                if self.has(s):
                    try:
                        it.call(it.getattr(self.o, s, st), [], {}, st, None)
                    except Dead:
                        pass
        finally:
            it.muted = m
        r = []
        old = self.attrs()
        for k, v in st.heap.get(self.o.oid, {}).items():
            ov = old.get(k)
            if ov is None:
                r.append(k)
            elif ov is not v or it.term(ov, self.st) is not it.term(v, st):
                r.append(k)
        return sorted(r)

    def generic_state(self, extra=(), steps=None):
        """an arbitrary iterate: every attribute changed by the iteration
        steps becomes a symbol, except that attributes which the steps leave
        as functions of other attributes keep that relation"""
        it = self.it
        if 'Nb' in self.attrs():
            # two blocks
            self.st.setattr(self.o.oid, 'Nb', VT(const(2)))
        if 'k' in self.attrs() and 'k' not in extra:
            extra = tuple(extra) + ('k',)
        ws = self.step_attrs(steps)
        keep = [k for k in ws if not k.startswith('_')]
        new = [k for k in keep if k not in self.attrs()]
        keep = [k for k in keep if k not in new]
        self.symbolise(keep, 'pre.')
        self.symbolise(extra, 'pre.')
        # one more iteration from the arbitrary state
        m = it.muted
        it.muted += 1
        st = self.st.copy()
        try:
            for x in steps or self.STEPS:
                if self.has(x):
                    try:
                        it.call(it.getattr(self.o, x, st), [], {}, st, None)
                    except Dead:
                        pass
        finally:
            it.muted = m
        for k in new:
            v = st.heap.get(self.o.oid, {}).get(k)
            if v is not None and not any(
                    y.tag == 's' and y.a[0].startswith('pre.')
                    for y in tm.walk(it.term(v, st))):
                # computed once, from the data of the problem
                if isinstance(it.resolve(v, st), VA):
                    v = it.arr(self.st, it.term(v, st))
                self.st.setattr(self.o.oid, k, v)
            else:
                self.st.setattr(self.o.oid, k,
                                it.symarr(self.st, 'self.' + k))
                keep.append(k)
        allk = list(dict.fromkeys(list(keep) + list(extra)))
        post = {}
        for k in allk:
            v = st.heap.get(self.o.oid, {}).get(k)
            if v is not None:
                post[k] = it.term(v, st)
        self.symbolise(allk, 'self.')
        sub = {}
        self.related = {}
        first = {'Xf': 0, 'X': 1, 'Y': 2, 'U': 3}
        for k in sorted(post, key=lambda k: (first.get(k, 4) // 4,
                                             tm.size(post[k]), k)):
            t = post[k]
            if t.tag in ('c',) or t.unk:
                continue
            pre = 'pre.' + k
            if t.tag == 's' and t.a[0] == pre:
                continue
            t2 = tm.subst(t, sub) if sub else t
            if sub and t2 is not t and not any(
                    y.tag == 's' and y.a[0].startswith('pre.')
                    for y in tm.walk(t2)) and not t2.unk and any(
                    y.tag == 's' and y.a[0].startswith('self.')
                    for y in tm.walk(t2)) and tm.size(t2) <= 160 and not any(
                    f.rpartition('.')[2].startswith(('solve', 'prox_',
                                                     'cho_', 'lu_'))
                    for f in rint.functions(t2)):
                v = self.attrs().get(k)
                if isinstance(it.resolve(v, self.st), VA):
                    self.st.setattr(self.o.oid, k, it.arr(self.st, t2))
                    self.related[k] = t2
                    continue
            if t not in sub and tm.size(t) > 1:
                sub[t] = sym('self.' + k)
        self.written = ws
        return ws

    def set_rho(self):
        """rho takes an arbitrary value and the solver is told so"""
        self.st.setattr(self.o.oid, 'rho', VT(sym('self.rho')))
        if self.has('rhochange'):
            self.run('rhochange')


def leaves(v):
    if isinstance(v, VPhi):
        return leaves(v.a) + leaves(v.b)
    return [v]


# interchangeable ways of rearranging arrays
SHAPEY = set('''np.take np.reshape np.transpose np.swapaxes np.moveaxis
np.squeeze np.expand_dims np.rollaxis np.tile np.repeat np.stack
np.concatenate np.diag np.pad np.roll np.ravel np.flatten np.vstack np.hstack
np.broadcast_to np.split upd np.where select np.einsum np.tensordot np.outer
np.average np.linalg.norm'''.split())


# seconds for one comparison; less once a difference has been found or
# comparisons are found to be slow
BUDGET = [60.0]


def compare(spec, impl, *args, **kwargs):
    """equality of two terms; alarms only on interpreted differences"""
    if spec is impl:
        return 'eq', '', None
    tm.LIMIT[0] = time.time() + BUDGET[0]
    try:
        r = compare_(spec, impl, *args, **kwargs)
    except tm.OutOfTime:
        BUDGET[0] = max(5.0, BUDGET[0] / 2)
        return 'undecided', 'time limit', None
    finally:
        tm.LIMIT[0] = None
    if r[0] == 'ne':
        BUDGET[0] = min(15.0, BUDGET[0])
    return r


def compare_(spec, impl, lits=None, maxcases=256, scalars=(),
             cplx=None, allow=()):
    fs, fi = rint.functions(spec), rint.functions(impl)
    missing, extra = fs - fi, fi - fs
    ok = api.KERNELS | api.INTERPRETED
    bad = [f for f in extra if f not in ok and not f.startswith('user.')
           and f not in fs and not (allow and f.startswith(allow))]
    K = api.KERNELS
    vocab = None
    r = rint.compare(spec, impl, scalars=(
        lambda n: n in scalars or api.is_scalar(n)) if scalars else
        api.is_scalar,
                     positive=api.is_positive, lits=lits, maxcases=maxcases,
                     cplx=cplx)
    if r[0] == 'ne' and interp.RAISED:
        # the value does not matter where the code raises an exception
        l2 = dict(lits or {})
        for g in set(interp.RAISED):
            if any(c.unk for c, v in g):
                continue
            c = tm.and_(*[c if v else tm.not_(c) for c, v in g
                          if (lits or {}).get(c) is not v])
            if c.tag == 'not':
                l2.setdefault(c.a[0], True)
            elif c.tag != 'c':
                l2.setdefault(c, False)
        r = rint.compare(spec, impl, scalars=(
            lambda n: n in scalars or api.is_scalar(n)) if scalars else
            api.is_scalar, positive=api.is_positive, lits=l2,
            maxcases=maxcases, cplx=cplx)
    if r[0] == 'ne':
        if bad:
            return ('undecided', 'uninterpreted %s' % sorted(bad)[0], r[2])
        if (missing & SHAPEY) and (extra & SHAPEY):
            return ('undecided', 'array layout handled by %s instead of %s' %
                    (sorted(extra & SHAPEY)[0], sorted(missing & SHAPEY)[0]),
                    r[2])
        if (missing | extra) & {'fold', 'last', 'comp'}:
            return ('undecided', 'loop summarised differently', r[2])
        if (missing & K) and (extra - K) or (extra & K) and (missing - K):
            return ('undecided', 'kernel %s expanded or collapsed' % sorted(
                (missing | extra) & K)[0], r[2])
    return r


# -------------------------------------------------- jobs

# jobs the analysis failed on: undecided
BROKEN = []


class Guard(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, j):
        try:
            return True, self.f(j)
        except Exception as e:
            return False, '%s: %s: %s' % (str(j)[:200], type(e).__name__, e)


class Pool(object):
    """worker processes; an analysis that fails leaves its job undecided"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        import multiprocessing
        self.p = multiprocessing.Pool(self.n)
        return self

    def __exit__(self, *a):
        self.p.terminate()

    def imap_unordered(self, f, js, chunksize=1):
        for ok, r in self.p.imap_unordered(Guard(f), js, chunksize):
            if ok:
                yield r
            else:
                BROKEN.append(r)

    def map(self, f, js, chunksize=1):
        return list(self.imap_unordered(f, js, chunksize))


# -------------------------------------------------- verdicts

class Report(object):
    """collects instances, findings; decides exit status"""

    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.t0 = time.time()
        self.instances = 0
        self.ok = 0
        self.undecided = []
        self.findings = {}      # key -> text
        self.samples = []
        self.counts = {}
        self.floors = []
        self.rule = ''
        self.distinct = set()

    def inst(self, key, verdict, text=''):
        """one rule instance: verdict True (holds) / False / None"""
        self.instances += 1
        self.distinct.add(key)
        if verdict is True:
            self.ok += 1
            if len(self.samples) < 12 or (self.instances % 37 == 0 and
                                          len(self.samples) < 30):
                self.samples.append(key + (': ' + text if text else ''))
        elif verdict is None:
            self.undecided.append(key + (': ' + text if text else ''))
        else:
            self.finding(key, text)

    def finding(self, key, text):
        if key not in self.findings:
            self.findings[key] = text

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, what=None):
        got = self.counts.get(name, 0) if isinstance(name, str) else name
        self.floors.append((name, n, got))
        if got < n and not self.findings:
            raise AnalysisError('%s: %s analysed %d, expected at least %d'
                                % (self.prop, name, got, n))

    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return {}
        with open(p) as f:
            d = json.load(f)
        return {e['key']: e for e in d.get('findings', [])
                if e['property'] == self.prop}

    def finish(self):
        for b in BROKEN:
            self.inst('analysis of %s' % b, None, 'internal error')
        known = self.known()
        new = {k: v for k, v in self.findings.items() if k not in known}
        old = [k for k in self.findings if k in known]
        wall = time.time() - self.t0
        base = program()
        ev = {
            'property': self.prop, 'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'modules_parsed': len(base.mods),
                'classes_parsed': len(base.classes),
                'obligations_examined': self.instances,
                'distinct_obligations': len(self.distinct),
                'obligations_discharged': self.ok,
                'obligations_undecided': len(self.undecided),
                'undecided': self.undecided[:40],
                'counts': self.counts,
                'floors': [list(map(str, f)) for f in self.floors],
                'samples': self.samples,
                'known_findings_reproduced': sorted(old),
            },
            'wall_s': round(wall, 3),
            'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s' % (
                self.prop, known[k].get('what', k)))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.report.txt')
            with open(rp, 'w') as f:
                for k in sorted(new):
                    f.write('%s\n    %s\n' % (k, new[k]))
            for k in sorted(new)[:12]:
                print('  %s -- %s' % (k, new[k][:400]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('%s: %d obligations, %d discharged, %d undecided, %.1fs' % (
            self.prop, self.instances, self.ok, len(self.undecided), wall))
        return 0
