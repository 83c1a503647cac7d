"""C01: option dictionaries validate every key and value."""
import ast
from .. import lib, spec, interp, models
from ..lib import *
from ..interp import VS
from ..loop import event, trace, TRACE

RULE = ('Each method of ConstrainedDict is summarised as the ordered trace '
        'of its operations on dictionary nodes (look-up, validation, raw '
        'insertion, recursive update, node construction, exception with its '
        'argument), every other method being an opaque operation, and '
        'compared with the documented behaviour, for plain and path keys and '
        'for plain, dict and ConstrainedDict values.  Every inherited dict '
        'operation that inserts items must be overridden.  Every Options '
        'class reaches the validating constructor, and every default that '
        'the class tree merges is a fresh copy.')
CLS = 'sporco.cdict.ConstrainedDict'
METH = ('__setitem__', '__getitem__', 'update', '__ior__', 'setdefault',
        'check', 'getparent', 'getnode', '__init__')
# operations of dict that insert items
MUTATORS = ('__setitem__', 'update', '__ior__', 'setdefault')
ALLOW = ('newdict', 'raise', 'exc', 'get', 'has', 'ev', 'res', 'ret', 'isinstance',
         'attr', 'sub', 'tcat', 'dead', 'hasattr')


models.BOOLFUNCS.add('has')


class CD(Interp):
    """dictionary operations as events"""

    def setup(self):
        self.kinds = {}
        self.outcomes = []
        self.made = []
        self.entry = None

    # -- operations

    def node_op(self, o, name, args, st):
        t = self.term(o, st)
        ts = [self.term(a, st) for a in args]
        if name in ('__getitem__', 'get') and len(ts) == 1:
            return VT(app('get', trace(st), t, *ts))
        if name == '__contains__':
            return VT(app('has', trace(st), t, *ts))
        if name in ('update', '__ior__'):
            a = self.resolve(args[0], st) if args else None
            c = st.cells.get(a.cell) if isinstance(a, VL) else None
            if not args or isinstance(c, interp.VDict) and not c.d and \
                    not c.open:
                return VT(NONE)
            event(st, 'update', t, *ts)
            return o if name == '__ior__' else VT(NONE)
        if name == 'setdefault':
            return VT(app('res', event(st, name, t, *ts)))
        event(st, name, t, *ts)
        return VT(NONE)

    def static_op(self, name, args, st):
        return VT(app(name, trace(st), *[self.term(a, st) for a in args]))

    # -- interception

    def callfunc(self, f, args, kwargs, st, node):
        fi = f.fi
        if fi.mod.name == 'sporco.cdict' or fi.mod.name == 'spec.cdict':
            if fi.name == 'keycmp' and len(args) >= 2:
                event(st, 'keycmp', *[self.term(a, st) for a in args])
                return VT(NONE)
            if fi.cls is not None and fi.name in METH and \
                    fi.cls.name == 'ConstrainedDict' or \
                    fi.name in ('getnode', 'getparent'):
                b = self.bindargs(f, args, kwargs, st, node)
                ps = [p for p in fi.params]
                if b is not None:
                    args = [b[p] for p in ps]
                if fi.name in ('getparent', 'getnode'):
                    return self.static_op(fi.name, args[-2:], st)
                return self.node_op(args[0], fi.name, args[1:], st)
        return Interp.callfunc(self, f, args, kwargs, st, node)

    def call(self, fv, args, kwargs, st, node):
        fv = self.resolve(fv, st)
        if isinstance(fv, VB) and isinstance(fv.f, VX):
            n = fv.f.name
            if n.startswith('node.'):
                return self.node_op(fv.slf, n[5:], args, st)
            if n.startswith('raw.'):
                n = n[4:]
                if n == '__init__' and not args and not kwargs:
                    return VT(NONE)
                if n == '__getitem__':
                    return self.node_op(fv.slf, n, args, st)
                if n == '__contains__':
                    return self.node_op(fv.slf, n, args, st)
                event(st, 'raw' + n, self.term(fv.slf, st),
                      *[self.term(a, st) for a in args])
                return VT(NONE)
        if isinstance(fv, VX):
            n = fv.name.rpartition('.')[2]
            if fv.name.startswith('dict.') and args:
                return self.call(VB(args[0], VX('raw.' + n)), args[1:],
                                 kwargs, st, node)
            if n == 'isinstance' and len(args) == 2:
                r = self.kind(self.resolve(args[0], st),
                              self.resolve(args[1], st), st)
                if r is not None:
                    return VT(r)
        return Interp.call(self, fv, args, kwargs, st, node)

    def kind(self, x, c, st):
        its = self.seqitems(c, st)
        if its is not None:
            rs = [self.kind(x, self.resolve(y, st), st) for y in its]
            return None if None in rs else tm.or_(*rs)
        isd = isinstance(c, VX) and c.name == 'dict'
        isc = isinstance(c, VC) and c.ci.name == 'ConstrainedDict'
        if not (isd or isc):
            return None
        if isinstance(x, VO):
            return TRUE
        if isinstance(x, VT):
            k = self.kinds.get(x.t)
            if k is not None:
                return const(k == 'cd' or k == 'dict' and isd)
            if isd:
                return app('isinstance', x.t, sym('dict'))
        return None

    def getattr(self, base, name, st, node=None):
        b = self.resolve(base, st)
        if isinstance(b, VT) and b.t.tag == 'app' and b.t.a[0] == '$super':
            return VB(VT(b.t.a[1][0]), VX('raw.' + name))
        if isinstance(b, VS) and self.lookup(
                b.slf.cls if isinstance(b.slf, VO) else b.slf.ci, name, st,
                start=b.ci) is None:
            return VB(b.slf, VX('raw.' + name))
        if isinstance(b, VT) and b.t.tag not in ('c', 'u') and (
                name in METH or name in ('__contains__', 'keys', 'get')):
            return VB(b, VX('node.' + name))
        if isinstance(b, VO) and self.lookup(b.cls, name, st) is None and \
                name not in st.heap.get(b.oid, {}):
            if name == '__class__':
                return VC(b.cls)
            if name in ('__contains__', 'get'):
                return VB(b, VX('node.' + name))
            if name == 'dflt':
                return VT(app('attr', self.term(b, st), const(name)))
            return VB(b, VX('raw.' + name))
        return Interp.getattr(self, base, name, st, node)

    def contains(self, l, r, st, node):
        r = self.resolve(r, st)
        if isinstance(r, VO) or isinstance(r, VT) and r.t.tag != 'c':
            return app('has', trace(st), self.term(r, st), self.term(l, st))
        return Interp.contains(self, l, r, st, node)

    def getitem(self, base, idx, st, node):
        b = self.resolve(base, st)
        if isinstance(b, VO) or isinstance(b, VT) and b.t.tag != 'c':
            return self.node_op(b, '__getitem__', [idx], st)
        return Interp.getitem(self, base, idx, st, node)

    def setitem(self, base, idx, v, st, node):
        b = self.resolve(base, st)
        if isinstance(b, VO) or isinstance(b, VT) and b.t.tag != 'c':
            return self.node_op(b, '__setitem__', [idx, v], st)
        return Interp.setitem(self, base, idx, v, st, node)

    def mksuper(self, e, st):
        if len(e.args) == 2:
            s = self.resolve(self.ev(e.args[1], st), st)
            if isinstance(s, VT):
                return VT(app('$super', s.t))
        return Interp.mksuper(self, e, st)

    def newoptions(self, ci, args, kwargs, st, node):
        a = list(args)
        init = self.lookup(ci, '__init__', st)
        b = self.bindargs(init, [VT(NONE)] + a, kwargs, st, node)
        if b is not None:
            a = [b[p] for p in init.fi.params[1:]]
        t = app('newdict', const(ci.qual), *[self.term(x, st) for x in a])
        if not self.muted:
            self.made.append((ci, list(t.a[1][1:]), t))
        return VT(t)

    def instantiate(self, ci, args, kwargs, st, node, raw=False):
        if ci.is_sub('sporco.common.IterativeSolver'):
            t = app('newobj', const(ci.qual), *(
                [self.term(x, st) for x in args] +
                [lib.kw(k, self.term(x, st)) for k, x in kwargs.items()]))
            self.made.append((ci, list(t.a[1][1:]), t))
            return VT(t)
        if ci.name.endswith('Error'):
            return VT(app('exc', const(ci.name),
                          *[self.term(x, st) for x in args]))
        return Interp.instantiate(self, ci, args, kwargs, st, node, raw)

    def s_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else VT(NONE)
        self.outcomes.append((tuple(st.pc), app(
            'raise', trace(st), self.term(v, st))))
        return [interp.Out('raise', st, s)]

    def s_Try(self, s, st):
        for h in s.handlers:
            if not (len(h.body) == 1 and isinstance(h.body[0], ast.Raise) and
                    (h.body[0].exc is None or isinstance(
                        h.body[0].exc, ast.Name) and
                     h.body[0].exc.id == h.name)):
                return Interp.s_Try(self, s, st)
        if s.orelse or s.finalbody:
            return Interp.s_Try(self, s, st)
        return self.exec_block(s.body, st)

    # -- summaries

    def summary(self, f, args, st, oid):
        """outcome of a call as a term"""
        st = st.copy()
        self.outcomes = []
        try:
            v = self.inlinecall(f, args, {}, st, None)
            h = st.heap.get(oid, {})
            r = app('ret', trace(st), self.term(v, st), *[
                self.term(h[k], st) for k in ('pth', 'dflt') if k in h])
        except Dead:
            r = app('dead')
        for pc, t in self.outcomes:
            c = tm.and_(*[x if v else tm.not_(x) for x, v in pc])
            r = tm.ite(c, t, r)
        return r


def rawset(it, f, args, kwargs, st, node):
    event(st, 'raw__setitem__', *[it.term(a, st) for a in args])
    return VT(NONE)


def make_it():
    it = lib.make(Hooks(), inline=lambda fi: True, opaque_classes=())
    it.__class__ = CD
    it.setup()
    return it


def key_cases():
    return [('key', VT(const('k'))),
            ('path', VTup((VT(const('a')), VT(const('k'))))),
            ('path of one', VTup((VT(const('k')),)))]


def cases(m, it, st, o):
    """argument lists of a method"""
    d2 = lambda n: it.newdict(st, {'k1': VT(sym(n + '1')),
                                   'k2': VT(sym(n + '2'))})
    S = lambda n: VT(sym(n))
    if m == '__init__':
        for d in ('none', 'd'):
            for fl in ('none', 'dflt'):
                yield 'd %s, dflt %s' % (d, fl), [
                    o, VT(NONE) if d == 'none' else S('d'), S('pth'),
                    VT(NONE) if fl == 'none' else S('dflt')]
    elif m == 'update':
        yield '', [o, d2('v')]
    elif m == '__ior__':
        yield '', [o, S('d')]
    elif m in ('setdefault', '__setitem__'):
        for kn, k in key_cases():
            for kd in ('leaf', 'dict', 'cd'):
                v = sym('value.' + kd)
                it.kinds[v] = kd
                yield '%s, %s' % (kn, kd), [o, k, VT(v)]
    elif m == '__getitem__':
        for kn, k in key_cases():
            yield kn, [o, k]
    elif m == 'check':
        for kd in ('leaf', 'dict', 'cd'):
            v = sym('value.' + kd)
            it.kinds[v] = kd
            yield kd, [o, VT(const('k')), VT(v)]
    elif m in ('getparent', 'getnode'):
        for n in range(4):
            if n or m == 'getnode':
                yield '%d keys' % n, [S('d'), VTup(tuple(
                    VT(const('k%d' % i)) for i in range(n)))]
    elif m == 'keycmp':
        yield 'dict', [it.newdict(st, {'k1': S('w1'), 'k3': S('w3')}),
                       d2('v'), VTup(())]


def expected(q, memo={}):
    from ..specs.optdefaults import DEFAULTS
    if q not in memo:
        par, d = DEFAULTS[q]
        memo[q] = dict(expected(par) if par else {}, **d)
    return memo[q]


def plain(it, t, st):
    """an option value as plain data"""
    if isinstance(t, VO):
        return 'object of ' + t.cls.name
    if isinstance(t, dict):
        return {k: plain(it, v, st) for k, v in t.items()}
    if isinstance(t, VT) and t.t.tag == 'c':
        v = t.t.a[0]
        if not isinstance(v, (str, bool)) and v is not None:
            v = float(v)
        return v
    return '?'


def differ(a, b, path=()):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in b:
                yield path + (k,), 'missing'
            elif k not in a:
                yield path + (k,), 'not documented'
            else:
                for x in differ(a[k], b[k], path + (k,)):
                    yield x
    elif b != '?' and (a != b or isinstance(a, bool) != isinstance(b, bool)):
        yield path, 'default %r instead of %r' % (b, a)


def undecided(b):
    return b == '?' or isinstance(b, dict) and any(map(undecided,
                                                       b.values()))


def events(t):
    r = []
    while t.tag == 'app' and t.a[0] == 'ev':
        r.append((t.a[1][1].a[0],) + tuple(t.a[1][2:]))
        t = t.a[1][0]
    return r[::-1], t


AUX = ('admm.admm.ADMMConsensus', 'admm.bpdn.GenericBPDN',
       'admm.cbpdn.GenericConvBPDN', 'admm.ccmod.ConvCnstrMODBase',
       'admm.ccmodmd.ConvCnstrMODMaskDcplBase', 'admm.cmod.CnstrMOD')
TARGET = ('admm.ccmod.ConvCnstrMODBase', 'admm.cmod.CnstrMOD',
          'admm.rpca.RobustPCA', 'admm.spline.SplineL1',
          'admm.tvl1.TVL1Deconv', 'admm.tvl1.TVL1Denoise',
          'admm.tvl2.TVL2Deconv', 'admm.tvl2.TVL2Denoise')


def changed(it, base, before, after):
    """option classes with defaults that differ between two states"""
    from ..specs.optdefaults import DEFAULTS
    r = []
    for q in DEFAULTS:
        ci = base.classes.get('sporco.' + q)
        if ci is not None and plain(it, it.opt_tree(ci, before), before) != \
                plain(it, it.opt_tree(ci, after), after):
            r.append(ci.qual)
    return r


LABELS = {
    'cbpdndl': {
        'cbpdn_class_label_lookup': {
            'admm': 'admm.cbpdn.ConvBPDN', 'pgm': 'pgm.cbpdn.ConvBPDN'},
        'ccmod_class_label_lookup': {
            'ism': 'admm.ccmod.ConvCnstrMOD_IterSM',
            'cg': 'admm.ccmod.ConvCnstrMOD_CG',
            'cns': 'admm.ccmod.ConvCnstrMOD_Consensus',
            'pgm': 'pgm.ccmod.ConvCnstrMOD'}},
    'cbpdndlmd': {
        'cbpdnmsk_class_label_lookup': {
            'admm': 'admm.cbpdn.ConvBPDNMaskDcpl',
            'pgm': 'pgm.cbpdn.ConvBPDNMask'},
        'ccmodmsk_class_label_lookup': {
            'ism': 'admm.ccmodmd.ConvCnstrMODMaskDcpl_IterSM',
            'cg': 'admm.ccmodmd.ConvCnstrMODMaskDcpl_CG',
            'cns': 'admm.ccmodmd.ConvCnstrMODMaskDcpl_Consensus',
            'pgm': 'pgm.ccmod.ConvCnstrMODMask'}}}
WRAPPERS = {
    'cbpdndl': {'ConvBPDN': ('cbpdn_class_label_lookup', 'admm'),
                'ConvCnstrMOD': ('ccmod_class_label_lookup', 'pgm')},
    'cbpdndlmd': {'ConvBPDNMask': ('cbpdnmsk_class_label_lookup', 'admm'),
                  'ConvCnstrMODMask': ('ccmodmsk_class_label_lookup',
                                       'pgm')}}
LEARN = {'cbpdndl': ('ConvBPDNDictLearn', 'ConvBPDN', 'ConvCnstrMOD'),
         'cbpdndlmd': ('ConvBPDNMaskDictLearn', 'ConvBPDNMask',
                       'ConvCnstrMODMask')}
# solver classes that use the option class of their base class
OPTCLASS = {'pgm.cbpdn.ConvBPDNMask': 'pgm.cbpdn.ConvBPDN',
            'admm.ccmodmd.ConvCnstrMODMaskDcpl_Consensus':
            'admm.ccmod.ConvCnstrMOD_Consensus'
            }
INNER_AR = {'Period': 10, 'AutoScaling': False, 'RsdlRatio': 10.0,
            'Scaling': 2.0, 'RsdlTarget': 1.0}


def inner_defaults(q):
    d = dict(expected(OPTCLASS.get(q, q) + '.Options'), MaxMainIter=1)
    if q.startswith('admm'):
        d['AutoRho'] = INNER_AR
    return norm(d)


def merged(q, d):
    """defaults of a class overridden by d"""
    def rec(a, b):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return b
        return dict(a, **{k: rec(a.get(k), v) for k, v in b.items()})
    return rec(norm(expected(OPTCLASS.get(q, q) + '.Options')), d)


def factories(rep):
    """selection of solver classes and their option sets by method label"""
    base = lib.program()
    for mn, lookups in LABELS.items():
        env = base.static.heap['mod:sporco.dictlrn.' + mn]

        def run1(name, *args, **kwargs):
            it = make_it()
            it.made = []
            st = lib.fresh_static()
            st.heap[TRACE] = {'t': VT(app('start'))}
            f = env.get(name)
            if not isinstance(f, VF):
                return None
            where = '%s:%s %s' % (f.fi.file, f.fi.node.lineno, name)
            rep.count('factory calls')
            try:
                v = it.resolve(it.call(f, list(args), kwargs, st, None), st)
            except Dead:
                v = 'raises'
            return it, st, v, where
        c = lambda x: VT(const(x))
        for fn, tab in lookups.items():
            for lab, q in list(tab.items()) + [('no such method', None)]:
                r = run1(fn, c(lab))
                key = 'sporco.dictlrn.%s.%s(%r)' % (mn, fn, lab)
                if r is None:
                    rep.inst(key, None, 'no such function')
                    continue
                it, st, v, where = r
                if q is None:
                    rep.inst(key, v == 'raises' or None, '')
                elif isinstance(v, VC):
                    rep.inst(key, v.ci.qual == 'sporco.' + q,
                             '%s selects %s' % (where, v.ci.qual))
                else:
                    rep.inst(key, None, str(v))
        for wn, (fn, dm) in WRAPPERS[mn].items():
            tab = lookups[fn]
            for lab in list(tab) + [None]:
                q = tab[lab or dm]
                kw = {'method': c(lab)} if lab else {}
                tag = 'sporco.dictlrn.%s.%%s(%s)' % (
                    mn, 'method=%r' % lab if lab else 'default method')
                # defaults
                r = run1(wn + 'OptionsDefaults', **kw)
                key = tag % (wn + 'OptionsDefaults')
                if r is not None and r[2] != 'raises':
                    it, st, v, where = r
                    got = plain(it, it.treeof(v, st), st)
                    ds = list(differ(merged(q, inner_defaults(q)),
                                     merged(q, got)))
                    bad = changed(it, base, lib.fresh_static(), st)
                    rep.inst(key, False if ds or bad else
                             None if undecided(got) else True, where + ' ' +
                             '; '.join('option %s: %s' % (
                                 '.'.join(map(str, p)), x)
                                 for p, x in ds[:6]) +
                             ('changes the defaults of %s' % bad if bad
                              else ''))
                else:
                    rep.inst(key, None, 'no result')
                # options and solver objects
                for name, sup, args in (
                        (wn + 'Options', OPTCLASS.get(q, q) + '.Options', [VT(sym('opt'))]),
                        (wn, q, [VT(sym('a0')), VT(sym('a1'))])):
                    r = run1(name, *args, **kw)
                    key = tag % name
                    if r is None or r[2] == 'raises':
                        rep.inst(key, None, 'no result')
                        continue
                    it, st, v, where = r
                    made = [m for m in it.made if m[0].is_sub(
                        'sporco.' + sup)]
                    if len(it.made) != 1:
                        rep.inst(key, None, '%d objects' % len(it.made))
                        continue
                    ci, ar, t = it.made[0]
                    ok = ci.is_sub('sporco.' + sup) and it.term(v, st) is t
                    ok = ok and ar[:len(args)] == [a.t for a in args] and \
                        all(x is NONE for x in ar[len(args):])
                    rep.inst(key, ok, '%s makes an object of %s with %s' % (
                        where, [x.qual for x in ci.mro][:2],
                        ', '.join(map(tm.show, ar))))
        # option sets of the learning classes
        cn, xn, dn = LEARN[mn]
        cls = base.classes.get('sporco.dictlrn.%s.%s.Options' % (mn, cn))
        if cls is None:
            rep.inst('sporco.dictlrn.%s.%s.Options' % (mn, cn), None,
                     'no such class')
            continue
        xt = lookups[WRAPPERS[mn][xn][0]]
        dt = lookups[WRAPPERS[mn][dn][0]]
        for xm in list(xt) + [None]:
            for dm in list(dt) + [None]:
                it = make_it()
                it.made = []
                st = lib.fresh_static()
                st.heap['o'] = {}
                st.heap[TRACE] = {'t': VT(app('start'))}
                slf = VO('o', cls)
                f = it.lookup(cls, '__init__', st)
                where = '%s:%s' % (f.fi.file, f.fi.node.lineno)
                key = '%s [%s, %s]' % (cls.qual, xm, dm)
                rep.count('factory calls')
                t = init_trace(it, f, slf, [VT(sym('opt')), c(xm), c(dm)],
                               st)
                st = it.final
                if t is None:
                    rep.inst(key, None, 'raises')
                    continue
                h = st.heap['o']
                x_, d_ = xm or WRAPPERS[mn][xn][1], dm or WRAPPERS[mn][dn][1]
                qs = {'CBPDN': xt[x_], 'CCMOD': dt[d_]}
                exp = norm(dict(expected(cls.qual[7:]), **{
                    k: merged(q, inner_defaults(q))
                    for k, q in qs.items()}))
                why = []
                got = plain(it, it.treeof(h.get('defaults'), st), st)
                if isinstance(got, dict):
                    got = dict(got, **{k: merged(q, got[k])
                                       for k, q in qs.items() if k in got})
                ds = list(differ(exp, got)) if isinstance(got, dict) else []
                why += ['option %s: %s' % ('.'.join(map(str, p)), x)
                        for p, x in ds[:6]]
                for a, m in (('xmethod', x_), ('dmethod', d_)):
                    if a in h and it.term(h[a], st) is not const(m):
                        why.append('%s is %s' % (a, tm.show(
                            it.term(h[a], st))))
                bad = changed(it, base, lib.fresh_static(), st)
                if bad:
                    why.append('changes the defaults of %s' % bad)
                evs, _ = events(t)
                ini = [e for e in evs if e[0] == '__init__']
                und = undecided(got)
                if len(ini) == 1 and ini[0][2].tag == 'app' and \
                        ini[0][2].a[0] == 'dict':
                    dd = dict((k.a[0], v) for k, v in pairs(ini[0][2]))
                    for k, q in qs.items():
                        ms = [m for m in it.made if m[2] is dd.get(k)]
                        if len(ms) != 1:
                            und = True
                        elif not ms[0][0].is_sub(
                                'sporco.%s.Options' % OPTCLASS.get(q, q)):
                            why.append('%s options are of class %s' % (
                                k, [z.qual for z in ms[0][0].mro][:2]))
                else:
                    und = True
                rep.inst(key, False if why else None if und else True,
                         where + ' ' + '; '.join(why))
    rep.floor('factory calls', 60)


def pairs(t):
    for x in t.a[1]:
        if x.tag == 'tup' and len(x.a[0]) == 2:
            yield x.a[0]


def options(rep):
    from ..specs.optdefaults import DEFAULTS
    base = lib.program()
    it = make_it()
    st = lib.fresh_static()
    ns = base.static.heap['mod:spec.cdict']
    for q in DEFAULTS:
        ci = base.classes.get('sporco.' + q)
        if ci is None:
            rep.inst(q, None, 'no such class')
            continue
        where = '%s:%s %s' % (ci.mod.file, ci.node.lineno, q) \
            if hasattr(ci.mod, 'file') else q
        rep.count('option classes')
        # defaults
        exp = norm(expected(q))
        got = plain(it, it.opt_tree(ci, st), st)
        ds = list(differ(exp, got))
        rep.inst(q + ' defaults', False if ds else
                 None if undecided(got) else True,
                 '; '.join('option %s: %s' % ('.'.join(map(str, p)), x)
                           for p, x in ds[:6]) and
                 '%s %s' % (where, '; '.join(
                     'option %s: %s' % ('.'.join(map(str, p)), x)
                     for p, x in ds[:6])))
        # construction
        f = it.lookup(ci, '__init__', st)
        sp = ns.get('init_' + q.replace('.', '__'))
        if sp is None and any(c.qual[7:-8] in TARGET for c in ci.mro):
            sp = ns['init_target']
        for o in ('opt', 'none'):
            st2 = st.copy()
            st2.heap['o'] = {}
            st2.heap[TRACE] = {'t': VT(app('start'))}
            slf = VO('o', ci)
            arg = sym('opt') if o == 'opt' else NONE
            t = init_trace(it, f, slf, [VT(arg)], st2)
            after = it.final
            key = '%s constructor [%s]' % (q, o)
            if t is None:
                rep.inst(key, None, 'constructor raises')
                continue
            bad = changed(it, base, st, after)
            rep.inst(key + ' leaves the class defaults alone', not bad,
                     '%s changes the defaults of %s' % (where, bad))
            if isinstance(sp, VF):
                u = init_trace(it, sp, slf, [VT(arg)], st2)
                v, note, w = compare(u, t, allow=ALLOW)
                rep.inst(key, {'eq': True, 'ne': False}.get(v), '%s %s %s' % (
                    where, note, spec.wit(w) if w else ''))
                continue
            evs, end = events(t)
            if end.tag != 'app' or end.a[0] != 'start' or \
                    any(e[0] not in ('__init__', 'update', 'new')
                            for e in evs):
                rep.inst(key, None, 'trace ' + tm.show(t)[:200])
                continue
            if q.startswith('dictlrn.'):
                # inner option sets are built first and overridden last
                evs = [e for e in evs if e[0] != 'new']
                ini = [e for e in evs if e[0] == '__init__']
                upd = [e for e in evs if e[0] == 'update']
                if len(ini) == 1 and ini[0][2].tag == 'app' and \
                        ini[0][2].a[0] == 'dict' and ini[0][2].a[1]:
                    ok = evs[0] is ini[0] and ini[0][1] is \
                        it.term(slf, st2) and [e[1:3] for e in upd] == (
                            [(it.term(slf, st2), arg)] if o == 'opt' else [])
                    rep.inst(key, ok, where + ' the options supplied are '
                             'not the ones stored: ' + tm.show(t)[:300])
                    continue
            ok = bool(evs) and evs[0][0] == '__init__' and all(
                e[1] is it.term(slf, st2) for e in evs)
            last = [x for e in evs for x in e[2:3]]
            if o == 'opt':
                ok = ok and last[-1] is arg
            else:
                ok = ok and all(x in (NONE, app('dict')) for x in last)
            rep.inst(key, ok, where + ' the options supplied are not the '
                     'ones stored: ' + tm.show(t)[:300])
        # dependent options
        f = it.lookup(ci, '__setitem__', st)
        aux = any(c.qual[7:-8] in AUX for c in ci.mro)
        if not isinstance(f, VF):
            continue
        for k in ('AuxVarObj', 'Verbose'):
            for val in (True, False):
                st2 = st.copy()
                st2.heap['o'] = {}
                st2.heap[TRACE] = {'t': VT(app('start'))}
                slf = VO('o', ci)
                key = '%s set %s to %s' % (q, k, val)
                args = [slf, VT(const(k)), VT(const(val))]
                if f.fi.cls is not None and \
                        f.fi.cls.name == 'ConstrainedDict':
                    it.node_op(slf, '__setitem__', args[1:], st2)
                else:
                    try:
                        it.inlinecall(f, args, {}, st2, None)
                    except Dead:
                        rep.inst(key, None, 'raises')
                        continue
                evs, end = events(trace(st2))
                o = it.term(slf, st2)
                exp = [('__setitem__', o, const(k), const(val))]
                tail = []
                if aux and k == 'AuxVarObj':
                    tail = [('__setitem__', o, const('fEvalX'),
                             const(not val)),
                            ('__setitem__', o, const('gEvalY'), const(val))]
                ok = evs[:1] == exp and set(evs[1:]) == set(tail)
                if end.tag != 'app' or end.a[0] != 'start':
                    ok = None
                rep.inst(key, ok, '%s sets %s' % (where, '; '.join(
                    ' '.join(map(str, (e[0],) + tuple(map(tm.show, e[2:]))))
                    for e in evs)))
    rep.floor('option classes', 45)


def norm(d):
    if isinstance(d, dict):
        return {k: norm(v) for k, v in d.items()}
    if isinstance(d, (int, float)) and not isinstance(d, bool):
        return float(d)
    return d


def init_trace(it, f, slf, args, st):
    st = st.copy()
    try:
        if f.fi.cls is not None and f.fi.cls.name == 'ConstrainedDict':
            it.node_op(slf, '__init__', args, st)
        else:
            it.inlinecall(f, [slf] + args, {}, st, None)
    except Dead:
        it.final = st
        return None
    it.final = st
    return trace(st)


def run(rep):
    rep.rule = RULE
    base = lib.program()
    ns = spec.load('cdict')
    for part in (options, factories):
        try:
            part(rep)
        except (AnalysisError, RecursionError, KeyError, TypeError,
                AttributeError, IndexError, ValueError) as e:
            rep.inst('analysis of ' + part.__name__, None, repr(e))
    ci = base.classes.get(CLS)
    if ci is None:
        raise AnalysisError('no class ' + CLS)
    tab = {}
    for n, f in base.static.heap[ns['ConstrainedDict'].ci.nsid].items():
        if isinstance(f, VF):
            tab[n] = f
    tab['keycmp'] = ns['keycmp']
    it0 = make_it()
    for m in MUTATORS + ('__getitem__', '__init__', 'check'):
        v = it0.lookup(ci, m, lib.fresh_static())
        rep.inst('%s overrides %s' % (CLS, m),
                 isinstance(v, (VF, VP)) or False,
                 '' if v is not None else
                 'the inherited dict.%s does not validate' % m)
    for m, sf in sorted(tab.items()):
        it = make_it()
        it.extra_models = dict(it.extra_models)
        st = lib.fresh_static()
        env = base.static.heap['mod:spec.cdict']
        st.heap[TRACE] = {'t': VT(app('start'))}
        if m == 'keycmp':
            f = base.static.heap['mod:sporco.cdict'].get('keycmp')
        else:
            f = it.lookup(ci, m, st)
            if isinstance(f, VP):
                f = f.f
        if not isinstance(f, VF):
            if m not in MUTATORS:
                rep.inst('%s.%s' % (CLS, m), None, 'no such method')
            continue
        st.heap['o'] = {}
        o = VO('o', ci)
        for attrs in ((), ('pth', 'dflt')) if m == 'check' else (
                (('defaults',),) if m == '__init__' else (('pth', 'dflt'),)):
            st.heap['o'] = {a: VT(sym('self.' + a)) for a in attrs}
            for n, args in cases(m, it, st, o):
                key = '%s.%s [%s%s]' % (CLS, m, n, '' if attrs or
                                        m != 'check' else ' unpickled')
                where = '%s:%s' % (f.fi.file, f.fi.node.lineno)
                try:
                    a = it.summary(sf, list(args), st, 'o')
                    b = it.summary(f, list(args), st, 'o')
                except (AnalysisError, RecursionError) as e:
                    rep.inst(key, None, str(e))
                    continue
                v, note, w = compare(a, b, allow=ALLOW)
                rep.count('summaries')
                rep.inst(key, {'eq': True, 'ne': False}.get(v),
                         '' if v == 'eq' else '%s %s: %s %s' % (
                             where, m, note, spec.wit(w) if w else ''))
    rep.floor('summaries', 30)
