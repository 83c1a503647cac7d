"""C06: no undefined attribute, name or unbindable call on any
construct / solve / query path."""
import ast
from ..lib import Pool

from ..lib import *

RULE = ('Abstract interpretation of every solver class: constructor with '
        'symbolic arguments (options object arbitrary, and omitted), the '
        'iteration loop to its fixpoint, then every public method, for real '
        'and complex data.  Obligation per attribute/name read and per call: '
        'the read is preceded by a definition on all paths whose condition '
        'mentions only configuration (option values, omitted arguments); '
        'the call binds to its callee\'s signature.')

# parameters of public methods
ARRAYARGS = {'X', 'Y', 'U', 'V', 'D', 'Z', 'S', 'W', 'AX', 'Yprev', 'X0',
             'Y0', 'Y1', 'B', 'y', 'Xf', 'Vf', 'x', 'Dxy', 'gradY', 'grad',
             'AX', 'Di', 'X1', 'D0'}

# entry points of user-supplied or interactive code, not analysed
SKIP = {'plot', 'display_start', 'display_status', 'display_end'}


def configatom(c):
    """the condition is a choice of configuration"""
    for x in tm.atoms_of_cond(c):
        if x.unk:
            return False
        if x.tag == 'app' and x.a[0] in ('truth', 'isnone', 'hasattr') and \
                leafopt(x.a[1][0]):
            continue
        if x.tag == 'cmp' and x.a[0] in ('is', 'eq'):
            a, b = x.a[1], x.a[2]
            if a.tag == 'c':
                a, b = b, a
            if b is NONE and a.tag == 's' and not a.a[0].startswith('$'):
                continue
            if b.tag == 'c' and isinstance(b.a[0], (str, bool)) and \
                    leafopt(a):
                continue
        return False
    return True


def leafopt(t):
    if t.tag == 'app' and t.a[0] == 'kind':
        t = t.a[1][0]
    return t.tag == 's' and '[' in t.a[0]


def dynamic(ci):
    """an options class that extends its defaults at run time"""
    for c in ci.mro if ci is not None else ():
        if c.qual.startswith('sporco.cdict.'):
            continue
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and n.attr == 'defaults' and \
                    isinstance(n.value, ast.Name) and n.value.id == 'self':
                return True
    return False


class H(Hooks):
    def __init__(self):
        self.found = {}
        self.soft = set()
        self.reads = 0
        self.calls = 0
        self.options = 0

    def add(self, it, st, kind, what, node, cond):
        fi = it.stack[-1] if it.stack else None
        if fi is not None and fi.mod.name.startswith(api.NEVER):
            return
        if any('$trip0' in tm.show(c) for c, v in st.pc if c.tag == 'app'):
            return
        key = '%s %s in %s' % (kind, what, fi.qual if fi else '?')
        if cond is not TRUE and not configatom(cond):
            self.soft.add(key)
            return
        if key not in self.found:
            self.found[key] = '%s at %s%s' % (
                kind, it.loc(node), '' if cond is TRUE else
                ' when ' + tm.show(cond)[:300])

    def name_undef(self, it, st, name, node, cond):
        if '.' in name and (not name.startswith('sporco') or
                            name.startswith('sporco.cuda.')):
            return
        self.add(it, st, 'undefined name', name, node, cond)

    def attr_undef(self, it, st, obj, name, node, cond):
        o = obj.cls.name if isinstance(obj, VO) else (
            obj.ci.name if isinstance(obj, VC) else 'record')
        self.add(it, st, 'undefined attribute', name, node, cond)

    def binding_error(self, it, st, fi, msg, node):
        self.add(it, st, 'unbindable call', '%s: %s' % (fi.qual, msg), node,
                 TRUE)

    def unpack_error(self, it, st, n, m, node):
        self.add(it, st, 'arity mismatch', '%s values for %s' % (m, n), node,
                 TRUE)

    def option(self, it, st, o, path, node):
        """an option that the options object does not define"""
        t = it.optinfo[o.root]['tree']
        ov = st.heap.get('opt:' + o.root, {})
        for i, k in enumerate(path):
            if path[:i + 1] in ov or not isinstance(t, dict):
                return
            if k not in t:
                if i == 0 and dynamic(it.optinfo[o.root]['cls']):
                    return
                self.add(it, st, 'undefined option', '.'.join(
                    map(str, path)), node, TRUE)
                return
            t = t[k]

    def opt_read(self, it, st, o, path, node):
        self.options += 1
        self.option(it, st, o, path, node)

    def opt_write(self, it, st, o, path, v, node):
        self.option(it, st, o, path, node)

    def call(self, it, st, name, args, kwargs, node):
        self.calls += 1


# internals of the iteration protocol of a solve method
PROTOCOL = {'xstep', 'ystep', 'ustep', 'relax_AX', 'compute_residuals',
            'update_rho', 'rhochange', 'on_iteration_start', 'eval_objfn',
            'iteration_stats'}


def public_methods(s):
    r = {}
    mro = s.o.cls.mro
    own = next((i for i, c in enumerate(mro)
                if 'solve' in s.st.heap.get(c.nsid, {})), len(mro))
    for i, c in enumerate(mro):
        for k, v in s.st.heap.get(c.nsid, {}).items():
            if k not in api.METHODS or k in SKIP:
                continue
            if k in PROTOCOL and i > own:
                # the protocol of a base class whose solve is replaced
                continue
            f = v.f if isinstance(v, VP) and v.kind != 'property' else v
            if isinstance(f, VF):
                r.setdefault(k, (v, f))
    return r


def methodargs(s, v, f):
    ps = f.fi.params
    if isinstance(v, VP) and v.kind == 'staticmethod':
        pass
    else:
        ps = ps[1:]
    nd = len(f.defaults)
    req = ps[:len(ps) - nd] if nd else ps
    a = []
    for p in req:
        if p in ARRAYARGS:
            a.append(s.it.symarr(s.st, 'arg:' + p))
        else:
            a.append(VT(sym('arg:' + p)))
    return a


DICTMETHODS = {
    'cbpdndl': [('admm', 'ism'), ('admm', 'cg'), ('admm', 'cns'),
                ('pgm', 'pgm'), ('pgm', 'cns'), ('admm', 'pgm')],
    'cbpdndlmd': [('admm', 'ism'), ('admm', 'cg'), ('admm', 'cns'),
                  ('pgm', 'pgm'), ('pgm', 'cns'), ('admm', 'pgm')]}


# documented classes of the coefficient and dictionary update solvers
INNER = {
    'cbpdndl': ({'admm': 'sporco.admm.cbpdn.ConvBPDN',
                 'pgm': 'sporco.pgm.cbpdn.ConvBPDN'},
                {'ism': 'sporco.admm.ccmod.ConvCnstrMOD_IterSM',
                 'cg': 'sporco.admm.ccmod.ConvCnstrMOD_CG',
                 'cns': 'sporco.admm.ccmod.ConvCnstrMOD_Consensus',
                 'pgm': 'sporco.pgm.ccmod.ConvCnstrMOD'}),
    'cbpdndlmd': ({'admm': 'sporco.admm.cbpdn.ConvBPDNMaskDcpl',
                   'pgm': 'sporco.pgm.cbpdn.ConvBPDNMask'},
                  {'ism': 'sporco.admm.ccmodmd.ConvCnstrMODMaskDcpl_IterSM',
                   'cg': 'sporco.admm.ccmodmd.ConvCnstrMODMaskDcpl_CG',
                   'cns': 'sporco.admm.ccmodmd.ConvCnstrMODMaskDcpl_Consensus',
                   'pgm': 'sporco.pgm.ccmod.ConvCnstrMODMask'})}
STATIC = {'bpdndl': ('sporco.admm.bpdn.BPDN', 'sporco.admm.cmod.CnstrMOD'),
          'wbpdndl': ('sporco.pgm.bpdn.WeightedBPDN',
                      'sporco.pgm.cmod.WeightedCnstrMOD')}


def documented(q, xd):
    m = q.split('.')[2]
    if m == 'prlcnscdl':
        m = 'cbpdndlmd' if 'Mask' in q else 'cbpdndl'
        xd = ('admm', 'cns')
    if xd:
        return [t[k] for t, k in zip(INNER[m], xd)]
    return STATIC[m]


def nested(it, q, xd):
    """give the options objects of the dictionary learner the options of
    the selected inner solvers, which the code adds dynamically"""
    base = it.opt_tree

    def tree(ci, st=None):
        t = base(ci, st)
        if ci.qual == q + '.Options' and isinstance(t, dict):
            t = dict(t)
            for k, c in zip(('CBPDN', 'CCMOD'), documented(q, xd)):
                o = it.lookup(cls(it, c), 'Options', it.static)
                t[k] = base(o.ci, st)
        return t
    it.opt_tree = tree
    for i in it.optinfo.values():
        if i['cls'] is not None and i['cls'].qual == q + '.Options':
            i['tree'] = tree(i['cls'])


def analyse(job, h=None):
    qual, mode, real, xd = job
    h = h or H()
    out = {'job': job, 'dead': [], 'methods': 0}

    def setup(s):
        if xd:
            s.args['xmethod'] = VT(const(xd[0]))
            s.args['dmethod'] = VT(const(xd[1]))
        if xd or '.prlcnscdl.' in qual:
            nested(s.it, qual, xd)
    try:
        s = Solver(qual, mode, real=real, hooks=h, widen=15, setup=setup)
    except Dead:
        out['dead'].append('__init__')
        out.update(found=h.found, soft=len(h.soft), calls=h.calls,
                   options=h.options)
        return out
    it = s.it
    if 'solve' in public_methods(s):
        try:
            f = it.getattr(s.o, 'solve', s.st)
            it.call(f, solveargs(s), {}, s.st, None)
        except Dead:
            out['dead'].append('solve')
    pm = public_methods(s)
    for k in sorted(pm):
        if k in ('solve',):
            continue
        v, f = pm[k]
        st = s.st.copy()
        out['methods'] += 1
        try:
            it.call(it.getattr(s.o, k, st), methodargs(s, v, f), {}, st,
                    None)
        except Dead:
            out['dead'].append(k)
    out.update(found=h.found, soft=len(h.soft), calls=h.calls,
                   options=h.options)
    return out


def solveargs(s):
    v = s.it.lookup(s.o.cls, 'solve', s.st)
    if isinstance(v, VF):
        return methodargs(s, v, v)
    return []


def jobs():
    r = []
    for q in SOLVERS:
        m = q.split('.')[2]
        xds = DICTMETHODS.get(m, [None])
        for mode in ('sym', 'none'):
            for real in (True, False):
                if not real and 'cbpdn.' not in q:
                    continue
                for xd in xds:
                    r.append((q, mode, real, xd))
    return r


def run(rep):
    rep.rule = RULE
    js = jobs()
    js.sort(key=lambda j: '.dictlrn.' not in j[0])
    with Pool(8) as p:
        res = p.map(analyse, js, chunksize=1)
    for r in res:
        q, mode, real, xd = r['job']
        tag = '%s opt=%s %s%s' % (q, mode, 'real' if real else 'complex',
                                  ' %s/%s' % xd if xd else '')
        rep.count('configurations')
        rep.count('public methods', r['methods'])
        rep.count('call sites visited', r['calls'])
        rep.count('option reads visited', r['options'])
        if '__init__' in r['dead']:
            rep.inst('construct ' + tag, None, 'constructor always raises')
            continue
        if not r['found']:
            rep.inst('paths of ' + tag, True, '%d methods, %d calls' % (
                r['methods'], r['calls']))
        for k, v in r['found'].items():
            rep.inst(k, False, v + ' [' + tag + ']')
    rep.floor('configurations', 100)
    rep.floor('public methods', 1500)
    rep.floor('call sites visited', 20000)
