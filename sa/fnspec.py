"""Reference formulas of module-level functions."""
import ast
from . import spec
from . import terms as tm
from .interp import FuncInfo
from .lib import *
from . import lib


def table(name):
    """function qualname -> spec function value"""
    ns = spec.load(name)
    r = {}
    for k, v in ns.items():
        if isinstance(v, VC) and v.ci.mod.name == 'spec.' + name:
            for m, f in lib.program().static.heap.get(v.ci.nsid, {}).items():
                if isinstance(f, VF):
                    q = k.replace('___', '.!').replace('__', '.')
                    r[q.replace('.!', '._') + '.' + m] = f
    return r


def resolve_fn(it, qual):
    mod, _, nm = qual.rpartition('.')
    v = it.static.heap.get('mod:' + mod, {}).get(nm)
    if isinstance(v, (VF, VC)):
        return v
    m = it.mods.get(mod)
    for x in ast.walk(m.tree) if m is not None else ():
        # a definition in an untaken branch of the module body
        if isinstance(x, ast.FunctionDef) and x.name == nm:
            return VF(FuncInfo(x, m, qual), None, tuple(
                VT(const(d.value)) if isinstance(d, ast.Constant) else
                VT(tm.unknown('default')) for d in x.args.defaults))
    return None


class A(object):
    """an array argument of the given shape (names or numbers)"""

    def __init__(self, *shape):
        self.shape = tuple(d if isinstance(d, T) else const(d) if
                           isinstance(d, int) else sym(d) for d in shape)


def value(it, st, p, v):
    if isinstance(v, A):
        it.shapes[sym(p)] = v.shape
        for d in v.shape:
            it.shapes.setdefault(d, ())
        return it.symarr(st, p)
    if isinstance(v, (tuple, list)):
        r = [value(it, st, p + str(i), x) for i, x in enumerate(v)]
        return VTup(tuple(r)) if isinstance(v, tuple) else it.newlist(st, r)
    if v is None or isinstance(v, (int, float)):
        return VT(const(v))
    if isinstance(v, str) and v[:1] == '$':
        it.shapes[sym(v[1:])] = ()
        return VT(sym(v[1:]))
    if isinstance(v, str) and v[:1] == "'":
        return VT(const(v[1:]))
    return v


def run_conf(rep, jobs, floor):
    """jobs: (table, qualname, config dict)"""
    from .lib import Pool
    with Pool(8) as p:
        for k, v, t in p.imap_unordered(run_one, jobs):
            rep.count('comparisons')
            rep.inst(k, v, t)
    rep.floor('comparisons', floor)


def run_one(j):
    import importlib
    mod, q, c = j
    m = importlib.import_module('sa.checks.' + mod)
    f = table(m.TABLE)[q]
    c = dict(c)
    kw = {k[1:]: c.pop(k) for k in list(c) if k.startswith('_')}
    if hasattr(m, 'MODELS'):
        kw['models'] = dict(m.MODELS, **kw.get('models', {}))
    kw.setdefault('real', getattr(m, 'REAL', True))
    kw.setdefault('globs', getattr(m, 'GLOBS', ()))
    if getattr(m, 'OPAQUE', None):
        kw['inline'] = Inline(m.OPAQUE - {q})
    args = dict(c)
    kw.setdefault('ctx', ' [%s]' % ' '.join('%s=%s' % (k, show_arg(v))
                                            for k, v in args.items())
                  if args else '')
    return check_fn(q, f, args, **kw)


def show_arg(v):
    if isinstance(v, A):
        return 'x'.join(str(x) for x in v.shape)
    if isinstance(v, tuple):
        return '(%s)' % ','.join(show_arg(x) for x in v)
    return str(v).replace('$', '')


class New(object):
    """argument constructed by calling a class or function of the
    repository"""

    def __init__(self, qual, **kw):
        self.qual, self.kw = qual, kw

    def __str__(self):
        return '%s(%s)' % (self.qual.split('.')[-1], ' '.join(
            '%s=%s' % (k, show_arg(v)) for k, v in self.kw.items()))

    def __call__(self, it, st):
        a = {k: value(it, st, k, v) for k, v in self.kw.items()}
        return it.call(resolve_fn(it, self.qual), [], a, st, None)


class Inline(object):
    def __init__(self, opaque):
        self.opaque = opaque

    def __call__(self, fi):
        return fi.qual not in self.opaque


def jobs(mod, tab, conf):
    r = []
    for q in sorted(table(tab)):
        for c in conf.get(q, [{}]):
            r.append((mod, q, c))
    return r


def inline_all(fi):
    return True


def check_fn(qual, f, args, real=True, inline=inline_all, globs=(),
             ctx='', models=None, scal=(), apply=None):
    """compare function `qual` with its formula; args: {param: value}"""
    h = spec.SpecHooks()
    it = make(h, real=real, inline=inline, models=models, opaque_classes=())
    it.fnmode = True
    st = lib.fresh_static()
    impl = resolve_fn(it, qual)
    key = qual + ctx
    if impl is None:
        return key, None, 'no such function'
    for m, n, v in globs:
        if 'mod:' + m in st.heap:
            st.setattr('mod:' + m, n, v)
    a = {}
    for p in f.fi.params:
        v = args.get(p, 'arr')
        v = value(it, st, p, v)
        if v == 'arr':
            v = it.symarr(st, p)
        elif v == 'sym':
            v = VT(sym(p))
        elif v == 'none':
            v = VT(NONE)
        elif callable(v):
            v = v(it, st)
        a[p] = v
    st1, st2 = st.copy(), st.copy()
    h.inspec += 1
    h.bad = []
    try:
        sv = it.call(f, [], dict(a), st2, None)
    except Dead:
        return key, None, 'formula undefined here'
    finally:
        h.inspec -= 1
    if h.bad:
        return key, None, 'formula refers to %s' % h.bad[0]
    if isinstance(impl, VC):
        init = it.lookup(impl.ci, '__init__', st1)
        names, fi = init.fi.params, init.fi
    else:
        names, fi = impl.fi.params, impl.fi
    try:
        iv = it.call(impl, [], {k: v for k, v in a.items() if k in names},
                     st1, None)
    except Dead:
        return key, None, 'function always raises'
    where = '%s:%s %s' % (fi.file, fi.node.lineno, fi.qual)
    if apply is not None:
        # compare the results of the returned functions
        try:
            ap = apply if isinstance(apply, list) else [apply]
            nm = ['x'] if len(ap) == 1 else ['x%d' % i
                                             for i in range(len(ap))]
            sv = it.call(sv, [value(it, st2, n, v)
                              for n, v in zip(nm, ap)], {}, st2, None)
            iv = it.call(iv, [value(it, st1, n, v)
                              for n, v in zip(nm, ap)], {}, st1, None)
        except Dead:
            return key, None, 'function always raises'
    if isinstance(impl, VC):
        # compare the attributes listed by the formula
        d = st2.cells[it.resolve(sv, st2).cell].d
        sv = VTup(tuple(d[k] for k in sorted(d)))
        iv = VTup(tuple(st1.getattr(iv.oid, k) or VT(tm.unknown(k))
                        for k in sorted(d)))
    lits = dict(st1.pc)
    scal = set(scal) | set(k for k, v in args.items()
                           if isinstance(v, str) and v.startswith('$')) | \
        set(v[1:] for v in args.values()
            if isinstance(v, str) and v.startswith('$'))
    v, note, w = compare(it.term(sv, st2), it.term(iv, st1), lits=lits,
                         scalars=scal, cplx=it.cplx)
    if v == 'eq':
        return key, True, where
    if v == 'undecided':
        return key, None, note + (' | ' + spec.wit(w) if w else '')
    return key, False, '%s computes a different value (%s) %s' % (
        where, note, spec.wit(w))
