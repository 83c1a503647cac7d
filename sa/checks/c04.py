"""C04: timers and attribute helpers."""
import itertools
from .. import lib, spec
from ..lib import *
from ..lib import Pool
from ..interp import VTup

RULE = ('Typestate analysis of labelled timers: from every combination of '
        'the states absent, created, running, stopped and running again of '
        'two labels, every operation on one label, several labels, the '
        'default label and all labels is evaluated on symbolic clock '
        'readings, and the elapsed times of every label (total and current '
        'period) and the raising of an exception are compared with those of '
        'the documented timer. The attribute helpers of the iterative solver '
        'base class are compared with their documented case table.')
A, B, D, ALL = 'a', 'b', 'main', 'all'
PRE = ((), ('start',), ('start', 'stop'), ('start', 'stop', 'start'),
       ('start', 'reset'))
OPS = [(m, x) for m in ('start', 'stop', 'reset')
       for x in (None, A, B, (A, B), [A], ALL) if (m, x) != ('start', ALL)]
INIT = ((None, D, ALL), (A, D, ALL), ((A, B), D, ALL), ([A], A, ALL),
        (None, B, 'every'))


def val(it, st, x):
    if isinstance(x, (tuple, list)):
        r = [val(it, st, y) for y in x]
        return VTup(tuple(r)) if isinstance(x, tuple) else it.newlist(st, r)
    return VT(const(x))


class Clock(object):
    def __init__(self):
        self.k = 0

    def __call__(self, it, f, args, kwargs, st, node):
        return VT(sym('$t%d' % self.k))


def call(it, o, m, args, st):
    """value of a call, or None if it raises"""
    try:
        return it.call(it.getattr(o, m, st), args, {}, st, None)
    except Dead:
        return None


def where(it, c, m):
    f = it.lookup(c, m, it.static)
    f = f.f if isinstance(f, VP) else f
    return '%s:%d %s' % (f.fi.file, f.fi.node.lineno, f.fi.qual) if \
        isinstance(f, VF) else c.qual


def observe(it, o, st, m='elapsed'):
    r = {}
    for x in (None, A, B):
        for tot in (True, False):
            s2 = st.copy()
            v = call(it, o, m, [VT(const(x)), VT(const(tot))], s2)
            # a reading that is only valid under a condition is not known
            r[x, tot] = None if v is None else it.term(v, s2)
    return r


def setup():
    it = make(hooks=spec.SpecHooks(), inline=lambda f: True,
              opaque_classes=())
    st = it.static.copy()
    ck = Clock()
    it.extra_models['ext:timeit.default_timer'] = ck
    return it, st, ck


def timer(init):
    ns = spec.load('base')
    out = []
    it, st0, ck = setup()
    ci = lib.cls(it, 'sporco.util.Timer')
    for pa, pb, in itertools.product(PRE, PRE):
        key0 = 'Timer(%s, %s, %s) a:%s b:%s' % (
            init + ('-'.join(pa) or 'absent', '-'.join(pb) or 'absent'))
        st = st0.copy()
        ck.k = 0
        a = [val(it, st, x) for x in init]
        o = it.instantiate(ci, list(a), {}, st, None)
        r = it.instantiate(ns['Timer'].ci, list(a), {}, st, None)
        ok = True
        for m, x in [(m, A) for m in pa] + [(m, B) for m in pb]:
            ck.k += 1
            w = [VT(const(x))]
            ok = ok and call(it, r, m, w, st) is not None and \
                call(it, o, m, w, st) is not None
        if not ok:
            out.append((key0, False, '%s: raises for existing labels' %
                        where(it, ci, 'start')))
            continue
        for m, x in OPS:
            key = '%s: %s(%s)' % (key0, m, x)
            s1 = st.copy()
            ck.k += 1
            u = call(it, r, m, [val(it, s1, x)], s1)
            v = call(it, o, m, [val(it, s1, x)], s1)
            wh = where(it, ci, m)
            if (u is None) != (v is None):
                out.append((key, False, '%s: %s' % (wh, 'raises for a label '
                            'that exists' if v is None else 'accepts a label '
                            'that does not exist')))
                continue
            if u is None:
                out.append((key, True, wh))
                continue
            ck.k += 1
            e, g = observe(it, r, s1), observe(it, o, s1)
            bad = [k for k in e if e[k] is not g[k]]
            und = [k for k in bad if e[k] is not None and g[k] is not None
                   and not closed(g[k])]
            if not bad:
                out.append((key, True, wh))
            elif len(und) == len(bad):
                out.append((key, None, 'elapsed time not known'))
            else:
                k = [x for x in bad if x not in und][0]
                out.append((key, False, '%s: then elapsed(%s, total=%s) is '
                            '%s, documented %s' % ((wh,) + k + (
                                g[k], e[k]))))
    return out


def closed(t):
    """a linear combination of clock readings"""
    if t.tag == 's':
        return t.a[0].startswith('$t')
    if t.tag == 'sum':
        return all(e == 1 and closed(x) for m, c in t.a[0] for x, e in m)
    return t.tag == 'c'


def context(_):
    ns = spec.load('base')
    out = []
    it, st0, ck = setup()
    ci = lib.cls(it, 'sporco.util.ContextTimer')
    ti = lib.cls(it, 'sporco.util.Timer')
    for lab, act, n in itertools.product((None, A), ('StartStop',
                                                     'StopStart'), (1, 2)):
        key = 'ContextTimer(%s, %s) %d times' % (lab, act, n)
        st = st0.copy()
        ck.k = 0
        a = [VT(const(None)), VT(const(D)), VT(const(ALL))]
        oo, rr = it.instantiate(ti, a, {}, st, None), \
            it.instantiate(ns['Timer'].ci, a, {}, st, None)
        w = [VT(const(lab)), VT(const(act))]
        o = it.instantiate(ci, [oo] + w, {}, st, None)
        r = it.instantiate(ns['ContextTimer'].ci, [rr] + w, {}, st, None)
        ck.k = 1
        for x, y in ((oo, o), (rr, r)):
            call(it, x, 'start', [VT(const(lab))], st)
        bad = None
        for i in range(n):
            for m, x in (('__enter__', []), ('__exit__',
                                             [VT(const(None))] * 3)):
                ck.k += 1
                u, v = call(it, r, m, x, st), call(it, o, m, x, st)
                ck.k += 1
                if (u is None) != (v is None):
                    bad = m
                    break
                for tot in (True, False):
                    s2 = st.copy()
                    p = call(it, r, 'elapsed', [VT(const(tot))], s2)
                    q = call(it, o, 'elapsed', [VT(const(tot))], s2)
                    if q is None or it.term(p, s2) is not it.term(q, s2):
                        bad = bad or m
        out.append((key, not bad, '%s: elapsed time differs from the '
                    'documented one after %s' % (where(it, ci, bad or
                                                       '__enter__'), bad)))
    return out


def attrs(_):
    """set_attr and set_dtype"""
    ns = spec.load('base')
    out = []
    it, st0, ck = setup()
    ci = lib.cls(it, 'sporco.common.IterativeSolver')
    for old, v, d, reset in itertools.product(
            (0, None, 'o'), (None, 'v', 0), (None, 'd'), (True, False)):
        for dt in (None, 'T'):
            key = 'set_attr old=%s val=%s dval=%s dtype=%s reset=%s' % (
                'absent' if old == 0 else old, v, d, dt, reset)
            st = st0.copy()
            obj = it.instantiate(ci, [], {}, st, None, raw=True)
            if old != 0:
                st.setattr(obj.oid, 'zz', V(old))
            st2 = st.copy()
            kw = dict(reset=VT(const(reset)))
            if dt:
                kw['dtype'] = VT(sym('$dt'))
            try:
                e = it.call(ns['set_attr'], [
                    V(None if old == 0 else old), V(v), V(d),
                    kw.get('dtype', VT(const(None))), kw['reset']], {}, st2,
                    None)
                it.call(it.getattr(obj, 'set_attr', st), [
                    VT(const('zz')), V(v)], dict(kw, dval=V(d)), st, None)
            except Dead:
                out.append((key, None, 'raises'))
                continue
            g = st.heap.get(obj.oid, {}).get('zz')
            spec_pair(it, out, key, where(it, ci, 'set_attr'), e, st2, g, st)
    for old, o, d in itertools.product((0, None, 'o'), (None, 'opt'),
                                       ('d',)):
        key = 'set_dtype old=%s DataType=%s' % ('absent' if old == 0 else
                                                old, o)
        st = st0.copy()
        obj = it.instantiate(ci, [], {}, st, None, raw=True)
        if old != 0:
            st.setattr(obj.oid, 'dtype', V(old))
        st2 = st.copy()
        try:
            e = it.call(ns['set_dtype'], [V(None if old == 0 else old), V(o),
                                          V(d)], {}, st2, None)
            it.call(it.getattr(obj, 'set_dtype', st), [
                it.newdict(st, {'DataType': V(o)}), V(d)], {}, st, None)
        except Dead:
            out.append((key, None, 'raises'))
            continue
        g = st.heap.get(obj.oid, {}).get('dtype')
        spec_pair(it, out, key, where(it, ci, 'set_dtype'), e, st2, g, st)
    return out


def V(x):
    return VT(const(x) if x is None or isinstance(x, int) else sym('$' + x))


def spec_pair(it, out, key, wh, e, st2, g, st):
    if g is None:
        out.append((key, False, '%s: attribute is not set' % wh))
        return
    v, note, w = compare(it.term(e, st2), it.term(g, st))
    if v == 'eq':
        out.append((key, True, wh))
    elif v == 'undecided':
        out.append((key, None, note))
    else:
        out.append((key, False, '%s: the attribute differs from the '
                    'documented value (%s) %s' % (wh, note, spec.wit(w))))


def job(j):
    return {'t': timer, 'c': context, 'a': attrs}[j[0]](j[1])


def run(rep):
    rep.rule = RULE
    js = [('t', i) for i in INIT] + [('c', 0), ('a', 0)]
    with Pool(8) as p:
        for out in p.imap_unordered(job, js, chunksize=1):
            for k, v, t in out:
                rep.count('transitions')
                rep.inst(k, v, t)
    rep.floor('transitions', 1000)
