"""Reference semantics: formulas written from the documented mathematics
(sa/specs/*.py) are given to the same data-flow engine as the program; the
value graph of the formula is compared with the value graph of the method
that claims to compute it, in an arbitrary state of the solver object."""
import os
from .lib import *
from . import lib

SPECDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs')


def load(name):
    """load spec module into the base program; returns its namespace"""
    base = lib.program()
    n = 'spec.' + name
    if n not in base.mods:
        base.files[n] = (os.path.join(SPECDIR, name + '.py'),
                         'specs/%s.py' % name, False)
        base.load_module(n)
    return base.static.heap['mod:' + n]


class SpecHooks(Hooks):
    """notes undefined names met while a reference formula is evaluated"""

    def __init__(self):
        self.inspec = 0
        self.bad = []

    def name_undef(self, it, st, name, node, cond):
        if self.inspec and cond is TRUE:
            self.bad.append(name)

    def attr_undef(self, it, st, obj, name, node, cond):
        if self.inspec and cond is TRUE:
            self.bad.append(name)

    def binding_error(self, it, st, fi, msg, node):
        if self.inspec:
            self.bad.append(msg)

    def unpack_error(self, it, st, n, m, node):
        if self.inspec:
            self.bad.append('unpack')


def table(specname, prefix):
    """class qualname -> {method: spec function value}"""
    ns = load(specname)
    r = {}
    for k, v in ns.items():
        if isinstance(v, VC) and v.ci.mod.name == 'spec.' + specname:
            q = prefix + k.replace('__', '.')
            r[q] = {m: f for m, f in
                    lib.program().static.heap.get(v.ci.nsid, {}).items()
                    if isinstance(f, VF)}
    return r


def find(tab, ci, meth):
    for c in ci.mro:
        f = tab.get(c.qual, {}).get(meth)
        if f is not None:
            return c.qual, f
    return None, None


def methods(tab, ci):
    r = set()
    for c in ci.mro:
        r |= set(tab.get(c.qual, {}))
    return r


def dictof(it, v, st):
    v = it.resolve(v, st)
    if isinstance(v, VL):
        c = st.cells.get(v.cell)
        if isinstance(c, VDict):
            return c.d
    return None


def kname(k):
    return k.a[0] if isinstance(k, T) else k


def check_method(s, tab, meth, args=(), st=None, ctx='', only=None):
    """compare method `meth` of solver s with its reference formula.
    yields (key, verdict, text)"""
    it = s.it
    st = (st or s.st)
    own, f = find(tab, s.o.cls, meth)
    if f is None:
        return
    key0 = '%s.%s%s' % (s.qual, meth, ctx)
    h = it.hooks
    st1 = st.copy()
    st2 = st.copy()
    # the formula
    if hasattr(h, 'inspec'):
        h.inspec += 1
        h.bad = []
    try:
        sv = it.call(f, [s.o] + list(args), {}, st2, None)
    except Dead:
        yield key0, None, 'formula undefined here'
        return
    finally:
        if hasattr(h, 'inspec'):
            h.inspec -= 1
    bad = getattr(h, 'bad', None)
    if bad:
        yield key0, None, 'formula refers to %s' % bad[0]
        return
    # the method
    # (a formula whose name starts with attr_ describes attributes set by
    # the constructor)
    m = iv = None
    if meth.startswith('attr_'):
        m = it.lookup(s.o.cls, '__init__', st1)
    elif meth.startswith('via_'):
        x, a, n = meth.split('_', 2)
        m = it.lookup(s.o.cls, 'solve', st1)
        try:
            iv = it.call(it.getattr(it.getattr(s.o, a, st1), n, st1),
                         [s.o] + list(args), {}, st1, None)
        except Dead:
            yield key0, None, 'method always raises'
            return
    else:
        m = it.lookup(s.o.cls, meth, st1)
        if m is None:
            yield key0, None, 'no such method'
            return
        try:
            iv = it.call(it.getattr(s.o, meth, st1), list(args), {}, st1,
                         None)
        except Dead:
            yield key0, None, 'method always raises'
            return
    where = ''
    mm = m.f if isinstance(m, VP) else m
    if isinstance(mm, VF):
        where = '%s:%s %s' % (mm.fi.file, mm.fi.node.lineno, mm.fi.qual)
    d = dictof(it, sv, st2)
    pairs = []
    if d is None:
        pairs.append(('', it.term(sv, st2), it.term(iv, st1)))
    else:
        for k, v in d.items():
            k = kname(k)
            sp = it.term(v, st2)
            if k == 'return':
                im = it.term(iv, st1)
            else:
                o, n = s.o, k
                if '.' in k:
                    # attribute of an object that the solver holds
                    x, n = k.split('.')
                    o = st1.heap.get(s.o.oid, {}).get(x)
                    o = o if o is None else it.resolve(o, st1)
                a = st1.heap.get(o.oid, {}).get(n) if isinstance(
                    o, VO) else None
                if a is None and '.' in k and isinstance(v, VT) and \
                        v.t is const('UNSPECIFIED'):
                    continue
                if a is None:
                    yield key0 + ':' + k, None, 'attribute not set'
                    continue
                im = it.term(a, st1)
            pairs.append((k, sp, im))
    lits = {}
    for c, v in st1.pc:
        lits[c] = v
    for k, sp, im in pairs:
        if only and k not in only:
            continue
        v, note, w = compare(sp, im, lits=lits, cplx=it.cplx)
        key = key0 + (':' + k if k else '')
        if v == 'eq':
            yield key, True, where
        elif v == 'undecided':
            yield key, None, note + (' | ' + wit(w) if w else '')
        else:
            yield key, False, '%s computes a different value (%s) %s' % (
                where, note, wit(w))


def focus(x, y):
    """the smallest pair of differing sub-terms"""
    while True:
        if x.tag != y.tag:
            return x, y
        if x.tag == 'app' and (x.a[0] != y.a[0] or
                               len(x.a[1]) != len(y.a[1])):
            return x, y
        if x.tag == 'sum':
            px, py = dict(x.a[0]), dict(y.a[0])
            for m in set(px) & set(py):
                if px[m] == py[m]:
                    del px[m], py[m]
            if not px or not py:
                return x, y
            nx, ny = tm._frompoly(px), tm._frompoly(py)
            if nx.tag != 'sum' or ny.tag != 'sum' or len(px) > 1 or \
                    len(py) > 1:
                if nx is x and ny is y:
                    return x, y
                x, y = nx, ny
                continue
            (mx, cx), (my, cy) = list(px.items())[0], list(py.items())[0]
            dx, dy = dict(mx), dict(my)
            for m in set(dx) & set(dy):
                if dx[m] == dy[m]:
                    del dx[m], dy[m]
            if cx == cy and len(dx) == 1 and len(dy) == 1 and \
                    list(dx.values()) == list(dy.values()):
                x, y = list(dx)[0], list(dy)[0]
                continue
            return nx, ny
        cx, cy = list(tm.children(x)), list(tm.children(y))
        if len(cx) != len(cy):
            return x, y
        d = [k for k in range(len(cx)) if cx[k] is not cy[k]]
        if len(d) != 1:
            return x, y
        x, y = cx[d[0]], cy[d[0]]


def wit(w, n=500):
    if not w:
        return ''
    l, x, y = w
    try:
        x, y = focus(x, y)
    except Exception:
        pass
    return 'when {%s}: documented %s, computed %s' % (
        '; '.join('%s is %s' % (tm.show(c)[:80], v) for c, v in
                  list(l.items())[:20]), tm.show(x)[:n], tm.show(y)[:n])
