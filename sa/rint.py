"""Random interpretation of value-graph terms.

Two gated terms whose normal forms differ are told apart by evaluating both
in a randomly chosen finite model: arrays are functions from positions to
numbers, reductions sum over positions, transforms are random linear maps,
uninterpreted functions are random functions of their arguments.  Nothing of
the analysed program is executed; this is identity testing on the terms the
data-flow analysis produced (Gulwani & Necula's random interpretation).
"""

import cmath
import hashlib
import math
from fractions import Fraction

from . import terms as tm
from .terms import T, NONE

N = 2       # positions per reduced axis

# linear maps along some axes: name -> index of the axes argument
LINEAR = {'sporco.fft.rfftn', 'sporco.fft.fftn', 'sporco.fft.irfftn',
          'sporco.fft.ifftn', 'np.fft.fftn', 'np.fft.ifftn', 'np.fft.rfftn',
          'np.fft.irfftn', 'sporco.cnvrep.bcrop', 'sporco.cnvrep.zpad',
          'sporco.signal.grad', 'sporco.signal.gradT', 'np.roll', 'np.pad',
          'np.cumsum', 'np.matmul0', 'sporco.fft.dctii',
          'sporco.fft.idctii', 'sporco.cnvrep.zeromean', 'np.diff',
          'np.flip'}
COMPLEXOUT = {'sporco.fft.rfftn', 'sporco.fft.fftn', 'sporco.fft.ifftn',
              'np.fft.fftn', 'np.fft.ifftn', 'np.fft.rfftn'}
# ring homomorphisms: the result is the argument at another position
SHAPE = {'np.reshape', 'np.transpose', 'np.swapaxes', 'np.moveaxis',
         'np.squeeze', 'np.expand_dims', 'np.ravel', 'np.flatten', 'sub',
         'np.rollaxis', 'np.atleast_1d', 'np.atleast_2d', 'np.atleast_3d',
         'np.view', 'np.broadcast_to', 'item',
         'sporco.array.atleast_nd'}
# arrays that vary with the position
GENARR = {'np.arange', 'np.linspace', 'np.eye', 'np.identity', 'np.mgrid',
          'np.random.rand', 'np.random.randn', 'np.random.uniform',
          'np.random.normal', 'np.meshgrid', 'np.fft.fftfreq'}


class Undef(Exception):
    pass


def h(*xs):
    m = hashlib.blake2b(digest_size=8)
    for x in xs:
        m.update(repr(x).encode())
        m.update(b'|')
    return int.from_bytes(m.digest(), 'big')


def unit(k):
    return (k % (1 << 53)) / float(1 << 53)


def rnd(z):
    """canonical form of a value for hashing"""
    if isinstance(z, bool) or z is None:
        return z
    if isinstance(z, tuple):
        return tuple(rnd(x) for x in z)
    if isinstance(z, (int, float)):
        z = complex(z)
    if isinstance(z, complex):
        a = abs(z)
        if a < 1e-12:
            return 0
        if not math.isfinite(a):
            return 'inf'
        e = 10.0 ** (6 - math.floor(math.log10(a)))
        return (round(z.real * e) / e + 0.0, round(z.imag * e) / e + 0.0)
    return z


class Model(object):
    def __init__(self, seed, scalars=(), positive=(), fixed=None,
                 shapesens=True, scale=None, cplx=None):
        self.seed = seed
        self.cplx = cplx
        self.scale = scale or {}
        self.scalars = scalars
        self.positive = positive
        self.fixed = fixed or {}
        self.shapesens = shapesens
        self.memo = {}
        self.const_ = {}
        self.steps = 0

    # -- does the value depend on the position?
    def positional(self, t):
        r = self.const_.get(t)
        if r is None:
            if t.tag == 's':
                r = not self.isscalar(t.a[0])
            elif t.tag == 'c':
                r = False
            elif t.tag == 'app' and t.a[0] in ('attr', 'isnone', 'truth',
                                               'cri'):
                r = False
            else:
                r = any(self.positional(c) for c in tm.children(t))
                if t.tag == 'u' or t.tag == 'app' and t.a[0] in GENARR:
                    r = True
            self.const_[t] = r
        return r

    def isscalar(self, n):
        if callable(self.scalars):
            return self.scalars(n)
        return n in self.scalars

    def ispos(self, n):
        if callable(self.positive):
            return self.positive(n)
        return n in self.positive

    def num(self, *key):
        k = h(self.seed, *key)
        v = 0.5 + 1.5 * unit(k)
        return -v if (k >> 60) & 1 else v

    def ev(self, t, pos=()):
        if not self.positional(t):
            pos = ()
        key = (t, pos)
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > 200000:
                raise Undef('budget')
            r = self.ev_(t, pos)
            self.memo[key] = r
        return r

    def n(self, t, pos):
        return self.tonum(self.ev(t, pos))

    def tonum(self, v):
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        if isinstance(v, (int, float, complex)):
            return v
        return self.num('tonum', rnd(v))

    def ev_(self, t, pos):
        g = t.tag
        if g == 'c':
            v = t.a[0]
            if isinstance(v, Fraction):
                return float(v)
            if isinstance(v, (bool, int, float, complex)) or v is None:
                return v
            return ('k', repr(v))
        if g == 's':
            n = t.a[0]
            if n in self.fixed:
                return self.fixed[n]
            if n == 'pi':
                return math.pi
            v = self.num('s', n, pos)
            if self.cplx is not None and self.cplx(n):
                v = complex(v, self.num('si', n, pos))
            if self.scale and not self.isscalar(n):
                v = v * self.scale.get(n, self.scale.get(None, 1.0))
            return abs(v) if self.ispos(n) else v
        if g == 'u':
            raise Undef('unknown')
        if g == 'sum':
            r = 0.0
            for m, c in t.a[0]:
                x = float(c)
                for at, e in m:
                    x = x * self.pw(self.n(at, pos), e)
                r = r + x
            return r
        if g == 'tup':
            return ('t',) + tuple(rnd(self.ev(x, pos)) for x in t.a[0])
        if g == 'kw':
            return ('kw', t.a[0], rnd(self.ev(t.a[1], pos)))
        if g == 'ite':
            return self.ev(t.a[1] if self.b(t.a[0], ()) else t.a[2], pos)
        if g in ('not', 'and', 'cmp'):
            return self.b(t, pos)
        if g == 'app':
            return self.app(t, t.a[0], t.a[1], pos)
        return ('o', g) + tuple(
            rnd(self.ev(x, pos)) if isinstance(x, T) else
            tuple(rnd(self.ev(y, pos)) if isinstance(y, T) else repr(y)
                  for y in x) if isinstance(x, tuple) else repr(x)
            for x in t.a)

    def pw(self, x, e):
        if e == 1:
            return x
        if x == 0:
            if e > 0:
                return 0.0
            raise Undef('division by zero')
        if e.denominator == 1:
            return x ** int(e)
        if isinstance(x, complex) or x < 0:
            return cmath.exp(float(e) * cmath.log(x))
        return x ** float(e)

    def b(self, c, pos):
        g = c.tag
        if g == 'c':
            return bool(c.a[0])
        if g == 'not':
            return not self.b(c.a[0], pos)
        if g == 'and':
            return all(self.b(x, pos) for x in c.a[0])
        if g == 'ite':
            return self.b(c.a[1] if self.b(c.a[0], pos) else c.a[2], pos)
        if g == 'cmp':
            op = c.a[0]
            x, y = self.ev(c.a[1], pos), self.ev(c.a[2], pos)
            if op == 'is' or op == 'in':
                if x is None or y is None:
                    if c.a[1].tag == 's' or c.a[2].tag == 's' or \
                            c.a[1].tag == 'app' or c.a[2].tag == 'app':
                        return bool(h(self.seed, 'is', rnd(x), rnd(y)) & 1)
                    return x is y
                return bool(h(self.seed, op, rnd(x), rnd(y)) & 1)
            numeric = all(isinstance(v, (int, float, complex))
                          for v in (x, y))
            if op in ('eq', 'ne'):
                if numeric:
                    r = abs(x - y) <= 1e-9 * (abs(x) + abs(y) + 1e-300)
                elif x == y:
                    r = True
                else:
                    r = bool(h(self.seed, 'eq', *sorted(
                        (repr(rnd(x)), repr(rnd(y))))) & 1)
                return r if op == 'eq' else not r
            x, y = self.tonum(x), self.tonum(y)
            if isinstance(x, complex):
                x = x.real
            if isinstance(y, complex):
                y = y.real
            return {'lt': x < y, 'le': x <= y, 'gt': x > y,
                    'ge': x >= y}[op]
        v = self.ev(c, pos)
        if isinstance(v, bool):
            return v
        return bool(h(self.seed, 'truth', rnd(v)) & 1)

    def setpos(self, pos, ax, j):
        d = dict(pos)
        d[ax] = j
        return tuple(sorted(d.items(), key=repr))

    def axes(self, args, pos, name='axis'):
        ax = None
        kd = None
        for a in args:
            if a.tag == 'kw' and a.a[0] in (name, 'axis', 'axes'):
                ax = rnd(self.ev(a.a[1], ()))
            if a.tag == 'kw' and a.a[0] == 'keepdims':
                kd = rnd(self.ev(a.a[1], ()))
        return ax, kd

    def axkeys(self, ax):
        if isinstance(ax, tuple) and ax and ax[0] == 't':
            return [repr(x) for x in ax[1:]]
        return [repr(ax)]

    def over(self, x, keys, pos):
        """values of x over the positions of the axes in keys"""
        if not self.positional(x):
            return [self.n(x, ())] * (N ** len(keys))
        ps = [pos]
        for k in keys[:3]:
            ps = [self.setpos(p, k, j) for p in ps for j in range(N)]
        return [self.n(x, p) for p in ps]

    def app(self, t, f, args, pos):
        tm.tick()
        if f in ('np.abs',):
            return abs(self.n(args[0], pos))
        if f == 'np.conj':
            v = self.n(args[0], pos)
            return v.conjugate()
        if f == 'np.real':
            v = self.n(args[0], pos)
            return v.real
        if f == 'np.imag':
            v = self.n(args[0], pos)
            return complex(v).imag
        if f == 'np.sign':
            v = self.n(args[0], pos)
            if isinstance(v, complex):
                return v / abs(v) if v else 0.0
            return (v > 0) - (v < 0) + 0.0
        if f == 'np.exp':
            return cmath.exp(self.n(args[0], pos))
        if f == 'np.log':
            return cmath.log(self.n(args[0], pos))
        if f == 'max2':
            return max(self.re(self.n(a, pos)) for a in args)
        if f == 'min2':
            return min(self.re(self.n(a, pos)) for a in args)
        if f == 'select':
            return self.ev(args[1] if self.b(args[0], pos) else args[2],
                           pos)
        if f in ('np.sum', 'np.max', 'np.min', 'np.prod', 'np.mean'):
            ax, kd = self.axes(args[1:], pos)
            if ax is None:
                keys = ["'all'"]
                p = ()
            else:
                keys = self.axkeys(ax)
                p = pos
                if self.shapesens and kd is not True and pos:
                    p = self.setpos(pos, "'drop'", repr(ax))
            vs = self.over(args[0], keys, p)
            if f == 'np.sum':
                return sum(vs)
            if f == 'np.mean':
                return sum(vs) / len(vs)
            if f == 'np.prod':
                r = 1.0
                for v in vs:
                    r = r * v
                return r
            vs = [self.re(v) for v in vs]
            return max(vs) if f == 'np.max' else min(vs)
        if f in LINEAR:
            rest = tuple(rnd(self.ev(a, ())) for a in args[1:])
            key = repr((f, rest))
            vs = self.over(args[0], [key], pos)
            r = 0.0
            for j, v in enumerate(vs):
                w = self.num('lin', key, pos, j)
                if f in COMPLEXOUT:
                    w = complex(w, self.num('lini', key, pos, j))
                r = r + w * v
            if f.endswith('irfftn'):
                r = r.real
            return r
        if f == 'np.dot' or f == 'np.matmul':
            a, b = args[0], args[1]
            r = 0.0
            for j in range(N):
                r = r + self.n(a, self.setpos(pos, "'col'", j)) * \
                    self.n(b, self.setpos(pos, "'row'", j))
            return r
        if f == 'np.concatenate' and args[0].tag == 'tup':
            # the value at a position is that of one of the parts
            ax, kd = self.axes(args[1:], pos)
            parts = args[0].a[0]
            j = h(self.seed, 'cat', repr(ax), len(parts), pos) % len(parts)
            return self.n(parts[j], self.setpos(
                pos, repr(('cat', ax, len(parts))), j))
        if f in SHAPE:
            if f in ('sub', 'item') and args[0].tag in ('tup',):
                pass
            elif not self.shapesens:
                if f not in ('sub', 'item'):
                    return self.ev(args[0], pos)
            rest = tuple(rnd(self.ev(a, ())) for a in args[1:])
            if args[0].tag == 'tup' or not self.positional(args[0]):
                return self.opq(f, args, pos)
            return self.ev(args[0], self.setpos(pos, repr((f, rest)), 0))
        return self.opq(f, args, pos)

    def re(self, v):
        return v.real if isinstance(v, complex) else v

    def opq(self, f, args, pos):
        vs = tuple(rnd(self.ev(a, pos)) for a in args)
        return self.num('app', f if isinstance(f, str) else repr(f), vs,
                        pos)


def close(x, y):
    if isinstance(x, (int, float, complex)) and not isinstance(x, bool) and \
            isinstance(y, (int, float, complex)) and not isinstance(y, bool):
        return abs(x - y) <= 1e-7 * (abs(x) + abs(y) + 1e-9)
    return rnd(x) == rnd(y)


def shapefns(t):
    return frozenset(x.a[0] for x in tm.walk(t)
                     if x.tag == 'app' and x.a[0] in SHAPE or
                     x.tag == 'kw' and x.a[0] == 'keepdims')


def functions(t):
    return set(x.a[0] for x in tm.walk(t) if x.tag == 'app' and
               isinstance(x.a[0], str))


def decide(a, b, lits=(), scalars=(), positive=(), samples=12, vocab=None,
           cplx=None):
    """'eq' | 'ne' | 'undecided' for two terms, with a note"""
    if a is b:
        return 'eq', ''
    if a.unk or b.unk:
        return 'undecided', 'unknown value'
    if vocab is not None:
        fa = (functions(a) ^ functions(b))
        bad = [f for f in fa if f not in vocab]
        if bad:
            return 'undecided', 'function %s not interpreted' % bad[0]
    res = {}
    for sens in (False, True):
        ne = eq = un = 0
        tries = 0
        while ne + eq < samples and tries < samples * 8:
            tries += 1
            m = Model(tries * 7919 + 13, scalars, positive, shapesens=sens,
                      cplx=cplx)
            try:
                if any(m.b(c, ()) != v for c, v in lits):
                    continue
                p = ((("'e'", 0),))
                x, y = m.ev(a, p), m.ev(b, p)
            except (Undef, OverflowError, ZeroDivisionError, TypeError,
                    ValueError, AttributeError):
                un += 1
                continue
            if close(x, y):
                eq += 1
            else:
                ne += 1
        if ne + eq < 3:
            return 'undecided', 'could not sample the path condition'
        res[sens] = 'ne' if ne >= 2 else ('eq' if ne == 0 else 'undecided')
        if res[sens] == 'ne' and not sens:
            return 'ne', '%d of %d samples differ' % (ne, ne + eq)
    if res[True] == 'eq':
        return degenerate(a, b, lits, scalars, positive, cplx)
    if res[True] == 'ne' and shapefns(a) == shapefns(b):
        return 'ne', 'differs in array layout'
    return 'undecided', 'layout'


ERRS = (Undef, OverflowError, ZeroDivisionError, TypeError, ValueError,
        AttributeError)
TINY = 1e-4


def degenerate(a, b, lits, scalars, positive, cplx):
    """compare where arrays vanish or are small: selections guarded by a
    comparison with zero or with a tolerance differ only there"""
    if not any(x.tag in ('cmp', 'app') and (x.tag == 'cmp' or
                                            x.a[0] == 'select')
               for t in (a, b) for x in tm.walk(t)):
        return 'eq', ''
    syms = sorted(set(x.a[0] for t in (a, b) for x in tm.walk(t)
                      if x.tag == 's'))
    for sc in [{None: 0.0}, {None: TINY}] + [{n: 0.0} for n in syms]:
        ne = n = 0
        for seed in range(1, 7):
            m = Model(seed * 104729 + 7, scalars, positive, shapesens=False,
                      scale=sc, cplx=cplx)
            p = ((("'e'", 0),))
            try:
                if any(m.b(c, ()) != v for c, v in lits):
                    continue
                x = m.ev(a, p)
            except ERRS:
                continue
            try:
                y = m.ev(b, p)
            except Undef as e:
                n += 1
                ne += 'division' in str(e)
                continue
            except ERRS:
                continue
            n += 1
            if not isnumber(x) or not isnumber(y):
                ne += rnd(x) != rnd(y)
            else:
                d = abs(x - y)
                ne += d > 1e-2 * (abs(x) + abs(y)) and d > 1e-11
        if ne >= 2 and ne == n:
            return 'ne', 'differs where %s' % (
                'the arrays vanish' if sc == {None: 0.0} else
                'the arrays are small' if None in sc else
                '%s vanishes' % list(sc)[0])
    return 'eq', ''


def isnumber(x):
    return isinstance(x, (int, float, complex)) and not isinstance(x, bool)


def compare(a, b, scalars=(), positive=(), vocab=None, lits=None,
            maxcases=256, cplx=None):
    """Decide equality of two gated terms: normal forms per gate valuation,
    then random interpretation for the cases that differ.
    Returns (verdict, note, (lits, x, y))."""
    if a is b:
        return 'eq', '', None
    undec = None
    try:
        for l, (x, y) in tm.cases([a, b], lits, limit=maxcases):
            if x.tag == 'c' and x.a[0] == 'UNSPECIFIED':
                continue
            if lits and infeasible(lits, l):
                continue
            b = boundary(l)
            if b is None:
                continue
            eqs = {}
            for d in b:
                z = solve(d, tm.ZERO, scalars)
                if z is None:
                    eqs = None
                    break
                eqs[z[0]] = z[1]
            if eqs is None:
                if not tm.eq_atomic(x, y):
                    undec = ('difference at a boundary', (l, x, y))
                continue
            if b:
                l = {c: v for c, v in l.items()
                     if not (c.tag == 'cmp' and c.a[0] in ('lt', 'le') and
                             (c.a[2] in b or tm.neg(c.a[2]) in b))}
            for c, v in l.items():
                if v and c.tag == 'cmp' and c.a[0] in ('eq', 'is'):
                    p, q = c.a[1], c.a[2]
                    if p.tag == 'c':
                        p, q = q, p
                    if q.tag == 'c' and p.tag != 'c':
                        eqs[p] = q
                        z = solve(p, q, scalars)
                        if z is not None and z[0] not in eqs:
                            eqs[z[0]] = z[1]
            if eqs:
                x, y = tm.subst(x, eqs), tm.subst(y, eqs)
            if tm.eq_atomic(x, y):
                continue
            ll = [(tm.subst(c, eqs), v) for c, v in l.items()
                  if not (v and c.tag == 'cmp' and c.a[0] in ('eq', 'is'))]
            ll = [(c, v) for c, v in ll if c.tag != 'c']
            # opaque gates are free choices: only numeric gates constrain
            ll = [(c, v) for c, v in ll if numericgate(c)]
            r, note = decide(x, y, ll, scalars, positive, vocab=vocab,
                             cplx=cplx)
            if r == 'ne':
                return 'ne', note, (l, x, y)
            if r == 'undecided':
                undec = (note, (l, x, y))
    except tm.TooManyCases:
        return 'undecided', 'too many gate cases', None
    if undec:
        return 'undecided', undec[0], undec[1]
    return 'eq', '', None


def boundary(l):
    """terms that vanish under the literals (a comparison and its strict
    variant decided differently); None if they contradict each other"""
    z = []
    for c, v in l.items():
        if c.tag != 'cmp' or c.a[0] not in ('lt', 'le') or \
                c.a[1] is not tm.ZERO:
            continue
        d = c.a[2]
        n = tm.neg(d)
        ge = le = None      # d >= 0, d <= 0
        if c.a[0] == 'lt' and not v:
            le = True
        elif c.a[0] == 'le' and v:
            ge = True
        else:
            # strictly positive or negative
            s = 1 if v else -1
            for op, t, sg in (('lt', d, 1), ('le', d, 1), ('lt', n, -1),
                              ('le', n, -1)):
                w = l.get(tm.mk('cmp', op, tm.ZERO, t))
                if w is not None and w != (s == sg):
                    return None
            continue
        w1, w2 = [l.get(tm.mk('cmp', 'le', tm.ZERO, t)) for t in (d, n)]
        w3, w4 = [l.get(tm.mk('cmp', 'lt', tm.ZERO, t)) for t in (d, n)]
        if w1 is True or w4 is False:
            ge = True
        if w2 is True or w3 is False:
            le = True
        if ge and le and d not in z and n not in z:
            z.append(d)
    return z


def solve(p, q, scalars):
    """(scalar symbol, its value) such that p = q"""
    if p.tag != 'sum':
        return None
    poly = tm._poly(p)
    for m, c in poly.items():
        for f, e in m:
            if not (f.tag == 's' and (
                    scalars(f.a[0]) if callable(scalars)
                    else f.a[0] in scalars) or f.tag == 'sum' or
                    f.tag == 'app' and len(m) == 1 and e == 1):
                continue
            if sum(f in tuple(tm.walk(g)) for m2 in poly
                   for g, _ in m2) != 1:
                continue
            # the other monomials go to the right-hand side
            r = tm.sub(q, tm._frompoly({k: v for k, v in poly.items()
                                        if k != m}))
            if r is tm.ZERO:
                continue
            d = tm._frompoly({tuple(x for x in m if x[0] is not f): c})
            r = tm.power(tm.div(r, d), 1 / e)
            if f.tag != 'sum':
                return f, r
            r = solve(f, r, scalars)
            if r is not None:
                return r
    return None


def infeasible(lits, l):
    """the case contradicts a compound path condition"""
    m = {c: tm.TRUE if v else tm.FALSE for c, v in l.items()}
    for c, v in lits.items():
        if c.tag in ('and', 'or', 'not'):
            r = tm.subst(c, m)
            if r is (tm.FALSE if v else tm.TRUE):
                return True
    return False


def numericgate(c):
    return c.tag == 'cmp' and c.a[0] in ('lt', 'le', 'gt', 'ge', 'eq') or \
        c.tag in ('not', 'and') and any(numericgate(x)
                                        for x in tm.children(c))
