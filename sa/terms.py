"""Hash-consed value terms with an algebraic normal form.

A term describes *what value* an expression computes, independently of how the
source spells it: sums and products are polynomials over atoms, conditionals
are gated (``ite``) terms and function applications are uninterpreted unless a
model rewrites them.  Equality of normal forms is identity of Python objects.
"""
import time
from fractions import Fraction


class AnalysisError(Exception):
    pass


class OutOfTime(AnalysisError):
    pass


# time limits: of the whole run, and of the obligation being decided
END = [None]
LIMIT = [None]
_ticks = [0]


def tick():
    _ticks[0] += 1
    if _ticks[0] & 1023 == 0:
        now = time.time()
        if END[0] is not None and now > END[0] or \
                LIMIT[0] is not None and now > LIMIT[0]:
            raise OutOfTime('time limit')


class T(object):
    __slots__ = ('tag', 'a', 'id', 'unk', '__weakref__')

    def __init__(self, tag, a, id):
        self.tag = tag
        self.a = a
        self.id = id

    def __repr__(self):
        return show(self)


_table = {}


def _has_unk(x):
    if isinstance(x, T):
        return x.unk
    if isinstance(x, tuple):
        return any(_has_unk(y) for y in x)
    return False


def mk(tag, *a):
    key = (tag, a)
    # distinguish True/1, 1/1.0 inside constants by type name
    if tag == 'c':
        key = (tag, a, type(a[0]).__name__)
    t = _table.get(key)
    if t is None:
        t = T(tag, a, len(_table))
        t.unk = (tag == 'u') or any(_has_unk(x) for x in a)
        _table[key] = t
    return t


_ucount = [0]


def unknown(note=''):
    _ucount[0] += 1
    return mk('u', _ucount[0], note)


def const(v):
    if isinstance(v, bool) or v is None or v is Ellipsis:
        return mk('c', v)
    if isinstance(v, int):
        return mk('c', Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('app', 'const', (mk('c', repr(v)),))
        return mk('c', Fraction(repr(v)))
    if isinstance(v, Fraction):
        return mk('c', v)
    if isinstance(v, complex):
        if v.imag == 0:
            return const(v.real)
        if v.real == 0:
            return mul(const(v.imag), mk('s', '1j'))
        return add(const(v.real), mul(const(v.imag), mk('s', '1j')))
    return mk('c', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def sym(name):
    return mk('s', name)


def app(f, *args):
    return mk('app', f, tuple(args))


def kw(name, t):
    return mk('kw', name, t)


def tup(items):
    return mk('tup', tuple(items))


def isconst(t):
    return t.tag == 'c'


def isnum(t):
    return t.tag == 'c' and isinstance(t.a[0], Fraction)


# ---------------------------------------------------------------- polynomials
# sum: mk('sum', ((mono, coef), ...)), mono = ((atom, exp), ...) sorted by id

MAXTERMS = 400


def _poly(t):
    if isnum(t):
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.tag == 'c' and isinstance(t.a[0], bool):
        return {(): Fraction(int(t.a[0]))} if t.a[0] else {}
    if t.tag == 'sum':
        return dict(t.a[0])
    return {((t, Fraction(1)),): Fraction(1)}


def _frompoly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return mk('c', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(p.items(),
                   key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk('sum', tuple(items))


def add(*ts):
    p = {}
    for t in ts:
        for m, c in _poly(t).items():
            p[m] = p.get(m, 0) + c
    return _frompoly(p)


def neg(t):
    return mul(const(-1), t)


def sub(a, b):
    return add(a, neg(b))


def _monomul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    d = {a: e for a, e in d.items() if e != 0}
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def _mul2(a, b):
    tick()
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > MAXTERMS:
        return mk('app', 'mul', tuple(sorted((a, b), key=lambda t: t.id)))
    p = {}
    extra = []
    # (x * s**-n) * s  ->  x * s**(1-n) without expanding s
    for x, px, y in ((a, pa, b), (b, pb, a)):
        if y.tag == 'sum' and len(y.a[0]) > 1:
            c0 = y.a[0][0][1]
            y1 = y if c0 == 1 else _frompoly(
                {m: c / c0 for m, c in y.a[0]})
            hit = {m: c for m, c in px.items()
                   if any(at is y1 and e < 0 for at, e in m)}
            if hit:
                done = _frompoly({_monomul(m, ((y1, Fraction(1)),)): c * c0
                                  for m, c in hit.items()})
                rest = {m: c for m, c in px.items() if m not in hit}
                if not rest:
                    return done
                return add(done, _mul2(_frompoly(rest), y))
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _monomul(m1, m2)
            # a sum atom raised to power 1 must be re-expanded
            if any(at.tag == 'sum' and e == 1 for at, e in m):
                r = mk('c', c1 * c2)
                rest = tuple((at, e) for at, e in m
                             if not (at.tag == 'sum' and e == 1))
                r = _mul2(r, _frompoly({rest: Fraction(1)}))
                for at, e in m:
                    if at.tag == 'sum' and e == 1:
                        r = _mul2(r, at)
                extra.append(r)
            else:
                p[m] = p.get(m, 0) + c1 * c2
    r = _frompoly(p)
    return add(r, *extra) if extra else r


def mul(*ts):
    r = ONE
    for t in ts:
        r = _mul2(r, t)
    return r


def power(t, e):
    """t ** e with e a Fraction."""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if isnum(t):
        v = t.a[0]
        if e.denominator == 1:
            if v != 0:
                return mk('c', v ** int(e))
            if e > 0:
                return ZERO
        else:
            # exact roots only
            if v >= 0 and e.denominator == 2 and e.numerator == 1:
                import math
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return mk('c', Fraction(n, d))
    if t.tag == 'sum':
        items = t.a[0]
        if len(items) == 1:
            m, c = items[0]
            if e.denominator == 1:
                mono = tuple((a, x * e) for a, x in m)
                r = _frompoly({mono: c ** int(e) if c != 0 else c})
                return r
            # fractional power of a product: only pull out positive constants
            if c > 0 and c != 1:
                return mul(power(mk('c', c), e),
                           power(_frompoly({m: Fraction(1)}), e))
            if len(m) == 1 and m[0][1].denominator == 1 and c == 1 and \
                    m[0][0].tag == 'app' and m[0][0].a[0] in NONNEG:
                return _frompoly({((m[0][0], m[0][1] * e),): Fraction(1)})
            if len(m) == 1 and c == 1 and m[0][1].denominator > 1:
                return _frompoly({((m[0][0], m[0][1] * e),): Fraction(1)})
            return _frompoly({((t, e),): Fraction(1)})
        if e.denominator == 1 and 0 < e <= 4:
            r = t
            for _ in range(int(e) - 1):
                r = mul(r, t)
            return r
        # normalise leading coefficient so (2a+2b)**-1 == (a+b)**-1 / 2
        c0 = items[0][1]
        if c0 != 1 and (e.denominator == 1):
            t2 = mul(mk('c', 1 / c0), t)
            return mul(mk('c', c0 ** int(e)), power(t2, e))
        return _frompoly({((t, e),): Fraction(1)})
    if t.tag == 'ite':
        return ite(t.a[0], power(t.a[1], e), power(t.a[2], e))
    return _frompoly({((t, e),): Fraction(1)})


NONNEG = {'np.abs'}


def div(a, b):
    if isnum(b) and b.a[0] == 0:
        return app('div', a, b)
    return mul(a, power(b, -1))


# ---------------------------------------------------------------- booleans

def not_(c):
    if c.tag == 'c':
        return const(not c.a[0])
    if c.tag == 'not':
        return c.a[0]
    if c.tag == 'ite':
        return ite(c.a[0], not_(c.a[1]), not_(c.a[2]))
    return mk('not', c)


def and_(*cs):
    s = set()
    for c in cs:
        if c.tag == 'and':
            s |= set(c.a[0])
        elif c is TRUE:
            continue
        elif c is FALSE:
            return FALSE
        else:
            s.add(c)
    for c in s:
        if not_(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s.pop()
    return mk('and', tuple(sorted(s, key=lambda t: t.id)))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


# attributes that count something: at least 1
COUNTS = {'Cd', 'C', 'Cx', 'K', 'M', 'dimN'}


def cmp_(op, a, b):
    """op in lt, le, eq, is, in"""
    if op in ('gt', 'ge'):
        a, b = b, a
        op = {'gt': 'lt', 'ge': 'le'}[op]
    if op == 'ne':
        return not_(cmp_('eq', a, b))
    if a.tag == 'ite' and b.tag == 'c' and a.a[1].tag == 'c':
        return ite(a.a[0], cmp_(op, a.a[1], b), cmp_(op, a.a[2], b))
    if isnum(a) and isnum(b):
        x, y = a.a[0], b.a[0]
        return const({'lt': x < y, 'le': x <= y, 'eq': x == y,
                      'is': x == y}.get(op, False)) if op != 'in' else \
            mk('cmp', op, a, b)
    if op in ('eq', 'is'):
        if a is b:
            return TRUE
        if a.tag == 'c' and b.tag == 'c':
            return const(a.a[0] == b.a[0] and
                         type(a.a[0]) is type(b.a[0]))
        if op == 'eq' and not (a.tag == 'c' or b.tag == 'c'):
            d = sub(a, b)
            if isnum(d):
                return const(d.a[0] == 0)
        if op == 'eq' and 'tup' in (a.tag, b.tag):
            x, y = [t.a[0] if t.tag == 'tup' else
                    tuple(const(v) for v in t.a[0]) if t.tag == 'c' and
                    isinstance(t.a[0], tuple) else None for t in (a, b)]
            if x is not None and y is not None:
                if len(x) != len(y):
                    return FALSE
                return and_(*[cmp_('eq', v, w) for v, w in zip(x, y)])
        if a.tag in ('sum', 'tup') and (b is NONE):
            return FALSE
        if b.tag in ('sum', 'tup') and (a is NONE):
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return mk('cmp', op, a, b)
    if op in ('lt', 'le'):
        # normalise a < b  to  0 < b - a when both are polynomials
        if a.tag == 'c' and isnum(a) or b.tag == 'c' and isnum(b) or \
                a.tag == 'sum' or b.tag == 'sum' or \
                a.tag == 'app' and a.a[0] == 'res' or \
                b.tag == 'app' and b.a[0] == 'res':
            d = sub(b, a)
            if isnum(d):
                return const(d.a[0] > 0 if op == 'lt' else d.a[0] >= 0)
            # positive integers: n > 1, n >= 2  <=>  n != 1
            n, other = (b, a) if isnum(a) else (a, b)
            if isnum(other) and n.tag == 'app' and n.a[0] == 'attr' and \
                    n.a[1][1].a[0] in COUNTS:
                x = other.a[0]
                if n is b:
                    lo = x + 1 if op == 'lt' else x     # n >= lo
                    if lo <= 1:
                        return TRUE
                    if lo == 2:
                        return not_(cmp_('eq', n, ONE))
                else:
                    hi = x - 1 if op == 'lt' else x     # n <= hi
                    if hi < 1:
                        return FALSE
                    if hi == 1:
                        return cmp_('eq', n, ONE)
            # the same for a sum of such a count and a constant
            if a.tag == 'sum' or b.tag == 'sum':
                p = _poly(d)
                ms = [m for m in p if m]
                if len(ms) == 1 and abs(p[ms[0]]) == 1 and \
                        len(ms[0]) == 1 and ms[0][0][1] == 1:
                    n = ms[0][0][0]
                    if n.tag == 'app' and n.a[0] == 'attr' and \
                            n.a[1][1].a[0] in COUNTS:
                        k = mk('c', -p.get((), 0) * p[ms[0]])
                        return cmp_(op, k, n) if p[ms[0]] > 0 else \
                            cmp_(op, n, k)
            # scale by leading |coef|
            if d.tag == 'sum':
                c0 = abs(d.a[0][0][1])
                if c0 != 1:
                    d = mul(mk('c', 1 / c0), d)
            return mk('cmp', op, ZERO, d)
    return mk('cmp', op, a, b)


def isnone(t):
    return cmp_('is', t, NONE)


BOOLT = ('cmp', 'not', 'and')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.tag == 'not':
        return ite(c.a[0], b, a)
    if c.tag == 'ite':
        pass
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    # boolean gates
    if a is TRUE and b.tag in BOOLT:
        return not_(and_(not_(c), not_(b)))
    if a is FALSE and b.tag in BOOLT:
        return and_(not_(c), b)
    if b is TRUE and a.tag in BOOLT:
        return not_(and_(c, not_(a)))
    if b is FALSE and a.tag in BOOLT:
        return and_(c, a)
    # shallow redundancy
    if a.tag == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.tag == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


# ---------------------------------------------------------------- traversal

def rebuild(t, f):
    """Rebuild t with f applied to each child term (via smart constructors)."""
    tick()
    g = t.tag
    if g in ('c', 's', 'u'):
        return t
    if g == 'sum':
        r = []
        for m, c in t.a[0]:
            x = mk('c', c)
            for at, e in m:
                x = mul(x, power(f(at), e))
            r.append(x)
        return add(*r)
    if g == 'app':
        return reapp(t.a[0], tuple(f(x) for x in t.a[1]))
    if g == 'kw':
        return kw(t.a[0], f(t.a[1]))
    if g == 'tup':
        return tup(f(x) for x in t.a[0])
    if g == 'ite':
        return ite(f(t.a[0]), f(t.a[1]), f(t.a[2]))
    if g == 'not':
        return not_(f(t.a[0]))
    if g == 'and':
        return and_(*[f(x) for x in t.a[0]])
    if g == 'cmp':
        return cmp_(t.a[0], f(t.a[1]), f(t.a[2]))
    return mk(g, *[f(x) if isinstance(x, T) else
                   (tuple(f(y) if isinstance(y, T) else y for y in x)
                    if isinstance(x, tuple) else x) for x in t.a])


# simplifiers for applications, registered by models: name -> f(args)->T
SIMP = {}


def reapp(f, args):
    s = SIMP.get(f)
    if s is not None:
        return s(*args)
    return mk('app', f, tuple(args))


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is None:
        r = rebuild(t, lambda x: subst(x, m, memo))
        r = m.get(r, r)
        memo[t] = r
    return r


def children(t):
    g = t.tag
    if g in ('c', 's', 'u'):
        return ()
    if g == 'sum':
        return tuple(at for m, c in t.a[0] for at, e in m)
    out = []
    for x in t.a:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            out.extend(y for y in x if isinstance(y, T))
    return tuple(out)


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


_size = {}


def size(t):
    """tree size (memoised, saturating)"""
    r = _size.get(t)
    if r is None:
        r = 1
        for c in children(t):
            r += size(c)
            if r > 100000:
                break
        _size[t] = r
    return r


def conds(t):
    """atomic gate conditions occurring in ite nodes of t"""
    r = []
    for x in walk(t):
        if x.tag == 'ite':
            for y in atoms_of_cond(x.a[0]):
                if y not in r:
                    r.append(y)
    return r


def atoms_of_cond(c):
    if c.tag == 'not':
        return atoms_of_cond(c.a[0])
    if c.tag == 'and':
        r = []
        for x in c.a[0]:
            r += atoms_of_cond(x)
        return r
    if c.tag == 'ite':
        return atoms_of_cond(c.a[0]) + atoms_of_cond(c.a[1]) + \
            atoms_of_cond(c.a[2])
    if c.tag == 'c':
        return []
    return [c]


def assume(t, lits):
    """cofactor t by {cond: bool}"""
    if not lits:
        return t
    return subst(t, {c: (TRUE if v else FALSE) for c, v in lits.items()})


def cases(ts, lits=None, limit=4096):
    """Enumerate gate valuations making every term of ts ite-free.
    Yields (lits, [terms])."""
    lits = dict(lits or {})
    n = [0]

    def rec(ts, lits):
        c = None
        for t in ts:
            cs = conds(t)
            if cs:
                # innermost conditions first: pick one without nested gates
                cs.sort(key=lambda x: x.id)
                c = next((x for x in cs if not conds(x)), cs[0])
                break
        if c is None:
            n[0] += 1
            if n[0] > limit:
                raise TooManyCases()
            yield lits, ts
            return
        for v in (lits[c],) if c in lits else (True, False):
            # (a condition decided before may reappear by simplification)
            l2 = dict(lits)
            l2[c] = v
            if not consistent(l2):
                continue
            m = {c: TRUE if v else FALSE}
            for r in rec([subst(t, m) for t in ts], l2):
                yield r
    for r in rec(list(ts), lits):
        yield r


class TooManyCases(Exception):
    pass


def consistent(lits):
    """cheap theory check on a conjunction of literals"""
    eqs = {}
    for c, v in lits.items():
        if c.tag == 'cmp' and c.a[0] in ('eq', 'is') and v:
            x, y = c.a[1], c.a[2]
            if x.tag == 'c':
                x, y = y, x
            if y.tag == 'c':
                if x in eqs and eqs[x] is not y:
                    return False
                eqs[x] = y
    if eqs:
        for c, v in lits.items():
            if c.tag == 'cmp' and c.a[0] in ('eq', 'is') and v:
                continue
            d = subst(c, eqs)
            if d is TRUE and not v or d is FALSE and v:
                return False
    return True


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    g = t.tag
    if depth > 14:
        return '...'
    d = depth + 1
    if g == 'c':
        v = t.a[0]
        if isinstance(v, Fraction):
            return str(v)
        return repr(v)
    if g == 's':
        return str(t.a[0])
    if g == 'u':
        return '?%s' % (t.a[1] or t.a[0])
    if g == 'sum':
        r = []
        for m, c in t.a[0]:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for at, e in m:
                s = show(at, d)
                if at.tag == 'sum' or e != 1 and at.tag == 'ite':
                    s = '(' + s + ')'
                if e != 1:
                    s += '**%s' % (e if e.denominator == 1 and e > 0 else
                                   '(%s)' % e)
                f.append(s)
            r.append('*'.join(f))
        return ' + '.join(r)
    if g == 'app':
        f = t.a[0]
        if f == 'attr' and len(t.a[1]) == 2 and t.a[1][1].tag == 'c':
            return '%s.%s' % (show(t.a[1][0], d), t.a[1][1].a[0])
        if isinstance(f, str) and f.endswith('_ConvRepIndexing'):
            return 'cri'
        if isinstance(f, str) and f.startswith('sporco.'):
            f = f.split('.', 1)[1]
        return '%s(%s)' % (f if isinstance(f, str) else show(f, d),
                           ', '.join(show(x, d) for x in t.a[1]))
    if g == 'kw':
        return '%s=%s' % (t.a[0], show(t.a[1], d))
    if g == 'tup':
        return '(%s)' % ', '.join(show(x, d) for x in t.a[0])
    if g == 'ite':
        return '[%s ? %s : %s]' % tuple(show(x, d) for x in t.a)
    if g == 'not':
        return '!(%s)' % show(t.a[0], d)
    if g == 'and':
        return '(%s)' % ' & '.join(show(x, d) for x in t.a[0])
    if g == 'cmp':
        return '(%s %s %s)' % (show(t.a[1], d), t.a[0], show(t.a[2], d))
    return '%s<%s>' % (g, ', '.join(
        show(x, d) if isinstance(x, T) else str(x) for x in t.a))


# ---------------------------------------------------------------- equality

def _denoms(t):
    r = {}
    for m, c in _poly(t).items():
        for at, e in m:
            if e < 0 and e.denominator == 1:
                r[at] = max(r.get(at, 0), -e)
    return r


def eq_atomic(a, b):
    """ite-free equality of normal forms, clearing denominators."""
    if a is b:
        return True
    if a.tag == 'tup' and b.tag == 'tup':
        return len(a.a[0]) == len(b.a[0]) and \
            all(eq_atomic(x, y) for x, y in zip(a.a[0], b.a[0]))
    d = sub(a, b)
    for _ in range(4):
        if d is ZERO:
            return True
        den = _denoms(d)
        if not den:
            break
        p = _poly(d)
        r = []
        for m, c in p.items():
            dm = dict(m)
            x = mk('c', c)
            for at, e in m:
                k = e + den.get(at, 0)
                x = mul(x, power(at, k))
            for at, e in den.items():
                if at not in dm:
                    x = mul(x, power(at, e))
            r.append(x)
        d = add(*r)
    return d is ZERO


EQ, NE, UNDEC = 'eq', 'ne', 'undecided'


def compare(a, b, lits=None, known=None):
    """Compare two gated terms.  Returns (verdict, witness literals)."""
    try:
        undec = None
        if lits:
            a, b = assume(a, lits), assume(b, lits)
        for l, (x, y) in cases([a, b], lits):
            if eq_atomic(x, y):
                continue
            if x.unk or y.unk or (known is not None and
                                  not (known(x) and known(y))):
                undec = (l, x, y)
                continue
            return NE, (l, x, y)
        if undec:
            return UNDEC, undec
        return EQ, None
    except TooManyCases:
        return UNDEC, None
