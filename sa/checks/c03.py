"""C03: calls follow the documented signatures."""
import ast
from ..lib import *
from ..terms import NONE
from ..interp import VF, VB
from ..specs.signatures import CALLS

RULE = ('For each documented public function and class constructor, the '
        'function object that the public name resolves to after evaluation '
        'of the module (decorators and metaclasses included) is compared '
        'with the documented call: each documented parameter is accepted by '
        'name, positional parameters come in the documented order, '
        'documented optional parameters may be omitted, and the value bound '
        'to an omitted parameter is the documented default.')


def parse(form):
    """documented parameters: (name, optional, default expression or None)"""
    out = []
    for t in split(form):
        n, q, d = t.partition('=')
        out.append((n.rstrip('?'), bool(q) or n.endswith('?'),
                    ast.parse(d, mode='eval').body if q else None))
    return out


def split(form):
    res, d, q = [], 0, ''
    cur = ''
    for ch in form:
        if ch in '([':
            d += 1
        elif ch in ')]':
            d -= 1
        elif ch == "'":
            q = '' if q else "'"
        if ch == ' ' and not d and not q:
            if cur:
                res.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        res.append(cur)
    return res


def find(it, st, name):
    """function object of a public name, as (VF, bound)"""
    parts = name.split('.')
    heap = it.static.heap
    for n in range(len(parts) - 1, 0, -1):
        nsid = 'mod:sporco.' + '.'.join(parts[:n])
        if nsid in heap:
            break
    else:
        return None, 0
    rest = parts[n:]
    v = heap[nsid].get(rest[0])
    for k in rest[1:]:
        ci = getattr(v, 'ci', None)
        if ci is None:
            return None, 0
        v = it.lookup(ci, k, st)
    bound = len(rest) > 1
    while isinstance(v, VB):
        v, bound = v.f, True
    return v, int(bound)


def fallback(fi, p):
    """the body may give a value to an omitted parameter"""
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Name) and n.id == p and \
                isinstance(n.ctx, ast.Store):
            return True
        if isinstance(n, (ast.IfExp, ast.BoolOp)) and any(
                isinstance(m, ast.Name) and m.id == p for m in ast.walk(n)):
            return True
        if isinstance(n, ast.Call) and any(
                isinstance(m, ast.Name) and m.id == p
                for a in list(n.args) + [k.value for k in n.keywords]
                for m in ast.walk(a)):
            return True
    return False


def check(it, st, name, form):
    out = []
    v, bound = find(it, st, name)
    if not isinstance(v, VF):
        return [('%s: function' % name, None, 'not a function known here')]
    fi = v.fi
    where = '%s:%d (%s)' % (fi.mod.name.replace('.', '/') + '.py',
                            fi.node.lineno, fi.qual)
    params = fi.params[bound:]
    off = bound
    docs = parse(form)
    nd = len(v.defaults)
    pos = 0
    for p, opt, d in docs:
        key = '%s(%s)' % (name, p)
        if p in params:
            i = params.index(p)
            if i != pos:
                out.append((key + ': position', False, '%s: documented '
                            'parameter %s is number %d of the documentation '
                            'and number %d of the call' % (where, p, pos + 1,
                                                           i + 1)))
            else:
                out.append((key + ': position', True, ''))
            j = i + off - (len(fi.params) - nd)
            dv = v.defaults[j] if j >= 0 else None
        elif p in fi.kwonly:
            out.append((key + ': position', False if pos < len(
                params) or not fi.vararg else None,
                '%s: documented parameter %s is not accepted by position'
                % (where, p)))
            dv = v.kwdefaults.get(p)
        else:
            out.append((key + ': name', None if fi.kwarg or fi.vararg else
                        False, '%s: documented parameter %s is not accepted'
                        % (where, p)))
            pos += 1
            continue
        pos += 1
        if not opt:
            continue
        if dv is None:
            out.append((key + ': optional', False, '%s: documented optional '
                        'parameter %s is required' % (where, p)))
            continue
        if d is None:
            out.append((key + ': optional', True, ''))
            continue
        a, b = it.term(dv, st), it.term(it.ev(d, st), st)
        if a is b or a == b:
            r = True
        else:
            r = None if a == NONE and fallback(fi, p) else False
        out.append((key + ': default', r, '%s: default of %s is %s, '
                    'documented %s' % (where, p, str(a)[:60], ast.unparse(d))))
    # parameters that are not documented may not be required
    names = [e[0] for e in docs]
    for i, p in enumerate(params):
        if p not in names and i < len(params) - nd:
            out.append(('%s: %s' % (name, p), False, '%s: parameter %s is '
                        'required and not documented' % (where, p)))
    return out


def run(rep):
    rep.rule = RULE
    it = program()
    st = it.static.copy() if hasattr(it.static, 'copy') else it.static
    for name in sorted(CALLS):
        rep.count('calls')
        for k, v, t in check(it, st, name, CALLS[name]):
            rep.count('obligations')
            rep.inst(k, v, t)
    rep.floor('calls', 250)
    rep.floor('obligations', 700)
