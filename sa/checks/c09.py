"""C09: arrays supplied by the caller are never modified."""
from ..lib import *
from ..lib import Pool
from . import c06
from .. import api

RULE = ('Alias analysis: every array handed over by the caller (constructor '
        'and method arguments, array-valued options) is a tracked memory '
        'cell; views, numpy conversions that need not copy, attributes, '
        'conditional values and loop-carried values keep the set of cells '
        'they may share memory with.  Obligation per in-place operation '
        '(augmented assignment, item or slice assignment, out= argument, '
        'mutating method) reached in a constructor, iteration loop, public '
        'method or module function: the target shares no memory with a '
        'supplied array.')
# scalars with names used for arrays elsewhere
SCALARS = {'Whn', 'axisM', 'axisK', 'axis', 'axes', 'n', 'N', 'k', 'shift'}
# documented to be updated in place, as in mpi buffers or output arguments
OUTPUTS = {'out'}


class Record(object):
    def mutate(self, it, st, cell, node, how):
        fi = it.stack[-1] if it.stack else None
        where = '%s:%s %s' % (getattr(fi, 'file', '?'),
                              getattr(node, 'lineno', '?'),
                              getattr(fi, 'qual', '?'))
        self.ops.add((where, how))
        for kind, name in it.origins(VA(cell)):
            if kind in ('param', 'option') and name not in SCALARS and \
                    name not in OUTPUTS:
                self.hits.add((kind, name, where, how))


class HS(Record, c06.H):
    def __init__(self):
        c06.H.__init__(self)
        self.ops, self.hits = set(), set()


class HF(Record, Hooks):
    def __init__(self):
        self.ops, self.hits = set(), set()


def work(j):
    if j[0] == 'fn':
        return j, function(j[1], j[2])
    h = HS()
    r = c06.analyse(j, h)
    return j, (sorted(h.ops), sorted(h.hits), '__init__' not in r['dead'])


def function(ns, name):
    h = HF()
    it = make(h, inline=lambda fi: True, opaque_classes=())
    st = fresh_static()
    f = program().static.heap[ns][name]
    ok = True
    try:
        it.inlinecall(f, [it.symarr(st, p) for p in f.fi.params], {}, st,
                      None)
    except Dead:
        ok = False
    return sorted(h.ops), sorted(h.hits), ok


def functions():
    for ns, h in program().static.heap.items():
        if ns.startswith('mod:sporco') and not any(
                x in ns for x in ('cuda', 'plot', 'cupy')):
            for name, f in h.items():
                if isinstance(f, VF) and f.fi.mod.nsid == ns and \
                        f.fi.qual in api.PUBLIC:
                    yield 'fn', ns, name


def run(rep):
    rep.rule = RULE
    js = c06.jobs()
    js.sort(key=lambda j: '.dictlrn.' not in j[0])
    js += sorted(functions())
    with Pool(8) as p:
        for j, (ops, hits, ok) in p.imap_unordered(work, js):
            if j[0] == 'fn':
                key = '%s.%s' % (j[1][4:], j[2])
                rep.count('functions')
            else:
                q, mode, real, xd = j
                key = '%s opt=%s %s%s' % (
                    q, mode, 'real' if real else 'complex',
                    ' %s/%s' % xd if xd else '')
                rep.count('solver configurations')
            rep.count('in-place operations', len(ops))
            bad = {}
            for kind, name, where, how in hits:
                bad.setdefault((kind, name), []).append('%s (%s)' % (
                    where, how))
            for kn, ws in bad.items():
                rep.inst('%s: %s %s' % ((key,) + kn), False,
                         'modified in place: ' + '; '.join(ws[:4]))
            rep.inst(key, (True if ok else None) if not bad else True,
                     '%d in-place operations' % len(ops))
    rep.floor('solver configurations', 100)
    rep.floor('functions', 60)
    rep.floor('in-place operations', 300)
