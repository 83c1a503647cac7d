"""C13: array layout of convolutional representations and projection onto
the dictionary constraint set."""
from ..fnspec import *

TABLE = 'cnvrep'
RULE = ('The value graph of the dictionary constraint projection, of each '
        'of its stages and of the layout rules is compared with the '
        'documented formula for every kind of dictionary size.')
R = 'sporco.cnvrep.'
N2 = dict(dimN=2)
FLAT = [(3, 4, 6), (3, 4, 2, 6)]
MULTI = [((3, 4, 6), (5, 7, 2)), ((3, 4, 2, 6), (5, 7, 2, 2)),
         (((3, 4, 1, 6), (5, 5, 2, 6)), ((7, 6, 3, 2),) * 1)]
NEST = (((3, 4, 1, 6), (5, 5, 2, 6)), ((7, 6, 2, 4), (2, 3, 1, 4)))
TRI = ((3, 4, 2), (5, 7, 3), (2, 6, 4))
DSZ = FLAT + MULTI[:2] + [NEST]
NEST3 = (((3, 4, 1, 2), (5, 5, 2, 2), (2, 2, 1, 2)),
         ((7, 6, 2, 4), (2, 3, 1, 4), (3, 3, 1, 4)),
         ((2, 2, 1, 3), (4, 4, 1, 3), (5, 6, 2, 3)))
DSZ3 = DSZ + [TRI, NEST3]


def arr(dsz, n=(16, 17)):
    """the full-size dictionary array in standard layout"""
    if not isinstance(dsz[0], tuple):
        c = dsz[2] if len(dsz) == 4 else 1
        return A(*(n + (c, 1, dsz[-1])))
    if not isinstance(dsz[0][0], tuple):
        c = dsz[0][2] if len(dsz[0]) == 4 else 1
        return A(*(n + (c, 1, sum(d[-1] for d in dsz))))
    return A(*(n + (sum(d[2] for d in dsz[0]), 1,
                    sum(d[0][-1] for d in dsz))))


def cfg(**kw):
    r = [{}]
    for k, vs in kw.items():
        r = [dict(x, **{k: v}) for x in r for v in vs]
    return r


S2 = [A('n0', 'n1'), A('n0', 'n1', 'p'), A('n0', 'n1', 'p', 'q')]
NV = (16, 17)
PC = [dict(x=arr(d), dsz=d, Nv=NV, dimN=2, dimC=c, _real=r)
      for d in DSZ for c in (0, 1) for r in (True, False)]


def cri(S, k, D=A('f0', 'f1', 'm')):
    return New(R + 'CSC_ConvRepIndexing', D=D, S=S, dimK=k, dimN=2)


C3 = A('f0', 'f1', 3, 'm')
CRI = [cri(A('n0', 'n1'), None), cri(A('n0', 'n1', 4), 0),
       cri(A('n0', 'n1', 4), 1), cri(A('n0', 'n1', 4, 5), None),
       cri(A('n0', 'n1', 3), None, C3), cri(A('n0', 'n1', 3, 5), None, C3)]
CK = [((), 'n0', 'n1'), ((4,), 4, 1), ((4,), 1, 4), ((4, 5), 4, 5),
      ((3,), 3, 1), ((3, 5), 3, 5)]
# one and three spatial axes
CRIN = []
for ns in (('n0',), ('n0', 'n1', 'n2')):
    fs = tuple('f%d' % i for i in range(len(ns)))
    for t, k in (((), None), ((4,), 0), ((4,), 1), ((4, 5), None)):
        CRIN.append((ns, t, New(
            R + 'CSC_ConvRepIndexing', D=A(*(fs + ('m',))), S=A(*(ns + t)),
            dimK=k, dimN=len(ns))))
CONF = {
    R + 'DictionarySize': [dict(dsz=d, dimN=2) for d in DSZ3] +
        [dict(dsz=(5, 6), dimN=1), dict(dsz=((5, 6), (3, 4)), dimN=1)],
    R + 'l1Wshape': [
        dict(W=W, cri=c) for c, (t, _, _) in zip(CRI, CK)
        for W in ([A('n0', 'n1'), A('n0', 'n1', *t),
                   A('n0', 'n1', *(t + ('m',))),
                   A('n0', 'n1', 4, 5, 'm')])] + [
        dict(W=A(*w), cri=c) for ns, t, c in CRIN
        for w in (ns, ns + t, ns + t + ('m',), ns + (4, 5, 'm'))],
    R + 'mskWshape': [
        dict(W=W, cri=c) for c, (t, _, _) in zip(CRI, CK)
        for W in ([A('n0', 'n1')] + ([A('n0', 'n1', *t)] if t else []) +
                  [A('n0', 'n1', 1, 1, 1)])] + [
        dict(W=A(*w), cri=c) for ns, t, c in CRIN
        for w in [ns] + ([ns + t] if t else []) + [ns + (1, 1, 1)]],
    R + 'CSC_ConvRepIndexing':
        [dict(D=A('f0', 'f1', 'm'), S=S, dimK=k, dimN=2)
         for S, ks in zip(S2, ((None, 0), (None, 0, 1), (None, 1)))
         for k in ks] +
        [dict(D=A('f0', 'f1', 3, 'm'), S=A('n0', 'n1', 3), dimK=k, dimN=2)
         for k in (None, 0)] +
        [dict(D=A('f0', 'f1', 3, 'm'), S=A('n0', 'n1', 3, 'q'), dimK=k,
              dimN=2) for k in (None, 1)] +
        [dict(D=A('f0', 'm'), S=A('n0'), dimK=None, dimN=1),
         dict(D=A('f0', 'm'), S=A('n0', 'p'), dimK=None, dimN=1),
         dict(D=A('f0', 'f1', 'f2', 'm'), S=A('n0', 'n1', 'n2', 'p'),
              dimK=None, dimN=3)],
    R + 'CDU_ConvRepIndexing':
        [dict(dsz=d, S=S, dimK=k, dimN=2) for d in ((3, 4, 6), MULTI[0], TRI)
         for S, ks in zip(S2, ((None, 0), (None, 0, 1), (None, 1)))
         for k in ks] +
        [dict(dsz=d, S=A('n0', 'n1', c, 'q'), dimK=k, dimN=2)
         for d, c in ((FLAT[1], 2), (MULTI[1], 2), (NEST, 3), (NEST3, 4))
         for k in (None, 1)] +
        [dict(dsz=(5, 6), S=A('n0', 'p'), dimK=None, dimN=1)],
    R + 'stdformD': [dict(D=A('f0', 'f1', 'm'), Cd=1, M='$m', dimN=2),
                     dict(D=A('f0', 'f1', 'c', 'm'), Cd='$c', M='$m',
                          dimN=2)],
    R + 'zeromean': [dict(v=arr(d), dsz=d, dimN=2) for d in DSZ3] +
        [dict(v=A(16, 1, 1, 6), dsz=(5, 6), dimN=1)],
    R + 'normalise': cfg(v=(A(3, 4, 1, 1, 5),), dimN=(1, 2, 3),
                         _real=(True, False)),
    R + 'zpad': [dict(v=A(3, 4, 1, 1, 5), Nv=NV),
                 dict(v=A(3, 1, 1, 5), Nv=(16,))],
    R + 'bcrop': [dict(v=arr(d), dsz=d, dimN=2) for d in DSZ3],
    R + 'Pcn': [dict(c, crp=a, zm=b) for c in PC
                for a in (True, False) for b in (True, False)],
    R + '_Pcn': PC, R + '_Pcn_zm': PC, R + '_Pcn_crp': PC,
    R + '_Pcn_zm_crp': PC,
    R + 'getPcn': [dict({k: v for k, v in c.items() if k != 'x'},
                        crp=a, zm=b, _apply=c['x'])
                   for c in PC for a in (True, False)
                   for b in (True, False)],
}


def run(rep):
    rep.rule = RULE
    run_conf(rep, jobs('c13', TABLE, CONF), 100)
