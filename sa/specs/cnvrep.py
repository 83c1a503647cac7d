"""Reference formulas of the array layout rules of convolutional
representations and of the dictionary constraint projection.  Two spatial
dimensions, unless the sizes say otherwise."""
import numpy as np


def spec_index(dimCd, Cd, M, S, dimK, dimN):
    r = S.ndim - dimN
    if dimK is not None:
        k = dimK
        c = r - k
    elif r == 1:
        c = dimCd
        k = r - c
    elif r == 0:
        c = 0
        k = 0
    else:
        c = 1
        k = 1
    C = S.shape[dimN] if c == 1 else 1
    K = S.shape[dimN + c] if k == 1 else 1
    Nv = S.shape[0:dimN]
    N = 1
    for n in Nv:
        N = N * n
    return {'dimCd': dimCd, 'Cd': Cd, 'M': M, 'dimN': dimN, 'dimC': c,
            'dimK': k, 'C': C, 'K': K, 'Nv': Nv, 'N': N,
            'axisN': tuple(range(dimN)), 'axisC': dimN, 'axisK': dimN + 1,
            'axisM': dimN + 2, 'shpS': Nv + (C, K, 1),
            'shpX': Nv + (C - Cd + 1, K, M)}


def fltslc(sz, dimN):
    return tuple([slice(0, n) for n in sz[0:dimN]])


def each(dsz, dimN):
    """index of each block of the full dictionary array"""
    r = []
    m0 = 0
    for b in dsz:
        if isinstance(b[0], tuple):
            c0 = 0
            for c in b:
                r.append(fltslc(c, dimN) + (slice(c0, c0 + c[-2]), Ellipsis,
                                            slice(m0, m0 + c[-1])))
                c0 = c0 + c[-2]
            m0 = m0 + b[0][-1]
        else:
            if len(b) > dimN + 1:
                r.append(fltslc(b, dimN) + (slice(0, b[-2]), Ellipsis,
                                            slice(m0, m0 + b[-1])))
            else:
                r.append(fltslc(b, dimN) + (Ellipsis, slice(m0, m0 + b[-1])))
            m0 = m0 + b[-1]
    return r


def leaves(dsz):
    r = []
    for b in dsz:
        if isinstance(b[0], tuple):
            for c in b:
                r.append(c)
        else:
            r.append(b)
    return r


def crop(v, dsz, dimN):
    if not isinstance(dsz[0], tuple):
        return v[fltslc(dsz, dimN)]
    mx = tuple([max([c[i] for c in leaves(dsz)]) for i in range(dimN)])
    r = np.zeros(mx + v.shape[dimN:])
    for b in each(dsz, dimN):
        r[b] = v[b]
    return r


def zmean(v, dsz, dimN):
    r = v.copy()
    ax = tuple(range(dimN))
    if not isinstance(dsz[0], tuple):
        s = fltslc(dsz, dimN)
        r[s] = v[s] - np.mean(v[s], axis=ax)
        return r
    for b in each(dsz, dimN):
        r[b] = v[b] - np.mean(v[b], axis=ax)
    return r


def unit(v, n):
    s = np.sqrt(np.sum(np.abs(v)**2, axis=tuple(range(n)), keepdims=True))
    return v / np.where(s == 0, 1.0, s)


def pad(v, Nv):
    r = np.zeros(Nv + v.shape[len(Nv):])
    r[tuple([slice(0, n) for n in v.shape])] = v
    return r


class sporco__cnvrep:
    def CSC_ConvRepIndexing(D, S, dimK, dimN):
        dCd = D.ndim - dimN - 1
        Cd = 1 if dCd == 0 else D.shape[-2]
        M = D.shape[-1]
        r = spec_index(dCd, Cd, M, S, dimK, dimN)
        r['shpD'] = D.shape[0:dimN] + (Cd, 1, M)
        return r

    def CDU_ConvRepIndexing(dsz, S, dimK, dimN):
        M = 0
        if isinstance(dsz[0], tuple):
            if isinstance(dsz[0][0], tuple):
                nd = len(dsz[0][0])
                Cd = 0
                for c in dsz[0]:
                    Cd = Cd + c[-2]
            else:
                nd = len(dsz[0])
                Cd = 1 if nd == dimN + 1 else dsz[0][-2]
            for b in dsz:
                M = M + (b[0][-1] if isinstance(b[0], tuple) else b[-1])
        else:
            nd = len(dsz)
            Cd = 1 if nd == dimN + 1 else dsz[-2]
            M = dsz[-1]
        r = spec_index(nd - dimN - 1, Cd, M, S, dimK, dimN)
        r['shpD'] = r['Nv'] + (Cd, 1, M)
        r['Cx'] = r['C'] - Cd + 1
        r['dsz'] = dsz
        return r

    def stdformD(D, Cd, M, dimN):
        return D.reshape(D.shape[0:dimN] + (Cd, 1, M))

    def zeromean(v, dsz, dimN):
        return zmean(v, dsz, dimN)

    def normalise(v, dimN):
        return unit(v, dimN)

    def zpad(v, Nv):
        return pad(v, Nv)

    def bcrop(v, dsz, dimN):
        return crop(v, dsz, dimN)

    def Pcn(x, dsz, Nv, dimN, dimC, crp, zm):
        x = crop(x, dsz, dimN)
        if not crp:
            x = pad(x, Nv)
        if zm:
            x = zmean(x, dsz, dimN)
        return unit(x, dimN + dimC)

    def _Pcn(x, dsz, Nv, dimN, dimC):
        return unit(pad(crop(x, dsz, dimN), Nv), dimN + dimC)

    def _Pcn_zm(x, dsz, Nv, dimN, dimC):
        return unit(zmean(pad(crop(x, dsz, dimN), Nv), dsz, dimN),
                    dimN + dimC)

    def _Pcn_crp(x, dsz, Nv, dimN, dimC):
        return unit(crop(x, dsz, dimN), dimN + dimC)

    def _Pcn_zm_crp(x, dsz, Nv, dimN, dimC):
        return unit(zmean(crop(x, dsz, dimN), dsz, dimN), dimN + dimC)

    def getPcn(dsz, Nv, dimN, dimC, crp, zm):
        # applied to an arbitrary array
        def f(x):
            x = crop(x, dsz, dimN)
            if not crp:
                x = pad(x, Nv)
            if zm:
                x = zmean(x, dsz, dimN)
            return unit(x, dimN + dimC)
        return f

    def DictionarySize(dsz, dimN):
        nflt = 0
        if isinstance(dsz[0], tuple):
            lv = leaves(dsz)
            nd = len(lv[0])
            if isinstance(dsz[0][0], tuple):
                nchn = 0
                for c in dsz[0]:
                    nchn = nchn + c[-2]
            else:
                nchn = 1 if nd == dimN + 1 else dsz[0][-2]
            for b in dsz:
                nflt = nflt + (b[0][-1] if isinstance(b[0], tuple)
                               else b[-1])
            mx = tuple([max([c[i] for c in lv]) for i in range(dimN)])
        else:
            nd = len(dsz)
            nchn = 1 if nd == dimN + 1 else dsz[-2]
            nflt = dsz[-1]
            mx = dsz[0:dimN]
        return {'dsz': dsz, 'ndim': nd, 'nchn': nchn, 'nflt': nflt,
                'mxsz': mx}

    def l1Wshape(W, cri):
        n = cri.dimN
        ck = cri.dimC + cri.dimK
        if W.ndim == n + 3:
            return W.shape
        if W.ndim < n + ck:
            return (1,) * (n + 3)
        if W.ndim == n + ck:
            return W.shape + (1,) * (3 - ck)
        return W.shape[0:-1] + (1,) * (2 - ck) + W.shape[-1:]

    def mskWshape(W, cri):
        n = cri.dimN
        e = W.ndim - n
        if e == 0:
            return W.shape + (1, 1, 1)
        if e == 1:
            if cri.C == 1 and cri.K > 1:
                return W.shape[0:n] + (1, W.shape[n], 1)
            return W.shape + (1, 1)
        if e == 2:
            return W.shape + (1,)
        return W.shape
