"""Reference formulas for the dictionary learning solvers, written from the
problem statements and the alternating minimisation described in the
documentation."""
import numpy as np
from sporco.fft import rfftn, irfftn, rfl2norm2
from sporco.cnvrep import (Pcn, stdformD, zpad, bcrop, mskWshape,
                           CDU_ConvRepIndexing, DictionarySize)
from sporco.admm.cbpdn import ConvBPDN, ConvBPDNMaskDcpl
import sporco.admm.cmod as acmod
import sporco.pgm.cmod as pcmod


def dsum(a, x, ax):
    return np.sum(a * x, axis=ax, keepdims=True)


def l1(x):
    return np.sum(np.abs(x))


def norm2(x):
    return np.sum(np.abs(x)**2)


def nrm(x):
    return np.sqrt(np.sum(np.abs(x)**2))


def size(s, D0):
    if s.opt['DictSize'] is None:
        return D0.shape
    return s.opt['DictSize']


def initial_dict(s, D0, dsz, cri, dimN):
    """the initial dictionary, made feasible"""
    return Pcn(D0, dsz, cri.Nv, dimN, cri.dimCd, True,
               s.opt['CCMOD', 'ZeroMean'])


def recon(s, D, X):
    """sum_m d_m * x_m"""
    c = s.xstep.cri
    return irfftn(dsum(rfftn(D, c.Nv, c.axisN), rfftn(X, c.Nv, c.axisN),
                       c.axisM), c.Nv, c.axisN)


def objective(s, dfd, X):
    r = l1(s.xstep.wl1 * X)
    return {'DFid': dfd, 'RegL1': r, 'ObjFun': dfd + s.xstep.lmbda * r}


class cbpdndl__ConvBPDNDictLearn:
    def init(s, D0, S, dimK, dimN):
        dsz = size(s, D0)
        cri = CDU_ConvRepIndexing(dsz, S, dimK, dimN)
        D = initial_dict(s, D0, dsz, cri, dimN)
        if cri.Cd == 1 and cri.C > 1:
            T = S.reshape(cri.Nv + (1, cri.C * cri.K, 1))
        else:
            T = S.reshape(cri.shpS)
        return (D.reshape(s.xstep.cri.shpD),
                zpad(stdformD(D, cri.Cd, cri.M, dimN), cri.Nv),
                S.reshape(s.xstep.cri.shpS), T)

    def init_impl(s):
        d = s.dstep
        return (s.xstep.D, d.X if s.dmethod == 'pgm' else d.Y, s.xstep.S,
                d.S)

    def dictionary(s):
        return s.dstep.X if s.dmethod == 'pgm' else s.dstep.Y

    def coefs(s):
        return s.xstep.X if s.xmethod == 'pgm' else s.xstep.Y

    def getdict(s):
        d = s.dstep
        return bcrop(cbpdndl__ConvBPDNDictLearn.dictionary(s), d.cri.dsz,
                     d.cri.dimN)

    def reconstruct(s):
        D = cbpdndl__ConvBPDNDictLearn.dictionary(s)
        return recon(s, D, s.xstep.getcoef())

    def evaluate(s):
        v = None
        if s.opt['AccurateDFid']:
            c = s.xstep.cri
            X = cbpdndl__ConvBPDNDictLearn.coefs(s)
            D = cbpdndl__ConvBPDNDictLearn.dictionary(s)
            E = dsum(rfftn(D, c.Nv, c.axisN), rfftn(X, c.Nv, c.axisN),
                     c.axisM) - s.xstep.Sf
            v = objective(s, rfl2norm2(E, s.xstep.S.shape, c.axisN) / 2,
                             X)
        return {'return': v}


class cbpdndlmd__ConvBPDNMaskDictLearn:
    def init(s, D0, S, dimK, dimN):
        r = cbpdndl__ConvBPDNDictLearn.init(s, D0, S, dimK, dimN)
        v = r[1]
        if s.dmethod == 'ism' or s.dmethod == 'cg':
            # the first block is the splitting variable of the data term
            v = np.concatenate((np.zeros(S.shape), v),
                               axis=s.dstep.cri.axisM)
        return r[0], v

    def init_impl(s):
        return s.xstep.D, s.dstep.X if s.dmethod == 'pgm' else s.dstep.Y

    def dictionary(s):
        d = s.dstep
        if s.dmethod == 'pgm':
            return d.X
        if s.dmethod == 'cns':
            return d.Y
        return d.block_sep1(d.Y)

    def getdict(s):
        d = s.dstep
        return bcrop(cbpdndlmd__ConvBPDNMaskDictLearn.dictionary(s),
                     d.cri.dsz, d.cri.dimN)

    def reconstruct(s):
        return recon(s, cbpdndlmd__ConvBPDNMaskDictLearn.dictionary(s),
                     s.xstep.getcoef())

    def evaluate(s):
        v = None
        if s.opt['AccurateDFid']:
            R = recon(s, cbpdndlmd__ConvBPDNMaskDictLearn.dictionary(s),
                      s.xstep.getcoef())
            x = s.xstep
            if s.xmethod == 'pgm':
                X = x.X
            else:
                X = x.block_sep1(x.Y)
            v = objective(s, norm2(x.W * (R - x.S)) / 2, X)
        return {'return': v}


class bpdndl__BPDNDictLearn:
    def init(s, D0, S):
        D = acmod.getPcn(s.opt['CMOD', 'ZeroMean'])(D0)
        return D, D, S, S, np.zeros((S.shape[0], D0.shape[1]))

    def init_impl(s):
        return s.xstep.D, s.dstep.Y, s.xstep.S, s.dstep.S, s.dstep.U

    def getdict(s):
        return s.dstep.Y

    def evaluate(s):
        v = None
        if s.opt['AccurateDFid']:
            X = s.xstep.Y
            v = objective(s, norm2(s.dstep.Y.dot(X) - s.xstep.S) / 2, X)
        return {'return': v}


class wbpdndl__WeightedBPDNDictLearn:
    def init(s, D0, S):
        D = pcmod.getPcn(s.opt['CMOD', 'ZeroMean'],
                         s.opt['CMOD', 'NonNegCoef'])(D0)
        return D, D, S, S

    def init_impl(s):
        return s.xstep.D, s.dstep.X, s.xstep.S, s.dstep.S

    def getdict(s):
        return s.dstep.X

    def evaluate(s):
        v = None
        if s.opt['AccurateDFid']:
            X = s.xstep.X
            v = objective(s, norm2(np.sqrt(s.W) * (
                s.dstep.X.dot(X) - s.xstep.S)) / 2, X)
        return {'return': v}


# ---------------------------------------------------------------- online

def project(x):
    return x


class onlinecdl__OnlineConvBPDNDictLearn:
    def init(s, G, D0, dimN):
        dsz = size(s, D0)
        ds = DictionarySize(dsz, dimN)
        D = Pcn(stdformD(D0, ds.nchn, ds.nflt, dimN), dsz, (), dimN,
                ds.ndim - dimN - 1, True, s.opt['ZeroMean'])
        return (D, D, 0, s.opt['eta_a'], s.opt['eta_b'], dsz,
                Pcn(G, dsz, (), dimN, ds.ndim - dimN - 1, True,
                    s.opt['ZeroMean']))

    def init_impl(s, G):
        return s.D, s.Dprv, s.j, s.eta_a, s.eta_b, s.dsz, s.Pcn(G)

    def step(s, S, W, dimK):
        if dimK is None:
            dimK = s.dimK
        cri = CDU_ConvRepIndexing(s.dsz, S, dimK, s.dimN)
        if W is not None:
            W = W.reshape(mskWshape(W, cri))
            x = ConvBPDNMaskDcpl(s.D.squeeze(), S, s.lmbda, W,
                                 s.opt['CBPDN'], dimK=dimK, dimN=s.dimN)
        else:
            x = ConvBPDN(s.D.squeeze(), S, s.lmbda, s.opt['CBPDN'],
                         dimK=dimK, dimN=s.dimN)
        x.solve()
        Z = x.getcoef().reshape(cri.shpX)
        Zf = rfftn(Z, cri.Nv, cri.axisN)
        Df = rfftn(s.D, cri.Nv, cri.axisN)
        if W is None:
            Sf = x.Sf.reshape(x.Sf.shape[0:s.dimN] + cri.shpS[s.dimN:])
        else:
            Sf = rfftn(S.reshape(cri.shpS), cri.Nv, cri.axisN)
        # gradient of the (weighted) data fidelity with respect to the
        # dictionary
        R = dsum(Zf, Df, cri.axisM) - Sf
        if W is not None:
            R = rfftn(W**2 * irfftn(R, cri.Nv, cri.axisN), None, cri.axisN)
        g = dsum(np.conj(Zf), R, cri.axisK)
        if cri.C > 1 and cri.Cd == 1:
            g = np.sum(g, axis=cri.axisC, keepdims=True)
        eta = s.eta_a / (s.j + s.eta_b)
        G = irfftn(Df - eta * g, cri.Nv, cri.axisN)
        D = s.Pcn(G)
        r = {'D': D, 'Dprv': s.D, 'eta': eta, 'Z': Z, 'j': s.j + 1,
             'return': D, 'cri': cri}
        return r

    def solve(s, S, dimK):
        return onlinecdl__OnlineConvBPDNDictLearn.step(s, S, None, dimK)

    def getdict(s):
        return s.D

    def stats(s):
        x = s.xstep_itstat
        return {'Iter': s.j, 'ObjFun': x.ObjFun, 'DFid': x.DFid,
                'RegL1': x.RegL1, 'PrimalRsdl': x.PrimalRsdl,
                'DualRsdl': x.DualRsdl, 'Rho': x.Rho,
                'Cnstr': nrm(zpad(s.D, s.cri.Nv) - s.G),
                'DeltaD': nrm(s.D - s.Dprv), 'Eta': s.eta,
                'Time': s.timer.elapsed(s.opt['IterTimer'])}


class onlinecdl__OnlineConvBPDNMaskDictLearn:
    def solve(s, S, W, dimK):
        if W is None:
            W = np.array([1.0])
        return onlinecdl__OnlineConvBPDNDictLearn.step(s, S, W, dimK)
