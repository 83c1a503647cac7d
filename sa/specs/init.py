"""Reference values of the state a solver has when its constructor returns,
as functions of the constructor arguments: problem parameters with their
documented defaults, data in internal layout, sizes used in the residual
tolerances, and the initial iterates (zero, or the given Y0/U0, or, for a
given Y0 and no U0, the dual variable matching Y0)."""
import numpy as np
import sporco.cnvrep as cr
from sporco.fft import rfftn, fftn
from sporco.signal import gradient_filters
from sporco.array import zdivide, atleast_nd
from sporco.linalg import dot


def given(v, d):
    return d if v is None else v


def idx(D, S, dimK, dimN):
    return cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)


def didx(dsz, S, dimK, dimN):
    return cr.CDU_ConvRepIndexing(dsz, S, dimK=dimK, dimN=dimN)


def count(shape):
    return np.prod(np.array(shape))


def common(s):
    o = s.opt
    return {'k': 0, 'rlx': given(o['RelaxParam'], 1.0),
            'rho_tau': given(o['AutoRho', 'Scaling'], 2.0),
            'rho_mu': given(o['AutoRho', 'RsdlRatio'], 10.0)}


def admm(s, Nx, yshape, ushape, U0, rho=1.0, xi=1.0):
    """state of an ADMM solver; U0 is a function giving the dual variable
    for a given Y0"""
    o = s.opt
    r = common(s)
    r['Nx'] = Nx
    r['Nc'] = count(ushape)
    if rho is not None:
        r['rho'] = given(o['rho'], rho)
    if xi is not None:
        r['rho_xi'] = given(o['AutoRho', 'RsdlTarget'], xi)
    if o['Y0'] is None:
        r['Y'] = np.zeros(yshape)
    else:
        r['Y'] = o['Y0']
    r['Yprev'] = r['Y']
    if o['U0'] is not None:
        r['U'] = o['U0']
    elif o['Y0'] is None:
        r['U'] = np.zeros(ushape)
    else:
        r['U'] = U0(o['Y0'])
    return r


def equal(s, shape, U0, rho=1.0, xi=1.0):
    return admm(s, count(shape), shape, shape, U0, rho, xi)


def zero(shape):
    def f(Y):
        return np.zeros(shape)
    return f


def dual_l1(s, lmbda, rho):
    def f(Y):
        return lmbda / rho * np.sign(Y)
    return f


def target(lmbda):
    return 1.0 + 18.3**(np.log10(lmbda) + 1.0) if lmbda != 0.0 else 1.0


# ---------------------------------------------------------- sparse coding

def bpdn(s, D, S, lmbda):
    o = s.opt
    lm = given(lmbda, 0.1 * np.max(np.abs(np.dot(D.T, S))))
    rho = given(o['rho'], 50.0 * lm + 1.0)
    r = equal(s, (D.shape[1], S.shape[1]), dual_l1(s, lm, rho),
              50.0 * lm + 1.0, target(lm))
    r['lmbda'] = lm
    r['wl1'] = o['L1Weight']
    r['S'] = S
    return r


class admm__bpdn__GenericBPDN:
    def init(s, D, S):
        shape = (D.shape[1], S.shape[1])
        r = equal(s, shape, zero(shape))
        r['S'] = S
        return r


class admm__bpdn__BPDN:
    def init(s, D, S, lmbda):
        return bpdn(s, D, S, lmbda)


class admm__bpdn__BPDNJoint:
    def init(s, D, S, lmbda, mu):
        r = bpdn(s, D, S, lmbda)
        r['mu'] = mu
        return r


class admm__bpdn__ElasticNet:
    def init(s, D, S, lmbda, mu):
        r = bpdn(s, D, S, lmbda)
        r['mu'] = mu
        return r


class admm__bpdn__BPDNProjL1:
    def init(s, D, S, gamma):
        shape = (D.shape[1], S.shape[1])
        r = equal(s, shape, zero(shape))
        r['S'] = S
        r['gamma'] = gamma
        return r


class admm__bpdn__MinL1InL2Ball:
    def init(s, D, S, epsilon):
        o = s.opt
        n, m, k = D.shape[1], D.shape[0], S.shape[1]
        rho = given(o['rho'], 1.0)

        def U0(Y):
            return s.block_cat(np.sign(s.block_sep0(Y)) / rho,
                               s.block_sep1(Y) - S)
        r = admm(s, n * k, (n + m, k), (n + m, k), U0)
        r['epsilon'] = epsilon
        r['wl1'] = o['L1Weight']
        r['S'] = S
        r['blkaxis'] = 0
        r['blkidx'] = n
        return r


# ------------------------------------------- convolutional sparse coding

def l1weight(s, c):
    w = np.asarray(s.opt['L1Weight'])
    return w.reshape(cr.l1Wshape(w, c))


def gradweight(w, dimN):
    if hasattr(w, 'ndim'):
        return w.reshape((1,) * (dimN + 2) + w.shape)
    return w


def gencbpdn(s, D, S, dimK, dimN, U0=None, rho=1.0, xi=1.0):
    c = idx(D, S, dimK, dimN)
    r = equal(s, c.shpX, zero(c.shpX) if U0 is None else U0, rho, xi)
    r['D'] = D.reshape(c.shpD)
    r['S'] = S.reshape(c.shpS)
    return r


def lambda_max(D, S, dimK, dimN):
    c = idx(D, S, dimK, dimN)
    if np.isrealobj(D) and np.isrealobj(S):
        Df = rfftn(D.reshape(c.shpD), c.Nv, axes=c.axisN)
        Sf = rfftn(S.reshape(c.shpS), None, axes=c.axisN)
    else:
        Df = fftn(D.reshape(c.shpD), c.Nv, axes=c.axisN)
        Sf = fftn(S.reshape(c.shpS), None, axes=c.axisN)
    return 0.1 * np.max(np.abs(np.conj(Df) * Sf))


def cbpdn(s, D, S, lmbda, dimK, dimN):
    lm = lambda_max(D, S, dimK, dimN) if lmbda is None else lmbda
    rho = given(s.opt['rho'], 50.0 * lm + 1.0)
    r = gencbpdn(s, D, S, dimK, dimN, dual_l1(s, lm, rho), 50.0 * lm + 1.0,
                 target(lm))
    r['lmbda'] = lm
    r['wl1'] = l1weight(s, idx(D, S, dimK, dimN))
    return r


class admm__cbpdn__GenericConvBPDN:
    def init(s, D, S, dimK, dimN):
        return gencbpdn(s, D, S, dimK, dimN)


class admm__cbpdn__ConvBPDN:
    def init(s, D, S, lmbda, dimK, dimN):
        return cbpdn(s, D, S, lmbda, dimK, dimN)


class admm__cbpdn__ConvBPDNJoint:
    def init(s, D, S, lmbda, mu, dimK, dimN):
        r = cbpdn(s, D, S, lmbda, dimK, dimN)
        r['mu'] = mu
        r['wl21'] = s.opt['L21Weight']
        return r


class admm__cbpdn__ConvElasticNet:
    def init(s, D, S, lmbda, mu, dimK, dimN):
        r = cbpdn(s, D, S, lmbda, dimK, dimN)
        r['mu'] = mu
        return r


class admm__cbpdn__ConvBPDNGradReg:
    def init(s, D, S, lmbda, mu, dimK, dimN):
        r = cbpdn(s, D, S, lmbda, dimK, dimN)
        r['mu'] = mu
        r['Wgrd'] = gradweight(s.opt['GradWeight'], dimN)
        return r


class admm__cbpdn__ConvBPDNProjL1:
    def init(s, D, S, gamma, dimK, dimN):
        r = gencbpdn(s, D, S, dimK, dimN)
        r['gamma'] = gamma
        return r


def twoblock(s, D, S, dimK, dimN, U0):
    c = idx(D, S, dimK, dimN)
    shp = list(c.shpX)
    if c.C > 1 and c.Cd > 1:
        shp[c.axisC] = 1
    shp[c.axisM] = shp[c.axisM] + c.Cd
    r = admm(s, c.M * c.N * c.K, shp, shp, U0)
    r['D'] = D.reshape(c.shpD)
    r['S'] = S.reshape(c.shpS)
    r['blkaxis'] = c.axisM
    r['blkidx'] = c.Cd
    return r


class admm__cbpdn__ConvTwoBlockCnstrnt:
    def init(s, D, S, dimK, dimN):
        c = idx(D, S, dimK, dimN)
        shp = list(c.shpX)
        if c.C > 1 and c.Cd > 1:
            shp[c.axisC] = 1
        shp[c.axisM] = shp[c.axisM] + c.Cd
        return twoblock(s, D, S, dimK, dimN, zero(shp))


class admm__cbpdn__ConvMinL1InL2Ball:
    def init(s, D, S, epsilon, dimK, dimN):
        rho = given(s.opt['rho'], 1.0)

        def U0(Y):
            return s.block_cat(s.block_sep0(Y),
                               np.sign(s.block_sep1(Y)) / rho)
        r = twoblock(s, D, S, dimK, dimN, U0)
        r['epsilon'] = epsilon
        r['wl1'] = l1weight(s, idx(D, S, dimK, dimN))
        return r


def maskshape(W, c):
    if W is None:
        W = np.array([1.0])
    return W.reshape(cr.mskWshape(W, c))


class admm__cbpdn__ConvBPDNMaskDcpl:
    def init(s, D, S, lmbda, W, dimK, dimN):
        rho = given(s.opt['rho'], 1.0)
        w = maskshape(W, idx(D, S, dimK, dimN))

        def U0(Y):
            return s.block_cat(w**2 * s.block_sep0(Y) / rho,
                               lmbda / rho * np.sign(s.block_sep1(Y)))
        r = twoblock(s, D, S, dimK, dimN, U0)
        r['lmbda'] = lmbda
        r['W'] = w
        r['wl1'] = l1weight(s, idx(D, S, dimK, dimN))
        return r


class admm__cbpdn__ConvL1L1Grd:
    def init(s, D, S, lmbda, mu, W, dimK, dimN):
        rho = given(s.opt['rho'], 1.0)
        w = maskshape(W, idx(D, S, dimK, dimN))

        def U0(Y):
            return s.block_cat(w**2 * s.block_sep0(Y) / rho,
                               lmbda / rho * np.sign(s.block_sep1(Y)))
        r = twoblock(s, D, S, dimK, dimN, U0)
        r['lmbda'] = lmbda
        r['mu'] = mu
        r['W'] = w
        r['wl1'] = l1weight(s, idx(D, S, dimK, dimN))
        r['Wgrd'] = gradweight(s.opt['GradWeight'], dimN)
        return r


def addmask(s, D, S, W, dimK, dimN):
    c = idx(D, S, dimK, dimN)
    return {'W': W.reshape(cr.mskWshape(W, c))}


# ------------------------------------------------------- dictionary update

def dual_same(Y):
    return Y


class admm__cmod__CnstrMOD:
    def init(s, Z, S, dsz):
        n = dsz[0] if Z is None else Z.shape[0]
        r = equal(s, (S.shape[0], n), dual_same, s.rho)
        r['S'] = S
        return r


def dsignal(S, c):
    """the signals in internal layout, the channels being independent
    signals when the dictionary has one channel"""
    if c.Cd == 1 and c.C > 1:
        return S.reshape(c.Nv + (1,) + (c.C * c.K,) + (1,))
    return S.reshape(c.shpS)


def gendict(s, S, dsz, dimK, dimN):
    c = didx(dsz, S, dimK, dimN)
    r = equal(s, c.shpD, dual_same, s.rho)
    r['S'] = dsignal(S, c)
    return r


class admm__ccmod__ConvCnstrMODBase:
    def init(s, Z, S, dsz, dimK, dimN):
        return gendict(s, S, dsz, dimK, dimN)


class admm__ccmod__ConvCnstrMOD_IterSM(admm__ccmod__ConvCnstrMODBase):
    pass


class admm__ccmod__ConvCnstrMOD_CG(admm__ccmod__ConvCnstrMODBase):
    pass


def consensus(s, S, dsz, dimK, dimN):
    c = didx(dsz, S, dimK, dimN)
    nb = c.K if c.C == c.Cd else c.C * c.K

    def U0(Y):
        return np.repeat(Y[..., np.newaxis], nb, axis=-1) / s.rho
    r = admm(s, nb * np.prod(c.shpD), c.shpD, c.shpD + (nb,), U0, s.rho)
    r['S'] = dsignal(S, c)
    r['Nb'] = nb
    return r


class admm__ccmod__ConvCnstrMOD_Consensus:
    def init(s, Z, S, dsz, dimK, dimN):
        return consensus(s, S, dsz, dimK, dimN)


def dmask(W, c):
    """mask in the layout of the signals; with a single channel dictionary
    the channels are independent signals"""
    w = W.reshape(cr.mskWshape(W, c))
    if c.Cd == 1 and c.C > 1:
        shp = list(w.shape)
        n = shp[c.axisC] * shp[c.axisK]
        if n > 1 and n < c.C * c.K:
            if w.shape[c.axisK] == 1 and c.K > 1:
                shp[c.axisK] = c.K
            else:
                shp[c.axisC] = c.C
            w = np.broadcast_to(w, shp)
        return w.reshape(w.shape[0:c.dimN] +
                         (1, w.shape[c.axisC] * w.shape[c.axisK], 1))
    return w


def maskdict(s, S, W, dsz, dimK, dimN):
    c = didx(dsz, S, dimK, dimN)
    w = dmask(W, c)
    ck = (c.C if c.Cd == 1 else 1) * c.K
    shp = list(c.shpX)
    shp[c.axisC] = c.Cd
    shp[c.axisK] = 1
    shp[c.axisM] = shp[c.axisM] + ck
    rho = given(s.opt['rho'], 1.0)

    def U0(Y):
        return s.block_cat(w**2 * s.block_sep0(Y) / rho, s.block_sep1(Y))
    r = admm(s, c.N * c.Cd * c.M, shp, shp, U0)
    r['W'] = w
    if c.Cd == 1 and c.C > 1:
        r['S'] = S.reshape(c.Nv + (1, c.C * c.K, 1))
    else:
        r['S'] = S.reshape(c.shpS)
    r['blkaxis'] = c.axisM
    r['blkidx'] = ck
    return r


class admm__ccmodmd__ConvCnstrMODMaskDcplBase:
    def init(s, Z, S, W, dsz, dimK, dimN):
        return maskdict(s, S, W, dsz, dimK, dimN)


class admm__ccmodmd__ConvCnstrMODMaskDcpl_IterSM(
        admm__ccmodmd__ConvCnstrMODMaskDcplBase):
    pass


class admm__ccmodmd__ConvCnstrMODMaskDcpl_CG(
        admm__ccmodmd__ConvCnstrMODMaskDcplBase):
    pass


class admm__ccmodmd__ConvCnstrMODMaskDcpl_Consensus:
    def init(s, Z, S, W, dsz, dimK, dimN):
        r = consensus(s, S, dsz, dimK, dimN)
        if W is None:
            W = np.array([1.0])
        r['W'] = dmask(W, didx(dsz, S, dimK, dimN))
        r['Y1'] = np.zeros(r['S'].shape)
        r['U1'] = np.zeros(r['S'].shape)
        return r


# ------------------------------------------------ total variation and other

def tvweight(w, dimN):
    if hasattr(w, 'ndim') and w.ndim > 0:
        return w.reshape((1,) * (dimN + 2) + w.shape)
    return w


def tvcsc(s, D, S, lmbda, mu, dimK, dimN, yshape):
    c = idx(D, S, dimK, dimN)
    # an existing value of rho is not replaced
    r = admm(s, count(c.shpX), yshape, yshape, zero(yshape), s.rho, None)
    r['lmbda'] = lmbda
    r['mu'] = mu
    r['Wl1'] = l1weight(s, c)
    r['Wtv'] = tvweight(s.opt['TVWeight'], dimN)
    r['D'] = D.reshape(c.shpD)
    r['S'] = S.reshape(c.shpS)
    return r


class admm__cbpdntv__ConvBPDNScalarTV:
    def init(s, D, S, lmbda, mu, dimK, dimN):
        c = idx(D, S, dimK, dimN)
        return tvcsc(s, D, S, lmbda, mu, dimK, dimN, c.shpX + (dimN + 1,))


class admm__cbpdntv__ConvBPDNVectorTV(admm__cbpdntv__ConvBPDNScalarTV):
    pass


class admm__cbpdntv__ConvBPDNRecTV:
    def init(s, D, S, lmbda, mu, dimK, dimN):
        c = idx(D, S, dimK, dimN)
        shp = list(c.shpX)
        shp[c.axisM] = shp[c.axisM] + dimN * c.Cd
        return tvcsc(s, D, S, lmbda, mu, dimK, dimN, shp)


class admm__cbpdnin__ConvBPDNInhib:
    def init(s, D, S, lmbda, mu, gamma, dimK, dimN):
        r = cbpdn(s, D, S, lmbda, dimK, dimN)
        r['mu'] = given(mu, 10 * r['lmbda'])
        r['gamma'] = given(gamma, 0.0)
        return r


def proddict(s, D, B, S, lmbda, dimK, dimN):
    c = idx(D, S, dimK, dimN)
    shp = list(c.shpX)
    shp[c.axisC] = B.shape[1]
    shp = tuple(shp)
    lm = lmbda
    rho = given(s.opt['rho'], 50.0 * lm + 1.0)
    r = equal(s, shp, dual_l1(s, lm, rho), 50.0 * lm + 1.0, target(lm))
    r['D'] = D.reshape(c.shpD)
    r['S'] = S.reshape(c.shpS)
    r['B'] = B
    r['lmbda'] = lm
    return r


class admm__pdcsc__ConvProdDictBPDN:
    def init(s, D, B, S, lmbda, dimK, dimN):
        return proddict(s, D, B, S, lmbda, dimK, dimN)


class admm__pdcsc__ConvProdDictBPDNJoint:
    def init(s, D, B, S, lmbda, mu, dimK, dimN):
        r = proddict(s, D, B, S, lmbda, dimK, dimN)
        r['mu'] = mu
        return r


class admm__ppp__GenericPPP:
    def init(s, xshape):
        return equal(s, xshape, zero(xshape))


class admm__ppp__PPP:
    def init(s, xshape, f, proxf, proxg):
        return equal(s, xshape, zero(xshape))


def pppcns(s, xshape, nb, mu):
    r = admm(s, nb * np.prod(xshape), xshape, xshape + (nb,),
             zero(xshape + (nb,)))
    r['X'] = np.zeros(xshape + (nb,))
    r['Nb'] = nb
    r['alpha'] = np.ones((nb,)) if mu is None else mu
    return r


class admm__ppp__GenericPPPConsensus:
    def init(s, xshape, Nb, mu):
        return pppcns(s, xshape, Nb, mu)


class admm__ppp__PPPConsensus:
    def init(s, xshape, proxfi, proxg, mu):
        return pppcns(s, xshape, len(proxfi), mu)


class admm__rpca__RobustPCA:
    def init(s, S, lmbda):
        lm = given(lmbda, 1.0 / np.sqrt(S.shape[0]))
        rho = given(s.opt['rho'], 2.0 * lm + 0.1)
        r = admm(s, S.size, S.shape, S.shape, dual_l1(s, lm, rho),
                 2.0 * lm + 0.1)
        r['lmbda'] = lm
        r['S'] = S
        return r


class admm__spline__SplineL1:
    def init(s, S, lmbda, axes):
        w = s.opt['DFidWeight']
        rho = given(s.opt['rho'], 2.0 * lmbda + 0.1)

        def U0(Y):
            return w / rho * np.sign(Y)
        r = admm(s, S.size, S.shape, S.shape, U0, 2.0 * lmbda + 0.1)
        r['lmbda'] = lmbda
        r['S'] = S
        r['Wdf'] = w
        r['axes'] = axes
        return r


def tvden(s, S, lmbda, axes, caxis, yshape, U0):
    r = admm(s, S.size, yshape, yshape, U0, 2.0 * lmbda + 0.1)
    r['lmbda'] = lmbda
    r['S'] = S
    r['axes'] = axes
    r['saxes'] = (-1,) if caxis is None else (caxis, -1)
    r['Wtv'] = s.opt['TVWeight']
    return r


def tvl1(s, S, lmbda, axes, caxis):
    rho = given(s.opt['rho'], 2.0 * lmbda + 0.1)

    def U0(Y):
        G = Y[..., 0:-1]
        n = np.sqrt(np.sum(G**2, axis=S.ndim, keepdims=True))
        return np.concatenate((lmbda / rho * zdivide(G, n),
                               np.sign(Y[..., -1:]) / rho), axis=S.ndim)
    r = tvden(s, S, lmbda, axes, caxis, S.shape + (len(axes) + 1,), U0)
    r['Wdf'] = s.opt['DFidWeight']
    return r


def tvl2(s, S, lmbda, axes, caxis):
    rho = given(s.opt['rho'], 2.0 * lmbda + 0.1)

    def U0(Y):
        n = np.sqrt(np.sum(Y**2, axis=S.ndim, keepdims=True))
        return lmbda / rho * zdivide(Y, n)
    return tvden(s, S, lmbda, axes, caxis, S.shape + (len(axes),), U0)


class admm__tvl1__TVL1Denoise:
    def init(s, S, lmbda, axes, caxis):
        r = tvl1(s, S, lmbda, axes, caxis)
        r['X'] = S
        return r


class admm__tvl1__TVL1Deconv:
    def init(s, A, S, lmbda, axes, caxis):
        r = tvl1(s, S, lmbda, axes, caxis)
        r['A'] = atleast_nd(S.ndim, A)
        return r


class admm__tvl2__TVL2Denoise:
    def init(s, S, lmbda, axes, caxis):
        r = tvl2(s, S, lmbda, axes, caxis)
        r['X'] = S
        return r


class admm__tvl2__TVL2Deconv:
    def init(s, A, S, lmbda, axes, caxis):
        r = tvl2(s, S, lmbda, axes, caxis)
        r['A'] = atleast_nd(S.ndim, A)
        return r


# -------------------------------------------------------- proximal gradient

def pgm(s, xshape, L=1.0):
    o = s.opt
    r = {'k': 0, 't': 1, 'L': given(o['L'], L)}
    if o['X0'] is None:
        r['X'] = np.zeros(xshape)
    else:
        r['X'] = o['X0']
    return r


def pgmplain(s, xshape, L=1.0):
    r = pgm(s, xshape, L)
    r['Y'] = r['X']
    return r


def pgmbpdn(s, D, S, lmbda):
    r = pgmplain(s, (D.shape[1], S.shape[1]))
    r['lmbda'] = given(lmbda, 0.1 * np.max(np.abs(np.dot(D.T, S))))
    r['wl1'] = s.opt['L1Weight']
    r['S'] = S
    return r


def weight2(W):
    if W is None:
        return np.array([1.0])
    if W.ndim > 0:
        return atleast_nd(2, W)
    return W


class pgm__bpdn__BPDN:
    def init(s, D, S, lmbda):
        return pgmbpdn(s, D, S, lmbda)


class pgm__bpdn__WeightedBPDN:
    def init(s, D, S, lmbda, W):
        r = pgmbpdn(s, D, S, lmbda)
        r['W'] = atleast_nd(2, np.array([1.0])) if W is None else weight2(W)
        return r


class pgm__cmod__CnstrMOD:
    def init(s, Z, S, dsz):
        n = dsz[0] if Z is None else Z.shape[0]
        r = pgmplain(s, (S.shape[0], n))
        r['S'] = S
        return r


class pgm__cmod__WeightedCnstrMOD:
    def init(s, Z, S, W, dsz):
        n = dsz[0] if Z is None else Z.shape[0]
        r = pgmplain(s, (S.shape[0], n))
        r['S'] = S
        r['W'] = atleast_nd(2, np.array([1.0])) if W is None else weight2(W)
        return r


def pgmcsc(s, D, S, lmbda, dimK, dimN):
    c = idx(D, S, dimK, dimN)
    r = pgmplain(s, c.shpX)
    if lmbda is None:
        Df = rfftn(D.reshape(c.shpD), c.Nv, axes=c.axisN)
        Sf = rfftn(S.reshape(c.shpS), None, axes=c.axisN)
        lmbda = 0.1 * np.max(np.abs(np.conj(Df) * Sf))
    r['lmbda'] = lmbda
    r['wl1'] = s.opt['L1Weight']
    r['D'] = D.reshape(c.shpD)
    r['S'] = S.reshape(c.shpS)
    r['Xf'] = rfftn(r['X'], None, c.axisN)
    r['Yf'] = rfftn(r['X'], None, c.axisN)
    return r


class pgm__cbpdn__ConvBPDN:
    def init(s, D, S, lmbda, dimK, dimN):
        return pgmcsc(s, D, S, lmbda, dimK, dimN)


class pgm__cbpdn__ConvBPDNMask:
    def init(s, D, S, lmbda, W, dimK, dimN):
        r = pgmcsc(s, D, S, lmbda, dimK, dimN)
        r['W'] = maskshape(W, idx(D, S, dimK, dimN))
        return r


def pgmdict(s, S, dsz, dimK, dimN):
    c = didx(dsz, S, dimK, dimN)
    r = pgmplain(s, c.shpD, s.L)
    r['S'] = dsignal(S, c)
    r['Xf'] = rfftn(r['X'], None, c.axisN)
    r['Yf'] = rfftn(r['X'], None, c.axisN)
    return r


class pgm__ccmod__ConvCnstrMOD:
    def init(s, Z, S, dsz, dimK, dimN):
        return pgmdict(s, S, dsz, dimK, dimN)


class pgm__ccmod__ConvCnstrMODMask:
    def init(s, Z, S, W, dsz, dimK, dimN):
        return pgmdict(s, S, dsz, dimK, dimN)


class pgm__ppp__PPP:
    def init(s, xshape, f, gradf, proxg):
        return pgmplain(s, xshape)


def prodl1l1(s, D, B, S, lmbda, mu, W, dimK, dimN):
    """the auxiliary variable stacks the signal block and the coefficient
    block, each flattened over the non-spatial axes"""
    o = s.opt
    if dimK is None:
        dimK = S.ndim - dimN - 1
    SB = dot(B.T, S, axis=-2 if dimK == 1 else -1)
    c = idx(D, SB, dimK, dimN)
    shp = list(c.shpS)
    shp[c.axisC] = S.shape[c.axisC]
    shp = tuple(shp)
    n = int(np.prod(np.array(shp[c.axisC:]))) + \
        int(np.prod(np.array(c.shpX[c.axisC:])))
    r = {'k': 0, 'lmbda': lmbda, 'mu': mu, 'B': B, 'y0shp': shp,
         'y1shp': c.shpX, 'yshp': c.shpX[0:c.axisC] + (n,),
         'W': maskshape(W, c), 'S': S.reshape(shp),
         'D': D.reshape(c.shpD),
         'wl1': l1weight(s, c), 'Wgrd': gradweight(o['GradWeight'], dimN)}
    if o['Y0'] is None:
        r['Y'] = np.zeros(c.shpX[0:c.axisC] + (n,))
        r['U'] = given(o['U0'], np.zeros(c.shpX[0:c.axisC] + (n,)))
    else:
        r['Y'] = o['Y0']
        r['U'] = given(o['U0'], s.U)
    return r


class admm__pdcsc__ConvProdDictL1L1Grd:
    def init(s, D, B, S, lmbda, mu, W, dimK, dimN):
        return prodl1l1(s, D, B, S, lmbda, mu, W, dimK, dimN)


class admm__pdcsc__ConvProdDictL1L1GrdJoint:
    def init(s, D, B, S, lmbda, mu, W, dimK, dimN):
        r = prodl1l1(s, D, B, S, lmbda, mu, W, dimK, dimN)
        r['wl21'] = s.opt['L21Weight']
        return r
