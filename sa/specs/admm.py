"""Reference formulas for the ADMM solvers, written from the problem
statements and ADMM decompositions in the documentation.  `s` is the solver
object; D, S, Z, W are the arrays handed in by the user (in internal
layout); everything derived from them is recomputed here."""
import numpy as np
from sporco.linalg import (solvedbi_sm, solvedbd_sm, solvemdbi_ism,
                           solvemdbi_cg, cho_solve_ATAI, cho_factor,
                           lu_solve_AATI, lu_factor, rrs, dot)
from sporco.fft import rfftn, irfftn, fftn, ifftn, fl2norm2, rfl2norm2
from sporco.prox import (prox_l1, prox_l2, prox_sl1l2, proj_l1, proj_l2,
                         prox_nuclear, norm_nuclear)
from sporco.signal import gradient_filters, grad, gradT
from sporco.fft import dctii, idctii
from sporco.cnvrep import bcrop
import sporco.cnvrep as cr
from sporco.array import zpad


# ------------------------------------------------------------ vocabulary

def F(s, x):
    """DFT over the spatial axes of an array of full spatial size"""
    if np.isrealobj(s.S):
        return rfftn(x, None, s.cri.axisN)
    return fftn(x, None, s.cri.axisN)


def FP(s, x):
    """DFT after zero-padding to the signal size"""
    if np.isrealobj(s.S):
        return rfftn(x, s.cri.Nv, s.cri.axisN)
    return fftn(x, s.cri.Nv, s.cri.axisN)


def IF(s, xf):
    if np.isrealobj(s.S):
        return irfftn(xf, s.cri.Nv, s.cri.axisN)
    return ifftn(xf, s.cri.Nv, s.cri.axisN)


def FN2(s, xf, shp):
    """squared l2 norm of the signal of shape shp with DFT xf"""
    if np.isrealobj(s.S):
        return rfl2norm2(xf, shp, s.cri.axisN)
    return fl2norm2(xf, s.cri.axisN)


def norm2(x):
    return np.sum(np.abs(x)**2)


def nrm(x):
    return np.sqrt(np.sum(np.abs(x)**2))


def l1(x):
    return np.sum(np.abs(x))


def dsum(a, x, ax):
    return np.sum(a * x, axis=ax, keepdims=True)


def DX(s, Df, Xf):
    return dsum(Df, Xf, s.cri.axisM)


def DH(s, Df, Sf):
    """adjoint of sum_m d_m * x_m"""
    if s.cri.Cd == 1:
        return np.conj(Df) * Sf
    return dsum(np.conj(Df), Sf, s.cri.axisC)


def csc(s, Df, rho, b):
    """(D^H D + rho I)^{-1} b per frequency"""
    if s.cri.Cd == 1:
        return solvedbi_sm(Df, rho, b, None, s.cri.axisM)
    return solvemdbi_ism(Df, rho, b, s.cri.axisM, s.cri.axisC)


def cscd(s, Df, d, b):
    """(D^H D + diag(d))^{-1} b per frequency"""
    if s.cri.Cd == 1:
        return solvedbd_sm(Df, d, b, None, s.cri.axisM)
    return solvemdbi_ism(Df, d, b, s.cri.axisM, s.cri.axisC)


def lsc(s, ax, b):
    if s.opt['LinSolveCheck']:
        return rrs(ax, b)
    return None


def nonneg(s, Y):
    if s.opt['NonNegCoef']:
        Y = np.where(Y < 0.0, 0.0, Y)
    return Y


def cmod_nonneg(s, Y):
    Y = Y.copy()
    if s.opt['NonNegCoef']:
        Y[Y < 0.0] = 0.0
    return Y


def bndry(s, Y):
    """coefficients whose filter crosses the boundary are zero"""
    Y = Y.copy()
    if s.opt['NonNegCoef']:
        Y[Y < 0.0] = 0.0
    if s.opt['NoBndryCross']:
        for n in range(s.cri.dimN):
            Y[(slice(None),) * n + (slice(1 - s.D.shape[n], None),)] = 0.0
    return Y


def relax(s, AX, Y):
    """over-relaxation of AX towards the constraint-consistent point Y"""
    return s.rlx * AX + (1 - s.rlx) * Y


def residuals(s, r, d, rn, sn):
    ea = s.opt['AbsStopTol']
    er = s.opt['RelStopTol']
    if s.opt['AutoRho', 'StdResiduals']:
        return (r, d, np.sqrt(s.Nc) * ea + rn * er,
                np.sqrt(s.Nx) * ea + sn * er)
    if rn == 0.0:
        rn = 1.0
    if sn == 0.0:
        sn = 1.0
    return (r / rn, d / sn, np.sqrt(s.Nc) * ea / rn + er,
            np.sqrt(s.Nx) * ea / sn + er)


# ------------------------------------------------------------ admm.admm

def given(v, default):
    return default if v is None else v


def rhofactor(s, k, r, d):
    """factor by which the penalty parameter changes (residual balancing)"""
    o = s.opt
    if not o['AutoRho', 'Enabled'] or k == 0 or \
            np.mod(k + 1, o['AutoRho', 'Period']) != 0:
        return 1.0
    m = s.rho_tau
    if o['AutoRho', 'AutoScaling'] and r != 0.0 and d != 0.0:
        q = r / (s.rho_xi * d)
        m = np.sqrt(q if r > s.rho_xi * d else 1.0 / q)
        if m > s.rho_tau:
            m = s.rho_tau
    if r > s.rho_xi * s.rho_mu * d:
        return m
    if d > (s.rho_mu / s.rho_xi) * r:
        return 1.0 / m
    return 1.0


class admm__ADMM:
    def relax_AX(s):
        return {'AXnr': s.cnst_A(s.X),
                'AX': s.rlx * s.cnst_A(s.X) +
                (1 - s.rlx) * (s.cnst_c() - s.cnst_B(s.Y))}

    def ustep(s):
        return {'U': s.U + s.AX + s.cnst_B(s.Y) - s.cnst_c()}

    def rsdl_r(s, AX, Y):
        return AX + s.cnst_B(Y) - s.cnst_c()

    def rsdl_s(s, Yprev, Y):
        return s.rho * s.cnst_AT(s.cnst_B(Y - Yprev))

    def rsdl_rn(s, AX, Y):
        return max((nrm(AX), nrm(s.cnst_B(Y)), nrm(s.cnst_c())))

    def rsdl_sn(s, U):
        return s.rho * nrm(s.cnst_AT(U))

    def compute_residuals(s):
        r = nrm(s.rsdl_r(s.AXnr, s.Y))
        d = nrm(s.rsdl_s(s.Yprev, s.Y))
        rn = s.rsdl_rn(s.AXnr, s.Y)
        sn = s.rsdl_sn(s.U)
        return residuals(s, r, d, rn, sn)

    def eval_objfn(s):
        f = s.obfn_f(s.X)
        g = s.obfn_g(s.Y)
        return (f + g, f, g)

    def update_rho(s, k, r, d):
        f = rhofactor(s, k, r, d)
        return {'rho': s.rho * f, 'U': s.U / f}

    def attr_rho(s):
        o = s.opt
        return {'rho_tau': given(o['AutoRho', 'Scaling'], 2.0),
                'rho_mu': given(o['AutoRho', 'RsdlRatio'], 10.0),
                'rlx': given(o['RelaxParam'], 1.0)}

    def getmin(s):
        return s.X

    def var_x(s):
        return s.X

    def var_y(s):
        return s.Y

    def var_u(s):
        return s.U


class admm__ADMMEqual:
    def relax_AX(s):
        return {'AXnr': s.X, 'AX': relax(s, s.X, s.Y)}

    def ustep(s):
        return {'U': s.U + s.AX - s.Y}

    def rsdl_r(s, AX, Y):
        return AX - Y

    def rsdl_s(s, Yprev, Y):
        return s.rho * (Yprev - Y)

    def rsdl_rn(s, AX, Y):
        return max((nrm(AX), nrm(Y)))

    def rsdl_sn(s, U):
        return s.rho * nrm(U)

    def cnst_A(s, X):
        return X

    def cnst_AT(s, X):
        return X

    def cnst_B(s, Y):
        return -Y

    def cnst_c(s):
        return 0.0

    def obfn_fvar(s):
        return s.X if s.opt['fEvalX'] else s.Y

    def obfn_gvar(s):
        return s.Y if s.opt['gEvalY'] else s.X

    def eval_objfn(s):
        f = s.obfn_f(s.X if s.opt['fEvalX'] else s.Y)
        g = s.obfn_g(s.Y if s.opt['gEvalY'] else s.X)
        return (f + g, f, g)

    def getmin(s):
        return s.X if s.opt['ReturnX'] else s.Y


class admm__ADMMTwoBlockCnstrnt:
    def relax_AX(s):
        A = s.block_cat(s.cnst_A0(s.X), s.cnst_A1(s.X))
        c = s.block_cat(s.block_sep0(s.Y) + s.cnst_c0(),
                        s.block_sep1(s.Y) + s.cnst_c1())
        return {'AXnr': A, 'AX': relax(s, A, c)}

    def ustep(s):
        return {'U': s.U + s.AX - s.block_cat(
            s.block_sep0(s.Y) + s.cnst_c0(),
            s.block_sep1(s.Y) + s.cnst_c1())}

    def rsdl_r(s, AX, Y):
        return AX - s.block_cat(s.block_sep0(Y) + s.cnst_c0(),
                                s.block_sep1(Y) + s.cnst_c1())

    def rsdl_s(s, Yprev, Y):
        return s.rho * s.cnst_AT(Yprev - Y)

    def rsdl_rn(s, AX, Y):
        return max((nrm(AX), nrm(Y), np.sqrt(norm2(s.cnst_c0()) +
                                             norm2(s.cnst_c1()))))

    def rsdl_sn(s, U):
        return s.rho * nrm(s.cnst_AT(U))

    def block_sep0(s, Y):
        return Y[(slice(None),) * s.blkaxis + (slice(0, s.blkidx),)]

    def block_sep1(s, Y):
        return Y[(slice(None),) * s.blkaxis + (slice(s.blkidx, None),)]

    def block_sep(s, Y):
        return (s.block_sep0(Y), s.block_sep1(Y))

    def block_cat(s, Y0, Y1):
        return np.concatenate((Y0, Y1), axis=s.blkaxis)

    def cnst_A(s, X):
        return s.block_cat(s.cnst_A0(X), s.cnst_A1(X))

    def cnst_AT(s, Y):
        return s.cnst_A0T(s.block_sep0(Y)) + s.cnst_A1T(s.block_sep1(Y))

    def cnst_B(s, Y):
        return -Y

    def cnst_c0(s):
        return 0.0

    def cnst_c1(s):
        return 0.0

    def cnst_A0(s, X):
        return X

    def cnst_A1(s, X):
        return X

    def cnst_A0T(s, Y0):
        return Y0

    def cnst_A1T(s, Y1):
        return Y1

    def var_y0(s):
        return s.block_sep0(s.Y)

    def var_y1(s):
        return s.block_sep1(s.Y)

    def obfn_g0var(s):
        if s.opt['AuxVarObj']:
            return s.block_sep0(s.Y)
        return s.cnst_A0(s.X) - s.cnst_c0()

    def obfn_g1var(s):
        if s.opt['AuxVarObj']:
            return s.block_sep1(s.Y)
        return s.cnst_A1(s.X) - s.cnst_c1()

    def eval_objfn(s):
        f = s.obfn_f(s.X)
        g0 = s.obfn_g0(s.obfn_g0var())
        g1 = s.obfn_g1(s.obfn_g1var())
        return (f + g0 + g1, f, g0, g1)

    def getmin(s):
        if s.opt['ReturnVar'] == 'X':
            return s.X
        elif s.opt['ReturnVar'] == 'Y0':
            return s.block_sep0(s.Y)
        elif s.opt['ReturnVar'] == 'Y1':
            return s.block_sep1(s.Y)
        raise ValueError()


class admm__ADMMConsensus:
    def relax_AX(s):
        return {'AXnr': s.X, 'AX': relax(s, s.X, s.Y[..., np.newaxis])}

    def ystep(s):
        return {'Y': s.prox_g(np.mean(s.AX + s.U, axis=-1), s.Nb * s.rho)}

    def ustep(s):
        return {'U': s.U + s.AX - s.Y[..., np.newaxis]}

    def rsdl_r(s, AX, Y):
        return AX - Y[..., np.newaxis]

    def rsdl_s(s, Yprev, Y):
        return s.rho * np.sqrt(s.Nb) * (Yprev - Y)

    def rsdl_rn(s, AX, Y):
        return max((nrm(AX), np.sqrt(s.Nb) * nrm(Y)))

    def rsdl_sn(s, U):
        return s.rho * nrm(U)

    def obfn_gvar(s):
        return s.Y if s.opt['gEvalY'] else np.mean(s.X, axis=-1)

    def obfn_fvar(s, i):
        return s.X[..., i] if s.opt['fEvalX'] else s.Y

    def getmin(s):
        return s.Y

    def eval_objfn(s):
        f = 0.0
        for i in range(s.Nb):
            f = f + s.obfn_fi(s.X[..., i] if s.opt['fEvalX'] else s.Y, i)
        g = s.obfn_g(s.Y if s.opt['gEvalY'] else np.mean(s.X, axis=-1))
        return (f + g, f, g)


class admm__WeightedADMMConsensus:
    def ystep(s):
        return {'Y': s.prox_g(
            np.average(s.AX + s.U, axis=-1, weights=s.alpha),
            np.sum(s.alpha) * s.rho)}

    def rsdl_r(s, AX, Y):
        return np.sqrt(s.alphaxd) * (AX - Y[..., np.newaxis])

    def rsdl_s(s, Yprev, Y):
        return s.rho * np.sqrt(np.sum(s.alpha**2)) * (Yprev - Y)

    def rsdl_rn(s, AX, Y):
        return max((nrm(np.sqrt(s.alphaxd) * AX),
                    np.sqrt(np.sum(s.alpha**2)) * nrm(Y)))

    def obfn_gvar(s):
        return s.Y if s.opt['gEvalY'] else \
            np.average(s.X, axis=-1, weights=s.alpha)

    def eval_objfn(s):
        f = 0.0
        for i in range(s.Nb):
            f = f + s.alpha[i] * s.obfn_fi(
                s.X[..., i] if s.opt['fEvalX'] else s.Y, i)
        g = s.obfn_g(s.Y if s.opt['gEvalY'] else
                     np.average(s.X, axis=-1, weights=s.alpha))
        return (f + g, f, g)


# ------------------------------------------------------------ admm.bpdn

def bpdn_f(s):
    return norm2(s.D.dot(s.X if s.opt['fEvalX'] else s.Y) - s.S) / 2


def gv(s):
    return s.Y if s.opt['gEvalY'] else s.X


def bpdn_x(s, d):
    b = s.D.T.dot(s.S) + s.rho * (s.Y - s.U)
    X = cho_solve_ATAI(s.D, d, b, None, None)
    return {'X': X, 'xrrs': lsc(s, s.D.T.dot(s.D.dot(X)) + d * X, b)}


class bpdn__GenericBPDN:
    def xstep(s):
        return bpdn_x(s, s.rho)

    def obfn_dfd(s):
        return bpdn_f(s)

    def getcoef(s):
        return s.Y

    def itstat_extra(s):
        return (s.xrrs,)


class bpdn__BPDN:
    def ystep(s):
        return {'Y': cmod_nonneg(
            s, prox_l1(s.AX + s.U, s.lmbda / s.rho * s.wl1))}

    def eval_objfn(s):
        f = bpdn_f(s)
        r = l1(s.wl1 * gv(s))
        return (f + s.lmbda * r, f, r)


class bpdn__BPDNJoint:
    def ystep(s):
        return {'Y': cmod_nonneg(
            s, prox_sl1l2(s.AX + s.U, s.lmbda / s.rho * s.wl1,
                          s.mu / s.rho, axis=-1))}

    def eval_objfn(s):
        f = bpdn_f(s)
        r = l1(s.wl1 * gv(s))
        j = np.sum(np.sqrt(np.sum(gv(s)**2, axis=1)))
        return (f + s.lmbda * r + s.mu * j, f, r, j)


class bpdn__ElasticNet:
    def xstep(s):
        return bpdn_x(s, s.mu + s.rho)

    def eval_objfn(s):
        f = bpdn_f(s)
        r = l1(s.wl1 * gv(s))
        q = norm2(gv(s)) / 2
        return (f + s.lmbda * r + s.mu * q, f, r, q)


class bpdn__BPDNProjL1:
    def ystep(s):
        return {'Y': cmod_nonneg(
            s, proj_l1(s.AX + s.U, s.gamma, axis=0))}

    def eval_objfn(s):
        return (bpdn_f(s), nrm(proj_l1(gv(s), s.gamma, axis=0) - gv(s)))


class bpdn__MinL1InL2Ball:
    def xstep(s):
        V = s.Y - s.U
        return {'X': cho_solve_ATAI(
            s.D, 1.0, s.block_sep0(V) + s.D.T.dot(s.block_sep1(V)),
            None, None)}

    def ystep(s):
        V = s.AX + s.U
        Y0 = cmod_nonneg(s, prox_l1(s.block_sep0(V), s.wl1 / s.rho))
        Y1 = s.S + proj_l2(s.block_sep1(V) - s.S, s.epsilon, axis=0)
        return {'Y': s.block_cat(Y0, Y1)}

    def cnst_A1(s, X):
        return s.D.dot(X)

    def cnst_A1T(s, Y1):
        return s.D.T.dot(Y1)

    def eval_objfn(s):
        Y1 = s.obfn_g1var()
        return (l1(s.wl1 * s.obfn_g0var()),
                nrm(s.S + proj_l2(Y1 - s.S, s.epsilon, axis=0) - Y1))

    def rsdl_s(s, Yprev, Y):
        return s.rho * nrm(s.cnst_AT(s.U))

    def rsdl_sn(s, U):
        return s.rho * nrm(U)

    def getcoef(s):
        return s.X


# ------------------------------------------------------------ admm.cbpdn

def cb_x(s, d):
    Df = FP(s, s.D)
    b = DH(s, Df, F(s, s.S)) + s.rho * F(s, s.Y - s.U)
    Xf = csc(s, Df, d, b)
    return {'Xf': Xf, 'X': IF(s, Xf),
            'xrrs': lsc(s, DH(s, Df, DX(s, Df, Xf)) + d * Xf, b)}


def cb_xd(s, d):
    Df = FP(s, s.D)
    b = DH(s, Df, F(s, s.S)) + s.rho * F(s, s.Y - s.U)
    Xf = cscd(s, Df, d, b)
    return {'Xf': Xf, 'X': IF(s, Xf),
            'xrrs': lsc(s, DH(s, Df, DX(s, Df, Xf)) + d * Xf, b)}


def cb_fv(s):
    return s.Xf if s.opt['fEvalX'] else F(s, s.Y)


def cb_f(s):
    return FN2(s, DX(s, FP(s, s.D), cb_fv(s)) - F(s, s.S), s.S.shape) / 2


def cb_rec(s, Xf):
    return IF(s, np.sum(FP(s, s.D) * Xf, axis=s.cri.axisM))


class cbpdn__GenericConvBPDN:
    def xstep(s):
        return cb_x(s, s.rho)

    def obfn_fvarf(s):
        return cb_fv(s)

    def obfn_dfd(s):
        return cb_f(s)

    def getcoef(s):
        return s.X if s.opt['ReturnX'] else s.Y

    def reconstruct(s, X):
        return cb_rec(s, F(s, X))

    def itstat_extra(s):
        return (s.xrrs,)


class cbpdn__ConvBPDN:
    def ystep(s):
        return {'Y': bndry(s, prox_l1(s.AX + s.U,
                                      s.lmbda / s.rho * s.wl1))}

    def eval_objfn(s):
        f = cb_f(s)
        r = l1(s.wl1 * gv(s))
        return (f + s.lmbda * r, f, r)


class cbpdn__ConvBPDNJoint:
    def ystep(s):
        return {'Y': bndry(s, prox_sl1l2(
            s.AX + s.U, s.lmbda / s.rho * s.wl1,
            s.mu / s.rho * s.wl21, axis=s.cri.axisC))}

    def eval_objfn(s):
        f = cb_f(s)
        r = l1(s.wl1 * gv(s))
        j = np.sum(s.wl21 * np.sqrt(np.sum(gv(s)**2, axis=s.cri.axisC)))
        return (f + s.lmbda * r + s.mu * j, f, r, j)


class cbpdn__ConvElasticNet:
    def xstep(s):
        return cb_x(s, s.mu + s.rho)

    def eval_objfn(s):
        f = cb_f(s)
        r = l1(s.wl1 * gv(s))
        q = norm2(gv(s)) / 2
        return (f + s.lmbda * r + s.mu * q, f, r, q)


def ghg(s):
    return gradient_filters(s.cri.dimN + 3, s.cri.axisN, s.cri.Nv,
                            dtype=s.dtype)[1]


class cbpdn__ConvBPDNGradReg:
    def xstep(s):
        return cb_xd(s, s.mu * s.Wgrd * ghg(s) + s.rho)

    def eval_objfn(s):
        f = cb_f(s)
        r = l1(s.wl1 * gv(s))
        v = cb_fv(s)
        g = FN2(s, np.sqrt(s.Wgrd * ghg(s) * np.conj(v) * v),
                s.cri.Nv) / 2
        return (f + s.lmbda * r + s.mu * g, f, r, g)


def l1ball_axes(s):
    return s.cri.axisN + (s.cri.axisC, s.cri.axisM)


class cbpdn__ConvBPDNProjL1:
    def ystep(s):
        return {'Y': bndry(s, proj_l1(s.AX + s.U, s.gamma,
                                      axis=l1ball_axes(s)))}

    def eval_objfn(s):
        v = gv(s)
        return (cb_f(s), nrm(proj_l1(v, s.gamma, axis=l1ball_axes(s)) - v))


def tb_b(s, Df):
    """right hand side of the two-block x step"""
    V = s.Y - s.U
    V0 = s.block_sep0(V) + s.S
    return DH(s, Df, F(s, V0)) + F(s, s.block_sep1(V))


def tb_ystep(s, Y0, Y1):
    return {'Y': s.block_cat(Y0, bndry(s, Y1))}


class cbpdn__ConvTwoBlockCnstrnt:
    def xstep(s):
        Df = FP(s, s.D)
        b = tb_b(s, Df)
        Xf = csc(s, Df, 1.0, b)
        return {'Xf': Xf, 'X': IF(s, Xf),
                'xrrs': lsc(s, DH(s, Df, DX(s, Df, Xf)) + Xf, b)}

    def cnst_A0(s, X):
        return IF(s, DX(s, FP(s, s.D), F(s, X)))

    def cnst_A0T(s, Y0):
        return IF(s, DH(s, FP(s, s.D), F(s, Y0)))

    def cnst_c0(s):
        return s.S

    def block_sep0(s, Y):
        B = Y[(slice(None),) * s.cri.axisM + (slice(0, s.cri.Cd),)]
        if s.cri.C > 1 and s.cri.Cd > 1:
            B = np.swapaxes(B, s.cri.axisC, s.cri.axisM)
        return B

    def block_cat(s, Y0, Y1):
        if s.cri.C > 1 and s.cri.Cd > 1:
            Y0 = np.swapaxes(Y0, s.cri.axisC, s.cri.axisM)
        return np.concatenate((Y0, Y1), axis=s.cri.axisM)

    def obfn_g0var(s):
        if s.opt['AuxVarObj']:
            return s.block_sep0(s.Y)
        return IF(s, DX(s, FP(s, s.D), s.Xf)) - s.S

    def eval_objfn(s):
        g0 = s.obfn_g0(s.obfn_g0var())
        g1 = s.obfn_g1(s.obfn_g1var())
        return (g0 + g1, g0, g1)

    def rsdl_s(s, Yprev, Y):
        return s.rho * s.cnst_AT(s.U)

    def rsdl_sn(s, U):
        return s.rho * nrm(U)

    def reconstruct(s, X):
        return cb_rec(s, F(s, X))

    def getcoef(s):
        return s.getmin()

    def itstat_extra(s):
        return (s.xrrs,)


class cbpdn__ConvMinL1InL2Ball:
    def ystep(s):
        V = s.AX + s.U
        return tb_ystep(
            s, proj_l2(s.block_sep0(V) - s.S, s.epsilon, axis=s.cri.axisN),
            prox_l1(s.block_sep1(V), s.wl1 / s.rho))

    def eval_objfn(s):
        v = s.obfn_g0var()
        return (l1(s.wl1 * s.obfn_g1var()),
                nrm(proj_l2(v, s.epsilon, axis=s.cri.axisN) - v))


class cbpdn__ConvBPDNMaskDcpl:
    def ystep(s):
        V = s.AX + s.U
        return tb_ystep(
            s, s.rho * (s.block_sep0(V) - s.S) / (s.W**2 + s.rho),
            prox_l1(s.block_sep1(V), s.lmbda / s.rho * s.wl1))

    def eval_objfn(s):
        f = norm2(s.W * s.obfn_g0var()) / 2
        r = l1(s.wl1 * s.obfn_g1var())
        return (f + s.lmbda * r, f, r)


class cbpdn__ConvL1L1Grd:
    def xstep(s):
        Df = FP(s, s.D)
        b = tb_b(s, Df)
        d = s.mu / s.rho * s.Wgrd * ghg(s) + 1.0
        Xf = cscd(s, Df, d, b)
        return {'Xf': Xf, 'X': IF(s, Xf),
                'xrrs': lsc(s, DH(s, Df, DX(s, Df, Xf)) + d * Xf, b)}

    def ystep(s):
        V = s.AX + s.U
        return tb_ystep(
            s, prox_l1(s.block_sep0(V) - s.S, s.W / s.rho),
            prox_l1(s.block_sep1(V), s.lmbda / s.rho * s.wl1))

    def eval_objfn(s):
        f = l1(s.W * s.obfn_g0var())
        r = l1(s.wl1 * s.obfn_g1var())
        g = FN2(s, np.sqrt(s.Wgrd * ghg(s) * np.conj(s.Xf) * s.Xf),
                s.cri.Nv) / 2
        return (f + s.lmbda * r + s.mu * g, f, r, g)

    def rsdl_s(s, Yprev, Y):
        return s.rho * s.cnst_AT(Yprev - Y)

    def rsdl_sn(s, U):
        return s.rho * nrm(s.cnst_AT(U))


# ------------------------------------------------------------ admm.cbpdnin

class cbpdnin__ConvBPDNInhib:
    def ystep(s):
        wml, wms = s.wml, s.wms
        w = s.lmbda * s.wl1
        if not ((s.Wg is None or s.mu == 0) and s.gamma == 0):
            w = w + s.mu * s.wml + s.gamma * s.wms
            a = rfftn(np.abs(s.X), s.cri.Nv, s.cri.axisN)
            if s.mu > 0 and s.Wg is not None:
                x = irfftn(s.Whfl * a, s.cri.Nv, s.cri.axisN)
                wml = s.smooth * wml + (1 - s.smooth) * (
                    np.dot(np.dot(x, s.Wg.T), s.Wg) -
                    np.sum(s.Wg, axis=0) * x)
            if s.gamma > 0:
                wms = s.smooth * wms + (1 - s.smooth) * irfftn(
                    s.Whfs * a, s.cri.Nv, s.cri.axisN)
        return {'Y': bndry(s, prox_l1(s.AX + s.U, w / s.rho)),
                'wml': wml, 'wms': wms}

    def eval_objfn(s):
        f = cb_f(s)
        r = l1(s.wl1 * gv(s))
        m = l1(s.wml * gv(s))
        g = l1(s.wms * gv(s))
        return (f + s.lmbda * r + s.mu * m + s.gamma * g, f, r, m, g)


# ------------------------------------------------------------ admm.cbpdntv

def tv_f(s, v):
    return rfl2norm2(DX(s, FP(s, s.D), v) - F(s, s.S), s.S.shape,
                     s.cri.axisN) / 2


def gf(s):
    return gradient_filters(s.cri.dimN + 3, s.cri.axisN, s.cri.Nv,
                            dtype=s.dtype)[0]


class cbpdntv__ConvBPDNScalarTV:
    def xstep(s):
        Df = FP(s, s.D)
        Vf = F(s, s.Y - s.U)
        d = s.rho * s.Wtv**2 * ghg(s) + s.rho
        b = DH(s, Df, F(s, s.S)) + s.rho * (
            Vf[..., -1] + s.Wtv * np.sum(np.conj(gf(s)) * Vf[..., 0:-1],
                                         axis=-1))
        Xf = cscd(s, Df, d, b)
        return {'Xf': Xf, 'X': IF(s, Xf),
                'xrrs': lsc(s, DH(s, Df, DX(s, Df, Xf)) + d * Xf, b)}

    def ystep(s):
        V = s.AX + s.U
        Y = s.Y.copy()
        Y[..., 0:-1] = prox_l2(V[..., 0:-1], s.mu / s.rho, axis=-1)
        Y[..., -1] = prox_l1(V[..., -1], s.lmbda / s.rho * s.Wl1)
        return {'Y': Y}

    def cnst_A0(s, X):
        return s.Wtv[..., np.newaxis] * irfftn(
            gf(s) * rfftn(X, None, s.cri.axisN)[..., np.newaxis],
            s.cri.Nv, s.cri.axisN)

    def cnst_A0T(s, Y):
        return s.Wtv[..., np.newaxis] * irfftn(
            np.conj(gf(s)) * rfftn(Y, None, s.cri.axisN)[..., 0:-1],
            s.cri.Nv, s.cri.axisN)

    def cnst_A1(s, X):
        return X[..., np.newaxis]

    def cnst_A1T(s, Y):
        return Y[..., -1]

    def cnst_A(s, X):
        return np.concatenate((s.cnst_A0(X), X[..., np.newaxis]), axis=-1)

    def cnst_AT(s, Y):
        return np.sum(s.cnst_A0T(Y), axis=-1) + Y[..., -1]

    def cnst_B(s, Y):
        return -Y

    def cnst_c(s):
        return 0.0

    def relax_AX(s):
        A = s.cnst_A(s.X)
        return {'AXnr': A, 'AX': relax(s, A, s.Y)}

    def eval_objfn(s):
        f = tv_f(s, s.Xf if s.opt['fEvalX'] else F(s, s.Y[..., -1]))
        v = s.Y if s.opt['gEvalY'] else s.AXnr
        r = l1(s.Wl1 * v[..., -1:])
        t = np.sum(np.sqrt(np.sum(v[..., 0:-1]**2, axis=-1)))
        return (f + s.lmbda * r + s.mu * t, f, r, t)

    def getmin(s):
        return s.X if s.opt['ReturnX'] else s.Y[..., -1:][..., 0]

    def reconstruct(s, X):
        return cb_rec(s, F(s, X))

    def itstat_extra(s):
        return (s.xrrs,)


class cbpdntv__ConvBPDNVectorTV:
    def ystep(s):
        V = s.AX + s.U
        Y = s.Y.copy()
        Y[..., 0:-1] = prox_l2(V[..., 0:-1], s.mu / s.rho,
                               axis=(s.cri.axisM, -1))
        Y[..., -1] = prox_l1(V[..., -1], s.lmbda / s.rho * s.Wl1)
        return {'Y': Y}

    def eval_objfn(s):
        f = tv_f(s, s.Xf if s.opt['fEvalX'] else F(s, s.Y[..., -1]))
        v = s.Y if s.opt['gEvalY'] else s.AXnr
        r = l1(s.Wl1 * v[..., -1:])
        t = np.sum(np.sqrt(np.sum(v[..., 0:-1]**2,
                                  axis=(s.cri.axisM, -1))))
        return (f + s.lmbda * r + s.mu * t, f, r, t)


def gdf(s):
    return gf(s) * (s.Wtv * FP(s, s.D))[..., np.newaxis]


class cbpdntv__ConvBPDNRecTV:
    def ystep(s):
        V = s.AX + s.U
        Y = s.Y.copy()
        s.block_sep0(Y)[:] = prox_l1(s.block_sep0(V),
                                     s.lmbda / s.rho * s.Wl1)
        s.block_sep1(Y)[:] = prox_l2(s.block_sep1(V), s.mu / s.rho,
                                     axis=(s.cri.axisC, -1))
        return {'Y': Y}

    def cnst_A0(s, X):
        return X

    def cnst_A0T(s, Y0):
        return Y0

    def cnst_A1(s, X):
        return irfftn(dsum(gdf(s), F(s, X)[..., np.newaxis], s.cri.axisM),
                      s.cri.Nv, s.cri.axisN)

    def cnst_A(s, X):
        return s.block_cat(X, s.cnst_A1(X))

    def cnst_AT(s, Y):
        r = np.sum(irfftn(np.conj(gdf(s)) * F(s, s.block_sep1(Y)),
                          s.cri.Nv, s.cri.axisN), axis=-1)
        if s.cri.Cd > 1:
            r = np.sum(r, axis=s.cri.axisC, keepdims=True)
        return s.block_sep0(Y) + r

    def cnst_B(s, Y):
        return -Y

    def cnst_c(s):
        return 0.0

    def relax_AX(s):
        A = s.cnst_A(s.X)
        return {'AXnr': A, 'AX': relax(s, A, s.Y)}

    def eval_objfn(s):
        f = tv_f(s, s.Xf if s.opt['fEvalX'] else F(s, s.block_sep0(s.Y)))
        v = s.Y if s.opt['gEvalY'] else s.AXnr
        r = l1(s.Wl1 * s.block_sep0(v))
        t = np.sum(np.sqrt(np.sum(s.block_sep1(v)**2,
                                  axis=(s.cri.axisC, -1))))
        return (f + s.lmbda * r + s.mu * t, f, r, t)

    def getmin(s):
        return s.X if s.opt['ReturnX'] else s.block_sep0(s.Y)

    def reconstruct(s, X):
        return cb_rec(s, F(s, X))

    def itstat_extra(s):
        return (s.xrrs,)


# ------------------------------------------------------------ admm.ccmod

def pcn(s, X):
    """projection of a dictionary onto its constraint set"""
    return cr.getPcn(s.cri.dsz, s.cri.Nv, s.cri.dimN, s.cri.dimCd,
                     zm=s.opt['ZeroMean'])(X)


def ZX(s, Zf, Xf):
    """sum over filters of coefficient maps times filters"""
    return dsum(Zf, Xf, s.cri.axisM)


def ZH(s, Zf, Sf):
    """adjoint: sum over training images"""
    return dsum(np.conj(Zf), Sf, s.cri.axisK)


def ccmod_b(s, Zf):
    return ZH(s, Zf, F(s, s.S)) + s.rho * F(s, s.Y - s.U)


def ccmod_lsc(s, Zf, rho, Xf, b):
    return lsc(s, ZH(s, Zf, ZX(s, Zf, Xf)) + rho * Xf, b)


def coefmaps(s, Z):
    """coefficient maps in internal layout: channels of the signal that are
    coded with a single-channel dictionary count as separate signals"""
    if s.cri.Cd == 1 and s.cri.C > 1:
        Z = Z.reshape(s.cri.Nv + (1, s.cri.Cx * s.cri.K, s.cri.M))
    return Z


class ccmod__ConvCnstrMODBase:
    def ystep(s):
        return {'Y': pcn(s, s.AX + s.U)}

    def eval_objfn(s):
        v = s.Xf if s.opt['fEvalX'] else F(s, s.Y)
        Ef = ZX(s, FP(s, s.Z), v) - F(s, s.S)
        g = s.Y if s.opt['gEvalY'] else s.X
        return (FN2(s, Ef, s.S.shape) / 2, nrm(pcn(s, g) - g))

    def reconstruct(s):
        return IF(s, np.sum(FP(s, s.Z) * s.Xf, axis=s.cri.axisM))

    def getdict(s):
        return cr.bcrop(s.Y, s.cri.dsz, s.cri.dimN)

    def itstat_extra(s):
        return (s.xrrs,)

    def setcoef(s, Z):
        return {'Z': coefmaps(s, Z)}


class ccmod__ConvCnstrMOD_IterSM:
    def xstep(s):
        Zf = FP(s, s.Z)
        b = ccmod_b(s, Zf)
        Xf = solvemdbi_ism(Zf, s.rho, b, s.cri.axisM, s.cri.axisK)
        return {'Xf': Xf, 'X': IF(s, Xf),
                'xrrs': ccmod_lsc(s, Zf, s.rho, Xf, b)}


class ccmod__ConvCnstrMOD_CG:
    def xstep(s):
        Zf = FP(s, s.Z)
        b = ccmod_b(s, Zf)
        Xf, cgit = solvemdbi_cg(Zf, s.rho, b, s.cri.axisM, s.cri.axisK,
                                s.opt['CG', 'StopTol'],
                                s.opt['CG', 'MaxIter'], s.Xf)
        return {'Xf': Xf, 'X': IF(s, Xf), 'cgit': cgit,
                'xrrs': ccmod_lsc(s, Zf, s.rho, Xf, b)}

    def itstat_extra(s):
        return (s.xrrs, s.cgit)


def cns_x(s, rho, Sf):
    """each x_i minimises its own data term plus the proximity term"""
    Zf = FP(s, s.Z)
    ZSf = np.conj(Zf) * Sf
    Xf = s.Xf.copy()
    X = s.X.copy()
    for i in range(s.Nb):
        if s.cri.Cd > 1:
            b = np.take(ZSf, [i], axis=s.cri.axisK) + \
                rho * F(s, s.Y - s.U[..., i])
            Xf[..., i] = solvedbi_sm(np.take(Zf, [i], axis=s.cri.axisK),
                                     rho, b, None, s.cri.axisM)
            X[..., i] = IF(s, Xf[..., i])
        else:
            b = np.swapaxes(ZSf[..., np.newaxis], s.cri.axisK, -1) + \
                rho * F(s, s.Y[..., np.newaxis] - s.U)
            Xf[..., i] = solvedbi_sm(Zf[..., [i], :], rho, b[..., i], None,
                                     s.cri.axisM)
    if s.cri.Cd == 1:
        X = IF(s, Xf)
    r = None
    if s.opt['LinSolveCheck']:
        b = np.sum(ZSf, axis=s.cri.axisK, keepdims=True) + rho * F(
            s, np.sum(s.Y[..., np.newaxis] - s.U, axis=-1))
        V = np.swapaxes(Xf, s.cri.axisK, -1)[..., 0]
        ax = np.sum(np.conj(Zf) * ZX(s, Zf, V) + rho * V, axis=s.cri.axisK,
                    keepdims=True)
        r = rrs(ax, b)
    return {'Xf': Xf, 'X': X, 'xrrs': r}


def cns_fv(s):
    if s.opt['fEvalX']:
        return np.swapaxes(s.Xf, s.cri.axisK, -1)[..., 0]
    return F(s, s.Y)


class ccmod__ConvCnstrMOD_Consensus:
    def xstep(s):
        return cns_x(s, s.rho, F(s, s.S))

    def ystep(s):
        return {'Y': pcn(s, np.mean(s.AX + s.U, axis=-1))}

    def eval_objfn(s):
        Ef = ZX(s, FP(s, s.Z), cns_fv(s)) - F(s, s.S)
        g = s.Y if s.opt['gEvalY'] else np.mean(s.X, axis=-1)
        return (FN2(s, Ef, s.S.shape) / 2, nrm(pcn(s, g) - g))

    def getdict(s):
        return cr.bcrop(s.Y, s.cri.dsz, s.cri.dimN)

    def itstat_extra(s):
        return (s.xrrs,)

    def setcoef(s, Z):
        return {'Z': coefmaps(s, Z)}


# ------------------------------------------------------------ admm.ccmodmd

def mdcpl_b(s, Zf):
    V = s.Y - s.U
    return ZH(s, Zf, F(s, s.block_sep0(V) + s.S)) + F(s, s.block_sep1(V))


class ccmodmd__ConvCnstrMODMaskDcplBase:
    def ystep(s):
        V = s.AX + s.U
        return {'Y': s.block_cat(
            s.rho * (s.block_sep0(V) - s.S) / (s.W**2 + s.rho),
            pcn(s, s.block_sep1(V)))}

    def block_sep0(s, Y):
        return np.swapaxes(Y[(slice(None),) * s.cri.axisM +
                             (slice(0, s.blkidx),)], s.cri.axisK,
                           s.cri.axisM)

    def block_cat(s, Y0, Y1):
        return np.concatenate((np.swapaxes(Y0, s.cri.axisK, s.cri.axisM),
                               Y1), axis=s.cri.axisM)

    def cnst_A0(s, X):
        return IF(s, ZX(s, FP(s, s.Z), F(s, X)))

    def cnst_A0T(s, Y0):
        return IF(s, ZH(s, FP(s, s.Z), F(s, Y0)))

    def cnst_c0(s):
        return s.S

    def obfn_g0var(s):
        if s.opt['AuxVarObj']:
            return s.block_sep0(s.Y)
        return IF(s, ZX(s, FP(s, s.Z), s.Xf)) - s.S

    def eval_objfn(s):
        g1 = s.block_sep1(s.Y) if s.opt['AuxVarObj'] else s.X
        return (norm2(s.W * s.obfn_g0var()) / 2, nrm(pcn(s, g1) - g1))

    def rsdl_s(s, Yprev, Y):
        return s.rho * nrm(s.cnst_AT(s.U))

    def rsdl_sn(s, U):
        return s.rho * nrm(U)

    def reconstruct(s):
        return IF(s, np.sum(FP(s, s.Z) * s.Xf, axis=s.cri.axisM))

    def getdict(s):
        return cr.bcrop(s.block_sep1(s.Y), s.cri.dsz, s.cri.dimN)

    def itstat_extra(s):
        return (s.xrrs,)

    def setcoef(s, Z):
        return {'Z': coefmaps(s, Z)}


class ccmodmd__ConvCnstrMODMaskDcpl_IterSM:
    def xstep(s):
        Zf = FP(s, s.Z)
        b = mdcpl_b(s, Zf)
        Xf = solvemdbi_ism(Zf, 1.0, b, s.cri.axisM, s.cri.axisK)
        return {'Xf': Xf, 'X': IF(s, Xf),
                'xrrs': ccmod_lsc(s, Zf, 1.0, Xf, b)}


class ccmodmd__ConvCnstrMODMaskDcpl_CG:
    def xstep(s):
        Zf = FP(s, s.Z)
        b = mdcpl_b(s, Zf)
        Xf, cgit = solvemdbi_cg(Zf, 1.0, b, s.cri.axisM, s.cri.axisK,
                                s.opt['CG', 'StopTol'],
                                s.opt['CG', 'MaxIter'], s.Xf)
        return {'Xf': Xf, 'X': IF(s, Xf), 'cgit': cgit,
                'xrrs': ccmod_lsc(s, Zf, 1.0, Xf, b)}

    def itstat_extra(s):
        return (s.xrrs, s.cgit)


def mdcns_AX1(s):
    return IF(s, ZX(s, FP(s, s.Z), np.swapaxes(s.Xf, s.cri.axisK,
                                               -1)[..., 0]))


class ccmodmd__ConvCnstrMODMaskDcpl_Consensus:
    def update_rho(s, k, r, d):
        f = rhofactor(s, k, r, d)
        return {'rho': s.rho * f, 'U': s.U / f, 'U1': s.U1 / f}

    def xstep(s):
        return cns_x(s, 1.0, F(s, s.S) + F(s, s.Y1 - s.U1))

    def relax_AX(s):
        A = mdcns_AX1(s)
        return {'AXnr': s.X, 'AX': relax(s, s.X, s.Y[..., np.newaxis]),
                'AX1nr': A, 'AX1': relax(s, A, s.Y1 + s.S)}

    def ystep(s):
        return {'Y': pcn(s, np.mean(s.AX + s.U, axis=-1)),
                'Y1': s.rho * (s.AX1 + s.U1 - s.S) / (s.W**2 + s.rho)}

    def ustep(s):
        return {'U': s.U + s.AX - s.Y[..., np.newaxis],
                'U1': s.U1 + s.AX1 - s.Y1 - s.S}

    def eval_objfn(s):
        Ef = ZX(s, FP(s, s.Z), cns_fv(s)) - F(s, s.S)
        g = s.Y if s.opt['gEvalY'] else np.mean(s.X, axis=-1)
        return (norm2(s.W * IF(s, Ef)) / 2, nrm(pcn(s, g) - g))

    def compute_residuals(s):
        r = np.sqrt(np.sum((s.AXnr - s.Y[..., np.newaxis])**2) +
                    np.sum((s.AX1nr - s.Y1 - s.S)**2))
        d = s.rho * nrm(np.swapaxes(s.U, s.cri.axisK, -1)[..., 0] +
                        IF(s, np.conj(FP(s, s.Z)) * FP(s, s.U1)))
        rn = max(np.sqrt(norm2(s.AXnr) + norm2(s.AX1nr)),
                 np.sqrt(norm2(s.Y) + norm2(s.Y1)), nrm(s.S))
        sn = s.rho * np.sqrt(norm2(s.U) + norm2(s.U1))
        return residuals(s, r, d, rn, sn)


# ------------------------------------------------------------ cmod

def cm_Pcn(s, D):
    """columns of zero mean (if requested) and unit norm"""
    if s.opt['ZeroMean']:
        D = D - np.mean(D, 0)
    n = np.sqrt(np.sum(D**2, 0))
    return D / np.where(n == 0, 1.0, n)


class cmod__CnstrMOD:
    def xstep(s):
        lu, piv = lu_factor(s.Z, s.rho)
        return {'X': lu_solve_AATI(
            s.Z, s.rho, s.S.dot(s.Z.T) + s.rho * (s.Y - s.U), lu, piv)}

    def ystep(s):
        return {'Y': cm_Pcn(s, s.AX + s.U)}

    def eval_objfn(s):
        f = s.X if s.opt['fEvalX'] else s.Y
        g = s.Y if s.opt['gEvalY'] else s.X
        return (0.5 * norm2(f.dot(s.Z) - s.S), nrm(cm_Pcn(s, g) - g))

    def getdict(s):
        return s.Y


# ------------------------------------------------------------ rpca

class rpca__RobustPCA:
    def xstep(s):
        x, ss = prox_nuclear(s.S - s.Y - s.U, 1.0 / s.rho)
        return {'X': x, 'ss': ss}

    def ystep(s):
        return {'Y': prox_l1(s.S - s.AX - s.U, s.lmbda / s.rho)}

    def cnst_A(s, X):
        return X

    def cnst_AT(s, X):
        return X

    def cnst_B(s, Y):
        return Y

    def cnst_c(s):
        return s.S

    def obfn_fvar(s):
        return s.X if s.opt['fEvalX'] else s.S - s.Y

    def obfn_gvar(s):
        return s.Y if s.opt['gEvalY'] else s.S - s.X

    def eval_objfn(s):
        if s.opt['fEvalX']:
            n = np.sum(s.ss)
        else:
            n = norm_nuclear(s.S - s.Y)
        g = s.Y if s.opt['gEvalY'] else s.S - s.X
        l = l1(g)
        return (n + s.lmbda * l, n, l, nrm(s.X + s.Y - s.S))


# ------------------------------------------------------------ spline

def sp_L(s):
    """eigenvalues of the Laplacian with symmetric boundary"""
    L = 0.0
    for ax in s.axes:
        shp = [1] * s.S.ndim
        shp[ax] = s.S.shape[ax]
        L = L + (2.0 * np.cos(np.arange(0, shp[ax]).reshape(shp) * np.pi /
                              float(shp[ax])) - 2.0)
    return L


class spline__SplineL1:
    def attr_Alpha(s):
        return {'Alpha': sp_L(s)}

    def xstep(s):
        L = s.Alpha
        G = 1.0 + s.lmbda / s.rho * L**2
        b = s.Y + s.S - s.U
        x = idctii(dctii(b, axes=s.axes) / G, axes=s.axes)
        return {'X': x, 'xrrs': lsc(
            s, x + s.lmbda / s.rho * idctii(
                L**2 * dctii(x, axes=s.axes), axes=s.axes), b)}

    def ystep(s):
        return {'Y': prox_l1(s.AX - s.S + s.U,
                             s.opt['DFidWeight'] / s.rho)}

    def cnst_A(s, X):
        return X

    def cnst_AT(s, X):
        return X

    def cnst_B(s, Y):
        return -Y

    def cnst_c(s):
        return s.S

    def obfn_gvar(s):
        return s.Y if s.opt['gEvalY'] else s.X - s.S

    def eval_objfn(s):
        g = s.Y if s.opt['gEvalY'] else s.X - s.S
        d = l1(s.opt['DFidWeight'] * g)
        r = 0.5 * norm2(idctii(s.Alpha * dctii(s.X, axes=s.axes),
                               axes=s.axes))
        return (d + s.lmbda * r, d, r)


# ------------------------------------------------------------ tv

def tv_lcw(s):
    """number of neighbours along the TV axes"""
    shp = [1] * s.S.ndim
    for ax in s.axes:
        shp[ax] = s.S.shape[ax]
    w = 2 * len(s.axes) * np.ones(shp)
    for ax in s.axes:
        w[(slice(None),) * ax + ([0, -1],)] -= 1.0
    return w


def tv_w(s):
    """TV weight, broadcast over the gradient axis"""
    w = np.asarray(s.opt['TVWeight'])
    if hasattr(w, 'ndim') and w.ndim == s.S.ndim:
        return w[..., np.newaxis]
    return w


def tv_gs(s, S, X, b, rho, W2):
    """one sweep for (W2 I + rho A^T A) x = W2 S + rho b"""
    n = 0.0
    for ax in s.axes:
        n = n + zpad(X[(slice(None),) * ax + (slice(0, -1),)], (1, 0), ax)
        n = n + zpad(X[(slice(None),) * ax + (slice(1, None),)], (0, 1), ax)
    return (rho * (n + b) + W2 * S) / (W2 + rho * tv_lcw(s))


def tv_g(s, X):
    return [grad(X, ax)[..., np.newaxis] for ax in s.axes]


def tv_mag(s, g):
    """weighted gradient magnitude"""
    if not np.isrealobj(s.S):
        g = np.abs(g)
    return np.sum(s.opt['TVWeight'] * np.sqrt(np.sum(g**2, axis=s.saxes)))


class tvl1__TVL1Denoise:
    def attr_lcw(s):
        return {'lcw': tv_lcw(s)}

    def GaussSeidelStep(s, S, X, ATYU, rho, lcw, W2):
        n = 0.0
        for ax in s.axes:
            n = n + zpad(X[(slice(None),) * ax + (slice(0, -1),)], (1, 0),
                         ax)
            n = n + zpad(X[(slice(None),) * ax + (slice(1, None),)], (0, 1),
                         ax)
        return (rho * (n + ATYU) + W2 * S) / (W2 + rho * lcw)

    def xstep(s):
        ngsit = 0
        gsrrs = np.inf
        X = s.X
        YU = s.Y - s.U
        S = s.S + YU[..., -1]
        b = 0.0
        for n, ax in enumerate(s.axes):
            b = b + gradT(YU[..., n], ax)
        while gsrrs > s.opt['GSTol'] and ngsit < s.opt['MaxGSIter']:
            X = s.GaussSeidelStep(S, X, b, 1.0, s.lcw, 1.0)
            gsrrs = rrs(s.cnst_AT(s.cnst_A(X)),
                        s.cnst_AT(s.cnst_c() + YU))
            ngsit += 1
        return {'X': X, 'xs': (ngsit, gsrrs)}

    def ystep(s):
        Y = s.Y.copy()
        Y[..., 0:-1] = prox_l2(s.AX[..., 0:-1] + s.U[..., 0:-1],
                               s.lmbda / s.rho * tv_w(s), axis=s.saxes)
        Y[..., -1] = prox_l1(s.AX[..., -1] + s.U[..., -1] - s.S,
                             s.opt['DFidWeight'] / s.rho)
        return {'Y': Y}

    def cnst_A(s, X):
        return np.concatenate(tv_g(s, X) + [X[..., np.newaxis]], axis=X.ndim)

    def cnst_AT(s, X):
        r = X[..., -1]
        for n, ax in enumerate(s.axes):
            r = r + gradT(X[..., n], ax)
        return r

    def cnst_B(s, Y):
        return -Y

    def cnst_c(s):
        c = np.zeros(s.S.shape + (len(s.axes) + 1,))
        c[..., -1] = s.S
        return c

    def rsdl_s(s, Yprev, Y):
        return s.rho * nrm(s.cnst_AT(s.U))

    def rsdl_sn(s, U):
        return s.rho * nrm(U)

    def obfn_gvar(s):
        return s.Y if s.opt['gEvalY'] else s.cnst_A(s.X) - s.cnst_c()

    def eval_objfn(s):
        g = s.Y if s.opt['gEvalY'] else s.cnst_A(s.X) - s.cnst_c()
        d = l1(s.opt['DFidWeight'] * g[..., -1])
        r = tv_mag(s, g[..., 0:-1])
        return (d + s.lmbda * r, d, r)


def tv_F(s, x):
    if np.isrealobj(s.S):
        return rfftn(x, None, s.axes)
    return fftn(x, None, s.axes)


def tv_IF(s, x):
    shp = tuple([s.S.shape[i] for i in s.axes])
    if np.isrealobj(s.S):
        return irfftn(x, shp, s.axes)
    return ifftn(x, shp, s.axes)


def tv_Af(s):
    shp = tuple([s.S.shape[i] for i in s.axes])
    if np.isrealobj(s.S):
        return rfftn(s.A, shp, s.axes)
    return fftn(s.A, shp, s.axes)


def tv_G(s):
    shp = tuple([s.S.shape[i] for i in s.axes])
    return gradient_filters(s.S.ndim, s.axes, shp)


class tvl1__TVL1Deconv:
    def xstep(s):
        A = tv_Af(s)
        G, GHG = tv_G(s)
        GA = np.concatenate((G, A[..., np.newaxis]), axis=G.ndim - 1)
        b = np.conj(A) * tv_F(s, s.S) + np.sum(
            np.conj(GA) * tv_F(s, s.Y - s.U), axis=s.Y.ndim - 1)
        H = np.conj(A) * A + GHG
        xf = b / H
        return {'Xf': xf, 'X': tv_IF(s, xf), 'xrrs': lsc(s, H * xf, b)}

    def ystep(s):
        Y = s.Y.copy()
        Y[..., 0:-1] = prox_l2(s.AX[..., 0:-1] + s.U[..., 0:-1],
                               s.lmbda / s.rho * tv_w(s), axis=s.saxes)
        Y[..., -1] = prox_l1(s.AX[..., -1] + s.U[..., -1] - s.S,
                             s.opt['DFidWeight'] / s.rho)
        return {'Y': Y}

    def cnst_A(s, X):
        A = tv_Af(s)
        G, GHG = tv_G(s)
        GA = np.concatenate((G, A[..., np.newaxis]), axis=G.ndim - 1)
        return tv_IF(s, GA * tv_F(s, X)[..., np.newaxis])

    def cnst_AT(s, X):
        A = tv_Af(s)
        G, GHG = tv_G(s)
        GA = np.concatenate((G, A[..., np.newaxis]), axis=G.ndim - 1)
        return np.sum(tv_IF(s, np.conj(GA) * tv_F(s, X)), axis=s.Y.ndim - 1)

    def cnst_B(s, Y):
        return -Y

    def cnst_c(s):
        c = np.zeros(s.S.shape + (len(s.axes) + 1,))
        c[..., -1] = s.S
        return c

    def rsdl_s(s, Yprev, Y):
        return s.rho * nrm(s.cnst_AT(s.U))

    def rsdl_sn(s, U):
        return s.rho * nrm(U)

    def eval_objfn(s):
        g = s.Y if s.opt['gEvalY'] else s.cnst_A(None, s.Xf) - s.cnst_c()
        d = np.sum(s.opt['DFidWeight'] * np.abs(g[..., -1]))
        r = tv_mag(s, g[..., 0:-1])
        return (d + s.lmbda * r, d, r)


class tvl2__TVL2Denoise:
    def attr_lcw(s):
        return {'lcw': tv_lcw(s)}

    def GaussSeidelStep(s, S, X, ATYU, rho, lcw, W2):
        n = 0.0
        for ax in s.axes:
            n = n + zpad(X[(slice(None),) * ax + (slice(0, -1),)], (1, 0),
                         ax)
            n = n + zpad(X[(slice(None),) * ax + (slice(1, None),)], (0, 1),
                         ax)
        return (rho * (n + ATYU) + W2 * S) / (W2 + rho * lcw)

    def xstep(s):
        ngsit = 0
        gsrrs = np.inf
        X = s.X
        W2 = s.opt['DFidWeight']**2
        b = s.cnst_AT(s.Y - s.U)
        while gsrrs > s.opt['GSTol'] and ngsit < s.opt['MaxGSIter']:
            X = s.GaussSeidelStep(s.S, X, b, s.rho, s.lcw, W2)
            gsrrs = rrs(s.rho * s.cnst_AT(s.cnst_A(X)) + W2 * X,
                        W2 * s.S + s.rho * b)
            ngsit += 1
        return {'X': X, 'xs': (ngsit, gsrrs)}

    def ystep(s):
        return {'Y': prox_l2(s.AX + s.U, s.lmbda / s.rho * tv_w(s),
                             axis=s.saxes)}

    def cnst_A(s, X):
        return np.concatenate(tv_g(s, X), axis=X.ndim)

    def cnst_AT(s, X):
        r = 0.0
        for n, ax in enumerate(s.axes):
            r = r + gradT(X[..., n], ax)
        return r

    def cnst_B(s, Y):
        return -Y

    def cnst_c(s):
        return np.zeros(s.S.shape + (len(s.axes),))

    def obfn_gvar(s):
        return s.Y if s.opt['gEvalY'] else s.cnst_A(s.X)

    def eval_objfn(s):
        g = s.Y if s.opt['gEvalY'] else s.cnst_A(s.X)
        d = 0.5 * norm2(s.opt['DFidWeight'] * (s.X - s.S))
        r = tv_mag(s, g)
        return (d + s.lmbda * r, d, r)


class tvl2__TVL2Deconv:
    def xstep(s):
        A = tv_Af(s)
        G, GHG = tv_G(s)
        b = np.conj(A) * tv_F(s, s.S) + s.rho * np.sum(
            np.conj(G) * tv_F(s, s.Y - s.U), axis=s.Y.ndim - 1)
        H = np.conj(A) * A + s.rho * GHG
        xf = b / H
        return {'Xf': xf, 'X': tv_IF(s, xf), 'xrrs': lsc(s, H * xf, b)}

    def ystep(s):
        return {'Y': prox_l2(s.AX + s.U, s.lmbda / s.rho * tv_w(s),
                             axis=s.saxes)}

    def cnst_A(s, X):
        G, GHG = tv_G(s)
        return tv_IF(s, G * tv_F(s, X)[..., np.newaxis])

    def cnst_AT(s, X):
        G, GHG = tv_G(s)
        return np.sum(tv_IF(s, np.conj(G) * tv_F(s, X)), axis=s.Y.ndim - 1)

    def cnst_B(s, Y):
        return -Y

    def cnst_c(s):
        return 0.0

    def eval_objfn(s):
        e = tv_Af(s) * s.Xf - tv_F(s, s.S)
        if np.isrealobj(s.S):
            d = rfl2norm2(e, s.S.shape, axis=s.axes) / 2.0
        else:
            d = fl2norm2(e, axis=s.axes) / 2.0
        g = s.Y if s.opt['gEvalY'] else s.cnst_A(None, s.Xf)
        r = tv_mag(s, g)
        return (d + s.lmbda * r, d, r)


# ------------------------------------------------------------ pdcsc

def pd_eig(s):
    g, q = np.linalg.eigh(s.B.T.dot(s.B))
    shp = [1] * len(s.cri.shpD)
    shp[s.cri.axisC] = np.abs(g).shape[0]
    return np.sqrt(np.abs(g)).reshape(shp), q


def pd_F(s, x):
    return rfftn(x, None, s.cri.axisN)


def pd_IF(s, x):
    return irfftn(x, s.cri.Nv, s.cri.axisN)


def pd_Df(s):
    return rfftn(s.D, s.cri.Nv, s.cri.axisN)


def pd_C(s, B, x):
    return dot(B, x, axis=s.cri.axisC)


def pd_rec(s, Xf):
    return pd_C(s, s.B, np.sum(pd_Df(s) * Xf, axis=s.cri.axisM))


class pdcsc__ConvProdDictBPDN:
    def xstep(s):
        g, q = pd_eig(s)
        Df = pd_Df(s)
        DSf = np.conj(Df) * pd_F(s, s.S)
        z = pd_F(s, s.Y - s.U)
        b = pd_C(s, s.B.dot(q).T, DSf) + s.rho * pd_C(s, q.T, z)
        xh = solvedbi_sm(g * Df, s.rho, b, None, s.cri.axisM)
        Xf = pd_C(s, q, xh)
        ax = pd_C(s, s.B.T.dot(s.B), np.conj(Df) * DX(s, Df, Xf)) + \
            s.rho * Xf
        return {'Xf': Xf, 'X': pd_IF(s, Xf),
                'xrrs': lsc(s, ax, pd_C(s, s.B.T, DSf) + s.rho * z)}

    def obfn_dfd(s):
        Xf = s.Xf if s.opt['fEvalX'] else pd_F(s, s.Y)
        return rfl2norm2(pd_C(s, s.B, DX(s, pd_Df(s), Xf)) - pd_F(s, s.S),
                         s.S.shape, s.cri.axisN) / 2.0

    def eval_objfn(s):
        f = s.obfn_dfd()
        r = l1(s.wl1 * gv(s))
        return (f + s.lmbda * r, f, r)

    def reconstruct(s, X):
        return pd_IF(s, pd_rec(s, pd_F(s, X)))


class pdcsc__ConvProdDictBPDNJoint:
    def ystep(s):
        return {'Y': bndry(s, prox_sl1l2(
            s.AX + s.U, s.lmbda / s.rho * s.wl1, s.mu / s.rho,
            axis=s.cri.axisC))}

    def eval_objfn(s):
        f = s.obfn_dfd()
        r = l1(s.wl1 * gv(s))
        j = np.sum(np.sqrt(np.sum(gv(s)**2, axis=s.cri.axisC)))
        return (f + s.lmbda * r + s.mu * j, f, r, j)


def pd_ystep(s, Y0, Y1):
    Y = s.block_cat(Y0, Y1)
    if s.opt['NonNegCoef'] or s.opt['NoBndryCross']:
        Y = 'UNSPECIFIED'
    return {'Y': Y}


class pdcsc__ConvProdDictL1L1Grd:
    def ystep(s):
        V = s.AX + s.U
        return pd_ystep(
            s, prox_l1(s.block_sep0(V) - s.S, s.W / s.rho),
            prox_l1(s.block_sep1(V), s.lmbda / s.rho * s.wl1))

    def xstep(s):
        g, q = pd_eig(s)
        Df = pd_Df(s)
        V = s.Y - s.U
        s.block_sep0(V)[:] += s.S
        V = pd_F(s, V)
        z0 = s.block_sep0(V)
        z1 = s.block_sep1(V)
        d = s.mu / s.rho * s.Wgrd * ghg(s) + 1.0
        b = pd_C(s, s.B.dot(q).T, np.conj(Df) * z0) + pd_C(s, q.T, z1)
        xh = solvedbd_sm(g * Df, d, b, None, s.cri.axisM)
        Xf = pd_C(s, q, xh)
        ax = s.rho * (pd_C(s, s.B.T.dot(s.B), np.conj(Df) * DX(s, Df, Xf)) +
                      d * Xf)
        bb = s.rho * (pd_C(s, s.B.T, np.conj(Df) * z0) + z1)
        return {'Xf': Xf, 'X': pd_IF(s, Xf), 'xrrs': lsc(s, ax, bb)}

    def obfn_g0var(s):
        if s.opt['AuxVarObj']:
            return s.block_sep0(s.Y)
        return s.cnst_A0(None, s.Xf) - s.cnst_c0()

    def cnst_A0(s, X):
        return pd_IF(s, pd_C(s, s.B, DX(s, pd_Df(s), pd_F(s, X))))

    def cnst_A0T(s, Y0):
        return pd_IF(s, pd_C(s, s.B.T, np.conj(pd_Df(s)) * pd_F(s, Y0)))

    def block_sep0(s, Y):
        return Y[(slice(None),) * s.cri.axisC + (slice(0, s.y0I),)].reshape(
            Y.shape[0:s.cri.axisC] + s.y0shp[s.cri.axisC:])

    def block_sep1(s, Y):
        return Y[(slice(None),) * s.cri.axisC +
                 (slice(s.y0I, None),)].reshape(
            Y.shape[0:s.cri.axisC] + s.y1shp[s.cri.axisC:])

    def block_cat(s, Y0, Y1):
        return np.concatenate(
            (Y0.reshape(Y0.shape[0:s.cri.axisC] + (-1,)),
             Y1.reshape(Y1.shape[0:s.cri.axisC] + (-1,))),
            axis=s.cri.axisC)

    def eval_objfn(s):
        f = l1(s.W * s.obfn_g0var())
        r = l1(s.wl1 * s.obfn_g1var())
        g = rfl2norm2(np.sqrt(s.Wgrd * ghg(s) * np.conj(s.Xf) * s.Xf),
                      s.cri.Nv, s.cri.axisN) / 2
        return (f + s.lmbda * r + s.mu * g, f, r, g)

    def reconstruct(s, X):
        return pd_IF(s, pd_rec(s, pd_F(s, X)))

    def rsdl_s(s, Yprev, Y):
        return s.rho * s.cnst_AT(s.U)

    def rsdl_sn(s, U):
        return s.rho * nrm(U)


class pdcsc__ConvProdDictL1L1GrdJoint:
    def ystep(s):
        V = s.AX + s.U
        return pd_ystep(
            s, prox_l1(s.block_sep0(V) - s.S, s.W / s.rho),
            prox_sl1l2(s.block_sep1(V), 0.0, s.lmbda / s.rho * s.wl21,
                       axis=s.cri.axisC))

    def eval_objfn(s):
        f = l1(s.W * s.obfn_g0var())
        r = np.sum(s.wl21 * np.sqrt(np.sum(s.obfn_g1var()**2,
                                           axis=s.cri.axisC)))
        g = rfl2norm2(np.sqrt(s.Wgrd * ghg(s) * np.conj(s.Xf) * s.Xf),
                      s.cri.Nv, s.cri.axisN) / 2
        return (f + s.lmbda * r + s.mu * g, f, r, g)


# ------------------------------------------------------------ ppp

class ppp__GenericPPP:
    def xstep(s):
        return {'X': s.proxf(s.Y - s.U, s.rho)}

    def ystep(s):
        return {'Y': s.proxg(s.AX + s.U, s.rho)}

    def eval_objfn(s):
        return (s.f(s.X),)


class ppp__GenericPPPConsensus:
    def xstep(s):
        X = s.X.copy()
        for i in range(s.Nb):
            X[..., i] = s.prox_fi(s.Y - s.U[..., i], s.rho, i)
        return {'X': X}

    def eval_objfn(s):
        return ()


class ppp__PPPConsensus:
    def prox_fi(s, Xi, rho, i):
        return s._proxfi[i](Xi, rho)
