"""Reference formulas for the proximal gradient solvers, written from the
problem statements and algorithms in the documentation."""
import numpy as np
from sporco.fft import rfftn, irfftn, rfl2norm2
from sporco.prox import prox_l1
from sporco.cnvrep import bcrop
import sporco.cnvrep as cr
from sporco.pgm.backtrack import BacktrackStandard, BacktrackRobust
from sporco.pgm.momentum import (MomentumNesterov, MomentumLinear,
                                 MomentumGenLinear)
from sporco.pgm.stepsize import StepSizePolicyCauchy, StepSizePolicyBB


def norm2(x):
    return np.sum(np.abs(x)**2)


def nrm(x):
    return np.sqrt(np.sum(np.abs(x)**2))


def l1(x):
    return np.sum(np.abs(x))


def dsum(a, x, ax):
    return np.sum(a * x, axis=ax, keepdims=True)


def F(s, x):
    return rfftn(x, None, s.cri.axisN)


def FP(s, x):
    return rfftn(x, s.cri.Nv, s.cri.axisN)


def IF(s, x):
    return irfftn(x, s.cri.Nv, s.cri.axisN)


def bndry(s, Y):
    Y = Y.copy()
    if s.opt['NonNegCoef']:
        Y[Y < 0.0] = 0.0
    if s.opt['NoBndryCross']:
        for n in range(s.cri.dimN):
            Y[(slice(None),) * n + (slice(1 - s.D.shape[n], None),)] = 0.0
    return Y


def mom(s):
    """the momentum coefficient t_{k+1}"""
    m = s.momentum
    if isinstance(m, MomentumNesterov):
        return 0.5 * (1.0 + np.sqrt(1.0 + 4.0 * s.t**2))
    if isinstance(m, MomentumLinear):
        return (s.k + m.b) / m.b
    return (s.k + m.a) / m.b


def re(a, b):
    return np.sum(np.real(np.conj(a) * b))


def stepL(s, x, g):
    """inverse step size for this step"""
    L = s.L
    p = s.stepsizepolicy
    if p is not None:
        if s.k > 1:
            if isinstance(p, StepSizePolicyCauchy):
                L = re(g, s.hessian_f(g)) / re(g, g)
            else:
                dx = x - p.xprv
                dg = g - p.gradprv
                L = re(dg, dg) / re(dx, dg)
                if L < 0.0:
                    L = s.L
    return L


# ------------------------------------------------------------ pgm.pgm

class pgm__PGM:
    def xstep(s):
        g = s.grad_f()
        s.L = stepL(s, s.X, g)
        px = pg = 'UNSPECIFIED'
        if isinstance(s.stepsizepolicy, StepSizePolicyBB):
            px, pg = s.X, g
        x = s.prox_g(s.Y - g / s.L)
        if s.opt['Monotone'] and s.k > 0:
            s.X = x
            o = s.eval_objfn()
            z = s.X
            if s.objfn_prev[0] < o[0]:
                x = s.Xprv
                o = s.objfn_prev
        else:
            z = o = 'UNSPECIFIED'
        return {'X': x, 'L': s.L, 'ZZ': z, 'objfn': o, 'return': g,
                'stepsizepolicy.xprv': px, 'stepsizepolicy.gradprv': pg}

    def ystep(s):
        t = mom(s)
        y = s.X + (s.t - 1.0) / t * (s.X - s.Xprv)
        if s.opt['Monotone'] and s.k > 0:
            y = y + s.t / t * (s.ZZ - s.X)
        return {'t': t, 'Y': y}

    def on_iteration_start(s):
        if not s.opt['FastSolve'] or isinstance(s.backtrack,
                                                BacktrackRobust):
            y = s.Y
        else:
            y = 'UNSPECIFIED'
        return {'Xprv': s.X, 'Yprv': y}

    def eval_Dxy(s):
        return s.X - s.Y

    def eval_linear_approx(s, Dxy, gradY):
        return np.sum(Dxy * gradY)

    def compute_residuals(s):
        if s.opt['AutoStop', 'Enabled']:
            return (s.rsdl(), s.opt['AutoStop', 'Tau0'] / (1.0 + s.k))
        return (s.rsdl(), s.opt['RelStopTol'])

    def rsdl(s):
        if s.opt['Monotone'] and s.k > 0:
            return nrm(s.X - s.Y)
        return nrm(s.X - s.Yprv)

    def var_x(s):
        return s.X

    def var_y(s):
        return s.Y

    def var_xprv(s):
        return s.Xprv

    def getmin(s):
        return s.X

    def eval_objfn(s):
        f = s.obfn_f(s.X)
        g = s.obfn_g(s.X)
        return (f + g, f, g)

    def via_backtrack_update(s):
        b = s.backtrack
        n = 0
        search = 1
        if b is None:
            f = q = n = s.X = s.Y = s.L = s.t = 'UNSPECIFIED'
        elif isinstance(b, BacktrackStandard):
            g = s.grad_f()
            while search and n < b.maxiter:
                s.xstep(g)
                f = s.obfn_f(s.var_x())
                d = s.eval_Dxy()
                q = s.obfn_f(s.var_y()) + s.eval_linear_approx(d, g) + \
                    s.L / 2.0 * norm2(d)
                if f <= q:
                    search = 0
                else:
                    s.L *= b.gamma_u
                n += 1
            s.ystep()
        else:
            T0 = b.Tk
            Z = b.Zrb
            if Z is None:
                Z = s.var_x().copy()
            s.L *= b.gamma_d
            while search and n < b.maxiter:
                t = (1.0 + np.sqrt(1.0 + 4.0 * s.L * T0)) / (2.0 * s.L)
                T = T0 + t
                s.var_y((T0 * s.var_xprv() + t * Z) / T)
                g = s.xstep()
                f = s.obfn_f(s.var_x())
                d = s.eval_Dxy()
                q = s.obfn_f(s.var_y()) + s.eval_linear_approx(d, g) + \
                    s.L / 2.0 * norm2(d)
                if f <= q:
                    search = 0
                else:
                    s.L *= b.gamma_u
                n += 1
            b.Tk = T
            b.Zrb = Z + t * s.L * (s.var_x() - s.var_y())
        T = Z = 'UNSPECIFIED'
        if isinstance(b, BacktrackRobust):
            T, Z = b.Tk, b.Zrb
        return {'X': s.X, 'Y': s.Y, 'L': s.L, 't': s.t, 'F': f, 'Q': q,
                'iterBTrack': n, 'backtrack.Tk': T, 'backtrack.Zrb': Z}


class pgm__PGMDFT:
    def xstep(s):
        g = s.grad_f()
        s.L = stepL(s, s.Xf, g)
        px = pg = 'UNSPECIFIED'
        if isinstance(s.stepsizepolicy, StepSizePolicyBB):
            px, pg = s.Xf, g
        x = s.prox_g(irfftn(s.Yf - g / s.L, s.Nv, s.axisN))
        xf = rfftn(x, None, s.axisN)
        if s.opt['Monotone'] and s.k > 0:
            s.X, s.Xf = x, xf
            z = xf
            o = s.eval_objfn()
            if s.objfn_prev[0] < o[0]:
                xf = s.Xfprv
                x = irfftn(xf, s.Nv, s.axisN)
                o = s.objfn_prev
        else:
            z = o = 'UNSPECIFIED'
        return {'X': x, 'Xf': xf, 'L': s.L, 'ZZf': z, 'objfn': o,
                'return': g, 'stepsizepolicy.xprv': px,
                'stepsizepolicy.gradprv': pg}

    def ystep(s):
        t = mom(s)
        y = s.Xf + (s.t - 1.0) / t * (s.Xf - s.Xfprv)
        if s.opt['Monotone'] and s.k > 0:
            y = y + s.t / t * (s.ZZf - s.Xf)
        return {'t': t, 'Yf': y}

    def on_iteration_start(s):
        if not s.opt['FastSolve'] or isinstance(s.backtrack,
                                                BacktrackRobust):
            y = s.Yf
        else:
            y = 'UNSPECIFIED'
        return {'Xfprv': s.Xf, 'Yfprv': y}

    def eval_Dxy(s):
        return s.Xf - s.Yf

    def eval_linear_approx(s, Dxy, gradY):
        return re(Dxy, gradY)

    def var_x(s):
        return s.Xf

    def var_y(s):
        return s.Yf

    def var_xprv(s):
        return s.Xfprv

    def rsdl(s):
        return rfl2norm2(s.Xf - s.Yfprv, s.X.shape, s.axisN)


# ------------------------------------------------------------ pgm.bpdn

class bpdn__BPDN:
    def grad_f(s, V):
        return s.D.T.dot(s.D.dot(V) - s.S)

    def hessian_f(s, V):
        return s.D.T.dot(s.D.dot(V))

    def prox_g(s, V):
        U = prox_l1(V, s.lmbda / s.L * s.opt['L1Weight']).copy()
        if s.opt['NonNegCoef']:
            U[U < 0.0] = 0.0
        return U

    def obfn_f(s, X):
        return 0.5 * norm2(s.D.dot(X) - s.S)

    def eval_objfn(s):
        f = s.obfn_f(s.X)
        r = l1(s.opt['L1Weight'] * s.X)
        return (f + s.lmbda * r, f, r)

    def getcoef(s):
        return s.X

    def reconstruct(s, X):
        return s.D.dot(X)


class bpdn__WeightedBPDN:
    def grad_f(s, V):
        return s.D.T.dot(s.W * (s.D.dot(V) - s.S))

    def hessian_f(s, V):
        return s.D.T.dot(s.W * s.D.dot(V))

    def obfn_f(s, X):
        return 0.5 * norm2(np.sqrt(s.W) * (s.D.dot(X) - s.S))


# ------------------------------------------------------------ pgm.cmod

def cm_Pcn(s, D):
    if s.opt['NonNegCoef']:
        D = np.clip(D, 0, None)
    elif s.opt['ZeroMean']:
        D = D - np.mean(D, 0)
    n = np.sqrt(np.sum(D**2, 0))
    return D / np.where(n == 0, 1.0, n)


class cmod__CnstrMOD:
    def grad_f(s, V):
        return (V.dot(s.Z) - s.S).dot(s.Z.T)

    def hessian_f(s, V):
        return V.dot(s.Z).dot(s.Z.T)

    def prox_g(s, V):
        r = cm_Pcn(s, V)
        if s.opt['ZeroMean'] and s.opt['NonNegCoef']:
            r = 'UNSPECIFIED'   # refused by the constructor
        return r

    def obfn_f(s, X):
        return 0.5 * norm2(X.dot(s.Z) - s.S)

    def eval_objfn(s):
        r = (s.obfn_f(s.X), nrm(cm_Pcn(s, s.X) - s.X))
        if s.opt['ZeroMean'] and s.opt['NonNegCoef']:
            r = 'UNSPECIFIED'
        return r

    def getdict(s):
        return s.X

    def reconstruct(s, X):
        return X.dot(s.Z)


class cmod__WeightedCnstrMOD:
    def grad_f(s, V):
        return (s.W * (V.dot(s.Z) - s.S)).dot(s.Z.T)

    def hessian_f(s, V):
        return (s.W * V.dot(s.Z)).dot(s.Z.T)

    def obfn_f(s, X):
        return 0.5 * norm2(np.sqrt(s.W) * (X.dot(s.Z) - s.S))


# ------------------------------------------------------------ pgm.ppp

class ppp__GenericPPP:
    def grad_f(s):
        return s.gradf(s.Y)

    def prox_g(s, V):
        return s.proxg(V, s.L)

    def eval_objfn(s):
        return (s.f(s.X),)

    def rsdl(s):
        return nrm(s.X - s.Yprv)


# ------------------------------------------------------------ pgm.cbpdn

def cb_R(s, Xf):
    return dsum(FP(s, s.D), Xf, s.cri.axisM) - F(s, s.S)


def cb_T(s, Rf):
    g = np.conj(FP(s, s.D)) * Rf
    if s.cri.Cd > 1:
        g = np.sum(g, axis=s.cri.axisC, keepdims=True)
    return g


def cb_obj(s, f):
    r = l1(s.opt['L1Weight'] * s.X)
    return (f + s.lmbda * r, f, r)


class cbpdn__ConvBPDN:
    def grad_f(s, Vf):
        return cb_T(s, cb_R(s, Vf))

    def hessian_f(s, V):
        return cb_T(s, dsum(FP(s, s.D), V, s.cri.axisM))

    def prox_g(s, V):
        return bndry(s, prox_l1(V, s.lmbda / s.L * s.opt['L1Weight']))

    def obfn_f(s, Xf):
        return 0.5 * norm2(cb_R(s, Xf))

    def eval_objfn(s):
        return cb_obj(s, rfl2norm2(cb_R(s, s.Xf), s.S.shape,
                                   s.cri.axisN) / 2.0)

    def getcoef(s):
        return s.X

    def reconstruct(s, X):
        return IF(s, np.sum(FP(s, s.D) * F(s, X), axis=s.cri.axisM))


class cbpdn__ConvBPDNMask:
    def grad_f(s, Vf):
        return cb_T(s, FP(s, s.W**2 * IF(s, cb_R(s, Vf))))

    def hessian_f(s, V):
        return cb_T(s, FP(s, s.W**2 * IF(
            s, dsum(FP(s, s.D), V, s.cri.axisM))))

    def obfn_f(s, Xf):
        return 0.5 * norm2(FP(s, s.W * IF(s, cb_R(s, Xf))))

    def eval_objfn(s):
        return cb_obj(s, norm2(s.W * IF(s, cb_R(s, s.Xf))) / 2.0)


# ------------------------------------------------------------ pgm.ccmod

def cc_R(s, Df):
    return dsum(FP(s, s.Z), Df, s.cri.axisM) - F(s, s.S)


def cc_T(s, Rf):
    g = dsum(np.conj(FP(s, s.Z)), Rf, s.cri.axisK)
    if s.cri.C > 1 and s.cri.Cd == 1:
        g = np.sum(g, axis=s.cri.axisC, keepdims=True)
    return g


def cc_Pcn(s, V):
    return cr.getPcn(s.cri.dsz, s.cri.Nv, s.cri.dimN, s.cri.dimCd,
                     zm=s.opt['ZeroMean'])(V)


class ccmod__ConvCnstrMOD:
    def grad_f(s, Vf):
        return cc_T(s, cc_R(s, Vf))

    def hessian_f(s, V):
        return cc_T(s, dsum(FP(s, s.Z), V, s.cri.axisM))

    def prox_g(s, V):
        return cc_Pcn(s, V)

    def obfn_f(s, Xf):
        return 0.5 * norm2(cc_R(s, Xf))

    def eval_objfn(s):
        return (rfl2norm2(cc_R(s, s.Xf), s.S.shape, s.cri.axisN) / 2.0,
                nrm(cc_Pcn(s, s.X) - s.X))

    def getdict(s):
        return bcrop(s.X, s.cri.dsz, s.cri.dimN)

    def reconstruct(s, D):
        return IF(s, np.sum(FP(s, s.Z) * F(s, D), axis=s.cri.axisM))


class ccmod__ConvCnstrMODMask:
    def grad_f(s, Vf):
        return cc_T(s, FP(s, s.W**2 * IF(s, cc_R(s, Vf))))

    def hessian_f(s, V):
        return cc_T(s, FP(s, s.W**2 * IF(
            s, dsum(FP(s, s.Z), V, s.cri.axisM))))

    def obfn_f(s, Xf):
        return 0.5 * norm2(FP(s, s.W * IF(s, cc_R(s, Xf))))

    def eval_objfn(s):
        return (norm2(s.W * IF(s, cc_R(s, s.Xf))) / 2.0,
                nrm(cc_Pcn(s, s.X) - s.X))
