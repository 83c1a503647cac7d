"""Reference formulas of the work items of the parallel solvers. Each work
item updates its own part of the shared arrays, in place."""
import numpy as np
from sporco.linalg import solvedbi_sm, solvemdbi_ism
from sporco.prox import prox_l1
from sporco.fft import rfftn, irfftn
from sporco.cnvrep import bcrop


def dsum(a, x, ax):
    return np.sum(a * x, axis=ax, keepdims=True)


class Cri:
    def __init__(self, Cd, dimN, Nv, K):
        self.Cd = Cd
        self.K = K
        self.Nv = Nv
        self.dimN = dimN
        self.axisN = tuple(range(dimN))
        self.axisC = dimN
        self.axisK = dimN + 1
        self.axisM = dimN + 2


def csc(g, Df, rho, b):
    if g.mp_cri.Cd == 1:
        return solvedbi_sm(Df, rho, b, None, g.mp_cri.axisM)
    return solvemdbi_ism(Df, rho, b, g.mp_cri.axisM, g.mp_cri.axisC)


# ---------------------------------------------------- dictlrn.prlcnscdl

def cns_item(g, k):
    """convolutional BPDN for image k, then the per-image part of the
    consensus dictionary update"""
    F, G, cri = g.fftn, g.ifftn, g.mp_cri
    N = cri.axisN
    # sparse coding
    b = g.mp_DSf[k] + g.mp_xrho * F(g.mp_Z_Y[k] - g.mp_Z_U[k], None, N)
    X = G(csc(g, g.mp_Df, g.mp_xrho, b), cri.Nv, N)
    if g.mp_xrlx != 1.0:
        X = g.mp_xrlx * X + (1 - g.mp_xrlx) * g.mp_Z_Y[k]
    Y = prox_l1(X + g.mp_Z_U[k], g.mp_lmbda / g.mp_xrho)
    U = g.mp_Z_U[k] + X - Y
    # dictionary update
    Zf = F(Y, cri.Nv, N)
    ZSf = np.conj(Zf) * g.mp_Sf[k]
    db = ZSf + g.mp_drho * F(g.mp_D_Y - g.mp_D_U[k], None, N)
    DX = G(solvedbi_sm(Zf, g.mp_drho, db, None, cri.axisM), cri.Nv, N)
    if g.mp_drlx != 1.0:
        DX = g.mp_drlx * DX + (1 - g.mp_drlx) * g.mp_D_Y
    g.mp_Z_X[k] = X
    g.mp_Z_Y[k] = Y
    g.mp_Z_U[k] = U
    g.mp_Zf[k] = Zf
    g.mp_ZSf[k] = ZSf
    g.mp_D_X[k] = DX


def cns_shared(g):
    """consensus part of the dictionary update"""
    cri = g.mp_cri
    Y = g.mp_dprox(np.mean(g.mp_D_X + g.mp_D_U, axis=0))
    g.mp_D_Y[:] = Y
    g.mp_D_U[:] = g.mp_D_U + g.mp_D_X - Y
    Df = g.fftn(Y, cri.Nv, cri.axisN)
    g.mp_Df[:] = Df
    if cri.Cd == 1:
        g.mp_DSf[:] = np.conj(Df) * g.mp_Sf
    else:
        g.mp_DSf[:] = dsum(np.conj(Df), g.mp_Sf, cri.axisC + 1)


def md_item(g, k):
    F, G, cri = g.fftn, g.ifftn, g.mp_cri
    N = cri.axisN
    Y0, Y1, U0, U1 = g.mp_Z_Y0[k], g.mp_Z_Y1[k], g.mp_Z_U0[k], g.mp_Z_U1[k]
    S, Df, rho = g.mp_S[k], g.mp_Df, g.mp_xrho
    f0 = F(Y0 + S - U0, None, N)
    b = (np.conj(Df) * f0 if cri.Cd == 1 else
         dsum(np.conj(Df), f0, cri.axisC)) + F(Y1 - U1, None, N)
    Xf = csc(g, Df, 1.0, b)
    X = G(Xf, cri.Nv, N)
    DX = G(dsum(Df, Xf, cri.axisM), cri.Nv, N)
    if g.mp_xrlx != 1.0:
        X = g.mp_xrlx * X + (1 - g.mp_xrlx) * Y1
        DX = g.mp_xrlx * DX + (1 - g.mp_xrlx) * (Y0 + S)
    W = g.mp_W[k] if g.mp_W.shape[0] > 1 else g.mp_W
    nY0 = rho * (DX - S + U0) / (W**2 + rho)
    nY1 = prox_l1(X + U1, g.mp_lmbda / rho)
    nU0 = U0 + DX - nY0 - S
    nU1 = U1 + X - nY1
    # dictionary update
    Zf = F(nY1, cri.Nv, N)
    b = F(g.mp_D_Y0 - g.mp_D_U0[k], None, N) + \
        np.conj(Zf) * F(g.mp_D_Y1[k] + S - g.mp_D_U1[k], None, N)
    Gf = solvedbi_sm(Zf, 1.0, b, None, cri.axisM)
    D = G(Gf, cri.Nv, N)
    E = G(dsum(Gf, Zf, cri.axisM), cri.Nv, N)
    if g.mp_drlx != 1.0:
        D = g.mp_drlx * D + (1 - g.mp_drlx) * g.mp_D_Y0
        E = g.mp_drlx * E + (1 - g.mp_drlx) * (g.mp_D_Y1[k] + S)
    g.mp_Z_X[k] = X
    g.mp_Z_Y0[k] = nY0
    g.mp_Z_Y1[k] = nY1
    g.mp_Z_U0[k] = nU0
    g.mp_Z_U1[k] = nU1
    g.mp_Zf[k] = Zf
    g.mp_D_X[k] = D
    g.mp_DX[k] = E


def md_shared(g):
    cri = g.mp_cri
    Y0 = g.mp_dprox(np.mean(g.mp_D_X + g.mp_D_U0, axis=0))
    Y1 = g.mp_drho * (g.mp_DX - g.mp_S + g.mp_D_U1) / \
        (g.mp_W**2 + g.mp_drho)
    g.mp_D_Y0[:] = Y0
    g.mp_D_Y1[:] = Y1
    g.mp_D_U0[:] = g.mp_D_U0 + g.mp_D_X - Y0
    g.mp_D_U1[:] = g.mp_D_U1 + g.mp_DX - Y1 - g.mp_S
    g.mp_Df[:] = g.fftn(Y0, cri.Nv, cri.axisN)


class sporco__dictlrn__prlcnscdl:
    def step_group(g, k):
        cns_item(g, k)

    def md_step_group(g, k):
        md_item(g, k)


class step:
    def ConvBPDNDictLearn_Consensus(g):
        for k in range(g.mp_cri.K):
            cns_item(g, k)
        cns_shared(g)

    def ConvBPDNMaskDcplDictLearn_Consensus(g):
        for k in range(g.mp_cri.K):
            md_item(g, k)
        md_shared(g)


# ------------------------------------------------------- admm.parcbpdn

def par_x(g, i):
    """x step and relaxation for filter group i"""
    r = slice(g.mp_grp[i], g.mp_grp[i + 1])
    Df, a2 = g.mp_Df[r], g.mp_alpha**2
    N, Nv = g.mp_axisN, g.mp_Nv
    y0 = rfftn(g.mp_Y0[[i]] - g.mp_U0[[i]], Nv, N)
    y1 = rfftn(g.mp_Y1[r] - g.mp_U1[r] / g.mp_alpha, Nv, N)
    if g.mp_Cd == 1:
        b = np.conj(Df) * y0 + a2 * y1
        Xf = solvedbi_sm(Df, a2, b, g.mp_cache[i], g.mp_axisM)
    else:
        b = dsum(np.conj(Df), y0, g.mp_axisC) + a2 * y1
        Xf = solvemdbi_ism(Df, a2, b, g.mp_axisM, g.mp_axisC)
    X = irfftn(Xf, Nv, N)
    g.mp_Xnr[r] = X
    g.mp_X[r] = X
    g.mp_DX[i] = irfftn(dsum(Df, Xf, g.mp_axisM), Nv, N)
    g.mp_DXnr[i] = g.mp_DX[i]
    if g.mp_rlx != 1.0:
        g.mp_X[r] = g.mp_rlx * X + (1 - g.mp_rlx) * g.mp_Y1[r]
        g.mp_DX[i] = g.mp_rlx * g.mp_DX[i] + (1 - g.mp_rlx) * g.mp_Y0[i]


def par_yu(g, i):
    """y and u steps for filter group i"""
    r = slice(g.mp_grp[i], g.mp_grp[i + 1])
    g.mp_Y0[i] = g.mp_S / g.mp_rho + g.mp_DX[i] + g.mp_U0[i] + g.mp_b
    w = g.mp_wl1 if g.mp_wl1.shape[g.mp_axisM] == 1 else g.mp_wl1[r]
    Y = prox_l1(g.mp_X[r] + g.mp_U1[r] / g.mp_alpha,
                g.mp_lmbda * w / (g.mp_alpha**2 * g.mp_rho))
    if g.mp_NonNegCoef:
        Y[Y < 0.0] = 0.0
    if g.mp_NoBndryCross:
        for n in range(len(g.mp_Nv)):
            Y[(slice(None),) * (n + 1) +
              (slice(1 - g.mp_Dshp[n], None),)] = 0.0
    g.mp_Y1[r] = Y
    g.mp_U0[i] = g.mp_U0[i] + g.mp_DX[i] - g.mp_Y0[i]
    g.mp_U1[r] = g.mp_U1[r] + g.mp_alpha * (g.mp_X[r] - g.mp_Y1[r])


def n2(x):
    return np.sum(x**2)


class sporco__admm__parcbpdn:
    def par_initial_stepgrp(g, i):
        par_x(g, i)

    def par_final_stepgrp(g, i):
        par_yu(g, i)

    def par_stepgrp(g, i):
        par_yu(g, i)
        par_x(g, i)

    def y0astep(g):
        g.mp_b[:] = g.mp_inv_off_diag * np.sum(
            g.mp_S + g.mp_rho * (g.mp_DX + g.mp_U0), axis=g.mp_axisM,
            keepdims=True)

    def par_compute_residuals(g, i):
        r = slice(g.mp_grp[i], g.mp_grp[i + 1])
        a2 = g.mp_alpha**2
        g.mp_ry0[i] = n2(g.mp_DXnr[i] - g.mp_Y0[i])
        g.mp_ry1[i] = a2 * n2(g.mp_Xnr[r] - g.mp_Y1[r])
        g.mp_sy0[i] = n2(g.mp_Y0[i] - g.mp_Y0old[i])
        g.mp_sy1[i] = a2 * n2(g.mp_Y1[r] - g.mp_Y1old[r])
        g.mp_nrmAx[i] = n2(g.mp_DXnr[i]) + a2 * n2(g.mp_Xnr[r])
        g.mp_nrmBy[i] = n2(g.mp_Y0[i]) + a2 * n2(g.mp_Y1[r])
        g.mp_nrmu[i] = n2(g.mp_U0[i]) + n2(g.mp_U1[r])


# ------------------------------------ solvers: shared data and reporting

def front(v, axis):
    """array with a leading axis taken from `axis`"""
    return np.swapaxes(v[np.newaxis, ...], 0, axis + 1)


def n2a(x):
    return np.linalg.norm(x)**2


class ConvBPDNDictLearn_Consensus:
    def shared(s):
        x, d = s.xstep, s.dstep
        k = x.cri.axisK
        return {'mp_cri': x.cri, 'mp_lmbda': x.lmbda, 'mp_xrho': x.rho,
                'mp_drho': d.rho, 'mp_xrlx': x.rlx, 'mp_drlx': d.rlx,
                'mp_dprox': d.Pcn, 'mp_Sf': front(x.Sf, k), 'mp_Df': x.Df,
                'mp_DSf': front(x.DSf, k), 'mp_Z_Y': front(x.Y, k),
                'mp_Z_U': front(x.U, k), 'mp_D_Y': d.Y,
                'mp_D_U': np.moveaxis(d.U, -1, 0)}

    def getdict(s, g, crop):
        D = g.mp_D_Y
        return bcrop(D, s.dstep.cri.dsz, s.dstep.cri.dimN) if crop else D

    def getcoef(s, g):
        return np.swapaxes(g.mp_Z_Y, 0, s.xstep.cri.axisK + 1)[0]

    def evaluate(s, g):
        c = s.xstep.cri
        E = dsum(g.mp_Df[np.newaxis, ...], g.mp_Zf, c.axisM + 1) - g.mp_Sf
        E = np.swapaxes(E, 0, c.axisK + 1)[0]
        f = g.fl2norm2(E, s.xstep.S.shape, c.axisN) / 2
        r = np.sum(np.abs(g.mp_Z_Y))
        return f + s.xstep.lmbda * r, f, r

    def solve(s, n):
        j = s.j
        m = 0
        done = False
        while m < n and not done:
            s.j = j + m
            s.step()
            e = s.evaluate()
            s.itstat.append(s.IterationStats(
                *((s.j,) + e + (s.timer.elapsed('solve'),))))
            if s.opt['Callback'] is not None:
                if s.opt['Callback'](s):
                    done = True
            m = m + 1
        return {'return': s.getdict(), 'j': j + max(m, 1)}


class ConvBPDNMaskDcplDictLearn_Consensus:
    def shared(s):
        x, d = s.xstep, s.dstep
        k = x.cri.axisK
        return {'mp_cri': x.cri, 'mp_lmbda': x.lmbda, 'mp_xrho': x.rho,
                'mp_drho': d.rho, 'mp_xrlx': x.rlx, 'mp_drlx': d.rlx,
                'mp_dprox': d.Pcn, 'mp_S': front(x.S, k), 'mp_Df': x.Df,
                'mp_W': front(d.W, k),
                'mp_Z_Y0': front(x.block_sep0(x.Y), k),
                'mp_Z_Y1': front(x.block_sep1(x.Y), k),
                'mp_Z_U0': front(x.block_sep0(x.U), k),
                'mp_Z_U1': front(x.block_sep1(x.U), k),
                'mp_D_Y0': d.Y, 'mp_D_U0': np.moveaxis(d.U, -1, 0),
                'mp_D_Y1': np.moveaxis(d.Y1, -2, 0)[..., np.newaxis],
                'mp_D_U1': np.moveaxis(d.U1, -2, 0)[..., np.newaxis]}

    def getdict(s, g, crop):
        D = g.mp_D_Y0
        return bcrop(D, s.dstep.cri.dsz, s.dstep.cri.dimN) if crop else D

    def getcoef(s, g):
        return np.swapaxes(g.mp_Z_Y1, 0, s.xstep.cri.axisK + 1)[0]

    def evaluate(s, g):
        c = s.xstep.cri
        if s.opt['AccurateDFid']:
            r = s.reconstruct()
            e = s.dstep.W * (r - s.dstep.S)
        else:
            r = g.ifftn(dsum(g.mp_Df[np.newaxis, ...], g.mp_Zf,
                             c.axisM + 1), c.Nv, np.array(c.axisN) + 1)
            e = g.mp_W * (r - g.mp_S)
        f = n2a(e) / 2
        r = np.sum(np.abs(s.getcoef()))
        return f + s.xstep.lmbda * r, f, r

    def solve(s, n):
        return ConvBPDNDictLearn_Consensus.solve(s, n)


class ParConvBPDN:
    def shared(s):
        c = s.cri
        m = c.axisM
        y = np.moveaxis(s.Y, m, 0)
        W2 = s.W**2
        r = -W2 / (s.rho * (s.rho + W2 * s.ngrp))
        d = {'mp_nproc': s.nproc, 'mp_ngrp': s.ngrp, 'mp_Nv': c.Nv,
             'mp_axisN': tuple(i + 1 for i in c.axisN), 'mp_C': c.C,
             'mp_Cd': c.Cd, 'mp_axisC': c.axisC + 1, 'mp_axisM': 0,
             'mp_NonNegCoef': s.opt['NonNegCoef'],
             'mp_NoBndryCross': s.opt['NoBndryCross'],
             'mp_Dshp': s.D.shape, 'mp_lmbda': s.lmbda, 'mp_rho': s.rho,
             'mp_alpha': s.alpha, 'mp_rlx': s.rlx,
             'mp_wl1': np.moveaxis(s.wl1, m, 0),
             'mp_S': np.moveaxis(s.S * W2, m, 0),
             'mp_Df': np.moveaxis(s.Df, m, 0), 'mp_X': y}
        if s.opt['Y0'] is not None:
            d['mp_Y0'] = np.moveaxis(s.opt['Y0'], m, 0)
        if s.opt['Y1'] is not None:
            d['mp_Y1'] = np.moveaxis(s.opt['Y1'], m, 0)
        if s.opt['U0'] is not None:
            d['mp_U0'] = np.moveaxis(s.opt['U0'], m, 0)
        if s.opt['U1'] is not None:
            d['mp_U1'] = np.moveaxis(s.opt['U1'], m, 0)
        return d

    def obfn_gvar(s, g):
        return g.mp_Y1 if s.opt['gEvalY'] else g.mp_X

    def obfn_fvar(s, g):
        return g.mp_X if s.opt['fEvalX'] else g.mp_Y1

    def obfn_reg(s, g):
        v = g.mp_Y1 if s.opt['gEvalY'] else g.mp_X
        r = np.sum(g.mp_wl1 * np.abs(v))
        return (s.lmbda * r, r)

    def obfn_dfd(s, g):
        v = g.mp_X if s.opt['fEvalX'] else g.mp_Y1
        Vf = rfftn(v, g.mp_Nv, g.mp_axisN)
        R = irfftn(np.sum(g.mp_Df * Vf, axis=g.mp_axisM, keepdims=True),
                   g.mp_Nv, g.mp_axisN)
        E = s.W * (np.moveaxis(R, g.mp_axisM, s.cri.axisM) - s.S)
        return np.sum(E**2) / 2

    def solve(s, n):
        g = s.g
        k = s.k
        m = 0
        done = False
        while m < n and not done:
            s.k = k + m
            g.mp_Y0old[:] = g.mp_Y0
            g.mp_Y1old[:] = g.mp_Y1
            if m == 0:
                for i in range(s.ngrp):
                    par_x(g, i)
            sporco__admm__parcbpdn.y0astep(g)
            for i in range(s.ngrp):
                par_yu(g, i)
            if m < n - 1:
                for i in range(s.ngrp):
                    par_x(g, i)
            if s.opt['AutoRho', 'Enabled'] or not s.opt['FastSolve']:
                for i in range(s.ngrp):
                    sporco__admm__parcbpdn.par_compute_residuals(g, i)
                r = np.sqrt(np.sum(g.mp_ry0) + np.sum(g.mp_ry1))
                d = np.sqrt(np.sum(g.mp_sy0) + np.sum(g.mp_sy1))
                ea, er = s.opt['AbsStopTol'], s.opt['RelStopTol']
                epri = np.sqrt(s.Nc) * ea + np.max(
                    [np.sqrt(np.sum(g.mp_nrmAx)),
                     np.sqrt(np.sum(g.mp_nrmBy))]) * er
                edua = np.sqrt(s.Nx) * ea + np.sqrt(np.sum(g.mp_nrmu)) * er
                if not s.opt['FastSolve']:
                    s.itstat.append(s.iteration_stats(s.k, r, d, epri, edua))
                done = r < epri and d < edua
            if s.opt['Callback'] is not None:
                if s.opt['Callback'](s):
                    done = True
            m = m + 1
        c = s.cri
        s.X = np.moveaxis(g.mp_X, 0, c.axisM)
        s.Y = np.moveaxis(g.mp_Y1, 0, c.axisM)
        return {'return': s.getmin(), 'k': k + max(m, 1), 'X': s.X,
                'Y': s.Y}
