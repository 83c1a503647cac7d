"""Reference formulas of the linear algebra functions."""
import numpy as np
import scipy.linalg
import scipy.sparse.linalg
import sporco.linalg as sl
import sporco.array as sa


def ip(x, y, axis):
    return np.sum(x * y, axis=axis, keepdims=True)


class sporco__linalg:
    def inner(x, y, axis):
        axis = axis if axis >= 0 else x.ndim + axis
        return np.sum(x * y, axis=axis, keepdims=True)

    def dot(a, b, axis):
        # b has three axes
        if axis % 3 == 0:
            return np.sum(a.reshape([a.shape[0], a.shape[1], 1, 1]) *
                          np.expand_dims(b, 0), axis=1)
        if axis % 3 == 1:
            return np.sum(a.reshape([1, a.shape[0], a.shape[1], 1]) *
                          np.expand_dims(b, 1), axis=2)
        return np.sum(a.reshape([1, 1, a.shape[0], a.shape[1]]) *
                      np.expand_dims(b, 2), axis=3)

    def solvemdbi_cg(ah, rho, b, axisM, axisK, tol, mit, isn):
        a = np.conj(ah)

        def op(x):
            y = sl.inner(ah, x.reshape(b.shape), axis=axisM)
            return sl.inner(a, y, axis=axisK).ravel() + rho * x.ravel()
        x0 = None if isn is None else isn.ravel()
        A = scipy.sparse.linalg.LinearOperator(
            (b.size, b.size), matvec=op, dtype=b.dtype)
        x, it = scipy.sparse.linalg.cg(A, b.ravel(), x0=x0, maxiter=mit,
                                       rtol=tol)
        return (x.reshape(b.shape), it)

    def solvemdbi_rsm(ah, rho, b, axisK, dimN):
        # two spatial dimensions
        M = ah.shape[4]
        a = np.conj(ah)
        Ainv = np.ones(ah.shape[0:2] + (1, 1, 1, 1)) * np.reshape(
            np.eye(M, M) / rho, (1, 1, 1, 1, M, M))
        for k in range(ah.shape[axisK]):
            s = (slice(None),) * axisK + (slice(k, k + 1), slice(None),
                                          np.newaxis)
            v = sl.inner(Ainv, np.swapaxes(a[s], 4, 5), axis=5)
            w = sl.inner(ah[s], Ainv, axis=4)
            Ainv = Ainv - v * w / (1.0 + sl.inner(ah[s], v, axis=4))
        bt = np.swapaxes(b[:, :, :, :, :, np.newaxis], 4, 5)
        return np.sum(Ainv * bt, axis=5)

    def solvedbi_sm(ah, rho, b, c, axis):
        a = np.conj(ah)
        if c is None:
            c = ah / (sl.inner(ah, a, axis=axis) + rho)
        return (b - a * sl.inner(c, b, axis=axis)) / rho

    def solvedbi_sm_c(ah, a, rho, axis):
        return ah / (sl.inner(ah, a, axis=axis) + rho)

    def solvedbd_sm(ah, d, b, c, axis):
        a = np.conj(ah)
        if c is None:
            c = (ah / d) / (sl.inner(ah, a / d, axis=axis) + 1.0)
        return (b - a * sl.inner(c, b, axis=axis)) / d

    def solvedbd_sm_c(ah, a, d, axis):
        return (ah / d) / (sl.inner(ah, a / d, axis=axis) + 1.0)

    def solvemdbi_ism(ah, rho, b, axisM, axisK):
        a = np.conj(ah)
        pre = (slice(None),) * (axisK + ah.ndim if axisK < 0 else axisK)
        m = axisM + ah.ndim if axisM < 0 else axisM
        ip = sl.inner
        x = b / rho
        g, h, d = [], [], []
        for k in range(ah.shape[axisK]):
            ahk = ah[pre + (slice(k, k + 1),)]
            gk = a[pre + (slice(k, k + 1),)] / rho
            for j in range(k):
                gk = gk - g[j] * ip(h[j], gk, axis=m) / d[j]
            dk = 1.0 + ip(ahk, gk, axis=m)
            x = x - gk * ip(ahk, x, axis=m) / dk
            g.append(gk)
            h.append(ahk)
            d.append(dk)
        return x

    def lu_factor(A, rho):
        N, M = A.shape
        if N >= M:
            G = np.dot(A.T, A) + rho * np.identity(M)
        else:
            G = np.dot(A, A.T) + rho * np.identity(N)
        return scipy.linalg.lu_factor(G, check_finite=True)

    def cho_factor(A, rho, lower):
        N, M = A.shape
        if N >= M:
            G = np.dot(A.T, A) + rho * np.identity(M)
        else:
            G = np.dot(A, A.T) + rho * np.identity(N)
        return scipy.linalg.cho_factor(G, lower=lower, check_finite=True)

    def lu_solve_ATAI(A, rho, b, lu, piv):
        N, M = A.shape
        s = lambda v: scipy.linalg.lu_solve((lu, piv), v, check_finite=True)
        if N >= M:
            return s(b)
        return (b - np.dot(A.T, s(np.dot(A, b)))) / rho

    def lu_solve_AATI(A, rho, b, lu, piv):
        N, M = A.shape
        s = lambda v: scipy.linalg.lu_solve((lu, piv), v, check_finite=True)
        if N >= M:
            return (b - np.dot(s(np.dot(b, A).T).T, A.T)) / rho
        return s(b.T).T

    def cho_solve_ATAI(A, rho, b, c, lwr):
        N, M = A.shape
        s = lambda v: scipy.linalg.cho_solve((c, lwr), v, check_finite=True)
        if N >= M:
            return s(b)
        return (b - np.dot(A.T, s(np.dot(A, b)))) / rho

    def cho_solve_AATI(A, rho, b, c, lwr):
        N, M = A.shape
        s = lambda v: scipy.linalg.cho_solve((c, lwr), v, check_finite=True)
        if N >= M:
            return (b - np.dot(s(np.dot(b, A).T).T, A.T)) / rho
        return s(b.T).T

    def rrs(ax, b):
        n = np.maximum(np.linalg.norm(ax), np.linalg.norm(b))
        if n == 0.0:
            return 0.0
        return np.linalg.norm(ax - b) / n

    def pca(U, centre):
        C = None
        if centre:
            C = np.mean(U, axis=1, keepdims=True)
            U = U - C
        B, S, V = np.linalg.svd(U, full_matrices=False)
        return (B, S**2, C)

    def solve_symmetric_sylvester(A, B, C, alpha):
        if isinstance(A, tuple):
            LA, QA = A
        else:
            LA, QA = np.linalg.eigh(A)
        if isinstance(B, tuple):
            LB, QB = B
        else:
            LB, QB = np.linalg.eigh(B)
        W = np.dot(np.dot(QA.T, C), QB)
        X = W / (LA[:, np.newaxis] * LB[np.newaxis] + alpha)
        return np.dot(np.dot(QA, X), QB.T)

    def proj_l2ball(b, s, r, axes):
        d = np.sqrt(np.sum((b - s)**2, axis=axes, keepdims=True))
        return np.where(d <= r, b, s + r * (b - s) / d)

    def nkp(A, bshape, cshape):
        R = sa.subsample_array(A, cshape).transpose().reshape(
            (bshape[0] * bshape[1], cshape[0] * cshape[1]))
        U, S, Vt = np.linalg.svd(R, full_matrices=False)
        return (np.sqrt(S[0]) * U[:, [0]].reshape(bshape, order='F'),
                np.sqrt(S[0]) * Vt[[0], :].reshape(cshape, order='F'))

    def kpsvd(A, bshape, cshape):
        R = sa.subsample_array(A, cshape).transpose().reshape(
            (bshape[0] * bshape[1], cshape[0] * cshape[1]))
        U, S, Vt = np.linalg.svd(R, full_matrices=False)
        return (S, U.reshape(bshape + (U.shape[1],), order='F'),
                Vt.T.reshape(cshape + (Vt.shape[0],), order='F'))

    def block_circulant(A):
        r, c = A[0].shape
        n = len(A)
        B = np.zeros((n * r, n * c))
        for k in range(n):
            for l in range(n):
                m = (k + l) % n
                B[r * m:r * m + r, c * k:c * k + c] = A[l]
        return B
