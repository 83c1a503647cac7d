"""Reference formulas for norms, proximal maps and projections."""
import numpy as np


def sgn(v):
    """unit-modulus factor (zero at zero)"""
    if np.isrealobj(v):
        return np.sign(v)
    return np.where(np.abs(v) != 0, v / np.abs(v), 0)


def sq(v):
    return v**2 if np.isrealobj(v) else np.abs(v)**2


def n2(v, axis):
    return np.sqrt(np.sum(np.abs(v)**2, axis=axis, keepdims=True))


class sporco__prox___lp:
    def prox_l0(v, alpha):
        return np.where(np.abs(v) >= np.sqrt(2.0 * alpha), v, 0)

    def prox_l1(v, alpha):
        return sgn(v) * np.maximum(np.abs(v) - alpha, 0)

    def prox_l2(v, alpha, axis):
        n = n2(v, axis)
        return np.where(n != 0, np.maximum(n - alpha, 0) / n, 0) * v

    def proj_l2(v, gamma, axis):
        n = n2(v, axis)
        return np.where(n <= gamma, v, gamma * v / n)

    def norm_l1(x, axis):
        n = np.sum(np.abs(x), axis=axis, keepdims=True)
        return one(n)

    def norm_2l2(x, axis):
        return one(np.sum(np.abs(x)**2, axis=axis, keepdims=True))

    def norm_l2(x, axis):
        return np.sqrt(one(np.sum(np.abs(x)**2, axis=axis, keepdims=True)))

    def norm_l0(x, axis, eps):
        return one(np.sum(np.abs(x) > eps, axis=axis, keepdims=True))


def one(n):
    if n.size == 1:
        n = n.ravel()[0]
    return n


class sporco__prox___l21:
    def norm_l21(x, axis):
        return np.sum(np.sqrt(one(np.sum(np.abs(x)**2, axis=axis,
                                         keepdims=True))))

    def prox_sl1l2(v, alpha, beta, axis):
        u = sgn(v) * np.maximum(np.abs(v) - alpha, 0)
        n = n2(u, axis)
        return np.where(n != 0, np.maximum(n - beta, 0) / n, 0) * u


class sporco__prox___nuclear:
    def norm_nuclear(X):
        return np.sum(np.linalg.svd(X, compute_uv=False))

    def prox_nuclear(V, alpha):
        u, s, v = np.linalg.svd(V, full_matrices=False)
        t = np.maximum(s - alpha, 0)
        return (np.dot(u, np.dot(np.diag(t), v)), t)


class sporco__array:
    def zdivide(x, y):
        return np.where(y != 0, x / y, 0)


class sporco__prox___dl1l2:
    def norm_dl1l2(x, beta, axis):
        return one(np.sum(np.abs(x), axis=axis, keepdims=True)) - \
            beta * np.sqrt(one(np.sum(np.abs(x)**2, axis=axis,
                                      keepdims=True)))

    def prox_dl1l2(v, alpha, beta, axis):
        a = np.abs(v)
        s = np.maximum(a - alpha, 0) * np.sign(v)
        n = np.sqrt(one(np.sum(sq(s), axis=axis, keepdims=True)))
        s = s * np.where(n != 0, (n + alpha * beta) / n, 1)
        e = np.zeros(v.shape)
        # one non-zero component, that of largest magnitude
        if axis is None:
            m = np.max(a)
            if not m > 0:
                return e
            i = a.ravel().argmax()
            e.ravel()[i] = np.sign(v.ravel()[i]) * (
                a.ravel()[i] - alpha * (1 - beta))
            if m > alpha:
                return s
            if m >= alpha * (1 - beta):
                return e
            return np.zeros(v.shape)
        m = np.max(a, axis=axis, keepdims=True)
        i = np.expand_dims(a.argmax(axis=axis), axis=axis)
        np.put_along_axis(e, i, np.sign(np.take_along_axis(
            v, i, axis=axis)) * (m - alpha * (1 - beta)), axis=axis)
        return np.where(m > alpha, s,
                        np.where(m > alpha * (1 - beta), e, 0))
