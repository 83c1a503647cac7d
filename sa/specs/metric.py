"""Reference formulas of quality metrics, array and interpolation functions."""
import numpy as np
import scipy.ndimage as ndimage
import scipy.signal as signal
import scipy.optimize as optim
import sporco.interp as si
import sporco.prox._lp as pr
import sporco.prox._l1proj as lp
import sporco.prox._util as pu


def mse(r, c):
    return np.mean(np.abs(r.ravel() - c.ravel())**2)


class sporco__metric:
    def mae(vref, vcmp):
        return np.mean(np.abs(vref.ravel() - vcmp.ravel()))

    def mse(vref, vcmp):
        return mse(vref, vcmp)

    def snr(vref, vcmp):
        return 10.0 * np.log10(np.var(vref) / mse(vref, vcmp))

    def psnr(vref, vcmp, rng):
        if rng is None:
            rng = np.abs(np.max(vref) - np.min(vref))
        return 10.0 * np.log10(rng**2 / mse(vref, vcmp))

    def isnr(vref, vdeg, vrst):
        return 10.0 * np.log10(mse(vref, vdeg) / mse(vref, vrst))

    def bsnr(vblr, vnsy):
        return 10.0 * np.log10(np.var(vblr) / np.var(vnsy - vblr))

    def pamse(vref, vcmp, rescale):
        e = vref - vcmp
        if rescale:
            e = e * (255.0 / np.max(vref))
        return np.mean(ndimage.gaussian_filter(e, 0.8)**2)

    def gmsd(vref, vcmp, rescale, returnMap):
        s = 255.0 / np.max(vref) if rescale else 1.0
        dx = np.array([[1, 0, -1], [1, 0, -1], [1, 0, -1]]) / 3.0
        box = np.ones((2, 2)) / 4.0

        def flt(x, h):
            return signal.convolve2d(x, h, mode='same', boundary='symm')

        def gm2(v):
            y = flt(s * v, box)[0::2, 0::2]
            return flt(y, dx)**2 + flt(y, dx.T)**2
        a = gm2(vref)
        b = gm2(vcmp)
        q = (2 * np.sqrt(a) * np.sqrt(b) + 170.0) / (a + b + 170.0)
        if returnMap:
            return (np.std(q), q)
        return np.std(q)


class sporco__interp:
    def lanczos_kernel(x, a):
        return np.where(np.abs(x) < a, np.sinc(x) * np.sinc(x / a), 0)

    def interpolation_points(N, include_zero):
        if include_zero:
            return np.arange(-((N - 1) // 2), N // 2 + 1) / N
        return np.hstack((np.arange(-(N // 2), 0),
                          np.arange(1, (N + 1) // 2 + 1))) / (N + 1)


    def lanczos_filters(sz, a, collapse_axes):
        # two axes of integer sizes, or one of given points
        if isinstance(sz, int):
            sz = (sz,)
        h = 1.0
        for n in range(len(sz)):
            x = si.interpolation_points(sz[n]) if isinstance(sz[n], int) \
                else np.array(sz[n])
            g = np.arange(-a, a + 1)[:, np.newaxis] + x[np.newaxis, :]
            k = si.lanczos_kernel(g, a=a)
            k = k / np.sum(k, axis=0, keepdims=True)
            s = [1] * (2 * len(sz))
            s[n] = k.shape[0]
            s[len(sz) + n] = k.shape[1]
            h = h * k.reshape(tuple(s))
        if collapse_axes:
            return h.reshape(h.shape[0:len(sz)] + (-1,))
        return h

    def lstabsdev(A, b):
        # minimise the sum of t such that |A x - b| <= t
        M, N = A.shape
        c = np.zeros((M + N,))
        c[0:M] = 1.0
        E = np.identity(M)
        r = si._linprog(c, np.hstack((np.vstack((-E, -E)),
                                      np.vstack((-A, A)))),
                        np.hstack((-b, b)), bounds=(None, None))
        return r.x[M:]

    def lstmaxdev(A, b):
        # minimise t such that |A x - b| <= t
        M, N = A.shape
        c = np.zeros((N + 1,))
        c[0] = 1.0
        e = np.ones((M, 1))
        r = si._linprog(c, np.hstack((np.vstack((-e, -e)),
                                      np.vstack((-A, A)))),
                        np.hstack((-b, b)), bounds=(None, None))
        return r.x[1:]


class sporco__array:
    def zpad(x, pd, ax):
        # x has three axes
        w = [(0, 0), (0, 0), (0, 0)]
        w[ax] = pd
        return np.pad(x, tuple(w), 'constant')

    def zdivide(x, y):
        return np.where(y != 0, x / y, 0)

    def atleast_nd(n, u):
        if n <= u.ndim:
            return u
        return u.reshape(u.shape + (1,) * (n - u.ndim))

    def split(u, axis):
        k = axis % 3
        s = (slice(None),) * k
        return [u[s + (0,)], u[s + (1,)]]

    def promote16(u, fn):
        if fn is None:
            return u
        return fn(u)

    def rolling_window(x, wsz, wnm, pad):
        # x has two axes of known lengths
        n = x.shape
        if wnm is None:
            wnm = tuple([n[k] - wsz[k] + 1 for k in range(2)])
        else:
            p = [max(wsz[k] + wnm[k] - 1 - n[k], 0) for k in range(2)]
            if p[0] > 0 or p[1] > 0:
                x = np.pad(x, ((0, p[0]), (0, p[1])), mode=pad)
        return np.lib.stride_tricks.as_strided(
            x, wsz + wnm, x.strides + x.strides)

    def subsample_array(x, step, pad, mode):
        # x has two axes of known lengths
        n = [x.shape[k] // step[k] for k in range(2)]
        if pad and (x.shape[0] % step[0] > 0 or x.shape[1] % step[1] > 0):
            n = [(x.shape[k] + step[k] - 1) // step[k] for k in range(2)]
            x = np.pad(x, tuple([(0, n[k] * step[k] - x.shape[k])
                                 for k in range(2)]), mode=mode)
        return np.lib.stride_tricks.as_strided(
            x, step + tuple(n), x.strides + tuple(
                [step[k] * x.strides[k] for k in range(2)]))

    def extract_blocks(img, blksz, stpsz):
        # image axes of known lengths
        if isinstance(img, tuple):
            img = np.stack(img, axis=-1)
        nd = img.ndim
        if stpsz is None:
            stpsz = (1,) * len(blksz)
        b = blksz + (1,) * (nd - len(blksz))
        s = stpsz + (1,) * (nd - len(stpsz))
        num = tuple([(img.shape[k] - b[k]) // s[k] + 1 for k in range(nd)])
        r = np.lib.stride_tricks.as_strided(
            img, blksz + num, img.strides[:len(blksz)] + tuple(
                [img.strides[k] * s[k] for k in range(nd)]))
        return np.reshape(r, blksz + (-1,))

    def average_blocks(blks, imgsz, stpsz):
        blksz = blks.shape[:-1]
        if stpsz is None:
            stpsz = (1,) * len(blksz)
        nd = len(imgsz)
        b = blksz + (1,) * (nd - len(blksz))
        s = stpsz + (1,) * (nd - len(stpsz))
        num = tuple([(imgsz[k] - b[k]) // s[k] + 1 for k in range(nd)])
        B = np.reshape(blks, blksz + num)
        img = np.zeros(imgsz)
        cnt = np.zeros(imgsz)
        for i in range(num[0]):
            for j in range(num[1]):
                ix = (slice(s[0] * i, s[0] * i + b[0]),
                      slice(s[1] * j, s[1] * j + b[1]))
                img[ix] += B[Ellipsis, i, j]
                cnt[ix] += 1
        return np.where(cnt > 0, img / cnt, np.nan)

    def transpose_ntpl_list(lst):
        return UNSPECIFIED


class sporco__prox___util:
    def ndto2d(x, axis):
        # x has three axes
        if isinstance(axis, int):
            axis = (axis,)
        axis = tuple([k % 3 for k in axis])
        rest = tuple([k for k in range(3) if k not in axis])
        p = rest + axis
        t = np.transpose(x, p)
        n = 1
        for k in rest:
            n = n * x.shape[k]
        s = tuple([x.shape[k] for k in p])
        return (t.reshape((n, -1)), (s, p))

    def ndfrom2d(xtr, rsi):
        return np.transpose(xtr.reshape(rsi[0]), np.argsort(rsi[1]))


def lpn(x, axis):
    n = np.sum(np.abs(x)**2, axis=axis, keepdims=True)
    if n.size == 1:
        n = n.ravel()[0]
    return np.sqrt(n)


class sporco__prox___l1proj:
    def proj_l1(v, gamma, axis, method):
        if method is None:
            method = 'scalarroot' if axis is None else 'sortcumsum'
        if method == 'scalarroot':
            return lp._proj_l1_scalar_root(v, gamma)
        if isinstance(axis, tuple):
            t, r = pu.ndto2d(v, axis)
            return pu.ndfrom2d(lp._proj_l1_sortsum(t, gamma, axis=1), r)
        return lp._proj_l1_sortsum(v, gamma, axis)

    def _proj_l1_scalar_root(v, gamma):
        if pr.norm_l1(v) <= gamma:
            return v
        a = np.abs(v)

        def excess(t):
            return np.sum(np.maximum(0, a - t)) - gamma
        return pr.prox_l1(v, optim.brentq(excess, 0, np.max(a)))

    def _proj_l1_sortsum(v, gamma, axis):
        # v has three axes, axis is given
        k = axis % 3
        a = np.abs(v)
        s = np.sort(a, axis=k)[(slice(None),) * k + (slice(None, None, -1),)]
        shp = [1, 1, 1]
        shp[k] = v.shape[k]
        n = np.arange(1, v.shape[k] + 1).reshape(shp)
        t = (np.cumsum(s, axis=k).reshape(v.shape) - gamma) / n
        act = s >= t
        K = np.sum(act, axis=k, keepdims=True)
        t = np.maximum((np.sum(s * act, axis=k, keepdims=True) - gamma) / K,
                       0)
        return np.sign(v) * np.where(a > t, a - t, 0)
