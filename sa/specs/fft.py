"""Reference formulas of transforms, filters and gradient operators."""
import numpy as np
import sporco.fft as sf
import scipy.fftpack as fftpack
import sporco.signal as ss
import numpy_fft


class sporco__fft:
    def is_complex_dtype(dtype):
        return dtype.kind == 'c'

    def fftn_func(real):
        return sf.rfftn if real else sf.fftn

    def ifftn_func(real):
        return sf.irfftn if real else sf.ifftn

    def fl2norm2_func(real):
        if real:
            return sf.rfl2norm2
        return lambda xf, xs, axis: sf.fl2norm2(xf, axis)

    def fftn(a, s, axes):
        return numpy_fft.fftn(a, s, axes)

    def ifftn(a, s, axes):
        return numpy_fft.ifftn(a, s, axes)

    def rfftn(a, s, axes):
        return numpy_fft.rfftn(a, s, axes)

    def irfftn(a, s, axes):
        return numpy_fft.irfftn(a, s, axes)

    def _fftn(a, s, axes):
        return numpy_fft.fftn(a, s, axes)

    def _ifftn(a, s, axes):
        return numpy_fft.ifftn(a, s, axes)

    def _rfftn(a, s, axes):
        return numpy_fft.rfftn(a, s, axes)

    def _irfftn(a, s, axes):
        return numpy_fft.irfftn(a, s, axes)

    def dctii(x, axes):
        if axes is None:
            axes = (0, 1)
        for i in axes:
            x = fftpack.dct(x, type=2, axis=i, norm='ortho')
        return x

    def idctii(x, axes):
        if axes is None:
            axes = (0, 1)
        for i in axes[::-1]:
            x = fftpack.idct(x, type=2, axis=i, norm='ortho')
        return x

    def fl2norm2(xf, axis):
        n = 1
        for k in axis:
            n = n * xf.shape[k]
        return np.sum(np.abs(xf)**2) / n

    def rfl2norm2(xf, xs, axis):
        # the last of the transformed axes is the halved one
        n = 1
        for k in axis:
            n = n * xs[k]
        pre = (slice(None),) * axis[-1]
        N = xs[axis[-1]]
        e0 = np.sum(np.abs(xf[pre + (0,)])**2)
        e1 = np.sum(np.abs(xf[pre + (slice(1, (N + 1) // 2),)])**2)
        if N % 2 == 0:
            e2 = np.sum(np.abs(xf[pre + (slice(-1, None),)])**2)
        else:
            e2 = 0
        return (e0 + 2 * e1 + e2) / n

    def rfftn_empty_aligned(shape, axes, dtype):
        s = list(shape)
        s[axes[-1]] = s[axes[-1]] // 2 + 1
        return np.empty(s)

    def _rfftn_empty(shape, axes, dtype):
        s = list(shape)
        s[axes[-1]] = s[axes[-1]] // 2 + 1
        return np.empty(s)

    def fftconv(a, b, axes, origin):
        if axes is None:
            axes = (0, 1)
        n = np.maximum([a.shape[i] for i in axes], [b.shape[i] for i in axes])
        if np.isrealobj(a) and np.isrealobj(b):
            c = sf.irfftn(sf.rfftn(a, n, axes) * sf.rfftn(b, n, axes), n,
                          axes)
        else:
            c = sf.ifftn(sf.fftn(a, n, axes) * sf.fftn(b, n, axes), n, axes)
        if origin is not None:
            c = np.roll(c, -np.array(origin), axis=axes)
        return c


class sporco__signal:
    def grad(x, axis, zero_pad):
        if zero_pad:
            return np.diff(x, axis=axis, prepend=0, append=0)
        s = (slice(None),) * (axis % 3)
        g = np.roll(x, -1, axis=axis % 3) - x
        g[s + (slice(-1, None),)] = 0.0
        return g

    def gradT(x, axis, zero_pad):
        if zero_pad:
            return -np.diff(x, axis=axis)
        s = (slice(None),) * (axis % 3)
        g = np.roll(x, 1, axis=axis % 3) - x
        g[s + (slice(0, 1),)] = -x[s + (slice(0, 1),)]
        g[s + (slice(-1, None),)] = x[s + (slice(-2, -1),)]
        return g

    def gradient_filters(ndim, axes, axshp, dtype):
        g = np.zeros([2 if k in axes else 1 for k in range(ndim)] +
                     [len(axes)])
        for n in range(len(axes)):
            k = axes[n]
            g[(0,) * k + (slice(None),) + (0,) * (ndim - 1 - k) +
              (n,)] = np.array([1, -1])
        if sf.is_complex_dtype(np.dtype(dtype)):
            G = sf.fftn(g, axshp, axes)
        else:
            G = sf.rfftn(g, axshp, axes)
        return (G, np.sum(np.real(np.conj(G) * G), axis=-1))

    def spnoise(s, frc, smn, smx):
        u = np.random.uniform(-1.0, 1.0, s.shape)
        r = np.where(u < frc - 1.0, smn, s)
        return np.where(u > 1.0 - frc, smx, r)

    def rndmask(shp, frc, dtype):
        u = np.random.uniform(-1.0, 1.0, shp)
        return np.where(np.abs(u) > frc, 1.0, 0.0)

    def rgb2gray(rgb):
        w = np.array([0.299, 0.587, 0.114])
        if rgb.ndim == 4:
            w = w.reshape((1, 1, 3, 1))
        else:
            w = w.reshape((1, 1, 3))
        return np.sum(w * rgb, axis=2)

    def tikhonov_filter(s, lmbda, npd):
        N = (s.shape[0] + 2 * npd, s.shape[1] + 2 * npd)
        gr = np.array([-1.0, 1.0]).reshape([2, 1])
        gc = np.array([-1.0, 1.0]).reshape([1, 2])
        sp = np.pad(s, ((npd, npd),) * 2 + ((0, 0),) * (s.ndim - 2),
                    'symmetric')
        if np.isrealobj(s):
            Gr = sf.rfftn(gr, N, (0, 1))
            Gc = sf.rfftn(gc, N, (0, 1))
            F = sf.rfftn(sp, None, (0, 1))
        else:
            Gr = sf.fftn(gr, N, (0, 1))
            Gc = sf.fftn(gc, N, (0, 1))
            F = sf.fftn(sp, None, (0, 1))
        A = 1.0 + lmbda * np.real(np.conj(Gr) * Gr + np.conj(Gc) * Gc)
        if s.ndim > 2:
            A = A[:, :, np.newaxis]
        if np.isrealobj(s):
            x = sf.irfftn(F / A, sp.shape[0:2], (0, 1))
        else:
            x = sf.ifftn(F / A, sp.shape[0:2], (0, 1))
        lo = x[npd:npd + s.shape[0], npd:npd + s.shape[1]]
        return (lo, s - lo)

    def gaussian(shape, sd):
        c = 1.0 / (np.sqrt(2.0 * np.pi) * sd)
        if isinstance(shape, int):
            x = np.linspace(-3.0, 3.0, shape).reshape((shape,))
            g = c * np.exp(-x**2 / (2.0 * sd**2))
        else:
            x = np.linspace(-3.0, 3.0, shape[0]).reshape((shape[0], 1))
            y = np.linspace(-3.0, 3.0, shape[1]).reshape((1, shape[1]))
            g = c * np.exp(-x**2 / (2.0 * sd**2)) * c * np.exp(
                -y**2 / (2.0 * sd**2))
        return g / np.sum(g)

    def local_contrast_normalise(s, n, c):
        # grey or colour image of known number of axes
        g = ss.gaussian((2 * n + 1, 2 * n + 1), sd=1.0)
        w = ((n, n), (n, n))
        if s.ndim > 2:
            g = g[..., np.newaxis]
            w = ((n, n), (n, n), (0, 0))
        p = np.pad(s, w, mode='symmetric')
        mn = np.roll(sf.fftconv(g, p), (-n, -n), axis=(0, 1))
        d = p - mn
        sd = np.roll(np.sqrt(np.maximum(sf.fftconv(g, d**2), 0.0)), (-n, -n),
                     axis=(0, 1))
        if c is None:
            c = np.mean(sd, axis=(0, 1), keepdims=True)
        sd = np.maximum(c, sd)
        return ((d / sd)[n:-n, n:-n], mn[n:-n, n:-n], sd[n:-n, n:-n])
