"""
C19: images of distances, apertures, gaussians, Airy disks, phase masks, profiles, power spectra and beams follow their definition.

Every shape, centre, resolution, number type and buffer of bounded domains is given to the implementation and compared, element by
element, to the definition evaluated at the position of each pixel.
"""
import itertools
import math

import numpy as np

from checks.c18 import buffers, outside
from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C19'
TECHNIQUE = 'exhaustive enumeration of shapes, centres, resolutions, number types, buffers and pixel values, executed on the implementation against the definitions evaluated pixel by pixel'
NOTE = (
    'Values are compared within the roundoff of the number type. Pixels that lie on the boundary of an aperture or of a bin are only exercised with resolutions that are '
    'exact in binary. Power spectra are compared to a direct Fourier sum. Bessel functions are those of scipy.'
)
BOUNDS = (
    'shapes of 1 to 4 dimensions with 1 to 4 elements along each; a grid of centres inside and outside of the image, or the default one; 8 isotropic and anisotropic resolutions with or '
    'without a unit; 11 number types; 6 buffer layouts; every image of 2x2 to 3x3 pixels with values among 0, 1, 2 or NaN and infinities for the profiles; spectra of every unit image of '
    '1 to 5 rows and columns'
)
FLOATS = ('f4', 'f8', 'f2', 'g', '>f8')
OTHERS = ('i8', 'i4', 'i2', 'u1', 'c8', 'c16')


def tol(dt):
    dt = np.dtype(dt)
    if dt.kind in 'iub':
        return 0
    return {'f2': 2e-3, 'f4': 3e-6, 'c8': 3e-6}.get(dt.str[1:], 1e-13)


def pixels(shape, center, scale):
    """ Squared distance of each pixel to the centre; centre and scale are given along x, y, ... """
    n = len(shape)
    c = [(s - 1) / 2 for s in shape][::-1] if center is None else list(np.atleast_1d(center))
    sc = [scale] * n if np.ndim(scale) == 0 else list(scale)
    out = np.zeros(shape)
    for ix in np.ndindex(*shape):
        out[ix] = sum((sc[k] * (ix[n - 1 - k] - c[k])) ** 2 for k in range(n))
    return out


def compare(got, e, dt, what):
    dt = np.dtype(dt)
    got = np.asarray(got)
    eq(got.dtype, dt, f'{what}: type')
    eq(got.shape, e.shape, f'{what}: shape')
    if dt.kind in 'iub':
        # values are truncated; those which are integers are exact
        near = np.abs(e - np.round(e)) < 1e-9
        require((got[near] == np.round(e[near])).all() and (got[~near] == np.trunc(e[~near])).all(), f'{what}: got {got.tolist()}, expected {e.tolist()}')
        return
    same_array(got.astype(complex if dt.kind == 'c' else float), e.astype(complex) if dt.kind == 'c' else e, what, rtol=tol(dt), atol=tol(dt))


def centers(shape):
    n = len(shape)
    yield None
    if n <= 2:
        for c in itertools.product((-1, 0, 0.5, 1, 2.25), repeat=n):
            yield c
    else:
        yield (0,) * n
        yield tuple(range(n))
        yield tuple(k - 0.75 for k in range(n))


def scales(n):
    yield 1
    yield 2
    yield 0.3
    yield [0.5 * (k + 1) for k in range(n)]
    yield tuple(2 - 0.25 * k for k in range(n))
    yield np.array([3. - k for k in range(n)])


def distances(shape, dts):
    n = len(shape)

    def one(center, scale, dt):
        from pysimulators import Map, Quantity
        from pysimulators.datautils import distance, distance2
        d2 = pixels(shape, center, scale)
        kw = {'scale': scale}
        if center is not None:
            kw['center'] = center
        for func, e in ((distance, np.sqrt(d2)), (distance2, d2)):
            w = func.__name__
            if dt == 'u1' and e.max() > 255:
                return
            r = func(shape, dtype=dt, **kw)
            require(type(r) is Map, 'type of the map')
            compare(r, e, dt, w)
            if n == 1:
                compare(func(shape[0], dtype=dt, **kw), e, dt, f'{w}, integer shape')
            compare(func(list(shape), dtype=dt, **kw), e, dt, f'{w}, list')
            if center is not None:
                compare(func(shape, dtype=dt, scale=scale, center=np.array(center, float)), e, dt, f'{w}, array')
            if np.dtype(dt) == float and center is not None and np.dtype(dt).isnative:
                compare(func(shape, **kw), e, float, f'{w}, default type')
            for name, out in buffers(shape, dt):
                r = func(shape, out=out, **kw)
                compare(out, e, dt, f'{w} in a buffer {name}')
                compare(r, e, dt, f'{w} returned with a buffer {name}')
                require(np.shares_memory(np.asarray(r), out), f'{w}: the buffer is returned')
                outside(out, name)
        for q, u in ((Quantity(scale, 'm'), 'm'), (Quantity(scale, 'arcsec'), 'arcsec')):
            kw['scale'] = q
            r = distance(shape, dtype=dt, **kw)
            compare(r, np.sqrt(d2), dt, 'distance with a unit')
            eq(r.unit, u, 'unit of the distance')
            r = distance2(shape, dtype=dt, **kw)
            compare(r, d2, dt, 'squared distance with a unit')
            eq(r.unit, f'{u}^2', 'unit of the squared distance')
            eq(q.unit, u, 'unit of the scale')
            same_array(np.asarray(q), np.array(scale, np.asarray(q).dtype), 'scale')

    def scenario(ck):
        for center in centers(shape):
            for scale in scales(n):
                for dt in dts:
                    ck.check(f'{center} {scale} {dt}', one, center, scale, dt)
    return scenario


def apertures(shape):
    def one(diameter, center, scale):
        from pysimulators import Quantity
        from pysimulators.datautils import aperture_circular
        e = pixels(shape, center, scale) <= diameter ** 2 / 4
        kw = {} if center is None else {'center': center}
        for dt in (None, 'f8', 'f4', '?', 'i8', 'u1', 'f2', 'c16'):
            d = {} if dt is None else {'dtype': dt}
            r = aperture_circular(shape, diameter, scale=scale, **d, **kw)
            eq(np.asarray(r).dtype, np.dtype(dt or float), 'type')
            same_array(np.asarray(r).astype(bool), e, f'aperture {dt}')
            require(set(np.unique(np.asarray(r)).real) <= {0, 1}, 'values of an aperture')
        for ud, f in (('m', 1), ('km', 1e-3)):
            r = aperture_circular(shape, Quantity(diameter * f, ud), scale=Quantity(scale, 'm'), **kw)
            if f == 1:
                same_array(np.asarray(r).astype(bool), e, 'aperture with units')
                eq(r.unit, '', 'a mask has no unit')

    def scenario(ck):
        for diameter in (0, 0.5, 1, 1.5, 2, 3, 4, 10):
            for center in centers(shape):
                for scale in (1, 0.5, 2) + (([1, 0.5], [0.25, 2.]) if len(shape) == 2 else ()):
                    ck.check(f'{diameter} {center} {scale}', one, diameter, center, scale)
    return scenario


def gaussians(shape, dts):
    n = len(shape)

    def one(sigma, center, dt):
        from pysimulators import gaussian
        s = [sigma] * n if np.ndim(sigma) == 0 else list(sigma)
        e = np.exp(-pixels(shape, center, [1 / v for v in s]) / 2) / math.prod(math.sqrt(2 * math.pi) * v for v in s)
        kw = {} if center is None else {'center': center}
        if dt is None:
            compare(gaussian(shape, sigma=sigma, **kw), e, float, 'gaussian')
            dt = 'f8'
        compare(gaussian(shape, sigma=sigma, dtype=dt, **kw), e, dt, 'gaussian')
        compare(gaussian(shape, sigma, dtype=dt, **kw), e, dt, 'gaussian, positional')
        k = math.sqrt(8 * math.log(2))
        fwhm = sigma * k if np.ndim(sigma) == 0 else type(sigma)(v * k for v in sigma) if not isinstance(sigma, np.ndarray) else sigma * k
        compare(gaussian(shape, fwhm=fwhm, dtype=dt, **kw), e, dt, 'gaussian, fwhm')
        compare(gaussian(list(shape), fwhm=np.array(fwhm), dtype=dt, **kw), e, dt, 'gaussian, list')
        # the value at half of the full width is half of the peak
        if center is None and np.dtype(dt) == float:
            for axis in range(n):
                big = [1] * n
                big[n - 1 - axis] = 9
                f = [2.] * n
                f[axis] = 4.
                g = np.asarray(gaussian(tuple(big), fwhm=f, center=[4 if a == axis else 0 for a in range(n)])).ravel()
                same_array(g[[2, 6]] * 2, g[[4, 4]], 'half maximum', rtol=1e-12)

    def scenario(ck):
        for sigma in [1, 0.7, 2.5, [0.5 + k for k in range(n)], tuple(2. - 0.5 * k for k in range(n)), np.array([1. + k / 4 for k in range(n)])]:
            for center in centers(shape):
                for dt in dts:
                    ck.check(f'{sigma} {center} {dt}', one, sigma, center, dt)

        def none():
            from pysimulators import gaussian
            raises(ValueError, gaussian, shape)
        ck.check('no width', none)
    return scenario


def airy(shape):
    def one(width, center, scale, dt):
        from scipy.special import j1
        from pysimulators import airy_disk
        d = np.sqrt(pixels(shape, center, scale))
        kw = {} if center is None else {'center': center}
        for name, zero in (('fwhm', width / 2 / 1.61633), ('r0', width / 3.8317)):
            x = d / zero
            x[x == 0] = 1e-12
            e = (2 * j1(x) / x) ** 2
            e /= e.sum()
            r = airy_disk(shape, scale=scale, dtype=dt, **{name: width}, **kw)
            eq(np.asarray(r).dtype, np.dtype(dt), 'type')
            same_array(np.asarray(r, float), e, name, rtol=max(tol(dt), 1e-9), atol=max(tol(dt), 1e-9))
            same_array(np.asarray(airy_disk(shape, scale=scale, **{name: width}, **kw), float), e, name, rtol=1e-9, atol=1e-9)

    def scenario(ck):
        for width in (1., 2, 3.5):
            for center in centers(shape):
                for scale in (1, 0.3) + (([1, 0.5],) if len(shape) == 2 else ()):
                    for dt in FLOATS:
                        ck.check(f'{width} {center} {scale} {dt}', one, width, center, scale, dt)

        def definition():
            from pysimulators import airy_disk
            raises(ValueError, airy_disk, shape)
            a = np.asarray(airy_disk((1, 9), fwhm=4, center=(4, 0)))[0]
            same_array(a[[2, 6]] * 2, a[[4, 4]], 'half maximum', rtol=1e-4)
            a = np.asarray(airy_disk((1, 9), r0=3, center=(4, 0)))[0]
            same_array(a[[1, 7]] / a[4], [0., 0.], 'dark ring', atol=1e-8)
        ck.check('definition', definition)
    return scenario


def phasemask(ck):
    def one(shape, phase):
        from pysimulators.datautils import phasemask_fourquadrant
        r = phasemask_fourquadrant(shape) if phase is None else phasemask_fourquadrant(shape, phase)
        e = np.array([[(-1 if phase is None else phase) if (i < shape[0] // 2) != (j < shape[1] // 2) else 1 for j in range(shape[1])] for i in range(shape[0])], complex).reshape(shape)
        same_array(np.asarray(r), e, 'phase mask', dtype=complex)
    for shape in itertools.product(range(0, 6), repeat=2):
        for phase in (None, -1, 1j, 0.5, 2 + 1j):
            ck.check(f'{shape} {phase}', one, shape, phase)


def ref_profile(image, bin, nbins, center, scale):
    """ Definition of the profile: mean distance, mean value and number of the pixels in each annulus. """
    d = np.sqrt(pixels(image.shape, center, 1))
    x, y, n = np.zeros(nbins), np.zeros(nbins), np.zeros(nbins, int)
    for k in range(nbins):
        m = (d >= k * bin / scale) & (d < (k + 1) * bin / scale) & ~np.isnan(image)
        n[k] = m.sum()
        x[k] = d[m].mean() * scale if n[k] else (k + 0.5) * bin
        with np.errstate(invalid='ignore'):
            y[k] = image[m].sum() / n[k] if n[k] else np.nan
    return x, y, n


def check_profile(image, bin, nbins, center, scale, dts=('f8',), deep=True):
    from pysimulators.datautils import integrated_profile, profile
    kw = {k: v for k, v in (('nbins', nbins), ('center', center)) if v is not None}
    if bin != 1:
        kw['bin'] = bin
    if scale != 1:
        kw['scale'] = scale
    i0 = image.copy()
    for dt in dts:
        im = image.astype(dt)
        fdt = {'f2': np.dtype('f4'), 'f4': np.dtype('f4')}.get(np.dtype(dt).str[1:], np.dtype(float))
        rtol = 1e-3 if dt == 'f2' else 1e-5 if fdt == np.float32 else 1e-13
        x, y, n = profile(im, histogram=True, **kw)
        N = len(n)
        if nbins is not None:
            eq(N, nbins, 'number of bins')
        ex, ey, en = ref_profile(im.astype(float), bin, N, center, scale)
        same_array(n, en, 'histogram')
        same_array(np.asarray(x, float), ex, 'abscissae', rtol=rtol, atol=rtol)
        same_array(np.asarray(y, float), ey, 'profile', rtol=rtol, atol=rtol)
        eq(y.dtype, fdt, 'type')
        x2, y2 = profile(im, **kw)
        same_array(x2, x, 'abscissae without histogram')
        same_array(y2, y, 'profile without histogram')
        xi, yi = integrated_profile(im, **kw)
        eq(len(xi), N, 'number of integrations')
        same_array(np.asarray(xi, float), bin * np.arange(1, N + 1), 'upper boundaries', rtol=rtol)
        if np.isfinite(ey[en > 0]).all():
            d = np.sqrt(pixels(image.shape, center, 1)) * scale
            v = np.where(np.isnan(im.astype(float)), 0, im.astype(float))
            e = np.array([v[d < b].sum() for b in bin * np.arange(1, N + 1)]) * scale ** 2
            same_array(np.asarray(yi, float), e, 'integrated profile', rtol=rtol, atol=rtol)
        if deep:
            for name, b in buffers(im.shape, im.dtype):
                b[...] = im
                a = profile(b, histogram=True, **kw)
                same_array(a[0], x, f'abscissae of an image {name}')
                same_array(a[1], y, f'profile of an image {name}')
                same_array(a[2], n, f'histogram of an image {name}')
                same_array(b, im, f'image {name}')
            from pysimulators import Map
            a = profile(Map(im, dtype=im.dtype), histogram=True, **kw)
            same_array(a[1], y, 'profile of a map')
    same_array(image, i0, 'image')


def profiles(shape):
    def scenario(ck):
        image = (np.arange(shape[0] * shape[1]) * 7 % 11 - 3.).reshape(shape)
        for center in [None] + list(itertools.product((0, 1, 0.5, -2), repeat=2)):
            for bin, scale in ((1, 1), (0.5, 1), (2, 1), (1, 0.5), (0.5, 2.), (0.75, 0.25), (1.5, 4), (0.3, 1)):
                for nbins in (None, 1, 2, 5, 9):
                    ck.check(f'{center} {bin} {scale} {nbins}', check_profile, image, bin, nbins, center, scale, ('f8', 'f4', 'i8', 'i4', 'u1') if bin != 0.3 else ('f8',), nbins == 5)
    return scenario


def values(shape, part, parts):
    """ Every image with these values. """
    nan, inf = np.nan, np.inf

    def scenario(ck):
        n = shape[0] * shape[1]
        domain = (0., 1., nan) if n > 6 else (0., 1., 2., nan) if n > 4 else (0., 1., 2., nan, inf, -inf)
        images = list(itertools.product(domain, repeat=n))[part::parts]
        for im in images:
            for bin, nbins, center in ((1, None, None), (0.5, 3, (0, 0)), (1, 4, (1, 0))):
                ck.check(f'{im} {bin} {nbins} {center}', check_profile, np.array(im).reshape(shape), bin, nbins, center, 1, ('f8',), False)
    return scenario


def spectra(shape):
    def dft(im):
        m, n = im.shape
        out = np.zeros((m, n), complex)
        for k, l in np.ndindex(m, n):
            for a, b in np.ndindex(m, n):
                out[k, l] += im[a, b] * np.exp(-2j * math.pi * (k * a / m + l * b / n))
        return out

    def one(im, fs, dt):
        from pysimulators.datautils import profile_psd2, psd2
        m, n = shape
        im = im.astype(dt)
        f = np.abs(dft(im)) ** 2 / (m * n) ** 2 / (fs ** 2 / (m * n))
        e = np.empty((m, n))
        # the zero frequency is at (m // 2, n // 2)
        for k, l in np.ndindex(m, n):
            e[(k + m // 2) % m, (l + n // 2) % n] = f[k, l]
        i0 = im.copy()
        rtol = 1e-5 if dt == 'f4' else 1e-11
        r = psd2(im, fs, fftw_flag='FFTW_ESTIMATE')
        same_array(np.asarray(r, float), e, 'power spectrum', rtol=rtol, atol=rtol * 100)
        if fs == 1:
            same_array(np.asarray(psd2(im, fftw_flag='FFTW_ESTIMATE'), float), e, 'power spectrum', rtol=rtol, atol=rtol * 100)
        same_array(np.asarray(psd2(im.tolist(), fs, fftw_flag='FFTW_ESTIMATE'), float), e, 'power spectrum of a list', rtol=1e-5, atol=1e-3)
        same_array(im, i0, 'image')
        same_array(np.sum(r) * fs ** 2 / (m * n), np.mean(np.abs(im.astype(complex)) ** 2), 'energy', rtol=rtol, atol=rtol)
        if m == n and n > 1:
            x, y = profile_psd2(im, fs, fftw_flag='FFTW_ESTIMATE')
            # frequency of each pixel, in units of the spacing
            k = np.array([[math.hypot(a - m // 2, b - n // 2) for b in range(n)] for a in range(m)])
            for i in range(len(x)):
                w = (k >= i) & (k < i + 1)
                same_array(x[i], k[w].mean() * fs / n, 'frequency', rtol=1e-12, atol=1e-14)
                same_array(float(y[i]), e[w].mean(), 'profile of the spectrum', rtol=rtol, atol=rtol * 100)
            require(len(x) >= n // 2, 'the profile reaches the Nyquist frequency')
        else:
            if m != n:
                raises(ValueError, profile_psd2, im)
        raises(ValueError, psd2, im[0])
        raises(ValueError, psd2, im[None])

    def scenario(ck):
        N = shape[0] * shape[1]
        images = [np.ones(shape), (np.arange(N) % 5 - 1.5).reshape(shape), (np.arange(N) ** 2 % 7).reshape(shape)]
        for i in range(N):
            u = np.zeros(N)
            u[i] = 2
            images.append(u.reshape(shape))
        for k, im in enumerate(images):
            for fs in (1, 2., 0.25):
                for dt in ('f8', 'f4', 'i8') + (('c16',) if k < 3 else ()):
                    ck.check(f'{k} {fs} {dt}', one, im, fs, dt)
    return scenario


def beams(ck):
    import itertools as it
    thetas = [0., 0.05, 0.1, 0.5, 1., math.pi / 2, 2., 3., math.pi]
    phis = [0., 1., -2.]

    def gauss(fwhm, backward):
        from pysimulators import BeamGaussian
        b = BeamGaussian(fwhm, backward) if backward is not None else BeamGaussian(fwhm)
        same_array(b.solid_angle, 2 * math.pi * (fwhm / math.sqrt(8 * math.log(2))) ** 2, 'solid angle', rtol=1e-13)
        def ref(t):
            t = math.pi - t if backward else t
            return 0.5 ** ((2 * t / fwhm) ** 2)
        for t in thetas + [fwhm / 2, math.pi - fwhm / 2]:
            for p in phis:
                same_array(np.asarray(b(t, p)), ref(t), 'gaussian beam', rtol=1e-10, atol=1e-290)
        e = np.array([ref(t) for t in thetas])
        T = np.array(thetas)
        for th, ph, ex in ((T, 0., e), (T, np.zeros(9), e), (T[:, None], np.array(phis), np.repeat(e[:, None], 3, 1)), (T, np.array(phis)[:, None], np.repeat(e[None], 3, 0)), (T[::-2], 1., e[::-2]),
                           (T.astype('f4'), 0., None), (np.array([0, 1, 3]), 0., np.array([ref(0), ref(1), ref(3)]))):
            t0 = th.copy()
            r = b(th, ph)
            eq(r.shape, np.broadcast(th, ph).shape, 'shape')
            same_array(th, t0, 'angles')
            if ex is not None:
                same_array(r, ex, 'gaussian beam', rtol=1e-10, atol=1e-290)
            else:
                same_array(np.asarray(r, float), e, 'gaussian beam', rtol=1e-3, atol=1e-30)

    def uniform():
        from pysimulators import BeamUniformHalfSpace
        b = BeamUniformHalfSpace()
        same_array(b.solid_angle, 2 * math.pi, 'solid angle')
        for t, p in it.product([0., 0.5, 1.5], phis):
            same_array(np.asarray(b(t, p)), 1., 'uniform beam')
        for s in it.product((1, 2, 3), repeat=2):
            same_array(b(np.zeros(s), 0.), np.ones(s), 'uniform beam')
            same_array(b(np.zeros(s[:1]), np.zeros(s[::-1])[:, :1]), np.ones((s[1], s[0])), 'uniform beam')

    def healpix(nside):
        import healpy as hp
        from pysimulators import BeamGaussian, BeamUniformHalfSpace
        th, ph = hp.pix2ang(nside, np.arange(12 * nside ** 2))
        for f, bw in it.product((0.3, 1., 3.), (False, True)):
            t = math.pi - th if bw else th
            same_array(BeamGaussian(f, bw).healpix(nside), 0.5 ** ((2 * t / f) ** 2), 'map of the beam', rtol=1e-10, atol=1e-290)
        eq(BeamUniformHalfSpace().healpix(nside).shape, (12 * nside ** 2,), 'map of the beam')
    for fwhm in (0.1, 0.5, 1., 3.):
        for bw in (None, False, True):
            ck.check(f'gaussian {fwhm} {bw}', gauss, fwhm, bw)
    ck.check('uniform', uniform)
    for nside in (1, 2, 4, 8):
        ck.check(f'healpix {nside}', healpix, nside)


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    s1 = [(n,) for n in range(1, 7)]
    s2 = list(itertools.product(range(1, 5), repeat=2))
    s3 = [(1, 2, 3), (2, 2, 2), (3, 1, 2)] + ([] if quick else [(4, 3, 2), (2, 3, 5)])
    s4 = [(2, 1, 3, 2)]
    for shape in s1 + s2 + s3 + s4:
        if quick and len(shape) == 2 and sum(shape) in (3, 6, 8) and shape[0] < shape[1]:
            continue
        out.append((f'distances {shape}', distances(shape, FLOATS)))
        out.append((f'distances of other types {shape}', distances(shape, OTHERS)))
        out.append((f'gaussians {shape}', gaussians(shape, (None, 'f4', 'f8', 'f2', 'g', 'i8', 'c16'))))
        if len(shape) < 3:
            out.append((f'apertures {shape}', apertures(shape)))
            out.append((f'airy {shape}', airy(shape)))
    out.append(('phase mask', phasemask))
    for shape in itertools.product(range(1, 6 if quick else 8), repeat=2):
        if sum(shape) > 2:
            out.append((f'profiles {shape}', profiles(shape)))
        out.append((f'spectra {shape}', spectra(shape)))
    for shape, parts in (((1, 1), 1), ((1, 2), 1), ((2, 1), 1), ((2, 2), 4), ((1, 3), 1), ((2, 3), 4)) + (() if quick else (((3, 3), 32), ((3, 2), 4))):
        for part in range(parts):
            out.append((f'values {shape} {part}', values(shape, part, parts)))
    out.append(('beams', beams))
    return out
