"""
C15: HEALPix operators follow the pixelisation for every pixel and direction.
"""
import itertools

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C15'
TECHNIQUE = (
    'exhaustive enumeration of the pixels of every resolution up to a bound, of the directions of a grid, of the conventions and orderings, of the pairs of operators and of the selections of pixels of the smallest map, on the real code, '
    'against the definition of the pixelisation written in the check'
)
NOTE = (
    'The centres of the pixels are computed in the check from their published definition, for both orderings; the pixel in which a direction falls is that of the functions of healpy that do not share the code of the operators. '
    'The simplification into an identity of the pixel-to-direction operator applied to its inverse is pinned by the existing tests and is a known finding.'
)
BOUNDS = (
    'every pixel for resolutions 1 to 9, 16 and 32 (quick) or up to 17 and 32, 64, 128 (thorough), ring and nested orderings and 5 coordinates; directions every 10 (quick) or 3 degrees with the poles and the edges of pixels; '
    'every pair of operators among 40; the 4096 selections of the 12 pixels for the three kinds of scene; 4 kernels of convolution'
)
CONVENTIONS = ('zenith,azimuth', 'azimuth,zenith', 'elevation,azimuth', 'azimuth,elevation')
LAPLACIAN = 'laplacian weights'
SIMPLIFIED = 'simplified directions to directions'


def power(n):
    return n & (n - 1) == 0


def ring_centres(nside):
    """ z and azimuth of the pixels in the ring ordering (Gorski et al. 2005). """
    z, phi = [], []
    for i in range(1, 4 * nside):
        if i < nside:
            n, zz = i, 1 - np.longdouble(i) ** 2 / (3 * np.longdouble(nside) ** 2)
        elif i <= 3 * nside:
            n, zz = nside, np.longdouble(4) / 3 - 2 * np.longdouble(i) / (3 * nside)
        else:
            n = 4 * nside - i
            zz = -(1 - np.longdouble(n) ** 2 / (3 * np.longdouble(nside) ** 2))
        shift = 0.5 if i < nside or i > 3 * nside or (i - nside) % 2 == 0 else 0
        for j in range(4 * n):
            z.append(zz)
            phi.append(np.longdouble(np.pi) / 2 / n * (j + shift))
    return np.array(z), np.array(phi)


def nested_centres(nside):
    """ The same for the nested ordering, by interleaving the bits. """
    z, phi = [], []
    # ring index of the southernmost corner of the base pixels and their azimuth
    jrll = [2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4]
    jpll = [1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7]
    for p in range(12 * nside ** 2):
        face, k = divmod(p, nside ** 2)
        ix = sum(((k >> 2 * b) & 1) << b for b in range(16))
        iy = sum(((k >> 2 * b + 1) & 1) << b for b in range(16))
        jr = jrll[face] * nside - ix - iy - 1
        if jr < nside:
            nr, zz = jr, 1 - np.longdouble(jr) ** 2 / (3 * np.longdouble(nside) ** 2)
        elif jr > 3 * nside:
            nr = 4 * nside - jr
            zz = -(1 - np.longdouble(nr) ** 2 / (3 * np.longdouble(nside) ** 2))
        else:
            nr, zz = nside, np.longdouble(4) / 3 - 2 * np.longdouble(jr) / (3 * nside)
        a = jpll[face] * nr + ix - iy
        z.append(zz)
        phi.append(np.longdouble(np.pi) / 4 / nr * (a % (8 * nr)))
    return np.array(z), np.array(phi)


def centres(nside, nest):
    return nested_centres(nside) if nest else ring_centres(nside)


def encode(theta, phi, convention):
    d = {'zenith': theta, 'elevation': np.pi / 2 - theta, 'azimuth': phi}
    return np.stack([np.asarray(d[_], float) for _ in convention.split(',')], -1)


def vector(theta, phi):
    return np.stack([np.asarray(_, float) for _ in (np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta))], -1)


def make(coordinates, nside, nest):
    from pysimulators.interfaces.healpy import Cartesian2HealpixOperator, Healpix2CartesianOperator, Healpix2SphericalOperator, Spherical2HealpixOperator
    if coordinates == 'cartesian':
        return Healpix2CartesianOperator(nside, nest=nest), Cartesian2HealpixOperator(nside, nest=nest)
    return Healpix2SphericalOperator(nside, coordinates, nest=nest), Spherical2HealpixOperator(nside, coordinates, nest=nest)


COORDINATES = ('cartesian', *CONVENTIONS)


def near(got, expected, what, tol):
    got, expected = np.asarray(got), np.asarray(expected)
    eq(got.shape, expected.shape, 'shape')
    if got.size:
        d = np.abs(got - expected)
        if not d.max() <= tol:
            i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
            raise Mismatch(f'{what}: got {got[i]}, expected {expected[i]} at {tuple(map(int, i))}')


# ---- pixels -----------------------------------------------------------------------------------------------------------------------------------
def pixels(ck, nsides):
    cache = {}

    def case(nside, nest, coordinates):
        topos, topix = make(coordinates, nside, nest)
        n = 12 * nside ** 2
        p = np.arange(n)
        if (nside, nest) not in cache:
            cache.clear()
            cache[nside, nest] = centres(nside, nest)
        z, phi = cache[nside, nest]
        theta = np.arccos(z)
        expected = vector(theta, phi) if coordinates == 'cartesian' else encode(theta, phi, coordinates)
        got = topos(p)
        near(got, expected, 'centres of the pixels', 1e-14 * nside + 2e-15)
        for _ in p:
            ck.state((nside, nest, coordinates, int(_)))
        ck.transitions += 6 * n
        for back, what in ((topix(got), 'pixels of their centre'), (topix(np.asarray(expected, float)), 'pixels of their centre'), (topos.I(got), 'inverse'), (topix.I.I(got), 'double inverse'), (topos.I.I.I(got), 'triple inverse')):
            same_array(np.asarray(back), p, what, dtype=np.dtype(float))
        near(topix.I(p), got, 'inverse', 0)
        # the identity
        import pyoperators as po
        require(isinstance(topix(topos), po.IdentityOperator), 'identity')
        # azimuth outside of a turn
        if coordinates != 'cartesian':
            i = coordinates.split(',').index('azimuth')
            for k in (-1, 1):
                far = np.array(got)
                far[..., i] += 2 * np.pi * k
                same_array(np.asarray(topix(far)), p, 'pixels after a turn', dtype=None)
        else:
            for k in (1e-3, 12.):
                same_array(np.asarray(topix(got * k)), p, 'pixels of vectors that are not normalised', dtype=None)
    for nside in nsides:
        for nest in (False, True):
            if nest and not power(nside):
                continue
            for c in COORDINATES:
                ck.check(f'pixels {nside} {nest} {c}', case, nside, nest, c)


def directions(ck):
    import healpy as hp
    step = 10 if ck.quick else 3
    theta = np.concatenate([np.arange(0, 181, step), [1e-9, 1e-4, 89.9999, 90.00001, 180 - 1e-9, np.rad2deg(np.arccos(2 / 3)), np.rad2deg(np.arccos(-2 / 3))]])
    phi = np.concatenate([np.arange(-180, 541, step), [1e-9, -1e-9, 359.9999999, 44.99999999, 45.00000001]])
    theta, phi = (_.ravel() for _ in np.deg2rad(np.meshgrid(theta, phi)))
    theta = np.clip(theta, 0, np.pi)

    def case(nside, nest, coordinates):
        topos, topix = make(coordinates, nside, nest)
        if coordinates == 'cartesian':
            x = vector(theta, phi)
            expected = hp.vec2pix(nside, *x.T, nest=nest)
        else:
            x = encode(theta, phi, coordinates)
            i = coordinates.split(',').index('azimuth')
            t = np.pi / 2 - x[:, 1 - i] if 'elevation' in coordinates else x[:, 1 - i]
            expected = hp.ang2pix(nside, t, x[:, i], nest=nest)
        got = topix(x)
        same_array(np.asarray(got), expected, 'pixels', dtype=np.dtype(float))
        ck.transitions += len(x)
        ck.state((nside, nest, coordinates))
        # it is not further from the centre than the size of the largest pixel
        c, q = vector(theta, phi), np.asarray(got).astype(int)
        # except those that the reference misplaces by rounding at the junction of three base pixels
        ok = hp.ang2pix(nside, theta, phi, nest=nest) == hp.vec2pix(nside, *c.T, nest=nest)
        require(np.mean(~ok) < 0.05, 'reference')
        d = np.arccos(np.clip((c * np.transpose(hp.pix2vec(nside, np.where(ok, q, 0), nest=nest))).sum(-1), -1, 1))[ok]
        require(d.max() <= hp.max_pixrad(nside) + 1e-9, f'distance to the centre {d.max()}')
        # the nearest pixels contain the direction
        if nside <= 4 and ck.quick or nside <= 16 and not ck.quick:
            b = np.array([hp.boundaries(nside, i, step=1, nest=nest) for i in range(12 * nside ** 2)])  # npix, 3, 4
            m = np.array(hp.pix2vec(nside, np.arange(12 * nside ** 2), nest=nest)).T
            inward = 0.98 * b + 0.02 * m[:, :, None]
            v = np.moveaxis(inward, 1, 2)
            t, f = np.arccos(np.clip(v[..., 2] / np.sqrt((v ** 2).sum(-1)), -1, 1)), np.arctan2(v[..., 1], v[..., 0])
            arg = v if coordinates == 'cartesian' else encode(t, f, coordinates)
            same_array(np.asarray(topix(arg)), np.repeat(np.arange(12 * nside ** 2)[:, None], 4, 1), 'corners of the pixels', dtype=None)
            ck.transitions += 48 * nside ** 2
    nsides = (1, 2, 3, 4, 8, 64, 512, 8192) if ck.quick else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 64, 100, 512, 1000, 1024, 8192, 2 ** 20)
    for nside, nest, c in itertools.product(nsides, (False, True), COORDINATES):
        if not nest or power(nside):
            ck.check(f'directions {nside} {nest} {c}', case, nside, nest, c)

    def forms(coordinates, shape, dtype, form, which):
        topos, topix = make(coordinates, 4, False)
        op = (topos, topix)[which]
        n = int(np.prod(shape))
        x = (np.arange(n) * 7 % 192).reshape(shape)
        if which:
            last = 3 if coordinates == 'cartesian' else 2
            x = np.stack([(np.arange(n) * 5 % 4).reshape(shape) - k for k in range(last)], -1) if last == 3 else np.stack([np.arange(n).reshape(shape) % 2, np.arange(n).reshape(shape) % 2 * 0 + 1], -1)
        xin = x.astype(dtype)
        if form == 'F':
            xin = np.asfortranarray(xin) if xin.ndim else xin
        elif form == 'strided':
            xin = np.repeat(xin, 2, axis=-1)[..., ::2] if xin.ndim else xin
        elif form == 'reversed':
            xin = xin[::-1].copy()[::-1] if xin.ndim else xin
        elif form == 'list':
            xin = xin.tolist()
        expected = np.array([np.asarray(op(np.array(v, float))) for v in (x.reshape(-1, x.shape[-1]) if which else x.ravel())]).reshape((*shape, *(() if which else ((3,) if coordinates == 'cartesian' else (2,)))))
        got = op(xin)
        same_array(np.asarray(got), expected, 'values', dtype=None, rtol=1e-6 if dtype == 'f4' else 1e-15, atol=1e-6 if dtype == 'f4' else 1e-15)
        for o in (np.full(expected.shape, np.nan), np.full(expected.shape[::-1], np.nan).T, np.full((*expected.shape, 2), np.nan)[..., 0]):
            op(xin, o)
            same_array(o, expected, 'output', rtol=1e-6 if dtype == 'f4' else 1e-15, atol=1e-6 if dtype == 'f4' else 1e-15)
        if form != 'list':
            same_array(xin, x.astype(dtype), 'input')
    for args in itertools.product(COORDINATES, [(), (1,), (5,), (2, 3), (1, 2, 2), (0,), (2, 0)], ('f8', 'i8', 'i4', 'f4'), ('C', 'F', 'strided', 'reversed', 'list'), (0, 1)):
        if args[3] == 'list' and 0 in args[1]:
            continue
        ck.check(f'forms {args}', forms, *args)

    def invalid(coordinates, nside, nest):
        for i in (0, 1):
            try:
                op = make(coordinates, nside, nest)[i]
            except (ValueError, TypeError):
                continue
            raise Mismatch(f'no error: {op!r}')
        from pysimulators.interfaces.healpy import SceneHealpix
        raises(ValueError, SceneHealpix, nside, nest=nest)
    for c, (nside, nest) in itertools.product(COORDINATES, [(0, False), (-1, False), (-4, True), (3, True), (12, True), (0, True), (2 ** 31, True)]):
        ck.check(f'invalid resolution {c} {nside} {nest}', invalid, c, nside, nest)

    def badshape(coordinates, shape):
        raises(ValueError, make(coordinates, 2, False)[1], np.zeros(shape))
    for c, shape in itertools.product(COORDINATES, [(), (1,), (2,), (3,), (4,), (2, 1), (3, 2), (2, 3)]):
        if not shape or shape[-1] != (3 if c == 'cartesian' else 2):
            ck.check(f'invalid shape {c} {shape}', badshape, c, shape)

    def badconvention(convention, error):
        from pysimulators.interfaces.healpy import Healpix2SphericalOperator, SceneHealpix, Spherical2HealpixOperator
        raises(error, Healpix2SphericalOperator, 2, convention)
        raises(error, Spherical2HealpixOperator, 2, convention)
        raises(error, SceneHealpix, 2, convention=convention)
    for convention, error in (('', ValueError), ('zenith', ValueError), ('azimuth,azimuth', ValueError), ('zenith;azimuth', ValueError), (None, TypeError), (1, TypeError), (b'zenith,azimuth', TypeError)):
        ck.check(f'invalid convention {convention!r}', badconvention, convention, error)

    def spelling(convention):
        from pysimulators.interfaces.healpy import Healpix2SphericalOperator, Spherical2HealpixOperator
        for text in (convention.upper(), convention.replace(',', ', '), ' ' + convention.title() + ' '):
            a, b = Healpix2SphericalOperator(2, text), Spherical2HealpixOperator(2, text)
            eq((a.convention, b.convention), (convention, convention), 'convention')
            near(a(np.arange(48)), Healpix2SphericalOperator(2, convention)(np.arange(48)), 'angles', 0)
            same_array(np.asarray(b(a(np.arange(48)))), np.arange(48), 'pixels', dtype=None)
    for convention in CONVENTIONS:
        ck.check(f'spelling {convention}', spelling, convention)


# ---- compositions -----------------------------------------------------------------------------------------------------------------------------
def compositions(ck):
    """ The simplifications of the compositions do not change their result. """
    import pyoperators as po
    params = [(c, nside, nest) for c in COORDINATES for nside in (1, 2, 4) for nest in (False, True)] + [(c, 3, False) for c in COORDINATES]

    def pair(a, b):
        """ Directions from pixels and back. """
        topos, topix = make(*a)[0], make(*b)[1]
        p = np.arange(12 * a[1] ** 2)
        op = topix(topos)
        ck.state((a, b))
        ck.transitions += len(p)
        same_array(np.asarray(op(p)), np.asarray(topix(np.asarray(topos(p)))), 'composition', dtype=None)
        same_array(np.asarray(po.CompositionOperator([topix, topos])(p)), np.asarray(topix(np.asarray(topos(p)))), 'composition', dtype=None)
        if a == b:
            return
        if a[1] == b[1] and (a[0] == 'cartesian') == (b[0] == 'cartesian') == True:
            # between orderings
            same_array(np.asarray(op.I(op(p))), p, 'inverse of the change of ordering', dtype=None)

    def reverse(a, b):
        """ Pixels from directions and back. """
        topix, topos = make(*a)[1], make(*b)[0]
        theta, phi = np.meshgrid(np.linspace(0.05, 3.1, 9), np.linspace(0.02, 6.2, 11))
        x = vector(theta, phi) if a[0] == 'cartesian' else encode(theta, phi, a[0])
        q = np.clip(np.asarray(topix(x)), 0, 12 * b[1] ** 2 - 1)
        if a[1] > b[1]:
            return
        near(topos(topix)(x), topos(q), 'composition', 1e-14)
    for a, b in itertools.product(params, params):
        if (a[0] == 'cartesian') == (b[0] == 'cartesian'):
            if a[0] == b[0]:
                ck.check(f'pixels to pixels {a} {b}', pair, a, b)
            elif not ck.quick:
                ck.check(f'pixels to pixels {a} {b}', pair, a, b)
            ck.check(f'{SIMPLIFIED} {a}' if a == b else f'directions to directions {a} {b}', reverse, a, b)

    def converted(convention, nside, nest):
        """ Spherical coordinates are the coordinates of the vectors. """
        p = np.arange(12 * nside ** 2)
        cart, sph = make('cartesian', nside, nest), make(convention, nside, nest)
        s2c = po.Spherical2CartesianOperator(convention)
        near(s2c(sph[0](p)), cart[0](p), 'vectors', 1e-14)
        near(s2c(sph[0])(p), cart[0](p), 'vectors', 1e-14)
        same_array(np.asarray(cart[1](s2c)(sph[0](p))), p, 'pixels', dtype=None)
        same_array(np.asarray(cart[1](s2c(sph[0]))(p)), p, 'pixels', dtype=None)
    for args in itertools.product(CONVENTIONS, (1, 2, 8), (False, True)):
        ck.check(f'vectors and angles {args}', converted, *args)


# ---- scenes -----------------------------------------------------------------------------------------------------------------------------------
def scenes(ck):
    from pysimulators.interfaces.healpy import SceneHealpix, SceneHealpixCMB

    def case(nside, kind, nest, convention, dtype):
        s = SceneHealpix(nside, kind, nest, convention, dtype=dtype, other=3)
        n = 12 * nside ** 2
        K = kind.upper()
        shape = (n,) if K == 'I' else (n, len(K))
        eq((s.shape, s.ndim, len(s), s.nside, s.npixel, s.kind, s.convention, s.nest, s.dtype, s.other), (shape, 1, n, nside, n, K, convention, nest, np.dtype(dtype), 3), 'attributes')
        require(abs(s.solid_angle * n / (4 * np.pi) - 1) < 1e-15, 'solid angle')
        p = np.arange(n)
        same_array(np.asarray(s.index), p, 'index', dtype=None)
        z, phi = centres(nside, nest)
        a = encode(np.arccos(z), phi, convention)
        near(s.toworld(p), a, 'angles of the pixels', 1e-13)
        same_array(np.asarray(s.topixel(a)), p, 'pixels of the angles', dtype=None)
        for f, v in ((s.zeros, 0), (s.ones, 1)):
            same_array(f(), np.full(shape, v, dtype), 'map')
        eq((s.empty().shape, s.empty().dtype), (shape, np.dtype(dtype)), 'empty map')
        ck.state((nside, kind, nest, convention, dtype))
    for args in itertools.product((1, 2, 3, 4), ('I', 'QU', 'IQU', 'i', 'qu', 'iQu'), (False, True), CONVENTIONS, ('f8', 'f4', 'i4')):
        if not args[2] or power(args[0]):
            ck.check(f'scene {args}', case, *args)

    def select(kind, removed):
        """ Selection of pixels. """
        s = SceneHealpix(1, kind)
        keep = np.array([not (removed >> i) & 1 for i in range(12)])
        t = s[keep]
        n = int(keep.sum())
        eq((len(t), t.shape, t.npixel, t.kind, t.nside), (n, s.shape, 12, kind, 1), 'selected scene')
        same_array(np.asarray(t.index), np.flatnonzero(keep), 'pixels', dtype=None)
        same_array(np.broadcast_to(t.all.removed, 12), ~keep, 'removed pixels')
        x = np.arange(np.prod(s.shape, dtype=int)).reshape(s.shape) + 1.
        packed = t.pack(x)
        same_array(np.asarray(packed), x[keep], 'packed map')
        back = t.unpack(packed, missing_value=-1)
        e = x.copy()
        e[~keep] = -1
        same_array(np.asarray(back), e, 'unpacked map')
        near(t.topixel(t.toworld(t.index)), np.flatnonzero(keep), 'pixels', 0)
        ck.state((kind, removed))
        ck.transitions += 3
        require(len(s) == 12, 'the original scene')
    for kind in ('I', 'QU', 'IQU'):
        for removed in range(4096):
            ck.check(f'selection {kind} {removed}', select, kind, removed)

    def invalid(cls, error, kw):
        raises(error, cls, 2, **kw)
    for cls in (SceneHealpix, SceneHealpixCMB):
        for error, kw in ((ValueError, dict(kind='')), (ValueError, dict(kind='IQ')), (ValueError, dict(kind='UQ')), (ValueError, dict(kind='IQUV')), (TypeError, dict(kind=None)), (TypeError, dict(kind=3)), (TypeError, dict(kind=['I']))):
            ck.check(f'{cls.__name__} {kw}', invalid, cls, error, kw)

    H, K, C = (np.longdouble(_) for _ in ('6.62607015e-34', '1.380649e-23', '299792458'))

    def planck(nu, T, omega):
        x = H * nu / (K * np.asarray(T, np.longdouble))
        return 2 * omega * H * np.longdouble(nu) ** 3 / C ** 2 / np.expm1(x)

    def cmb(nside, nu, absolute, temperature):
        s = SceneHealpixCMB(nside, absolute=absolute, **({} if temperature is None else {'temperature': temperature}))
        T = 2.7255 if temperature is None else temperature
        eq((s.absolute, s.temperature), (absolute, T), 'attributes')
        op = s.get_unit_conversion_operator(nu)
        omega = np.longdouble(4) * np.longdouble(np.pi) / (12 * nside ** 2)
        x = np.array([[0.5, 1, 2.7255], [2.7256, 10, 300]])
        ck.state((nside, nu, absolute, temperature))
        if absolute:
            same_array(np.asarray(op(x)), planck(nu, x, omega).astype(float), 'powers', rtol=1e-12)
            for t in x.ravel():
                same_array(np.asarray(op(t)), planck(nu, t, omega).astype(float), 'power', rtol=1e-12)
        else:
            y = H * nu / (K * np.longdouble(T))
            derivative = 2 * omega * H * np.longdouble(nu) ** 3 / C ** 2 * y * np.exp(y) / np.expm1(y) ** 2 / T
            for m in (x, -x, x[0], np.array(200.), 0 * x):
                same_array(np.asarray(op(m)), (derivative * m * 1e-6).astype(float), 'fluctuations', rtol=1e-11, atol=0)
            same_array(np.asarray(op(2 * x)), 2 * np.asarray(op(x)), 'linearity', rtol=1e-14)
            # the derivative of the absolute powers
            other = SceneHealpixCMB(nside, absolute=True).get_unit_conversion_operator(nu)
            d = (np.asarray(other(T + 1e-4)) - np.asarray(other(T - 1e-4))) / 2e-4
            same_array(np.asarray(op(1e6)), d, 'derivative', rtol=1e-5)
    for args in itertools.product((1, 4, 256), (1e9, 30e9, 143e9, 150e9, 217e9, 545e9, 1e12), (False, True), (None, 2.7255, 2.725, 3., 10)):
        ck.check(f'cmb {args}', cmb, *args)


# ---- maps -------------------------------------------------------------------------------------------------------------------------------------
def maps(ck):
    import healpy as hp
    import pyoperators as po
    from pysimulators.interfaces.healpy import HealpixConvolutionGaussianOperator, HealpixLaplacianOperator

    def convolve(nside, width, value, ncol, kw, dtype):
        op = HealpixConvolutionGaussianOperator(**{width: value}, **kw)
        fwhm = value if width == 'fwhm' else value * np.sqrt(8 * np.log(2))
        require(abs(op.fwhm / fwhm - 1) < 1e-14 and abs(op.sigma * np.sqrt(8 * np.log(2)) / fwhm - 1) < 1e-14, 'widths')
        require(op.flags.real and op.flags.symmetric and op.flags.square, 'flags')
        n = 12 * nside ** 2
        x = ((np.arange(n * (ncol or 1)) * 37) % 101 - 20.).reshape((n,) if ncol is None else (n, ncol)).astype(dtype)
        pol = kw.get('pol', True)
        keywords = {'iter': 3, **kw}
        if ncol is None:
            expected = hp.smoothing(x.astype(float), fwhm=fwhm, **keywords)
        elif ncol == 3 or not pol:
            expected = np.transpose(np.atleast_2d(hp.smoothing([np.array(_, float) for _ in x.T], fwhm=fwhm, **keywords)))
            if not pol:
                one = np.stack([hp.smoothing(np.array(_, float), fwhm=fwhm, **keywords) for _ in x.T], -1)
                same_array(np.asarray(expected), one, 'each map', rtol=1e-11, atol=1e-11)
        got = op(x)
        same_array(np.asarray(got), np.asarray(expected), 'smoothed map', dtype=np.dtype(float), rtol=1e-12, atol=1e-12)
        if x.dtype == float:
            y = x.copy()
            op(y, y)
            same_array(y, expected, 'in place', rtol=1e-12, atol=1e-12)
        same_array(np.asarray(op(2 * x + 1)), 2 * expected + np.asarray(op(np.ones_like(x))), 'linearity', rtol=1e-9, atol=1e-9)
        if pol and ncol == 3:
            one = hp.smoothing(np.array(x[:, 0], float), fwhm=fwhm, **keywords)
            same_array(np.asarray(got)[:, 0], one, 'intensity', rtol=1e-11, atol=1e-11)
        elif ncol is None:
            require(abs(np.mean(got) - np.mean(x)) < 1e-2 * np.abs(x).max(), 'mean of the map')
            require(np.std(got) < np.std(x), 'the map is smoother')
        ck.state((nside, width, value, ncol, tuple(kw.items()), dtype))
    for nside, (width, value), ncol, kw, dtype in itertools.product((2, 4, 8), (('fwhm', 0.5), ('fwhm', 1.), ('sigma', 0.2), ('sigma', 0.4)), (None, 3, 2), ({}, {'iter': 0}, {'lmax': 3}, {'lmax': 4, 'mmax': 2, 'iter': 1}, {'pol': False}, {'pol': False, 'lmax': 2}), ('f8', 'f4', 'i8')):
        if ncol == 2 and kw.get('pol', True) or ck.quick and dtype != 'f8' and (nside != 2 or kw):
            continue
        ck.check(f'convolution {nside} {width} {value} {ncol} {kw} {dtype}', convolve, nside, width, value, ncol, kw, dtype)

    def zero(kw):
        op = HealpixConvolutionGaussianOperator(**kw)
        require(isinstance(op, po.IdentityOperator), 'identity')
        same_array(np.asarray(op(np.arange(12.))), np.arange(12.), 'map')
    for kw in ({'fwhm': 0}, {'sigma': 0}, {'fwhm': 0.}, {'sigma': 0., 'lmax': 3}):
        ck.check(f'no convolution {kw}', zero, kw)

    def bad(kw):
        raises(ValueError, HealpixConvolutionGaussianOperator, **kw)
    for kw in ({}, {'fwhm': -1}, {'sigma': -0.1}, {'fwhm': 1, 'sigma': 1}, {'fwhm': 0, 'sigma': 1}, {'fwhm': 0, 'sigma': 0}, {'lmax': 3}):
        ck.check(f'invalid convolution {kw}', bad, kw)

    def badshape(shape):
        raises(ValueError, HealpixConvolutionGaussianOperator(fwhm=1.), np.zeros(shape))
    for shape in ((), (11,), (13,), (24,), (12, 3, 1), (47,), (3, 12)):
        ck.check(f'convolution of shape {shape}', badshape, shape)

    def stencil(nside):
        """ Neighbours: pixels with a common vertex. """
        n = 12 * nside ** 2
        corners = np.array([hp.boundaries(nside, i, step=1).T for i in range(n)]) if nside <= 8 else None
        L = HealpixLaplacianOperator(nside)
        h2 = 4 * np.pi / n
        d = np.array([np.asarray(L(e)) for e in np.eye(n)]).T * 6 * h2
        same_array(d, d.T, 'symmetry', atol=1e-9)
        near(np.diag(d), np.full(n, -20.), 'central weights', 1e-9)
        c = corners.reshape(-1, 3)
        shared = (((c[:, None] - c[None]) ** 2).sum(-1) < 1e-12).reshape(n, 4, n, 4).sum((1, 3)) if nside <= 4 else None
        if shared is not None and nside > 1:
            same_array((np.abs(d) > 1e-9) & ~np.eye(n, dtype=bool), (shared > 0) & ~np.eye(n, dtype=bool), 'neighbours')
        off = d[~np.eye(n, dtype=bool)]
        require(np.all(np.min(np.abs(off[:, None] - [0., 1, 4]), 1) < 1e-9), 'weights')
        s = d.sum(1)
        neighbours = (np.abs(d) > 1e-9).sum(1) - 1
        if nside > 1:
            near(s[neighbours == 8], np.zeros((neighbours == 8).sum()), 'Laplacian of a constant', 1e-9)
            eq(int((neighbours == 7).sum()), 24, 'pixels with seven neighbours')
            eq(sorted(set(neighbours.tolist())), [7] if nside == 2 and not (neighbours == 8).any() else [7, 8], 'neighbours')
        x = np.arange(3. * n).reshape(n, 3)
        same_array(np.asarray(L(x)), d @ x / (6 * h2), 'several maps', rtol=1e-9, atol=1e-6)
        same_array(np.asarray(L.T(x)), d @ x / (6 * h2), 'transpose', rtol=1e-9, atol=1e-6)
        require(L.flags.square and L.flags.symmetric and L.nside == nside, 'attributes')
        ck.state(nside)
        ck.transitions += n * n

    def weights(nside):
        """ The weight is 4 for the pixels with a common edge and 1 for those with only a common vertex. """
        n = 12 * nside ** 2
        c = np.array([hp.boundaries(nside, i, step=1).T for i in range(n)]).reshape(-1, 3)
        shared = (((c[:, None] - c[None]) ** 2).sum(-1) < 1e-12).reshape(n, 4, n, 4).sum((1, 3))
        L = HealpixLaplacianOperator(nside)
        d = np.array([np.asarray(L(e)) for e in np.eye(n)]).T * 6 * 4 * np.pi / n
        expected = np.array([0, 1, 4, 0, -20])[shared]
        near(d, expected, 'weights', 1e-9)
    for nside in (1, 2, 4, 8):
        ck.check(f'laplacian {nside}', stencil, nside)
    for nside in (2, 4):
        ck.check(f'{LAPLACIAN} {nside}', weights, nside)

    def constant(nside):
        """ Largest maps, by shifting the values. """
        L = HealpixLaplacianOperator(nside)
        n = 12 * nside ** 2
        o = np.asarray(L(np.ones(n))) * 6 * 4 * np.pi / n
        eq(int((np.abs(o) > 1e-6).sum()), 24, 'pixels with seven neighbours')
        # the maps seen from the pole by a rotation of a quarter
        x = np.zeros(n)
        x[:n // 3] = np.arange(n // 3) * 31 % 17
        z, phi = ring_centres(nside)
        r = hp.vec2pix(nside, *vector(np.arccos(z), phi + np.pi / 2).T)
        same_array(np.asarray(L(x[r])), np.asarray(L(x))[r], 'rotated map', rtol=1e-9, atol=1e-6)
    for nside in (2, 3, 4, 8, 16, 32):
        ck.check(f'laplacian of a constant {nside}', constant, nside)


def scenarios(tier):
    groups = [list(range(1, 10)), [16], [32]] if tier == 'quick' else [list(range(1, 10)), list(range(10, 18)), [32], [64], [128]]
    out = [(f'pixels {g}', lambda ck, g=g: pixels(ck, g)) for g in groups]
    return out + [('directions', directions), ('compositions', compositions), ('scenes', scenes), ('maps', maps)]
