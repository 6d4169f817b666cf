"""
C27: results do not depend on how the arrays are laid out in memory and the inputs are left unchanged.

Every subject is a call of the public interface on one or several arrays. It is made with every combination of the memory layouts
of its inputs and of its output buffer. The reference is the same call on fresh contiguous copies (what the call returns is the
business of the other properties); the bytes of the memory around and inside of the inputs and around the output are compared
with what they were.
"""
import itertools

import numpy as np

from mc.harness import Mismatch, eq, require

PID = 'C27'
TECHNIQUE = 'exhaustive enumeration of the memory layouts of the inputs and outputs of the calls of the public interface, executed on the implementation against the same call on contiguous copies'
NOTE = (
    'The reference is the implementation itself on fresh contiguous copies: the values are decided by the other properties. Arrays whose bytes are in the order of another machine may be refused, and output buffers that are not contiguous '
    'may be refused, but neither may give another result or have memory outside of the buffer written.'
)
BOUNDS = (
    'every combination of 9 layouts for one or two inputs (for three and more: every layout of each one, and all of the same layout), with every one of 8 layouts of the output; 100 calls over all the modules; in-place applications for the operators'
)


# ------------------------------------------------------------------ layouts

class Laid:
    """ An array and the memory in which it lies. """
    def __init__(self, view, base, name, readonly=False):
        self.view, self.base, self.name = view, base, name
        self.before = base.tobytes()
        if readonly:
            view.flags.writeable = False

    def unchanged(self, what):
        require(self.base.tobytes() == self.before, f'{what}: the input or the memory around it has been modified ({self.name})')

    def around(self, what):
        """ Only the elements of the view may have been written. """
        v = self.view.copy()
        self.view[...] = self.initial
        ok = self.base.tobytes() == self.before
        self.view[...] = v
        require(ok, f'{what}: memory outside of the output has been modified ({self.name})')


def place(shape, dtype, layout):
    """ Returns (view, base), or None if the layout makes no sense for this shape. """
    dtype = np.dtype(dtype)
    nd = len(shape)
    if layout in ('C', 'readonly', 'list', 'subclass'):
        b = np.zeros(shape, dtype)
        return b, b
    if layout == 'swapped':
        if dtype.itemsize == 1 or dtype.kind == 'V':
            return None
        b = np.zeros(shape, dtype.newbyteorder())
        return b, b
    if layout == 'offset':
        if dtype.itemsize == 1:
            return None
        n = int(np.prod(shape)) * dtype.itemsize
        b = np.zeros(n + 3, np.uint8)
        return b[1:n + 1].view(dtype).reshape(shape), b
    if nd == 0:
        return None
    if layout == 'F':
        if nd < 2:
            return None
        b = np.zeros(shape[::-1], dtype)
        return b.T, b
    if layout == 'first':
        b = np.zeros((2 * shape[0] + 1,) + shape[1:], dtype)
        return b[1::2], b
    if layout == 'last':
        b = np.zeros(shape[:-1] + (2 * shape[-1] + 1,), dtype)
        return b[..., 1::2], b
    if layout == 'padded':
        b = np.zeros(tuple(s + 2 for s in shape), dtype)
        return b[tuple(slice(1, s + 1) for s in shape)], b
    if layout == 'reversed':
        b = np.zeros(shape, dtype)
        return b[::-1], b
    if layout == 'revlast':
        b = np.zeros(shape, dtype)
        return b[..., ::-1], b
    if layout == 'swapaxes':
        if nd < 3:
            return None
        b = np.zeros(shape[:-3] + (shape[-2], shape[-3], shape[-1]), dtype)
        return b.swapaxes(-3, -2), b
    raise ValueError(layout)


INPUTS = ('C', 'F', 'first', 'last', 'padded', 'reversed', 'revlast', 'swapaxes', 'offset', 'swapped', 'readonly', 'subclass', 'list')
OUTPUTS = ('C', 'F', 'first', 'last', 'padded', 'reversed', 'revlast', 'swapaxes', 'offset', 'swapped')
REFUSED = (TypeError, ValueError)


def lay(a, layout):
    r = place(a.shape, a.dtype, layout)
    if r is None:
        return None
    view, base = r
    if layout not in ('C', 'readonly', 'list', 'subclass'):
        base.reshape(-1).view(np.uint8)[:] = 0x41 if a.dtype.kind != 'b' else 1
    view[...] = a
    if layout == 'subclass':
        from pysimulators import Map
        view = view.view(Map)
    return Laid(view, base, layout, layout == 'readonly')


def lay_out(shape, dtype, layout):
    r = place(shape, dtype, layout)
    if r is None:
        return None
    view, base = r
    base.reshape(-1).view(np.uint8)[:] = 0x41 if np.dtype(dtype).kind != 'b' else 1
    out = Laid(view, base, layout)
    out.initial = view.copy()
    return out


def flat(r):
    """ The arrays of a result. """
    if isinstance(r, (tuple, list)) and not all(np.isscalar(_) for _ in r):
        return [x for y in r for x in flat(y)]
    return [np.asarray(r)]


def same(got, expected, what, rtol):
    g, e = flat(got), flat(expected)
    eq(len(g), len(e), f'{what}: number of results')
    for x, y in zip(g, e):
        if x.shape != y.shape:
            raise Mismatch(f'{what}: shape {x.shape} instead of {y.shape}')
        if x.dtype.names:
            for n in y.dtype.names:
                same(x[n], y[n], f'{what}: {n}', rtol)
            continue
        if x.dtype.newbyteorder('=') != y.dtype.newbyteorder('='):
            raise Mismatch(f'{what}: type {x.dtype} instead of {y.dtype}')
        eq(bool(np.allclose(x, y, rtol=rtol, atol=rtol, equal_nan=True)) if x.dtype.kind in 'fc' else bool((x == y).all()), True,
           f'{what}: values {x.ravel()[:12].tolist()} instead of {y.ravel()[:12].tolist()}')


class Subject:
    """
    func(*arrays) returns the result, func(*arrays, out=buffer) writes it in the buffer if out is true;
    inplace: the output can be the first input.
    """
    def __init__(self, name, func, *arrays, out=False, inplace=False, rtol=1e-13, skip=(), lists=True, own=(), mutates=()):
        self.name, self.func, self.arrays = name, func, [np.asarray(_) for _ in arrays]
        self.out, self.inplace, self.rtol, self.skip, self.lists = out, inplace, rtol, skip, lists
        self.mutates = mutates

    def reference(self, arrays=None):
        return self.func(*[_.copy() for _ in self.arrays])

    def call(self, layouts, lout=None):
        what = f'{self.name} {" ".join(layouts)}' + (f' to {lout}' if lout else '')
        laid = [lay(a, l) for a, l in zip(self.arrays, layouts)]
        args = [_.view.tolist() if l == 'list' else _.view for _, l in zip(laid, layouts)]
        expected = self.reference()
        may_refuse = 'swapped' in layouts or 'offset' in layouts or lout not in (None, 'C')
        kw = {}
        if lout:
            e = flat(expected)
            eq(len(e), 1, 'a single output')
            buf = lay_out(e[0].shape, e[0].dtype, lout)
            kw['out'] = buf.view
        try:
            r = self.func(*args, **kw)
        except REFUSED as exc:
            if not may_refuse:
                raise
            r = None
            if lout:
                buf.around(what)
            for x in laid:
                x.unchanged(f'{what} (refused: {exc})')
            return
        if lout:
            same(buf.view, expected, f'{what}: buffer', self.rtol)
            buf.around(what)
            if r is not None:
                same(r, expected, what, self.rtol)
                require(np.may_share_memory(np.asarray(r), buf.view), f'{what}: the returned array is not the given one')
        else:
            same(r, expected, what, self.rtol)
        for x in laid:
            x.unchanged(what)
        if not lout:
            # the result is not changed by later changes of the inputs, unless it is a view of them
            pass

    def call_inplace(self, layout):
        what = f'{self.name} in place, {layout}'
        x = lay(self.arrays[0], layout)
        expected = self.reference()
        x.initial = x.view.copy()
        try:
            self.func(x.view, *[_.copy() for _ in self.arrays[1:]], out=x.view)
        except REFUSED:
            if layout == 'C':
                raise
            return
        same(x.view, expected, what, self.rtol)
        x.around(what)

    def call_overlap(self, shift):
        """ The output is the input shifted by one element of the first or of the last dimension. """
        a = self.arrays[0]
        what = f'{self.name}, output that overlaps the input ({shift})'
        axis = 0 if shift.startswith('first') else -1
        shape = list(a.shape)
        shape[axis] += 1
        b = np.zeros(shape, a.dtype)
        lo = (slice(0, -1),) if axis == 0 else (Ellipsis, slice(0, -1))
        hi = (slice(1, None),) if axis == 0 else (Ellipsis, slice(1, None))
        x, out = (b[lo], b[hi]) if shift.endswith('up') else (b[hi], b[lo])
        x[...] = a
        expected = self.reference()
        try:
            self.func(x, *[_.copy() for _ in self.arrays[1:]], out=out)
        except REFUSED:
            return
        same(out, expected, what, self.rtol)

    def combinations(self, thorough):
        opts = []
        for a in self.arrays:
            opts.append([l for l in INPUTS if (l == 'list' and self.lists and a.dtype.kind in 'fiub') or (l != 'list' and l not in self.skip and place(a.shape, a.dtype, l) is not None)])
        if len(opts) <= 2 or thorough and len(opts) == 3:
            return list(itertools.product(*opts))
        seen = []
        for i, o in enumerate(opts):
            for l in o:
                seen.append(tuple(l if j == i else 'C' for j in range(len(opts))))
        for l in INPUTS:
            if all(l in o for o in opts):
                seen.append((l,) * len(opts))
        return list(dict.fromkeys(seen))

    def outputs(self):
        if not self.out:
            return []
        e = flat(self.reference())[0]
        return [l for l in OUTPUTS if place(e.shape, e.dtype, l) is not None]


class Applied(Subject):
    """ An operator. """


def vals(*shape, dtype=float, lo=-3, k=7, mod=23):
    n = int(np.prod(shape))
    return ((np.arange(n) * k + 3) % mod / 4 + lo).reshape(shape).astype(dtype)


def operator(op, name, x, transpose=True, inplace=False, rtol=1e-13, **kw):
    """ The subjects of an operator: direct and transpose. """
    call = lambda o: (lambda x, out=None: o(x) if out is None else o(x, out=out))
    s = [Applied(name, call(op), x, out=True, inplace=inplace, lists=False, rtol=rtol, **kw)]
    if transpose:
        y = np.asarray(op(x))
        s.append(Applied(f'{name} transposed', call(op.T), vals(*y.shape, dtype=y.dtype), out=True, inplace=inplace, lists=False, rtol=rtol, **kw))
    return s


# ------------------------------------------------------------------ subjects

def with_out(f):
    return lambda *a, out=None: f(*a) if out is None else f(*a, out=out)


def geometry():
    from pysimulators import geometry as g
    pts = vals(2, 4, 2) + np.arange(16).reshape(2, 4, 2) % 3
    quad = np.array([[[0, 0], [2, 0], [2, 1], [0, 1]], [[0, 0], [1, 0], [3, 3], [0, 2]]], float)
    yield Subject('convex_hull', g.convex_hull, vals(3, 3, 2) + np.arange(18).reshape(3, 3, 2) ** 2 % 11)
    yield Subject('rotate', with_out(lambda c, out=None: g.rotate(c, 30, out=out)), pts, out=True, inplace=True)
    yield Subject('rotate f4', with_out(lambda c, out=None: g.rotate(c, 30, out=out)), pts.astype('f4'), out=True, inplace=True, lists=False, rtol=1e-6)
    yield Subject('rotate integers', lambda c: g.rotate(c, 30), np.arange(16).reshape(2, 4, 2), lists=True)
    yield Subject('surface', with_out(lambda c, out=None: g.surface_simple_polygon(c, out=out)), quad, out=True)
    yield Subject('surface of one', lambda c: g.surface_simple_polygon(c), quad[0])
    yield Subject('segment', lambda c: g.segment_polygon(c, 0.7), quad[1])
    yield Subject('rectangle', with_out(lambda s, c, out=None: g.create_rectangle(s, center=c, angle=20, out=out)), vals(2, 3, 2, lo=1), np.array([1., -2]), out=True)
    yield Subject('square', with_out(lambda s, c, out=None: g.create_square(s, center=c, angle=20, out=out)), vals(2, 3, lo=1), np.array([1., -2]), out=True)
    yield Subject('polygon', with_out(lambda r, c, out=None: g.create_regular_polygon(5, r, center=c, angle=20, out=out)), vals(2, 3, lo=1), vals(2, 3, 2), out=True)
    yield Subject('circle', with_out(lambda r, c, out=None: g.create_circle(r, center=c, out=out)), vals(3, lo=1), vals(3, 2), out=True)
    yield Subject('grid', with_out(lambda c, out=None: g.create_grid((2, 3), 1.5, center=c, angle=20, out=out)), np.array([1., -2]), out=True)
    yield Subject('grid of squares', with_out(lambda c, out=None: g.create_grid_squares((2, 3), 1.5, center=c, angle=20, filling_factor=0.8, out=out)), np.array([1., -2]), out=True)


def images():
    import pysimulators as p
    from pysimulators.datautils import distance2
    c2, s2 = np.array([1.25, -2]), np.array([0.5, 2])
    for shape in ((5,), (3, 4), (2, 3, 4)):
        n = len(shape)
        c, s = np.resize(c2, n), np.resize(s2, n)
        for name, f in (('distance', p.distance), ('distance2', distance2)):
            for dt in ('f8', 'f4'):
                yield Subject(f'{name} {shape} {dt}', with_out(lambda c, s, out=None, f=f, shape=shape, dt=dt: f(shape, center=c, scale=s, out=out, dtype=dt)), c, s, out=True, rtol=1e-6 if dt == 'f4' else 1e-13)
    yield Subject('gaussian', lambda c, f: p.gaussian((3, 4), fwhm=f, center=c), c2, np.array([2., 3.]))
    yield Subject('airy disk', lambda c: p.airy_disk((3, 4), fwhm=3., center=c), c2)
    yield Subject('aperture', lambda c: p.aperture_circular((5, 4), 3., center=c), c2)
    for dt in ('f8', 'f4', 'i4', 'i8'):
        im = vals(6, 5, lo=0, dtype='f8').round().astype(dt)
        yield Subject(f'profile {dt}', lambda i, c: p.profile(i, center=c, histogram=True), im, np.array([2., 2.5]), lists=dt == 'f8', rtol=1e-6 if dt == 'f4' else 1e-13)
        yield Subject(f'integrated profile {dt}', lambda i: p.integrated_profile(i, bin=1.5), im, lists=dt == 'f8', rtol=1e-6 if dt == 'f4' else 1e-13)
    yield Subject('psd2', lambda i: p.psd2(i, fftw_flag='FFTW_ESTIMATE'), vals(4, 6), rtol=1e-12)
    yield Subject('profile_psd2', lambda i: p.profile_psd2(i, fftw_flag='FFTW_ESTIMATE'), vals(6, 6), rtol=1e-12)
    b = p.BeamGaussian(0.3)
    yield Subject('gaussian beam', b, vals(2, 3), vals(2, 3), lists=False)
    yield Subject('backward gaussian beam', p.BeamGaussian(0.3, backward=True), vals(2, 3), vals(2, 3), lists=False)
    u = p.BeamUniformHalfSpace()
    yield Subject('uniform beam', u, vals(2, 3), vals(2, 3), lists=False)


def angles():
    import pysimulators as p
    from pysimulators.wcsutils import mean_degrees, minmax_degrees
    lon, lat = vals(2, 3, k=5) * 10 + 355, vals(2, 3) * 8
    yield Subject('mean_degrees', mean_degrees, lon)
    yield Subject('minmax_degrees', minmax_degrees, lon)
    yield Subject('barycenter_lonlat', p.barycenter_lonlat, lon, lat)
    yield Subject('barycenter_lonlat f4', p.barycenter_lonlat, lon.astype('f4'), lat.astype('f4'), lists=False)
    yield Subject('angle_lonlat', p.angle_lonlat, lon[0], lat[0], lon[1], lat[1])
    yield Subject('angle_lonlat 2d', p.angle_lonlat, lon, lat, lon[::-1] + 1, lat[::-1])
    yield Subject('angle_lonlat to one', p.angle_lonlat, lon, lat, np.array(3.), np.array(4.))
    yield Subject('create_fitsheader', lambda cv, cp, cd: [np.array(p.create_fitsheader((4, 5), crval=cv, crpix=cp, cd=cd)[_]) for _ in ('CRVAL1', 'CRVAL2', 'CRPIX1', 'CRPIX2', 'CD1_1', 'CD1_2', 'CD2_1', 'CD2_2')], np.array([3., 4.]), np.array([1., 2.5]), np.array([[-.1, .01], [.02, .1]]))
    yield Subject('create_fitsheader naxis', lambda n, c: [np.array(p.create_fitsheader(n, cdelt=c, pa=20., crval=(3, 4), crpix=(1, 1))[_]) for _ in ('NAXIS1', 'NAXIS2', 'CD1_1', 'CD1_2', 'CD2_1', 'CD2_2')], np.array([4, 5]), np.array([-.1, .2]), lists=True)


def directions():
    from astropy.time import Time
    import pysimulators as p
    h = p.create_fitsheader((8, 6), crval=(30, 40), crpix=(4, 3), cdelt=0.5)
    pix = vals(2, 3, 2, lo=1)
    world = np.asarray(p.WCSToWorldOperator(h)(pix))
    yield from operator(p.WCSToWorldOperator(h), 'WCS to world', pix, transpose=False, inplace=True, rtol=1e-11)
    yield from operator(p.WCSToPixelOperator(h), 'WCS to pixel', world, transpose=False, inplace=True, rtol=1e-9)
    xin = np.array([[0, 0], [4, 0], [0, 4], [4, 4], [2, 2.]])
    xout = xin * 2 + xin[:, ::-1] ** 2 / 8
    yield from operator(p.DistortionOperator(xin, xout), 'distortion', vals(2, 3, 2, lo=0) % 3.5, transpose=False, rtol=1e-10)
    yield Subject('distortion nodes', lambda a, b: p.DistortionOperator(a, b)(np.array([[1., 2.], [2.5, 1]])), xin, xout, rtol=1e-10)
    point = np.zeros((2, 3), [('ra', float), ('dec', float), ('pa', float)]).view(np.recarray)
    point['ra'], point['dec'], point['pa'] = vals(2, 3) * 10, vals(2, 3) * 9, vals(2, 3)
    yield from operator(p.RotationBoresightEquatorialOperator(point), 'boresight', vals(4, 2) * 100, transpose=False)
    yield Subject('boresight pointing', lambda q: p.RotationBoresightEquatorialOperator(q.view(np.recarray))(np.array([[10., 20.], [1, 2]])), point.view(np.ndarray), lists=False, skip=('swapped',))
    v = vals(2, 4, 3)
    v /= np.sqrt((v ** 2).sum(-1))[..., None]
    a = np.stack([vals(2, 4) * 10 + 60, vals(2, 4) * 20], -1)
    C = 'azimuth,elevation'
    T, LA, LO = Time(['2000-01-01T10:00:00', '2010-06-01T00:30:00'], scale='utc'), 48., 2.5
    yield from operator(p.CartesianEquatorial2GalacticOperator(), 'cartesian to galactic', v)
    yield from operator(p.CartesianGalactic2EquatorialOperator(), 'cartesian from galactic', v)
    yield from operator(p.CartesianEquatorial2HorizontalOperator('NE', T, LA, LO), 'cartesian to horizontal', v[:, 0], transpose=True)
    yield from operator(p.CartesianHorizontal2EquatorialOperator('NE', T, LA, LO), 'cartesian from horizontal', v[:, 0], transpose=True)
    yield from operator(p.SphericalEquatorial2GalacticOperator(degrees=True), 'spherical to galactic', a, transpose=False, inplace=True, rtol=1e-11)
    yield from operator(p.SphericalGalactic2EquatorialOperator(degrees=True), 'spherical from galactic', a, transpose=False, inplace=True, rtol=1e-11)
    yield from operator(p.SphericalEquatorial2HorizontalOperator('NE', T, LA, LO, conventionout=C, degrees=True), 'spherical to horizontal', a[:, 0], transpose=False, inplace=True, rtol=1e-11)
    yield from operator(p.SphericalHorizontal2EquatorialOperator('NE', T, LA, LO, conventionin=C, degrees=True), 'spherical from horizontal', a[:, 0], transpose=False, inplace=True, rtol=1e-11)
    yield Subject('sites', lambda la, lo: p.CartesianEquatorial2HorizontalOperator('NE', T, la, lo)(np.array([[1., 0, 0], [0, 1, 0]])), np.array([48., -20]), np.array([2., 100]), rtol=1e-12)


def healpix():
    from pysimulators.interfaces.healpy import (
        Cartesian2HealpixOperator, Healpix2CartesianOperator, Healpix2SphericalOperator, HealpixConvolutionGaussianOperator, HealpixLaplacianOperator, SceneHealpix, Spherical2HealpixOperator)
    import healpy as hp
    C = 'zenith,azimuth'
    for nest in (False, True):
        i = np.array([[3, 7, 0, 47], [12, 30, 5, 1]], float)
        v = np.stack(hp.pix2vec(2, i.astype(int), nest=nest), -1)
        a = np.stack(hp.pix2ang(2, i.astype(int), nest=nest), -1)
        yield from operator(Healpix2CartesianOperator(2, nest=nest), f'pixel to cartesian {nest}', i, transpose=False)
        yield from operator(Cartesian2HealpixOperator(2, nest=nest), f'cartesian to pixel {nest}', v, transpose=False)
        yield from operator(Healpix2SphericalOperator(2, C, nest=nest), f'pixel to spherical {nest}', i, transpose=False)
        yield from operator(Spherical2HealpixOperator(2, C, nest=nest), f'spherical to pixel {nest}', a, transpose=False)
    m = vals(48)
    yield from operator(HealpixConvolutionGaussianOperator(fwhm=0.5), 'convolution', m, inplace=True, transpose=False, rtol=1e-11)
    yield from operator(HealpixConvolutionGaussianOperator(fwhm=0.5), 'convolution of polarized', vals(48, 3), inplace=True, transpose=False, rtol=1e-11)
    yield from operator(HealpixLaplacianOperator(2), 'laplacian', m, rtol=1e-11)
    yield Subject('scene selection', lambda s: SceneHealpix(2)[s].index, np.arange(48) % 3 == 0, lists=False)
    s = SceneHealpix(2, kind='IQU')[np.arange(48) % 3 == 0]
    yield Subject('scene pack', s.pack, vals(48, 3), lists=False)
    yield Subject('scene unpack', s.unpack, vals(16, 3), lists=False)


def timelines():
    import pysimulators as p
    for dt in ('f8', 'f4'):
        tol = 1e-13 if dt == 'f8' else 1e-6
        x = vals(2, 3, 5, dtype=dt)
        yield from operator(p.ConvolutionTruncatedExponentialOperator(2., dtype=dt), f'exponential {dt}', x, inplace=True, rtol=tol)
        yield from operator(p.ConvolutionTruncatedExponentialOperator(np.array([[.5], [2]]), dtype=dt), f'exponentials {dt}', x[:, 0], inplace=True, rtol=tol)
        yield from operator(p.RollOperator(2, axis=-1), f'roll {dt}', x, inplace=True)
        yield from operator(p.RollOperator((1, -2), axis=(0, 2)), f'rolls {dt}', x, inplace=True)
    yield Subject('time constants', lambda t: p.ConvolutionTruncatedExponentialOperator(t)(vals(4, 5)), np.array([0., .5, 1, 2]))
    f = np.array([1e11, 1.5e11, 2e11])
    yield Subject('black bodies', lambda t: p.BlackBodyOperator(t, frequency=1.5e11, frequency0=1e11)(np.array([1., 2, 3])), np.array([10., 15, 20]), rtol=1e-12)
    alpha = np.array([-1., .5, 2])
    yield Subject('power law', lambda a: p.PowerLawOperator(a, 1.5e11, 1e11)(np.array([1., 2, 3])), alpha, rtol=1e-12)
    yield from operator(p.PowerLawOperator(alpha, 1.5e11, 1e11), 'power law applied', vals(3), inplace=True, rtol=1e-12)
    yield from operator(p.BlackBodyOperator(20. + np.arange(3), frequency=1e11, frequency0=2e11), 'black body applied', vals(3), inplace=True, rtol=1e-12)
    from pysimulators import noises
    yield Subject('fold', noises._fold_psd, vals(2, 6, lo=1), lists=False)
    yield Subject('unfold', noises._unfold_psd, vals(2, 4, lo=1), lists=False)
    z = np.array([-.5, .1, 1.2, 2.5, 7])
    yield Subject('interpolation', lambda z, x, y: noises._interp(z, x, y), z, np.array([0., 1, 2, 3]), np.array([5., 3, 8, 1]), lists=False)


def pmatrix():
    from pysimulators import PointingMatrix
    m = PointingMatrix.empty((2, 3, 2), (2, 2), verbose=False)
    r = m.ravel()
    r['index'] = [0, 1, 3, -1, 2, 2, -1, -1, 1, 0, 3, 0]
    r['value'] = [1, 2, .5, 0, 1, 3, 0, 0, 2, 2, -1, 1]
    return m


def projections():
    import pysimulators as p
    P = p.ProjectionInMemoryOperator(pmatrix())
    x, y = vals(2, 2), vals(2, 3)
    yield from operator(P, 'projection', x)
    yield from operator(P, 'complex projection', x + 1j * x[::-1])
    yield Subject('projection mask', with_out(lambda out=None: P.get_mask(out=out)), out=True)
    yield Subject('pTp', lambda out=None: P.get_pTp() if out is None else (out.__setitem__(Ellipsis, 0), P.get_pTp(out=out))[1], out=True)

    yield Subject('pTx and pT1', lambda y: P.get_pTx_pT1(y), y, lists=False)
    mask = np.array([[1, 0, 0], [0, 0, 1]], bool)
    yield Subject('pTx and pT1 with a mask', lambda y, m: P.get_pTx_pT1(y, mask=m), y, mask, lists=False)
    yield Subject('pTx and pT1 of a masked timeline', lambda y, m: P.get_pTx_pT1(p.Tod(y, mask=m, copy=False)), y, mask, lists=False)
    yield Subject('pTx in a given output', with_out(lambda y, out=None: P.get_pTx_pT1(y)[0] if out is None else (out.__setitem__(Ellipsis, 0), P.get_pTx_pT1(y, out=(out, np.zeros((2, 2)))), out)[2]), y, out=True, lists=False)
    yield Subject('pT1 in a given output', with_out(lambda y, out=None: P.get_pTx_pT1(y)[1] if out is None else (out.__setitem__(Ellipsis, 0), P.get_pTx_pT1(y, out=(np.zeros((2, 2)), out)), out)[2]), y, out=True, lists=False)

    def apply(m):
        Q = p.ProjectionInMemoryOperator(pmatrix())
        Q.apply_mask(m)
        return Q.todense()
    yield Subject('mask of the samples', apply, mask, lists=False)

    def pack(m):
        q = pmatrix()
        q.pack(m)
        return np.asarray(q.view(np.ndarray)['index']), np.asarray(q.view(np.ndarray)['value'])
    yield Subject('mask of the pixels', pack, np.array([[1, 0], [0, 0]], bool), lists=False)

    def matrix(m):
        q = p.PointingMatrix(m, (2, 2), copy=False)
        Q = p.ProjectionInMemoryOperator(q)
        return Q(x), Q.T(y), Q.get_mask(), Q.get_pTp(), q.isvalid()
    yield Subject('matrix', matrix, np.asarray(pmatrix()).view(np.ndarray), lists=False, skip=('swapped', 'offset', 'readonly'))


def sparse():
    import pysimulators as p
    from pysimulators import sparse as s
    index = np.array([[0, 2], [1, -1], [2, 2], [3, 0]])
    value = vals(4, 2)

    def fsr(kind, it, vt):
        if kind == 'FSR':
            m = s.FSRMatrix((4, 4), ncolmax=2, dtype=vt, dtype_index=it)
            m.data.index, m.data.value = index, value
        elif kind == 'FSC':
            m = s.FSCMatrix((4, 4), nrowmax=2, dtype=vt, dtype_index=it)
            m.data.index, m.data.value = index, value
        elif 'Block' in kind:
            m = getattr(s, kind)((8, 12), block_shape=(2, 3), dtype=vt, dtype_index=it, **{('ncolmax' if kind[2] == 'R' else 'nrowmax'): 2})
            m.data.index, m.data.value = index, vals(*m.data.value.shape)
        elif 'Rotation2d' in kind:
            m = getattr(s, kind)((8, 8), dtype=vt, dtype_index=it, **{('ncolmax' if kind[2] == 'R' else 'nrowmax'): 2})
            m.data.index, m.data.r11, m.data.r21 = index, value, value[::-1]
        else:
            m = getattr(s, kind)((12, 12), dtype=vt, dtype_index=it, **{('ncolmax' if kind[2] == 'R' else 'nrowmax'): 2})
            m.data.index, m.data.r11, m.data.r22, m.data.r32 = index, value, value[::-1], value + 1
        return m
    for kind in ('FSR', 'FSC', 'FSRBlockMatrix', 'FSCBlockMatrix', 'FSRRotation2dMatrix', 'FSCRotation2dMatrix', 'FSRRotation3dMatrix', 'FSCRotation3dMatrix'):
        for it, vt in (('i4', 'f8'), ('i8', 'f4'), ('i1', 'f8')):
            m = fsr(kind, it, vt)
            tol = 1e-13 if vt == 'f8' else 1e-5
            x = vals(m.shape[1], dtype=vt)
            yield Subject(f'{kind} {it} {vt} product', lambda x, m=m: m * x, x, lists=False, rtol=tol)
            yield Subject(f'{kind} {it} {vt} product on the left', lambda y, m=m: m.__rmul__(y), vals(m.shape[0], dtype=vt), lists=False, rtol=tol)
            br, bc = m.block_shape
            n, k = m.shape[0] // br, m.shape[1] // bc
            yield from operator(s.SparseOperator(m), f'{kind} {it} {vt} operator', vals(*((k,) + ((bc,) if bc > 1 else ())), dtype=vt), rtol=tol)
            sin, sout = (k // 2, 2) + ((bc,) if bc > 1 else ()), (n // 2, 2) + ((br,) if br > 1 else ())
            yield from operator(s.SparseOperator(m, shapein=sin, shapeout=sout), f'{kind} {it} {vt} shaped operator', vals(*sin, dtype=vt), rtol=tol)
            if kind in ('FSR', 'FSRBlockMatrix', 'FSRRotation2dMatrix', 'FSRRotation3dMatrix'):
                q = p.ProjectionOperator(m)
                yield Subject(f'{kind} {it} {vt} kernel', with_out(lambda out=None, q=q: q.canonical_basis_in_kernel(out=out)), out=True)
                yield Subject(f'{kind} {it} {vt} pT1', with_out(lambda out=None, q=q: q.pT1(out=out)), out=True, rtol=tol)
                if '2d' not in kind:
                    yield Subject(f'{kind} {it} {vt} pTx', lambda y, q=q: q.pTx_pT1(y), vals(*((n,) + ((br,) if br > 1 else ())), dtype=vt), lists=False, rtol=tol)
                yield Subject(f'{kind} {it} {vt} restriction', lambda k, m=m: p.ProjectionOperator(m).restrict(k)(vals(*((3,) + ((bc,) if bc > 1 else ())), dtype=vt)), np.array([1, 0, 1, 1], bool), lists=False, rtol=tol)


def tables():
    import pysimulators as p
    t = p.PackedTable((3, 4), selection=np.arange(12).reshape(3, 4) % 5 != 1)
    n = len(t)
    for dt in ('f8', 'i4', 'c16', '?'):
        for extra in ((), (2,)):
            yield Subject(f'pack {dt} {extra}', with_out(lambda x, out=None: t.pack(x, copy=True) if out is None else t.pack(x, out=out)), vals(3, 4, *extra, dtype=dt), out=True, lists=False)
            yield Subject(f'unpack {dt} {extra}', with_out(lambda x, out=None: t.unpack(x) if out is None else t.unpack(x, out=out)), vals(n, *extra, dtype=dt), out=True, lists=False)
    yield Subject('selection by mask', lambda s: p.PackedTable((3, 4), selection=s).index, np.arange(12).reshape(3, 4) % 5 != 1, lists=False)
    yield Subject('ordering', lambda o: p.PackedTable((3, 4), ordering=o).index, (np.arange(12)[::-1] - 3).reshape(3, 4), lists=False)
    yield Subject('element mask', lambda s: t[s].index, np.arange(n) % 3 == 0, lists=False)
    yield Subject('element integers', lambda s: t[s].index, np.array([3, 1, 5, 1]), lists=True)
    yield Subject('attribute', lambda a: (lambda q: (q.a, q[2:].a, q[::-1].a, q.all.a))(p.PackedTable((3, 4), selection=np.arange(12).reshape(3, 4) % 5 != 1, a=a)), vals(3, 4, 2), lists=False)
    yield Subject('layout', lambda v: (lambda l: (l.vertex, l.center))(p.Layout((2, 3), vertex=v)), vals(2, 3, 4, 2), lists=False)
    yield Subject('grid layout selection', lambda s: p.LayoutGridSquares((2, 3), 1., selection=s).vertex, np.array([[1, 0, 1], [1, 1, 0]], bool), lists=False)

    yield Subject('sampling', lambda a, d: (lambda q: (q.ra, q.dec, q[::-1].ra, np.array(q.ra)))(p.SamplingEquatorial(3, ra=a, dec=d, pa=0.)), vals(3), vals(3), lists=False)
    yield Subject('horizontal sampling', lambda a, d: (lambda q: (q.azimuth, q[1:].elevation))(p.SamplingHorizontal(azimuth=a, elevation=d, latitude=48., longitude=2.)), vals(3), vals(3), lists=False)


def arrays():
    import os
    import tempfile
    import pysimulators as p
    from pysimulators import Quantity

    def saved(cls, **k):
        def f(a, *b):
            d = tempfile.mkdtemp(prefix='c27')
            path = os.path.join(d, 'f.fits')
            try:
                x = cls(a, copy=False, order='A', **dict(zip(k, b)))
                x.save(path)
                y = cls(path)
                return [np.array(y)] + [np.array(getattr(y, n)) for n in k]
            finally:
                if os.path.exists(path):
                    os.unlink(path)
                os.rmdir(d)
        return f
    for dt in ('f8', 'f4', 'i4'):
        x = vals(3, 4, dtype='f8').round().astype(dt)
        yield Subject(f'saved array {dt}', saved(p.FitsArray), x, lists=False)
    x = vals(3, 4)
    yield Subject('saved map', saved(p.Map, coverage=1, error=1), x, vals(3, 4), vals(3, 4, k=5), lists=False)
    yield Subject('saved timeline', saved(p.Tod, mask=1), x, (vals(3, 4) > 0), lists=False)
    yield Subject('quantity', lambda a: (lambda q: (q.tounit('km'), q + Quantity(1, 'km'), q.sum(), q.max(axis=0), np.sqrt(q * q), q.SI)[1:])(Quantity(a, 'm', copy=False, order='A').copy()), x, lists=False)
    yield Subject('quantities', lambda a, b: (Quantity(a, 'm', copy=False, order='A') + Quantity(b, 'km', copy=False, order='A'), Quantity(a, 'm', copy=False, order='A') * Quantity(b, 's', copy=False, order='A'), Quantity(a, 'm', copy=False, order='A') < Quantity(b, 'm', copy=False, order='A')), x, vals(3, 4, k=5), lists=False)
    yield Subject('masked timeline', lambda a, m: (lambda t: (t.sum(), t.mean(axis=1), t.min(), t.max(axis=0), t.std(), t.median()))(p.Tod(a, mask=m, copy=False, order='A')), x, vals(3, 4) > 0, lists=False)
    yield Subject('median', lambda a: (p.Tod(a, copy=False, order='A').median(axis=0), p.Tod(a, copy=False, order='A').median(axis=1)), x, lists=False)
    yield Subject('reductions', lambda a: (lambda t: (t.sum(axis=0), t.mean(), t.var(axis=1), t.std(), t.ptp() if hasattr(t, 'ptp') else 0))(p.Map(a, copy=False, order='A')), x, lists=False)
    yield Subject('attributes', lambda a, c: (lambda m: (m.T.coverage, m[1:].coverage, m.copy().coverage, (m + 1).coverage))(p.Map(a, coverage=c, copy=False, order='A')), x, vals(3, 4), lists=False)

    def tounit(a):
        q = Quantity(a.copy('K') if isinstance(a, np.ndarray) else a, 'm', copy=False, order='A')
        q.inunit('km')
        return np.array(q)
    yield Subject('unit in place', tounit, x, lists=False)

    def inunit(a, out=None):
        q = Quantity(a, 'm', copy=out is None, order='A')
        if out is not None:
            out[...] = a
            q = Quantity(out, 'm', copy=False, order='A')
        q.inunit('km')
        return q
    yield Subject('unit of a buffer', inunit, x, out=True, lists=False, rtol=1e-12)


def instruments():
    import operator as ope
    import pysimulators as p
    from checks.c22 import build
    ins, sam = p.Instrument(p.PackedTable(2)), p.Sampling(6, period=.5)

    def seeded(f):
        def g(*a, out=None):
            np.random.seed(7)
            return f(*a) if out is None else f(*a, out=out)
        return g
    psd, sigma = vals(2, 4, lo=1), np.array([1., 2])
    yield Subject('noise of spectra', seeded(lambda q, **k: ins.get_noise(sam, psd=q, bandwidth=.3, **k)), psd, out=True, lists=False)
    yield Subject('noise of a spectrum', seeded(lambda q, **k: ins.get_noise(sam, psd=q, bandwidth=.3, **k)), psd[0], out=True, lists=False)
    yield Subject('noise of two-sided spectra', seeded(lambda q, **k: ins.get_noise(sam, psd=q, bandwidth=.3, twosided=True, **k)), np.concatenate([psd, psd[:, -2:0:-1]], axis=-1), out=True, lists=False)
    yield Subject('white noise', seeded(lambda s, **k: ins.get_noise(sam, sigma=s, **k)), sigma, out=True, lists=False)
    yield Subject('noise of parameters', seeded(lambda s, f, l, **k: ins.get_noise(sam, sigma=s, fknee=f, fslope=l, **k)), sigma, np.array([.1, .4]), np.array([1., 2]), out=True, lists=False)
    y = vals(2, 6)
    yield Subject('covariance of spectra', lambda q: ins.get_invntt_operator(sam, psd=q, bandwidth=.3, ncorr=2)(y), psd, lists=False, rtol=1e-11)
    yield Subject('covariance of two-sided spectra', lambda q: ins.get_invntt_operator(sam, psd=q, bandwidth=.3, ncorr=2, twosided=True)(y), np.concatenate([psd, psd[:, -2:0:-1]], axis=-1), lists=False, rtol=1e-11)
    yield Subject('white covariance', lambda s: ins.get_invntt_operator(sam, sigma=s)(y), sigma, lists=False)
    yield Subject('covariance of parameters', lambda s, f, l: ins.get_invntt_operator(sam, sigma=s, fknee=f, fslope=l, ncorr=2)(y), sigma, np.array([.1, .4]), np.array([1., 2]), lists=False, rtol=1e-11)
    yield from operator(ins.get_invntt_operator(sam, psd=psd, bandwidth=.3, ncorr=2), 'covariance applied', y, rtol=1e-11)
    for block in (None, (slice(0, 3), slice(3, 4))):
        a = build(block=block)
        x, z = vals(3, lo=0), vals(3, 4)
        # pyoperators writes the blocks of a timeline back
        yield from operator(a.get_operator(), f'acquisition {block}', x, skip=('readonly',))
        yield from operator(a.get_invntt_operator(), f'acquisition covariance {block}', z)
        yield Subject(f'observation {block}', with_out(lambda x, out=None: a.get_observation(x, out=out)), x, out=True, lists=False)
        yield Subject(f'noiseless observation {block}', with_out(lambda x, out=None: a.get_observation(x, noiseless=True, out=out)), x, out=True, lists=False)
        yield Subject(f'acquisition noise {block}', with_out(lambda out=None: a.get_noise(out=out)), out=True)

        def added(x, out=None):
            if out is None:
                return 3 + a.get_observation(x)
            out[...] = 3
            return a.get_observation(x, out=out, operation=ope.iadd)
        yield Subject(f'observation added {block}', added, x, out=True, lists=False)


FAMILIES = (geometry, images, angles, directions, healpix, timelines, projections, sparse, tables, arrays, instruments)


def family(f, part=0, parts=1):
    def scenario(ck):
        for k, s in enumerate(f()):
            if k % parts != part:
                continue
            combos = s.combinations(not ck.quick)
            outs = s.outputs()
            for c in combos:
                ck.check(f'{s.name}: {" ".join(c)}', s.call, c)
                ck.tick_case()
            for o in outs:
                # the layouts of the inputs one at a time in the quick tier
                for c in combos if not ck.quick or len(s.arrays) < 2 else [c for c in combos if sum(_ != 'C' for _ in c) <= 1 or len(set(c)) == 1]:
                    if 'list' in c and 'C' not in c and len(c) > 1:
                        continue
                    ck.check(f'{s.name}: {" ".join(c)} to {o}', s.call, c, o)
            if s.inplace:
                for l in OUTPUTS:
                    if place(s.arrays[0].shape, s.arrays[0].dtype, l) is not None:
                        ck.check(f'{s.name}: in place {l}', s.call_inplace, l)
                # pyoperators only knows outputs that are the input or that are apart from it
                for l in () if isinstance(s, Applied) else ('first up', 'first down', 'last up', 'last down'):
                    ck.check(f'{s.name}: overlap {l}', s.call_overlap, l)
    return scenario


def scenarios(tier):
    r = []
    for f in FAMILIES:
        n = {'sparse': 6, 'directions': 4, 'images': 2}.get(f.__name__, 1)
        r += [(f'{f.__name__}' + (f' {i}' if n > 1 else ''), family(f, i, n)) for i in range(n)]
    return r
