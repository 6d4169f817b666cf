"""
C14: coordinate conversions are mutually inverse and preserve geometry.
"""
import itertools

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C14'
TECHNIQUE = (
    'exhaustive enumeration of the conventions, units, times, locations and directions of a grid, and of every chain of conversions up to a depth, on the real operators, against spherical trigonometry written in the check'
)
NOTE = (
    'The spherical and cartesian conversions themselves belong to pyoperators: they are checked through the operators of pysimulators that include them. The sidereal time is compared with that of astropy (UT1 taken equal to UTC, to 0.05 s). '
    'The direction of the first axis of the object plane is the one implemented by both RotationBoresightEquatorialOperator and its compiled counterpart.'
)
BOUNDS = (
    '16 pairs of conventions, 2 units, directions every 30 (quick) or 10 degrees including the poles and the 0/360 meridian; 9 latitudes, 6 longitudes, 11 times in 4 scales, scalar and broadcast shapes; every chain of up to 3 (quick) or 4 '
    'of 8 cartesian and 8 spherical conversions; distortions defined by 4 to 25 nodes, 8 affine maps and every node'
)

CONVENTIONS = ('zenith,azimuth', 'azimuth,zenith', 'elevation,azimuth', 'azimuth,elevation')
# directions of the galactic pole and centre, from the documentation
POLE, CENTRE = (192.85948, 27.12825), (266.40510, -28.936175)
TIMES = ['1980-03-01T12:00:00', '1999-12-31T23:59:59.9', '2000-01-01T00:00:00', '2000-01-01T11:59:59', '2000-01-01T12:00:00', '2004-02-29T06:30:15.25', '2010-07-01T18:00:00', '2016-12-31T00:00:01', '2020-06-21T03:21:09', '2024-11-05T23:00:00', '2035-05-05T05:05:05']
LATS = [-90., -89.99, -45, -1., 0., 30, 48.853291, 89.9, 90.]
LONS = [-180., -77.5, 0, 2.348751, 90., 180.]


def vec(lon, lat):
    """ Unit vectors from degrees. """
    lon, lat = np.deg2rad(np.broadcast_arrays(np.asarray(lon, np.longdouble), np.asarray(lat, np.longdouble)))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def angles(v):
    v = np.asarray(v, np.longdouble)
    return np.rad2deg(np.arctan2(v[..., 1], v[..., 0])), np.rad2deg(np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])))


def galactic():
    """ Matrix from equatorial to galactic. """
    z = vec(*POLE)
    x = vec(*CENTRE)
    x = x - (x @ z) * z
    x = x / np.sqrt(x @ x)
    return np.stack([x, np.cross(z, x), z])


def horizontal(lst, lat):
    """ Matrix from equatorial to (north, east, up), for angles in degrees. """
    lst, lat = np.broadcast_arrays(np.asarray(lst, np.longdouble), np.asarray(lat, np.longdouble))
    up = vec(lst, lat)
    east = vec(lst + 90, 0 * lst)
    north = np.cross(up, east)
    return np.stack([north, east, up], -2)


def sidereal(time, lon):
    """ Local sidereal time in degrees, by astropy. """
    from astropy.time import Time
    t = Time(time.utc.jd1, time.utc.jd2, format='jd', scale='utc')
    t.delta_ut1_utc = 0
    return t.sidereal_time('mean', 'greenwich', model='IAU1982').deg + np.asarray(lon)


def encode(lon, lat, convention, degrees):
    first, second = convention.split(',')
    d = {'azimuth': np.asarray(lon, float), 'elevation': np.asarray(lat, float), 'zenith': 90 - np.asarray(lat, float)}
    r = np.stack([d[first], d[second]], -1)
    return r if degrees else np.deg2rad(r)


def decode(x, convention, degrees):
    x = np.asarray(x, float)
    if not degrees:
        x = np.rad2deg(x)
    first, second = convention.split(',')
    d = {first: x[..., 0], second: x[..., 1]}
    return d['azimuth'], d['elevation'] if 'elevation' in d else 90 - d['zenith']


def near(v, expected, what, tol=1e-12):
    v, expected = np.asarray(v, np.longdouble), np.asarray(expected, np.longdouble)
    eq(v.shape, expected.shape, 'shape')
    if v.size == 0:
        return
    d = np.abs(v - expected)
    if not d.max() <= tol:
        i = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
        raise Mismatch(f'{what}: got {v.reshape(-1)[i // v.shape[-1] * v.shape[-1]:][:v.shape[-1]].astype(float)}, expected {expected.reshape(-1)[i // v.shape[-1] * v.shape[-1]:][:v.shape[-1]].astype(float)} (element {i})')


def grid(step):
    """ Directions, with the poles, the meridian and azimuths outside of a turn. """
    lon = [float(_) for _ in range(-180, 541, step)] + [1e-9, 359.999999, 360 - 1e-9]
    lat = [float(_) for _ in range(-90, 91, step)] + [89.9999, -1e-7]
    g = np.array(list(itertools.product(lon, lat)))
    return g[:, 0], g[:, 1]


def axes_of(frame, x, what):
    lon, lat = x
    require(np.all((lon >= 0) & (lon <= 360)), f'{what}: azimuth outside of a turn')
    require(np.all((lat >= -90.0000001) & (lat <= 90.0000001)), f'{what}: elevation')


# ---- equatorial and galactic ------------------------------------------------------------------------------------------------------------------
def galaxy(ck):
    from pysimulators import CartesianEquatorial2GalacticOperator, CartesianGalactic2EquatorialOperator, SphericalEquatorial2GalacticOperator, SphericalGalactic2EquatorialOperator
    import pyoperators as po
    M = galactic()
    lon, lat = grid(30 if ck.quick else 10)
    V = vec(lon, lat)

    def axes():
        g = CartesianGalactic2EquatorialOperator()
        e = CartesianEquatorial2GalacticOperator()
        near(g([0, 0, 1]), vec(*POLE), 'galactic pole', 1e-6)
        near(g([1, 0, 0]), vec(*CENTRE), 'galactic centre', 3e-6)  # the directions of the documentation are not exactly orthogonal
        near(g([0, 1, 0]), np.cross(vec(*POLE), vec(*CENTRE)), 'galactic plane', 3e-6)
        m = np.array([e(c) for c in np.eye(3)]).T
        near(m, M, 'matrix', 3e-6)
        near(m @ m.T, np.eye(3), 'orthogonality', 1e-14)
        require(abs(np.linalg.det(m) - 1) < 1e-14, 'direct frame')
        import astropy.coordinates as ac
        import astropy.units as u
        gal = ac.SkyCoord(np.mod(lon, 360) * u.deg, lat * u.deg, frame='icrs').galactic
        near(e(V.astype(float)), vec(gal.l.deg, gal.b.deg), 'galactic coordinates of astropy', 3e-6)
    ck.check('galactic axes', axes)

    components = (-2., -1., 0., 0.5, 3.) if ck.quick else (-2., -1., 0., 1e-150, 0.5, 3., 1e6)
    def vectors():
        E, G = CartesianEquatorial2GalacticOperator(), CartesianGalactic2EquatorialOperator()
        x = np.array(list(itertools.product(components, repeat=3)))
        ck.transitions += len(x) ** 2
        for op, inv, m in ((E, G, M), (G, E, M.T)):
            y = op(x)
            near(y, x @ m.T.astype(float), 'rotated vectors', 3e-6 * np.abs(x).max())
            s = np.maximum(1e-300, np.abs(x).max(-1))
            for back, what in ((inv(y), 'inverse frame'), (op.T(y), 'transpose'), (op.I(y), 'inverse'), (op.T.T.T(y), 'triple transpose'), (op.I.T.I(y), 'inverse transpose')):
                require((np.abs(back - x).max(-1) <= 1e-15 * 4 * s).all(), f'{what} {np.abs(back - x).max()}')
            n = np.sqrt((x * x).sum(-1))
            require(np.allclose(np.sqrt((y * y).sum(-1)), n, rtol=1e-14, atol=0), 'norm')
            require((np.abs(y @ y.T - x @ x.T) <= 1e-14 * n * n[:, None] + 1e-300).all(), 'scalar products')
        for i, _ in enumerate(x):
            ck.state(tuple(_))
    ck.check('galactic vectors', vectors)

    def identities():
        E, G = CartesianEquatorial2GalacticOperator(), CartesianGalactic2EquatorialOperator()
        for op in (E * G, G * E, E(G), G(E), E * E.T, E.T * E, G.I * G, E.I * E):
            require(isinstance(op, po.IdentityOperator), f'{op!r} is not an identity')
        for op in (E * E, G * G, E.T * G, G.T * E):
            require(not isinstance(op, po.IdentityOperator), 'not an identity')
        for op in (E, G):
            require(op.flags.orthogonal and op.flags.real and op.flags.linear, 'flags')
        eq((type(E.T), type(G.T), type(E.I), type(G.I)), (type(G), type(E), type(G), type(E)), 'types')
        v = [0.1, -2., 3.]
        for n, p in ((1, E), (2, E * E), (3, E * E * E)):
            r = v
            for _ in range(n):
                r = E(r)
            near(p(v), r, f'{n} rotations')
    ck.check('galactic identities', identities)

    def scaled(op, factor):
        v = np.array([[0.1, -2., 3.], [1, 1, 1]])
        for o in (op * factor, factor * op, po.CompositionOperator([po.HomothetyOperator(factor), op]), po.CompositionOperator([op, po.HomothetyOperator(factor)]), po.CompositionOperator([po.HomothetyOperator(factor / 2), op, po.HomothetyOperator(2)])):
            near(o(v), factor * op(v), 'scaled vectors', 1e-14 * abs(factor))
            near(o.T(v), factor * op.T(v), 'transpose of the scaled conversion', 1e-14 * abs(factor))
        near((-op)(v), -op(v), 'opposite')
        near((op + op)(v), 2 * op(v), 'sum')
    from astropy.time import Time
    import pysimulators as ps
    made = {'E2G': CartesianEquatorial2GalacticOperator(), 'G2E': CartesianGalactic2EquatorialOperator(), 'E2G.T': CartesianEquatorial2GalacticOperator().T, 'E2G.I': CartesianEquatorial2GalacticOperator().I}
    for k, t, olon in (('scalar', '2010-01-01', 20.), ('times', ['2010-01-01', '2010-01-02'], 20.), ('longitudes', '2010-01-01', np.array([20., 30])), ('one longitude', '2010-01-01', np.array([20.]))):
        made[f'E2H {k}'] = ps.CartesianEquatorial2HorizontalOperator('NE', Time(t), 10., olon)
        made[f'H2E {k}'] = ps.CartesianHorizontal2EquatorialOperator('NE', Time(t), 10., olon)
        made[f'E2H {k}.T'] = made[f'E2H {k}'].T
    for name, op in made.items():
        for factor in (2., -1., 0.5, 3):
            ck.check(f'scaled {name} {factor}', scaled, op, factor)

    def shapes(op, shape, dtype, form):
        n = int(np.prod(shape))
        x = (np.arange(n) % 7 - 3.).reshape(shape)
        xin = x.astype(dtype)
        if form == 'F':
            xin = np.asfortranarray(xin)
        elif form == 'strided':
            xin = np.repeat(xin, 2, axis=-1)[..., ::2]
        elif form == 'reversed':
            xin = np.ascontiguousarray(xin[..., ::-1])[..., ::-1]
        elif form == 'list':
            xin = xin.tolist()
        expected = x @ np.array([op(c) for c in np.eye(3)])
        got = op(xin)
        near(got, expected, 'coordinates', 1e-5 if dtype == 'f4' else 1e-13)
        out = np.full(shape, np.nan)
        op(xin, out)
        near(out, expected, 'output', 1e-5 if dtype == 'f4' else 1e-13)
        if form != 'list' and dtype == 'f8':
            op(xin, xin)
            near(xin, expected, 'in-place output')
    for cls in (CartesianEquatorial2GalacticOperator, CartesianGalactic2EquatorialOperator):
        for shape, dtype, form in itertools.product([(3,), (1, 3), (2, 3), (3, 3), (4, 3), (2, 3, 3), (3, 2, 3), (0, 3), (2, 0, 3)], ('f8', 'f4', 'i8', 'i2'), ('C', 'F', 'strided', 'reversed', 'list')):
            if form == 'list' and 0 in shape:
                continue
            ck.check(f'{cls.__name__} {shape} {dtype} {form}', shapes, cls(), shape, dtype, form)

    def spherical(cls, inv, m, conv, conventionout, degrees):
        op = cls(conv, conventionout, degrees=degrees)
        back = inv(conventionout, conv, degrees=degrees)
        x = encode(lon, lat, conv, degrees)
        y = op(x)
        expected = V @ m.T
        l, b = decode(y, conventionout, degrees)
        axes_of('', (l, b), 'output')
        near(vec(l, b), expected, 'direction', 3e-6)
        # same direction as the cartesian operator
        ecls = CartesianEquatorial2GalacticOperator if cls is SphericalEquatorial2GalacticOperator else CartesianGalactic2EquatorialOperator
        near(vec(l, b), ecls()(V.astype(float)), 'cartesian direction', 5e-8)
        far = np.abs(lat) < 89.99
        for r, what in ((back(y), 'inverse conversion'), (op.I(y), 'inverse'), (op.I.I.I(y), 'triple inverse')):
            near(vec(*decode(r, conv, degrees)), V, what, 5e-8)
        ck.transitions += 4 * len(lon)
        ck.state((cls.__name__, conv, conventionout, degrees))
        # other inputs
        for shape in ((2,), (1, 2), (2, 3, 2), (0, 2)):
            n = int(np.prod(shape[:-1]))
            near(op(x[7:7 + n].reshape(shape)), y[7:7 + n].reshape(shape), f'shape {shape}', 1e-13)
        near(op(x[7:10].tolist()), y[7:10], 'list', 1e-13)
    for conv, conventionout, degrees in itertools.product(CONVENTIONS, CONVENTIONS, (False, True)):
        ck.check(f'equatorial to galactic {conv} {conventionout} {degrees}', spherical, SphericalEquatorial2GalacticOperator, SphericalGalactic2EquatorialOperator, M, conv, conventionout, degrees)
        ck.check(f'galactic to equatorial {conv} {conventionout} {degrees}', spherical, SphericalGalactic2EquatorialOperator, SphericalEquatorial2GalacticOperator, M.T, conv, conventionout, degrees)

    def special(degrees):
        """ The poles and centre. """
        op = SphericalEquatorial2GalacticOperator(degrees=degrees)
        back = SphericalGalactic2EquatorialOperator(degrees=degrees)
        f = (lambda _: _) if degrees else np.deg2rad
        g = (lambda _: _) if degrees else np.rad2deg
        near([g(op(f(np.array(POLE)))[1])], [90], 'pole', 1e-3)
        l = g(op(f(np.array(CENTRE))))
        near([(l[0] + 180) % 360, l[1]], [180, 0], 'centre', 1e-3)
        # exactly at the pole of the matrix
        for pole in ([0, 0, 1], [0, 0, -1]):
            v = CartesianGalactic2EquatorialOperator()(pole)
            r = g(op(f(np.array(angles(v), float))))
            require(not np.isnan(r).any(), f'pole {pole}: {r}')
            near([r[1]], [90 * pole[2]], 'pole', 5e-6)
    ck.check('special directions', special, False)
    ck.check('special directions in degrees', special, True)

    def invalid(op, x):
        raises(ValueError, op, x)
    for op, bad in ((CartesianEquatorial2GalacticOperator(), [(), (2,), (4,), (3, 2)]), (SphericalEquatorial2GalacticOperator(), [(), (3,), (1,), (2, 3)])):
        for shape in bad:
            ck.check(f'{type(op).__name__} of shape {shape}', invalid, op, np.ones(shape))
    def badconvention(conv, which):
        for cls in (SphericalEquatorial2GalacticOperator, SphericalGalactic2EquatorialOperator):
            raises((ValueError, TypeError), cls, **{which: conv})
    for conv, which in itertools.product(('', 'azimuth', 'azimuth,azimuth', 'zenith,elevation', 3, None, 'azimuth;elevation'), ('conventionin', 'conventionout')):
        ck.check(f'invalid convention {conv!r} {which}', badconvention, conv, which)


# ---- equatorial and horizontal ----------------------------------------------------------------------------------------------------------------
def horizon(ck, part, nparts):
    from astropy.time import Time, TimeDelta
    from pysimulators import CartesianEquatorial2HorizontalOperator as E2H, CartesianHorizontal2EquatorialOperator as H2E
    from pysimulators import SphericalEquatorial2HorizontalOperator as SE2H, SphericalHorizontal2EquatorialOperator as SH2E
    lon, lat = grid(45 if ck.quick else 15)
    V = vec(lon, lat)
    TOL = 5e-6  # the approximation of the sidereal time

    def location(isot, scale, olat, olon):
        t = getattr(Time(isot, scale='utc'), scale)
        m = horizontal(sidereal(t, olon), olat)
        op, inv = E2H('NE', t, olat, olon), H2E('NE', t, olat, olon)
        ck.state((isot, scale, olat, olon))
        y = op(V.astype(float))
        near(y, V @ m.T, 'horizontal coordinates', TOL)
        near(inv(y), V, 'inverse conversion', 1e-14)
        near(op.T(y), V, 'transpose', 1e-14)
        near(op.I(y), V, 'inverse', 1e-14)
        near(inv(V.astype(float)), V @ m, 'equatorial coordinates', TOL)
        near(op(inv(V.astype(float))), V, 'inverse conversion', 1e-14)
        # the pole is at the north, at the altitude of the latitude
        near(op([0, 0, 1]), [np.cos(np.deg2rad(olat)), 0, np.sin(np.deg2rad(olat))], 'celestial pole', 1e-14)
        # the norm and the angles
        near(y.dot(y.T), (V @ V.T), 'scalar products', 1e-13)
        ck.transitions += 5 * len(lon)
        # by the hour angle
        h = np.deg2rad(sidereal(t, olon) - lon)
        d, p = np.deg2rad(lat), np.deg2rad(olat)
        near(y[:, 2:], (np.sin(p) * np.sin(d) + np.cos(p) * np.cos(d) * np.cos(h))[:, None], 'sine of the altitude', TOL)
        near(y[:, 1:2], (-np.cos(d) * np.sin(h))[:, None], 'eastward component', TOL)
        # spherical
        for degrees in (False, True):
            so, si = SE2H('NE', t, olat, olon, degrees=degrees), SH2E('NE', t, olat, olon, degrees=degrees)
            x = encode(lon, lat, 'azimuth,elevation', degrees)
            z = so(x)
            l, b = decode(z, 'azimuth,elevation', degrees)
            axes_of('', (l, b), 'horizontal')
            near(vec(l, b), y, 'spherical coordinates', 5e-8)
            for r, what in ((si(z), 'inverse conversion'), (so.I(z), 'inverse')):
                near(vec(*decode(r, 'azimuth,elevation', degrees)), V, f'spherical {what}', 5e-8)
            # the zenith
            zenith = angles(inv([0, 0, 1]))
            r = so(encode(*zenith, 'azimuth,elevation', degrees))
            require(not np.isnan(r).any(), f'zenith: {r}')
            near([np.sin(np.deg2rad(decode(r, 'azimuth,elevation', degrees)[1]))], [1.], 'zenith', 1e-14)
            nadir = angles(inv([0, 0, -1]))
            r = so(encode(*nadir, 'azimuth,elevation', degrees))
            require(not np.isnan(r).any(), f'nadir: {r}')
    cases = list(itertools.product(TIMES, ('utc', 'tt', 'tai', 'tdb'), LATS, LONS))
    if ck.quick:
        cases = [c for i, c in enumerate(cases) if c[1] == 'utc' or i % 7 == 0]
    for i, args in enumerate(cases):
        if i % nparts == part:
            ck.check(f'location {args}', location, *args)
    if part:
        return

    def broadcast(tshape, lshape, oshape, xshape, spherical):
        """ Several times or locations. """
        rng = np.arange
        nt, nl, no = (int(np.prod(s)) for s in (tshape, lshape, oshape))
        t = Time('2010-01-01T00:00:00', scale='utc') + TimeDelta((rng(nt) * 4321.5).reshape(tshape), format='sec')
        la = (rng(nl) * 17. - 40).reshape(lshape)[()]
        lo = (rng(no) * 70. - 100).reshape(oshape)[()]
        m = horizontal(sidereal(t, lo), la)
        b = m.shape[:-2]
        op, inv = (SE2H, SH2E) if spherical else (E2H, H2E)
        op, inv = op('NE', t, la, lo), inv('NE', t, la, lo)
        n = int(np.prod(xshape))
        if spherical:
            x = np.stack([rng(n) * 50., rng(n) * 23. % 170 - 85], -1).reshape(*xshape, 2)
            v = vec(x[..., 0], x[..., 1])
            x = np.deg2rad(x)
        else:
            v = (rng(3 * n) * 7 % 11 - 5.).reshape(*xshape, 3)
            x = v
        try:
            full = np.broadcast_shapes(b, xshape)
        except ValueError:
            raises(ValueError, op, x)
            return
        expected = np.einsum('...ij,...j->...i', m, np.broadcast_to(v, (*full, 3)))
        if spherical and full != xshape:
            return  # the compositions of pyoperators do not broadcast their input
        y = op(x)
        got = vec(*decode(y, 'azimuth,elevation', False)) if spherical else y
        near(got, expected, 'coordinates', 5e-5)
        back = inv(y)
        got = vec(*decode(back, 'azimuth,elevation', False)) if spherical else back
        near(got, np.broadcast_to(v, (*full, 3)), 'inverse conversion', 5e-8 if spherical else 1e-13)
        if b == xshape or not spherical and b == ():
            back = op.I(y)
            got = vec(*decode(back, 'azimuth,elevation', False)) if spherical else back
            near(got, np.broadcast_to(v, (*full, 3)), 'inverse', 5e-8 if spherical else 1e-13)
        if not spherical:
            # the matrix element by element
            for i in np.ndindex(*full):
                one = E2H('NE', t[i[len(full) - len(tshape):]] if 0 else np.broadcast_to(t, full)[i] if full else t, np.broadcast_to(la, full)[i], np.broadcast_to(lo, full)[i])
                near(y[i], one(np.broadcast_to(v, (*full, 3))[i]), f'element {i}', 1e-13)
    shapes = [(), (1,), (3,), (2, 1), (2, 3)]
    for tshape, lshape, oshape, spherical in itertools.product(shapes, shapes, shapes, (False, True)):
        if ck.quick and spherical and len(lshape) == 2:
            continue
        try:
            b = np.broadcast_shapes(tshape, lshape, oshape)
        except ValueError:
            continue
        for xshape in {(), (3,), b, (2,) + b, b + (1,) if not b else (1,) * len(b), (2, 3)}:
            ck.check(f'broadcast {tshape} {lshape} {oshape} {xshape} {spherical}', broadcast, tshape, lshape, oshape, xshape, spherical)

    def forms(form, olat, olon):
        """ Types of the arguments. """
        t = Time('2010-01-01T00:00:00', scale='utc') + TimeDelta(np.arange(2) * 1000., format='sec')
        x = np.array([[1., 2, 3], [-1, 0.5, 2]])
        for cls, arg in ((E2H, x), (H2E, x), (SE2H, x[:, :2] / 4), (SH2E, x[:, :2] / 4)):
            reference = cls('NE', t, np.array(olat, float), np.array(olon, float))(arg)
            f = {'list': lambda _: _, 'tuple': lambda _: tuple(_) if isinstance(_, list) else _, 'int': lambda _: np.array(_, int), 'i2': lambda _: np.array(_, 'i2'), 'f4': lambda _: np.array(_, 'f4'), 'scalar': lambda _: _}[form]
            near(cls('NE', t, f(olat), f(olon))(arg), reference, 'coordinates', 1e-6 if form in ('f4', 'i2') else 1e-13)
    for form in ('list', 'tuple', 'int', 'i2', 'f4'):
        for olat, olon in (([10, 20], [30, 40]), ([10, 20], 3), (-5, [0, 1]), (5, 7)):
            ck.check(f'{form} {olat} {olon}', forms, form, olat, olon)

    def formats(fmt, value, iso):
        near(E2H('NE', Time(value, format=fmt), 10., 20.)(np.eye(3)), E2H('NE', Time(iso, scale='utc'), 10., 20.)(np.eye(3)), 'coordinates', 1e-7)
    for fmt, value, iso in (('jd', 2455197.5, '2010-01-01T00:00:00'), ('mjd', 55197.25, '2010-01-01T06:00:00'), ('unix', 1262304000., '2010-01-01T00:00:00'), ('gps', 946339215. - 86400 * 1, '2009-12-31T00:00:00'), ('cxcsec', 378691266.184 - 86400., '2009-12-31T00:00:00')):
        ck.check(f'time format {fmt}', formats, fmt, value, iso)

    def motion(olat):
        """ Stars rise in the east, culminate and set in the west. """
        t = Time('2010-01-01T00:00:00', scale='utc') + TimeDelta(np.arange(0, 86164, 600.), format='sec')
        op = SE2H('NE', t, olat, 10., degrees=True)
        for dec in (-20., 0, 35.):
            z = op(np.tile([0., dec], (len(t), 1)))
            up = np.flatnonzero((z[:-1, 1] < 0) & (z[1:, 1] >= 0))
            down = np.flatnonzero((z[:-1, 1] >= 0) & (z[1:, 1] < 0))
            require(len(up) <= 1 and len(down) <= 1 and len(up) + len(down) > 0, f'{len(up)} {len(down)} crossings')
            require((z[up, 0] < 180).all(), 'rises in the east')
            require((z[down, 0] > 180).all(), 'sets in the west')
            expected = np.arcsin(np.cos(np.deg2rad(dec - olat)))
            require(abs(z[:, 1].max() - np.rad2deg(expected)) < 1.5, 'culmination')
    for olat in (-50., -20., 0., 25., 48.85):
        ck.check(f'motion {olat}', motion, olat)

    def bad(*args):
        for cls in (E2H, H2E, SE2H, SH2E):
            raises(ValueError, cls, *args)
    for conv in ('SW', 'SE', 'EN', '', 'ne'):
        ck.check(f'invalid convention {conv}', bad, conv, Time('2010-01-01'), 0., 0.)

    def spherical(conv, conventionout, degrees):
        t = Time('2010-01-01T00:00:00', scale='utc') + TimeDelta(np.arange(3) * 5000., format='sec')
        for olat, olon in ((48.85, 2.35), (-90., 0.), (0., 180.)):
            for cls, inv, cart in ((SE2H, SH2E, E2H), (SH2E, SE2H, H2E)):
                for k in range(0, len(lon) - 2, 3):
                    x = encode(lon[k:k + 3], lat[k:k + 3], conv, degrees)
                    op = cls('NE', t, olat, olon, conv, conventionout, degrees=degrees)
                    y = op(x)
                    near(vec(*decode(y, conventionout, degrees)), cart('NE', t, olat, olon)(V[k:k + 3].astype(float)), 'direction', 5e-8)
                    near(vec(*decode(inv('NE', t, olat, olon, conventionout, conv, degrees=degrees)(y), conv, degrees)), V[k:k + 3], 'inverse', 5e-8)
                    if ck.quick and k > 60:
                        break
        ck.state((conv, conventionout, degrees))
    for args in itertools.product(CONVENTIONS, CONVENTIONS, (False, True)):
        ck.check(f'horizontal {args}', spherical, *args)


# ---- chains -----------------------------------------------------------------------------------------------------------------------------------
def chains(ck, part, nparts):
    """ Every chain of conversions, composed and applied one after the other. """
    from astropy.time import Time, TimeDelta
    import pysimulators as ps
    import pyoperators as po
    t1 = Time('2010-01-01T00:00:00', scale='utc')
    t2 = t1 + TimeDelta(np.array([5000., 7000.]), format='sec')
    args = {'a': ('NE', t1, 10., 20.), 'b': ('NE', t2, -30., 50.)}
    C = {'E2G': ('e', 'g', lambda: ps.CartesianEquatorial2GalacticOperator()), 'G2E': ('g', 'e', lambda: ps.CartesianGalactic2EquatorialOperator())}
    S = {}
    for k, a in args.items():
        C[f'E2H{k}'] = ('e', 'h' + k, lambda a=a: ps.CartesianEquatorial2HorizontalOperator(*a))
        C[f'H2E{k}'] = ('h' + k, 'e', lambda a=a: ps.CartesianHorizontal2EquatorialOperator(*a))
        C[f'E2H{k}.T'] = ('h' + k, 'e', lambda a=a: ps.CartesianEquatorial2HorizontalOperator(*a).T)
    for k in ('azimuth,elevation', 'zenith,azimuth'):
        S[f'E2G {k}'] = (f'e {k}', f'g {k}', lambda k=k: ps.SphericalEquatorial2GalacticOperator(k, k))
        S[f'G2E {k}'] = (f'g {k}', f'e {k}', lambda k=k: ps.SphericalGalactic2EquatorialOperator(k, k))
    a, z = 'azimuth,elevation', 'zenith,azimuth'
    S['E2Ha'] = (f'e {a}', f'h {z}', lambda: ps.SphericalEquatorial2HorizontalOperator(*args['b'], a, z))
    S['H2Ea'] = (f'h {z}', f'e {a}', lambda: ps.SphericalHorizontal2EquatorialOperator(*args['b'], z, a))
    S['E2G mixed'] = (f'e {a}', f'g {z}', lambda: ps.SphericalEquatorial2GalacticOperator(a, z))
    S['G2E mixed'] = (f'g {z}', f'e {a}', lambda: ps.SphericalGalactic2EquatorialOperator(z, a))
    x3 = np.array([[0.6, 0, 0.8], [-0.48, 0.64, -0.6]])
    x2 = np.array([[1., 0.5], [4., 1.]])

    def case(ops, names, x, spherical):
        made = [ops[n][2]() for n in names]
        expected = x
        for op in made:
            expected = op(expected)
        composed = made[0]
        for op in made[1:]:
            composed = op(composed)
        tol = 1e-7 if spherical else 1e-13
        got = composed(x)

        def direction(v):
            if not spherical:
                return np.asarray(v)
            conv = ops[names[-1]][1].split(' ')[1]
            return vec(*decode(v, conv, False))
        near(direction(got), direction(expected), 'composition', tol)
        left = made[-1]
        for op in made[-2::-1]:
            left = left(op) if spherical else left * op
        near(direction(left(x)), direction(expected), 'left composition', tol)
        together = po.CompositionOperator(made[::-1])
        near(direction(together(x)), direction(expected), 'CompositionOperator', tol)
        ck.state(names)
        ck.transitions += 3 * len(names)
        # and back
        if not spherical and type(composed) in (po.DenseOperator, po.DenseBlockDiagonalOperator):
            # the products of dense operators, made by pyoperators, are not inverted
            near(composed.T(got), x, 'transpose', tol)
            return
        if len(names) > 1 and not isinstance(composed, po.IdentityOperator):
            return
        back = composed.I(got)
        if spherical:
            conv = ops[names[0]][0].split(' ')[1]
            near(vec(*decode(back, conv, False)), vec(*decode(x, conv, False)), 'inverse', tol)
        else:
            near(back, x, 'inverse', tol)
            if len(names) < 3:
                near(composed.T(got), x, 'transpose', tol)

    kmax = 3 if ck.quick else 5
    i = 0
    for ops, x, spherical in ((C, x3, False), (S, x2, True)):
        for k in range(1, kmax + 1):
            for names in itertools.product(ops, repeat=k):
                if any(ops[p][1] != ops[n][0] for p, n in zip(names, names[1:])):
                    continue
                i += 1
                if i % nparts == part:
                    ck.check(f'chain {names}', case, ops, names, x, spherical)


# ---- object plane -----------------------------------------------------------------------------------------------------------------------------
def boresight(ck):
    from pysimulators import RotationBoresightEquatorialOperator

    def pointing(shape, values):
        p = np.recarray(shape, dtype=[('ra', float), ('dec', float), ('pa', float), ('masked', bool)])
        n = int(np.prod(shape))
        v = np.array([values[i % len(values)] for i in range(n)]).reshape(n, 3)
        p.ra, p.dec, p.pa = (v[:, i].reshape(shape) for i in range(3))
        return p

    def case(shape, values, xshape, dtype):
        p = pointing(shape, values)
        op = RotationBoresightEquatorialOperator(p)
        n = int(np.prod(xshape))
        x = np.stack([np.arange(n) * 37 % 50 - 20., np.arange(n) * 91 % 101 - 60.], -1).reshape(*xshape, 2)
        got = op(x.astype(dtype))
        eq(got.shape, (*shape, *xshape, 2), 'shape')
        eq(got.dtype, np.dtype(float), 'type')
        full = (*shape, *xshape)
        ck.state((shape, tuple(values), xshape))
        for i in np.ndindex(*shape):
            a = np.deg2rad(p.pa[i])
            # unit vectors of the two axes, along the right ascensions and declinations
            north = (x[..., 1] * np.cos(a) - x[..., 0] * np.sin(a)) / 3600
            east = (x[..., 1] * np.sin(a) + x[..., 0] * np.cos(a)) / 3600
            dec = p.dec[i] + north
            near(got[i][..., 1][..., None], dec[..., None], 'declination', 1e-12)
            near(got[i][..., 0][..., None], (p.ra[i] + east / np.cos(np.deg2rad(dec)))[..., None], 'right ascension', 1e-10)
            # the distances and angles are preserved for small fields
            if abs(p.dec[i]) < 60 and n:
                v = vec(got[i][..., 0], got[i][..., 1]).reshape(-1, 3)
                centre = vec(p.ra[i], p.dec[i])
                d = np.rad2deg(np.sqrt(((v - centre) ** 2).sum(-1))) * 3600
                r = np.sqrt((x ** 2).sum(-1)).reshape(-1)
                near(d[:, None], r[:, None], 'separation with the centre', 0.1)
        ck.transitions += int(np.prod(full))
    values = [[(0., 0., 0.)], [(10., 20., 30.)], [(359.999, -45., 90.), (0.001, 45., -90.)], [(100., 59.9, 180.), (200., -80., 359.), (1., 2., 271.)], [(50., 0., a) for a in (0., 60., 120., 180.)]]
    for shape, v, xshape, dtype in itertools.product([(), (1,), (2,), (4,), (2, 3), (0,)], values, [(), (1,), (3,), (2, 4), (0,)], ('f8', 'f4', 'i8', 'i2')):
        ck.check(f'boresight {shape} {v} {xshape} {dtype}', case, shape, v, xshape, dtype)

    def rotation(pa):
        """ The second axis points at the position angle. """
        p = pointing((), [(30., 0., pa)])
        op = RotationBoresightEquatorialOperator(p)
        o = op([0., 36.]) - [30., 0.]
        near([np.rad2deg(np.arctan2(o[0], o[1])) % 360], [pa % 360], 'position angle', 1e-5)
        eq(op([0., 0.]).tolist(), [30., 0.], 'centre')
    for pa in range(-90, 271, 15):
        ck.check(f'position angle {pa}', rotation, pa + 0.5)

    def invalid(fields):
        p = np.recarray(3, dtype=[(_, float) for _ in fields])
        raises(TypeError, RotationBoresightEquatorialOperator, p)
    for n in (1, 2):
        for fields in itertools.combinations(('ra', 'dec', 'pa'), n):
            ck.check(f'pointing without {fields}', invalid, fields)

    def badshape(shape):
        raises(ValueError, RotationBoresightEquatorialOperator(pointing((2,), [(0., 0., 0.)])), np.ones(shape))
    for shape in ((), (1,), (3,), (2, 3), (2, 1)):
        ck.check(f'coordinates of shape {shape}', badshape, shape)


def distortion(ck):
    from pysimulators import DistortionOperator
    nodes = {
        'square': [(0, 0), (0, 1), (1, 0), (1, 1.)],
        'triangle': [(0, 0), (4, 0), (0, 3), (1, 1.)],
        'grid': [(x, y) for x in range(5) for y in range(5)],
        'grid with a centre': [(-2., -2), (2, -2), (2, 2), (-2, 2), (0, 0), (0.5, 1), (1, -1)],
        'unequal': [(0, 0), (100, 0), (0, 0.5), (100, 0.5), (30, 0.2), (60, 0.3)],
    }
    maps = {
        'identity': lambda x, y: (x, y), 'shift': lambda x, y: (x + 3, y - 7), 'scale': lambda x, y: (2 * x, 0.5 * y), 'flip': lambda x, y: (-x, y), 'swap': lambda x, y: (y, x),
        'rotation': lambda x, y: (0.8 * x - 0.6 * y + 1, 0.6 * x + 0.8 * y), 'shear': lambda x, y: (x + 0.3 * y, y), 'small': lambda x, y: (1e-3 * x + 5, 1e-3 * y),
        'quadratic': lambda x, y: (x + 0.01 * x * x, y + 0.02 * x * y), 'radial': lambda x, y: (x * (1 + 0.001 * (x * x + y * y)), y * (1 + 0.001 * (x * x + y * y))),
    }

    def inputs(p, weights):
        """ Convex combinations of three nodes. """
        for i, j, k in itertools.combinations(range(min(len(p), 8)), 3):
            for w in weights:
                yield w[0] * p[i] + w[1] * p[j] + w[2] * p[k]

    def case(node, name, form):
        xin = np.array(nodes[node], float)
        xout = np.stack(maps[name](xin[:, 0], xin[:, 1]), -1)
        args = {'array': (xin, xout), 'list': (xin.tolist(), xout.tolist()), 'F': (np.asfortranarray(xin), np.asfortranarray(xout))}[form]
        op = DistortionOperator(*args)
        scale = np.abs(xout).max() + 1
        near(op(xin), xout, 'nodes', 1e-9 * scale)
        near(op.I(xout), xin, 'nodes of the inverse', 1e-9 * (np.abs(xin).max() + 1))
        near(op.I.I(xin), xout, 'nodes of the double inverse', 1e-9 * scale)
        near(op.I(op(xin)), xin, 'inverse at the nodes', 1e-6 * (np.abs(xin).max() + 1)) if name not in ('quadratic', 'radial') else None
        ck.state((node, name))
        for shape in ((2,), (1, 2), (2, 2), (4, 2), (2, 2, 2), (0, 2)):
            n = int(np.prod(shape)) // 2
            near(op(xin[:n].reshape(shape)), xout[:n].reshape(shape), f'shape {shape}', 1e-9 * scale)
        inside = np.array(list(inputs(xin, [(0.5, 0.25, 0.25), (1 / 3, 1 / 3, 1 / 3), (0.1, 0.2, 0.7)])))
        ck.transitions += len(inside)
        got = op(inside)
        if name not in ('quadratic', 'radial'):
            near(got, np.stack(maps[name](inside[:, 0], inside[:, 1]), -1), 'affine map', 1e-4 * scale)
        else:
            require(np.isfinite(got).all(), 'inside of the hull')
        outside = np.concatenate([xin.max(0)[None] + 1, xin.min(0)[None] - 0.5, [[xin[:, 0].max() + 5, xin[:, 1].mean()]], [[xin[:, 0].mean(), xin[:, 1].min() - 1e-3]]])
        require(np.isnan(op(outside)).all(), f'outside of the hull: {op(outside)}')
        mixed = op(np.stack([inside[0], outside[0], inside[1]]))
        near(mixed[[0, 2]], got[:2], 'inside', 1e-12 * scale)
        require(np.isnan(mixed[1]).all(), 'outside')
        if node == 'grid':
            near(op(xin.astype(int)), xout, 'integer coordinates', 1e-9 * scale)
            near(op(xin.astype('f4')), xout, 'single precision', 1e-5 * scale)
        out = np.zeros((len(inside), 4))[:, ::2]
        op(inside, out)
        near(out, got, 'strided output', 0)
        require(op.flags.square and op.flags.real, 'flags')
    for args in itertools.product(nodes, maps, ('array', 'list', 'F')):
        ck.check(f'distortion {args}', case, *args)

    def invalid(a, b):
        raises(ValueError, DistortionOperator, np.ones(a), np.ones(b))
    for a, b in (((4, 3), (4, 3)), ((4, 2), (3, 2)), ((4, 2), (4, 3)), ((4, 1), (4, 1)), ((2, 4), (4, 2)), ((4,), (4,))):
        ck.check(f'nodes of shape {a} {b}', invalid, a, b)


def scenarios(tier):
    out = [('galactic', galaxy)]
    out += [(f'horizontal {i}', lambda ck, i=i: horizon(ck, i, 5)) for i in range(5)]
    out += [(f'chains {i}', lambda ck, i=i: chains(ck, i, 6)) for i in range(6)]
    out += [('boresight', boresight), ('distortion', distortion)]
    return out
