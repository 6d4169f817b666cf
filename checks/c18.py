"""
C18: the planar geometry helpers and the layouts made from them agree with elementary geometry.

Every lattice polygon, point set, grid and angle of bounded domains is given to the implementation; areas, orientations and hulls are
recomputed in integer arithmetic, positions from their definition.
"""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C18'
TECHNIQUE = 'exhaustive enumeration of lattice polygons, point sets, grids, angles, shapes, buffers and number types, executed on the implementation against integer geometry and closed forms'
NOTE = (
    'Positions are compared within the roundoff of the number type. Output buffers whose type or layout the compiled grid functions refuse with an error are accepted, '
    'a wrong value or a write outside of the buffer is not. Integer coordinate types are not requested for shapes whose vertices are not integers.'
)
BOUNDS = (
    'grids of 0 to 4 rows and columns with 4 reflections, 11 angles, 3 spacings, 3 centres and 3 filling factors; shapes of every size array up to 3 dimensions in 3 number types; '
    'every ordered polygon of 3 to 5 vertices of a 3x3 lattice; every set of 3 to 6 points of a 3x3 lattice (and 3x4 for the thorough tier); rotations by every angle '
    'of a list of 17 in 8 buffer layouts; polygons segmented with 9 lengths'
)
ANGLES = (0, 30, 45, 90, -90, 180, 270, 360, 405, -30.5, 1e-3)
TYPES = (np.float32, np.float64, np.longdouble)


def rot(angle, x, y):
    a = angle % 360
    exact = {0: (1., 0.), 90: (0., 1.), 180: (-1., 0.), 270: (0., -1.)}
    c, s = exact.get(a, (math.cos(math.radians(a)), math.sin(math.radians(a))))
    return c * x - s * y, s * x + c * y


def tol(dt):
    return {np.dtype(np.float32): 2e-6}.get(np.dtype(dt), 2e-14)


def near(got, expected, what, dt=float):
    same_array(np.asarray(got, float), np.asarray(expected, float), what, rtol=tol(dt), atol=tol(dt) * 10)


def buffers(shape, dt):
    """ Layouts of an output array. """
    yield 'plain', np.full(shape, 77, dt)
    yield 'fortran', np.full(shape[::-1], 77, dt).T
    if shape and shape[0]:
        yield 'rows', np.full((2 * shape[0],) + shape[1:], 77, dt)[::2]
        yield 'last', np.full(shape + (2,), 77, dt)[..., 0]
        yield 'reverse', np.full(shape, 77, dt)[::-1]
        yield 'padded', np.full(shape[:-1] + (shape[-1] + 1,), 77, dt)[..., :shape[-1]]


def outside(a, what):
    b = a
    while b.base is not None:
        b = b.base
    before = a.copy()
    a[...] = 77
    ok = (b == 77).all()
    a[...] = before
    require(ok, f'{what}: memory outside of the buffer was modified')


def fill(func, shape, dt, expected, what, may_raise=()):
    """ Calls func(out) for every buffer. """
    for name, out in buffers(shape, dt):
        try:
            r = func(out)
        except (ValueError, TypeError):
            if name in may_raise:
                require((out == 77).all(), f'{what}: buffer {name} modified by an error')
                continue
            raise
        require(r is out, f'{what}: buffer {name} not returned')
        near(out, expected, f'{what}: buffer {name}', dt)
        outside(out, f'{what}: {name}')


def ref_grid(shape, spacing, xr, yr, angle, center, ff=None):
    m, n = shape
    out = np.zeros((m, n, 2) if ff is None else (m, n, 4, 2))
    for i, j in itertools.product(range(m), range(n)):
        x0 = (j - (n - 1) / 2) * spacing
        y0 = ((m - 1) / 2 - i) * spacing
        h = 0. if ff is None else math.sqrt(ff) * spacing / 2
        for k, (dx, dy) in enumerate([(0, 0)] if ff is None else [(h, h), (-h, h), (-h, -h), (h, -h)]):
            x, y = x0 + dx, y0 + dy
            if xr:
                x = -x
            if yr:
                y = -y
            x, y = rot(angle, x, y)
            out[(i, j) if ff is None else (i, j, k)] = x + center[0], y + center[1]
    return out


STRICT = ('fortran', 'rows', 'last', 'reverse', 'padded')


def area(p):
    """ Twice the signed area of a polygon of integers. """
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1]))


def grids(shape):
    def one(spacing, xr, yr, angle, center):
        from pysimulators import Quantity
        from pysimulators.geometry import create_grid, create_grid_squares, surface_simple_polygon
        kw = dict(xreflection=xr, yreflection=yr, angle=angle, center=center)
        e = ref_grid(shape, spacing, xr, yr, angle, center)
        g = create_grid(shape, spacing, **kw)
        eq(g.dtype, np.dtype(float), 'type')
        near(g, e, 'grid')
        near(create_grid(list(shape), spacing, **kw), e, 'grid, list')
        near(create_grid(shape, Quantity(spacing, 'mm'), **kw), e, 'grid, quantity')
        fill(lambda out: create_grid(shape, spacing, out=out, **kw), shape + (2,), float, e, 'grid', STRICT)
        for ff in (1, 0.25, 0.5):
            e = ref_grid(shape, spacing, xr, yr, angle, center, ff)
            s = create_grid_squares(shape, spacing, filling_factor=ff, **kw)
            near(s, e, 'squares')
            near(create_grid_squares(list(shape), spacing, filling_factor=ff, **kw), e, 'squares, list')
            fill(lambda out: create_grid_squares(shape, spacing, out=out, filling_factor=ff, **kw), shape + (4, 2), float, e, 'squares', STRICT)
            if s.size:
                a = ff * spacing ** 2 * (-1 if xr != yr else 1)
                near(surface_simple_polygon(s), np.full(shape, a), 'area of the squares')
                near(s.mean(axis=2), g, 'centres of the squares')
        if g.size:
            near(g.reshape(-1, 2).mean(0), center, 'centre')

    def scenario(ck):
        for xr, yr in itertools.product((False, True), repeat=2):
            for angle in ANGLES:
                for spacing in (1, 0.4, 3.):
                    for center in ((0, 0), (1, -2), np.array([0.5, 10.])):
                        ck.check(f'{spacing} {xr} {yr} {angle} {tuple(center)}', one, spacing, xr, yr, angle, center)
        ck.check('defaults', one, 1., False, False, 0, (0, 0))

        def defaults():
            from pysimulators.geometry import create_grid, create_grid_squares
            near(create_grid(shape, 2.), ref_grid(shape, 2., 0, 0, 0, (0, 0)), 'grid')
            near(create_grid_squares(shape, 2.), ref_grid(shape, 2., 0, 0, 0, (0, 0), 1), 'squares')
        ck.check('no keyword', defaults)
    return scenario


def layouts(shape):
    def attrs(lay, e, ev, index, startswith1, what):
        near(lay.center, e.reshape(-1, 2)[np.array(index, int)], f'{what}: centres')
        near(lay.all.center[np.unravel_index(np.array(index, int), shape)], e.reshape(-1, 2)[np.array(index, int)], f'{what}: unpacked centres')
        eq(list(lay.row), [i // shape[1] + startswith1 for i in index], f'{what}: rows')
        eq(list(lay.column), [i % shape[1] + startswith1 for i in index], f'{what}: columns')
        eq(len(lay), len(index), f'{what}: length')
        if ev is not None:
            near(lay.vertex, ev.reshape(-1, 4, 2)[np.array(index, int)], f'{what}: vertices')
            eq(lay.nvertices, 4, f'{what}: number of vertices')

    def one(xr, yr, angle, origin, s1, how):
        from pysimulators import LayoutGrid, LayoutGridSquares, Quantity
        n = shape[0] * shape[1]
        kw = dict(xreflection=xr, yreflection=yr, angle=angle, origin=origin, startswith1=s1)
        if how == 'all':
            index = list(range(n))
        elif how == 'mask':
            index = [i for i in range(n) if i % 3 != 1]
            kw['selection'] = np.isin(np.arange(n), index).reshape(shape)
        elif how == 'slice':
            index = [i for i in range(n) if i // shape[1] >= 1]
            kw['selection'] = np.s_[1:, :]
        else:
            order = (np.arange(n)[::-1] - 1).reshape(shape)
            index = [i for i in range(n - 1)][::-1]
            kw['ordering'] = order
        # the order of the packed elements is that of the ordering values
        e = ref_grid(shape, 0.5, xr, yr, angle, origin)
        attrs(LayoutGrid(shape, 0.5, **kw), e, None, index, s1, 'grid')
        attrs(LayoutGrid(list(shape), 0.5, **kw), e, None, index, s1, 'grid from a list')
        for ff in (1, 0.25):
            ev = ref_grid(shape, 0.5, xr, yr, angle, origin, ff)
            lay = LayoutGridSquares(shape, 0.5, filling_factor=ff, **kw)
            attrs(lay, e, ev, index, s1, 'squares')
            eq(lay.filling_factor, ff, 'filling factor')
            attrs(LayoutGridSquares(list(shape), 0.5, filling_factor=ff, **kw), e, ev, index, s1, 'squares from a list')
        # units: positions are in the unit of the spacing, or in that of the origin
        for us, uo, fs, fo, u in (('mm', '', 1, 1, 'mm'), ('', 'mm', 1, 1, 'mm'), ('mm', 'm', 1, 1e3, 'mm'), ('m', 'mm', 1, 1e-3, 'm'), ('m', 'm', 1, 1, 'm')):
            k2 = dict(kw)
            k2['origin'] = Quantity(origin, uo) if uo else origin
            spacing = Quantity(0.5, us) if us else 0.5
            e = ref_grid(shape, 0.5 * fs, xr, yr, angle, np.array(origin) * fo)
            lay = LayoutGrid(shape, spacing, **k2)
            attrs(lay, e, None, index, s1, f'units {us} {uo}')
            eq(lay.center.unit, u, 'unit')
            ev = ref_grid(shape, 0.5 * fs, xr, yr, angle, np.array(origin) * fo, 0.25)
            lay = LayoutGridSquares(shape, spacing, filling_factor=0.25, **k2)
            attrs(lay, e, ev, index, s1, f'units {us} {uo}')
            eq(lay.center.unit, u, 'unit')
            eq(lay.vertex.unit, u, 'unit')

    def radius(ur, us):
        from pysimulators import LayoutGrid, Quantity
        lay = LayoutGrid(shape, Quantity(0.5, us) if us else 0.5, radius=Quantity(2., ur) if ur else 2.)
        u = us or ur
        f = {('m', 'mm'): 1e3, ('mm', 'm'): 1e-3}.get((ur, us), 1)
        near(lay.center, ref_grid(shape, 0.5, 0, 0, 0, (0, 0)).reshape(-1, 2), 'centres')
        near(lay.radius, 2. * f * np.ones_like(lay.radius), 'radius')
        if u:
            eq(lay.center.unit, u, 'unit of the centre')
            eq(lay.radius.unit, u, 'unit of the radius')

    def scenario(ck):
        for xr, yr in itertools.product((False, True), repeat=2):
            for angle in (0, 30, -90):
                for origin in ((0, 0), (1., -2.)):
                    for s1 in (False, True):
                        for how in ('all', 'mask', 'slice', 'ordering'):
                            ck.check(f'{xr} {yr} {angle} {origin} {s1} {how}', one, xr, yr, angle, origin, s1, how)
        for ur, us in itertools.product(('', 'mm', 'm'), repeat=2):
            ck.check(f'radius {ur} {us}', radius, ur, us)

        def errors():
            from pysimulators import LayoutGrid
            raises(TypeError, LayoutGrid, 3, 1.)
            raises(ValueError, LayoutGrid, (3,), 1.)
            raises(ValueError, LayoutGrid, (1, 2, 3), 1.)
            raises(ValueError, LayoutGrid, (1, 2), 1., origin=(1, 2, 3))
        ck.check('errors', errors)
    return scenario


SIZES = (2., [3.], [1., 2.], [[1., 2., 3.]], [[0.5, 1.], [2., 3.], [4., 0.]])


def shapes(dt):
    """ Rectangles, squares, polygons and circles. """
    def square(size, angle, center):
        from pysimulators.geometry import create_rectangle, create_square, surface_simple_polygon
        s = np.array(size)
        e = np.zeros(s.shape + (4, 2))
        for i in np.ndindex(*s.shape):
            for k, (a, b) in enumerate([(1, 1), (-1, 1), (-1, -1), (1, -1)]):
                x, y = rot(angle, a * s[i] / 2, b * s[i] / 2)
                e[i + (k,)] = x + center[0], y + center[1]
        q = create_square(size, angle=angle, center=center, dtype=dt)
        eq(q.dtype, np.dtype(dt), 'type')
        near(q, e, 'square', dt)
        fill(lambda out: create_square(size, out=out, angle=angle, center=center, dtype=dt), e.shape, dt, e, 'square')
        if s.ndim < 2:
            near(surface_simple_polygon(q), s ** 2, 'area', dt)
        r = np.stack([s, 2 * s], -1)
        e = np.zeros(s.shape + (4, 2))
        for i in np.ndindex(*s.shape):
            for k, (a, b) in enumerate([(1, 1), (-1, 1), (-1, -1), (1, -1)]):
                x, y = rot(angle, a * s[i] / 2, b * s[i])
                e[i + (k,)] = x + center[0], y + center[1]
        q = create_rectangle(r, angle=angle, center=center, dtype=dt)
        eq(q.dtype, np.dtype(dt), 'type')
        near(q, e, 'rectangle', dt)
        fill(lambda out: create_rectangle(r, out=out, angle=angle, center=center, dtype=dt), e.shape, dt, e, 'rectangle')
        raises(ValueError, create_rectangle, np.ones(s.shape + (3,)))

    def polygon(n, radius, angle, center):
        from pysimulators.geometry import create_circle, create_regular_polygon, surface_simple_polygon
        r = np.array(radius)
        c = np.array(center, float)
        shape = np.broadcast_shapes(r.shape, c.shape[:-1])
        rb = np.broadcast_to(r, shape)
        cb = np.broadcast_to(c, shape + (2,))
        e = np.zeros(shape + (n, 2))
        for i in np.ndindex(*shape):
            for k in range(n):
                a = math.radians(angle) + 2 * math.pi * k / n
                e[i + (k,)] = cb[i][0] + rb[i] * math.cos(a), cb[i][1] + rb[i] * math.sin(a)
        p = create_regular_polygon(n, radius, angle=angle, center=center, dtype=dt)
        eq(p.dtype, np.dtype(dt), 'type')
        near(p, e, 'polygon', dt)
        fill(lambda out: create_regular_polygon(n, radius, out=out, angle=angle, center=center, dtype=dt), e.shape, dt, e, 'polygon')
        a = n / 2 * rb ** 2 * math.sin(2 * math.pi / n)
        same_array(np.asarray(surface_simple_polygon(p), float), a, 'area', rtol=tol(dt) * 10, atol=tol(dt) * 100)
        if angle == 0:
            near(create_circle(radius, n=n, center=center, dtype=dt), e, 'circle', dt)
            fill(lambda out: create_circle(radius, out=out, n=n, center=center, dtype=dt), e.shape, dt, e, 'circle')
            if n == 72:
                near(create_circle(radius, center=center, dtype=dt), e, 'default circle', dt)

    def scenario(ck):
        for size in SIZES:
            for angle in ANGLES:
                for center in ((0, 0), (1, -2), np.array([0.5, 10.])):
                    ck.check(f'square {size} {angle} {tuple(center)}', square, size, angle, center)
                    for n in (3, 4, 5, 6, 7, 12, 72):
                        if n == 72 and angle:
                            continue
                        ck.check(f'polygon {n} {size} {angle} {tuple(center)}', polygon, n, size, angle, center)
        for radius, center in ((1., [[0, 0], [1, 2], [3, 4]]), ([1., 2., 3.], [[0, 0], [1, 2], [3, 4]]), ([[1.], [2.]], [[0, 0], [1, 2], [3, 4]]), ([1., 2.], [[[0, 1]], [[5, 2]], [[3, 3]]])):
            for n in (3, 4, 72):
                ck.check(f'centres {radius} {center} {n}', polygon, n, radius, 0, center)
    return scenario


def rotations(dt):
    angles = ANGLES + (60, 120, -135, 720, 89.999, -1)
    pts = [(), (0,), (1,), (3,), (2, 2), (1, 3, 2)]

    def near_(got, e, what):
        same_array(np.asarray(got, float), np.asarray(e, float), what, rtol=tol(fdt), atol=tol(fdt) * 10)
    fdt = dt if np.dtype(dt).kind == 'f' else np.float64

    def one(shape, angle):
        from pysimulators.geometry import rotate
        n = int(np.prod(shape))
        x = ((np.arange(2 * n) * 5 + 2) % 11 - 4).reshape(shape + (2,)).astype(dt)
        e = np.empty(shape + (2,))
        for i in np.ndindex(*shape):
            e[i] = rot(angle, *map(float, x[i]))
        x0 = x.copy()
        y = rotate(x0, angle)
        same_array(x0, x, 'input')
        eq(y.dtype, np.dtype(fdt), 'type')
        near_(y, e, 'rotation')
        near_(rotate(x.tolist(), angle) if n else e, e, 'rotation of a list')
        near_(rotate(y, -angle), x, 'opposite angle')
        near_(rotate(rotate(x, angle / 2), angle / 2), e, 'two half rotations')
        a, b = np.asarray(x, float), np.asarray(y, float)
        near_(np.hypot(*np.moveaxis(a, -1, 0)), np.hypot(*np.moveaxis(b, -1, 0)), 'distance to the origin')
        for ni, xi in buffers(x.shape, dt):
            xi[...] = x
            near_(rotate(xi, angle), e, f'input {ni}')
            same_array(xi, x, 'input')
            for no, out in buffers(x.shape, fdt):
                require(rotate(xi, angle, out=out) is out, 'buffer returned')
                near_(out, e, f'{ni} to {no}')
                outside(out, no)
                same_array(xi, x, f'{ni} to {no}: input')
            if dt is fdt:
                require(rotate(xi, angle, out=xi) is xi, 'buffer returned')
                near_(xi, e, f'{ni} in place')
                outside(xi, ni)
        if dt is fdt:
            for odt in TYPES:
                out = np.empty(x.shape, odt)
                rotate(x, angle, out=out)
                near(out, e, 'other type of output', min(dt, odt, key=lambda t: np.finfo(t).precision))
            # partial overlap of the buffers
            if len(shape) == 1 and shape[0] > 1:
                for a, b in ((0, 1), (1, 0)):
                    buf = np.zeros((shape[0] + 1, 2), dt)
                    buf[a:a + shape[0]] = x
                    rotate(buf[a:a + shape[0]], angle, out=buf[b:b + shape[0]])
                    near_(buf[b:b + shape[0]], e, 'overlapping buffers')

    def scenario(ck):
        for shape in pts:
            for angle in angles:
                ck.check(f'{shape} {angle}', one, shape, angle)
    return scenario


def areas(n, part, parts):
    """ Every ordered polygon of n distinct lattice points (the area of a self-crossing one is its algebraic area). """
    lattice = list(itertools.product(range(3), repeat=2))

    def one(chunk):
        from pysimulators.geometry import surface_simple_polygon
        e = np.array([area(list(p)) / 2 for p in chunk])
        a = np.array(chunk)
        for dt in (int, float, np.float32):
            same_array(surface_simple_polygon(a.astype(dt)), e, 'area', dtype=float)
        same_array(surface_simple_polygon(a.tolist()), e, 'area of a list', dtype=float)
        same_array(surface_simple_polygon(a[:, ::-1]), -e, 'area of the reversed polygon')
        same_array(surface_simple_polygon(np.roll(a, 1, 1)), e, 'area of the shifted list of vertices')
        same_array(surface_simple_polygon(a * 3 + [100, -50]), 9 * e, 'area of the scaled polygon')
        for k in range(0, len(chunk), 7):
            s = surface_simple_polygon(a[k])
            require(np.ndim(s) == 0, 'a single polygon has a scalar area')
            eq(float(s), e[k], 'single area')
            o = np.full((), 77.)
            surface_simple_polygon(a[k], out=o)
            eq(float(o), e[k], 'single area in a buffer')
        for shape in ((1, len(chunk)), (len(chunk), 1), (2, -1) if len(chunk) % 2 == 0 else (len(chunk), 1), (1, len(chunk), 1)):
            b = a.reshape(shape + (n, 2))
            es = e.reshape(shape)
            same_array(surface_simple_polygon(b), es, 'area of an array of polygons')
            for odt in TYPES:
                same_array(surface_simple_polygon(b, dtype=odt), es, 'area, other type', dtype=odt)
            for name, out in buffers(es.shape, float):
                r = surface_simple_polygon(b, out=out)
                require(r is out, 'buffer returned')
                same_array(out, es, f'area in a buffer {name}')
                outside(out, name)
        for name, out in buffers(e.shape, float):
            surface_simple_polygon(a, out=out)
            same_array(out, e, f'area in a buffer {name}')
            outside(out, name)

    def empty():
        from pysimulators.geometry import surface_simple_polygon
        for shape in ((0,), (0, 2), (2, 0)):
            same_array(surface_simple_polygon(np.empty(shape + (n, 2))), np.empty(shape), 'no polygon')

    def scenario(ck):
        ck.check('no polygon', empty)
        polys = list(itertools.permutations(lattice, n))[part::parts]
        for k in range(0, len(polys), 50):
            ck.check(f'{n} {part} {k}', one, polys[k:k + 50])
    return scenario


def ref_hull(pts):
    """ Extreme points, counter-clockwise (monotone chain in integers). """
    pts = sorted(set(pts))
    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(pts) + half(pts[::-1])


def hulls(n, part, parts, size):
    lattice = list(itertools.product(range(size[0]), range(size[1])))

    def one(pts):
        from pysimulators.geometry import convex_hull
        pts = [tuple(p) for p in pts]
        h = ref_hull(pts)
        if len(h) < 3:
            return
        for arg in (pts, np.array(pts, float), np.array(pts[::-1]), np.array(pts, float)[:, None, :], np.array(pts + pts[:2], float)):
            got = np.asarray(convex_hull(arg))
            eq(got.ndim, 2, 'dimensions')
            g = [tuple(int(v) for v in p) for p in got]
            require(set(g) <= set(pts), 'the points of the hull are points of the input')
            eq(len(set(g)), len(g), 'distinct points')
            require(set(h) <= set(g), 'the extreme points are in the hull')
            for a, b in zip(g, g[1:] + g[:1]):
                for p in pts:
                    require((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) >= 0, 'every point is on the left of every edge')
            eq(area(g), area(h), 'area of the hull')

    def scenario(ck):
        for k, pts in enumerate(itertools.combinations(lattice, n)):
            if k % parts == part:
                ck.check(repr(pts), one, pts)
        if part == 0:
            def bad():
                from pysimulators.geometry import convex_hull
                raises(ValueError, convex_hull, np.zeros((5, 3)))
            ck.check('dimensions', bad)
    return scenario


def segments(n, part, parts):
    lattice = list(itertools.product(range(3), repeat=2))

    def one(p, scale):
        from pysimulators.geometry import segment_polygon
        v = np.array(p, float) * scale
        for d in (0.1, 0.3, 0.5, 1, 1.5, 2, 2.5, 100, math.sqrt(2)):
            for dt in (float, np.float32) if d in (0.3, 1) else (float,):
                eps = 1e-5 if dt is np.float32 else 1e-12
                got = segment_polygon(v, d, dtype=dt)
                eq(got.dtype, np.dtype(dt), 'type')
                k = 0
                total = 0
                for a, b in zip(v, np.roll(v, -1, 0)):
                    l = np.hypot(*(b - a))
                    n = math.ceil(l / d - 1e-5)
                    while k < len(got) and n * d < l - 1e-5:
                        n += 1
                    # the segmentation of this edge: its first vertex then equally spaced points
                    near(got[k], a, 'first point of the edge', dt)
                    m = 1
                    while k + m < len(got) and not np.allclose(got[k + m], b, atol=1e-5, rtol=0):
                        m += 1
                    if m not in (n, n + 1):
                        raise Mismatch(f'an edge of length {l} with segments shorter than {d}: {m} segments')
                    require(l / m <= d * (1 + 1e-5), 'length of the segments')
                    for j in range(m):
                        near(got[k + j], a + (b - a) * j / m, 'point of the edge', dt)
                    k += m
                eq(k, len(got), 'number of points')

    def scenario(ck):
        for p in list(itertools.permutations(lattice, n))[part::parts]:
            for scale in (1, 0.7):
                ck.check(f'{p} {scale}', one, p, scale)
        if part == 0:
            def bad():
                from pysimulators.geometry import segment_polygon
                raises(ValueError, segment_polygon, [1, 2], 1)
                raises(ValueError, segment_polygon, np.zeros((2, 2, 2)), 1)
            ck.check('dimensions', bad)
    return scenario


def scenarios(tier):
    out = []
    top = 5 if tier == 'quick' else 7
    for shape in itertools.product(range(top), repeat=2):
        if tier == 'quick' and min(shape) == 0 and max(shape) > 2:
            continue
        out.append((f'grids {shape}', grids(shape)))
    for shape in itertools.product(range(1, 4 if tier == 'quick' else 6), repeat=2):
        out.append((f'layouts {shape}', layouts(shape)))
    for dt in TYPES:
        out.append((f'shapes {np.dtype(dt)}', shapes(dt)))
    for dt in TYPES + (np.int64, np.int32):
        out.append((f'rotations {np.dtype(dt)}', rotations(dt)))
    for n in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6):
        parts = {3: 1, 4: 2, 5: 8, 6: 32}[n]
        for part in range(parts):
            out.append((f'areas {n} {part}', areas(n, part, parts)))
    for n in (3, 4, 5, 6) if tier == 'quick' else range(3, 10):
        parts = 2
        for part in range(parts):
            out.append((f'hulls {n} {part}', hulls(n, part, parts, (3, 3))))
    if tier != 'quick':
        for n in range(3, 8):
            for part in range(4):
                out.append((f'hulls of 3x4 {n} {part}', hulls(n, part, 4, (3, 4))))
    for n in (3, 4):
        parts = {3: 4, 4: 16}[n]
        for part in range(parts):
            if tier == 'quick' and n == 4 and part % 4:
                continue
            out.append((f'segments {n} {part}', segments(n, part, parts)))
    return out
