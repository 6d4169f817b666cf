"""
C17: angular statistics are invariant to the 0/360 wrap and to the input order.
"""
import itertools

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C17'
TECHNIQUE = 'exhaustive enumeration of the multisets of angles and directions of a grid, of their orders, rotations, turns and undefined values, on the real routines, against exact or extended precision definitions'
NOTE = (
    'The arithmetic mean and bounds of the angles are computed with integers along the arc that contains them. The barycentres and separations are computed with extended precision from '
    'the cartesian vectors. Sets of angles that span half a turn or more, and directions whose sum vanishes, have no mean and are only required not to fail. The results of the routines with several threads '
    'are covered by the exploration of their OpenMP schedules in C01.'
)
BOUNDS = (
    'angles: every multiset of up to 4 (quick) or 5 multiples of 30 degrees, and up to 3 of 15 degrees, 2 of 5 degrees, with every order up to size 4, shifted by offsets including the neighbours of 0, 1 to 3 turns and with undefined values at every '
    'position; directions: every set of up to 3 of 62 (quick) or 4 directions including the poles, and every pair of 206 directions with displacements from 1e-10 to 180 degrees; every pair of shapes of a list'
)


def functions():
    from pysimulators import angle_lonlat, barycenter_lonlat
    from pysimulators.wcsutils import mean_degrees, minmax_degrees
    return angle_lonlat, barycenter_lonlat, mean_degrees, minmax_degrees


def arc(values, turn):
    """ Unwrap integer angles that span less than half a turn, or return None. """
    u = sorted(set(v % turn for v in values))
    for i, start in enumerate(u):
        span = max((v - start) % turn for v in u)
        if 2 * span < turn:
            return [start + (v - start) % turn for v in values]
    return None


def close_angle(got, expected, what, tol=1e-9):
    got = float(got)
    require(np.isfinite(got), f'{what}: got {got}, expected {expected}')
    require(-1e-12 <= got <= 360, f'{what}: {got} is outside [0, 360]')
    d = abs((got - expected + 180) % 360 - 180)
    if d > tol:
        raise Mismatch(f'{what}: got {got}, expected {expected % 360}')


OFFSETS = [0, 0.1, 1 / 3, 1e-13, -1e-13, 1e-300, 359.9, -7.25, 45]


def angles(ck, step, size, part, nparts):
    angle_lonlat, barycenter_lonlat, mean_degrees, minmax_degrees = functions()
    turn = 360 // step

    def verify(values, mean, lo, hi):
        ck.transitions += 2
        close_angle(mean_degrees(values), mean, f'mean of {values}')
        mini, maxi = minmax_degrees(values)
        close_angle(mini, lo, f'minimum of {values}')
        close_angle(maxi, hi, f'maximum of {values}')

    def case(multiset, unwrapped):
        mean = sum(unwrapped) * step / len(unwrapped)
        lo, hi = min(unwrapped) * step, max(unwrapped) * step
        base = [float(v * step) for v in multiset]
        orders = set(itertools.permutations(base)) if len(base) <= (3 if ck.quick else 4) else {tuple(base), tuple(base[::-1]), tuple(base[1:] + base[:1]), tuple(base[2:] + base[:2])}
        for values in orders:
            ck.state(values)
            verify(values, mean, lo, hi)
        for offset in OFFSETS:
            verify([v + offset for v in base], mean + offset, lo + offset, hi + offset)
        # turns
        for i in range(len(base)):
            for n in (-3, -1, 1, 2):
                values = list(base)
                values[i] += n * 360
                verify(values, mean, lo, hi)
        # undefined values
        for i in range(len(base) + 1):
            verify(base[:i] + [np.nan] + base[i:], mean, lo, hi)
            verify(base[:i] + [np.nan, np.nan] + base[i:] + [np.nan], mean, lo, hi)
        # types and shapes
        verify(np.array(base, np.float32), mean, lo, hi)
        verify(np.array(base, int), mean, lo, hi)
        verify(np.array(base)[:, None], mean, lo, hi)
        verify(np.repeat(base, 2)[::2], mean, lo, hi)
        big = np.array(base, '>f8')
        before = big.copy()
        verify(big, mean, lo, hi)
        eq(big.tobytes(), before.tobytes(), 'input')

    def undefined(multiset):
        values = [float(v * step) for v in multiset]
        for f in mean_degrees, minmax_degrees:
            require(np.all(np.isfinite(f(values))), 'finite result')

    for i, multiset in enumerate(itertools.combinations_with_replacement(range(turn), size)):
        if i % nparts != part:
            continue
        unwrapped = arc(multiset, turn)
        if unwrapped is None:
            ck.check(f'angles {multiset} x {step}', undefined, multiset)
        else:
            ck.check(f'angles {multiset} x {step}', case, multiset, unwrapped)

    if part == 0 and size == 1:
        def nothing(n):
            for f in mean_degrees, minmax_degrees:
                require(np.all(np.isnan(f([np.nan] * n))), f'{f.__name__} of undefined values: {f([np.nan] * n)}')
        for n in range(1, 5):
            ck.check(f'{n} undefined values', nothing, n)


def many_angles(ck):
    """ Sets larger than the number of threads. """
    angle_lonlat, barycenter_lonlat, mean_degrees, minmax_degrees = functions()

    def case(n, start, span):
        x = np.linspace(0, span, n)
        for values in (x + start, (x + start) % 360, (x[::-1] + start) % 360, np.roll(x, n // 3) + start - 360):
            close_angle(mean_degrees(values), start + span / 2, 'mean', 1e-8)
            lo, hi = minmax_degrees(values)
            close_angle(lo, start, 'minimum')
            close_angle(hi, start + span, 'maximum')
    for n in (2, 7, 8, 9, 100, 1001):
        for start in range(0, 360, 10):
            for span in (0, 1, 45, 89, 90, 91, 135, 170, 179):
                ck.check(f'{n} angles from {start} over {span}', case, n, start, span)


def vectors(lon, lat):
    lon, lat = np.deg2rad(np.array(lon, np.longdouble)), np.deg2rad(np.array(lat, np.longdouble))
    return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


def separation(u, v):
    w = np.cross(u, v, axis=0)
    return np.rad2deg(np.arctan2(np.sqrt(np.sum(w * w, 0)), np.sum(u * v, 0)))


def directions(step, lats):
    for lat in lats:
        for lon in range(0, 360, step):
            yield float(lon), float(lat)


def barycentres(ck, size, part, nparts):
    angle_lonlat, barycenter_lonlat, mean_degrees, minmax_degrees = functions()
    grid = list(directions(45 if size < 4 else 90, (-90, -60, -1e-9, 0, 1e-7, 30, 90) if size < 4 else (-90, 0, 1e-7, 30, 89.999)))
    if size < 4:
        grid += [(359.999999, 10.), (1e-9, 10.), (180.0000001, -89.9999999), (-45., 0.), (405., 30.), (90., 89.99999999)]

    def case(points):
        lon, lat = np.array(points).T
        v = vectors(lon, lat).sum(1)
        norm = np.sqrt(np.sum(v * v))
        ck.state(points)
        orders = list(itertools.permutations(range(size))) if size <= 3 else [range(size), range(size)[::-1]]
        for o in orders:
            o = list(o)
            r = barycenter_lonlat(lon[o], lat[o])
            ck.transitions += 1
            if norm < 1e-6:
                return
            verify(r, v, norm, f'barycentre of {points}')
        # undefined values
        for i in range(size + 1):
            for a, b in ((np.nan, 3.), (3., np.nan), (np.nan, np.nan)):
                verify(barycenter_lonlat(np.insert(lon, i, a), np.insert(lat, i, b)), v, norm, 'with an undefined value')
        # rotation around the axis and turns
        for d in (1., 123.456, -90., 360., -720.):
            lon0, lat0 = barycenter_lonlat(lon + d, lat)
            verify((lon0 - d, lat0), v, norm, f'rotation of {d}', False)
        verify(barycenter_lonlat(lon[:, None], lat[:, None]), v, norm, 'column')
        verify(barycenter_lonlat(list(lon), tuple(lat)), v, norm, 'list')

    def verify(r, v, norm, what, check_range=True):
        lon0, lat0 = r
        require(np.isfinite(lon0) and np.isfinite(lat0), f'{what}: {r}')
        require(abs(lat0) <= 90, f'{what}: latitude {lat0}')
        if check_range:
            require(0 <= lon0 <= 360, f'{what}: longitude {lon0}')
        d = separation(vectors(lon0, lat0), v)
        if d > 1e-12 / min(norm, 1):
            raise Mismatch(f'{what}: got {r}, {float(d)} degrees away')

    for i, points in enumerate(itertools.combinations_with_replacement(grid, size)):
        if i % nparts == part:
            ck.check(f'barycentre {points}', case, points)

    if size == 1 and part == 0:
        def nothing(n):
            for a, b in ((np.nan, 3.), (3., np.nan), (np.nan, np.nan)):
                require(np.all(np.isnan(barycenter_lonlat([a] * n, [b] * n))), f'undefined values: {barycenter_lonlat([a] * n, [b] * n)}')
        for n in range(1, 4):
            ck.check(f'barycentre of {n} undefined values', nothing, n)

        def incompatible(n, m):
            raises(ValueError, barycenter_lonlat, np.ones(n), np.ones(m))
        for n, m in itertools.permutations(range(1, 5), 2):
            ck.check(f'barycentre with {n} longitudes and {m} latitudes', incompatible, n, m)


def separations(ck, part, nparts):
    angle_lonlat, barycenter_lonlat, mean_degrees, minmax_degrees = functions()
    grid = list(directions(15, (-90, -60, 0, 30, 89.999999, 90))) + [(lon + 1e-9, lat - 1e-9) for lon, lat in directions(45, (-60, 0, 30))]
    grid += [(0., 1e-7), (1e-7, 0.), (180., 1e-7), (180., 0.), (-180., 0.), (360., 0.), (720., 30.), (12.3456789, 65.4321), (359.9999999, 0.), (192.3456789, -65.4321)]
    lon, lat = np.array(grid).T
    v = vectors(lon, lat)

    def case(i):
        expected = separation(v[:, i, None], v)
        for got, what in (
            (angle_lonlat(lon[i], lat[i], lon, lat), 'one to many'),
            (angle_lonlat(lon, lat, lon[i], lat[i]), 'many to one'),
            (angle_lonlat((lon[i], lat[i]), (lon, lat)), 'pairs'),
            (angle_lonlat(lon, lat, np.full(lon.size, lon[i]), np.full(lon.size, lat[i])), 'many to many'),
            (angle_lonlat(lon + 17, lat, lon[i] + 17, lat[i]), 'rotation'),
            (angle_lonlat(lon + 360, lat, lon[i] - 720, lat[i]), 'turns'),
            (angle_lonlat(lon, -lat, lon[i], -lat[i]), 'reflection'),
            (angle_lonlat(-lon, lat, -lon[i], lat[i]), 'longitude reflection'),
        ):
            ck.transitions += lon.size
            eq(got.shape, lon.shape, what + ' shape')
            bad = ~(np.abs(got - expected) <= 2e-12 + 1e-14 * expected)
            if np.any(bad):
                j = int(np.flatnonzero(bad)[0])
                raise Mismatch(f'{what}: separation of {grid[i]} and {grid[j]}: got {got[j]}, expected {float(expected[j])}')
        for j in range(0, lon.size, 7):
            r = angle_lonlat(lon[i], lat[i], lon[j], lat[j])
            eq(np.ndim(r), 0, 'scalar')
            require(abs(r - expected[j]) <= 2e-12 + 1e-14 * expected[j], f'scalar separation {r}, expected {expected[j]}')
        ck.state(grid[i])

    for i in range(part, lon.size, nparts):
        ck.check(f'separations {grid[i]}', case, i)

    if part:
        return

    def displacement(lon0, lat0, power):
        """ Separations along the meridian. """
        d = 10. ** power
        for s in (-1, 1):
            if abs(lat0 + s * d) > 90:
                continue
            other = lat0 + s * d
            exact = float(np.abs(np.longdouble(other) - np.longdouble(lat0)))
            got = angle_lonlat(lon0, lat0, lon0, other)
            require(abs(got - exact) <= 1e-13 + 1e-12 * exact, f'displacement of {d}: {got}')
    for lon0, lat0 in directions(30, (-90, -45, -30, 0, 10, 60, 90)):
        for power in range(-10, 3):
            ck.check(f'displacement {lon0} {lat0} {power}', displacement, lon0, lat0, power)

    def shapes(s1, s2):
        n1, n2 = int(np.prod(s1)), int(np.prod(s2))
        a = np.arange(n1).reshape(s1) * 10.
        b = 50. - np.arange(n1).reshape(s1)
        c = np.arange(n2).reshape(s2) * 33.
        d = np.arange(n2).reshape(s2) * 5.
        if n1 != n2 and 1 not in (n1, n2):
            raises(ValueError, angle_lonlat, a, b, c, d)
            return
        got = angle_lonlat(a, b, c, d)
        expected = separation(vectors(a.ravel(), b.ravel()), vectors(c.ravel(), d.ravel()))
        require(np.shape(got) == (() if s1 == s2 == () else expected.shape), f'shape {np.shape(got)}')
        require(np.all(np.abs(got - expected) < 1e-12), 'values')
    all_shapes = [(), (1,), (2,), (3,), (4,), (5,), (2, 1), (2, 2), (3, 1)]
    for s1, s2 in itertools.product(all_shapes, repeat=2):
        ck.check(f'shapes {s1} {s2}', shapes, s1, s2)

    def mixed(s):
        """ The longitudes and latitudes do not have the same number of elements. """
        raises(ValueError, angle_lonlat, *[np.ones(n) for n in s])
    for s in itertools.product((1, 2, 3), repeat=4):
        if s[0] != s[1] or s[2] != s[3]:
            ck.check(f'sizes {s}', mixed, s)

    def nans(pattern):
        args = [np.nan if p else 1. for p in pattern]
        r = angle_lonlat(*args)
        require(np.isnan(r) if any(pattern) else r == 0, f'{pattern}: {r}')
        r = angle_lonlat(*[np.array([1., a, 1.]) for a in args])
        eq(list(np.isnan(r)), [False, any(pattern), False], 'undefined separations')
    for pattern in itertools.product((False, True), repeat=4):
        ck.check(f'undefined {pattern}', nans, pattern)


def scenarios(tier):
    quick = tier == 'quick'
    out = []
    for step, sizes in ((30, (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5)), (15, (1, 2, 3)), (5, (2,))):
        for size in sizes:
            n = 1 if size < 3 else 3
            out += [(f'angles {step} {size} {i}', lambda ck, step=step, size=size, i=i, n=n: angles(ck, step, size, i, n)) for i in range(n)]
    out.append(('many angles', many_angles))
    for size in (1, 2, 3) if quick else (1, 2, 3, 4):
        n = 1 if size < 3 else 8
        out += [(f'barycentres {size} {i}', lambda ck, size=size, i=i, n=n: barycentres(ck, size, i, n)) for i in range(n)]
    out += [(f'separations {i}', lambda ck, i=i: separations(ck, i, 4)) for i in range(4)]
    return out
