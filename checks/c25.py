"""
C25: pointing samplings derive consistent times, directions and centres.
"""
import functools
import itertools

import numpy as np

from checks import c14
from checks.c14 import horizontal, near, sidereal, vec
from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C25'
TECHNIQUE = (
    'exhaustive enumeration of the ways of specifying a sampling and of every sequence of selections, assignments and requests up to a depth on the real classes, against an explicit list of samples; every schedule of the distributed centres '
    'in an in-process MPI model'
)
NOTE = 'Celestial directions are compared with the spherical trigonometry of C14 and the sidereal time of astropy (UT1 taken equal to UTC). A velocity is the angle between successive samples divided by the time between them.'
BOUNDS = (
    '3 classes of samplings, 1 to 4 samples, every combination of constant, given or omitted angles, times, periods and masks, 8 forms of dates; sequences of up to 2 (quick) or 3 of 30 operations, each followed by every derived value; every '
    'mask of up to 6 samples and every order of up to 4 of them; 1 to 4 (quick) or 5 processes'
)

LON = [10., 350.5, 200., 359.25, 0., 123.]
LAT = [20., -30., 85.5, 0., 45., -89.]
ROLL = [1., 2.5, -3., 0., 7., 9.]
LATITUDE, LONGITUDE = 48.853291, 2.348751
DATE = '2010-07-01T18:00:00'


@functools.cache
def classes():
    from pyoperators import Spherical2CartesianOperator
    from pysimulators.packedtables.samplings import SamplingEquatorial, SamplingHorizontal, SamplingSpherical

    class Custom(SamplingSpherical):
        """A sampling whose angles are a zenith distance and an azimuth in radians."""
        def __init__(self, *args, **keywords):
            SamplingSpherical.__init__(self, *args, names=('theta', 'phi', 'psi'), **keywords)

        @property
        def spherical2cartesian(self):
            return Spherical2CartesianOperator('zenith,azimuth', degrees=self.degrees)

    return {'equatorial': (SamplingEquatorial, ('ra', 'dec', 'pa')), 'horizontal': (SamplingHorizontal, ('azimuth', 'elevation', 'pitch')), 'custom': (Custom, ('theta', 'phi', 'psi'))}


@functools.cache
def galactic():
    return c14.galactic()


class Ref:
    """ The samples: index, two directions, roll, time and mask of each one. """
    def __init__(self, kind, n, lon=None, lat=None, roll=None, time=None, period=1., date=DATE, masked=None):
        self.kind, self.period, self.date = kind, period, date
        self.index = np.arange(n)
        self.lon = np.array(LON[:n] if lon is None else lon) * np.ones(n)
        self.lat = np.array(LAT[:n] if lat is None else lat) * np.ones(n)
        self.roll = np.array(ROLL[:n] if roll is None else roll) * np.ones(n)
        self.time = self.index * period if time is None else np.array(time, float)
        self.masked = np.zeros(n, bool) if masked is None else np.array(masked)

    FIELDS = 'index', 'lon', 'lat', 'roll', 'time', 'masked'

    def take(self, i):
        out = object.__new__(Ref)
        out.__dict__.update(self.__dict__)
        for f in self.FIELDS:
            setattr(out, f, getattr(self, f)[i].copy())
        return out

    def angles(self):
        if self.kind == 'custom':
            return np.deg2rad(90 - self.lat), np.deg2rad(self.lon), self.roll
        return self.lon, self.lat, self.roll

    def astrotime(self):
        from astropy.time import Time, TimeDelta
        t = Time([self.date], scale='utc') if isinstance(self.date, str) else self.date
        return t + TimeDelta(self.time, format='sec')

    def equatorial(self):
        v = vec(self.lon, self.lat)
        if self.kind != 'horizontal':
            return v
        return np.einsum('nij,ni->nj', self.horizon(), v)

    _cache = {}

    def horizon(self):
        k = str(self.date), self.time.tobytes()
        if k not in self._cache:
            self._cache[k] = horizontal(sidereal(self.astrotime(), LONGITUDE), LATITUDE)
        return self._cache[k]


def constructor(kind, args, keywords):
    cls, names = classes()[kind]
    if kind == 'horizontal':
        keywords = dict(keywords, latitude=LATITUDE, longitude=LONGITUDE)
    return cls(*args, **keywords)


def sampling(ref, **k):
    kind = ref.kind
    args = [_.copy() for _ in ref.angles()]
    return constructor(kind, args, dict(date_obs=ref.date, period=ref.period, masked=ref.masked.copy(), **k))


def snapshot(s):
    return {k: (v, v.copy()) if isinstance(v, np.ndarray) else (v, v) for k, v in s.__dict__.items()}


def unchanged(s, snap, what):
    require(set(s.__dict__) == set(snap), f'{what}: attributes added or removed')
    for k, (obj, val) in snap.items():
        require(s.__dict__[k] is obj, f'{what}: attribute {k} replaced')
        if isinstance(val, np.ndarray) and not (obj.dtype == val.dtype and obj.shape == val.shape and np.array_equal(obj, val, equal_nan=obj.dtype.kind == 'f')):
            raise Mismatch(f'{what}: attribute {k} modified: {val} became {obj}')


def centre(ref):
    v = vec(ref.lon, ref.lat)[~ref.masked]
    return v.sum(0)


def derived(name, s, ref):
    """ Compares a derived value. """
    n = len(ref.index)
    if name == 'time':
        same_array(np.broadcast_to(s.time, n), ref.time, 'time')
    elif name == 'index':
        eq(s.index.tolist(), ref.index.tolist(), 'index')
    elif name == 'angles':
        for k, e in zip(classes()[ref.kind][1], ref.angles()):
            same_array(np.broadcast_to(getattr(s, k), n), e, k, rtol=1e-13)
    elif name == 'spherical':
        same_array(s.spherical, np.array(ref.angles()[:2]).T.reshape(n, 2), 'spherical', rtol=1e-13)
    elif name == 'cartesian':
        near(s.cartesian, vec(ref.lon, ref.lat), 'cartesian', 1e-14)
    elif name == 'equatorial':
        if ref.kind == 'horizontal':
            near(vec(*s.equatorial.T), ref.equatorial(), 'equatorial', 1e-5)
    elif name == 'galactic':
        if ref.kind != 'custom':
            near(vec(*s.galactic.T), ref.equatorial() @ galactic().T, 'galactic', 1e-5 if ref.kind == 'horizontal' else 3e-6)
    elif name == 'velocity':
        v = vec(ref.lon, ref.lat)
        d = 2 * np.arcsin(np.minimum(np.sqrt(((v[1:] - v[:-1]) ** 2).sum(-1)) / 2, 1))
        x = s.velocity
        eq(x.tounit('rad/s').shape, (max(n - 1, 0),), 'velocity')
        with np.errstate(all='ignore'):
            same_array(np.asarray(x.tounit('rad/s')), (d / np.abs(np.diff(ref.time))).astype(float), 'velocity', rtol=1e-7)
    elif name == 'centre':
        if ref.masked.all():
            raises(ValueError, s.get_center)
            return
        c = centre(ref)
        norm = np.sqrt(c @ c)
        if norm < 1e-6:
            return
        x = np.asarray(s.get_center())
        eq(x.shape, (2,), 'centre')
        if ref.kind == 'custom':
            x = np.rad2deg(x[1]), 90 - np.rad2deg(x[0])
        near(vec(*x), c / norm, 'centre', 1e-7)
    else:
        raise KeyError(name)


DERIVED = 'index', 'time', 'angles', 'spherical', 'cartesian', 'equatorial', 'galactic', 'velocity', 'centre'


def verify(s, ref, what='', names=DERIVED):
    eq(len(s), len(ref.index), f'{what}length')
    eq(float(s.period), float(ref.period), f'{what}period')
    snap = snapshot(s)
    for name in names:
        try:
            derived(name, s, ref)
        except Mismatch as e:
            raise Mismatch(f'{what}{e}') from None
        unchanged(s, snap, f'{what}after {name}')
    same_array(np.broadcast_to(s.masked, len(s)), ref.masked, f'{what}masked')


# ---- the ways of specifying a sampling ----------------------------------------------------------------------------------------------------------
def specifications(kind, n, const):
    def scenario(ck):
        names = classes()[kind][1]
        if True:
            full = Ref(kind, n)
            if True:
                for third in ('array', 'constant', 'omitted'):
                    for how in ('positional', 'keyword', 'mixed', 'number'):
                        for tm in ('omitted', 'array', 'constant'):
                            for period in (None, 0.5):
                                for masked in (None, True, False, 'array'):
                                    for form in (np.array, list):
                                        if all(const) and third != 'array' and tm != 'array' and how != 'number' and n > 1:
                                            continue      # nothing tells the number of samples
                                        if form is list and (masked is not None or period is not None):
                                            continue
                                        if ck.quick and masked is not None and (period is not None or third == 'constant'):
                                            continue

                                        def case():
                                            a = [_.copy() for _ in full.angles()]
                                            vals = [float(x[0]) if c else form(x) for x, c in zip(a, const)]
                                            roll = {'array': form(a[2]), 'constant': 2.5, 'omitted': None}[third]
                                            times = {'omitted': None, 'array': form(np.cumsum(np.arange(1., n + 1)) * 3), 'constant': 4.}[tm]
                                            k = {}
                                            if times is not None:
                                                k['time'] = times
                                            if period is not None:
                                                k['period'] = period
                                            m = None
                                            if masked == 'array':
                                                m = np.arange(n) % 2 == 0
                                                k['masked'] = m.copy()
                                            elif masked is not None:
                                                m = np.full(n, masked)
                                                k['masked'] = masked
                                            args = []
                                            if how == 'positional':
                                                args = vals + ([roll] if roll is not None else [])
                                            elif how == 'mixed':
                                                args = vals
                                                if roll is not None:
                                                    k[names[2]] = roll
                                            else:
                                                k.update(dict(zip(names, vals)))
                                                if roll is not None:
                                                    k[names[2]] = roll
                                                if how == 'number':
                                                    args = [n]
                                            given = [(x, x.copy()) for x in (*args, *k.values()) if isinstance(x, np.ndarray)]
                                            s = constructor(kind, args, dict(k, date_obs=DATE))
                                            ref = Ref(kind, n, masked=m, time=None if times is None else np.broadcast_to(times, n),
                                                      lon=None, lat=None, roll=full.roll if third == 'array' else 2.5 if third == 'constant' else 0.)
                                            if kind == 'custom':
                                                if const[0]:
                                                    ref.lat = np.full(n, LAT[0])
                                                if const[1]:
                                                    ref.lon = np.full(n, LON[0])
                                            else:
                                                if const[0]:
                                                    ref.lon = np.full(n, LON[0])
                                                if const[1]:
                                                    ref.lat = np.full(n, LAT[0])
                                            if period is not None:
                                                ref.period = period
                                            elif tm == 'array' and n > 1:
                                                ref.period = float(np.median(np.diff(ref.time)))
                                            if times is None:
                                                ref.time = np.arange(n) * ref.period
                                            verify(s, ref, names=[_ for _ in DERIVED if _ != 'velocity' or tm != 'constant'])
                                            for x, c in given:
                                                require(np.array_equal(x, c), 'inputs left as they are')
                                            if how != 'number':
                                                return
                                            for x, _ in given:      # the sampling has its own copy
                                                x[...] = 0
                                            verify(s, ref, 'after the inputs were changed: ', names=('angles', 'time'))
                                        ck.check(f'{kind} {n} constant={const} third={third} {how} time={tm} period={period} masked={masked} {form.__name__}', case)
    return scenario


def errors(ck):
    """ What does not define a sampling is refused. """
    for kind, (cls, names) in classes().items():
        for args, k in (
            (([1., 2.],), {}), ((), {names[0]: [1., 2.]}), ((), {names[1]: 3.}), (([1., 2.], [1., 2.], 3., 4.), {}), (([1., 2.], [1., 2., 3.]), {}), (([[1., 2.]], 3.), {}),
            (([1., 2.], [1., 2.]), {'time': [1., 2., 3.]}), (([1., 2.], [1., 2.]), {'masked': [True]}), ((3,), {names[0]: [1., 2.], names[1]: [1., 2.]}),
        ):
            ck.check(f'{kind} {args} {k}', lambda: raises(ValueError, constructor, kind, args, k))
        for date in (3, 2455197.5, ['2010-01-01', '2011-01-01'][0].encode(), object()):
            ck.check(f'{kind} date {type(date).__name__}', lambda: raises(TypeError, constructor, kind, ([1.], [2.]), {'date_obs': date}))
    cls = classes()['horizontal'][0]
    for k in ({}, {'latitude': 3.}, {'longitude': 2.}):
        ck.check(f'horizontal without {k}', lambda: raises(ValueError, cls, [1.], [2.], **k))


def dates(ck):
    """ Every form of a date gives the same directions. """
    from astropy.time import Time
    ref = '2010-07-01T18:00:00', '1999-12-31T23:59:59.900', '2016-12-30T23:59:30', '2000-01-01'
    for date in ref:
        t = Time(date, scale='utc')
        forms = {'string': date, 'scalar': t, 'array': Time([date], scale='utc'), 'jd': Time(t.jd1, t.jd2, format='jd', scale='utc'), 'mjd': Time(t.mjd, format='mjd', scale='utc'), 'tai': t.tai, 'tt': t.tt, 'tai array': Time([t.tai.isot], scale='tai'), 'datetime': Time(t.datetime)}
        for form, d in forms.items():
            for n in (1, 3):
                for period in (0.25, 3600.):
                    for time in (None, 'array', 'constant'):
                        def case():
                            k = {} if time is None else {'time': 100 * np.arange(1., n + 1)} if time == 'array' else {'time': 7.}
                            s = constructor('horizontal', (LON[:n], LAT[:n]), dict(k, date_obs=d, period=period))
                            r = Ref('horizontal', n, roll=0., period=period, date=t.reshape(1), time=None if time is None else np.broadcast_to(k['time'], n))
                            require(abs((s.date_obs - t).sec).max() < 1e-4, f'date: got {s.date_obs}, expected {t}')
                            names = [_ for _ in DERIVED if _ != 'velocity' or time != 'constant']
                            verify(s, r, names=names)
                            verify(s[::-1], r.take(slice(None, None, -1)), 'reversed: ', names=names)
                        ck.check(f'{date} {form} {n} samples period={period} time={time}', case)
    for lat, lon in itertools.product((-90., -33., 0., 90.), (-180., 0., 77.5, 360.)):
        def case():
            s = classes()['horizontal'][0](LON, LAT, latitude=lat, longitude=lon, date_obs=DATE)
            r = Ref('horizontal', len(LON))
            m = horizontal(sidereal(r.astrotime(), lon), lat)
            e = np.einsum('nij,ni->nj', m, vec(LON, LAT))
            near(vec(*s.equatorial.T), e, 'equatorial', 1e-5)
            near(vec(*s.galactic.T), e @ galactic().T, 'galactic', 1e-5)
        ck.check(f'location {lat} {lon}', case)


# ---- sequences of operations ----------------------------------------------------------------------------------------------------------------------
def operations(kind):
    names = classes()[kind][1]
    ops = [('select', s) for s in (slice(None, None, 2), slice(None, None, -1), slice(1, None), slice(0, 2), slice(2, 2), ..., 0, -1, [2, 0], [1, 1], np.array([True, False, True, True]), [])]
    ops += [('set', names[0]), ('set', names[1]), ('set', names[2]), ('set', 'masked'), ('set', 'time'), ('constant', names[0]), ('constant', names[2]), ('none masked', 0), ('all masked', 0), ('period', 2.), ('copy', 0)]
    ops += [('ask', d) for d in DERIVED if d not in ('index', 'angles', 'spherical')]
    return ops


def label(op):
    return f'{op[0]} {op[1].tolist() if isinstance(op[1], np.ndarray) else op[1]}'


def histories(kind, first):
    def scenario(ck):
        ops = operations(kind)
        names = classes()[kind][1]
        for n, depth in (((4, 2),) if ck.quick else ((4, 3), (3, 2))):
            for rest in itertools.product(range(len(ops)), repeat=depth - 1):
                seq = [ops[i] for i in (first, *rest)]
                if any(o[0] == 'select' and isinstance(o[1], np.ndarray) and (n != 4 or any(p[0] == 'select' for p in seq[:j])) for j, o in enumerate(seq)):
                    continue

                def case():
                    ref = Ref(kind, n, masked=np.arange(n) == 1)
                    s = sampling(ref)
                    past = []
                    own_time = False
                    for j, (what, arg) in enumerate(seq):
                        m = len(ref.index)
                        if what == 'select':
                            if isinstance(arg, int):
                                if not -m <= arg < m:
                                    return
                                i = np.arange(m)[[arg]]
                            elif isinstance(arg, list):
                                if arg and max(arg) >= m:
                                    return
                                i = np.array(arg, int)
                            else:
                                i = np.arange(m)[arg]
                            past.append((s, ref, snapshot(s)))
                            s, ref = s[arg], ref.take(i)
                            if s is past[-1][0]:
                                past.pop()
                        elif what == 'copy':
                            past.append((s, ref, snapshot(s)))
                            s, ref = s.copy(), ref.take(slice(None))
                            for k, v in s.__dict__.items():
                                if isinstance(v, np.ndarray) and v.size:
                                    require(not np.may_share_memory(v, past[-1][0].__dict__[k]), f'{k} is copied')
                        elif what == 'set':
                            v = np.arange(m) * 1.5 + j + 1
                            ref = ref.take(slice(None))
                            if arg == 'masked':
                                v = np.arange(m) % 2 == j % 2
                                ref.masked = v.copy()
                            elif arg == 'time':
                                ref.time = v.copy()
                                own_time = True
                            else:
                                i = names.index(arg)
                                if kind == 'custom' and i < 2:
                                    v = v / 10
                                    setattr(ref, ('lat', 'lon')[i], 90 - np.rad2deg(v) if i == 0 else np.rad2deg(v))
                                else:
                                    setattr(ref, ('lon', 'lat', 'roll')[i], v.copy())
                            drop(past, s)
                            setattr(s, arg, v)
                        elif what == 'constant':
                            ref = ref.take(slice(None))
                            i = names.index(arg)
                            if kind == 'custom' and i == 0:
                                ref.lat = np.full(m, 90 - np.rad2deg(1.25))
                            else:
                                setattr(ref, ('lon', 'lat', 'roll')[i], np.full(m, 1.25))
                            # a constant is assigned in place, and a selection by slices is a view
                            past = [p for p in past if not any(isinstance(v, np.ndarray) and np.may_share_memory(v, s.__dict__.get(arg)) for v in p[0].__dict__.values())]
                            drop(past, s)
                            setattr(s, arg, 1.25)
                        elif what in ('none masked', 'all masked'):
                            ref = ref.take(slice(None))
                            v = what == 'all masked'
                            ref.masked = np.full(m, v)
                            drop(past, s)
                            past = [p for p in past if not np.may_share_memory(p[0].__dict__['masked'], s.__dict__['masked'])]
                            s.masked = v
                        elif what == 'period':
                            ref = ref.take(slice(None))
                            ref.period = arg
                            if not own_time:
                                ref.time = ref.index * arg
                            drop(past, s)
                            s.period = arg
                        else:
                            derived(arg, s, ref)
                        verify(s, ref, f'step {j + 1}: ', names=DERIVED if j + 1 == len(seq) else ('index', 'time', 'angles'))
                        for o, r, snap in past:
                            unchanged(o, snap, f'step {j + 1}, earlier sampling')
                            verify(o, r, f'step {j + 1}, earlier sampling: ', names=('time', 'spherical'))
                    ck.state((kind, n, [getattr(ref, f).tolist() for f in ref.FIELDS], ref.period))
                ck.check(f'{kind} {n}: ' + ', '.join(map(label, seq)), case, steps=len(seq))
    return scenario


def drop(past, s):
    past[:] = [p for p in past if p[0] is not s]


def stored(ck):
    """ Directions assigned by the user are used and never modified. """
    for kind in classes():
        for attr in ('spherical', 'cartesian'):
            for masked in (False, True, [True, False, False], [False, False, True]):
                for ask in itertools.product(('cartesian', 'spherical', 'equatorial', 'galactic', 'velocity', 'centre'), repeat=2):
                    def case():
                        ref = Ref(kind, 3, masked=np.broadcast_to(masked, 3))
                        s = constructor(kind, [0 * _ for _ in ref.angles()], {'date_obs': DATE, 'masked': masked})
                        v = np.array(ref.angles()[:2]).T.copy() if attr == 'spherical' else vec(ref.lon, ref.lat).astype(float)
                        setattr(s, attr, v)
                        for name in ask:
                            if attr == 'cartesian' and name not in ('cartesian', 'velocity', 'centre'):
                                continue
                            snap = snapshot(s)
                            derived(name, s, ref)
                            unchanged(s, snap, f'after {name}')
                    ck.check(f'{kind} {attr} {masked} {ask}', case)


def centres(ck):
    """ The centre is the direction of the mean of the valid pointings, whatever their order. """
    top = 5 if ck.quick else 6
    for kind in classes():
        for n in range(1, top + 1):
            for bits in itertools.product((False, True), repeat=n):
                def case():
                    ref = Ref(kind, n, masked=bits)
                    verify(sampling(ref), ref, names=('centre',))
                ck.check(f'{kind} {bits}', case)
        for perm in itertools.permutations(range(4)):
            def case():
                ref = Ref(kind, 4).take(list(perm))
                ref.index = np.arange(4)
                verify(sampling(ref), ref, names=('centre', 'cartesian'))
            ck.check(f'{kind} order {perm}', case)
        for lon, lat in itertools.product((0., 90., 180., 359.999, -20.), (-90., -89.9999, 0., 45., 89.9999, 90.)):
            for n in (1, 2, 3):
                def case():
                    ref = Ref(kind, n, lon=lon, lat=lat)
                    verify(sampling(ref), ref, names=('centre',))
                ck.check(f'{kind} {n} samples at {lon} {lat}', case)


def distributed(size):
    def scenario(ck):
        """ Every process has its samples, and the centre of them all. """
        from mc.fakempi import explore
        for kind in classes():
            for n in range(1, 6):
                for bits in itertools.product((False, True), repeat=n) if n <= (4 if ck.quick else 5) else [(False,) * n, (True,) + (False,) * (n - 1)]:
                    for scalar in (False, True):
                        if scalar and len(set(bits)) > 1:
                            continue

                        def case():
                            def body(comm):
                                ref = Ref(kind, n, masked=bits)
                                s = sampling(ref)
                                if scalar:
                                    s = constructor(kind, ref.angles(), {'masked': bits[0], 'date_obs': DATE})
                                s = s.scatter(comm)
                                local = ref.take(s.index)
                                verify(s, local, names=[_ for _ in DERIVED if _ != 'centre' and (len(s) or _ in ('index', 'time'))])
                                try:
                                    c = s.get_center()
                                except ValueError:
                                    c = None
                                return s.index.tolist(), c

                            def verdict(res):
                                eq([i for r in res for i in r[0]], list(range(n)), 'samples of the processes')
                                ref = Ref(kind, n, masked=bits)
                                for _, c in res:
                                    if all(bits):
                                        require(c is None, 'no centre')
                                        continue
                                    require(c is not None, 'centre')
                                    x = (np.rad2deg(c[1]), 90 - np.rad2deg(c[0])) if kind == 'custom' else c
                                    v = centre(ref)
                                    near(vec(*x), v / np.sqrt(v @ v), 'centre', 1e-7)
                            st = explore(size, body, verdict, tick=ck.tick_case, cap=100000)
                            ck.count('schedules', st['executions'])
                            ck.transitions += st['events']
                        ck.check(f'{kind} {n} samples on {size} {bits} scalar={scalar}', case)
    return scenario


def scenarios(tier):
    q = tier == 'quick'
    kinds = 'horizontal', 'equatorial', 'custom'
    s = [(f'specifications {k} {n} {c}', specifications(k, n, c)) for k in kinds for n in ((1, 2, 3) if q else (1, 2, 3, 4)) for c in itertools.product((False, True), repeat=2)]
    s += [(f'histories {k} {label(op)}', histories(k, i)) for k in kinds for i, op in enumerate(operations(k))]
    s += [(f'distributed {k}', distributed(k)) for k in ((4, 3, 2, 1) if q else (5, 4, 3, 2, 1))]
    return s + [('dates', dates), ('centres', centres), ('stored', stored), ('errors', errors)]
