"""
C07: unit conversion is exact, reversible and independent of history.

An independent table gives the value of each unit in base units.  Histories of conversions, failures, definitions, copies and
selections on quantities with conflicting derived units are enumerated: each conversion has to be that of a fresh quantity, and the unit table
has to stay as it was.
"""
import itertools
import math

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C07'
TECHNIQUE = 'exhaustive enumeration of pairs of units, ways of writing them, layouts and keys, and of every history of conversions, definitions, copies and selections up to a depth, executed on the implementation against an independent unit table'
NOTE = (
    'Derived units which vary along the elements follow selections; they do not follow transpositions, reshapes and reductions (not claimed). Definitions added to the global table '
    'are meant to apply to every quantity.'
)
BOUNDS = (
    'the 44 units of the package with exponents -2 to 3 and 60 composite units, each converted to each; 8 memory layouts and 3 types; 12 scalar, broadcast, nested and callable '
    'sets of derived units on 1 to 3 dimensions and every sequence of two selections among 25 keys; every history of 3 (quick) or 4 (thorough) events among 22 on quantities with '
    'conflicting definitions; the pixels of gnomonic maps of 3 shapes and 3 resolutions, 4 directions, 3 orientations and 3 reference pixels'
)

PI = math.pi
BASE = {
    'A': (1, 'A'), 'cd': (1, 'cd'), 'K': (1, 'K'), 'kg': (1, 'kg'), 'm': (1, 'm'), 'mol': (1, 'mol'), 'rad': (1, 'rad'), 's': (1, 's'), 'sr': (1, 'rad^2'),
    "'": (PI / 10800, 'rad'), '"': (PI / 648000, 'rad'), 'arcmin': (PI / 10800, 'rad'), 'arcsec': (PI / 648000, 'rad'), 'deg': (PI / 180, 'rad'),
    'uJy': (1e-32, 'kg s^-2'), 'mJy': (1e-29, 'kg s^-2'), 'Jy': (1e-26, 'kg s^-2'), 'MJy': (1e-20, 'kg s^-2'), 'N': (1, 'kg m s^-2'), 'Hz': (1, 's^-1'), 'J': (1, 'kg m^2 s^-2'),
    'AU': (149597870700., 'm'), 'km': (1e3, 'm'), 'mm': (1e-3, 'm'), 'um': (1e-6, 'm'), 'pc': (30.857e15, 'm'), 'W': (1, 'kg m^2 s^-3'),
    'atm': (101325., 'kg m^-1 s^-2'), 'bar': (1e5, 'kg m^-1 s^-2'), 'mmHg': (101325 / 760, 'kg m^-1 s^-2'), 'cmHg': (1013250 / 760, 'kg m^-1 s^-2'),
    'Pa': (1, 'kg m^-1 s^-2'), 'Torr': (101325 / 760, 'kg m^-1 s^-2'), 'Ohm': (1, 'kg m^2 A^-2 s^-3'), 'ms': (1e-3, 's'), 'us': (1e-6, 's'), 'C': (1, 'A s'), 'V': (1, 'kg m^2 A^-1 s^-3'),
    'kloug': (1, 'kloug'), '?': (1, '?'), 'detector': (1, 'detector'), 'pixel': (1, 'pixel'), 'pixel_reference': (1, 'pixel'),
}


def dims_of(text):
    d = {}
    for w in text.split():
        n, _, e = w.partition('^')
        d[n] = d.get(n, 0) + float(e or 1)
    return d


def value(parts, extra={}):
    """ parts: ((name, exponent), ...) -> factor, dimensions """
    f, d = 1., {}
    for n, e in parts:
        x, t = extra.get(n) or BASE[n]
        f *= x ** e
        for k, v in dims_of(t).items():
            d[k] = d.get(k, 0) + e * v
    return f, {k: round(v, 9) for k, v in d.items() if abs(v) > 1e-9}


def write(parts, style):
    """ The ways of writing a unit. """
    if style == 'powers':
        return ' '.join(f'{n}^{e}' for n, e in parts)
    if style == 'stars':
        return '*'.join(n if e == 1 else f'{n}^{e}' for n, e in parts)
    if style == 'slashes':
        pos = [(n, e) for n, e in parts if e > 0]
        neg = [(n, e) for n, e in parts if e < 0]
        out = ' '.join(n if e == 1 else f'{n}^{e}' for n, e in pos)
        for n, e in neg:
            out += (' / ' if out else '/') + (n if e == -1 else f'{n}^{-e}')
        return out
    if style == 'tight':
        return ''.join(('/' if e < 0 else '*' if i else '') + n + (f'^{abs(e)}' if abs(e) != 1 else '') for i, (n, e) in enumerate(parts))
    if style == 'split':    # each power written as a product of the unit by itself
        out = []
        for n, e in parts:
            if e == int(e):
                out += [n if e > 0 else f'{n}^-1'] * int(abs(e))
            else:
                out.append(f'{n}^{e}')
        return ' '.join(out)
    if style == 'floats':
        return '  '.join(f'{n}^{float(e)}' for n, e in parts) + ' '
    if style == 'cancel':
        return write(parts, 'powers') + ' km mmHg / km / mmHg'
    if style == 'zero':
        return write(parts, 'powers') + ' kloug^0'


STYLES = ['powers', 'stars', 'slashes', 'tight', 'split', 'floats', 'cancel', 'zero']

COMPOSITES = [
    (('W', 1), ('Hz', -1), ('m', -2)), (('MJy', 1), ('sr', -1)), (('uJy', 1), ('arcsec', -2)), (('Jy', 1), ('deg', -1), ('arcmin', -1)), (('km', 1), ('s', -1)), (('m', 1), ('ms', -1)),
    (('kg', 1), ('m', 1), ('s', -2)), (('km', 2),), (('km', 1), ('mm', 1)), (('pc', 3),), (('AU', 1), ('pc', 2)), (('deg', 2),), (('arcmin', 1), ('arcsec', 1)), (('rad', 2),), (('sr', 1),), (('rad', 1), ('sr', 1)),
    (('rad', 3),), (('sr', 1), ('deg', -1)), (('sr', 2),), (('deg', 4),), (('deg', 2), ('arcmin', 2)), (('V', 1), ('A', 1)), (('V', 2), ('Ohm', -1)), (('W', 1),), (('C', 1), ('V', 1), ('s', -1)),
    (('J', 1), ('s', -1)), (('N', 1), ('km', 1), ('s', -1)), (('Pa', 1), ('m', 3), ('us', -1)), (('Hz', 1),), (('s', -1),), (('ms', -1),), (('Hz', -1),), (('Hz', .5),), (('km', .5),), (('m', 1.5), ('mm', -1)),
    (('Jy', .5),), (('?', 1),), (('?', 1), ('detector', -1)), (('kloug', 1),), (('kloug', 2), ('kloug', -1)), (('detector', 1),), (('W', 1), ('Hz', -.5)), (('W', 2), ('Hz', -1)), (('sr', .5),), (('deg', 1),),
    (('deg', -2),), (('sr', -1),), (('deg', -1), ('rad', -1)), (('K', 1),), (('mol', 1), ('cd', -1)), (('m', -1), ('km', 1)), (('deg', 1), ('rad', -1)), (('pixel', 1),), (('Jy', 1), ('pixel', -1)), (('MJy', 1), ('pixel_reference', -1)),
    (('bar', 1),), (('Torr', 1),), (('atm', 1), ('mmHg', -1)), (('AU', 2), ('pc', -1)), (('"', 2),), (("'", 1), ('"', 1)),
]
SINGLES = [((n, e),) for n in BASE for e in (1, -1, 2, -2, 3)]


def snapshot(q):
    return q.unit, np.array(q.view(np.ndarray)).tobytes(), q.shape, q.dtype.str, tuple(q.derived_units.items())


def layouts(dt=float):
    a = np.array([[1.25, -3., 7.], [.5, 1e3, 2.]], dt)
    big = np.zeros((4, 6), dt)
    big[::2, ::2] = a
    yield 'scalar', a[0, 0].reshape(()).copy()
    yield 'vector', a[0].copy()
    yield 'C', a.copy()
    yield 'F', np.asfortranarray(a)
    yield 'strided', big[::2, ::2]
    yield 'reversed', a.copy()[:, ::-1]
    yield 'T', a.copy().T
    yield 'empty', np.zeros((0, 3), dt)


def convert(p1, p2, layout='scalar', dt=float):
    from pysimulators import Quantity, UnitError
    (f1, d1), (f2, d2) = value(p1), value(p2)
    u1, u2 = write(p1, 'slashes'), write(p2, 'slashes')
    a = dict(layouts(dt))[layout]
    ref = a.copy()
    q = Quantity(a, u1, copy=False) if layout != 'scalar' else Quantity(a, u1)
    rtol = 1e-12 if np.dtype(dt).itemsize >= 8 else 1e-5
    if np.dtype(dt).itemsize < 8 and not all(1e-30 < f < 1e30 for f in (f1 / f2, f1, f2)):
        return
    snap = snapshot(q)
    unitless1, unitless2 = not q.unit, not Quantity(1, u2).unit
    if not unitless1 and not unitless2 and d1 != d2:
        raises(UnitError, q.tounit, u2)
        eq(snapshot(q), snap, 'after a failed conversion')
        raises(UnitError, q.inunit, u2)
        eq(snapshot(q), snap, 'after a failed conversion in place')
        return
    factor = 1. if unitless1 or unitless2 else f1 / f2
    r = q.tounit(u2)
    eq(snapshot(q), snap, 'tounit: operand')
    require(not np.shares_memory(r, q), 'the converted quantity shares its memory')
    require(type(r) is Quantity, 'type')
    eq(r.unit, Quantity(1, u2).unit, 'unit')
    same_array(r.magnitude, ref * factor, f'{u1!r} in {u2!r}', dtype=dt, rtol=rtol)
    # in place: same memory
    view = q.magnitude
    require(q.inunit(u2) is None, 'inunit returns something')
    require(np.shares_memory(view, q) or not q.size, 'not in place')
    same_array(view, ref * factor, f'{u1!r} in place in {u2!r}', rtol=rtol)
    eq(q.unit, r.unit, 'unit')
    if not (unitless1 or unitless2):
        q.inunit(u1)
        same_array(q.magnitude, ref, 'back to the first unit', rtol=2 * rtol)
        eq(q.unit, snap[0], 'back')
        # the SI form
        s = q.SI
        same_array(s.magnitude, ref * f1, 'SI', rtol=rtol)
        eq(s.SI.unit, s.unit, 'SI twice')
        same_array(s.SI.magnitude, s.magnitude, 'SI twice', rtol=rtol)
        if s.unit:
            same_array(s.tounit(u2).magnitude, ref * factor, 'SI then unit', rtol=rtol)


def styles(parts, s1, s2):
    from pysimulators import Quantity
    f, d = value(parts)
    q1, q2 = Quantity(3., write(parts, s1)), Quantity(3., write(parts, s2))
    eq(q1.unit, q2.unit, f'{s1} and {s2}')
    # the string is understood back, and so is a dictionary
    eq(Quantity(3., q1.unit).unit, q1.unit, 'unit read back')
    q1.unit = q2._unit
    eq(q1.unit, q2.unit, 'dictionary')
    if q1.unit:
        same_array(q1.SI.magnitude, 3 * f, 'SI', rtol=1e-12)
        same_array(q1.tounit(write(parts, s2)).magnitude, 3., 'same unit', rtol=1e-13)


def invalid(text):
    from pysimulators import Quantity
    exc = (ValueError, TypeError)
    raises(exc, Quantity, 1., text)
    q = Quantity([1., 2.], 'km')
    snap = snapshot(q)
    raises(exc, q.tounit, text)
    raises(exc, q.inunit, text)
    raises(exc, setattr, q, 'unit', text)
    eq(snapshot(q), snap, 'after an error')


def pairs(ck, firsts, seconds, layout='scalar', dt=float):
    for p1, p2 in itertools.product(firsts, seconds):
        ck.check((write(p1, 'slashes'), write(p2, 'slashes'), layout, np.dtype(dt).name), convert, p1, p2, layout, dt)


def all_styles(ck):
    for parts in COMPOSITES + SINGLES:
        for s1, s2 in itertools.combinations_with_replacement(STYLES, 2):
            if 'tight' in (s1, s2) and parts[0][1] < 0:
                pass
            ck.check((parts, s1, s2), styles, parts, s1, s2)
    for text in ['m/', '/', 'm//s', 'm^', 'm^a', '(m)', '3 m', 'm + s', 'm^2^3', 3, 1.5, ['m'], 'm^--1', '%', '$']:
        ck.check(('invalid', text), invalid, text)


# -- derived units ----------------------------------------------------------------------

def q_(v, u):
    from pysimulators import Quantity
    return Quantity(v, u)


def du_sets():
    """ name -> (derived units factory, {unit: (function of the shape -> factor array, base)}), for arrays of shape (2, 3) """
    det = np.array([2., .25])
    smp = np.array([1., .5, 3.])
    both = np.array([[1., 2., 4.], [3., 5., 7.]])
    return {
        'scalar': (lambda: {'det': q_(2., 'm^2')}, {'det': (2., 'm^2')}),
        'scaled': (lambda: {'det': q_(2., 'km mm')}, {'det': (2., 'm^2')}),
        'right': (lambda: {'det[rightward]': q_(det, 'km^2')}, {'det': (det[:, None] * 1e6, 'm^2')}),
        'left': (lambda: {'det[leftward]': q_(smp, 'mm^2')}, {'det': (smp * 1e-6, 'm^2')}),
        'full left': (lambda: {'det[leftward]': q_(both, 'm^2')}, {'det': (both, 'm^2')}),
        'full right': (lambda: {'det[rightward]': q_(both, 'm^2')}, {'det': (both, 'm^2')}),
        'two': (lambda: {'det[rightward]': q_(det, 'm^2'), 'smp[leftward]': q_(smp, 's')}, {'det': (det[:, None], 'm^2'), 'smp': (smp, 's')}),
        'nested': (lambda: {'det': q_(2., 'bra'), 'bra': q_(3., 'bri'), 'bri[rightward]': q_(det, 'm^2')}, {'det': (6 * det[:, None], 'm^2')}),
        'callable': (lambda: {'det': lambda x: q_(4., 'm^2')}, {'det': (4., 'm^2')}),
        'callable left': (lambda: {'det[leftward]': lambda x: q_(4., 'm^2')}, {'det': (4., 'm^2')}),
        'callable right': (lambda: {'det[rightward]': lambda x: q_(np.resize(3., x.shape[:1]), 'm^2')}, {'det': (3., 'm^2')}),
        'override': (lambda: {'Jy': q_(5., 'm^2'), 'det': q_(2., 'Jy')}, {'det': (10., 'm^2'), 'Jy': (5., 'm^2')}),
        'length one': (lambda: {'det[leftward]': q_(smp[:1] * 5, 'm^2')}, {'det': (5., 'm^2')}),
        'unitless': (lambda: {'det[rightward]': q_(det, '')}, {'det': (det[:, None], '')}),
    }


SH = (2, 3)
DATA = np.array([[1., 2., 3.], [10., 20., 30.]])


def derived(name, e, extra, target):
    """ Conversions of det^e times another unit. """
    from pysimulators import Quantity, UnitError
    make, table = du_sets()[name]
    u1 = f'det^{e}' + (f' {extra}' if extra else '')
    if target == 'smp' and 'smp' not in table:
        return
    f, base = table['det']
    du = make()
    du_keys = list(du)
    q = Quantity(DATA, u1, du)
    require(q.derived_units is not du, 'the dictionary is shared')
    snap = snapshot(q)
    table_snap = units_snapshot()
    factor = np.asarray(f, float) ** e
    fx, dx = value(((extra, 1),)) if extra else (1., {})
    s = q.SI
    same_array(s.magnitude, np.broadcast_to(DATA * factor * fx, SH), 'SI', rtol=1e-12)
    tu = (f'km^{2 * e}' if base else '') + (f' {extra}' if extra else '')
    if tu:
        r = q.tounit(tu)
        same_array(r.magnitude, np.broadcast_to(DATA * factor / (1e6 ** e if base else 1), SH), f'{u1} in {tu}', rtol=1e-12)
        eq(list(r.derived_units), du_keys, 'derived units of the result')
        # and back, with the derived units of the result
        back = r.tounit(u1)
        same_array(back.magnitude, DATA, 'back', rtol=1e-12)
        r.inunit(u1)
        same_array(r.magnitude, DATA, 'back in place', rtol=1e-12)
    raises(UnitError, q.tounit, f'K^{e}' + (f' {extra}' if extra else ''))
    raises(UnitError, q.inunit, f'K^{e}' + (f' {extra}' if extra else ''))
    if target == 'smp':
        r = Quantity(DATA, 'smp det', du)
        same_array(r.tounit('ms m^2').magnitude, DATA * factor ** (1 / e) * table['smp'][0] * 1e3, 'two derived units', rtol=1e-12)
        r = Quantity(DATA, 'smp / det', du)
        same_array(r.tounit('ms m^-2').magnitude, DATA / factor ** (1 / e) * table['smp'][0] * 1e3, 'two derived units', rtol=1e-12)
    eq(snapshot(q), snap, 'operand')
    eq(units_snapshot(), table_snap, 'unit table')
    # the same unit elsewhere is not defined
    other = Quantity(1., 'det')
    raises(UnitError, other.tounit, 'm^2')
    for k, v in du.items():
        if hasattr(v, '_unit'):
            eq(v.derived_units, {}, 'derived units of the definition')


KEYS = [
    0, 1, -1, (0, slice(None)), (slice(None), 1), (slice(None), slice(1, None)), (slice(None), slice(None, None, -1)), slice(None, None, -1), slice(1, 2), slice(0, 0),
    (Ellipsis, 0), (0, Ellipsis), (Ellipsis, slice(1, 3)), (slice(1, None), Ellipsis), Ellipsis, (Ellipsis, 0, slice(None)), [1], [1, 0], [0, 0, 1], (slice(None), [2, 0]), (1, [0, 2]),
    np.array([False, True]), (slice(None), np.array([True, False, True])), 'mask', (None, 1), (slice(None), None),
]


def index(a, key):
    if isinstance(key, str):
        return a[(np.arange(a.size).reshape(a.shape) % 2 == 1) if a.ndim else ()]
    return a[key]


def selection(name, keys):
    from pysimulators import Quantity
    make, table = du_sets()[name]
    f, base = table['det']
    factor = np.broadcast_to(np.asarray(f, float), SH)
    ref, fac = DATA, factor
    try:
        for k in keys:
            ref, fac = index(ref, k), index(fac, k)
    except IndexError:
        return
    q = Quantity(DATA.copy(), 'det', make())
    before = snapshot(q)
    for k in keys:
        q0 = q
        q = index(q, k)
        if not isinstance(q, Quantity):
            return      # scalar: plain number
    same_array(q.magnitude, ref, 'selection')
    s = q.SI
    same_array(s.magnitude, ref * fac, 'SI of the selection', rtol=1e-12)
    if base:
        t = q.tounit('mm^2')
        same_array(t.magnitude, ref * fac * 1e6, 'conversion of the selection', rtol=1e-12)
        same_array(t.tounit('det').magnitude, ref, 'back', rtol=1e-12)
    for k, v in q.derived_units.items():
        if hasattr(v, 'ndim') and '[' not in k:
            require(v.ndim == 0 and isinstance(v, Quantity), f'derived unit {k}: {v!r}')


def selections(ck, name):
    for k in KEYS:
        ck.check((name, k), selection, name, (k,))
    for k1, k2 in itertools.product(KEYS, KEYS):
        ck.check((name, k1, k2), selection, name, (k1, k2))


def all_derived(ck):
    for name, e, extra, t in itertools.product(du_sets(), [1, -1, 2, -2, .5], ['', 's', 'Hz', 'ms'], ['', 'smp']):
        ck.check((name, e, extra, t), derived, name, e, extra, t)


# -- headers ------------------------------------------------------------------------------

def pixel_areas(shape, cdelt, crval, pa, crpix, cd, cls):
    """ The pixels of a gnomonic map do not have the same solid angle: they cover cos^3 of their distance to the tangent point. """
    import pysimulators
    from astropy.io import fits
    from astropy.wcs import WCS
    a = np.radians(pa)
    h = fits.Header()
    h['SIMPLE'], h['BITPIX'], h['NAXIS'] = True, -64, 2
    h['NAXIS1'], h['NAXIS2'] = shape[::-1]
    h['CTYPE1'], h['CTYPE2'] = 'RA---TAN', 'DEC--TAN'
    h['CRVAL1'], h['CRVAL2'] = crval
    h['CRPIX1'], h['CRPIX2'] = crpix
    h['CUNIT1'] = h['CUNIT2'] = 'deg'
    if cd:
        h['CD1_1'], h['CD1_2'], h['CD2_1'], h['CD2_2'] = -cdelt * np.cos(a), cdelt * np.sin(a), cdelt * np.sin(a), cdelt * np.cos(a)
    else:
        h['CDELT1'], h['CDELT2'], h['CROTA2'] = -cdelt, cdelt, pa
    y, x = np.indices(shape)
    lon, lat = np.radians(WCS(h).all_pix2world(x.ravel(), y.ravel(), 0))
    lon0, lat0 = np.radians(crval)
    cos = np.sin(lat) * np.sin(lat0) + np.cos(lat) * np.cos(lat0) * np.cos(lon - lon0)
    scale = (cos ** 3).reshape(shape)
    values = 1. + np.arange(scale.size).reshape(shape)
    m = getattr(pysimulators, cls)(values, header=h, unit='Jy / pixel')
    before = units_snapshot()
    area = np.radians(cdelt) ** 2
    for target, factor in (('Jy / pixel_reference', 1 / scale), ('Jy / sr', 1 / scale / area), ('uJy / arcmin^2', 1e6 / scale / area * (PI / 10800) ** 2), ('Jy / pixel', np.ones(shape))):
        r = m.tounit(target)
        require(type(r) is type(m), 'type')
        same_array(r.magnitude, values * factor, target, rtol=1e-9)
        same_array(r.tounit('Jy / pixel').magnitude, values, f'{target} and back', rtol=1e-12)
    same_array(m.magnitude, values, 'the map has not changed')
    total = (m.tounit('Jy / sr').magnitude * scale * area).sum()
    require(abs(total / values.sum() - 1) < 1e-9, 'flux')
    eq(units_snapshot(), before, 'unit table')


def header_units(cd, cunit, cls, npix):
    import pysimulators
    from astropy.io import fits
    Q = pysimulators.Quantity
    h = fits.Header()
    h['SIMPLE'] = True
    h['BITPIX'] = -64
    h['NAXIS'] = 2
    h['NAXIS1'], h['NAXIS2'] = npix[::-1]
    f = 1
    if cunit:
        h['CUNIT1'] = h['CUNIT2'] = cunit
    per = BASE[cunit or 'deg'][0]
    if cd:
        h['CD1_1'], h['CD1_2'], h['CD2_1'], h['CD2_2'] = -.1, .02, .03, .2
        f = abs(-.1 * .2 - .02 * .03) * per ** 2
    else:
        h['CDELT1'], h['CDELT2'] = -.1, .2
        f = .02 * per ** 2
    m = getattr(pysimulators, cls)(np.ones(npix), header=h, unit='Jy / pixel_reference')
    other = getattr(pysimulators, cls)(np.ones(npix), unit='Jy / pixel_reference')
    before = units_snapshot()
    for target, t in (('Jy / sr', 1.), ('Jy / arcsec^2', (PI / 648000) ** 2), ('uJy / arcmin^2', (PI / 10800) ** 2 * 1e6)):
        r = m.tounit(target)
        same_array(r.magnitude, np.full(npix, t / f), target, rtol=1e-12)
        require(type(r) is type(m), 'type')
        eq(r.header, m.header, 'header')
        same_array(r.tounit('Jy/pixel_reference').magnitude, np.ones(npix), 'back', rtol=1e-12)
    # without header, and after the conversions above, the unit is not defined
    raises(pysimulators.UnitError, other.tounit, 'Jy / sr')
    raises(pysimulators.UnitError, Q(1., 'Jy / pixel_reference').tounit, 'Jy / sr')
    same_array(Q(3., 'Jy/pixel').tounit('Jy/pixel_reference').magnitude, 3., 'pixels without header')
    eq(units_snapshot(), before, 'unit table')
    s = m[0]
    same_array(s.tounit('Jy/sr').magnitude, np.full(npix[1], 1 / f), 'row', rtol=1e-12)


def headers(ck):
    for cd, cunit, cls, npix in itertools.product([False, True], ['', 'deg', 'arcmin', 'rad'], ['FitsArray', 'Map'], [(2, 3), (3, 2), (1, 1)]):
        ck.check((cd, cunit, cls, npix), header_units, cd, cunit, cls, npix)


def areas(cdelt, cd):
    def scenario(ck):
        for shape, crval, pa, crpix, cls in itertools.product(
                [(1, 1), (2, 3), (4, 2)], [(0., 0.), (10., 20.), (200., -89.), (359., 90.)], [0., 30., -120.], [(1., 1.), (1.5, 2.), (-2., 4.)], ['FitsArray', 'Map']):
            if cls == 'Map' or shape == (2, 3) and (not ck.quick or pa == 30.):
                ck.check((shape, cdelt, crval, pa, crpix, cd, cls), pixel_areas, shape, cdelt, crval, pa, crpix, cd, cls)
    return scenario


# -- histories ------------------------------------------------------------------------------

def units_snapshot():
    from pysimulators.quantities import units
    out = []
    for k, v in units.items():
        if isinstance(v, np.ndarray):
            out.append((k, v.unit, v.tobytes(), tuple(v._derived_units), getattr(v, '_header', None)))
        else:
            out.append((k, v))
    return tuple(out)


class World:
    """ Quantities a, b, c with conflicting definitions of the same units, next to their physical model. """

    def __init__(self):
        from pysimulators import Quantity
        self.Q = Quantity
        self.defs = {'a': {'det': 2., 'Jy': None}, 'b': {'det': 3.}, 'c': {}}
        # a: own det and Jy; b: own det; c: none
        self.q = {
            'a': Quantity([1., 2.], 'det', {'det': Quantity(2., 'm^2'), 'Jy': Quantity(7., 's')}),
            'b': Quantity([3., 5.], 'det / s', {'det[leftward]': Quantity([3., 4.], 'km mm')}),
            'c': Quantity([7., 11.], 'Jy'),
        }
        # magnitude in base units of each element, kept by the model
        self.si = {'a': np.array([2., 4.]), 'b': np.array([9., 20.]), 'c': np.array([7e-26, 11e-26])}
        self.det = {'a': np.array([2., 2.]), 'b': np.array([3., 4.]), 'c': None}
        self.fold = {'a': 7., 'b': 1e-26, 'c': 1e-26}       # Jy
        self.table = units_snapshot()

    def check(self, what):
        from pysimulators import UnitError
        eq(units_snapshot(), self.table, f'{what}: unit table')
        for k, q in self.q.items():
            same_array(q.SI.magnitude, self.si[k], f'{what}: {k}', rtol=1e-12)
            probe = self.Q(np.ones(q.shape), 'det', q.derived_units)
            if self.det[k] is None:
                raises(UnitError, probe.tounit, 'mm^2')
            else:
                same_array(probe.tounit('mm^2').magnitude, 1e6 * np.broadcast_to(self.det[k], q.shape), f'{what}: definition of {k}', rtol=1e-12)
            probe = self.Q(np.ones(q.shape), 'MJy', q.derived_units)
            same_array(probe.SI.magnitude, np.full(q.shape, 1e6 * self.fold[k]), f'{what}: Jy of {k}', rtol=1e-12)


EVENTS = [
    ('to', 'a', 'mm^2'), ('in', 'a', 'km^2'), ('in', 'a', 'det'), ('in', 'b', 'm^2 / ms'), ('to', 'b', 'det Hz'), ('in', 'c', 'mJy'), ('fail', 'a', 'K'), ('fail', 'b', 'm'), ('fail', 'c', 'det'),
    ('copy', 'a', 'c'), ('copy', 'b', 'a'), ('define', 'c', 5.), ('define', 'a', 11.), ('setdict', 'c', 6.), ('reverse', 'b', None), ('reverse', 'a', None), ('view', 'a', 'b'), ('SI', 'b', None), ('mul', 'c', 'a'), ('clear', 'a', None),
    ('global', 'Jy', None), ('twice', 'c', None), ('pickle', 'b', None),
]


def event(w, e):
    from pysimulators import UnitError
    from pysimulators.quantities import units
    kind, x, y = e
    q, Q = w.q, w.Q
    if kind == 'to':
        if w.det[x] is None and ('det' in y or 'det' in q[x].unit) or _dims(w, x, y):
            return
        q[x] = q[x].tounit(y)
    elif kind == 'in':
        if _dims(w, x, y):
            return
        q[x].inunit(y)
    elif kind == 'fail':
        snap = snapshot(q[x])
        if y == 'det' and w.det[x] is not None:
            return
        raises(UnitError, q[x].tounit, y)
        raises(UnitError, q[x].inunit, y)
        eq(snapshot(q[x]), snap, f'{e}: operand')
    elif kind == 'copy':
        q[y] = q[x].copy()
        w.si[y], w.det[y], w.fold[y] = w.si[x], w.det[x], w.fold[x]
    elif kind == 'define':
        if 'det' in q[x].unit or 'det[leftward]' in q[x].derived_units:
            return
        q[x].derived_units['det'] = Q(y, 'm^2')
        w.det[x] = np.full(2, y)
    elif kind == 'setdict':
        if 'det' in q[x].unit or w.fold[x] == 7. and any(u in q[x].unit for u in ('Jy', 'mJy')):
            return
        d = {'det': Q(y, 'm^2')}
        if w.fold[x] == 7.:
            return
        q[x].derived_units = d
        d['det'] = Q(99., 's')      # the caller's dictionary is not that of the quantity
        w.det[x] = np.full(2, y)
    elif kind == 'reverse':
        q[x] = q[x][::-1]
        w.si[x] = w.si[x][::-1]
        w.det[x] = None if w.det[x] is None else w.det[x][::-1]
    elif kind == 'view':
        # the derived units of a view are its own; its elements are shared: not modified afterwards
        v = q[x][:]
        v.derived_units['det'] = Q(13., 'm^2')
        v.derived_units.pop('det[leftward]', None)
    elif kind == 'SI':
        q[x] = q[x].SI
    elif kind == 'mul':
        r = q[x] * q[y]
        r.derived_units['mine'] = Q(1., 'm')
        r.inunit(r.unit)
    elif kind == 'clear':
        if 'det' in q[x].unit or 'Jy' in q[x].unit:
            return
        q[x].derived_units = None
        w.det[x] = None
        w.fold[x] = 1e-26
    elif kind == 'global':
        # quantities built on the shared definitions do not reach them
        u = units[x] * 2
        u.derived_units['det'] = Q(17., 'm^2')
        u.SI
    elif kind == 'twice':
        q[x] *= 2
        w.si[x] = w.si[x] * 2
    elif kind == 'pickle':
        import pickle
        q[x] = pickle.loads(pickle.dumps(q[x]))


def _dims(w, x, y):
    """ Is the unit y incompatible with w.q[x]? Decided on the strings, by the model. """
    def dims(text, own):
        sign, out = 1, {}
        import re
        for word in re.findall(r'/|[^\s/]+', text):
            if word == '/':
                sign = -1
                continue
            n, _, p = word.partition('^')
            p = sign * float(p or 1)
            sign = 1
            if n == 'det':
                if own[0] is None:
                    return 'unknown'
                t = 'm^2'
            elif n in ('Jy', 'mJy') and own[1] == 7.:
                t = 's'
            else:
                t = BASE[n][1]
            for k, v in dims_of(t).items():
                out[k] = out.get(k, 0) + p * v
        return {k: v for k, v in out.items() if v}
    own = w.det[x], w.fold[x]
    return dims(w.q[x].unit, own) != dims(y, own) or 'unknown' in (dims(y, own), dims(w.q[x].unit, own))


def history(events):
    w = World()
    for e in events:
        event(w, e)
    w.check(events[-1])
    return tuple((k, v.unit, v.tobytes(), tuple(v.derived_units)) for k, v in w.q.items())


def histories(ck, first):
    depth = 3 if ck.quick else 4
    if first == EVENTS[0]:
        for e in EVENTS:
            ck.check(('one', e), history, (e,))
    for rest in itertools.product(EVENTS, repeat=depth - 1):
        ck.check((first,) + rest, history, (first,) + rest)


def constructors(ck):
    def numbers(dt, copy, unit):
        from pysimulators import Quantity
        a = np.array([[1, 2], [3, 4]]).astype(dt)
        q = Quantity(a, unit, copy=copy)
        same_array(q.magnitude, a, 'magnitude', dtype=float if np.dtype(dt).kind == 'i' else dt)
        if copy:
            require(not np.shares_memory(q, a), 'not a copy')
        elif q.dtype == a.dtype:
            require(np.shares_memory(q, a), 'copy')
        if unit == 'km' and q.dtype.kind in 'fc':
            same_array(q.tounit('m').magnitude, a * 1000., 'conversion', rtol=1e-6)
        r = Quantity(q)
        eq(snapshot(r), snapshot(q), 'quantity from a quantity')
        require(not np.shares_memory(r, q), 'not a copy')
    for dt, copy, unit in itertools.product(['i1', 'i4', 'i8', 'f4', 'f8', 'c8', 'c16'], [True, False], ['', 'km']):
        ck.check(('array', dt, copy, unit), numbers, dt, copy, unit)


def scenarios(tier):
    out = [(f'composites {i}', lambda ck, c=c: pairs(ck, [c], COMPOSITES)) for i, c in enumerate(COMPOSITES)]
    step = 8
    for i in range(0, len(SINGLES), step):
        out.append((f'units {i}', lambda ck, s=SINGLES[i : i + step]: pairs(ck, s, SINGLES if not ck.quick else [x for x in SINGLES if x[0][1] in (1, -1, 2)])))
    for dt in (float, np.float32, complex):
        for l in [n for n, _ in layouts()]:
            out.append((f'layout {l} {np.dtype(dt).name}', lambda ck, l=l, dt=dt: pairs(ck, COMPOSITES[:14], COMPOSITES[:14], l, dt)))
    out += [(f'areas {cdelt} {cd}', areas(cdelt, cd)) for cdelt in (.001, 1., 8.) for cd in (False, True)]
    out += [('styles', all_styles), ('derived', all_derived), ('headers', headers), ('constructors', constructors)]
    out += [(f'selections {n}', lambda ck, n=n: selections(ck, n)) for n in du_sets_names()]
    out += [(f'histories {i}', lambda ck, e=e: histories(ck, e)) for i, e in enumerate(EVENTS)]
    return out


def du_sets_names():
    return ['scalar', 'scaled', 'right', 'left', 'full left', 'full right', 'two', 'nested', 'callable', 'override', 'length one', 'unitless']
