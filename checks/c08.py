"""
C08: data sets survive a save and load round trip.

What a file holds is modelled as the tuple of what was saved last: class, values, unit, derived units, keywords, companions.  Every combination of
contents within the bounds and every history of saves, loads and modifications on two paths is executed on the real files and compared with it.
"""
import copy
import gc
import itertools
import os
import pickle
import shutil
import tempfile
from pathlib import Path

import numpy as np

from mc.harness import Mismatch, eq, require

PID = 'C08'
TECHNIQUE = 'exhaustive enumeration of the contents of data sets (class, shape, number type, layout, unit, derived units, keywords, companions) and of every history of saves, loads and modifications on two paths up to a depth, executed on real files against a model of their contents'
NOTE = (
    'As in the constructors of the package, signed integers are read as floats unless a number type is requested. FITS has no boolean and no complex image: booleans are compared by value, complex '
    'numbers and arrays without dimension are not claimed. The header keywords that describe the storage (BITPIX, NAXIS, EXTEND, BSCALE, BZERO...) are those of the file. The files are below a scratch directory.'
)
BOUNDS = (
    '3 classes, 7 shapes of 1 to 4 dimensions, 12 number types, 7 memory layouts, 7 units, 6 sets of derived units, 24 header cards, every combination of 7 coverages, 7 errors and 3 origins, 6 masks, 2 kinds of '
    'path, 4 loading classes; every history of 3 (quick) or 4 (thorough) events among 26 on two paths; pickles of every protocol and 4 ways of copying'
)
DIMS = {}


def scratch():
    return Path(tempfile.mkdtemp(prefix='verif-c08-'))


class Scratch:
    def __enter__(self):
        self.path = scratch()
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path)


def ps():
    import pysimulators
    return pysimulators


def values(shape, dt, seed=0):
    dt = np.dtype(dt)
    n = int(np.prod(shape, dtype=int))
    a = (np.arange(n) * 7 + seed * 3 + 1) % 11
    if dt.kind == 'b':
        return (a % 2 == 0).reshape(shape)
    if dt.kind == 'f':
        a = a / 4 - 1
        if n > 2:
            a[n // 2] = np.nan
    elif dt.kind == 'i':
        a = a - 5
    return a.astype(dt).reshape(shape)


def layouts(a):
    yield 'C', a.copy()
    yield 'F', np.array(a, order='F')
    if a.ndim:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        yield 'strided', b[..., ::2]
        yield 'reversed', a[::-1].copy()[::-1]
        yield 'transposed', np.array(a.T).T
    yield 'swapped', a.astype(a.dtype.newbyteorder())
    b = a.copy()
    b.flags.writeable = False
    yield 'readonly', b


def summary(x):
    """ What has to survive. """
    P = ps()
    out = {
        'class': type(x).__name__,
        'values': np.array(x.view(np.ndarray)),
        'unit': {k: v for k, v in x._unit.items() if v},
        'derived': {k: derived(v) for k, v in (x.derived_units or {}).items()},
    }
    if isinstance(x, P.Map):
        out['coverage'] = None if x.coverage is None else np.array(np.asarray(x.coverage))
        out['error'] = None if x.error is None else np.array(np.asarray(x.error))
        out['origin'] = x.origin
    if isinstance(x, P.Tod):
        out['mask'] = None if x.mask is None else np.array(x.mask)
    return out


def derived(v):
    from pysimulators import Quantity
    if isinstance(v, Quantity):
        return np.array(v.view(np.ndarray)).tolist(), dict(v._unit)
    if isinstance(v, tuple):
        return tuple(derived(_) for _ in v)
    return getattr(v, '__name__', v)


def cards(header):
    skip = {
        'SIMPLE', 'XTENSION', 'BITPIX', 'NAXIS', 'NAXIS1', 'NAXIS2', 'NAXIS3', 'NAXIS4', 'EXTEND', 'PCOUNT', 'GCOUNT', 'BSCALE', 'BZERO', 'BUNIT', 'DISPORIG', 'EXTNAME', 'END', 'QTTY____',
    }
    # blank cards hold nothing
    return [(c.keyword, c.value, c.comment) for c in header.cards if c.keyword not in skip and (c.keyword, c.value) != ('', '')]


def same(name, got, expected, exact_type=True):
    require((got is None) == (expected is None), f'{name}: got {got}, expected {expected}')
    if got is None:
        return
    eq(got.shape, expected.shape, f'{name}: shape')
    kind = expected.dtype.kind
    if kind == 'b':
        require(got.dtype.kind in 'bu', f'{name}: type {got.dtype}')
        got = got.astype(bool)
    elif exact_type:
        eq(got.dtype, expected.dtype.newbyteorder('='), f'{name}: number type')
    require(np.array_equal(got, expected, equal_nan=got.dtype.kind in 'fc'), f'{name}: got {got.tolist()}, expected {expected.tolist()}')


def compare(got, expected, loaded_as=None, dtype=None):
    g = summary(got)
    eq(g['class'], loaded_as or expected['class'], 'class')
    v = expected['values']
    want = np.dtype(dtype) if dtype is not None else np.dtype(float) if v.dtype.kind == 'i' else v.dtype
    same('values', g['values'], v.astype(want))
    eq(g['unit'], expected['unit'], 'unit')
    eq(g['derived'], expected['derived'], 'derived units')
    for k in ('coverage', 'error', 'mask'):
        if k in g:
            same(k, g[k], expected.get(k))
    if 'origin' in g:
        eq(g['origin'], expected.get('origin', 'lower'), 'origin')


def header_describes(x):
    h = x.header
    eq(tuple(h[f'NAXIS{i}'] for i in range(h['NAXIS'], 0, -1)), x.shape or (1,), 'shape in the header')


def roundtrip(make, path_type, loaded_as=None, **keywords):
    P = ps()
    with Scratch() as root:
        x = make()
        before = summary(x)
        hbefore = cards(x.header)
        path = path_type(root / 'file.fits')
        x.save(path)
        after = summary(x)
        for k in before:
            if isinstance(before[k], np.ndarray):
                eq(after[k].dtype, before[k].dtype, 'original ' + k)
                same('original ' + k, after[k], before[k], False)
            else:
                eq(after[k], before[k], 'original ' + k)
        y = getattr(P, loaded_as or type(x).__name__)(path, **keywords)
        expected = dict(before, values=before['values'].reshape(before['values'].shape or (1,)))
        for k in ('coverage', 'error', 'mask'):
            if expected.get(k) is not None and not expected[k].ndim:
                expected[k] = expected[k].reshape(1)
        compare(y, expected, loaded_as, keywords.get('dtype'))
        eq(cards(y.header), hbefore, 'header')
        header_describes(y)
        # what is loaded is independent of the file
        if y.size:
            require(y.flags.writeable, 'The loaded values cannot be modified.')
            y.view(np.ndarray)[...] = 0
            for k in ('coverage', 'error', 'mask'):
                if getattr(y, k, None) is not None:
                    getattr(y, k)[...] = 1
            z = getattr(P, loaded_as or type(x).__name__)(path, **keywords)
            compare(z, expected, loaded_as, keywords.get('dtype'))
        eq(sorted(os.listdir(root)), ['file.fits'], 'files')


SHAPES = ((1,), (3,), (4, 3), (1, 3), (3, 1), (2, 3, 2), (2, 1, 3, 2))
TYPES = ('bool', 'uint8', 'int16', 'int32', 'int64', 'uint16', 'uint32', 'uint64', 'int8', 'float32', 'float64', '>f4')
UNITS = (None, '', 'Jy', 'Jy/arcsec^2', 'm s^-1', 'kg^0.5', 'Jy/detector')


def sc_types(ck):
    P = ps()
    for cls in ('FitsArray', 'Map', 'Tod'):
        C = getattr(P, cls)
        for shape in SHAPES:
            for dt in TYPES:
                for path in (str, Path):
                    def make():
                        return C(values(shape, dt), dtype=dt, unit='Jy')
                    ck.check((cls, shape, dt, path.__name__), roundtrip, make, path)
                    ck.state((cls, shape, dt))


def sc_layouts(ck):
    P = ps()
    for cls in ('FitsArray', 'Map', 'Tod'):
        C = getattr(P, cls)
        for shape in SHAPES:
            for dt in ('uint8', 'int16', 'float32', 'float64'):
                for lay, a in layouts(values(shape, dt)):
                    for copy_ in (True, False):
                        kw = {}
                        if cls == 'Map':
                            kw = {'coverage': dict(layouts(values(shape, 'f8', 2))).get(lay), 'error': dict(layouts(values(shape, 'f4', 3))).get(lay)}
                        elif cls == 'Tod':
                            kw = {'mask': dict(layouts(values(shape, bool, 2))).get(lay)}

                        def make():
                            return C(a, dtype=a.dtype, copy=copy_, order='A', **kw)
                        ck.check((cls, shape, dt, lay, copy_), roundtrip, make, str)


def sc_units(ck):
    P = ps()
    for cls in ('FitsArray', 'Map', 'Tod'):
        C = getattr(P, cls)
        for unit in UNITS:
            for du in DERIVED:
                for path in (str, Path):
                    for first in UNITS:
                        def make():
                            x = C(values((2, 3), float), unit=first, derived_units=du() if du else None)
                            if first is not None:
                                x.header['BUNIT'] = first   # what an earlier save and load leaves
                            if unit is not None:
                                x._unit = {}
                                x.unit = unit
                            return x
                        ck.check((cls, unit, du and du.__name__, path.__name__, first), roundtrip, make, path)


def derived_one():
    return {'beam': ps().Quantity(3., 'arcsec^2')}


def derived_text():
    Q = ps().Quantity
    return {'pixel': Q(1.5, 'm^2'), 'area': Q(2, 's')}


def derived_array():
    return {'detector': ps().Quantity([[1., 2, 3], [4, 5, 6]], 'm^2')}


def derived_broadcast():
    return {'detector[rightward]': ps().Quantity([1., 2], 'm^2'), 'pixel[leftward]': ps().Quantity([1., 2, 3], 'm^2')}


def derived_call():
    return {'detector': resolve, 'kilo': ps().Quantity(2., 'm', {'m': ps().Quantity(4, 'kloug')})}


def resolve(x):
    return ps().Quantity(4., 's')


DERIVED = (None, derived_one, derived_text, derived_array, derived_broadcast, derived_call)


def sc_companions(ck):
    P = ps()
    shape = (2, 3)
    comp = {
        'none': lambda s: None,
        'f8': lambda s: values(shape, 'f8', s),
        'f4': lambda s: values(shape, 'f4', s),
        'i4': lambda s: values(shape, 'i4', s),
        'u1': lambda s: values(shape, 'u1', s),
        '>f8': lambda s: values(shape, '>f8', s),
        'Map': lambda s: P.Map(values(shape, 'f8', s), unit='s'),
    }
    for c, e, origin, path, cls in itertools.product(comp, comp, (None, 'lower', 'upper'), (str, Path), ('Map', 'FitsArray', 'Tod', 'Sub')):
        if cls != 'Map' and path is Path and c != 'f8':
            continue

        def make():
            return P.Map(values(shape, 'f8'), coverage=comp[c](2), error=comp[e](3), origin=origin, unit='Jy')
        ck.check((c, e, origin, path.__name__, cls), load_as, make, path, cls)
        ck.state((c, e, origin))


def load_as(make, path_type, cls):
    P = ps()
    if cls == 'Map':
        return roundtrip(make, path_type)
    if cls in ('FitsArray', 'Tod'):
        return roundtrip(make, path_type, cls)

    class Sub(P.Map):
        pass

    with Scratch() as root:
        path = path_type(root / 'f.fits')
        x = make().view(Sub)
        expected = summary(x)
        x.save(path)
        compare(Sub(path), expected)
        compare(P.Map(path, subok=True), dict(expected, **{'class': 'Map'}))


def sc_masks(ck):
    P = ps()
    for shape in SHAPES:
        masks = {
            'none': lambda: None,
            'false': lambda: np.zeros(shape, bool),
            'true': lambda: np.ones(shape, bool),
            'some': lambda: values(shape, bool, 2),
            'bytes': lambda: values(shape, bool, 2).view('u1'),
            'ints': lambda: values(shape, bool, 2).astype(int),
        }
        for m, path, cls, dt in itertools.product(masks, (str, Path), ('Tod', 'FitsArray', 'Map'), ('f8', 'u1', 'i2')):
            for how in ('new', 'set', 'masked array'):
                if how == 'masked array' and m not in ('false', 'true', 'some') or how == 'set' and not shape:
                    continue

                def make():
                    if how == 'new':
                        return P.Tod(values(shape, dt), dtype=dt, mask=masks[m]())
                    if how == 'set':
                        x = P.Tod(values(shape, dt), dtype=dt)
                        x.mask = masks[m]()
                        return x
                    return P.Tod(np.ma.MaskedArray(values(shape, dt), mask=masks[m]()), dtype=dt)
                ck.check((shape, m, path.__name__, cls, dt, how), roundtrip, make, path, cls if cls != 'Tod' else None)


CARDS = (
    ('TELESCOP', 'Herschel', 'name'), ('LONGTEXT', 'x' * 65, ''), ('QUOTE', "it's", ''), ('EMPTY', '', ''), ('INTEGER', 5, 'an integer'), ('BIG', 2 ** 40, ''), ('NEG', -3, ''),
    ('REAL', 1.25, ''), ('TINY', 1.5e-300, ''), ('FLAG', True, ''), ('OFF', False, 'no'), ('HIERARCH longkeyword', 'v', ''), ('NONE', None, 'undefined'), ('HISTORY', 'first', ''),
    ('COMMENT', 'a comment', ''), ('CRPIX1', 1.5, ''), ('CRPIX2', 2.5, ''), ('CRVAL1', 10., ''), ('CRVAL2', 20., ''), ('CTYPE1', 'RA---TAN', ''), ('CTYPE2', 'DEC--TAN', ''), ('CDELT1', -.1, ''),
    ('CDELT2', .1, ''), ('EQUINOX', 2000., ''),
)


def sc_headers(ck):
    from astropy.io import fits
    P = ps()
    groups = [(c,) for c in CARDS] + [CARDS[i:j] for i in range(len(CARDS)) for j in (i + 2, i + 3, len(CARDS)) if j <= len(CARDS)]
    for cls in ('FitsArray', 'Map', 'Tod'):
        C = getattr(P, cls)
        for shape in ((3,), (2, 3), (2, 3, 2)):
            for base in ('empty', 'for', 'stale', 'extension'):
                for g in groups:
                    def make():
                        a = values(shape, float)
                        if base == 'empty':
                            h = fits.Header()
                        elif base == 'for':
                            h = P.create_fitsheader_for(a)
                        elif base == 'stale':
                            h = P.create_fitsheader_for(np.zeros((5,) + shape[1:], 'f4'))
                        else:
                            h = P.create_fitsheader_for(a, extname='X')
                        for k, v, c in g:
                            if k in ('HISTORY', 'COMMENT'):
                                h[k] = v
                            else:
                                h[k] = (v, c)
                        return C(a, header=h)
                    ck.check((cls, shape, base, g[0][0], len(g)), roundtrip, make, str)
                    ck.state((cls, shape, base, g[0][0], len(g)))


def sc_arguments(ck):
    """ The arguments given when loading replace what is in the file. """
    P = ps()
    shape = (2, 3)

    def run(cls, path_type, keys, dtype, subok, ndmin, order):
        with Scratch() as root:
            path = path_type(root / 'a.fits')
            kw = {'unit': 'Jy', 'derived_units': derived_one()}
            new = {'unit': 'K', 'derived_units': {'kilo': P.Quantity(5, 'm')}}
            if cls == 'Map':
                kw.update(coverage=values(shape, 'f8', 2), error=values(shape, 'f8', 3), origin='upper')
                new.update(coverage=values(shape, 'f4', 4), error=values(shape, 'f8', 5), origin='lower')
            elif cls == 'Tod':
                kw.update(mask=values(shape, bool, 2))
                new.update(mask=values(shape, bool, 5))
            C = getattr(P, cls)
            x = C(values(shape, 'f8'), **kw)
            expected = summary(x)
            x.save(path)
            given = {k: new[k] for k in keys if k in new}
            y = C(path, dtype=dtype, subok=subok, ndmin=ndmin, order=order, **given)
            if 'unit' in given:
                expected['unit'] = {'K': 1.}
            if 'derived_units' in given:
                expected['derived'] = {k: derived(v) for k, v in given['derived_units'].items()}
            expected.update({k: v for k, v in given.items() if k not in ('unit', 'derived_units')})
            if ndmin > 2:
                expected['values'] = expected['values'][None]
                eq(y.shape, (1, 2, 3), 'shape')
                for k in ('coverage', 'error', 'mask'):     # the companions may keep their own shape
                    if expected.get(k) is not None:
                        expected[k] = expected[k].reshape(getattr(y, k).shape)
            compare(y, expected, dtype=dtype)
            if order == 'F' and ndmin < 3:
                require(y.flags.f_contiguous, 'order')

    for cls in ('FitsArray', 'Map', 'Tod'):
        names = ['unit', 'derived_units'] + {'Map': ['coverage', 'error', 'origin'], 'Tod': ['mask'], 'FitsArray': []}[cls]
        for n in range(len(names) + 1):
            for keys in itertools.combinations(names, n):
                for path, dtype, subok, ndmin, order in itertools.product((str, Path), (None, 'f4', 'f8'), (False, True), (0, 3), ('C', 'F')):
                    ck.check((cls, keys, path.__name__, dtype, subok, ndmin, order), run, cls, path, keys, dtype, subok, ndmin, order)


def objects():
    P = ps()
    h = P.create_fitsheader_for(np.zeros((2, 3)), cdelt=.5, crval=(3, 4))
    h['NAME'] = 'first'
    a = lambda s: values((2, 3), 'f8', s)
    return [
        P.FitsArray(a(1), unit='Jy'),
        P.FitsArray(a(2), header=h.copy(), derived_units=derived_one()),
        P.Map(a(3), unit='K', origin='upper', coverage=a(4), error=a(5), header=h),
        P.Map(a(6), coverage=a(7)),
        P.Map(values((4,), 'f4', 6), error=values((4,), 'f4', 7), unit='Jy'),
        P.Tod(a(8), mask=values((2, 3), bool, 9), unit='V', derived_units=derived_array()),
        P.Tod(values((5,), 'u1'), dtype='u1'),
    ]


def edits():
    P = ps()

    def unitless(x):
        x._unit = {}

    def other_unit(x):
        x._unit = {}
        x.unit = 'm'

    def no_companion(x):
        for k in ('coverage', 'error', 'mask'):
            if hasattr(x, k):
                setattr(x, k, None)

    def companions(x):
        if isinstance(x, P.Map):
            x.coverage = values(x.shape, 'f8', 11)
            x.error = values(x.shape, 'f4', 12)
            x.origin = 'upper' if x.origin == 'lower' else 'lower'
        elif isinstance(x, P.Tod):
            x.mask = values(x.shape, bool, 13)

    def no_derived(x):
        x._derived_units = {}

    def add_derived(x):
        x.derived_units = {'kilo': P.Quantity(2, 'm')}

    def change(x):
        x.view(np.ndarray)[...] = 1
        for k in ('coverage', 'error', 'mask'):
            if getattr(x, k, None) is not None:
                getattr(x, k)[...] = 0

    return [unitless, other_unit, no_companion, companions, no_derived, add_derived, change]


def histories(ck, depth, first):
    """
    State: what each of the two paths holds and the object at hand. Events: save one of the objects or the object at hand to a path, load a path, edit the object at hand,
    take a selection, a copy or a view of another class of it.
    """
    P = ps()
    n = len(objects())
    E = edits()
    events = [('take', i) for i in range(n)]
    events += [('save', p) for p in (0, 1)] + [('load', p) for p in (0, 1)] + [('edit', i) for i in range(len(E))]
    events += [('part', 0), ('copy', 0), ('as', 'FitsArray'), ('as', 'Map'), ('as', 'Tod'), ('arith', 0), ('ctor', 0)]

    def run(history):
        with Scratch() as root:
            objs = objects()
            paths = [root / 'a.fits', root / 'b.fits']
            held = [None, None]
            x = objs[2]
            for kind, arg in history:
                if kind == 'take':
                    x = objs[arg]
                elif kind == 'save':
                    before = summary(x)
                    x.save(str(paths[arg]) if arg else paths[arg])
                    held[arg] = before
                elif kind == 'load':
                    if held[arg] is None:
                        try:
                            P.FitsArray(paths[arg])
                        except FileNotFoundError:
                            continue
                        raise Mismatch('A missing file has been loaded.')
                    x = getattr(P, held[arg]['class'])(paths[arg], dtype=held[arg]['values'].dtype)
                elif kind == 'edit':
                    E[arg](x)
                elif kind == 'part':
                    if x.ndim:
                        x = x[1:]
                elif kind == 'copy':
                    x = x.copy()
                elif kind == 'as':
                    x = getattr(P, arg)(x, dtype=x.dtype)
                elif kind == 'arith':
                    x = x * 2.
                elif kind == 'ctor':
                    x = type(x)(x, copy=False, dtype=x.dtype)
                for p in range(2):
                    eq(paths[p].exists(), held[p] is not None, f'existence of the file {p}')
                    if held[p] is not None:
                        y = getattr(P, held[p]['class'])(paths[p])
                        compare(y, held[p])
                        header_describes(y)
            eq(sorted(os.listdir(root)), [n for n, h in zip(('a.fits', 'b.fits'), held) if h is not None], 'files')

    def useful(h):
        kinds = [k for k, _ in h]
        if any(k == 'take' and 'save' not in kinds[:i] for i, k in enumerate(kinds) if i):
            return False
        return 'save' in kinds[:] and kinds[-1] in ('save', 'load', 'edit') or len(h) == depth and 'save' in kinds

    for n in range(1, depth + 1):
        for h in itertools.product(events, repeat=n - 1):
            h = (first,) + h
            if not useful(h):
                continue
            ck.transitions += len(h)
            ck.state(h)
            ck.check(h, run, h)


def all_events():
    n = len(objects())
    return [('take', i) for i in range(n)] + [('save', p) for p in (0, 1)]


def sc_copies(ck):
    """ Pickles and copies carry everything, and what deep copies hold is not shared. """
    P = ps()
    ways = {f'pickle{p}': (lambda p: lambda x: pickle.loads(pickle.dumps(x, p)))(p) for p in range(pickle.HIGHEST_PROTOCOL + 1)}
    ways['deepcopy'] = copy.deepcopy
    ways['copy'] = copy.copy
    ways['method'] = lambda x: x.copy()
    ways['constructor'] = lambda x: type(x)(x, dtype=x.dtype)
    ways['nested pickle'] = lambda x: pickle.loads(pickle.dumps({'a': [x]}))['a'][0]

    def run(i, how, part, lay):
        x = objects()[i]
        if lay:
            x = x.T if lay == 'T' else x[::-1]
            for k in ('coverage', 'error', 'mask'):
                if getattr(x, k, None) is not None:
                    c = objects()[i]
                    setattr(x, k, getattr(c, k).T if lay == 'T' else getattr(c, k)[::-1])
        if part:
            x = x[part[0]]
            if not isinstance(x, P.FitsArray):
                return
        expected = summary(x)
        h = cards(x.header)
        y = ways[how](x)
        g = summary(y)
        for k in expected:
            if isinstance(expected[k], np.ndarray):
                same(k, g[k], expected[k])
            else:
                eq(g[k], expected[k], k)
        eq(cards(y.header), h, 'header')
        # changing the copy does not change the original
        y.view(np.ndarray)[...] = 0
        for k in ('coverage', 'error', 'mask'):
            if getattr(y, k, None) is not None:
                getattr(y, k)[...] = 1
        y.header['NEW'] = 1
        g = summary(x)
        for k in expected:
            if isinstance(expected[k], np.ndarray):
                same('original ' + k, g[k], expected[k])
            else:
                eq(g[k], expected[k], 'original ' + k)
        eq(cards(x.header), h, 'original header')

    for i in range(len(objects())):
        for how in ways:
            for part in (None, (slice(1, None),), (slice(None, None, 2),), (0,)):
                for lay in (None, 'T', 'R'):
                    if lay and part:
                        continue
                    ck.check((i, how, str(part), lay), run, i, how, part, lay)


def sc_extensions(ck):
    """ Arrays written as primary data or named extensions in any order are read back from their place. """
    from pysimulators.mpiutils import read_fits, write_fits
    from pyoperators import MPI
    P = ps()
    arrays = {
        'f8': lambda: values((2, 3), 'f8', 1), 'f4': lambda: values((4,), 'f4', 2), 'u1': lambda: values((3, 1), 'u1', 3), 'i2': lambda: values((2, 2, 2), 'i2', 4),
        'u2': lambda: values((3,), 'u2', 5), '>f8': lambda: values((2,), '>f8', 6),
    }
    names = (None, 'A', 'b', 'Coverage')

    def run(plan, path_type, header):
        with Scratch() as root:
            path = path_type(root / 'f.fits')
            for n, a in plan:
                a = arrays[a]()
                h = None
                if header:
                    h = P.create_fitsheader_for(a, extname=n)
                    h['TAG'] = str(n)
                write_fits(path, a, h, n is not None, n, MPI.COMM_SELF)
            if plan[0][0] is not None:
                from astropy.io import fits
            for n, a in plan:
                a = arrays[a]()
                got, h = read_fits(path, n, MPI.COMM_SELF)
                same(f'{n}', got, a)
                if header:
                    eq(h['TAG'], str(n), f'{n}: header')
                eq(tuple(h[f'NAXIS{i}'] for i in range(h['NAXIS'], 0, -1)), a.shape, f'{n}: shape in the header')
            for missing in ('Z',):
                try:
                    read_fits(path, missing, MPI.COMM_SELF)
                except KeyError:
                    continue
                raise Mismatch('A missing extension has been read.')

    for k in (1, 2, 3):
        for ns in itertools.permutations(names[1:], k - 1):
            for ar in itertools.product(arrays, repeat=k):
                for path in (str, Path):
                    for header in (False, True):
                        plan = tuple(zip((None,) + ns, ar))
                        ck.check((plan, path.__name__, header), run, plan, path, header)
                        ck.state(plan)

    def nodata(kind):
        from astropy.io import fits
        with Scratch() as root:
            path = str(root / 'f.fits')
            if kind == 'empty':
                fits.PrimaryHDU().writeto(path)
            elif kind == 'second':
                fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(values((2, 3), 'f8', 1), name='x')]).writeto(path)
            elif kind == 'third':
                fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(), fits.ImageHDU(values((2, 3), 'f8', 1), name='x')]).writeto(path)
            elif kind == 'zero':
                h = fits.Header()
                h['NAXIS'] = 1
                h['NAXIS1'] = 0
                fits.HDUList([fits.PrimaryHDU(header=h), fits.ImageHDU(values((2, 3), 'f8', 1), name='x')]).writeto(path)
            with warn():
                if kind == 'empty':
                    try:
                        P.FitsArray(path)
                    except OSError:
                        return
                    raise Mismatch('no error')
                x = P.FitsArray(path)
                same('values', np.asarray(x), values((2, 3), 'f8', 1))

    for kind in ('empty', 'second', 'third'):
        ck.check(('nodata', kind), nodata, kind)


def warn():
    import warnings
    return warnings.catch_warnings()


def scenarios(tier):
    depth = 3 if tier == 'quick' else 4
    out = [('types', sc_types), ('layouts', sc_layouts), ('units', sc_units), ('companions', sc_companions), ('masks', sc_masks), ('headers', sc_headers), ('arguments', sc_arguments), ('copies', sc_copies), ('extensions', sc_extensions)]
    for e in all_events():
        out.append((f'history {e[0]} {e[1]}', lambda ck, e=e: histories(ck, depth, e)))
    return out
