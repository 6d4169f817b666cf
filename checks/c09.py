"""
C09: the companions of maps and time-ordered data follow the data.

Each element of the data is numbered, and its coverage, error and mask are functions of the number.  Sequences of structural operations are applied to
the data and, by numpy, to the plain array of the numbers: the companions have to be those of the numbers found at each place.
"""
import copy
import itertools
import pickle

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C09'
TECHNIQUE = 'breadth-first enumeration of every sequence of views, selections, reshapes, copies and conversions up to a depth on maps and time-ordered data whose elements are numbered, each executed on the implementation and compared with plain arrays of the numbers; exhaustive enumeration of masks for the statistics'
NOTE = (
    'Operations that are not views, selections, reshapes, copies or conversions (arithmetic, joining, sorting, reductions) may drop the companions but not misplace them. Which companion is kept when '
    'two arrays that both have one are combined is not claimed. Scalar companions are not covered. The standard deviation of unmasked NaN is that of numpy.ma. numpy.ma does not ignore the masked samples in '
    'np.ptp, which the existing tests require: it is recorded as a known finding.'
)
BOUNDS = (
    '4 shapes of 1 to 3 dimensions, companions present or not in every combination, about 110 operations, every sequence of 2 (quick) or 3 (thorough) of them; every mask of 2x3 and 5 samples for 17 statistics, '
    'as functions and methods, every axis, keepdims, output buffers'
)

SHAPES = ((4,), (2, 3), (3, 3), (2, 1, 3))


def ps():
    import pysimulators
    return pysimulators


def tables(n):
    i = np.arange(n)
    return {
        'values': 10. + i, 'coverage': 1000. + 2 * i, 'error': .5 + i, 'mask': (i * i) % 3 == 1,
    }


def make(cls, shape, companions, unit='Jy', **kw):
    P = ps()
    t = {k: v.reshape(shape) for k, v in tables(int(np.prod(shape))).items()}
    return getattr(P, cls)(t['values'], unit=unit, **{k: t[k] for k in companions}, **kw)


def aligned(x, ids, cls, companions, n, what='', optional=False, unit={'Jy': 1.}, factor=1, values=True):
    P = ps()
    if not isinstance(x, np.ndarray):
        return
    eq(type(x).__name__, cls, what + 'class')
    eq(x.shape, ids.shape, what + 'shape')
    t = tables(n)
    if values:
        same_array(np.asarray(x.view(np.ndarray)), t['values'][ids] * factor, what + 'values', dtype=None, rtol=1e-6, atol=1e-12)
    if unit is not None:
        eq({k: v for k, v in x._unit.items()}, unit, what + 'unit')
    names = {'Map': ('coverage', 'error'), 'Tod': ('mask',)}[cls]
    for k in names:
        c = getattr(x, k)
        if k not in companions:
            require(c is None, f'{what}{k} has appeared')
            continue
        if c is None and optional:
            continue
        require(c is not None, f'{what}the {k} has been lost')
        eq(np.shape(c), ids.shape, f'{what}shape of the {k}')
        e = t[k][ids]
        g = np.asarray(c)
        if k == 'mask':
            eq(g.dtype, np.dtype(bool), 'type of the mask')
        require(np.array_equal(g, e) or k != 'mask' and np.allclose(g, e.astype(g.dtype)), f'{what}{k}: got {g.tolist()}, expected {e.tolist()}')


def keys(ndim):
    yield from (0, -1, slice(1, None), slice(None, None, -1), slice(None, None, 2), slice(0, 0), Ellipsis, None, [0, -1], np.array([1, 0, 1]))
    yield from ((Ellipsis, 0), (Ellipsis, slice(1, 3)), (Ellipsis, None), (None, 0), (Ellipsis, [1, 0, 1]))
    yield np.int64(0)
    if ndim > 1:
        yield from ((0, 0), (slice(None), 0), (slice(None), slice(None, None, -1)), (0, slice(1, None)), ([0, 1], [0, -1]), (slice(None), [0, 0]), (slice(1, None), None, slice(None, 1)), ([[0], [1]], [0, -1]))
        yield (np.array([0, 1]), slice(None, None, 2))


def structural(shape):
    """ (name, operation) on anything that behaves as an array """
    nd = len(shape)
    out = []
    for k in keys(nd):
        out.append((f'[{k!r}]', lambda x, k=k: x[k]))
    n = int(np.prod(shape, dtype=int))
    out.append(('[bool]', lambda x: x[np.arange(n).reshape(shape) % 2 == 0]))
    out.append(('[bool 0]', lambda x: x[np.arange(shape[0]) % 2 == 0]))
    targets = {(n,), (1, n), (n, 1), (-1,)} | ({(2, n // 2), (n // 2, 2)} if n % 2 == 0 else set()) | ({(3, n // 3), (n // 3, -1)} if n % 3 == 0 and n else set())
    for t in sorted(targets):
        if n == 0 and -1 in t:
            continue
        out.append((f'reshape{t}', lambda x, t=t: x.reshape(t)))
        out.append((f'reshape{t} F', lambda x, t=t: x.reshape(t, order='F')))
        out.append((f'reshape*{t}', lambda x, t=t: x.reshape(*t)))
        out.append((f'np.reshape{t}', lambda x, t=t: np.reshape(x, t)))
        out.append((f'np.reshape{t} F', lambda x, t=t: np.reshape(x, t, order='F')))
    for o in 'CFAK':
        out.append((f'ravel {o}', lambda x, o=o: x.ravel(o)))
        out.append((f'np.ravel {o}', lambda x, o=o: np.ravel(x, order=o)))
        out.append((f'flatten {o}', lambda x, o=o: x.flatten(o)))
        out.append((f'copy {o}', lambda x, o=o: x.copy(o)))
    out += [
        ('ravel', lambda x: x.ravel()), ('T', lambda x: x.T), ('transpose', lambda x: x.transpose()), ('np.transpose', lambda x: np.transpose(x)), ('squeeze', lambda x: x.squeeze()),
        ('np.squeeze', lambda x: np.squeeze(x)), ('view', lambda x: x.view()), ('expand_dims', lambda x: np.expand_dims(x, 0)), ('expand_dims -1', lambda x: np.expand_dims(x, -1)),
        ('flip', lambda x: np.flip(x)), ('atleast_1d', lambda x: np.atleast_1d(x)), ('atleast_2d', lambda x: np.atleast_2d(x)), ('atleast_3d', lambda x: np.atleast_3d(x)),
        ('repeat', lambda x: x.repeat(2)), ('repeat axis', lambda x: x.repeat(2, axis=-1)), ('np.repeat', lambda x: np.repeat(x, 2, axis=0)),
        ('take', lambda x: x.take([0, 0, 1], axis=-1) if shape[-1] > 1 else x), ('np.take', lambda x: np.take(x, [1, 0], axis=0) if shape[0] > 1 else x),
        ('compress', lambda x: x.compress([True] + (shape[0] - 1) * [False], axis=0)), ('np.compress', lambda x: np.compress([True] + (shape[0] - 1) * [False], x, axis=0)),
    ]
    if n > 1:
        out += [('take flat', lambda x: x.take([1, 0, 1])), ('np.take flat', lambda x: np.take(x, [[1, 0], [0, 1]])),]
    for i, s in enumerate(np.split(np.arange(shape[0]), range(1, min(shape[0], 3)))):
        out.append((f'split {i}', lambda x, i=i: np.split(x, range(1, min(shape[0], 3)))[i]))
    out.append(('array_split', lambda x: np.array_split(x, 2)[0]))
    if nd > 1:
        out += [
            ('swapaxes', lambda x: x.swapaxes(0, -1)), ('np.swapaxes', lambda x: np.swapaxes(x, 0, 1)), ('moveaxis', lambda x: np.moveaxis(x, 0, -1)), ('rollaxis', lambda x: np.rollaxis(x, nd - 1)),
            ('fliplr', lambda x: np.fliplr(x)), ('flip 0', lambda x: np.flip(x, 0)), ('rot90', lambda x: np.rot90(x)), ('diagonal', lambda x: x.diagonal()), ('np.diagonal', lambda x: np.diagonal(x, 1)),
            ('transpose(axes)', lambda x: x.transpose(*range(nd)[::-1])), ('transpose((axes))', lambda x: np.transpose(x, tuple(range(1, nd)) + (0,))),
        ]
    if 1 in shape:
        ax = shape.index(1)
        out += [('squeeze axis', lambda x: x.squeeze(ax)), ('np.squeeze axis', lambda x: np.squeeze(x, axis=ax))]
    return out


def conversions(cls):
    P = ps()
    C = getattr(P, cls)
    return [
        ('constructor', lambda x: C(x)), ('constructor nocopy', lambda x: C(x, copy=False)), ('constructor subok', lambda x: C(x, subok=True)), ('constructor F', lambda x: C(x, order='F')),
        ('view cls', lambda x: x.view(C)), ('astype', lambda x: x.astype(np.float64)), ('copy.copy', copy.copy), ('deepcopy', copy.deepcopy),
        ('pickle', lambda x: pickle.loads(pickle.dumps(x))), ('tounit same', lambda x: x.tounit('Jy')), ('np.array subok', lambda x: np.array(x, subok=True)), ('asanyarray', lambda x: np.asanyarray(x)),
        ('positive', lambda x: +x), ('times 1', lambda x: x * 1.), ('1 times', lambda x: 1. * x), ('rint', lambda x: np.rint(x)), ('round', lambda x: x.round(3)),
        ('np.round', lambda x: np.round(x, 3)), ('clip', lambda x: x.clip(-1e6, 1e6)), ('plus zero', lambda x: x + 0), ('divide', lambda x: x / 1), ('real', lambda x: x.real), ('np.real', lambda x: np.real(x)),
        ('nan_to_num', lambda x: np.nan_to_num(x)), ('conj', lambda x: x.conj()), ('ascontiguousarray', lambda x: x if x.ndim == 0 else np.array(x, order='C', copy=None, subok=True)),
        ('maximum', lambda x: np.maximum(x, 0)), ('inplace', inplace), ('out', lambda x: np.add(x, 0, out=x.copy())), ('where kw', lambda x: np.add(x, 0, where=True)),
    ]


def inplace(x):
    x = x.copy()
    x *= 2
    x += x
    x -= x / 2
    x /= 2
    return x


def sc_sequences(cls, shape, companions, depth):
    def scenario(ck):
        n = int(np.prod(shape))
        conv = conversions(cls)

        def run(history):
            x = make(cls, shape, companions)
            ids = np.arange(n).reshape(shape)
            for name in history:
                if ids.ndim == 0:
                    return
                ops = dict(structural(ids.shape))
                before = x
                bids = ids
                if name in ops:
                    try:
                        ids = np.asarray(ops[name](ids))
                    except (IndexError, ValueError) as e:
                        raises(type(e), ops[name], x)
                        aligned(before, bids, cls, companions, n, f'original after {name}: ')
                        return
                    x = ops[name](x)
                else:
                    x = dict(conv)[name](x)
                if not isinstance(x, np.ndarray):
                    return
                aligned(x, ids, cls, companions, n, f'{name}: ')
                aligned(before, bids, cls, companions, n, f'original after {name}: ')

        # breadth first; sequences that reach an array of the same numbers, in the same layout, by the same kind of operation are explored once
        seen = set()
        frontier = [()]
        for d in range(depth):
            new = []
            for h in frontier:
                ids, lay = replay(shape, h, conv)
                for name in [n for n, _ in structural(ids.shape)] + [n for n, _ in conv]:
                    hh = h + (name,)
                    ck.transitions += 1
                    if not ck.check(hh, run, hh):
                        continue
                    try:
                        i2, lay = replay(shape, hh, conv)
                    except (IndexError, ValueError):
                        continue
                    if i2.ndim == 0 or i2.size > 40:
                        continue
                    key = (i2.shape, i2.tobytes(), lay)
                    if key in seen:
                        continue
                    seen.add(key)
                    ck.state(key)
                    new.append(hh)
            frontier = new
    return scenario


def replay(shape, history, conv):
    """ The numbers after a history, with their layout. """
    n = int(np.prod(shape))
    ids = np.arange(n).reshape(shape)
    for name in history:
        ops = dict(structural(ids.shape)) if ids.ndim else {}
        if name in ops:
            ids = np.asarray(ops[name](ids))
    return ids, (ids.flags.c_contiguous, ids.flags.f_contiguous, ids.flags.owndata)


def others(cls):
    """ Operations which are allowed to drop the companions: (name, operation on x, operation on the numbers or None when the values are new) """
    out = []
    for ax in (None, 0, -1):
        for f in ('sum', 'mean', 'max', 'min', 'std', 'ptp', 'any', 'all', 'argmax', 'cumsum', 'nansum', 'median', 'var', 'prod', 'count_nonzero'):
            out.append((f'np.{f} {ax}', lambda x, f=f, ax=ax: getattr(np, f)(x, axis=ax)))
            if f not in ('ptp', 'nansum', 'count_nonzero', 'median'):
                out.append((f'{f} {ax}', lambda x, f=f, ax=ax: getattr(x, f)(axis=ax)))
            if f in ('sum', 'mean', 'max', 'min', 'std', 'any', 'all', 'median'):
                out.append((f'np.{f} keepdims {ax}', lambda x, f=f, ax=ax: getattr(np, f)(x, axis=ax, keepdims=True)))
    for ax in (0, -1):
        for f in ('sort', 'diff', 'argsort', 'gradient', 'unwrap'):
            out.append((f'np.{f} {ax}', lambda x, f=f, ax=ax: getattr(np, f)(x if f != 'unwrap' else x._unit.clear() or x, axis=ax)))
    out += [
        ('concatenate', lambda x: np.concatenate([x, x])), ('stack', lambda x: np.stack([x, x])), ('hstack', lambda x: np.hstack([x, x])), ('vstack', lambda x: np.vstack([x, x])),
        ('roll', lambda x: np.roll(x, 1)), ('roll axis', lambda x: np.roll(x, 1, axis=-1)), ('tile', lambda x: np.tile(x, 2)), ('append', lambda x: np.append(x, x)), ('delete', lambda x: np.delete(x, 0, axis=0)),
        ('insert', lambda x: np.insert(x, 0, x[0], axis=0)), ('outer', lambda x: np.add.outer(x, x)), ('plus', lambda x: x + x), ('reversed plus', lambda x: x + x[::-1]), ('bool', lambda x: x > x), ('equal', lambda x: x == x),
        ('isfinite', lambda x: np.isfinite(x)), ('broadcast', lambda x: x + np.zeros((2,) + x.shape)), ('broadcast2', lambda x: np.zeros((3,) + x.shape) + x), ('first plus', lambda x: x[:1] + x),
        ('first rplus', lambda x: x + x[:1]), ('where', lambda x: np.where(x.view(np.ndarray) > 11, x, x)), ('unique', lambda x: np.unique(x)), ('reduceat', lambda x: np.add.reduceat(x, [0, 1])), ('accumulate', lambda x: np.add.accumulate(x)),
        ('reduce', lambda x: np.add.reduce(x)), ('reduce none', lambda x: np.add.reduce(x, axis=None)), ('sum all', lambda x: x.sum()), ('broadcast_to', lambda x: np.broadcast_to(x, (2,) + x.shape, subok=True)),
        ('dot', lambda x: np.dot(x.ravel(), x.ravel())), ('pad', lambda x: np.pad(x, 1)), ('zeros_like', lambda x: np.zeros_like(x)), ('empty_like shape', lambda x: np.empty_like(x, shape=(5, 5))), ('ones_like', lambda x: np.ones_like(x)),
        ('full_like', lambda x: np.full_like(x, 2)), ('choose', lambda x: np.take_along_axis(x, np.zeros(x.shape, int), axis=0)), ('fft', lambda x: np.fft.fft(x.view(np.ndarray))), ('meshgrid', lambda x: np.meshgrid(x.ravel(), x.ravel())[0]),
        ('sqrt', lambda x: np.sqrt(x)), ('square', lambda x: x ** 2), ('modf', lambda x: np.modf(x)[0]), ('matmul', lambda x: x @ np.ones(x.shape[-1])), ('trace', lambda x: np.atleast_2d(x).trace()), ('partition', lambda x: np.partition(x, 0)),
        ('triu', lambda x: np.triu(x)), ('percentile', lambda x: np.percentile(x, 30, axis=0)), ('average', lambda x: np.average(x, axis=0)), ('nanmean', lambda x: np.nanmean(x, axis=0)), ('histogram', lambda x: np.histogram(x)[1]),
        ('interp', lambda x: np.interp([11., 12, 13], x.ravel(), x.ravel())), ('convolve', lambda x: np.convolve(x.ravel(), [1, 2])), ('cross', lambda x: np.kron(x, np.ones(2))), ('resize', lambda x: np.resize(x, (7, 2))),
        ('byteswap', lambda x: x.byteswap()), ('view int', lambda x: x.view(np.int64)), ('view f4', lambda x: x.view('f4')), ('getfield', lambda x: x.getfield('f4')), ('nonzero', lambda x: x.nonzero()[0]),
    ]
    return out


SAME_PLACE = {'plus', 'sqrt', 'square', 'modf', 'reversed plus', 'accumulate', 'triu', 'zeros_like', 'ones_like', 'full_like', 'broadcast', 'broadcast2', 'byteswap', 'view int'}


def consistent(y, where):
    """ The companions, when there are, have the shape of the data. """
    P = ps()
    if isinstance(y, (tuple, list)):
        for _ in y:
            consistent(_, where)
    for k in ('coverage', 'error') if isinstance(y, P.Map) else ('mask',) if isinstance(y, P.Tod) else ():
        c = getattr(y, k)
        if c is not None:
            eq(np.shape(c), y.shape, f'{where}: shape of the {k}')


def sc_others(cls, shape, companions):
    def scenario(ck):
        n = int(np.prod(shape))
        ids = np.arange(n).reshape(shape)
        structural_of = {'sort': lambda i: i, 'roll': lambda i: np.roll(i, 1), 'roll axis': lambda i: np.roll(i, 1, axis=-1), 'delete': lambda i: np.delete(i, 0, axis=0)}
        moves = {
            'concatenate': lambda i: np.concatenate([i, i]), 'stack': lambda i: np.stack([i, i]), 'hstack': lambda i: np.hstack([i, i]), 'vstack': lambda i: np.vstack([i, i]), 'roll': lambda i: np.roll(i, 1),
            'roll axis': lambda i: np.roll(i, 1, axis=-1), 'tile': lambda i: np.tile(i, 2), 'append': lambda i: np.append(i, i), 'delete': lambda i: np.delete(i, 0, axis=0), 'insert': lambda i: np.insert(i, 0, i[0], axis=0),
            'choose': lambda i: np.take_along_axis(i, np.zeros(i.shape, int), axis=0), 'resize': lambda i: np.resize(i, (7, 2)), 'broadcast_to': lambda i: np.broadcast_to(i, (2,) + i.shape),
            'partition': lambda i: i, 'np.sort 0': lambda i: i, 'np.sort -1': lambda i: i, 'plus': lambda i: i, 'sqrt': lambda i: i, 'square': lambda i: i, 'modf': lambda i: i, 'zeros_like': lambda i: i,
            'np.cumsum 0': lambda i: i, 'np.cumsum -1': lambda i: i,
        }
        newvalues = {'plus', 'sqrt', 'square', 'modf', 'zeros_like', 'np.cumsum 0', 'np.cumsum -1'}

        def run(name, f, flip):
            x = make(cls, shape, companions)
            i = ids
            if flip:        # so that sorting moves the elements
                x = x[..., ::-1]
                i = i[..., ::-1]
            try:
                y = f(x)
            except (TypeError, NotImplementedError) + ((ValueError,) if name.startswith('view') else ()) as e:
                return type(e).__name__
            except ps().UnitError:
                return 'unit'
            consistent(y, name)
            aligned(make(cls, shape, companions), ids, cls, companions, n)
            aligned(x, i, cls, companions, n, 'original: ', unit=None)
            if name in moves and isinstance(y, type(x)):
                if name in ('np.sort 0', 'np.sort -1', 'partition'):
                    e = np.sort(i, axis=0 if name[-1] == '0' else -1)
                    if cls == 'Tod' and 'mask' in companions:
                        if y.mask is not None:
                            t = tables(n)
                            for v, m in zip(y.view(np.ndarray).ravel(), y.mask.ravel()):
                                require(v not in t['values'] or t['mask'][int(v - 10)] == m, 'A sample is sorted without its mask.')
                        return
                else:
                    e = moves[name](i)
                aligned(y, e, cls, companions, n, name + ': ', True, unit=None, values=name not in newvalues)

        for name, f in others(cls):
            for flip in (False, True):
                ck.check((name, flip), run, name, f, flip)
    return scenario


def in_place():
    """ Methods that move the elements or change the shape. """
    for axis in (-1, 0, -2):
        for kind in (None, 'stable', 'heapsort'):
            yield f'sort {axis} {kind}', lambda x, a=axis, k=kind: x.sort(axis=a, kind=k)
        for kth in (0, 1, [0, 1], -1):
            yield f'partition {kth} {axis}', lambda x, a=axis, k=kth: x.partition(k, axis=a)
    yield 'sort', lambda x: x.sort()
    yield 'sort 0', lambda x: x.sort(0)
    for shape in (1, 2, 7, (2, 2), (3, 2), (4, 3), (1, 2, 2), (0,), (2, 3), (4,)):
        yield f'resize {shape}', lambda x, s=shape: x.resize(s, refcheck=False)
        if isinstance(shape, tuple):
            yield f'resize* {shape}', lambda x, s=shape: x.resize(*s, refcheck=False)
    for shape in ((-1,), (1, -1), (-1, 1), (2, -1), (3, -1)):
        def reshape(x, s=shape):
            x.shape = s
        yield f'shape {shape}', reshape


def sc_in_place(ck):
    """ What remains of the companions after an in-place operation belongs to the elements. """
    def run(cls, shape, companions, name, f, flip):
        n = int(np.prod(shape))
        x = make(cls, shape, companions)
        x = x[..., ::-1].copy() if flip else x.copy()
        v = np.array(x.view(np.ndarray))
        try:
            if name.startswith('resize') and not x.flags.owndata:
                raise ValueError
            f(v)
        except Exception as e:
            raises(type(e), f, x)
            aligned(x, np.asarray(x.view(np.ndarray) - 10).astype(int), cls, companions, n, 'refused: ')
            return type(e).__name__
        f(x)
        same_array(np.asarray(x.view(np.ndarray)), v, 'values')
        eq(x.unit, 'Jy', 'unit')
        consistent(x, name)
        t = tables(n)
        for k in companions:
            c = getattr(x, k)
            if c is not None:
                for e, g in zip(v.ravel(), np.asarray(c).ravel()):
                    require(e < 10 or g == t[k][int(e - 10)], f'the {k} of another element')
        for k in {'Map': ('coverage', 'error'), 'Tod': ('mask',)}[cls]:
            require(k in companions or getattr(x, k) is None, f'{k} has appeared')

    for cls, comps in (('Map', ((), ('coverage',), ('error',), ('coverage', 'error'))), ('Tod', ((), ('mask',)))):
        for shape in SHAPES:
            for companions in comps:
                for name, f in in_place():
                    for flip in (False, True):
                        ck.check((cls, shape, companions, name, flip), run, cls, shape, companions, name, f, flip)


def sc_sharing(ck):
    """ What is written in a copy is not seen in the original; what is written in a basic view is. """
    P = ps()
    copies = [
        ('copy', lambda x: x.copy()), ('copy F', lambda x: x.copy('F')), ('copy.copy', copy.copy), ('deepcopy', copy.deepcopy), ('constructor', lambda x: type(x)(x)), ('constructor subok', lambda x: type(x)(x, subok=True)),
        ('pickle', lambda x: pickle.loads(pickle.dumps(x))), ('flatten', lambda x: x.flatten()), ('fancy', lambda x: x[[0, 1]]), ('bool', lambda x: x[np.ones(x.shape, bool)]), ('take', lambda x: x.take([0, 1])),
        ('repeat', lambda x: x.repeat(2)), ('astype', lambda x: x.astype(float)), ('astype f4', lambda x: x.astype('f4')), ('np.copy', lambda x: np.copy(x, subok=True)),
    ]
    views = [
        ('slice', lambda x: x[1:]), ('slices', lambda x: x[..., ::-1]), ('view', lambda x: x.view()), ('reshape', lambda x: x.reshape(-1)), ('T', lambda x: x.T), ('ravel', lambda x: x.ravel()), ('squeeze', lambda x: x.squeeze()),
        ('nocopy', lambda x: type(x)(x, copy=False)), ('newaxis', lambda x: x[None]), ('swapaxes', lambda x: x.swapaxes(0, -1)),
    ]

    def run(cls, shape, companions, name, f, is_copy):
        x = make(cls, shape, companions)
        y = f(x)
        for k in ('data',) + companions:
            a = x.view(np.ndarray) if k == 'data' else np.asarray(getattr(x, k))
            b = y.view(np.ndarray) if k == 'data' else np.asarray(getattr(y, k))
            require(np.shares_memory(a, b) != is_copy, f'{k}: {"shared" if is_copy else "not shared"}')

    for cls, comps in (('Map', (('coverage',), ('error',), ('coverage', 'error'))), ('Tod', (('mask',),))):
        for shape in SHAPES:
            for companions in comps:
                for fs, is_copy in ((copies, True), (views, False)):
                    for name, f in fs:
                        ck.check((cls, shape, companions, name), run, cls, shape, companions, name, f, is_copy)


def sc_types(ck):
    """ Conversions of number type and class keep what the result can hold. """
    P = ps()

    def types(cls, companions, dt, how):
        x = make(cls, (2, 3), companions)
        x.header        # the header exists
        if how == 'astype':
            y = x.astype(dt)
        elif how == 'constructor':
            y = type(x)(x, dtype=dt)
        else:
            y = type(x)(x, dtype=dt, copy=False)
        eq(y.dtype, np.dtype(dt), 'type')
        same_array(y.view(np.ndarray), x.view(np.ndarray).astype(dt), 'values')
        consistent(y, '')
        for k in companions:
            c = np.asarray(getattr(y, k))
            t = np.asarray(getattr(x, k))
            if k == 'mask':
                eq(c.dtype, np.dtype(bool), 'type of the mask')
                same_array(c, t, k)
            else:
                same_array(c, t.astype(dt) if how == 'astype' else t, k)
        eq(y._unit, x._unit, 'unit')

    for cls, comps in (('Map', ((), ('coverage',), ('error',), ('coverage', 'error'))), ('Tod', ((), ('mask',)))):
        for companions in comps:
            for dt in ('f4', 'f8', 'i4', 'i8', 'u1', 'c8', 'c16', '>f4', 'f2', 'bool'):
                for how in ('astype', 'constructor', 'nocopy'):
                    ck.check((cls, companions, dt, how), types, cls, companions, dt, how)

    def classes(src, companions, dst, keywords):
        x = make(src, (2, 3), companions) if src != 'FitsArray' and src != 'Quantity' else getattr(P, src)(tables(6)['values'].reshape(2, 3), unit='Jy')
        t = {k: v.reshape(2, 3) for k, v in tables(6).items()}
        kw = {k: t[k] * (1 if k == 'mask' else 2) for k in keywords}
        y = getattr(P, dst)(x, **kw)
        eq(type(y).__name__, dst, 'class')
        same_array(y.view(np.ndarray), t['values'], 'values')
        eq(y._unit, {'Jy': 1.}, 'unit')
        names = {'Map': ('coverage', 'error'), 'Tod': ('mask',)}.get(dst, ())
        for k in names:
            got = getattr(y, k)
            if k in kw:
                same_array(np.asarray(got), kw[k], k)
            elif k in companions:
                same_array(np.asarray(got), t[k], k)
            else:
                require(got is None, f'{k} has appeared')
        for k in ('coverage', 'error', 'mask'):
            if k not in names:
                require(not hasattr(y, k), k)

    for src, comps in (('Map', ((), ('coverage',), ('error',), ('coverage', 'error'))), ('Tod', ((), ('mask',))), ('FitsArray', ((),)), ('Quantity', ((),))):
        for companions in comps:
            for dst, kws in (('Map', ((), ('coverage',), ('error',), ('coverage', 'error'))), ('Tod', ((), ('mask',))), ('FitsArray', ((),)), ('Quantity', ((),))):
                for kw in kws:
                    ck.check((src, companions, dst, kw), classes, src, companions, dst, kw)


def sc_creation(ck):
    """ Arrays created from a shape have the content, the type, the unit, the header and the companions they are given. """
    P = ps()
    from astropy.io import fits

    def create(cls, name, shape, dt, unit, given):
        t = tables(int(np.prod(shape)))
        kw = {k: v.reshape(shape) for k, v in t.items() if k in given}
        if dt:
            kw['dtype'] = dt
        if unit:
            kw.update(unit='Jy / beam', derived_units={'beam': P.Quantity(2., 'arcsec^2')})
        if 'header' in given:
            kw['header'] = h = fits.Header([('KEY', 3)])
        if 'origin' in given:
            kw['origin'] = 'upper'
        c = getattr(P, cls)
        x = getattr(c, name)(shape, **kw)
        eq((type(x), x.shape, x.dtype), (c, np.empty(shape).shape, np.dtype(dt or float)), 'array')
        if name != 'empty':
            require(np.all(x.view(np.ndarray) == (name == 'ones')), 'values')
        require(x.flags.writeable, 'writeable')
        if unit:
            eq(x._unit, {'Jy': 1., 'beam': -1.}, 'unit')
            eq(float(np.asarray(x.derived_units['beam'])), 2., 'derived unit')
        else:
            eq(dict(x._unit or {}), {}, 'unit')
        for k in {'Map': ('coverage', 'error'), 'Tod': ('mask',)}.get(cls, ()):
            if k in given:
                same_array(np.asarray(getattr(x, k)), kw[k], k)
            else:
                require(getattr(x, k) is None, f'{k} has appeared')
        if cls == 'Map':
            eq(x.origin, 'upper' if 'origin' in given else 'lower', 'origin')
        if cls != 'Quantity' and 'header' in given:
            eq(x.header['KEY'], 3, 'header')
        y = getattr(c, name)(shape, **kw)
        x[...] = 7
        require(not np.may_share_memory(x, y), 'two arrays are independent')

    options = {'Quantity': (), 'FitsArray': ('header',), 'Map': ('header', 'coverage', 'error', 'origin'), 'Tod': ('header', 'mask')}
    for cls, names in options.items():
        for name in ('empty', 'ones', 'zeros'):
            for shape in (3, (2, 3), [2, 1, 2]):
                for dt in (None, 'f4', 'i8', 'bool'):
                    for unit in (False, True):
                        for n in range(len(names) + 1):
                            for given in itertools.combinations(names, n):
                                ck.check((cls, name, shape, dt, unit, given), create, cls, name, shape, dt, unit, given)


STATS = ('sum', 'prod', 'mean', 'min', 'max', 'std', 'var', 'median', 'any', 'all', 'average', 'percentile', 'quantile', 'count_nonzero', 'nansum', 'nanmean', 'nanmin', 'nanmax', 'nanstd', 'nanvar', 'nanmedian')
UNIT_OF = {'var': 2, 'nanvar': 2, 'any': 0, 'all': 0, 'count_nonzero': 0}


def statistic(name, v, p):
    """ The statistic of a list of samples, None when it is not defined. """
    if name.startswith('nan'):
        if name == 'nansum' and v and all(x != x for x in v):
            return 0.
        v = [x for x in v if x == x]
        name = name[3:]
    if name == 'count_nonzero':
        return sum(1 for x in v if x != 0)
    if not v:
        return None
    n = len(v)
    if name == 'sum':
        return sum(v)
    if name == 'prod':
        r = 1.
        for x in v:
            r *= x
        return r
    if name in ('mean', 'average'):
        return sum(v) / n
    if name == 'min':
        return min(v) if all(x == x for x in v) else np.nan
    if name == 'max':
        return max(v) if all(x == x for x in v) else np.nan
    if name == 'ptp':
        return max(v) - min(v) if all(x == x for x in v) else np.nan
    if name in ('std', 'var'):
        m = sum(v) / n
        if n <= p.get('ddof', 0):
            return None
        r = sum((x - m) ** 2 for x in v) / (n - p.get('ddof', 0))
        return r ** .5 if name == 'std' else r
    if name == 'any':
        return any(x != 0 for x in v)
    if name == 'all':
        return all(x != 0 for x in v)
    if name in ('median', 'percentile', 'quantile'):
        if any(x != x for x in v):
            return np.nan
        q = .5 if name == 'median' else p['q'] / (100 if name == 'percentile' else 1)
        v = sorted(v)
        i = q * (n - 1)
        j = int(i)
        return v[j] if j == n - 1 else v[j] + (i - j) * (v[j + 1] - v[j])
    raise ValueError(name)


def reduced(name, a, mask, axis, keepdims, p):
    """ The values and the mask of a statistic along an axis, element by element. """
    nd = a.ndim
    axes = tuple(range(nd)) if axis is None else (axis % nd,)
    shape = tuple(1 if i in axes else n for i, n in enumerate(a.shape))
    lists = {}
    for i in np.ndindex(a.shape):
        k = tuple(0 if d in axes else v for d, v in enumerate(i))
        lists.setdefault(k, [])
        if not mask[i]:
            lists[k].append(a[i])
    out = np.full(shape, np.nan)
    m = np.zeros(shape, bool)
    for k, v in lists.items():
        r = statistic(name, v, p)
        if r is None:
            m[k] = True
        else:
            out[k] = r
    if not keepdims:
        s = tuple(n for i, n in enumerate(a.shape) if i not in axes)
        out, m = out.reshape(s), m.reshape(s)
    return out, m


def stat_case(name, how, data, mask, axis, keepdims, p):
    P = ps()
    a = np.array(data)
    unit = None if name == 'prod' else 'Jy'
    t = P.Tod(a, mask=mask, unit=unit, dtype=a.dtype)
    m = np.zeros(a.shape, bool) if mask is None else mask
    kw = dict(p)
    if axis != 'no':
        kw['axis'] = axis
    if keepdims:
        kw['keepdims'] = True
    args = (kw.pop('q'),) if 'q' in kw else ()
    if how == 'function':
        got = getattr(np, name)(t, *args, **kw)
    elif how == 'method':
        got = getattr(t, name)(*args, **kw)
    elif how == 'slice':
        big = P.Tod(np.concatenate([a, 100 + a], -1), mask=np.concatenate([m, ~m], -1), unit=unit, dtype=a.dtype)
        got = getattr(np, name)(big[..., :a.shape[-1]], *args, **kw)
    expected, emask = reduced(name, a, m, None if axis == 'no' else axis, keepdims, p)
    u = UNIT_OF.get(name, 1)
    if name == 'prod':
        u = None
    if u:
        require(isinstance(got, P.Tod), f'class {type(got).__name__}')
        eq(got._unit, {'Jy': float(u)}, 'unit')
    elif u == 0:
        require(not getattr(got, '_unit', {}), f'unit {getattr(got, "_unit", None)}')
    g = np.asarray(np.ma.getdata(got), float)
    eq(g.shape, expected.shape, 'shape')
    gm = getattr(got, 'mask', None)
    gm = np.zeros(g.shape, bool) if gm is None or gm is np.ma.nomask else np.asarray(gm)
    eq(gm.shape, expected.shape, 'shape of the mask')
    if name not in ('any', 'all', 'count_nonzero', 'prod'):
        require((gm | np.isnan(g))[emask].all(), f'statistics without any sample: got {g.tolist()}, mask {gm.tolist()}, expected mask {emask.tolist()}')
    # numpy.ma masks the invalid results
    require(not gm[~emask & ~np.isnan(expected)].any(), f'mask: got {gm.tolist()}, expected {emask.tolist()}')
    emask |= gm & np.isnan(expected)
    same_array(g[~emask], expected[~emask], 'values', rtol=1e-12, atol=1e-12)
    same_array(t.view(np.ndarray), a, 'original')
    eq(None if t.mask is None else t.mask.tolist(), None if mask is None else mask.tolist(), 'original mask')


METHODS = ('sum', 'prod', 'mean', 'min', 'max', 'std', 'var', 'any', 'all', 'median')


def sc_stats(shape, name, kind):
    def scenario(ck):
        n = int(np.prod(shape))
        base = np.array([3., -1, 0, 7, 2.5, 11][:n]).reshape(shape)
        if kind == 'nan':
            base = np.where(base == 2.5, np.nan, base)
        elif kind == 'int':
            base = base.astype(int)
        elif kind == 'f4':
            base = base.astype('f4')
        masks = [None] + [np.array(m).reshape(shape) for m in itertools.product((False, True), repeat=n)]
        params = [{}]
        if name in ('std', 'var', 'nanstd', 'nanvar'):
            params.append({'ddof': 1})
        if name in ('percentile', 'quantile'):
            params = [{'q': q} for q in ((0, 30., 50, 100) if name == 'percentile' else (0, .3, 1))]
        for mask in masks:
            for axis in ('no', None, -1) + ((0,) if len(shape) > 1 else ()):
                for keepdims in (False, True):
                    for p in params:
                        for how in ('function', 'slice') + (('method',) if name in METHODS else ()):
                            if how == 'slice' and mask is None:
                                continue
                            if how == 'method' and name == 'median' and keepdims:
                                continue
                            ck.check((None if mask is None else mask.astype(int).tolist(), axis, keepdims, p, how), stat_case, name, how, base, mask, axis, keepdims, p)
                            ck.state((shape, name, kind, str(mask), axis, keepdims))
    return scenario


def sc_ptp(ck):
    a = np.array([[1., 2, 3, 4], [5, 6, 7, 8]])
    m = np.array([[True, False, False, False], [False, True, True, False]])
    for axis in (None, 0, 1):
        for mask in (m, np.zeros_like(m), None):
            ck.check((axis, None if mask is None else mask.astype(int).tolist()), stat_case, 'ptp', 'function', a, mask, axis, False, {})


def scenarios(tier):
    depth = 2 if tier == 'quick' else 3
    out = [('sharing', sc_sharing), ('in place', sc_in_place), ('types', sc_types), ('creation', sc_creation), ('peak to peak', sc_ptp)]
    for cls, comps in (('Map', ((), ('coverage',), ('error',), ('coverage', 'error'))), ('Tod', ((), ('mask',)))):
        for companions in comps:
            for shape in SHAPES:
                out.append((f'sequences {cls} {shape} {companions}', sc_sequences(cls, shape, companions, depth)))
                out.append((f'others {cls} {shape} {companions}', sc_others(cls, shape, companions)))
    for name in STATS:
        for shape in ((2, 3), (5,)):
            for kind in ('f8', 'nan', 'int', 'f4'):
                if name.startswith('nan') and kind in ('int', 'f4') or kind == 'nan' and name in ('std', 'var') or kind == 'f4' and name not in ('sum', 'min', 'max', 'median'):
                    continue
                out.append((f'statistics {name} {shape} {kind}', sc_stats(shape, name, kind)))
    return out
