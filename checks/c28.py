"""
C28: an operation that is refused leaves everything as it was.

Every mutating operation of a list is tried on every target with every argument of a bounded set, most of which do not fit (units
of other dimensions, shapes that cannot be broadcast, types without meaning, read-only memory, invalid names...). Whenever the
operation raises, the targets, the arguments and the arrays that share their memory are compared with what they were: values,
type, unit, derived units, companions, header and attributes.
"""
import itertools
import operator
import warnings

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C28'
TECHNIQUE = 'exhaustive enumeration of the mutating operations, targets and arguments, executed on the implementation, with the comparison of the complete state of every object reachable from the call before and after each refusal'
NOTE = (
    'The check does not say which operations must be refused (other properties do), but that a refusal has no effect. The refusals of the functions of numpy that process elements one after the other '
    '(conversion of the items of a list, for example) are those of numpy and are not counted when they happen with plain arrays too. The memory around the arguments holds two patterns, so that accesses outside of the arguments are seen; the pool of buffers of '
    'pyoperators is emptied before each call.'
)
BOUNDS = (
    '4 classes of arrays, 6 shapes, 3 units, 2 types, read-only or not, with their companions; 68 kinds of in-place operations with 24 arguments; 16 tables, layouts, samplings and scenes with 19 to 24 operations, 8 formats of sparse matrices with 2 (quick) or 4 types of indices and '
    '3 types of values, pointing matrices, acquisitions of 1 to 3 blocks and instruments, with 42 arguments where an array is expected and 23 selections; 5 (quick) or 12 types of arrays, with 1 to 4 kinds of companions and 3 of derived units, saved to 5 (quick) or 9 paths'
)


# ------------------------------------------------------------------ state

IDENTITIES = [True]


def state(x, depth=0, seen=None):
    """ Everything that can be observed in an object. """
    seen = {} if seen is None else seen
    if depth > 6:
        return '...'
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, slice, type(Ellipsis), np.dtype, np.generic)):
        return repr(x)
    if id(x) in seen:
        return 'seen'
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        d = getattr(x, '__dict__', {})
        b = np.ndarray.__array__(x) if type(x) is not np.ndarray else x
        b = x.view(np.ndarray)
        data = b.tobytes() if b.dtype.kind != 'O' else repr(b.tolist()) if IDENTITIES[0] else [type(_).__name__ for _ in b.flat].__repr__()
        return (type(x).__name__, b.shape, b.dtype.str if not b.dtype.names else repr(b.dtype), b.flags.writeable, data, tuple(sorted((k, state(v, depth + 1, seen)) for k, v in d.items())))
    if isinstance(x, dict):
        return 'dict', tuple(sorted(((repr(k), state(v, depth + 1, seen)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return type(x).__name__, tuple(state(_, depth + 1, seen) for _ in x)
    if type(x).__name__ == 'Header':
        return 'header', x.tostring()
    if type(x).__name__ == 'Time':
        return 'time', x.isot.tolist() if x.ndim else x.isot, x.scale
    if callable(x) and not hasattr(x, '__dict__'):
        return 'function', id(x) if IDENTITIES[0] else 0
    if type(x).__module__.startswith(('pysimulators', 'checks')) or 'Operator' in type(x).__name__:
        d = dict(getattr(x, '__dict__', {}))
        return type(x).__name__, tuple(sorted((k, state(v, depth + 1, seen)) for k, v in d.items() if k not in ('rules', '_C', '_T', '_H', '_I', 'comm', 'flags') and not k.startswith('_operator')))
    return type(x).__name__, id(x) if IDENTITIES[0] else 0


def differences(a, b, path=''):
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            yield from differences(x, y, f'{path}.{a[0] if i and isinstance(a[0], str) else i}')
    elif a != b:
        yield f'{path}: {str(b)[:150]} was {str(a)[:150]}'


class Watched:
    """ Objects and what is seen of them. """
    def __init__(self, **objects):
        self.objects = objects
        self.before = {k: state(v) for k, v in objects.items()}

    def unchanged(self, what):
        for k, v in self.objects.items():
            now = state(v)
            if now != self.before[k]:
                raise Mismatch(f'{what}: the {k} has been changed: ' + '; '.join(itertools.islice(differences(self.before[k], now), 3)))
        require(True, what)


def attempt(what, watched, func):
    """ Returns the exception raised by the function, which must not have had effects. """
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            func()
        except Exception as e:
            watched.unchanged(f'{what} ({type(e).__name__}: {str(e)[:80]})')
            return e
    return None


# ------------------------------------------------------------------ arrays

SHAPES = ((), (1,), (3,), (2, 3), (3, 2), (0,))
UNITS = ('', 'm', 'Jy / pixel')


def array(cls, shape, unit, dtype=float, full=True, readonly=False):
    import pysimulators as p
    n = int(np.prod(shape))
    v = (np.arange(n) * 3 % 7 + 1).reshape(shape).astype(dtype)
    kw = {'unit': unit} if unit else {}
    if unit:
        kw['derived_units'] = {'pixel': p.Quantity(4., 'arcsec^2')}
    if full and cls == 'Map':
        kw.update(coverage=v * 2., error=v * 3., origin='lower')
    elif full and cls == 'Tod':
        kw.update(mask=v > 3)
    if full and cls != 'Quantity' and len(shape) == 2:
        kw['header'] = p.create_fitsheader(shape[::-1], crval=(1, 2), cdelt=.1)
    a = getattr(p, cls)(v, dtype=dtype, **kw)
    if readonly:
        a.flags.writeable = False
    return a


def arguments(shape):
    """ Operands of in-place operations. """
    import pysimulators as p
    n = int(np.prod(shape))
    return {
        'number': lambda: 2., 'integer': lambda: 3, 'complex': lambda: 1j, 'None': lambda: None, 'text': lambda: 'abc', 'unit': lambda: 'm', 'unit of length': lambda: 'km', 'unit of brightness': lambda: 'mJy / arcsec^2', 'bad unit': lambda: 'm//s', 'list': lambda: [1., 2.], 'ragged': lambda: [[1.], [1., 2]],
        'dict': lambda: {'a': 1}, 'array': lambda: np.arange(n, dtype=float).reshape(shape), 'other shape': lambda: np.ones(tuple(s + 1 for s in shape) or (2,)), 'more': lambda: np.ones((2,) + tuple(shape)),
        'metres': lambda: p.Quantity(2., 'm'), 'seconds': lambda: p.Quantity(np.full(shape, 2.), 's'), 'kilometres': lambda: p.Quantity(np.full(shape, 2.), 'km'), 'other metres': lambda: p.Quantity(np.ones(tuple(s + 1 for s in shape) or (2,)), 'm'),
        'map': lambda: array('Map', shape, 'm'), 'timeline': lambda: array('Tod', shape, 's'), 'bools': lambda: np.zeros(shape, bool), 'object': lambda: object(), 'texts': lambda: np.full(shape, 'a'),
    }


def setter(name):
    return lambda a, b: setattr(a, name, b)


def call(f):
    return f


def out2(name):
    return lambda a, b: getattr(np, name)(b, b, out=a)


def out1(name):
    return lambda a, b: getattr(np, name)(b, out=a)


def mixed(name):
    return lambda a, b: getattr(np, name)(np.asarray(a), b, out=a)


MUTATIONS = {
    **{f'{n}=': getattr(operator, n) for n in ('iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow', 'iand', 'ilshift')},
    'set all': lambda a, b: a.__setitem__(Ellipsis, b), 'set first': lambda a, b: a.__setitem__(0, b), 'set slice': lambda a, b: a.__setitem__(slice(0, 2), b), 'set mask': lambda a, b: a.__setitem__(np.asarray(a) > 2, b),
    'set at argument': lambda a, b: a.__setitem__(b, 1.), 'set out of bounds': lambda a, b: a.__setitem__(50, b), 'set other unit at argument': lambda a, b: a.__setitem__(b, TIME()),
    'unit': setter('unit'), 'inunit': lambda a, b: a.inunit(b), 'derived units': setter('derived_units'), 'magnitude': setter('magnitude'), 'shape': setter('shape'),
    'header': setter('header'), 'coverage': setter('coverage'), 'error': setter('error'), 'mask': setter('mask'), 'origin': setter('origin'),
    **{f'{n} out': out2(n) for n in ('add', 'multiply', 'divide', 'power', 'maximum', 'arctan2', 'less', 'floor_divide')}, **{f'{n} out': out1(n) for n in ('sqrt', 'square', 'exp', 'negative', 'isnan', 'deg2rad')},
    **{f'{n} into itself': mixed(n) for n in ('add', 'hypot')},
    'add at': lambda a, b: np.add.at(a, [0], b), 'subtract at argument': lambda a, b: np.subtract.at(a, b, 1.), 'add reduce out': lambda a, b: np.add.reduce(b, out=a), 'sum out': lambda a, b: np.sum(b, axis=0, out=a), 'cumsum out': lambda a, b: np.cumsum(b, out=a),
    'mean out': lambda a, b: np.mean(b, out=a), 'median out': lambda a, b: np.median(b, out=a), 'clip out': lambda a, b: np.clip(a, b, b, out=a), 'dot out': lambda a, b: np.dot(b, b, out=a), 'concatenate out': lambda a, b: np.concatenate([b, b], out=a),
    'copyto': lambda a, b: np.copyto(a, b), 'put': lambda a, b: np.put(a, [0], b), 'put at argument': lambda a, b: np.put(a, b, 1.), 'place': lambda a, b: np.place(a, np.ones(a.shape, bool), b), 'putmask': lambda a, b: np.putmask(a, np.ones(a.shape, bool), b),
    'fill': lambda a, b: a.fill(b), 'fill diagonal': lambda a, b: np.fill_diagonal(a, b), 'sort': lambda a, b: a.sort(axis=b), 'partition': lambda a, b: a.partition(b), 'take out': lambda a, b: np.take(b, [0], out=a), 'choose out': lambda a, b: np.choose(np.zeros(a.shape, int), [b], out=a),
    'round out': lambda a, b: np.round(b, out=a), 'interp': lambda a, b: np.interp(a, b, b), 'method put': lambda a, b: a.put([0], b), 'nan_to_num': lambda a, b: np.nan_to_num(a, copy=False, nan=b), 'put along axis': lambda a, b: np.put_along_axis(a, np.zeros(a.shape, int), b, 0),
}


def TIME():
    from pysimulators import Quantity
    return Quantity(1., 's')


def in_place(names):
    """ Every operation on every target with every argument; the view and the base of the target are watched too. """
    def one(name, cls, shape, unit, arg, readonly, dtype):
        a = array(cls, shape, unit, dtype, readonly=readonly)
        b = arguments(shape)[arg]()
        # numpy itself may have begun to write before it fails
        plain = np.array(a)
        plain.flags.writeable = not readonly
        pb = np.array(b) if isinstance(b, np.ndarray) else b
        before = plain.tobytes()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                MUTATIONS[name](plain, pb)
            except Exception:
                if plain.tobytes() != before:
                    return
        w = Watched(target=a, argument=b, view=a[...], base=a.base)
        e = attempt(f'{name} {arg}', w, lambda: MUTATIONS[name](a, b))
        if e is not None:
            # again, and the target is still usable
            if w is not None:
                attempt(f'{name} {arg} again', w, lambda: MUTATIONS[name](a, b))
            str(a)
            a + a
        return type(e).__name__

    def scenario(ck):
        classes = ('Quantity', 'FitsArray', 'Map', 'Tod')
        for name in names:
            for cls, shape, unit, arg in itertools.product(classes, SHAPES, UNITS, arguments((2,))):
                if name == 'cumsum out' and shape == ():
                    continue  # crash in numpy
                if name in ('coverage', 'origin') and cls != 'Map' or name == 'mask' and cls != 'Tod' or name == 'error' and cls != 'Map' or name == 'header' and cls == 'Quantity':
                    continue
                for readonly, dtype in ((False, float), (True, float)) + (((False, int),) if not ck.quick or cls == 'Quantity' else ()):
                    if name == 'median out' and dtype is int:
                        continue  # np.median writes floats in integers without checks, and the values of masked timelines may be NaN
                    ck.check(f'{name} {cls} {shape} {unit!r} {arg}{" read-only" if readonly else ""} {dtype.__name__}', one, name, cls, shape, unit, arg, readonly, dtype)
    return scenario


# ------------------------------------------------------------------ other objects

MARGIN = 48
PATTERNS = 0x41, 0x3c
around = []  # memory around the arrays: (array with margins, pattern)
pattern = [PATTERNS[0]]


def filled(shape, dtype):
    """ An array inside a larger one. """
    dtype = np.dtype(dtype)
    n = int(np.prod(shape))
    if dtype.kind in 'OUSM':
        return np.zeros(shape, dtype)
    mark = pattern[0] if dtype.kind != 'b' else pattern[0] & 1
    base = np.full((n + 2 * MARGIN) * dtype.itemsize, mark, np.uint8).view(dtype)
    around.append((base, mark, n))
    a = base[MARGIN:MARGIN + n].reshape(shape)
    a[...] = (np.arange(n).reshape(shape) * 5 % 7 + 1).astype(dtype) if dtype.kind in 'iufcb' else np.zeros(shape, dtype)
    return a


def contained(what):
    """ Nothing has been written outside of the arrays. """
    for base, mark, n in around:
        b = base.view(np.uint8)
        k = MARGIN * base.itemsize
        if (b[:k] != mark).any() or (b[-k:] != mark).any():
            raise Mismatch(f'{what}: written outside of an array of {n} elements')


def buffers(shape, dtype=float):
    """ Arrays and objects to be given where an array of this shape and type is expected. """
    import pysimulators as p
    shape = tuple(shape)
    n = int(np.prod(shape))

    def readonly():
        a = filled(shape, dtype)
        a.flags.writeable = False
        return a

    def strided():
        return filled(tuple(2 * s for s in shape), dtype)[tuple(slice(None, None, 2) for s in shape)]
    r = {
        'good': lambda: filled(shape, dtype), 'read-only': readonly, 'strided': strided, 'reversed': lambda: filled(shape, dtype)[tuple(slice(None, None, -1) for s in shape)], 'Fortran': lambda: np.asfortranarray(filled(shape, dtype)),
        'longer': lambda: filled(shape[:-1] + (shape[-1] + 1,) if shape else (2,), dtype), 'shorter': lambda: filled(shape[:-1] + (max(shape[-1] - 1, 0),) if shape else (0,), dtype), 'first longer': lambda: filled((shape[0] + 1,) + shape[1:] if shape else (2,), dtype),
        'first shorter': lambda: filled((max(shape[0] - 1, 0),) + shape[1:] if shape else (0,), dtype), 'one': lambda: filled((1,) * len(shape), dtype), 'scalar array': lambda: filled((), dtype), 'flat': lambda: filled((n,), dtype), 'more dimensions': lambda: filled(shape + (1,), dtype),
        'two': lambda: filled((2,) + shape, dtype), 'transposed': lambda: filled(shape[::-1], dtype), 'empty': lambda: filled((0,), dtype),
        'list': lambda: filled(shape, dtype).tolist(), 'None': lambda: None, 'text': lambda: 'abc', 'number': lambda: 3., 'object': lambda: object(), 'pair': lambda: (filled(shape, dtype), filled(shape, dtype)), 'pair of others': lambda: (filled(shape, dtype), filled(shape[:-1] + (9,), dtype)),
        'pair of others first': lambda: (filled(shape[:-1] + (9,), dtype), filled(shape, dtype)), 'pair of a list': lambda: (filled(shape, dtype), [1.]), 'pair of read-only': lambda: (filled(shape, dtype), readonly()), 'pair of types': lambda: (filled(shape, dtype), filled(shape, 'i2')), 'pair of strided': lambda: (filled(shape, dtype), strided()),
    }
    for dt in ('f8', 'f4', 'f2', 'i4', 'i8', '?', 'c16', '>f8', 'U3', 'O', [('a', 'f8')]):
        r[f'type {dt}'] = lambda dt=dt: filled(shape, dt)
    for cls in ('Quantity', 'Map', 'Tod'):
        r[cls] = lambda cls=cls: array(cls, shape, 's')
    return r


def plain(shape, dtype=float):
    """ Outputs of operators (pyoperators computes the values before it refuses an output with another class). """
    return {k: v for k, v in buffers(shape, dtype).items() if k not in ('Quantity', 'Map', 'Tod')}


def contiguous(shape, dtype=float):
    """ Outputs of the in-place reductions of operators (pyoperators gives uninitialised buffers to the operator for the other layouts). """
    return {k: v for k, v in plain(shape, dtype).items() if k not in ('strided', 'reversed', 'Fortran')}


def selections(n):
    return {
        'beyond': lambda: n, 'before': lambda: -n - 1, 'text': lambda: 'abc', 'number': lambda: 1.5, 'numbers': lambda: np.array([0., 1]), 'step': lambda: slice(None, None, 0), 'mask': lambda: np.ones(n + 1, bool), 'short mask': lambda: np.ones(n - 1, bool), 'list beyond': lambda: [0, n], 'list before': lambda: [0, -n - 1],
        'two dimensions': lambda: np.zeros((2, 2), int), 'mask of two dimensions': lambda: np.ones((n, 2), bool), 'pair': lambda: (slice(None), slice(None)), 'triple': lambda: (0, 0, 0), 'four': lambda: (0,) * 4, 'dict': lambda: {}, 'object': lambda: object(), 'list of texts': lambda: ['a'], 'mix': lambda: [0, slice(None)], 'complex': lambda: 1j,
        'slice of texts': lambda: slice('a', 'b'), 'good': lambda: slice(0, 2), 'none': lambda: [],
    }


def environment():
    """ pyoperators keeps the buffers of the operators that fail, whatever their layout, and hands them to the next ones. """
    import pyoperators.core
    pyoperators.core._pool._buffers = []  # clear() collects the garbage as well


def refused(label, make, call):
    """
    make() returns the objects, call(objects) may be refused: twice in a row, without effects.
    Otherwise, the result does not depend on what is around the arrays.
    """
    def fresh(p):
        environment()
        around.clear()
        pattern[0] = p
        np.random.seed(3)
        return make()

    objects = fresh(PATTERNS[0])
    w = Watched(**objects)
    r = None
    for k in range(2):
        result = []
        environment()
        e = attempt(f'{label}{" again" if k else ""}', w, lambda: result.append(call(objects)))
        contained(label)
        if e is None:
            break
        r = type(e).__name__
        text = str(e)[:200]
    else:
        return r
    if k:
        raise Mismatch(f'{label}: refused ({r}: {text}), then accepted')
    IDENTITIES[0] = False
    try:
        first = state(result), {k: state(v) for k, v in objects.items() if k != '_'}
        objects = fresh(PATTERNS[1])
        second = [call(objects)]
        second = state(second), {k: state(v) for k, v in objects.items() if k != '_'}
        if first != second:
            raise Mismatch(f'{label}: the result depends on the memory around the arrays: {str(first)[:200]} {str(second)[:200]}')
        require(True, label)
    except Exception as e:
        if isinstance(e, Mismatch):
            raise
        raise Mismatch(f'{label}: accepted, then refused: {type(e).__name__} {e}')
    finally:
        IDENTITIES[0] = True
    return r


def explore(ck, label, make, operations):
    """ operations: name -> (arguments, function of the objects and the argument). """
    for name, (arguments, func) in operations.items():
        for arg, factory in arguments.items():
            def m():
                o = make()
                o['argument'] = factory()
                return o
            ck.check(f'{label} {name} {arg}', refused, f'{label}: {name} {arg}', m, lambda o: func(o, o['argument']))


def attributes(o, names=('a', 'shape', 'ndim', 'comm', 'index', 'all', 'removed', 'nothing')):
    return {n: (lambda o, x, n=n: setattr(o['table'], n, x)) for n in names}


def tables(ck, part):
    import pysimulators as p

    def column(n, *k):
        return 1. + np.arange(n * int(np.prod(k))).reshape((n,) + k)
    makers = {
        'table': lambda: p.PackedTable((2, 3), a=column(6).reshape(2, 3), b=column(6, 2).reshape(2, 3, 2), c=2., d=lambda s: s.a + 1),
        'selected table': lambda: p.PackedTable((2, 3), selection=[[1, 0, 1], [1, 1, 0]] == np.ones((2, 3), int), a=column(6).reshape(2, 3), b=column(6, 2).reshape(2, 3, 2)),
        'ordered table': lambda: p.PackedTable((2, 3), ordering=[[3, 2, -1], [0, 1, 5]], a=column(6).reshape(2, 3), u=p.Quantity(column(6).reshape(2, 3), 'm')),
        'reversed table': lambda: p.PackedTable(4, a=column(4))[::-1], 'integers': lambda: p.PackedTable(4, a=np.arange(4)), 'texts': lambda: p.PackedTable(3, a=['x', 'y', 'z']), 'rows': lambda: p.PackedTable((3, 2), ndim=1, a=column(3, 2)),
        'layout': lambda: p.Layout((2, 3), vertex=column(2, 3, 4, 2), a=column(2, 3), selection=np.array([[1, 0, 1], [1, 1, 0]], bool)), 'layout of centres': lambda: p.Layout(3, center=column(3, 2), a=column(3)),
        'grid': lambda: p.LayoutGrid((2, 3), 1., a=column(2, 3)), 'squares': lambda: p.LayoutGridSquares((2, 3), p.Quantity(1., 'm'), selection=np.array([[1, 0, 1], [1, 1, 0]], bool), a=column(2, 3)),
        'sampling': lambda: p.SamplingEquatorial(ra=column(3), dec=column(3), pa=column(3), a=column(3)), 'horizontal sampling': lambda: p.SamplingHorizontal(azimuth=column(3), elevation=column(3), latitude=48., longitude=2., a=column(3)),
        'scene': lambda: p.Scene((2, 3), a=column(2, 3)), 'healpix scene': lambda: __import__('pysimulators.interfaces.healpy', fromlist=['x']).SceneHealpix(1, a=column(12)), 'fits scene': lambda: p.SceneGrid.fromfits(p.create_fitsheader((3, 2), cdelt=1., crval=(0, 0)), a=column(2, 3)),
    }
    for label, maker in list(makers.items())[part::4]:
        t0 = maker()
        n, shape = len(t0), tuple(t0.shape)

        def make():
            t = maker()
            return {'table': t, 'values': dict(vars(t)), 'part': t[1:], 'copy': t.copy(), 'buffer': filled(shape[:t0.ndim], float)}
        ops = {f'set {k}': (buffers((n,)), f) for k, f in attributes(t0).items()}
        ops.update({f'set all {k}': (buffers(shape[:t0.ndim]), lambda o, x, k=k: setattr(o['table'].all, k, x)) for k in ('a', 'shape', 'nothing', 'removed', 'index')})
        if 'b' in t0._special_attributes:
            ops['set b'] = buffers((n, 2)), lambda o, x: setattr(o['table'], 'b', x)
        for x in ('good', 'type f4', 'Map', 'longer'):
            ops[f'pack {x}'] = buffers((n,)), lambda o, y, x=x: o['table'].pack(buffers(shape)[x](), out=y)
            ops[f'unpack {x}'] = buffers(shape[:t0.ndim]), lambda o, y, x=x: o['table'].unpack(buffers((n,))[x](), out=y)
            ops[f'unpack missing {x}'] = buffers(()), lambda o, y, x=x: o['table'].unpack(buffers((n,))[x](), missing_value=y)
            ops[f'unpack missing with an output {x}'] = buffers(()), lambda o, y, x=x: o['table'].unpack(buffers((n,))[x](), missing_value=y, out=o['buffer'])
        ops['select'] = selections(n), lambda o, x: o['table'][x]
        ops['split'] = selections(n), lambda o, x: o['table'].split(x)
        ops['gather'] = buffers((n,)), lambda o, x: o['table'].gather(x)
        ops['scatter'] = buffers((n,)), lambda o, x: o['table'].scatter(x)
        if isinstance(t0, p.Layout):
            for k in ('vertex', 'center'):
                ops[f'set {k}'] = buffers((n, 4, 2) if k == 'vertex' else (n, 2)), lambda o, x, k=k: setattr(o['table'], k, x)
        if isinstance(t0, p.Sampling):
            for k in ('ra', 'dec', 'azimuth', 'time', 'period', 'spherical'):
                ops[f'set {k}'] = buffers((n,)), lambda o, x, k=k: setattr(o['table'], k, x)
            ops['header'] = buffers(()), lambda o, x: o['table'].get_map_header(resolution=x)
        if isinstance(t0, p.Scene):
            ops['distribution'] = buffers(()), lambda o, x: o['table'].get_distribution_operator(x)
        explore(ck, label, make, ops)


KINDS = {'FSRMatrix': {}, 'FSCMatrix': {}, 'FSRBlockMatrix': {'block_shape': (2, 3)}, 'FSCBlockMatrix': {'block_shape': (2, 3)}, 'FSRRotation2dMatrix': {}, 'FSCRotation2dMatrix': {}, 'FSRRotation3dMatrix': {}, 'FSCRotation3dMatrix': {}}


def sparse(ck, kind=None, it=None):
    import pysimulators as p
    from pysimulators import sparse as s
    for vt in ('f8', 'f4', 'i4'):
        br, bc = KINDS[kind].get('block_shape', (2, 2) if '2d' in kind else (3, 3) if '3d' in kind else (1, 1))

        def matrix():
            m = getattr(s, kind)((4 * br, 3 * bc), dtype=vt, dtype_index=it, **KINDS[kind], **{('ncolmax' if kind[2] == 'R' else 'nrowmax'): 2})
            m.data.index = filled(m.data.shape, int) % 3
            for f in m.data.dtype.names[1:]:
                m.data[f] = filled(m.data[f].shape, float)
            return m

        def make(shaped=False):
            m = matrix()
            kw = {}
            if shaped and bc == 1:
                kw = {'shapein': (3, 1), 'shapeout': (2, 2)}
            return {'matrix': m, 'operator': (p.ProjectionOperator if kind[2] == 'R' else s.SparseOperator)(m, **kw), 'dense': m.data.copy()}
        sin, sout = (3,) + ((bc,) if bc > 1 else ()), (4,) + ((br,) if br > 1 else ())
        ops = {
            'product': (buffers((3 * bc,)), lambda o, x: o['matrix'] * x), 'left product': (buffers((4 * br,)), lambda o, x: x * o['matrix'] if not isinstance(x, np.ndarray) else o['matrix'].__rmul__(x)),
            'product in': (buffers((4 * br,), 'f4' if vt == 'f4' else 'f8'), lambda o, x: o['matrix']._matvec(filled((3 * bc,), 'f4' if vt == 'f4' else 'f8'), out=x)), 'operator': (buffers(sin), lambda o, x: o['operator'](x)),
            'transpose': (buffers(sout), lambda o, x: o['operator'].T(x)), 'operator in': (plain(sout), lambda o, x: o['operator'](filled(sin, float), x)), 'transpose in': (plain(sin), lambda o, x: o['operator'].T(filled(sout, float), x)),
            'in-place addition': (contiguous(sout), lambda o, x: o['operator'](filled(sin, float), x, operation=operator.iadd)), 'invalid operation': (plain(sout), lambda o, x: o['operator'](filled(sin, float), x, operation=operator.isub)),
            'invalid transposed operation': (plain(sin), lambda o, x: o['operator'].T(filled(sout, float), x, operation=operator.itruediv)),
            'same data': (buffers((4 if kind[2] == 'R' else 3, 2)), lambda o, x: type(o['matrix'])(o['matrix'].shape, data=x)),
        }
        for inplace in (False, True):
            ops[f'restriction {inplace}'] = buffers((3,), bool), lambda o, x, i=inplace: o['operator'].restrict(x, inplace=i)
            ops[f'corestriction {inplace}'] = buffers((4,), bool), lambda o, x, i=inplace: o['operator'].corestrict(x, inplace=i)
        if kind[2] == 'R':
            for name, op in (('assignment', None), ('addition', operator.iadd), ('product', operator.imul), ('conjunction', operator.iand), ('subtraction', operator.isub), ('division', operator.itruediv)):
                kw = {'operation': op} if op else {}
                ops[f'kernel {name}'] = buffers((3,), bool), lambda o, x, kw=kw: o['operator'].canonical_basis_in_kernel(out=x, **kw)
                ops[f'pT1 {name}'] = {k: v for k, v in buffers((3,), vt).items() if k != 'type U3'}, lambda o, x, kw=kw: o['operator'].pT1(out=x, **kw)
                ops[f'pTx {name}'] = buffers((3,), 'f8'), lambda o, x, kw=kw: o['operator'].pTx_pT1(filled(sout, float), out=x, **kw)
            ops['pTx of'] = buffers(sout), lambda o, x: o['operator'].pTx_pT1(x)
        explore(ck, f'{kind} {it} {vt}', make, ops)
        if bc == 1 and it == 'i4':
            explore(ck, f'{kind} {it} {vt} shaped', lambda: make(True), {k: v for k, v in ops.items() if 'restriction' in k or k in ('operator', 'transpose', 'operator in', 'pTx of')})


def projections(ck):
    import pysimulators as p
    from checks.c27 import pmatrix

    def make():
        m = pmatrix()
        return {'matrix': m, 'raw': np.asarray(m).view(np.ndarray), 'operator': p.ProjectionInMemoryOperator(m)}
    x, y = filled((2, 2), float), filled((2, 3), float)
    ops = {
        'mask in': (buffers((2, 2), bool), lambda o, a: o['matrix'].get_mask(out=a)), 'mask by the operator in': (buffers((2, 2), bool), lambda o, a: o['operator'].get_mask(out=a)), 'pixels': (buffers((2, 2), bool), lambda o, a: o['matrix'].pack(a)),
        'samples': (buffers((2, 3), bool), lambda o, a: o['operator'].apply_mask(a)), 'pTp in': (buffers((4, 4)), lambda o, a: o['operator'].get_pTp(out=a)), 'pTx in': (buffers((2, 2)), lambda o, a: o['operator'].get_pTx_pT1(y, out=a)),
        'pTx of': (buffers((2, 3)), lambda o, a: o['operator'].get_pTx_pT1(a)), 'pTx with mask': (buffers((2, 3), bool), lambda o, a: o['operator'].get_pTx_pT1(y, mask=a)),
        'operator': (buffers((2, 2)), lambda o, a: o['operator'](a)), 'transpose': (buffers((2, 3)), lambda o, a: o['operator'].T(a)), 'operator in': (plain((2, 3)), lambda o, a: o['operator'](x, a)), 'transpose in': (plain((2, 2)), lambda o, a: o['operator'].T(y, a)),
        'addition in': (contiguous((2, 2)), lambda o, a: o['operator'].T(y, a, operation=operator.iadd)), 'subtraction in': (plain((2, 2)), lambda o, a: o['operator'].T(y, a, operation=operator.isub)),
        'diagonal': (buffers((2, 3)), lambda o, a: __import__('pyoperators').DiagonalOperator(a) * o['operator']), 'new': (buffers((2, 3)), lambda o, a: p.PointingMatrix(a, (2, 2))), 'intersects': (buffers((2,), int), lambda o, a: o['operator'].intersects(a)),
    }
    explore(ck, 'projection', make, ops)


BLOCKS = None, (slice(0, 1), slice(1, 4)), (slice(0, 2), slice(2, 3), slice(3, 4))


def acquisitions(ck, block):
    from checks import c22
    from pyoperators import operation_assignment
    import pysimulators as p

    def make(block=None):
        a = c22.build(block=block)
        a.get_operator()
        return {'acquisition': {k: v for k, v in vars(a).items() if k not in ('_operator', 'comm')}, 'a': [a.instrument, a.sampling, a.scene, a.block], 'detector': vars(a.instrument.detector), 'sampling': vars(a.sampling), 'scene': vars(a.scene), '_': (lambda: a)}
    sh = (3, 4)
    ops = {
        'observation of': (buffers((3,)), lambda o, x: o['_']().get_observation(x)), 'select': (selections(3), lambda o, x: o['_']()[x]), 'select samples': (selections(4), lambda o, x: o['_']()[:, x]), 'select pixels': (selections(3), lambda o, x: o['_']()[..., x]),
        'noise in': (buffers(sh), lambda o, x: o['_']().get_noise(out=x)), 'pack in': (buffers((3,)), lambda o, x: o['_']().pack(filled((3,), float), out=x)), 'unpack in': (buffers((3,)), lambda o, x: o['_']().unpack(filled((3,), float), out=x)),
    }
    for noiseless in (False, True):
        for op in (operation_assignment, operator.iadd, operator.imul):
            ops[f'observation {noiseless} {op.__name__} in'] = plain(sh), lambda o, x, n=noiseless, op=op: o['_']().get_observation(filled((3,), float), n, out=x, operation=op)
            ops[f'noise {noiseless} {op.__name__}'] = buffers(sh), lambda o, x, op=op: o['_']().get_noise(out=x, operation=op)
    explore(ck, f'acquisition {block}', lambda: make(block), ops)


def instruments(ck):
    from pyoperators import operation_assignment
    import pysimulators as p
    sh = (3, 4)

    def instrument():
        i = p.Instrument(p.PackedTable(3, a=np.arange(3.)), 'x')
        s = p.Sampling(4, period=.5)
        return {'instrument': vars(i), 'detector': vars(i.detector), 'sampling': vars(s), '_': (lambda: (i, s))}
    ops = {'select': (selections(3), lambda o, x: o['_']()[0][x]), 'split': (selections(3), lambda o, x: o['_']()[0].split(x)), 'pack': (buffers((3,)), lambda o, x: o['_']()[0].pack(x)), 'unpack': (buffers((3,)), lambda o, x: o['_']()[0].unpack(x))}
    for k, kw in (('white', {'sigma': 2.}), ('detectors', {'sigma': np.array([1., 2, 3])}), ('correlated', {'sigma': 2., 'fknee': .1}), ('spectrum', {'psd': np.array([1., 2, 1]), 'bandwidth': .5}), ('spectra', {'psd': np.ones((3, 3)), 'bandwidth': .5}), ('other detectors', {'sigma': np.ones(2), 'fknee': .1})):
        for op in (operation_assignment, operator.iadd, operator.imul, operator.ior):
            ops[f'{k} noise {op.__name__}'] = buffers(sh), lambda o, x, kw=kw, op=op: o['_']()[0].get_noise(o['_']()[1], out=x, operation=op, **kw)
    for k in ('sigma', 'fknee', 'psd', 'nep', 'bandwidth', 'fslope'):
        ops[f'noise {k}'] = buffers((3,)), lambda o, x, k=k: o['_']()[0].get_noise(o['_']()[1], **{'sigma': 1., 'fknee': 1., k: x})
        ops[f'invntt {k}'] = buffers((3,)), lambda o, x, k=k: o['_']()[0].get_invntt_operator(o['_']()[1], **{'sigma': 1., 'fknee': 1., k: x})
    explore(ck, 'instrument', instrument, ops)


def files(ck, cls, shape):
    """ Data that cannot be saved, paths that cannot be written: the data and the files are left alone. """
    import pathlib
    import shutil
    import tempfile
    import pysimulators as p

    def listing(folder):
        return {str(f.relative_to(folder)): f.read_bytes() if f.is_file() else None for f in sorted(folder.rglob('*'))}

    def content(shape, dtype):
        if dtype == 'O':
            return np.full(shape, 'text', object)
        return filled(shape, dtype)

    def one(cls, shape, dtype, unit, companions, derived, path, extension):
        folder = pathlib.Path(tempfile.mkdtemp(prefix='c28'))
        try:
            (folder / 'sub').mkdir()
            p.Map(filled((2, 3), float), coverage=filled((2, 3), float)).save(str(folder / 'old.fits'))
            (folder / 'text').write_text('abc')
            v = content(shape, dtype)
            kw = {}
            if derived == 'number':
                kw['derived_units'] = {'pixel': p.Quantity(4., 'arcsec^2')}
            elif derived == 'function':
                kw['derived_units'] = {'pixel': lambda x: p.Quantity(1., 'sr')}
            if cls == 'PointingMatrix':
                a = p.PointingMatrix.ones((2, 3), (2, 2), verbose=False)
            else:
                a = getattr(p, cls)(v, dtype=v.dtype, unit=unit, **kw)
            if companions and cls == 'Map':
                a.coverage = content(shape, companions)
                if shape:
                    a.error = content(shape, companions)
            elif companions and cls == 'Tod':
                a.mask = np.ones(shape, bool)
            target = {'old': folder / 'old.fits', 'new': folder / 'new.fits', 'missing folder': folder / 'none' / 'x.fits', 'folder': folder / 'sub', 'below a file': folder / 'text' / 'x.fits', 'number': 3, 'None': None, 'other name': folder / 'text', 'old text': str(folder / 'old.fits')}[path]
            try:
                a.header  # created when it is first requested
            except Exception:
                pass
            w, before = Watched(target=a, values=v), listing(folder)
            what = f'{cls} {shape} {dtype} {unit!r} {companions} {derived} {path}'
            if extension:
                e = attempt(what, w, lambda: p.mpiutils.write_fits(target, a, None, True, 'extra', __import__('pyoperators').MPI.COMM_SELF))
            else:
                e = attempt(what, w, lambda: a.save(target))
            if e is None:
                return
            now = listing(folder)
            if now != before:
                raise Mismatch(f'{what} is refused ({type(e).__name__}: {str(e)[:80]}), but the files {sorted(k for k in before.keys() | now.keys() if before.get(k, 0) != now.get(k, 0))} have been changed, removed or created')
            require(True, what)
            return type(e).__name__
        finally:
            shutil.rmtree(folder)

    for dtype, unit in itertools.product(('f8', 'f2', '?', 'O', [('a', 'f8')]) if ck.quick else ('f8', 'f2', 'i4', 'u8', '?', 'c16', 'O', 'U3', 'S3', 'g', [('a', 'f8')], 'M8[s]'), ('Jy / pixel',) if ck.quick else ('', 'Jy / pixel')):
        for path in ('old', 'new', 'missing folder', 'folder', 'None') if ck.quick else ('old', 'new', 'missing folder', 'folder', 'below a file', 'number', 'None', 'other name', 'old text'):
            for companions, derived in itertools.product((None, 'f8', 'f2', 'O') if cls == 'Map' else (None, '?') if cls == 'Tod' else (None,), (None, 'number', 'function')):
                ck.check(f'save {cls} {shape} {dtype} {unit!r} {companions} {derived} {path}', one, cls, shape, dtype, unit, companions, derived, path, False)
            ck.check(f'extension {cls} {shape} {dtype} {unit!r} {path}', one, cls, shape, dtype, unit, None, None, path, True)
    for path in ('old', 'new', 'folder'):
        ck.check(f'save PointingMatrix {path}', one, 'PointingMatrix', (), 'f8', '', None, None, path, False)


def scenarios(tier):
    names = list(MUTATIONS)
    r = [(f'in place {" ".join(names[i::12])}'[:150], in_place(names[i::12])) for i in range(12)]
    r += [(f'tables {i}', lambda ck, i=i: tables(ck, i)) for i in range(4)]
    r += [(f'sparse {k} {it}', lambda ck, k=k, it=it: sparse(ck, k, it)) for k in KINDS for it in (('i4', 'u4') if tier == 'quick' else ('i4', 'i8', 'u4', 'i1'))]
    r += [(f'acquisitions {b}', lambda ck, b=b: acquisitions(ck, b)) for b in BLOCKS] + [*((f'files {c} {sh}', lambda ck, c=c, sh=sh: files(ck, c, sh)) for c in ('FitsArray', 'Map', 'Tod') for sh in ((2, 3), (3,), ())), ('instruments', instruments), ('projections', projections)]
    return r
