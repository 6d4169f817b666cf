"""
C06: arithmetic on quantities never yields a value inconsistent with its unit.

The reference keeps each operand as physical values (float64 arrays in base units) with the exponents of its dimensions, and
parses the unit strings itself.  An operation on the quantities has to give the operation on the physical values.
"""
import itertools
import math
import operator
import re
import warnings

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C06'
TECHNIQUE = 'exhaustive enumeration of operators, contexts, units, shapes and types of operands, and of every sequence of in-place and out-of-place operations up to a depth, executed on the implementation against arithmetic on the physical values'
NOTE = (
    'Plain numbers and unitless quantities combined additively with a quantity take its unit (convention of the existing tests). Scalars extracted from 1-d '
    'quantities are plain numbers (idem). Rounding, sign, trigonometric and transcendental functions act on the magnitudes and linear algebra, FFT, polynomial and '
    'histogram functions drop the units: not claimed.'
)
BOUNDS = (
    '14 units (scaled, composite, fractional, unknown and derived-only), operands of shapes (), (2,), (2, 1) and (2, 2), float64, float32 and complex128; 27 binary and 13 unary ufuncs, out of place, in place, with an output buffer and '
    'through the outer, reduce, accumulate, reduceat and at methods; 27 reductions as functions, methods and ufuncs with every axis; 25 joining, selecting and comparing functions with every '
    'pair of units; every sequence of 2 (quick) or 3 (thorough) operations among 44 on three registers'
)

# reference unit table: factor and exponents of the base dimensions
TABLE = {
    'm': (1, 'm'), 'km': (1e3, 'm'), 'mm': (1e-3, 'm'), 's': (1, 's'), 'ms': (1e-3, 's'), 'Hz': (1, {'s': -1}),
    'kg': (1, 'kg'), 'N': (1, {'kg': 1, 'm': 1, 's': -2}), 'W': (1, {'kg': 1, 'm': 2, 's': -3}), 'J': (1, {'kg': 1, 'm': 2, 's': -2}),
    'rad': (1, 'rad'), 'deg': (math.pi / 180, 'rad'), 'arcmin': (math.pi / 10800, 'rad'), 'kloug': (1, 'kloug'), '?': (1, '?'), 'det': (1, 'det'),
    'Jy': (1e-26, {'kg': 1, 's': -2}),
}


def parse(text):
    """ 'km^2 / s' -> (factor, {dimension: exponent}), independent of the parser of the package. """
    factor, dims, sign = 1.0, {}, 1
    for word in re.findall(r'/|[^\s/*]+', text):
        if word == '/':
            sign = -1
            continue
        name, _, e = word.partition('^')
        e = sign * (float(e) if e else 1.0)
        sign = 1
        f, d = TABLE[name]
        factor *= f ** e
        if isinstance(d, str):
            d = {d: 1}
        for k, v in d.items():
            dims[k] = dims.get(k, 0) + e * v
    return factor, clean(dims)


def clean(dims):
    return {k: round(v, 9) for k, v in dims.items() if abs(v) > 1e-9}


def dmul(a, b, sign=1):
    return clean({k: a.get(k, 0) + sign * b.get(k, 0) for k in {*a, *b}})


def dpow(a, n):
    return clean({k: v * n for k, v in a.items()})


class P:
    """ Physical value. bare: without unit, takes the unit of what it is combined with. """

    def __init__(self, v, dims, bare, factor=1.0):
        self.v, self.dims, self.bare, self.factor = np.asarray(v), dims, bare, factor


def phys(x):
    from pysimulators import Quantity
    if isinstance(x, Quantity):
        unit = x.unit
        f, d = parse(unit)
        v = np.array(x.view(np.ndarray))
        v = v.astype(complex if v.dtype.kind == 'c' else float)
        return P(v * f, d, unit == '', f)
    v = np.array(x)
    if v.dtype.kind in 'iuf':
        v = v.astype(float)
    return P(v, {}, True)


class Incompatible(Exception):
    pass


def common(*ps):
    """ Physical values of operands added together: the bare ones take the unit of the first which has one. """
    ref = next((p for p in ps if not p.bare), None)
    if ref is None:
        return [p.v for p in ps], P(0, {}, True)
    out = []
    for p in ps:
        if p.bare:
            out.append(p.v * ref.factor)
        elif p.dims != ref.dims:
            raise Incompatible
        else:
            out.append(p.v)
    return out, ref


def additive(func):
    def f(a, b):
        (x, y), ref = common(a, b)
        return P(func(x, y), ref.dims, ref.bare, ref.factor)
    f.homog = True
    return f


def compare(func):
    def f(a, b):
        (x, y), ref = common(a, b)
        return P(func(x, y), {}, True)
    f.homog = True
    return f


def product(func, sign=1):
    def f(a, b):
        d = dmul(a.dims, b.dims, sign)
        return P(func(a.v, b.v), d, None)
    f.homog = False
    return f


def floordiv(a, b):
    if not a.bare and not b.bare and a.dims == b.dims:
        return P(np.floor_divide(a.v, b.v), {}, None)
    # convention: the division of the magnitudes is rounded
    f = a.factor / b.factor
    return P(np.floor_divide(a.v / a.factor, b.v / b.factor) * f, dmul(a.dims, b.dims, -1), None)


floordiv.homog = False


def divmod_(a, b):
    try:
        rem = additive(np.remainder)(a, b)
        if a.bare == b.bare:
            return P(np.floor_divide(a.v, b.v), {}, None), rem
        return floordiv(a, b), rem
    except Incompatible:
        raise


def copysign(a, b):
    return P(np.copysign(a.v, b.v), a.dims, a.bare, a.factor)


BINARY = {
    'add': additive(np.add), 'subtract': additive(np.subtract), 'maximum': additive(np.maximum), 'minimum': additive(np.minimum),
    'fmax': additive(np.fmax), 'fmin': additive(np.fmin), 'fmod': additive(np.fmod), 'remainder': additive(np.remainder), 'hypot': additive(np.hypot),
    'nextafter': additive(np.nextafter), 'arctan2': compare(np.arctan2),
    'multiply': product(np.multiply), 'divide': product(np.divide, -1), 'true_divide': product(np.true_divide, -1), 'floor_divide': floordiv, 'divmod': divmod_,
    'copysign': copysign,
    'equal': compare(np.equal), 'not_equal': compare(np.not_equal), 'less': compare(np.less), 'less_equal': compare(np.less_equal),
    'greater': compare(np.greater), 'greater_equal': compare(np.greater_equal),
}
MODULO = {'fmod', 'remainder', 'divmod'}
NOCOMPLEX = {'fmod', 'remainder', 'hypot', 'nextafter', 'arctan2', 'floor_divide', 'divmod', 'copysign'}
ORDERED = {'maximum', 'minimum', 'fmax', 'fmin', 'less', 'less_equal', 'greater', 'greater_equal'}

UNARY = {
    'positive': 1, 'negative': 1, 'absolute': 1, 'fabs': 1, 'conjugate': 1, 'square': 2, 'sqrt': .5, 'cbrt': 1 / 3, 'reciprocal': -1,
    'isfinite': None, 'isnan': None, 'signbit': None, 'sign': None,
}

UNITS = ['', 'm', 'km', 'mm', 's', 'm / s', 'km / ms', 'Hz', 's^-1', 'm^2', 'N', 'deg', 'kloug', 'kloug / det']
PAIRS = list(itertools.product(UNITS, UNITS))
RTOL = 1e-12


def close(got, p, what, rtol=RTOL, scale=0):
    """ The quantity (or plain array) got has the physical value p. """
    g = phys(got)
    if p.bare is None or p.dims:
        dims = p.dims
    else:
        dims = {}
    if g.dims != dims:
        raise Mismatch(f'{what}: unit {getattr(got, "unit", None)!r} has dimensions {g.dims} instead of {dims}')
    e = np.asarray(p.v)
    if e.dtype.kind == 'b':
        same_array(g.v, e, what)
        return
    if np.isfinite(e).any():
        scale = max(scale, float(np.max(np.abs(e[np.isfinite(e)]))))
    same_array(g.v, e, what, rtol=rtol, atol=scale * rtol)


def snapshot(*xs):
    from pysimulators import Quantity
    return [(np.array(x).tobytes(), x.unit if isinstance(x, Quantity) else None) for x in xs]


def unchanged(snap, xs, what):
    eq(snapshot(*xs), snap, f'{what}: operands')


def values(shape, which, dt):
    n = int(np.prod(shape))
    # no ratio close to an integer in any unit: the floor of the division is robust to the rounding of the conversions
    base = ([7.531, 2.293, -3.137, .6317] if which == 0 else [2.00137, -1.5071, .75239, 5.0417])[:n]
    a = np.array(base).reshape(shape).astype(dt)
    if np.dtype(dt).kind == 'c':
        a = a + np.array([.5j, -2j, 0, 1j][:n]).reshape(shape)
        a = a.astype(dt)
    return a


def make(kind, shape, which, unit, dt):
    """ kind: q quantity, n array, l list, f scalar """
    from pysimulators import Quantity
    a = values(shape, which, dt)
    if kind == 'q':
        return Quantity(a, unit)
    if kind == 'n':
        return a
    if kind == 'l':
        return a.tolist()
    return a[()].item()


def tol(dts):
    return 2e-6 if any(np.dtype(d) == np.float32 for d in dts) else RTOL


def binary_call(name, k1, u1, k2, u2, s1, s2, dt1, dt2, context):
    a, b = make(k1, s1, 0, u1, dt1), make(k2, s2, 1, u2, dt2)
    snap = snapshot(a, b)
    ufunc = getattr(np, name)
    ref = BINARY[name]
    rtol = tol((dt1, dt2))
    scale = 0
    if name in MODULO:
        scale = float(np.abs(phys(a).v).max())
        if not (isinstance(a, np.ndarray) and getattr(a, 'unit', '')):
            scale *= phys(b).factor
    try:
        e = ref(phys(a), phys(b))
    except Incompatible:
        e = None
    from pysimulators import Quantity, UnitError
    alias = a
    if context == 'call':
        call = lambda: ufunc(a, b)
    elif context == 'op':
        call = lambda: OPS[name](a, b)
    elif context == 'inplace':
        call = lambda: IOPS[name](a, b)
    elif context == 'out':
        shape = np.broadcast_shapes(s1, s2)
        kind = complex if 'c' in np.dtype(dt1).kind + np.dtype(dt2).kind else float
        n = 2 if name == 'divmod' else 1
        outs = tuple(Quantity.zeros(shape, 'Jy', dtype=kind) for _ in range(n))
        call = lambda: ufunc(a, b, out=outs if n > 1 else outs[0])
    elif context == 'outb':
        call = lambda: ufunc(a, b, out=b)
    elif context == 'outer':
        call = lambda: ufunc.outer(a, b)
        try:
            pa, pb = phys(a), phys(b)
            pa.v = pa.v.reshape(pa.v.shape + pb.v.ndim * (1,))
            e = ref(pa, pb)
        except Incompatible:
            e = None
    what = f'{name} {context}'
    if e is None:
        raises(UnitError, call)
        unchanged(snap, (a, b), what)
        if context == 'out':
            for o in outs:
                eq(o.unit, 'Jy', 'unit of the untouched buffer')
                same_array(o.magnitude, np.zeros(shape), 'untouched buffer')
        return
    r = call()
    if context == 'inplace':
        if isinstance(a, Quantity):
            require(r is alias, f'{what}: the quantity modified in place is another object')
            unchanged(snap[1:], (b,), what)
        close(r, e, what, rtol, scale)
        close(alias, e if isinstance(a, Quantity) else P(np.asarray(r), {}, True), f'{what}: other reference', rtol, scale)
        return
    if context == 'outb':
        require(r is b, f'{what}: the buffer is not returned')
        unchanged(snap[:1], (a,), what)
    else:
        unchanged(snap, (a, b), what)
    es = e if isinstance(e, tuple) else (e,)
    rs = r if isinstance(e, tuple) else (r,)
    for i, (e_, r_) in enumerate(zip(es, rs)):
        if context == 'out':
            require(r_ is outs[i], f'{what}: the buffer is not returned')
            if not any(isinstance(x, Quantity) and x.unit for x in (a, b)):
                # values without unit are in that of the buffer
                e_ = P(e_.v * 1e-26, parse('Jy')[1], False)
        close(r_, e_, what, rtol, scale if name != 'divmod' or i == 1 else 0)
        if any(isinstance(x, Quantity) for x in (a, b)) and e_.v.dtype.kind != 'b' and name != 'arctan2' and e_.dims:
            require(isinstance(r_, Quantity), f'{what}: not a quantity')


OPS = {
    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'divide': operator.truediv, 'floor_divide': operator.floordiv, 'remainder': operator.mod,
    'divmod': divmod, 'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt, 'greater_equal': operator.ge,
}
IOPS = {'add': operator.iadd, 'subtract': operator.isub, 'multiply': operator.imul, 'divide': operator.itruediv, 'floor_divide': operator.ifloordiv, 'remainder': operator.imod}


def binary(ck, name):
    shapes = [((), ()), ((2,), (2,)), ((2,), ()), ((2, 1), (2,)), ((), (2,))]
    if not ck.quick:
        shapes += [((2, 2), (2, 2)), ((2, 2), (2, 1)), ((1,), (2,))]
    for (u1, u2), (s1, s2) in itertools.product(PAIRS, shapes):
        dts = [(float, float)]
        if s1 == s2 == (2,) or not ck.quick:
            dts += [(np.float32, float), (np.float32, np.float32)]
            if name not in NOCOMPLEX | ORDERED:
                dts += [(complex, float), (float, complex)]
        if name == 'nextafter' or name in MODULO or name == 'floor_divide':
            dts = [(float, float)]
        for dt1, dt2 in dts:
            kinds = [('q', 'q')]
            if u2 == '':
                kinds += [('q', 'n'), ('n', 'q'), ('q', 'l')] if s2 else [('q', 'n'), ('q', 'f'), ('f', 'q')] if not s1 else [('q', 'n'), ('q', 'f')]
            for k1, k2 in kinds:
                if (k1, k2) in (('n', 'q'), ('f', 'q')):
                    # swap: the first operand is plain
                    v1, v2 = '', u1
                    if k1 == 'f' and s1:
                        continue
                else:
                    v1, v2 = u1, u2
                contexts = ['call', 'out', 'outer']
                if name in OPS:
                    contexts.append('op')
                if name in IOPS and np.broadcast_shapes(s1, s2) == s1 and np.result_type(dt1, dt2) == np.dtype(dt1) and k1 in 'qn' \
                        and not (k1 == 'n' and not s1):
                    contexts.append('inplace')
                if k2 == 'q' and np.broadcast_shapes(s1, s2) == s2 and np.result_type(dt1, dt2) == np.dtype(dt2) and k1 == 'q' \
                        and name not in ('divmod',) and name not in COMPARISONS and not (v1 == v2 == ''):
                    contexts.append('outb')
                for c in contexts:
                    if c == 'outer' and not (k1 in 'qn' and k2 in 'qn' or name == 'add'):
                        continue
                    if c == 'outer' and name == 'divmod':
                        continue
                    ck.check((name, k1, v1, k2, v2, s1, s2, np.dtype(dt1).name, np.dtype(dt2).name, c), binary_call, name, k1, v1, k2, v2, s1, s2, dt1, dt2, c)


COMPARISONS = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'arctan2'}


# -- unary ----------------------------------------------------------------------------

def unary_call(name, unit, shape, dt, context):
    from pysimulators import Quantity
    a = make('q', shape, 0, unit, dt)
    if name in ('sqrt',) and np.dtype(dt).kind == 'f':
        a = abs(a)
    snap = snapshot(a)
    ufunc = getattr(np, name)
    p = phys(a)
    power = UNARY[name]
    e = P(ufunc(p.v), dpow(p.dims, power) if power is not None else {}, None)
    if context == 'call':
        r = ufunc(a)
    elif context == 'op':
        r = {'positive': operator.pos, 'negative': operator.neg, 'absolute': operator.abs}[name](a)
    elif context == 'out':
        o = Quantity.zeros(shape, 'Jy', dtype=e.v.dtype)
        r = ufunc(a, out=o)
        require(r is o, 'the buffer is not returned')
        if not unit:
            e = P(e.v * 1e-26, parse('Jy')[1], False)
    elif context == 'inplace':
        r = ufunc(a, out=a)
        require(r is a, 'the buffer is not returned')
    close(r, e, f'{name} {context}', tol((dt,)))
    if context != 'inplace':
        unchanged(snap, (a,), name)
    if power is not None:
        require(isinstance(r, Quantity), 'not a quantity')


def unary(ck):
    for name, unit, shape, dt in itertools.product(UNARY, UNITS, [(), (2,), (2, 2)], [float, np.float32, complex]):
        if np.dtype(dt).kind == 'c' and name in ('fabs', 'cbrt', 'signbit', 'sign'):
            continue
        contexts = ['call']
        if UNARY[name] is not None:
            contexts.append('out')
            if not (name == 'absolute' and np.dtype(dt).kind == 'c'):
                contexts.append('inplace')
        if name in ('positive', 'negative', 'absolute'):
            contexts.append('op')
        for c in contexts:
            ck.check((name, unit, shape, np.dtype(dt).name, c), unary_call, name, unit, shape, dt, c)


def two_outputs(name, unit, shape, buffers):
    from pysimulators import Quantity
    a = make('q', shape, 0, unit, float)
    ufunc = getattr(np, name)
    ma = a.magnitude
    out = tuple(Quantity.zeros(shape, 'Jy', dtype=d) for d in ((float, float) if name == 'modf' else (float, np.int32))) if buffers else None
    r = ufunc(a, out=out) if buffers else ufunc(a)
    f, d = parse(unit)
    f2, d2 = (f, d) if name == 'modf' else (1, {})
    if buffers:
        require(all(x is y for x, y in zip(r, out)), 'the buffers are not returned')
        if not unit:
            f = f2 = 1e-26
            d = d2 = parse('Jy')[1]
    e = ufunc(ma)
    close(r[0], P(e[0] * f, d, None), name)
    close(r[1], P(e[1] * f2, d2, None), name)


def powers(name, unit, shape, exp, context):
    from pysimulators import Quantity, UnitError
    a = abs(make('q', shape, 0, unit, float))
    n, value = exp(shape)
    p = phys(a)
    snap = snapshot(a)
    ufunc = getattr(np, name)

    def call():
        if context == 'call':
            return ufunc(a, n)
        if context == 'op':
            return a ** n
        if context == 'inplace':
            r = a
            r **= n
            return r
        if context == 'base':
            return 2 ** a
    if context == 'base':
        if unit:
            raises(UnitError, call)
            unchanged(snap, (a,), 'base')
        else:
            close(call(), P(2 ** p.v, {}, None), 'base')
        return
    if value is None and unit:
        raises(UnitError, call)
        unchanged(snap, (a,), 'power')
        return
    if value is None:
        value = np.asarray(n)
        if isinstance(n, Quantity) and n.unit:
            raises(UnitError, call)
            return
    r = call()
    if context == 'inplace':
        require(r is a, 'the quantity modified in place is another object')
    else:
        unchanged(snap, (a,), 'power')
    close(r, P(p.v ** value, dpow(p.dims, value) if unit else {}, None), 'power')


def power(ck):
    from pysimulators import Quantity as Q
    exps = {
        '2': lambda s: (2, 2), '-1': lambda s: (-1, -1), '.5': lambda s: (.5, .5), '0': lambda s: (0, 0), '1': lambda s: (1, 1), '3.': lambda s: (3., 3), '-1.5': lambda s: (-1.5, -1.5),
        'np.int': lambda s: (np.int64(2), 2), '0-d': lambda s: (np.array(2), 2), 'q': lambda s: (Q(2), 2), 'same': lambda s: (np.full(s, 2.), 2), 'list': lambda s: ([2, 2], 2) if s and s[-1] == 2 else (2, 2),
        'several': lambda s: (np.array([1., 2.]), None) if s else (2, 2), 'qseveral': lambda s: (Q([1., 2.]), None) if s else (2, 2),
        'metre': lambda s: (Q(2, 'm'), None), 'ratio': lambda s: (Q(.002, 'km / m'), 2),
    }
    for name, unit, shape, (k, exp) in itertools.product(['power', 'float_power'], UNITS, [(), (2,), (2, 2)], exps.items()):
        contexts = ['call'] + (['op', 'inplace', 'base'] if name == 'power' else [])
        for c in contexts:
            ck.check((name, unit, shape, k, c), powers, name, unit, shape, exp, c)


def outputs2(ck):
    for name, unit, shape, b in itertools.product(['modf', 'frexp'], UNITS, [(), (2,), (2, 2)], [False, True]):
        ck.check((name, unit, shape, b), two_outputs, name, unit, shape, b)


# -- methods of ufuncs -----------------------------------------------------------------

def reduce_call(name, unit, shape, axis, keep, initial, where, method):
    from pysimulators import Quantity, UnitError
    a = make('q', shape, 0, unit, float)
    p = phys(a)
    snap = snapshot(a)
    ufunc = getattr(np, name)
    kw, pkw = {}, {}
    if method == 'reduce':
        kw = {'keepdims': keep}
        pkw = {'keepdims': keep}
    kw['axis'] = pkw['axis'] = axis
    err = False
    dims = p.dims
    if initial is not None:
        i = Quantity(initial[0], initial[1]) if initial[1] is not None else initial[0]
        kw['initial'] = i
        pi = phys(i)
        if name == 'multiply':
            pkw['initial'] = pi.v
            extra = pi.dims
        else:
            try:
                (_, iv), ref = common(p, pi)
                if p.bare and not pi.bare:
                    p = P(p.v * pi.factor, pi.dims, False, pi.factor)
                pkw['initial'] = iv
                dims = ref.dims
            except Incompatible:
                err = True
    if where:
        w = np.arange(a.size).reshape(shape) % 2 == 0
        kw['where'] = pkw['where'] = w
    if name == 'multiply':
        if unit and (method != 'reduce' or where):
            err = True
        elif method == 'reduce':
            axes = range(len(shape)) if axis is None else axis if isinstance(axis, tuple) else (axis,)
            n = 1
            for x in axes:
                n *= shape[x]
            dims = dpow(dims, n)
            if initial is not None:
                dims = dmul(dims, extra)
    if method == 'reduceat':
        f = lambda: ufunc.reduceat(a, [0, 1], axis=axis)
        g = lambda: ufunc.reduceat(p.v, [0, 1], axis=axis)
    else:
        f = lambda: getattr(ufunc, method)(a, **kw)
        g = lambda: getattr(ufunc, method)(p.v, **pkw)
    if err:
        raises(UnitError, f)
    else:
        r = f()
        close(r, P(g(), dims, None), f'{name}.{method}')
        if dims:
            require(isinstance(r, Quantity), 'not a quantity')
    unchanged(snap, (a,), name)


def reduces(ck):
    inits = [None, (3., None), (3., 'm'), (3., 'km'), (3., ''), (3., 's')]
    for name, unit, shape in itertools.product(['add', 'maximum', 'minimum', 'fmax', 'fmin', 'multiply', 'hypot'], UNITS, [(2,), (2, 2), (1,), (3, 2)]):
        if shape == (3, 2):
            axes = [0, 1, -1, None, (0, 1)]
        else:
            axes = [0, -1, None]
        for axis in axes if name not in ('hypot',) else [0]:
            if shape == (3, 2):
                continue
            for keep, init, where in itertools.product([False, True], inits, [False, True]):
                if (init and (name == 'hypot')) or where and (init is None or name in ('hypot',)) and name not in ('add', 'multiply'):
                    continue
                ck.check((name, unit, shape, axis, keep, init, where, 'reduce'), reduce_call, name, unit, shape, axis, keep, init, where, 'reduce')
        ax = 0
        if shape in ((2,), (2, 2)):
            for method in ('accumulate', 'reduceat'):
                for ax in ([0] if len(shape) == 1 else [0, 1, -1]):
                    ck.check((name, unit, shape, ax, method), reduce_call, name, unit, shape, ax, False, None, False, method)


def at_call(name, u1, u2, shape):
    from pysimulators import Quantity, UnitError
    a, b = make('q', shape, 0, u1, float), make('q', (2,) + shape[1:], 1, u2, float) if u2 is not None else values((2,) + shape[1:], 1, float)
    pa, pb = phys(a), phys(b)
    snap = snapshot(a, b)
    ufunc = getattr(np, name)
    idx = [1, 1]
    err = False
    if name in ('multiply', 'divide'):
        x, y = pa.v, pb.v
        dims = pa.dims
        err = u2 not in (None, '')
    else:
        try:
            (x, y), ref = common(pa, pb)
            dims = ref.dims
        except Incompatible:
            err = True
    if err:
        raises(UnitError, ufunc.at, a, idx, b)
        unchanged(snap, (a, b), name)
        return
    ufunc.at(a, idx, b)
    x = np.array(x)
    ufunc.at(x, idx, y)
    close(a, P(x, dims, None), f'{name}.at')
    unchanged(snap[1:], (b,), name)


def ats(ck):
    for name, u1, u2, shape in itertools.product(['add', 'subtract', 'maximum', 'multiply', 'divide'], UNITS, UNITS + [None], [(2,), (2, 2)]):
        ck.check((name, u1, u2, shape), at_call, name, u1, u2, shape)


# -- reductions -------------------------------------------------------------------------

REDUCTIONS = {
    'sum': 1, 'mean': 1, 'std': 1, 'var': 2, 'min': 1, 'max': 1, 'amin': 1, 'amax': 1, 'ptp': 1, 'median': 1, 'average': 1, 'cumsum': 1, 'nansum': 1, 'nanmean': 1, 'nanstd': 1,
    'nanvar': 2, 'nanmin': 1, 'nanmax': 1, 'nanmedian': 1, 'nancumsum': 1, 'prod': 'n', 'nanprod': 'n', 'argmin': 0, 'argmax': 0, 'any': 0, 'all': 0, 'count_nonzero': 0,
    'percentile': 1, 'quantile': 1, 'nanpercentile': 1, 'nanquantile': 1, 'diff': 1, 'trace': 1, 'argsort': 0, 'sort': 1, 'linalg.norm': 1, 'cov': 2,
}
METHODS = ['sum', 'mean', 'std', 'var', 'min', 'max', 'cumsum', 'prod', 'argmin', 'argmax', 'any', 'all', 'trace', 'argsort']
NOAXIS = {'trace', 'cov'}
KEEP = {'sum', 'mean', 'std', 'var', 'min', 'max', 'amin', 'amax', 'median', 'nansum', 'nanmean', 'nanmax', 'prod', 'quantile', 'average', 'linalg.norm'}
BUFFER = {'sum', 'mean', 'std', 'var', 'min', 'max', 'ptp', 'median', 'cumsum', 'nansum', 'nanmean', 'nanstd', 'nanvar', 'prod', 'quantile', 'percentile', 'trace'}
POSITION = {'sum': 2, 'mean': 2, 'min': 1, 'max': 1, 'cumsum': 2, 'ptp': 1, 'median': 1}


def reduction_call(name, unit, shape, axis, how, nan, dt):
    from pysimulators import Quantity, UnitError
    a = make('q', shape, 0, unit, dt)
    if nan:
        a.view(np.ndarray).flat[0] = np.nan
    p = phys(a)
    snap = snapshot(a)
    f = np
    for n in name.split('.'):
        f = getattr(f, n)
    args = (50,) if 'percentile' in name else (.5,) if 'quantile' in name else ()
    kw = {} if axis == 'no' else {'axis': axis}
    power = REDUCTIONS[name]
    err = False
    if power == 'n':
        n = a.size if axis in (None, 'no') else shape[axis]
        err = name == 'nanprod' and nan and unit
        power = n
    if how == 'keep':
        kw['keepdims'] = True
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        e = P(f(p.v, *args, **kw), dpow(p.dims, power), None)
        if how == 'method':
            call = lambda: getattr(a, name)(**kw)
        elif how in ('buffer', 'position', 'mbuffer'):
            o = Quantity.zeros(np.shape(e.v), 'Jy')
            if how == 'buffer':
                call = lambda: f(a, *args, out=o, **kw)
            elif how == 'mbuffer':
                call = lambda: getattr(a, name)(out=o, **kw)
            else:
                call = lambda: f(a, kw.get('axis'), *((POSITION[name] - 1) * (None,)), o)
            if not unit:
                e = P(e.v * 1e-26, parse('Jy')[1], False)
        else:
            call = lambda: f(a, *args, **kw)
        if err:
            raises(UnitError, call)
            return
        r = call()
    if how in ('buffer', 'position', 'mbuffer'):
        require(r is o, 'the buffer is not returned')
    # standard deviations of equal values: absolute tolerance of the scale of the input
    g = phys(r)
    eq(g.dims, e.dims, f'{name}: dimensions of {getattr(r, "unit", None)!r}')
    scale = np.nanmax(np.abs(p.v)) ** (power if isinstance(power, (int, float)) and power else 1)
    if how in ('buffer', 'position', 'mbuffer') and not unit:
        scale *= 1e-26
    same_array(g.v, e.v, name, rtol=tol((dt,)), atol=scale * tol((dt,)))
    unchanged(snap, (a,), name)
    if power and e.dims:
        require(isinstance(r, Quantity), 'not a quantity')


def reductions(ck, name):
    for unit, shape, dt in itertools.product(UNITS, [(2,), (2, 2), (3, 1)] if not ck.quick else [(2,), (2, 2)], [float, np.float32]):
        if name == 'trace' and len(shape) != 2:
            continue
        axes = ['no'] if name in NOAXIS else [0, -1, None, 'no'] if name not in ('diff', 'sort', 'argsort') else [0, -1]
        if name == 'linalg.norm':
            axes = [0, -1, 'no']
        for axis, nan in itertools.product(axes, [False, True] if name.startswith('nan') else [False]):
            hows = ['call']
            if name in METHODS:
                hows.append('method')
            if name in KEEP and axis != 'no':
                hows.append('keep')
            if name in BUFFER and dt is float:
                hows.append('buffer')
                if name in METHODS and unit:
                    hows.append('mbuffer')
                if name in POSITION:
                    hows.append('position')
            for how in hows:
                ck.check((name, unit, shape, axis, nan, np.dtype(dt).name, how), reduction_call, name, unit, shape, axis, how, nan, dt)


# -- functions of several arrays --------------------------------------------------------

def homog(func, *which):
    """ func(np function call) on operands, where the values are homogenised. """
    return func, True


COND = np.array([True, False])
JOIN = {
    'append': lambda a, b: np.append(a, b),
    'block': lambda a, b: np.block([[a, b], [b, a]]),
    'choose': lambda a, b: np.choose(np.array([0, 1]), [a, b]),
    'clip': lambda a, b: np.clip(a, None, b),
    'clip2': lambda a, b: np.clip(a, b, b),
    'clip3': lambda a, b: a.clip(b, b) if isinstance(a, np.ndarray) else np.clip(a, b, b),
    'column_stack': lambda a, b: np.column_stack([a, b]),
    'concatenate': lambda a, b: np.concatenate([a, b]),
    'concatenate0': lambda a, b: np.concatenate([a, np.zeros(2), b, a]),
    'dstack': lambda a, b: np.dstack([a, b]),
    'hstack': lambda a, b: np.hstack([a, b]),
    'insert': lambda a, b: np.insert(a, 1, b),
    'pad': lambda a, b: np.pad(a, 1, constant_values=b[:1].reshape(())),
    'select': lambda a, b: np.select([COND, ~COND], [a, b]),
    'select_default': lambda a, b: np.select([COND], [a], default=b),
    'setxor1d': lambda a, b: np.setxor1d(a, b),
    'stack': lambda a, b: np.stack([a, b]),
    'sum_initial': lambda a, b: np.sum(a, initial=b[:1].reshape(())),
    'max_initial': lambda a, b: np.max(a, initial=b[:1].reshape(())),
    'min_initial': lambda a, b: a.min(initial=b[:1].reshape(())) if isinstance(a, np.ndarray) else np.min(a, initial=b[0]),
    'diff_prepend': lambda a, b: np.diff(a, prepend=b),
    'diff_append': lambda a, b: np.diff(a, append=b[:1].reshape(())),
    'full_like': lambda a, b: np.full_like(a, b[:1].reshape(())),
    'nan_to_num': lambda a, b: np.nan_to_num(a * np.array([np.nan, 1]), nan=b[:1].reshape(())),
    'union1d': lambda a, b: np.union1d(a, b),
    'vstack': lambda a, b: np.vstack([a, b]),
    'where': lambda a, b: np.where(COND, a, b),
    'sum': lambda a, b: sum([a, b]),
    'cov': lambda a, b: np.cov(a, b),
    'linspace': lambda a, b: np.linspace(a, b, 3),
}
LOGIC = {
    'array_equal': lambda a, b: np.array_equal(a, b),
    'array_equiv': lambda a, b: np.array_equiv(a, b[:1]),
    'isin': lambda a, b: np.isin(a, b),
    'searchsorted': lambda a, b: np.searchsorted(np.sort(a), b),
    'searchsorted_method': lambda a, b: np.sort(a).searchsorted(b),
    'digitize': lambda a, b: np.digitize(a, np.sort(b)),
    'intersect_len': lambda a, b: len(np.intersect1d(a, b)),
    'setdiff_len': lambda a, b: len(np.setdiff1d(a, b)),
}
PROD = {
    'dot': lambda a, b: np.dot(a, b), 'dot_method': lambda a, b: a.dot(b), 'matmul': lambda a, b: a @ b, 'inner': lambda a, b: np.inner(a, b), 'outer': lambda a, b: np.outer(a, b),
    'vdot': lambda a, b: np.vdot(a, b), 'tensordot': lambda a, b: np.tensordot(a, b, 1), 'kron': lambda a, b: np.kron(a, b), 'convolve': lambda a, b: np.convolve(a, b),
    'correlate': lambda a, b: np.correlate(a, b), 'einsum': lambda a, b: np.einsum('i,j->ij', a, b), 'cross': lambda a, b: np.cross(np.concatenate([a, a[:1]]), np.concatenate([b, b[1:]])),
    'trapezoid': lambda a, b: np.trapezoid(a, b), 'vecdot': lambda a, b: np.vecdot(a, b),
}


def several(table, name, u1, u2, kind2, equalvalues):
    from pysimulators import Quantity, UnitError
    f = table[name]
    a = make('q', (2,), 0, u1, float)
    b = make(kind2, (2,), 1, u2, float)
    if equalvalues:
        a.magnitude = [8., 3.]      # exact conversions
        f1, d1 = parse(u1)
        f2, d2 = parse(u2) if u2 else (f1, d1) if kind2 == 'n' or not u2 else (1, {})
        if not u1:
            f1 = f2
        b = (Quantity(a.magnitude * f1 / f2, u2) if kind2 == 'q' else a.magnitude.copy())
    pa, pb = phys(a), phys(b)
    snap = snapshot(a, b)
    try:
        (x, y), ref = common(pa, pb)
    except Incompatible:
        raises(UnitError, f, a, b)
        unchanged(snap, (a, b), name)
        return
    r = f(a, b)
    dims = dpow(ref.dims, 2) if name == 'cov' else ref.dims
    if table is LOGIC:
        e = f(np.round(x, 9), np.round(y, 9)) if equalvalues else f(x, y)
        same_array(r, e, name)
        require(not isinstance(r, Quantity), 'quantity')
    elif name == 'full_like' and False:
        pass
    else:
        e = f(x, y)
        if name == 'concatenate0' and ref.factor != 1:
            pass        # zeros
        close(r, P(e, dims, None), name)
    unchanged(snap, (a, b), name)


def multiplied(name, u1, u2, kind2):
    a = make('q', (2,), 0, u1, float)
    b = make(kind2, (2,), 1, u2, float)
    pa, pb = phys(a), phys(b)
    snap = snapshot(a, b)
    f = PROD[name]
    close(f(a, b), P(f(pa.v, pb.v), dmul(pa.dims, pb.dims), None), name)
    if kind2 == 'n' and name != 'dot_method':
        close(f(b, a), P(f(pb.v, pa.v), dmul(pa.dims, pb.dims), None), name)
    unchanged(snap, (a, b), name)


def functions(ck):
    for name, (u1, u2) in itertools.product(JOIN, PAIRS):
        for kind in ['q'] + (['n'] if u2 == '' else []):
            ck.check((name, u1, u2, kind), several, JOIN, name, u1, u2, kind, False)
    for name, (u1, u2), e in itertools.product(LOGIC, PAIRS, [False, True]):
        if e and name in ('searchsorted', 'searchsorted_method', 'digitize', 'isin', 'intersect_len', 'setdiff_len') and u1 != u2:
            continue    # rounding of the conversion
        if e and name in ('array_equal', 'array_equiv') and {u1, u2} & {'deg', 'mm', 'km / ms'}:
            continue
        for kind in ['q'] + (['n'] if u2 == '' else []):
            ck.check((name, u1, u2, kind, e), several, LOGIC, name, u1, u2, kind, e)
    for name, (u1, u2) in itertools.product(PROD, PAIRS):
        for kind in ['q'] + (['n'] if u2 == '' else []):
            ck.check((name, u1, u2, kind), multiplied, name, u1, u2, kind)


def assigned(kind, u1, u2, key, fn):
    from pysimulators import Quantity, UnitError
    a = make('q', (2, 2), 0, u1, float)
    b = make(kind, (2,), 1, u2, float)
    pa, pb = phys(a), phys(b)
    snap = snapshot(a, b)

    def call():
        if fn == 'set':
            a[key] = b
        elif fn == 'copyto':
            np.copyto(a, b)
        else:
            np.fill_diagonal(a, b)
    if not u1:
        # the values stay without unit: nothing to compare them with
        call()
        return
    try:
        (x, y), ref = common(pa, pb)
    except Incompatible:
        raises(UnitError, call)
        unchanged(snap, (a, b), fn)
        return
    call()
    x = np.array(x)
    if fn == 'set':
        x[key] = y
    elif fn == 'copyto':
        np.copyto(x, y)
    else:
        np.fill_diagonal(x, y)
    close(a, P(x, ref.dims, None), fn)
    eq(a.unit, Quantity(1, u1).unit, 'unit')
    unchanged(snap[1:], (b,), fn)


def assignments(ck):
    keys = {'0': 0, ':': slice(None), '...': Ellipsis, '[1,0]': [1, 0], ':,1': (slice(None), 1), 'mask': np.array([True, False])}
    for (u1, u2), (k, key) in itertools.product(PAIRS, keys.items()):
        for kind in ['q'] + (['n'] if u2 == '' else []):
            ck.check(('set', u1, u2, k, kind), assigned, kind, u1, u2, key, 'set')
    for (u1, u2), fn in itertools.product(PAIRS, ['copyto', 'fill_diagonal']):
        ck.check((fn, u1, u2), assigned, 'q', u1, u2, None, fn)


def interp_call(ux, up, uf, kw):
    from pysimulators import Quantity, UnitError
    x, xp, fp = Quantity([1.5, .5], ux), Quantity([1., 2., 3.], up), Quantity([1., 5., 2.], uf)
    px, pp, pf = phys(x), phys(xp), phys(fp)
    left = Quantity(7., uf) if kw else None
    try:
        (vx, vp), _ = common(px, pp)
    except Incompatible:
        raises(UnitError, np.interp, x, xp, fp)
        return
    if not uf:
        if left is None and ux == up:
            same_array(np.interp(x, xp, fp), np.interp(x.magnitude, xp.magnitude, fp.magnitude), 'interp')
        return
    r = np.interp(x, xp, fp, left=left) if kw else np.interp(x, xp, fp)
    close(r, P(np.interp(vx, vp, pf.v, left=phys(left).v if kw else None), pf.dims, None), 'interp')


def interp(ck):
    for ux, up, uf, kw in itertools.product(UNITS, UNITS, ['', 'Jy', 'km'], [False, True]):
        ck.check((ux, up, uf, kw), interp_call, ux, up, uf, kw)
    for u, w in itertools.product(UNITS, UNITS):
        ck.check(('average', u, w), average, u, w)


def average(u, w):
    from pysimulators import Quantity
    a, b = Quantity([1., 3.], u), Quantity([2., 5.], w)
    f, d = parse(u)
    close(np.average(a, weights=b), P(np.average([1., 3.], weights=[2., 5.]) * f, d, None), 'weighted average')
    close(np.average(a, weights=[2., 5.]), P(np.average([1., 3.], weights=[2., 5.]) * f, d, None), 'weighted average')


# -- sequences of operations -------------------------------------------------------------

class Machine:
    """ Three registers of quantities next to their physical values. """

    def __init__(self):
        from pysimulators import Quantity
        self.q = {'a': Quantity([4., 9.], 'km'), 'b': Quantity(2., 's'), 'c': Quantity([3., .5], 'm')}
        self.p = {k: phys(v) for k, v in self.q.items()}

    def unit_from(self, p):
        return p


def step(m, op):
    """ Apply the operation to the machine; the model predicts the state or an error. """
    from pysimulators import Quantity, UnitError
    kind, x, y = op
    q, p = m.q, m.p

    def implementation():
        if kind in ('+=', '-=', '*=', '/='):
            o = q[x]
            r = {'+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, '/=': operator.itruediv}[kind](o, q[y])
            if r is not o:
                raise Mismatch(f'{op}: another object')
        elif kind in '+*/':
            q[x] = {'+': operator.add, '*': operator.mul, '/': operator.truediv}[kind](q[x], q[y])
        elif kind == 'max':
            q[x] = np.maximum(q[x], q[y])
        elif kind == 'out':
            r = np.subtract(q[x], q[y], out=q['a'])
            if r is not q['a']:
                raise Mismatch(f'{op}: another object')
        elif kind == 'set':
            q[x][...] = q[y]
        elif kind == 'sq':
            q[x] **= 2
        elif kind == 'sqrt':
            q[x] = np.sqrt(abs(q[x]))
        elif kind == 'neg':
            q[x] = -q[x]
        elif kind == 'sum':
            q[x] = q[x].sum()
        elif kind == 'hstack':
            q[x] = np.hstack([q[x], q[y]])[:2]
        elif kind == 'in':
            q[x].inunit(y)
        elif kind == 'to':
            q[x] = q[x].tounit(y)
        elif kind == 'SI':
            q[x] = q[x].SI
        elif kind == 'twice':
            q[x] *= 2
        elif kind == 'alias':
            q[x] = q[y]

    def model():
        """ new values of the registers, or raises Incompatible/ValueError """
        def add(f, i, j):
            (v, w), ref = common(p[i], p[j])
            return P(f(v, w), ref.dims, ref.bare, ref.factor)

        def mul(f, sign, i, j):
            dims = dmul(p[i].dims, p[j].dims, sign)
            # without dimension but with a unit (m / km): not bare
            return P(f(p[i].v, p[j].v), dims, None)
        if kind in ('+=', '-=', '+', 'max'):
            r = add({'+=': np.add, '-=': np.subtract, '+': np.add, 'max': np.maximum}[kind], x, y)
            if kind[-1] == '=' and r.v.shape != p[x].v.shape:
                raise ValueError
            return {x: r}
        if kind in ('*=', '/=', '*', '/'):
            r = mul(np.multiply if kind[0] == '*' else np.divide, 1 if kind[0] == '*' else -1, x, y)
            if kind[-1] == '=' and r.v.shape != p[x].v.shape:
                raise ValueError
            return {x: r}
        if kind == 'out':
            r = add(np.subtract, x, y)
            if r.v.shape != p['a'].v.shape:
                if r.v.shape == ():
                    r.v = np.broadcast_to(r.v, p['a'].v.shape)
                else:
                    raise ValueError
            if r.bare:
                # no unit in the operands: they are in that of the buffer
                r = P(r.v * p['a'].factor, p['a'].dims, p['a'].bare, p['a'].factor)
            return {'a': r}
        if kind == 'set':
            if p[x].bare and not p[y].bare:
                raise Skip
            (v, w), ref = common(p[x], p[y])
            if np.broadcast_shapes(v.shape, w.shape) != v.shape:
                raise ValueError
            return {x: P(np.broadcast_to(w, v.shape).copy(), p[x].dims, p[x].bare, p[x].factor)}
        if kind == 'sq':
            return {x: P(p[x].v ** 2, dpow(p[x].dims, 2), None)}
        if kind == 'sqrt':
            return {x: P(np.sqrt(abs(p[x].v)), dpow(p[x].dims, .5), None)}
        if kind == 'neg':
            return {x: P(-p[x].v, p[x].dims, None)}
        if kind == 'twice':
            return {x: P(2 * p[x].v, p[x].dims, None)}
        if kind == 'sum':
            return {x: P(p[x].v.sum(), p[x].dims, None)}
        if kind == 'hstack':
            (v, w), ref = common(p[x], p[y])
            return {x: P(np.hstack([v, w])[:2], ref.dims, None)}
        if kind in ('in', 'to'):
            f, d = parse(y)
            if p[x].bare:
                return {x: P(p[x].v * f, d, None)}
            if y and d != p[x].dims:
                raise Incompatible
            return {x: P(p[x].v, p[x].dims, None)}
        if kind == 'SI':
            return {x: P(p[x].v, p[x].dims, None)}
        if kind == 'alias':
            return {x: p[y]}
    shared = {k: [j for j in q if q[j] is q[k]] for k in q}
    before = {k: (v.unit, v.view(np.ndarray).copy()) for k, v in q.items()}
    inplace = kind in ('+=', '-=', '*=', '/=', 'out', 'set', 'sq', 'in', 'twice')
    target = 'a' if kind == 'out' else x
    try:
        new = model()
    except (Incompatible, ValueError) as exc:
        raises(UnitError if isinstance(exc, Incompatible) else ValueError, implementation)
        for k, (u, v) in before.items():
            eq(q[k].unit, u, f'{op}: unit of {k} after the error')
            same_array(q[k].view(np.ndarray), v, f'{op}: {k} after the error')
        return
    except Skip:
        return
    implementation()
    expect = dict(p)
    for k, v in new.items():
        for j in shared[k] if inplace else [k]:
            expect[j] = v
    for k in q:
        # cancellations: compare to the scale of the operands
        g = phys(q[k])
        if g.dims != expect[k].dims:
            raise Mismatch(f'{op}: {k} has the unit {q[k].unit!r} instead of the dimensions {expect[k].dims}')
        scale = max(np.abs(expect[k].v).max(), np.abs(p[k].v).max() if p[k].dims == expect[k].dims else 0)
        same_array(g.v, expect[k].v, f'{op}: {k}', rtol=1e-10, atol=1e-11 * scale)
        m.p[k] = g      # the reference goes on from the state which has been compared
    _touch = target


class Skip(Exception):
    pass


STEPS = (
    [(k, x, y) for k in ('+=', '*=', '/=', '-=') for x in 'abc' for y in 'abc' if x != y or k in ('*=', '+=')]
    + [(k, x, y) for k in ('+', '*', '/', 'max', 'hstack') for x, y in ('ac', 'cb', 'ba')]
    + [('out', 'c', 'a'), ('out', 'b', 'c'), ('set', 'a', 'c'), ('set', 'b', 'a'), ('set', 'c', 'b'), ('alias', 'b', 'a'), ('alias', 'c', 'a')]
    + [(k, x, None) for k in ('sq', 'sqrt', 'sum', 'SI') for x in 'ab'] + [('neg', 'c', None), ('twice', 'a', None), ('twice', 'c', None)]
    + [('in', 'a', 'm'), ('in', 'b', 'ms'), ('in', 'c', 's'), ('to', 'c', 'mm'), ('to', 'a', 'km^2'), ('in', 'a', 'm / s')]
)


def run(history):
    m = Machine()
    for op in history:
        step(m, op)
    return tuple((k, v.unit, v.view(np.ndarray).tobytes()) for k, v in m.q.items())


def sequences(ck, first):
    depth = 2 if ck.quick else 3
    for rest in itertools.product(STEPS, repeat=depth - 1):
        h = (first,) + rest
        ck.check(' ; '.join(' '.join(str(_) for _ in op if _ is not None) for op in h), run, h)


def positions(ck):
    """ The indices of the elements that are not zero, which have no unit. """
    def one(name, cls, unit, values, dt):
        import pysimulators
        v = np.array(values, dt)
        q = getattr(pysimulators, cls)(v, unit=unit, dtype=dt)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r, e = (getattr(np, name)(_) for _ in (q, v))
        r, e = (r, e) if isinstance(e, tuple) else ((r,), (e,))
        eq(len(r), len(e), 'number of arrays')
        for x, y in zip(r, e):
            same_array(x, y, name, dtype=y.dtype)
            eq(getattr(x, 'unit', ''), '', 'unit of the positions')
        eq(q.unit, unit or '', 'unit of the input')
    arrays = [list(_) for n in range(4) for _ in itertools.product((0, 1), repeat=n)]
    arrays += [np.reshape(_, (2, 2)).tolist() for _ in itertools.product((0, 1), repeat=4)]
    for name, cls, unit, values, dt in itertools.product(('where', 'nonzero', 'flatnonzero', 'argwhere'), ('Quantity', 'Map', 'Tod', 'FitsArray'), (None, 'm', 'Jy / m^2'), arrays, (float, bool, int)):
        ck.check((name, cls, unit, str(values), dt.__name__), one, name, cls, unit, values, dt)


def scenarios(tier):
    out = [(f'binary {n}', lambda ck, n=n: binary(ck, n)) for n in BINARY]
    out += [('unary', unary), ('power', power), ('two outputs', outputs2), ('ufunc.reduce', reduces), ('ufunc.at', ats), ('functions', functions), ('assignments', assignments), ('interp', interp), ('positions', positions)]
    out += [(f'reduction {n}', lambda ck, n=n: reductions(ck, n)) for n in REDUCTIONS]
    out += [(f'sequences {" ".join(str(_) for _ in s if _ is not None)}', lambda ck, s=s: sequences(ck, s)) for s in STEPS]
    return out
