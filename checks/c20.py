"""
C20: time-domain operators and their transposes follow their definition, in and out of place.

The dense matrix of each definition is built by elementary recurrences and index arithmetic; every operator of the bounded
parameters is applied to every unit vector and to a vector of distinct integers through every route and buffer layout.
"""
import functools
import itertools

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C20'
TECHNIQUE = 'exhaustive enumeration of the parameters, shapes, buffer layouts and products of the operators, executed on the implementation against dense reference matrices'
NOTE = (
    'The reference matrices come from the recurrence of the truncated exponential and from index arithmetic; values are compared within the roundoff of the number type. '
    'Negative time constants have no meaning and are not exercised.'
)
BOUNDS = (
    'truncated exponential: 1 to 3 dimensions of 1 to 3 rows and 0 to 4 samples, every assignment of 4 time constants to the rows, single and double precision and integers, '
    '7 input and output layouts, in place or not, transposed or not; rolls: every offset from -n-1 to n+1 and every combination of axes up to 3 dimensions; spectral operators: '
    'every combination of 4 values of each parameter; every product of up to 3 of 12 operators and every sum of 2'
)
TAUS = (0., 0.25, 1., 6.)


def trexp(tau, n):
    """ Matrix of the convolution of n samples. """
    m = np.zeros((n, n))
    w = np.exp(-1 / tau) if tau > 0 else 0.
    for i in range(n):
        if i == 0:
            m[0, 0] = 1
        else:
            m[i] = w * m[i - 1]
            m[i, i] += 1 - w
    return m


def dense_trexp(taus, shape):
    rows = int(np.prod(shape[:-1]))
    n = shape[-1]
    t = np.ravel(taus)
    t = np.resize(t, rows) if t.size == 1 else t
    d = np.zeros((rows * n, rows * n))
    for i in range(rows):
        d[i * n:(i + 1) * n, i * n:(i + 1) * n] = trexp(t[i], n)
    return d


def dense_roll(shape, ns, axes):
    N = int(np.prod(shape))
    d = np.zeros((N, N))
    ix = list(np.ndindex(*shape))
    pos = {c: k for k, c in enumerate(ix)}
    for c in ix:
        o = list(c)
        for n, a in zip(ns, axes):
            o[a] = (o[a] + n) % shape[a]
        d[pos[tuple(o)], pos[c]] = 1
    return d


def layouts(shape):
    """ name, function returning a writeable array of this shape and type in some memory layout. """
    def padded(dt):
        return np.full(shape[:-1] + (shape[-1] + 2,), 77, dt)[..., 1:shape[-1] + 1]

    def last(dt):
        return np.full(shape + (2,), 77, dt)[..., 0]

    def reverse(dt):
        return np.full(shape, 77, dt)[..., ::-1]

    def rows(dt):
        return np.full((2 * shape[0],) + shape[1:], 77, dt)[::2]

    def up(dt):
        return np.full(shape, 77, dt)[::-1]

    def fortran(dt):
        return np.full(shape[::-1], 77, dt).T

    def plain(dt):
        return np.full(shape, 77, dt)
    fs = [plain, padded, last, reverse, rows, up, fortran]
    return [(f.__name__, f) for f in fs if shape[-1] or f in (plain, fortran)]


def untouched(a, what):
    """ The memory outside of this view of an array full of 77 must not have been modified. """
    b = a
    while b.base is not None:
        b = b.base
    before = a.copy()
    a[...] = 77
    ok = (b == 77).all()
    a[...] = before
    require(ok, f'{what}: memory outside of the buffer was modified')


def routes(make, d, shape, dt, what, rtol, inplace=True, lays=True):
    """ Applies the operator and its transpose through every route. """
    n = int(np.prod(shape))
    x = ((np.arange(n) * 7 + 3) % 23 - 5).reshape(shape).astype(dt)
    op = make()
    for name, o, m in (('direct', op, d), ('transpose', op.T, d.T)):
        e = (m @ x.ravel()).reshape(shape)
        x0 = x.copy()
        y = o(x0)
        same_array(y, e, f'{what} {name}', rtol=rtol, atol=rtol * 30)
        same_array(x0, x, f'{what} {name}: input')
        odt = y.dtype
        if n <= 12:
            same_array(o.todense(shapein=shape), m, f'{what} {name}: dense', rtol=rtol, atol=rtol)
            same_array(o.todense(shapein=shape, inplace=True), m, f'{what} {name}: dense in place', rtol=rtol, atol=rtol)
        if lays:
            for (ni, fi), (no, fo) in itertools.product(layouts(shape), repeat=2):
                if ni != 'plain' and no not in ('plain', 'padded', 'reverse'):
                    continue
                xi = fi(dt)
                xi[...] = x
                out = fo(odt)
                o(xi, out=out)
                same_array(out, e, f'{what} {name}: {ni} to {no}', rtol=rtol, atol=rtol * 30)
                same_array(xi, x, f'{what} {name}: {ni} input')
                untouched(out, f'{what} {name}: {ni} to {no}')
            for ni, fi in layouts(shape):
                xi = fi(odt)
                xi[...] = x
                o(xi, out=xi)
                same_array(xi, e, f'{what} {name}: in place, {ni}', rtol=rtol, atol=rtol * 30)
                untouched(xi, f'{what} {name}: in place, {ni}')
    # the methods themselves, which the package flags as able to work in place
    if inplace and n and callable(getattr(op, 'transpose', None)):
        for name, m in (('direct', d), ('transpose', d.T)):
            xi = x.astype(odt)
            getattr(op, name)(xi, xi)
            same_array(xi, (m @ x.ravel()).reshape(shape), f'{what} {name} method in place', rtol=rtol, atol=rtol * 30)


def convolution(shape, dt, kind):
    def one(taus):
        from pysimulators import ConvolutionTruncatedExponentialOperator as C
        rtol = 3e-6 if np.dtype(dt) == np.float32 else 1e-14
        d = dense_trexp(taus, shape)
        tt = taus if kind != 'array' else np.array(taus, dt if np.dtype(dt).kind == 'f' else float).reshape(shape[:-1] if len(taus) > 1 else -1)
        t0 = np.array(tt)
        kw = {'dtype': dt} if np.dtype(dt) == np.float32 else {}
        def make():
            return C(tt, **kw)
        if all(t == 0 for t in taus):
            from pyoperators import IdentityOperator
            require(type(make()) is IdentityOperator, 'identity')
        routes(make, d, shape, dt, f'taus={taus}', rtol, lays=len(taus) < 2 or len(set(taus)) > 1)
        same_array(np.array(tt), t0, 'time constants')
        bad = tuple(taus) + (1.,) if len(taus) > 1 else (1., 2.) * 5
        if any(bad):
            raises(ValueError, C(list(bad), **kw), np.zeros(shape))

    def scenario(ck):
        rows = int(np.prod(shape[:-1]))
        if kind == 'scalar':
            space = [(t,) for t in TAUS]
        else:
            space = list(itertools.product(TAUS, repeat=rows))
            if len(space) > 256:
                space = list(itertools.product((0., 1., 6.), repeat=rows)) if rows <= 4 else list(itertools.product((0., 1.), repeat=rows))
        for taus in space:
            ck.check(repr(taus), one, taus)
    return scenario


def quantities(ck):
    def one(value, unit, expected):
        from pysimulators import ConvolutionTruncatedExponentialOperator as C
        from pysimulators import Quantity
        q = Quantity(value, unit)
        before = (np.array(q.magnitude), q.unit)
        if expected is None:
            raises(ValueError, C, q)
        else:
            op = C(q)
            shape = (np.size(value), 4) if np.ndim(value) else (4,)
            same_array(op.todense(shapein=shape), dense_trexp(np.ravel(expected), shape), 'quantity', rtol=1e-12, atol=1e-14)
        same_array(q.magnitude, before[0])
        eq(q.unit, before[1], 'unit of the time constant')
    for v in (2., [2.], [1., 3.], [0., 5.]):
        for u, f in (('', 1), ('ms s^-1', 1e-3), ('s ms^-1', 1e3), ('s', None), ('Jy', None), ('s^-1', None)):
            ck.check(f'{v} {u}', one, v, u, None if f is None else np.array(v) * f)


def rolls(shape):
    def one(n, axis, dt):
        from pysimulators import RollOperator
        nd = len(shape)
        if axis is None:
            axes = (-1,) if not isinstance(n, tuple) else tuple(range(-len(n), 0))
        else:
            axes = axis if isinstance(axis, tuple) else (axis,)
        ns = n if isinstance(n, tuple) else (n,) * len(axes)
        if len(ns) != len(axes):
            raises(ValueError, RollOperator, n, axis)
            return
        d = dense_roll(shape, ns, axes)
        op = RollOperator(n, axis)
        N = d.shape[0]
        x = (np.arange(N) ** 2 - 3).reshape(shape).astype(dt)
        if np.dtype(dt).kind == 'c':
            x = x + 1j * np.arange(N)[::-1].reshape(shape)
        for name, o, m in (('direct', op, d), ('transpose', op.T, d.T), ('inverse', op.I, d.T)):
            e = (m @ x.ravel()).reshape(shape)
            x0 = x.copy()
            same_array(o(x0), e, name, dtype=x.dtype)
            same_array(x0, x, 'input')
            out = np.empty(shape, x.dtype)
            o(x0, out=out)
            same_array(out, e, f'{name} with output')
            o(x0, out=x0)
            same_array(x0, e, f'{name} in place')
            for ln, f in layouts(shape):
                xi = f(dt)
                xi[...] = x
                o(xi, out=xi)
                same_array(xi, e, f'{name} in place {ln}')
                untouched(xi, f'{name} in place {ln}')
                xi[...] = x
                same_array(o(xi), e, f'{name} {ln}')
        for a, b in ((op.direct, d), (op.transpose, d.T)):
            xi = x.copy()
            a(xi, xi)
            same_array(xi, (b @ x.ravel()).reshape(shape), 'method in place')

    def scenario(ck):
        nd = len(shape)
        axes = [None] + list(range(-nd, nd))
        for k in range(1, min(nd, 2) + 1):
            axes += list(itertools.product(range(-nd, nd), repeat=k))
        for axis in axes:
            k = 1 if axis is None or isinstance(axis, int) else len(axis)
            m = max(shape) + 1 if k == 1 else 2
            ns = list(range(-m, m + 1))
            ns += list(itertools.product(range(-m, m + 1) if k == 1 else (-2, 0, 1), repeat=k))
            if axis is None:
                ns += [v for q in range(2, nd + 1) for v in itertools.product((-1, 0, 2), repeat=q)]
            else:
                ns += [(1,) * (k + 1)]
            for n in ns:
                ck.check(f'{n} {axis}', one, n, axis, float)
                if k == 1:
                    for dt in (np.int64, np.float32, complex):
                        ck.check(f'{n} {axis} {np.dtype(dt)}', one, n, axis, dt)
    return scenario


def planck(nu, T):
    import scipy.constants as k
    return nu ** 3 / np.expm1(k.h * nu / (k.k * T))


def blackbody(ck):
    import scipy.constants as sc
    freqs = (1e11, 3e11, 2.5e12, 1e13)
    def one(T, f, f0, beta, how):
        from pysimulators import BlackBodyOperator as B
        kw = {}
        if how & 1:
            kw['wavelength'] = sc.c / f
        else:
            kw['frequency'] = f
        if how & 2:
            kw['wavelength0'] = sc.c / f0
        else:
            kw['frequency0'] = f0
        op = B(T, beta=beta, **kw)
        t = np.array(T, float)
        e = planck(f, t) / planck(f0, t) * (f / f0) ** beta
        for dt in (float, int):
            x = (np.arange(max(t.size, 1)) + 2).astype(dt).reshape(t.shape)
            same_array(op(x), e * x, 'spectrum', rtol=1e-12)
        same_array(op.T(x), e * x, 'transpose', rtol=1e-12)
        same_array(op.I(op(x)), x, 'inverse', rtol=1e-12)
        if t.ndim == 1:
            op = B(T, beta=beta, broadcast='rightward', **kw)
            x = np.arange(2. * t.size).reshape(t.size, 2) + 1
            same_array(op(x), e[:, None] * x, 'spectrum, rightward', rtol=1e-12)
            op = B(T, beta=beta, broadcast='leftward', **kw)
            same_array(op(x.T), e * x.T, 'spectrum, leftward', rtol=1e-12)
    for T in (3., 20., [20.], [5., 20.], [20., 30., 40.], [[10., 20.], [30., 40.]]):
        for f, f0 in itertools.product(freqs, repeat=2):
            for beta in (0, 1.5, -1):
                for how in range(4):
                    ck.check(f'{T} {f} {f0} {beta} {how}', one, T, f, f0, beta, how)

    def errors(kw):
        from pysimulators import BlackBodyOperator as B
        raises(ValueError, B, 20., **kw)
    keys = ('frequency', 'wavelength', 'frequency0', 'wavelength0')
    for c in itertools.product((False, True), repeat=4):
        if c[0] + c[1] == 1 and c[2] + c[3] == 1:
            continue
        ck.check(f'errors {c}', errors, {k: 1. for k, v in zip(keys, c) if v})


def powerlaw(ck):
    def one(alpha, x, x0, s):
        from pysimulators import PowerLawOperator as P
        from pyoperators import CompositionOperator, HomothetyOperator
        kw = {} if s == 1 else {'scalar': s}
        op = P(alpha, x, x0, **kw)
        a = np.array(alpha, float)
        e = s * (x / x0) ** a
        for dt in (float, int):
            v = (np.arange(max(a.size, 1)) + 2).astype(dt).reshape(a.shape)
            same_array(op(v), e * v, 'power law', rtol=1e-12)
        same_array(op.T(v), e * v, 'transpose', rtol=1e-12)
        y = v.astype(float)
        op(y, out=y)
        same_array(y, e * v, 'in place', rtol=1e-12)
        for h in (3., -0.5):
            for p in (CompositionOperator([h, op]), CompositionOperator([op, h]), h * op, op * h, HomothetyOperator(h)(op)):
                same_array(p(v), h * e * v, f'times {h}', rtol=1e-12)
            q = 2 * (h * op)
            same_array(q(v), 2 * h * e * v, f'times 2 and {h}', rtol=1e-12)
        same_array(op(v), e * v, 'the operator after its products', rtol=1e-12)
        if a.ndim == 0:
            w = np.arange(6.).reshape(2, 3)
            same_array(op(w), e * w, 'scalar slope', rtol=1e-12)
    for alpha in (0, 2, -1.5, [2.], [1, -1], [0.5, 2, -3], [[1, 2], [3, -1]]):
        for x, x0 in itertools.product((0.5, 1., 3., 1e11), repeat=2):
            for s in (1, 2., -3.):
                ck.check(f'{alpha} {x} {x0} {s}', one, alpha, x, x0, s)


SH = (2, 4)


@functools.lru_cache(None)
def alphabet():
    from pyoperators import BlockDiagonalOperator, DiagonalOperator, HomothetyOperator, IdentityOperator
    from pysimulators import BlackBodyOperator, PowerLawOperator, RollOperator
    from pysimulators import ConvolutionTruncatedExponentialOperator as C
    N = 8
    A = {}
    d1, d2 = dense_trexp([2.], SH), dense_trexp([0., 3.], SH)
    A['conv'] = C(2.), d1
    A['conv.T'] = C(2.).T, d1.T
    A['convs'] = C([0., 3.]), d2
    A['convs.T'] = C([0., 3.]).T, d2.T
    A['roll'] = RollOperator(1), dense_roll(SH, (1,), (-1,))
    A['roll.T'] = RollOperator(1).T, dense_roll(SH, (-1,), (-1,))
    A['roll2'] = RollOperator((1, 2), (0, 1)), dense_roll(SH, (1, 2), (0, 1))
    v = np.arange(8.).reshape(SH) + 1
    A['diag'] = DiagonalOperator(v), np.diag(v.ravel())
    A['scalar'] = HomothetyOperator(3.), 3 * np.eye(N)
    A['block rows'] = BlockDiagonalOperator([HomothetyOperator(2.), C(1.)], partitionin=(1, 1), axisin=0), \
        np.vstack([2 * np.eye(N)[:4], dense_trexp([1.], SH)[4:]])
    b = np.zeros((8, 8))
    for r in range(2):
        b[r * 4:r * 4 + 3, r * 4:r * 4 + 3] = trexp(1., 3)
        b[r * 4 + 3, r * 4 + 3] = 5
    A['block columns'] = BlockDiagonalOperator([C(1.), HomothetyOperator(5.)], partitionin=(3, 1), axisin=-1), b
    b = np.zeros((8, 8))
    b[:4, :4] = trexp(1., 4)
    b[4:, 4:] = np.roll(np.eye(4), 1, axis=0)
    A['stack'] = BlockDiagonalOperator([C(1.), RollOperator(1)], new_axisin=0), b
    b = np.zeros((8, 8))
    for c in range(4):
        b[c::4, c::4] = (c + 1) * np.eye(2) if c % 2 else trexp(2., 2)
    A['stack columns'] = BlockDiagonalOperator([C(2.), HomothetyOperator(2.), C(2.), HomothetyOperator(4.)], new_axisin=-1), b
    T = np.array([[5., 10, 15, 20], [25, 30, 35, 40]])
    bb = planck(3e11, T) / planck(5e11, T)
    A['blackbody'] = BlackBodyOperator(T, frequency=3e11, frequency0=5e11), np.diag(bb.ravel())
    A['power law'] = PowerLawOperator(v, 2., 3.), np.diag(((2 / 3) ** v).ravel())
    return A


def products(first):
    def one(names, mode):
        A = alphabet()
        ops = [A[n][0] for n in names]
        ms = [A[n][1] for n in names]
        if mode == 'product':
            op = functools.reduce(lambda a, b: a * b, ops)
            d = functools.reduce(lambda a, b: a @ b, ms)
        else:
            op = functools.reduce(lambda a, b: a + b, ops)
            d = functools.reduce(lambda a, b: a + b, ms)
        x = ((np.arange(8) * 5 + 2) % 11 - 3.).reshape(SH)
        # the transposes of the longer products and of multiples are up to pyoperators, which cannot build all of them
        two = len(names) == 2 and 'scalar' not in names
        for name, o, m in (('', op, d), (' transpose', op.T if two else None, d.T))[:2 if two else 1]:
            what = f"{mode} {' '.join(names)}{name}"
            e = (m @ x.ravel()).reshape(SH)
            same_array(o(x), e, what, rtol=1e-11, atol=1e-11)
            same_array(o.todense(shapein=SH), m, what + ' dense', rtol=1e-11, atol=1e-11)
            y = x.copy()
            o(y, out=y)
            same_array(y, e, what + ' in place', rtol=1e-11, atol=1e-11)

    def scenario(ck):
        names = list(alphabet())
        for b in names:
            ck.check(f'{first} * {b}', one, (first, b), 'product')
            ck.check(f'{first} + {b}', one, (first, b), 'sum')
            for c in names:
                ck.check(f'{first} * {b} * {c}', one, (first, b, c), 'product')
                if not ck.quick:
                    ck.check(f'{first} + {b} + {c}', one, (first, b, c), 'sum')
                    for e in names:
                        ck.check(f'{first} * {b} * {c} * {e}', one, (first, b, c, e), 'product')
    return scenario


NAMES = ('conv', 'conv.T', 'convs', 'convs.T', 'roll', 'roll.T', 'roll2', 'diag', 'scalar', 'block rows', 'block columns', 'stack', 'stack columns', 'blackbody', 'power law')


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for dt in (float, np.float32, np.int64):
        for n in range(1, 5 if quick else 7):
            out.append((f'convolution {np.dtype(dt)} ({n},)', convolution((n,), dt, 'scalar')))
            for r in (1, 2, 3) if quick or n > 4 else (1, 2, 3, 4):
                out.append((f'convolution {np.dtype(dt)} ({r}, {n}) scalar', convolution((r, n), dt, 'scalar')))
                out.append((f'convolution {np.dtype(dt)} ({r}, {n}) list', convolution((r, n), dt, 'list')))
                if r > 1 and (n == 3 or not quick):
                    out.append((f'convolution {np.dtype(dt)} ({r}, {n}) array', convolution((r, n), dt, 'array')))
        for sh in ((2, 1, 3), (1, 2, 2), (2, 2, 2)):
            out.append((f'convolution {np.dtype(dt)} {sh} scalar', convolution(sh, dt, 'scalar')))
            out.append((f'convolution {np.dtype(dt)} {sh} array', convolution(sh, dt, 'array')))
    out.append(('time constants with units', quantities))
    for sh in ((1,), (2,), (3,), (4,), (1, 1), (2, 3), (3, 2), (1, 3), (2, 2, 3)) + (() if quick else ((5,), (7,), (4, 3), (3, 4), (2, 3, 2), (3, 1, 2))):
        out.append((f'roll {sh}', rolls(sh)))
    out.append(('blackbody', blackbody))
    out.append(('power law', powerlaw))
    for f in NAMES:
        out.append((f'products {f}', products(f)))
    return out
