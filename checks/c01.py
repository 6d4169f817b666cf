"""
C01: the OpenMP kernels give the sequential result under every schedule.

Stateless model checking (DPOR, see mc/omp) of the compiled kernels themselves, called through the
public API on inputs that make the threads collide.  The reference is the sequential run of the same
code on the same input (what a correct sequential result is, is decided by the other checks).
"""
import itertools
import operator

import numpy as np

PID = 'C01'
VARIANT = 'mc'
BOUNDS = (
    'teams of 2 and 3 threads; for each kernel and type combination, small inputs whose iterations all touch the '
    'same or neighbouring output elements (2 to 4 iterations per loop); every interleaving of the conflicting memory '
    'accesses, atomics, critical sections and chunk claims (dynamic partial-order reduction, no preemption bound); '
    'an exploration that reaches its cap of executions is reported as capped'
)
ASSUMPTIONS = [
    'sequential consistency at the level of the memory accesses of gfortran -O0 code; weak-memory reorderings are not explored '
    '(a data race is still seen as an interleaving of its accesses)',
    'accesses made inside libgfortran and libc routines other than memcpy/memmove/memset are not scheduling points',
    'loop schedules are those of gfortran for the team size used: static blocks, or every assignment of the chunks of '
    'a dynamic or guided loop',
]

TECHNIQUE = 'stateless model checking (dynamic partial-order reduction) of the compiled OpenMP kernels under a controlled scheduler'
NOTE = (
    'Every inequivalent interleaving of the real compiled code is executed for each bounded input, up to a cap beyond which every schedule '
    'with one (quick) or two (thorough) preemptions is executed; assumes sequentially consistent accesses and small inputs.'
)
CAP = {'quick': 400, 'thorough': 10000}
_rt = None


def rt():
    global _rt
    if _rt is None:
        from mc.omp import Runtime
        _rt = Runtime()
    return _rt


def flat(out):
    if isinstance(out, (tuple, list)):
        r = []
        for o in out:
            r += flat(o)
        return r
    return [np.array(out)]


def run(ck, key, func, teams=(2, 3), tol=0, expect_events=True):
    """Explore func() under every schedule; it returns the arrays to compare."""
    from mc.omp import explore
    from mc.harness import Mismatch, Fatal
    R = rt()

    def case(nt):
        ref = flat(func())

        def verdict(out):
            out = flat(out)
            for a, b in zip(out, ref):
                if a.dtype != b.dtype or a.shape != b.shape:
                    raise Mismatch(f'{a!r} instead of {b!r}')
                if tol and a.dtype.kind == 'f':
                    ok = np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
                elif a.dtype.names:
                    ok = all(np.array_equal(a[n], b[n]) for n in a.dtype.names)
                elif a.dtype.kind == 'f':
                    ok = np.array_equal(a, b, equal_nan=True)
                else:
                    ok = np.array_equal(a, b)
                if not ok:
                    raise Mismatch(f'{a.tolist()} instead of {b.tolist()}'[:700])
            return repr([o.tolist() for o in out]) if not tol else 'same'
        st = explore(R, func, nt, verdict, cap=CAP[ck.tier], tick=ck.tick_case,
                     preemptions=1 if ck.quick else 2)
        ck.count('executions', st['executions'])
        ck.count('scheduling_events', st['events'])
        ck.transitions += st['events']
        ck.nstates += st['choice_points'] + st['executions']
        ck.count('kernel_explorations')
        if st['events'] == 0:
            ck.count('kernels_without_parallel_region')
        if st['executions'] > 1:
            ck.count('kernels_with_conflicts')
        if st['capped']:
            ck.count('explorations_capped')
            ck.partial.append(f'{key} threads={nt}')
        return st['outcomes'], key
    for nt in teams:
        ck.check(f'{key} threads={nt}', case, nt)


I = ('i4', 'i8')
RV = (('f4', 'f4'), ('f4', 'f8'), ('f8', 'f8'))


def colliding(n, nmax):
    """Index patterns of n rows and nmax entries: all on element 0, then overlapping."""
    a = np.zeros((n, nmax), int)
    b = np.arange(n * nmax).reshape(n, nmax) % 2
    c = a.copy(); c[0, 0] = -1
    return [a, b, c]


def fill(d, zeros):
    """Stored zeros: rows 0, 2... or 1, 3... of the structured array."""
    for name in d.dtype.names[1:]:
        d[name][zeros % 2 :: 2] = 0
    return d


def structured(idx, itype, fields):
    d = np.zeros(idx.shape, [('index', itype)] + fields)
    d['index'] = idx
    k = 1
    for name, *_ in fields:
        s = d[name].shape
        d[name] = (np.arange(d[name].size) % 5 + k).reshape(s)
        k += 1
    return d


def matvec(kind):
    def scenario(ck):
        from pysimulators import sparse as sp
        quick = ck.quick
        shapes = [(2, 1), (2, 2), (3, 1)] if quick else [(2, 1), (2, 2), (3, 1), (3, 2), (4, 1)]
        if kind == 'block':
            blocks = [b for b in itertools.product((1, 2, 3), repeat=2) if b != (1, 1)]
        elif kind == 'rot2d':
            blocks = [(2, 2)]
        elif kind == 'rot3d':
            blocks = [(3, 3)]
        else:
            blocks = [(1, 1)]
        for it, (rt_, vt), (n, nmax), b, fmt in itertools.product(I, RV, shapes, blocks, ('fsc', 'fsr')):
            if quick and (n, nmax) != (2, 1) and ((rt_, vt) != ('f8', 'f8') or it != 'i4'):
                continue
            if quick and kind == 'block' and (n, nmax) != (2, 1) and b != (2, 3):
                continue
            for ip, idx in enumerate(colliding(n, nmax)):
                if ip and (rt_, vt, it) != ('f8', 'f8', 'i4'):
                    continue
                m = 2
                if kind == 'block':
                    bs = b if fmt == 'fsr' else b[::-1]
                    d = structured(idx, it, [('value', rt_, bs)])
                    cls = sp.FSCBlockMatrix if fmt == 'fsc' else sp.FSRBlockMatrix
                elif kind == 'rot2d':
                    d = structured(idx, it, [('r11', rt_), ('r21', rt_)])
                    cls = sp.FSCRotation2dMatrix if fmt == 'fsc' else sp.FSRRotation2dMatrix
                elif kind == 'rot3d':
                    d = structured(idx, it, [('r11', rt_), ('r22', rt_), ('r32', rt_)])
                    cls = sp.FSCRotation3dMatrix if fmt == 'fsc' else sp.FSRRotation3dMatrix
                else:
                    d = structured(idx, it, [('value', rt_)])
                    cls = sp.FSCMatrix if fmt == 'fsc' else sp.FSRMatrix
                shape = (m * b[0], n * b[1]) if fmt == 'fsc' else (n * b[0], m * b[1])
                mat = cls(shape, data=d)
                extra = 2 if kind == 'homothety' else 1
                x = np.arange(1, shape[1] * extra + 1, dtype=vt)
                run(ck, f'{fmt} {kind} {it} {rt_} {vt} block={b} n={n} nmax={nmax} pattern={ip}',
                    lambda: mat._matvec(x), teams=(2, 3) if n < 3 or not quick else (3,))
    return scenario


def ptp_rules(ck):
    from pysimulators import sparse as sp
    from pysimulators import ProjectionOperator
    for it, (rt_, vt), n in itertools.product(I, RV, (2, 3)):
        for ip, idx in enumerate(colliding(n, 1)):
            for cls, f, b in ((sp.FSRMatrix, ['value'], 1), (sp.FSRRotation2dMatrix, ['r11', 'r21'], 2),
                              (sp.FSRRotation3dMatrix, ['r11', 'r22', 'r32'], 3)):
                if n == 3 and (vt, rt_, it) != ('f8', 'f8', 'i4'):
                    continue
                d = structured(idx, it, [(_, rt_) for _ in f])

                def func():
                    mat = cls((n * b, 2 * b), data=d.copy())
                    op = ProjectionOperator(mat, dtype=vt, shapein=(2,) if b == 1 else (2, b))
                    res = op.T * op
                    return res.get_data() if hasattr(res, 'get_data') else np.array(0.)
                run(ck, f'pTp {cls.__name__} {it} {rt_} {vt} n={n} pattern={ip}', func)


def kernel_restrict(ck):
    from pysimulators import sparse as sp
    from pysimulators import ProjectionOperator
    ints = ('i1', 'i2', 'i4', 'i8')
    kinds = ((sp.FSRMatrix, [('value', 'f8')], 1), (sp.FSRBlockMatrix, [('value', 'f8', (2, 2))], 2),
             (sp.FSRRotation2dMatrix, [('r11', 'f8'), ('r21', 'f8')], 2),
             (sp.FSRRotation3dMatrix, [('r11', 'f4'), ('r22', 'f4'), ('r32', 'f4')], 3))
    for it, (cls, f, b), n, nmax in itertools.product(ints, kinds, (2, 3), (1, 2)):
        if ck.quick and n * nmax > 4:
            continue
        for ip, idx in enumerate(colliding(n, nmax)):
            d = structured(idx, it, f)

            def make():
                return ProjectionOperator(cls((n * b, 2 * b), data=d.copy()), shapein=(2,) if b == 1 else (2, b))
            run(ck, f'kernel {cls.__name__} {it} n={n} nmax={nmax} pattern={ip}',
                lambda: make().canonical_basis_in_kernel())
            if ip == 1:
                for z in (0, 1):
                    dz = fill(d.copy(), z)
                    dz['index'] = (np.arange(n) % 2)[:, None]
                    run(ck, f'kernel {cls.__name__} {it} n={n} nmax={nmax} zeros={z}',
                        lambda: ProjectionOperator(cls((n * b, 2 * b), data=dz.copy()),
                                                   shapein=(2,) if b == 1 else (2, b)).canonical_basis_in_kernel())
            for mask in ([True, False], [False, True]):
                run(ck, f'restrict {cls.__name__} {it} n={n} nmax={nmax} pattern={ip} mask={mask}',
                    lambda: np.array(make().restrict(np.array(mask)).matrix.data))
            if it in ('i4', 'i8'):
                run(ck, f'pT1 {cls.__name__} {it} n={n} nmax={nmax} pattern={ip}', lambda: make().pT1())
                if cls is not sp.FSRRotation2dMatrix:
                    x = np.arange(1., n * b + 1).reshape((n,) if b == 1 else (n, b))
                    run(ck, f'pTx_pT1 {cls.__name__} {it} n={n} nmax={nmax} pattern={ip}', lambda: make().pTx_pT1(x))
                if b == 1:
                    run(ck, f'kernel_old {it} n={n} nmax={nmax} pattern={ip}',
                        lambda: make().canonical_basis_in_kernel_old())


def trexp(ck):
    from pysimulators import ConvolutionTruncatedExponentialOperator as C
    for nd, nt in ((2, 2), (2, 3), (3, 2), (4, 2)):
        x = np.arange(1., nd * nt + 1).reshape(nd, nt)
        for tau in (1.5, np.arange(1., nd + 1)):
            run(ck, f'trexp direct {nd} {nt} {np.ndim(tau)}', lambda: C(tau, shapein=(nd, nt))(x))
            run(ck, f'trexp transpose {nd} {nt} {np.ndim(tau)}', lambda: C(tau, shapein=(nd, nt)).T(x))

            def inplace(T):
                y = x.copy()
                op = C(tau, shapein=(nd, nt))
                (op.T if T else op)(y, y)
                return y
            run(ck, f'trexp direct in place {nd} {nt} {np.ndim(tau)}', lambda: inplace(False))
            run(ck, f'trexp transpose in place {nd} {nt} {np.ndim(tau)}', lambda: inplace(True))


def pointing(ck):
    from pysimulators import PointingMatrix, ProjectionInMemoryOperator, Tod
    import pysimulators._flib as flib
    for ndet, nt, npix in itertools.product((1, 2), (2, 3), (1, 2)):
        if ck.quick and ndet * nt > 4:
            continue
        for ip, idx in enumerate(colliding(ndet * nt, npix)):
            def make():
                m = PointingMatrix.empty((ndet, nt, npix), (2,), verbose=False)
                m['index'] = idx.reshape(m.shape)
                m['value'] = np.arange(1, m.size + 1).reshape(m.shape)
                return m
            x = np.arange(1., 3)
            y = np.arange(1., ndet * nt + 1).reshape(ndet, nt)
            mask = (np.arange(ndet * nt) % 3 == 1).reshape(ndet, nt)
            tag = f'{ndet} {nt} {npix} pattern={ip}'
            P = lambda: ProjectionInMemoryOperator(make())
            run(ck, 'projection direct ' + tag, lambda: P()(x))
            run(ck, 'projection transpose ' + tag, lambda: P().T(y))
            run(ck, 'projection mask ' + tag, lambda: P().get_mask())

            def pack(mk):
                m = make()
                m.pack(np.array(mk))
                return np.array(m)
            for mk in ([False, True], [True, False]):
                run(ck, f'projection pack {mk} ' + tag, lambda: pack(mk))
            run(ck, 'projection pTx_pT1 ' + tag, lambda: [np.array(_) for _ in P().get_pTx_pT1(Tod(y))])
            run(ck, 'projection pTx_pT1 masked ' + tag,
                lambda: [np.array(_) for _ in P().get_pTx_pT1(Tod(y, mask=mask))])
            raw = lambda: make().ravel().view(np.int64)

            def ptp():
                out = np.zeros((2, 2))
                flib.pointingmatrix.ptp(raw(), out.T, npix, ndet * nt, 2)
                return out
            if ip < 2:
                run(ck, 'projection ptp ' + tag, ptp)
            if npix == 1 and ip < 2:
                def one():
                    out = np.zeros(2)
                    flib.pointingmatrix.ptp_one(raw(), out, ndet * nt, 2)
                    return out
                run(ck, 'projection ptp_one ' + tag, one)
            for name in ('intersects', 'intersects_axis2', 'intersects_axis3', 'intersects_openmp1', 'intersects_openmp2'):
                f = getattr(flib.pointingmatrix, name, None)
                if f is not None and name != 'intersects_openmp1':
                    for p in (0, 1):
                        run(ck, f'projection {name} {p} ' + tag, lambda: f(raw(), p, npix, nt, ndet))
            run(ck, 'projection isvalid ' + tag, lambda: flib.pointingmatrix.isvalid(raw(), npix, ndet * nt, 2))


def polygons(ck):
    from pysimulators import SceneGrid
    sq = np.array([[0, 0], [1, 0], [1, 1], [0, 1]], float)
    sets = {
        'overlapping': [sq * 2, sq * 1.5 + .25],
        'different counts': [sq, sq * 2 - .5, sq + .5],
        'outside': [sq + 5, sq * 2, sq - 1.5],
        'outside last': [sq * 2, sq * .5, sq + 7],
        'four': [sq, sq + 1, sq * 3, sq * .5],
    }
    for name, s in sets.items():
        for it, rt_ in itertools.product(('i4', 'i8'), ('f4', 'f8')):
            for ncolmax in (0, 1, 4, 9):
                if ck.quick and (it, rt_) != ('i4', 'f8') and ncolmax != 4:
                    continue

                def func():
                    # the values of the unused entries are undefined
                    op = SceneGrid((3, 3)).get_integration_operator(np.array(s), ncolmax=ncolmax, dtype=rt_, dtype_index=it)
                    d = op.matrix.data
                    used = d.index >= 0
                    return np.array(d.index), np.where(used, d.value, 0), op.outside, op.min_ncolmax
                run(ck, f'polygons {name} {it} {rt_} ncolmax={ncolmax}', func)


def rotations(ck):
    import pysimulators._flib as flib
    bi = flib.bi
    def rot(n):
        out = []
        for k in range(n):
            a = .3 + k
            c, s = np.cos(a), np.sin(a)
            out.append([[c, -s, 0], [s, c, 0], [0, 0, 1]])
        return np.array(out)
    for it, rt_ in itertools.product((4, 8), (4, 8)):
        for npix, ntime, ndet in ((1, 1, 2), (1, 2, 2), (2, 1, 2), (1, 1, 3)):
            enf = np.empty((ndet, npix, 3))
            for d in range(ndet):
                for p in range(npix):
                    v = np.array([.1 + d, .2 + p, 1.])
                    enf[d, p] = v / np.linalg.norm(v)
            vals = np.arange(1., ndet * npix + 1).reshape(ndet, npix)
            for kind, nr in (('matrix_rot2d', 2), ('matrix_rot3d', 3), ('weighted_matrix_rot3d', 3)):
                f = getattr(bi, f'{kind}_i{it}_r{rt_}', None)
                if f is None:
                    ck.count('kernels_not_found')
                    continue
                dt = [('index', f'i{it}')] + [(f'r{i}', f'f{rt_}') for i in range(nr)]

                def func():
                    m = np.zeros((ndet, ntime, npix), dt)
                    w = (np.arange(1., ndet * ntime * npix + 1).reshape(ndet, ntime, npix).T,) if 'weighted' in kind else ()
                    f(rot(ntime).T, enf.T, m.ravel().view('i1'), vals.T, *w, npix, ntime, ndet)
                    return m
                run(ck, f'bi {kind} i{it} r{rt_} {npix} {ntime} {ndet}', func)


def geometry(ck):
    from pysimulators import geometry as g
    for shape in ((2, 2), (3, 2), (2, 3), (4, 1)):
        for refl in (False, True):
            run(ck, f'grid {shape} {refl}', lambda: g.create_grid(shape, 2., xreflection=refl, center=(1, 2), angle=30))
            run(ck, f'squares {shape} {refl}',
                lambda: g.create_grid_squares(shape, 2., yreflection=refl, filling_factor=.8, center=(1, 2), angle=30))
    for n in (2, 3, 4):
        x = np.arange(1., 2 * n + 1).reshape(n, 2)
        run(ck, f'rotate {n}', lambda: g.rotate(x, 30))

        def inplace():
            y = x.copy()
            g.rotate(y, 30, out=y)
            return y
        run(ck, f'rotate in place {n}', inplace)
        c = np.array([[[0, 0], [k, 0], [k, 1 + k], [0, 1]] for k in range(1, n + 1)], float)
        run(ck, f'surface {n}', lambda: g.surface_simple_polygon(c))


def images(ck):
    from pysimulators import datautils as d
    for dt in ('f4', 'f8'):
        for shape in ((2,), (4,), (2, 2), (3, 2), (4, 1)):
            c = np.arange(.5, .5 + len(shape))
            s = np.arange(1., 1 + len(shape))
            run(ck, f'distance {dt} {shape}', lambda: np.array(d.distance(shape, center=c, scale=s, dtype=dt)))
            run(ck, f'distance2 {dt} {shape}', lambda: np.array(d.distance2(shape, center=c, scale=s, dtype=dt)))
            if len(shape) == 2:
                run(ck, f'gaussian {dt} {shape}', lambda: np.array(d.gaussian(shape, sigma=s, center=c, dtype=dt)))
                im = np.arange(1, 1 + np.prod(shape)).reshape(shape).astype(dt)
                for b in (1, 2):
                    run(ck, f'profile {dt} {shape} bin={b}',
                        lambda: d.profile(im, center=(0., 0.), bin=b, nbins=3, histogram=True), tol=1e-5)


def angles(ck):
    from pysimulators import wcsutils as w
    sets = {'wrap': [350., 20., 10.], 'two': [1., 359.], 'plain': [10., 20., 30., 40.], 'nan': [np.nan, 5., 355.],
            'opposite': [90., 100., 270.], 'allnan': [np.nan, np.nan], '180': [180., 0., 360.]}
    for name, a in sets.items():
        a = np.array(a)
        run(ck, f'mean_degrees {name}', lambda: w.mean_degrees(a), tol=1e-10)
        run(ck, f'minmax_degrees {name}', lambda: w.minmax_degrees(a))
        b = np.array([0., 10., -20., 30.])[:len(a)]
        run(ck, f'barycenter {name}', lambda: w.barycenter_lonlat(a, b), tol=1e-10)
        run(ck, f'angle_lonlat {name}', lambda: w.angle_lonlat(a, b, a[::-1], b))
        run(ck, f'angle_lonlat 1 {name}', lambda: w.angle_lonlat(a, b, 5., 6.))
        run(ck, f'angle_lonlat 2 {name}', lambda: w.angle_lonlat(5., 6., a, b))


def legacy_pointing(ck):
    """Compiled pointing computation from detector coordinates."""
    import pysimulators._flib as flib
    from pysimulators import create_fitsheader
    h = create_fitsheader((4, 4), cdelt=1., crval=(10., 20.), crpix=(2.5, 2.5))
    h = h.tostring().ljust(2880)
    w = flib.wcsutils
    for n in (2, 3):
        ra, dec, pa = 10. + np.arange(n), 20. + .5 * np.arange(n), 10. * np.arange(n)
        coords = np.array([[0., 0.], [1., .5]])
        if hasattr(w, 'object2xy_minmax'):
            f = lambda: w.object2xy_minmax(coords.T * 3600, ra, dec, pa, h)
            run(ck, f'object2xy_minmax {n}', f)
        if hasattr(w, 'object2pmatrix_nearest_neighbour'):
            def nn():
                m = np.zeros((2, n, 1), [('index', 'i4'), ('value', 'f4')])
                masked = np.arange(n) == 1
                out, status = w.object2pmatrix_nearest_neighbour(coords.T * 3600, np.ones(2), ra, dec, pa,
                                                                 masked.view('i1'), h, m.ravel().view('i8'))
                return m, out, status
            run(ck, f'nearest neighbour {n}', nn)
        if hasattr(w, 'projection_scale'):
            run(ck, f'projection_scale {n}', lambda: w.projection_scale(h, 4, n))


def scenarios(tier):
    s = [(f'matvec {k}', matvec(k)) for k in ('plain', 'homothety', 'block', 'rot2d', 'rot3d')]
    s += [(f.__name__, f) for f in (ptp_rules, kernel_restrict, trexp, pointing, polygons, rotations, geometry, images,
                                    angles, legacy_pointing)]
    return s
