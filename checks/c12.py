"""
C12: pointing-matrix projections agree with their dense matrix and with each other.
"""
import itertools

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C12'
TECHNIQUE = 'exhaustive enumeration of small pointing matrices and masks, and of the histories of on-the-fly projections sharing a place holder, against a dense model'
NOTE = (
    'Entries are small integers, so that the comparisons with the dense matrix are exact. A row ends at its first negative index. '
    'Out-of-map coordinates of intersects, and its answer and that of isvalid after packing for entries that follow a negative index, are not specified and not exercised.'
)
BOUNDS = (
    'every matrix of 1 or 2 samples (over 1 or 2 detectors) with up to 3 entries per sample and values 0 to 2, 3 samples of one entry, maps of 2 or 3 pixels in 1 or 2 '
    'dimensions, every sample mask and pixel mask; every product of two of 9 projections through a diagonal; every history of 4 (5 when thorough) operations on 2 on-the-fly projections, with failures'
)


def pmatrix(rows, shape, shape_input):
    from pysimulators import PointingMatrix
    L = len(rows[0])
    m = PointingMatrix.zeros(shape + (L,), shape_input, verbose=False)
    a = np.array(rows, float).reshape(shape + (L, 2))
    m['index'] = a[..., 0]
    m['value'] = a[..., 1]
    return m


def dense(rows, npix):
    out = np.zeros((len(rows), npix))
    for r, row in zip(out, rows):
        for i, v in row:
            if i < 0:
                break
            r[int(i)] += v
    return out


def observed(rows, npix):
    out = np.zeros((len(rows), npix), bool)
    for r, row in zip(out, rows):
        for i, v in row:
            if i < 0:
                break
            if v != 0:
                r[int(i)] = True
    return out


def pointed(rows, npix):
    out = np.zeros((len(rows), npix), bool)
    for r, row in zip(out, rows):
        for i, v in row:
            if i < 0:
                break
            r[int(i)] = True
    return out


def snapshot(m):
    return m.tobytes(), m.shape, m.shape_input


def case(rows, shape, shin, deep=True):
    from pysimulators import Map, ProjectionInMemoryOperator, Tod
    npix = int(np.prod(shin))
    nsam = len(rows)
    m = pmatrix(rows, shape, shin)
    before = snapshot(m)
    P = ProjectionInMemoryOperator(m)
    d = dense(rows, npix)
    eq((P.shapein, P.shapeout), (shin, shape), 'shapes')
    x = 3. ** np.arange(npix).reshape(shin)
    y = 5. ** np.arange(nsam).reshape(shape)
    Px = (d @ x.ravel()).reshape(shape)
    Pty = (d.T @ y.ravel()).reshape(shin)
    same_array(P(x), Px, 'projection', dtype=float)
    same_array(P.T(y), Pty, 'back-projection', dtype=float)
    same_array(P.todense(), d, 'dense')
    same_array(P.T.todense(), d.T, 'dense transpose')
    o = np.full(shape, np.nan)
    P(x, out=o)
    same_array(o, Px, 'projection in a given output')
    o = np.full(shin, np.nan)
    P.T(y, out=o)
    same_array(o, Pty, 'back-projection in a given output')
    # masks and coverages
    obs = ~observed(rows, npix).any(0).reshape(shin)
    same_array(P.get_mask(), obs, 'mask', dtype=bool)
    o = np.ones(shin, bool)
    P.get_mask(out=o)
    same_array(o, obs, 'mask in a given output')
    same_array(P.get_pTp(), d.T @ d, 'PtP')
    ptp = P.T * P
    same_array(ptp.todense(), d.T @ d, 'P.T * P')
    a, b = P.get_pTx_pT1(y)
    same_array(a, Pty, 'pTx')
    same_array(b, (d.T @ np.ones(nsam)).reshape(shin), 'pT1')
    for mask in itertools.product((False, True), repeat=nsam):
        mk = np.array(mask)
        for how in range(2):
            if how:
                a, b = P.get_pTx_pT1(Tod(y, mask=mk.reshape(shape)))
            else:
                a, b = P.get_pTx_pT1(y, mask=mk.reshape(shape))
            same_array(a, (d.T @ (y.ravel() * ~mk)).reshape(shin), f'pTx with mask {mask}')
            same_array(b, (d.T @ ~mk).reshape(shin), f'pT1 with mask {mask}')
    # intersections: any entry, whatever its value
    pt = pointed(rows, npix).reshape(shape + (npix,))
    holes = any(row[k][0] < 0 <= row[k + 1][0] for row in rows for k in range(len(row) - 1))
    if len(shape) == 2 and not holes:
        for k, pos in enumerate(np.ndindex(shin)):
            c = tuple(v + 1 for v in pos[::-1])
            eq(P.intersects(c), bool(pt[..., k].any()), f'intersects {c}')
            for ax in (0, -3):
                same_array(P.intersects(c, axis=ax), pt[..., k].any(0), f'intersects {c} axis {ax}', dtype=bool)
            for ax in (1, -2):
                same_array(P.intersects(c, axis=ax), pt[..., k].any(1), f'intersects {c} axis {ax}', dtype=bool)
    require(m.isvalid() is True, 'valid')
    eq(snapshot(m), before, 'pointing matrix after having been used')
    if not deep:
        return
    # packing
    for mask in itertools.product((False, True), repeat=npix):
        keep = ~np.array(mask)
        q = m.copy()
        q.pack(np.array(mask).reshape(shin))
        eq(q.shape_input, (int(keep.sum()),), f'shape of the packed matrix {mask}')
        same_array(m.copy().view(np.ndarray)['index'], m.view(np.ndarray)['index'], 'copy')
        require(holes or q.isvalid() is True, 'packed matrix is valid')
        if keep.any():
            Q = ProjectionInMemoryOperator(q)
            same_array(Q.todense(), d[:, keep], f'packed {mask}')
            same_array(Q.get_mask(), obs.ravel()[keep], f'mask of packed {mask}')
            same_array(Q(x.ravel()[keep]), (d[:, keep] @ x.ravel()[keep]).reshape(shape), f'packed projection {mask}')
    eq(snapshot(m), before, 'pointing matrix after its copies have been packed')
    # diagonals absorbed by the projection
    from pyoperators import DiagonalOperator, HomothetyOperator
    w = 2. ** np.arange(nsam).reshape(shape)
    for D, v in ((DiagonalOperator(w), w), (HomothetyOperator(3.), 3.), (DiagonalOperator(w * 1j), w * 1j)):
        C = D * P
        same_array(C(x), v * Px, 'diagonal times projection')
        same_array(C.T(y), (d.T @ (v * y).ravel()).reshape(shin), 'transpose of diagonal times projection')
        if len(rows[0]) == 1:
            same_array((C.T * C).todense(), d.T @ np.diag(np.broadcast_to(v, shape).ravel() ** 2) @ d, 'PtDDP')
    eq(snapshot(m), before, 'pointing matrix after products with diagonals')
    same_array(P(x), Px, 'projection after products')
    # in-place masking of the samples
    for mask in itertools.product((False, True), repeat=nsam):
        R = ProjectionInMemoryOperator(m.copy())
        R.apply_mask(np.array(mask).reshape(shape))
        dm = d * ~np.array(mask)[:, None]
        same_array(R.todense(), dm, f'masked {mask}')
        same_array(R.get_mask(), ~(observed(rows, npix) & ~np.array(mask)[:, None]).any(0).reshape(shin), f'mask of masked {mask}')
        same_array(R.get_pTp(), dm.T @ dm, f'PtP of masked {mask}')
        R.apply_mask(np.array(mask[::-1]).reshape(shape))
        same_array(R.todense(), dm * ~np.array(mask[::-1])[:, None], f'masked twice {mask}')
    eq(snapshot(m), before, 'pointing matrix after its copies have been masked')


def entries(npix, values=(0, 1, 2)):
    return [(-1, 3)] + [(i, v) for i in range(npix) for v in values]


def family(first, L, nsam, shapes, shins, values=(0, 1, 2)):
    """All the matrices whose first row is given."""
    def scenario(ck):
        npix = int(np.prod(shins[0]))
        rows = list(itertools.product(entries(npix, values), repeat=L))
        for rest in itertools.product(rows, repeat=nsam - 1):
            rr = (first,) + rest
            for n, (shape, shin) in enumerate(itertools.product(shapes, shins)):
                ck.check(f'{rr} {shape} {shin}', case, rr, shape, shin, n == 0 or not ck.quick)
    return scenario


def validity(ck):
    from pysimulators import PointingMatrix
    for shin in ((1,), (2,), (2, 2), (1, 3)):
        n = int(np.prod(shin))
        vals = (-3, -2, -1, 0, n - 1, n, n + 1)
        for L in (1, 2):
            for ns in (1, 2):
                for idx in itertools.product(vals, repeat=L * ns):
                    def one():
                        m = PointingMatrix.zeros((ns, L), shin, verbose=False)
                        m['index'] = np.array(idx).reshape(ns, L)
                        eq(m.isvalid(), all(-1 <= i < n for i in idx), 'isvalid')
                    ck.check(f'{shin} {L} {idx}', one)
    def empty():
        for sh in ((0, 1), (1, 0), (2, 0), (0, 0)):
            m = PointingMatrix.zeros(sh, (3,), verbose=False)
            require(m.isvalid(), 'empty matrix is valid')
            same_array(m.get_mask(), np.ones(3, bool), 'mask of an empty matrix')
    ck.check('empty', empty)


def constructors(ck):
    """Values of new matrices, and what views and copies know about the map."""
    from pysimulators import PointingMatrix
    for sh in ((1, 1), (2, 3), (2, 3, 4), (3, 0)):
        for shin in ((4,), (2, 2)):
            def one():
                for f, val in ((PointingMatrix.ones, 1), (PointingMatrix.zeros, 0)):
                    m = f(sh, shin, verbose=False)
                    eq(m.shape, sh, 'shape')
                    same_array(m['index'], np.full(sh, -1), 'index')
                    same_array(m['value'], np.full(sh, val), 'value')
                    for v in (m.copy(), m[:1], m[...], m.view(), m[::2]):
                        eq(v.shape_input, shin, 'map shape')
                m = PointingMatrix.empty(sh, shin, verbose=False)
                eq((m.shape, m.shape_input), (sh, shin), 'empty')
                b = np.zeros(sh, PointingMatrix.default_dtype)
                c = PointingMatrix(b, shin)
                require(not np.may_share_memory(b, c) or b.size == 0, 'copied')
                c = PointingMatrix(b, shin, copy=False)
                if b.size:
                    c['index'] = 7
                    require(np.all(b['index'] == 7), 'not copied')
            ck.check(f'{sh} {shin}', one)


def coordinates(ck):
    for shin in ((3,), (1,), (2, 3), (3, 2), (2, 1), (2, 3, 2), (1, 2, 3)):
        n = int(np.prod(shin))
        for k in range(n):
            def one():
                from pysimulators import ProjectionInMemoryOperator
                P = ProjectionInMemoryOperator(pmatrix([[(k, 1)], [(-1, 0)]], (1, 2), shin))
                for j, pos in enumerate(np.ndindex(shin)):
                    c = tuple(v + 1 for v in pos[::-1])
                    eq(P.intersects(c), j == k, f'intersects {c}')
                    eq(P.intersects(list(c)), j == k, f'intersects {c}')
                    same_array(P.intersects(c, axis=0), [j == k, False], 'axis 0')
                    same_array(P.intersects(c, axis=1), [j == k], 'axis 1')
                raises(ValueError, P.intersects, (1,) * len(shin), axis=2)
            ck.check(f'{shin} {k}', one)


def buffers(ck):
    """Number types and memory layouts of the inputs and outputs."""
    from pysimulators import ProjectionInMemoryOperator
    rows = [[(0, 1), (3, 2)], [(1, 1), (-1, 5)], [(-1, 1), (2, 1)], [(2, 2), (2, 1)], [(3, 0), (0, 1)], [(5, 2), (4, 1)]]
    lay = {
        'C': lambda a: a.copy(),
        'F': lambda a: np.array(a, order='F'),
        'strided': lambda a: np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2],
        'reversed': lambda a: a[::-1, ::-1].copy()[::-1, ::-1],
        'transposed': lambda a: a.T.copy().T,
        'subarray': lambda a: np.pad(a, 1)[1:-1, 1:-1],
    }
    for L in (1, 2):
        rr = [r[:L] for r in rows]
        d = dense(rr, 6)
        for shape, shin in itertools.product(((2, 3), (3, 2), (6, 1), (1, 6)), ((2, 3), (3, 2), (1, 6))):
            for li, lo in itertools.product(lay, lay):
                for dt in ('f8', 'f4', 'i4', 'i8', '>f8', 'c16', 'c8', 'u1', '?'):
                    if ck.quick and dt not in ('f8', 'c16', 'i4') and (li, lo) not in (('C', 'C'), ('F', 'F'), ('strided', 'strided')):
                        continue

                    def one():
                        P = ProjectionInMemoryOperator(pmatrix(rr, shape, shin))
                        for op, mat, si, so in ((P, d, shin, shape), (P.T, d.T, shape, shin)):
                            v = (np.arange(6) + 1).reshape(si)
                            v = (v + (2j * v[::-1] if 'c' in dt else 0)).astype(dt)
                            x = lay[li](v)
                            e = (mat @ x.ravel()).reshape(so)
                            r = op(x)
                            same_array(r, e, 'result', dtype=complex if 'c' in dt else float)
                            o = lay[lo](np.full(so, np.nan, r.dtype))
                            op(x, out=o)
                            same_array(o, e, 'result in the given output')
                            same_array(x, v, 'input')
                    ck.check(f'{L} {shape} {shin} {li} {lo} {dt}', one)


def blocks(ck):
    """Block columns of projections, in memory and on the fly, and their transposes."""
    from pyoperators import BlockColumnOperator
    from pysimulators import ProjectionInMemoryOperator, ProjectionOnFlyOperator
    pool = [[(0, 1), (1, 2)], [(1, 1), (-1, 9)], [(-1, 1), (0, 7)], [(1, 1), (1, 1)]]
    rows = list(itertools.product(pool, repeat=2))
    x = np.array([3., 7.])
    for nb in (2, 3):
        for sel in itertools.product(range(0, len(rows), 3 if nb == 2 else 6), repeat=nb):
            for shape in ((2, 1), (1, 2)):
                for kind in ('memory', 'fly', 'mixed'):
                    for where in ((dict(axisout=0),), (dict(axisout=1),), (dict(axisout=-1),), (dict(new_axisout=0),), (dict(new_axisout=-1),)):
                        kw = where[0]

                        def one():
                            ms = [pmatrix(rows[s], shape, (2,)) for s in sel]
                            place = {}
                            ops = []
                            for j, m in enumerate(ms):
                                if kind == 'memory' or kind == 'mixed' and j % 2:
                                    ops.append(ProjectionInMemoryOperator(m))
                                else:
                                    ops.append(ProjectionOnFlyOperator(place, f'id{j}', lambda i: ms[int(i[2:])].copy(), shapein=(2,), shapeout=shape))
                            B = BlockColumnOperator(ops, **kw)
                            ds = [dense(rows[s], 2) for s in sel]
                            parts = [(q @ x).reshape(shape) for q in ds]
                            e = np.concatenate(parts, kw['axisout']) if 'axisout' in kw else np.stack(parts, kw['new_axisout'])
                            same_array(B(x), e, 'block column')
                            y = np.arange(e.size).reshape(e.shape) + 1.
                            ys = np.split(y, nb, kw['axisout']) if 'axisout' in kw else [np.take(y, j, kw['new_axisout']) for j in range(nb)]
                            t = sum(q.T @ v.ravel() for q, v in zip(ds, ys))
                            for _ in range(2):
                                same_array(B.T(y), t, 'block row')
                            same_array((B.T * B).todense(), sum(q.T @ q for q in ds), 'BtB')
                            same_array(B(x), e, 'block column again')
                        ck.check(f'{sel} {shape} {kind} {kw}', one)


def products(L):
    """Products of the transposes of projections with the same or another one, through diagonals."""
    pool = [[(-1, 5)] + [(0, 1)] * (L - 1), [(0, 2), (1, 1)][:L], [(1, 3), (1, 1)][:L]]

    def one(sa, sb, weight, seen):
        from pyoperators import DiagonalOperator, HomothetyOperator, MaskOperator
        from pysimulators import ProjectionInMemoryOperator
        ds = [dense([pool[k] for k in s_], 2) for s_ in (sa, sb)]
        P, Q = (ProjectionInMemoryOperator(pmatrix([pool[k] for k in s_], (2, 1), (2,))) for s_ in (sa, sb))
        if sa == sb:
            Q, ds[1] = P, ds[0]
        if seen & 1:
            P.T
        if seen & 2:
            Q.T
        A, B = ds
        if weight is None:
            N, n = None, np.eye(2)
        elif weight == 'scalar':
            N, n = HomothetyOperator(3.), 3 * np.eye(2)
        elif weight == 'mask':
            N, n = MaskOperator(np.array([[False], [True]])), np.diag([1., 0])
        else:
            N, n = DiagonalOperator(np.array([[2.], [3.]])), np.diag([2., 3])
        if N is None:
            same_array((P.T * Q).todense(), A.T @ B, 'P.T * Q')
            same_array((Q.T * P).todense(), B.T @ A, 'Q.T * P')
        else:
            same_array((P.T * N * Q).todense(), A.T @ n @ B, 'P.T * N * Q')
            same_array((P.T * (N * Q)).todense(), A.T @ n @ B, 'P.T * (N * Q)')
            same_array(((N * P).T * Q).todense(), A.T @ n @ B, '(N * P).T * Q')
            R = N * P
            same_array((R.T * R).todense(), A.T @ n @ n @ A, '(N * P).T * (N * P)')
            same_array((P.T * P).todense(), A.T @ A, 'P.T * P')
        same_array((P.T * Q + Q.T * P).todense(), A.T @ B + B.T @ A, 'P.T * Q + Q.T * P')
        for o, d in ((P, A), (Q, B)):
            same_array(o.todense(), d, 'projection after its products')
            same_array(o.T.todense(), d.T, 'transpose after its products')

    def scenario(ck):
        sel = list(itertools.product(range(3), repeat=2))
        for sa, sb in itertools.product(sel, repeat=2):
            for weight in (None, 'scalar', 'mask', 'diagonal'):
                for seen in range(4):
                    ck.check(f'{sa} {sb} {weight} {seen}', one, sa, sb, weight, seen)
    return scenario


class Failure(Exception):
    pass


def onfly(first, same_ids):
    """Every history of operations on two projections that share a place holder, with failures of the computation."""
    meths = ('direct', 'transpose', 'mask', 'ptp', 'ptx')
    letters = [(o, m, f) for o in (0, 1) for m in meths for f in (False, True) if not (f and m not in ('direct', 'mask'))]

    def scenario(ck):
        from pysimulators import ProjectionOnFlyOperator
        ids = [0, 0] if same_ids == 'equal' else [None, 1] if same_ids == 'none' else [('a', 10**6), ('b', 10**6)]
        rows = [[[(0, 1), (1, 2)], [(1, 1), (-1, 9)]], [[(1, 4), (-1, 2)], [(-1, 1), (0, 7)]]]
        if same_ids == 'equal':
            rows[1] = rows[0]
        ds = [dense(r, 2) for r in rows]
        x = np.array([3., 7.])
        y = np.array([[1., 10.]])

        def run(hist):
            fail = [False]

            def func(i):
                if fail[0]:
                    raise Failure
                eq(place['matrix'], None, 'place holder while computing')
                return pmatrix(rows[ids.index(i)], (1, 2), (2,))
            place = {}
            ops = [ProjectionOnFlyOperator(place, i, func, shapein=(2,), shapeout=(1, 2)) for i in ids]
            for o, m, f in hist:
                P, d = ops[o], ds[o]
                fail[0] = f
                try:
                    if m == 'direct':
                        r, e = P(x), (d @ x)[None]
                    elif m == 'transpose':
                        r, e = P.T(y), d.T @ y[0]
                    elif m == 'mask':
                        r, e = P.get_mask(), ~observed(rows[o], 2).any(0)
                    elif m == 'ptp':
                        r, e = P.get_pTp(), d.T @ d
                    else:
                        r, e = np.array(P.get_pTx_pT1(y)), np.array([d.T @ y[0], d.T @ [1, 1]])
                except Failure:
                    require(f, 'failure')
                    continue
                finally:
                    fail[0] = False
                same_array(r, e, f'{o} {m}')
        depth = 4 if ck.quick else 5
        for n in range(depth):
            for rest in itertools.product(letters, repeat=n):
                h = (first,) + rest
                ck.check(repr(h), run, h)
    return scenario, letters


def units(ck):
    from pyoperators import DiagonalOperator
    from pysimulators import Map, ProjectionInMemoryOperator, ProjectionOnFlyOperator, Tod
    rows = [[(0, 1)], [(1, 2)]]
    us = ['', 'Jy', 'K', 'Jy/K', 'm^2']
    for uo, ui, ux in itertools.product(us[:4], us[:4], us):
        for kind in ('memory', 'fly', 'diagonal'):
            def one():
                from pysimulators import Quantity
                m = pmatrix(rows, (1, 2), (2,))
                kw = dict(units=(uo, ui))
                if kind == 'fly':
                    P = ProjectionOnFlyOperator({}, 1, lambda i: m, shapein=(2,), shapeout=(1, 2), **kw)
                else:
                    P = ProjectionInMemoryOperator(m, **kw)
                if kind == 'diagonal':
                    P = DiagonalOperator([[1., 1.]]) * P
                x = Map([1., 2.], unit=ux)
                r = P(x)
                e = Quantity([[1., 4.]], ux) * Quantity(1, uo) / Quantity(1, ui) if ux else Quantity([[1., 4.]])
                eq(r.unit, e.unit, 'unit of the projection')
                same_array(r.magnitude, [[1., 4.]], 'projection')
                y = Tod([[1., 2.]], unit=ux)
                r = P.T(y)
                e = Quantity([1., 4.], ux) / Quantity(1, uo) * Quantity(1, ui) if ux else Quantity([1., 4.])
                eq(r.unit, e.unit, 'unit of the back-projection')
                same_array(r.magnitude, [1., 4.], 'back-projection')
                eq(x.unit, Map(1, unit=ux).unit, 'unit of the input')
            ck.check(f'{uo} {ui} {ux} {kind}', one)


def scenarios(tier):
    quick = tier == 'quick'
    s = []
    two = [(1, 2), (2, 1)]
    for r in itertools.product(entries(2), repeat=2):
        s.append((f'2 samples of 2 entries, first {r}', family(r, 2, 2, two, [(2,)] if quick else [(2,), (1, 2)])))
    for r in itertools.product(entries(2, (0, 1)), repeat=3):
        s.append((f'1 sample of 3 entries {r}', family(r, 3, 1, [(1, 1)], [(2,)])))
    for r in itertools.product(entries(3, (0, 1)), repeat=2):
        s.append((f'map of 3 pixels {r}', family(r, 2, 1, [(1, 1)], [(3,), (1, 3)])))
    for r in itertools.product(entries(2), repeat=1):
        s.append((f'3 samples of 1 entry, first {r}', family(r, 1, 3, [(1, 3), (3, 1), (3,)], [(2,), (2, 1)])))
    if not quick:
        for r in itertools.product(entries(3, (1, 2)), repeat=2):
            s.append((f'2 samples on 3 pixels, first {r}', family(r, 2, 2, [(1, 2)], [(3,)], (1, 2))))
        for r in itertools.product(entries(2, (0, 1)), repeat=3):
            s.append((f'2 samples of 3 entries, first {r}', family(r, 3, 2, [(2, 1)], [(2,)], (0, 1))))
    for kind in ('different', 'equal', 'none'):
        for f in onfly(None, kind)[1]:
            s.append((f'on the fly, {kind} identifiers, first {f}', onfly(f, kind)[0]))
    return [('buffers', buffers), ('blocks', blocks), ('products of 1 entry', products(1)), ('products of 2 entries', products(2))] + s + [('units', units), ('validity', validity), ('constructors', constructors), ('coordinates', coordinates)]
