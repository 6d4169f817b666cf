"""
C13: the integration over detectors is the exact overlap area on the scene grid.
"""
import itertools

import numpy as np

from mc.harness import Mismatch, _seen, eq, raises, require, same_array

PID = 'C13'
TECHNIQUE = 'exhaustive enumeration of the polygons with vertices on small lattices (aligned and not with the pixels), against an independent polygon clipping'
NOTE = (
    'The reference clips each polygon by the four sides of each pixel (Sutherland-Hodgman) and takes the shoelace area; weights are compared with an absolute '
    'tolerance of 1e-12 (3e-6 in single precision). Polygons are simple: self-intersecting ones have no defined area.'
)
BOUNDS = (
    'grids of 1x1 to 3x2 pixels, every triangle on lattices of up to 36 (quick) or 64 points extending beyond the grid and on lattices of general position, every simple '
    'quadrilateral on lattices of 12 (quick) or 16 points, every initial capacity from 0 to 2 more than required, 4 type combinations, batches of any of 3 polygons of a pool'
)


def clip_area(poly, x0, y0):
    """Area of the polygon inside the unit square of centre (x0, y0)."""
    for axis, sign, lim in ((0, 1, x0 - 0.5), (0, -1, -x0 - 0.5), (1, 1, y0 - 0.5), (1, -1, -y0 - 0.5)):
        out = []
        for k in range(len(poly)):
            p, q = poly[k - 1], poly[k]
            a, b = sign * p[axis] - lim, sign * q[axis] - lim
            if a >= 0 and b >= 0:
                out.append(q)
            elif a >= 0 or b >= 0:
                t = a / (a - b)
                r = [p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])]
                r[axis] = sign * lim
                out.append(r)
                if b >= 0:
                    out.append(q)
        poly = out
        if not poly:
            return 0.
    return abs(area(poly))


def area(poly):
    s = 0.
    for k in range(len(poly)):
        p, q = poly[k - 1], poly[k]
        s += p[0] * q[1] - q[0] * p[1]
    return s / 2


def reference(poly, shape):
    out = np.zeros(shape)
    xs, ys = [p[0] for p in poly], [p[1] for p in poly]
    for iy in range(shape[0]):
        if max(ys) <= iy - 0.5 or min(ys) >= iy + 0.5:
            continue
        for ix in range(shape[1]):
            if max(xs) <= ix - 0.5 or min(xs) >= ix + 0.5:
                continue
            out[iy, ix] = clip_area(poly, ix, iy)
    return out


def outside(polys, shape):
    p = np.asarray(polys)
    return bool((p < -0.5).any() or (p[..., 0] > shape[1] - 0.5).any() or (p[..., 1] > shape[0] - 0.5).any())


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def on(a, b, c):
    return min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])


def cross(a, b, c, d):
    """The closed segments ab and cd intersect."""
    o = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if o[0] != o[1] and o[2] != o[3]:
        return True
    return o[0] == 0 and on(a, b, c) or o[1] == 0 and on(a, b, d) or o[2] == 0 and on(c, d, a) or o[3] == 0 and on(c, d, b)


def simple_quad(a, b, c, d):
    if len({a, b, c, d}) < 4:
        return False
    if cross(a, b, c, d) or cross(b, c, d, a):
        return False
    # adjacent sides that overlap
    for p, q, r in ((a, b, c), (b, c, d), (c, d, a), (d, a, b)):
        if orient(p, q, r) == 0 and (on(q, r, p) or on(p, q, r)):
            return False
    return True


def rows_of(op):
    m = op.matrix
    return [m.data[k].reshape(m.shape[0], m.ncolmax) for k in ('index', 'value')]


def verify(op, polys, shape, tol, what, inside_sum=True):
    """Compares each row of the operator with the reference."""
    npix = shape[0] * shape[1]
    idx, val = rows_of(op)
    eq((op.shapein, op.shapeout), (shape, np.asarray(polys).shape[:-2]), 'shapes')
    flat = np.asarray(polys).reshape((-1,) + np.asarray(polys).shape[-2:])
    for i, p in enumerate(flat.tolist()):
        used = idx[i] >= 0
        k = idx[i][used].tolist()
        if len(set(k)) != len(k):
            raise Mismatch(f'{p}: pixel counted twice: {k}')
        if k and max(k) >= npix:
            raise Mismatch(f'{p}: pixel out of the grid: {k}')
        got = np.zeros(npix)
        got[k] = val[i][used]
        exp = reference(p, shape).ravel()
        if not np.all(np.abs(got - exp) <= tol):
            raise Mismatch(f'{p} on {shape}: weights {got.tolist()} instead of {exp.tolist()}')
        if np.any(got < 0):
            raise Mismatch(f'{p}: negative weight')
        if not outside([p], shape) and abs(got.sum() - abs(area(p))) > tol * npix:
            raise Mismatch(f'{p}: the weights sum to {got.sum()} instead of {abs(area(p))}')
        _seen(tuple(k), got.tobytes())


def lattice(kind, shape, quick):
    ny, nx = shape
    if kind == 'aligned':
        xs = np.arange(-1, nx + 0.01, 0.5 if nx == 1 else 0.5 if not quick else 1) if nx > 1 else np.arange(-1, 1.1, 0.5)
        ys = np.arange(-1, ny + 0.01, 0.5) if ny > 1 else np.arange(-1, 1.1, 0.5)
    elif kind == 'edges':
        xs, ys = np.arange(nx + 1) - 0.5, np.arange(ny + 1) - 0.5
    elif kind == 'general':
        g = np.array([-0.83, -0.37, 0.21, 0.58, 0.91, 1.44, 1.73, 2.31, 2.6])
        xs, ys = g[g < nx + 0.3][::1 if nx < 3 else 2], g[g < ny + 0.3] + 0.07
    elif kind == 'far':
        xs, ys = np.array([-3., -1.25, 0.25, nx + 2]), np.array([-2., -0.5, 0.75, ny + 3])
    else:
        xs = np.array([-0.5, 0.25, nx - 0.5 + 0.5]) if nx > 1 else np.array([-1, 0, 0.5])
        ys = np.array([-0.75, 0.25, 0.5, ny - 0.25])
    return [(float(x), float(y)) for x in xs for y in ys]


def triangles(kind, shape, first):
    """All the triangles whose first vertex (smallest rank) is given, in the three turns and two orientations."""
    def scenario(ck):
        from pysimulators import SceneGrid
        pts = lattice(kind, shape, ck.quick)
        scene = SceneGrid(shape)
        base = [(pts[first], pts[j], pts[k]) for j in range(first + 1, len(pts)) for k in range(j + 1, len(pts))]
        for turn in ([0, 1, 2], [2, 1, 0], [1, 2, 0]):
            polys = [[p[t] for t in turn] for p in base]
            for n in range(0, len(polys), 64):
                part = polys[n:n + 64]

                def case():
                    verify(scene.get_integration_operator(part), part, shape, 1e-12, 'triangles')
                ck.check(f'{kind} {shape} {first} {turn} {n}', case)
    return scenario


def quads(kind, shape, first):
    def scenario(ck):
        from pysimulators import SceneGrid
        pts = lattice(kind, shape, ck.quick)
        scene = SceneGrid(shape)
        polys = []
        for b, c, d in itertools.permutations(range(len(pts)), 3):
            if first in (b, c, d):
                continue
            q = (pts[first], pts[b], pts[c], pts[d])
            if simple_quad(*q):
                polys.append(q)
        ck.count('simple_quadrilaterals', len(polys))
        for n in range(0, len(polys), 64):
            part = polys[n:n + 64]

            def case():
                verify(scene.get_integration_operator(part), part, shape, 1e-12, 'quadrilaterals')
            ck.check(f'{kind} {shape} {first} {n}', case)
    return scenario


POOL = [
    [(0., 0.), (1., 0.), (0., 1.)], [(-0.5, -0.5), (1.5, -0.5), (-0.5, 1.5)], [(0.1, 0.2), (0.3, 0.2), (0.2, 0.4)], [(-3., -3.), (5., -3.), (0., 9.)],
    [(-3., 0.), (-2., 0.), (-2., 1.)], [(0.5, 0.5), (0.5, 0.5), (0.5, 0.5)], [(0., 0.), (0.25, 0.25), (1., 1.)], [(0.5, -0.25), (1.25, 0.5), (0.5, 1.25)],
    [(9., 9.), (9., 10.), (10., 9.)],
]


def capacities(ck):
    """Batches of up to 3 polygons of a pool, types, and initial capacities."""
    from pysimulators import SceneGrid
    for shape in ((2, 2), (1, 3), (3, 2), (1, 1)):
        scene = SceneGrid(shape)
        for nb in (0, 1, 2, 3):
            for sel in itertools.product(range(len(POOL)), repeat=nb):
                if ck.quick and nb == 3 and shape != (2, 2):
                    continue
                polys = np.array([POOL[s] for s in sel]).reshape((nb, 3, 2))

                def case():
                    need = None
                    for dt, di in ((np.float64, None), (np.float64, np.int64), (np.float32, np.int32), (np.float32, np.int64)):
                        for cap in range(0, 3 if need is None else need + 3):
                            op = scene.get_integration_operator(polys, ncolmax=cap, dtype=dt, dtype_index=di)
                            tol = 1e-12 if dt == np.float64 else 3e-6
                            eq((op.matrix.dtype, op.matrix.data['index'].dtype), (np.dtype(dt), np.dtype(di or np.int32)), 'types')
                            verify(op, polys, shape, tol, 'batch')
                            if need is None:
                                need = op.min_ncolmax
                            if dt == np.float64:
                                eq(op.min_ncolmax, need, 'required capacity')
                                idx, val = rows_of(op)
                                eq(max([int((r >= 0).sum()) for r in idx], default=0), need, 'number of pixels')
                            require(op.matrix.ncolmax >= op.min_ncolmax, 'capacity')
                            eq(op.outside, outside(polys, shape) if nb else False, 'outside')
                            require(np.all(op.matrix.data['value'][op.matrix.data['index'] < 0] == 0), 'unused entries')
                    x = np.arange(shape[0] * shape[1]).reshape(shape) + 1.
                    op = scene.get_integration_operator(polys)
                    exp = [float((reference(p, shape) * x).sum()) for p in polys.tolist()]
                    same_array(op(x), exp, 'integrated scene', atol=1e-11)
                    same_array(op(np.ones(shape)), [float(reference(p, shape).sum()) for p in polys.tolist()], 'area', atol=1e-11)
                    y = np.arange(nb) + 1.
                    ref = sum([reference(p, shape) * v for p, v in zip(polys.tolist(), y)], np.zeros(shape))
                    same_array(op.T(y), ref, 'back-projection', atol=1e-11)
                ck.check(f'{shape} {sel}', case)


def arrays(ck):
    """Shapes of the array of polygons, number of vertices, and refusals."""
    from pysimulators import SceneGrid
    for shape in ((2, 3), (4, 4)):
        scene = SceneGrid(shape)
        for nv in (3, 4, 5, 6, 8):
            for psh in ((), (1,), (2,), (2, 2), (1, 3), (0,), (2, 0)):
                for r in (0.3, 0.75, 1.5, 6.):
                    def case():
                        n = int(np.prod(psh))
                        th = 2 * np.pi * np.arange(nv) / nv + 0.1
                        one = np.stack([np.cos(th), np.sin(th)], -1) * r
                        polys = np.array([one + [0.37 * i + 0.6, 0.9 - 0.21 * i] for i in range(n)]).reshape(psh + (nv, 2))
                        op = scene.get_integration_operator(polys)
                        verify(op, polys, shape, 1e-12, 'array of polygons')
                        verify(scene.get_integration_operator(polys[..., ::-1, :]), polys, shape, 1e-12, 'other orientation')
                        f = np.asfortranarray(polys)
                        verify(scene.get_integration_operator(f), polys, shape, 1e-12, 'Fortran order')
                    ck.check(f'{shape} {nv} {psh} {r}', case)
    def refused():
        scene = SceneGrid((2, 2))
        p = np.array(POOL[:1])
        raises(TypeError, scene.get_integration_operator, p, dtype=np.float16)
        raises(TypeError, scene.get_integration_operator, p, dtype=np.int32)
        raises(TypeError, scene.get_integration_operator, p, dtype_index=np.int8)
        raises(TypeError, scene.get_integration_operator, p, dtype_index=np.uint32)
        raises(NotImplementedError, scene[:2].get_integration_operator, p)
        verify(scene.get_integration_operator(p), p, (2, 2), 1e-12, 'after refusals')
    ck.check('refusals', refused)


def detectors(ck):
    """Square detectors of a layout on a scene: numbering of the pixels, and total area."""
    from pysimulators import LayoutGridSquares, SceneGrid, create_fitsheader
    for lsh in ((1, 1), (1, 2), (2, 2), (2, 3)):
        for sp in (0.5, 1., 1.5):
            for ff in (1, 0.5):
                for ang in (0, 30, 45, 90):
                    for ssh in ((3, 3), (4, 6), (7, 5)):
                        def case():
                            lay = LayoutGridSquares(lsh, sp, filling_factor=ff, angle=ang)
                            scene = SceneGrid.fromfits(create_fitsheader(ssh[::-1], cdelt=1, crval=(0, 0), ctype=['RA---TAN', 'DEC--TAN']))
                            v = lay.vertex + [(ssh[1] - 1) / 2, (ssh[0] - 1) / 2]
                            op = scene.get_integration_operator(v)
                            verify(op, v, ssh, 1e-12, 'detectors')
                            for row in range(ssh[0]):
                                for col in range(ssh[1]):
                                    m = np.zeros(ssh)
                                    m[row, col] = 1
                                    k = int(scene.to1d([col, row]))
                                    eq(k, row * ssh[1] + col, 'number of the pixel')
                                    got = np.zeros(len(lay))
                                    idx, val = rows_of(op)
                                    for d in range(len(lay)):
                                        got[d] = val[d][idx[d] == k].sum()
                                    same_array(op(m), got, 'pixel seen by the detectors')
                        ck.check(f'{lsh} {sp} {ff} {ang} {ssh}', case)


def scenarios(tier):
    quick = tier == 'quick'
    s = []
    tri = [('aligned', (2, 2)), ('aligned', (1, 1)), ('general', (2, 2)), ('general', (2, 3)), ('edges', (2, 3)), ('far', (2, 2)), ('general', (3, 3)), ('aligned', (1, 3))]
    tri += [] if quick else [('aligned', (3, 2)), ('general', (1, 1)), ('edges', (4, 4)), ('far', (4, 3))]
    for kind, shape in tri:
        n = len(lattice(kind, shape, quick))
        for f in range(n - 2):
            s.append((f'triangles {kind} {shape} {f}', triangles(kind, shape, f)))
    qd = [('quad', (2, 2)), ('edges', (2, 2))] + ([] if quick else [('quad', (1, 2)), ('far', (2, 2)), ('edges', (3, 3))])
    for kind, shape in qd:
        for f in range(len(lattice(kind, shape, quick))):
            s.append((f'quadrilaterals {kind} {shape} {f}', quads(kind, shape, f)))
    return [('capacities', capacities), ('detectors', detectors), ('arrays', arrays)] + s
