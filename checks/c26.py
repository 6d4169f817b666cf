"""
C26: layouts, instruments and scenes describe the same components after any selection.
"""
import itertools

import numpy as np

from checks.c04 import alphabet
from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C26'
TECHNIQUE = (
    'exhaustive enumeration of the ways of defining a layout, an instrument or a scene and of every sequence of selections, partitions and copies up to a depth on the real classes, in lockstep with the list of the '
    'components; every number of processes in an in-process MPI model'
)
NOTE = 'The positions are a function of the component number, so that any permutation or loss is visible. Plots are not covered.'
BOUNDS = (
    'layouts of 1 to 6 components in 1 or 2 dimensions, the positions given as arrays, quantities, functions or class members, 3 or 4 vertices, 2 or 3 coordinates; every sequence of 2 selections among the slices, integer and boolean '
    'selections (every one of up to 3 components, then a subset); 6 object plane transforms; 1 to 4 processes'
)

NV = 3
CORNERS = np.array([[1., 0.], [0., 1.], [-1., -2.], [.5, .25]])


def centers(i, nc=2):
    i = np.asarray(i)
    return np.stack([10. * i + k + .5 * (-1.) ** i for k in range(nc)], -1)


def vertices(i, nv=NV):
    return centers(i)[..., None, :] + CORNERS[:nv] * (1 + np.asarray(i)[..., None, None])


def mean_vertices(i, nv=NV):
    return vertices(i, nv).mean(-2)


def forms():
    """ How positions are specified: name, function of (shape, actual shape) returning the table, whether there are vertices, coordinates, unit. """
    from pysimulators import Layout, Quantity

    class WithCenter(Layout):
        def center(self):
            return centers(self.index)

    class WithVertex(Layout):
        def vertex(self):
            return vertices(self.index)

    class WithBoth(Layout):
        def vertex(self):
            return vertices(self.index)

        def center(self):
            return centers(self.index)

    def array(f, *args):
        return lambda sh: f(np.arange(int(np.prod(sh))).reshape(sh), *args)

    c, v, v4 = array(centers), array(vertices), array(vertices, 4)
    return [
        ('center', lambda sh, **k: Layout(sh, center=c(sh), **k), centers, None, ''),
        ('center 3d', lambda sh, **k: Layout(sh, center=centers(np.arange(int(np.prod(sh))).reshape(sh), 3), **k), lambda i: centers(i, 3), None, ''),
        ('center list', lambda sh, **k: Layout(sh, center=c(sh).tolist(), **k), centers, None, ''),
        ('center quantity', lambda sh, **k: Layout(sh, center=Quantity(c(sh), 'm'), **k), centers, None, 'm'),
        ('center function', lambda sh, **k: Layout(sh, center=lambda s: centers(s.index), **k), centers, None, ''),
        ('vertex', lambda sh, **k: Layout(sh, vertex=v(sh), **k), mean_vertices, vertices, ''),
        ('vertex 4', lambda sh, **k: Layout(sh, vertex=v4(sh), **k), lambda i: mean_vertices(i, 4), lambda i: vertices(i, 4), ''),
        ('vertex quantity', lambda sh, **k: Layout(sh, vertex=Quantity(v(sh), 'mm'), **k), mean_vertices, vertices, 'mm'),
        ('vertex function', lambda sh, **k: Layout(sh, vertex=lambda s: vertices(s.index), **k), mean_vertices, vertices, ''),
        ('both', lambda sh, **k: Layout(sh, vertex=v(sh), center=c(sh), **k), centers, vertices, ''),
        ('both, functions', lambda sh, **k: Layout(sh, vertex=lambda s: vertices(s.index), center=lambda s: centers(s.index), **k), centers, vertices, ''),
        ('class center', lambda sh, **k: WithCenter(sh, **k), centers, None, ''),
        ('class vertex', lambda sh, **k: WithVertex(sh, **k), mean_vertices, vertices, ''),
        ('class both', lambda sh, **k: WithBoth(sh, **k), centers, vertices, ''),
        ('class center replaced', lambda sh, **k: WithCenter(sh, center=c(sh) + 1, **k), lambda i: centers(i) + 1, None, ''),
        ('class vertex, center', lambda sh, **k: WithVertex(sh, center=c(sh), **k), centers, vertices, ''),
        ('class vertex replaced', lambda sh, **k: WithVertex(sh, vertex=v4(sh), **k), lambda i: mean_vertices(i, 4), lambda i: vertices(i, 4), ''),
    ]


def look(t, idx, sh, fc, fv, unit, what):
    from pysimulators import Quantity
    i = np.array(idx, int)
    n = int(np.prod(sh))
    eq(len(t), len(i), f'{what}: length')
    same_array(t.index, i, f'{what}: index')
    removed = np.ones(n, bool)
    removed[i] = False
    same_array(t.all.removed, removed.reshape(sh), f'{what}: removed')
    for name, f in (('center', fc), ('vertex', fv)):
        if f is None:
            require(not hasattr(t, name), f'{what}: {name} has appeared')
            continue
        e = f(i)
        same_array(np.asarray(getattr(t, name)), e, f'{what}: {name}', rtol=1e-14)
        u = np.full((n,) + e.shape[1:], np.nan)
        u[i] = e
        same_array(np.asarray(getattr(t.all, name)), u.reshape(sh + e.shape[1:]), f'{what}: all.{name}', rtol=1e-14)
        for g in (getattr(t, name), getattr(t.all, name)):
            eq(getattr(g, 'unit', ''), unit, f'{what}: unit of {name}')
    if fv is not None:
        eq(t.nvertices, fv(np.arange(1)).shape[-2], f'{what}: number of vertices')
    else:
        require(not hasattr(t, 'nvertices'), f'{what}: number of vertices')


def subsets(n, quick):
    """ Selections of n components, and the selected positions. """
    for text, s, e in alphabet(n, 2):
        if isinstance(s, list) or isinstance(s, tuple) and s or isinstance(s, slice) and (
                s.start is not None and s.start < 0 or s.stop is not None and s.stop < 0 or s.step == 1 or quick and s.step == -2 or quick and s.start is not None and s.stop is not None and s.start > s.stop):
            continue
        yield text, s, e


def few(n):
    yield slice(None, None, -1)
    yield slice(1, None)
    yield slice(None, None, 2)
    if n:
        yield np.arange(n) % 2 == 0
        yield np.arange(n)[::-1]
        yield n - 1
        yield np.array([n - 1, 0])[:min(n, 2)]


def layouts(k):
    def scenario(ck):
        name, new, fc, fv, unit = forms()[k]
        for sh in ((1,), (2,), (3,), (2, 2), (1, 3), (2, 3)):
            n = int(np.prod(sh))

            def start():
                look(new(sh), range(n), sh, fc, fv, unit, 'layout')
                t = new(sh, mass=np.arange(n).reshape(sh) * 2., nickname='x')
                same_array(t.mass, np.arange(n) * 2., 'another attribute')
                eq(str(t.nickname), 'x', 'a scalar attribute')
                look(t.copy(), range(n), sh, fc, fv, unit, 'copy')
            ck.check(f'{name} {sh}', start)
            for m in itertools.product((False, True), repeat=n):
                def selected():
                    i = np.flatnonzero(m)
                    t = new(sh, selection=np.array(m).reshape(sh))
                    look(t, i, sh, fc, fv, unit, 'selection')
                    o = np.where(m, -np.arange(n) + n, -1).reshape(sh)
                    t = new(sh, ordering=o)
                    look(t, i[::-1], sh, fc, fv, unit, 'ordering')
                    for s in few(len(i)):
                        look(t[s], i[::-1][s].ravel(), sh, fc, fv, unit, f'ordering then {s}')
                ck.check(f'{name} {sh} selection {m}', selected)
            if n > 3 and (ck.quick or n > 4):
                continue
            for text, s, e in subsets(n, ck.quick):
                def history():
                    t = new(sh)[s]
                    look(t, e, sh, fc, fv, unit, text)
                    for z in few(len(e)):
                        f = np.array(e, int)[z].ravel()
                        look(t[z], f, sh, fc, fv, unit, f'{text} then {z}')
                        look(t[z].copy(), f, sh, fc, fv, unit, f'{text} then {z}, copied')
                    for parts in range(1, len(e) + 2):
                        p = t.split(parts)
                        o = 0
                        for q in p:
                            look(q, e[o:o + len(q)], sh, fc, fv, unit, f'{text} in {parts}')
                            o += len(q)
                        eq(o, len(e), 'parts')
                    look(t, e, sh, fc, fv, unit, text)
                ck.check(f'{name} {sh} {text}', history)
    return scenario


def refusals(ck):
    from pysimulators import Instrument, Layout, Imager, SceneGrid

    def case():
        raises(ValueError, Layout, (3,))
        raises(ValueError, Layout, (3,), other=np.arange(3))
        raises(ValueError, Layout, (3,), center=np.zeros((2, 2)))
        raises(ValueError, Layout, (3,), vertex=np.zeros((2, 4, 2)))
        raises(ValueError, Imager, 'x', Layout((3,), center=np.zeros((3, 2))))
        raises(ValueError, SceneGrid, (3,))
        raises(ValueError, SceneGrid, (3, 2, 1))
        raises(ValueError, SceneGrid, (3, 2), origin='left')
        raises(TypeError, SceneGrid, (3, 2), origin=3)
        i = Instrument(Layout((3,), center=np.zeros((3, 2))))
        raises(NotImplementedError, i.get_operator, None, None)
        raises(IndexError, lambda: i[3])
        raises(ValueError, i.pack, np.zeros(4))
        raises(ValueError, i.unpack, np.zeros(4))
    ck.check('refusals', case)


def instruments(n):
    def scenario(ck):
        from pysimulators import Instrument, Layout

        class Special(Instrument):
            focal_length = 3.

            def __init__(self, layout, gain=2.):
                Instrument.__init__(self, layout, 'special')
                self.gain = gain

        shapes = [(n,)] + ([(2, n // 2)] if n % 2 == 0 else [])

        def same(i, idx, sh, what, cls):
            i_ = np.array(idx, int)
            eq(type(i), cls, f'{what}: class')
            eq(len(i), len(i_), f'{what}: length')
            look(i.detector, i_, sh, centers, None, '', what)
            require(i.comm is i.detector.comm, f'{what}: communicator')
            if cls is Special:
                eq((i.name, i.gain, i.focal_length), ('special', 7., 3.), f'{what}: attributes')
            x = np.arange(2. * n).reshape(sh + (2,))
            p = i.pack(x)
            same_array(p, x.reshape(n, 2)[i_], f'{what}: pack')
            e = np.full((n, 2), np.nan)
            e[i_] = x.reshape(n, 2)[i_]
            same_array(i.unpack(p), e.reshape(sh + (2,)), f'{what}: unpack')

        for sh in shapes:
            for cls in (Instrument, Special):
                def new(**k):
                    lay = Layout(sh, center=centers(np.arange(n).reshape(sh)), **k)
                    return Special(lay, 7.) if cls is Special else Instrument(lay, 'name')

                def start():
                    same(new(), range(n), sh, 'instrument', cls)
                    if cls is Instrument:
                        eq(new().name, 'name', 'name')
                        lay = Layout(sh, center=centers(np.arange(n).reshape(sh)))
                        i = Instrument('name', lay)
                        require(i.name == 'name' and i.detector is lay, 'obsolete calling sequence')
                        require(not hasattr(Instrument(lay), 'name'), 'no name')
                ck.check(f'{cls.__name__} {sh}', start)
                for text, s, e in subsets(n, ck.quick):
                    def history():
                        i0 = new()
                        i = i0[s]
                        same(i, e, sh, text, cls)
                        for z in few(len(e)):
                            same(i[z], np.array(e, int)[z].ravel(), sh, f'{text} then {z}', cls)
                        each = list(i)
                        eq(len(each), len(e), 'iteration')
                        for x, d in zip(each, e):
                            same(x, [d], sh, f'{text}: element of the iteration', cls)
                        for parts in range(1, len(e) + 2):
                            p = i.split(parts)
                            eq((type(p), len(p)), (tuple, parts), 'parts')
                            eq([d for q in p for d in q.detector.index.tolist()], list(e), f'{text} in {parts}')
                            sizes = [len(q) for q in p]
                            require(max(sizes) - min(sizes) <= 1, f'sizes {sizes}')
                            o = 0
                            for q in p:
                                same(q, e[o:o + len(q)], sh, f'{text} in {parts}', cls)
                                o += len(q)
                        i.extra = 3
                        eq(i[:1].extra if len(i) else 3, 3, 'attribute of a selection')
                        require(not hasattr(i0, 'extra'), 'attribute of the original')
                        same(i0, range(n), sh, 'original', cls)
                    ck.check(f'{cls.__name__} {sh} {text}', history)
    return scenario


def transforms():
    """ Transforms between planes: name, object to be given, direct and inverse functions. """
    from pyoperators import HomothetyOperator, IdentityOperator, Rotation2dOperator, Spherical2CartesianOperator
    a = np.radians(30)
    r = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])

    def rot(x):
        return np.einsum('ij,...j->...i', r, x)

    def unrot(x):
        return np.einsum('ji,...j->...i', r, x)

    def cart(x):
        return np.stack([np.cos(x[..., 0]) * np.sin(x[..., 1]), np.sin(x[..., 0]) * np.sin(x[..., 1]), np.cos(x[..., 1])], -1)

    def sph(x):
        return np.stack([np.arctan2(x[..., 1], x[..., 0]) % (2 * np.pi), np.arccos(x[..., 2])], -1)
    return [
        ('identity', IdentityOperator(), lambda x: x, lambda x: x),
        ('homothety', HomothetyOperator(2.), lambda x: 2 * x, lambda x: x / 2),
        ('number', 4., lambda x: 4 * x, lambda x: x / 4),
        ('rotation', Rotation2dOperator(30, degrees=True), rot, unrot),
        ('inverse rotation', Rotation2dOperator(30, degrees=True).I, unrot, rot),
        ('spherical', Spherical2CartesianOperator('azimuth,zenith'), cart, sph),
    ]


def imagers(k):
    def scenario(ck):
        from pysimulators import Imager, Layout
        name, op, direct, inverse = transforms()[k]
        for n in (1, 2, 3, 4):
            c = np.stack([.1 + .2 * np.arange(n), .3 + .25 * np.arange(n)], -1)
            for form in ('image2object', 'object2image', 'both'):
                def new():
                    lay = Layout((n,), center=c)
                    if form == 'both':
                        from pyoperators import asoperator
                        return Imager('imager', lay, image2object=op, object2image=asoperator(op).I), direct, inverse
                    i = Imager('imager', lay, **{form: op})
                    return (i, direct, inverse) if form == 'image2object' else (i, inverse, direct)

                def case(s, e, z):
                    if form == 'object2image' and name.startswith('spherical'):
                        # the image plane is the sphere
                        lay = Layout((n,), center=direct(c))
                        i = Imager('imager', lay, object2image=op)
                        to, back, ref = inverse, direct, direct(c)
                    else:
                        i, to, back = new()
                        ref = c
                    eq((type(i), i.name), (Imager, 'imager'), 'imager')
                    i = i[s]
                    e = np.array(e, int)
                    if z is not None:
                        i = i[z]
                        e = e[z].ravel()
                    eq((type(i), i.name, len(i)), (Imager, 'imager', len(e)), 'selected imager')
                    same_array(i.detector.index, e, 'detectors')
                    if len(e) == 0:
                        return
                    x = i.image2object(i.detector.center)
                    same_array(np.asarray(x), to(ref[e]), 'object plane', rtol=1e-12, atol=1e-12)
                    y = i.object2image(x)
                    same_array(np.asarray(y), ref[e], 'back in the image plane', rtol=1e-12, atol=1e-12)
                    same_array(i.detector.center, ref[e], 'the layout has not changed')
                    w = i.image2object(i.object2image(np.array(to(ref[e]))))
                    same_array(np.asarray(w), to(ref[e]), 'object plane again', rtol=1e-12, atol=1e-12)
                for text, s, e in alphabet(n, 2, 'ib'):
                    if isinstance(s, list):
                        continue
                    for z in (None, slice(None, None, -1)):
                        ck.check(f'{name} {form} {n} {text} {z}', case, s, e, z)
    return scenario


def scenes(ck):
    from pyoperators import HomothetyOperator, To1dOperator
    from pysimulators import Scene, SceneGrid

    def content(s, idx, sh, what, start, dt, kw, full=True):
        i = np.array(idx, int)
        n = int(np.prod(sh))
        eq(len(s), len(i), f'{what}: length')
        eq((s.shape, s.dtype), (sh, np.dtype(dt)), f'{what}: shape and type')
        same_array(s.index, i, f'{what}: index')
        if isinstance(s, SceneGrid):
            same_array(np.asarray(s.row()), i // sh[1] + start, f'{what}: row')
            same_array(np.asarray(s.column()), i % sh[1] + start, f'{what}: column')
        for k, v in kw.items():
            eq(getattr(s, k), v, f'{what}: {k}')
        for m, v in (('zeros', 0), ('ones', 1), ('empty', None)):
            a = getattr(s, m)()
            eq((a.shape, a.dtype), (sh, np.dtype(dt)), f'{what}: {m}')
            if v is not None:
                require(np.all(a == v), f'{what}: {m}')
            require(a is not getattr(s, m)(), f'{what}: {m} are shared')
        x = np.arange(float(n)).reshape(sh)
        same_array(s.pack(x), x.ravel()[i], f'{what}: pack')
        e = np.full(n, np.nan)
        e[i] = x.ravel()[i]
        same_array(s.unpack(s.pack(x)), e.reshape(sh), f'{what}: unpack')

    def case(cls, sh, start, dt, origin, text, s, e):
        n = int(np.prod(sh))
        kw = {'mission': 'x', 'number': 3}
        if cls is Scene:
            start = 0
            t = Scene(sh, dtype=dt, **kw)
        else:
            t = SceneGrid(sh, origin=origin, startswith1=start, dtype=dt, **kw)
            kw['origin'] = origin.lower()
        content(t, range(n), sh, 'scene', start, dt, kw)
        u = t[s]
        content(u, e, sh, text, start, dt, kw)
        for z in few(len(e)):
            content(u[z], np.array(e, int)[z].ravel(), sh, f'{text} then {z}', start, dt, kw)
        content(u.copy(), e, sh, 'copy', start, dt, kw)
        o = 0
        for q in u.split(2):
            content(q, e[o:o + len(q)], sh, 'part', start, dt, kw)
            o += len(q)
        content(t, range(n), sh, 'the original scene', start, dt, kw)

    for sh in ((1, 1), (1, 2), (2, 2), (2, 3)):
        for text, s, e in subsets(int(np.prod(sh)), True):
            if sh == (2, 3) and not (isinstance(s, slice) or isinstance(s, int) or isinstance(s, np.ndarray) and s.dtype == bool and s.sum() in (2, 5)):
                continue
            for cls, start, dt, origin in ((Scene, False, float, None), (SceneGrid, False, float, 'upper'), (SceneGrid, True, np.float32, 'LOWER')):
                ck.check(f'{cls.__name__} {sh} {start} {text}', case, cls, sh, start, dt, origin, text, s, e)
    for n in (1, 2, 3):
        for text, s, e in subsets(n, True):
            ck.check(f'Scene {n} {text}', case, Scene, (n,), False, float, None, text, s, e)

    def planes(sh, factor, order):
        to1d = To1dOperator(sh, order=order)
        t = SceneGrid(sh, topixel=HomothetyOperator(factor) if factor != 1 else None, to1d=to1d)
        world = np.array([(i / factor, j / factor) for i in range(sh[0]) for j in range(sh[1])])
        pix = world * factor
        for s in (t, t[::-1], t.copy()):
            if factor != 1:
                same_array(np.asarray(s.topixel(world)), pix, 'pixels', rtol=1e-14)
                same_array(np.asarray(s.toworld(pix)), world, 'world', rtol=1e-14)
            got = np.asarray(s.to1d(pix))
            ij = np.round(pix).astype(int)
            e = ij[:, 0] * sh[1] + ij[:, 1] if order == 'C' else ij[:, 1] * sh[0] + ij[:, 0]
            same_array(got, e, 'number of the pixel', dtype=None)
            same_array(np.asarray(s.toNd(got)), ij, 'pixel of the number', dtype=None)
        u = SceneGrid(sh)
        require(u.to1d is None and u.toNd is None, 'no transform')
        same_array(np.asarray(u.topixel(np.zeros(sh))), np.zeros(sh), 'default transform')
    for sh in ((1, 1), (1, 3), (2, 2), (3, 2)):
        for factor in (1., 2., .5):
            for order in 'CF':
                ck.check(f'planes {sh} {factor} {order}', planes, sh, factor, order)


def processes(n, size):
    def scenario(ck):
        """ Distributed instruments and scenes. """
        from mc.fakempi import explore
        from pysimulators import Instrument, LayoutGridSquares, Scene

        def run(body, verdict, **k):
            def case():
                st = explore(size, body, verdict, tick=ck.tick_case, cap=20000, **k)
                ck.count('schedules', st['executions'])
                ck.transitions += st['events']
            return case

        sh = (n, 2)
        ref = LayoutGridSquares(sh, 1., filling_factor=.5, angle=10)
        for sel in (None, slice(None, None, -1), np.arange(2 * n) % 3 != 1, np.array([0])):
            idx = np.arange(2 * n) if sel is None else np.arange(2 * n)[sel]

            def body(comm):
                i = Instrument(LayoutGridSquares(sh, 1., filling_factor=.5, angle=10), 'name')
                if sel is not None:
                    i = i[sel]
                j = i.scatter(comm)
                refused = False
                if size > 1:
                    try:
                        j.scatter(comm)
                    except ValueError:
                        refused = True
                d = j.detector
                whole = j.unpack(d.center.copy())
                return (j.name, len(i), refused, d.index.copy(), np.array(d.center), np.array(d.vertex), np.array(d.row), whole,
                        np.array(d.all.vertex), np.array(d.all.removed), [len(_) for _ in j], j[::-1].detector.index.copy())

            def verdict(res):
                eq([k for r in res for k in r[3].tolist()], idx.tolist(), 'detectors of the processes')
                e = np.full((2 * n, 2), np.nan)
                e[idx] = ref.center[idx]
                v = np.full((2 * n, 4, 2), np.nan)
                v[idx] = ref.vertex[idx]
                for name, nall, refused, i, c, vert, row, whole, allv, removed, ones, rev in res:
                    eq((name, nall, refused), ('name', len(idx), size > 1), 'instrument')
                    same_array(c, ref.center[i], 'centres')
                    same_array(vert, ref.vertex[i], 'vertices')
                    same_array(row, i // 2, 'rows')
                    same_array(whole, e.reshape(sh + (2,)), 'unpacked')
                    same_array(allv, v.reshape(sh + (4, 2)), 'all the vertices')
                    e_removed = np.ones(2 * n, bool)
                    e_removed[idx] = False
                    same_array(removed, e_removed.reshape(sh), 'removed')
                    eq(ones, [1] * len(i), 'iteration')
                    same_array(rev, i[::-1], 'reversed')
            ck.check(f'instrument {n} {sel} on {size}', run(body, verdict))

        def body(comm):
            s = Scene((n,))
            op = s.get_distribution_operator(comm)
            x = np.arange(float(n)) + 1
            y = np.arange(float(n)) * (comm.rank + 1) + comm.rank
            return op(x), op.T(y), y

        def verdict(res):
            total = sum(r[2] for r in res)
            for d, t, _ in res:
                same_array(d, np.arange(float(n)) + 1, 'distributed map')
                same_array(t, total, 'reduced map')
        ck.check(f'scene {n} on {size}', run(body, verdict))
    return scenario


def scenarios(tier):
    out = [('refusals', refusals), ('scenes', scenes)]
    out += [(f'processes {n} on {size}', processes(n, size)) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)) for size in (1, 2, 3, 4)]
    out += [(f'layouts {k}', layouts(k)) for k in range(17)]
    out += [(f'instruments {n}', instruments(n)) for n in ((4, 3, 2, 1) if tier == 'quick' else (5, 4, 3, 2, 1))]
    out += [(f'imagers {k}', imagers(k)) for k in range(6)]
    return out
