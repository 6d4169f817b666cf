"""
C04: selecting and packing table elements composes like array indexing.

The reference state of a table is the tuple of its component numbers.  From every initial table (shape, number of indexable
dimensions, selection, ordering) a breadth-first search applies every selection of a complete alphabet to the real table until
no new state appears; a state is the tuple of components and the way the table stores them.  Each transition is compared with
plain array indexing, and each new state has all its observables verified.
"""
import itertools

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C04'
TECHNIQUE = 'explicit-state breadth-first search of the selection histories of the real tables, to closure, in lockstep with a list-of-components model'
NOTE = (
    'The search closes (no new state) for each initial table, so histories of any length are covered; histories are merged when the components and '
    'their stored form are equal. Selections with repeated components are enumerated '
    'separately (an unpacked table cannot hold a component twice).'
)
BOUNDS = (
    'tables of 1 to 4 components (5 when thorough), 1 or 2 indexable dimensions and a non-indexable one, every boolean and integer selection and every '
    'slice with bounds from -n-1 to n+1 and steps from -2 to 2 (3 when thorough), every ordering of up to 4 components; every ordered selection of '
    'components of tables of 5 and 6 components (7 when thorough)'
)


def make(shape, ndim=None, selection=None, ordering=None, cls=None):
    from pysimulators import PackedTable
    sh = shape if ndim is None else shape[:ndim]
    n = int(np.prod(sh))
    a = np.arange(n).reshape(sh)
    kw = {
        'val': a * 1.5 + 1, 'num': a + 10, 'vec': np.arange(2 * n).reshape(sh + (2,)) * 1.0, 'flag': a % 2 == 0, 'scal': 7.0,
        'func': lambda s: s.index * 2, 'none': None,
        'ten': lambda s: np.stack([s.index, -s.index], -1), 'const': lambda: 5,
    }
    return (cls or PackedTable)(shape, selection=selection, ordering=ordering, ndim=ndim, **kw)


def rep(t):
    i = t._index
    if i is Ellipsis:
        return '...'
    if isinstance(i, slice):
        # the steps of tables of 0 or 1 component grow for ever: those beyond the size of the table are merged,
        # so as the positions of empty slices
        step = max(-6, min(6, i.step))
        return 'slice', i.start if i.start != i.stop else max(-1, min(i.start, 0)), step, i.start == i.stop
    return 'array'


def light(t, idx, sh, what):
    n = int(np.prod(sh))
    i = np.array(idx, int)
    eq(len(t), len(idx), what + ' length')
    same_array(t.index, i, what + ' index')
    same_array(t.val, i * 1.5 + 1, what + ' val')
    same_array(t.vec, np.arange(2 * n).reshape(n, 2)[i], what + ' vec')


def full(t, idx, sh, what):
    n = int(np.prod(sh))
    i = np.array(idx, int)
    light(t, idx, sh, what)
    same_array(t.num, i + 10, what + ' num')
    same_array(t.flag, i % 2 == 0, what + ' flag')
    eq(float(t.scal), 7.0, what + ' scalar')
    same_array(t.func, 2 * i, what + ' function')
    same_array(t.ten, np.stack([i, -i], -1), what + ' function of 2 dimensions')
    eq(t.const, 5, what + ' function without argument')
    require(t.none is None and t.all.none is None, what + ' none')
    eq(bool(t.removed), False, what + ' removed')
    rem = np.ones(n, bool)
    rem[i] = False
    same_array(t.all.removed, rem.reshape(sh), what + ' all.removed')

    def unp(v, missing, dtype):
        out = np.empty((n,) + v.shape[1:], dtype)
        out[...] = missing
        out[i] = v
        return out.reshape(sh + v.shape[1:])
    same_array(t.all.val, unp(i * 1.5 + 1, np.nan, float), what + ' all.val', dtype=float)
    same_array(t.all.num, unp(i + 10, -1, int), what + ' all.num', dtype=int)
    same_array(t.all.flag, unp(i % 2 == 0, False, bool), what + ' all.flag', dtype=bool)
    same_array(t.all.vec, unp(np.arange(2. * n).reshape(n, 2)[i], np.nan, float), what + ' all.vec')
    same_array(t.all.func, unp(2 * i, -1, int), what + ' all.func')
    same_array(t.all.ten, unp(np.stack([i, -i], -1), -1, int), what + ' all.ten')
    if idx:
        same_array(t.all.scal, unp(np.full(len(i), 7.), np.nan, float), what + ' all.scal')
    # pack and unpack arrays that are not attributes
    for extra in ((), (2,), (1, 2)):
        for dt in (float, int, bool, complex, 'S2', [('a', float), ('b', int)]) if not extra else (float,):
            x = np.arange(n * int(np.prod(extra))).reshape((n,) + extra)
            if isinstance(dt, list):
                x = np.array([(v, v + 1) for v in x.ravel()], dt).reshape(x.shape)
            else:
                x = x.astype(dt)
            miss = {'f': np.nan, 'i': -1, 'b': False, 'c': np.nan, 'S': b'', 'V': (np.nan, -1)}[x.dtype.kind]
            X = x.reshape(sh + extra)
            for copy in (False, True):
                same_array(t.pack(X, copy=copy), x[i], what + ' pack', dtype=x.dtype)
            out = np.zeros((len(i),) + extra, x.dtype)
            t.pack(X, out=out)
            same_array(out, x[i], what + ' pack out')
            if x.dtype == float:
                for k, o in outputs(out.shape):
                    t.pack(X, out=o)
                    same_array(o, x[i], f'{what} pack in {k} output')
            p = x[i].copy()
            e = unp(p, miss, x.dtype)

            def same(a, b, w):
                if a.dtype.kind == 'V':
                    eq(a.dtype, b.dtype, w)
                    eq(a.shape, b.shape, w)
                    for f in a.dtype.names:
                        same_array(a[f], b[f], w)
                else:
                    same_array(a, b, w, dtype=b.dtype)
            if len(i) == 0 and n == 0:
                continue
            for copy in (False, True):
                u = t.unpack(p, copy=copy)
                same(u, e, what + ' unpack')
                same(t.pack(u), p, what + ' pack of unpack')
                if copy:
                    require(not np.may_share_memory(u, p), what + ' unpack copy')
            out = np.zeros(sh + extra, x.dtype)
            t.unpack(p, out=out)
            same(out, e, what + ' unpack out')
            if x.dtype == float:
                for k, o in outputs(out.shape):
                    t.unpack(p, out=o)
                    same(o, e, f'{what} unpack in {k} output')
            big = np.zeros((2,) + sh + extra, x.dtype)[::-1][1:][0]
            t.unpack(p, out=big)
            same(big, e, what + ' unpack out view')
            if x.dtype.kind in 'fi':
                same(t.unpack(p, missing_value=9), unp(p, 9, x.dtype), what + ' unpack missing')
            if len(i) > 0:
                same(t.unpack(p[:1]), unp(np.repeat(p[:1], len(i), 0), miss, x.dtype), what + ' unpack broadcast')
    if idx:
        raises(ValueError, t.pack, np.zeros(tuple(s + 1 for s in sh)))
        raises(ValueError, t.unpack, np.zeros(len(i) + 2))
        raises(ValueError, t.pack, np.zeros(sh), out=np.zeros(len(i) + 1))
        raises(ValueError, t.unpack, np.zeros(len(i)), out=np.zeros(tuple(s + 1 for s in sh)))
        require(not t.all.val.flags.writeable, what + ' all is read-only')


def outputs(shape):
    """ Outputs of any layout. """
    yield 'Fortran', np.zeros(shape, order='F')
    yield 'strided', np.zeros(tuple(2 * s for s in shape))[tuple(slice(None, None, 2) for s in shape)]
    yield 'reversed', np.zeros(shape)[::-1]


def setting(t, idx, sh, what):
    """Values are set by component, from packed or unpacked arrays, on a table and not on those it was selected from."""
    n = int(np.prod(sh))
    i = np.array(idx, int)
    t.val = 100. + np.arange(len(i))
    same_array(t.val, 100. + np.arange(len(i)), what + ' set')
    x = np.arange(n) + 200.
    t.all.val = x.reshape(sh)
    same_array(t.val, x[i], what + ' set all')
    if len(i) > 1 or n > 1:
        raises(ValueError, setattr, t, 'val', np.zeros(len(i) + 1))
    raises(AttributeError, setattr, t, 'index', i)
    raises(AttributeError, setattr, t.all, 'index', x)
    same_array(t.val, x[i], what + ' after refusal')


def slices(n, smax):
    b = [None] + list(range(-n - 1, n + 2))
    for start in b:
        for stop in b:
            for step in [None] + [s for s in range(-smax, smax + 1) if s]:
                yield slice(start, stop, step)


def alphabet(n, smax, kinds='sbie'):
    """All the selections of a 1-d sequence of n elements, with the expected positions."""
    r = list(range(n))
    if 'e' in kinds:
        for s in (Ellipsis, None, ()):
            yield repr(s), s, r
    if 's' in kinds:
        for s in slices(n, smax):
            yield repr(s), s, r[s]
            if s.step in (None, 1, -1):
                yield repr((s,)), (s,), r[s]
    if 'b' in kinds:
        for m in itertools.product((False, True), repeat=n):
            if n:
                e = [k for k in r if m[k]]
                yield repr(m), np.array(m), e
                yield 'list' + repr(m), list(m), e
    if 'i' in kinds:
        for k in range(n + 1):
            for p in itertools.permutations(r, k):
                yield 'array' + repr(p), np.array(p, int), list(p)
                if k:
                    yield 'list' + repr(p), list(p), list(p)
                    q = tuple(v - n if j % 2 else v for j, v in enumerate(p))
                    yield 'array' + repr(q), np.array(q), list(p)
        for k in range(-n, n):
            yield repr(k), k, [r[k]]


def closure(ck, name, t0, idx0, sh):
    smax = 2 if ck.quick else 3
    n = int(np.prod(sh))
    seen = set()
    todo = []

    def arrive(t, idx, key):
        k = (tuple(idx), rep(t))
        if k in seen:
            return
        seen.add(k)
        ck.state((name, k))
        if ck.check(key + ' : state', lambda: full(t, list(idx), sh, str(idx))):
            todo.append((t, list(idx), key))

    arrive(t0, idx0, name)
    while todo:
        t, idx, key = todo.pop(0)
        ck.check(key + ' : set', lambda: setting(t[np.arange(len(idx))] if len(idx) else t[[]], idx, sh, 'set'))
        for text, sel, pos in alphabet(len(idx), smax):
            new = [idx[p] for p in pos]
            box = []

            def step():
                u = t[sel]
                light(u, new, sh, 'selection')
                light(t, idx, sh, 'table that was selected from')
                box.append(u)
            if ck.check(f'{key} [{text}]', step):
                arrive(box[0], new, f'{key} [{text}]')
    ck.count('closed_state_spaces')
    ck.count('distinct_table_states', len(seen))


def initial(sh, ndim):
    def scenario(ck):
        act = sh if ndim is None else sh[:ndim]
        n = int(np.prod(act))
        closure(ck, f'{sh} {ndim}', make(sh, ndim), list(range(n)), act)
    return scenario


def constructed(sh, ndim=None):
    """Every initial selection and ordering, followed by a few selections."""
    def scenario(ck):
        act = sh if ndim is None else sh[:ndim]
        n = int(np.prod(act))
        flat = np.arange(n)
        probes = [slice(None, None, 2), slice(1, None), slice(None, None, -1), 0, -1]

        def case(expected, **kw):
            t = make(sh, ndim, **kw)
            full(t, expected, act, 'constructed')
            for p in probes:
                if isinstance(p, int) and not expected:
                    continue
                u = t[p]
                e = [expected[p]] if isinstance(p, int) else expected[p]
                light(u, e, act, f'then {p}')
        sels = []
        if len(act) == 1:
            sels += list(alphabet(n, 2))
        else:
            for m in itertools.product((False, True), repeat=n):
                sels.append((repr(m), np.array(m).reshape(act), [k for k in range(n) if m[k]]))
            for k in range(min(n, 3) + 1):
                for p in itertools.permutations(range(n), k):
                    sels.append(('array' + repr(p), np.array(p, int), list(p)))
            for s in slices(n, 2):
                sels.append((repr(s), s, list(range(n))[s]))
            per = [[s for s in slices(d, 1) if s.step in (None, 1)] + list(range(-d, d)) for d in act]
            if ck.quick:
                per = [[s for s in p if isinstance(s, int) or s.start in (None, 0, 1, -1) and s.stop in (None, 0, 1, 2, -1)] for p in per]
            g = flat.reshape(act)
            for a in per[0]:
                if isinstance(a, slice):
                    sels.append((repr((a,)), (a,), g[a].ravel().tolist()))
                    sels.append((repr((a, Ellipsis)), (a, Ellipsis), g[a].ravel().tolist()))
                for b in per[1]:
                    if isinstance(a, int) and isinstance(b, int):
                        continue
                    sels.append((repr((a, b)), (a, b), np.atleast_1d(g[a, b]).ravel().tolist()))
        for text, s, e in sels:
            ck.check(f'{sh} {ndim} selection={text}', case, e, selection=s)
        # orderings: permutations with removed elements, and repeated ranks
        k = 0
        for o in itertools.product(range(-1, n), repeat=n):
            pos = [v for v in o if v >= 0]
            uniq = len(set(pos)) == len(pos)
            if n > 3 and not uniq:
                continue
            k += 1
            if n > 4 and k % 1:
                continue
            e = [j for v, j in sorted((v, j) for j, v in enumerate(o) if v >= 0)]
            ck.check(f'{sh} {ndim} ordering={o}', case, e, ordering=np.array(o).reshape(act))
            if n <= 3:
                for m in itertools.product((False, True), repeat=n):
                    em = [j for j in e if m[j]]
                    ck.check(f'{sh} {ndim} ordering={o} selection={m}', case, em, ordering=np.array(o).reshape(act), selection=np.array(m).reshape(act))
                for c in range(1, n + 1):
                    for p in itertools.combinations(range(n), c):
                        em = [j for j in e if j in p]
                        if len(act) == 1:
                            ck.check(f'{sh} {ndim} ordering={o} selection={p}', case, em, ordering=np.array(o).reshape(act), selection=np.array(p))
    return scenario


def integers(n, k):
    """Every selection of k of n components, in every order, and selections of the result."""
    def scenario(ck):
        for sh in [(n,)] + ([(2, n // 2)] if n % 2 == 0 and n > 4 else []):
            X = np.arange(n).reshape(sh)
            for p in itertools.permutations(range(n), k):
                def case():
                    t = make(sh)[np.array(p, int)]
                    light(t, list(p), sh, 'table')
                    i = np.array(p, int)
                    same_array(t.pack(X), i, 'pack')
                    u = np.full(n, -1)
                    u[i] = np.arange(k)
                    same_array(t.unpack(np.arange(k)), u.reshape(sh), 'unpack')
                    same_array(t.all.removed, (u < 0).reshape(sh), 'all.removed')
                    for s in (slice(1, None), slice(None, None, 2), slice(None, None, -1)):
                        light(t[s], list(p[s]), sh, f'then {s}')
                ck.check(f'{sh} {p}', case)
                if k == 0:
                    break
    return scenario


def repeats(n, kmax):
    """Selections which hold a component several times, and selections of the result."""
    def scenario(ck):
        sh = (n,)
        X = np.arange(n)
        firsts = [(slice(None), list(range(n)))]
        firsts += [(slice(None, None, -1), list(range(n))[::-1]), (np.array([n - 1]), [n - 1]), (slice(n - 1, None), [n - 1])]
        for (s0, e0), k in itertools.product(firsts, range(2, kmax + 1)):
            for p in itertools.product(range(len(e0)), repeat=k):
                if len(set(p)) == k:
                    continue

                def case():
                    i = [e0[_] for _ in p]
                    for q in (np.array(p), list(p), np.array(p) - len(e0)):
                        t = make(sh)[s0][q]
                        light(t, i, sh, 'table')
                        same_array(t.func, 2 * np.array(i), 'function')
                        same_array(t.pack(X), np.array(i), 'pack')
                        removed = np.ones(n, bool)
                        removed[i] = False
                        same_array(t.all.removed, removed, 'all.removed')
                        for text, s, e in alphabet(k, 1, 'si'):
                            if text.startswith('(slice') or isinstance(s, slice) and (s.start or 0) < 0:
                                continue
                            light(t[s], [i[_] for _ in e], sh, f'then {text}')
                        light(t.copy(), i, sh, 'copy')
                ck.check(f'{n} {s0} {p}', case)
    return scenario


def refusals(ck):
    from pysimulators import PackedTable
    for n in (1, 2, 3):
        def case():
            t = make((n,))
            raises(IndexError, lambda: t[n])
            raises(IndexError, lambda: t[-n - 1])
            raises(ValueError, lambda: t[::0])
            raises(ValueError, lambda: t[np.ones(n + 1, bool)])
            raises((ValueError, IndexError), lambda: t[np.array([[0]])])
            raises(TypeError, lambda: t[np.array([0.])])
            raises((TypeError, ValueError), lambda: t['a'])
            raises(ValueError, PackedTable, (n,), ndim=2)
            raises(ValueError, PackedTable, (n,), ndim=0)
            raises(ValueError, PackedTable, (n,), ordering=np.zeros(n + 1, int))
            raises(ValueError, PackedTable, (n,), val=np.zeros(n + 1))
            full(t, list(range(n)), (n,), 'after refusals')
        ck.check(f'{n}', case)


def copies(ck):
    """A copy is independent and equal."""
    for n in (1, 2, 3):
        for text, s, e in alphabet(n, 2, 'sbi'):
            def case():
                t = make((n,))[s]
                u = t.copy()
                full(u, e, (n,), 'copy')
                u.val[...] = 0
                full(t, e, (n,), 'original after the copy has changed')
            ck.check(f'{n} {text}', case)


def layouts(ck):
    from pysimulators import LayoutGrid, LayoutGridSquares
    for sh in ((1, 1), (1, 2), (2, 2), (2, 3)):
        n = sh[0] * sh[1]
        for cls in (LayoutGrid, LayoutGridSquares):
            for m in itertools.product((False, True), repeat=n):
                for sw in (False, True):
                    def case():
                        full_ = cls(sh, 0.5, startswith1=sw)
                        t = cls(sh, 0.5, startswith1=sw, selection=np.array(m).reshape(sh))
                        u = full_[np.array(m)]
                        i = np.flatnonzero(m)
                        for v in (t, u):
                            same_array(v.index, i, 'index')
                            same_array(v.center, full_.center[i], 'center')
                            same_array(v.row, i // sh[1] + sw, 'row')
                            same_array(v.column, i % sh[1] + sw, 'column')
                            c = np.full((n, 2), np.nan)
                            c[i] = full_.center[i]
                            same_array(v.all.center, c.reshape(sh + (2,)), 'all.center')
                            if cls is LayoutGridSquares:
                                same_array(v.vertex, full_.vertex[i], 'vertex')
                                eq(v.vertex.shape[-2], 4, 'vertices')
                                same_array(v.all.vertex[~v.all.removed], full_.vertex[i], 'all.vertex')
                    ck.check(f'{cls.__name__} {sh} {m} {sw}', case)


def samplings(n):
    def scenario(ck):
        from pysimulators import Sampling, SamplingEquatorial
        for text, s, e in alphabet(n, 2):
            if isinstance(s, (list, tuple)) or ck.quick and isinstance(s, slice) and s.step in (None, -2):
                continue

            def case():
                i = np.array(e, int)
                t = Sampling(n, period=0.5)[s]
                eq(len(t), len(e), 'length')
                same_array(t.time, i * 0.5, 'time')
                same_array(t.index, i, 'index')
                eq(bool(t.masked), False, 'masked')
                msk = np.arange(n) % 2 == 1
                p = SamplingEquatorial(np.arange(n) * 10., np.arange(n) - 1., np.arange(n) * 3., period=0.5, masked=msk)
                q = p[s]
                same_array(q.ra, i * 10., 'ra')
                same_array(q.dec, i - 1., 'dec')
                same_array(q.pa, i * 3., 'pa')
                same_array(q.masked, msk[i], 'masked')
                same_array(q.time, i * 0.5, 'time')
                same_array(q.spherical, np.stack([i * 10., i - 1.], -1), 'spherical')
                same_array(q.cartesian, p.cartesian[i], 'cartesian')
                same_array(q.galactic, p.galactic[i], 'galactic', rtol=1e-12, atol=1e-12)
                t = Sampling(n, time=np.arange(n) ** 2 * 1.)[s]
                same_array(t.time, i ** 2 * 1., 'given time')
            ck.check(f'sampling {n} {text}', case)
    return scenario


def scenarios(tier):
    shapes = [((1,), None), ((2,), None), ((3,), None), ((4,), None), ((2, 2), None), ((1, 3), None), ((3, 2), 1), ((2, 2, 2), 2)]
    if tier != 'quick':
        shapes += [((5,), None), ((2, 3), None)]
    s = [(f'histories {a} {b}', initial(a, b)) for a, b in shapes[::-1]]
    con = [((1,), None), ((2,), None), ((3,), None), ((4,), None), ((2, 2), None), ((1, 3), None), ((3, 1), None), ((3, 2), 1)]
    con += [((2, 3), None)] if tier != 'quick' else []
    s += [(f'constructed {a} {b}', constructed(a, b)) for a, b in con[::-1]]
    s += [(f'integers {k} of {n}', integers(n, k)) for n in ((5, 6) if tier == 'quick' else (5, 6, 7)) for k in range(n + 1)]
    s += [(f'repeats {n}', repeats(n, 3 if tier == 'quick' else 4)) for n in (1, 2, 3)]
    return s + [('refusals', refusals), ('copies', copies), ('layouts', layouts)] + [(f'samplings {n}', samplings(n)) for n in range(4, 0, -1)]
