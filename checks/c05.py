"""
C05: splitting and distributing a table is an exact, order-preserving partition.
"""
import itertools

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array
from .c04 import alphabet, light, full, make

PID = 'C05'
TECHNIQUE = 'exhaustive enumeration of tables, numbers of parts and processes, and of the schedules of the processes in an MPI model with a controlled scheduler'
NOTE = (
    'The processes are threads of an in-process MPI model driven by a controlled scheduler; every arrival order of up to 3 processes is explored. '
    'Data are compared bit by bit with the table that was split.'
)
BOUNDS = (
    'tables of up to 6 (quick) or 9 components, every selection of a table of 4 by slices, booleans or integers, 1 to 8 parts, 1 to 4 processes '
    '(every schedule up to 3), attributes of every number type and of 1 to 3 dimensions'
)


def parts(t, idx, sh, n, check=full):
    ps = t.split(n)
    eq(len(ps), n, 'number of parts')
    eq([i for p in ps for i in p.index.tolist()], list(idx), 'components of the parts')
    sizes = [len(p) for p in ps]
    require(max(sizes) - min(sizes) <= 1, f'sizes {sizes}')
    o = 0
    for p in ps:
        check(p, list(idx[o:o + len(p)]), sh, 'part')
        o += len(p)
    light(t, list(idx), sh, 'table after split')


def splits(n):
    def scenario(ck):
        for text, s, e in alphabet(n, 2):
            if isinstance(s, (list, tuple)):
                continue
            for k in range(1, n + 3):
                ck.check(f'{n} [{text}] in {k}', lambda: parts(make((n,))[s], e, (n,), k, light if ck.quick and isinstance(s, slice) else full))
    return scenario


def nested(ck):
    """Splitting the parts of a split, and 2-d tables."""
    for sh, nd in (((6,), None), ((2, 3), None), ((3, 2), 1), ((2, 2, 2), 2)):
        act = sh if nd is None else sh[:nd]
        n = int(np.prod(act))
        for a in range(1, n + 2):
            ck.check(f'{sh} in {a}', lambda: parts(make(sh, nd), list(range(n)), act, a))
            for b in range(1, 4):
                def case():
                    o = 0
                    for p in make(sh, nd).split(a):
                        parts(p, list(range(o, o + len(p))), act, b)
                        o += len(p)
                ck.check(f'{sh} in {a} in {b}', case)


def table(n, dt=float, ordering=None):
    from pysimulators import PackedTable
    a = np.arange(n) * 3 + 1
    val = (a + 1j * a if np.dtype(dt).kind == 'c' else a).astype(dt)
    if ordering is not None:
        ordering = np.array(ordering)
    return PackedTable((n,), ordering=ordering, val=val, vec=np.arange(2 * n).reshape(n, 2) * 1., ten=np.arange(6 * n).reshape(n, 2, 3).astype(np.float32),
                       scal=4., fun=lambda s: s.index * 2, none=None)


def same_table(a, b, what):
    eq(len(a), len(b), what + ' length')
    same_array(a.index, b.index, what + ' index')
    for k in ('val', 'vec', 'ten', 'fun'):
        same_array(getattr(a, k), getattr(b, k), f'{what} {k}', dtype=getattr(b, k).dtype)
        same_array(getattr(a.all, k), getattr(b.all, k), f'{what} all.{k}')
    eq(float(a.scal), float(b.scal), what)
    same_array(a.all.removed, b.all.removed, what + ' removed')


def roundtrip(ck, key, t, size, exhaustive=False, chain=False):
    from mc.fakempi import explore

    def body(comm):
        loc = t.scatter(comm)
        want = [w for w in np.array_split(t.index, size)][comm.rank]
        same_array(loc.index, want, 'scattered index')
        same_array(loc.val, t.val[np.searchsorted(np.arange(0), 0):][sum(len(w) for w in np.array_split(t.index, size)[:comm.rank]):][:len(want)], 'scattered values')
        if size > 1:
            require(loc.comm is comm, 'communicator of the scattered table')
            require(not np.may_share_memory(loc.vec, t.vec), 'scattered values are copies')
            raises(ValueError, loc.scatter, comm)
        out = [loc.gather(loc.val), loc.gather(loc.ten)]
        same_array(loc.gather(np.repeat(loc.vec, 2, 0)[::2]), t.vec, 'gathered strided array')
        # unpacking a scattered array gathers the components
        u = loc.unpack(loc.vec)
        g = loc.gather()
        if chain:
            loc2 = t[::-1].scatter(comm)
            out.append(loc2.gather(loc2.vec))
        return loc, out, u, g

    def verdict(res):
        o = 0
        for loc, out, u, g in res:
            same_array(loc.val, t.val[o:o + len(loc)], 'values')
            o += len(loc)
            same_array(out[0], t.val, 'gathered array', dtype=t.val.dtype)
            same_array(out[1], t.ten, 'gathered 3-d array', dtype=t.ten.dtype)
            same_array(u, t.all.vec, 'unpacked scattered array')
            same_table(g, t, 'gathered table')
            if chain:
                same_array(out[2], t.vec[::-1], 'gathered array of the reversed table')
        eq(o, len(t), 'components')
        eq(sorted(len(r[0]) for r in res)[-1] - sorted(len(r[0]) for r in res)[0] <= 1, True, 'sizes')

    def case():
        st = explore(size, body, verdict, exhaustive=exhaustive, tick=ck.tick_case, cap=200000)
        ck.count('schedules', st['executions'])
        ck.transitions += st['events']
    ck.check(f'{key} on {size} processes{" every order" if exhaustive else ""}', case)


def scattered(n, sizes):
    def scenario(ck):
        for dt in ('f8', 'f4', 'i8', 'i2', '?', 'c16', 'i1'):
            for size in sizes:
                roundtrip(ck, f'{n} {dt}', table(n, dt), size, chain=True)
        for text, s, e in alphabet(n, 2):
            if isinstance(s, (list, tuple)) or isinstance(s, slice) and (s.step == 1 or s.start is not None and s.start < 0 or s.stop is not None and s.stop < 0):
                continue
            for size in sizes[:2]:
                roundtrip(ck, f'{n} [{text}]', table(n)[s], size)
        if n <= 4:
            for o in itertools.permutations(range(n)):
                for k in range(n):
                    q = [v if v != k else -1 for v in o]
                    for size in sizes[:2]:
                        roundtrip(ck, f'{n} ordering {q}', table(n, ordering=q), size)
    return scenario


def schedules(n, size):
    def scenario(ck):
        """Every arrival order, which checks that the orders of MPI calls are indeed equivalent."""
        from mc.fakempi import explore
        t = table(n)

        def body(comm):
            loc = t.scatter(comm)
            return loc, loc.gather(loc.val)

        def verdict(res):
            for loc, a in res:
                same_array(a, t.val, 'gathered')
            eq([i for l, _ in res for i in l.index.tolist()], t.index.tolist(), 'components')

        def case():
            st = explore(size, body, verdict, exhaustive=True, tick=ck.tick_case, cap=200000)
            ck.count('schedules', st['executions'])
            ck.transitions += st['events']
        ck.check(f'{n} on {size}', case)
        if size == 2:
            roundtrip(ck, str(n), t, 2, exhaustive=True)
    return scenario


def objects(n):
    def scenario(ck):
        """Instruments and samplings are scattered with their table; the centre of distributed pointings is the global one."""
        from mc.fakempi import explore
        from pysimulators import Instrument, Layout, SamplingEquatorial
        for size in (1, 2, 3, 4):
            def body(comm):
                i = Instrument(Layout((n,), center=np.arange(2. * n).reshape(n, 2)))
                j = i.scatter(comm)
                eq(len(i.detector), n, 'instrument')
                require(j.comm is comm or size == 1, 'communicator')
                return j.detector.index, j.detector.center, j.detector.gather().center

            def verdict(res):
                eq([k for r in res for k in r[0].tolist()], list(range(n)), 'detectors')
                for r in res:
                    same_array(r[1], np.stack([2. * r[0], 2. * r[0] + 1], -1), 'centres')
                    same_array(r[2], np.arange(2. * n).reshape(n, 2), 'gathered centres')
            ck.check(f'instrument {n} {size}', lambda: explore(size, body, verdict) and None)
            for masked in itertools.product((False, True), repeat=n):
                ra, dec = 10. + np.arange(n), 5. * np.arange(n)

                def body(comm):
                    p = SamplingEquatorial(ra, dec, masked=np.array(masked)).scatter(comm)
                    return p.get_center(), p.ra

                def verdict(res):
                    k = ~np.array(masked)
                    v = np.array([np.cos(np.radians(ra)) * np.cos(np.radians(dec)), np.sin(np.radians(ra)) * np.cos(np.radians(dec)), np.sin(np.radians(dec))])
                    v = v[:, k].mean(1)
                    e = [np.degrees(np.arctan2(v[1], v[0])) % 360, np.degrees(np.arctan2(v[2], np.hypot(v[0], v[1])))]
                    for c, _ in res:
                        same_array(c, e, 'centre', rtol=1e-9, atol=1e-9)
                    same_array(np.concatenate([r[1] for r in res]), ra, 'ra')
                if all(masked):
                    ck.check(f'sampling {n} {size} {masked}', lambda: explore(size, body, None, expect_error=ValueError) and None)
                else:
                    ck.check(f'sampling {n} {size} {masked}', lambda: explore(size, body, verdict) and None)
    return scenario


def scenarios(tier):
    q = tier == 'quick'
    s = [(f'schedules {n} on {k}', schedules(n, k)) for n, k in ((3, 3), (2, 3), (1, 3), (3, 2), (1, 2))]
    s += [(f'scatter {n} on {z}', scattered(n, z)) for n in ((5, 4, 3, 2, 1) if q else (7, 6, 5, 4, 3, 2, 1)) for z in ((3,), (2,), (1, 4))]
    s += [(f'split {n}', splits(n)) for n in ((4, 3, 2, 1) if q else (5, 4, 3, 2, 1))]
    return s + [('nested', nested)] + [(f'objects {n}', objects(n)) for n in ((4, 3, 2, 1) if q else (5, 4, 3, 2, 1))]
