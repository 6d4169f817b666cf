"""
C10: distributed FITS files and headers equal their serial counterparts.
"""
import itertools
import shutil
import tempfile
from contextlib import contextmanager
from pathlib import Path

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C10'
TECHNIQUE = 'exhaustive enumeration of arrays, headers and numbers of processes, every order of the file accesses of the processes being explored in an MPI model with a controlled scheduler'
NOTE = (
    'The processes are threads of an in-process model of MPI (communicators, datatypes and collective files) driven by a controlled scheduler; every opening, '
    'removal or collective write of a file is a scheduling point and the orders are explored by dynamic partial-order reduction. The files are read back with astropy and '
    'compared with the array and header given. The thorough tier repeats the writings and readings with mpi4py under mpirun, which validates the model.'
)
BOUNDS = (
    '1 to 4 processes, 0 to 2n+1 rows of 1- to 3-dimensional arrays of every FITS number type, byte order and memory layout, files made of full blocks or not, primary arrays and '
    'extensions; headers of 1 to 3 dimensions, with and without coordinates, 0 to 8 rows on 1 to 5 processes'
)


def split(n, size, rank):
    """First and last+1 rows of a rank: parts of n // size rows, the first ones having one more."""
    q, r = divmod(n, size)
    a = rank * q + min(rank, r)
    return a, a + q + (rank < r)


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-c10-')
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextmanager
def mpi():
    """pysimulators with the file interface of the MPI model."""
    import pysimulators.mpiutils as mu
    from mc.fakempi import Datatype, Namespace
    from pyoperators import MPI
    from pyoperators.utils import mpi as pm
    saved = mu.MPI, mu.DTYPE_MAP
    mu.MPI = Namespace(MPI)
    mu.DTYPE_MAP = {np.dtype(k): Datatype(k) for k in pm.DTYPE_MAP}
    for k in ('i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f4', 'f8', 'c8', 'c16', '?'):
        mu.DTYPE_MAP[np.dtype(k)] = Datatype(k)
    try:
        yield mu
    finally:
        mu.MPI, mu.DTYPE_MAP = saved


def explore(ck, size, body, verdict, root=None, **k):
    from mc.fakempi import explore as ex
    # at most 32 schedules are different for a case when the accesses to the files are ordered: many more can be when they are
    # not, which the check is there to show with the first of them
    cap, total = (200, 2500) if ck.quick else (20000, 100000)
    if ck.extra.get('schedules', 0) > total:
        from mc.harness import Capped
        raise Capped(f'more than {total} schedules')
    st = ex(size, body, verdict, root=str(root) if root is not None else None, tick=ck.tick_case, cap=cap, soft=True, **k)
    if 'capped' in st:
        ck.capped = st['capped']
    ck.count('schedules', st['executions'])
    ck.transitions += st['events']


def values(shape, dt, layout='C'):
    dt = np.dtype(dt)
    n = int(np.prod(shape))
    a = np.arange(1, n + 1)
    if dt.kind == 'b':
        v = a % 3 == 0
    elif dt.kind == 'f':
        v = a + 0.25
    elif dt.kind == 'u':
        v = np.iinfo(dt).max - a.astype(dt)
    else:
        v = (a * 7919 % 251 - 120)
    v = v.astype(dt).reshape(shape)
    if layout == 'F':
        return np.asfortranarray(v)
    if layout == 'strided':
        big = np.zeros(tuple(2 * s for s in shape), dt)
        big[tuple(slice(None, None, 2) for _ in shape)] = v
        return big[tuple(slice(None, None, 2) for _ in shape)]
    if layout == 'reversed':
        return np.ascontiguousarray(v[::-1])[::-1]
    return v


def wcs(shape, kind):
    """Global header; None for a minimal one."""
    from astropy.io import fits
    if kind is None:
        return None
    h = fits.Header()
    h['SIMPLE'] = True
    h['BITPIX'] = -64 if kind != 'stale' else 8
    h['NAXIS'] = len(shape)
    for i, s in enumerate(shape[::-1]):
        h[f'NAXIS{i + 1}'] = s if kind != 'stale' else s + 7
    names = {'tan': ['RA---TAN', 'DEC--TAN', 'FREQ'], 'car': ['GLON-CAR', 'GLAT-CAR', 'VELO'], 'stale': ['RA---TAN', 'DEC--TAN', 'WAVE']}.get(kind)
    if names:
        for i in range(len(shape)):
            h[f'CTYPE{i + 1}'] = names[i]
            h[f'CRPIX{i + 1}'] = 2.5 + i
            h[f'CRVAL{i + 1}'] = 10. * i
            h[f'CDELT{i + 1}'] = 0.1 * (i + 1)
    h['OBJECT'] = 'M31'
    h['TELESCOP'] = ('QUBIC', 'the comment')
    h.add_comment('a comment')
    h.add_history('some history')
    return h


def part(header, size, rank):
    """Header of the local array, from the definition."""
    if header is None:
        return None
    h = header.copy()
    k = h['NAXIS']
    a, b = split(h[f'NAXIS{k}'], size, rank)
    h[f'NAXIS{k}'] = b - a
    if f'CRPIX{k}' in h:
        h[f'CRPIX{k}'] -= a
    return h


def cards(h, skip=()):
    return {k: ([str(v) for v in h[k]] if k in ('COMMENT', 'HISTORY') else h[k]) for k in h.keys() if k not in ('EXTEND', 'PCOUNT', 'GCOUNT', 'BSCALE', 'BZERO', '', *skip)}


def same_file(path, hdus, what='file'):
    """The file is made of full blocks and contains the given (name, array, header)."""
    from astropy.io import fits
    size = path.stat().st_size
    eq(size % 2880, 0, f'{what}: size')
    with fits.open(path, memmap=False) as f:
        f.verify('exception')
        eq(len(f), len(hdus), f'{what}: number of HDUs')
        eq(f[-1].fileinfo()['datLoc'] + f[-1].fileinfo()['datSpan'], size, f'{what}: end of the file')
        for i, (name, a, h) in enumerate(hdus):
            if a is None:
                eq(f[i].header['NAXIS'], 0, f'{what}: empty primary')
                continue
            d = f[i].data
            if a.dtype == bool:
                a = a.astype(np.uint8)
            require(d is not None, f'{what}: no data')
            eq(d.dtype.newbyteorder('='), a.dtype.newbyteorder('='), f'{what}: type of {i}')
            same_array(np.asarray(d, a.dtype.newbyteorder('=')), a, f'{what}: data of {i}')
            eq(f[i].name.upper(), (name or 'primary').upper(), f'{what}: name of {i}')
            got = cards(f[i].header)
            exp = {'SIMPLE': True} if i == 0 else {'XTENSION': 'IMAGE'}
            if h is not None:
                exp = {**cards(h, ('SIMPLE', 'XTENSION')), **exp}
            if name:
                exp['EXTNAME'] = name
            exp['BITPIX'] = {'b': 8, 'f': -8 * a.itemsize}.get(a.dtype.kind, 8 * a.itemsize)
            exp['NAXIS'] = a.ndim
            exp.update({f'NAXIS{k + 1}': s for k, s in enumerate(a.shape[::-1])})
            eq(got, exp, f'{what}: header of {i}')


def write_case(ck, size, shape, dt, layout='C', kind=None, mode='primary', before=None):
    """mode: primary, extension (of an existing file), extensions (two of them), orphan (extension without a file)"""
    from astropy.io import fits

    def case():
        with scratch() as d, mpi() as mu:
            path = d / 'f.fits'
            whole = values(shape, dt, layout)
            header = wcs(shape, kind)
            other = values((3,), 'i2')
            hs = [part(header, size, r) for r in range(size)]
            copies = [None if h is None else h.copy() for h in hs]

            def setup():
                path.unlink(missing_ok=True)
                if mode.startswith('ext'):
                    fits.PrimaryHDU(other).writeto(path)
                elif before:
                    path.write_bytes(b'x' * before)
                return whole.copy(order='K')

            def body(comm, src):
                a, b = split(shape[0], size, comm.rank)
                loc = src[a:b]
                ext = {'primary': None, 'orphan': 'Coverage'}.get(mode, 'Coverage')
                name = path if comm.rank % 2 else str(path)
                mu.write_fits(name, loc, hs[comm.rank], mode != 'primary', ext, comm)
                if mode == 'extensions':
                    mu.write_fits(name, loc, None, True, 'Error', comm)
                # the file is complete whenever a process comes back
                same_file(path, expected, f'file seen by rank {comm.rank}')
                return loc

            expected = {
                'primary': [(None, whole, header)],
                'orphan': [('Coverage', whole, header)],
                'extension': [(None, other, None), ('Coverage', whole, header)],
                'extensions': [(None, other, None), ('Coverage', whole, header), ('Error', whole, None)],
            }[mode]

            def verdict(res, src):
                same_file(path, expected)
                same_array(src, whole, 'array after the writing', dtype=whole.dtype)
                for h, c in zip(hs, copies):
                    if h is not None:
                        eq(repr(h), repr(c), 'header after the writing')
            explore(ck, size, body, verdict, d, setup=setup)
    ck.check(f'{size} processes write {shape} {dt} {layout} header {kind} {mode} {before or ""}', case)


def writes(size):
    def scenario(ck):
        top = 2 * size + 1
        for n in range(top + 1):
            for rest in ((), (2,), (1, 2), (0,)):
                for mode in ('primary', 'extension'):
                    write_case(ck, size, (n, *rest), 'f8', mode=mode)
        for dt in ('>f8', '<f4', '>f4', 'i1', 'u1', 'i2', '>i2', 'u2', 'i4', '>i4', 'u4', 'i8', '>i8', 'u8', '?'):
            for n in (size, size + 1) if ck.quick else range(size - 1, size + 3):
                for mode in ('primary', 'extensions'):
                    write_case(ck, size, (n, 3), dt, mode=mode)
            write_case(ck, size, (size + 1,), dt, layout='reversed')
        for kind in ('plain', 'tan', 'car', 'stale'):
            for shape in ((size + 1,), (size, 2), (size + 1, 3), (2 * size - 1, 2, 2), (max(1, size - 1), 2)):
                for mode in ('primary', 'extension', 'orphan'):
                    write_case(ck, size, shape, 'f8', kind=kind, mode=mode)
        for layout in ('F', 'strided', 'reversed'):
            for shape in ((size + 1, 3), (size, 2, 2)):
                write_case(ck, size, shape, 'f4', layout=layout)
    return scenario


def blocks(size):
    def scenario(ck):
        """Data of full blocks, of one element less and more, over files that exist."""
        for dt, per in (('f8', 360), ('f4', 720), ('i2', 1440), ('u1', 2880)):
            for k in (1, 2):
                for delta in (-1, 0, 1):
                    write_case(ck, size, (k * per + delta,), dt)
                    if delta == 0:
                        write_case(ck, size, (k * per // 10, 10), dt, mode='extensions')
        for before in (1, 2880, 28800):
            for shape in ((0,), (size,), (2, 3)):
                write_case(ck, size, shape, 'f8', before=before)
    return scenario


def reads(size):
    def scenario(ck):
        from astropy.io import fits
        with scratch() as d:
            path = d / 'f.fits'
            top = 2 * size + 1
            cases = [((n, *rest), dt, kind) for n in range(top + 1) for rest in ((), (2,), (2, 2)) for dt in ('f8',) for kind in ('plain', 'tan', 'car')]
            cases += [((n, 3), dt, None) for n in (size - 1, size, size + 1) for dt in ('f4', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8') if n]
            cases += [((size, 0), 'f8', None), ((max(1, size - 1), 2, 2), 'f4', 'car')]
            for where in ('primary', 'first', 'named'):
                for shape, dt, kind in cases:
                    whole = values(shape, dt)
                    h = wcs(shape, kind)
                    if where == 'primary':
                        fits.PrimaryHDU(whole, h).writeto(path, overwrite=True)
                        name = None
                    else:
                        l = [fits.PrimaryHDU(), fits.ImageHDU(whole, h)]
                        if where == 'named':
                            l.insert(1, fits.ImageHDU(np.zeros(3)))
                            l[2].name = 'abc'
                        fits.HDUList(l).writeto(path, overwrite=True)
                        name = 'abc' if where == 'named' else None

                    def body(comm):
                        with mpi() as mu:
                            out = mu.read_fits(path if comm.rank % 2 else str(path), name, comm)
                            # the others may now remove the file
                        return np.array(out[0]), out[1], out[0].dtype

                    def verdict(res):
                        require(all(r[0].ndim == len(shape) for r in res), f'shapes {[r[0].shape for r in res]}')
                        require(all(r[2].isnative for r in res), 'native byte order')
                        for rank, (a, loc, _) in enumerate(res):
                            s = split(shape[0], size, rank)
                            same_array(a, whole[slice(*s)], f'part of rank {rank}', dtype=whole.dtype)
                            eq(loc['NAXIS'], len(shape), 'NAXIS')
                            eq([loc[f'NAXIS{k + 1}'] for k in range(len(shape))], list(a.shape[::-1]), f'NAXISn of rank {rank}')
                            if h is None:
                                continue
                            exp = cards(part(h, size, rank), ('SIMPLE', 'XTENSION', 'BITPIX', 'EXTNAME'))
                            eq(cards(loc, ('SIMPLE', 'XTENSION', 'BITPIX', 'EXTNAME')), exp, f'header of rank {rank}')
                    ck.check(f'{size} processes read {shape} {dt} header {kind} {where}', lambda: explore(ck, size, body, verdict, d))
    return scenario


def objects(size):
    def scenario(ck):
        """FitsArray, Map and Tod saved and loaded in parallel."""
        from pysimulators import FitsArray, Map, Quantity, Tod
        for cls in (FitsArray, Map, Tod):
            for n in sorted({1, size - 1, size, size + 1, 2 * size + 1} - {0}):
                for rest in ((3,), (2, 2)):
                    for dt in ('f8', 'f4', '>f8'):
                        for kind in (None, 'tan'):
                            for extra in (False, True):
                                if (dt != 'f8' or rest == (2, 2)) and extra != (kind == 'tan'):
                                    continue
                                shape = (n, *rest)
                                whole = values(shape, dt)
                                head = wcs(shape, kind)
                                comp = {}
                                if extra and cls is Map:
                                    comp = {'coverage': values(shape, 'f4') * 2, 'error': values(shape, 'f8') / 4}
                                elif extra and cls is Tod:
                                    comp = {'mask': values(shape, '?')}

                                def build(a, b, h):
                                    kw = {k: v[a:b] for k, v in comp.items()}
                                    if extra:
                                        kw['unit'] = 'Jy'
                                        kw['derived_units'] = {'beam': Quantity(3., 'm')}
                                    return cls(whole[a:b], header=h, dtype=None, **kw)

                                def case():
                                    with scratch() as d, mpi():
                                        path = d / 'o.fits'
                                        build(0, n, head).save(str(path))
                                        serial = cls(str(path))
                                        from astropy.io import fits
                                        with fits.open(path) as f:
                                            ref = [(i.name, cards(i.header)) for i in f]
                                            refdata = [np.array(i.data) for i in f]

                                        def setup():
                                            path.unlink(missing_ok=True)

                                        def body(comm, _):
                                            a, b = split(n, size, comm.rank)
                                            x = build(a, b, part(head, size, comm.rank))
                                            x.save(str(path), comm=comm)
                                            y = cls(str(path) if comm.rank else path, comm=comm)
                                            # saved again under the same name
                                            if n % 2:
                                                y.save(str(path), comm=comm)
                                                y = cls(str(path), comm=comm)
                                            return y

                                        def verdict(res, _):
                                            eq(path.stat().st_size % 2880, 0, 'size')
                                            with fits.open(path) as f:
                                                eq([i.name for i in f], [r[0] for r in ref], 'HDUs')
                                                for i, (_, c), da in zip(f, ref, refdata):
                                                    same_array(i.data, da, f'data of {i.name}')
                                                    eq(cards(i.header), c, f'header of {i.name}')
                                            for r, y in enumerate(res):
                                                a, b = split(n, size, r)
                                                same_array(y.view(np.ndarray), np.asarray(serial)[a:b], f'part of rank {r}', dtype=serial.dtype)
                                                eq(y.unit, serial.unit, 'unit')
                                                eq(y.derived_units, serial.derived_units, 'derived units')
                                                for k, v in comp.items():
                                                    same_array(getattr(y, k), v[a:b], f'{k} of rank {r}')
                                                exp = cards(part(serial.header, size, r))
                                                eq(cards(y.header), exp, f'header of rank {r}')
                                        explore(ck, size, body, verdict, d, setup=setup)
                                ck.check(f'{size} processes {cls.__name__} {shape} {dt} header {kind} companions {extra}', case)
    return scenario


def headers(size):
    def scenario(ck):
        import pysimulators.mpiutils as mu
        for n, naxis, kind in itertools.product(range(0, 9), (1, 2, 3), ('plain', 'tan', 'car')):
            shape = (n, 3, 2)[:naxis]
            h = wcs(shape, kind)
            before = repr(h)

            def body(comm):
                loc = mu.scatter_fitsheader(h, comm=comm)
                keep = repr(loc)
                g = mu.gather_fitsheader(loc, comm=comm)
                eq(repr(loc), keep, 'local header after gather')
                out = [loc, g]
                if kind != 'plain' and n > 0:
                    out.append(mu.gather_fitsheader_if_needed(loc, comm=comm))
                    # already global
                    out.append(mu.gather_fitsheader_if_needed(h, comm=comm))
                return out

            def verdict(res):
                eq(repr(h), before, 'header after scatter')
                for r, out in enumerate(res):
                    eq(repr(out[0]), repr(part(h, size, r)), f'local header of rank {r}')
                    for g, w in zip(out[1:], ('gathered', 'gathered if needed', 'global')):
                        # headers that are identical on all the processes are global
                        eq(repr(g), before, f'{w} header of rank {r}')
            ck.check(f'{size} processes header {shape} {kind}', lambda: explore(ck, size, body, verdict, exhaustive=size <= 2))
    return scenario


def errors(size):
    def scenario(ck):
        """Inputs that are not consistent are rejected on every process: none of them is left blocked."""
        with scratch() as d, mpi() as mu:
            path = d / 'f.fits'

            def write(comm, loc, name=path):
                mu.write_fits(name, loc, None, False, None, comm)

            top = 3 if size < 4 else 2
            for ns in itertools.product(range(top + 1), repeat=size):
                n = sum(ns)
                good = ns == tuple(b - a for a, b in (split(n, size, r) for r in range(size)))
                if good or ck.quick and size == 4 and max(ns) > 1:
                    continue
                ck.check(f'rows {ns}', lambda: explore(ck, size, lambda c: write(c, np.zeros((ns[c.rank], 2))), None, d, expect_error=ValueError))
            for k in range(size):
                ck.check(f'shape of rank {k}', lambda: explore(ck, size, lambda c: write(c, np.zeros((1, 2 + (c.rank == k)))), None, d, expect_error=ValueError))
                ck.check(f'dimensions of rank {k}', lambda: explore(ck, size, lambda c: write(c, np.zeros((1, 2, 1)[:2 + (c.rank == k)])), None, d, expect_error=ValueError))
                ck.check(f'name of rank {k}', lambda: explore(ck, size, lambda c: write(c, np.zeros(1), d / f'g{c.rank == k}'), None, d, expect_error=ValueError))
                ck.check(f'name read by rank {k}', lambda: explore(ck, size, lambda c: mu.read_fits(d / f'g{c.rank == k}', None, c), None, d, expect_error=ValueError))
                for key in ('CRVAL1', 'CRVAL2', 'CDELT1', 'CDELT2', 'CTYPE1', 'CTYPE2', 'NAXIS1', 'CRPIX1'):
                    def body(comm):
                        h = part(wcs((6, 3), 'tan'), size, comm.rank)
                        if comm.rank == k:
                            h[key] = {'CTYPE1': 'GLON-CAR', 'CTYPE2': 'GLAT-CAR'}.get(key) or h[key] + 1
                        mu.gather_fitsheader_if_needed(h, comm=comm)
                    ck.check(f'{key} of rank {k}', lambda: explore(ck, size, body, None, expect_error=ValueError))
            for f in (mu.gather_fitsheader, mu.scatter_fitsheader, mu.gather_fitsheader_if_needed):
                from astropy.io import fits
                h = fits.Header()
                ck.check(f'{f.__name__} without NAXIS', lambda: explore(ck, size, lambda c: f(h, comm=c), None, expect_error=KeyError))
                h2 = fits.Header({'NAXIS': 0})
                ck.check(f'{f.__name__} of a scalar', lambda: explore(ck, size, lambda c: f(h2, comm=c), None, expect_error=KeyError))
    return scenario


def real(size):
    def scenario(ck):
        """The same writings and readings with mpi4py under mpirun: what the model says holds for a real MPI library."""
        import os
        import subprocess
        import sys

        def case():
            env = dict(os.environ, PYTHONPATH='/opt/mpi4py', OMP_NUM_THREADS='1', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
                       OMPI_MCA_plm='isolated', OMPI_MCA_rmaps_base_oversubscribe='1')
            with scratch() as d:
                cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np', str(size), sys.executable, '-m', 'checks.mpi_c10', str(d)]
                p = subprocess.run(['timeout', '300', *cmd], cwd=Path(__file__).resolve().parent.parent, env=env, capture_output=True, text=True)
                require('REAL-OK' in p.stdout, f'{p.stdout[-500:]} {p.stderr[-1500:]}')
                ck.count('files written with mpi4py', int(p.stdout.split('REAL-OK')[1].split()[0]))
        ck.check(f'mpirun -np {size}', case)
    return scenario


def scenarios(tier):
    q = tier == 'quick'
    s = [] if q else [(f'mpirun {k}', real(k)) for k in (2, 3, 4, 5)]
    for size in (4, 3, 2, 1):
        s += [(f'objects {size}', objects(size)), (f'write {size}', writes(size)), (f'read {size}', reads(size)), (f'blocks {size}', blocks(size))]
        if size > 1:
            s.append((f'errors {size}', errors(size)))
    return s + [(f'headers {k}', headers(k)) for k in ((1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6, 7))]
