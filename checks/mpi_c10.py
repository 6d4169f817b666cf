"""
Run by mpirun: the files of C10 written and read with mpi4py, to validate the MPI model of mc/fakempi.py.
"""
import itertools
import sys
from pathlib import Path

import numpy as np

import mc.load
from .c10 import part, same_file, split, values, wcs


def main(root):
    mc.load.load('plain')
    import pysimulators.mpiutils as mu
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    size, rank = comm.size, comm.rank
    path = Path(root) / f'real{size}.fits'
    n = 0
    cases = [((r, *rest), dt) for r in range(2 * size + 2) for rest in ((), (2,), (1, 2), (0,)) for dt in ('f8', '>i2', 'u2')]
    cases += [((360,), 'f8'), ((2880,), 'u1'), ((361,), 'f8'), ((359,), 'f8')]
    for (shape, dt), kind in itertools.product(cases, (None, 'tan')):
        whole, head = values(shape, dt), wcs(shape, kind)
        a, b = split(shape[0], size, rank)
        mu.write_fits(path, whole[a:b], part(head, size, rank), False, None, comm)
        mu.write_fits(path, whole[a:b], None, True, 'Coverage', comm)
        same_file(path, [(None, whole, head), ('Coverage', whole, None)])
        for name in (None, 'Coverage') if shape[0] or len(shape) > 1 else ('Coverage',):
            x, h = mu.read_fits(path, name, comm)
            assert np.array_equal(x, whole[a:b]) and h[f'NAXIS{whole.ndim}'] == b - a, (shape, dt, kind, rank)
        comm.Barrier()
        n += 1
    if rank == 0:
        print('REAL-OK', n, flush=True)


if __name__ == '__main__':
    main(sys.argv[1])
