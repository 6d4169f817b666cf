"""
C11: work distribution assigns every detector and observation exactly once.
"""
import itertools

import numpy as np

from mc.harness import Mismatch, eq, require, same_array

PID = 'C11'
TECHNIQUE = 'exhaustive enumeration of the detectors, observations, processes and threads, the parts of every process being put together'
NOTE = 'The parts of all the processes are computed and every (detector, observation) pair is counted. The number of threads is the one that pysimulators reads, replaced by every value.'
BOUNDS = 'every mask of up to 7 (quick) or 10 detectors in 1 or 2 dimensions, up to 24 (quick) or 60 detectors without a mask, 0 to 7 observations, 1 to 9 processes, 1 to 5 threads'


class Comm:
    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size


def case(mu, mask, obs, size, nthreads):
    mu.omp_num_threads = lambda: nthreads
    total = {}
    before = mask.copy(), list(obs)
    loads = []
    for rank in range(size):
        d, o = mu.distribute_observation(mask, obs, comm=Comm(rank, size))
        require(isinstance(d, np.ndarray) and d.dtype == bool, 'detector mask')
        eq(d.shape, mask.shape, 'shape of the detector mask')
        require(not np.any(~d & mask), f'rank {rank} selects removed detectors')
        require(not np.may_share_memory(d, mask), 'the detector mask is a copy')
        o = list(o)
        if (~d).any():
            for k in o:
                for i in np.flatnonzero(~d):
                    total[i, k] = total.get((i, k), 0) + 1
        loads.append(((~d).sum(), len(o)))
        # the rank can be given
        d2, o2 = mu.distribute_observation(mask, obs, rank=rank, comm=Comm((rank + 1) % size, size))
        same_array(d2, d, 'detectors of a given rank')
        eq(list(o2), o, 'observations of a given rank')
        # results of a process are its own
        d[...] = True
        same_array(mask, before[0], 'input mask')
        eq(list(obs), before[1], 'input observations')
    exp = {(i, k): 1 for i in np.flatnonzero(~mask) for k in obs}
    if total != exp:
        miss = sorted(set(exp) - set(total))[:3]
        twice = sorted(k for k, v in total.items() if v > 1)[:3]
        raise Mismatch(f'not assigned {miss}, assigned several times {twice}, loads {loads}')


def run(ck, key, mask, nobs, size, nthreads):
    import pysimulators.mpiutils as mu
    saved = mu.omp_num_threads

    def go():
        try:
            case(mu, mask, [f'obs{k}' for k in range(nobs)], size, nthreads)
        finally:
            mu.omp_num_threads = saved
    ck.check(f'{key}, {nobs} observations, {size} processes, {nthreads} threads', go)


def masks(n, nobss):
    def scenario(ck):
        sizes = range(1, 7 if ck.quick else 10)
        for bits in itertools.product((False, True), repeat=n):
            m = np.array(bits, bool)
            for nobs, size, nt in itertools.product(nobss, sizes, (1, 2, 3)):
                run(ck, f'mask {"".join("01"[b] for b in bits)}', m, nobs, size, nt)
    return scenario


def plain(ns):
    def scenario(ck):
        for n, nobs, size, nt in itertools.product(ns, range(8), range(1, 10), range(1, 6)):
            run(ck, f'{n} detectors', np.zeros(n, bool), nobs, size, nt)
    return scenario


def layouts(ck):
    """Detectors in two dimensions and in non contiguous memory."""
    for bits in itertools.product((False, True), repeat=6):
        a = np.array(bits).reshape(2, 3)
        big = np.ones((4, 6), bool)
        big[::2, ::2] = a
        for name, m in (('2 x 3', a), ('Fortran', np.asfortranarray(a)), ('strided', big[::2, ::2]), ('transposed', a.T), ('reversed', a[::-1])):
            for nobs, size, nt in ((1, 2, 1), (3, 4, 1), (2, 3, 2), (2, 1, 1)):
                run(ck, f'{name} {"".join("01"[b] for b in bits)}', m, nobs, size, nt)


def scenarios(tier):
    q = tier == 'quick'
    top = 7 if q else 10
    s = [(f'masks of {n} with {"".join(map(str, o))} observations', masks(n, o)) for n in range(top, -1, -1) for o in ((0, 1), (2, 3), (4, 5), (6, 7))]
    return s + [(f'plain {k}', plain(range(k, k + 4))) for k in range(0, 24 if q else 60, 4)] + [('layouts', layouts)]
