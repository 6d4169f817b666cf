"""
C22: an acquisition model reflects its current instrument, sampling and scene.
"""
import itertools
import operator

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C22'
TECHNIQUE = 'exhaustive exploration of the sequences of restrictions, operator requests and observations, over every block partition and, in an MPI model with a controlled scheduler, numbers and schedules of processes'
NOTE = (
    'The instrument of the check has a response, noise and noise covariance that depend on the global indices of the detectors, samples and pixels, so that the expected values of any '
    'restriction are known by formula. After each sequence every acquisition met on the way is checked again. The processes are threads of an in-process MPI model.'
)
BOUNDS = (
    '3 detectors, 4 samples and 3 pixels; sequences of up to 2 (quick) or 3 operations out of 26; every partition of 4 (quick) or 5 samples in blocks combined with every selection of samples; 1 to 4 (quick) or 6 '
    'processes and every grid of processes'
)
ND, NS, NP = 3, 4, 3


def classes():
    from pyoperators import DiagonalOperator
    from pysimulators import Acquisition, Instrument
    from pysimulators.operators import ProjectionOperator
    from pysimulators.sparse import FSRMatrix

    class Instr(Instrument):
        def get_operator(self, sampling, scene):
            nd, ns, npix = len(self), len(sampling), len(scene)
            m = FSRMatrix((nd * ns, npix), ncolmax=npix)
            w = response(self.detector.index, sampling.index, scene.index)
            if npix:
                m.data.index = np.arange(npix)
                m.data.value = w.reshape(nd * ns, npix)
            return ProjectionOperator(m, shapein=(npix,), shapeout=(nd, ns))

        def get_noise(self, sampling, out=None, operation=None):
            operation(out, noise(self.detector.index, sampling.index))
            return out

        def get_invntt_operator(self, sampling):
            return DiagonalOperator(1 / noise(self.detector.index, sampling.index), shapein=(len(self), len(sampling)))
    return Instr, Acquisition


def response(d, t, p):
    d, t, p = np.asarray(d), np.asarray(t), np.asarray(p)
    return 1. + d[:, None, None] + 7 * t[None, :, None] + 50 * p[None, None, :] ** 2 + d[:, None, None] * t[None, :, None] * p


def noise(d, t):
    return 1000. + 3 * np.asarray(d)[:, None] + 20 * np.asarray(t)[None, :] ** 2


def build(nd=ND, ns=NS, npix=NP, block=None, comm=None, **k):
    from pyoperators import MPI
    from pysimulators import PackedTable, Sampling, Scene
    Instr, Acquisition = classes()
    det = PackedTable(nd, gain=np.arange(nd) + 0.5)
    return Acquisition(Instr(det), Sampling(ns, period=1., angle=np.arange(ns) * 2.), Scene(npix), block=block, comm=comm or MPI.COMM_SELF, **k)


def verify(a, d, t, p, what, light=False):
    """The acquisition is that of detectors d, samples t and pixels p."""
    d, t, p = np.array(d, int), np.array(t, int), np.array(p, int)
    eq((a.instrument.detector.index.tolist(), a.sampling.index.tolist(), a.scene.index.tolist()), (d.tolist(), t.tolist(), p.tolist()), f'{what}: components')
    same_array(a.instrument.detector.gain, d + 0.5, f'{what}: detector attribute')
    same_array(a.sampling.angle, t * 2., f'{what}: sampling attribute')
    same_array(a.sampling.time, t * 1., f'{what}: time')
    w, n = response(d, t, p), noise(d, t)
    x = 1. + np.arange(len(p)) ** 2
    keep = x.copy()
    if not (d.size and t.size):
        return
    y = w @ x
    out = np.full((len(d), len(t)), np.nan)
    same_array(a.get_noise(), n, f'{what}: noise')
    require(a.get_noise(out=out) is out, 'noise buffer')
    same_array(out, n, f'{what}: noise in a buffer')
    same_array(a.get_invntt_operator()(np.ones((len(d), len(t)))), 1 / n, f'{what}: inverse noise covariance', rtol=1e-14)
    if not p.size:
        return
    H = a.get_operator()
    eq((H.shapein, H.shapeout), ((len(p),), (len(d), len(t))), f'{what}: shape of the operator')
    same_array(H(x), y, f'{what}: operator', rtol=1e-12)
    same_array(a.get_observation(x), y + n, f'{what}: observation', rtol=1e-12)
    if light:
        return
    same_array(H.T(y), np.einsum('dtp,dt->p', w, y), f'{what}: transpose', rtol=1e-12)
    same_array(H.todense(), w.reshape(-1, len(p)), f'{what}: dense', rtol=1e-12)
    same_array(a.get_observation(x, noiseless=True), y, f'{what}: noiseless observation', rtol=1e-12)
    for noiseless, exp in ((True, y), (False, y + n)):
        r = a.get_observation(x, noiseless, out=out)
        require(r is out or np.may_share_memory(r, out), 'observation buffer')
        same_array(out, exp, f'{what}: observation in a buffer', rtol=1e-12)
        for op in (operator.iadd, operator.isub, operator.imul):
            out[...] = 1 + np.arange(out.size).reshape(out.shape)
            e = op(out.copy(), exp)
            r = a.get_observation(x, noiseless, out=out, operation=op)
            require(r is out or np.may_share_memory(r, out), 'observation buffer')
            same_array(out, e, f'{what}: observation with {op.__name__}, noiseless {noiseless}', rtol=1e-12)
    same_array(x, keep, f'{what}: input')
    eq(a.get_operator_nbytes() > 0, True, 'nbytes')


class Sel:
    """Selection of one to three axes, with the expected indices."""
    def __init__(self, *s):
        self.s = s

    def key(self):
        s = self.s
        if len(s) == 1:
            return s[0]
        return s

    def apply(self, idx):
        s = self.s
        if len(s) == 2 and s[0] is Ellipsis:
            s = (slice(None), slice(None), s[1])
        s = tuple(slice(None) if v is Ellipsis else v for v in s)
        s += (3 - len(s)) * (slice(None),)
        return tuple(list(np.atleast_1d(np.array(i, int)[v if not isinstance(v, list) else np.array(v)])) for i, v in zip(idx, s))

    def __str__(self):
        return '[' + ', '.join('...' if v is Ellipsis else f'{v.start}:{v.stop}:{v.step}' if isinstance(v, slice) else str(v) for v in self.s) + ']'


C = slice(None)


def actions():
    restrict = [Sel(C), Sel(...), Sel(..., ...), Sel(0), Sel(-1), Sel(slice(1, None)), Sel(slice(None, None, -1)), Sel([1, 0]), Sel([True, False]), Sel(slice(0, 2)),
                Sel(C, 0), Sel(C, slice(1, None)), Sel(C, slice(None, 2)), Sel(C, slice(None, None, -1)), Sel(C, [1, 0]), Sel(C, slice(None, None, 2)),
                Sel(..., 0), Sel(..., slice(1, None)), Sel(..., slice(None, None, -1)), Sel(C, C, [1, 0]),
                Sel(slice(1, None), slice(None, 2), slice(None, 2)), Sel(0, slice(1, None)), Sel([1, 0], C, slice(1, None))]
    return restrict + ['operator', 'observation', 'nbytes']


def valid(sel, idx):
    for i, v in zip(idx, sel.apply(idx) if not any(isinstance(v, list) for v in sel.s) else idx):
        pass
    for axis, v in zip((0, 1, 2) if not (len(sel.s) == 2 and sel.s[0] is Ellipsis) else (2,), sel.s if not (len(sel.s) == 2 and sel.s[0] is Ellipsis) else sel.s[1:]):
        n = len(idx[axis])
        if isinstance(v, int) and not -n <= v < n:
            return False
        if isinstance(v, list) and (isinstance(v[0], bool) and len(v) != n or not isinstance(v[0], bool) and max(v) >= n):
            return False
    return True


def ok(sel, idx):
    try:
        return valid(sel, idx)
    except IndexError:
        return False


def histories(first, depth, blocks):
    def scenario(ck):
        acts = actions()

        def name(h):
            return ' '.join(str(a) for a in h)

        def walk(h):
            for block in blocks:
                ck.check(f'block {block}: {name(h)}', run, h, block)
            if len(h) < depth:
                for a in acts:
                    walk(h + [a])

        def run(h, block):
            a = build(block=None if block is None else [slice(*b) for b in block])
            idx = tuple(list(range(n)) for n in (ND, NS, NP))
            met = [(a, idx)]
            for act in h:
                if isinstance(act, Sel):
                    if not ok(act, idx):
                        return
                    a, idx = a[act.key()], act.apply(idx)
                    met.append((a, idx))
                elif act == 'operator':
                    if all(idx):
                        a.get_operator()
                elif act == 'observation':
                    if all(idx):
                        a.get_observation(np.ones(len(idx[2])))
                elif all(idx):
                    a.get_operator_nbytes()
            ck.state((repr(idx), h[-1] if isinstance(h[-1], str) else ''))
            for k, (b, i) in enumerate(reversed(met)):
                verify(b, *i, f'acquisition {len(met) - 1 - k}', light=k > 0 or len(h) == depth)
        walk([acts[first]])
    return scenario


def partitions(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        e = [0] + [i + 1 for i, c in enumerate(cuts) if c] + [n]
        yield list(zip(e[:-1], e[1:]))


def blocks(n):
    def scenario(ck):
        """Every partition and every selection of the samples, twice."""
        sels = [slice(a, b, s) for a in range(n) for b in range(a + 1, n + 1) for s in (1, 2)] + [slice(None, None, -1), slice(n, 0, -2)]
        sels += [[bool(k >> i & 1) for i in range(n)] for k in range(1, 2 ** n)]
        sels += [list(p) for k in (1, 2, 3) for p in itertools.permutations(range(n), k) if n <= 4 or k <= 2]
        for part in partitions(n):
            block = [slice(*p) for p in part]
            for form in (list(block), tuple(block)):
                ck.check(f'{part} {type(form).__name__}', lambda: verify(build(ns=n, block=form), range(ND), range(n), range(NP), 'blocks'))
            for s in sels:
                sel = Sel(C, s)

                def case():
                    a = build(ns=n, block=block)
                    idx = sel.apply((range(ND), range(n), range(NP)))
                    b = a[sel.key()]
                    verify(b, *idx, 'restricted', light=n > 3 and len(block) not in (1, 3))
                    eq([i for k in b.block for i in range(*k.indices(len(b.sampling)))], list(range(len(b.sampling))), 'blocks partition the samples')
                    for s2 in (slice(1, None), slice(None, None, -1)):
                        sel2 = Sel(C, s2)
                        idx2 = sel2.apply(idx)
                        verify(b[sel2.key()], *idx2, 'restricted twice', light=True)
                    verify(a, range(ND), range(n), range(NP), 'whole', light=True)
                ck.check(f'{part} {sel}', case)
    return scenario


def memory(ck):
    """The blocks chosen to bound the memory partition the samples and do not change the result."""
    for n in range(1, 7):
        total = build(ns=n).get_operator_nbytes()
        for m in sorted({1, 10, total // 7 + 1, total // 3, total // 2, total - 1, total, total + 1, 10 * total}):
            def case():
                a = build(ns=n, max_nbytes=m)
                eq([i for k in a.block for i in range(k.start, k.stop)], list(range(n)), 'blocks')
                if m >= total:
                    eq(len(a.block), 1, 'one block is enough')
                verify(a, range(ND), range(n), range(NP), 'memory')
            ck.check(f'{n} samples, {m} bytes of {total}', case)


def packing(ck):
    """pack and unpack are those of the detectors, for every removed detector and every argument."""
    from pyoperators import MPI
    from pysimulators import PackedTable, Sampling, Scene
    Instr, Acquisition = classes()
    for shape in ((4,), (2, 2)):
        for bits in itertools.product((False, True), repeat=4):
            sel = np.flatnonzero(bits)

            def case():
                det = PackedTable(shape, selection=np.array(bits).reshape(shape))
                a = Acquisition(Instr(det), Sampling(2, period=1.), Scene(2), comm=MPI.COMM_SELF)
                eq(a.instrument.detector.index.tolist(), sel.tolist(), 'selected detectors')
                x = np.arange(8.).reshape(*shape, 2)
                exp = x.reshape(4, 2)[sel]
                same_array(a.pack(x), exp, 'pack')
                out = np.zeros((len(sel), 2))
                r = a.pack(x, out=out)
                same_array(out, exp, 'pack in a buffer')
                c = a.pack(x, copy=True)
                same_array(c, exp, 'pack with a copy')
                require(not np.may_share_memory(c, x), 'pack(copy=True) is a copy')
                for missing in (None, -1., 0.):
                    u = a.unpack(exp, missing_value=missing)
                    e = np.full((4, 2), np.nan if missing is None else missing)
                    e[sel] = exp
                    same_array(u, e.reshape(*shape, 2), f'unpack, missing value {missing}')
                    o = np.zeros((*shape, 2))
                    a.unpack(exp, out=o, missing_value=missing)
                    same_array(o, e.reshape(*shape, 2), f'unpack in a buffer, missing value {missing}')
                u = a.unpack(exp, copy=True)
                require(not np.may_share_memory(u, exp), 'unpack(copy=True) is a copy')
            ck.check(f'{shape} {bits}', case)


def distributed(size):
    def scenario(ck):
        """Processes: the parts put together are the observation of one process, and the transpose sums them."""
        from mc.fakempi import explore
        sels = [None, Sel(0), Sel(slice(0, 1)), Sel(C, 0), Sel(C, slice(0, 1)), Sel(slice(None, None, -1), slice(None, None, -1)), Sel(..., slice(1, None)), Sel(C), Sel(0, C, 0)]
        for nd, ns in ((3, 4), (4, 3), (5, 5), (4, 8)):
            for nprocs in [k for k in range(1, size + 1) if size % k == 0]:
                for sel in sels:
                    for how in ('instrument', 'sampling') if sel is None else ('instrument',):
                        def body(comm):
                            k = {'nprocs_instrument': nprocs} if how == 'instrument' else {'nprocs_sampling': size // nprocs}
                            a = build(nd, ns, NP, comm=comm, **k)
                            eq((a.comm.size, a.instrument.comm.size, a.sampling.comm.size), (size, nprocs, size // nprocs), 'communicators')
                            idx = a.instrument.detector.index.tolist(), a.sampling.index.tolist(), list(range(NP))
                            out = [idx, None, None, None]
                            if sel is not None and nd >= nprocs and ns >= size // nprocs:
                                b = a[sel.key()]
                                i2 = sel.apply(idx)
                                check(b, i2)
                                k = sel.key() if isinstance(sel.key(), tuple) else (sel.key(),)
                                local = [_ != slice(None) and _ is not Ellipsis for _ in (*k[:2], C, C)[:2]]
                                if k[0] is Ellipsis:
                                    local = [False, False]
                                sizes = [1 if l else n for l, n in zip(local, (nprocs, size // nprocs))]
                                eq((b.instrument.comm.size, b.sampling.comm.size, b.comm.size), (*sizes, sizes[0] * sizes[1]), 'communicators of the restricted acquisition')
                                H = b.get_operator()
                                z = 1. + np.arange(len(i2[2]))
                                out[3] = local, i2, H.T(H(z))
                            x = 1. + np.arange(NP)
                            if idx[0] and idx[1]:
                                H = a.get_operator()
                                y = H(x)
                                same_array(y, response(*idx) @ x, 'local observation', rtol=1e-12)
                                same_array(a.get_observation(x), y + noise(*idx[:2]), 'local noisy observation', rtol=1e-12)
                                same_array(a.get_invntt_operator()(np.ones_like(y)), 1 / noise(*idx[:2]), 'local covariance', rtol=1e-12)
                                if nd >= nprocs and ns >= size // nprocs:
                                    out[1] = H.T(y)
                                out[2] = y
                            return out

                        def check(b, i):
                            x = 1. + np.arange(len(i[2]))
                            y = b.get_operator()(x)
                            same_array(y, response(*i) @ x, 'restricted observation', rtol=1e-12)
                            eq((b.instrument.detector.index.tolist(), b.sampling.index.tolist(), b.scene.index.tolist()), i, 'restricted components')

                        def verdict(res):
                            x = 1. + np.arange(NP)
                            w = response(range(nd), range(ns), range(NP))
                            y = np.full((nd, ns), np.nan)
                            n = np.zeros((nd, ns), int)
                            for idx, _, loc, _ in res:
                                g = np.ix_(idx[0], idx[1])
                                n[g] += 1
                                if loc is not None:
                                    y[g] = loc
                            eq(n.tolist(), np.ones((nd, ns), int).tolist(), 'each sample of each detector is in one process')
                            same_array(y, w @ x, 'gathered observation', rtol=1e-12)
                            for k, (_, _, _, restricted) in enumerate(res):
                                if restricted is None:
                                    continue
                                local, (_, _, i), got = restricted
                                z, e = 1. + np.arange(len(i)), 0
                                for l, (_, _, _, other) in enumerate(res):
                                    if (not local[0] or k % nprocs == l % nprocs) and (not local[1] or k // nprocs == l // nprocs):
                                        w_ = response(*other[1])
                                        e = e + np.einsum('dtp,dt->p', w_, w_ @ z)
                                same_array(got, e, f'transpose of the restricted acquisition of rank {k}', rtol=1e-12)
                            for r in res:
                                if r[1] is not None:
                                    same_array(r[1], np.einsum('dtp,dt->p', w, w @ x), 'transpose', rtol=1e-12)

                        def case():
                            st = explore(size, body, verdict, tick=ck.tick_case, cap=100000)
                            ck.count('schedules', st['executions'])
                            ck.transitions += st['events']
                        ck.check(f'{size} processes {nd} x {ns}, {nprocs} for the instrument ({how}), {sel}', case)
        for k in (-1, 0, size + 1, *(k for k in range(1, size) if size % k)):
            for how in ('nprocs_instrument', 'nprocs_sampling'):
                ck.check(f'{how}={k} on {size}', lambda: explore(size, lambda c: build(comm=c, **{how: k}), None, expect_error=ValueError) and None)
    return scenario


def refusals(ck):
    """Every combination of components of the wrong type, blocks that are not lists of slices, invalid selections."""
    from pyoperators import MPI
    from pysimulators import Acquisition, Instrument, Sampling, Scene
    good = lambda: [build().instrument, Sampling(NS), Scene(NP)]
    wrong = [None, 3, 'a', *good()]
    for pos in itertools.product(range(len(wrong) + 1), repeat=3):
        def case():
            args = good()
            for i, k in enumerate(pos):
                if k:
                    args[i] = wrong[k - 1]
            if all(isinstance(a, k) for a, k in zip(args, (Instrument, Sampling, Scene))):
                a = Acquisition(*args, comm=MPI.COMM_SELF)
                eq([len(a.instrument), len(a.sampling), len(a.scene)], [ND, NS, NP], 'components')
            else:
                raises(TypeError, Acquisition, *args, comm=MPI.COMM_SELF)
        ck.check(f'components {pos}', case)
    for b in ('a', 3, slice(0, 4), [3], [slice(0, 2), 3], ((0, 2), (2, 4)), {slice(0, 4): 1}, [None]):
        ck.check(f'block {b!r}', raises, TypeError, lambda: build(block=b))
    for x in ((0, 0, 0, 0), (slice(None),) * 4):
        ck.check(f'selection {x}', raises, ValueError, lambda: build()[x])

    def noise_out():
        raises(ValueError, build().get_noise, operation=operator.iadd)
    ck.check('noise added to nothing', noise_out)


def frozen(func):
    def scenario(ck):
        # the acquisitions collect the garbage, which is quicker without the objects of the imported modules
        import gc
        import pysimulators     # noqa
        gc.freeze()
        func(ck)
    return scenario


def scenarios(tier):
    return [(name, frozen(f)) for name, f in _scenarios(tier)]


def _scenarios(tier):
    q = tier == 'quick'
    s = [(f'blocks {n}', blocks(n)) for n in ((4, 3, 2, 1) if q else (5, 4, 3, 2, 1))]
    depth = 2 if q else 3
    few = (None, [(0, 2), (2, 4)])
    s += [(f'histories {str(actions()[i])}', histories(i, depth, few)) for i in range(len(actions()))]
    s += [(f'distributed {k}', distributed(k)) for k in ((4, 3, 2, 1) if q else (6, 5, 4, 3, 2, 1))]
    return s + [('memory', memory), ('packing', packing), ('refusals', refusals)]
