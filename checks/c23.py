"""
C23: noise models have the requested spectrum and inverse covariance.
"""
import itertools
import operator
from contextlib import contextmanager

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C23'
TECHNIQUE = 'exhaustive enumeration of lengths, spectra of a basis and detectors; the noise generators, which are linear in their random numbers, are decided by running them on every vector of the basis of the random numbers'
NOTE = (
    'The random numbers are replaced by each vector of the canonical basis, which gives the whole matrix of the noise generator; its covariance is compared with the spectrum asked for. '
    'The covariance operators are compared as dense matrices with the inverse Fourier transform of the inverse spectrum, computed by a direct sum.'
)
BOUNDS = 'one- and two-sided spectra of 1 to 16 frequencies, 1 to 9 (quick) or 17 samples, 1 to 3 detectors, spectra that differ between detectors or not, every correlation length'


def fold(p):
    """One-sided spectrum, by summing the elements at opposite frequencies."""
    p = np.asarray(p, float)
    n = p.shape[-1]
    out = np.zeros(p.shape[:-1] + (n // 2 + 1,))
    for k in range(n):
        out[..., min(k, n - k)] += p[..., k]
    return out


def basis(n):
    """Even spectra of n frequencies."""
    for k in range(n // 2 + 1):
        v = np.zeros(n)
        v[k] = v[-k % n] = 1
        yield f'{k}', v
    g = np.arange(n)
    m = np.minimum(g, n - g)
    yield 'ramp', 1. + m
    yield 'squares', (m + 0.5) ** 2


def folding(n):
    def scenario(ck):
        from pysimulators.noises import _fold_psd, _unfold_psd
        for (name, v), dt, form in itertools.product(basis(n), ('f8', 'f4', 'i8'), ('array', 'list', 'batch', 'batch2')):
            def case():
                p = v.astype(dt)
                batch = {'batch': (2,), 'batch2': (2, 3)}.get(form, ())
                p = np.broadcast_to(p, batch + p.shape) * (1 + np.arange(int(np.prod(batch)))).reshape(batch + (1,)).astype(dt)
                if not batch:
                    p = p.reshape(-1)
                keep = p.copy()
                q = _fold_psd(p.tolist() if form == 'list' else p)
                same_array(q, fold(keep), 'folded spectrum', rtol=1e-6 if dt == 'f4' else 1e-15)
                same_array(q.sum(-1), keep.sum(-1).astype(float), 'power', rtol=1e-6)
                same_array(p, keep, 'input')
                if n % 2 == 0:
                    u = _unfold_psd(q.tolist() if form == 'list' else q)
                    same_array(u, keep.astype(float), 'unfolded spectrum', rtol=1e-6)
                    same_array(_fold_psd(u), q, 'folded again', rtol=1e-15)
            ck.check(f'{n} frequencies {name} {dt} {form}', case)
    return scenario


def interp(x, y, z):
    """Straight line through the neighbours of each z."""
    out = []
    for v in z:
        i = min(max(int(np.searchsorted(x, v)), 1), len(x) - 1)
        out.append(y[..., i - 1] + (y[..., i] - y[..., i - 1]) * (v - x[i - 1]) / (x[i] - x[i - 1]))
    return np.stack(out, -1) if out else np.zeros(y.shape[:-1] + (0,))


def loglog(f, bandwidth, psd):
    """One-sided spectrum at the frequencies f > 0, by its definition."""
    psd = np.asarray(psd, float)
    k = np.arange(1, psd.shape[-1] - 1) * bandwidth
    return np.exp(interp(np.log(k), np.log(psd[..., 1:-1]), np.log(f)))


def interpolation(ck):
    from pysimulators.noises import _interp, _logloginterp_psd
    grid = (-3., -1., 0., 0.5, 1., 2., 2.5, 4., 7.)
    for k in (2, 3, 4):
        for x in itertools.combinations((-1., 0., 1., 2.5, 4.), k):
            for nz in (1, 2, 3):
                for z in itertools.combinations(grid, nz):
                    def case():
                        y = np.array([(1 + i * i) % 5 for i in range(2 * k)], float).reshape(2, k)
                        e = interp(np.array(x), y, z)
                        same_array(_interp(z, x, y), e, 'batch', rtol=1e-13, atol=1e-13)
                        same_array(_interp(list(z), list(x), y[1].tolist()), e[1], 'one', rtol=1e-13, atol=1e-13)
                        out = np.zeros_like(e)
                        _interp(z, x, y, out=out)
                        same_array(out, e, 'buffer', rtol=1e-13, atol=1e-13)
                    ck.check(f'_interp {x} at {z}', case)
    for n, nf, fs, bw in itertools.product(range(4, 9), range(2, 12), (1., 5.), (0.25, 1., 3.)):
        for name, psd in spectra(n):
            def case():
                f = np.arange(nf) * fs / (2 * (nf - 1))
                got = _logloginterp_psd(f, bw, psd)
                exp = np.concatenate([np.asarray(psd, float)[..., :1], loglog(f[1:], bw, psd)], -1)
                # the power at the Nyquist frequency is not shared with the negative ones
                exp[..., -1] /= 2
                same_array(got, exp, 'interpolated spectrum', rtol=1e-10)
                out = np.zeros_like(exp)
                _logloginterp_psd(f, bw, psd, out=out)
                same_array(out, exp, 'in a buffer', rtol=1e-10)
            ck.check(f'{name} {n} frequencies by {bw} at {nf} up to {fs / 2}', case)


def spectra(n):
    k = np.arange(n)
    base = 1. / (1 + k) + 0.1 * (k % 3)
    yield 'white', np.full(n, 0.7)
    yield 'falling', base
    yield 'power law', np.r_[5., 2. * k[1:] ** -1.5]
    yield 'two', np.array([base, base[::-1] * 3])
    yield 'three', np.array([[base * 2], [base[::-1]], [np.full(n, 0.3)]])[:, 0]


@contextmanager
def numbers(values):
    """The random numbers are the given ones, in this order."""
    names = 'randn', 'standard_normal', 'normal', 'default_rng'
    saved = {k: getattr(np.random, k) for k in names}
    values = np.asarray(values, float)
    pos = [0]

    def take(shape):
        n = int(np.prod(shape))
        v = values[pos[0]:pos[0] + n]
        if len(v) != n:
            raise Mismatch(f'{pos[0] + n} random numbers are drawn, {len(values)} expected')
        pos[0] += n
        return v.reshape(shape).copy()

    class Rng:
        def standard_normal(self, size=None, dtype=None, out=None):
            return take(() if size is None else size)

        def normal(self, loc=0, scale=1, size=None):
            return loc + scale * take(np.shape(scale) if size is None else size)
    try:
        np.random.randn = lambda *shape: take(shape)
        np.random.standard_normal = lambda size=None: take(() if size is None else size)
        np.random.normal = Rng().normal
        np.random.default_rng = lambda *a: Rng()
        yield pos
    finally:
        for k, v in saved.items():
            setattr(np.random, k, v)


def matrix(n, func):
    """Matrix of a function linear in its n random numbers."""
    cols = []
    for i in range(n):
        with numbers(np.eye(n)[i]) as pos:
            cols.append(np.array(func(), float).ravel())
        eq(pos[0], n, 'random numbers drawn')
    return np.array(cols).T


def circulant(S, fs):
    """Covariance of a zero-mean noise of two-sided spectrum S."""
    n = len(S)
    S = np.r_[0., np.asarray(S, float)[1:]]
    k = np.arange(n)
    r = np.array([(S * np.cos(2 * np.pi * k * t / n)).sum() for t in range(n)]) * fs / n
    return np.array([[r[(i - j) % n] for j in range(n)] for i in range(n)])


def twosided(n, fs, sigma, fknee, fslope):
    k = np.arange(n)
    f = np.minimum(k, n - k) * fs / n
    f[0] = np.inf
    return sigma ** 2 * (1 + (fknee / f) ** fslope) / fs


def samples(n):
    def scenario(ck):
        from pysimulators.noises import _gaussian_psd_1f, _gaussian_sample, _sampling2psd
        for fs, sigma, fknee, fslope in itertools.product((1., 5.), (0.3, 2.), (0., 0.2, 3.), (1., 2., 0.5)):
            S = twosided(n, fs, sigma, fknee, fslope)

            def case():
                same_array(_gaussian_psd_1f(n, fs, sigma, fknee, fslope, twosided=True), S, 'two-sided', rtol=1e-13)
                same_array(_gaussian_psd_1f(n, fs, sigma, fknee, fslope), fold(S), 'one-sided', rtol=1e-13)
                s = _gaussian_psd_1f(n, fs, [sigma, 2 * sigma], [fknee, fknee / 2], [fslope, fslope], twosided=True)
                same_array(s, np.array([S, twosided(n, fs, 2 * sigma, fknee / 2, fslope)]), 'two detectors', rtol=1e-13)
                cov = circulant(S, fs)
                for two in (True, False):
                    a = matrix(n, lambda: _gaussian_sample(n, fs, S if two else fold(S), twosided=two))
                    same_array(a @ a.T, cov, f'covariance, twosided {two}', rtol=1e-10, atol=1e-12)
                    out = np.full(n, np.nan)
                    a2 = matrix(n, lambda: _gaussian_sample(n, fs, S if two else fold(S), twosided=two, out=out))
                    same_array(a2, a, 'in a buffer')
                b = np.array([S, 3 * S])
                a = matrix(2 * n, lambda: _gaussian_sample(n, fs, b, twosided=True))
                same_array(a @ a.T, np.kron(np.diag([1, 3]), cov), 'covariance of two detectors', rtol=1e-10, atol=1e-12)
            ck.check(f'{n} samples at {fs}, sigma {sigma}, fknee {fknee}, slope {fslope}', case)
        if n > 1:
            for i, j in itertools.product(range(n), repeat=2):
                def case():
                    # quadratic forms are decided on the sums of two vectors of the basis
                    v = (np.eye(n)[i] + np.eye(n)[j]) * 1.
                    freq, psd = _sampling2psd(v, 5.)
                    k = np.arange(n)
                    F = np.array([abs((v * np.exp(-2j * np.pi * k * m / n)).sum()) ** 2 for m in range(n)])
                    e = fold(F) / (n * 5.)
                    e[0] = 0
                    same_array(psd, e, 'spectrum', rtol=1e-12, atol=1e-14)
                    same_array(freq, np.arange(n // 2 + 1) * 5. / n, 'frequencies', rtol=1e-14)
                    same_array(psd.sum() * 5. / n, v.var(), 'power', rtol=1e-12)
                ck.check(f'spectrum of samples {i} and {j} of {n}', case)
    return scenario


def table(nd, n, period):
    from pysimulators import Instrument, PackedTable, Sampling
    return Instrument(PackedTable(nd)), Sampling(n, period=period)


def models(nd):
    """(keywords, two-sided spectra of the detectors for n samples and a period)"""
    def gauss(sigma, fknee, fslope):
        return lambda n, T: np.broadcast_to(np.array([twosided(n, 1 / T, s, k, a) for s, k, a in np.broadcast(*np.atleast_1d(sigma, fknee, fslope))]), (nd, n))

    def given(psd, bw, two):
        def func(n, T):
            p = fold(psd) if two else np.asarray(psd, float)
            k = np.arange(1, n)
            s = loglog(np.minimum(k, n - k) / (n * T), bw, p) / 2
            return np.broadcast_to(np.concatenate([s[..., :1], s], -1) if n > 1 else np.ones(s.shape[:-1] + (1,)), (nd, n))
        return func
    many = 0.2 + 0.3 * np.arange(nd)
    for fknee, fslope in ((0.1, 1.), (2., 1.5)):
        yield f'sigma fknee={fknee} {fslope}', {'sigma': 0.4, 'fknee': fknee, 'fslope': fslope}, gauss(0.4, fknee, fslope), True
        yield f'sigmas fknee={fknee} {fslope}', {'sigma': many, 'fknee': fknee, 'fslope': fslope}, gauss(many, fknee, fslope), True
        yield f'nep fknee={fknee}', {'nep': 0.4, 'fknee': fknee, 'fslope': fslope}, lambda n, T, a=fknee, b=fslope: gauss(0.4 / np.sqrt(2 * T), a, b)(n, T), True
    yield 'fknees', {'sigma': many, 'fknee': many * 2, 'fslope': 1 + many}, gauss(many, many * 2, 1 + many), True
    yield 'sigma', {'sigma': 0.4}, gauss(0.4, 0, 1), False
    yield 'sigmas', {'sigma': many}, gauss(many, 0, 1), False
    yield 'neps', {'nep': many}, lambda n, T: gauss(many / np.sqrt(2 * T), 0, 1)(n, T), False
    for m in (4, 5, 6, 7):
        k = np.arange(m)
        one = 1. / (1 + k) + 0.3 * (k % 2)
        for bw in (0.1, 1.):
            yield f'psd {m} {bw}', {'psd': one, 'bandwidth': bw}, given(one, bw, False), True
            yield f'psds {m} {bw}', {'psd': np.outer(1 + np.arange(nd), one), 'bandwidth': bw}, given(np.outer(1 + np.arange(nd), one), bw, False), True
            g = np.minimum(np.arange(2 * m - 2), 2 * m - 2 - np.arange(2 * m - 2))
            two = 1. / (1 + g) + 0.3 * (g % 2)
            yield f'two-sided {m} {bw}', {'psd': two, 'bandwidth': bw, 'twosided': True}, given(two, bw, True), True


def noise(nd, n):
    def scenario(ck):
        for T in (1., 0.2):
            for name, kw, spectrum, correlated in models(nd):
                def case():
                    ins, sam = table(nd, n, T)
                    S = spectrum(n, T)
                    if correlated:
                        cov = np.zeros((nd * n, nd * n))
                        for d in range(nd):
                            cov[d * n:(d + 1) * n, d * n:(d + 1) * n] = circulant(S[d], 1 / T)
                    else:
                        cov = np.diag(np.repeat(S[:, -1] / T, n))
                    a = matrix(nd * n, lambda: ins.get_noise(sam, **kw))
                    same_array(a @ a.T, cov, 'covariance', rtol=1e-9, atol=1e-12 * max(1, abs(cov).max()))
                    v = np.arange(nd * n) % 5 - 2.
                    y = (a @ v).reshape(nd, n)
                    for op in (None, operator.iadd, operator.isub, operator.imul):
                        out = 1. + np.arange(nd * n).reshape(nd, n)
                        e = y if op is None else op(out.copy(), y)
                        with numbers(v):
                            r = ins.get_noise(sam, out=out, **kw, **({} if op is None else {'operation': op}))
                        require(r is out, 'the buffer is returned')
                        same_array(out, e, f'noise in a buffer with {op}', rtol=1e-9, atol=1e-10)
                    big = np.full((2 * nd, 2 * n), 7.)
                    with numbers(v):
                        ins.get_noise(sam, out=big[::2, ::2], **kw)
                    same_array(big[::2, ::2], y, 'noise in a strided buffer', rtol=1e-9, atol=1e-10)
                    require((big[1::2] == 7).all() and (big[:, 1::2] == 7).all(), 'nothing else is written')
                ck.check(f'{nd} detectors, {n} samples of {T}: {name}', case)
        ins, sam = table(nd, n, 1.)
        for kw in ({}, {'psd': np.ones(5)}, {'bandwidth': 1.}, {'fknee': 1.}):
            ck.check(f'{nd} {n} {sorted(kw)} is rejected', lambda: raises(ValueError, ins.get_noise, sam, **kw) if False else raises(ValueError, lambda: ins.get_noise(sam, **kw)))
            ck.check(f'{nd} {n} {sorted(kw)} is rejected (covariance)', lambda: raises(ValueError, lambda: ins.get_invntt_operator(sam, **kw)))
        ck.check(f'{nd} {n} operation without buffer', lambda: raises(ValueError, lambda: ins.get_noise(sam, sigma=1., operation=operator.iadd)))
    return scenario


def covariance(nd, n):
    def scenario(ck):
        size = 2
        while size < n:
            size *= 2
        for T in (1., 0.2):
            for name, kw, spectrum, correlated in models(nd):
                for ncorr in (None, *range(0, n)):
                    def case():
                        ins, sam = table(nd, n, T)
                        c = n - 1 if ncorr is None else ncorr
                        op = ins.get_invntt_operator(sam, ncorr=ncorr, **kw)
                        eq((op.shapein, op.shapeout), ((nd, n), (nd, n)), 'shape')
                        S = np.array(spectrum(size, T))
                        if correlated:
                            # the power at the null frequency is that of the first one
                            S[:, 0] = S[:, 1]
                            k = np.arange(size)
                            row = np.array([[(np.cos(2 * np.pi * k * t / size) * T / s).sum() / size for t in range(c + 1)] for s in S])
                            row[:, 1:] = row[:, 1:]
                        else:
                            row = np.zeros((nd, c + 1))
                            row[:, 0] = T / S[:, -1]
                        m = np.zeros((nd * n, nd * n))
                        for d in range(nd):
                            for i in range(n):
                                for j in range(n):
                                    if abs(i - j) <= c:
                                        m[d * n + i, d * n + j] = row[d, abs(i - j)]
                        got = op.todense()
                        same_array(got, m, 'dense matrix', rtol=1e-9, atol=1e-12 * abs(m).max())
                        same_array(op.T.todense(), got.T, 'transpose', rtol=1e-12, atol=1e-14 * abs(m).max())
                        x = 1. + np.arange(nd * n).reshape(nd, n) % 3
                        keep = x.copy()
                        same_array(op(x).ravel(), m @ x.ravel(), 'product', rtol=1e-9, atol=1e-12 * abs(m).max() * n)
                        same_array(x, keep, 'input')
                    ck.check(f'{nd} detectors, {n} samples of {T}: {name}, ncorr {ncorr}', case)
    return scenario


def scenarios(tier):
    q = tier == 'quick'
    s = []
    ns = range(1, 10) if q else range(1, 18)
    for n in reversed(ns):
        for nd in (1, 2, 3):
            if q and nd == 3 and n > 5:
                continue
            s.append((f'noise {nd} x {n}', noise(nd, n)))
            s.append((f'covariance {nd} x {n}', covariance(nd, n)))
        s.append((f'samples {n}', samples(n)))
    return s + [(f'folding {n}', folding(n)) for n in range(1, 17)] + [('interpolation', interpolation)]
