"""Plain-Python reference of the sparse storages: a matrix is the list of its stored blocks."""
import itertools

import numpy as np

KINDS = ['plain', 'rot2d', 'rot3d'] + [('block', b) for b in itertools.product((1, 2, 3), repeat=2) if b != (1, 1)]


def block_shape(kind):
    return {'plain': (1, 1), 'rot2d': (2, 2), 'rot3d': (3, 3)}.get(kind) or kind[1]


def fields(kind, vt):
    if kind == 'plain':
        return [('value', vt)]
    if kind == 'rot2d':
        return [('r11', vt), ('r21', vt)]
    if kind == 'rot3d':
        return [('r11', vt), ('r22', vt), ('r32', vt)]
    return [('value', vt, kind[1])]


def storage(kind, idx, it, vt, seed=1, zero=None):
    """Structured array of the entries; its blocks are those of the row storage (of the transpose for column storage)."""
    idx = np.asarray(idx)
    d = np.zeros(idx.shape, [('index', it)] + fields(kind, vt))
    d['index'] = idx
    for k, f in enumerate(d.dtype.names[1:]):
        s = d[f].shape
        n = int(np.prod(s))
        v = (np.arange(n) * (3 + k) + seed) % 7 - 3 + (k + 1)
        if np.dtype(vt).kind == 'u':
            v = abs(v)
        v = v.reshape(s)
        if np.dtype(vt).kind == 'c':
            v = v + 1j * ((np.arange(n).reshape(s) % 3) - 1)
        d[f] = v
        if zero is not None:
            d[f].reshape(idx.size, -1)[zero] = 0
    return d


def blocks(kind, d):
    """The dense blocks of the row storage, by entry."""
    out = []
    for e in np.asarray(d).reshape(-1):
        if kind == 'plain':
            b = [[e['value']]]
        elif kind == 'rot2d':
            b = [[e['r11'], -e['r21']], [e['r21'], e['r11']]]
        elif kind == 'rot3d':
            b = [[e['r11'], 0, 0], [0, e['r22'], -e['r32']], [0, e['r32'], e['r22']]]
        else:
            b = e['value']
        out.append(np.array(b))
    return out


def dense(kind, d, ncols):
    """Dense matrix of the row storage with entries d[row, k] and ncols block columns."""
    br, bc = block_shape(kind)
    d = np.asarray(d)
    n, nmax = int(np.prod(d.shape[:-1])), d.shape[-1]
    out = np.zeros((n * br, ncols * bc), complex if d.dtype[1].base.kind == 'c' else float)
    bl = blocks(kind, d)
    idx = d['index'].reshape(-1)
    for r in range(n):
        for k in range(nmax):
            e = r * nmax + k
            c = int(idx[e])
            if 0 <= c:
                out[r * br:(r + 1) * br, c * bc:(c + 1) * bc] += bl[e]
    return out


def make(kind, fmt, d, ncols):
    """The matrix of the package: row storage of d, or column storage whose transpose it is."""
    from pysimulators import sparse as sp
    br, bc = block_shape(kind)
    n = int(np.prod(d.shape[:-1]))
    name = {'plain': '', 'rot2d': 'Rotation2d', 'rot3d': 'Rotation3d'}.get(kind, 'Block')
    shape = (n * br, ncols * bc)
    if fmt == 'fsr':
        return getattr(sp, f'FSR{name}Matrix')(shape, data=d)
    return getattr(sp, f'FSC{name}Matrix')(shape[::-1], data=d)


def patterns(n, nmax, ncols, negative=True):
    return itertools.product(range(-1 if negative else 0, ncols), repeat=n * nmax)


def vector(n, vt, seed=0):
    k = np.dtype(vt).kind
    v = (np.arange(n) * 2 + seed) % 5 - (0 if k in 'ub' else 2) + 1
    if k == 'b':
        return (v % 2).astype(bool)
    if k == 'c':
        return (v + 1j * (np.arange(n) % 3 - 1)).astype(vt)
    return v.astype(vt)
