"""
C02: sparse operators apply exactly the linear map of their stored entries.

All the matrices of small shapes are enumerated (every pattern of indices, negative and repeated ones included) for every
storage; each is applied through every route of the public API and compared with the dense sum of its entries, on
integers, so that the comparison is exact.
"""
import itertools
import operator

import numpy as np

from mc.harness import Mismatch, eq, require, same_array
from . import sparse_model as M

PID = 'C02'
TECHNIQUE = 'bounded exhaustive enumeration of matrices and application routes, each executed on the implementation against a dense reference model'
NOTE = (
    'Every matrix of the bounded shapes, index pattern, storage and number type is executed through every application route; arithmetic '
    'is exact (small integers), so that accuracy on ill-conditioned values and larger shapes are outside the bounds.'
)
BOUNDS = (
    '8 storages and 8 block shapes; 1 to 3 block rows, 0 to 2 entries per row, 1 to 3 block columns, every index pattern in '
    '{-1..ncols-1}; index types int8-64 and uint8-64, value types float16-64, int32, complex128, vector types '
    'float16-64, int, bool, complex; routes: product, left product, output given, operator, transpose, todense, accumulation, extra dimensions'
)


def expected_dtype(mat, x):
    return np.result_type(mat.dtype, x.dtype)


def routes(kind, fmt, d, ncols, vt, full):
    mat = M.make(kind, fmt, d, ncols)
    D = M.dense(kind, d, ncols)
    if fmt == 'fsc':
        D = D.T
    eq(mat.shape, D.shape, 'shape')
    before = d.copy()
    x = M.vector(D.shape[1], vt)
    y = M.vector(D.shape[0], vt, 1)
    x0 = x.copy()
    same_array(mat * x, D @ x, 'mat * x', dtype=expected_dtype(mat, x))
    same_array(y * mat, D.T @ y, 'y * mat')
    if full:
        if np.result_type(mat.dtype, x.dtype).kind == 'c':
            ots = (complex,)
        elif x.dtype.itemsize < 8:
            ots = (np.float64, x.dtype if x.dtype.kind == 'f' else np.float32)
        else:
            ots = (np.float64, np.float32)
        for ot in ots:
            out = (np.arange(D.shape[0]) + 5).astype(ot)
            r = mat._matvec(x, out)
            same_array(out, D @ x + np.arange(D.shape[0]) + 5, f'accumulated output {np.dtype(ot)}', dtype=ot)
        m3 = mat * 3
        same_array(m3 * x, 3 * (D @ x), '(mat * 3) * x')
        m3 = 3 * mat
        same_array(m3 * x, 3 * (D @ x), '(3 * mat) * x')
        c = mat.copy()
        same_array(c * x, D @ x, 'copy')
        if d.size:
            c.data.index[...] = 0
        same_array(mat * x, D @ x, 'after modification of a copy')
    require(np.array_equal(x, x0), 'the input is modified')
    require(before.tobytes() == d.tobytes(), 'the matrix is modified')


def operators(kind, fmt, d, ncols, vt, extra):
    from pysimulators.sparse import SparseOperator
    br, bc = M.block_shape(kind)
    mat = M.make(kind, fmt, d, ncols)
    D = M.dense(kind, d, ncols)
    if fmt == 'fsc':
        D = D.T
        br, bc = bc, br
    op = SparseOperator(mat)
    n, m = D.shape
    sin = (m,) if bc == 1 else (m // bc, bc)
    sout = (n,) if br == 1 else (n // br, br)
    if extra:
        sin, sout = sin + (extra,), sout + (extra,)
    e = extra or 1
    x = M.vector(m * e, vt).reshape(sin)
    y = M.vector(n * e, vt, 1).reshape(sout)
    Dx = (D @ x.reshape(m, e)).reshape(sout)
    Dy = (D.T @ y.reshape(n, e)).reshape(sin)
    same_array(op(x), Dx, 'op(x)')
    same_array(op.T(y), Dy, 'op.T(y)')
    same_array(op.T.T(x), Dx, 'op.T.T(x)')
    f = np.result_type(op.dtype, x.dtype)
    out = np.full(sout, 77, f)
    op(x, out)
    same_array(out, Dx, 'op(x, out)')
    op(x, out, operation=operator.iadd)
    same_array(out, 2 * Dx, 'op(x, out, iadd)')
    outT = np.full(sin, 77, f)
    op.T(y, outT)
    same_array(outT, Dy, 'op.T(y, out)')
    full = np.kron(D, np.eye(e))
    kw = {'shapein': sin} if kind == 'plain' else {}
    same_array(op.todense(**kw), full, 'todense')
    kw = {'shapein': sout} if kind == 'plain' else {}
    same_array(op.T.todense(**kw), full.T, 'T.todense')
    if not extra:
        op2 = SparseOperator(mat, shapein=sin, shapeout=sout)
        same_array(op2(x), Dx, 'explicit shapes')
        same_array(op2.T(y), Dy, 'explicit shapes T')
        same_array(op2.T.todense(), D.T, 'explicit shapes T.todense')
        same_array(op2.todense(inplace=True), D, 'todense inplace')
        xs = np.zeros((2,) + sin, x.dtype)[1]
        big = np.zeros(sin[:-1] + (2 * sin[-1],), x.dtype)
        big[..., ::2] = x
        same_array(op(big[..., ::2]), Dx, 'strided input')
        same_array((2 * op)(x), 2 * Dx, '2 * op')
        same_array((op + op)(x), 2 * Dx, 'op + op')
        same_array((op.T * op)(x), D.T @ (D @ x.reshape(-1)) if sin == (m,) else (D.T @ (D @ x.reshape(-1))).reshape(sin), 'op.T * op')
    require(np.array_equal(np.asarray(mat.data), d), 'the matrix is modified')


def multidim(kind, fmt, d, ncols, shapein, shapeout, vt):
    """Homothety matrices with input and output shapes of several dimensions."""
    from pysimulators.sparse import SparseOperator
    mat = M.make(kind, fmt, d, ncols)
    D = M.dense(kind, d, ncols)
    if fmt == 'fsc':
        D = D.T
    n, m = D.shape
    op = SparseOperator(mat, shapein=shapein, shapeout=shapeout)
    x = M.vector(int(np.prod(shapein)), vt).reshape(shapein)
    e = x.size // m
    so = shapeout
    Dx = (D @ x.reshape(m, e)).reshape(so)
    same_array(op(x), Dx, 'op(x)')
    y = M.vector(Dx.size, vt, 3).reshape(so)
    Dy = (D.T @ y.reshape(n, e)).reshape(shapein)
    same_array(op.T(y), Dy, 'op.T(y)')
    same_array(op.todense(), np.kron(D, np.eye(e)), 'todense')
    same_array(op.T.todense(), np.kron(D, np.eye(e)).T, 'T.todense')


def shapes(quick, kind):
    big = kind in ('plain', 'rot2d', 'rot3d')
    for n, nmax, m in itertools.product((1, 2, 3), (0, 1, 2), (1, 2, 3)):
        k = (m + 1) ** (n * nmax)
        if k <= (81 if quick else 4096) and (n * nmax <= 4 or not quick):
            yield n, nmax, m


def name(kind):
    return kind if isinstance(kind, str) else 'block%dx%d' % kind[1]


def every_pattern(kind, fmt):
    def scenario(ck):
        for n, nmax, m in shapes(ck.quick, kind):
            for p in M.patterns(n, nmax, m):
                idx = np.array(p, int).reshape(n, nmax)
                for it, vt, xt in (('i4', 'f8', 'f8'), ('i8', 'f4', 'f4'), ('i2', 'f8', 'f8'), ('i4', 'f4', 'f8')):
                    d = M.storage(kind, idx, it, vt)
                    ck.check(f'{n}x{m} {p} {it} {vt} {xt}', routes, kind, fmt, d, m, xt, True, steps=8)
                    if it in ('i4', 'i2'):
                        ck.check(f'operator {n}x{m} {p} {it} {vt} {xt}', operators, kind, fmt, d, m, xt, 0, steps=14)
    return scenario


# patterns of the type product in the quick tier: unused, repeated, reversed, increasing and mixed entries
TYPE_PATTERNS = [(-1, -1, -1, -1), (-1, 1, 0, -1), (0, 0, 0, 0), (1, 0, 0, 1), (1, 1, 0, 1), (0, -1, 1, 1), (-1, 0, 1), (0, 0, 0), (1, 0, 1), (1, 1, -1)]


def every_type(kind, fmt):
    its = ('i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8')
    vts = ('f2', 'f4', 'f8', 'i4', 'c16')
    xts = ('f2', 'f4', 'f8', 'i4', 'i8', 'u1', '?', 'c16', 'c8', 'f16')

    def scenario(ck):
        for it, vt, xt in itertools.product(its, vts, xts):
            neg = it[0] == 'i'
            for n, nmax, m in ((2, 1, 2), (2, 2, 3), (3, 1, 1)) if not ck.quick else ((2, 2, 2), (3, 1, 2)):
                pats = list(M.patterns(n, nmax, m, neg))
                for p in pats if not ck.quick else [q for q in TYPE_PATTERNS if q in pats]:
                    d = M.storage(kind, np.array(p).reshape(n, nmax), it, vt)
                    ck.check(f'{n}x{m} {p} {it} {vt} {xt}', routes, kind, fmt, d, m, xt,
                             vt in ('f4', 'f8') and xt in ('f4', 'f8', 'i8', 'c16'), steps=2)
                    if ck.quick and it not in ('i2', 'i4', 'i8', 'u4'):
                        continue
                    if vt in ('f4', 'f8', 'c16', 'i4') and xt in ('f4', 'f8', 'i8', 'c16'):
                        ck.check(f'operator {n}x{m} {p} {it} {vt} {xt}', operators, kind, fmt, d, m, xt, 0, steps=14)
    return scenario


def extra_dims(fmt):
    def scenario(ck):
        for n, nmax, m in ((1, 1, 1), (1, 1, 2), (2, 1, 2), (2, 2, 2), (3, 1, 2), (2, 1, 3)):
            for p in M.patterns(n, nmax, m):
                for it, vt, xt in (('i4', 'f8', 'f8'), ('i8', 'f4', 'f4'), ('i4', 'f4', 'f8'), ('i2', 'f8', 'f8')):
                    d = M.storage('plain', np.array(p).reshape(n, nmax), it, vt)
                    for e in (1, 2, 3):
                        ck.check(f'{n}x{m} {p} {it} {vt} {xt} extra={e}', operators, 'plain', fmt, d, m, xt, e, steps=10)
    return scenario


def multi_dims(fmt):
    def scenario(ck):
        for n, m, sin, sout in ((4, 2, (2,), (2, 2)), (2, 4, (2, 2), (2,)), (4, 4, (2, 2), (2, 2)), (4, 4, (2, 2, 2), (2, 2, 2)),
                                (2, 4, (2, 2, 3), (2, 3)), (4, 2, (2, 3), (2, 2, 3)), (1, 2, (2, 1), (1, 1)), (2, 1, (1, 1), (2, 1)),
                                (2, 2, (2, 1), (2, 1)), (2, 2, (2, 2, 2), (2, 2, 2)), (6, 6, (2, 3), (3, 2)), (1, 1, (1, 2), (1, 2))):
            rows, cols = (n, m) if fmt == 'fsr' else (m, n)
            # the largest shapes have their indices in a smaller set
            big = (cols + 1) ** rows > (300 if ck.quick else 5000)
            pats = itertools.product((-1, 0, cols // 2, cols - 1) if big and not ck.quick else (-1, 0, cols - 1) if big else range(-1, cols), repeat=rows)
            for p in pats:
                d = M.storage('plain', np.array(p).reshape(rows, 1), 'i4', 'f8')
                ck.check(f'{sin} {sout} {p}', multidim, 'plain', fmt, d, cols, sin, sout, 'f8', steps=4)
    return scenario


def allocated(ck):
    """Matrices created without their entries have room for exactly those of their rows (or columns), and hold what is then stored."""
    from pysimulators import sparse

    def case(kind, fmt, n, nmax, m, it, vt, pattern, given):
        d = M.storage(kind, np.array(pattern, int).reshape(n, nmax), it, vt)
        ref = M.make(kind, fmt, d, m)
        br, bc = M.block_shape(kind)
        shape = (n * br, m * bc)
        if fmt == 'fsc':
            shape = shape[::-1]
        name = fmt.upper() + {'plain': '', 'rot2d': 'Rotation2d', 'rot3d': 'Rotation3d'}.get(kind, 'Block') + 'Matrix'
        k = {'ncolmax' if fmt == 'fsr' else 'nrowmax': nmax}
        if given:
            k.update(dtype=np.dtype(vt), dtype_index=np.dtype(it))
        if not isinstance(kind, str):
            k['block_shape'] = (br, bc) if fmt == 'fsr' else (bc, br)
        mat = getattr(sparse, name)(shape, **k)
        eq((mat.data.shape, mat.data.dtype.names), ((n, nmax), d.dtype.names), 'room')
        eq((mat.shape, mat.block_shape, mat.dtype), (ref.shape, ref.block_shape, ref.dtype), 'matrix')
        eq([mat.data.dtype[f] for f in d.dtype.names], [d.dtype[f] for f in d.dtype.names], 'types')
        for f in d.dtype.names:
            mat.data[f] = d[f]
        D = M.dense(kind, d, m)
        D = D if fmt == 'fsr' else D.T
        x, y = M.vector(D.shape[1], vt), M.vector(D.shape[0], vt, 3)
        same_array(mat * x, D @ x, 'mat * x')
        same_array(y * mat, y @ D, 'x * mat')
        c = mat.copy()
        for f in d.dtype.names:
            c.data[f] = 0
        same_array(mat * x, D @ x, 'after its copy has changed')

    for kind in M.KINDS:
        for fmt in ('fsr', 'fsc'):
            for n, nmax, m in shapes(True, kind):
                if n * nmax > (2 if ck.quick else 4):
                    continue
                for pattern in M.patterns(n, nmax, m):
                    for it, vt, given in ((np.dtype(int).str, 'f8', False), ('i4', 'f4', True), ('i8', 'f8', True)):
                        ck.check(f'{fmt} {name(kind)} {n}x{m} {pattern} {it} {vt} {given}', case, kind, fmt, n, nmax, m, it, vt, pattern, given, steps=3)


def no_dimension(ck):
    """Matrices without rows or without columns."""
    from pysimulators import sparse
    for fmt in ('fsr', 'fsc'):
        for n, m in ((0, 0), (0, 1), (0, 3), (1, 0), (3, 0)):
            for nmax in (0, 1, 2):
                for it, vt, xt in (('i4', 'f8', 'f8'), ('i8', 'f4', 'f4'), ('i2', 'f8', 'c16')):
                    def case():
                        cls = sparse.FSRMatrix if fmt == 'fsr' else sparse.FSCMatrix
                        mat = cls((n, m), dtype=vt, dtype_index=it, **{'ncolmax' if fmt == 'fsr' else 'nrowmax': nmax})
                        mat.data['index'] = -1
                        same_array(mat * np.ones(m, xt), np.zeros(n), 'mat * x')
                        same_array(np.ones(n, xt) * mat, np.zeros(m), 'x * mat')
                        out = np.ones(n)
                        mat._matvec(np.ones(m), out)
                        same_array(out, np.ones(n), 'accumulated')
                        op = sparse.SparseOperator(mat, shapein=(m,), shapeout=(n,))
                        same_array(op(np.ones(m)), np.zeros(n), 'operator')
                        same_array(op.T(np.ones(n)), np.zeros(m), 'transpose')
                        same_array(op.todense(), np.zeros((n, m)), 'todense')
                    ck.check(f'{fmt} {n}x{m} {nmax} {it} {vt} {xt}', case)


def scenarios(tier):
    s = [('no rows or columns', no_dimension), ('allocated', allocated)]
    for kind in M.KINDS:
        for fmt in ('fsr', 'fsc'):
            s.append((f'patterns {fmt} {name(kind)}', every_pattern(kind, fmt)))
            s.append((f'types {fmt} {name(kind)}', every_type(kind, fmt)))
    for fmt in ('fsr', 'fsc'):
        s.append((f'extra dimensions {fmt}', extra_dims(fmt)))
        s.append((f'several dimensions {fmt}', multi_dims(fmt)))
    return s
