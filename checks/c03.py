"""
C03: operators derived from a sparse matrix agree with its dense matrix.

Every history of derivations (restrictions and corestrictions, in place or not, interleaved with accesses to the transpose)
up to a depth is executed on every matrix of small shapes; after each step every live operator is compared with its dense
matrix, and the derived quantities (kernel, P^T P, P^T 1, P^T x) with theirs.
"""
import itertools
import operator

import numpy as np

from mc.harness import eq, raises, require, same_array
from . import sparse_model as M

PID = 'C03'
TECHNIQUE = 'explicit-state enumeration of derivation histories executed on the implementation in lockstep with a dense reference model'
NOTE = (
    'All histories up to the depth are executed on all index patterns of the bounded shapes; unsigned index types are excluded from the restrictions '
    '(a removed entry cannot be represented), arithmetic is exact.'
)
BOUNDS = (
    'row storages (plain, blocks, 2-d and 3-d rotations); 1 to 3 block rows, 1 or 2 entries per row, 1 to 3 block columns, every index pattern up to the '
    'order of the rows and of the entries of a row; '
    'every mask; histories of up to 2 (quick) or 3 (thorough) derivations among restrict, corestrict, in place or not, and accesses to the transpose; '
    'every product of two operators of 9 patterns'
)


class Live:
    """An operator and its dense matrix, with its entries to derive what depends on the stored entries."""

    def __init__(self, op, kind, rows, ncols, sin=None, sout=None, extra=()):
        self.op, self.kind, self.rows, self.ncols = op, kind, rows, ncols
        self.extra = extra
        br, bc = M.block_shape(kind)
        n = len(rows)
        self.sin = sin or ((ncols,) if bc == 1 else (ncols, bc))
        self.sout = sout or ((n,) if br == 1 else (n, br))

    def dense(self):
        br, bc = M.block_shape(self.kind)
        out = np.zeros((len(self.rows) * br, self.ncols * bc))
        for r, row in enumerate(self.rows):
            for c, b in row:
                out[r * br:(r + 1) * br, c * bc:(c + 1) * bc] += b
        return out

    def restricted(self, mask):
        new = np.cumsum(mask) - 1
        return [[(int(new[c]), b) for c, b in row if mask[c]] for row in self.rows], int(np.sum(mask))

    def verify(self, what):
        op, e = self.op, self.extra
        n = int(np.prod(e)) if e else 1
        D = self.dense()
        sin, sout = self.sin + e, self.sout + e
        eq(op.shapein, sin, what + ' shapein')
        eq(op.shapeout, sout, what + ' shapeout')
        eq(op.matrix.shape, D.shape, what + ' matrix shape')
        x = M.vector(D.shape[1] * n, op.dtype).reshape(sin)
        y = M.vector(D.shape[0] * n, op.dtype, 1).reshape(sout)
        if x.size and y.size:
            same_array(op(x), (D @ x.reshape(-1, n)).reshape(sout), what + ' direct')
            same_array(op.T(y), (D.T @ y.reshape(-1, n)).reshape(sin), what + ' transpose')
            same_array(op.todense(), np.kron(D, np.eye(n)), what + ' todense')


def start(kind, idx, ncols, it='i4', vt='f8', dtype=None, shapein=None, zero=None, extra=(), **kw):
    from pysimulators import ProjectionOperator
    d = M.storage(kind, idx, it, vt, zero=zero)
    br, bc = M.block_shape(kind)
    sin = shapein or ((ncols,) if bc == 1 else (ncols, bc))
    n = int(np.prod(d.shape[:-1]))
    sout = (n,) if br == 1 else (n, br)
    if extra:
        kw['shapeout'] = sout + extra
    op = ProjectionOperator(M.make(kind, 'fsr', d, ncols), shapein=sin + extra, dtype=dtype, **kw)
    bl = M.blocks(kind, d)
    rows = []
    i = 0
    for row in np.asarray(d['index']).reshape(n, -1):
        rows.append([])
        for c in row:
            if c >= 0:
                rows[-1].append((int(c), bl[i]))
            i += 1
    return Live(op, kind, rows, ncols, sin, sout, extra)


def actions(l, corestrict):
    for m in itertools.product((False, True), repeat=l.ncols):
        if any(m):
            for ip in (False, True):
                yield 'restrict', m, ip
    if corestrict:
        for m in itertools.product((False, True), repeat=len(l.rows)):
            if any(m):
                for ip in (False, True):
                    yield 'corestrict', m, ip


def apply(l, act):
    what, mask, ip = act
    mask = np.array(mask)
    _, bc = M.block_shape(l.kind)
    br, _ = M.block_shape(l.kind)
    if what == 'restrict':
        mk = mask.reshape(l.sin if bc == 1 else l.sin[:-1])
        rows, ncols = l.restricted(mask)
        op = l.op.restrict(mk, inplace=ip)
        return Live(op, l.kind, rows, ncols, (ncols,) if bc == 1 else (ncols, bc), l.sout, l.extra)
    mk = mask.reshape(l.sout if br == 1 else l.sout[:-1])
    op = l.op.corestrict(mk, inplace=ip)
    rows = [r for r, k in zip(l.rows, mask) if k]
    n = len(rows)
    return Live(op, l.kind, rows, l.ncols, l.sin, (n,) if br == 1 else (n, br), l.extra)


def history(make, acts, touch):
    l = make()
    live = [l]
    if touch:
        l.verify('start')
    for k, a in enumerate(acts):
        new = apply(l, a)
        if a[2]:
            live.remove(l)
        live.append(new)
        if touch or k == len(acts) - 1:
            for j, o in enumerate(live):
                o.verify(f'step {k} operator {j}')
        l = new
    derived(l)


def derived(l):
    op, kind = l.op, l.kind
    D = l.dense()
    br, bc = M.block_shape(kind)
    n, m = len(l.rows), l.ncols
    if not n or not m:
        return
    sp = l.sin if bc == 1 else l.sin[:-1]
    seen = np.zeros(m, bool)
    cov = np.zeros(m)
    for row in l.rows:
        for c, b in row:
            seen[c] |= bool(np.any(b != 0))
            if kind == 'rot2d':
                cov[c] += np.hypot(b[0, 0], b[1, 0])
            else:
                cov[c] += np.sum(b[:, 0])
    kernel = ~seen.reshape(sp)
    if not l.extra:
        same_array(op.canonical_basis_in_kernel(), kernel, 'kernel', dtype=bool)
        init = (np.arange(m) % 2 == 0).reshape(sp)
        for f in (operator.iand, operator.ior, operator.ixor, operator.imul):
            out = init.copy()
            op.canonical_basis_in_kernel(out=out, operation=f)
            exp = init.copy()
            exp = f(exp, kernel)
            same_array(out, exp, f'kernel {f.__name__}')
        out = init.copy()
        op.canonical_basis_in_kernel(out=out)
        same_array(out, kernel, 'kernel out')
        out = strided(sp, bool, False)
        op.canonical_basis_in_kernel(out=out)
        same_array(out, kernel, 'kernel strided out')
        if hasattr(op, 'canonical_basis_in_kernel_old'):
            same_array(op.canonical_basis_in_kernel_old(), kernel, 'kernel by the old method', dtype=bool)
            for f in (operator.iand, operator.ior, operator.ixor, operator.imul):
                out = init.copy()
                op.canonical_basis_in_kernel_old(out=out, operation=f)
                same_array(out, f(init.copy(), kernel), f'kernel {f.__name__} by the old method')
        tol = 1e-6 if kind == 'rot2d' else 0
        same_array(op.pT1(), cov.reshape(sp), 'pT1', rtol=tol)
        out = np.full(sp, 3, op.dtype)
        op.pT1(out=out)
        same_array(out, cov.reshape(sp), 'pT1 out', rtol=tol)
        op.pT1(out=out, operation=operator.iadd)
        same_array(out, 2 * cov.reshape(sp), 'pT1 iadd', rtol=tol)
        out = strided(sp, op.dtype, 3)
        op.pT1(out=out)
        same_array(out, cov.reshape(sp), 'pT1 strided out', rtol=tol)
        if kind != 'rot2d':
            x = M.vector(n * br, op.dtype, 2).reshape(l.sout)
            px = (D.T @ x.reshape(-1)).reshape(m, bc)[:, 0].reshape(sp)
            a, b = op.pTx_pT1(x)
            same_array(a, px, 'pTx')
            same_array(b, cov.reshape(sp), 'pTx_pT1')
            o = (np.full(sp, 3, op.dtype), np.full(sp, 4, op.dtype))
            op.pTx_pT1(x, out=o, operation=operator.iadd)
            same_array(o[0], px + 3, 'pTx iadd')
            same_array(o[1], cov.reshape(sp) + 4, 'pTx_pT1 iadd')
            o = strided(sp, op.dtype, 3), strided(sp, op.dtype, 4)
            op.pTx_pT1(x, out=o)
            same_array(o[0], px, 'pTx strided out')
            same_array(o[1], cov.reshape(sp), 'pTx_pT1 strided out')
    k = int(np.prod(l.extra)) if l.extra else 1
    pp = op.T * op
    same_array(pp.todense(), np.kron(D.T @ D, np.eye(k)), 'P.T * P')
    same_array(op.todense(), np.kron(D, np.eye(k)), 'operator after its derivations')


def strided(shape, dtype, value):
    """ Buffer whose last dimension is not contiguous. """
    return np.full(tuple(shape) + (2,), value, dtype)[..., 0]


def history_shapes(kind, quick):
    core = kind in ('plain', 'rot2d', 'rot3d')
    sh = [(2, 1, 2), (1, 2, 3), (3, 1, 2), (2, 2, 2)] if core else [(2, 1, 2), (2, 2, 2)]
    if not quick:
        sh += [(2, 1, 3), (3, 1, 3), (2, 2, 3)]
    return sh


def histories(kind, shape):
    def scenario(ck):
        core = kind in ('plain', 'rot2d', 'rot3d')
        big = kind == 'plain'
        depth = 2 if ck.quick else 3
        count = 0
        for n, nmax, m in [shape]:
            for ip, p in enumerate(M.patterns(n, nmax, m)):
                idx = np.array(p).reshape(n, nmax)
                # symmetry reduction: the rows (and the entries of a row) commute
                if [sorted(r) for r in idx.tolist()] != idx.tolist() or sorted(idx.tolist()) != idx.tolist():
                    continue
                ip = count
                count += 1
                make = lambda it='i4', vt='f8': start(kind, idx, m, it, vt)
                for it, vt in (('i1', 'f8'), ('i2', 'f4'), ('i4', 'f4'), ('i8', 'f8')):
                    ck.check(f'{n}x{m} {p} {it} {vt} no derivation', lambda: (make(it, vt).verify('start'), derived(make(it, vt))) and None)
                    for zero in ((0,), (n * nmax - 1,)):
                        ck.check(f'{n}x{m} {p} {it} {vt} zero={zero}', lambda: derived(start(kind, idx, m, it, vt, zero=zero)))

                def grow(l, acts, it, vt, touch):
                    for a in actions(l, core):
                        key = f'{n}x{m} {p} {it} {vt} touch={int(touch)} ' + ' '.join(show(b) for b in acts + [a])
                        if not ck.check(key, history, lambda: make(it, vt), acts + [a], touch, steps=2 + 2 * len(acts)):
                            continue
                        if len(acts) + 1 < depth:
                            # the successor state, as shapes only
                            if a[0] == 'restrict':
                                rows, nc = l.restricted(a[1])
                                s = Live(None, kind, rows, nc)
                            else:
                                s = Live(None, kind, [r for r, k in zip(l.rows, a[1]) if k], l.ncols)
                            grow(s, acts + [a], it, vt, touch)
                combos = (('i4', 'f8', True), ('i8', 'f4', False)) if not ck.quick else [(('i4', 'f8', True),), (('i8', 'f4', False),)][ip % 2]
                for it, vt, touch in combos:
                    grow(make(it, vt), [], it, vt, touch)
    return scenario


def show(a):
    return f"{a[0]}{'!' if a[2] else ''}({''.join('01'[k] for k in a[1])})"


def shapes(ck):
    """Scenes of several dimensions, extra dimensions and mixed number types."""
    for sin in ((4,), (2, 2), (1, 4), (4, 1), (2, 2, 1)):
        for p in M.patterns(2, 1, 4):
            for dt in (None, 'f8'):
                mk = lambda: start('plain', np.array(p).reshape(2, 1), 4, 'i4', 'f4', dt, shapein=sin)
                ck.check(f'{sin} {p} {dt}', lambda: (mk().verify('start'), derived(mk())) and None)
            for mask in itertools.product((False, True), repeat=4):
                if any(mask) and (not ck.quick or sum(mask) in (1, 3)):
                    for ip in (False, True):
                        ck.check(f'{sin} {p} restrict {mask} {ip}', history,
                                 lambda: start('plain', np.array(p).reshape(2, 1), 4, shapein=sin), [('restrict', mask, ip)], True)
    for e in ((2,), (3,), (2, 2)):      # a trailing dimension of 1 belongs to the scene itself
        for n, nmax, m in ((2, 1, 2), (3, 1, 2), (2, 2, 2)):
            for p in M.patterns(n, nmax, m):
                mk = lambda: start('plain', np.array(p).reshape(n, nmax), m, extra=e)
                ck.check(f'extra {e} {n}x{m} {p}', lambda: (mk().verify('start'), derived(mk())) and None)
                for act in actions(mk(), True):
                    if not ck.quick or act[2]:
                        ck.check(f'extra {e} {n}x{m} {p} {show(act)}', history, mk, [act], True)


def refusals(ck):
    """What cannot be derived raises and leaves the operator as it was."""
    for kind in M.KINDS:
        for p in M.patterns(2, 1, 2):
            def case():
                l = start(kind, np.array(p).reshape(2, 1), 2)
                raises((ValueError, TypeError), l.op.restrict, np.ones(3, bool))
                raises((ValueError, TypeError), l.op.restrict, np.ones(2, int))
                if not (kind == 'plain' or kind == 'rot2d' or kind == 'rot3d'):
                    raises(NotImplementedError, l.op.corestrict, np.ones(2, bool))
                raises((ValueError, TypeError), l.op.canonical_basis_in_kernel, out=np.ones(3, bool))
                raises((ValueError, TypeError), l.op.canonical_basis_in_kernel, out=np.ones(2, int))
                raises((ValueError, TypeError), l.op.pT1, out=np.ones(3))
                l.verify('after')
            ck.check(f'{kind} {p}', case)


def products(kind):
    """ Products of transposes with the same or another operator, also through a diagonal. """
    def one(pa, pb, n, m, weight, seen):
        from pyoperators import DiagonalOperator, HomothetyOperator
        a = start(kind, np.array(pa).reshape(n, -1), m)
        b = a if pa == pb else start(kind, np.array(pb).reshape(n, -1), m)
        A, B = a.dense(), b.dense()
        if seen & 1:
            a.op.T
        if seen & 2:
            b.op.T
        P, Q = a.op, b.op
        if weight == 'none':
            same_array((P.T * Q).todense(), A.T @ B, 'P.T * Q')
            same_array((Q.T * P).todense(), B.T @ A, 'Q.T * P')
            same_array((P * Q.T).todense(), A @ B.T, 'P * Q.T')
        else:
            N = HomothetyOperator(3.)
            W = 3 * np.eye(len(A))
            if weight == 'diagonal':
                w = np.arange(len(A)) + 2.
                N, W = DiagonalOperator(w.reshape(P.shapeout)), np.diag(w)
            same_array((P.T * N * Q).todense(), A.T @ W @ B, 'P.T * N * Q')
            R = N * P
            same_array((R.T * R).todense(), A.T @ W @ W @ A, '(N * P).T * (N * P)')
            same_array((P.T * P).todense(), A.T @ A, 'P.T * P')
        a.verify('first')
        b.verify('second')

    def scenario(ck):
        for n, nmax, m in ((2, 1, 2), (1, 2, 2)) if kind == 'plain' or not ck.quick else ((2, 1, 2),):
            pats = list(M.patterns(n, nmax, m))
            for pa, pb in itertools.product(pats, repeat=2):
                for weight in ('none', 'scalar', 'diagonal'):
                    for seen in range(4) if not ck.quick else (0, 3):
                        ck.check(f'{n} {nmax} {pa} {pb} {weight} {seen}', one, pa, pb, n, m, weight, seen)
    return scenario


def scenarios(tier):
    s = [('histories ' + (k if isinstance(k, str) else 'block%dx%d' % k[1]) + ' %dx%dx%d' % sh, histories(k, sh))
         for k in M.KINDS for sh in history_shapes(k, tier == 'quick')]
    s += [('products ' + (k if isinstance(k, str) else 'block%dx%d' % k[1]), products(k)) for k in M.KINDS]
    return [('shapes', shapes), ('refusals', refusals)] + s[::-1]
