"""
C21: operators partitioned by the block_diagonal decorator equal the block assembly of their pieces.

Three operators (elementwise, recursive along the last axis with a transpose, and one which changes the length of its input) are
decorated along every axis and given every bounded partition and every way of writing the parameters; the reference splits
the input, applies each piece and concatenates or stacks.
"""
import functools
import itertools

import numpy as np

from checks.c20 import layouts, untouched
from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C21'
TECHNIQUE = 'exhaustive enumeration of axes, partitions, ways of passing the parameters, input shapes and buffers, executed on the implementation against the block-by-block evaluation of each definition'
NOTE = (
    'A partition in a single stacked block is only exercised with elementwise operators, since pyoperators (not part of this repository) '
    'reduces it to the bare operator. Output shapes passed explicitly are those of square operators.'
)
BOUNDS = (
    'chunks along axis 0, 1 or -1 and stacks along a new axis 0, 1 or -1 of arrays of 1 to 3 dimensions; partitions of 1 to 4 blocks of 0 to 3 elements; parameters as scalars, '
    'tuples, lists and arrays, positional or keyed, in every combination for two parameters; shapes given, deduced from the parameters or left implicit; 7 buffer layouts; '
    'direct, transposed, in place, dense, sums and products'
)


@functools.lru_cache(None)
def classes(axis, new):
    """ The decorated test operators. """
    import pyoperators
    from pyoperators import Operator
    from pyoperators.flags import inplace, linear, real, square
    from pysimulators.operators import block_diagonal
    deco = block_diagonal('value', 'key', **({'new_axisin': axis} if new else {'axisin': axis}))

    @deco
    @inplace
    @square
    class Affine(Operator):
        """ value * x + key """
        def __init__(self, other, value=1, more=None, key=0, **keywords):
            self.other, self.value, self.more, self.key = other, value, more, key
            Operator.__init__(self, **keywords)

        def direct(self, input, output):
            np.multiply(input, self.value, output)
            output += self.key

    @deco
    @real
    @linear
    @square
    class Recursive(Operator):
        """ y[i] = key * y[i-1] + value * x[i] along the last axis """
        def __init__(self, other, value=1, more=None, key=0, **keywords):
            self.other, self.value, self.more, self.key = other, value, more, key
            Operator.__init__(self, dtype=float, **keywords)

        def direct(self, input, output):
            output[...] = self.value * input
            for i in range(1, input.shape[-1]):
                output[..., i] += self.key * output[..., i - 1]

        def transpose(self, input, output):
            output[...] = self.value * input
            for i in range(input.shape[-1] - 2, -1, -1):
                output[..., i] += self.key * output[..., i + 1]

    @deco
    @real
    @linear
    class Repeat(Operator):
        """ x followed by value * x along the partition axis; the values are shifted by key along the axis """
        def __init__(self, other, value=1, more=None, key=0, **keywords):
            self.other, self.value, self.more, self.key = other, value, more, key
            Operator.__init__(self, dtype=float, **keywords)

        def direct(self, input, output):
            output[...] = np.concatenate([input, self.value * np.roll(input, self.key, axis=AX(axis, new))], axis=AX(axis, new))

        def transpose(self, input, output):
            n = input.shape[AX(axis, new)] // 2
            a, b = np.split(input, [n], axis=AX(axis, new))
            output[...] = a + self.value * np.roll(b, -self.key, axis=AX(axis, new))

        def reshapein(self, shape):
            if shape is None:
                return None
            s = list(shape)
            s[AX(axis, new)] *= 2
            return tuple(s)

        def reshapeout(self, shape):
            if shape is None:
                return None
            s = list(shape)
            s[AX(axis, new)] //= 2
            return tuple(s)

    class AffineSub(Affine):
        pass

    class RecursiveSub(Recursive):
        def more_methods(self):
            pass

    return {'affine': Affine, 'recursive': Recursive, 'repeat': Repeat, 'affine sub': AffineSub, 'recursive sub': RecursiveSub}


def AX(axis, new):
    return 0 if new else axis


def piece(kind, v, k, x, axis):
    """ Reference of one block. """
    kind = kind.split()[0]
    if kind == 'affine':
        return v * x + k
    if kind == 'recursive':
        y = v * x.astype(float)
        for i in range(1, x.shape[-1]):
            y[..., i] += k * y[..., i - 1]
        return y
    return np.concatenate([x, v * np.roll(x, k, axis=axis)], axis=axis)


def assemble(kind, vs, ks, parts, x, axis, new):
    if new:
        return np.stack([piece(kind, v, k, np.take(x, i, axis), 0) for i, (v, k) in enumerate(zip(vs, ks))], axis)
    bounds = np.cumsum((0,) + tuple(parts))
    return np.concatenate([piece(kind, v, k, np.take(x, range(a, b), axis), axis) for v, k, a, b in zip(vs, ks, bounds, bounds[1:])], axis)


def dense(f, shape):
    n = int(np.prod(shape))
    f0 = f(np.zeros(shape)).ravel()
    cols = [f(np.eye(n)[i].reshape(shape)).ravel() - f0 for i in range(n)]
    return np.array(cols).T.reshape(f0.size, n)


VALUES = (2., -3., 5., 0.5)
KEYS = (1, 0, 2, 3)
WAYS = ('scalar', 'tuple', 'list', 'array')


def write(way, values, n):
    """ The parameter as the user writes it, its value for each block. """
    values = values[:n]
    if way == 'scalar':
        return values[0], (values[0],) * n
    if way == 'array':
        return np.array(values), values
    return (tuple if way == 'tuple' else list)(values), values


def make(cls, v, k, how, kw):
    other, more = [1, 2, 3, 4, 5], ('a', 'b')
    if how == 'positional':
        return cls(other, v, more, k, **kw)
    if how == 'mixed':
        return cls(other, v, more, key=k, **kw)
    if how == 'keyed':
        return cls(key=k, more=more, value=v, other=other, **kw)
    if how == 'default key':
        return cls(other, v, **kw)
    return cls(other, key=k, **kw)


def one(kind, axis, new, parts, shape, wv, wk, how, given, full):
    cls = classes(axis, new)[kind]
    n = len(parts)
    v, vs = write(wv, VALUES, n)
    k, ks = write(wk, KEYS, n)
    if how == 'default key':
        ks, wk = (0,) * n, 'scalar'
    if how == 'default value':
        vs, wv = (1,) * n, 'scalar'
    kw = {}
    explicit = 'parts' in given
    if explicit:
        kw['partitionin'] = parts if n > 1 or 'tuple' in given else parts[0]
    elif wv == wk == 'scalar':
        n = 0
    if 'shapein' in given:
        kw['shapein'] = shape
    if 'shapeout' in given:
        kw['shapeout'] = shape
    if 'none' in given:
        kw['shapein'] = None
    op = make(cls, v, k, how, kw)
    if n == 0:
        require(type(op) is cls, 'no partition')
        for a, b in ((op.value, vs[0]), (op.key, ks[0])):
            eq(a, b, 'parameter')
        x = (np.arange(int(np.prod(shape))) % 7 - 2.).reshape(shape)
        same_array(op(x), piece(kind, vs[0], ks[0], x, AX(axis, new)), 'no partition')
        return
    if n > 1:
        from pyoperators import BlockDiagonalOperator
        require(type(op) is BlockDiagonalOperator, 'block diagonal operator')
        eq(len(op.operands), n, 'number of blocks')
        for o, a, b in zip(op.operands, vs, ks):
            require(type(o) is cls, 'type of the blocks')
            eq(float(o.value), float(a), 'value of the block')
            eq(int(o.key), int(b), 'key of the block')
            eq(list(o.other), [1, 2, 3, 4, 5], 'other argument')
        if explicit or new:
            eq(tuple(op.partitionin), tuple(parts), 'partition')
    if 'shapein' in given or 'shapeout' in given:
        eq(op.shapein, shape if n > 1 or not new else op.shapein, 'input shape')
    elif not explicit and not new and n > 1:
        # the partition is not known: it must be refused or deduced
        try:
            op(np.zeros(shape))
        except ValueError:
            pass
        return
    f = lambda x: assemble(kind, vs, ks, parts, x, axis, new)
    x = ((np.arange(int(np.prod(shape))) * 7 + 3) % 23 - 5).astype(float).reshape(shape)
    if ('shapein' in given or 'shapeout' in given) and n == 1 and new:
        return
    e = f(x)
    x0 = x.copy()
    same_array(op(x0), e, 'direct', dtype=float, rtol=1e-13)
    same_array(x0, x, 'input')
    if not full:
        return
    square = kind != 'repeat'
    for (ni, fi), (no, fo) in itertools.product(layouts(shape), layouts(e.shape)):
        xi = fi(float)
        xi[...] = x
        out = fo(float)
        op(xi, out=out)
        same_array(out, e, f'{ni} to {no}', rtol=1e-13)
        same_array(xi, x, f'{ni} input')
        untouched(out, f'{ni} to {no}')
    if square:
        for ni, fi in layouts(shape):
            xi = fi(float)
            xi[...] = x
            op(xi, out=xi)
            same_array(xi, e, f'in place {ni}', rtol=1e-13)
            untouched(xi, f'in place {ni}')
        same_array((2 * op)(x), 2 * e, 'twice', rtol=1e-13)
        same_array((op + op)(x), 2 * e, 'sum', rtol=1e-13)
        same_array(op(op)(x), f(e), 'product', rtol=1e-13)
        if n > 1:
            op2 = make(cls, VALUES[::-1][:n], KEYS[::-1][:n], 'keyed', {'partitionin': parts})
            f2 = lambda x: assemble(kind, VALUES[::-1][:n], KEYS[::-1][:n], parts, x, axis, new)
            same_array(op(op2)(x), f(f2(x)), 'product of two', rtol=1e-13)
            same_array((op2 + op)(x), f2(x) + e, 'sum of two', rtol=1e-13)
            if not new:
                # another partition of the same axis
                q = tuple(reversed(parts))
                op3 = make(cls, VALUES[:n], KEYS[:n], 'mixed', {'partitionin': q})
                f3 = lambda x: assemble(kind, VALUES[:n], KEYS[:n], q, x, axis, new)
                same_array(op(op3)(x), f(f3(x)), 'product of two partitions', rtol=1e-13)
                same_array((op3 + op)(x), f3(x) + e, 'sum of two partitions', rtol=1e-13)
    if kind.startswith('affine'):
        return
    d = dense(f, shape)
    y = ((np.arange(e.size) * 5 + 1) % 13 - 4.).reshape(e.shape)
    et = (d.T @ y.ravel()).reshape(shape)
    t = op.T
    same_array(t(y), et, 'transpose', dtype=float, rtol=1e-13)
    same_array(t.T(x), e, 'transpose of the transpose', rtol=1e-13)
    out = np.full(shape, 77.)
    t(y, out=out)
    same_array(out, et, 'transpose with output', rtol=1e-13)
    same_array((t * op)(x), (d.T @ e.ravel()).reshape(shape), 'normal operator', rtol=1e-13)
    same_array(op.todense(shapein=shape), d, 'dense', rtol=1e-13, atol=1e-13)
    same_array(op.todense(shapein=shape, inplace=True), d, 'dense in place', rtol=1e-13, atol=1e-13)
    if square:
        yi = y.copy()
        t(yi, out=yi)
        same_array(yi, et, 'transpose in place', rtol=1e-13)
        for ni, fi in layouts(e.shape):
            yi = fi(float)
            yi[...] = y
            t(yi, out=yi)
            same_array(yi, et, f'transpose in place {ni}', rtol=1e-13)


def shapes_for(axis, new, parts):
    """ Input shapes with this partition. """
    n = len(parts) if new else sum(parts)
    for nd in (1, 2, 3):
        if axis >= nd or axis < -nd:
            continue
        if new and nd == 1:
            others = [()]
        else:
            others = itertools.product((1, 3), repeat=nd - 1) if nd == 2 else [(2, 3)] if nd == 3 else [()]
        for o in others:
            s = list(o)
            s.insert(axis if axis >= 0 else len(s) + 1 + axis, n)
            yield tuple(s)


def partitions(new, quick):
    if new:
        return [(1,) * n for n in (1, 2, 3, 4)]
    ps = [p for n in (1, 2, 3) for p in itertools.product((1, 2, 3), repeat=n)]
    ps += [p for n in (2, 3) for p in itertools.product((0, 1, 2), repeat=n) if 0 in p and any(p)]
    return ps + [(1, 2, 1, 3), (1, 1, 1, 1), (3, 1, 2, 1)]


def blocks(kind, axis, new):
    def scenario(ck):
        for parts in partitions(new, ck.quick):
            for shape in shapes_for(axis, new, parts):
                if kind == 'repeat' and new and len(shape) == 1:
                    continue
                if kind.startswith('recursive') and new and len(shape) == 1:
                    continue
                if len(parts) == 1 and new and not kind.startswith('affine'):
                    continue
                if not ck.quick or (len(shape) < 3 or len(parts) < 3) and (len(shape) == 1 or sum(parts) < 6):
                    for wv, wk in (('tuple', 'list'), ('array', 'tuple')):
                        ck.check(f'{parts} {shape} {wv} {wk}', one, kind, axis, new, parts, shape, wv, wk, 'mixed', ('parts',), wv == 'tuple')
                if kind != 'repeat' and 0 not in parts:
                    for given in (('parts', 'shapein'), ('parts', 'shapein', 'shapeout'), ('parts', 'shapeout'), ('parts', 'none')) + ((('shapein',), ('shapeout',)) if new else ()):
                        ck.check(f'{parts} {shape} {given}', one, kind, axis, new, parts, shape, 'list', 'tuple', 'keyed', given, len(parts) < 3)
                elif kind == 'repeat' and 0 not in parts:
                    for given in (('parts', 'shapein'), ('parts', 'none')) + ((('shapein',),) if new else ()):
                        ck.check(f'{parts} {shape} {given}', one, kind, axis, new, parts, shape, 'list', 'tuple', 'keyed', given, len(parts) < 3)
    return scenario


def ways(kind, axis, new):
    """ Every way of passing the two parameters and the partition. """
    def scenario(ck):
        for parts in ((1,), (2,), (1, 2), (2, 2), (1, 3, 2)) if not new else ((1,), (1, 1), (1, 1, 1)):
            for shape in list(shapes_for(axis, new, parts))[:3]:
                if new and (kind.startswith('repeat') or kind.startswith('recursive')) and (len(shape) == 1 or len(parts) == 1):
                    continue
                for wv, wk in itertools.product(WAYS, repeat=2):
                    for how in ('positional', 'mixed', 'keyed', 'default key', 'default value'):
                        for given in (('parts',), ('parts', 'tuple'), ()):
                            w = (wv if how != 'default value' else '-', wk if how != 'default key' else '-')
                            if w[0] == '-' and wv != 'scalar' or w[1] == '-' and wk != 'scalar':
                                continue
                            ck.check(f'{parts} {shape} {w} {how} {given}', one, kind, axis, new, parts, shape, wv, wk, how, given, False)
    return scenario


def errors(axis, new):
    def scenario(ck):
        def bad(nv, nk, np_, kind):
            cls = classes(axis, new)[kind]
            kw = {} if np_ is None else {'partitionin': (1,) * np_}
            lens = {n for n in (nv, nk, np_) if n is not None}
            v = VALUES[:nv] if nv is not None else 2.
            k = KEYS[:nk] if nk is not None else 1
            if len(lens) <= 1:
                cls(1, v, key=k, **kw)
            else:
                raises(ValueError, cls, 1, v, key=k, **kw)
        for kind in classes(axis, new):
            for c in itertools.product((None, 1, 2, 3), repeat=3):
                ck.check(f'{kind} {c}', bad, *c, kind)

        def mismatch(kind, parts, delta, given):
            cls = classes(axis, new)[kind]
            for shape in shapes_for(axis, new, parts):
                s = list(shape)
                s[axis] += delta
                if kind.startswith('recursive') and new and len(shape) == 1:
                    continue
                raises(ValueError, cls, 1, VALUES[:len(parts)], key=KEYS[:len(parts)], partitionin=parts, **{given: tuple(s)})
        for kind in ('affine', 'recursive'):
            for parts in ((1, 1), (1, 1, 1)) if new else ((1, 2), (2, 2), (1, 1, 1)):
                for delta in (-1, 1, 2):
                    for given in ('shapein', 'shapeout'):
                        ck.check(f'{kind} {parts} {delta} {given}', mismatch, kind, parts, delta, given)

        def declared():
            from pysimulators.operators import block_diagonal
            raises(TypeError, block_diagonal, 'value')
            raises(TypeError, block_diagonal, 'value', axisin=0, other=1)
        ck.check('declaration', declared)
    return scenario


def histories(axis, new):
    """ Operators made one after the other do not influence each other, whatever their order. """
    def scenario(ck):
        def run(order):
            cls = classes(axis, new)
            shape = next(iter(s for s in shapes_for(axis, new, (1, 1)) if len(s) == 2))
            x = np.arange(1., 1 + np.prod(shape)).reshape(shape)
            ops = []
            for kind, blocks in order:
                if blocks:
                    ops.append((make(cls[kind], VALUES[:2], KEYS[:2], 'mixed', {'partitionin': (1, 1)}), assemble(kind, VALUES[:2], KEYS[:2], (1, 1), x, axis, new)))
                else:
                    ops.append((make(cls[kind], 3., 1, 'mixed', {}), piece(kind, 3., 1, x, AX(axis, new))))
                for o, e in ops:
                    same_array(o(x), e, 'earlier operator', rtol=1e-13)
        kinds = [(k, b) for k in classes(axis, new) for b in (False, True)]
        for order in itertools.product(kinds, repeat=2 if ck.quick else 3):
            ck.check(repr(order), run, order)
    return scenario


def scenarios(tier):
    out = []
    for new, axes in ((False, (0, 1, -1)), (True, (0, 1, -1))):
        for axis in axes:
            w = f'{"stack" if new else "chunk"} {axis}'
            for kind in ('affine', 'recursive', 'repeat', 'affine sub', 'recursive sub'):
                out.append((f'{w}: {kind}', blocks(kind, axis, new)))
                out.append((f'{w}: {kind}, parameters', ways(kind, axis, new)))
            out.append((f'{w}: errors', errors(axis, new)))
            out.append((f'{w}: histories', histories(axis, new)))
    return out
