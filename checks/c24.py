"""
C24: reading MadMap1 data returns every block, pixel and filter where it belongs.
"""
import itertools
import os
import shutil
import struct
import tempfile
from pathlib import Path

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C24'
TECHNIQUE = 'exhaustive enumeration of the data sets of a finite domain and of every fault (each truncation point of each file, each missing, duplicated or foreign file, each inconsistent header) on the real reader, against the values written'
NOTE = (
    'The files are written byte by byte by the check from arrays whose values identify the detector, sample and pixel; the dense projection, its transpose and the dense inverse noise '
    'covariance are compared with the direct definition. There is no conformance to another implementation: the order of the fields of a record is the one the reader declares.'
)
BOUNDS = (
    '1 to 3 detectors, blocks of 1 to 4 samples in every composition of up to 5 samples in up to 3 blocks, 0 to 3 correlations, 1 to 3 pixels per sample including unobserved ones, both byte orders, every mask of 3 '
    'pixels and every convention for missing pixels; one fault at each byte of the files of 4 data sets, each subset of missing filters'
)


class Data:
    """ The contents of a data set and its files. """

    def __init__(self, path, ndet, blocks, ncorr, npps, big, npix, name='invntt', unobserved=False):
        self.path, self.ndet, self.blocks, self.ncorr, self.npps, self.big, self.npix = Path(path), ndet, blocks, ncorr, npps, big, npix
        self.name = name
        ns = sum(blocks)
        d, t, k = np.ogrid[:ndet, :ns, :npps]
        self.tod = 1 / 3 + 100. * d[..., 0] + t[..., 0]
        self.value = (0.5 + d + 4 * t + 0.25 * k).astype(np.float32)
        self.index = ((d + 2 * t + k + t * d) % npix).astype(np.int32) if npix else np.full((ndet, ns, npps), -1, np.int32)
        if unobserved:
            # the first -1 ends the list of the pixels of a sample
            self.index = np.where(k >= (d + t) % (npps + 1), -1, self.index).astype(np.int32)
        # diagonally dominant filters, all different
        b, d, c = np.ogrid[:len(blocks), :ndet, :ncorr + 1]
        self.filter = np.where(c == 0, 10. + d + 3 * b, 1 / (1. + c + 2 * d + 5 * b))

    def observed(self):
        return self.index >= 0

    def records(self):
        e = '>' if self.big else '<'
        out = []
        start = 0
        for n in self.blocks:
            for d in range(self.ndet):
                for t in range(start, start + n):
                    out.append(struct.pack(e + 'd', self.tod[d, t]))
                    for k in range(self.npps):
                        out.append(struct.pack(e + 'fi', self.value[d, t, k], self.index[d, t, k]))
            start += n
        return b''.join(out)

    def filters(self):
        e = '>' if self.big else '<'
        out = []
        first = 0
        for b, n in enumerate(self.blocks):
            for d in range(self.ndet):
                out.append(struct.pack(e + '3q', first, first + n - 1, self.ncorr) + struct.pack(f'{e}{self.ncorr + 1}d', *self.filter[b, d]))
                first += n
        return out

    def todfile(self):
        e = '>' if self.big else '<'
        n = self.ndet * sum(self.blocks)
        return struct.pack(e + '4q', 0, n - 1, self.npps, self.npix) + self.records()

    def write(self, mask, fits=None):
        (self.path / 'tod').write_bytes(self.todfile())
        for i, f in enumerate(self.filters()):
            (self.path / f'{self.name}.{i}').write_bytes(f)
        write_mask(self.path / 'mask.fits', mask)

    def read(self, maskfile=None, missing_value=None, ndet=None, tod=None, as_path=False, **keywords):
        from pysimulators.interfaces.madmap1 import MadMap1Observation
        conv = Path if as_path else str
        return MadMap1Observation(
            'test', self.ndet if ndet is None else ndet, conv(tod or self.path / 'tod'), conv(self.path / self.name), conv(maskfile or self.path / 'mask.fits'), bigendian=self.big,
            missing_value=missing_value, **keywords)

    def verify(self, obs, what=''):
        ns = sum(self.blocks)
        eq(len(obs.instrument), self.ndet, what + 'number of detectors')
        eq(len(obs.sampling), ns, what + 'number of samples')
        require(f'Samplings: {ns}' in str(obs), what + 'description')
        same_array(np.asarray(obs.get_observation(np.ones(self.npix), noiseless=True)), np.where(self.observed(), self.value, 0).sum(-1), what + 'observation', rtol=1e-12)
        eq([(int(b.n), int(b.start), int(b.stop)) for b in obs.block],
           [(n, sum(self.blocks[:i]), sum(self.blocks[:i + 1])) for i, n in enumerate(self.blocks)], what + 'blocks')
        eq((int(obs.info.npixels_per_sample), int(obs.info.npixels_in_map), bool(obs.info.bigendian)), (self.npps, self.npix, self.big), what + 'information')
        tod = obs.get_tod()
        same_array(np.asarray(tod), self.tod, what + 'tod', dtype=np.dtype(float))
        # projection
        P = obs.get_projection_operator()
        eq((P.shapein, P.shapeout), ((self.npix,), (self.ndet, ns)), what + 'shape of the projection')
        dense = np.zeros((self.ndet, ns, self.npix))
        for d, t, k in np.ndindex(*self.index.shape):
            if self.index[d, t, k] >= 0:
                dense[d, t, self.index[d, t, k]] += self.value[d, t, k]
        for p in range(self.npix):
            e = np.zeros(self.npix)
            e[p] = 1
            same_array(np.asarray(P(e)), dense[..., p], what + 'projection', rtol=1e-12)
        back = np.tensordot(self.tod, dense, ((0, 1), (0, 1)))
        got = P.T(tod)
        same_array(np.asarray(got), back, what + 'transpose of the projection', rtol=1e-12)
        same_array(np.asarray(obs.get_operator()(np.arange(1., self.npix + 1))), dense @ np.arange(1., self.npix + 1), what + 'operator', rtol=1e-12)
        eq(int(obs.get_map_header()['NAXIS1']), self.npix, what + 'map header')
        # inverse noise covariance
        N = obs.get_invntt_operator(fftw_flag='FFTW_ESTIMATE', nthreads=1)
        for d, t in np.ndindex(self.ndet, ns):
            e = np.zeros((self.ndet, ns))
            e[d, t] = 1
            expected = np.zeros((self.ndet, ns))
            start = 0
            for b, n in enumerate(self.blocks):
                if start <= t < start + n:
                    for u in range(start, start + n):
                        if abs(u - t) <= self.ncorr:
                            expected[d, u] = self.filter[b, d, abs(u - t)]
                start += n
            same_array(np.asarray(N(e)), expected, what + 'inverse noise covariance', atol=1e-10)
        same_array(np.asarray(obs.get_filter_uncorrelated()), self.filter, what + 'filters')


def write_mask(filename, mask, extname=None, other=None):
    import astropy.io.fits as pyfits
    hdus = [pyfits.PrimaryHDU(mask if extname is None else other)]
    if extname is not None:
        hdus.append(pyfits.ImageHDU(np.zeros(7), name='before'))
        hdus.append(pyfits.ImageHDU(mask, name=extname))
        hdus.append(pyfits.ImageHDU(np.zeros(5), name='after'))
    pyfits.HDUList(hdus).writeto(str(filename), overwrite=True, output_verify='silentfix')


class scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='c24-')
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path)


def mask_for(npix):
    """ A mask with npix unmasked pixels and as many masked ones. """
    m = np.zeros(2 * npix + 1)
    m[1::2] = 0
    m[::2] = 1
    return m


def compositions(n, kmax):
    for k in range(1, kmax + 1):
        for c in itertools.product(range(1, n + 1), repeat=k):
            if sum(c) == n:
                yield c


# ---- scenarios ---------------------------------------------------------------------------------------------------------------------------------
def layouts(ck, ndet):
    def case(blocks, ncorr, npps, big, unobserved):
        with scratch() as path:
            data = Data(path, ndet, blocks, ncorr, npps, big, 3, unobserved=unobserved)
            data.write(mask_for(3))
            ck.state((ndet, blocks, ncorr, npps, big, unobserved))
            data.verify(data.read())

    nmax = 4 if ck.quick else 5
    for n in range(1, nmax + 1):
        for blocks in compositions(n, 3):
            # the correlation length must be compatible with each block
            for ncorr in range(min(min(blocks), 4)):
                for npps, big, unobserved in itertools.product((1, 2, 3), (False, True), (False, True)):
                    if ck.quick and (npps == 3) != (n == 2):
                        continue
                    ck.check(f'layout ndet={ndet} blocks={blocks} ncorr={ncorr} npps={npps} big={big} unobserved={unobserved}', case, blocks, ncorr, npps, big, unobserved)


def masks(ck):
    def case(pattern, convention, extension, kind):
        bad = {'default': None, 'nan': np.nan, 'inf': np.inf, 'value': -7.}[convention]
        good = {'default': [0, 0, 0, 0], 'nan': [1, 0, np.inf, -7], 'inf': [1, 0, np.nan, -7], 'value': [0, 1, np.nan, np.inf]}[convention]
        masked = {'default': [1, -1, np.nan, 0.1], 'nan': [np.nan] * 4, 'inf': [np.inf, -np.inf, np.inf, np.inf], 'value': [-7] * 4}[convention]
        values = np.array([m if p else g for p, g, m in zip(pattern, good, masked)], dtype='>f8')
        if kind == '2d':
            values = values.reshape(2, 2)
        elif kind == 'f4':
            values = values.astype('>f4')
        elif kind == 'i2':
            if not np.all(np.isfinite(values)) or convention not in ('default', 'value'):
                return
            values = np.where(np.array(pattern), 1 if convention == 'default' else -7, [0, 0 if convention == 'default' else 3, 0, 0]).astype('>i2')
        npix = pattern.count(False)
        with scratch() as path:
            data = Data(path, 2, (2, 1), 0, 1, False, npix)
            data.write(mask_for(npix))
            if extension:
                write_mask(data.path / 'm.fits', values, 'coverage', other=None if extension == 1 else np.zeros(3))
            else:
                write_mask(data.path / 'm.fits', values)
            name = str(data.path / 'm.fits') + ('[coverage]' if extension else '')
            obs = data.read(name, bad)
            same_array(np.asarray(obs.info.mapmask), np.array(pattern).reshape(values.shape), 'mask')
            if npix:
                data.verify(obs)
            # another number of pixels is reported
            other = Data(path, 2, (2, 1), 0, 1, False, npix + 1)
            (data.path / 'tod').write_bytes(other.todfile())
            raises(ValueError, data.read, name, bad)

    for pattern in itertools.product((False, True), repeat=4):
        for convention, extension, kind in itertools.product(('default', 'nan', 'inf', 'value'), (0, 1, 2), ('f8', '2d', 'f4', 'i2')):
            if ck.quick and kind != 'f8' and extension == 2:
                continue
            ck.check(f'mask {pattern} {convention} extension={extension} {kind}', case, pattern, convention, extension, kind)

    def nodata():
        with scratch() as path:
            data = Data(path, 1, (2,), 0, 1, False, 3)
            data.write(mask_for(3))
            write_mask(data.path / 'm.fits', mask_for(3), 'coverage')
            raises(OSError, data.read, data.path / 'm.fits')
            raises(KeyError, data.read, str(data.path / 'm.fits') + '[none]')
            raises(OSError, data.read, data.path / 'none.fits')
    ck.check('mask without data', nodata)


def names(ck):
    """ The names of the files, and the files around them. """
    def case(name, as_path, neighbours):
        with scratch() as path:
            data = Data(path, 2, (1, 3), 1 - 1, 1, False, 3, name=name)
            data.write(mask_for(3))
            bad = struct.pack('<3q', 0, 17, 0) + struct.pack('<d', -1.)
            for n in neighbours:
                (data.path / n.replace('NAME', name)).write_bytes(bad)
            data.verify(data.read(as_path=as_path))

    neighbours = ['NAME', 'NAME.', 'NAME.x', 'NAME.0.bak', 'xNAME.0', 'NAMEx.0', 'NAME.7x', 'NAME.1.0', 'NAME~.4', 'n_d.4', 'nnd.4']
    for name in ('invntt', 'n.d', 'n+d', 'n(d', 'n[d', 'n d', 'n$', 'été', 'nd.2'):
        for as_path in (False, True):
            for n in [[]] + [[_] for _ in neighbours] + [neighbours]:
                ck.check(f'name {name!r} path={as_path} neighbours={n}', case, name, as_path, n)

    def relative(where):
        """ The directory from which the files are read. """
        with scratch() as path:
            cwd = os.getcwd()
            sub = Path(path) / 'a+b'
            sub.mkdir()
            data = Data(sub, 2, (1, 3), 0, 1, False, 3)
            data.write(mask_for(3))
            try:
                os.chdir(path if where == 'parent' else sub)
                data.path = Path('a+b') if where == 'parent' else Path('../a+b') if where == 'up' else Path('./') if where == 'dot' else Path('')
                data.verify(data.read())
            finally:
                os.chdir(cwd)
    for where in ('parent', 'up', 'dot', 'here'):
        ck.check(f'directory {where}', relative, where)

    def many():
        """ More than ten filters are sorted by number. """
        with scratch() as path:
            data = Data(path, 3, (1, 2, 1, 3), 0, 1, True, 3)
            data.write(mask_for(3))
            data.verify(data.read())
    ck.check('twelve filters', many)


def attempt(data, **keywords):
    """ Return the outcome of the reading of a faulty data set: the operations that succeeded. """
    ok = []
    try:
        obs = data.read(**keywords)
    except (ValueError, OSError, EOFError, KeyError, TypeError):
        return ok
    for f in (obs.get_tod, obs.get_projection_operator, obs.get_operator, lambda: obs.get_invntt_operator(fftw_flag='FFTW_ESTIMATE', nthreads=1)):
        try:
            f()
        except (ValueError, OSError, EOFError):
            continue
        ok.append(f)
    return ok


SETS = [(2, (2, 1), 0, 2, False), (1, (3,), 2, 1, True), (2, (2, 2), 1, 1, False), (3, (1, 2), 0, 1, True)]


def truncations(ck, iset):
    ndet, blocks, ncorr, npps, big = SETS[iset]

    def case(which, size):
        with scratch() as path:
            data = Data(path, ndet, blocks, ncorr, npps, big, 3)
            data.write(mask_for(3))
            name = data.path / ('tod' if which == 'tod' else f'invntt.{which}' if which != 'all' else '')
            targets = [data.path / f'invntt.{i}' for i in range(ndet * len(blocks))] if which == 'all' else [name]
            for f in targets:
                content = f.read_bytes()
                content = content[:size] if size <= len(content) else content + bytes(size - len(content))
                f.write_bytes(content)
            ck.state((iset, which, size))
            if which == 'tod':
                # the covariance does not depend on the file
                try:
                    obs = data.read()
                except (ValueError, OSError, EOFError):
                    return
                for f in (obs.get_tod, obs.get_projection_operator, obs.get_operator):
                    raises((ValueError, OSError, EOFError), f)
            else:
                raises((ValueError, OSError, EOFError), data.read)

    with scratch() as path:
        data = Data(path, ndet, blocks, ncorr, npps, big, 3)
        ntod, nfilter = len(data.todfile()), [len(f) for f in data.filters()]
    for size in itertools.chain(range(ntod), range(ntod + 1, ntod + 25)):
        ck.check(f'set {iset}: tod file of {size} bytes instead of {ntod}', case, 'tod', size)
    for i, n in enumerate(nfilter):
        for size in itertools.chain(range(n), range(n + 1, n + 17)):
            ck.check(f'set {iset}: filter {i} of {size} bytes instead of {n}', case, i, size)
    for size in itertools.chain(range(nfilter[0]), range(nfilter[0] + 1, nfilter[0] + 17)):
        ck.check(f'set {iset}: filters of {size} bytes instead of {nfilter[0]}', case, 'all', size)


def missing(ck, iset):
    """ Files are missing, duplicated, exchanged or come from another data set. """
    ndet, blocks, ncorr, npps, big = SETS[iset]
    nfilters = ndet * len(blocks)

    def prepare(path):
        data = Data(path, ndet, blocks, ncorr, npps, big, 3)
        data.write(mask_for(3))
        return data

    def case(removed):
        with scratch() as path:
            data = prepare(path)
            for i in removed:
                (data.path / f'invntt.{i}').unlink()
            ck.state((iset, removed))
            eq(len(attempt(data)) < 4, True, 'the missing filters are reported')
            # no covariance with the wrong blocks
            try:
                data.read()
            except (ValueError, OSError):
                return
            raise Mismatch(f'the missing filters {removed} are not reported')

    for k in range(1, nfilters + 1):
        for removed in itertools.combinations(range(nfilters), k):
            # a shorter observation is only known by the size of the data
            if removed == tuple(range(nfilters - k, nfilters)) and k % ndet == 0 and k < nfilters:
                continue
            ck.check(f'set {iset}: missing filters {removed}', case, removed)

    def shorter(k, what):
        """ The last blocks are missing in one of the files. """
        with scratch() as path:
            data = prepare(path)
            part = Data(path, ndet, blocks[:k], ncorr, npps, big, 3)
            if what == 'filters':
                for i in range(ndet * k, nfilters):
                    (data.path / f'invntt.{i}').unlink()
            else:
                (data.path / 'tod').write_bytes(part.todfile())
            try:
                obs = data.read()
            except (ValueError, OSError):
                return
            for f in (obs.get_tod, obs.get_projection_operator):
                raises(ValueError, f)
    for k in range(1, len(blocks)):
        for what in 'filters', 'tod':
            ck.check(f'set {iset}: blocks {k} to the last missing in the {what}', shorter, k, what)

    def additional(i):
        with scratch() as path:
            data = prepare(path)
            shutil.copy(data.path / 'invntt.0', data.path / f'invntt.{i}')
            raises(ValueError, data.read)
    for i in range(nfilters, nfilters + 3):
        ck.check(f'set {iset}: additional filter {i}', additional, i)

    def exchanged(i, j):
        with scratch() as path:
            data = prepare(path)
            fi, fj = data.path / f'invntt.{i}', data.path / f'invntt.{j}'
            a, b = fi.read_bytes(), fj.read_bytes()
            fi.write_bytes(b)
            fj.write_bytes(a)
            raises(ValueError, data.read)

    def duplicated(i, j):
        with scratch() as path:
            data = prepare(path)
            shutil.copy(data.path / f'invntt.{i}', data.path / f'invntt.{j}')
            raises(ValueError, data.read)
    for i, j in itertools.permutations(range(nfilters), 2):
        if i < j:
            ck.check(f'set {iset}: filters {i} and {j} exchanged', exchanged, i, j)
        ck.check(f'set {iset}: filter {i} in place of {j}', duplicated, i, j)

    def header(i, field, value):
        """ A wrong value in the header of a filter. """
        with scratch() as path:
            data = prepare(path)
            f = data.path / f'invntt.{i}'
            content = bytearray(f.read_bytes())
            e = '>' if big else '<'
            h = list(struct.unpack(e + '3q', content[:24]))
            if h[field] + value == h[field]:
                return
            h[field] += value
            content[:24] = struct.pack(e + '3q', *h)
            f.write_bytes(bytes(content))
            if ndet == 1 and (field, i) in ((0, 0), (1, nfilters - 1)) and h[1] >= h[0]:
                # a valid filter for another number of samples
                obs = data.read()
                raises(ValueError, obs.get_tod)
                raises(ValueError, obs.get_projection_operator)
            else:
                raises((ValueError, OSError), data.read)
    for i, field in itertools.product(range(nfilters), (0, 1, 2)):
        for value in (-100, -2, -1, 1, 2, 100):
            ck.check(f'set {iset}: header of filter {i}, field {field} changed by {value}', header, i, field, value)

    def todheader(field, value):
        with scratch() as path:
            data = prepare(path)
            f = data.path / 'tod'
            content = bytearray(f.read_bytes())
            e = '>' if big else '<'
            h = list(struct.unpack(e + '4q', content[:32]))
            h[field] += value
            content[:32] = struct.pack(e + '4q', *h)
            f.write_bytes(bytes(content))
            try:
                obs = data.read()
            except (ValueError, OSError):
                return
            raises(ValueError, obs.get_tod)
            raises(ValueError, obs.get_projection_operator)
    for field, value in itertools.product((2, 3), (-100, -2, -1, 1, 2, 100)):
        ck.check(f'set {iset}: header of the data, field {field} changed by {value}', todheader, field, value)

    def detectors(n):
        with scratch() as path:
            data = prepare(path)
            raises(ValueError, data.read, ndet=n)
    for n in range(1, nfilters + 2):
        if n != ndet and (nfilters % n != 0 or n * len(blocks) == nfilters):
            ck.check(f'set {iset}: {n} detectors instead of {ndet}', detectors, n)

    def pixel(value, position):
        """ A pixel that is not in the map. """
        with scratch() as path:
            data = prepare(path)
            data.index.ravel()[position] = value
            data.write(mask_for(3))
            obs = data.read()
            raises(ValueError, obs.get_projection_operator)
    for value, position in itertools.product((3, 4, 2 ** 31 - 1, -2, -2 ** 31), range(ndet * sum(blocks) * npps)):
        ck.check(f'set {iset}: pixel {value} at the position {position}', pixel, value, position)

    def endian():
        with scratch() as path:
            data = prepare(path)
            data.big = not big
            raises((ValueError, OSError), data.read)
    ck.check(f'set {iset}: other byte order', endian)

    def nofile():
        with scratch() as path:
            data = prepare(path)
            raises(OSError, data.read, tod=data.path / 'none')
            obs = data.read()
            (data.path / 'tod').unlink()
            raises(OSError, obs.get_tod)
    ck.check(f'set {iset}: no data', nofile)


def histories(ck):
    """ The observation gives the same results whatever was requested before, and keeps no file open. """
    def case(order):
        with scratch() as path:
            data = Data(path, 2, (2, 1), 0, 2, False, 3)
            data.write(mask_for(3))
            nfd = len(os.listdir('/proc/self/fd'))
            obs = data.read()
            for o in order:
                if o == 'tod':
                    t = obs.get_tod(unit='Jy')
                    eq(str(t.unit), 'Jy', 'unit')
                    t[...] = -1
                elif o == 'P':
                    P = obs.get_projection_operator()
                    P.T(np.ones((2, 3)))
                    for m in getattr(P, 'operands', [P]):
                        m.matrix.value[...] = -1
                elif o == 'N':
                    obs.get_invntt_operator(fftw_flag='FFTW_ESTIMATE')(np.ones((2, 3)))
                elif o == 'list':
                    require(isinstance(obs.get_operator(aslist=True), list), 'list of operators')
            data.verify(obs)
            eq(len(os.listdir('/proc/self/fd')), nfd, 'number of open files')
    for n in range(0, 3 if ck.quick else 5):
        for order in itertools.product(('tod', 'P', 'N', 'list'), repeat=n):
            ck.check(f'requests {order}', case, order)


def scenarios(tier):
    out = [(f'layouts of {n} detectors', lambda ck, n=n: layouts(ck, n)) for n in (1, 2, 3)]
    out += [('masks', masks), ('names', names), ('histories', histories)]
    out += [(f'truncations {i}', lambda ck, i=i: truncations(ck, i)) for i in range(len(SETS))]
    out += [(f'missing {i}', lambda ck, i=i: missing(ck, i)) for i in range(len(SETS))]
    return out
