"""
C16: FITS world-coordinate headers and projections are consistent.
"""
import io
import itertools

import numpy as np

from mc.harness import Mismatch, eq, raises, require, same_array

PID = 'C16'
TECHNIQUE = 'exhaustive enumeration of the arguments of the header routines, of the pixels of each header, of the combinations of headers and of the memory layouts, on the real code, against a gnomonic projection written in the check'
NOTE = (
    'The gnomonic projection of the check is computed with extended precision from the spherical trigonometry definition, so that the header and the operators are not compared with the library they rely on. '
    'Other projections are only checked to be inverted. The combined headers are checked for equatorial gnomonic headers in degrees, the only ones that the routine writes.'
)
BOUNDS = (
    'axes of 1 to 5 pixels, 7 centres including the poles and the 0/360 meridian, 9 pixel sizes, 9 position angles, 7 matrices, 5 reference pixels, 4 units and every combination of them in thorough (two sub-grids in quick); every corner and centre of '
    'pixel; combinations of up to 2 (quick) or 3 of 14 headers with every option; 9 shapes and 6 memory layouts'
)

CRVALS = [(0., 0.), (10., 20.), (359.95, -45.), (180., 89.), (30., 90.), (200., -90.), (0.01, 60.)]
CDELTS = [1e-4, 0.1, 1., 0.01, (-0.1, 0.2), (0.1, 0.1), (-0.1, -0.1), (0.1, -0.3), (-3., 3.)]
PAS = [None, 0, 30., -25., 90, 135., 180, -170., 200.]
CDS = [((-1, 0), (0, 1)), ((1, 0), (0, 1)), ((0, .1), (.1, 0)), ((-.1, .05), (.05, .1)), ((-.1, .02), (0, .1)), ((.1, 0), (.03, -.2)), ((.3, -.1), (.1, .3))]
CRPIXS = [None, (1, 1), (0.5, 0.5), (-3, 10.25), (2, 7)]
NAXES = [(1, 1), (2, 3), (5, 4), (3, 1)]
UNITS = {'deg': 1, 'arcmin': 60, 'arcsec': 3600}


def expected_cd(cdelt, pa, cd, equatorial=True):
    if cd is not None:
        return np.array(cd, float)
    if np.ndim(cdelt) == 0:
        cdelt = (-cdelt, cdelt) if equatorial else (cdelt, cdelt)
    c, s = np.cos(np.deg2rad(pa or 0)), np.sin(np.deg2rad(pa or 0))
    return np.array([[cdelt[0] * c, -cdelt[0] * s], [cdelt[1] * s, cdelt[1] * c]])


def gnomonic(pix, crpix, crval, cd):
    """ World coordinates of 1-based pixels, by trigonometry. All angles are in degrees. """
    p = np.asarray(pix, np.longdouble) - np.asarray(crpix, np.longdouble)
    cd = np.deg2rad(np.asarray(cd, np.longdouble))
    xi = cd[0, 0] * p[..., 0] + cd[0, 1] * p[..., 1]
    eta = cd[1, 0] * p[..., 0] + cd[1, 1] * p[..., 1]
    if crval[1] == 90:
        # by default, the native longitude of the celestial pole is 0 at the pole and 180 elsewhere
        xi, eta = -xi, -eta
    d0 = np.deg2rad(np.longdouble(crval[1]))
    s0, c0 = np.sin(d0), np.cos(d0)
    if abs(crval[1]) == 90:
        c0 = np.longdouble(0)
    den = c0 - eta * s0
    return np.stack([crval[0] + np.rad2deg(np.arctan2(xi, den)), np.rad2deg(np.arctan2(s0 + eta * c0, np.hypot(xi, den)))], -1)


def separation(a, b):
    def vec(x):
        x = np.deg2rad(np.asarray(x, np.longdouble))
        return np.stack([np.cos(x[..., 1]) * np.cos(x[..., 0]), np.cos(x[..., 1]) * np.sin(x[..., 0]), np.sin(x[..., 1])], -1)
    u, v = vec(a), vec(b)
    w = np.cross(u, v)
    return np.rad2deg(np.arctan2(np.sqrt(np.sum(w * w, -1)), np.sum(u * v, -1))).astype(float)


def pixels(naxes):
    """ The centres, edges and corners of the pixels, 1-based. """
    x, y = [np.arange(0.5, n + 0.75, 0.5) for n in naxes[:2]]
    return np.array([(a, b) for b in y for a in x])


def create(naxes, crval, crpix, cunit, **keywords):
    from pysimulators import create_fitsheader
    return create_fitsheader(naxes, crval=crval, crpix=crpix, cunit=cunit, **keywords)


# ---- headers ----------------------------------------------------------------------------------------------------------------------------------
def headers(ck, crval):
    from pysimulators import WCSToPixelOperator, WCSToWorldOperator
    from pysimulators.wcsutils import get_cdelt_pa, has_wcs

    def case(naxes, crpix, cunit, cdelt, pa, cd):
        u = UNITS[cunit if isinstance(cunit, str) else cunit[0]]
        kw = {}
        if cd is not None:
            kw['cd'] = np.array(cd) * u
        else:
            kw['cdelt'] = cdelt * u if np.ndim(cdelt) == 0 else tuple(c * u for c in cdelt)
            if pa is not None:
                kw['pa'] = pa
        h = create(naxes, (crval[0] * u, crval[1] * u), crpix, cunit, **kw)
        ecd = expected_cd(cdelt, pa, cd)
        ecrpix = crpix if crpix is not None else ((naxes[0] + 1) / 2, (naxes[1] + 1) / 2)
        ck.state((naxes, crval, crpix, cunit, cdelt, pa, cd))
        eq((h['NAXIS'], h['NAXIS1'], h['NAXIS2']), (2, *naxes), 'axes')
        eq((h['CRPIX1'], h['CRPIX2']), tuple(map(float, ecrpix)), 'reference pixel')
        eq((h['CRVAL1'], h['CRVAL2']), (crval[0] * u, crval[1] * u), 'reference value')
        got = np.array([[h['CD1_1'], h['CD1_2']], [h['CD2_1'], h['CD2_2']]])
        same_array(got, ecd * u, 'CD matrix', rtol=1e-14, atol=1e-15 * u * np.abs(ecd).max())
        eq((h['CUNIT1'], h['CUNIT2']), (cunit, cunit) if isinstance(cunit, str) else tuple(cunit), 'unit')
        eq((h['CTYPE1'], h['CTYPE2'], h['RADESYS']), ('RA---TAN', 'DEC--TAN', 'ICRS'), 'type')
        require(has_wcs(h), 'has_wcs')

        # pixel size and angle
        cdelt_, pa_ = get_cdelt_pa(h)
        if cd is None or abs(ecd[0] @ ecd[1]) < 1e-15:
            same_array(expected_cd(cdelt_, pa_, None), ecd * u, 'pixel size and angle read back', rtol=1e-13, atol=1e-13 * u * np.abs(ecd).max())
        if cd is None:
            c = (-cdelt, cdelt) if np.ndim(cdelt) == 0 else cdelt
            if c[1] > 0:
                same_array(np.asarray(cdelt_), np.array(c) * u, 'pixel size', rtol=1e-14)
                require(abs((pa_ - (pa or 0) + 180) % 360 - 180) < 1e-12, f'position angle: got {pa_}, expected {pa}')

        # pixels
        pix = pixels(naxes)
        world = gnomonic(pix, ecrpix, crval, ecd)
        size = np.abs(ecd).max()
        for origin in (0, 1):
            W = WCSToWorldOperator(h, origin)
            P = WCSToPixelOperator(h, origin)
            p = pix - 1 + origin
            ck.transitions += 4 * len(p)
            w = W(p)
            eq(w.shape, p.shape, 'shape')
            bad = separation(w, world)
            require(bad.max() < 1e-11, f'world coordinates of the pixels: {p[bad.argmax()]}: got {w[bad.argmax()]}, expected {world[bad.argmax()]}')
            for back, what in ((P(np.asarray(world, float)), 'pixel coordinates'), (W.I(w), 'inverse of the world coordinates'), (P.I.I(w), 'double inverse'), (W.I(W(p)), 'composition')):
                require(np.abs(back - p).max() < 1e-10 / size + 1e-9, f'{what}: got {back.tolist()}, expected {p.tolist()}')
            again = P.I(P(w))
            require(separation(again, w).max() < 1e-10, 'composition of the world coordinates')
            reference = W(np.array(ecrpix, float) - 1 + origin)
            require(separation(reference, crval) < 1e-11, f'reference pixel: got {reference}, expected {crval}')

    def sub(grid_cd):
        if ck.quick:
            # two sub-grids: the geometry, and the reference pixel and unit
            yield from ((n, None, 'deg', *g) for n in NAXES for g in grid_cd)
            yield from (((2, 3), c, u, *g) for c in CRPIXS for u in ('deg', 'arcsec', 'arcmin', ('deg', 'deg')) for g in grid_cd[::5])
        else:
            yield from ((n, c, u, *g) for n in NAXES for c in CRPIXS for u in ('deg', 'arcsec', 'arcmin', ('deg', 'deg')) for g in grid_cd)

    grid = [(c, p, None) for c in CDELTS for p in PAS] + [(None, None, cd) for cd in CDS]
    for args in dict.fromkeys(sub(grid)):
        # the whole map is in front of the tangent plane
        ck.check(f'header {crval} {args}', case, *args)


def keywords(ck):
    """ Keywords that are not the geometry. """
    from astropy.io import fits as pyfits
    from pysimulators import create_fitsheader, create_fitsheader_for, fitsheader2shape, str2fitsheader
    from pysimulators.wcsutils import get_cdelt_pa, has_wcs
    bitpix = {'f8': -64, 'f4': -32, 'i8': 64, 'i4': 32, 'i2': 16, 'u1': 8, '>f8': -64, '>f4': -32, '>i2': 16}

    def case(naxes, dtype, extname, wcs):
        kw = dict(cdelt=1, crpix=(1, 1)) if wcs else {}
        h = create_fitsheader(naxes, dtype=dtype, extname=extname, **kw)
        eq(h['BITPIX'], bitpix[dtype or 'f8'], 'BITPIX')
        eq(h['NAXIS'], len(naxes), 'NAXIS')
        eq(tuple(h[f'NAXIS{i + 1}'] for i in range(len(naxes))), naxes, 'axes')
        require(f'NAXIS{len(naxes) + 1}' not in h, 'no additional axis')
        eq(fitsheader2shape(h), naxes[::-1], 'shape')
        if extname is None:
            eq((h['SIMPLE'], 'XTENSION' in h, 'EXTNAME' in h), (True, False, False), 'primary header')
        else:
            eq((h['XTENSION'], 'SIMPLE' in h, h['EXTNAME'], h['PCOUNT'], h['GCOUNT']), ('IMAGE', False, extname, 0, 1), 'extension header')
        # NAXIS must be followed by as many axes with a WCS
        eq(has_wcs(h), bool(wcs and 0 < len(naxes) <= 2), 'has_wcs')
        if not wcs:
            raises(KeyError, get_cdelt_pa, h)
        # the header can be written and read
        eq(str2fitsheader(h.tostring()), h, 'header from string')
        eq(str2fitsheader(h.tostring() + 'JUNK    =                    1'.ljust(80)), h, 'header from string, what follows END')
        if 0 not in naxes and naxes:
            data = np.zeros(naxes[::-1], dtype or 'f8')
            hdu = (pyfits.PrimaryHDU if extname is None else pyfits.ImageHDU)(data, h)
            before = h.copy()
            f = io.BytesIO()
            (pyfits.HDUList([hdu]) if extname is None else pyfits.HDUList([pyfits.PrimaryHDU(), hdu])).writeto(f, output_verify='exception')
            f.seek(0)
            back = pyfits.open(f)[0 if extname is None else 1]
            for k in before:
                if k == 'EXTEND':
                    continue  # handled by astropy
                eq(back.header[k], before[k], f'keyword {k} written and read')
            same_array(np.asarray(back.data).astype(dtype or 'f8'), data, 'data')
    shapes = [(), (1,), (4,), (2, 3), (0, 2), (2, 0), (2, 3, 4), (1, 1, 1, 1), (1, 2, 3, 1, 2, 1, 1, 2)]
    for naxes, dtype, extname, wcs in itertools.product(shapes, [None, *bitpix], (None, '', 'image', 'Very long name'), (False, True)):
        ck.check(f'header {naxes} {dtype} {extname!r} wcs={wcs}', case, naxes, dtype, extname, wcs)

    def fordata(shape, dtype, form, wcs):
        data = np.zeros(shape, dtype)
        if form == 'F':
            data = np.asfortranarray(data)
        elif form == 'strided':
            data = np.zeros((*shape[:-1], 2 * shape[-1]), dtype)[..., ::2] if shape else data
        elif form == 'list':
            data = data.tolist()
            if not shape or 0 in shape or dtype not in ('f8', 'i8'):
                return
        kw = dict(cdelt=1, crpix=(1, 1)) if wcs else {}
        got = create_fitsheader_for(data, extname='x', **kw)
        expected = create_fitsheader(shape[::-1] or (1,), dtype='u1' if np.dtype(dtype).itemsize == 1 else dtype, extname='x', **kw)
        eq(got.tostring(), expected.tostring(), 'header')
    for args in itertools.product([(), (1,), (3,), (2, 3), (0, 2), (2, 0), (2, 3, 4)], [*bitpix, 'i1', '?'], ('C', 'F', 'strided', 'list'), (False, True)):
        ck.check(f'header for {args}', fordata, *args)

    def nodata(extname):
        h = create_fitsheader_for(None, extname=extname)
        eq((h['NAXIS'], has_wcs(h)), (0, False), 'header without data')
    ck.check('header for None', nodata, None)
    ck.check('extension header for None', nodata, 'x')

    def frame(ctype, radesys, equinox):
        h = create_fitsheader((3, 4), cdelt=0.5, ctype=ctype, radesys=radesys, equinox=equinox)
        eq((h['CTYPE1'], h['CTYPE2']), ctype, 'type')
        if ctype[0].startswith('RA-'):
            eq(h['RADESYS'], radesys.upper(), 'frame')
        else:
            require('RADESYS' not in h, 'no equatorial frame')
        eq(h.get('EQUINOX'), None if equinox is None else float(equinox), 'equinox')
        equatorial = ctype == ('RA---TAN', 'DEC--TAN')
        same_array(np.array([[h['CD1_1'], h['CD1_2']], [h['CD2_1'], h['CD2_2']]]), expected_cd(0.5, 0, None, equatorial), 'CD', atol=0)
    for args in itertools.product([('RA---TAN', 'DEC--TAN'), ('GLON-TAN', 'GLAT-TAN'), ('RA---SIN', 'DEC--SIN'), ('GLON-CAR', 'GLAT-CAR')], ('ICRS', 'icrs', 'fk5', 'FK4'), (None, 2000, 1950., 2000.0)):
        ck.check(f'frame {args}', frame, *args)

    def invalid(kw):
        raises(ValueError, create_fitsheader, **kw)
    base = dict(naxes=(3, 4), cdelt=1)
    for name, kw in {
        'nothing': {}, 'both': dict(naxes=(3, 4), fromdata=np.ones((4, 3))), 'nine axes': dict(naxes=9 * (1,)), 'cd': dict(naxes=(3, 4), cd=[1, 2]), 'cd3': dict(naxes=(3, 4), cd=np.eye(3)),
        'crval': dict(base, crval=(1, 2, 3)), 'crval1': dict(base, crval=(1,)), 'crpix': dict(base, crpix=(1, 2, 3)), 'crpix1': dict(base, crpix=3), 'ctype': dict(base, ctype=('RA---TAN',)), 'cunit': dict(base, cunit=('deg',)),
    }.items():
        ck.check(f'invalid {name}', invalid, kw)

    def old(cdelt, crota):
        """ CDELT and CROTA keywords. """
        h = create_fitsheader((3, 4))
        h['CDELT1'], h['CDELT2'], h['CROTA2'] = *cdelt, crota
        c, pa = get_cdelt_pa(h)
        same_array(np.asarray(c), np.array(cdelt, float), 'pixel size')
        eq(pa, -crota, 'angle')
        for k in ('CDELT1', 'CDELT2', 'CROTA2'):
            h2 = h.copy()
            del h2[k]
            raises(KeyError, get_cdelt_pa, h2)
    for cdelt, crota in itertools.product([(-1., 1.), (.1, .2)], (0., 30., -90.)):
        ck.check(f'CDELT {cdelt} CROTA2 {crota}', old, cdelt, crota)

    def partial(naxis, removed):
        h = create_fitsheader((3,) * naxis)
        for i in range(naxis):
            h[f'CRPIX{i + 1}'], h[f'CRVAL{i + 1}'], h[f'CTYPE{i + 1}'] = 1., 2., 'RA---TAN'
        for k in removed:
            del h[k]
        eq(has_wcs(h), not removed, 'has_wcs')
    for naxis in (1, 2, 3):
        names = [k + str(i + 1) for k in ('CRPIX', 'CRVAL', 'CTYPE') for i in range(naxis)]
        for n in range(0, len(names) + 1 if naxis < 3 else 4):
            for removed in itertools.combinations(names, n):
                ck.check(f'has_wcs {naxis} without {removed}', partial, naxis, removed)

    def strings(cards, padding, endcard):
        h = pyfits.Header()
        for k, v in cards:
            if k in ('COMMENT', 'HISTORY'):
                getattr(h, 'add_' + k.lower())(v)
            else:
                h[k] = v
        eq([(c.keyword, c.value, c.comment) for c in str2fitsheader(h.tostring(padding=padding, endcard=endcard)).cards], [(c.keyword, c.value, c.comment) for c in h.cards], 'cards')
    allcards = [('A', 1), ('B', -2.5e-300), ('C', True), ('D', 'a string'), ('E', "quote ' in"), ('COMMENT', 'END'), ('HISTORY', 'of the END'), ('ENDING', 3), ('LONG', 'x' * 150), ('F', ('value', 'comment')), ('HIERARCH long keyword', 3)]
    for n in range(0, 3 if ck.quick else 4):
        for cards in itertools.permutations(allcards, n):
            for padding, endcard in itertools.product((False, True), repeat=2):
                if padding and not endcard:
                    continue
                ck.check(f'string {cards} {padding} {endcard}', strings, cards, padding, endcard)


# ---- operators --------------------------------------------------------------------------------------------------------------------------------
def operators(ck):
    """ Shapes, memory layouts, types and projections. """
    from astropy.wcs import WCS
    from pysimulators import Quantity, Tod, WCSToPixelOperator, WCSToWorldOperator, create_fitsheader
    header = create_fitsheader((5, 6), crval=(50, 60), cdelt=0.3, pa=20)

    def buffer(shape, layout, fill):
        n = len(shape)
        if layout == 'C':
            x = np.empty(shape)
        elif layout == 'F':
            x = np.empty(shape, order='F')
        elif layout == 'strided':
            x = np.empty(tuple(2 * s for s in shape))[tuple(slice(None, None, 2) for _ in shape)]
        elif layout == 'reversed':
            x = np.empty(shape)[tuple(slice(None, None, -1) for _ in shape)]
        elif layout == 'swapped':
            x = np.empty(shape[:-1][::-1] + shape[-1:]).transpose(*range(n - 1)[::-1], n - 1)
        elif layout == 'unaligned':
            x = np.empty(int(np.prod(shape)) * 8 + 8, np.uint8)[1:1 + int(np.prod(shape)) * 8].view(float).reshape(shape)
        x[...] = fill
        return x

    layouts_ = ('C', 'F', 'strided', 'reversed', 'swapped', 'unaligned')

    def case(cls, shape, lin, lout):
        op = cls(header)
        x = np.arange(int(np.prod(shape))).reshape(shape) * 0.1 + (48 if cls is WCSToPixelOperator else -3)
        flat = x.reshape(-1, 2)
        w = op.wcs
        expected = (w.wcs_world2pix(flat, 0) if cls is WCSToPixelOperator else w.wcs_pix2world(flat, 0)).reshape(shape)
        xin = buffer(shape, lin, x)
        if lout is None:
            out = op(xin)
        elif lout == 'inplace':
            out = xin
            op(xin, xin)
        else:
            out = buffer(shape, lout, np.nan)
            op(xin, out)
        same_array(np.asarray(out), expected, 'coordinates', dtype=np.dtype(float), rtol=0)
        if lout != 'inplace':
            same_array(xin, x, 'input')
        if lout in layouts_ and op.flags.update_output:
            out = buffer(shape, lout, 100)
            import operator
            op(xin, out, operation=operator.iadd)
            same_array(np.asarray(out), expected + 100, 'reduced coordinates', rtol=0)

    for cls, shape in itertools.product((WCSToPixelOperator, WCSToWorldOperator), [(2,), (1, 2), (3, 2), (2, 2), (2, 3, 2), (3, 2, 2), (1, 4, 2), (2, 1, 3, 2), (0, 2), (2, 0, 2)]):
        for lin, lout in itertools.product(layouts_, (None, 'inplace', *layouts_)):
            ck.check(f'{cls.__name__} {shape} {lin} {lout}', case, cls, shape, lin, lout)

    def types(cls, make):
        op = cls(header)
        x = np.array([[50, 60], [49, 61]]) if cls is WCSToPixelOperator else np.array([[0, 1], [4, 2]])
        got = op(make(x))
        same_array(np.asarray(got), op(x.astype(float)), 'coordinates', dtype=np.dtype(float))
    for cls in (WCSToPixelOperator, WCSToWorldOperator):
        for name, make in {'int': lambda x: x, 'i2': lambda x: x.astype('i2'), 'f4': lambda x: x.astype('f4'), '>f8': lambda x: x.astype('>f8'), 'list': lambda x: x.tolist(), 'tuple': lambda x: tuple(map(tuple, x.tolist())),
                           'Quantity': lambda x: Quantity(x, 'deg'), 'Tod': lambda x: Tod(x)}.items():
            ck.check(f'{cls.__name__} of {name}', types, cls, make)

    def invalid(cls, x):
        raises(ValueError, cls(header), x)
    for cls in (WCSToPixelOperator, WCSToWorldOperator):
        for x in (1., [1.], [1., 2, 3], np.ones((2, 3)), np.ones((2, 1)), np.ones((2, 4)), np.ones((3, 2, 0))):
            ck.check(f'{cls.__name__} of shape {np.shape(x)}', invalid, cls, x)

    def sources(source):
        arg = {'header': header, 'wcs': WCS(header), 'string': header.tostring()}[source]
        p = pixels((5, 6))
        same_array(WCSToWorldOperator(arg, 1)(p), WCSToWorldOperator(header, 1)(p), 'world', rtol=1e-14)
    for s in ('header', 'wcs'):
        ck.check(f'operator from a {s}', sources, s)

    def projection(name, crval, pa, origin):
        """ Other projections are inverted. """
        for prefix in (('RA---', 'DEC--'), ('GLON-', 'GLAT-')):
            h = create_fitsheader((5, 4), crval=crval, cdelt=0.5, pa=pa, ctype=tuple(p + name for p in prefix))
            p = pixels((5, 4)) - 1 + origin
            W, P = WCSToWorldOperator(h, origin), WCSToPixelOperator(h, origin)
            w = W(p)
            for back in (P(w), W.I(w), P.I.I(w)):
                require(np.abs(back - p).max() < 1e-8, f'{back} {p}')
            require(separation(P.I(p), w).max() < 1e-12, 'inverse')
            if name not in ('CAR',):
                require(separation(W(np.array([3., 2.5]) - 1 + origin), crval) < 1e-11, 'reference')
    for args in itertools.product(('TAN', 'SIN', 'ARC', 'STG', 'ZEA', 'CAR'), ((10., 0.), (10., 20.), (359., -70.)), (0, 35., -90), (0, 1)):
        if args[0] == 'CAR' and args[1][1]:
            continue
        ck.check(f'projection {args}', projection, *args)

    def scene(naxes, crval, pa):
        """ The scenes described by a header. """
        from pysimulators import SceneGrid
        h = create_fitsheader(naxes, crval=crval, cdelt=0.3, pa=pa)
        s = SceneGrid.fromfits(h)
        eq((s.shape, len(s), s.origin), (naxes[::-1], naxes[0] * naxes[1], 'lower'), 'scene')
        eq(repr(s.header), repr(h), 'header of the scene')
        part = s[::-1]
        eq((repr(part.header), part.shape, part.origin, part.index.tolist()), (repr(h), s.shape, 'lower', s.index.tolist()[::-1]), 'reversed scene')
        t = SceneGrid.fromfits(h, dtype=np.float32, a=np.zeros(s.shape))
        eq((t.dtype, t.a.shape, repr(t.header)), (np.dtype(np.float32), s.shape if t.a.ndim == 2 else (len(s),), repr(h)), 'scene with keywords')
        cd, crpix = expected_cd(0.3, pa, None), ((naxes[0] + 1) / 2, (naxes[1] + 1) / 2)
        xy = np.stack([s.column(), s.row()], -1)
        eq(sorted(map(tuple, xy.tolist())), sorted(itertools.product(range(naxes[0]), range(naxes[1]))), 'columns and rows')
        world = gnomonic(xy + 1, crpix, crval, cd)
        require(separation(s.toworld(xy.astype(float)), world).max() < 1e-11, 'world coordinates')
        back = s.topixel(np.asarray(world, float))
        require(np.abs(back - xy).max() < 1e-8, 'pixel coordinates')
        same_array(np.asarray(s.to1d(np.round(back).astype(int))), s.index, 'indices', dtype=None)
        same_array(np.asarray(s.toNd(s.index)), xy, 'columns and rows of the indices')
    for naxes, crval, pa in itertools.product(NAXES, CRVALS, PAS[:5]):
        ck.check(f'scene {naxes} {crval} {pa}', scene, naxes, crval, pa)


# ---- combination --------------------------------------------------------------------------------------------------------------------------------
FAMILY = [
    ((1, 1), (0., 0.), 3., 0., None), ((3, 3), (1., 1.), 1., 0., None), ((5, 4), (3., 3.), 1., 30., None), ((2, 2), (359.5, -1.), 0.7, -20., None), ((4, 2), (2., 0.5), (-0.5, 1.), 0., None),
    ((2, 3), (0., 2.), 1., 90., None), ((3, 2), (358., 0.), 1., 180., None), ((2, 2), (1., 0.), 1., 0., (-3, 5)), ((2, 5), (0.25, 0.), (0.5, 0.5), 10., None), ((1, 6), (359., 3.), 0.3, 45., (1, 1)),
    ((3, 3), (0., 0.), 1., 350., None), ((3, 3), (0., 0.), 1., 10., None), ((2, 2), (10., 5.), 1., 0., None), ((2, 2), (0., -8.), (-1., -1.), 0., None),
]
POLAR = [((3, 3), (ra, dec), 0.5, pa, None) for ra in (0., 90., 200.) for dec in (85., 89.5, 90.) for pa in (0., 100.)]


def make(spec):
    from pysimulators import create_fitsheader
    naxes, crval, cdelt, pa, crpix = spec
    return create_fitsheader(naxes, crval=crval, cdelt=cdelt, pa=pa, crpix=crpix)


def combine(ck, family, name, part, nparts):
    from pysimulators.wcsutils import combine_fitsheader, get_cdelt_pa

    def case(specs, cdelt, pa):
        hs = [make(s) for s in specs]
        before = [h.copy() for h in hs]
        h = combine_fitsheader(hs, cdelt=cdelt, pa=pa)
        for i, (a, b) in enumerate(zip(hs, before)):
            eq(a, b, 'input header')
        ck.state((specs, cdelt, pa))
        nx, ny = h['NAXIS1'], h['NAXIS2']
        require(nx == int(nx) > 0 and ny == int(ny) > 0, f'axes {nx} {ny}')
        cd = np.array([[h['CD1_1'], h['CD1_2']], [h['CD2_1'], h['CD2_2']]])
        crpix, crval = (h['CRPIX1'], h['CRPIX2']), (h['CRVAL1'], h['CRVAL2'])
        # the pixels of each header
        for s in specs:
            ecrpix = s[4] or ((s[0][0] + 1) / 2, (s[0][1] + 1) / 2)
            pix = pixels(s[0])
            world = gnomonic(pix, ecrpix, s[1], expected_cd(s[2], s[3], None))
            got = inverse(world, crpix, crval, cd)
            ck.transitions += len(pix)
            inside = (got[:, 0] >= 0.5 - 1e-6) & (got[:, 0] <= nx + 0.5 + 1e-6) & (got[:, 1] >= 0.5 - 1e-6) & (got[:, 1] <= ny + 0.5 + 1e-6)
            if not np.all(inside):
                i = int(np.flatnonzero(~inside)[0])
                raise Mismatch(f'the pixel {pix[i]} of {s} is at {got[i].astype(float)} in a map of {nx} x {ny} pixels')
        if len(specs) == 1 and cdelt is None and pa is None:
            eq(h, hs[0], 'single header')
            return
        # pixel size and angle
        geometry = [get_cdelt_pa(_) for _ in hs]
        ecdelt = cdelt if cdelt is not None else min(np.min(np.abs(c)) for c, _ in geometry)
        c, p = get_cdelt_pa(h)
        same_array(np.asarray(c), np.array(ecdelt, float) if np.ndim(ecdelt) else np.array([-ecdelt, ecdelt]), 'pixel size', rtol=1e-12)
        if pa is not None:
            require(abs((p - pa + 180) % 360 - 180) < 1e-10, f'angle {p}, expected {pa}')
        else:
            a = np.deg2rad([_ for __, _ in geometry])
            spread = np.abs((np.rad2deg(a - a[0]) + 180) % 360 - 180)
            if spread.max() < 89:
                d = (np.rad2deg(a - a[0]) + 180) % 360 - 180
                require(abs((p - np.rad2deg(a[0]) - d.mean() + 180) % 360 - 180) < 1e-9, f'mean angle: got {p}')

    options = [(None, None), (0.5, None), (None, 25.), ((-0.4, 0.8), -100.), (2., 0.)]
    kmax = 2 if ck.quick or name != 'equator' else 3
    i = 0
    for k in range(1, kmax + 1):
        for specs in itertools.combinations(family, k):
            for cdelt, pa in options if k < 3 else options[:3]:
                i += 1
                if i % nparts == part:
                    ck.check(f'combine {specs} cdelt={cdelt} pa={pa}', case, specs, cdelt, pa)
    if part == 0:
        def single(spec):
            h = make(spec)
            eq(combine_fitsheader(h), h, 'header')
            case((spec,), 0.3, None)
            case((spec, spec), None, None)
        for spec in family:
            ck.check(f'single {spec}', single, spec)


def inverse(world, crpix, crval, cd):
    """ Pixel coordinates by trigonometry. """
    w = np.deg2rad(np.asarray(world, np.longdouble))
    a0, d0 = np.deg2rad(np.longdouble(crval[0])), np.deg2rad(np.longdouble(crval[1]))
    da = w[..., 0] - a0
    den = np.sin(w[..., 1]) * np.sin(d0) + np.cos(w[..., 1]) * np.cos(d0) * np.cos(da)
    xi = np.rad2deg(np.cos(w[..., 1]) * np.sin(da) / den)
    eta = np.rad2deg((np.sin(w[..., 1]) * np.cos(d0) - np.cos(w[..., 1]) * np.sin(d0) * np.cos(da)) / den)
    if crval[1] == 90:
        xi, eta = -xi, -eta
    (a, b), (c, d) = cd
    det = np.longdouble(a) * d - np.longdouble(b) * c
    return np.stack([(d * xi - b * eta) / det + crpix[0], (-c * xi + a * eta) / det + crpix[1]], -1)


def scenarios(tier):
    out = [(f'headers {c}', lambda ck, c=c: headers(ck, c)) for c in CRVALS]
    out += [('keywords', keywords), ('operators', operators)]
    out += [(f'combine {i}', lambda ck, i=i: combine(ck, FAMILY, 'equator', i, 4)) for i in range(4)]
    out += [(f'combine poles {i}', lambda ck, i=i: combine(ck, POLAR, 'poles', i, 2)) for i in range(2)]
    return out
