"""C19: DIC files load with the values they contain."""
import os
from pathlib import Path

import numpy as np

from vt import build
from vt.core import Stream

PROPERTY = 'C19'
RULE = ('DaVis, OpenPIV (text, npz) and PyVale (csv, binary) files written '
        'by the monitor from a random displacement field on a grid (shape, '
        'spacing, origin, row order, missing points) and loaded through '
        'hrdic.Map; every grid point compared with the displacement written '
        'for its coordinate; inconsistent files must be refused; distinct by '
        'content')
ASSUMPTIONS = ['points are listed row by row; rows of OpenPIV files in '
               'either order', 'the map has its rows in ascending y',
               'points missing from a PyVale file are not judged']
REQUIRE = {'stream:davis': 20, 'stream:openpiv_text': 20,
           'stream:openpiv_binary': 20, 'stream:pyvale': 20,
           'verdict:displacement': 1000, 'descending': 10, 'ascending': 10,
           'offset_origin': 15, 'missing_points': 5, 'verdict:refuse': 50,
           'verdict:corr_val': 10, 'verdict:pattern': 10,
           'verdict:refuse_pattern': 10, 'verdict:refuse_corr': 10}


class Grid:
    pass


def grid(rng, integer=False, odd=True):
    g = Grid()
    g.shape = h, w = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    if rng.random() < .04:
        g.shape = h, w = build.long_shape(rng, most=400)
    g.binning = b = int(rng.choice([2, 4, 8, 12, 16, 5, 100, 128] if odd else
                                   [2, 4, 8, 12, 16, 120]))
    kind = str(rng.choice(['half', 'half', 'offset', 'zero', 'far']))
    if kind == 'half':
        o = (b // 2, b // 2) if integer else (b / 2, b / 2)
    elif kind == 'zero':
        o = (0, 0)
    elif kind == 'offset':
        o = tuple(int(v) for v in rng.integers(1, 3 * b, 2))
    else:
        o = tuple(int(v) for v in rng.integers(500, 3000, 2))
    g.origin_kind = kind
    g.origin = o
    g.coord = build.dic_coords(g.shape, b, o)
    g.disp = np.round(build.smooth_disp(rng, g.shape, amp=20), 4)
    if rng.random() < .3:
        g.disp = np.round(rng.normal(0, 100, (2, h, w)), 4)
    return g


def dic(path, data_type=None):
    from defdap import hrdic
    from defdap.experiment import Experiment
    return hrdic.Map(path, data_type=data_type, experiment=Experiment())


def check_map(ctx, g, m, known=None):
    ctx.equal(tuple(int(v) for v in m.shape), g.shape, 'shape')
    ctx.equal((int(m.ydim), int(m.xdim)), g.shape, 'dims')
    ctx.close(float(m.binning), g.binning, 'binning', atol=0)
    coord = np.array(m.data.coordinate, float)
    disp = np.array(m.data.displacement, float)
    ctx.close(coord, g.coord, 'coordinate', atol=1e-9)
    if known is None:
        known = np.ones(g.shape, bool)
    ctx.equal(disp.shape, (2,) + g.shape, 'shape')
    ctx.close(disp[:, known], g.disp[:, known], 'displacement', atol=1e-9)
    ctx.observe('offset_origin', g.origin_kind != 'half')
    # derived strain of the same points: rows must run with y
    if known.all():
        dy = np.gradient(g.disp[0], g.binning, axis=0)
        dx = np.gradient(g.disp[1], g.binning, axis=1)
        f = np.array(m.data.f, float)
        ctx.close(f[0, 1], dy, 'gradient', atol=1e-9)
        ctx.close(f[1, 0], dx, 'gradient', atol=1e-9)


def describe(ctx, g, **kw):
    ctx.describe(distinct=[g.shape, g.binning, g.disp.tobytes().hex()[:60]],
                 shape=g.shape, binning=g.binning, origin=g.origin, **kw)


def davis(ctx, rng, i):
    g = grid(rng)
    path = build.write_davis(build.scratch_file(ctx.scratch, '.txt'), g.coord,
                             g.disp, g.binning,
                             version=str(rng.choice(['8.4.0', '10.1.2'])))
    describe(ctx, g)
    try:
        m = dic(path if rng.integers(2) else Path(path),
                [None, 'Davis', 'davis'][rng.integers(3)])
        check_map(ctx, g, m)
        ctx.check(m.format == 'DaVis', 'format', got=m.format)
    finally:
        os.remove(path)


def write_openpiv(path, g, rows, flags):
    with open(path, 'w') as f:
        f.write('# x\ty\tu\tv\tflags\tmask\n')
        for j in rows:
            for i in range(g.shape[1]):
                f.write('\t'.join('%.4f' % v for v in (
                    *g.coord[:, j, i], *g.disp[:, j, i])) +
                    ('\t0.0000\t0.0000' if flags else '') + '\n')


def openpiv_text(ctx, rng, i):
    g = grid(rng)
    desc = bool(rng.integers(2))
    ctx.observe('descending' if desc else 'ascending')
    rows = range(g.shape[0])
    path = build.scratch_file(ctx.scratch, '.txt')
    write_openpiv(path, g, rows[::-1] if desc else rows, rng.integers(2))
    describe(ctx, g, descending=desc)
    try:
        m = dic(path, str(rng.choice(['OpenPIV', 'OpenPIVText', 'openpiv'])))
        check_map(ctx, g, m)
    finally:
        os.remove(path)


def openpiv_binary(ctx, rng, i):
    g = grid(rng)
    desc = bool(rng.integers(2))
    ctx.observe('descending' if desc else 'ascending')
    s = slice(None, None, -1) if desc else slice(None)
    path = build.scratch_file(ctx.scratch, '.npz')
    np.savez(path, format='OpenPIV', version='0.25', binning=g.binning,
             shape=np.array(g.shape), x=g.coord[0, s], y=g.coord[1, s],
             u=g.disp[0, s], v=g.disp[1, s])
    describe(ctx, g, descending=desc)
    try:
        check_map(ctx, g, dic(path, 'OpenPIVBinary'))
    finally:
        os.remove(path)


PYVALE = np.dtype([('x', '<i4'), ('y', '<i4'), ('u', '<f8'), ('v', '<f8'),
                   ('m', '<f8'), ('c', 'u1'), ('cost', '<f8'), ('ftol', '<f8'),
                   ('xtol', '<f8'), ('n', '<i4')])


def pyvale_records(rng, g, keep):
    idx = [k for k in np.ndindex(*g.shape) if keep[k]]
    a = np.zeros(len(idx), PYVALE)
    for n, k in enumerate(idx):
        a[n] = (*(int(v) for v in g.coord[(slice(None),) + k]),
                *g.disp[(slice(None),) + k],
                np.hypot(*g.disp[(slice(None),) + k]), 1,
                *rng.uniform(0, 1e-3, 3), rng.integers(1, 50))
    return a


def write_pyvale(path, a, csv):
    if csv:
        with open(path, 'w') as f:
            f.write('subset_x,subset_y,displacement_u,displacement_v,'
                    'displacement_mag,converged,cost,ftol,xtol,num_iter\n')
            for r in a:
                f.write(','.join(repr(v) for v in r.tolist()) + '\n')
    else:
        Path(path).write_bytes(a.tobytes())


def pyvale(ctx, rng, i):
    g = grid(rng, integer=True)
    keep = np.ones(g.shape, bool)
    kind = str(rng.choice(['full', 'full', 'holes', 'roi']))
    if kind == 'holes':
        keep = rng.random(g.shape) > .2
    elif kind == 'roi':
        y, x = np.indices(g.shape)
        h, w = g.shape
        keep = ((y - (h - 1) / 2) / (h / 2)) ** 2 + (
            (x - (w - 1) / 2) / (w / 2)) ** 2 <= 1
        ctx.observe('roi')
    # the grid is told from the points: first and last row and column and two
    # neighbouring ones are present
    for ax in (0, 1):
        n = g.shape[ax]
        line = np.moveaxis(keep, ax, 0)
        if n > 4 and kind != 'full' and rng.random() < .4:
            line[rng.integers(1, n - 2)] = False     # none in a whole line
            ctx.observe('missing_line')
    for ax in (0, 1):
        n = g.shape[ax]
        line = np.moveaxis(keep, ax, 0)
        other = int(rng.integers(g.shape[1 - ax]))
        for k in (0, n - 1, n - 2):
            line[k, other] = True
    ctx.observe('missing_points', not keep.all())
    csv = bool(rng.integers(2))
    path = build.scratch_file(ctx.scratch, '.csv' if csv else '.bin')
    write_pyvale(path, pyvale_records(rng, g, keep), csv)
    describe(ctx, g, kind=kind, csv=csv)
    try:
        m = dic(path, str(rng.choice(['PyVale-', 'pyvale-'])) +
                ('csv' if csv else 'binary'))
        check_map(ctx, g, m, keep)
    finally:
        os.remove(path)


def refuse(ctx, rng, i):
    g = grid(rng, integer=True, odd=False)
    h, w = g.shape
    path = build.scratch_file(ctx.scratch, '.txt')
    kind = i % 10
    exc, dt = Exception, None
    try:
        if kind == 0:
            what, exc = 'missing', FileNotFoundError
            dt = str(rng.choice(['Davis', 'OpenPIV', 'OpenPIVBinary',
                                 'PyVale-csv', 'PyVale-binary']))
        elif kind == 1:
            what = 'davis header binning'
            build.write_davis(path, g.coord, g.disp, g.binning + int(
                rng.choice([-1, 1, g.binning])))
            exc = ValueError
        elif kind == 2:
            what = 'davis header shape'
            other = (h, w)
            while other == (h, w):
                other = [(w, h), (h + 1, w), (h, w - 1), (1, h * w),
                         (2 * h, w)][rng.integers(5)]
            build.write_davis(path, g.coord, g.disp, g.binning, shape=other)
            exc = ValueError
        elif kind == 3:
            what = 'davis rectangular spacing'
            c = g.coord.copy()
            c[int(rng.integers(2))] *= 2
            build.write_davis(path, c, g.disp, g.binning)
            exc = ValueError
        elif kind == 4:
            what = 'davis truncated'
            build.write_davis(path, g.coord, g.disp, g.binning)
            lines = Path(path).read_text().splitlines(True)
            Path(path).write_text(''.join(lines[:-int(rng.integers(
                1, h * w))]))
            # a single value per point has no y coordinate to check
            exc = (ValueError, IndexError)
        elif kind == 5:
            what, dt = 'openpiv rectangular spacing', 'OpenPIV'
            g.coord[int(rng.integers(2))] *= 2
            write_openpiv(path, g, range(h)[::-1], True)
        elif kind == 6:
            what, dt = 'openpiv binary header', 'OpenPIVBinary'
            os.rename(path, path) if os.path.exists(path) else None
            b, s = g.binning, g.shape
            if rng.integers(2):
                b = b + int(rng.choice([-1, 1, b]))
            else:
                s = [(h + 1, w), (h, w + 1), (h - 1, w)][rng.integers(3)]
            with open(path, 'wb') as f:
                np.savez(f, format='OpenPIV', version='0', binning=b,
                         shape=np.array(s), x=g.coord[0, ::-1],
                         y=g.coord[1, ::-1], u=g.disp[0, ::-1],
                         v=g.disp[1, ::-1])
            exc = ValueError
        elif kind == 7:
            what, dt = 'pyvale rectangular spacing', 'PyVale-binary'
            g.coord[int(rng.integers(2))] *= 2
            write_pyvale(path, pyvale_records(rng, g, np.ones(g.shape, bool)),
                         False)
        elif kind == 8:
            what, exc = 'unknown type', ValueError
            build.write_davis(path, g.coord, g.disp, g.binning)
            dt = str(rng.choice(['Foo', 'GOM', 'pyvale-foo', 'PyVale',
                                 'pyvale-txt']))
        else:
            what, dt = 'openpiv truncated', 'OpenPIV'
            write_openpiv(path, g, range(h)[::-1], True)
            lines = Path(path).read_text().splitlines(True)
            # not whole rows, which would be another, complete grid
            n = int(rng.integers(1, w))
            Path(path).write_text(''.join(lines[:-n]))
        ctx.describe(distinct=[what, i], what=what, shape=g.shape)
        with ctx.raises(exc, 'refuse', what=what):
            dic(path, dt)
    finally:
        if os.path.exists(path):
            os.remove(path)


def images(ctx, rng, i):
    from matplotlib.image import imsave
    g = grid(rng, integer=True, odd=False)
    h, w = g.shape
    m = build.dic_map(ctx.scratch, g.disp, g.binning)
    ctx.describe(distinct=[i, g.shape], shape=g.shape)
    path = build.scratch_file(ctx.scratch, '.txt')
    png = build.scratch_file(ctx.scratch, '.png')
    try:
        v = np.round(rng.uniform(0, 1, (h, w)), 4)

        def write(a):
            with open(path, 'w') as f:
                f.write('#DaVis 8.4.0 2D-image %d %d\n' % a.shape)
                for row in a:
                    f.write('\t'.join('%.4f' % x for x in row) + '\n')
        with ctx.raises(FileNotFoundError, 'refuse_corr'):
            m.load_corr_val_data(path)
        write(v)
        m.load_corr_val_data(path if rng.integers(2) else Path(path))
        ctx.close(np.array(m.corr_val, float), v, 'corr_val', atol=1e-9)
        bad = [(h + 1, w), (h, w + 1), (h - 1, w), (h, w - 1)]
        write(rng.uniform(0, 1, bad[rng.integers(4)]))
        with ctx.raises(Exception, 'refuse_corr'):
            m.load_corr_val_data(path)

        with ctx.raises(FileNotFoundError, 'refuse_pattern'):
            m.load_pattern()
        k = int(rng.choice([1, 2, 4]))
        img = rng.integers(0, 256, (h * k, w * k, 3)).astype('uint8')
        ph, pw = [(h * k, w * k), (h * k + 1, w * k), (h * k, w * k - 1),
                  (h, w) if k > 1 else (2 * h, 2 * w), (w * k, h * k)][
            rng.integers(5)]
        if rng.random() < .5:
            ph, pw = h * k, w * k
        # grey image of the intensities (8 bit PNG written by hand)
        grey = rng.integers(0, 256, (ph, pw)).astype('uint8')
        write_grey_png(png, grey)
        name = png
        if rng.integers(2):            # relative to the folder of the data
            name = os.path.relpath(png, m.file_name.parent)
            if rng.integers(2):
                sub = os.path.join(str(m.file_name.parent), 'sub')
                os.makedirs(sub, exist_ok=True)
                name = os.path.join('sub', os.path.basename(png))
                write_grey_png(os.path.join(sub, os.path.basename(png)),
                               grey)
                os.remove(png)
        m.set_pattern(name, k)
        if (ph, pw) == (h * k, w * k):
            got = np.array(m.data.pattern, float)
            ctx.close(got, grey / 255, 'pattern', atol=1e-6)
            imsave(png, img)
            m2 = build.dic_map(ctx.scratch, g.disp, g.binning)
            m2.set_pattern(png, k)
            with ctx.raises(ValueError, 'refuse_pattern', what='colour'):
                m2.load_pattern()
        else:
            with ctx.raises(ValueError, 'refuse_pattern', shape=(ph, pw),
                            expected=(h * k, w * k)):
                m.load_pattern()
    finally:
        for p in (path, png):
            if os.path.exists(p):
                os.remove(p)


def write_grey_png(path, a):
    import struct
    import zlib

    def chunk(tag, data):
        return (struct.pack('>I', len(data)) + tag + data +
                struct.pack('>I', zlib.crc32(tag + data)))
    h, w = a.shape
    raw = b''.join(b'\0' + a[k].tobytes() for k in range(h))
    Path(path).write_bytes(
        b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack(
            '>IIBBBBB', w, h, 8, 0, 0, 0, 0)) +
        chunk(b'IDAT', zlib.compress(raw)) + chunk(b'IEND', b''))


STREAMS = [Stream('davis', 60, 1500, davis),
           Stream('openpiv_text', 80, 1500, openpiv_text),
           Stream('openpiv_binary', 80, 1500, openpiv_binary),
           Stream('pyvale', 80, 1500, pyvale),
           Stream('refuse', 120, 2000, refuse),
           Stream('images', 50, 800, images)]
