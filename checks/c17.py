"""C17: EBSD files load with the values they contain."""
import os
from pathlib import Path

import numpy as np

from vt import build, ref
from vt.core import Stream

PROPERTY = 'C17'
RULE = ('files of each format written byte by byte by the monitor from random '
        'ground truth (shape, step, phases, channel order, unknown channels, '
        'EDX windows, comments, extra header lines) and loaded through '
        'ebsd.Map and the loaders; every channel compared point by point; '
        'corrupted and incomplete files must be refused; distinct by '
        'content')
ASSUMPTIONS = ['.ang phase numbers are zero based; first Euler angle turned '
               'by -90 degrees (EDAX to Oxford axes), as the loader states',
               'lattice parameters are rounded to 3 decimals']
REQUIRE = {'stream:ctf': 20, 'stream:crc': 20, 'stream:ang': 20,
           'stream:dict': 20, 'verdict:euler': 100, 'verdict:phase': 100,
           'verdict:refuse': 50, 'unknown_field_mid': 5, 'edx': 5,
           'two_phases': 10, 'header_words': 3, 'odd_name': 3}


class Truth:
    pass


def truth(rng, max_dim=12):
    t = Truth()
    t.shape = (int(rng.integers(1, max_dim)), int(rng.integers(1, max_dim)))
    if rng.random() < .04:
        t.shape = build.long_shape(rng)
    n = int(rng.choice([1, 1, 2, 2, 3, 3, 4, 6, 14]))
    t.phases = []
    for k in range(n):
        hexa = bool(rng.integers(2))
        a = round(float(rng.uniform(2, 6)), int(rng.integers(2, 5)))
        c = round(a * float(rng.uniform(1.4, 1.8)), 3) if hexa else a
        t.phases.append(dict(
            name=str(rng.choice(['Ni-superalloy', 'Ti', 'Iron', 'Zr_alpha',
                                 'phase%d' % k, 'X'])),
            laue=9 if hexa else 11,
            sg=194 if hexa else int(rng.choice([225, 229, 227])),
            dims=(a, a, c), angles=(90., 90., 120. if hexa else 90.)))
    t.step = round(float(rng.uniform(.01, 5)), 4)
    t.phase = rng.integers(0, n + 1, t.shape).astype('uint8')
    t.euler = np.degrees(ref.random_eulers(rng, t.shape)).astype('float32')
    for ch in ('BC', 'BS', 'bands', 'error', 'AFI'):
        setattr(t, ch, rng.integers(0, 256, t.shape).astype('uint8'))
    t.MAD = rng.uniform(0, 2, t.shape).astype('float32')
    t.IB6 = rng.normal(0, 1, t.shape).astype('float32')
    t.acq = tuple(round(float(v), 4) for v in rng.uniform(0, 180, 3)
                  ) if rng.integers(2) else (0., 0., 0.)
    return t


def load(ctx, rng, path, types):
    """Through the map or through the loader."""
    from defdap import ebsd
    from defdap.experiment import Experiment
    from defdap.file_readers import EBSDDataLoader
    dt = types[rng.integers(len(types))]
    em = ebsd.Map(path if rng.integers(2) else Path(path), data_type=dt,
                  experiment=Experiment())
    loader = EBSDDataLoader.get_loader(dt, Path(path))
    loader.load(Path(path))
    return em, loader


def check_phases(ctx, t, phases, name_of=lambda p: p['name']):
    ctx.equal(len(phases), len(t.phases), 'n_phases')
    ctx.observe('many_phases', len(t.phases) > 9)
    for got, want in zip(phases, t.phases):
        ctx.check(got.name == name_of(want), 'phase_name', got=got.name,
                  want=want)
        hexa = want['laue'] == 9
        ctx.equal(got.laue_group, want['laue'], 'laue')
        ctx.check(got.crystal_structure.name ==
                  ('hexagonal' if hexa else 'cubic'), 'structure', want=want)
        ctx.close(got.lattice_params[:3], want['dims'], 'lattice',
                  atol=5.01e-4)
        ctx.close(np.degrees(got.lattice_params[3:]), want['angles'],
                  'lattice_angles', atol=5.01e-4)
        has = hexa or want['sg'] in (225, 229)
        ctx.check((got.slip_systems is not None) == has, 'slip_systems',
                  want=want)
    ctx.observe('two_phases', len(t.phases) > 1)


def check_map(ctx, t, em, loader, channels, euler):
    for o, src in ((em.data, 'map'), (loader.loaded_data, 'loader')):
        ctx.equal(np.array(o.phase), t.phase, 'phase', src=src)
        ctx.close(np.array(o.euler_angle), euler, 'euler', atol=3e-6, src=src)
        for name, want in channels.items():
            ctx.close(np.array(o[name], float), np.asarray(want, float),
                      'channel', atol=1e-6, rtol=1e-6, src=src, name=name)
    ctx.equal(tuple(em.shape), t.shape, 'shape')
    ctx.equal((em.y_dim, em.x_dim), t.shape, 'dims')
    ctx.equal(tuple(loader.loaded_metadata['shape']), t.shape, 'shape')
    for s in (em.step_size, loader.loaded_metadata['step_size']):
        ctx.close(s, t.step, 'step_size', atol=1e-9)
    # orientations come from the same points
    i, j = (int(v) for v in ctx_point(t))
    q = em.data.orientation[i, j]
    ctx.close(np.array(q.rot_matrix()), ref.bunge(*euler[:, i, j]),
              'orientation', atol=1e-5)


def ctx_point(t):
    return (t.shape[0] - 1, t.shape[1] // 2)


def check_acq(ctx, t, loader):
    ctx.close(np.array(loader.loaded_metadata['acquisition_rotation']
                       .rot_matrix()), ref.bunge(*np.radians(t.acq)),
              'acquisition', atol=1e-9)


# ---- ctf -------------------------------------------------------------------
COLS = {'Phase': 'phase', 'X': 'x', 'Y': 'y', 'Bands': 'bands', 'Error':
        'error', 'Euler1': 'e0', 'Euler2': 'e1', 'Euler3': 'e2', 'MAD': 'MAD',
        'BC': 'BC', 'BS': 'BS'}


def write_ctf(path, t, cols, extra=(), acq=True, drop_rows=0, phases=None,
              order=None):
    y, x = np.indices(t.shape) * t.step
    val = dict(phase=t.phase, x=x, y=y, bands=t.bands, error=t.error,
               e0=t.euler[0], e1=t.euler[1], e2=t.euler[2], MAD=t.MAD,
               BC=t.BC, BS=t.BS)
    head = [f'XCells\t{t.shape[1]}', f'YCells\t{t.shape[0]}',
            f'XStep\t{t.step}', f'YStep\t{t.step}']
    if acq:
        head += [f'AcqE{k + 1}\t{t.acq[k]}' for k in range(3)]
    lines = ['Channel Text File', *extra, 'JobMode\tGrid',
             *[head[k] for k in (order if order is not None
                                 else range(len(head)))],
             'Euler angles refer to Sample Coordinate system (CS0)!\tMag\t'
             '500\tCoverage\t100\tDevice\t0\tKV\t20\tTiltAngle\t70\tTiltAxis'
             '\t0', f'Phases\t{len(t.phases)}']
    for p in (phases or t.phases):
        lines.append(';'.join('%.4f' % v for v in p['dims']) + '\t' +
                     ';'.join('%.3f' % v for v in p['angles']) +
                     f"\t{p['name']}\t{p['laue']}\t{p['sg']}\t\t\tsome "
                     f"comment")
    lines.append('\t'.join(cols))
    rows = list(np.ndindex(*t.shape))
    for idx in rows[:len(rows) - drop_rows]:
        lines.append('\t'.join(
            '%d' % val[COLS[c]][idx] if COLS[c] in (
                'phase', 'bands', 'error', 'BC', 'BS')
            else '%.7g' % val[COLS[c]][idx] if c in COLS else '1'
            for c in cols))
    Path(path).write_text('\n'.join(lines) + '\n')


def ctf(ctx, rng, i):
    t = truth(rng)
    cols = list(COLS)
    if rng.random() < .6:
        cols = [cols[k] for k in rng.permutation(len(cols))]
    drop = [c for c in ('X', 'Y', 'Bands', 'Error') if rng.random() < .2]
    cols = [c for c in cols if c not in drop]
    extra = [s for s in ('Prj\tC:\\data\\sample 2.cpr', 'Author\t[Unknown]')
             if rng.random() < .7]
    words = rng.random() < .25
    if words:
        # free text of the header that mentions names of header entries
        extra.append(str(rng.choice([
            'Prj\tC:\\EBSD\\Dual Phases 3.cpr', 'Author\tXStep',
            'Prj\tD:\\AcqE1 test\\map 1.cpr', 'Prj\tC:\\YCells\\a.cpr'])))
        ctx.observe('header_words')
    acq = bool(rng.random() < .8)
    if not acq:
        t.acq = (0., 0., 0.)
    n = 7 if acq else 4
    order = rng.permutation(n) if rng.random() < .3 else None
    path = build.scratch_file(ctx.scratch, '.ctf')
    write_ctf(path, t, cols, extra, acq, order=order)
    ctx.describe(distinct=[t.shape, t.euler.tobytes().hex()[:60], cols],
                 shape=t.shape, cols=cols, extra=extra,
                 phases=t.phases)
    try:
        em, loader = load(ctx, rng, path, [None, 'OxfordText', 'oxfordtext'])
    finally:
        os.remove(path)
    check_phases(ctx, t, em.phases)
    check_acq(ctx, t, loader)
    check_map(ctx, t, em, loader,
              dict(band_contrast=t.BC, band_slope=t.BS,
                   mean_angular_deviation=t.MAD),
              np.radians(t.euler.astype(float)))


# ---- cpr / crc -------------------------------------------------------------
FIELDS = {3: 'e0', 4: 'e1', 5: 'e2', 6: 'MAD', 7: 'BC', 8: 'BS', 10: 'bands',
          11: 'AFI', 12: 'IB6'}
BYTE = ('BC', 'BS', 'bands', 'AFI')


def write_cpr(path, t, fields, edx, rng, phases=None, missing=()):
    g = []

    def group(name, items):
        if name in missing:
            return
        lines = [f'[{name}]'] + [f'{k}={v}' for k, v in items
                                 if f'{name}/{k}' not in missing]
        g.append((name, lines))

    group('General', [('Version', '5.0'), ('Description', 'a b'),
                      ('Notes', ''), ('JobMode', 'RegularGrid')])
    group('Job', [('Coverage', 94.1), ('TiltAngle', 70.),
                  ('GridDistX', t.step), ('GridDistY', t.step),
                  ('xCells', t.shape[1]), ('yCells', t.shape[0])])
    group('Acquisition Surface', [(f'Euler{k + 1}', t.acq[k])
                                  for k in range(3)])
    group('Fields', [('Count', len(fields))] +
          [(f'Field{k + 1}', f) for k, f in enumerate(fields)])
    ph = phases or t.phases
    group('Phases', [('Count', len(ph))])
    for k, p in enumerate(ph):
        group(f'Phase{k + 1}', [
            ('StructureName', p['name']), ('Reference', 'none'),
            ('Enabled', 'True'), *zip('abc', p['dims']),
            *zip(('alpha', 'beta', 'gamma'), p['angles']),
            ('LaueGroup', p['laue'])] +
            ([('SpaceGroup', p['sg'])] if p.get('write_sg', True) else []) +
            [('ID1', ''), ('ID2', '')])
    group('Maximum indices', [('Phase1', 444)])
    if edx:
        group('EDX Windows', [('Count', len(edx))] +
              [(f'Window{k + 1}', n) for k, n in enumerate(edx)])
    if rng.random() < .4:
        g = [g[k] for k in rng.permutation(len(g))]
    out = []
    for name, lines in g:
        if rng.random() < .1:           # text that sets nothing
            lines.insert(int(rng.integers(1, len(lines) + 1)),
                         str(rng.choice(['', ' ', 'a word'])))
        out += lines
        if rng.random() < .3:
            out.append(str(rng.choice(['', '  ', '\t'])) +
                       '; a comment [with brackets]')
        if rng.random() < .3:
            out.append('')
    if rng.random() < .2:
        out.insert(0, '; leading comment')
    Path(path).write_text('\n'.join(out) + '\n')


def crc_bytes(t, fields, values, n=None):
    dt = [('phase', 'u1')]
    for k, f in enumerate(fields):
        dt.append((f'f{k}', '<f4' if FIELDS.get(f) not in BYTE else 'u1'))
    a = np.zeros(t.phase.size, dt)
    a['phase'] = t.phase.ravel()
    for k, f in enumerate(fields):
        a[f'f{k}'] = values[f].ravel()
    return a.tobytes()


def crc_files(ctx, rng, t, with_unknown=None):
    fields = list(FIELDS)
    if rng.random() < .6:
        fields = [fields[k] for k in rng.permutation(len(fields))]
    fields = [f for f in fields if f not in (10, 11, 12) or rng.random() < .7]
    edx = []
    if rng.random() < .4:
        edx = [str(e) for e in rng.permutation(
            ['Ni', 'Ti', 'Al K', 'O', 'Al L', 'Fe', 'C', 'N'])[
                :rng.choice([1, 2, 3, 8])]]
        ctx.observe('edx')
        for k in range(len(edx)):
            fields.insert(int(rng.integers(len(fields) + 1)), 101 + k)
    unknown = int(rng.choice([0, 0, 1, 2])) if with_unknown is None else \
        with_unknown
    ids = rng.permutation([1, 2, 9, 13, 14, 22, 33, 60])
    for k in range(unknown):
        pos = int(rng.integers(len(fields) + 1))
        ctx.observe('unknown_field_mid', pos < len(fields))
        fields.insert(pos, int(ids[k]))
    rad = np.radians(t.euler.astype(float)).astype('float32')
    values = {3: rad[0], 4: rad[1], 5: rad[2], 6: t.MAD, 7: t.BC, 8: t.BS,
              10: t.bands, 11: t.AFI, 12: t.IB6}
    for f in fields:
        if f not in values:
            values[f] = rng.normal(0, 100, t.shape).astype('float32')
    return fields, edx, values, rad


def crc(ctx, rng, i):
    t = truth(rng)
    for p in t.phases:
        if rng.random() < .15:
            p['write_sg'] = False
            p['sg'] = 0 if p['laue'] == 11 else p['sg']
    fields, edx, values, rad = crc_files(ctx, rng, t)
    base = build.scratch_file(ctx.scratch, '')
    dotted = rng.random() < .3
    if dotted:                       # full stops in the name
        base += '.v1.2'
        ctx.observe('dotted')
    write_cpr(base + '.cpr', t, fields, edx, rng)
    Path(base + '.crc').write_bytes(crc_bytes(t, fields, values))
    ctx.describe(distinct=[t.shape, t.euler.tobytes().hex()[:60], fields],
                 shape=t.shape, fields=fields, edx=edx, phases=t.phases)
    try:
        em, loader = load(ctx, rng, base + str(rng.choice(
            ['', '.cpr', '.crc'][dotted:])), [None, 'OxfordBinary', 'oxfordbinary'])
    finally:
        os.remove(base + '.cpr')
        os.remove(base + '.crc')
    check_phases(ctx, t, em.phases)
    check_acq(ctx, t, loader)
    ch = dict(band_contrast=t.BC, band_slope=t.BS,
              mean_angular_deviation=t.MAD)
    for k, n in enumerate(edx):
        ch['EDX ' + n] = values[101 + k]
    check_map(ctx, t, em, loader, ch, rad)


# ---- ang -------------------------------------------------------------------
def write_ang(path, t, cols10, phases=None, grid='SqrGrid', n_cols=10,
              drop_rows=0, numbers=None, new_style=False):
    lines = ['# TEM_PIXperUM          1.000000', '# x-star 0.49',
             '# WorkingDirectory 20.0', '#']
    if new_style:
        lines = ['# HEADER: Start', '#'] + lines
    for k, p in enumerate(phases or t.phases):
        lines += [f'# Phase {k + 1 if numbers is None else numbers[k]}',
                  f"# MaterialName  \t{p['name']}", '# Formula     \t' +
                  p['name'].split()[0], '# Info \t\t',
                  f"# Symmetry              {p['sym']}",
                  '# LatticeConstants      ' + ' '.join(
                      '%.4f' % v for v in p['dims']) + '  ' + '  '.join(
                      '%.3f' % v for v in p['angles']),
                  '# NumberFamilies        2',
                  '# hklFamilies   \t 1  1  1 1 0.000000 1',
                  '# hklFamilies   \t 2  0  0 1 0.000000 1',
                  '# Categories 0 0 0 0 0 ', '#']
    lines += [f'# GRID: {grid}', f'# XSTEP: {t.step:.6f}',
              f'# YSTEP: {t.step:.6f}', f'# NCOLS_ODD: {t.shape[1]}',
              f'# NCOLS_EVEN: {t.shape[1]}', f'# NROWS: {t.shape[0]}', '#',
              '# OPERATOR: \tsupervisor', '#', '# SAMPLEID: \t', '#',
              '# SCANID: \t', '#']
    if new_style:
        lines += ['# COLUMN_COUNT: 10', '# COLUMN_HEADERS: phi1, PHI, phi2, '
                  'x, y, IQ, CI, Phase index, SEM, Fit', '# HEADER: End']
    rows = list(np.ndindex(*t.shape))
    for idx in rows[:len(rows) - drop_rows]:
        vals = [c[idx] for c in cols10][:n_cols]
        lines.append('  ' + ' '.join('%d' % v if k == 7 else '%.7g' % v
                                     for k, v in enumerate(vals)))
    Path(path).write_text('\n'.join(lines) + '\n')


def ang_truth(rng):
    t = truth(rng)
    for p in t.phases:
        p['sym'] = '6/mmm' if p['laue'] == 9 else str(rng.choice(
            ['43', 'm3m']))
        p['sg'] = 229 if p['laue'] == 11 else p['sg']
    t.phase = rng.integers(1, len(t.phases) + 1, t.shape).astype('uint8')
    rad = np.radians(t.euler.astype(float)).astype('float32')
    t.rad = rad
    y, x = np.indices(t.shape) * t.step
    t.IQ = rng.uniform(0, 5000, t.shape).astype('float32')
    t.CI = rng.uniform(-1, 1, t.shape).astype('float32')
    t.FF = rng.uniform(0, 3, t.shape).astype('float32')
    sem = rng.integers(0, 2, t.shape).astype('float32')
    t.cols = [rad[0], rad[1], rad[2], x, y, t.IQ, t.CI,
              t.phase.astype(int) - 1, sem, t.FF]
    return t


def ang(ctx, rng, i):
    t = ang_truth(rng)
    if rng.random() < .2:
        t.phases[0]['name'] = 'Iron - Alpha'
        ctx.observe('odd_name')
    path = build.scratch_file(ctx.scratch, '.ang')
    write_ang(path, t, t.cols, new_style=bool(rng.integers(2)))
    ctx.describe(distinct=[t.shape, t.rad.tobytes().hex()[:60]],
                 shape=t.shape, phases=t.phases)
    try:
        em, loader = load(ctx, rng, path, [None, 'EdaxAng', 'edaxang'])
    finally:
        os.remove(path)
    check_phases(ctx, t, em.phases)
    want = t.rad.astype(float)
    want[0] = (want[0] - np.pi / 2)
    want[0] = np.where(want[0] < 0, want[0] + 2 * np.pi, want[0])
    got = np.array(em.data.euler_angle, float)
    # the turn may be reported modulo a full turn near zero
    wrap = np.abs(got[0] - want[0]) > np.pi
    want[0] = np.where(wrap, want[0] + np.sign(got[0] - want[0]) * 2 * np.pi,
                       want[0])
    ctx.check(got[0].min() >= -1e-5 and got[0].max() <= 2 * np.pi + 1e-5,
              'ang_range')
    check_map(ctx, t, em, loader, dict(image_quality=t.IQ,
                                       confidence_index=t.CI,
                                       fit_factor=t.FF), want)


# ---- dictionary ------------------------------------------------------------
def dict_(ctx, rng, i):
    from defdap import ebsd
    from defdap.experiment import Experiment
    s = build.ebsd_spec(rng, max_dim=12)
    d = build.ebsd_dict(s)
    if rng.random() < .3:               # any memory layout
        d = {k: np.asfortranarray(v) if isinstance(v, np.ndarray) else v
             for k, v in d.items()}
    ctx.describe(distinct=[s.shape, s.euler.tobytes().hex()[:60]],
                 shape=s.shape, kind=s.kind)
    em = ebsd.Map(d, data_type=str(rng.choice(['PythonDict', 'pythondict'])),
                  experiment=Experiment())
    ctx.equal(tuple(em.shape), s.shape, 'shape')
    ctx.equal(np.array(em.data.phase), s.phase, 'phase')
    ctx.close(np.array(em.data.euler_angle), s.euler, 'euler', atol=0)
    ctx.equal(np.array(em.data.band_contrast), s.bc, 'channel')
    ctx.close(em.step_size, s.step, 'step_size', atol=0)
    ctx.check(len(em.phases) == len(s.phases) and
              all(a is b for a, b in zip(em.phases, s.phases)), 'n_phases')
    ctx.check(em.primary_phase is s.phases[0], 'primary_phase')


# ---- refusals --------------------------------------------------------------
def refuse(ctx, rng, i):
    from defdap import ebsd
    from defdap.experiment import Experiment
    exp = Experiment()

    def opens(path, dt=None):
        ebsd.Map(path, data_type=dt, experiment=exp)

    def bad(desc, f, exc=Exception):
        ctx.describe(distinct=[i, desc], what=desc)
        with ctx.raises(exc, 'refuse', what=desc):
            f()

    base = build.scratch_file(ctx.scratch, '')
    made = []

    def file(ext):
        made.append(base + ext)
        return base + ext
    try:
        kind = i % 14
        if kind == 0:
            ext = str(rng.choice(['.ctf', '.ang', '.cpr', '.crc', '']))
            bad('missing' + ext, lambda: opens(base + ext), FileNotFoundError)
        elif kind == 1:
            t = truth(rng)
            fields, edx, values, _ = crc_files(ctx, rng, t)
            write_cpr(file('.cpr'), t, fields, edx, rng)
            bad('missing crc', lambda: opens(base + '.cpr'),
                FileNotFoundError)
        elif kind == 2:
            t = truth(rng)
            fields, edx, values, _ = crc_files(ctx, rng, t)
            write_cpr(file('.cpr'), t, fields, edx, rng)
            b = crc_bytes(t, fields, values)
            rec = len(b) // t.phase.size
            cut = rng.integers(1, rec + 1)
            how = rng.choice(['short', 'long'])
            Path(file('.crc')).write_bytes(
                b[:-cut] if how == 'short' else b + b[:rec])
            bad(f'crc {how}', lambda: opens(base + '.cpr'))
        elif kind == 3:
            t = truth(rng)
            write_ctf(file('.ctf'), t, list(COLS),
                      drop_rows=int(rng.integers(1, t.phase.size + 1)))
            bad('ctf short', lambda: opens(base + '.ctf'))
        elif kind == 4:
            t = truth(rng)
            t2 = truth(rng)
            while t2.phase.size == t.phase.size:
                t2 = truth(rng)
            write_ctf(file('.ctf'), t, list(COLS))
            s = Path(base + '.ctf').read_text()
            s = s.replace(f'YCells\t{t.shape[0]}\n',
                          f'YCells\t{t.shape[0] + 1}\n')
            Path(base + '.ctf').write_text(s)
            bad('ctf header size', lambda: opens(base + '.ctf'))
        elif kind == 5:
            t = truth(rng)
            t.phases[0]['laue'] = int(rng.choice([1, 2, 7, 10, 12]))
            ext = str(rng.choice(['.ctf', '.cpr']))
            if ext == '.ctf':
                write_ctf(file('.ctf'), t, list(COLS))
            else:
                fields, edx, values, _ = crc_files(ctx, rng, t)
                write_cpr(file('.cpr'), t, fields, edx, rng)
                Path(file('.crc')).write_bytes(crc_bytes(t, fields, values))
            bad('laue group' + ext, lambda: opens(base + ext), ValueError)
        elif kind == 6:
            t = ang_truth(rng)
            write_ang(file('.ang'), t, t.cols, grid='HexGrid')
            bad('hex grid', lambda: opens(base + '.ang'), ValueError)
        elif kind == 7:
            t = ang_truth(rng)
            t.phases[-1]['sym'] = str(rng.choice(['20', '22', '-3', 'mmm']))
            write_ang(file('.ang'), t, t.cols)
            bad('ang symmetry', lambda: opens(base + '.ang'), ValueError)
        elif kind == 8:
            t = ang_truth(rng)
            write_ang(file('.ang'), t, t.cols,
                      drop_rows=int(rng.integers(1, t.phase.size + 1)))
            bad('ang short', lambda: opens(base + '.ang'))
        elif kind == 9:
            t = ang_truth(rng)
            write_ang(file('.ang'), t, t.cols,
                      numbers=[[k + 2 for k in range(len(t.phases))],
                               [0] + list(range(1, len(t.phases))),
                               list(range(1, len(t.phases))) + [9]
                               if len(t.phases) > 1 else [3],
                               list(range(1, len(t.phases))) + [1]
                               if len(t.phases) > 1 else [0]][
                                   rng.integers(4)])
            bad('ang phase numbers', lambda: opens(base + '.ang'), ValueError)
        elif kind == 10:
            s = build.ebsd_spec(rng, max_dim=10)
            d = build.ebsd_dict(s)
            how = str(rng.choice(['euler shape', 'euler order', 'phases', 'euler count',
                                  'key', 'phase type']))
            if how == 'euler shape':
                d['euler_angle'] = np.zeros((3, s.shape[0], s.shape[1] + 1))
            elif how == 'euler count':
                d['euler_angle'] = np.zeros((int(rng.choice([2, 4])),) +
                                            s.shape)
            elif how == 'euler order':
                d['euler_angle'] = np.zeros(s.shape + (3,))
                if d['euler_angle'].shape == (3,) + s.shape:
                    return
            elif how == 'phases':
                d['phases'] = ['cubic']
            elif how == 'key':
                del d[str(rng.choice(['phase', 'euler_angle', 'step_size',
                                      'phases']))]
            else:
                d['phase'] = d['phase'].ravel()
            bad('dict ' + how, lambda: ebsd.Map(
                d, data_type='PythonDict', experiment=exp))
        elif kind == 11:
            from defdap.crystal import Phase
            lg = int(rng.choice([0, 1, 3, 8, 10, 12]))
            bad(f'phase laue {lg}', lambda: Phase(
                'x', lg, 225, (1, 1, 1, 1.57, 1.57, 1.57)), ValueError)
        elif kind == 12:
            t = truth(rng)
            write_ctf(file('.ctf'), t, list(COLS))
            bad('unknown data type', lambda: opens(
                base + '.ctf', str(rng.choice(['Bruker', 'ctf', 'h5']))),
                ValueError)
        else:
            t = truth(rng)
            cols = list(COLS)
            write_ctf(file('.ctf'), t, cols)
            s = Path(base + '.ctf').read_text()
            Path(base + '.ctf').write_text(s.replace('\tBands\t', '\tFoo\t'))
            bad('unknown ctf column', lambda: opens(base + '.ctf'), TypeError)
    finally:
        for p in made:
            if os.path.exists(p):
                os.remove(p)


STREAMS = [Stream('ctf', 60, 1500, ctf), Stream('crc', 60, 1500, crc),
           Stream('ang', 60, 1500, ang), Stream('dict', 40, 600, dict_),
           Stream('refuse', 140, 2000, refuse)]
