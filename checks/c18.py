"""C18: a saved EBSD map loads back as the same map."""
import os
from pathlib import Path

import numpy as np

from vt import build, ref
from vt.core import Stream

PROPERTY = 'C18'
RULE = ('random maps (dictionary, .cpr/.crc and .ctf origin, several phases, '
        'non-indexed points, after rotation, filtering or grain finding) '
        'saved with ebsd.Map.save and loaded again, repeatedly; existing '
        'files must survive; distinct by content and history')
ASSUMPTIONS = ['written precision: 0.001 degree and 0.001 lattice units, '
               'step size 0.0001 um', 'band contrast is a whole number 0..255']
REQUIRE = {'verdict:orientation': 1000, 'verdict:slip_systems': 60,
           'verdict:not_overwritten': 20, 'bcc': 8, 'fcc': 8, 'hcp': 15,
           'rotated': 5, 'twice': 15, 'non_indexed': 10}


def mats(em):
    h, w = em.shape
    out = np.empty((h, w, 3, 3))
    o = em.data.orientation
    for idx in np.ndindex(h, w):
        out[idx] = o[idx].rot_matrix()
    return out


def state(em):
    return dict(shape=tuple(em.shape), step=em.step_size,
                phase=np.array(em.data.phase).astype(int),
                bc=np.array(em.data.band_contrast).astype(float),
                g=mats(em), phases=[phase_state(p) for p in em.phases])


def phase_state(p):
    ss = p.slip_systems
    return dict(name=p.name, laue=p.laue_group, space=p.spaceGroup or 0,
                structure=p.crystal_structure.
                name, lattice=np.array(p.lattice_params, float),
                ss=None if ss is None else [[str(s) for s in g] for g in ss],
                file=p.ss_file)


def same_state(ctx, got, want, ang_tol, what):
    ctx.equal(got['shape'], want['shape'], 'shape', what=what)
    ctx.close(got['step'], want['step'], 'step_size', atol=5.01e-5, what=what)
    ctx.equal(got['phase'], want['phase'], 'phase', what=what)
    ctx.close(got['bc'], want['bc'], 'band_contrast', atol=.5, what=what)
    if 'unchanged' in what:
        ctx.equal(got['bc'], want['bc'], 'band_contrast', what=what)
    else:
        ctx.equal(got['bc'], np.round(got['bc']), 'band_contrast', what=what)
    ctx.close(got['g'], want['g'], 'orientation', atol=ang_tol, what=what)
    ctx.equal(len(got['phases']), len(want['phases']), 'n_phases')
    for a, b in zip(got['phases'], want['phases']):
        for k in ('name', 'laue', 'space', 'structure'):
            ctx.check(a[k] == b[k], 'phase_' + k, got=a, want=b)
        ctx.close(a['lattice'][:3], b['lattice'][:3], 'lattice',
                  atol=5.01e-4)
        ctx.close(np.degrees(a['lattice'][3:]), np.degrees(b['lattice'][3:]),
                  'lattice', atol=5.01e-4)
        ctx.check(a['ss'] == b['ss'], 'slip_systems', got=a['ss'],
                  want=b['ss'], phase=b['name'])


TOL = np.radians(.0005) * 4       # rounding of three angles, and float32


def written(ctx, text, st):
    """The columns other programs go by: position and index of each point."""
    h, w = st['shape']
    lines = text.splitlines()
    k = max(n for n, ln in enumerate(lines) if ln.startswith('Phase\t'))
    cols = lines[k].split('\t')
    rows = [ln.split('\t') for ln in lines[k + 1:] if ln.strip()]
    ctx.equal(len(rows), h * w, 'rows')
    col = {c: np.array([float(r[n]) for r in rows]).reshape(h, w)
           for n, c in enumerate(cols)}
    y, x = np.indices((h, w)) * st['step']
    ctx.close(col['X'], x, 'x_column', atol=5.1e-4)
    ctx.close(col['Y'], y, 'y_column', atol=5.1e-4)
    ctx.equal(col['Error'] != 0, st['phase'] == 0, 'error_column')
    head = dict(ln.split('\t')[:2] for ln in lines[:k] if '\t' in ln)
    for key in ('XStep', 'YStep'):
        ctx.close(float(head[key]), st['step'], 'step_header', atol=5.1e-5)


def writer(ctx, rng, i):
    """The writer on its own, with the acquisition rotation."""
    from defdap.file_readers import EBSDDataLoader
    from defdap.file_writers import EBSDDataWriter
    from defdap.quat import Quat
    em = build.ebsd_map(build.ebsd_spec(rng, max_dim=6))
    w = EBSDDataWriter.get_writer([None, 'OxfordText'][i % 2])
    acq = ref.random_eulers(rng) if i % 4 else np.zeros(3)
    w.metadata.update(shape=em.shape, step_size=em.step_size,
                      phases=em.phases, acquisition_rotation=Quat
                      .from_euler_angles(*acq))
    w.data.update(phase=em.data.phase, quat=em.data.orientation,
                  band_contrast=em.data.band_contrast)
    base = build.scratch_file(ctx.scratch, '')
    ctx.describe(distinct=[i, acq.tolist()], acquisition=acq)
    try:
        w.write(base)
        ld = EBSDDataLoader.get_loader(None, Path(base + '.ctf'))
        ld.load(Path(base + '.ctf'))
    finally:
        os.remove(base + '.ctf')
    ctx.close(np.array(ld.loaded_metadata['acquisition_rotation']
                       .rot_matrix()), ref.bunge(*acq), 'acquisition',
              atol=1e-5)
    ctx.equal(np.array(ld.loaded_data.phase), np.array(em.data.phase),
              'phase')


def origin(ctx, rng, phases):
    """A map to save."""
    from defdap import ebsd
    from defdap.experiment import Experiment
    shape = build.long_shape(rng) if rng.random() < .05 else None
    ctx.observe('long_maps', shape is not None)
    s = build.ebsd_spec(rng, phases=phases, max_dim=12, shape=shape)
    # step sizes below the written precision are outside the domain
    s.step = float(rng.choice([.05, .12, 1., 2.5, .0123]))
    kind = str(rng.choice(['dict', 'dict', 'crc']))
    if kind == 'dict':
        d = build.ebsd_dict(s)
        d['band_contrast'] = d['band_contrast'].astype(
            rng.choice(['uint8', 'int64', 'uint16', 'float64']))
        if d['band_contrast'].dtype.kind == 'f' and rng.integers(2):
            d['band_contrast'] = np.clip(d['band_contrast'] + rng.uniform(
                -.4, .4, d['band_contrast'].shape), 0, 255)
            ctx.observe('fractional')
        if rng.random() < .3:           # any memory layout
            d = {k: np.asfortranarray(v) if isinstance(v, np.ndarray) else v
                 for k, v in d.items()}
        em = ebsd.Map(d, data_type='PythonDict', experiment=Experiment())
    else:
        from checks import c17
        t = c17.truth(rng)
        fields, edx, values, _ = c17.crc_files(ctx, rng, t)
        base = build.scratch_file(ctx.scratch, '')
        c17.write_cpr(base + '.cpr', t, fields, edx, rng)
        Path(base + '.crc').write_bytes(c17.crc_bytes(t, fields, values))
        em = ebsd.Map(base + '.cpr', experiment=Experiment())
        os.remove(base + '.cpr')
        os.remove(base + '.crc')
    return em, kind


def roundtrip(ctx, rng, i):
    from defdap import ebsd
    from defdap.experiment import Experiment
    bcc = build.cubic_phase('iron bcc', 229)
    phases = [None, [build.cubic_phase('fcc')], [bcc], [build.hex_phase()],
              [bcc, build.hex_phase('Ti-alpha'), build.cubic_phase()],
              [build.cubic_phase('none', 200)],
              [build.hex_phase('Ti', sg=None), build.cubic_phase('x', 0)],
              [(build.hex_phase if k % 3 else build.cubic_phase)(f'p{k}')
               for k in range(14)]][int(rng.integers(8))]
    em, kind = origin(ctx, rng, phases)
    hist = []
    for _ in range(int(rng.integers(0, 3))):
        op = str(rng.choice(['rotate', 'grains', 'filter', 'average', 'save']))
        hist.append(op)
        if op == 'rotate':
            em.rotate_data()
            ctx.observe('rotated')
        elif op == 'grains':
            em.data.generate('grains', min_grain_size=1)
        elif op == 'filter':
            em.filter_data(misori_tol=5)
        elif op == 'average':
            em.data.generate('grains', min_grain_size=1)
            em.calc_grain_av_oris()
        elif op == 'save':
            p = build.scratch_file(ctx.scratch, '')
            em.save(p)
            os.remove(p + '.ctf')
    for p in em.phases:
        ctx.observe({'FCC': 'fcc', 'BCC': 'bcc', 'HCP': 'hcp'}.get(
            os.path.basename(str(p.ss_file)), '') or
            ('hcp' if p.laue_group == 9 else
             {225: 'fcc', 229: 'bcc'}.get(p.spaceGroup, 'other cubic')))
    before = state(em)
    ctx.observe('non_indexed', (before['phase'] == 0).any())
    ctx.observe('many_phases', before['phase'].max() > 9)
    ctx.describe(distinct=[kind, hist, before['shape'],
                           before['g'].tobytes().hex()[:60]],
                 shape=before['shape'], kind=kind, history=hist,
                 phases=[p['name'] for p in before['phases']])
    name = str(rng.choice(['map', 'a.b', 'with space', 'm_1']))
    sub = os.path.join(ctx.scratch, 'd%d' % i)
    os.mkdir(sub)
    try:
        full = os.path.join(sub, name + '.ctf')
        how = rng.integers(4)
        if how == 0:
            em.save(name, file_dir=sub)
        elif how == 1:
            em.save(os.path.join(sub, name))
        elif how == 2:
            em.save(name, data_type='OxfordText', file_dir=sub)
        else:
            em.save(name, file_dir=Path(sub))
        ctx.equal(os.listdir(sub), [name + '.ctf'], 'one_file')
        after = state(em)
        same_state(ctx, after, before, 0, 'map unchanged by saving')
        text = Path(full).read_bytes()
        written(ctx, text.decode(), before)
        # a second save must not touch the file
        with ctx.raises(FileExistsError, 'refuse_existing'):
            em.save(name, file_dir=sub)
        ctx.check(Path(full).read_bytes() == text, 'not_overwritten')
        back = ebsd.Map(full if rng.integers(2) else Path(full), data_type=[
            None, 'OxfordText'][rng.integers(2)], experiment=Experiment())
        same_state(ctx, state(back), before, TOL, 'loaded')
        if rng.integers(2):
            ctx.observe('twice')
            back.save('again', file_dir=sub)
            third = ebsd.Map(os.path.join(sub, 'again.ctf'),
                             experiment=Experiment())
            same_state(ctx, state(third), before, 2 * TOL, 'second trip')
    finally:
        for f in os.listdir(sub):
            os.remove(os.path.join(sub, f))
        os.rmdir(sub)


def existing(ctx, rng, i):
    """Whatever lies at the destination stays."""
    s = build.ebsd_spec(rng, max_dim=6)
    em = build.ebsd_map(s)
    sub = os.path.join(ctx.scratch, 'x%d' % i)
    os.mkdir(sub)
    kind = ['text', 'empty', 'dir', 'link'][i % 4]
    full = os.path.join(sub, 'm.ctf')
    content = rng.bytes(int(rng.integers(1, 200)))
    ctx.describe(distinct=[kind, content.hex()[:40]], kind=kind)
    try:
        if kind == 'text':
            Path(full).write_bytes(content)
        elif kind == 'empty':
            content = b''
            Path(full).write_bytes(content)
        elif kind == 'dir':
            os.mkdir(full)
        else:
            Path(sub, 'target').write_bytes(content)
            os.symlink(os.path.join(sub, 'target'), full)
        with ctx.raises(OSError, 'refuse_existing', kind=kind):
            em.save('m', file_dir=sub)
        if kind == 'dir':
            ctx.check(os.path.isdir(full) and not os.listdir(full),
                      'not_overwritten')
        else:
            ctx.check(Path(full).read_bytes() == content, 'not_overwritten',
                      kind=kind)
        with ctx.raises(ValueError, 'refuse_type'):
            em.save('n', data_type='OxfordBinary', file_dir=sub)
        ctx.check('n.ctf' not in os.listdir(sub), 'no_file_left')
    finally:
        if kind == 'dir':
            os.rmdir(full)
        for f in os.listdir(sub):
            os.remove(os.path.join(sub, f))
        os.rmdir(sub)


STREAMS = [Stream('roundtrip', 90, 2000, roundtrip),
           Stream('writer', 20, 300, writer),
           Stream('existing', 24, 100, existing)]
